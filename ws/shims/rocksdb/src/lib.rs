//! Stand-in for rust-rocksdb: an ordered in-memory database with a crash-observable write log.
//! Every put/delete/write call is one atomic record, like one RocksDB WAL record.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error { pub fn into_string(self) -> String { self.0 } }
#[derive(Debug, Clone, Default)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
}
#[derive(Debug, Clone, Copy)]
pub enum DBCompressionType { None, Snappy, Lz4, Zstd }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Op { Put(Vec<u8>, Vec<u8>), Delete(Vec<u8>) }
#[derive(Debug, Clone, Default)]
pub struct WriteBatch(pub Vec<Op>);
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) { self.0.push(Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec())) }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) { self.0.push(Op::Delete(k.as_ref().to_vec())) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn clear(&mut self) { self.0.clear() }
}
#[derive(Debug, Clone)]
pub struct DBVector(Vec<u8>);
impl std::ops::Deref for DBVector { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
pub enum Direction { Forward, Reverse }
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }
/// The log of atomic records.
#[derive(Debug, Default)]
pub struct Inner { log: Arc<Mutex<Vec<Vec<Op>>>>, map: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>, failing: std::sync::atomic::AtomicBool, used: std::sync::atomic::AtomicU64, limit: std::sync::atomic::AtomicU64 }
/// A handle; its copies are handles of the same database.
#[derive(Debug, Clone, Default)]
pub struct DB(Arc<Inner>);
impl std::ops::Deref for DB { type Target = Inner; fn deref(&self) -> &Inner { &self.0 } }
thread_local! { static DISKS: std::cell::RefCell<BTreeMap<std::path::PathBuf, DB>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
impl DB {
    /// From now on (in this thread) whoever opens `path` gets this database.
    pub fn mount(&self, path: &str) { DISKS.with(|d| d.borrow_mut().insert(path.into(), self.clone())); }
    /// Nothing is mounted any more.
    pub fn unmount_all() { DISKS.with(|d| d.borrow_mut().clear()) }
    /// Frees what is in it.
    pub fn wipe(&self) { self.log.lock().unwrap().clear(); self.map.lock().unwrap().clear() }
    /// How many records were written.
    pub fn records(&self) -> usize { self.log.lock().unwrap().len() }
    /// Lets `n` more accesses through and refuses all after them; `None` lifts the limit. Counts from here.
    pub fn fail_after(&self, n: Option<u64>) {
        self.used.store(0, std::sync::atomic::Ordering::SeqCst);
        self.limit.store(n.map_or(0, |n| n + 1), std::sync::atomic::Ordering::SeqCst)
    }
    /// The accesses since `fail_after` was last called.
    pub fn used(&self) -> u64 { self.used.load(std::sync::atomic::Ordering::SeqCst) }
    /// From now on every access is refused, as when the disk is gone.
    pub fn set_failing(&self, x: bool) { self.failing.store(x, std::sync::atomic::Ordering::SeqCst) }
    fn ok(&self) -> Result<(), Error> { let n = self.used.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1; let l = self.limit.load(std::sync::atomic::Ordering::SeqCst); if l != 0 && n >= l || self.failing.load(std::sync::atomic::Ordering::SeqCst) { Err(Error("IO error: injected".into())) } else { Ok(()) } }
    pub fn in_memory() -> DB { DB::default() }
    /// The state after a crash that kept exactly `records`.
    pub fn from_log(records: &[Vec<Op>]) -> DB {
        let db = DB::default();
        for r in records { db.write(WriteBatch(r.clone())).unwrap() }
        db
    }
    pub fn log(&self) -> Vec<Vec<Op>> { self.log.lock().unwrap().clone() }
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> { self.map.lock().unwrap().clone() }
    pub fn open<P: AsRef<std::path::Path>>(_: &Options, p: P) -> Result<DB, Error> { Ok(DISKS.with(|d| d.borrow().get(p.as_ref()).cloned()).unwrap_or_default()) }
    pub fn open_default<P>(_: P) -> Result<DB, Error> { Ok(DB::default()) }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> { self.ok()?; Ok(self.map.lock().unwrap().get(k.as_ref()).cloned().map(DBVector)) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> { let mut b = WriteBatch::default(); b.put(k, v); self.write(b) }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { let mut b = WriteBatch::default(); b.delete(k); self.write(b) }
    pub fn flush(&self) -> Result<(), Error> { self.ok() }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.ok()?;
        let mut m = self.map.lock().unwrap();
        for op in &b.0 {
            match op { Op::Put(k, v) => { m.insert(k.clone(), v.clone()); } Op::Delete(k) => { m.remove(k); } }
        }
        self.log.lock().unwrap().push(b.0);
        Ok(())
    }
    /// Without a prefix extractor RocksDB's prefix_iterator seeks to the prefix and goes on to the end.
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIterator { self.iterator(IteratorMode::From(p.as_ref(), Direction::Forward)) }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        let m = self.map.lock().unwrap();
        let b = |(k, v): (&Vec<u8>, &Vec<u8>)| Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice()));
        let v: Vec<_> = match mode {
            IteratorMode::Start => m.iter().map(b).collect(),
            IteratorMode::End => m.iter().rev().map(b).collect(),
            IteratorMode::From(k, Direction::Forward) => m.range(k.to_vec()..).map(b).collect(),
            IteratorMode::From(k, Direction::Reverse) => m.range(..=k.to_vec()).rev().map(b).collect(),
        };
        DBIterator(v.into_iter())
    }
}
pub struct DBIterator(std::vec::IntoIter<Result<(Box<[u8]>, Box<[u8]>), Error>>);
impl Iterator for DBIterator { type Item = Result<(Box<[u8]>, Box<[u8]>), Error>; fn next(&mut self) -> Option<Self::Item> { self.0.next() } }
