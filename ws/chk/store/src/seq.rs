use mc::{Ch, Run, ensure, explore, guard, same};
use std::collections::BTreeMap;
use witnet_storage::backends::{hashmap, nobackend, rocks};
use witnet_storage::storage::{Storage, WriteBatch};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

/// Keys that are prefixes of each other, empty, and at the edges of the byte range.
fn keys() -> Vec<Vec<u8>> {
    vec![b"a".to_vec(), b"ab".to_vec(), b"b".to_vec(), vec![], vec![0xff], vec![0xff, 0], b"a\0".to_vec()]
}
fn values() -> Vec<Vec<u8>> {
    vec![b"1".to_vec(), vec![], b"2".to_vec()]
}
fn prefixes() -> Vec<Vec<u8>> {
    vec![vec![], b"a".to_vec(), b"ab".to_vec(), b"abc".to_vec(), b"b".to_vec(), vec![0xff], vec![0xff, 0xff], b"a\0".to_vec()]
}

#[derive(Clone, Debug)]
enum W {
    Put(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
}
fn spec(m: &mut Map, w: &W) {
    match w {
        W::Put(k, v) => {
            m.insert(k.clone(), v.clone());
        }
        W::Del(k) => {
            m.remove(k);
        }
    }
}
fn batch(l: &[W]) -> WriteBatch {
    let mut b = WriteBatch::default();
    for w in l {
        match w {
            W::Put(k, v) => b.put(k.clone(), v.clone()),
            W::Del(k) => b.delete(k.clone()),
        }
    }
    b
}
fn run_one(s: &dyn Storage, w: &W) -> Result<(), String> {
    match w {
        W::Put(k, v) => s.put(k.clone(), v.clone()),
        W::Del(k) => s.delete(k),
    }
    .map_err(|e| e.to_string())
}
/// Everything that can be read equals the map.
fn compare(what: &str, s: &dyn Storage, m: &Map, ks: &[Vec<u8>]) -> Result<(), String> {
    for k in ks {
        same!(s.get(k).map_err(|e| e.to_string())?, m.get(k).cloned(), "{what}: value of {k:?}");
    }
    for p in prefixes() {
        let mut got: Vec<_> = s.prefix_iterator(&p).map_err(|e| e.to_string())?.collect();
        got.sort();
        let want: Vec<_> = m.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        same!(got, want, "{what}: entries with prefix {p:?}");
        // A second iterator starts over; stopping early does no harm.
        let it = s.prefix_iterator(&p).map_err(|e| e.to_string())?;
        same!(it.take(1).count(), want.len().min(1), "{what}: first entry with prefix {p:?}");
        let mut it = s.prefix_iterator(&p).map_err(|e| e.to_string())?;
        for _ in 0..want.len() {
            ensure!(it.next().is_some(), "{what}: iterator over {p:?} ends early");
        }
        ensure!(it.next().is_none() && it.next().is_none(), "{what}: iterator over {p:?} goes on after its end");
        // Every other way to consume an iterator says the same as `next`.
        let open = || s.prefix_iterator(&p).map_err(|e| e.to_string());
        let order: Vec<_> = open()?.collect();
        same!(open()?.count(), order.len(), "{what}: count with prefix {p:?}");
        same!(open()?.last(), order.last().cloned(), "{what}: last with prefix {p:?}");
        for i in 0..=order.len().min(3) {
            let mut it = open()?;
            same!(it.nth(i), order.get(i).cloned(), "{what}: element {i} with prefix {p:?}");
            let (lo, hi) = it.size_hint();
            let left = order.len().saturating_sub(i + 1);
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: {left} entries are left with prefix {p:?}, the hint is {lo}..{hi:?}");
            same!(it.next(), order.get(i + 1).cloned(), "{what}: element after {i} with prefix {p:?}");
        }
        // Two at once, and reads in between, do not disturb each other.
        let (mut a, mut b) = (open()?, open()?);
        for (i, x) in order.iter().enumerate() {
            same!(a.next().as_ref(), Some(x), "{what}: element {i} of the first of two iterators over {p:?}");
            same!(s.get(&x.0).map_err(|e| e.to_string())?.as_ref(), Some(&x.1), "{what}: value while iterating");
            if i % 2 == 1 {
                same!(b.next().as_ref(), Some(&order[i / 2]), "{what}: element {} of the second of two iterators over {p:?}", i / 2);
            }
        }
    }
    Ok(())
}

pub fn map(run: &mut Run) {
    let nk = run.pick(4, 5);
    let depth = run.pick(5, 6);
    explore(run, "histories", move |c: &mut Ch| {
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        let ks: Vec<_> = keys().into_iter().take(nk).collect();
        for _ in 0..c.pick(depth + 1) {
            let k = c.of(&ks);
            let w = match c.pick(3) {
                0 => W::Del(k),
                i => W::Put(k, values()[i - 1].clone()),
            };
            c.op(|| format!("{w:?}"));
            run_one(&h, &w)?;
            run_one(&r, &w)?;
            spec(&mut m, &w);
        }
        compare("memory", &h, &m, &ks)?;
        compare("rocksdb", &r, &m, &ks)?;
        c.state(&m);
        c.outcome(&format!("{} entries", m.len()));
        Ok(())
    });
    // The same few operations over and over.
    let (len, times) = (run.pick(3, 4), run.pick(60, 100));
    explore(run, "again and again", move |c: &mut Ch| {
        let ks = keys();
        let menu = [W::Put(ks[0].clone(), b"1".to_vec()), W::Put(ks[1].clone(), b"2".to_vec()), W::Put(ks[0].clone(), b"3".to_vec()), W::Del(ks[0].clone()), W::Del(ks[1].clone()), W::Del(ks[2].clone()), W::Put(ks[3].clone(), vec![])];
        let word: Vec<(W, bool)> = (0..1 + c.pick(len)).map(|_| (c.of(&menu), c.flag())).collect();
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        c.op(|| format!("{times} times {word:?}"));
        for i in 0..times {
            for (w, alone) in &word {
                for s in [&h as &dyn Storage, &r] {
                    if *alone {
                        run_one(s, w)?;
                    } else {
                        s.write(batch(std::slice::from_ref(w))).map_err(|e| e.to_string())?;
                    }
                }
                spec(&mut m, w);
            }
            for k in &ks[..4] {
                same!(Storage::get(&h, k).map_err(|e| e.to_string())?, m.get(k).cloned(), "memory, time {i}: value of {k:?}");
                same!(Storage::get(&r, k).map_err(|e| e.to_string())?, m.get(k).cloned(), "rocksdb, time {i}: value of {k:?}");
            }
        }
        compare("memory", &h, &m, &ks)?;
        compare("rocksdb", &r, &m, &ks)?;
        c.ops(times as u64 * word.len() as u64);
        c.state(&format!("{word:?}"));
        Ok(())
    });
    // Filled, emptied almost, filled again.
    explore(run, "growing and shrinking", |c: &mut Ch| {
        let n = c.of(&[100u32, 1000, 5000, 20_000]);
        let left = c.of(&[0u32, 1, 10, 90, 700, 2400]).min(n);
        let how = c.pick(3);
        let front = c.flag();
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let key = |i: u32| i.to_be_bytes().to_vec();
        let gone = |i: u32| if front { i < n - left } else { i >= left };
        for s in [&h as &dyn Storage, &r] {
            for round in 0..2u8 {
                for i in 0..n {
                    s.put(key(i), vec![round; 3]).map_err(|e| e.to_string())?;
                }
                let l: Vec<W> = (0..n).filter(|i| gone(*i)).map(|i| W::Del(key(i))).collect();
                match how {
                    0 => l.iter().try_for_each(|w| run_one(s, w))?,
                    1 => s.write(batch(&l)).map_err(|e| e.to_string())?,
                    _ => l.chunks(77).try_for_each(|l| s.write(batch(l))).map_err(|e| e.to_string())?,
                }
                let mut got: Vec<_> = s.prefix_iterator(&[]).map_err(|e| e.to_string())?.collect();
                got.sort();
                let want: Vec<_> = (0..n).filter(|i| !gone(*i)).map(|i| (key(i), vec![round; 3])).collect();
                ensure!(got == want, "of {n} entries {left} should be left, {} are", got.len());
                for i in (0..n).step_by(13) {
                    same!(s.get(&key(i)).map_err(|e| e.to_string())?, (!gone(i)).then(|| vec![round; 3]), "value {i} of {n}");
                }
            }
        }
        c.ops(4 * n as u64);
        c.op(|| format!("{n} entries, {left} left"));
        c.state(&(n, left, how, front));
        Ok(())
    });
    explore(run, "every set of keys", |c: &mut Ch| {
        let ks = keys();
        let set = c.subset(ks.len());
        let del = c.subset(ks.len());
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        let mut ws: Vec<W> = (0..ks.len()).filter(|i| set >> i & 1 == 1).map(|i| W::Put(ks[i].clone(), vec![i as u8; i])).collect();
        ws.extend((0..ks.len()).filter(|i| del >> i & 1 == 1).map(|i| W::Del(ks[i].clone())));
        for w in &ws {
            run_one(&h, w)?;
            run_one(&r, w)?;
            spec(&mut m, w);
        }
        c.ops(ws.len() as u64);
        c.op(|| format!("{ws:?}"));
        compare("memory", &h, &m, &ks)?;
        compare("rocksdb", &r, &m, &ks)?;
        c.state(&m);
        Ok(())
    });
    let sizes: Vec<usize> = run.pick(vec![0, 1, 2, 255, 256, 257, 1000], vec![0, 1, 255, 256, 257, 1000, 5000]);
    explore(run, "many entries", move |c: &mut Ch| {
        let n = c.of(&sizes);
        let p = c.of(&[b"".to_vec(), b"k".to_vec(), b"k\x01".to_vec(), b"z".to_vec()]);
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        for i in 0..n {
            let mut k = if i % 5 == 4 { b"x".to_vec() } else { b"k".to_vec() };
            k.extend((i as u16).to_be_bytes());
            let w = W::Put(k, vec![i as u8; i % 40]);
            run_one(&h, &w)?;
            run_one(&r, &w)?;
            spec(&mut m, &w);
        }
        for (name, s) in [("memory", &h as &dyn Storage), ("rocksdb", &r)] {
            let mut got: Vec<_> = s.prefix_iterator(&p).map_err(|e| e.to_string())?.collect();
            got.sort();
            let want: Vec<_> = m.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k.clone(), v.clone())).collect();
            same!(got, want, "{name}: {n} entries with prefix {p:?}");
        }
        c.ops(n as u64);
        c.op(|| format!("{n} entries, prefix {p:?}"));
        c.state(&(n, p));
        Ok(())
    });
    // The whole of a long scan, and whole prefixes of it.
    let long: Vec<usize> = run.pick(vec![2000, 4097, 10_001, 20_000], vec![10_001, 65_537, 100_001]);
    explore(run, "long scans", move |c: &mut Ch| {
        let n = c.of(&long);
        let r = rocks::Backend::in_memory();
        let mut b = WriteBatch::default();
        for i in 0..n as u32 {
            b.put([&b"k"[..], &i.to_be_bytes()].concat(), i.to_le_bytes().to_vec());
        }
        b.put(b"z".to_vec(), vec![]);
        Storage::write(&r, b).map_err(|e| e.to_string())?;
        for p in [&b""[..], b"k", b"k\0", b"k\0\0\x01"] {
            let k = Storage::prefix_iterator(&r, p).map_err(|e| e.to_string())?.filter(|(k, _)| k.starts_with(p)).count();
            let want = match p.len() { 0 => n + 1, 4 => 256.min(n - 256), _ => n };
            same!(k, want, "entries found among {n} with prefix {p:?}");
        }
        c.ops(n as u64);
        c.op(|| format!("{n} entries"));
        c.state(&n);
        Ok(())
    });
    // Keys of realistic length, alike up to any position, under prefixes of any length.
    let lens: Vec<usize> = run.pick(vec![1, 2, 8, 9, 16, 31, 32, 33, 40, 64, 65], (1..=130).collect());
    explore(run, "long keys", move |c: &mut Ch| {
        let n = c.of(&lens);
        let at = c.pick(n);
        let base: Vec<u8> = (0..n).map(|i| b"key-"[i % 4]).collect();
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        let mut ks = vec![base.clone(), base[..at].to_vec(), [&base[..], b"x"].concat()];
        for d in [0u8, 0xff, base[at] + 1, base[at] - 1] {
            let mut k = base.clone();
            k[at] = d;
            ks.push(k);
        }
        for (i, k) in ks.iter().enumerate() {
            let w = W::Put(k.clone(), vec![i as u8]);
            run_one(&h, &w)?;
            run_one(&r, &w)?;
            spec(&mut m, &w);
        }
        for (name, s) in [("memory", &h as &dyn Storage), ("rocksdb", &r)] {
            for k in &ks {
                same!(s.get(k).map_err(|e| e.to_string())?, m.get(k).cloned(), "{name}: value of {k:?}");
                for p in [at.min(k.len()), (at + 1).min(k.len()), k.len()] {
                    let p = &k[..p];
                    let mut got: Vec<_> = s.prefix_iterator(p).map_err(|e| e.to_string())?.collect();
                    got.sort();
                    let want: Vec<_> = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
                    same!(got, want, "{name}: entries with prefix {p:?}");
                }
            }
        }
        c.op(|| format!("keys of {n} bytes, alike up to {at}"));
        c.ops(28);
        c.state(&(n, at));
        Ok(())
    });
    // Values of any size come back whole.
    let sizes: Vec<usize> = run.pick(vec![0, 1, 255, 256, 4095, 4096, 4097, 65_535, 65_536, 1 << 20], vec![0, 1, 127, 128, 255, 256, 4095, 4096, 4097, 65_535, 65_536, 65_537, 1 << 20, (1 << 24) + 1]);
    explore(run, "value sizes", move |c: &mut Ch| {
        let n = c.of(&sizes);
        let k = c.of(&[0usize, 1, 300, 70_000]);
        let (k, v) = (vec![7u8; k], (0..n).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<_>>());
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        for (name, s) in [("memory", &h as &dyn Storage), ("rocksdb", &r)] {
            run_one(s, &W::Put(k.clone(), v.clone()))?;
            ensure!(s.get(&k).map_err(|e| e.to_string())?.as_deref() == Some(&v[..]), "{name}: a value of {n} bytes under a key of {} does not come back", k.len());
            ensure!(s.prefix_iterator(&k).map_err(|e| e.to_string())?.collect::<Vec<_>>() == [(k.clone(), v.clone())], "{name}: a value of {n} bytes under a key of {} is not found by scanning", k.len());
            let mut k2 = k.clone();
            k2.push(0);
            same!(s.get(&k2).map_err(|e| e.to_string())?, None, "{name}: longer key");
            // Overwritten by one of the same size, by a shorter one, removed, and back.
            let mut w = v.clone();
            if let Some(x) = w.last_mut() {
                *x ^= 1;
            }
            for x in [Some(w), Some(v[..n / 2].to_vec()), None, Some(v.clone()), Some(vec![]), None, None] {
                run_one(s, &match &x { Some(x) => W::Put(k.clone(), x.clone()), None => W::Del(k.clone()) })?;
                ensure!(s.get(&k).map_err(|e| e.to_string())? == x, "{name}: overwriting or removing a value of {n} bytes");
            }
        }
        c.op(|| format!("{n} bytes"));
        c.state(&(n, k.len()));
        Ok(())
    });
    explore(run, "refusals", |c: &mut Ch| {
        // The null backend refuses everything; so does a database whose disk is gone, which then keeps what it had.
        let k = c.of(&keys());
        let op = c.pick(5);
        let r = rocks::Backend::in_memory();
        run_one(&r, &W::Put(b"a".to_vec(), b"1".to_vec()))?;
        let before = r.dump();
        let n = nobackend::Backend;
        let done = |s: &dyn Storage| -> Result<bool, String> {
            guard(|| match op {
                0 => s.get(&k).is_ok(),
                1 => s.put(k.clone(), b"2".to_vec()).is_ok(),
                2 => s.delete(&k).is_ok(),
                3 => s.write(batch(&[W::Put(k.clone(), vec![]), W::Del(b"a".to_vec())])).is_ok(),
                _ => s.prefix_iterator(&k).is_ok(),
            })
        };
        c.op(|| format!("operation {op} on {k:?}"));
        c.state(&(op, &k));
        ensure!(!done(&n)?, "the null backend pretends to do operation {op}");
        if op < 4 {
            r.set_failing(true);
            ensure!(!done(&r)?, "operation {op} reported as done although the database refused it");
            r.set_failing(false);
            same!(r.dump(), before, "contents after a refused operation");
        }
        Ok(())
    });
}

pub fn batches(run: &mut Run) {
    let nk = 3;
    let items = run.pick(3, 4);
    explore(run, "batches on a history", move |c: &mut Ch| {
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let ks: Vec<_> = keys().into_iter().take(nk).collect();
        let vs = values();
        let mut m = Map::new();
        let mut marks = vec![(0, m.clone())];
        // What was there before.
        let set = c.subset(nk);
        for i in 0..nk {
            if set >> i & 1 == 1 {
                let w = W::Put(ks[i].clone(), b"old".to_vec());
                run_one(&h, &w)?;
                run_one(&r, &w)?;
                spec(&mut m, &w);
                marks.push((r.log().len(), m.clone()));
            }
        }
        let n = c.pick(items + 1);
        let mut l: Vec<W> = vec![];
        for _ in 0..n {
            let k = c.of(&ks);
            l.push(match c.pick(3) {
                0 => W::Del(k),
                i => W::Put(k, vs[i - 1].clone()),
            });
        }
        c.op(|| format!("{m:?} then {l:?}"));
        Storage::write(&h, batch(&l)).map_err(|e| e.to_string())?;
        Storage::write(&r, batch(&l)).map_err(|e| e.to_string())?;
        for w in &l {
            spec(&mut m, w);
        }
        marks.push((r.log().len(), m.clone()));
        compare("memory", &h, &m, &ks)?;
        compare("rocksdb", &r, &m, &ks)?;
        c.state(&(&m, n));
        // A crash at any record: recovery finds the state after a whole number of operations.
        let log = r.log();
        for cut in 0..=log.len() {
            let back = rocks::Backend::from_log(&log[..cut]);
            let d: Map = back.dump();
            let want = marks.iter().rev().find(|x| x.0 <= cut).unwrap();
            // Acknowledged operations are there, and no part of the next one.
            same!(d, want.1, "contents after a crash at record {cut} of {}", log.len());
            compare("recovered", &back, &want.1, &ks)?;
        }
        c.ops(log.len() as u64);
        c.outcome(&format!("batch of {n}"));
        Ok(())
    });
    let sizes: Vec<usize> = run.pick(vec![10, 16, 17, 100, 256, 1000, 1024, 1025, 5000], vec![10, 100, 1000, 1024, 1025, 4096, 4097, 20_000, 70_000]);
    // What is in a batch does not change that it is one: values and keys of any size, in any order.
    let vs: Vec<usize> = run.pick(vec![0, 1, 255, 256, 1024, 4095, 4096, 4097, 65_535, 65_537, 1 << 20], vec![0, 1, 255, 1024, 4096, 4097, 65_537, 1 << 20, (1 << 24) + 1]);
    explore(run, "batches of large things", move |c: &mut Ch| {
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let (n, kn) = (c.of(&vs), c.of(&[1usize, 40, 300, 5000]));
        let k = vec![5u8; kn];
        let v: Vec<u8> = (0..n).map(|i| (i * 3 + i / 256) as u8).collect();
        let big = W::Put(k.clone(), v.clone());
        let l = match c.pick(6) {
            0 => vec![W::Del(k.clone()), big],
            1 => vec![big, W::Del(k.clone())],
            2 => vec![big, W::Put(k.clone(), b"1".to_vec())],
            3 => vec![W::Put(k.clone(), b"1".to_vec()), big],
            4 => vec![W::Put(b"other".to_vec(), v.clone()), W::Put(k.clone(), b"1".to_vec()), big, W::Del(b"old".to_vec())],
            _ => vec![W::Del(b"old".to_vec()), big.clone(), W::Del(k.clone()), big],
        };
        c.op(|| format!("value of {n} bytes, key of {kn}, {} operations", l.len()));
        let mut m = Map::new();
        let old = W::Put(b"old".to_vec(), b"0".to_vec());
        run_one(&h, &old)?;
        run_one(&r, &old)?;
        spec(&mut m, &old);
        let (before, was) = (r.dump(), r.log().len());
        r.set_failing(true);
        ensure!(Storage::write(&r, batch(&l)).is_err(), "a batch reported as written although the database refused it");
        r.set_failing(false);
        ensure!(r.dump() == before, "a refused batch left something behind");
        Storage::write(&h, batch(&l)).map_err(|e| e.to_string())?;
        Storage::write(&r, batch(&l)).map_err(|e| e.to_string())?;
        for w in &l {
            spec(&mut m, w);
        }
        same!(r.log().len(), was + 1, "records written for one batch");
        for (name, s) in [("memory", &h as &dyn Storage), ("rocksdb", &r)] {
            for x in [&k[..], b"old", b"other"] {
                ensure!(s.get(x).map_err(|e| e.to_string())? == m.get(x).cloned(), "{name}: value of a key of {} bytes after the batch", x.len());
            }
            same!(s.prefix_iterator(&[]).map_err(|e| e.to_string())?.count(), m.len(), "{name}: entries");
        }
        c.state(&(n, kn, l.len(), m.len()));
        Ok(())
    });
    explore(run, "large batches", move |c: &mut Ch| {
        let n = c.of(&sizes);
        let dup = c.of(&[1usize, 3]);
        let (h, r) = (hashmap::Backend::default(), rocks::Backend::in_memory());
        let mut m = Map::new();
        let mut l = vec![];
        for i in 0..n {
            let k = ((i / dup) as u32).to_be_bytes().to_vec();
            l.push(if i % 7 == 6 { W::Del(k) } else { W::Put(k, vec![i as u8]) });
        }
        Storage::write(&h, batch(&l)).map_err(|e| e.to_string())?;
        Storage::write(&r, batch(&l)).map_err(|e| e.to_string())?;
        for w in &l {
            spec(&mut m, w);
        }
        same!(r.log().len(), 1, "records written for one batch of {n}");
        for (name, s) in [("memory", &h as &dyn Storage), ("rocksdb", &r)] {
            for i in 0..n {
                let k = ((i / dup) as u32).to_be_bytes().to_vec();
                same!(s.get(&k).map_err(|e| e.to_string())?, m.get(&k).cloned(), "{name}: entry {i} of a batch of {n}");
            }
        }
        c.ops(n as u64);
        c.op(|| format!("batch of {n}"));
        c.state(&(n, dup));
        Ok(())
    });
}
