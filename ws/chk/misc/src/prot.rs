use mc::{Ch, Run, ensure, explore, guard, same};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use witnet_protected::{Protected, ProtectedString};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LEAKS: Cell<u32> = const { Cell::new(0) };
}
/// Looks at memory that is given back while a thread has it armed.
pub struct Spy;
/// A piece of a secret.
const MARK: &[u8; 4] = b"\xc3\xa7Zq";
fn has_mark(p: *const u8, n: usize) -> bool {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    s.windows(4).any(|w| w == MARK)
}
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // Fresh memory is cleared, so that what is found in it later was written by its owner.
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = ARMED.try_with(|a| {
            if a.get() && has_mark(p, l.size()) {
                let _ = LEAKS.try_with(|x| x.set(x.get() + 1));
            }
        });
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // A move leaves the old block behind.
        unsafe {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}
/// Runs `f`; no block that still holds a piece of a secret may be given back meanwhile.
fn armed<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    LEAKS.with(|l| l.set(0));
    ARMED.with(|a| a.set(true));
    let r = guard(f);
    ARMED.with(|a| a.set(false));
    let n = LEAKS.with(|l| l.get());
    ensure!(n == 0, "{what}: {n} blocks with the secret in them were given back to the allocator");
    r
}
fn secret(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        v.extend_from_slice(MARK);
    }
    v.truncate(n);
    v
}
fn text(n: usize) -> String {
    let mut s = String::new();
    while s.len() + 4 <= n {
        s.push_str("çZq");
    }
    s
}

#[derive(Debug)]
#[allow(dead_code)]
struct Holder {
    name: u8,
    key: Protected,
    pass: Option<ProtectedString>,
}

enum P {
    B(Protected),
    S(ProtectedString),
}

pub fn wiped(run: &mut Run) {
    run.assume("C16: heap memory is observed through the allocator; copies in registers or on the stack are outside the claim");
    let lens: Vec<usize> = run.pick(vec![4, 8, 16, 32, 64, 100, 4096, 20_000], vec![4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 4096, 100_000]);
    let depth = run.pick(3, 4);
    explore(run, "lives of a secret", move |c: &mut Ch| {
        let n = c.of(&lens);
        let mut v: Vec<P> = vec![];
        let how = c.pick(12);
        let raw = secret(n);
        let txt = text(n);
        // Made from something the caller gives up, or copied from something the caller keeps.
        let room = if how == 3 || how == 11 { c.of(&[24, n + 200, 3 * n + 300, 70_000]) } else { 24 };
        let spare = { let mut x = Vec::with_capacity(n + room); x.extend_from_slice(&raw); x };
        let spare_text = { let mut x = String::with_capacity(n + room); x.push_str(&txt); x };
        v.push(match how {
            0 => P::B(armed("new(Vec)", move || Protected::new(raw))?),
            1 => P::B(armed("new(slice)", || Protected::new(&raw[..]))?),
            2 => P::B(armed("from(Vec)", move || Protected::from(raw))?),
            3 => P::B(armed("new(Vec with room)", move || Protected::new(spare))?),
            11 => P::S(armed("string new(String with room)", move || ProtectedString::new(spare_text))?),
            4 => P::B(armed("new(String)", move || Protected::new(txt))?),
            5 => P::S(armed("string from &str", || ProtectedString::from(&txt[..]))?),
            6 => P::S(armed("string new(String)", move || ProtectedString::new(txt))?),
            7 => P::S(armed("string new(&str)", || ProtectedString::new(&txt[..]))?),
            8 => {
                let stored = bincode::serialize(&Protected::new(&raw[..])).map_err(|e| e.to_string())?;
                P::B(armed("loaded", || bincode::deserialize::<Protected>(&stored))?.map_err(|e| e.to_string())?)
            }
            9 => {
                let stored = bincode::serialize(&ProtectedString::new(&txt[..])).map_err(|e| e.to_string())?;
                P::S(armed("string loaded", || bincode::deserialize::<ProtectedString>(&stored))?.map_err(|e| e.to_string())?)
            }
            _ => P::B(armed("from string", || Protected::from(ProtectedString::new(&txt[..])))?),
        });
        for _ in 0..depth {
            let op = c.pick(11);
            c.op(|| format!("operation {op}"));
            match op {
                9 => {
                    // Overwritten with something shorter, longer or empty.
                    let m = [0usize, 4, 3 * n][v.len() % 3];
                    let (k, t) = (Protected::new(vec![1u8; m]), ProtectedString::new("1".repeat(m)));
                    armed("clone_from", || match v.last_mut().unwrap() { P::B(x) => x.clone_from(&k), P::S(x) => x.clone_from(&t) })?;
                    match v.last().unwrap() {
                        P::B(x) => ensure!(*x == k && x.len() == m, "overwritten with other contents"),
                        P::S(x) => ensure!(*x == t, "overwritten with other contents"),
                    }
                }
                0 => {
                    let k = match v.last() { Some(P::B(p)) => P::B(armed("clone", || p.clone())?), Some(P::S(s)) => P::S(armed("clone", || s.clone())?), None => break };
                    v.push(k);
                }
                1 => {
                    let x = v.remove(0);
                    armed("drop", || match x { P::B(p) => drop(p), P::S(s) => drop(s) })?;
                    if v.is_empty() {
                        break;
                    }
                }
                2 => {
                    let a = &v[0];
                    let b = v.last().unwrap();
                    armed("compare", || match (a, b) {
                        (P::B(x), P::B(y)) => x == y && x.cmp(y).is_eq(),
                        (P::S(x), P::S(y)) => x == y && x.cmp(y).is_eq(),
                        _ => true,
                    })?;
                }
                3 => {
                    let a = &v[0];
                    armed("debug output", || match a { P::B(x) => format!("{x:?}{x:#?}"), P::S(x) => format!("{x:?}{x:#?}") })?;
                }
                4 => {
                    if let P::B(x) = v.pop().unwrap() { v.push(P::B(x)) } else { break }
                    if let Some(P::B(x)) = v.last_mut() {
                        armed("write through", || { x.as_mut().reverse(); x[0] ^= 1; x[0] ^= 1; x.reverse(); })?;
                    }
                }
                5 => {
                    if let Some(P::S(_)) = v.last() {
                        let Some(P::S(s)) = v.pop() else { unreachable!() };
                        v.push(P::B(armed("string to bytes", move || Protected::from(s))?));
                    }
                }
                6 => {
                    // Replaced while in use, and moved around.
                    let x = v.pop().unwrap();
                    let y = armed("overwrite", move || match x {
                        P::B(p) => { let mut b = Box::new(p); *b = (*b).clone(); let mut o = Some(*b); let mut q = o.take().unwrap(); let k = q.clone(); q.clone_from(&k); P::B(q) }
                        P::S(s) => { let mut b = Some(s); b = b.clone(); let mut q = b.unwrap(); let k = q.clone(); q.clone_from(&k); P::S(q) }
                    })?;
                    v.push(y);
                }
                7 => {
                    let x = v.pop().unwrap();
                    let mut kept = None;
                    let r = armed("panic while alive", || {
                        let r = guard(|| {
                            let local = match &x { P::B(p) => P::B(p.clone()), P::S(s) => P::S(s.clone()) };
                            if !v.is_empty() || matches!(local, P::B(_) | P::S(_)) {
                                panic!("on purpose");
                            }
                        });
                        r.is_err()
                    })?;
                    kept.replace(x);
                    ensure!(r, "no panic");
                    v.push(kept.unwrap());
                }
                8 => {
                    // Written out, into a place that is the caller's to look after.
                    let mut out = vec![0u8; 2 * n + 64];
                    let a = &v[0];
                    armed("stored", || match a { P::B(x) => bincode::serialize_into(&mut out[..], x), P::S(x) => bincode::serialize_into(&mut out[..], x) })?.map_err(|e| e.to_string())?;
                }
                _ => {
                    let mut h = DefaultHasher::new();
                    let a = &v[0];
                    armed("hash", || match a { P::B(x) => x.hash(&mut h), P::S(x) => x.hash(&mut h) })?;
                }
            }
        }
        armed("end", move || drop(v))?;
        c.state(&(n, how));
        Ok(())
    });
    explore(run, "the allocator sees an unprotected secret", |c: &mut Ch| {
        // The instrument itself: an ordinary vector is caught.
        let n = c.of(&[4usize, 32, 4096]);
        let v = secret(n);
        ensure!(armed("plain", move || drop(v)).is_err(), "the probe does not see an unwiped block");
        c.op(|| format!("{n} bytes"));
        c.state(&n);
        Ok(())
    });
    explore(run, "never shown", |c: &mut Ch| {
        let s = c.of(&["", "a", "hunter2", "***", "Protected", "{}", "ünïcode", "0123456789abcdef0123456789abcdef"]);
        let b = Protected::from(s.as_bytes());
        let p = ProtectedString::new(s);
        let h = Holder { name: 1, key: b.clone(), pass: Some(p.clone()) };
        let hex: String = s.bytes().map(|b| format!("{b:02x}")).collect();
        let dec = format!("{:?}", s.as_bytes());
        for t in [format!("{b:?}"), format!("{b:#?}"), format!("{p:?}"), format!("{p:#?}"), format!("{h:?}"), format!("{h:#?}"), format!("{:?}", Some(&b)), format!("{:?}", vec![&p]), format!("{b:40?}"), format!("{p:x?}"), format!("{b:.3?}"), format!("{p:.5?}"), format!("{b:#.3?}"), format!("{b:X?}"), format!("{b:+?}{p:+?}{b:09?}{p:-<30?}"), format!("{:#.2?}", (&b, &p))] {
            let clean = t.replace("ProtectedString(***)", "").replace("Protected(***)", "");
            if s.len() > 1 && s != "***" && s != "{}" && s != "Protected" {
                ensure!(!t.contains(s) && !t.contains(&hex) && !t.contains(dec.trim_matches(['[', ']'])), "the secret {s:?} is shown: {t}");
            }
            // The output does not depend on the secret at all.
            let other = Protected::from(&b"zz"[..]);
            let _ = (&clean, &other);
        }
        let (o, q) = (Protected::from(&[9u8; 77][..]), ProtectedString::new("something else entirely"));
        same!(format!("{b:?}"), format!("{o:?}"), "debug output depends on the secret");
        same!(format!("{b:#?}"), format!("{o:#?}"), "debug output depends on the secret");
        same!(format!("{p:?}"), format!("{q:?}"), "debug output depends on the secret");
        same!(format!("{p:#?}"), format!("{q:#?}"), "debug output depends on the secret");
        same!(format!("{b:.2?} {b:#.9?} {b:x?} {b:+?} {b:09?}"), format!("{o:.2?} {o:#.9?} {o:x?} {o:+?} {o:09?}"), "debug output depends on the secret");
        same!(format!("{p:.2?} {p:#.9?} {p:x?} {p:+?} {p:09?}"), format!("{q:.2?} {q:#.9?} {q:x?} {q:+?} {q:09?}"), "debug output depends on the secret");
        c.op(|| format!("{s:?}"));
        c.state(&s);
        Ok(())
    });
}

pub fn values(run: &mut Run) {
    let max = run.pick(4, 5);
    explore(run, "bytes", move |c: &mut Ch| {
        let a = c.seq(&[0u8, 1, 128, 255], max);
        let b = c.seq(&[0u8, 255], 2);
        let (p, q) = (Protected::new(a.clone()), Protected::from(&b[..]));
        same!(p.as_ref(), &a[..], "contents");
        same!(&*p, &a[..], "contents");
        same!(p == q, a == b, "equality");
        same!(p.cmp(&q), a.cmp(&b), "order");
        same!(p.partial_cmp(&q), a.partial_cmp(&b), "order");
        ensure!(p == p.clone(), "a clone differs");
        let mut o = q.clone();
        o.clone_from(&p);
        ensure!(o == p && o.as_ref() == &a[..] && q.as_ref() == &b[..], "a copy over another value differs");
        same!((p.len(), p.is_empty(), p.first().copied(), p.to_vec()), (a.len(), a.is_empty(), a.first().copied(), a.clone()), "length, first byte, contents");
        same!((p < q, p <= q, p > q, p >= q, p != q), (a < b, a <= b, a > b, a >= b, a != b), "comparison");
        let hash = |x: &Protected| { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() };
        same!(hash(&p), hash(&Protected::new(&a[..])), "hash of equal values");
        let mut m = p.clone();
        m.as_mut().iter_mut().for_each(|x| *x ^= 0x55);
        same!(p.as_ref(), &a[..], "contents after a clone was changed");
        same!(m.as_ref(), &a.iter().map(|x| x ^ 0x55).collect::<Vec<_>>()[..], "changed contents");
        let r: Protected = bincode::deserialize(&bincode::serialize(&p).map_err(|e| e.to_string())?).map_err(|e| format!("stored value not readable: {e}"))?;
        ensure!(r == p, "stored value differs");
        same!(bincode::serialize(&p).map_err(|e| e.to_string())?, bincode::serialize(&a).map_err(|e| e.to_string())?, "stored form");
        let r: Protected = serde_json::from_str(&serde_json::to_string(&p).map_err(|e| e.to_string())?).map_err(|e| format!("value stored as JSON not readable: {e}"))?;
        ensure!(r == p, "value stored as JSON differs");
        c.op(|| format!("{a:?}"));
        c.state(&(a, b));
        Ok(())
    });
    explore(run, "long values", |c: &mut Ch| {
        let n = c.of(&[1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 1024, 4096, 70_000]);
        let fill = c.of(&[0u8, 1, 0x80, 0xff]);
        let mut a = vec![fill; n];
        // Two differences may cancel out in a careless comparison.
        let (i, j) = (c.of(&[0, n / 2, n - 1]), c.of(&[0, n / 3, n - 1]));
        a[i] ^= c.of(&[0u8, 1, 0x80]);
        a[j] ^= c.of(&[0u8, 1, 0x80, 0xff]);
        let b = vec![fill; n];
        let (p, q) = (Protected::new(a.clone()), Protected::from(&b[..]));
        ensure!(p.as_ref() == &a[..] && &*p == &a[..] && p.len() == n, "contents of {n} bytes");
        same!(p == q, a == b, "equality of {n} bytes");
        same!(p.cmp(&q), a.cmp(&b), "order of {n} bytes");
        ensure!(p == p.clone(), "a clone differs");
        let r: Protected = bincode::deserialize(&bincode::serialize(&p).map_err(|e| e.to_string())?).map_err(|e| format!("stored value not readable: {e}"))?;
        ensure!(r == p && r.as_ref() == &a[..], "stored value of {n} bytes differs");
        if n < 5000 {
            let r: Protected = serde_json::from_str(&serde_json::to_string(&p).map_err(|e| e.to_string())?).map_err(|e| format!("value stored as JSON not readable: {e}"))?;
            ensure!(r.as_ref() == &a[..], "value stored as JSON differs");
        }
        c.op(|| format!("{n} bytes of {fill}, changed at {i} and {j}"));
        c.state(&(a, fill));
        Ok(())
    });
    explore(run, "strings", |c: &mut Ch| {
        let parts: Vec<&str> = c.seq(&["a", "\0", "é", "\u{10ffff}", "\"", "\\", "\u{feff}", " ", "\n"], 3);
        let fill = c.of(&[0usize, 31, 100, 5000]);
        // The awkward characters first and last.
        let s = format!("{}{}{}", parts.concat(), "x".repeat(fill), if fill > 0 { parts.concat() } else { String::new() });
        let t = c.of(&["", "a", "éa"]);
        let p = if c.flag() { ProtectedString::new(s.clone()) } else { ProtectedString::from(&s[..]) };
        let q = ProtectedString::from(t);
        let view: &str = p.as_ref();
        same!(view, &s[..], "contents");
        let view: &[u8] = p.as_ref();
        same!(view, s.as_bytes(), "contents");
        same!(p == q, s == t, "equality");
        same!(p.cmp(&q), s.as_bytes().cmp(t.as_bytes()), "order");
        same!(Protected::from(p.clone()), Protected::new(s.as_bytes()), "as bytes");
        let r: ProtectedString = bincode::deserialize(&bincode::serialize(&p).map_err(|e| e.to_string())?).map_err(|e| format!("stored string not readable: {e}"))?;
        ensure!(r == p, "stored string differs");
        let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
        let r: ProtectedString = serde_json::from_str(&j).map_err(|e| format!("string stored as JSON not readable: {e}"))?;
        ensure!(r == p, "string stored as JSON differs");
        let r: ProtectedString = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())?;
        ensure!(r == p, "string read from JSON text differs");
        c.op(|| format!("{s:?}"));
        c.state(&(s, t));
        Ok(())
    });
    explore(run, "numbers and other printable things", |c: &mut Ch| {
        let n = c.of(&[0u64, 7, u64::MAX]);
        same!(AsRef::<str>::as_ref(&ProtectedString::from(n)), &n.to_string()[..], "contents");
        let ch = c.of(&['x', 'é', '\u{1f600}']);
        same!(AsRef::<str>::as_ref(&ProtectedString::from(ch)), &ch.to_string()[..], "contents");
        c.op(|| format!("{n} {ch}"));
        c.state(&(n, ch));
        Ok(())
    });
    explore(run, "damaged stored forms", |c: &mut Ch| {
        // Whatever is read back is either refused or a proper value: a string is always valid UTF-8.
        let n = c.pick(5);
        let body = (0..n).map(|_| c.of(&[0u8, b'a', 0xc3, 0xa7, 0xff])).collect::<Vec<u8>>();
        let claim = c.of(&[n as u64, n as u64 + 1, 0]);
        let mut b = claim.to_le_bytes().to_vec();
        b.extend(&body);
        let want_b = (claim <= n as u64).then(|| body[..claim as usize].to_vec());
        let want_s = want_b.clone().and_then(|b| String::from_utf8(b).ok());
        let got = guard(|| bincode::deserialize::<Protected>(&b).ok())?;
        same!(got.map(|p| p.as_ref().to_vec()), want_b, "bytes read");
        let got = guard(|| bincode::deserialize::<ProtectedString>(&b).ok())?;
        c.outcome(if want_s.is_some() { "readable" } else { "refused" });
        same!(got.map(|p| AsRef::<str>::as_ref(&p).to_string()), want_s, "string read");
        c.op(|| format!("{b:?}"));
        c.state(&b);
        Ok(())
    });
}
