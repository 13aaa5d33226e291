//! The address book and the sessions of the peer-to-peer network.
mod book;
mod sess;

use mc::Ch;

/// Runs `f` with the thread's random generator driven by the explorer: every draw is one of six
/// spread values (and 0 from the eighth draw on).
pub fn drawn<T>(c: &mut Ch, f: impl FnOnce() -> T) -> T {
    let p: *mut Ch = c;
    let mut n = 0;
    rand::drive(Some(Box::new(move || {
        n += 1;
        if n > 7 {
            return 0;
        }
        // enough to reach each of two, three or four alternatives; `c` is not used while `f` runs
        let menu = [0, u64::MAX / 4 + 1, u64::MAX / 3 + 1, u64::MAX / 2 + 1, u64::MAX / 3 * 2 + 1, u64::MAX / 4 * 3 + 3];
        menu[unsafe { (*p).pick(6) }]
    })));
    let r = f();
    rand::drive(None);
    r
}

fn main() {
    mc::main(&[("C44", book::book), ("C45", sess::sessions)]);
}
