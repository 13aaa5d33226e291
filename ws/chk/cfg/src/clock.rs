//! C49: the clock.
use mc::{Ch, Run, ensure, explore, guard, same};
use std::sync::Mutex;
use std::time::Duration;
use witnet_util::timestamp::*;

const NS: i128 = 1_000_000_000;

fn between(run: &mut Run) {
    explore(run, "between two times", |c: &mut Ch| {
        let secs = [0i64, 1, 2, 59, 1_602_666_000, 1 << 32, (1 << 53) + 1, i64::MAX - 1, i64::MAX];
        let nanos = [0u32, 1, 499_999_999, 500_000_000, 999_999_998, 999_999_999];
        let a = (c.of(&secs), c.of(&nanos));
        let b = (c.of(&secs), c.of(&nanos));
        let f = |x: (i64, u32)| i128::from(x.0) * NS + i128::from(x.1);
        let d = f(b) - f(a);
        let want = if d < 0 { None } else { Some(Duration::new((d / NS) as u64, (d % NS) as u32)) };
        same!(duration_between_timestamps(a, b), want, "from {a:?} to {b:?}");
        c.outcome(if d < 0 { "past" } else { "ahead" });
        Ok(())
    });
    explore(run, "seconds in words", |c: &mut Ch| {
        const DAY: u64 = 86_400;
        const YEAR: u64 = DAY * 365 + DAY / 4;
        let k = c.of(&[0, 1, 59, 60, 61, 3599, 3600, 3601, DAY - 1, DAY, DAY + 1, 30 * DAY, 31 * DAY, YEAR - 1, YEAR, YEAR + 1, 366 * DAY - 1, 366 * DAY, 2 * YEAR, 100 * YEAR, 1_000_000 * YEAR]);
        let x = k + c.of(&[0, 1, 7, 40, 1000, DAY, 45 * DAY]);
        let text = guard(|| seconds_to_human_string(x))?;
        c.op(|| format!("{x} s: {text}"));
        let back = humantime::parse_duration(&text).map_err(|e| e.to_string())?.as_secs();
        if x < YEAR {
            same!(back, x, "what {text:?} says");
        } else {
            // days are rounded
            ensure!(back.abs_diff(x) < DAY, "{x} seconds are {text:?}");
        }
        Ok(())
    });
}

/// The clock of the system in nanoseconds.
fn system() -> i128 {
    let (s, n) = get_local_timestamp();
    i128::from(s) * NS + i128::from(n)
}
fn stamp(t: i128) -> (i64, u32) {
    ((t / NS) as i64, (t % NS) as u32)
}

fn server(run: &mut Run) {
    // one clock for the whole process
    let turn = Mutex::new(());
    let n = run.pick(3, 4);
    explore(run, "servers of time", |c: &mut Ch| {
        let _turn = turn.lock().unwrap_or_else(|e| e.into_inner());
        // answers ahead of us, behind, the same, or none
        let mut lo: i128 = 0;
        let mut hi: i128 = 0;
        let mut first = true;
        for _ in 0..n {
            let kind = c.pick(8);
            let offset: Option<i128> = [Some(0), Some(1), Some(-1), Some(123_456_789 * NS / 1000), Some(-777 * NS - 1), Some(86_400 * NS + 5), Some(-86_400 * NS), None][kind];
            c.op(|| format!("an answer {offset:?} ns ahead"));
            let t0 = system();
            match offset {
                Some(o) => ntp::set(Some(stamp(t0 + o))),
                None => ntp::set(None),
            }
            update_global_timestamp("server");
            let t1 = system();
            if let Some(o) = offset {
                // what was answered at some time from t0 to t1
                lo = t0 + o - t1;
                hi = o;
                first = false;
            } else if first {
                // whatever it was before: begin with an answer
                return Ok(());
            }
            let before = system();
            let (s, n) = get_timestamp_nanos();
            let after = system();
            let now = i128::from(s) * NS + i128::from(n);
            if t1 < t0 || after < before {
                c.outcome("the system's clock was set back");
                return Ok(());
            }
            ensure!(now >= before + lo && now <= after + hi, "time is {} ns off what the server said", if now < before + lo { now - before - lo } else { now - after - hi });
            let secs = get_timestamp();
            ensure!(i128::from(secs) * NS + NS > before + lo && i128::from(secs) * NS <= system() + hi, "the time in seconds is {secs}, that in nanoseconds {now}");
            // how long until then
            for d in [0i128, 1, 5 * NS, 100_000 * NS, -1, -100_000 * NS] {
                let b = system();
                let t = b + lo + d;
                let left = duration_until_timestamp(stamp(t).0, stamp(t).1).map(|d| d.as_nanos() as i128);
                let a = system();
                // the clock is between b + lo and a + hi
                match left {
                    Some(l) => ensure!(l <= d && l >= t - (a + hi), "{l} ns left of {d}"),
                    None => ensure!(t < a + hi, "nothing left of {d} ns"),
                }
            }
            c.outcome(if offset.is_some() { "set" } else { "kept" });
        }
        Ok(())
    });
    ntp::set(None);
}

pub fn clock(run: &mut Run) {
    between(run);
    server(run);
}
