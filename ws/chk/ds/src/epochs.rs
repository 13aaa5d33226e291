//! Protocol versions, epochs and the clock.
use mc::{Run, ensure, explore, same};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolInfo, ProtocolVersion, ProtocolVersion::*};
use witnet_data_structures::*;

const VERSIONS: [ProtocolVersion; 4] = [V1_7, V1_8, V2_0, V2_1];

/// (epoch, period) of the versions that are known.
fn schedule(c: &mut mc::Ch) -> Vec<(ProtocolVersion, u32, u16)> {
    let mut v = vec![];
    let mut e = 0;
    for p in VERSIONS {
        if c.flag() {
            e += c.of(if p == V1_7 { &[0u32, 1] } else { &[0u32, 1, 4, 1000] });
            v.push((p, e, if p >= V2_0 { 20 } else { 45 }));
        }
    }
    v
}
fn force(s: &[(ProtocolVersion, u32, u16)], epoch: u32) -> ProtocolVersion {
    s.iter().rev().find(|x| x.1 <= epoch).map_or(V1_7, |x| x.0)
}

fn versions(run: &mut Run) {
    explore(run, "the version of an epoch", |c| {
        let s = schedule(c);
        let mut info = ProtocolInfo::default();
        for (v, e, p) in &s {
            info.register(*e, *v, *p);
        }
        // again, as after a restart
        if c.flag() {
            info = serde_json::from_str(&serde_json::to_string(&info).unwrap()).map_err(|e| e.to_string())?;
            for (v, e, p) in &s {
                info.register(*e, *v, *p);
            }
        }
        c.op(|| format!("{s:?}"));
        let mut last = V1_7;
        for epoch in (0..12).chain(995..1010).chain(1990..2010).chain([3005, u32::MAX]) {
            let got = info.all_versions.version_for_epoch(epoch);
            same!(got, force(&s, epoch), "version of epoch {epoch} with {s:?}");
            ensure!(got >= last, "version of epoch {epoch} goes back with {s:?}");
            last = got;
        }
        for v in VERSIONS {
            let known = s.iter().find(|x| x.0 == v);
            same!(info.all_versions.try_get_activation_epoch(v), known.map(|x| x.1), "activation of {v} in {s:?}");
            same!(info.all_versions.get_activation_epoch(v), known.map_or(u32::MAX, |x| x.1), "activation of {v} in {s:?}");
            same!(info.all_checkpoints_periods.get(&v).copied(), known.map(|x| x.2), "period of {v} in {s:?}");
        }
        c.outcome("schedule");
        info.clear_versions();
        same!(info, ProtocolInfo::default(), "nothing is left");
        Ok(())
    });
    explore(run, "versions are ordered", |c| {
        for (i, a) in VERSIONS.iter().enumerate() {
            for (j, b) in VERSIONS.iter().enumerate() {
                c.ops(1);
                same!(a.partial_cmp(b), Some(i.cmp(&j)), "{a} and {b}");
                same!(a == b, i == j, "{a} and {b}");
            }
            same!(a.next(), VERSIONS[(i + 1).min(3)], "after {a}");
            same!(a.prev(), VERSIONS[i.saturating_sub(1)], "before {a}");
            same!(a.to_string().parse::<ProtocolVersion>().map_err(|e| e.to_string()), Ok(*a), "name of {a}");
        }
        c.outcome("order");
        Ok(())
    });
    // the process knows one schedule: a single execution walks through all of them
    let schedules = vec![vec![], vec![(V1_7, 0u32, 45u16)], vec![(V1_8, 5, 45)], vec![(V1_7, 0, 45), (V1_8, 5, 45), (V2_0, 9, 20)], vec![(V1_7, 0, 45), (V1_8, 5, 45), (V2_0, 9, 20), (V2_1, 11, 25)]];
    explore(run, "the schedule of the process", move |c| {
        for s in &schedules {
            clear_protocol_info();
            for (v, e, p) in s {
                register_protocol_version(*v, *e, *p);
            }
            for round in 0..2 {
                for epoch in 0..15 {
                    c.ops(1);
                    let want = force(s, epoch);
                    same!(get_protocol_version(Some(epoch)), want, "version of {epoch} with {s:?}");
                    same!(ProtocolVersion::from_epoch(epoch), want, "version of {epoch} with {s:?}");
                    refresh_protocol_version(epoch);
                    same!(ProtocolVersion::guess(), want, "version now, at {epoch} with {s:?}");
                    same!(get_protocol_version(None), want, "version now, at {epoch} with {s:?}");
                    let wit2 = ConsensusConstantsWit2 { checkpoint_zero_timestamp: 1000, checkpoints_period: 45 };
                    same!(wit2.get_maximum_unstake_block_weight(epoch) > 0, want >= V2_0, "unstaking at {epoch} with {s:?}");
                    same!(wit2.get_maximum_stake_block_weight(epoch) > 0, want >= V1_8, "staking at {epoch} with {s:?}");
                    let at = s.iter().find(|x| x.0 == V2_0).map_or(u32::MAX, |x| x.1);
                    same!(wit2.get_checkpoint_zero_timestamp_wit2(), 1000 + 45 * at as i64, "time of 2.0 with {s:?}");
                }
                for v in VERSIONS {
                    let known = s.iter().find(|x| x.0 == v);
                    same!(get_protocol_version_activation_epoch(v), known.map_or(u32::MAX, |x| x.1), "activation of {v} with {s:?}");
                    same!(get_protocol_version_period(v), known.map_or(u16::MAX, |x| x.2), "period of {v} with {s:?}");
                }
                if round == 0 {
                    // stored and loaded
                    let i = get_protocol_info();
                    clear_protocol_info();
                    same!(get_protocol_version(Some(u32::MAX - 1)), V1_7, "cleared");
                    load_protocol_info(i);
                }
            }
            c.outcome("schedule");
        }
        clear_protocol_info();
        Ok(())
    });
}

/// The start of an epoch, counted second by second.
fn start(zero: i64, p1: u16, fork: Option<(u32, u16)>, epoch: u32) -> i64 {
    match fork {
        Some((f, p2)) if epoch >= f => zero + f as i64 * p1 as i64 + (epoch - f) as i64 * p2 as i64,
        _ => zero + epoch as i64 * p1 as i64,
    }
}

fn clock(run: &mut Run) {
    let top = run.pick(400i64, 3000);
    explore(run, "epochs and the clock", move |c| {
        let zero = c.of(&[0i64, 1_600_000_000, -50]);
        let p1 = c.of(&[1u16, 2, 3, 45]);
        let fork = if c.flag() { Some((c.of(&[0u32, 1, 2, 7]), c.of(&[1u16, 2, 3, 20]))) } else { None };
        let mut k = EpochConstants { checkpoint_zero_timestamp: zero, checkpoints_period: p1, ..Default::default() };
        if let Some((f, p2)) = fork {
            k.set_values_for_wit2(p2, f).map_err(|e| e.to_string())?;
            // twice is once
            k.set_values_for_wit2(p2, f).map_err(|e| e.to_string())?;
            same!(k.checkpoint_zero_timestamp_wit2, start(zero, p1, fork, f), "start of 2.0");
        }
        let what = format!("from {zero}, {p1} seconds, then {fork:?}");
        c.op(|| what.clone());
        let mut epoch = 0u32;
        for t in zero - 3..zero + top {
            c.ops(1);
            let got = k.epoch_at(t);
            if t < zero {
                ensure!(got.is_err(), "epoch before the first one, at {t} {what}: {got:?}");
                continue;
            }
            if t >= start(zero, p1, fork, epoch + 1) {
                epoch += 1;
            }
            same!(got.map_err(|e| e.to_string()), Ok(epoch), "epoch at {t} {what}");
        }
        for e in (0..=epoch).chain([100_000, 95_443_717]) {
            c.ops(1);
            let s = start(zero, p1, fork, e);
            let later = fork.is_some_and(|f| e >= f.0);
            same!(k.epoch_timestamp(e).map_err(|e| e.to_string()), Ok((s, later)), "start of {e} {what}");
            same!(k.epoch_at(s).map_err(|e| e.to_string()), Ok(e), "epoch at the start of {e} {what}");
            let p = if later { fork.unwrap().1 } else { p1 };
            same!(k.get_epoch_period(e).map_err(|e| e.to_string()), Ok(p), "period of {e} {what}");
            let m = k.block_mining_timestamp(e).map_err(|e| e.to_string())?;
            same!(m, s + (p as i64 + 1) / 2, "time to mine {e} {what}");
        }
        // never a wrong answer, whatever the epoch
        for e in [95_443_718u32, 1 << 31, u32::MAX - 1, u32::MAX] {
            if let Ok((s, _)) = k.epoch_timestamp(e) {
                same!(s, start(zero, p1, fork, e), "start of {e} {what}");
            }
        }
        c.outcome(if fork.is_some() { "two periods" } else { "one period" });
        Ok(())
    });
    explore(run, "the time of a version", |c| {
        let s = schedule(c);
        // the period changes with 2.0 only
        let p1 = c.of(&[45u16, 7]);
        let mut info = ProtocolInfo::default();
        for (v, e, p) in &s {
            info.register(*e, *v, if *v >= V2_0 { *p } else { p1 });
        }
        let cc = ConsensusConstants { checkpoint_zero_timestamp: 10_000, checkpoints_period: p1, ..Default::default() };
        let at = |v: ProtocolVersion| s.iter().find(|x| x.0 == v).map(|x| x.1);
        for v in VERSIONS {
            c.ops(1);
            let got = info.derive_activation_timestamp(v, &cc);
            // the first version is in force since the beginning, whatever its epoch
            let gap = at(V1_7).unwrap_or(0);
            let known = VERSIONS.iter().skip(1).filter(|x| **x <= v).all(|x| at(*x).is_some());
            let want = match v {
                V1_7 => Some(10_000),
                _ if !known => None,
                _ => Some(start(10_000, p1, at(V2_0).map(|f| (f - gap, 20)), at(v).unwrap() - gap)),
            };
            same!(got, want, "time of {v} with {s:?}, {p1} seconds at first");
            c.outcome(if want.is_some() { "known" } else { "unknown" });
        }
        Ok(())
    });
    explore(run, "the time of a version far away", |c| {
        let e = c.of(&[1u32 << 26, 1 << 27, 1 << 31, u32::MAX - 1, u32::MAX]);
        let v = c.of(&VERSIONS[1..]);
        let mut info = ProtocolInfo::default();
        for x in VERSIONS {
            if x <= v {
                info.register(if x == v { e } else { 0 }, x, 45);
            }
        }
        c.op(|| format!("{v} from {e} on"));
        let cc = ConsensusConstants { checkpoint_zero_timestamp: 10_000, checkpoints_period: 45, ..Default::default() };
        same!(info.derive_activation_timestamp(v, &cc), Some(10_000 + 45 * e as i64), "time of {v} from {e} on");
        c.outcome("far");
        Ok(())
    });
}

pub fn epochs(run: &mut Run) {
    versions(run);
    clock(run);
}
