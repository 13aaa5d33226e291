//! Eligibility by reputation.
use crate::utxo::pkh;
use mc::{Run, ensure, explore, same};
use std::collections::BTreeMap;
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::chain::*;

/// What the specification knows: the reputation of everybody, and who is active.
#[derive(Clone, Default, Debug)]
struct Model {
    rep: BTreeMap<u8, u32>,
    active: Vec<u8>,
    alpha: u32,
}
impl Model {
    fn rep(&self, i: u8) -> u32 {
        self.rep.get(&i).copied().unwrap_or(0)
    }
    /// The active identities, the best first.
    fn order(&self) -> Vec<u8> {
        let mut v = self.active.clone();
        v.sort_by_key(|i| {
            let r = self.rep(*i);
            let mut bytes = [*i; 20].to_vec();
            bytes.extend(self.alpha.to_be_bytes());
            let tie = if r > 0 { calculate_sha256(&bytes).as_ref().to_vec() } else { [*i; 20].to_vec() };
            std::cmp::Reverse((r, tie))
        });
        v
    }
}
/// round(1.5 · (average - minimum) · (1 - i / (n - 1))), or nothing if it is too close to a half to tell.
fn slope(total: u64, n: u64, min: u64, i: u64) -> Option<u64> {
    if n == 1 {
        return Some(0);
    }
    // 3 · (total - n·min) · (n - 1 - i) / (2n · (n - 1))
    let num = 3 * (total - n * min) as u128 * (n - 1 - i) as u128;
    let den = 2 * n as u128 * (n - 1) as u128;
    if (2 * num + den).is_multiple_of(2 * den) && num > 0 {
        return None;
    }
    Some(((2 * num + den) / (2 * den)) as u64)
}

fn compare(e: &ReputationEngine, m: &Model, extra: u8) -> Result<(), String> {
    let order = m.order();
    same!(e.get_rep_ordered_ars_list(), order.iter().map(|i| pkh(*i)).collect::<Vec<_>>(), "order of {m:?}");
    let reputed: Vec<u8> = order.iter().copied().filter(|i| m.rep(*i) > 0).collect();
    let n = reputed.len() as u64;
    let sum: u64 = reputed.iter().map(|i| m.rep(*i) as u64).sum();
    same!(e.total_active_reputation(), sum + order.len() as u64, "total of {m:?}");
    let got: Vec<u64> = reputed.iter().map(|i| e.get_eligibility(&pkh(*i)) as u64).collect();
    same!(got.iter().sum::<u64>(), sum, "the reputation is spread, not changed: {m:?}, {got:?}");
    ensure!(got.windows(2).all(|w| w[0] >= w[1]), "the better are less eligible: {m:?}, {got:?}");
    if n > 0 {
        let min = m.rep(reputed[n as usize - 1]) as u64;
        ensure!(got[n as usize - 1] >= min, "the last one lost reputation: {m:?}, {got:?}");
        // exactly
        let tops: Option<Vec<u64>> = (0..n).map(|i| slope(sum, n, min, i)).collect();
        if let Some(t) = tops {
            let rest = sum - t.iter().sum::<u64>();
            let want: Vec<u64> = t.iter().enumerate().map(|(i, t)| t + rest / n + if (i as u64) < rest % n { 1 } else { 0 }).collect();
            same!(got, want, "eligibility of {m:?}");
        }
    }
    for i in 0..extra {
        if !reputed.contains(&i) {
            same!(e.get_eligibility(&pkh(i)), 0, "eligibility of {i} in {m:?}");
        }
        same!(e.is_ars_member(&pkh(i)), m.active.contains(&i), "activity of {i} in {m:?}");
    }
    // as many witnesses are to be expected as were asked for, and not more than one step too many
    let total = sum + order.len() as u64;
    let all: Vec<u64> = order.iter().map(|i| e.get_eligibility(&pkh(*i)) as u64 + 1).collect();
    for w in [0u16, 1, 2, 3, 4, 5, 6, 7, 100] {
        let f = e.threshold_factor(w) as u64;
        let expected = |f: u64| all.iter().map(|x| (x * f).min(total)).sum::<u64>();
        if w == 0 {
            same!(f, 0, "factor for no witness of {m:?}");
        } else if w as usize > all.len() {
            same!(f, u32::MAX as u64, "factor for {w} witnesses of {m:?}");
        } else {
            ensure!(expected(f) >= w as u64 * total, "factor {f} for {w} witnesses of {m:?} is too small");
            ensure!(f < 2 || expected(f - 2) < w as u64 * total, "factor {f} for {w} witnesses of {m:?} is too great");
        }
    }
    Ok(())
}

fn spread(run: &mut Run) {
    let max = run.pick(6, 7);
    explore(run, "reputation is spread", move |c| {
        let mut m = Model { alpha: *[0u32, 1, 77].get(c.pick(3)).unwrap(), ..Default::default() };
        let reps = c.seq(&[0u32, 1, 2, 3, 10, 1000, 400_000], max);
        let mut e = ReputationEngine::new(3);
        e.set_current_alpha(Alpha(m.alpha));
        for (i, r) in reps.iter().enumerate() {
            m.active.push(i as u8);
            if *r > 0 {
                m.rep.insert(i as u8, *r);
            }
        }
        e.ars_mut().push_activity(m.active.iter().map(|i| pkh(*i)));
        e.trs_mut().gain(Alpha(9), m.rep.iter().map(|(i, r)| (pkh(*i), Reputation(*r)))).unwrap();
        // somebody with reputation who is not active
        m.rep.insert(90, 50);
        e.trs_mut().gain(Alpha(9), vec![(pkh(90), Reputation(50))]).unwrap();
        c.op(|| format!("{m:?}"));
        c.outcome(["nobody", "one", "two", "several"][reps.iter().filter(|r| **r > 0).count().min(3)]);
        compare(&e, &m, max as u8 + 1)
    });
}

/// Whatever was asked before, the answers follow from the present reputation.
fn histories(run: &mut Run) {
    let depth = run.pick(5, 7);
    explore(run, "answers are never out of date", move |c| {
        let mut m = Model::default();
        let mut window: Vec<Vec<u8>> = vec![];
        let mut packets: Vec<(u32, u8, u32)> = vec![];
        let mut e = ReputationEngine::new(2);
        for _ in 0..depth {
            let k = c.pick(10);
            match k {
                0..3 => {
                    let ids: Vec<u8> = [vec![0], vec![1, 2], vec![]][k].clone();
                    c.op(|| format!("active {ids:?}"));
                    e.ars_mut().push_activity(ids.iter().map(|i| pkh(*i)));
                    window.push(ids);
                    if window.len() > 2 {
                        window.remove(0);
                    }
                }
                3..6 => {
                    let (id, r, until) = [(0, 5, 10), (1, 3, 10), (2, 8, 20)][k - 3];
                    c.op(|| format!("{id} gains {r} until {until}"));
                    let ok = packets.iter().all(|p| p.0 <= until);
                    same!(e.trs_mut().gain(Alpha(until), vec![(pkh(id), Reputation(r))]).is_ok(), ok, "gain");
                    if ok {
                        packets.push((until, id, r));
                    }
                }
                6 => {
                    c.op(|| "expire 10".into());
                    let gone: u32 = packets.iter().filter(|p| p.0 <= 10).map(|p| p.2).sum();
                    same!(e.trs_mut().expire(&Alpha(10)), Reputation(gone), "expired");
                    packets.retain(|p| p.0 > 10);
                }
                7 => {
                    c.op(|| "alpha moves".into());
                    m.alpha += 1;
                    e.set_current_alpha(Alpha(m.alpha));
                }
                8 => {
                    // answers are computed only when asked for
                    c.op(|| "ask".into());
                    let which = c.pick(4);
                    match which {
                        0 => drop(e.get_rep_ordered_ars_list()),
                        1 => drop(e.threshold_factor(3)),
                        2 => drop(e.total_active_reputation()),
                        _ => drop(e.get_eligibility(&pkh(1))),
                    }
                }
                _ => {
                    if c.flag() {
                        c.op(|| "restart".into());
                        e = bincode::deserialize(&bincode::serialize(&e).unwrap()).map_err(|e| e.to_string())?;
                    } else {
                        c.op(|| "copy".into());
                        e = e.clone();
                    }
                }
            }
            m.rep.clear();
            for (_, id, r) in &packets {
                *m.rep.entry(*id).or_default() += r;
            }
            m.active = (0..3).filter(|i| window.iter().any(|w| w.contains(i))).collect();
        }
        c.outcome(if m.active.is_empty() { "nobody active" } else { "active" });
        compare(&e, &m, 4)
    });
}

fn issued(run: &mut Run) {
    let top = run.pick(14u32, 40);
    explore(run, "issued and lost reputation", move |c| {
        let stop = c.pick(top as usize) as u32;
        let each = c.of(&[0u32, 1, 3]);
        for from in 0..top {
            let mut sum = 0;
            for to in from..top + 3 {
                c.ops(1);
                let r = reputation_issuance(Reputation(each), Alpha(stop), Alpha(from), Alpha(to)).0;
                same!(r, each * to.min(stop).saturating_sub(from), "issued from {from} to {to}, until {stop}");
                if to > from {
                    sum += reputation_issuance(Reputation(each), Alpha(stop), Alpha(to - 1), Alpha(to)).0;
                }
                same!(sum, r, "issued step by step from {from} to {to}, until {stop}");
            }
        }
        for (factor, num, den) in [(0.0, 0u64, 1u64), (0.5, 1, 2), (0.25, 1, 4), (1.0, 1, 1)] {
            for lies in 0..6u32 {
                for r in (0..top).chain([1000, 1 << 20, u32::MAX]) {
                    c.ops(1);
                    let want = r as u64 * num.pow(lies) / den.pow(lies);
                    same!(penalize_factor(factor, lies)(Reputation(r)).0 as u64, want, "{r} after {lies} lies at {factor}");
                }
            }
        }
        c.outcome("issued");
        Ok(())
    });
}

pub fn reputation(run: &mut Run) {
    spread(run);
    histories(run);
    issued(run);
}
