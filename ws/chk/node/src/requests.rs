//! Data requests, from asking to paying, in a network of nodes.
use crate::network::{Network, stored, transactions};
use crate::net;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use witnet_data_structures::{chain::*, fee::Fee, transaction::Transaction};
use witnet_node::actors::messages::*;

/// What a source says to a node.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Says {
    One,
    Two,
    Nothing,
}
fn request(witnesses: u16, reward: u64, fee: u64, collateral: u64, percentage: u32) -> DataRequestOutput {
    DataRequestOutput {
        data_request: RADRequest {
            time_lock: 0,
            // As an integer
            retrieve: vec![RADRetrieve { kind: RADType::HttpGet, url: "http://source/".into(), script: vec![0x81, 0x18, 0x72], body: vec![], headers: vec![] }],
            aggregate: RADAggregate { filters: vec![], reducer: 2 },
            tally: RADTally { filters: vec![RADFilter { op: 8, args: vec![] }], reducer: 2 },
        },
        witness_reward: reward,
        witnesses,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: percentage,
        collateral,
    }
}
pub fn requests(run: &mut mc::Run) {
    let o = net::Opts { nodes: 4, outbound: 3, superblock_period: 3, ..Default::default() };
    mc::explore(run, "requests", |c| {
        let says: Vec<Says> = (0..4).map(|_| c.of(&[Says::One, Says::Two, Says::Nothing])).collect();
        let witnesses = c.of(&[1u16, 2, 3, 4]);
        let (reward, fee, collateral) = (1_000_000_000, 10, 2_000_000_001);
        let mut w = Network::start(o.clone());
        let who: Vec<usize> = (0..4).map(|n| w.node(n).id).collect();
        let s = says.clone();
        reqwest::set_local_responder(move |_| {
            let me = who.iter().position(|x| *x == actix::world::node()).expect("nobody asks");
            match s[me] {
                Says::One => Ok(reqwest::Reply { status: 200, headers: vec![], body: b"1".to_vec() }),
                Says::Two => Ok(reqwest::Reply { status: 200, headers: vec![], body: b"2".to_vec() }),
                Says::Nothing => Err("down".into()),
            }
        });
        let mut log = vec![];
        let mut dr = None;
        for e in 0..20 {
            w.epochs(1)?;
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if e == 6 {
                let m = BuildDrt { dro: request(witnesses, reward, fee, collateral, 51), fee: Fee::absolute_from_nanowits(1000), dry_run: false };
                dr = Some(w.node(0).ask(m).map_err(|e| format!("the request was not taken: {e}"))?.hash());
            }
        }
        let dr = dr.unwrap();
        let st = stored(&w.disks[0], w.magic());
        let txs: Vec<(u32, Transaction)> = st.replay()?.1.iter().flat_map(|(e, b)| transactions(b).into_iter().map(|t| (*e, t))).collect();
        let at = |p: PublicKeyHash| (0..4).find(|n| net::pkh(*n) == p).expect("nobody we know");
        let commits: BTreeMap<usize, u32> = txs.iter().filter_map(|(e, t)| if let Transaction::Commit(t) = t { Some((at(t.body.proof.proof.pkh()), *e)) } else { None }).collect();
        let reveals: BTreeMap<usize, (u32, Vec<u8>)> = txs.iter().filter_map(|(e, t)| if let Transaction::Reveal(t) = t { Some((at(t.body.pkh), (*e, t.body.reveal.clone()))) } else { None }).collect();
        let tallies: Vec<_> = txs.iter().filter_map(|(e, t)| if let Transaction::Tally(t) = t { Some((*e, t)) } else { None }).collect();
        let all = || format!("{says:?} {witnesses} {commits:?} {reveals:?} {tallies:?}\n{}", log.join("\n"));
        mc::ensure!(tallies.len() == 1 && tallies[0].1.dr_pointer == dr, "not one tally: {}", all());
        if commits.is_empty() {
            // Too few were eligible: the one who asked has it all back
            let t = tallies[0].1;
            mc::ensure!(witnesses > 1 && t.tally == [0xd8, 39, 0x81, 0x18, 0x52] && t.outputs.len() == 1, "nobody came: {}", all());
            mc::ensure!(at(t.outputs[0].pkh) == 0 && t.outputs[0].value == (reward + 2 * fee) * witnesses as u64, "not all back: {}", all());
            c.outcome("nobody came");
            w.end();
            return Ok(());
        }
        mc::ensure!(commits.len() == witnesses as usize && reveals.len() == commits.len(), "not all committed or revealed: {}", all());
        let (end, tally) = tallies[0];
        for (n, (e, r)) in &reveals {
            mc::ensure!(commits[n] < *e && *e < end, "not in turn: {}", all());
            match says[*n] {
                Says::One => mc::ensure!(r == &[0xf9, 0x3c, 0], "node {n} revealed something else: {}", all()),
                Says::Two => mc::ensure!(r == &[0xf9, 0x40, 0], "node {n} revealed something else: {}", all()),
                // an error is a tagged array
                Says::Nothing => mc::ensure!(r[..2] == [0xd8, 39], "node {n} revealed something else: {}", all()),
            }
        }
        let paid: BTreeMap<usize, u64> = tally.outputs.iter().fold(BTreeMap::new(), |mut m, o| {
            *m.entry(at(o.pkh)).or_default() += o.value;
            m
        });
        let out: BTreeSet<usize> = tally.out_of_consensus.iter().map(|p| at(*p)).collect();
        let erred: BTreeSet<usize> = tally.error_committers.iter().map(|p| at(*p)).collect();
        // What most of them say
        let n = commits.len();
        let most = [Says::One, Says::Two, Says::Nothing].into_iter().find(|s| commits.keys().filter(|k| says[**k] == *s).count() * 100 >= n * 51);
        if let Some(most) = most {
            let right: BTreeSet<usize> = commits.keys().copied().filter(|k| says[*k] == most).collect();
            // (of an error, its code)
            let (a, b) = (&tally.tally, &reveals[right.first().unwrap()].1);
            mc::ensure!(a == b || (most == Says::Nothing && a[3..5] == b[3..5]), "not what most of them say: {}", all());
            for k in commits.keys() {
                let got = paid.get(k).copied().unwrap_or(0);
                // what the one who asked gets back goes to the first node
                let back = if *k == 0 { reward * if most == Says::Nothing { 0 } else { (n - right.len()) as u64 } } else { 0 };
                // (where most fail, nobody lied)
                let want = if right.contains(k) || most == Says::Nothing {
                    mc::ensure!(!out.contains(k), "{k} is said to be out of consensus: {}", all());
                    collateral + reward
                } else if says[*k] == Says::Nothing {
                    mc::ensure!(erred.contains(k), "{k} is not said to have failed: {}", all());
                    collateral
                } else {
                    mc::ensure!(out.contains(k) && !erred.contains(k), "{k} is not said to be out of consensus: {}", all());
                    0
                };
                mc::ensure!(got == want + back, "{k} is paid {got}, not {}: {}", want + back, all());
            }
            c.outcome(&format!("{most:?}"));
        } else {
            mc::ensure!(tally.tally[..2] == [0xd8, 39], "a result that too few agree on: {}", all());
            c.outcome("nobody is right");
        }
        for n in 0..4 {
            let i = w.node(n).ask_info(dr)?;
            mc::ensure!(i.tally.as_ref() == Some(tally), "node {n} knows {i:?}, not {}", all());
        }
        w.end();
        Ok(())
    });
}
/// While a request is on its way, one of the nodes goes away.
pub fn away(run: &mut mc::Run) {
    let o = net::Opts { nodes: 4, outbound: 3, superblock_period: 3, ..Default::default() };
    let steps = run.pick(12, 40);
    mc::explore(run, "away", |c| {
        let victim = 1 + c.pick(3);
        let (kill, down) = (c.flag(), c.of(&[8, 24]));
        // every 5 (or 15) seconds of the epochs in which it is resolved
        let moment = 5 * 8 + c.pick(steps) * 40 / steps;
        let witnesses = 2;
        let (reward, fee, collateral) = (1_000_000_000, 10, 2_000_000_001);
        let mut w = Network::start(o.clone());
        reqwest::set_local_responder(move |_| Ok(reqwest::Reply { status: 200, headers: vec![], body: b"1".to_vec() }));
        let mut log = vec![];
        let mut drs = vec![];
        w.epochs(2)?;
        for s in 0..8 * 24 {
            if s == moment {
                if kill {
                    w.kill(victim)
                }
                w.cut(&(0..4).map(|n| (n == victim) as u8).collect::<Vec<_>>());
            }
            if s == moment + down {
                w.cut(&[0; 4]);
                if kill {
                    w.revive(victim, w.disks[victim].clone());
                }
            }
            if s == 32 || s == 44 {
                let m = BuildDrt { dro: request(witnesses, reward, fee, collateral, 51), fee: Fee::absolute_from_nanowits(1000), dry_run: false };
                drs.push(w.node(0).ask(m).map_err(|e| format!("the request was not taken: {e}"))?.hash());
            }
            w.run(5)?;
            if s % 8 == 7 {
                log.push(format!("{} {}", s / 8, w.summary()));
                w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            }
        }
        let b = w.beacons();
        mc::ensure!(b.iter().all(|x| *x == b[0]), "not the same in the end:\n{}", log.join("\n"));
        for dr in drs {
            let i = w.node(0).ask_info(dr)?;
            for n in 1..4 {
                mc::ensure!(w.node(n).ask_info(dr)? == i, "node {n} knows something else about {dr} than node 0:\n{i:?}\n{:?}\n{}", w.node(n).ask_info(dr), log.join("\n"));
            }
            let t = i.tally.as_ref().ok_or_else(|| format!("no tally: {i:?}\n{}", log.join("\n")))?;
            let paid = |p: PublicKeyHash| t.outputs.iter().filter(|o| o.pkh == p).map(|o| o.value).sum::<u64>();
            for (p, _) in &i.commits {
                if i.reveals.contains_key(p) {
                    mc::ensure!(paid(*p) >= collateral + if i.reveals.len() == i.commits.len() { reward } else { 0 }, "{p} revealed, but is not paid: {i:?}\n{}", log.join("\n"));
                } else {
                    mc::ensure!(*p == net::pkh(victim) && paid(*p) <= collateral, "{p} did not reveal: {i:?}\n{}", log.join("\n"));
                }
            }
            c.outcome(&format!("{} {}", i.commits.len(), i.reveals.len()));
        }
        w.end();
        Ok(())
    });
}
