//! The node: its actors as they are, under a scheduler that is in charge of everything.
mod net;
mod network;
mod requests;
use network::Network;

fn crash(run: &mut mc::Run) {
    let ks = run.pick(60, 100);
    mc::explore(run, "crash", |c| {
        let o = net::Opts { nodes: 4, outbound: 3, superblock_period: 3, utxos_in_memory: c.flag(), ..Default::default() };
        let k = 1 + c.pick(ks);
        let down = c.of(&[0, 40, 120, 240]);
        let mut w = Network::start(o.clone());
        let victim = 3;
        let mut dead = None;
        let mut log = vec![];
        for e in 0..30 {
            let mut left = net::PERIOD as u64;
            while left > 0 {
                if dead.is_none() {
                    let d = w.disks[victim].clone();
                    if w.run_until(5, &mut |_| d.records() >= 2 + k)? {
                        w.kill(victim);
                        w.cut(&[0, 0, 0, 1]);
                        let disk = rocksdb::DB::from_log(&d.log()[..2 + k]);
                        network::stored(&disk, w.magic()).audit().map_err(|e| format!("after the crash: {e}"))?;
                        w.disks[victim] = disk;
                        dead = Some(down as i64);
                        log.push(format!("dead at {:?}", actix::world::now()));
                    }
                } else {
                    w.run(5)?;
                }
                left -= 5;
                if let Some(x) = &mut dead {
                    if *x == 0 {
                        w.cut(&[0; 4]);
                        w.revive(victim, w.disks[victim].clone());
                    }
                    *x -= 5;
                }
            }
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if (3..20).contains(&e) {
                let _ = w.pay(e % 4, (e + 1) % 4, 1_000_000_000);
            }
        }
        let b = w.beacons();
        mc::ensure!(b.iter().all(|x| *x == b[0]) && (0..4).all(|n| w.state(n) == "Synced"), "not the same in the end:\n{}", log.join("\n"));
        w.end();
        Ok(())
    });
}
fn cuts(run: &mut mc::Run) {
    let o = net::Opts { nodes: 4, outbound: 3, superblock_period: 3, ..Default::default() };
    let n = run.pick(3, 4);
    mc::explore(run, "cuts", |c| {
        let sides: Vec<[u8; 4]> = (0..n).map(|_| c.of(&[[0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 1], [0, 1, 0, 0]])).collect();
        let off = c.pick(3) as u64;
        let mut w = Network::start(o.clone());
        let mut log = vec![format!("{sides:?}")];
        w.epochs(4 + off)?;
        for e in 0..30 {
            w.cut(&if e < 2 * n { sides[e / 2] } else { [0; 4] });
            w.epochs(1)?;
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if (1..20).contains(&e) {
                let _ = w.pay(e % 4, (e + 1) % 4, 1_000_000_000);
            }
        }
        let back = w.together();
        c.outcome(if back { "together again" } else { "halted" });
        // when a node alone was away from the three others, it finds its way back to them
        let away = sides.iter().filter(|x| **x != [0; 4]).collect::<std::collections::HashSet<_>>();
        mc::ensure!(back || away.len() > 1 || away.contains(&[0, 0, 1, 1]), "not the same in the end:\n{}", log.join("\n"));
        w.end();
        Ok(())
    });
}
/// All nodes die at the same moment, and are started again one after the other.
fn all_crash(run: &mut mc::Run) {
    let ks = run.pick(60, 100);
    let (downs, betweens) = run.pick((&[0, 120][..], &[0, 50][..]), (&[0, 40, 120, 240], &[0, 10, 50]));
    mc::explore(run, "all at once", |c| {
        let o = net::Opts { nodes: 4, outbound: 3, superblock_period: 3, utxos_in_memory: c.flag(), ..Default::default() };
        let k = 1 + c.pick(ks);
        let (down, between) = (c.of(downs), c.of(betweens));
        let mut w = Network::start(o.clone());
        let mut log = vec![];
        for e in 0..30 {
            let d = w.disks[3].clone();
            if w.run_until(40, &mut |_| d.records() >= 2 + k)? {
                break;
            }
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if (3..20).contains(&e) {
                let _ = w.pay(e % 4, (e + 1) % 4, 1_000_000_000);
            }
        }
        for n in 0..4 {
            w.kill(n);
        }
        w.audit().map_err(|e| format!("after the crash: {e}\n{}", log.join("\n")))?;
        let before: Vec<u32> = (0..4).map(|n| w.high(n)).collect();
        log.push(format!("dead at {:?}", actix::world::now()));
        w.run(down)?;
        for n in 0..4 {
            w.revive(n, w.disks[n].clone());
            w.run(between)?;
        }
        for e in 0..30 {
            w.run(40)?;
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if e < 20 {
                let _ = w.pay(e % 4, (e + 1) % 4, 1_000_000_000);
            }
        }
        let on = w.together();
        c.outcome(if on { "goes on" } else { "halted" });
        mc::ensure!(on, "does not go on: {before:?}\n{}", log.join("\n"));
        w.end();
        Ok(())
    });
}
/// A node that was not there at all, or not since some time, catches up with the others.
fn late(run: &mut mc::Run) {
    let js = run.pick(14, 30);
    mc::explore(run, "late", |c| {
        let o = net::Opts { nodes: 4, outbound: 3, superblock_period: c.of(&[3, 5]), utxos_in_memory: c.flag(), ..Default::default() };
        let since = c.of(&[0, 5]);
        let j = 2 + since + c.pick(js);
        let off = c.of(&[5, 20]);
        let mut w = Network::start(o.clone());
        let mut log = vec![];
        for e in 0..j + 14 {
            if e == since {
                w.kill(3);
                if since == 0 {
                    w.disks[3] = net::disk(3);
                }
            }
            if e == j {
                w.run(off)?;
                w.revive(3, w.disks[3].clone());
                w.run(net::PERIOD as u64 - off)?;
            } else {
                w.epochs(1)?;
            }
            log.push(format!("{e} {}", w.summary()));
            w.audit().map_err(|e| format!("{e}\n{}", log.join("\n")))?;
            if (3..20).contains(&e) {
                let _ = w.pay(e % 4, (e + 1) % 4, 1_000_000_000);
            }
        }
        let b = w.beacons();
        mc::ensure!(b.iter().all(|x| *x == b[0]) && (0..4).all(|n| w.state(n) == "Synced"), "not the same in the end:\n{}", log.join("\n"));
        let (a, z) = (network::stored(&w.disks[0], w.magic()), network::stored(&w.disks[3], w.magic()));
        mc::ensure!(a.replay()? == z.replay()?, "not the same chain");
        w.end();
        Ok(())
    });
}
fn main() {
    witnet_data_structures::set_environment(witnet_data_structures::chain::Environment::Development);
    if std::env::var("NODE_LOG").is_ok() {
        struct L;
        impl log::Log for L {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                println!("[{:?}] n{} {} {}: {}", actix::world::now(), actix::world::node(), r.level(), r.target(), r.args())
            }
            fn flush(&self) {}
        }
        log::set_logger(&L).unwrap();
        log::set_max_level(log::LevelFilter::Debug);
    }
    mc::main(&[
        ("C50", |r| {
            crash(r);
            all_crash(r);
            net::clean()
        }),
        ("C51", |r| {
            cuts(r);
            net::clean()
        }),
        ("C52", |r| {
            late(r);
            net::clean()
        }),
        ("C53", |r| {
            requests::requests(r);
            requests::away(r);
            net::clean()
        }),
    ]);
}
