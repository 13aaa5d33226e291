use crate::oracle;
use mc::{Ch, Run, ensure, explore, guard, same};
use witnet_crypto::hash::Sha256;
use witnet_crypto::merkle::{FullMerkleTree, InclusionProof, ProgressiveMerkleTree, merkle_tree_root, sha256_concat};

fn leaf(i: usize) -> [u8; 32] {
    oracle::sha256(&(i as u64).to_le_bytes())
}
/// Some leaves are awkward: all zero, the hash of nothing.
fn sym(i: usize) -> [u8; 32] {
    match i {
        0 => leaf(0),
        1 => [0; 32],
        2 => oracle::sha256(&[]),
        i => leaf(i),
    }
}

fn three(l: &[[u8; 32]]) -> Result<(), String> {
    let want = Sha256(oracle::merkle_root(l));
    let h: Vec<Sha256> = l.iter().map(|x| Sha256(*x)).collect();
    same!(merkle_tree_root(&h), want, "root of {} leaves", l.len());
    let full = FullMerkleTree::sha256(h.clone());
    same!(full.root(), want, "full tree root of {} leaves", l.len());
    let mut p = ProgressiveMerkleTree::sha256();
    for x in &h {
        p.push(*x);
    }
    same!(p.root(), want, "progressive root of {} leaves", l.len());
    same!(p.root(), want, "progressive root asked again");
    Ok(())
}

pub fn roots(run: &mut Run) {
    let n = run.pick(9, 12);
    explore(run, "two symbols", move |c: &mut Ch| {
        let len = c.pick(n + 1);
        let l: Vec<_> = (0..len).map(|_| sym(c.pick(2))).collect();
        c.op(|| format!("{len} leaves"));
        c.state(&l);
        three(&l)
    });
    let n = run.pick(7, 8);
    explore(run, "four symbols", move |c: &mut Ch| {
        let len = c.pick(n + 1);
        let l: Vec<_> = (0..len).map(|_| sym(c.pick(4))).collect();
        c.op(|| format!("{len} leaves"));
        c.state(&l);
        three(&l)
    });
    // Whatever was asked before, every leaf counts.
    explore(run, "one list after another", |c: &mut Ch| {
        let n = c.of(&(1..=24).chain([31, 32, 33, 63, 64, 65, 100, 129]).collect::<Vec<usize>>());
        let l0: Vec<_> = (0..n).map(leaf).collect();
        let at = c.pick(n);
        three(&l0)?;
        let mut l = l0.clone();
        l[at] = leaf(1000);
        three(&l)?;
        if at + 1 < n {
            l[at] = l0[at + 1];
            l[at + 1] = l0[at];
            three(&l)?;
        }
        three(&l0)?;
        // One that grows while it is looked at.
        let mut p = ProgressiveMerkleTree::sha256();
        for (i, x) in l.iter().enumerate() {
            p.push(Sha256(*x));
            if i >= at {
                same!(p.root(), Sha256(oracle::merkle_root(&l[..=i])), "progressive root of {} leaves, asked since there were {}", i + 1, at + 1);
            }
        }
        c.ops(4);
        c.op(|| format!("{n} leaves, {at} changed"));
        c.state(&(n, at));
        Ok(())
    });
    // Different lists (up to this size) have different roots; the order matters.
    let n = run.pick(5, 6);
    explore(run, "no two lists share a root", move |c: &mut Ch| {
        // Lists of distinct leaves of two sizes: all ordered selections.
        let mut seen = std::collections::HashMap::new();
        let k = c.pick(n) + 1;
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        let mut count = 0;
        while let Some(l) = stack.pop() {
            let h: Vec<Sha256> = l.iter().map(|i| Sha256(leaf(*i))).collect();
            let r = merkle_tree_root(&h);
            if let Some(o) = seen.insert(r.0, l.clone()) {
                return Err(format!("lists {o:?} and {l:?} have the same root"));
            }
            count += 1;
            for i in 0..k {
                if !l.contains(&i) {
                    let mut m = l.clone();
                    m.push(i);
                    stack.push(m);
                }
            }
        }
        c.ops(count);
        c.op(|| format!("{count} lists over {k} leaves"));
        c.state(&k);
        Ok(())
    });
    // Every length: prefix by prefix.
    let n = run.pick(700, 4200);
    explore(run, "lengths", move |c: &mut Ch| {
        let len = c.pick(n);
        let l: Vec<_> = (0..len).map(leaf).collect();
        c.op(|| format!("{len} distinct leaves"));
        c.state(&len);
        three(&l)
    });
    let n = run.pick(2100, 70_000);
    explore(run, "progressive prefixes", move |c: &mut Ch| {
        let start = c.pick(4);
        let mut p = ProgressiveMerkleTree::sha256();
        let mut l = vec![];
        for i in 0..n {
            // An independent accumulator: the left-to-right binary counter.
            let x = leaf(i + start * 1_000_000);
            p.push(Sha256(x));
            l.push((0u32, x));
            while l.len() > 1 && l[l.len() - 1].0 == l[l.len() - 2].0 {
                let b = l.pop().unwrap();
                let a = l.pop().unwrap();
                l.push((a.0 + 1, oracle::sha256(&[a.1, b.1].concat())));
            }
            let want = l.iter().rev().map(|x| x.1).reduce(|acc, x| oracle::sha256(&[x, acc].concat())).unwrap();
            same!(p.root(), Sha256(want), "progressive root after {} leaves", i + 1);
        }
        c.ops(n as u64);
        c.op(|| format!("{n} pushes"));
        c.state(&start);
        Ok(())
    });
    explore(run, "concatenation", |c| {
        let (a, b) = (sym(c.pick(4)), sym(c.pick(4)));
        c.op(|| "sha256(a || b)".into());
        c.state(&(a, b));
        same!(sha256_concat(Sha256(a), Sha256(b)), Sha256(oracle::sha256(&[a, b].concat())), "concatenation");
        Ok(())
    });
}

pub fn proofs(run: &mut Run) {
    let n = run.pick(40, 130);
    explore(run, "every leaf of every size", move |c: &mut Ch| {
        let len = c.pick(n + 1);
        let l: Vec<_> = (0..len).map(leaf).collect();
        let tree = FullMerkleTree::sha256(l.iter().map(|x| Sha256(*x)).collect());
        let root = Sha256(oracle::merkle_root(&l));
        for i in len..len + 3 {
            ensure!(tree.inclusion_proof(i).is_none(), "a proof for element {i} of {len}");
        }
        ensure!(tree.inclusion_proof(usize::MAX).is_none(), "a proof for an absurd index");
        if len == 0 {
            return Ok(());
        }
        let i = c.pick(len);
        let p = tree.inclusion_proof(i).ok_or("no proof for an element")?;
        let want = oracle::merkle_path(&l, i);
        same!(p.lemma().iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>(), "path of leaf {i} of {len}");
        same!(p.proof_index(), want.iter().enumerate().map(|(k, x)| (x.1 as usize) << k).sum::<usize>(), "directions for leaf {i} of {len}");
        ensure!(p.verify(Sha256(l[i]), root), "the proof of leaf {i} of {len} does not verify");
        same!(p.root(Sha256(l[i])), root, "root from proof");
        // Nothing else verifies with it.
        for (j, x) in l.iter().enumerate() {
            same!(p.verify(Sha256(*x), root), i == j, "proof of {i}/{len} on leaf {j}");
        }
        for bad in [leaf(len + 9), [0; 32], root.0] {
            ensure!(bad == l[i] || !p.verify(Sha256(bad), root), "proof of {i}/{len} accepts a foreign element");
        }
        let mut other = l.clone();
        other.push(leaf(len + 5));
        ensure!(!p.verify(Sha256(l[i]), Sha256(oracle::merkle_root(&other))), "proof of {i}/{len} verifies against another root");
        ensure!(len == 1 || !p.verify(Sha256(l[i]), Sha256(l[i])), "the element itself taken as root");
        // Sent over the wire and rebuilt.
        let q = InclusionProof::sha256(p.proof_index(), p.lemma().to_vec());
        ensure!(q.verify(Sha256(l[i]), root), "rebuilt proof does not verify");
        // Tampered with in every single place.
        let lem = p.lemma().to_vec();
        for k in 0..lem.len() {
            let q = InclusionProof::sha256(p.proof_index() ^ (1 << k), lem.clone());
            ensure!(!q.verify(Sha256(l[i]), root), "proof of {i}/{len} verifies with direction {k} flipped");
            let mut m = lem.clone();
            m[k].0[31] ^= 1;
            ensure!(!InclusionProof::sha256(p.proof_index(), m).verify(Sha256(l[i]), root), "proof of {i}/{len} verifies with sibling {k} changed");
            let mut m = lem.clone();
            m.remove(k);
            ensure!(!InclusionProof::sha256(p.proof_index(), m).verify(Sha256(l[i]), root), "proof of {i}/{len} verifies without sibling {k}");
            for k2 in 0..k {
                let mut m = lem.clone();
                m.swap(k, k2);
                ensure!(!InclusionProof::sha256(p.proof_index(), m).verify(Sha256(l[i]), root), "proof of {i}/{len} verifies with siblings {k}, {k2} exchanged");
            }
        }
        let mut m = lem.clone();
        m.push(root);
        ensure!(!InclusionProof::sha256(p.proof_index(), m).verify(Sha256(l[i]), root), "an extended proof verifies");
        c.ops(len as u64 + 3 * lem.len() as u64);
        c.op(|| format!("leaf {i} of {len}: path of {}", lem.len()));
        c.state(&(i, len));
        c.outcome(&format!("path length {}", lem.len()));
        Ok(())
    });
    // Whatever somebody sends as a proof: it is followed, however long it is.
    explore(run, "proofs of any length", |c: &mut Ch| {
        let n = c.of(&[0usize, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 255, 256, 257, 1000]);
        let index = c.of(&[0usize, 1, 2, 3, 0xff, 0x100, 0x5555_5555, 1 << 31, 1 << 32, usize::MAX >> 1, 1 << 63, usize::MAX - 1, usize::MAX]);
        let l: Vec<_> = (0..n).map(leaf).collect();
        let p = InclusionProof::sha256(index, l.iter().map(|x| Sha256(*x)).collect());
        let e = leaf(5000);
        let mut want = e;
        for (k, h) in l.iter().enumerate() {
            let left = k < 64 && index as u64 >> k & 1 == 1;
            want = oracle::sha256(&if left { [*h, want].concat() } else { [want, *h].concat() });
        }
        same!(guard(|| p.root(Sha256(e)))?.0, want, "root of a proof of {n} levels with index {index:#x}");
        ensure!(guard(|| p.verify(Sha256(e), Sha256(want)))?, "a proof of {n} levels does not verify");
        for k in 0..n.min(70) {
            let mut m = want;
            m[k % 32] ^= 1 << (k % 8);
            ensure!(!p.verify(Sha256(e), Sha256(m)), "a proof of {n} levels verifies against a wrong root");
        }
        same!((p.proof_index(), p.lemma().len()), (index, n), "proof as made");
        c.ops(n as u64 + 1);
        c.op(|| format!("{n} levels, index {index:#x}"));
        c.state(&(n, index));
        Ok(())
    });
    let n = run.pick(7, 9);
    explore(run, "repeated leaves", move |c: &mut Ch| {
        let len = c.pick(n) + 1;
        let l: Vec<_> = (0..len).map(|_| sym(c.pick(3))).collect();
        let tree = FullMerkleTree::sha256(l.iter().map(|x| Sha256(*x)).collect());
        let root = tree.root();
        for i in 0..len {
            let p = tree.inclusion_proof(i).ok_or("no proof")?;
            for j in 0..4 {
                same!(p.verify(Sha256(sym(j)), root), sym(j) == l[i], "proof of {i} in {len} on symbol {j}");
            }
        }
        c.ops(4 * len as u64);
        c.op(|| format!("{len} leaves"));
        c.state(&l);
        Ok(())
    });
    let sizes: Vec<usize> = run.pick(vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025], vec![63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 10_000]);
    explore(run, "large trees", move |c: &mut Ch| {
        let len = c.of(&sizes);
        let l: Vec<_> = (0..len).map(leaf).collect();
        let tree = FullMerkleTree::sha256(l.iter().map(|x| Sha256(*x)).collect());
        let root = Sha256(oracle::merkle_root(&l));
        for i in 0..len {
            let p = tree.inclusion_proof(i).ok_or("no proof")?;
            ensure!(p.verify(Sha256(l[i]), root), "the proof of leaf {i} of {len} does not verify");
            ensure!(!p.verify(Sha256(l[(i + 1) % len]), root), "the proof of leaf {i} of {len} verifies for its neighbour");
        }
        c.ops(2 * len as u64);
        c.op(|| format!("{len} leaves"));
        c.state(&len);
        Ok(())
    });
}
