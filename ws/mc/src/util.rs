//! Deterministic helpers for harnesses.
/// A tiny deterministic generator (only for concrete constants such as keys, never to sample a space).
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 11
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
/// All sequences over `0..k` of length exactly `n`.
pub fn tuples(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u64).pow(n as u32);
    (0..total).map(move |mut x| {
        (0..n)
            .map(|_| {
                let r = (x % k as u64) as usize;
                x /= k as u64;
                r
            })
            .collect()
    })
}
/// All permutations of `v`.
pub fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
