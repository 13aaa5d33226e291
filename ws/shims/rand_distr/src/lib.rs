//! Stand-in for rand_distr: only what tests use (a Normal by summation).
pub use rand::distributions::{Distribution, Uniform};
#[derive(Debug, Clone, Copy)]
pub struct Normal<T> { m: T, s: T }
impl Normal<f64> {
    pub fn new(m: f64, s: f64) -> Result<Self, ()> { Ok(Normal { m, s }) }
}
impl Distribution<f64> for Normal<f64> {
    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 {
        let x: f64 = (0..12).map(|_| r.r#gen::<f64>()).sum::<f64>() - 6.0;
        self.m + self.s * x
    }
}
