//! Reputation: total reputation set and active reputation set.
mod ars;
mod trs;

fn main() {
    mc::main(&[("C01", trs::balance), ("C02", trs::penalize), ("C03", trs::atomic), ("C04", ars::window)]);
}
