//! Configuration and clock.
mod clock;
mod config;

fn main() {
    mc::main(&[("C48", config::config), ("C49", clock::clock)]);
}
