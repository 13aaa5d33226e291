//! Storage: the key-value interface and its backends.
mod mt;
mod seq;

fn main() {
    mc::main(&[("C13", seq::map), ("C14", seq::batches), ("C15", mt::concurrent)]);
}
