//! Protected memory and future helpers.
mod fut;
mod prot;

#[global_allocator]
static ALLOC: prot::Spy = prot::Spy;

fn main() {
    mc::main(&[("C16", prot::wiped), ("C17", prot::values), ("C18", fut::flatten)]);
}
