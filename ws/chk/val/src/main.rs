//! Validation of transactions and blocks.
mod blocks;
mod commits;
mod headers;
mod superblocks;
mod tallies;
mod txs;
mod world;

fn main() {
    mc::main(&[("C26", txs::transactions), ("C27", blocks::blocks), ("C28", commits::commits), ("C29", tallies::tallies), ("C30", headers::headers), ("C34", superblocks::superblocks)]);
}
