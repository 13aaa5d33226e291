//! Cryptographic building blocks: hashes, Merkle trees, keys, mnemonics, ciphers, signatures.
#![allow(deprecated)]
mod keys;
mod merkle;
mod oracle;
mod sym;

fn main() {
    if keys::print_random() {
        return;
    }
    mc::main(&[
        ("C05", merkle::roots),
        ("C06", merkle::proofs),
        ("C07", keys::derivation),
        ("C08", keys::slip32),
        ("C09", keys::mnemonic),
        ("C10", sym::cipher),
        ("C11", sym::signatures),
        ("C12", sym::hashes),
    ]);
}
