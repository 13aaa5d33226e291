mod hist;
mod keyring;
mod ledger;
mod rpc;
mod sessions;
mod txs;
mod world;

fn main() {
    mc::main(&[("C40", hist::c40), ("C41", keyring::c41), ("C42", txs::c42), ("C43", sessions::c43)]);
}
