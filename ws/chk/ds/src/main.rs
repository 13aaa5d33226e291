//! Data structures: the ledger's sets and pools.
mod drpool;
mod epochs;
mod factory;
mod fees;
mod pool;
mod rep;
mod stakes;
mod tapi;
mod text;
mod utxo;
mod wire;

fn main() {
    mc::main(&[("C20", utxo::view), ("C21", factory::build), ("C22", pool::pool), ("C23", drpool::life), ("C24", drpool::tally), ("C25", stakes::stakes), ("C31", rep::reputation), ("C32", tapi::tapi), ("C33", epochs::epochs), ("C35", wire::wire), ("C46", fees::fee), ("C47", text::text)]);
}
