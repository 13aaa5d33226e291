//! RADON: values, operators, filters, reducers, scripts and retrieval.
mod ops;
mod scripts;
mod tally;
mod v;
mod values;

fn main() {
    mc::main(&[("C36", values::values), ("C37", ops::operators), ("C38", tally::tallies), ("C39", scripts::retrievals)]);
}
