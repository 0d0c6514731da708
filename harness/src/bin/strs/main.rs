//! Checks of amzn-smt-string-transformer.
mod cli;
mod common;
mod equi;
mod hist;
mod lang;
mod props;
mod recon;
mod shape;
mod subs;

mc::control_hashing!();

fn main() {
    let checks: Vec<&dyn mc::run::Check> = vec![&equi::Equi(false), &equi::Equi(true), &recon::Recon, &hist::History, &hist::Orders, &hist::Unsupported, &shape::Shape, &cli::Files, &cli::Reconstruct, &subs::Subformulas, &props::Requirements];
    mc::run::main(&checks);
}
