//! Checks of amzn-smt-string-fct-updater.
mod cli;
mod terms;

mc::control_hashing!();

fn main() {
    let checks: Vec<&dyn mc::run::Check> =
        vec![&terms::Meaning, &terms::Escapes, &terms::Idempotent, &terms::Logic, &cli::Files];
    mc::run::main(&checks);
}
