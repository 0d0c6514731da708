//! Checks of amzn-smt-prediction.
mod count;
mod data;
mod experiment;
mod predict;
mod py;
mod words;

mc::control_hashing!();

fn main() {
    let checks: Vec<&dyn mc::run::Check> = vec![
        &count::Counts, &count::Lists, &words::Words, &predict::Stats, &data::Fastest, &predict::Predictions, &data::Selection, &experiment::Experiments,
    ];
    mc::run::main(&checks);
}
