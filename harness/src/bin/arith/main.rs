mod common;
mod io;
mod solver;
mod verdict;

mc::control_hashing!();

fn main() {
    if let Ok(mode) = std::env::var(solver::MODE) {
        std::process::exit(solver::fake_solver(&mode));
    }
    let checks: Vec<&dyn mc::run::Check> = vec![
        &verdict::Lia, &verdict::Uf, &verdict::Bound, &verdict::Magnitude, &verdict::Bvule, &verdict::Sugar, &verdict::Order,
        &solver::Exact, &solver::Protocol, &io::Encode, &io::Unsupported,
    ];
    mc::run::main(&checks);
}
