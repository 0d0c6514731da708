use mc::eval::{Model, Script, Sort, Val};
use mc::run::{isolated, Tally};

pub enum Outcome {
    Sat(String),
    Unsat,
    Rejected(String),
    /// Panic, crash or hang (the message starts with the kind).
    Failed(String),
}

/// The real solver (library entry point, varisat back end), hash keys from `seed`.
pub fn solve(text: &str, seed: u64) -> Outcome {
    let text = text.to_string();
    let r = isolated(seed, move || {
        amzn_smt_eager_arithmetic::solve_with_varisat(text.as_bytes())
            .map(|m| m.map(|m| m.to_string()))
            .map_err(|e| format!("{:#}", e).lines().next().unwrap_or("").to_string())
    });
    match r {
        Ok(Ok(Some(m))) => Outcome::Sat(m),
        Ok(Ok(None)) => Outcome::Unsat,
        Ok(Err(e)) => Outcome::Rejected(e),
        Err(p) => Outcome::Failed(p),
    }
}

pub fn int_box(r: i128) -> impl Fn(&Sort) -> Vec<Val> {
    move |s| match s {
        Sort::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Sort::Int => {
            // small absolute values first
            let mut v = vec![Val::Int(0)];
            for i in 1..=r {
                v.push(Val::Int(i));
                v.push(Val::Int(-i));
            }
            v
        }
        Sort::Bv(w) => (0..1u128 << w).map(|b| Val::Bv(*w, b)).collect(),
        _ => vec![],
    }
}

/// Verdict and model of a formula in the supported fragment against the reference semantics:
/// the model of a `sat` answer must satisfy every assertion, and for an `unsat` answer no
/// valuation of the box may satisfy them.
pub fn check_verdict(text: &str, dom: &dyn Fn(&Sort) -> Vec<Val>, seed: u64, t: &mut Tally) -> Result<(), String> {
    let sc = Script::parse(text).map_err(|e| format!("harness: {}", e)).unwrap();
    t.execs += 1;
    match solve(text, seed) {
        Outcome::Sat(m) => {
            t.outcome("sat");
            t.transitions += 1;
            let model = Model::parse(&m).map_err(|e| format!("malformed model: {} in {}", e, m))?;
            model.check(&sc).map_err(|e| format!("wrong model: {} under {}", e, m.replace('\n', " ")))
        }
        Outcome::Unsat => {
            t.outcome("unsat");
            match sc.find_solution(dom, &mut t.transitions) {
                Some(env) => {
                    let s: Vec<String> = sc.vars.iter().zip(env).map(|((n, _), v)| format!("{}={:?}", n, v)).collect();
                    Err(format!("wrong unsat: satisfied by {}", s.join(", ")))
                }
                None => Ok(()),
            }
        }
        Outcome::Rejected(e) => Err(format!("rejected: {}", e)),
        Outcome::Failed(p) => Err(p),
    }
}

pub fn lit(i: i128) -> String {
    if i < 0 {
        format!("(- {})", -i)
    } else {
        i.to_string()
    }
}

/// `c*v` written the way a user would.
pub fn mul(c: i128, v: &str) -> String {
    match c {
        1 => v.to_string(),
        -1 => format!("(- {})", v),
        // the constant may come second
        _ if c % 2 == 0 => format!("(* {} {})", v, lit(c)),
        _ => format!("(* {} {})", lit(c), v),
    }
}

pub fn lin(terms: &[(i128, &str)]) -> String {
    let ts: Vec<String> = terms.iter().filter(|(c, _)| *c != 0).map(|(c, v)| mul(*c, v)).collect();
    match ts.len() {
        0 => "0".into(),
        1 => ts[0].clone(),
        _ => format!("(+ {})", ts.join(" ")),
    }
}

pub fn decls(vars: &[(&str, &str)]) -> String {
    vars.iter().map(|(v, s)| format!("(declare-const {} {})", v, s)).collect()
}
