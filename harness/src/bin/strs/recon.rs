//! S03: models of the transformed script are reconstructed to models of the original one.
use crate::common::{assignments, atoms, bits, default_env, show, transform};
use crate::equi::Equi;
use amzn_smt_string_transformer as st;
use aws_smt_ir::smt2parser::concrete::{Constant, Sort};
use aws_smt_ir::{logic::ALL, CoreOp, FunctionDec, ISort};
use mc::eval::Val;
use mc::run::{Check, Sink, Tally};
use std::collections::HashMap;
use std::rc::Rc;

type Term = aws_smt_ir::Term<ALL>;
type Command = aws_smt_ir::Command<Term>;

/// The value as a solver prints it: other characters than printable ASCII as escapes.
fn smt(w: &[u32]) -> String {
    w.iter().map(|&c| match char::from_u32(c) {
        Some(c) if (' '..='~').contains(&c) && c != '\\' => c.to_string(),
        _ => format!("\\u{{{:x}}}", c),
    }).collect()
}

pub struct Recon;

impl Check for Recon {
    fn id(&self) -> &'static str {
        "S03"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        Equi(true).gen(thorough, sink)
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let a = atoms(case)?;
        t.execs += 1;
        let out = transform(1, case, true)?;
        let b = atoms(&out.text).map_err(|e| format!("{} in {}", e, out.text))?;
        let file = mc::run::scratch().join(format!("{:?}_mapping.json", std::thread::current().id()));
        std::fs::write(&file, &out.json).map_err(|e| e.to_string())?;
        let map = st::mapping_tools::Mapping::build_from_json_file(file.to_str().unwrap()).map_err(|e| format!("mapping file: {}", e))?;
        let alpha: HashMap<&str, &str> = out.alpha.iter().map(|(o, n)| (n.as_str(), o.as_str())).collect();
        let mut env_a = default_env(&a);
        let mut env_b = default_env(&b);
        let mut cache: HashMap<(usize, Vec<u32>), Option<Vec<u32>>> = HashMap::new();
        let mut err: Option<String> = None;
        let mut states = 0;
        let string: ISort = Sort::Simple { identifier: aws_smt_ir::smt2parser::concrete::Identifier::Simple { symbol: aws_smt_ir::smt2parser::concrete::Symbol("String".into()) } }.into();
        assignments(&b, 2, true, &mut |_, members, vals, here| {
            if err.is_some() {
                return;
            }
            let mut read = vec![];
            for (m, v) in members.iter().zip(vals) {
                env_b[*m] = v.clone();
                let Val::Str(w) = v else { return };
                let name = &b.sc.vars[*m].0;
                let r = cache.entry((*m, w.to_vec())).or_insert_with(|| {
                    let value: Term = Constant::String(smt(w)).into();
                    let sig = FunctionDec { name: name.as_str().into(), parameters: vec![], result: string.clone() };
                    match st::reconstruct_tools::build_string_var_assertions(&map, &Command::DefineFun { sig, term: value }) {
                        Some(Command::Assert { term: Term::CoreOp(op) }) => match op.as_ref() {
                            CoreOp::Eq(args) => match args.as_slice() {
                                [Term::Variable(v), Term::Constant(c)] if v.sym_str() == *alpha.get(name.as_str())? => match c.as_ref() {
                                    Constant::String(s) => Some(mc::eval::decode_literal(s)),
                                    _ => None,
                                },
                                _ => None,
                            },
                            _ => None,
                        },
                        Some(_) => None,
                        // not affected by the transformation
                        None => Some(w.to_vec()),
                    }
                });
                match r {
                    Some(r) => read.push(r.clone()),
                    None => {
                        err = Some(format!("no reconstruction of {} = {:?}", name, smt(w)));
                        return;
                    }
                }
            }
            for (m, w) in members.iter().zip(&read) {
                let o = alpha[b.sc.vars[*m].0.as_str()];
                let k = a.sc.vars.iter().position(|v| v.0 == o).unwrap();
                env_a[k] = Val::Str(Rc::new(w.clone()));
            }
            states += 1;
            let got = bits(&b, &env_b, here, t);
            let want = bits(&a, &env_a, here, t);
            if got != want {
                err = Some(format!("wrong reconstruction: {:?} to {:?}: {} became {} in {}", vals, read.iter().map(|r| smt(r)).collect::<Vec<_>>(), show(&b, got), show(&b, want), out.text.replace('\n', " ")));
            }
        });
        t.outcome("models reconstructed");
        t.states += states;
        match err {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "the scripts of S02; for each, models of the transformed script that reach every state of the product of its atoms twice, the literals and all words of up to two characters that occur in it"
    }
}
