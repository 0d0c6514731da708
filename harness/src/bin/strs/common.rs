use crate::lang::Lang;
use mc::eval::{eval, NoFuns, Script, Sort, Val, E};
use mc::run::{isolated, Tally};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Out {
    /// What the command line tool writes to the transformed file.
    pub text: String,
    pub char_map: Vec<(char, char)>,
    pub string_map: Vec<(String, String)>,
    pub affected: Vec<String>,
    pub failed: Vec<String>,
    pub alpha: Vec<(String, String)>,
    pub json: String,
    /// Substrings that were considered, from the persistent map.
    pub persist: Vec<(String, String)>,
}

pub fn convert(text: &str, global: bool, c2c: bool) -> Result<Out, String> {
    use amzn_smt_string_transformer as t;
    let cmds = t::transpiler::parse(text.as_bytes()).map_err(|e| e.to_string())?;
    let (out, m) = t::transpiler::transform_ast(cmds, global, c2c);
    let out = t::subformula_parser::reconstruct_orig_query_shape(out);
    let mut text = out.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("\n");
    if !m.failed_transformed_constraint_vars.is_empty() {
        text = "Encountered unsupported string function: BAILING OUT".into();
    }
    Ok(Out {
        text,
        json: m.to_json_string().map_err(|e| e.to_string())?,
        persist: m.persistent_string_map.iter().map(|(s, o)| (s.clone(), o.mapped_to.clone())).collect(),
        char_map: m.char_map,
        string_map: m.string_map,
        affected: m.affected_constraint_vars,
        failed: m.failed_transformed_constraint_vars,
        alpha: m.alpha_renaming_map,
    })
}

/// The tool's conversion of a script under the hash order of `seed`.
pub fn transform(seed: u64, text: &str, c2c: bool) -> Result<Out, String> {
    let text = text.to_string();
    isolated(seed, move || convert(&text, false, c2c))?.map_err(|e| format!("rejected: {}", e))
}

/// A script of the form: string variables, Boolean variables, `(assert (= p_i atom_i))`.
pub struct Atoms {
    pub sc: Script,
    pub strings: Vec<usize>,
    pub atoms: Vec<E>,
}

pub fn atoms(text: &str) -> Result<Atoms, String> {
    let sc = Script::parse(text).map_err(|e| format!("malformed script: {}", e))?;
    let strings = (0..sc.vars.len()).filter(|&i| sc.vars[i].1 == Sort::Str).collect();
    let bools: Vec<usize> = (0..sc.vars.len()).filter(|&i| sc.vars[i].1 == Sort::Bool).collect();
    let mut atoms: Vec<Option<E>> = vec![None; bools.len()];
    for a in &sc.asserts {
        match a {
            E::Op(op, _, args) if op == "=" && args.len() == 2 => match &args[0] {
                E::Var(v) if bools.contains(v) => {
                    let k = bools.iter().position(|b| b == v).unwrap();
                    if atoms[k].replace(args[1].clone()).is_some() {
                        return Err("wrong shape: two definitions of a variable".into());
                    }
                }
                _ => return Err(format!("wrong shape: {:?}", a)),
            },
            _ => return Err(format!("wrong shape: {:?}", a)),
        }
    }
    let atoms = atoms.into_iter().collect::<Option<Vec<_>>>().ok_or("wrong shape: missing definition")?;
    Ok(Atoms { sc, strings, atoms })
}

fn vars_of(e: &E, out: &mut BTreeSet<usize>) {
    match e {
        E::Var(i) => {
            out.insert(*i);
        }
        E::C(_) => {}
        E::Uf(_, a) | E::Op(_, _, a) => a.iter().for_each(|x| vars_of(x, out)),
    }
}

fn lits_of(e: &E, out: &mut BTreeSet<Vec<u32>>) {
    match e {
        E::C(Val::Str(s)) => {
            out.insert(s.to_vec());
        }
        E::Uf(_, a) | E::Op(_, _, a) => a.iter().for_each(|x| lits_of(x, out)),
        _ => {}
    }
}

/// Calls `f` with every group of variables that are connected by atoms, and every assignment of
/// words to them: (variables, values, atoms over them). The words are those that the regular
/// atoms distinguish (two each unless the group is one variable with regular atoms, where one
/// each is exact) and, in the second case, all words up to `len`.
pub fn assignments(a: &Atoms, len: usize, two: bool, f: &mut dyn FnMut(usize, &[usize], &[Val], &[usize])) {
    let mut l = Lang::default();
    let vs: Vec<BTreeSet<usize>> = a.atoms.iter().map(|e| { let mut s = BTreeSet::new(); vars_of(e, &mut s); s }).collect();
    let mut group: Vec<usize> = (0..a.sc.vars.len()).collect();
    for s in &vs {
        let m: Vec<usize> = s.iter().map(|v| group[*v]).collect();
        if let Some(&first) = m.first() {
            for g in group.iter_mut() {
                if m.contains(g) {
                    *g = first;
                }
            }
        }
    }
    let mut groups: Vec<usize> = a.strings.iter().map(|v| group[*v]).collect();
    groups.sort();
    groups.dedup();
    let constant: Vec<usize> = (0..a.atoms.len()).filter(|i| vs[*i].is_empty()).collect();
    for (gi, g) in groups.iter().map(|g| Some(*g)).chain([None]).enumerate() {
        let members: Vec<usize> = match g {
            Some(g) => a.strings.iter().copied().filter(|v| group[*v] == g).collect(),
            None => vec![],
        };
        let here: Vec<usize> = match g {
            Some(g) => (0..a.atoms.len()).filter(|i| vs[*i].iter().any(|v| group[*v] == g)).collect(),
            None => constant.clone(),
        };
        let mut ids = vec![];
        let mut regular = true;
        for &i in &here {
            match if vs[i].len() == 1 { l.atom(&a.atoms[i]) } else { None } {
                Some(r) => ids.push(r),
                None => regular = false,
            }
        }
        let exact = regular && members.len() <= 1;
        let mut words: BTreeSet<Vec<u32>> = l.words(&ids, if exact && !two { 1 } else { 2 }, 20000).expect("too many states").into_iter().collect();
        if !exact || two {
            let mut lits = BTreeSet::new();
            here.iter().for_each(|&i| lits_of(&a.atoms[i], &mut lits));
            let mut chars: BTreeSet<u32> = l.alphabet(&ids, false).into_iter().collect();
            lits.iter().for_each(|x| chars.extend(x.iter().copied()));
            chars.extend([48, 49, 0x21]);
            words.extend(lits.iter().cloned());
            let mut last: Vec<Vec<u32>> = vec![vec![]];
            for _ in 0..len {
                if last.len() * chars.len() > 4000 / members.len().max(1).pow(3) {
                    break;
                }
                let next: Vec<Vec<u32>> = last.iter().flat_map(|w| chars.iter().map(move |c| { let mut x = w.clone(); x.push(*c); x })).collect();
                words.extend(next.iter().cloned());
                last = next;
            }
        }
        let vals: Vec<Val> = words.into_iter().map(|w| Val::Str(Rc::new(w))).collect();
        let mut idx = vec![0usize; members.len()];
        'all: loop {
            let now: Vec<Val> = idx.iter().map(|i| vals[*i].clone()).collect();
            f(gi, &members, &now, &here);
            let mut k = 0;
            loop {
                if k == idx.len() {
                    break 'all;
                }
                idx[k] += 1;
                if idx[k] < vals.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
}

pub fn default_env(a: &Atoms) -> Vec<Val> {
    a.sc.vars.iter().map(|(_, s)| mc::eval::default(s)).collect()
}

pub fn bits(a: &Atoms, env: &[Val], here: &[usize], t: &mut Tally) -> u32 {
    let mut bits = 0u32;
    for &i in here {
        t.transitions += 1;
        if eval(&a.atoms[i], env, &mut NoFuns) == Some(Val::Bool(true)) {
            bits |= 1 << i;
        }
    }
    bits
}

/// The set of truth vectors of the atoms over all values of the string variables: exact for
/// atoms over one variable each that are regular (product construction), otherwise over the
/// words of `assignments`.
pub fn vectors(a: &Atoms, len: usize, t: &mut Tally) -> BTreeSet<u32> {
    let mut env = default_env(a);
    let mut parts: Vec<BTreeSet<u32>> = vec![];
    assignments(a, len, false, &mut |g, members, vals, here| {
        parts.resize(g + 1, BTreeSet::new());
        for (m, v) in members.iter().zip(vals) {
            env[*m] = v.clone();
        }
        parts[g].insert(bits(a, &env, here, t));
    });
    let mut result = BTreeSet::from([0u32]);
    for part in parts {
        result = result.iter().flat_map(|x| part.iter().map(move |y| x | y)).collect();
    }
    result
}

pub fn show(a: &Atoms, v: u32) -> String {
    (0..a.atoms.len()).map(|i| if v >> i & 1 == 1 { '1' } else { '0' }).collect()
}
