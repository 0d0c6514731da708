//! S11: requirements on literals are merged and stored without loss.
use amzn_smt_string_transformer::mapping_tools::Mapping;
use amzn_smt_string_transformer::transpiler::{KeepInts, MappedStringMetaObj, StringSetProperties};
use aws_smt_ir::ISymbol;
use mc::run::{isolated, scratch, Check, Sink, Tally};
use serde_json::Value;
use std::collections::{BTreeSet, HashMap, HashSet};

pub struct Requirements;

const RANGES: [(char, char); 4] = [('a', 'z'), ('"', '\\'), ('\u{0}', '\u{10ffff}'), ('z', 'a')];
/// 2 lengths x 16 sets of ranges x 3 x 2 x 2, and everything
const N: usize = 2 * 16 * 3 * 2 * 2 + 1;

#[derive(Clone, PartialEq, Debug)]
struct P {
    everything: bool,
    len: bool,
    ranges: usize,
    ints: usize,
    subs: bool,
    ends: bool,
}

fn point(k: usize) -> P {
    P { everything: k == N - 1, len: k & 1 == 1, ranges: k / 2 % 16, ints: k / 32 % 3, subs: k / 96 % 2 == 1, ends: k / 192 % 2 == 1 }
}

fn real(p: &P) -> StringSetProperties {
    if p.everything {
        return StringSetProperties::Everything;
    }
    StringSetProperties::Some {
        len: p.len,
        ranges: (0..4).filter(|i| p.ranges >> i & 1 == 1).map(|i| RANGES[i]).collect(),
        keep_ints: [KeepInts::No, KeepInts::AsInts, KeepInts::ExactInts][p.ints],
        keep_substrings: p.subs,
        keep_prefix_suffix: p.ends,
    }
}

/// The weakest requirements that imply both.
fn join(a: &P, b: &P) -> P {
    P { everything: a.everything || b.everything, len: a.len || b.len, ranges: a.ranges | b.ranges, ints: a.ints.max(b.ints), subs: a.subs || b.subs, ends: a.ends || b.ends }
}

const WORDS: [&str; 12] = ["", "a", "ab", "\"", "\\", "\\u{41}", "\u{0}", "\n\t", "é", "\u{1f600}", "{}[],:", "\u{10ffff}\u{2028}"];

fn strings(v: &Value) -> BTreeSet<String> {
    v.as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default()
}

impl Check for Requirements {
    fn id(&self) -> &'static str {
        "S11"
    }
    fn gen(&self, _thorough: bool, sink: Sink<'_>) {
        for a in 0..N {
            sink(format!("merge {}", a));
            if a < N - 1 {
                sink(format!("store {}", a));
            }
        }
        for i in 0..WORDS.len() {
            for j in 0..WORDS.len() {
                sink(format!("words {} {}", i, j));
            }
        }
        sink("ints".into());
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        t.execs += 1;
        match w[0] {
            "ints" => {
                let k = [KeepInts::No, KeepInts::AsInts, KeepInts::ExactInts];
                for i in 0..3 {
                    for j in 0..3 {
                        t.states += 1;
                        t.transitions += 1;
                        if KeepInts::merge(&k[i], k[j]) != k[i.max(j)] {
                            return Err(format!("wrong merge: {:?} and {:?}", k[i], k[j]));
                        }
                    }
                }
                t.outcome("merged");
                Ok(())
            }
            "merge" => {
                let a = point(w[1].parse().unwrap());
                for b in 0..N {
                    let b = point(b);
                    t.states += 1;
                    t.transitions += 1;
                    let got = real(&a).update_with_truths(real(&b));
                    let want = join(&a, &b);
                    let want = if want.everything { StringSetProperties::Everything } else { real(&want) };
                    if got != want {
                        return Err(format!("wrong merge: {:?} and {:?} give {:?}", a, b, got));
                    }
                }
                t.outcome("merged");
                Ok(())
            }
            _ => {
                t.states += 1;
                t.transitions += 1;
                let (k, i, j) = if w[0] == "store" { (w[1].parse().unwrap(), 1, 2) } else { (77, w[1].parse::<usize>().unwrap(), w[2].parse::<usize>().unwrap()) };
                let dir = scratch().join("props");
                std::fs::create_dir_all(&dir).unwrap();
                let file = dir.join("m.json").to_str().unwrap().to_string();
                let (json, json2, same) = isolated(1, move || -> Result<(String, String, bool), String> {
                    let (a, b) = (WORDS[i], WORDS[j]);
                    let sym = |s: &str| ISymbol::from(format!("|{}|", s.replace('|', "").replace('\\', "")).as_str());
                    let p = real(&point(k));
                    let ends = (a.chars().next().unwrap_or('x'), b.chars().last().unwrap_or('y'));
                    let meta = || MappedStringMetaObj { req_props: p.clone(), prefix: a.into(), suffix: b.into(), mid_strings: vec![a.into(), b.into(), format!("{}{}", a, b)], mapped_to: format!("{}{}", b, a) };
                    let persist: HashMap<String, MappedStringMetaObj> = [(a.to_string(), meta()), (format!("{}x", b), meta())].into();
                    let fail = sym("f");
                    let m = Mapping::new(&[(ends.0, ends.1), ('q', 'r')], &[(a.to_string(), b.to_string())].into(), &HashSet::from([sym(a), sym("v")]), &HashSet::from([&fail]), &[(sym(a), sym(b))].into(), &persist, &HashSet::from([b.to_string()]));
                    m.print_json_to_file(&file).map_err(|e| e.to_string())?;
                    let json = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
                    let back = Mapping::build_from_json_file(&file).map_err(|e| format!("not readable: {}", e))?;
                    let o = back.persistent_string_map.iter().find(|(s, _)| s == a).ok_or("literal lost")?.1.to_meta_obj();
                    let want = meta();
                    let same = o.req_props == want.req_props && o.prefix == want.prefix && o.suffix == want.suffix && o.mid_strings == want.mid_strings && o.mapped_to == want.mapped_to
                        && back.char_map == [(ends.0, ends.1), ('q', 'r')] && back.string_map == [(a.to_string(), b.to_string())] && back.char_to_char_string_lits == [b.to_string()];
                    Ok((json, back.to_json_string().map_err(|e| e.to_string())?, same))
                })??;
                t.outcome("stored");
                if !same {
                    return Err(format!("other requirements read back: {}", json));
                }
                // the file, as far as order matters
                let (x, y): (Value, Value) = (serde_json::from_str(&json).map_err(|e| e.to_string())?, serde_json::from_str(&json2).map_err(|e| e.to_string())?);
                for key in ["char_map", "string_map", "affected_constraint_vars", "failed_transformed_constraint_vars", "alpha_renaming_map", "char_to_char_string_lits"] {
                    if strings(&x[key]) != strings(&y[key]) || x[key].is_null() || strings(&x[key]).is_empty() {
                        return Err(format!("{} read back differently: {} and {}", key, x[key], y[key]));
                    }
                }
                Ok(())
            }
        }
    }
    fn rule(&self) -> &'static str {
        "all pairs of the 385 combinations of requirements; every combination and all pairs of twelve strings written to and read from a mapping file"
    }
}
