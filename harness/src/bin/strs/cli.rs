//! S06, S09: the command line tool's files, and what it does when they cannot be read or written.
use crate::common::{assignments, atoms, bits, default_env, show, transform, Out};
use crate::equi::{self, script};
use crate::shape;
use mc::eval::Val;
use mc::run::{isolated, scratch, Check, Sink, Tally};
use mc::sexp::{parse, Sx};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufReader, Read};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::rc::Rc;

const STALE: &str = "stale contents, longer than what is written: ............................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................";

const GOOD: [&str; 5] = [
    "(declare-const x String)(declare-const p0 Bool)(declare-const p1 Bool)(assert (= p0 (str.prefixof \"ab\" x)))(assert (= p1 (= x \"b\")))",
    "(set-logic QF_S)\n; comment \"(\n(declare-fun |a b| () String)(declare-const i Int)\n(assert (= (str.len |a b|) i))(assert (not (str.contains |a b| \"\\u{e9}\"\"\")))\n(check-sat)\n(get-model)\n",
    "; only a comment\n",
    "(set-option :produce-models true)(declare-const x String)(assert (str.in_re x (re.+ (re.range \"a\" \"f\"))))\n(push 1)(assert (= (str.to_int x) 12))(check-sat)(pop 1)(assert (= x \"e\"))(check-sat)(exit)\n",
    "(declare-const x String)(assert (str.< x \"b\"))(check-sat)",
];
const BAIL: usize = 4;
const OTHER: &str = "(declare-const x String)(assert (= x \"q\"))(assert (str.prefixof \"ab\" x))";

struct Failing<'a>(&'a [u8], usize);
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "fault"));
        }
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

/// Exit status and stdout of the command line tool.
pub fn tool(dir: &Path, args: &[&str]) -> Result<(i32, String), String> {
    let bin = std::env::current_exe().unwrap().with_file_name("cli-strs");
    let o = Command::new("timeout").arg("20").arg(bin).args(args).current_dir(dir).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    match o.status.code() {
        Some(124) => Err("hang: the tool does not end".into()),
        Some(c) => Ok((c, String::from_utf8_lossy(&o.stdout).into_owned())),
        None => Err(format!("crash: {}", o.status)),
    }
}

/// Every file and directory below `dir` with its contents.
pub fn tree(dir: &Path) -> BTreeMap<PathBuf, Option<String>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                m.insert(p.clone(), None);
                todo.push(p);
            } else {
                m.insert(p.clone(), Some(String::from_utf8_lossy(&std::fs::read(&p).unwrap()).into_owned()));
            }
        }
    }
    m
}

/// What was written, read back from the files.
fn read_back(text: &str, json: &str) -> Result<Out, String> {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("mapping file: {}", e))?;
    let get = |k: &str| v.get(k).cloned().ok_or(format!("mapping file: no {}", k));
    let pairs = |k: &str| -> Result<Vec<(String, String)>, String> { serde_json::from_value(get(k)?).map_err(|e| format!("mapping file: {}: {}", k, e)) };
    let names = |k: &str| -> Result<Vec<String>, String> { serde_json::from_value(get(k)?).map_err(|e| format!("mapping file: {}: {}", k, e)) };
    let persist: Vec<(String, serde_json::Value)> = serde_json::from_value(get("persistent_string_map")?).map_err(|e| e.to_string())?;
    Ok(Out {
        text: text.into(),
        json: json.into(),
        char_map: pairs("char_map")?.into_iter().map(|(a, b)| Ok((a.parse().map_err(|_| "mapping file: no character")?, b.parse().map_err(|_| "mapping file: no character")?))).collect::<Result<_, String>>()?,
        string_map: pairs("string_map")?,
        affected: names("affected_constraint_vars")?,
        failed: names("failed_transformed_constraint_vars")?,
        alpha: pairs("alpha_renaming_map")?,
        persist: persist.into_iter().map(|(s, o)| (s, o["mapped_to"].as_str().unwrap_or("").to_string())).collect(),
    })
}

pub struct Files;

impl Check for Files {
    fn id(&self) -> &'static str {
        "S06"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        for mapping in ["none", "char-to-char", "no-reconstruct", "bogus"] {
            for global in ["own", "global"] {
                for path in ["t.smt2", "./t.smtlib", "sub/a.b.txt", "../s/e~f.smt2", "abs.smt2", "../u.smt2", "t", ".smt2"] {
                    for stale in ["absent", "stale", "malformed", "previous", "dir-out", "dir-map"] {
                        for g in 0..GOOD.len() {
                            sink(format!("cli {} {} {} {} {}", mapping, global, path, stale, g));
                        }
                    }
                    for what in ["missing", "directory"] {
                        sink(format!("cli {} {} {} {} 0", mapping, global, path, what));
                    }
                }
            }
        }
        for g in [0, 1, 3] {
            for i in 0..GOOD[g].len() {
                if GOOD[g].is_char_boundary(i) {
                    sink(format!("cut {} {}", g, i));
                }
                sink(format!("read {} {}", g, i));
            }
        }
        for (i, _) in JUNK.iter().enumerate() {
            for g in [0, 1, 3] {
                for end in 0..5 {
                    sink(format!("junk {} {} {}", i, g, end));
                }
            }
        }
        let _ = thorough;
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        t.execs += 1;
        t.states += 1;
        t.transitions += 1;
        match w[0] {
            "read" => {
                let (g, i): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                let r = isolated(1, move || {
                    let rd = BufReader::with_capacity(7, Failing(GOOD[g].as_bytes(), i));
                    amzn_smt_string_transformer::transpiler::parse(rd).map(|c| c.count()).is_ok()
                })?;
                t.outcome(if r { "accepted" } else { "error" });
                if r {
                    return Err(format!("lost input: read error after {} bytes not reported", i));
                }
                Ok(())
            }
            "cut" | "junk" => {
                let text = if w[0] == "cut" {
                    let (g, i): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                    GOOD[g][..i].to_string()
                } else {
                    let (j, g): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                    let mid = GOOD[g].find("(assert").unwrap();
                    match w[3] {
                        "0" => format!("{} {}", JUNK[j], GOOD[g]),
                        "1" => format!("{} {} {}", &GOOD[g][..mid], JUNK[j], &GOOD[g][mid..]),
                        // right after a message
                        "3" => format!("{}(echo \"m\") {} {}", &GOOD[g][..mid], JUNK[j], &GOOD[g][mid..]),
                        "4" => format!("{}(echo \"\") {}", GOOD[g], JUNK[j]),
                        _ => format!("{} {}", GOOD[g], JUNK[j]),
                    }
                };
                let wellformed = w[0] == "cut" && mc::sexp::parse(&text).is_ok_and(|v| v.iter().all(|c| c.list().is_some()));
                let dir = scratch().join("cut");
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(dir.join("a.smt2"), &text).unwrap();
                let (st, _) = tool(&dir, &["convert", "--input-file", "a.smt2"])?;
                let out = std::fs::read_to_string(dir.join("a_transformed.smt2")).ok();
                let map = std::fs::read_to_string(dir.join("a_mapping.json")).ok();
                t.outcome(if st == 0 { "converted" } else { "error" });
                match (wellformed, st, out, map) {
                    (true, 0, Some(o), Some(m)) => shape::judge(&text, &read_back(&o, &m)?, t),
                    (true, st, _, _) => Err(format!("rejected: status {} for {}", st, text)),
                    (false, 0, _, _) => Err(format!("accepted malformed script: {}", text)),
                    (false, _, None, None) => Ok(()),
                    _ => Err("output written for a malformed script".into()),
                }
            }
            _ => self.cli(&w, t),
        }
    }
    fn rule(&self) -> &'static str {
        "the command line tool for every combination of mapping option, global map, path, contents of the output paths and script; every truncation of three scripts, malformed tokens before, within and after them, also right after a message; every offset at which reading a script can fail"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

const JUNK: [&str; 16] = ["#", "|", "\"", ")", "(", "#b2", "#xg", "01x", "(assert", "(foo)", "(assert (= x y z", "\u{0}", "é", "(assert)", "(check-sat) )", "(assert (_ x))"];

impl Files {
    fn cli(&self, w: &[&str], t: &mut Tally) -> Result<(), String> {
        let (mapping, global, path, state, g) = (w[1], w[2] == "global", w[3].replace('~', " "), w[4], w[5].parse::<usize>().unwrap());
        let root = scratch().join("cli");
        let _ = std::fs::remove_dir_all(&root);
        let dir = root.join("s");
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let path = if path == "abs.smt2" { dir.join("sub").join(path).to_str().unwrap().to_string() } else { path };
        let input = dir.join(&path);
        let (stem, ext) = match path.rsplit('/').next().unwrap().rsplit_once('.') {
            Some((s, e)) if !s.is_empty() => (Some(s.to_string()), e.to_string()),
            _ => (None, String::new()),
        };
        let beside = |name: String| input.parent().unwrap().join(name);
        let files = stem.as_ref().map(|s| (beside(format!("{}_transformed.{}", s, ext)), if global { dir.join("global_mapping.json") } else { beside(format!("{}_mapping.json", s)) }));
        match state {
            "missing" => {}
            "directory" => std::fs::create_dir(&input).unwrap(),
            _ => std::fs::write(&input, GOOD[g]).unwrap(),
        }
        // a mapping of another script, written by the tool itself
        let previous = transform(1, OTHER, mapping == "char-to-char")?;
        if let Some((out, map)) = &files {
            match state {
                "stale" | "malformed" => {
                    std::fs::write(out, STALE).unwrap();
                    std::fs::write(map, if state == "stale" { STALE.to_string() } else { previous.json[..previous.json.len() / 2].to_string() }).unwrap();
                }
                "previous" => std::fs::write(map, &previous.json).unwrap(),
                "dir-out" => std::fs::create_dir(out).unwrap(),
                "dir-map" => std::fs::create_dir(map).unwrap(),
                _ => {}
            }
        }
        let before = tree(&root);
        let mut args = vec!["convert"];
        if mapping != "none" {
            args.extend(["--mapping", mapping]);
        }
        if global {
            args.push("--use-global-map");
        }
        args.extend(["--input-file", &path]);
        let (st, stdout) = tool(&dir, &args)?;
        let mut after = tree(&root);
        let canon = |p: &Path| p.parent().unwrap().canonicalize().unwrap().join(p.file_name().unwrap());
        let written: Vec<PathBuf> = files.iter().flat_map(|(a, b)| [canon(a), canon(b)]).collect();
        let canon_root = root.canonicalize().unwrap();
        for (p, text) in &before {
            let c = canon_root.join(p.strip_prefix(&root).unwrap());
            let now = after.remove(p);
            if now.as_ref() != Some(text) && !written.contains(&c) {
                return Err(format!("other file modified: {}", p.display()));
            }
        }
        for (p, _) in after {
            if !written.contains(&canon_root.join(p.strip_prefix(&root).unwrap())) {
                return Err(format!("other file written: {}", p.display()));
            }
        }
        t.outcome(if st == 0 { "converted" } else { "error" });
        let Some((out, map)) = files.filter(|_| !["missing", "directory", "dir-out", "dir-map"].contains(&state)) else {
            // the mapping of other scripts cannot be read either if it is a directory
            if st == 0 {
                return Err("failure not reported: status 0".into());
            }
            return if ["missing", "directory"].contains(&state) && tree(&root) != before { Err("output written although there is no input".into()) } else { Ok(()) };
        };
        if st != 0 {
            return Err(format!("failed: status {}", st));
        }
        let read = |p: &Path| std::fs::read_to_string(p).map_err(|e| format!("not written: {}: {}", p.display(), e));
        let o = read_back(&read(&out)?, &read(&map)?)?;
        if (mapping == "bogus") != stdout.contains("bogus") {
            return Err(format!("unknown option not reported, or another one: {}", stdout));
        }
        if (g == BAIL) != (o.text.trim() == "Encountered unsupported string function: BAILING OUT") || (g == BAIL) != !o.failed.is_empty() {
            return Err(format!("wrong output: {} with {:?}", o.text, o.failed));
        }
        if g == BAIL {
            return Ok(());
        }
        shape::judge(GOOD[g], &o, t)?;
        if g == 0 {
            equi::judge(GOOD[0], &o, t)?;
        }
        // the character mapping is recorded for this option, and for others only if it is needed
        if mapping == "char-to-char" || !o.char_map.is_empty() {
            let m: HashMap<char, char> = o.char_map.iter().copied().collect();
            for (a, b) in &o.string_map {
                if a.chars().map(|c| m.get(&c).copied()).collect::<Option<String>>().as_ref() != Some(b) {
                    return Err(format!("not by characters: {:?} became {:?} with {:?}", a, b, o.char_map));
                }
            }
        }
        if mapping != "char-to-char" && !o.char_map.is_empty() && g == 0 {
            return Err(format!("mapped by characters: {:?}", o.char_map));
        }
        Ok(())
    }
}

/// S09: the reconstruct operation.
pub struct Reconstruct;

/// (declarations besides x and y, assertions, commands around them)
fn queries() -> Vec<String> {
    let ats: [&[&str]; 9] = [
        &["(= x \"ab\")", "(str.prefixof \"a\" y)"],
        &["(str.in_re x (re.+ (re.range \"a\" \"f\")))", "(= (str.len y) 2)", "(str.contains y x)"],
        &["(= (str.to_int x) 12)", "(str.suffixof \"1\" y)"],
        &["(= x \"\\u{e9}\")", "(= y \"a\"\"b\")"],
        &["(= (str.++ x \"a\" y) \"bab\")"],
        &["(= (str.replace x \"a\" \"b\") y)", "(str.is_digit x)"],
        &["(not (= x y))", "(str.in_re y (re.++ (str.to_re \"ab\") (re.* re.allchar)))"],
        &["(= x \"\\u{5c}u{61}\")", "(str.contains y \"u\")"],
        &["(let ((z x)) (= z \"q\"))", "(= (str.indexof y \"q\" 0) 1)"],
    ];
    let ends = ["(check-sat)(get-model)", "(check-sat)", "", "(check-sat)(check-sat)(exit)", "(push 1)(check-sat)(pop 1)", "(set-info :status sat)(check-sat)(get-value (x))"];
    let mut v = vec![];
    for a in ats {
        for e in ends {
            v.push(format!("{}{}", script(&["x", "y"], a), e));
        }
    }
    v.push("(set-logic QF_S)(check-sat)".into());
    v
}

/// Renames x and y of a query.
fn renamed(q: &str, k: usize) -> String {
    let names = [["x", "y"], ["|a b|", "a1"], ["a1", "a0"], ["|x|", "|(check-sat)|"]][k];
    fn go(t: &Sx, n: &[&str; 2]) -> Sx {
        match t {
            Sx::Atom(a) if a == "x" => Sx::Atom(n[0].into()),
            Sx::Atom(a) if a == "y" => Sx::Atom(n[1].into()),
            Sx::List(l) => Sx::List(l.iter().map(|x| go(x, n)).collect()),
            _ => t.clone(),
        }
    }
    parse(q).unwrap().iter().map(|c| go(c, &names).to_string()).collect::<Vec<_>>().join("\n")
}

fn plain(a: &str) -> &str {
    a.strip_prefix('|').and_then(|a| a.strip_suffix('|')).unwrap_or(a)
}

/// Quotes around symbols make no difference, unless they are needed.
fn unquoted(t: &Sx) -> Sx {
    match t {
        Sx::Atom(a) if plain(a).chars().all(|c| c.is_ascii_alphanumeric()) => Sx::Atom(plain(a).into()),
        Sx::List(l) => Sx::List(l.iter().map(unquoted).collect()),
        _ => t.clone(),
    }
}

/// Only the commands that `atoms` accepts.
fn core(text: &str) -> String {
    parse(text).unwrap().iter().filter(|c| matches!(c.head(), Some("declare-const" | "declare-fun" | "assert"))).map(|c| c.to_string()).collect()
}

/// The value as a solver prints it.
fn smt(w: &[u32]) -> String {
    w.iter().map(|&c| match char::from_u32(c) {
        Some('"') => "\"\"".into(),
        Some(c) if (' '..='~').contains(&c) && c != '\\' => c.to_string(),
        _ => format!("\\u{{{:x}}}", c),
    }).collect()
}

const LAYOUTS: [&str; 12] = ["z3", "cvc", "one line", "unclosed", "reversed", "others", "comments", "no newline", "functions", "unknown variable", "crlf", "errors"];
const STATUS: [&str; 22] = ["sat\n", "unsat\n", "timeout\n", "unknown\n", "sat\n\n", "sat\n(error \"no model\")\n", "unsat\n(error \"line 3 column 10: model is not available\")\n", "unknown\n(\n  (define-fun a0 () String \"a\")\n)\n", "timeout\nsat\n(\n)\n", "", "\n", "sat", "unsat", "SAT\n", " sat\n", "sat \n", "error\n", "(error \"unsat\")\n", "(\n  (define-fun a0 () String \"a\")\n)\n", "success\nsat\n", "unsat\nsat\n(\n)\n", "satisfiable\n"];

impl Check for Reconstruct {
    fn id(&self) -> &'static str {
        "S09"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let n = queries().len();
        for q in 0..n {
            for k in 0..4 {
                for (l, _) in LAYOUTS.iter().enumerate() {
                    if thorough || k == 0 || (q + k + l) % 3 == 0 {
                        sink(format!("model {} {} {}", q, k, l));
                    }
                }
            }
            for (s, _) in STATUS.iter().enumerate() {
                sink(format!("status {} {}", q, s));
            }
        }
        for q in (0..n).step_by(if thorough { 1 } else { 6 }) {
            for k in 0..4 {
                for l in [0, 1, 2] {
                    sink(format!("cut {} {} {}", q, k, l));
                }
            }
        }
        for f in ["missing-mapping", "missing-out", "missing-original", "dir-mapping", "dir-out", "dir-original", "dir-output", "empty-mapping", "half-mapping", "other-mapping", "malformed-original", "cut-original", "stale-output", "binary-out"] {
            for q in [0, 1, 2, 3] {
                for path in ["t.smt2", "./t.smtlib", "sub/a.b.txt", "../s/e~f.smt2", "abs.smt2", "../u.smt2"] {
                    sink(format!("fault {} {} {}", f, q, path));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        match w[0] {
            "model" => {
                let text = renamed(&queries()[w[1].parse::<usize>().unwrap()], w[2].parse().unwrap());
                let q = Query::new(&text)?;
                for m in q.models(t) {
                    let l: usize = w[3].parse().unwrap();
                    // what follows something that is no command may be left out
                    q.reconstruct(&q.print(&m, l), &m, LAYOUTS[l] == "errors", t)?;
                }
                Ok(())
            }
            "cut" => {
                let text = renamed(&queries()[w[1].parse::<usize>().unwrap()], w[2].parse().unwrap());
                let q = Query::new(&text)?;
                let ms = q.models(t);
                let Some(m) = ms.last() else { return Ok(()) };
                let full = q.print(m, w[3].parse().unwrap());
                for i in "sat\n".len()..full.len() {
                    if full.is_char_boundary(i) {
                        q.reconstruct(&full[..i], m, true, t)?;
                    }
                }
                Ok(())
            }
            "status" => {
                let text = &queries()[w[1].parse::<usize>().unwrap()];
                let out = STATUS[w[2].parse::<usize>().unwrap()];
                let dir = scratch().join("rec");
                let q = Query::new(text)?;
                q.put(&dir, out);
                let before = tree(&dir);
                let r = tool(&dir, &["reconstruct", "--input-file", "t.smt2"])?;
                t.execs += 1;
                t.states += 1;
                t.transitions += 1;
                let want = match out {
                    "sat\n" => Some("SAT: no model"),
                    "unsat\n" => Some("UNSAT"),
                    "timeout\n" => Some("timeout"),
                    "unknown\n" => Some("unknown"),
                    o if o.starts_with("unsat\n") => Some("UNSAT"),
                    o if o.starts_with("unknown\n") => Some("unknown"),
                    o if o.starts_with("timeout\n") => Some("timeout"),
                    _ => None,
                };
                let sat = ["sat\n\n", "sat\n(error \"no model\")\n"].contains(&out);
                t.outcome(want.unwrap_or(if sat { "sat" } else { "error" }));
                if sat {
                    // nothing but the original query may be claimed to be a solution
                    return match (r.0, std::fs::read_to_string(dir.join("t_recon_check.smt2"))) {
                        (0, Ok(o)) if parse(&o)? != parse(text)? => Err(format!("wrong reconstruction: {}", o)),
                        _ => Ok(()),
                    };
                }
                if tree(&dir) != before {
                    return Err("file written although there is no model".into());
                }
                match want {
                    Some(w) if r.0 != 0 || r.1.trim() != w => Err(format!("wrong answer: {:?} instead of {}", r, w)),
                    // the end of the line may be missing
                    None if ["sat", "unsat", "sat \n", " sat\n"].contains(&out) => if r.0 != 0 || r.1.trim().to_lowercase().starts_with(out.trim()) { Ok(()) } else { Err(format!("wrong answer: {:?}", r)) },
                    None if r.0 == 0 => Err(format!("failure not reported: {:?}", r)),
                    _ => Ok(()),
                }
            }
            _ => fault(&w, t),
        }
    }
    fn hang_secs(&self) -> u64 {
        120
    }
    fn rule(&self) -> &'static str {
        "the reconstruct operation for 55 queries under four choices of names: every model among those that reach the states of the product of their constraints, printed in twelve layouts; every truncation of three layouts; 22 other solver outputs; 14 faults of the files it reads and writes for six kinds of paths"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

struct Query {
    text: String,
    out: Out,
}

type Model = Vec<(String, Vec<u32>)>;

impl Query {
    fn new(text: &str) -> Result<Query, String> {
        let out = transform(1, text, true)?;
        if !out.failed.is_empty() {
            return Err(format!("bail-out: {:?}", out.failed));
        }
        Ok(Query { text: text.into(), out })
    }
    /// Values of the transformed string variables: the first few for every vector of truth values.
    fn models(&self, t: &mut Tally) -> Vec<Model> {
        let Ok(b) = atoms(&core(&self.out.text)) else { return vec![vec![]] };
        let mut env = default_env(&b);
        let mut seen: HashMap<(usize, u32), usize> = HashMap::new();
        let mut picked: Vec<Vec<Model>> = vec![];
        assignments(&b, 1, true, &mut |g, members, vals, here| {
            for (m, v) in members.iter().zip(vals) {
                env[*m] = v.clone();
            }
            let v = bits(&b, &env, here, t);
            let n = seen.entry((g, v)).or_insert(0);
            *n += 1;
            picked.resize(picked.len().max(g + 1), vec![]);
            if *n <= 2 {
                picked[g].push(members.iter().zip(vals).map(|(m, v)| (b.sc.vars[*m].0.clone(), match v { Val::Str(w) => w.to_vec(), _ => vec![] })).collect());
            }
        });
        let mut ms: Vec<Model> = vec![];
        let n = picked.iter().map(|p| p.len()).max().unwrap_or(0);
        picked.retain(|p| !p.is_empty());
        for i in 0..n.min(8) {
            ms.push(picked.iter().flat_map(|p| p[i % p.len()].clone()).collect());
        }
        if ms.is_empty() { vec![vec![]] } else { ms }
    }
    /// The model as a solver prints it.
    fn print(&self, m: &Model, layout: usize) -> String {
        let def = |n: &str, v: &[u32]| match LAYOUTS[layout] {
            "z3" | "reversed" => format!("  (define-fun {} () String\n    \"{}\")\n", n, smt(v)),
            "comments" => format!("; (define-fun {} () String \"zz\")\n(define-fun {} () String ; {}\n \"{}\")", n, n, n, smt(v)),
            "one line" => format!("(define-fun {} () String \"{}\") ", n, smt(v)),
            "crlf" => format!("  (define-fun {} () String\r\n    \"{}\")\r\n", n, smt(v)),
            "others" => format!("(define-fun p{} () Bool true)\n(define-fun n{} () Int (- 3))\n(define-fun {} () String \"{}\")\n(define-fun r () Real (/ 1.0 2.0))\n", v.len(), v.len(), n, smt(v)),
            "functions" => format!("(define-fun {} () String \"{}\")\n(define-fun f{} ((s!0 String)) String (ite (= s!0 \"a\") \"b\" s!0))\n", n, smt(v), v.len()),
            "unknown variable" => format!("(define-fun other{} () String \"a\")\n(define-fun {} () String \"{}\")\n", v.len(), n, smt(v)),
            "errors" => format!("(define-fun {} () String \"{}\")\n(foo)\n(error \"(define-fun {} () String \"\"z\"\")\")\n", n, smt(v), n),
            _ => format!("(define-fun {} () String \"{}\")\n", n, smt(v)),
        };
        let mut defs: Vec<String> = m.iter().map(|(n, v)| def(n, v)).collect();
        if LAYOUTS[layout] == "reversed" {
            defs.reverse();
        }
        let (open, close) = match LAYOUTS[layout] {
            "cvc" => ("(model\n", ")\n"),
            "unclosed" => ("(\n", ""),
            "no newline" => ("(\n", ")"),
            "crlf" => ("(\r\n", ")\r\n"),
            _ => ("(\n", ")\n"),
        };
        format!("sat\n{}{}{}", open, defs.concat(), close)
    }
    fn put(&self, dir: &Path, out: &str) {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(dir.join("t.smt2"), &self.text).unwrap();
        std::fs::write(dir.join("t_transformed.smt2"), &self.out.text).unwrap();
        std::fs::write(dir.join("t_mapping.json"), &self.out.json).unwrap();
        std::fs::write(dir.join("t_transformed.out"), out).unwrap();
    }
    fn reconstruct(&self, out: &str, m: &Model, partial: bool, t: &mut Tally) -> Result<(), String> {
        let dir = scratch().join("rec");
        self.put(&dir, out);
        let (st, stdout) = tool(&dir, &["reconstruct", "--input-file", "t.smt2"])?;
        t.execs += 1;
        t.states += 1;
        let got = std::fs::read_to_string(dir.join("t_recon_check.smt2")).ok();
        if !self.text.contains("\n(check-sat)") {
            t.outcome("no check-sat");
            return if st != 0 && got.is_none() { Ok(()) } else { Err(format!("failure not reported: {}", stdout)) };
        }
        if out == "sat\n" {
            return if st == 0 && stdout.trim() == "SAT: no model" && got.is_none() { Ok(()) } else { Err(format!("wrong answer: {}", stdout)) };
        }
        let Some(got) = got.filter(|_| st == 0 && stdout.trim() == "SAT: model reconstructed") else {
            // a part of a model may be refused
            return if partial && st != 0 { t.outcome("refused"); Ok(()) } else { Err(format!("wrong answer: status {}, {}", st, stdout)) };
        };
        t.outcome(if partial { "part of a model" } else { "model" });
        self.judge(&got, m, partial, t)
    }
    /// The original commands, and before each check-sat the values that make the same atoms true.
    fn judge(&self, got: &str, m: &Model, partial: bool, t: &mut Tally) -> Result<(), String> {
        let orig = parse(&self.text)?;
        let got = parse(got).map_err(|e| format!("unreadable output: {}", e))?;
        let mut values: Option<BTreeMap<String, Vec<u32>>> = None;
        let mut i = 0;
        for c in &orig {
            if c.head() == Some("check-sat") {
                let mut vs = BTreeMap::new();
                while i < got.len() && got[i].head() == Some("assert") {
                    match got[i].list() {
                        Some([_, Sx::List(eq)]) => match eq.as_slice() {
                            [Sx::Atom(op), Sx::Atom(n), Sx::Str(s)] if op == "=" => {
                                if vs.insert(plain(n).to_string(), mc::eval::decode_literal(s)).is_some() {
                                    return Err(format!("two values of {}", n));
                                }
                            }
                            _ => return Err(format!("no value: {}", got[i])),
                        },
                        _ => return Err(format!("no value: {}", got[i])),
                    }
                    i += 1;
                }
                match &values {
                    Some(v) if *v != vs => return Err(format!("other values: {:?} and {:?}", v, vs)),
                    _ => values = Some(vs),
                }
            }
            if got.get(i).map(unquoted) != Some(unquoted(c)) {
                return Err(format!("wrong command: {:?} instead of {}", got.get(i).map(|c| c.to_string()), c));
            }
            i += 1;
        }
        if i < got.len() {
            return Err(format!("additional command: {}", got[i]));
        }
        let values = values.unwrap_or_default();
        let orig_name: HashMap<&str, &str> = self.out.alpha.iter().map(|(o, n)| (plain(n), plain(o))).collect();
        let wanted: HashSet<&str> = m.iter().filter_map(|(n, _)| orig_name.get(plain(n)).copied()).collect();
        for n in values.keys() {
            if !wanted.contains(n.as_str()) {
                return Err(format!("value of {}, which has none in the model", n));
            }
        }
        if !partial && values.len() != wanted.len() {
            return Err(format!("lost value: {:?} instead of values of {:?}", values, wanted));
        }
        let Ok(b) = atoms(&core(&self.out.text)) else { return Ok(()) };
        let a = atoms(&core(&self.text))?;
        let (mut ea, mut eb) = (default_env(&a), default_env(&b));
        let mut unknown = HashSet::new();
        for (n, w) in m {
            let k = b.sc.vars.iter().position(|v| v.0 == *n).ok_or("no such variable")?;
            eb[k] = Val::Str(Rc::new(w.clone()));
            let o = orig_name[plain(n)];
            let k = a.sc.vars.iter().position(|v| plain(&v.0) == o).ok_or("no such variable")?;
            match values.get(o) {
                Some(v) => ea[k] = Val::Str(Rc::new(v.clone())),
                None => {
                    unknown.insert(k);
                }
            }
        }
        // atoms over variables with values
        let here: Vec<usize> = (0..a.atoms.len()).filter(|i| !unknown.iter().any(|k| format!("{:?}", a.atoms[*i]).contains(&format!("Var({})", k)))).collect();
        let (x, y) = (bits(&a, &ea, &here, t), bits(&b, &eb, &here, t));
        if x != y {
            return Err(format!("wrong reconstruction: {:?} to {:?}: {} became {}", m, values, show(&b, y), show(&a, x)));
        }
        Ok(())
    }
}

fn fault(w: &[&str], t: &mut Tally) -> Result<(), String> {
    let (f, q, path) = (w[1], w[2].parse::<usize>().unwrap(), w[3].replace('~', " "));
    t.execs += 1;
    t.states += 1;
    t.transitions += 1;
    let text = renamed(&queries()[[0, 7, 13, 18][q]], 0);
    let qu = Query::new(&text)?;
    let ms = qu.models(t);
    let m = ms.last().unwrap();
    let root = scratch().join("rfault");
    let _ = std::fs::remove_dir_all(&root);
    let dir = root.join("s");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let path = if path == "abs.smt2" { dir.join("sub").join(path).to_str().unwrap().to_string() } else { path };
    let input = dir.join(&path);
    let (stem, ext) = path.rsplit('/').next().unwrap().rsplit_once('.').unwrap();
    let beside = |s: String| input.parent().unwrap().join(format!("{}{}", stem, s));
    let (mapping, out, recon) = (beside("_mapping.json".into()), beside("_transformed.out".into()), beside(format!("_recon_check.{}", ext)));
    let model = qu.print(m, 0);
    let put = |p: &Path, kind: &str, text: &str| {
        if f == format!("missing-{}", kind) {
        } else if f == format!("dir-{}", kind) {
            std::fs::create_dir(p).unwrap()
        } else {
            std::fs::write(p, text).unwrap()
        }
    };
    put(&mapping, "mapping", match f { "empty-mapping" => "", "half-mapping" => &qu.out.json[..qu.out.json.len() / 2], "other-mapping" => "{\"char_map\": []}", _ => &qu.out.json });
    put(&out, "out", &model);
    put(&input, "original", &match f { "malformed-original" => format!("{}(assert (= x y z", text), "cut-original" => text[..text.rfind("(check-sat)").unwrap_or(text.len()) - 3].to_string(), _ => text.clone() });
    if f == "binary-out" {
        std::fs::write(&out, [b"sat\n(\n" as &[u8], &[0xff, 0xfe, 0x80], model.as_bytes()].concat()).unwrap();
    }
    match f {
        "dir-output" => std::fs::create_dir(&recon).unwrap(),
        "stale-output" => std::fs::write(&recon, STALE).unwrap(),
        _ => {}
    }
    let before = tree(&root);
    let (st, stdout) = tool(&dir, &["reconstruct", "--input-file", &path])?;
    let mut after = tree(&root);
    if !text.contains("\n(check-sat)") || !["stale-output", "binary-out"].contains(&f) {
        t.outcome("error");
        if st == 0 {
            return Err(format!("failure not reported: {}", stdout));
        }
        return if after == before { Ok(()) } else { Err("file written although the reconstruction failed".into()) };
    }
    let canon = |p: &Path| p.parent().unwrap().canonicalize().unwrap().join(p.file_name().unwrap());
    let key = after.keys().find(|p| canon(p) == canon(&recon)).cloned();
    let got = key.and_then(|k| after.remove(&k)).flatten();
    let mut others = before.clone();
    others.retain(|p, _| canon(p) != canon(&recon));
    if after != others {
        return Err("other file written".into());
    }
    match got {
        Some(g) if st == 0 => {
            t.outcome("model");
            qu.judge(&g, m, f == "binary-out", t)
        }
        _ if f == "binary-out" => Ok(()),
        _ => Err(format!("failed: status {}", st)),
    }
}
