//! S10: the list of subformulas.
use crate::cli::{tool, tree};
use crate::shape;
use mc::run::{isolated, scratch, Check, Sink, Tally};
use mc::sexp::{parse, Sx};
use std::collections::{HashMap, HashSet};

pub struct Subformulas;

fn plain(a: &str) -> &str {
    a.strip_prefix('|').and_then(|a| a.strip_suffix('|')).unwrap_or(a)
}

/// Symbols of the theories that stand for themselves.
const NULLARY: [&str; 5] = ["true", "false", "re.none", "re.all", "re.allchar"];

fn constant(a: &str) -> bool {
    a.starts_with(|c: char| c.is_ascii_digit() || c == '#' || c == ':')
}

/// Terms that are applications, arguments before the application and from left to right.
fn applications<'a>(t: &'a Sx, out: &mut Vec<&'a Sx>) {
    match t {
        Sx::Atom(a) if NULLARY.contains(&a.as_str()) => out.push(t),
        Sx::Atom(_) | Sx::Str(_) => {}
        Sx::List(l) => match t.head() {
            Some("let") => {
                l[1].list().unwrap().iter().for_each(|b| applications(&b.list().unwrap()[1], out));
                applications(&l[2], out);
            }
            Some("forall" | "exists") => applications(&l[2], out),
            Some("!") => applications(&l[1], out),
            // as in (_ bv1 8)
            Some("_") => {}
            _ => {
                l[1..].iter().for_each(|x| applications(x, out));
                out.push(t);
            }
        },
    }
}

fn binders(t: &Sx) -> bool {
    matches!(t.head(), Some("let" | "forall" | "exists")) || t.list().is_some_and(|l| l.iter().any(binders))
}

/// The same term with variables renamed one to one, bound ones consistently.
#[derive(Default)]
struct Alpha {
    free: HashMap<String, String>,
    bound: HashMap<String, String>,
    /// names of variables in order of appearance
    order: Vec<String>,
}

impl Alpha {
    fn see(&mut self, name: &str) {
        if !self.order.iter().any(|n| n == name) {
            self.order.push(name.into());
        }
    }
    fn eq(&mut self, a: &Sx, b: &Sx) -> bool {
        match (a, b) {
            (Sx::Atom(x), Sx::Atom(y)) => {
                if NULLARY.contains(&x.as_str()) || constant(x) {
                    return x == y;
                }
                let (x, y) = (plain(x), plain(y));
                self.see(y);
                match self.bound.get(x) {
                    Some(z) => z == y,
                    None => !self.bound.values().any(|z| z == y) && *self.free.entry(x.into()).or_insert(y.into()) == y,
                }
            }
            (Sx::Str(x), Sx::Str(y)) => x == y,
            (Sx::List(x), Sx::List(y)) => {
                if x.len() != y.len() {
                    return false;
                }
                match a.head() {
                    _ if x.is_empty() => true,
                    Some("let") if b.head() == Some("let") => {
                        let (Some(v), Some(w)) = (x[1].list(), y[1].list()) else { return false };
                        let mut inner = self.bound.clone();
                        for (v, w) in v.iter().zip(w) {
                            match (v.list(), w.list()) {
                                (Some([Sx::Atom(n), v]), Some([Sx::Atom(m), w])) => {
                                    if !self.eq(v, w) {
                                        return false;
                                    }
                                    inner.insert(plain(n).into(), plain(m).into());
                                }
                                _ => return false,
                            }
                        }
                        v.len() == w.len() && self.inside(inner, &x[2], &y[2])
                    }
                    Some("forall" | "exists") if a.head() == b.head() => {
                        let (Some(v), Some(w)) = (x[1].list(), y[1].list()) else { return false };
                        let mut inner = self.bound.clone();
                        for (v, w) in v.iter().zip(w) {
                            match (v.list(), w.list()) {
                                (Some([Sx::Atom(n), s]), Some([Sx::Atom(m), r])) if s == r => {
                                    inner.insert(plain(n).into(), plain(m).into());
                                }
                                _ => return false,
                            }
                        }
                        v.len() == w.len() && self.inside(inner, &x[2], &y[2])
                    }
                    Some("_") => a == b,
                    // the function stays
                    _ => match (&x[0], &y[0]) {
                        (Sx::Atom(f), Sx::Atom(g)) if plain(f) != plain(g) => false,
                        (f @ Sx::List(_), g) if f != g => false,
                        _ => x[1..].iter().zip(&y[1..]).all(|(x, y)| self.eq(x, y)),
                    },
                }
            }
            _ => false,
        }
    }
    fn inside(&mut self, inner: HashMap<String, String>, x: &Sx, y: &Sx) -> bool {
        let outer = std::mem::replace(&mut self.bound, inner);
        let r = self.eq(x, y);
        self.bound = outer;
        r
    }
}

/// Is `got` the subformulas of the script?
pub fn judge(text: &str, got: &[String]) -> Result<(), String> {
    let script = parse(text)?;
    let mut want = vec![];
    for c in &script {
        let l = c.list().unwrap_or(&[]);
        match c.head() {
            Some("assert") => applications(&l[1], &mut want),
            Some("define-fun") => applications(&l[4], &mut want),
            Some("get-value") => l[1].list().unwrap_or(&[]).iter().for_each(|t| applications(t, &mut want)),
            _ => {}
        }
    }
    if got.len() != want.len() {
        return Err(format!("wrong number of subformulas: {} instead of {}: {:?}", got.len(), want.len(), got));
    }
    for (w, g) in want.iter().zip(got) {
        let bad = || Err(format!("wrong subformula: {} instead of {}", g, w));
        let [p] = &parse(g).map_err(|e| format!("unreadable subformula: {}: {}", g, e))?[..] else { return bad() };
        let mut al = Alpha::default();
        if !al.eq(w, p) {
            return bad();
        }
        let values: HashSet<&String> = al.free.values().collect();
        if values.len() != al.free.len() {
            return Err(format!("two variables became one: {} instead of {}", g, w));
        }
        // named in order of appearance
        if !binders(w) {
            for (i, n) in al.order.iter().enumerate() {
                if *n != format!("v{}", i) {
                    return Err(format!("wrong name: {} for {}", g, w));
                }
            }
        } else if !al.free.is_empty() && !al.free.values().all(|n| n.strip_prefix('v').is_some_and(|n| n.parse::<usize>().is_ok())) {
            return Err(format!("wrong name: {} for {}", g, w));
        }
    }
    Ok(())
}

impl Check for Subformulas {
    fn id(&self) -> &'static str {
        "S10"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        shape::Shape.gen(thorough, &mut |s| {
            // get-value and check-sat-assuming list no constraints
            if !s.contains("check-sat-assuming") && !s.contains("define-fun-rec") {
                sink(format!("list {}", s))
            }
        });
        let names = ["x", "v0", "v1", "|a b|", "|v1|", "v2", "str.len", "n!"];
        for a in names {
            for b in names {
                if a == "str.len" || b == "str.len" || plain(a) == plain(b) {
                    continue;
                }
                let put = |t: &str| t.replace("Bool", "#").replace('A', "@").replace('B', b).replace('@', a).replace('#', "Bool");
                for body in ["(= A B)", "(= B A)", "(str.prefixof A (str.++ B A))", "(and (= A A) (str.contains B (str.++ A B)))", "(let ((A B)) (and (let ((A (str.++ A B))) (= A B)) (= A (str.++ B A))))", "(and (let ((A B) (B A)) (let ((v0 A)) (= v0 B A))) (= A B))", "(let ((v0 A) (B (str.++ A B))) (= v0 (str.++ B A)))", "(let ((A B)) (and (= A B) (let ((B A) (v1 B)) (= A B v1))))", "(forall ((A String) (v0 Int)) (=> (= v0 (str.len A)) (= A B)))", "(= (exists ((A Bool)) A) (exists ((B Bool) (A Bool)) (and A B)) (= A B))", "(let ((v0 (forall ((B String)) (= B A)))) (or v0 (= A B)))"] {
                    sink(format!("list (declare-const {a} String)(declare-const {b} String)(assert {})(assert {})", put(body), put("(= A B)")));
                }
            }
        }
        for path in ["t.smt2", "./t.smtlib", "sub/a.b.txt", "../s/e~f.smt2", "abs.smt2", "noext", ".hidden"] {
            for stale in ["absent", "stale", "dir-out"] {
                for g in 0..SCRIPTS.len() {
                    sink(format!("cli {} {} {}", path, stale, g));
                }
                for what in ["missing", "directory"] {
                    sink(format!("cli {} {} {}", path, stale, what));
                }
            }
        }
        for (g, s) in SCRIPTS.iter().enumerate() {
            for i in 0..s.len() {
                if s.is_char_boundary(i) {
                    sink(format!("cut {} {}", g, i));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        use amzn_smt_string_transformer as st;
        t.execs += 1;
        t.states += 1;
        if let Some(text) = case.strip_prefix("list ") {
            let s = text.to_string();
            let got: Vec<String> = isolated(1, move || -> Result<Vec<String>, String> {
                let p = st::transpiler::parse(s.as_bytes()).map_err(|e| e.to_string())?;
                let l = st::subformula_parser::find_string_subforumlas(false, p);
                let json = st::subformula_parser::SubFormulaJson::new(&l).to_json_string().map_err(|e| e.to_string())?;
                let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| e.to_string())?;
                serde_json::from_value(v["sub_formula_list"].clone()).map_err(|e| e.to_string())
            })?.map_err(|e| format!("rejected: {}", e))?;
            t.transitions += got.len() as u64;
            t.outcome("listed");
            return judge(text, &got);
        }
        let w: Vec<&str> = case.split(' ').collect();
        t.transitions += 1;
        if w[0] == "cut" {
            let text = &SCRIPTS[w[1].parse::<usize>().unwrap()][..w[2].parse::<usize>().unwrap()];
            let wellformed = parse(text).is_ok_and(|v| v.iter().all(|c| c.list().is_some()));
            let dir = scratch().join("subcut");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("a.smt2"), text).unwrap();
            let (st, _) = tool(&dir, &["sub-formula", "--input-file", "a.smt2"])?;
            let out = std::fs::read_to_string(dir.join("a_recon.json")).ok();
            t.outcome(if st == 0 { "listed" } else { "error" });
            return match (wellformed, st, out) {
                (true, 0, Some(o)) => judge(text, &listed(&o)?),
                (true, st, _) => Err(format!("rejected: status {} for {}", st, text)),
                (false, 0, _) => Err(format!("accepted malformed script: {}", text)),
                (false, _, Some(_)) => Err("output written for a malformed script".into()),
                _ => Ok(()),
            };
        }
        let (path, stale, g) = (w[1].replace('~', " "), w[2], w[3]);
        let root = scratch().join("subcli");
        let _ = std::fs::remove_dir_all(&root);
        let dir = root.join("s");
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let path = if path == "abs.smt2" { dir.join("sub").join(path).to_str().unwrap().to_string() } else { path };
        let text = match g {
            "missing" => None,
            "directory" => {
                std::fs::create_dir(dir.join(&path)).unwrap();
                None
            }
            g => Some(SCRIPTS[g.parse::<usize>().unwrap()]),
        };
        if let Some(text) = text {
            std::fs::write(dir.join(&path), text).unwrap();
        }
        let out = dir.join(format!("{}_recon.json", std::path::Path::new(&path).file_stem().unwrap().to_str().unwrap()));
        match stale {
            "stale" => std::fs::write(&out, "x".repeat(5000)).unwrap(),
            "dir-out" => std::fs::create_dir(&out).unwrap(),
            _ => {}
        }
        let before = tree(&root);
        let (st, _) = tool(&dir, &["sub-formula", "--input-file", &path])?;
        let mut after = tree(&root);
        t.outcome(if st == 0 { "listed" } else { "error" });
        match text {
            Some(text) if stale != "dir-out" => {
                if st != 0 {
                    return Err(format!("failed: status {}", st));
                }
                let got = after.remove(&out).flatten().ok_or("no output")?;
                let mut before = before;
                before.remove(&out);
                if before != after {
                    return Err("other file written".into());
                }
                judge(text, &listed(&got)?)
            }
            _ => {
                if st == 0 {
                    return Err("failure not reported: status 0".into());
                }
                if before != after { Err("file written although the listing failed".into()) } else { Ok(()) }
            }
        }
    }
    fn rule(&self) -> &'static str {
        "the scripts of S05; nine terms with binders under all pairs of names that look like those the tool gives; the command line tool for every combination of path, contents of the output path and script; every truncation of the scripts"
    }
}

fn listed(json: &str) -> Result<Vec<String>, String> {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("output: {}", e))?;
    serde_json::from_value(v["sub_formula_list"].clone()).map_err(|e| format!("output: {}", e))
}

const SCRIPTS: [&str; 3] = [
    "(set-logic QF_S)(declare-const x String)(declare-fun y () String)(assert (str.prefixof y (str.++ x \"a\"\"b\\u{e9}\" y)))(assert (and (= (str.len y) 2) (str.in_re x (re.* re.allchar))))(check-sat)",
    "; nothing\n(check-sat)",
    "(declare-const |a b| String)(declare-fun f (String Int) Bool)(define-fun g ((v0 Int)) Int (+ v0 1))\n(assert (let ((z (f |a b| 1))) (=> z (f \"a\" (g 2)))))(get-value ((f |a b| 3)))",
];
