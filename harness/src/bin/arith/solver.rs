//! Checks that put a scripted SAT solver behind the public `solve` entry point: every satisfying
//! assignment a solver may return, and every deviation from the output protocol.
use crate::common::*;
use mc::eval::{Model, Script, Sort, Val};
use mc::run::{captured, clear_captured, isolated, scratch, Check, Sink, Tally};
use std::collections::BTreeSet;
use std::fs;
use std::io::{Read, Write};

pub const MODE: &str = "MC_FAKE_SOLVER";
const CAP: usize = 3000;

/// Parses DIMACS, checking the header; `Err` describes what is malformed.
pub fn parse_dimacs(text: &str) -> Result<(usize, Vec<Vec<i32>>), String> {
    let mut lines = text.lines().filter(|l| !l.starts_with('c'));
    let h: Vec<&str> = lines.next().ok_or("empty file")?.split_whitespace().collect();
    let (nv, nc) = match h.as_slice() {
        ["p", "cnf", v, c] => (v.parse::<usize>().map_err(|_| "header")?, c.parse::<usize>().map_err(|_| "header")?),
        _ => return Err(format!("header {:?}", h)),
    };
    let mut clauses = vec![];
    for l in lines {
        let mut lits = vec![];
        let toks: Vec<&str> = l.split_whitespace().collect();
        for (i, tok) in toks.iter().enumerate() {
            let v: i32 = tok.parse().map_err(|_| format!("literal {:?}", tok))?;
            if v == 0 {
                if i + 1 != toks.len() {
                    return Err("0 inside a clause line".into());
                }
            } else if v.unsigned_abs() as usize > nv {
                return Err(format!("literal {} exceeds the {} declared variables", v, nv));
            } else {
                lits.push(v);
            }
        }
        if toks.last() != Some(&"0") {
            return Err(format!("clause not terminated: {:?}", l));
        }
        clauses.push(lits);
    }
    if clauses.len() != nc {
        return Err(format!("{} clauses declared, {} present", nc, clauses.len()));
    }
    Ok((nv, clauses))
}

/// All models of a CNF (at most `cap`), by exhaustive backtracking search with unit propagation.
pub fn all_models(nv: usize, clauses: &[Vec<i32>], cap: usize) -> Vec<Vec<bool>> {
    search_models(nv, clauses, cap, u64::MAX).unwrap()
}

/// As `all_models`; `None` if more than `nodes` decisions are needed.
pub fn search_models(nv: usize, clauses: &[Vec<i32>], cap: usize, nodes: u64) -> Option<Vec<Vec<bool>>> {
    struct S<'a> {
        clauses: &'a [Vec<i32>],
        occ: Vec<Vec<usize>>, // clauses in which a literal occurs
        val: Vec<i8>,
        out: Vec<Vec<bool>>,
        cap: usize,
        nodes: u64,
    }
    fn li(l: i32) -> usize {
        2 * l.unsigned_abs() as usize + usize::from(l < 0)
    }
    impl S<'_> {
        fn value(&self, l: i32) -> i8 {
            let v = self.val[l.unsigned_abs() as usize];
            if l < 0 { -v } else { v }
        }
        /// Assigns `l` and propagates; false on conflict.
        fn assign(&mut self, l: i32, trail: &mut Vec<i32>) -> bool {
            let mut queue = vec![l];
            while let Some(l) = queue.pop() {
                match self.value(l) {
                    1 => continue,
                    -1 => return false,
                    _ => {}
                }
                self.val[l.unsigned_abs() as usize] = if l > 0 { 1 } else { -1 };
                trail.push(l);
                for &c in &self.occ[li(-l)] {
                    let (mut sat, mut free, mut unit) = (false, 0, 0);
                    for &m in &self.clauses[c] {
                        match self.value(m) {
                            1 => {
                                sat = true;
                                break;
                            }
                            0 => {
                                free += 1;
                                unit = m;
                            }
                            _ => {}
                        }
                    }
                    if !sat && free == 0 {
                        return false;
                    }
                    if !sat && free == 1 {
                        queue.push(unit);
                    }
                }
            }
            true
        }
        fn undo(&mut self, trail: Vec<i32>) {
            for l in trail {
                self.val[l.unsigned_abs() as usize] = 0;
            }
        }
        fn dfs(&mut self, from: usize) {
            if self.out.len() >= self.cap || self.nodes == 0 {
                return;
            }
            self.nodes -= 1;
            match (from..self.val.len()).find(|&v| self.val[v] == 0) {
                None => self.out.push(self.val[1..].iter().map(|&v| v == 1).collect()),
                Some(v) => {
                    for l in [-(v as i32), v as i32] {
                        let mut trail = vec![];
                        if self.assign(l, &mut trail) {
                            self.dfs(v + 1);
                        }
                        self.undo(trail);
                    }
                }
            }
        }
    }
    let mut occ = vec![vec![]; 2 * nv + 2];
    for (i, c) in clauses.iter().enumerate() {
        for &l in c {
            occ[li(l)].push(i);
        }
    }
    let mut s = S { clauses, occ, val: vec![0; nv + 1], out: vec![], cap, nodes };
    if clauses.iter().any(|c| c.is_empty()) {
        return Some(vec![]);
    }
    for c in clauses.iter().filter(|c| c.len() == 1) {
        let mut trail = vec![];
        if !s.assign(c[0], &mut trail) {
            return Some(vec![]);
        }
    }
    s.dfs(1);
    (s.nodes > 0 || s.out.len() >= s.cap).then_some(s.out)
}

fn v_line(m: &[bool]) -> String {
    let lits: Vec<String> = m.iter().enumerate().map(|(i, &b)| format!("{}{}", if b { "" } else { "-" }, i + 1)).collect();
    format!("v {} 0", lits.join(" ")).replace("  ", " ")
}

/// The process run as the external SAT solver.
pub fn fake_solver(mode: &str) -> i32 {
    let dir = scratch();
    let (mode, arg) = mode.split_once(':').unwrap_or((mode, ""));
    let mut out = std::io::stdout();
    match mode {
        // answer with the k-th model; the list is kept next to the CNF it belongs to
        "models" => {
            let mut cnf = String::new();
            std::io::stdin().read_to_string(&mut cnf).unwrap();
            let k: usize = arg.parse().unwrap();
            let (cf, mf) = (dir.join("cnf"), dir.join("models"));
            if k > 0 && fs::read_to_string(&cf).ok().as_deref() != Some(cnf.as_str()) {
                // not the same execution: nothing the caller may conclude from this
                writeln!(out, "s DIFFERENT-CNF").unwrap();
                return 0;
            }
            if k == 0 {
                let (nv, clauses) = parse_dimacs(&cnf).unwrap_or_else(|e| panic!("DIMACS: {}", e));
                let ms = all_models(nv, &clauses, CAP);
                let text: Vec<String> = ms.iter().map(|m| v_line(m)).collect();
                fs::write(&mf, text.join("\n")).unwrap();
                fs::write(&cf, &cnf).unwrap();
            }
            let text = fs::read_to_string(&mf).unwrap();
            match text.lines().nth(k) {
                Some(v) => writeln!(out, "c model {}\ns SATISFIABLE\n{}", k, v).unwrap(),
                None => writeln!(out, "s UNSATISFIABLE").unwrap(),
            }
            0
        }
        // answer with some model
        "first" => {
            let mut cnf = String::new();
            std::io::stdin().read_to_string(&mut cnf).unwrap();
            let mut s = varisat::Solver::new();
            s.add_dimacs_cnf(cnf.as_bytes()).unwrap();
            let nv = parse_dimacs(&cnf).unwrap().0;
            if s.solve().unwrap() {
                let mut m = vec![false; nv];
                for l in s.model().unwrap() {
                    m[l.index()] = l.is_positive();
                }
                writeln!(out, "s SATISFIABLE\n{}", v_line(&m)).unwrap();
            } else {
                writeln!(out, "s UNSATISFIABLE").unwrap();
            }
            0
        }
        // answer with prepared text and exit code
        "answer" => {
            if arg != "noread" {
                let mut cnf = vec![];
                std::io::stdin().read_to_end(&mut cnf).unwrap();
            }
            let text = fs::read(dir.join("answer")).unwrap();
            out.write_all(&text).unwrap();
            out.flush().unwrap();
            match arg {
                "kill" => unsafe {
                    libc::kill(libc::getpid(), libc::SIGKILL);
                    0
                },
                _ => arg.parse().unwrap_or(0),
            }
        }
        _ => panic!("mode {}", mode),
    }
}

/// `solve` with this executable as the SAT solver.
fn solve_fake(text: &str, mode: &str, solver: Option<String>) -> Outcome {
    std::env::set_var(MODE, mode);
    let text = text.to_string();
    let r = isolated(1, move || {
        let exe = solver.unwrap_or_else(|| std::env::current_exe().unwrap().to_str().unwrap().to_string());
        amzn_smt_eager_arithmetic::solve(text.as_bytes(), exe)
            .map(|m| m.map(|m| m.to_string()))
            .map_err(|e| format!("{:#}", e).lines().next().unwrap_or("").to_string())
    });
    std::env::remove_var(MODE);
    match r {
        Ok(Ok(Some(m))) => Outcome::Sat(m),
        Ok(Ok(None)) => Outcome::Unsat,
        Ok(Err(e)) => Outcome::Rejected(e),
        Err(p) => Outcome::Failed(p),
    }
}

/// The formula's encoding has exactly the formula's solutions (within the printed bound).
pub struct Exact;

impl Check for Exact {
    fn id(&self) -> &'static str {
        "A02"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let dx = decls(&[("x", "Int")]);
        let dxy = decls(&[("x", "Int"), ("y", "Int")]);
        let ops = ["=", "<", "<=", ">", ">=", "distinct"];
        // one variable
        let cm = if thorough { 5 } else { 2 };
        let am = if thorough { 6 } else { 3 };
        for a in (-am..=am).filter(|&a| a != 0) {
            for c in -cm..=cm {
                for op in ops {
                    sink(format!("{}(assert ({} {} {}))", dx, op, mul(a, "x"), lit(c)));
                    if thorough || (a.abs() == 1 && c > 0) {
                        sink(format!("{}(assert ({} {} (+ {} {})))", dx, op, mul(a, "x"), lit(c), "x"));
                    }
                }
            }
        }
        // differences of two variables
        for c in if thorough { -3..=3 } else { -1..=1 } {
            for op in ops {
                if !thorough && !matches!(op, "=" | "<" | ">=") {
                    continue;
                }
                sink(format!("{}(assert ({} (- x y) {}))", dxy, op, lit(c)));
                sink(format!("{}(assert ({} x (+ y {})))", dxy, op, lit(c)));
            }
        }
        // equations with coefficients
        for a in -am..=am {
            for b in -am..=am {
                if a == 0 || b == 0 {
                    continue;
                }
                for c in 0..=if thorough { 2 } else { 1 } {
                    if thorough || (a + 2 * b + c).rem_euclid(3) == 0 {
                        sink(format!("{}(assert (= {} {}))", dxy, lin(&[(a, "x"), (b, "y")]), lit(c)));
                    }
                }
            }
        }
        // Boolean combinations
        let atoms = ["(>= x 1)", "(< x y)", "(= x (- y))", "(<= (+ x y) 0)", "p", "(= (+ x x) y)"];
        let dp = decls(&[("x", "Int"), ("y", "Int"), ("p", "Bool"), ("q", "Bool")]);
        for (i, a) in atoms.iter().enumerate() {
            for (j, b) in atoms.iter().enumerate() {
                for c in ["and", "or", "xor", "=>", "="] {
                    if thorough || (i < j && (c == "and" || c == "xor")) {
                        sink(format!("{}(assert ({} {} {}))(assert (<= 0 y 2))(assert (= x (ite p y 1)))", dp, c, a, b));
                    }
                }
                if i < j {
                    sink(format!("{}(assert (or (and {} q) (not {})))(assert (= (+ x y) 1))", dp, a, b));
                }
            }
        }
        // Boolean variables only
        let d3 = decls(&[("p", "Bool"), ("q", "Bool"), ("r", "Bool")]);
        for c in ["and", "or", "xor", "=>", "="] {
            for e in ["and", "or", "xor", "=>", "="] {
                for neg in ["", "not "] {
                    let f = format!("({} p ({} q r))", c, e);
                    let g = format!("({} ({} p (not q)) r q)", e, c);
                    for h in [f, g] {
                        sink(format!("{}(assert {})", d3, if neg.is_empty() { h } else { format!("(not {})", h) }));
                    }
                }
            }
        }
        // bit-vectors
        for w in 1..=if thorough { 4 } else { 3 } {
            let d = format!("(declare-const x (_ BitVec {}))(declare-const y (_ BitVec {}))", w, w);
            sink(format!("{}(assert (bvule x y))", d));
            sink(format!("{}(assert (not (bvule x y)))", d));
            for c in 0..1u32 << w {
                let l = format!("#b{:0w$b}", c, w = w as usize);
                sink(format!("{}(assert (bvule x {}))", d, l));
                sink(format!("{}(assert (not (bvule {} x)))(assert (bvule y x))", d, l));
                sink(format!("{}(assert (or (bvule {} x) (bvule y x)))", d, l));
            }
        }
        // integer ite and let
        for c in ["(< x 1)", "(= x y)", "p"] {
            for (a, b) in [("x", "1"), ("(- x)", "x"), ("2", "y"), ("(+ x 1)", "0")] {
                sink(format!("{}(assert (= y (ite {} {} {})))(assert (<= (- 1) x 2))", dp, c, a, b));
                sink(format!("{}(assert (let ((v (ite {} {} {}))) (and (<= v 1) (= y (+ v x)))))(assert (<= 0 x 2))", dp, c, a, b));
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let sc = Script::parse(case).unwrap();
        let mut seen: BTreeSet<Vec<Val>> = BTreeSet::new();
        let mut present: Option<Vec<usize>> = None;
        let mut width = None;
        let mut k = 0;
        loop {
            clear_captured();
            let out = solve_fake(case, &format!("models:{}", k), None);
            t.execs += 1;
            let printed = captured();
            if k == 0 {
                let parts: Vec<u32> = printed
                    .lines()
                    .filter(|l| l.starts_with("Partition "))
                    .filter_map(|l| l.rsplit("bound: ").next()?.split(' ').next()?.parse().ok())
                    .collect();
                if let [w] = parts.as_slice() {
                    width = Some(*w);
                }
            }
            match out {
                Outcome::Sat(m) => {
                    t.transitions += 1;
                    let model = Model::parse(&m).map_err(|e| format!("malformed model: {} in {}", e, m))?;
                    model.check(&sc).map_err(|e| format!("wrong model: {} under {}", e, m.replace('\n', " ")))?;
                    let p: Vec<usize> = (0..sc.vars.len()).filter(|&i| model.consts.contains_key(&sc.vars[i].0)).collect();
                    if present.is_some() && present.as_ref() != Some(&p) {
                        return Err("model variables: differ between assignments".into());
                    }
                    let env = model.env(&sc)?;
                    seen.insert(p.iter().map(|&i| env[i].clone()).collect());
                    present = Some(p);
                }
                Outcome::Unsat => break,
                Outcome::Rejected(e) if e.contains("DIFFERENT-CNF") => {
                    t.outcome("encoding not reproducible, case skipped");
                    return Ok(());
                }
                Outcome::Rejected(e) => return Err(format!("rejected: {}", e)),
                Outcome::Failed(e) => return Err(e),
            }
            k += 1;
            if k >= CAP {
                t.outcome("model cap reached");
                return Ok(());
            }
        }
        t.outcome(if k == 0 { "unsat" } else { "all models enumerated" });
        // Completeness: every solution inside the encoded range is among the decoded ones.
        let w = match (width, sc.vars.iter().any(|(_, s)| *s == Sort::Int)) {
            (Some(w), true) => w,
            (None, false) => 1,
            _ => {
                // several partitions: the range all decoded values fit into
                let need = |v: &Val| match v {
                    Val::Int(i) => 129 - if *i < 0 { (!i).leading_zeros() } else { i.leading_zeros() },
                    _ => 1,
                };
                seen.iter().flatten().map(need).max().unwrap_or(1)
            }
        };
        let present = present.unwrap_or_else(|| (0..sc.vars.len()).collect());
        let bits: u32 = present.iter().map(|&i| match sc.vars[i].1 { Sort::Int => w, Sort::Bool => 1, Sort::Bv(w) => w as u32, _ => 0 }).sum();
        if bits > 20 {
            t.outcome("range too large to enumerate");
            return Ok(());
        }
        let doms: Vec<Vec<Val>> = (0..sc.vars.len())
            .map(|i| match &sc.vars[i].1 {
                _ if !present.contains(&i) => vec![mc::eval::default(&sc.vars[i].1)],
                Sort::Int => (-(1i128 << (w - 1))..1i128 << (w - 1)).map(Val::Int).collect(),
                s => int_box(0)(s),
            })
            .collect();
        let mut idx = vec![0; doms.len()];
        loop {
            let env: Vec<Val> = idx.iter().zip(&doms).map(|(&i, d): (&usize, &Vec<Val>)| d[i].clone()).collect();
            t.transitions += 1;
            if sc.holds(&env) && !seen.contains(&present.iter().map(|&i| env[i].clone()).collect::<Vec<_>>()) {
                return Err(format!("lost solution: {:?} ({} bits) is not among the {} decoded models", env, w, seen.len()));
            }
            let mut p = 0;
            loop {
                if p == idx.len() {
                    return Ok(());
                }
                idx[p] += 1;
                if idx[p] < doms[p].len() {
                    break;
                }
                idx[p] = 0;
                p += 1;
            }
        }
    }
    fn rule(&self) -> &'static str {
        "for each formula, every model of the CNF handed to the SAT solver is enumerated by a scripted solver and decoded through the public solve(): each decoded model must satisfy the formula, and every solution within the printed bit width must be decoded from some CNF model"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["formulas with more than 3000 CNF models are checked for those 3000 only", "when several partitions are printed the range is taken from the decoded values"]
    }
}

/// Output protocol of the external solver.
pub struct Protocol;

const FORMULAS: [&str; 5] = [
    "(declare-const x Int)(assert (>= x 1))(assert (<= x 2))",
    "(declare-const x Int)(declare-const y Int)(assert (< x y))(assert (= x 0))(assert (= y 1))",
    "(declare-const p Bool)(declare-const x (_ BitVec 2))(assert p)(assert (bvule #b10 x))",
    "(declare-const x Int)(assert (> x 0))(assert (< x 0))",
    "(declare-fun f (Int) Int)(declare-const x Int)(assert (= (f x) 1))(assert (= (f 1) 0))",
];

impl Protocol {
    /// (name, output, exit, must succeed with the solver's verdict?)
    fn answers(sat: Option<&str>, nlits: usize, thorough: bool) -> Vec<(String, Vec<u8>, String, bool)> {
        let mut v: Vec<(String, Vec<u8>, String, bool)> = vec![];
        let mut add = |n: &str, o: String, e: &str, ok: bool| v.push((n.to_string(), o.into_bytes(), e.to_string(), ok));
        match sat {
            Some(model) => {
                let lits: Vec<&str> = model.trim_start_matches("v ").split(' ').filter(|l| *l != "0").collect();
                let full = format!("s SATISFIABLE\n{}\n", model);
                for e in ["0", "10", "1", "kill"] {
                    add(&format!("complete, exit {}", e), full.clone(), e, true);
                }
                add("comments", format!("c s UNSATISFIABLE\nc\n\nc v 1 2\ns SATISFIABLE\nc x\n{}\nc end\n", model), "10", true);
                add("no final newline", full.trim_end().to_string(), "10", true);
                // v lines split at every position, 0 on its own line, reversed order
                for i in 1..nlits {
                    add(&format!("split at {}", i), format!("s SATISFIABLE\nv {}\nc mid\nv {} 0\n", lits[..i].join(" "), lits[i..].join(" ")), "10", true);
                }
                add("one literal per line", format!("s SATISFIABLE\n{}\nv 0\n", lits.iter().map(|l| format!("v {}", l)).collect::<Vec<_>>().join("\n")), "10", true);
                add("reversed", format!("s SATISFIABLE\nv {} 0\n", lits.iter().rev().copied().collect::<Vec<_>>().join(" ")), "10", true);
                // deviations: incomplete assignments (every prefix, every single omission) ...
                for i in 0..nlits {
                    add(&format!("first {} literals", i), format!("s SATISFIABLE\nv {} 0\n", lits[..i].join(" ")).replace("v  0", "v 0"), "10", false);
                    let rest: Vec<&str> = lits.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, l)| *l).collect();
                    add(&format!("without literal {}", i + 1), format!("s SATISFIABLE\nv {} 0\n", rest.join(" ")), "10", false);
                    if thorough {
                        for j in i + 1..nlits {
                            let rest: Vec<&str> = lits.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, l)| *l).collect();
                            add(&format!("without literals {} {}", i + 1, j + 1), format!("s SATISFIABLE\nv {} 0\n", rest.join(" ")), "10", false);
                        }
                    }
                }
                add("only the status", "s SATISFIABLE\n".into(), "10", false);
                add("model before status", format!("{}\ns SATISFIABLE\n", model), "10", false);
                add("only the model", format!("{}\n", model), "10", false);
                add("unknown variables", format!("s SATISFIABLE\n{}\nv 99991 -99992 0\n", model), "10", false);
                for bad in ["x", "1.5", "--1", "v", "99999999999999999999999", "-", "+1x"] {
                    add(&format!("bad literal {}", bad), format!("s SATISFIABLE\nv {} {}\n", lits.join(" "), bad), "10", false);
                    add(&format!("bad first literal {}", bad), format!("s SATISFIABLE\nv {} {}\n", bad, lits.join(" ")), "10", false);
                }
                add("double spaces", full.replace(' ', "  "), "10", false);
                add("tabs", full.replace(' ', "\t"), "10", false);
                add("crlf", full.replace('\n', "\r\n"), "10", false);
                // every prefix of the status line
                let st = "s SATISFIABLE";
                for i in 0..st.len() {
                    add(&format!("status cut at {}", i), format!("{}\n{}\n", &st[..i], model), "10", false);
                }
            }
            None => {
                for e in ["0", "20", "1", "kill"] {
                    add(&format!("unsat, exit {}", e), "c\ns UNSATISFIABLE\n".into(), e, true);
                }
                add("unsat, then comments", "s UNSATISFIABLE\nc bye\n".into(), "20", true);
            }
        }
        let st = "s UNSATISFIABLE";
        for i in 0..st.len() {
            add(&format!("unsat status cut at {}", i), st[..i].to_string(), "20", false);
        }
        for s in ["", "\n", "s UNKNOWN\n", "s INDETERMINATE\n", "UNSATISFIABLE\n", "UNSAT\n", "SAT\n1 2 0\n", "unsat\n", "S UNSATISFIABLE\n", "s  UNSATISFIABLE\n", "s SATISFIABLE UNSATISFIABLE\n", "s\n", "segmentation fault\n", "c s UNSATISFIABLE\n", "s UNSATISFIABLES\n", "s unsatisfiable\n", "s 0\n"] {
            for e in ["0", "1", "20", "kill", "noread"] {
                add(&format!("{:?} exit {}", s, e), s.into(), e, false);
            }
        }
        v.push(("binary output".into(), vec![0xff, 0xfe, b'\n', 0x80, b's', b' '], "0".into(), false));
        v
    }
}

impl Check for Protocol {
    fn id(&self) -> &'static str {
        "A10"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        for (i, _) in FORMULAS.iter().enumerate() {
            for part in 0..16 {
                sink(format!("{} {} {}", i, part, if thorough { "thorough" } else { "quick" }));
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let p: Vec<&str> = case.split(' ').collect();
        let (fi, part): (usize, usize) = (p[0].parse().unwrap(), p[1].parse().unwrap());
        let text = FORMULAS[fi];
        let sc = Script::parse(text).unwrap();
        // a genuine model of the encoding
        let _ = solve_fake(text, "models:0", None);
        let models = fs::read_to_string(scratch().join("models")).map_err(|e| format!("solver not run: {}", e))?;
        let first = models.lines().last().map(|s| s.to_string());
        let n = first.as_ref().map_or(0, |m| m.split(' ').count() - 2);
        if part == 0 {
            for bad in ["/nonexistent/solver", "/dev/null", "/"] {
                t.execs += 1;
                match solve_fake(text, "models:0", Some(bad.into())) {
                    Outcome::Rejected(_) => t.outcome("error: solver cannot be run"),
                    Outcome::Failed(p) => return Err(format!("{} (solver {})", p, bad)),
                    _ => return Err(format!("verdict without a solver: {}", bad)),
                }
            }
        }
        for (j, (name, out, exit, ok)) in Self::answers(first.as_deref(), n, p[2] == "thorough").iter().enumerate() {
            if j % 16 != part {
                continue;
            }
            fs::write(scratch().join("answer"), out).unwrap();
            t.execs += 1;
            t.transitions += 1;
            let says_unsat = String::from_utf8_lossy(out).lines().find(|l| l.starts_with("s ")).map_or(false, |l| l == "s UNSATISFIABLE");
            match solve_fake(text, &format!("answer:{}", exit), None) {
                Outcome::Sat(m) => {
                    let r = Model::parse(&m).and_then(|m| m.check(&sc));
                    if let Err(e) = r {
                        return Err(format!("wrong model: solver output {}: {} under {}", name, e, m.replace('\n', " ")));
                    }
                    t.outcome("sat");
                }
                Outcome::Unsat if !says_unsat => return Err(format!("wrong unsat: solver output {}", name)),
                Outcome::Unsat => t.outcome("unsat"),
                Outcome::Rejected(e) if *ok => return Err(format!("rejected: solver output {}: {}", name, e)),
                Outcome::Rejected(_) => t.outcome("error"),
                Outcome::Failed(e) => return Err(format!("{} (solver output {})", e, name)),
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "scripted external solver: well-formed outputs split/ordered/commented in every position must give the solver's verdict and a correct model; every incomplete assignment (all prefixes, all single omissions; thorough: all pairs), truncated or unknown status, malformed literal, exit status, signal and unusable executable must give an error or a correct model, never a panic, hang or unsat"
    }
}
