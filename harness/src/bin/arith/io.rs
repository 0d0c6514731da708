//! Input/output behaviour: DIMACS output, failing readers and sinks, the command line tool,
//! unsupported input.
use crate::common::*;
use crate::solver::{parse_dimacs, search_models};
use mc::eval::{Model, Script};
use mc::run::{isolated, scratch, Check, Sink, Tally};
use std::fs;
use std::io::{self, BufRead, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// Accepts at most `chunk` bytes per write; fails once `limit` bytes were written (or on flush).
struct FaultySink {
    limit: usize,
    chunk: usize,
    fail_flush: bool,
    data: Vec<u8>,
}
impl Write for FaultySink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let room = self.limit - self.data.len().min(self.limit);
        let n = b.len().min(self.chunk).min(room);
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_flush {
            Err(io::Error::new(io::ErrorKind::Other, "flush failed"))
        } else {
            Ok(())
        }
    }
}

/// Returns at most `chunk` bytes per read and fails at offset `fail` (if any).
struct FaultyReader {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    fail: Option<usize>,
}
impl Read for FaultyReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let f = self.fill_buf()?;
            let n = f.len().min(b.len());
            b[..n].copy_from_slice(&f[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for FaultyReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if Some(self.pos) == self.fail {
            return Err(io::Error::new(io::ErrorKind::Other, "read failed"));
        }
        let mut end = (self.pos + self.chunk).min(self.data.len());
        if let Some(f) = self.fail {
            end = end.min(f);
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

type Encoded = Result<Vec<u8>, String>;

fn encode(text: &str, limit: usize, chunk: usize, fail_flush: bool) -> Result<(Encoded, Vec<u8>), String> {
    let text = text.to_string();
    isolated(1, move || {
        let mut sink = FaultySink { limit, chunk, fail_flush, data: vec![] };
        let r = amzn_smt_eager_arithmetic::encode(text.as_bytes(), &mut sink);
        (r.map(|_| sink.data.clone()).map_err(|e| format!("{:#}", e)), sink.data)
    })
}

fn cli() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("cli-eager")
}

/// Runs the command line tool with `dir` first in PATH; returns exit code (-1: signal) and stdout.
fn run_cli(args: &[&str], path: &str) -> (i32, String) {
    let out = Command::new(cli())
        .args(args)
        .env("PATH", path)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .unwrap();
    (out.status.code().unwrap_or(-1), String::from_utf8_lossy(&out.stdout).into_owned())
}

fn script(path: &PathBuf, body: &str) {
    fs::write(path, format!("#!/bin/bash\nexport PATH=/usr/local/bin:/usr/bin:/bin\n{}\n", body)).unwrap();
    fs::set_permissions(path, fs::Permissions::from_mode(0o755)).unwrap();
}

pub struct Encode;

fn formulas(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let d = decls(&[("x", "Int"), ("y", "Int"), ("p", "Bool")]);
    let atoms = [
        "p", "(>= x 1)", "(< x y)", "(= x (- y))", "(<= (+ x x) y)", "(= (* 2 x) 3)", "(distinct x y)", "(= x (ite p 1 y))", "false", "(= 0 0)",
        "(> (+ x y) 2)",
    ];
    for (i, a) in atoms.iter().enumerate() {
        v.push(format!("{}(assert {})", d, a));
        v.push(format!("{}(assert (not {}))", d, a));
        for b in atoms.iter().skip(i + 1) {
            v.push(format!("{}(assert {})(assert {})", d, a, b));
            v.push(format!("{}(assert {})(assert (not {}))", d, a, b));
            if thorough {
                for c in ["or", "xor", "=>", "="] {
                    v.push(format!("{}(assert ({} {} {}))(assert (< y 1))", d, c, a, b));
                }
            }
        }
    }
    v.push("".into());
    v.push("(check-sat)".into());
    v.push("(declare-const x Int)".into());
    v.push("(declare-fun f (Int) Int)(declare-const x Int)(assert (= (f x) 1))(assert (= (f 1) 0))(assert (= x 1))".into());
    v.push("(declare-const x (_ BitVec 3))(assert (bvule #b101 x))(assert (bvule x #b100))".into());
    v.push("(declare-const x (_ BitVec 3))(assert (bvule #b101 x))(assert (bvule x #b110))".into());
    v
}

impl Check for Encode {
    fn id(&self) -> &'static str {
        "A06"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let fs = formulas(thorough);
        for f in &fs {
            sink(format!("encode {}", f));
        }
        for f in &fs {
            sink(format!("cli {}", f));
        }
        let step = if thorough { 1 } else { 8 };
        for f in fs.iter().step_by(step) {
            for part in 0..4 {
                sink(format!("sink{} {}", part, f));
                sink(format!("reader{} {}", part, f));
            }
        }
        for f in ["(assert (>= x 1))", "(declare-const r Real)(assert (> r 0.5))", "(assert", "(push 1)"] {
            sink(format!("cli-error {}", f));
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let (mode, text) = case.split_once(' ').unwrap();
        let verdict = match solve(text, 1) {
            Outcome::Sat(_) => Some(true),
            Outcome::Unsat => Some(false),
            Outcome::Rejected(_) => None,
            Outcome::Failed(e) => return Err(e),
        };
        let sc = Script::parse(text).ok();
        let dir = scratch().join("io");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let file = dir.join("in.smt2");
        fs::write(&file, text).unwrap();
        let inp = file.to_str().unwrap();
        t.execs += 1;
        match mode {
            "encode" => {
                let (r, _) = encode(text, usize::MAX, usize::MAX, false)?;
                let out = r.map_err(|e| format!("encode failed: {}", e))?;
                check_dimacs(&String::from_utf8_lossy(&out), verdict, t)
            }
            m if m.starts_with("sink") => {
                // every write boundary a sink can fail at, one-byte writes, failing flush
                let part: usize = m[4..].parse().unwrap();
                let (r, _) = encode(text, usize::MAX, usize::MAX, false)?;
                let full = r.map_err(|e| format!("encode failed: {}", e))?;
                let reference = String::from_utf8_lossy(&full).into_owned();
                let mut limits: Vec<usize> = (0..full.len()).filter(|&i| i < 24 || i + 24 >= full.len() || i % 97 == 0 || i % 8192 < 2).collect();
                limits.push(full.len());
                for limit in limits.into_iter().skip(part).step_by(4) {
                    for (chunk, flush) in [(usize::MAX, false), (1, false), (7, true)] {
                        t.execs += 1;
                        t.transitions += 1;
                        let (r, written) = encode(text, limit, chunk, flush)?;
                        let complete = limit >= full.len();
                        match r {
                            Ok(_) if written.len() < full.len() => {
                                return Err(format!("silently truncated: sink failed after {} of {} bytes but encode returned Ok", limit, full.len()))
                            }
                            Ok(_) if flush => t.outcome("unflushed sink accepted"),
                            Ok(d) => {
                                t.outcome("complete");
                                if d.len() != reference.len() {
                                    check_dimacs(&String::from_utf8_lossy(&d), verdict, t)?;
                                }
                            }
                            Err(e) if complete && !flush => return Err(format!("encode failed: {}", e)),
                            Err(_) => t.outcome("sink error reported"),
                        }
                    }
                }
                Ok(())
            }
            m if m.starts_with("reader") => {
                let part: usize = m[6..].parse().unwrap();
                for fail in (0..=text.len()).map(Some).chain([None]).skip(part).step_by(4) {
                    for chunk in [1usize, 5, usize::MAX / 2] {
                        t.execs += 1;
                        t.transitions += 1;
                        let data = text.as_bytes().to_vec();
                        let r = isolated(1, move || {
                            let rd = FaultyReader { data, pos: 0, chunk, fail };
                            amzn_smt_eager_arithmetic::solve_with_varisat(rd).map(|m| m.is_some()).map_err(|e| e.to_string())
                        })?;
                        match (fail, r) {
                            (None, Ok(v)) if Some(v) == verdict => t.outcome("same verdict with short reads"),
                            (None, r) => return Err(format!("short reads: {:?} instead of {:?}", r, verdict)),
                            (Some(f), Ok(v)) => return Err(format!("verdict without input: reader failed at byte {} but the answer was sat={}", f, v)),
                            (Some(_), Err(_)) => t.outcome("reader error reported"),
                        }
                    }
                }
                Ok(())
            }
            "cli" => {
                // fake minisat stores what it is given; fake solver answers from an exhaustive search
                let bin = dir.join("bin");
                fs::create_dir_all(&bin).unwrap();
                let args = dir.join("args");
                let arg_path = args.to_str().unwrap();
                script(&bin.join("minisat"), &format!("echo \"$*\" > {}\nfor a in \"$@\"; do case $a in -dimacs=*) out=${{a#-dimacs=}};; esac; done\ncat > \"$out\"", arg_path));
                let path = bin.to_str().unwrap();
                let out = dir.join("out file.cnf");
                let (code, _) = run_cli(&["encode", "--instance", inp, "--cnf-outfile", out.to_str().unwrap()], path);
                if code != 0 {
                    return Err(format!("cli encode failed: exit {}", code));
                }
                let cnf = fs::read_to_string(&out).map_err(|e| format!("cli encode wrote no file: {}", e))?;
                check_dimacs(&cnf, verdict, t)?;
                for bad in ["exit 1", "cat > /dev/null; exit 3", "cat >/dev/null; kill -9 $$"] {
                    script(&bin.join("minisat"), bad);
                    t.execs += 1;
                    let (code, _) = run_cli(&["encode", "--instance", inp, "--cnf-outfile", out.to_str().unwrap()], path);
                    if code == 0 {
                        return Err(format!("cli encode hides failure of minisat: {:?}", bad));
                    }
                }
                fs::remove_file(bin.join("minisat")).unwrap();
                if run_cli(&["encode", "--instance", inp, "--cnf-outfile", out.to_str().unwrap()], path).0 == 0 {
                    return Err("cli encode hides missing minisat".into());
                }
                // solve, with the default solver name and with an explicit one
                let sc = sc.unwrap();
                let me = std::env::current_exe().unwrap();
                for name in ["kissat", "other"] {
                    t.execs += 1;
                    let solver = bin.join(name);
                    script(&solver, &format!("MC_FAKE_SOLVER=first MC_SCRATCH={} exec {}", dir.display(), me.display()));
                    let (code, out) = match name {
                        "kissat" => run_cli(&["solve", "--instance", inp], path),
                        _ => run_cli(&["solve", "--instance", inp, "--solver", solver.to_str().unwrap()], path),
                    };
                    fs::remove_file(&solver).unwrap();
                    if code != 0 {
                        return Err(format!("cli solve failed: exit {}", code));
                    }
                    let lines: Vec<&str> = out.lines().collect();
                    let said: Vec<usize> = (0..lines.len()).filter(|&i| lines[i] == "sat" || lines[i] == "unsat").collect();
                    t.transitions += 1;
                    match said.as_slice() {
                        [i] => {
                            t.outcome(lines[*i]);
                            if Some(lines[*i] == "sat") != verdict {
                                return Err(format!("cli verdict: {} for {:?}", lines[*i], verdict));
                            }
                            if lines[*i] == "sat" {
                                let m = Model::parse(&lines[i + 1..].join("\n")).map_err(|e| format!("cli model: {}", e))?;
                                m.check(&sc).map_err(|e| format!("cli model: {} {}", e, out))?;
                            }
                        }
                        _ => return Err(format!("cli verdict: not exactly one sat/unsat line: {}", out)),
                    }
                }
                Ok(())
            }
            "cli-error" => {
                let bin = dir.join("bin");
                fs::create_dir_all(&bin).unwrap();
                script(&bin.join("minisat"), "cat > /dev/null");
                script(&bin.join("kissat"), "cat > /dev/null; echo 's UNSATISFIABLE'");
                let path = bin.to_str().unwrap();
                let out = dir.join("o.cnf");
                let none = dir.join("none.smt2");
                for (i, f) in [inp, none.to_str().unwrap(), dir.to_str().unwrap()].iter().enumerate() {
                    for (j, args) in [vec!["solve", "--instance", f], vec!["encode", "--instance", f, "--cnf-outfile", out.to_str().unwrap()]].iter().enumerate() {
                        t.execs += 1;
                        t.transitions += 1;
                        let (code, out) = run_cli(args, path);
                        if code == 0 || out.lines().any(|l| l == "sat" || l == "unsat") {
                            return Err(format!("cli hides error: input {} operation {} exit {} {}", i, j, code, out));
                        }
                        t.outcome("error exit");
                    }
                }
                Ok(())
            }
            _ => panic!("mode {}", mode),
        }
    }
    fn rule(&self) -> &'static str {
        "for each formula: DIMACS output of encode() parsed strictly and its satisfiability decided by exhaustive search; every sink fault offset (first/last 24 bytes, block boundaries, every 97th) and reader fault offset; the command line tool with scripted minisat and SAT solvers, failing, missing and correct"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the verdict the encoding is compared with is the one of solve_with_varisat, which A01/A08 check"]
    }
}

fn check_dimacs(text: &str, verdict: Option<bool>, t: &mut Tally) -> Result<(), String> {
    let (nv, clauses) = parse_dimacs(text).map_err(|e| format!("malformed DIMACS: {}", e))?;
    t.transitions += 1;
    let sat = match search_models(nv, &clauses, 1, 20_000) {
        Some(ms) => !ms.is_empty(),
        None => {
            t.outcome("CNF decided by varisat (search budget exceeded)");
            let mut s = varisat::Solver::new();
            s.add_dimacs_cnf(text.as_bytes()).map_err(|e| format!("malformed DIMACS: {}", e))?;
            s.solve().unwrap()
        }
    };
    t.outcome(if sat { "satisfiable CNF" } else { "unsatisfiable CNF" });
    if Some(sat) != verdict {
        return Err(format!("not equisatisfiable: the CNF is sat={}, the formula is sat={:?}", sat, verdict));
    }
    Ok(())
}

/// Input outside the supported fragment.
pub struct Unsupported;

/// (declarations, unsupported Boolean term, does the reference interpreter know it?)
const CONSTRUCTS: &[(&str, &str)] = &[
    ("(declare-const r Real)", "(> r 0.5)"),
    ("(declare-const r Real)(declare-const s Real)", "(= (+ r s) 1.0)"),
    ("(declare-const r Real)", "(= r (/ 1.0 3.0))"),
    ("(declare-const r Real)", "(is_int r)"),
    ("(declare-const i Int)(declare-const r Real)", "(= (to_real i) r)"),
    ("(declare-const i Int)(declare-const j Int)", "(= (* i j) 6)"),
    ("(declare-const i Int)", "(= (* i i) 2)"),
    ("(declare-const i Int)", "(= (* i i i) 2)"),
    ("(declare-const i Int)", "(= (* 2 3 i) 5)"),
    ("(declare-const i Int)", "(= (* 2 (+ i 1)) 5)"),
    ("(declare-const i Int)", "(= (* 2 (* 3 i)) 5)"),
    ("(declare-const i Int)", "(= (* 2 3) (+ i i))"),
    ("(declare-const i Int)", "(= (div i 2) 1)"),
    ("(declare-const i Int)", "(= (mod i 2) 2)"),
    ("(declare-const i Int)", "(= (abs i) (- 1))"),
    ("(declare-const i Int)", "((_ divisible 3) i)"),
    ("(declare-const i Int)", "(exists ((k Int)) (and (= i (+ k k)) (= i 1)))"),
    ("(declare-const i Int)", "(forall ((k Int)) (>= i k))"),
    ("(declare-const a (Array Int Int))", "(= (select a 0) 1)"),
    ("(declare-const a (Array Int Int))(declare-const b (Array Int Int))", "(= a b)"),
    ("(declare-const a (Array Int Int))", "(= (select (store a 0 1) 0) 2)"),
    ("(declare-const s String)", "(= s \"x\")"),
    ("(declare-const s String)", "(= (str.len s) (- 1))"),
    ("(declare-const s String)", "(str.in_re s re.none)"),
    ("(declare-const u (_ BitVec 3))(declare-const v (_ BitVec 3))", "(bvult u v)"),
    ("(declare-const u (_ BitVec 3))(declare-const v (_ BitVec 3))", "(= u v)"),
    ("(declare-const u (_ BitVec 3))(declare-const v (_ BitVec 3))", "(distinct u v)"),
    ("(declare-const u (_ BitVec 3))", "(bvule (bvadd u #b001) u)"),
    ("(declare-const u (_ BitVec 3))", "(bvule (bvnot u) u)"),
    ("(declare-const u (_ BitVec 3))", "(bvsle u #b001)"),
    ("(declare-const u (_ BitVec 3))", "(bvuge u #b001)"),
    ("(declare-const u (_ BitVec 3))", "(bvslt u #b100)"),
    ("(declare-const u (_ BitVec 3))", "(bvule ((_ extract 2 1) u) #b01)"),
    ("(declare-const u (_ BitVec 3))", "(bvule (concat u #b1) #b0101)"),
    ("(declare-const u (_ BitVec 3))(declare-const i Int)", "(= (bv2nat u) i)"),
    ("(declare-sort T 0)(declare-const t T)(declare-const w T)", "(= t w)"),
    ("(declare-sort T 0)(declare-fun g (T) Int)(declare-const t T)(declare-const w T)", "(= (g t) (+ 1 (g w)))"),
    ("(declare-fun h (Int) (_ BitVec 2))(declare-const i Int)", "(= (h i) #b01)"),
    ("(declare-const b Bool)(declare-const c Bool)", "(distinct b c)"),
    ("(declare-const b Bool)(declare-const c Bool)(declare-const e Bool)", "(distinct b c e)"),
    ("(declare-const i Int)(define-fun twice ((k Int)) Int (+ k k))", "(= (twice i) 3)"),
    ("(declare-const i Int)(define-fun five () Int 5)", "(= i (+ five 1))"),
    ("(declare-const i Int)(define-const five Int 5)", "(= i five)"),
    ("(declare-datatypes ((C 0)) (((red) (green))))(declare-const c C)", "(= c red)"),
    ("(declare-const f (_ FloatingPoint 8 24))", "(fp.isNaN f)"),
    ("", "(> undeclared 1)"),
    ("", "undeclared"),
    ("(declare-const i Int)", "(frob i)"),
    ("(declare-const i Int)", "(> i 1.5)"),
    ("(declare-const i Int)", "(> i \"a\")"),
    ("(declare-const i Int)", "(> i true)"),
    ("(declare-const i Int)", "(and i i)"),
    ("(declare-const i Int)", "i"),
    ("(declare-const i Int)(declare-const b Bool)", "(= i b)"),
    ("(declare-const i Int)(declare-const b Bool)", "(= (+ i b) 1)"),
    ("(declare-const i Int)", "(! (> i 1) :named foo)"),
    ("(declare-const i Int)(declare-const u (_ BitVec 3))", "(= (+ i u) 1)"),
    ("(declare-const i Int)(declare-const u (_ BitVec 3))", "(bvule u i)"),
    ("(declare-const u (_ BitVec 3))(declare-const v (_ BitVec 5))", "(bvule u v)"),
    ("(declare-const u (_ BitVec 3))", "(bvule u #b01)"),
    ("(declare-const i Int)", "(= (ite (> i 0) 1 1.5) i)"),
    ("(declare-const r Real)", "(= (- r) 1.0)"),
    ("(declare-const r Real)", "(= (* 2.0 r) 1.0)"),
];

const CONTEXTS: &[&str] = &[
    "(assert X)",
    "(assert (not X))",
    "(assert (and p X))",
    "(assert (or p X))(assert (not p))",
    "(assert (=> X p))(assert (not p))",
    "(assert (xor X p))",
    "(assert (= p X))",
    "(assert (ite X p (not p)))",
    "(assert (ite p X (not X)))",
    "(assert (= z (ite X 1 2)))",
    "(assert (let ((l X)) (and l p)))",
    "(assert (let ((l p)) (or X (not l))))(assert p)",
    "(assert (> z 1))(assert X)(assert (< z 5))",
    "(assert X)(assert (= z 1))(assert (= z 2))",
    "(check-sat)(assert X)(check-sat)",
];

/// Invalid or misplaced tokens.
const JUNK: &[&str] = &[
    "#", "#b", "#b2", "#x", "#xg", "#q", "|", "\"", ")", "(", "()", "0", "01", "1x", "1.", "1.x", ":", ":k", "x", "\\", "'", ",", "{", "}", "[", "`",
    "\u{1}", "\u{e9}", "\u{a0}", "_", "!", "let", "(assert", "assert p)", "(frob p)", "(assert)", "(assert p p)", "\"s\"", "#b01", "#xff", "1.5",
];

/// Sequences of commands that change the set of assertions.
const COMMANDS: &[&str] = &[
    "(push 1)", "(pop 1)", "(reset)", "(reset-assertions)", "(check-sat-assuming (p))", "(check-sat-assuming ((not p)))",
];

impl Check for Unsupported {
    fn id(&self) -> &'static str {
        "A09"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = "(declare-const p Bool)(declare-const z Int)";
        for (decl, x) in CONSTRUCTS {
            for ctx in CONTEXTS {
                sink(format!("{}{}{}", d, decl, ctx.replace('X', x)));
            }
        }
        // two unsupported constructs together
        if thorough {
            for (i, (d1, x1)) in CONSTRUCTS.iter().enumerate() {
                for (d2, x2) in CONSTRUCTS.iter().skip(i + 1) {
                    sink(format!("{}{}{}(assert (or {} {}))", d, d1, d2, x1, x2));
                }
            }
        }
        // incremental commands at every position of command sequences
        let base = ["(assert p)", "(assert (not p))", "(check-sat)", "(assert (> z 1))"];
        for c in COMMANDS {
            for a in base {
                for b in base {
                    sink(format!("{}{}{}{}", d, c, a, b));
                    sink(format!("{}{}{}{}", d, a, c, b));
                    sink(format!("{}{}{}{}", d, a, b, c));
                    for e in COMMANDS {
                        sink(format!("{}{}{}{}{}", d, c, a, e, b));
                    }
                }
            }
        }
        // stray tokens between and inside commands
        for j in JUNK {
            for (a, b) in [("(assert (> z 1))", "(assert (< z 1))"), ("(assert p)", "(assert (not p))"), ("(assert (not p))", "(check-sat)")] {
                sink(format!("{} {}{}{}", j, d, a, b));
                sink(format!("{} {} {}{}", d, j, a, b));
                sink(format!("{}{} {} {}", d, a, j, b));
                sink(format!("{}{}{} {}", d, a, b, j));
                sink(format!("{}{}(assert {}){}", d, a, j, b));
                sink(format!("{}{}(assert (> z {})){}", d, a, j, b));
                sink(format!("{}{}(assert (and p {} )){}", d, a, j, b));
                sink(format!("{}{}({} p){}", d, a, j, b));
            }
        }
        // commands that do not change the assertions: verdict unaffected; stray tokens right after
        // any of them still have to be noticed
        for c in ["(check-sat)", "(get-model)", "(exit)", "(echo \"hi\")", "(echo \"\")", "(set-option :produce-models true)", "(get-info :name)", "(set-info :status sat)", "(set-logic QF_LIA)", "(get-value (z))", "(get-assertions)", "(get-unsat-core)"] {
            for j in JUNK {
                for (a, b) in [("(assert (> z 1))", "(assert (< z 1))"), ("(assert p)", "(assert (not p))")] {
                    sink(format!("{}{}{} {} {}", d, a, c, j, b));
                    sink(format!("{}{}{} {}{}", d, a, b, c, j));
                }
            }
            for (a, b) in [("(assert (> z 1))", "(assert (< z 3))"), ("(assert p)", "(assert (not p))")] {
                for s in [format!("{}{}{}{}", d, c, a, b), format!("{}{}{}{}", d, a, c, b), format!("{}{}{}{}", d, a, b, c)] {
                    sink(s);
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        // Commands between assertions that only query do not matter for the reference; anything
        // else unknown to it must be rejected.
        let neutral = ["check-sat", "get-model", "exit", "echo", "set-option", "get-info", "set-info", "set-logic", "get-value", "get-assertions", "get-unsat-core"];
        let sc = mc::run::quietly(|| Script::parse(case).ok()).flatten().filter(|sc| sc.other.iter().all(|c| neutral.contains(&c.head().unwrap_or(""))));
        t.execs += 1;
        match solve(case, 1) {
            Outcome::Failed(e) => Err(e),
            Outcome::Rejected(_) => {
                t.outcome("rejected");
                t.transitions += 1;
                Ok(())
            }
            Outcome::Sat(m) => {
                t.outcome("sat");
                t.transitions += 1;
                match sc {
                    Some(sc) if mc::run::quietly(|| Model::parse(&m).and_then(|m| m.check(&sc))) == Some(Ok(())) => Ok(()),
                    _ => Err(format!("verdict for unsupported input: sat {}", m.replace('\n', " "))),
                }
            }
            Outcome::Unsat => {
                t.outcome("unsat");
                let ok = sc.and_then(|sc| mc::run::quietly(|| sc.find_solution(&int_box(3), &mut t.transitions).is_none()));
                if ok == Some(true) {
                    Ok(())
                } else {
                    Err("verdict for unsupported input: unsat".into())
                }
            }
        }
    }
    fn rule(&self) -> &'static str {
        "64 unsupported or ill-sorted constructs in 15 contexts, 41 invalid or misplaced tokens between, inside and after every kind of commands, and incremental commands at every position of short command sequences: an error is required, or a verdict the reference interpreter confirms; never a panic, crash or hang"
    }
}
