//! Statistics of the eager encoding as features (P04) and whole predictions (P06).
use crate::count::expected_row;
use crate::py::ask;
use crate::words::{features, labels, must_succeed, script, word_counts, DEFAULT};
use mc::run::{scratch, Check, Sink, Tally};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use serde_json::{json, Value};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What the eager solver prints for a problem (there is no SAT solver behind it).
pub fn eager_output(text: &str) -> Result<String, String> {
    let file = scratch().join("eager.smt2");
    std::fs::write(&file, text).unwrap();
    let bin = std::env::current_exe().unwrap().with_file_name("cli-eager");
    let out = Command::new("timeout").arg("20").arg(bin).args(["solve", "--solver", "/nonexistent/solver", "--instance"]).arg(&file)
        .stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
    String::from_utf8(out.stdout).map_err(|e| e.to_string())
}

const KEYS: [&str; 7] = ["vars", "constraints", "a_max", "b_max", "k", "w", "bound"];

/// The parameters in the last braces of each line for a partition, and its bound.
pub fn partitions(out: &str) -> Result<Vec<Vec<BigInt>>, String> {
    let mut res = vec![];
    for l in out.lines().filter(|l| l.starts_with("Partition '")) {
        let (stats, bound) = l.rsplit_once(" }, bound: ").ok_or("statistics")?;
        let body = stats.rsplit_once("{ ").ok_or("statistics")?.1;
        let mut vals: Vec<(String, BigInt)> = vec![("bound".into(), bound.strip_suffix(" bits").ok_or("bits")?.parse().map_err(|_| "bound")?)];
        for p in body.split(", ") {
            let (k, v) = p.split_once(": ").ok_or("pair")?;
            vals.push((k.into(), v.parse().map_err(|_| "number")?));
        }
        res.push(KEYS.iter().map(|k| vals.iter().find(|(n, _)| n == k).map(|v| v.1.clone()).ok_or("missing")).collect::<Result<_, _>>()?);
    }
    Ok(res)
}

/// The documented bound on the number of bits, for the given parameters (exact).
pub fn bound_bits(p: &[BigInt]) -> BigInt {
    let d = solutions(p);
    // ceil(log2 d + 1)
    let mut bits = 0;
    while (BigInt::one() << bits) < d {
        bits += 1;
    }
    BigInt::from(bits + 1)
}

/// How far the scripts may be off, which compute the logarithm in floating point: near a power of two by one.
pub fn bound_slack(p: &[BigInt]) -> BigInt {
    let d = solutions(p);
    let bits = d.bits();
    let near = [bits - 1, bits].iter().any(|b| {
        let off = &d - (BigInt::one() << *b);
        BigInt::max(off.clone(), -off) * 1_000_000_000u64 <= d
    });
    BigInt::from(u32::from(near))
}

fn solutions(p: &[BigInt]) -> BigInt {
    let (n, m, a, b, k, w) = (&p[0], &p[1], &p[2], &p[3], &p[4], &p[5]);
    let one = BigInt::one();
    (if k.is_zero() {
        n.min(m) * (b + 1)
    } else {
        let k: u32 = k.to_string().parse().unwrap();
        (a * w).pow(k) * (n + 2) * BigInt::min(n + 1, m.clone()) * (b + 1)
    }) + &one
}

/// Features expected for a problem; the last one is the bound.
fn expected(parts: &[Vec<BigInt>]) -> Vec<BigInt> {
    if parts.len() == 1 {
        return parts[0].clone();
    }
    let sum = |i: usize| parts.iter().map(|p| p[i].clone()).sum::<BigInt>();
    let max = |i: usize| parts.iter().map(|p| p[i].clone()).max().unwrap();
    let mut r = vec![sum(0), sum(1), max(2), max(3), sum(4), max(5)];
    r.push(bound_bits(&r));
    r
}

fn same_features(got: &[BigInt], parts: &[Vec<BigInt>]) -> Result<(), String> {
    let want = expected(parts);
    let slack = if parts.len() > 1 { bound_slack(&want) } else { BigInt::from(0) };
    if got.len() != 7 || got[..6] != want[..6] || (&got[6] - &want[6]) > slack || (&want[6] - &got[6]) > slack {
        return Err(format!("wrong features: {:?} instead of {:?}", strs(got), strs(&want)));
    }
    Ok(())
}

fn strs(v: &[BigInt]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn ten(n: usize) -> String {
    format!("1{}", "0".repeat(n))
}

/// Independent formulas (over their own variables, names decorated by `v`).
fn pieces(v: &dyn Fn(&str) -> String) -> Vec<(Vec<String>, Vec<String>)> {
    let (x, y, z) = (v("x"), v("y"), v("z"));
    let mut r = vec![
        (vec![x.clone()], vec![format!("(>= {} 0)", x)]),
        (vec![x.clone()], vec![format!("(>= {} 5)", x), format!("(<= {} {})", x, ten(3))]),
        (vec![x.clone(), y.clone()], vec![format!("(>= (- {} {}) 3)", x, y)]),
        (vec![x.clone(), y.clone()], vec![format!("(>= (+ {} {}) 3)", x, y)]),
        (vec![x.clone(), y.clone(), z.clone()], vec![format!("(>= (+ {} {} {}) (- 7))", x, y, z), format!("(< (- {} {}) 2)", x, z)]),
        (vec![x.clone(), y.clone()], vec![format!("(= {} {})", x, y), format!("(distinct {} 1)", x)]),
    ];
    for c in [2usize, 31, 1024] {
        for e in [0, 1, 15, 16, 40] {
            r.push((vec![x.clone(), y.clone()], vec![format!("(>= (+ (* {} {}) {}) {})", c, x, y, ten(e))]));
        }
    }
    // many difference or other constraints
    for n in [2usize, 4, 8, 16] {
        let vars: Vec<String> = (0..n).map(|i| v(&format!("d{}", i))).collect();
        r.push((vars.clone(), vars.windows(2).map(|w| format!("(>= (- {} {}) {})", w[0], w[1], n)).collect()));
        r.push((vars.clone(), vars.windows(2).map(|w| format!("(>= (+ (* {} {}) {}) {})", n, w[0], w[1], n)).collect()));
    }
    r
}

const NAMES: [&str; 7] = ["{}", "|{} v|", "|{}{{|", "|{} }}, bound: 3 bits|", "|Partition '{}': stats: Stats {{ vars: 9|", "{}!bits", "|{}, k: 7|"];

fn decorate(name: &str, base: &str) -> String {
    name.replace("{{", "\u{1}").replace("}}", "\u{2}").replace("{}", base).replace('\u{1}', "{").replace('\u{2}', "}")
}

fn problem(parts: &[(Vec<String>, Vec<String>)]) -> String {
    let mut s = String::from("(set-logic QF_LIA)\n");
    for (vars, _) in parts {
        vars.iter().for_each(|v| s.push_str(&format!("(declare-const {} Int)\n", v)));
    }
    for (_, asserts) in parts {
        asserts.iter().for_each(|a| s.push_str(&format!("(assert {})\n", a)));
    }
    s + "(check-sat)\n"
}

fn stats_problem(case: &str) -> String {
    let idx: Vec<usize> = case.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
    let parts: Vec<_> = idx[1..].iter().enumerate().map(|(i, k)| {
        pieces(&|b: &str| decorate(NAMES[idx[0]], &format!("p{}{}", i, b))).swap_remove(*k)
    }).collect();
    problem(&parts)
}

pub struct Stats;
impl Check for Stats {
    fn id(&self) -> &'static str {
        "P04"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let n = pieces(&|b: &str| b.to_string()).len();
        for name in 0..NAMES.len() {
            for i in 0..n {
                sink(format!("stats {} {}", name, i));
                for j in 0..n {
                    if name == 0 || (i + j) % 7 == 0 || thorough {
                        sink(format!("stats {} {} {}", name, i, j));
                    }
                }
            }
        }
        for i in 0..n {
            for j in i..n {
                for k in j..n {
                    if thorough || (i + j + k) % 5 == 0 {
                        sink(format!("stats 0 {} {} {}", i, j, k));
                    }
                }
            }
        }
        // printed parameters, not only those of problems that are small enough to be encoded
        let vals = ["1", "2", "7", "1000", "1000000007", "123456789012345678901234567890"];
        for a in vals {
            for b in vals {
                for (n, m, k, w) in [(1, 1, 0, 1), (1, 1, 1, 1), (2, 9, 0, 2), (3, 2, 1, 2), (100, 5000, 40, 7), (5000, 100, 100, 30), (2, 2, 2, 2)] {
                    sink(format!("printed {},{},{},{},{},{}", n, m, a, b, k, w));
                    sink(format!("printed {},{},{},{},{},{} 3,2,1,5,0,2", n, m, a, b, k, w));
                    sink(format!("printed 3,2,1,5,1,2 {},{},{},{},{},{} 8,8,9,1,0,2", n, m, a, b, k, w));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let text = if let Some(ps) = case.strip_prefix("printed ") {
            let mut s = "Solving a.smt2\nParse time: 1.3ms\n".to_string();
            for p in ps.split(' ') {
                let mut v: Vec<BigInt> = p.split(',').map(|x| x.parse().unwrap()).collect();
                v.push(bound_bits(&v));
                s.push_str(&format!("Partition 'x': stats: Stats {{ vars: {}, constraints: {}, a_max: {}, b_max: {}, k: {}, w: {} }}, bound: {} bits\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6]));
            }
            s + "CNF: 3 vars, 4 clauses\n"
        } else {
            t.execs += 1;
            eager_output(&stats_problem(case))?
        };
        let parts = partitions(&text)?;
        if parts.is_empty() {
            return Err(format!("no statistics printed: {}", text));
        }
        t.execs += 1;
        let r = ask(json!({"op": "eager", "text": text}))?;
        let got: Vec<BigInt> = r.as_str().unwrap_or("").trim().split(',').map(|x| x.parse::<BigInt>()).collect::<Result<_, _>>().map_err(|_| format!("malformed features: {}", r))?;
        t.transitions += parts.len() as u64;
        t.outcome(if parts.len() == 1 { "one partition" } else { "several partitions" });
        same_features(&got, &parts)
    }
    fn rule(&self) -> &'static str {
        "problems of one, two and three independent parts out of 29, with plain and adversarial variable names, printed by the real eager solver, and printed statistics over magnitudes up to 30 digits: features compared with the exact aggregation"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["problems without integer constraints and names with line breaks are left out"]
    }
}

// ---------------------------------------------------------------------------------------- P06
/// A scratch directory laid out like the repository, with the binaries of the current tree.
pub fn layout() -> (PathBuf, PathBuf) {
    let root = scratch().join("layout");
    let _ = std::fs::remove_dir_all(&root);
    let exe = std::env::current_exe().unwrap();
    for (name, bin) in [("amzn-smt-prediction", "cli-pred"), ("amzn-smt-eager-arithmetic", "cli-eager"), ("amzn-smt-string-fct-updater", "cli-upd")] {
        std::fs::create_dir_all(root.join(name).join("release")).unwrap();
        symlink(exe.with_file_name(bin), root.join(name).join("release").join(name)).unwrap();
    }
    let cwd = root.join("amzn-smt-prediction/scripts");
    std::fs::create_dir_all(cwd.join("../solvers")).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    (root, cwd)
}

const SLIA: [&str; 3] = [
    "(set-logic QF_SLIA)(declare-const x String)(assert (= (str.len x) (str.to_int (str.++ x x))))(assert (str.in_re x (re.* (re.range \"a\" \"b\"))))(check-sat)",
    "(set-logic QF_SLIA)(check-sat)",
    "(set-logic QF_SLIA)(declare-const x String)(assert (not (= (str.replace x \"a\" (str.at x 0)) (str.substr x 0 (str.indexof x \"c\" 0)))))(check-sat)",
];
const OUTPUTS: [(f64, &str); 4] = [
    (2.0, "sat\n"),
    (30.0, ""),
    (30.0, "(a b c d e f g h i j)\n\n(a b c d e f g)\n(a b c d e f g h)\nx"),
    (0.5, "a b\nc d e f g h i j k\nl m n\n"),
];
const BUCKETS: [&[i64]; 4] = [&[], &[3], &[1, 2, 9], &[7, 8, 9, 10, 20, 40, 60, 80, 100]];
const REPLIES: [[f64; 3]; 9] = [
    [0.7, 0.2, 0.1], [0.2, 0.7, 0.1], [0.1, 0.2, 0.7], [0.3, 0.3, 0.4], [0.0, 1.0, 0.0], [0.33, 0.34, 0.33], [0.5, 0.499, 0.001], [0.1234, 0.3333, 0.5433], [0.99954, 0.0003, 0.00016],
];
const RUNTIME: [&str; 3] = ["solve quickly (30 to 60 seconds)", "solve slowly (1 to 12 minutes)", "timeout (over 20 minutes)"];
const METHOD: [&str; 3] = ["Lazy Approach via CVC4", "Lazy Approach via Z3", "Eager Approach via SAT"];

pub struct Predictions;
impl Check for Predictions {
    fn id(&self) -> &'static str {
        "P06"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        // words: kind problem output buckets norm fmf verbosity reply
        for p in 0..SLIA.len() {
            for o in 0..OUTPUTS.len() {
                for b in 0..BUCKETS.len() {
                    for norm in ["none", "means", "zero", "onlymeans", "wide0", "wide1", "wide2"] {
                        for fmf in ["off", "on"] {
                            let v = ["Full", "Pretty", "Vector"][(p + o + b) % 3];
                            sink(format!("slia {} {} {} {} {} {} {}", p, o, b, norm, fmf, v, (p + 2 * o + b) % 7));
                        }
                    }
                }
            }
        }
        for v in ["Full", "Pretty", "Vector", "default"] {
            for r in 0..REPLIES.len() {
                for fmf in ["off", "on"] {
                    for s in ["0.0", "0.3", "0.5", "0.50001", "0.501", "0.99", "1.0"] {
                        if fmf == "on" || s == "0.0" {
                            sink(format!("slia 0 3 2 none {} {} {} {}", fmf, v, r, s));
                        }
                    }
                }
                for theory in ["QF_IDL", "QF_LIA"] {
                    sink(format!("arith {} 4 0 {} {}", theory, v, r));
                }
            }
        }
        let n = pieces(&|b: &str| b.to_string()).len();
        for i in 0..n {
            sink(format!("arith QF_LIA {} real Full {}", i, i % 7));
            sink(format!("arith QF_LIA {},{} timeout Pretty {}", i, (i + 5) % n, i % 7));
            if thorough {
                for j in 0..n {
                    sink(format!("arith QF_IDL {},{} real Pretty {}", i, j, i % 7));
                }
            }
        }
        for c in ["notheory", "badtheory", "noendpoints", "noruntime", "nofmf", "noeager", "args", "noconfig", "problem-missing", "problem-malformed", "arith-missing", "nocvc4"] {
            sink(format!("error {}", c));
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        t.execs += 1;
        t.transitions += 1;
        match w[0] {
            "slia" => slia(&w, t),
            "arith" => arith(&w, t),
            _ => error(w[1], t),
        }
    }
    fn rule(&self) -> &'static str {
        "the whole prediction script with the real feature extractors, scripted CVC4 and scripted service: 3 string problems x 4 solver outputs x 4 bucket settings x 7 normalisation settings with means and deviations of every magnitude x fmf; all verbosities x 7 answers x 7 fmf answers; arithmetic problems of one and two parts with and without timeout; 12 errors: vector sent to the service and announced prediction compared with the expected ones"
    }
}

fn config(dir: &Path, pairs: &[(&str, String)]) {
    let mut s = String::from("[REQUIRED]\n");
    for (k, v) in pairs.iter().filter(|p| p.0.starts_with('R')) {
        s.push_str(&format!("{} = {}\n", &k[1..], v));
    }
    s.push_str("[OPTIONAL]\n");
    for (k, v) in pairs.iter().filter(|p| p.0.starts_with('O')) {
        s.push_str(&format!("{} = {}\n", &k[1..], v));
    }
    std::fs::write(dir.join("conf.ini"), s).unwrap();
}

fn argmax(r: &[f64]) -> usize {
    (0..r.len()).max_by(|a, b| r[*a].total_cmp(&r[*b]).then(b.cmp(a))).unwrap()
}

fn numbers(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default()
}

/// The announced sentence names exactly the predicted outcome; a vector is printed as it is.
fn announced(stdout: &str, v: &str, reply: &[f64], names: &[&str; 3], marker: &str) -> Result<(), String> {
    if v == "Vector" {
        let vec = format!("[{}]", reply.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", "));
        return if stdout.contains(&vec) { Ok(()) } else { Err(format!("wrong output: {} without {}", stdout, vec)) };
    }
    let line = stdout.lines().find(|l| l.contains(marker)).ok_or_else(|| format!("wrong output: no prediction in {}", stdout))?;
    for (i, n) in names.iter().enumerate() {
        if line.contains(n) != (i == argmax(reply)) {
            return Err(format!("wrong prediction: {} for {:?}", line, reply));
        }
    }
    let pct = (reply[argmax(reply)] * 10000.0).round() / 100.0;
    if !line.contains(&format!("{:?}%", pct)) {
        return Err(format!("wrong confidence: {} for {:?}", line, reply));
    }
    Ok(())
}

fn slia(w: &[&str], t: &mut Tally) -> Result<(), String> {
    let n = |i: usize| w[i].parse::<usize>().unwrap();
    let (text, out, buckets, norm, fmf, v, reply) = (SLIA[n(1)], OUTPUTS[n(2)], BUCKETS[n(3)], w[4], w[5] == "on", w[6], REPLIES[n(7)]);
    let fmf_reply: f64 = w.get(8).map_or(0.25, |x| x.parse().unwrap());
    let (_, cwd) = layout();
    std::fs::write(cwd.join("problem.smt2"), text).unwrap();
    let used = if buckets.is_empty() { &DEFAULT[..] } else { buckets };
    // expected features
    let off: Vec<f64> = expected_row(text, "script")?.split(',').map(|x| x.parse().unwrap()).collect();
    let on: Vec<f64> = features(used, &word_counts(if out.0 > 10.0 { out.1 } else { out.1.trim() })).iter().map(|x| *x as f64).collect();
    let mut all: Vec<f64> = off.iter().chain(&on).copied().collect();
    let mut means: Vec<f64> = (0..all.len()).map(|i| i as f64 / 4.0 - 1.0).collect();
    let mut stds: Vec<f64> = (0..all.len()).map(|i| if norm == "zero" && i % 3 == 1 { 0.0 } else { 0.5 + i as f64 }).collect();
    // deviations and means of every magnitude
    if let Some(r) = norm.strip_prefix("wide") {
        let r: usize = r.parse().unwrap();
        means = (0..all.len()).map(|i| [0.0, 1e9, 2.0, -1e-9, 0.37][(i + r) % 5]).collect();
        stds = (0..all.len()).map(|i| [1e-12, 1.0, 0.004, 0.0, 1e9, 0.2, 1e-6][(i + 2 * r) % 7]).collect();
    }
    let mut conf = vec![("RTheory", "QF_SLIA".to_string()), ("REndpointRuntime", "rt".to_string()), ("REndpointFmf", "fm".to_string())];
    if norm != "none" {
        conf.push(("OM1FeatureMeans", json!(means).to_string()));
        if norm != "onlymeans" {
            conf.push(("OM1FeatureStds", json!(stds).to_string()));
            all = all.iter().zip(&means).zip(&stds).map(|((f, m), s)| if *s == 0.0 { *f } else { (f - m) / s }).collect();
        }
    }
    if !buckets.is_empty() {
        conf.push(("OBuckets", json!(buckets).to_string()));
    }
    conf.push(("OFMF", if fmf { "True" } else { "False" }.to_string()));
    if v != "default" {
        conf.push(("OVerbosity", v.to_string()));
    }
    config(&cwd, &conf);
    let r = must_succeed(script("generate_predictions.py", &["problem.smt2", "conf.ini"], &cwd, json!({
        "real": ["amzn-smt-prediction", "rm"],
        "programs": [{"name": "cvc4", "secs": out.0, "out": out.1, "partial": out.1}],
        "replies": {"rt": reply, "fm": fmf_reply},
    })), "generate_predictions")?;
    t.outcome("string prediction");
    let calls = r["calls"].as_array().unwrap();
    if calls.len() != 1 + usize::from(fmf) || calls[0]["endpoint"] != "rt" || (fmf && calls[1]["endpoint"] != "fm") {
        return Err(format!("wrong endpoints: {}", r["calls"]));
    }
    let close = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * y.abs().max(1.0));
    if !close(&numbers(&calls[0]["features"]), &all) {
        return Err(format!("wrong features: {} instead of {:?}", calls[0]["features"], all));
    }
    if fmf && !close(&numbers(&calls[1]["features"]), &on) {
        return Err(format!("wrong features: {} instead of {:?}", calls[1]["features"], on));
    }
    let cvc4: Vec<&Value> = r["log"].as_array().unwrap().iter().filter(|c| c[0].as_str().unwrap().ends_with("cvc4")).collect();
    if cvc4.len() != 1 || cvc4[0].as_array().unwrap().iter().any(|a| a == "--strings-fmf") != fmf {
        return Err(format!("wrong option: {:?} although fmf is {}", cvc4, fmf));
    }
    let stdout = r["stdout"].as_str().unwrap();
    if used.len() == BUCKETS[2].len() && (v == "Full" || v == "default") && !stdout.contains(&labels(used)) {
        return Err(format!("wrong labels: {}", stdout));
    }
    announced(stdout, v, &reply, &RUNTIME, "Runtime Model predicted")?;
    if fmf && v != "Vector" {
        let line = stdout.lines().find(|l| l.contains("Solver Configuration Model predicted")).ok_or("wrong output: no configuration")?;
        let enabled = (fmf_reply * 10000.0).round() / 100.0 > 50.0;
        if line.contains("ENABLED") != enabled || line.contains("DISABLED") == enabled {
            return Err(format!("wrong configuration: {} for {}", line, fmf_reply));
        }
        let pct = (if enabled { fmf_reply } else { 1.0 - fmf_reply }) * 100.0;
        let said = line.split("% confidence").next().and_then(|l| l.rsplit(' ').next()).and_then(|x| x.parse::<f64>().ok());
        if !said.map_or(false, |s| (s - pct).abs() < 0.006) {
            return Err(format!("wrong confidence: {} for {}", line, fmf_reply));
        }
    }
    // nothing is left behind
    let left: Vec<String> = std::fs::read_dir(&cwd).unwrap().flatten().map(|e| e.file_name().into_string().unwrap()).filter(|f| f.starts_with("off_features")).collect();
    if !left.is_empty() {
        return Err(format!("files left behind: {:?}", left));
    }
    Ok(())
}

fn arith(w: &[&str], t: &mut Tally) -> Result<(), String> {
    let (theory, how, v, reply) = (w[1], w[3], w[4], REPLIES[w[5].parse::<usize>().unwrap()]);
    let parts: Vec<_> = w[2].split(',').enumerate().map(|(i, k)| pieces(&|b: &str| format!("p{}{}", i, b)).swap_remove(k.parse().unwrap())).collect();
    let text = problem(&parts);
    let printed = eager_output(&text)?;
    let want = partitions(&printed)?;
    let (_, cwd) = layout();
    std::fs::write(cwd.join("problem.smt2"), &text).unwrap();
    let mut conf = vec![("RTheory", theory.to_string()), ("REndpointEagerVLazy", "el".to_string())];
    if v != "default" {
        conf.push(("OVerbosity", v.to_string()));
    }
    config(&cwd, &conf);
    let mut extra = json!({"real": ["amzn-smt-eager-arithmetic"], "programs": [], "replies": {"el": reply}});
    if how == "timeout" {
        extra["real"] = json!([]);
        extra["programs"] = json!([{"name": "amzn-smt-eager-arithmetic", "secs": 60.0, "partial": printed}]);
    }
    let r = must_succeed(script("generate_predictions.py", &["problem.smt2", "conf.ini"], &cwd, extra), "generate_predictions")?;
    t.outcome("arithmetic prediction");
    let calls = r["calls"].as_array().unwrap();
    if calls.len() != 1 || calls[0]["endpoint"] != "el" {
        return Err(format!("wrong endpoints: {}", r["calls"]));
    }
    let got: Vec<BigInt> = calls[0]["features"].as_array().unwrap().iter().filter_map(|x| x.to_string().parse().ok()).collect();
    // numbers beyond 64 bits are floats in JSON answers
    if got.len() == 7 {
        same_features(&got, &want)?;
    } else if calls[0]["features"].as_array().map(|a| a.len()) != Some(7) {
        return Err(format!("wrong features: {}", calls[0]["features"]));
    }
    announced(r["stdout"].as_str().unwrap(), v, &reply, &METHOD, "Lazy Model predicted")
}

/// Failures are reported by the exit status and no prediction is announced.
fn error(what: &str, t: &mut Tally) -> Result<(), String> {
    let (_, cwd) = layout();
    std::fs::write(cwd.join("problem.smt2"), SLIA[0]).unwrap();
    let s = |x: &str| x.to_string();
    let mut conf = vec![("RTheory", s("QF_SLIA")), ("REndpointRuntime", s("rt")), ("REndpointFmf", s("fm")), ("REndpointEagerVLazy", s("el")), ("OFMF", s("True"))];
    let mut args = vec!["problem.smt2", "conf.ini"];
    let mut programs = json!([{"name": "cvc4", "secs": 1.0, "out": "sat"}]);
    let mut allowed = 0;
    match what {
        "notheory" => { conf.remove(0); }
        "badtheory" => conf[0].1 = s("QF_BV"),
        "noendpoints" => conf = vec![conf[0].clone()],
        "noruntime" => { conf.remove(1); }
        "nofmf" => { conf.remove(2); allowed = 1; }
        "noeager" => { conf.remove(3); conf[0].1 = s("QF_LIA"); }
        "args" => args = vec!["problem.smt2"],
        "noconfig" => args = vec!["problem.smt2", "other.ini"],
        "problem-missing" => args[0] = "nope.smt2",
        "problem-malformed" => std::fs::write(cwd.join("problem.smt2"), "(assert (= (str.len \"a\") 1)").unwrap(),
        "arith-missing" => { conf[0].1 = s("QF_LIA"); args[0] = "nope.smt2"; }
        _ => programs = json!([]),
    }
    config(&cwd, &conf);
    let r = script("generate_predictions.py", &args, &cwd, json!({
        "real": ["amzn-smt-prediction", "amzn-smt-eager-arithmetic", "rm"], "programs": programs,
        "replies": {"rt": REPLIES[0], "fm": 0.3, "el": REPLIES[0]},
    }))?;
    t.outcome("error");
    if r["code"] == 0 {
        return Err(format!("failure not reported: {}", r["stdout"]));
    }
    if r["calls"].as_array().unwrap().len() > allowed {
        return Err(format!("prediction made: {}", r["calls"]));
    }
    Ok(())
}
