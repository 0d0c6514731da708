//! Online features: word counts of the solver's output and their buckets (P03).
use crate::py::{ask, scripts};
use mc::run::{scratch, Check, Sink, Tally};
use serde_json::{json, Value};

pub const DEFAULT: [i64; 9] = [7, 8, 9, 10, 20, 40, 60, 80, 100];

/// `(label, lower bound, upper bound)`: counts in [lower, upper).
pub fn cells(b: &[i64]) -> Vec<(String, i64, i64)> {
    let mut r = vec![(format!("less_than_{}", b[0]), i64::MIN, b[0])];
    for w in b.windows(2) {
        let l = if w[1] == w[0] + 1 { format!("equal_{}", w[0]) } else { format!("between_{}_{}", w[0], w[1]) };
        r.push((l, w[0], w[1]));
    }
    r.push((format!("over_{}", b[b.len() - 1]), b[b.len() - 1], i64::MAX));
    r
}

pub fn labels(b: &[i64]) -> String {
    cells(b).iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(",")
}

pub fn features(b: &[i64], counts: &[i64]) -> Vec<i64> {
    cells(b).iter().map(|(_, l, h)| counts.iter().filter(|c| *c >= l && *c < h).count() as i64).collect()
}

/// Words per line of a text; a final newline does not start another line.
pub fn word_counts(text: &str) -> Vec<i64> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    lines.iter().map(|l| l.split([' ', '\t']).filter(|w| !w.is_empty()).count() as i64).collect()
}

pub struct Words;

const NAMES: [&str; 10] = ["/a.smt2", "/a2.smt2", "/2.smt2", "/smt.smt2", "/sub/t2m.smt2", "/m.t.smt2", "/a.smt2.smt2", "/.s.smt2", "/q", "/deep/er/x2.smt"];
const OUTS: [(&str, f64, Option<&str>); 6] = [
    ("sat", 1.0, None),
    ("", 0.5, None),
    ("a b c d e f\na b c d e f g\na b c d e f g h\n\nlast line", 9.5, None),
    ("", 11.0, None),
    ("", 12.0, Some("x y z\np q r s t u v w x y\n(a b")),
    ("  lead   spaces \n\n 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20\nz\n\n", 10.0, None),
];

impl Check for Words {
    fn id(&self) -> &'static str {
        "P03"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        sink("buckets default".into());
        let pool = [1i64, 2, 3, 5, 6, 9, 10];
        for m in 1..1 << pool.len() {
            let b: Vec<String> = (0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i].to_string()).collect();
            sink(format!("buckets {}", b.join(",")));
        }
        for n in 0..if thorough { 8 } else { 6 } {
            for a in 0..5 {
                sink(format!("words {} {}", n, a));
            }
        }
        // one, two and three benchmarks with every output, in every order
        for solver in ["cvc4", "cvc4-nofmf", "z3"] {
            for end in ["nl", "nonl", "again"] {
                for i in 0..NAMES.len() {
                    for o in 0..OUTS.len() {
                        sink(format!("pipeline {} {} {}:{}", solver, end, i, o));
                        if solver != "z3" || thorough {
                            for j in (0..NAMES.len()).filter(|j| *j != i) {
                                sink(format!("pipeline {} {} {}:{} {}:{}", solver, end, i, o, j, (o + j + 1) % OUTS.len()));
                            }
                        }
                    }
                }
            }
        }
        for i in 0..NAMES.len() {
            for j in (0..NAMES.len()).filter(|j| *j != i) {
                for k in (0..NAMES.len()).filter(|k| *k != i && *k != j) {
                    sink(format!("pipeline cvc4 nl {}:2 {}:{} {}:4", i, j, 1 + (i + k) % 5, k));
                }
            }
        }
        for o in 0..6 {
            sink(format!("pipeline cvc4 nl 0:{} 0:{}", o, o));
        }
        sink("pipeline cvc4 nl".into());
        for i in 0..WRAPPERS.len() {
            sink(format!("wrapper {}", i));
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        match w[0] {
            "buckets" => {
                let own: Option<Vec<i64>> = (w[1] != "default").then(|| w[1].split(',').map(|x| x.parse().unwrap()).collect());
                let b = own.clone().unwrap_or(DEFAULT.to_vec());
                let top = b[b.len() - 1] + 2;
                let mut counts: Vec<Vec<i64>> = vec![vec![]];
                for c in 0..=top {
                    counts.push(vec![c]);
                }
                for c in 0..=top.min(14) {
                    for d in 0..=top.min(14) {
                        counts.push(vec![c, d]);
                        counts.push(vec![d, c, top * 10]);
                    }
                }
                let r = ask(json!({"op": "features", "buckets": own, "counts": counts}))?;
                for (c, got) in counts.iter().zip(r.as_array().unwrap()) {
                    t.transitions += 1;
                    t.execs += 1;
                    t.outcome("features");
                    if got[0].as_str().map(str::trim_end) != Some(labels(&b).as_str()) {
                        return Err(format!("wrong labels: {} for buckets {:?}", got[0], b));
                    }
                    if got[1] != json!(features(&b, c)) {
                        return Err(format!("wrong features: {} for counts {:?} and buckets {:?}", got[1], c, b));
                    }
                }
                Ok(())
            }
            "words" => {
                let alphabet = ['a', ' ', '\n', '\t', ')'];
                let (n, a): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                let mut texts = vec![alphabet[a].to_string()];
                for _ in 0..n {
                    texts = texts.iter().flat_map(|p| alphabet.iter().map(move |c| format!("{}{}", p, c))).collect();
                }
                let r = ask(json!({"op": "words", "texts": texts}))?;
                for (text, got) in texts.iter().zip(r.as_array().unwrap()) {
                    t.transitions += 1;
                    t.execs += 1;
                    t.outcome("word counts");
                    let want: String = word_counts(text).iter().map(|c| format!("{}\n", c)).collect();
                    if *got != json!(want) {
                        return Err(format!("wrong word counts: {} instead of {:?} for {:?}", got, want, text));
                    }
                }
                Ok(())
            }
            "wrapper" => wrapper(w[1].parse().unwrap(), t),
            _ => pipeline(w[1], w[2], &w[3..], t),
        }
    }
    fn rule(&self) -> &'static str {
        "every set of bucket limits out of 7 values (and the default) with every single and pair of word counts; every text of length up to 6 (thorough: 8) over 5 characters; the three scripts run one after the other on lists of up to three benchmarks with 10 names and 6 solver behaviours including timeouts with and without output, in a fresh directory and after an earlier run with longer outputs; the five scripts that run them on the sets of the competition"
    }
}

pub fn script(name: &str, args: &[&str], cwd: &std::path::Path, extra: Value) -> Result<Value, String> {
    let mut q = json!({"op": "main", "script": name, "args": args, "cwd": cwd});
    for (k, v) in extra.as_object().unwrap() {
        q[k] = v.clone();
    }
    ask(q)
}

pub fn must_succeed(r: Result<Value, String>, what: &str) -> Result<Value, String> {
    let r = r?;
    if r["code"] == 0 && r["error"].is_null() {
        Ok(r)
    } else {
        Err(format!("failed: {} ends with status {} {}", what, r["code"], r["error"]))
    }
}

/// The scripts for the sets of the competition: name, script it runs, set, are models searched for by size?
const WRAPPERS: [(&str, &str, &str, bool); 5] = [
    ("find_faster_fmf.sh", "find_faster_fmf.py", "experiments_QF_SLIA/benchmarks_QF_SLIA_30-to-300.csv", true),
    ("get_solver_output_fmf.sh", "get_solver_output.py", "experiments_QF_SLIA/benchmarks_QF_SLIA_30-to-300.csv", true),
    ("get_solver_output_no_fmf.sh", "get_solver_output.py", "experiments_QF_SLIA/benchmarks_QF_SLIA_300-to-1200.csv", false),
    ("get_solver_output_fmf_faster.sh", "get_solver_output.py", "experiments_CVC4_FMF/faster_fmf.csv", true),
    ("get_solver_output_fmf_slower.sh", "get_solver_output.py", "experiments_CVC4_FMF/slower_fmf.csv", true),
];

/// Each of these scripts runs the solver on the set it is documented for, with or without the option.
fn wrapper(i: usize, t: &mut Tally) -> Result<(), String> {
    let (name, runs, set, fmf) = WRAPPERS[i];
    let root = scratch().join("wrapper");
    let _ = std::fs::remove_dir_all(&root);
    let (cwd, bin, log) = (root.join("p/scripts"), root.join("bin"), root.join("log"));
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::create_dir_all(&bin).unwrap();
    std::fs::copy(scripts().join(name), cwd.join(name)).map_err(|e| format!("no script {}: {}", name, e))?;
    // Python is replaced by a program that only records its arguments
    for program in ["python3", "python"] {
        let f = bin.join(program);
        std::fs::write(&f, format!("#!/bin/sh\nfor a in \"$@\"; do echo \"$a\"; done > {0}.part; mv {0}.part {0}\n", log.display())).unwrap();
        std::fs::set_permissions(&f, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    }
    let path = format!("{}:{}", bin.display(), std::env::var("PATH").unwrap_or_default());
    let out = std::process::Command::new("bash").arg(name).current_dir(&cwd).env("PATH", path).stdin(std::process::Stdio::null()).output().unwrap();
    t.execs += 1;
    t.outcome("wrapper");
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
    while !log.exists() && std::time::Instant::now() < deadline {
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let text = std::fs::read_to_string(&log).map_err(|_| format!("nothing run: {} {:?}", name, out))?;
    let args: Vec<&str> = text.lines().skip_while(|a| a.starts_with('-')).collect();
    let sets = if runs == "find_faster_fmf.py" { vec![] } else { vec!["cvc4"] };
    let tidy = |a: &str| a.trim_end_matches('/').replace("//", "/");
    let mut want: Vec<String> = [runs].iter().chain(&sets).map(|a| a.to_string()).collect();
    want.push(format!("../SMT_Comp_2020/{}", set));
    want.push("../SMT_Comp_2020".into());
    if !fmf {
        want.push("--no-strings-fmf".into());
    }
    t.transitions += want.len() as u64;
    let _ = std::fs::remove_dir_all(&root);
    if args.iter().map(|a| tidy(a)).collect::<Vec<_>>() != want {
        return Err(format!("wrong run: {} runs {:?} instead of {:?}", name, args, want));
    }
    Ok(())
}

fn pipeline(solver: &str, end: &str, items: &[&str], t: &mut Tally) -> Result<(), String> {
    let root = scratch().join("words");
    let _ = std::fs::remove_dir_all(&root);
    let cwd = root.join("scripts");
    std::fs::create_dir_all(&cwd).unwrap();
    assert!(scripts().is_dir());
    let (program, nofmf) = (solver.split('-').next().unwrap(), solver.ends_with("nofmf"));
    let mut list: Vec<&str> = vec![];
    let mut programs = vec![];
    let mut want: Vec<Vec<i64>> = vec![];
    for it in items {
        let (n, o) = it.split_once(':').unwrap();
        let (n, o) = (NAMES[n.parse::<usize>().unwrap()], OUTS[o.parse::<usize>().unwrap()]);
        list.push(n);
        programs.push(json!({"name": program, "bench": format!("dir/../benchs{}", n), "secs": o.1, "out": o.0, "partial": o.2}));
        // output that is not cut by a timeout counts without surrounding white space
        let text = if o.1 > 10.0 { o.2.unwrap_or("") } else { o.0.trim() };
        want.push(features(&DEFAULT, &word_counts(text)));
    }
    let mut text = list.join("\n");
    if end != "nonl" && !list.is_empty() {
        text.push('\n');
    }
    std::fs::write(cwd.join("list"), text).unwrap();
    let mut args = vec![program, "list", "dir/../benchs"];
    if nofmf {
        args.push("--no-strings-fmf");
    }
    if end == "again" {
        // an earlier run has left longer files
        let old: Vec<Value> = list.iter().map(|n| json!({"name": program, "bench": format!("dir/../benchs{}", n), "secs": 1.0, "out": "a b c\n(x y)\n".repeat(40), "partial": None::<&str>})).collect();
        must_succeed(script("get_solver_output.py", &args, &cwd, json!({"programs": old})), "get_solver_output")?;
        must_succeed(script("get_word_counts.py", &[program, "list"], &cwd, json!({})), "get_word_counts")?;
        must_succeed(script("get_word_count_features.py", &[program, "qf_slia", "list"], &cwd, json!({})), "get_word_count_features")?;
        t.execs += 3;
    }
    let r = must_succeed(script("get_solver_output.py", &args, &cwd, json!({"programs": programs})), "get_solver_output")?;
    for call in r["log"].as_array().unwrap() {
        let fmf = call.as_array().unwrap().iter().any(|a| a == "--strings-fmf");
        if program == "cvc4" && fmf == nofmf {
            return Err(format!("wrong option: {} although fmf is {}", call, !nofmf));
        }
    }
    let calls: Vec<&str> = r["log"].as_array().unwrap().iter().map(|c| c.as_array().unwrap().last().unwrap().as_str().unwrap()).collect();
    let expect: Vec<String> = list.iter().map(|n| format!("dir/../benchs{}", n)).collect();
    if calls.iter().map(|c| c.replace("//", "/")).collect::<Vec<_>>() != expect {
        return Err(format!("wrong runs: {:?} instead of {:?}", calls, expect));
    }
    must_succeed(script("get_word_counts.py", &[program, "list"], &cwd, json!({})), "get_word_counts")?;
    must_succeed(script("get_word_count_features.py", &[program, "qf_slia", "list"], &cwd, json!({})), "get_word_count_features")?;
    let file = root.join(format!("{}_output/features/on_features_qf_slia_{}.csv", program, program));
    let got = std::fs::read_to_string(file).map_err(|e| format!("no output: {}", e))?;
    t.execs += 3;
    t.outcome("pipeline");
    let mut rows = vec![labels(&DEFAULT)];
    rows.extend(want.iter().map(|f| f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    t.transitions += rows.len() as u64;
    if got.lines().collect::<Vec<_>>() != rows {
        return Err(format!("wrong features: {:?} instead of {:?}", got, rows));
    }
    Ok(())
}
