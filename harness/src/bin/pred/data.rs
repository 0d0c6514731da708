//! Training data: fastest solvers (P05) and selection of benchmarks (P07).
use crate::predict::{bound_bits, bound_slack, layout};
use crate::words::{must_succeed, script};
use mc::run::{Check, Sink, Tally};
use num_bigint::BigInt;
use serde_json::json;

const TIMES: [f64; 8] = [0.25, 3.0, 4.5, 6.0, 150.0, 299.5, 300.5, 4000.0];

pub struct Fastest;

fn printed(n: usize) -> (String, String) {
    let p: Vec<BigInt> = [n + 1, 2 * n + 1, 1, 3 * n, 0, 2].iter().map(|x| BigInt::from(*x)).collect();
    let mut v = p.clone();
    v.push(bound_bits(&p));
    let line = format!("Partition 'x': stats: Stats {{ vars: {}, constraints: {}, a_max: {}, b_max: {}, k: {}, w: {} }}, bound: {} bits\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    (line, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

impl Check for Fastest {
    fn id(&self) -> &'static str {
        "P05"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        // every combination of the three runtimes; several benchmarks per run of the script
        for a in 0..8 {
            for b in 0..8 {
                let row: Vec<String> = (0..8).map(|c| format!("{}{}{}", a, b, c)).collect();
                sink(format!("race {}", row.join(" ")));
            }
        }
        // results files: columns in every order, all orders of three benchmarks
        let orders = ["cvc4,z3,sat", "z3,cvc4,sat", "sat,z3,cvc4", "cvc4,sat,z3", "z3,sat,cvc4", "sat,cvc4,z3"];
        let perms = ["012", "021", "102", "120", "201", "210"];
        for theory in ["idl", "lia"] {
            for o in orders {
                for p in perms {
                    for sets in if thorough { &["111", "123", "321", "212", "113", "131"][..] } else { &["111", "123", "231"] } {
                        for times in ["012", "201", "110", "777"] {
                            for profile in 0..3 {
                                sink(format!("table {} {} {} {} {} {}", theory, o, p, sets, times, profile));
                            }
                        }
                    }
                }
            }
        }
        sink("missing".into());
        sink("badbound".into());
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        t.execs += 1;
        match w[0] {
            "race" => race(&w[1..], t),
            _ => table(&w, t),
        }
    }
    fn rule(&self) -> &'static str {
        "the racing script under a virtual clock with every combination of 8 runtimes of the three solvers; the cleaning script on results tables with every column order, benchmark order, number of partitions, ties and three profiles of parameters: label and feature row of every benchmark compared with the expected ones"
    }
}

fn race(items: &[&str], t: &mut Tally) -> Result<(), String> {
    let (_, cwd) = layout();
    for s in ["cvc4", "z3", "amzn-smt-eager-arithmetic"] {
        std::fs::write(cwd.join("../solvers").join(s), "").unwrap();
    }
    let mut list = String::new();
    let mut programs = vec![];
    let mut want = vec![];
    for (i, it) in items.iter().enumerate() {
        let d: Vec<f64> = it.chars().map(|c| TIMES[c.to_digit(10).unwrap() as usize]).collect();
        let name = format!("d/b{}.smt2", i);
        list.push_str(&format!("/{}\n", name));
        let path = format!("bench/{}", name);
        let (stats, row) = printed(i);
        for (s, secs) in ["z3", "cvc4", "amzn-smt-eager-arithmetic"].iter().zip(&d) {
            let out = if s.starts_with('a') { format!("Solving\n{}sat\n", stats) } else { "sat\n".into() };
            programs.push(json!({"name": s, "bench": path, "secs": secs, "out": out, "partial": out}));
        }
        let best = d.iter().copied().fold(f64::INFINITY, f64::min);
        // the solvers that are fastest, if one of them is fast enough
        let labels: Vec<&str> = if best > 300.0 {
            vec!["None"]
        } else {
            ["z3", "cvc4", "sat"].iter().zip(&d).filter(|x| *x.1 == best).map(|x| *x.0).collect()
        };
        want.push((labels, row, d));
    }
    std::fs::write(cwd.join("list"), list).unwrap();
    let r = must_succeed(script("run_eager_v_lazy.py", &["list", "bench"], &cwd, json!({"programs": programs})), "run_eager_v_lazy")?;
    t.outcome("race");
    let read = |f: &str| std::fs::read_to_string(cwd.join(f)).map(|s| s.lines().map(str::to_string).collect::<Vec<_>>()).unwrap_or_default();
    let (fastest, feats) = (read("fastest_solver.csv"), read("features.csv"));
    if fastest.len() != want.len() || feats.len() != want.len() {
        return Err(format!("wrong rows: {} labels and {} feature rows for {} benchmarks", fastest.len(), feats.len(), want.len()));
    }
    for (i, (labels, row, d)) in want.iter().enumerate() {
        t.transitions += 1;
        if !labels.contains(&fastest[i].as_str()) {
            return Err(format!("wrong label: {} for runtimes {:?} of z3, cvc4 and sat", fastest[i], d));
        }
        if feats[i] != *row {
            return Err(format!("wrong features: {} instead of {}", feats[i], row));
        }
    }
    for call in r["log"].as_array().unwrap() {
        if call[0].as_str().unwrap().ends_with("eager-arithmetic") && !call.as_array().unwrap().iter().any(|a| a == "--instance") {
            return Err(format!("wrong call: {} does not match the tool's usage", call));
        }
    }
    Ok(())
}

fn table(w: &[&str], t: &mut Tally) -> Result<(), String> {
    let (root, cwd) = layout();
    let dir = root.join("amzn-smt-prediction/Eager_Lazy");
    std::fs::create_dir_all(&dir).unwrap();
    let theory = w.get(1).copied().unwrap_or("idl");
    let order: Vec<&str> = w.get(2).copied().unwrap_or("cvc4,z3,sat").split(',').collect();
    let perm: Vec<usize> = w.get(3).copied().unwrap_or("012").chars().map(|c| c.to_digit(10).unwrap() as usize).collect();
    let sets: Vec<usize> = w.get(4).copied().unwrap_or("111").chars().map(|c| c.to_digit(10).unwrap() as usize).collect();
    let shift: Vec<usize> = w.get(5).copied().unwrap_or("012").chars().map(|c| c.to_digit(10).unwrap() as usize).collect();
    let times = ["0.5", "10.25", "9.75", "3600", "1e1", "100", "99.999", "3600"];
    let mut results = format!("bench,{}\n", order.join(","));
    let mut best = vec!["solver".to_string()];
    let mut ties: Vec<Vec<&str>> = vec![vec![]];
    // in the last profile names end in one another
    let names = if w.get(6) == Some(&"2") { ["b1.smt2", "xb1.smt2", "2-xb1.smt2"] } else { ["b1.smt2", "b.2 x.smt2", "bits.smt2"] };
    for i in 0..3 {
        let ts: Vec<&str> = (0..3).map(|j| if shift[j] == 7 { "3600" } else { times[(shift[j] + i) % 3] }).collect();
        results.push_str(&format!("{},{}\n", names[i], ts.join(",")));
        let num = |x: &str| x.parse::<f64>().unwrap();
        let min = ts.iter().map(|x| num(x)).fold(f64::INFINITY, f64::min);
        ties.push((0..3).filter(|j| num(ts[*j]) == min).map(|j| order[j]).collect());
        best.push(String::new());
    }
    let mut params = String::new();
    let mut feats: Vec<(usize, String)> = vec![];
    let mut slacks = [0i64; 3];
    for i in &perm {
        if w[0] == "missing" && *i == 1 {
            continue;
        }
        params.push_str(&format!("Encoding /home/x y/QF_IDL/sub/{}\n", names[*i]));
        let mut all: Vec<Vec<BigInt>> = vec![];
        for j in 0..sets[*i] {
            let mut p: Vec<BigInt> = if w.get(6) == Some(&"1") {
                [9 - 2 * j - i, 4 + 3 * j + i, 5 - j, 85 * (i + 1) - 7 * j, [1, 2, 1][j], [2, 3, 1][j]]
            } else if w.get(6) == Some(&"2") {
                // far more variables than constraints
                [40 + i + 3 * j, 1 + i, 1, 9 + 3 * i + j, 0, 2]
            } else {
                [3 + i + j, 10 + 3 * i, 1 + j, 85 * (i + 1), if j == 1 { 2 } else { 0 }, 2]
            }.iter().map(|x| BigInt::from(*x)).collect();
            let mut b = bound_bits(&p);
            if w[0] == "badbound" && *i == 2 {
                b += 5;
            }
            p.push(b);
            params.push_str(&format!("vars: {}, constraints: {}, a_max: {}, b_max: {}, k: {}, w: {}, bound: {} bits\n", p[0], p[1], p[2], p[3], p[4], p[5], p[6]));
            all.push(p);
        }
        let mut f = all[0].clone();
        let mut slack = 0;
        if all.len() > 1 {
            for k in 0..6 {
                f[k] = if [0, 1, 4].contains(&k) { all.iter().map(|p| p[k].clone()).sum() } else { all.iter().map(|p| p[k].clone()).max().unwrap() };
            }
            f[6] = bound_bits(&f[..6]);
            slack = bound_slack(&f[..6]).to_string().parse().unwrap();
        }
        slacks[*i] = slack;
        feats.push((*i, f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
    std::fs::write(dir.join(format!("{}_results.csv", theory)), results).unwrap();
    std::fs::write(dir.join(format!("{}_params.out", theory)), params).unwrap();
    let r = script("clean_eager_lazy_data.py", &[theory], &cwd, json!({}));
    if w[0] != "table" {
        let r = r?;
        t.outcome("error");
        return if r["code"] == 0 { Err("failure not reported: status 0".into()) } else { Ok(()) };
    }
    must_succeed(r, "clean_eager_lazy_data")?;
    t.outcome("table");
    let read = |f: &str| std::fs::read_to_string(dir.join(format!("{}_{}.csv", f, theory))).map(|s| s.lines().map(str::to_string).collect::<Vec<_>>()).unwrap_or_default();
    let (b, s, f) = (read("benchmarks"), read("best_solver"), read("features"));
    if b != ["benchmarks", names[0], names[1], names[2]] {
        return Err(format!("wrong benchmarks: {:?}", b));
    }
    if s.len() != 4 || f.len() != 4 || s[0] != "solver" || f[0] != "vars,constraints,a_max,b_max,k,w,bound" {
        return Err(format!("wrong rows: {:?} {:?}", s, f));
    }
    for i in 0..3 {
        t.transitions += 1;
        if !ties[i + 1].contains(&s[i + 1].as_str()) {
            return Err(format!("wrong label: {} instead of one of {:?}", s[i + 1], ties[i + 1]));
        }
        let want = &feats.iter().find(|x| x.0 == i).unwrap().1;
        let (gw, ww): (Vec<&str>, Vec<&str>) = (f[i + 1].split(',').collect(), want.split(',').collect());
        let close = gw.len() == 7 && gw[..6] == ww[..6] && (gw[6].parse::<i64>().unwrap_or(-9) - ww[6].parse::<i64>().unwrap()).abs() <= slacks[i];
        if !close {
            return Err(format!("wrong features: {} instead of {} for {}", f[i + 1], want, names[i]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P07
pub struct Selection;

const COMP_TIMES: [&str; 14] = ["0", "29.99", "30", "30.0", "45.5", "299.99", "300", "300.1", "329.99", "330", "331.5", "600", "1199.9", "1e2"];
const PATHS: [&str; 8] = [
    "x/QF_SLIA/2019-full_str_int/a/b.smt2", "x/QF_SLIA/2019-Jiang/c.smt2", "x/QF_SLIA/2018-Kepler/k.smt2",
    "x/QF_SLIA/20180523-Reynolds/PyEx/peterc-pyex-doc-cav17-z3/d.smt2", "x/QF_SLIA/20180523-Reynolds/PyEx/other/e.smt2",
    "x/QF_S/2019-full_str_int/f.smt2", "x", "x/QF_SLIA/g.smt2",
];

impl Check for Selection {
    fn id(&self) -> &'static str {
        "P07"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        for excluded in ["none", "disagree", "excluded", "both"] {
            for solver in ["CVC4-sq-final", "Z3str4 SMTCOMP2020 v1.1", "CVC4-sq-final2"] {
                for p in 0..PATHS.len() {
                    for q in 0..if thorough { PATHS.len() } else { 1 } {
                        sink(format!("comp {} {} {} {}", excluded, solver.replace(' ', "~"), p, q));
                    }
                }
            }
        }
        // all lists of up to 3 benchmarks for the fmf experiment, every pair of runtimes
        let ts = [0usize, 1, 4, 5, 6, 7];
        for a in ts {
            for b in ts {
                sink(format!("fmf {}{}", a, b));
                for c in ts {
                    for d in ts {
                        sink(format!("fmf {}{} {}{}", a, b, c, d));
                    }
                }
            }
        }
        let names = ["a", "a.b", "d/e", "x.smt2", "s_upt", "v1.0/q"];
        for a in names {
            for e in ["smt2", "smtlib"] {
                for nl in ["nl", "nonl"] {
                    sink(format!("modern {} {}.{}", nl, a, e));
                    for b in names {
                        if a != b {
                            sink(format!("modern {} {}.{} {}.smt2", nl, a, e, b));
                        }
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        t.execs += 1;
        match w[0] {
            "comp" => comp(w[1], &w[2].replace('~', " "), w[3].parse().unwrap(), w[4].parse().unwrap(), t),
            "fmf" => fmf(&w[1..], t),
            _ => modern(w[1], &w[2..], t),
        }
    }
    fn rule(&self) -> &'static str {
        "competition results with 8 paths x 3 solvers x 14 runtimes around every limit (and timeouts) x exclusion lists; the fmf experiment on one and two benchmarks with every pair of runtimes under a virtual clock; modernisation of lists of one and two benchmarks with 6 names"
    }
}

fn read_lines(p: std::path::PathBuf) -> Vec<String> {
    std::fs::read_to_string(p).map(|s| s.lines().map(str::to_string).collect()).unwrap_or_default()
}

fn comp(excluded: &str, solver: &str, p: usize, q: usize, t: &mut Tally) -> Result<(), String> {
    let (root, cwd) = layout();
    let dir = root.join("amzn-smt-prediction/SMT_Comp_2020");
    for d in ["excluded_benchmarks", "experiments_QF_SLIA"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    let name = |i: usize| PATHS[i].split_once('/').map_or("", |x| x.1);
    let listed = |on: bool| if on { format!("QF_SLIA/other.smt2\n{}\n", name(p)) } else { "QF_SLIA/other.smt2\n".into() };
    std::fs::write(dir.join("excluded_benchmarks/disagreements_SLIA"), listed(excluded == "disagree" || excluded == "both")).unwrap();
    std::fs::write(dir.join("excluded_benchmarks/excluded_SLIA"), listed(excluded == "excluded" || excluded == "both")).unwrap();
    let mut csv = String::from("pair id,benchmark,benchmark id,solver,solver id,configuration,configuration id,status,cpu time,wallclock time,memory usage,result,expected\n");
    // (benchmark, runtime) of the quick and of the slow set
    let mut want: [Vec<(String, f64)>; 2] = [vec![], vec![]];
    let mut row = |path: usize, s: &str, status: &str, wall: &str| {
        // the processor time must play no role
        csv.push_str(&format!("1,{},2,{},3,default,4,{},31.5,{},1000,sat,sat\n", PATHS[path], s, status, wall));
        let secs: f64 = if status == "complete" { wall.parse().unwrap() } else { 1200.0 };
        if matches!(path, 0 | 1 | 3) && s == "CVC4-sq-final" && !(path == p && excluded != "none") {
            let b = format!("/non-incremental/{}", name(path));
            if (30.0..300.0).contains(&secs) {
                want[0].push((b, secs));
            } else if secs >= 330.0 {
                want[1].push((b, secs - 300.0));
            }
        }
    };
    for (i, wall) in COMP_TIMES.iter().enumerate() {
        row(p, solver, "complete", wall);
        row(q, "CVC4-sq-final", "complete", COMP_TIMES[(i * 5 + 3) % COMP_TIMES.len()]);
    }
    row(p, solver, "timeout (wallclock)", "1200.07");
    row(q, "CVC4-sq-final", "timeout (wallclock)", "10");
    drop(row);
    // a result with a status that is not known stops the selection
    for (at, status) in [(1, "memout"), (csv.lines().count(), "timeout (cpu)"), (csv.lines().count(), "")] {
        let mut lines: Vec<String> = csv.lines().map(String::from).collect();
        lines.insert(at, format!("1,{},2,CVC4-sq-final,3,default,4,{},31.5,50,1000,sat,sat", PATHS[0], status));
        std::fs::write(dir.join("Job_info_orig.csv"), lines.join("\n") + "\n").unwrap();
        if must_succeed(script("clean_smt_comp_results.py", &[], &cwd, json!({})), "").is_ok() {
            return Err(format!("accepted: a result with the unknown status {:?}", status));
        }
        t.execs += 1;
        t.outcome("unknown status");
    }
    std::fs::write(dir.join("Job_info_orig.csv"), &csv).unwrap();
    must_succeed(script("clean_smt_comp_results.py", &[], &cwd, json!({})), "clean_smt_comp_results")?;
    t.outcome("selection");
    for (i, range) in ["30-to-300", "300-to-1200"].iter().enumerate() {
        let f = |k: &str| read_lines(dir.join(format!("experiments_QF_SLIA/{}_QF_SLIA_{}.csv", k, range)));
        let (b, times) = (f("benchmarks"), f("times"));
        t.transitions += csv.lines().count() as u64;
        let names: Vec<&str> = want[i].iter().map(|x| x.0.as_str()).collect();
        if b != names {
            return Err(format!("wrong selection: {:?} instead of {:?} in {}", b, names, range));
        }
        let got: Vec<f64> = times.iter().skip(1).map(|x| x.parse().unwrap_or(f64::NAN)).collect();
        if times.first().map(String::as_str) != Some("time") || got.len() != b.len() || got.iter().zip(&want[i]).any(|(g, w)| (g - w.1).abs() > 1e-6) {
            return Err(format!("wrong times: {:?} instead of {:?}", times, want[i]));
        }
    }
    Ok(())
}

fn fmf(items: &[&str], t: &mut Tally) -> Result<(), String> {
    let (_, cwd) = layout();
    let mut list = String::new();
    let mut programs = vec![];
    let (mut faster, mut slower, mut times) = (vec![], vec![], vec![]);
    for (i, it) in items.iter().enumerate() {
        let d: Vec<f64> = it.chars().map(|c| TIMES[c.to_digit(10).unwrap() as usize]).collect();
        let name = format!("s.mt/b{}2.smt2", i);
        list.push_str(&format!("/{}\n", name));
        let path = format!("bench/{}", name);
        programs.push(json!({"name": "cvc4", "args": ["--strings-fmf"], "bench": path, "secs": d[0], "out": "sat"}));
        programs.push(json!({"name": "cvc4", "bench": path, "secs": d[1], "out": "sat"}));
        let (a, b) = (d[0].min(300.0), d[1].min(300.0));
        if a < b { faster.push(name) } else { slower.push(name) }
        times.push((a, b));
    }
    std::fs::write(cwd.join("list"), list).unwrap();
    must_succeed(script("find_faster_fmf.py", &["list", "bench"], &cwd, json!({"programs": programs})), "find_faster_fmf")?;
    t.outcome("fmf experiment");
    t.transitions += items.len() as u64;
    if read_lines(cwd.join("faster_fmf.csv")) != faster || read_lines(cwd.join("slower_fmf.csv")) != slower {
        return Err(format!("wrong selection: {:?} and {:?} for runtimes {:?}", read_lines(cwd.join("faster_fmf.csv")), read_lines(cwd.join("slower_fmf.csv")), times));
    }
    let got: Vec<Vec<f64>> = read_lines(cwd.join("runtimes_fmf_exp.csv")).iter().map(|l| l.split(',').map(|x| x.parse().unwrap_or(f64::NAN)).collect()).collect();
    let ok = got.len() == times.len() && got.iter().zip(&times).all(|(g, w)| g.len() == 2 && (g[0] - w.0).abs() < 1e-6 && (g[1] - w.1).abs() < 1e-6);
    if ok { Ok(()) } else { Err(format!("wrong runtimes: {:?} instead of {:?}", got, times)) }
}

fn modern(end: &str, files: &[&str], t: &mut Tally) -> Result<(), String> {
    let (root, cwd) = layout();
    let mut list = vec![];
    for (i, f) in files.iter().enumerate() {
        let (base, ext) = f.rsplit_once('.').unwrap();
        let path = root.join("bench").join(f);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, format!("(set-logic QF_S)(declare-const x{} String)(assert (= x{} (int.to.str 1)))\n", i, i)).unwrap();
        list.push(format!("/{}_upt.{}", base, ext));
    }
    let mut text = list.join("\n");
    if end == "nl" {
        text.push('\n');
    }
    std::fs::write(cwd.join("list"), text).unwrap();
    let prefix = root.join("bench");
    must_succeed(script("modernize_benchmarks.py", &["list", prefix.to_str().unwrap()], &cwd, json!({"real": ["amzn-smt-string-fct-updater"], "programs": []})), "modernize_benchmarks")?;
    t.outcome("modernised");
    t.transitions += files.len() as u64;
    for (i, l) in list.iter().enumerate() {
        let out = std::fs::read_to_string(root.join("bench").join(&l[1..])).unwrap_or_default();
        if !out.contains(&format!("x{} ", i)) || !out.contains("str.from_int") {
            return Err(format!("not modernised: {} is {:?}", l, out));
        }
    }
    Ok(())
}
