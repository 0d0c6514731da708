//! The files of an experiment are read back as they were recorded (P08): data_processing.py,
//! pairwise_diff_count.sh.
use crate::py::{ask, scripts};
use mc::run::{scratch, Check, Sink, Tally};
use serde_json::{json, Value};

pub struct Experiments;

fn transformer(name: &str) -> std::path::PathBuf {
    scripts().join("../../amzn-smt-string-transformer").join(name)
}
const QUERIES: [&str; 4] = ["q", "b_in", "a-1", "q_transformed"];

/// (contents of a solver's output, result)
const OUTPUTS: [(Option<&str>, &str); 18] = [
    (None, "not_run"), (Some(""), "no_check_sat"), (Some("\n"), "no_check_sat"), (Some("\nsat\n"), "no_check_sat"),
    (Some("sat\n"), "sat"), (Some("sat"), "sat"), (Some("SAT\n"), "sat"), (Some("sat\n(model\n (define-fun a0 () String \"unsat\")\n)\n"), "sat"),
    (Some("unsat\n"), "unsat"), (Some("unsat\n(error \"line 3: no model\")\n"), "unsat"), (Some("unknown\n"), "unknown"), (Some("timeout\n"), "timeout"),
    (Some("(error \"line 1: sat\")\nsat\n"), "error"), (Some("(error"), "error"), (Some("\"\"\n"), "gnu_timeout"), (Some("\"\"\nsat\n"), "gnu_timeout"),
    (Some("sat: no model\n"), "sat: no model"), (Some("unsat\nsat\n"), "unsat"),
];
/// (output of time, seconds)
const TIMES: [(&str, f64); 9] = [
    ("0m0.000s", 0.0), ("0m0.003s", 0.003), ("0m9.500s", 9.5), ("0m59.999s", 59.999), ("1m0.000s", 60.0), ("1m1.250s", 61.25), ("10m10.001s", 610.001), ("59m59.999s", 3599.999), ("100m0.125s", 6000.125),
];
const COMMANDS: [&str; 3] = ["z3  ./", "cvc4-1.7 --lang=smtlib --strings-exp dir.d/sub/", "/opt/z3 -T:600 /data/"];
const SIZES: [Option<usize>; 6] = [None, Some(0), Some(1), Some(511), Some(4097), Some(70000)];
const MAPS: [(Option<&str>, i64); 9] = [
    (None, 0), (Some(""), 0), (Some("{"), 0), (Some("{}"), 0), (Some("{\"char_to_char_string_lits\":[]}"), 0), (Some("{\"char_to_char_string_lits\":[\"a\"]}"), 1),
    (Some("{\"string_map\":{\"a\":\"b\"},\"char_to_char_string_lits\":[\"a\",\"char_to_char_string_lits\",\"\\\"\"],\"char_map\":{\"a\":\"b\"}}"), 3), (Some("{\"char_to_char_string_lits\":[\"a\",\"b\"]"), 0), (Some("{\"string_map\":{\"char_to_char_string_lits\":\"x\"},\"char_map\":{}}"), 0),
];

fn items(function: &str, query: &str, items: &[Value]) -> Result<Vec<Value>, String> {
    let cwd = scratch().join("experiment");
    let _ = std::fs::remove_dir_all(&cwd);
    std::fs::create_dir_all(&cwd).unwrap();
    let res = ask(json!({"op": "experiment", "script": transformer("data_processing.py"), "function": function, "query": query, "cwd": cwd, "items": items}))?;
    let _ = std::fs::remove_dir_all(&cwd);
    Ok(res.as_array().unwrap().clone())
}

fn block(command: &str, user: &str, other: &str) -> Vec<String> {
    vec![format!("{}\n", command), "\n".into(), format!("real\t{}\n", other), format!("user\t{}\n", user), format!("sys\t{}\n", other)]
}

fn number(v: &Value) -> Option<f64> {
    v.as_f64()
}

impl Check for Experiments {
    fn id(&self) -> &'static str {
        "P08"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        for q in if thorough { 0..4 } else { 0..2 } {
            for a in 0..OUTPUTS.len() {
                sink(format!("results {} {}", q, a));
            }
            for a in 0..TIMES.len() {
                for b in 0..TIMES.len() {
                    sink(format!("times {} {} {}", q, a, b));
                }
            }
            for a in 0..SIZES.len() {
                sink(format!("sizes {} {}", q, a));
            }
            sink(format!("maps {}", q));
            // another command in one place, and everything cut at every line
            for c in 0..COMMANDS.len() {
                for j in 0..4 {
                    sink(format!("cut {} {} {}", q, c, j));
                }
            }
        }
        // the whole table: up to two (thorough: three) queries, each with one of these states, listed or found
        let states = STATES.len();
        for list in ["listed", "newline", "found"] {
            for a in 0..states {
                sink(format!("table {} {}", list, a));
                for b in 0..states {
                    sink(format!("table {} {} {}", list, a, b));
                    if thorough {
                        (0..states).step_by(3).for_each(|c| sink(format!("table {} {} {} {}", list, a, b, c)));
                    }
                }
            }
        }
        // directories of up to five transformed files with three kinds of contents
        for n in 0..if thorough { 6 } else { 5 } {
            for k in 0..3usize.pow(n) {
                sink(format!("diff {} {}", n, k));
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        if w[0] == "diff" {
            return diff(n(1), n(2), t);
        }
        if w[0] == "table" {
            return table(w[1], &w[2..].iter().map(|x| x.parse().unwrap()).collect::<Vec<_>>(), t);
        }
        let q = QUERIES[n(1)];
        let mut reqs = vec![];
        let mut want: Vec<Vec<Value>> = vec![];
        match w[0] {
            "results" => {
                let (a, ra) = OUTPUTS[n(2)];
                for (b, rb) in OUTPUTS {
                    for (c, rc) in OUTPUTS {
                        reqs.push(json!({"files": {format!("{}.out", q): a, format!("{}_transformed.out", q): b, format!("{}_recon_check.out", q): c}}));
                        want.push(vec![json!(ra), json!(rb), json!(rc)]);
                    }
                }
            }
            "times" => {
                let (a, b) = (TIMES[n(2)], TIMES[n(3)]);
                for (i, c) in TIMES.iter().enumerate() {
                    let cmd = COMMANDS[i % 3];
                    let other = TIMES[(n(2) + i + 1) % TIMES.len()].0;
                    let text: String = [block(&format!("{}{}.smtlib", cmd, q), a.0, other), block(&format!("./release/release/amzn-smt-string-transformer convert x/{}", q), b.0, other), block(&format!("{}{}_transformed.smtlib", cmd, q), c.0, other)].concat().concat();
                    reqs.push(json!({"files": {format!("{}_times.out", q): text}}));
                    want.push(vec![json!(a.1), json!(b.1), json!(c.1)]);
                }
            }
            "cut" => {
                let cmd = COMMANDS[n(2)];
                let name = |j: usize| if n(3) == j { "other" } else { q };
                let lines = [block(&format!("{}{}.smtlib", cmd, name(0)), "0m1.000s", "0m7.000s"), block(&format!("./amzn-smt-string-transformer convert x/{}", name(1)), "1m2.000s", "0m7.000s"), block(&format!("{}{}_transformed.smtlib", cmd, name(2)), "2m3.500s", "0m7.000s")].concat();
                let right = [1.0, 62.0, 123.5];
                for len in 0..=lines.len() {
                    let text = if len == 0 { None } else { Some(lines[..len].concat()) };
                    reqs.push(json!({"files": {format!("{}_times.out", q): text}}));
                    // what is after another command may be left out
                    want.push((0..3).map(|j| if len >= 5 * j + 4 && n(3) > j { json!(right[j]) } else if len >= 5 * j + 4 && n(3) < j { json!([right[j]]) } else { Value::Null }).collect());
                }
            }
            "sizes" => {
                let file = |s: Option<usize>| s.map(|n| "x".repeat(n));
                for b in SIZES {
                    for c in SIZES {
                        reqs.push(json!({"files": {format!("{}.smtlib", q): file(SIZES[n(2)]), format!("{}_transformed.smtlib", q): file(b), format!("{}_mapping.json", q): file(c)}}));
                        want.push([SIZES[n(2)], b, c].iter().map(|s| json!(s)).collect());
                    }
                }
            }
            _ => {
                for (m, count) in MAPS {
                    reqs.push(json!({"files": {format!("{}_mapping.json", q): m}}));
                    want.push(vec![json!(count)]);
                }
            }
        }
        let function = match w[0] {
            "results" => "get_SAT_results",
            "times" | "cut" => "get_timings",
            "sizes" => "get_filesizes",
            _ => "get_map_info",
        };
        let got = items(function, q, &reqs)?;
        t.execs += reqs.len() as u64;
        t.outcome(w[0]);
        for ((r, want), got) in reqs.iter().zip(&want).zip(&got) {
            let got = got.as_array().ok_or("wrong answer")?;
            t.transitions += want.len() as u64;
            let ok = got.len() == want.len()
                && got.iter().zip(want).all(|(g, w)| match w {
                    Value::Array(w) => g.is_null() || number(g) == number(&w[0]),
                    Value::Number(_) => match (number(g), number(w)) {
                        (Some(g), Some(w)) => (g - w).abs() < 1e-6,
                        _ => false,
                    },
                    w => g == w,
                });
            if !ok {
                return Err(format!("wrong {}: {} instead of {} for {}", w[0], json!(got), json!(want), r["files"].to_string().chars().take(300).collect::<String>()));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "the readers of data_processing.py on every combination of 18 contents of the three outputs of a query, of 9 recorded times of the three commands, of 6 sizes of the three files and on 9 mapping files; recorded times cut at every line and of other commands; pairwise_diff_count.sh on all directories of up to 4 (thorough: 5) transformed files with three contents: what is read is what was recorded, and nothing if nothing was; the whole table and its summary for all pairs (thorough: also triples) of 18 kinds of runs, with the queries listed in a file or found in the directory"
    }
}

/// results of the original and the transformed query and the times of both and of the transformation;
/// without a time the run was cut
const STATES: [(Option<&str>, Option<&str>, Option<f64>, Option<f64>, Option<f64>); 18] = [
    (Some("sat"), Some("sat"), Some(1.0), Some(0.5), Some(2.0)), (Some("unsat"), Some("unsat"), Some(3.0), Some(0.25), Some(8.0)), (Some("sat"), Some("unsat"), Some(1.5), Some(0.5), Some(1.0)), (Some("unsat"), Some("sat"), Some(2.0), Some(1.5), Some(70.0)),
    (Some("timeout"), Some("timeout"), Some(600.0), Some(0.5), Some(600.0)), (Some("timeout"), Some("sat"), Some(600.0), Some(0.5), Some(2.0)), (Some("sat"), Some("timeout"), Some(4.0), Some(0.5), Some(600.0)), (Some("timeout"), Some("unsat"), Some(600.5), Some(0.0), Some(0.0)),
    (Some(""), Some(""), Some(0.5), Some(0.5), Some(0.5)), (Some("sat"), Some("sat: no model"), Some(2.5), Some(2.0), Some(1.0)), (Some("unsat"), Some("sat: no model"), Some(2.5), Some(2.0), Some(1.0)), (Some(""), None, None, None, None),
    (Some("sat"), Some(""), Some(9.0), Some(0.75), None), (Some("unknown"), Some("sat"), Some(1.0), Some(0.5), Some(1.0)), (Some("(error"), Some("(error"), Some(1.0), Some(0.5), Some(0.25)), (Some("unsat"), None, Some(6.0), None, None),
    (None, Some("sat"), Some(1.25), Some(0.5), Some(30.0)), (Some("sat"), None, Some(5.0), Some(0.125), Some(0.0)),
];

/// The whole analysis of a directory, and its summary.
fn table(list: &str, states: &[usize], t: &mut Tally) -> Result<(), String> {
    if list == "found" && states.iter().all(|s| STATES[*s].0.is_none()) {
        return Ok(()); // there is nothing to analyse
    }
    let root = scratch().join("table");
    let _ = std::fs::remove_dir_all(&root);
    let dir = root.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let names: Vec<String> = (0..states.len()).map(|i| if list == "found" { format!("q{}_in", i) } else { format!("q{}", i) }).collect();
    let res = |r: Option<&'static str>, time: Option<f64>| -> &'static str { match (r, time) {
        (_, None) => "gnu_timeout",
        (Some(""), _) => "no_check_sat",
        (Some("(error"), _) => "error",
        (Some(r), _) => r,
        (None, _) => "not_run",
    } };
    let mut sizes: Vec<[Option<usize>; 3]> = vec![];
    for (name, i) in names.iter().zip(states) {
        let s = STATES[*i];
        let put = |suffix: &str, text: &str| std::fs::write(dir.join(format!("{}{}", name, suffix)), text).unwrap();
        let line = |r: &str| if r.is_empty() { String::new() } else { format!("{}\n", r) };
        if let Some(r) = s.0 {
            put(".out", &line(r));
        }
        if let Some(r) = s.1 {
            put("_transformed.out", &line(r));
        }
        let mut times = String::new();
        for (cmd, time) in [(format!("z3 ./{}.smtlib", name), s.2), (format!("./tool convert ./{}", name), s.3), (format!("z3 ./{}_transformed.smtlib", name), s.4)] {
            if let Some(x) = time {
                times.push_str(&block(&cmd, &format!("{}m{:.3}s", (x / 60.0) as u64, x % 60.0), "0m7.000s").concat());
            }
        }
        put("_times.out", &times);
        let size = [Some(10 + times.len()), s.1.map(|_| i * 7), s.3.map(|_| 2 + i % 3)];
        for (n, suffix) in size.iter().zip([".smtlib", "_transformed.smtlib", "_mapping.json"]) {
            if let Some(n) = n {
                put(suffix, &"x".repeat(*n));
            }
        }
        sizes.push(size);
    }
    // a file that is not of the experiment
    std::fs::write(dir.join("notes"), "sat\n").unwrap();
    let mut args = vec![dir.to_str().unwrap().to_string()];
    if list != "found" {
        let mut text = names.iter().map(|n| format!("{}.smtlib", n)).collect::<Vec<_>>().join("\n");
        if list == "newline" && !names.is_empty() {
            text.push('\n');
        }
        std::fs::write(root.join("list"), text).unwrap();
        args.push(root.join("list").to_str().unwrap().into());
    }
    let v = ask(json!({"op": "table", "script": transformer("data_processing.py"), "args": args, "cwd": root}))?;
    let _ = std::fs::remove_dir_all(&root);
    t.execs += 1;
    if v["beyond"].is_string() {
        t.outcome("table beyond the stand-in for pandas");
        return Ok(());
    }
    t.outcome("table");
    // without a list, queries are found by the output of the original
    let names: Vec<String> = names.into_iter().enumerate().filter(|(i, _)| list != "found" || STATES[states[*i]].0.is_some()).map(|(_, n)| n).collect();
    // rows in the order of the table
    let got_names: Vec<&str> = v["table"]["query"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let mut sorted = got_names.clone();
    sorted.sort_unstable();
    if sorted != names.iter().map(String::as_str).collect::<Vec<_>>() || (list != "found" && got_names != sorted) {
        return Err(format!("wrong queries: {:?} instead of {:?}", got_names, names));
    }
    let at = |n: &str| n.trim_start_matches('q').trim_end_matches("_in").parse::<usize>().unwrap();
    let rows: Vec<_> = got_names.iter().map(|n| STATES[states[at(n)]]).collect();
    let col = |f: &dyn Fn(&(Option<&'static str>, Option<&'static str>, Option<f64>, Option<f64>, Option<f64>)) -> Value| Value::Array(rows.iter().map(f).collect());
    for (c, want) in [
        ("orig_res", col(&|s| json!(res(s.0, s.2)))), ("trans_res", col(&|s| json!(res(s.1, s.4)))),
        ("orig_solver_time", col(&|s| json!(s.2))), ("convert_time", col(&|s| json!(s.3))), ("trans_solver_time", col(&|s| json!(s.4))),
    ] {
        t.transitions += rows.len() as u64;
        if v["table"][c] != want {
            return Err(format!("wrong table: {} is {} instead of {}", c, v["table"][c], want));
        }
    }
    let sizes: Vec<_> = got_names.iter().map(|n| sizes[at(n)]).collect();
    for (k, c) in ["orig_size", "trans_size", "map_size"].iter().enumerate() {
        let want: Value = sizes.iter().map(|s| json!(s[k])).collect();
        if v["table"][c] != want {
            return Err(format!("wrong table: {} is {} instead of {}", c, v["table"][c], want));
        }
    }
    // queries that were not run do not count
    let (rows, sizes): (Vec<_>, Vec<_>) = rows.into_iter().zip(sizes).filter(|(s, _)| res(s.0, s.2) != "not_run").unzip();
    // what is summarised: cut runs took the whole time
    let count = |f: &dyn Fn(&str, &str) -> bool| rows.iter().filter(|s| f(res(s.0, s.2), res(s.1, s.4))).count() as f64;
    let gnu = "gnu_timeout";
    let counts: Vec<(&str, f64)> = vec![
        ("no_check_sat", count(&|a, _| a == "no_check_sat")),
        ("all_gnup_timeout", count(&|a, b| a == gnu && b == gnu)),
        ("trans_only_gnup_timeout", count(&|a, b| a != gnu && b == gnu)),
        ("both_unsat", count(&|a, b| a == "unsat" && b == "unsat")),
        ("both_sat", count(&|a, b| a == "sat" && (b == "sat" || b == "sat: no model"))),
        ("sat_no_model", count(&|_, b| b == "sat: no model")),
        ("both_timeout", count(&|a, b| a == "timeout" && b == "timeout")),
        ("orig_only_timeout", count(&|a, b| a == "timeout" && b != "timeout")),
        ("trans_only_timeout", count(&|a, b| a != "timeout" && b == "timeout")),
        ("orig_sat_trans_unsat", count(&|a, b| a == "sat" && b == "unsat")),
        ("orig_unsat_trans_sat", count(&|a, b| a == "unsat" && b == "sat")),
    ];
    let stats = |xs: Vec<f64>| {
        let n = xs.len() as f64;
        if xs.len() < 2 {
            return (xs.first().copied().unwrap_or(f64::NAN), f64::NAN);
        }
        let m = xs.iter().sum::<f64>() / n;
        (m, (xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0)).sqrt())
    };
    let whole = |x: Option<f64>| x.unwrap_or(3600.0);
    let (o, c, r) = (stats(rows.iter().map(|s| whole(s.2)).collect()), stats(rows.iter().filter_map(|s| s.3).collect()), stats(rows.iter().map(|s| whole(s.4)).collect()));
    let times = vec![("orig_avg_time", o.0), ("orig_stdev_time", o.1), ("trans_avg_time", r.0), ("trans_stdev_time", r.1), ("convert_avg_time", c.0), ("convert_stdev_time", c.1)];
    let mut bytes = vec![];
    for (k, (a, b)) in [("orig_avg_size", "orig_stdev_size"), ("trans_avg_size", "trans_stdev_size"), ("map_avg_size", "map_stdev_size")].iter().enumerate() {
        let (x, y) = stats(sizes.iter().filter_map(|s| s[k].map(|n| n as f64)).collect());
        bytes.extend([(*a, x), (*b, y)]);
    }
    for (i, want) in [counts, times, bytes].iter().enumerate() {
        let names = v["rows"][i].as_array().unwrap();
        let vals = v["summary"][i].as_object().unwrap().values().next().and_then(|c| c.as_array()).cloned().unwrap_or_default();
        for (k, x) in want {
            t.transitions += 1;
            let got = names.iter().position(|n| n == k).and_then(|at| vals.get(at)).ok_or(format!("wrong summary: no {}", k))?.as_f64();
            if got.is_none() != x.is_nan() || got.map_or(false, |g| (g - x).abs() > 1e-6) {
                return Err(format!("wrong summary: {} is {:?} instead of {}", k, got, x));
            }
        }
    }
    Ok(())
}

/// every transformed file is counted with those that are equal to it
fn diff(n: usize, k: usize, t: &mut Tally) -> Result<(), String> {
    let root = scratch().join("diff");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let kind: Vec<usize> = (0..n).map(|i| k / 3usize.pow(i as u32) % 3).collect();
    let file = |i: usize| root.join(format!("q{}_transformed.smtlib", i));
    for (i, c) in kind.iter().enumerate() {
        std::fs::write(file(i), ["", "(check-sat)\n", "(check-sat)"][*c]).unwrap();
    }
    std::fs::write(root.join("q0.smtlib"), "(check-sat)\n").unwrap();
    let out = std::process::Command::new("bash").arg(transformer("pairwise_diff_count.sh")).arg(&root).output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    t.execs += 1;
    t.outcome("diff");
    for i in 0..n {
        t.transitions += 1;
        let count = kind.iter().filter(|c| **c == kind[i]).count();
        let line = format!("{} : {}", file(i).display(), count);
        if text.lines().filter(|l| l.split_whitespace().collect::<Vec<_>>().join(" ") == line).count() != 1 {
            return Err(format!("wrong count: no line \"{}\" in {:?}", line, text));
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}
