//! Offline features: the command line tool's counts of string operators (P01, P02).
use mc::run::{scratch, Check, Sink, Tally};
use mc::sexp::{parse, Sx};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::process::{Command, Stdio};

const COLUMNS: [(&str, &str); 35] = [
    ("str_concat", "str.++"), ("len", "str.len"), ("lex_ord", "str.<"), ("to_re", "str.to_re"), ("in_re", "str.in_re"),
    ("re_none", "re.none"), ("re_all", "re.all"), ("re_all_char", "re.allchar"), ("re_concat", "re.++"), ("re_union", "re.union"),
    ("re_intersect", "re.inter"), ("re_kleene_star", "re.*"), ("ref_clos_lex_ord", "str.<="), ("sing_str_at", "str.at"),
    ("substr", "str.substr"), ("prefix_of", "str.prefixof"), ("suffix_of", "str.suffixof"), ("contains", "str.contains"),
    ("index_of", "str.indexof"), ("replace", "str.replace"), ("replace_all", "str.replace_all"), ("replace_re", "str.replace_re"),
    ("replace_re_all", "str.replace_re_all"), ("re_compl", "re.comp"), ("re_diff", "re.diff"), ("re_kleene_cross", "re.+"),
    ("re_opt", "re.opt"), ("re_range", "re.range"), ("re_pow", "re.^"), ("re_loop", "re.loop"), ("is_digit", "str.is_digit"),
    ("to_code", "str.to_code"), ("from_code", "str.from_code"), ("to_int", "str.to_int"), ("from_int", "str.from_int"),
];
const SMTCOMP: &str = "str_concat,len,to_re,in_re,re_concat,re_union,re_kleene_star,sing_str_at,substr,prefix_of,contains,index_of,replace,re_kleene_cross,re_range,to_int,from_int";

fn header(dataset: &str) -> Vec<&'static str> {
    match dataset {
        "smtcomp" | "script" => SMTCOMP.split(',').collect(),
        "kepler" => vec!["str_concat", "len"],
        _ => COLUMNS.iter().map(|c| c.0).collect(),
    }
}

/// Occurrences of a symbol in the assertions of a script, as written.
fn occurrences(cmds: &[Sx], op: &str) -> u64 {
    fn go(x: &Sx, op: &str) -> u64 {
        match x {
            Sx::Atom(a) => u64::from(a == op),
            Sx::Str(_) => 0,
            Sx::List(l) => l.iter().map(|y| go(y, op)).sum(),
        }
    }
    cmds.iter().filter(|c| c.head() == Some("assert")).map(|c| go(c, op)).sum()
}

pub fn expected_row(text: &str, dataset: &str) -> Result<String, String> {
    let cmds = parse(text)?;
    let row: Vec<String> = header(dataset)
        .iter()
        .map(|c| occurrences(&cmds, COLUMNS.iter().find(|(n, _)| n == c).unwrap().1).to_string())
        .collect();
    Ok(row.join(","))
}

const OPS: [(&str, &str, char); 64] = [
    ("str.++", "SS", 'S'), ("str.++", "SSS", 'S'), ("str.len", "S", 'I'), ("str.<", "SS", 'B'), ("str.<=", "SS", 'B'),
    ("str.to_re", "S", 'R'), ("str.in_re", "SR", 'B'), ("str.at", "SI", 'S'), ("str.substr", "SII", 'S'),
    ("str.prefixof", "SS", 'B'), ("str.suffixof", "SS", 'B'), ("str.contains", "SS", 'B'), ("str.indexof", "SSI", 'I'),
    ("str.replace", "SSS", 'S'), ("str.replace_all", "SSS", 'S'), ("str.replace_re", "SRS", 'S'),
    ("str.replace_re_all", "SRS", 'S'), ("str.is_digit", "S", 'B'), ("str.to_code", "S", 'I'), ("str.from_code", "I", 'S'),
    ("str.to_int", "S", 'I'), ("str.from_int", "I", 'S'),
    ("re.++", "RR", 'R'), ("re.++", "RRR", 'R'), ("re.union", "RR", 'R'), ("re.union", "RRR", 'R'), ("re.inter", "RR", 'R'),
    ("re.*", "R", 'R'), ("re.+", "R", 'R'), ("re.opt", "R", 'R'), ("re.comp", "R", 'R'), ("re.diff", "RR", 'R'),
    ("re.range", "SS", 'R'), ("(_ re.^ 2)", "R", 'R'), ("(_ re.loop 1 3)", "R", 'R'),
    ("+", "III", 'I'), ("-", "II", 'I'), ("*", "II", 'I'), ("div", "II", 'I'), ("mod", "II", 'I'), ("<", "II", 'B'), (">=", "II", 'B'),
    ("not", "B", 'B'), ("and", "BBB", 'B'), ("or", "BB", 'B'), ("=>", "BB", 'B'), ("xor", "BB", 'B'),
    ("=", "SS", 'B'), ("=", "II", 'B'), ("distinct", "SSS", 'B'), ("ite", "BSS", 'S'), ("ite", "BII", 'I'),
    ("f", "SI", 'S'), ("pr", "SB", 'B'), ("str.to.re", "S", 'R'),
    ("str.<", "SSS", 'B'), ("str.<", "SSSS", 'B'), ("str.<=", "SSS", 'B'), ("str.++", "SSSSS", 'S'), ("re.++", "RRRR", 'R'),
    ("re.union", "RRRR", 'R'), ("re.inter", "RRR", 'R'), ("re.diff", "RRR", 'R'), ("=", "SSSS", 'B'),
];

fn leaves(sort: char) -> &'static [&'static str] {
    match sort {
        'S' => &["x", "\"str.len\"", "\"\""],
        'I' => &["n", "12"],
        'B' => &["p", "false"],
        _ => &["re.allchar", "re.all", "re.none", "rr"],
    }
}

fn app(op: usize, args: &[String]) -> String {
    format!("({} {})", OPS[op].0, args.join(" "))
}

fn base(op: usize) -> Vec<String> {
    OPS[op].1.chars().map(|s| leaves(s)[0].to_string()).collect()
}

fn bool_of(sort: char, t: &str) -> String {
    match sort {
        'B' => t.to_string(),
        'S' => format!("(= x {})", t),
        'I' => format!("(= n {})", t),
        _ => format!("(str.in_re x {})", t),
    }
}

const DECLS: &str = "(set-logic ALL)(declare-const x String)(declare-fun n () Int)(declare-const p Bool)(declare-fun rr () RegLan)\
(declare-fun f (String Int) String)(declare-fun pr (String Bool) Bool)\n";

/// Benchmarks that use the operator: flat, over and under every other operator, in contexts.
fn benchmarks(op: usize, thorough: bool) -> Vec<String> {
    let mut terms: Vec<(char, String)> = vec![];
    let sorts: Vec<char> = OPS[op].1.chars().collect();
    for (i, s) in sorts.iter().enumerate() {
        for l in leaves(*s) {
            let mut a = base(op);
            a[i] = l.to_string();
            terms.push((OPS[op].2, app(op, &a)));
        }
        for inner in 0..OPS.len() {
            if OPS[inner].2 == *s {
                let mut a = base(op);
                a[i] = app(inner, &base(inner));
                terms.push((OPS[op].2, app(op, &a)));
                if thorough {
                    for (j, r) in OPS[inner].1.chars().enumerate() {
                        for third in (0..OPS.len()).filter(|k| OPS[*k].2 == r) {
                            let mut b = base(inner);
                            b[j] = app(third, &base(third));
                            a[i] = app(inner, &b);
                            terms.push((OPS[op].2, app(op, &a)));
                        }
                    }
                }
            }
        }
    }
    // all arguments at once
    let full: Vec<String> = sorts.iter().map(|s| {
        let k = (0..OPS.len()).find(|k| OPS[*k].2 == *s).unwrap();
        app(k, &base(k))
    }).collect();
    terms.push((OPS[op].2, app(op, &full)));
    let mut res = vec![];
    for (i, (s, t)) in terms.iter().enumerate() {
        let b = bool_of(*s, t);
        let n = match s { 'S' => "String", 'I' => "Int", 'B' => "Bool", _ => "RegLan" };
        let contexts = vec![
            format!("(assert {})", b),
            format!("(assert (not (or p {} {})))(assert {})", b, b, b),
            format!("(assert (let ((y {})) (and {} {})))", t, bool_of(*s, "y"), bool_of(*s, "y")),
            format!("(assert (let ((y x) (z n)) (or (= y x) {})))(check-sat)", b),
            format!("(assert (forall ((z String)) {}))", b),
            format!("(assert (exists ((z Int) (v String)) (=> {} p)))", b),
            format!("(push 1)(assert {})(pop 1)(assert (pr x {}))(get-model)(exit)", b, b),
            format!("(define-fun h () {} {})(assert (= x \"str.++\"))(check-sat)(get-value ({}))", n, t, t),
        ];
        if i == 0 || *t == terms[terms.len() - 1].1 {
            res.extend(contexts.into_iter().map(|c| format!("{}{}\n", DECLS, c)));
        } else {
            // the contexts take turns
            res.push(format!("{}{}\n", DECLS, contexts[0]));
            res.push(format!("{}{}\n", DECLS, contexts[1 + i % (contexts.len() - 1)]));
        }
    }
    res
}

pub struct Run {
    pub code: Option<i32>,
    pub csv: Option<String>,
}

pub fn tool(dir: &Path, args: &[&str], name: &str) -> Result<Run, String> {
    let bin = std::env::current_exe().unwrap().with_file_name("cli-pred");
    let out = Command::new("timeout").arg("20").arg(bin).args(args).current_dir(dir)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_err(|e| e.to_string())?;
    if out.code() == Some(124) {
        return Err("hang: the tool does not end".into());
    }
    let csv = std::fs::read_to_string(dir.join(format!("off_features_{}.csv", name))).ok();
    Ok(Run { code: out.code(), csv })
}

fn prefix(dataset: &str) -> &'static str {
    match dataset {
        "smtcomp" | "kepler" => "SMT_Comp_2020",
        _ => "",
    }
}

fn fresh(dataset: &str) -> std::path::PathBuf {
    let dir = scratch().join("pred");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join(prefix(dataset))).unwrap();
    dir
}

pub struct Counts;
impl Check for Counts {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn gen(&self, _thorough: bool, sink: Sink<'_>) {
        for dataset in ["other", "smtcomp", "kepler", "script"] {
            for op in 0..OPS.len() {
                sink(format!("{} {} {}", dataset, op, if _thorough { "deep" } else { "flat" }));
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        let (dataset, op): (&str, usize) = (w[0], w[1].parse().unwrap());
        let files = benchmarks(op, w[2] == "deep");
        let dir = fresh(dataset);
        let mut list = String::new();
        for (i, f) in files.iter().enumerate() {
            std::fs::write(dir.join(prefix(dataset)).join(format!("b{}.smt2", i)), f).unwrap();
            list.push_str(&format!("/b{}.smt2\n", i));
        }
        std::fs::write(dir.join("list"), &list).unwrap();
        let r = tool(&dir, &[dataset, "list", "out"], "out")?;
        t.execs += files.len() as u64;
        if r.code != Some(0) {
            return Err(format!("failed: status {:?}", r.code));
        }
        let csv = r.csv.ok_or("no output file")?;
        let lines: Vec<&str> = csv.lines().collect();
        if lines.first().copied() != Some(header(dataset).join(",").as_str()) {
            return Err(format!("header: {:?}", lines.first()));
        }
        if lines.len() != files.len() + 1 {
            return Err(format!("rows: {} for {} benchmarks", lines.len() - 1, files.len()));
        }
        for (f, l) in files.iter().zip(&lines[1..]) {
            t.transitions += 1;
            t.outcome("counted");
            let want = expected_row(f, dataset)?;
            if *l != want {
                return Err(format!("wrong counts: {} instead of {} for {}", l, want, f));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "every string, regular expression, arithmetic, Boolean and user-defined operator, over every leaf, over and (thorough) two levels over every operator of the right sort in every argument, in 8 command contexts, for the four datasets: every column of every row compared with the number of occurrences in the assertions as written"
    }
}

const KINDS: [(&str, &str); 13] = [
    ("one", "(declare-const x String)(assert (= x (str.++ x x)))(check-sat)\n"),
    ("two", "(declare-const x String)(assert (= (str.len x) (str.to_int x)))\n(assert (str.contains x (str.++ x \"a\")))"),
    ("empty", ""),
    ("comment", "; (assert (= (str.len x) 1))"),
    ("missing", ""),
    ("directory", ""),
    ("cut", "(declare-const x String)(assert (= x (str.++ x x)))(assert (= 1 (str.len x))"),
    ("junk", "(declare-const x String)(assert (= x (str.++ x x)))\n)(assert (= 1 (str.len x)))"),
    ("binary", "(declare-const x String)(assert (= x (str.++ x x)))(echo \"m\")\u{1}#"),
    // the first benchmark once more, an empty line, a name and a benchmark that are not UTF-8
    ("again", ""),
    ("blank", ""),
    ("name", "(declare-const x String)(assert (= x (str.replace x x x)))"),
    ("bytes", "(declare-const x String)(assert (= x \"?\" (str.++ x x)))"),
];

pub struct Lists;
impl Check for Lists {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let n = if thorough { 4 } else { 3 };
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for len in 0..=n {
            for l in &level {
                let names: Vec<&str> = l.iter().map(|k| KINDS[*k].0).collect();
                let ds: &[&str] = if len < 3 { &["other", "smtcomp", "kepler", "script"] } else { &["other"] };
                for d in ds {
                    for end in ["nl", "nonl", "crlf"] {
                        if len == 4 && end != "nl" {
                            continue;
                        }
                        sink(format!("{} {} {}", d, end, names.join(" ")).trim_end().to_string());
                    }
                }
            }
            level = level.iter().flat_map(|l| (0..KINDS.len()).map(move |k| [l.clone(), vec![k]].concat())).collect();
        }
        for (_, text) in &KINDS[..2] {
            for i in 0..text.len() {
                sink(format!("cut {} {}", text.len(), i));
            }
        }
        for c in ["args 0", "args 1", "args 2", "args nolist", "args dataset", "args outdir", "args outtaken"] {
            sink(c.to_string());
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        if w[0] == "args" {
            return self.args(w[1], t);
        }
        let cut;
        let (dataset, end, kinds): (&str, &str, Vec<(String, String)>) = if w[0] == "cut" {
            let text = KINDS.iter().find(|k| k.1.len().to_string() == w[1]).unwrap().1;
            cut = text[..w[2].parse::<usize>().unwrap()].to_string();
            let ok = parse(&cut).map_or(false, |v| v.iter().all(|c| c.list().is_some()));
            ("other", "nl", vec![(if ok { "good".into() } else { "cut".into() }, cut)])
        } else {
            let k = w[2..].iter().map(|n| (n.to_string(), KINDS.iter().find(|k| k.0 == *n).unwrap().1.to_string())).collect();
            (w[0], w[1], k)
        };
        let dir = fresh(dataset);
        let mut want = vec![header(dataset).join(",")];
        let mut fails = false;
        // failing is right, but so is a row
        let mut may_fail = false;
        let mut list: Vec<Vec<u8>> = vec![];
        for (i, (kind, text)) in kinds.iter().enumerate() {
            let mut name = format!("/b {}.smt2", i).into_bytes();
            if kind == "name" {
                name[2] = 0xff;
            }
            let path = dir.join(prefix(dataset)).join(std::ffi::OsStr::from_bytes(&name[1..]));
            match (kind.as_str(), list.first()) {
                ("again", Some(first)) => {
                    list.push(first.clone());
                    // the outcome of the first one counts for this one, too
                    if !fails {
                        want.extend(want.get(1).cloned());
                    }
                    continue;
                }
                ("again" | "blank", _) => list.push(vec![]),
                _ => list.push(name),
            }
            match kind.as_str() {
                "again" | "blank" => fails = true,
                "missing" => fails = true,
                "directory" => {
                    std::fs::create_dir(&path).unwrap();
                    fails = true;
                }
                k => {
                    may_fail |= matches!(k, "name" | "bytes");
                    let bytes: Vec<u8> = text.bytes().map(|b| if k == "bytes" && b == b'?' { 0xe9 } else { b }).collect();
                    std::fs::write(&path, bytes).unwrap();
                    fails |= matches!(k, "cut" | "junk" | "binary");
                    if !fails {
                        want.push(expected_row(text, dataset)?);
                    }
                }
            }
        }
        let sep = if end == "crlf" { &b"\r\n"[..] } else { b"\n" };
        let mut text = list.join(sep);
        if end != "nonl" && !list.is_empty() {
            text.extend(sep);
        } else if list.last().map_or(false, |l| l.is_empty()) {
            fails = list[..list.len() - 1].iter().any(|l| l.is_empty()) || kinds.iter().any(|k| !matches!(k.0.as_str(), "blank" | "again" | "good" | "one" | "two" | "empty" | "comment" | "name" | "bytes"));
        }
        std::fs::write(dir.join("list"), text).unwrap();
        std::fs::write(dir.join("off_features_o.csv"), "stale,contents\n1,2\n".repeat(50)).unwrap();
        let r = tool(&dir, &[dataset, "list", "o"], "o")?;
        t.execs += 1;
        t.transitions += want.len() as u64;
        t.outcome(if r.code == Some(0) { "features" } else { "error" });
        match (fails, r.code) {
            (true, Some(0)) => return Err("failure not reported: status 0".into()),
            (false, c) if c != Some(0) && !may_fail => return Err(format!("failed: status {:?}", c)),
            (_, None) => return Err("crash: ended by a signal".into()),
            _ => {}
        }
        let csv = r.csv.ok_or("no output file")?;
        let rows: Vec<&str> = csv.lines().collect();
        // on failure the rows before the failing benchmark may be missing, never wrong
        if r.code != Some(0) {
            if !want.starts_with(&rows.iter().map(|s| s.to_string()).collect::<Vec<_>>()) {
                return Err(format!("wrong rows: {:?} instead of a prefix of {:?}", rows, want));
            }
        } else if rows != want {
            return Err(format!("wrong rows: {:?} instead of {:?}", rows, want));
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all lists of up to 3 (thorough: 4) benchmarks of 13 kinds (good, empty, missing, directory, truncated, malformed, listed again, empty name, name or contents not UTF-8), with and without final newline and with CRLF, for every dataset; every truncation of two benchmarks; command line errors"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

impl Lists {
    fn args(&self, what: &str, t: &mut Tally) -> Result<(), String> {
        let dir = fresh("other");
        std::fs::write(dir.join("b.smt2"), KINDS[0].1).unwrap();
        std::fs::write(dir.join("list"), "/b.smt2\n").unwrap();
        let args: Vec<&str> = match what {
            "0" => vec![],
            "1" => vec!["other"],
            "2" => vec!["other", "list"],
            "nolist" => vec!["other", "nolist", "o"],
            "dataset" => vec!["kepler2", "list", "o"],
            "outdir" => vec!["other", "list", "no/such/dir"],
            _ => {
                std::fs::create_dir(dir.join("off_features_o.csv")).unwrap();
                vec!["other", "list", "o"]
            }
        };
        t.execs += 1;
        let r = tool(&dir, &args, "o")?;
        t.outcome("error");
        match r.code {
            Some(0) => Err("failure not reported: status 0".into()),
            None => Err("crash: ended by a signal".into()),
            _ if r.csv.map_or(false, |c| c.lines().count() > 1) => Err("rows written".into()),
            _ => Ok(()),
        }
    }
}
