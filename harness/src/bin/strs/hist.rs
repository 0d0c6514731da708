//! S07: sequences of scripts transformed with a shared mapping file. S08: hash orders.
use crate::common::{convert, Out};
use crate::equi::{equisat, judge, script, Equi};
use mc::run::{isolated, Check, Sink, Tally};

/// Transforms the scripts one after another with the mapping file kept in between, as the
/// command line tool does with `--use-global-map`.
fn chain(scripts: Vec<String>, c2c: Vec<bool>, dir: String) -> Result<Vec<Out>, String> {
    isolated(1, move || {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        std::env::set_current_dir(&dir).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file("global_mapping.json");
        let mut outs = vec![];
        for (s, c) in scripts.iter().zip(c2c) {
            let o = convert(s, true, c)?;
            std::fs::write("global_mapping.json", &o.json).map_err(|e| e.to_string())?;
            outs.push(o);
        }
        Ok(outs)
    })?
}

/// Does the file hold all of the mapping (literals mapped char-to-char are not stored)?
fn stored(json: &str) -> bool {
    let Ok(doc) = serde_json::from_str::<serde_json::Value>(json) else { return false };
    let list = |k: &str| doc[k].as_array().cloned().unwrap_or_default();
    let kept = list("persistent_string_map");
    list("string_map").iter().all(|p| kept.iter().any(|k| k[0] == p[0] && k[1]["mapped_to"] == p[1]))
}

/// A stored mapping that the next run has dropped although it relates to the literals mapped there as before.
fn dropped(before: &str, after: &str) -> Option<String> {
    let doc = |j: &str| serde_json::from_str::<serde_json::Value>(j).ok();
    let (before, after) = (doc(before)?, doc(after)?);
    let list = |d: &serde_json::Value, k: &str| d[k].as_array().cloned().unwrap_or_default();
    let (kept, new) = (list(&after, "persistent_string_map"), list(&after, "string_map"));
    for e in list(&before, "persistent_string_map") {
        let (s, m) = (e[0].as_str()?, e[1]["mapped_to"].as_str()?);
        let related = |p: &serde_json::Value| match (p[0].as_str(), p[1].as_str()) {
            (Some(l), Some(ml)) => l == s || !s.contains(l) || m.contains(ml),
            _ => false,
        };
        if !kept.iter().any(|k| k[0] == e[0]) && new.iter().all(related) {
            return Some(format!("{} -> {}", s, m));
        }
    }
    None
}

pub struct History;

impl Check for History {
    fn id(&self) -> &'static str {
        "S07"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let atoms = ["(= x \"a\")", "(= x \"ab\")", "(= x \"ba\")", "(= x \"12\")", "(str.prefixof \"a\" x)", "(str.prefixof \"ab\" x)", "(str.suffixof \"b\" x)", "(str.suffixof \"ab\" x)", "(str.contains x \"b\")", "(str.contains x \"ba\")",
            "(= (str.len x) 2)", "(= (str.to_int x) 12)", "(str.is_digit x)", "(str.in_re x (re.range \"a\" \"c\"))", "(str.in_re x (re.* (re.range \"0\" \"9\")))", "(str.in_re x (re.++ (str.to_re \"ab\") re.allchar))", "(= (str.++ x \"b\") \"ab\")",
            "(= (str.replace x \"a\" \"b\") \"bb\")", "(= (str.at x 0) \"1\")", "(= (str.indexof x \"b\" 0) 1)", "(str.contains \"aba\" x)", "(= x \"\")"];
        let mut scripts: Vec<String> = vec![];
        for (i, a) in atoms.iter().enumerate() {
            scripts.push(script(&["x"], &[a]));
            for b in atoms.iter().skip(i + 1).step_by(if thorough { 1 } else { 3 }) {
                scripts.push(script(&["x"], &[a, b]));
            }
        }
        // one literal under ranges and uses that differ from script to script
        let ranges = ["", "(str.in_re x (re.* (re.range \"0\" \"9\")))", "(str.in_re x (re.+ (re.range \"a\" \"b\")))", "(str.in_re x (re.+ (re.range \"a\" \"z\")))", "(str.in_re x ((_ re.^ 2) (re.range \"c\" \"f\")))", "(str.in_re x (re.++ (re.range \"a\" \"b\") (re.range \"1\" \"3\")))"];
        let uses = |l: &str| {
            [format!("(= x \"{l}\")"), format!("(not (= x \"{l}\"))"), format!("(str.prefixof \"{l}\" x)"), format!("(str.suffixof x \"{l}\")"), format!("(str.contains \"{l}\" x)"), format!("(= (str.len \"{l}\") (str.len x))"), format!("(= (str.to_int \"{l}\") (str.to_int x))"),
                format!("(= (str.at x 1) (str.at \"{l}\" 0))"), format!("(str.is_digit (str.at \"{l}\" 1))"),
                format!("(= (str.to_int \"{l}\") 12)"), format!("(= (str.len \"{l}\") 2)"), format!("(and (str.prefixof \"{l}\" x) (= (str.len x) 1))"), format!("(= (str.from_int 12) \"{l}\")"), format!("(and (= x \"{l}\") (= (str.len x) 1))")]
        };
        let mut mixed: Vec<String> = vec![];
        for l in ["ab", "12", "a1", "ce"] {
            for (k, u) in uses(l).iter().enumerate() {
                for (j, r) in ranges.iter().enumerate() {
                    if thorough || l == "ab" || j == 0 || (j + k) % 2 == 0 {
                        mixed.push(if r.is_empty() { script(&["x"], &[u]) } else { script(&["x"], &[u, r]) });
                    }
                }
            }
        }
        for (i, s) in mixed.iter().enumerate() {
            for (j, r) in mixed.iter().enumerate() {
                sink(format!("00\n{}\n{}", s, r));
                if (i * 5 + j) % 13 == 0 {
                    sink(format!("10\n{}\n{}", s, r));
                    sink(format!("000\n{}\n{}\n{}", s, mixed[(i * 3 + j) % mixed.len()], r));
                }
            }
        }
        // scripts that are given up on, and scripts with two variables, before and after others
        let mut others: Vec<String> = vec![];
        for u in ["(str.< x \"b\")", "(str.<= \"ab\" x)"] {
            for a in ["(= x \"ab\")", "(= x \"12\")", "(= y \"ab\")", "(= (str.to_int y) 12)", "(str.in_re x (re.+ (re.range \"a\" \"b\")))", "(str.in_re y (re.+ (re.range \"a\" \"z\")))", "(str.prefixof \"a\" x)", "(str.contains y \"b\")"] {
                others.push(script(&["x", "y"], &[u, a]));
            }
        }
        let two = ["(= x \"ab\")", "(= y \"b\")", "(= y \"12\")", "(str.prefixof \"a\" x)", "(str.contains y \"ab\")", "(= x y)", "(= (str.++ x \"b\") y)", "(= (str.to_int y) 12)", "(str.in_re y (re.+ (re.range \"a\" \"b\")))", "(= (str.len x) 1)"];
        for (i, a) in two.iter().enumerate() {
            for (j, b) in two.iter().enumerate().skip(i + 1) {
                if thorough || (i + j) % 2 == 0 {
                    others.push(script(&["x", "y"], &[a, b]));
                }
            }
        }
        for (i, o) in others.iter().enumerate() {
            for (j, s) in mixed.iter().chain(&scripts).chain(&others[16..]).enumerate() {
                if thorough || (i + j) % 3 == 0 {
                    sink(format!("00\n{}\n{}", o, s));
                    sink(format!("00\n{}\n{}", s, o));
                    sink(format!("000\n{}\n{}\n{}", s, o, s));
                }
            }
        }
        let seq = |v: &[&String], m: &str, sink: Sink<'_>| sink(format!("{}\n{}", m, v.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("\n")));
        for (i, s) in scripts.iter().enumerate() {
            for (j, r) in scripts.iter().enumerate() {
                seq(&[s, r], "00", sink);
                if (i * 7 + j) % 11 == 0 {
                    for m in ["01", "10", "11"] {
                        seq(&[s, r], m, sink);
                    }
                    // the first script once more, and a third one in between
                    seq(&[s, r, s], "000", sink);
                    seq(&[s, &scripts[(i + j) % scripts.len()], r], "000", sink);
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let mut lines = case.split('\n');
        let c2c: Vec<bool> = lines.next().unwrap_or("").chars().map(|c| c == '1').collect();
        let scripts: Vec<String> = lines.map(|s| s.to_string()).collect();
        let dir = mc::run::scratch().join(format!("h{:?}", std::thread::current().id()));
        t.execs += 1;
        let outs = chain(scripts.clone(), c2c.clone(), dir.to_str().unwrap().to_string())?;
        for (i, (s, o)) in scripts.iter().zip(&outs).enumerate() {
            t.states += 1;
            if s.contains("(str.<") && !o.failed.is_empty() {
                t.outcome("bail-out");
                continue;
            }
            judge(s, o, t).map_err(|e| format!("step {}: {}", i, e))?;
            if i > 0 && !c2c[i] && !c2c[i - 1] {
                if let Some(e) = dropped(&outs[i - 1].json, &o.json) {
                    return Err(format!("valid mapping lost: {}", e));
                }
            }
            // mappings that are stored are used again as long as they are valid
            if i > 0 && scripts[i - 1] == *s && c2c[i - 1] == c2c[i] && stored(&outs[i - 1].json) {
                t.outcome("repeated");
                if o.text != outs[i - 1].text {
                    return Err(format!("not reused: {} then {}", outs[i - 1].text, o.text));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all sequences of two and selected ones of three scripts (22 atoms, alone and in pairs; four literals in 14 uses, each under six ranges; scripts that are given up on or have two variables) transformed one after another with --use-global-map, mixed mapping modes"
    }
}

pub struct Orders;

impl Check for Orders {
    fn id(&self) -> &'static str {
        "S08"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let mut n = 0usize;
        let step = if thorough { 5 } else { 31 };
        Equi(false).gen(false, &mut |s| {
            n += 1;
            if n % step == 0 {
                sink(s)
            }
        });
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        for seed in 2..10 {
            for c2c in [false, true] {
                t.states += 1;
                equisat(case, c2c, seed, t).map_err(|e| format!("hash order {}{}: {}", seed, if c2c { " char-to-char" } else { "" }, e))?;
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "every 31st (thorough: 5th) script of S01 under eight assignments of hash keys and heap addresses in both mapping modes"
    }
}

/// S04: functions that no mapping of literals can preserve.
pub struct Unsupported;

impl Check for Unsupported {
    fn id(&self) -> &'static str {
        "S04"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let un = ["(str.< x \"b\")", "(str.< \"a\" x)", "(str.<= x \"ab\")", "(str.<= \"b\" x)", "(str.< x y)", "(str.<= y x)", "(str.< x y \"b\")", "(str.< (str.++ x \"a\") y)", "(str.<= (str.at x 0) \"b\")", "(not (str.< x \"b\"))", "(ite (str.< x y) (= x \"a\") (= y \"b\"))",
            "(let ((z (str.< x \"b\"))) z)", "(str.in_re x (re.range \"ab\" \"c\"))", "(str.in_re x (re.range \"\" \"c\"))", "(str.in_re x (re.range \"e\" \"e\"))", "(str.in_re x (re.range x \"c\"))", "(str.in_re x (re.range \"a\" y))", "(str.in_re x (re.range y \"b\"))",
            "(str.in_re x (re.range \"a\" (str.at \"abc\" 1)))", "(str.in_re x (re.range (str.++ \"a\" \"b\") \"c\"))", "(str.in_re x (re.* (re.range \"b\" \"b\")))", "(str.in_re x (re.comp (re.range \"ab\" \"ac\")))"];
        let ok = ["(= x \"a\")", "(= x \"ab\")", "(= y \"b\")", "(= x y)", "(str.prefixof \"a\" x)", "(str.contains y \"ab\")", "(= (str.len x) 1)", "(= (str.++ x y) \"ab\")", "(str.in_re y (re.range \"a\" \"c\"))", "(= (str.to_int y) 1)", "(= x \"e\")", "(str.suffixof \"c\" y)"];
        for u in un {
            for m in ["0", "1"] {
                let s = |v: &[&str]| format!("{}\n{}", m, script(&["x", "y"], v));
                sink(s(&[u]));
                for (i, a) in ok.iter().enumerate() {
                    sink(s(&[u, a]));
                    sink(s(&[a, u]));
                    for b in ok[i + 1..].iter().chain(if thorough { &un[..] } else { &un[..4] }) {
                        sink(s(&[a, u, b]));
                    }
                }
            }
        }
        // functions, arrays and sorts of strings
        let made = [("(declare-const m (Array Int String))", "(= (select m 0) x)"), ("(declare-const m (Array Int String))", "(= (store m 0 \"a\") m)"), ("(declare-const m (Array String Int))", "(= (select m \"a\") 1)"), ("(declare-const m (Array Int (Array Int String)))", "(= (select (select m 0) 1) \"ab\")"),
            ("(declare-fun m () (Array String Bool))", "(select m (str.++ x \"a\"))"), ("(declare-fun f (String) Bool)", "(f \"a\")"), ("(declare-fun f (String) Bool)", "(and (f x) (not (f \"ab\")))"), ("(declare-fun f (Int) String)", "(= (f 1) x)"), ("(declare-fun f (Int String) Int)", "(= (f 1 \"b\") (f 2 y))"), ("(declare-fun f ((Array Int String)) Bool)", "true"),
            ("(define-fun f ((s String)) Bool (str.prefixof \"a\" s))", "(f x)"), ("(define-fun f ((s String)) Bool (str.prefixof \"a\" s))", "(f \"ab\")"), ("(define-fun f ((n Int)) String (str.from_int n))", "(= (f 1) x)"), ("(define-fun f () String \"ab\")", "(= x f)"), ("(define-fun f ((s String) (t String)) String (str.++ s t))", "(= (f x \"a\") (f \"b\" y))"),
            ("(define-sort S () String)(declare-const s S)", "(= s \"a\")"), ("(define-sort S () (Array Int String))(declare-const s S)", "(= (select s 1) \"a\")"), ("(define-fun-rec f ((s String)) Int (ite (= s \"\") 0 (+ 1 (f (str.substr s 1 9)))))", "(= (f x) 1)"),
            ("(declare-datatype P ((mk (name String) (age Int)) (none)))(declare-const m P)", "(= (name m) x)"), ("(declare-datatype P ((mk (name String)) (none)))(declare-const m P)", "(= m (mk \"ab\"))"), ("(declare-datatypes ((L 0) (N 0)) (((nil) (cons (hd N) (tl L))) ((node (val (Array Int String))))))(declare-const m L)", "(= (select (val (hd m)) 0) \"a\")"), ("(declare-datatypes ((P 2)) ((par (A B) ((mk (fst A) (snd B))))))(declare-const m (P Int String))", "(= (snd m) \"a\")"),
            ("", "(forall ((m (Array Int String))) (= (select m 0) x))"), ("", "(exists ((m (Array String Int)) (z String)) (= (select m z) 1))")];
        for (d, u) in made {
            for m in ["0", "1"] {
                let mut s = |v: &[&str]| sink(format!("made {}\n{}{}", m, d, script(&["x", "y"], v)));
                s(&[u]);
                for (i, a) in ok.iter().enumerate() {
                    s(&[u, a]);
                    s(&[a, u]);
                    for b in &ok[i + 1..] {
                        s(&[a, u, b]);
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let (m, case) = case.split_once('\n').ok_or("malformed case")?;
        let (made, m) = match m.strip_prefix("made ") {
            Some(m) => (true, m),
            None => (false, m),
        };
        t.execs += 1;
        let out = crate::common::transform(1, case, m == "1")?;
        if out.text.starts_with("Encountered unsupported string function: BAILING OUT") != !out.failed.is_empty() {
            return Err(format!("bail-out without reason: {:?} {}", out.failed, out.text));
        }
        if !out.failed.is_empty() {
            t.outcome("bail-out");
            return Ok(());
        }
        if made {
            return Err(format!("transformed: {}", out.text));
        }
        judge(case, &out, t)
    }
    fn rule(&self) -> &'static str {
        "24 ways to relate strings by functions, arrays, datatypes and sorts, and 22 constraints with lexicographic orders and ranges whose ends are no single-character literals, alone, in both orders and between all pairs of 12 supported constraints over two variables, both mapping modes"
    }
}
