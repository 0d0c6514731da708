use mc::eval::decode_literal;
use mc::run::{isolated, Check, Sink, Tally};
use mc::sexp::{parse, Sx};

/// The library's conversion of a script, printed the way the command line tool prints it.
pub fn modernize(text: &str) -> Result<Result<String, String>, String> {
    let text = text.to_string();
    isolated(1, move || {
        use amzn_smt_string_fct_updater::transpiler as t;
        t::parse(text.as_bytes()).map_err(|e| e.to_string()).map(|cmds| {
            t::modernize_string_fcts(cmds).iter().map(|c| c.to_string()).collect::<Vec<_>>().join("\n")
        })
    })
}

fn converted(text: &str, t: &mut Tally) -> Result<Vec<Sx>, String> {
    t.execs += 1;
    let out = modernize(text)?.map_err(|e| format!("rejected: {}", e))?;
    parse(&out).map_err(|e| format!("malformed output: {} in {}", e, out))
}

fn atom(s: &str) -> Sx {
    Sx::Atom(s.to_string())
}

/// Reference conversion of a term or command in the old syntax.
pub fn reference(x: &Sx) -> Sx {
    match x {
        Sx::Atom(a) if a == "re.nostr" => atom("re.none"),
        Sx::Atom(_) => x.clone(),
        Sx::Str(s) => Sx::Str(escapes(s)),
        Sx::List(l) => {
            let mut r: Vec<Sx> = l.iter().map(reference).collect();
            let new = match x.head() {
                Some("str.to.re") => "str.to_re",
                Some("str.in.re") => "str.in_re",
                Some("str.to.int") => "str.to_int",
                Some("int.to.str") => "str.from_int",
                Some("re.loop") if l.len() == 4 => {
                    let idx = Sx::List(vec![atom("_"), atom("re.loop"), r[2].clone(), r[3].clone()]);
                    return Sx::List(vec![idx, r[1].clone()]);
                }
                _ => return Sx::List(r),
            };
            r[0] = atom(new);
            Sx::List(r)
        }
    }
}

/// Reference conversion of the contents of a literal, reading left to right: a backslash and
/// the character after it are a unit, except that `\x` without two hexadecimal digits is plain.
pub fn escapes(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let hex = |k: usize| c.get(k).map_or(false, |d| d.is_ascii_hexdigit());
        if c[i] != '\\' || i + 1 == c.len() {
            out.push(c[i]);
            i += 1;
        } else if c[i + 1] == 'x' && hex(i + 2) && hex(i + 3) {
            out.push_str(&format!("\\u{{{}{}}}", c[i + 2], c[i + 3]));
            i += 4;
        } else {
            match "abfnrtv".find(c[i + 1]) {
                Some(k) => out.push_str(&format!("\\u{{{}}}", ["07", "08", "0C", "0A", "0D", "09", "0B"][k])),
                None => {
                    out.push('\\');
                    out.push(c[i + 1]);
                }
            }
            i += 2;
        }
    }
    out
}

/// Terms that differ only in how a character of a literal is written are the same.
fn decoded(x: &Sx) -> Sx {
    match x {
        Sx::Str(s) => Sx::List(vec![
            atom("literal"),
            Sx::List(decode_literal(s).iter().map(|c| atom(&c.to_string())).collect()),
        ]),
        Sx::List(l) => Sx::List(l.iter().map(decoded).collect()),
        Sx::Atom(a) if a.starts_with("#x") => atom(&a.to_lowercase()),
        Sx::Atom(a) if a.contains('.') && a.starts_with(|c: char| c.is_ascii_digit()) => {
            atom(a.trim_end_matches('0').trim_end_matches('.'))
        }
        _ => x.clone(),
    }
}

fn same(want: &[Sx], got: &[Sx], t: &mut Tally) -> Result<(), String> {
    for (w, g) in want.iter().zip(got) {
        t.transitions += 1;
        if decoded(w) != decoded(g) {
            return Err(format!("changed meaning: expected {} but got {}", w, g));
        }
    }
    if want.len() != got.len() {
        return Err(format!("commands: expected {} but got {}", want.len(), got.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------------------ enumeration
/// `(name, argument sorts, result sort)`; `#` marks a literal numeral, `*` repeats the last.
const OPS: [(&str, &str, char); 68] = [
    ("str.to.re", "S", 'R'), ("str.in.re", "SR", 'B'), ("str.to.int", "S", 'I'), ("int.to.str", "I", 'S'),
    ("re.loop", "R##", 'R'),
    ("str.++", "SS", 'S'), ("str.++", "SSS", 'S'), ("str.len", "S", 'I'), ("str.<", "SS", 'B'), ("str.<=", "SS", 'B'),
    ("str.to_re", "S", 'R'), ("str.in_re", "SR", 'B'), ("str.at", "SI", 'S'), ("str.substr", "SII", 'S'),
    ("str.prefixof", "SS", 'B'), ("str.suffixof", "SS", 'B'), ("str.contains", "SS", 'B'), ("str.indexof", "SSI", 'I'),
    ("str.replace", "SSS", 'S'), ("str.replace_all", "SSS", 'S'), ("str.replace_re", "SRS", 'S'),
    ("str.replace_re_all", "SRS", 'S'), ("str.is_digit", "S", 'B'), ("str.to_code", "S", 'I'), ("str.from_code", "I", 'S'),
    ("str.to_int", "S", 'I'), ("str.from_int", "I", 'S'),
    ("re.++", "RR", 'R'), ("re.++", "RRR", 'R'), ("re.union", "RR", 'R'), ("re.union", "RRR", 'R'), ("re.inter", "RR", 'R'),
    ("re.*", "R", 'R'), ("re.+", "R", 'R'), ("re.opt", "R", 'R'), ("re.comp", "R", 'R'), ("re.diff", "RR", 'R'),
    ("re.range", "SS", 'R'), ("(_ re.^ 2)", "R", 'R'), ("(_ re.loop 1 3)", "R", 'R'),
    ("+", "II", 'I'), ("+", "III", 'I'), ("-", "II", 'I'), ("-", "I", 'I'), ("*", "II", 'I'), ("div", "II", 'I'), ("mod", "II", 'I'),
    ("abs", "I", 'I'), ("<", "II", 'B'), ("<=", "II", 'B'), (">", "II", 'B'), (">=", "II", 'B'),
    ("not", "B", 'B'), ("and", "BB", 'B'), ("or", "BBB", 'B'), ("=>", "BB", 'B'), ("xor", "BB", 'B'),
    ("=", "SS", 'B'), ("=", "II", 'B'), ("=", "BB", 'B'), ("distinct", "SSS", 'B'), ("ite", "BSS", 'S'), ("ite", "BII", 'I'),
    ("ite", "BRR", 'R'), ("f", "SI", 'S'), ("g", "S", 'I'), ("pr", "SB", 'B'), ("|o p|", "R", 'R'),
];

fn leaves(sort: char) -> &'static [&'static str] {
    match sort {
        'S' => &["x", "\"a\\x41\"", "\"\"", "\"q\"\"\"", "|a b|"],
        'I' => &["n", "12", "(- 3)"],
        'B' => &["p", "false"],
        'R' => &["re.nostr", "re.allchar", "re.all", "re.none", "rr"],
        '#' => &["1", "20", "0"],
        _ => unreachable!(),
    }
}

const DECLS: &str = "(set-logic ALL)(declare-const x String)(declare-const |a b| String)(declare-fun n () Int)(declare-const p Bool)\
(declare-fun rr () RegLan)(declare-fun f (String Int) String)(declare-fun g (String) Int)(declare-fun pr (String Bool) Bool)(declare-fun |o p| (RegLan) RegLan)";

fn app(op: &(&str, &str, char), args: &[String]) -> String {
    format!("({} {})", op.0, args.join(" "))
}

/// `op` over leaves, one of the arguments replaced by every other leaf.
fn flat(op: &(&'static str, &'static str, char)) -> Vec<String> {
    let sorts: Vec<char> = op.1.chars().collect();
    let base: Vec<String> = sorts.iter().map(|s| leaves(*s)[0].to_string()).collect();
    let mut res = vec![app(op, &base)];
    for (i, s) in sorts.iter().enumerate() {
        for l in &leaves(*s)[1..] {
            let mut a = base.clone();
            a[i] = l.to_string();
            res.push(app(op, &a));
        }
    }
    res
}

/// `op` with one argument replaced by every term of `inner` (of the right sort).
fn over(op: &(&'static str, &'static str, char), inner: &dyn Fn(char) -> Vec<String>) -> Vec<String> {
    let sorts: Vec<char> = op.1.chars().collect();
    let base: Vec<String> = sorts.iter().map(|s| leaves(*s)[0].to_string()).collect();
    let mut res = vec![];
    for (i, s) in sorts.iter().enumerate() {
        if *s == '#' {
            continue;
        }
        for l in inner(*s) {
            let mut a = base.clone();
            a[i] = l;
            res.push(app(op, &a));
        }
    }
    res
}

fn bool_of(sort: char, t: &str) -> String {
    match sort {
        'B' => t.to_string(),
        'S' => format!("(= x {})", t),
        'I' => format!("(= n {})", t),
        _ => format!("(str.in_re x {})", t),
    }
}

fn sort_name(c: char) -> &'static str {
    match c {
        'S' => "String",
        'I' => "Int",
        'B' => "Bool",
        _ => "RegLan",
    }
}

/// Contexts a term of sort `s` can occur in: whole commands.
fn contexts(s: char, t: &str) -> Vec<String> {
    let b = bool_of(s, t);
    let n = sort_name(s);
    vec![
        format!("(assert {})", b),
        format!("(assert (not (or p {})))", b),
        format!("(assert (let ((y {})) {}))", t, bool_of(s, "y")),
        format!("(assert (let ((y {}) (z x)) (and p (= z x) (let ((w y)) {}))))", t, bool_of(s, "w")),
        format!("(assert (forall ((z String)) {}))", b),
        format!("(assert (exists ((z Int) (v String)) (=> {} p)))", b),
        format!("(assert (pr x {}))", b),
        format!("(define-fun h () {} {})", n, t),
        format!("(define-fun h2 ((a String) (b Int)) {} {})", n, t),
        format!("(get-value ({}))", t),
    ]
}

/// Batches of commands, each batch one script.
const SINGLE: [&str; 3] = [
    "(declare-const x String)(define-fun-rec h ((a String)) Bool (str.in.re x re.nostr))",
    "(get-option :produce-models)",
    "(assert (= 0.05 0.05))",
];

fn batches(thorough: bool, sink: Sink<'_>) {
    let flat_of = |s: char| -> Vec<String> { OPS.iter().filter(|o| o.2 == s).flat_map(flat).collect() };
    let first_of = |s: char| -> Vec<String> { OPS.iter().filter(|o| o.2 == s).map(|o| flat(o)[0].clone()).collect() };
    let depth2 = |s: char| -> Vec<String> { OPS.iter().filter(|o| o.2 == s).flat_map(|o| over(o, &first_of)).collect() };
    let mut emit = |cmds: Vec<String>| {
        for c in cmds.chunks(300) {
            sink(format!("{}\n{}", DECLS, c.join("\n")));
        }
    };
    // leaves and flat applications in every context
    for s in ['S', 'I', 'B', 'R'] {
        emit(leaves(s).iter().flat_map(|l| contexts(s, l)).collect());
    }
    for op in &OPS {
        emit(flat(op).iter().flat_map(|t| contexts(op.2, t)).collect());
    }
    // every operator in every argument of every operator
    for op in &OPS {
        emit(over(op, &flat_of).iter().flat_map(|t| contexts(op.2, t)).collect());
    }
    // three operators deep
    for op in &OPS {
        let ts = over(op, &depth2);
        if thorough {
            emit(ts.iter().flat_map(|t| contexts(op.2, t)).collect());
        } else {
            emit(ts.iter().map(|t| format!("(assert {})", bool_of(op.2, t))).collect());
        }
    }
    // shapes of declarations and other commands, kept as they are
    let other = [
        "(declare-sort A 0)", "(declare-sort B1 1)", "(define-sort T (X) (Array Int X))", "(declare-fun k ((Array Int String) (_ BitVec 8)) (_ BitVec 4))",
        "(push 1)", "(pop 1)", "(check-sat)", "(get-model)", "(get-assertions)", "(get-unsat-core)", "(exit)", "(reset)", "(reset-assertions)",
        "(echo \"a\\nb \"\"q\"\"\")", "(get-info :reason-unknown)", "(set-info :source |a \\n b|)", "(set-info :status sat)",
        "(set-option :produce-models true)", "(set-option :strings-exp true)", "(check-sat-assuming (p (not p)))", "(get-assignment)", "(get-proof)",
        "(declare-datatypes ((L 0)) (((nil) (cons (hd Int) (tl L)))))", "(get-unsat-assumptions)",
    ];
    for (i, a) in other.iter().enumerate() {
        for b in &other[i..] {
            emit(vec![a.to_string(), "(assert (str.in.re x re.nostr))".into(), b.to_string()]);
        }
    }
    // modern constants of other sorts
    emit(["#b0110", "#x0aF", "1.50", "0.5", "12.25", "(_ bv5 8)", "(as x String)", "10.0", "123456789012345678901234567890", "((_ extract 3 1) #b0110)", "(select a 1)"]
        .iter().map(|c| format!("(assert (= {} {}))", c, c)).collect());
}

/// The converted script means the same in the modern syntax.
pub struct Meaning;
impl Check for Meaning {
    fn id(&self) -> &'static str {
        "U01"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        batches(thorough, sink);
        SINGLE.iter().for_each(|c| sink(c.to_string()));
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let input = parse(case).unwrap();
        let want: Vec<Sx> = input.iter().map(|c| match c.head() {
            Some("set-info" | "echo" | "set-option") => c.clone(),
            _ => reference(c),
        }).collect();
        let mut got = converted(case, t)?;
        t.outcome("converted");
        let has_logic = |v: &[Sx]| v.iter().any(|c| c.head() == Some("set-logic"));
        if !has_logic(&input) {
            got.retain(|c| c.head() != Some("set-logic"));
        }
        same(&want, &got, t)
    }
    fn rule(&self) -> &'static str {
        "every operator of the old and the modern theories in every argument position of every operator (three operators deep), in 10 command contexts, and pairs of other commands: output compared, command by command, with an independent conversion"
    }
}

/// Escape sequences in string literals.
pub struct Escapes;
const ALPHABET: [&str; 9] = ["\\", "x", "n", "4", "a", "g", "\"\"", "u", "{"];
const WIDE: [&str; 25] = [
    "\\", "x", "n", "4", "a", "g", "\"\"", "u", "{", "}", "b", "f", "r", "t", "v", "B", "F", "0", "X", " ", "é", ";", "٣", "Ａ", "９",
];
impl Check for Escapes {
    fn id(&self) -> &'static str {
        "U02"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        // a case is a prefix: it stands for all its continuations up to the length bound
        sink("short".into());
        for a in 0..9 {
            for b in 0..9 {
                for c in 0..9 {
                    for d in 0..9 {
                        if thorough {
                            (0..9).for_each(|e| sink(format!("{} {} {} {} {}", a, b, c, d, e)));
                        } else {
                            sink(format!("{} {} {} {}", a, b, c, d));
                        }
                    }
                }
            }
        }
        for a in 0..WIDE.len() {
            for b in 0..WIDE.len() {
                sink(format!("wide {} {}", a, b));
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let mut lits: Vec<String> = vec![];
        let extend = |pre: String, alpha: &[&str], n: usize| -> Vec<String> {
            let mut res = vec![pre];
            let mut from = 0;
            for _ in 0..n {
                let to = res.len();
                for i in from..to {
                    for a in alpha {
                        res.push(format!("{}{}", res[i], a));
                    }
                }
                from = to;
            }
            res
        };
        let idx: Vec<usize> = case.split(' ').filter_map(|w| w.parse().ok()).collect();
        if case == "short" {
            lits = extend(String::new(), &ALPHABET, 4);
        } else if case.starts_with("wide") {
            lits = extend(idx.iter().map(|i| WIDE[*i]).collect(), &WIDE, 2);
        } else {
            lits.extend(extend(idx.iter().map(|i| ALPHABET[*i]).collect(), &ALPHABET, 3));
        }
        let text: String = std::iter::once("(set-logic QF_S)(declare-const x String)".to_string())
            .chain(lits.iter().map(|l| format!("(assert (= x \"{}\"))\n", l)))
            .collect();
        let want: Vec<Sx> = parse(&text).unwrap().iter().map(reference).collect();
        let got = converted(&text, t)?;
        t.outcome("converted");
        same(&want, &got, t)
    }
    fn rule(&self) -> &'static str {
        "all string literals of length up to 7 (thorough: 8) over 9 characters and all of length up to 4 over 25 characters (with digits that are not ASCII): the characters denoted by the output literal are those of the input read with the documented escapes"
    }
}

/// Converting a converted script changes nothing.
pub struct Idempotent;
impl Check for Idempotent {
    fn id(&self) -> &'static str {
        "U03"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        sequences(if thorough { 4 } else { 3 }, 0, sink);
        batches(thorough, sink);
        for a in 0..9 {
            for b in 0..9 {
                for c in 0..9 {
                    sink(format!("literals {} {} {}", a, b, c));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let mut text = case.to_string();
        if let Some(pre) = case.strip_prefix("literals ") {
            let pre: String = pre.split(' ').map(|i| ALPHABET[i.parse::<usize>().unwrap()]).collect();
            text = "(declare-const x String)".into();
            for a in ALPHABET {
                for b in ALPHABET {
                    text.push_str(&format!("(assert (= x \"{}{}{}\"))\n", pre, a, b));
                }
            }
        }
        t.execs += 2;
        let once = modernize(&text)?.map_err(|e| format!("rejected: {}", e))?;
        let twice = modernize(&once)?.map_err(|e| format!("output rejected: {} in {}", e, once))?;
        t.outcome("converted twice");
        let (a, b) = (parse(&once)?, parse(&twice)?);
        for (x, y) in a.iter().zip(&b) {
            t.transitions += 1;
            if x != y {
                return Err(format!("not idempotent: {} becomes {}", x, y));
            }
        }
        if a.len() != b.len() {
            return Err(format!("not idempotent: {} commands become {}", a.len(), b.len()));
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all scripts of U01, all command sequences of U04 up to length 3, all literals of length 5: the output parses and converting it again gives the same commands"
    }
}

const COMMANDS: [&str; 14] = [
    "(set-option :produce-models true)", "(set-info :status sat)", "(set-logic QF_S)", "(set-logic QF_SLIA)",
    "(declare-const x String)", "(assert (= x \"a\"))", "(assert (>= (str.len x) 1))", "(assert (= (str.len x) (+ 1 1)))",
    "(define-fun h ((k Int)) Int (* k 2))", "(check-sat)", "(push 1)", "(assert (str.in.re x ((_ re.loop 1 2) re.allchar)))",
    "(get-value ((- 1 2)))", "(assert (forall ((k Int)) (< k (str.len x))))",
];

const LOGICS: [&str; 26] = [
    "ALL", "QF_S", "QF_SLIA", "QF_SNIA", "QF_LIA", "QF_IDL", "QF_UF", "QF_BV", "QF_AX", "QF_UFLIA", "QF_LRA", "QF_NIA", "QF_DT", "LIA", "UF", "S", "SLIA",
    "UFSLIA", "AUFLIRA", "HORN", "QF_AUFBVDTSNIRA", "all", "logic", "|QF S|", "|my logic|", "|a;b|",
];

/// All sequences of up to `n` commands, and those one longer that start with the first `k`.
fn sequences(n: usize, k: usize, sink: Sink<'_>) {
    let mut level: Vec<String> = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for p in &level {
            for c in COMMANDS {
                next.push(format!("{}{}\n", p, c));
            }
        }
        for s in &next {
            sink(s.clone());
        }
        level = next;
    }
    for c in &COMMANDS[..k] {
        for p in &level {
            sink(format!("{}\n{}", c, p));
        }
    }
}

/// The logic that is added when the script has none.
pub struct Logic;
impl Check for Logic {
    fn id(&self) -> &'static str {
        "U04"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        sink(String::new());
        sequences(4, if thorough { 6 } else { 0 }, sink);
        // every logic is kept, whatever its name says about it
        for l in LOGICS {
            for i in 0..=3 {
                for used in ["(assert (= x \"a\"))", "(assert (= (str.len x) (+ 1 1)))", "(assert (str.in.re x re.nostr))", ""] {
                    let mut c = vec!["(set-info :status sat)", "(declare-const x String)", used];
                    let set = format!("(set-logic {})", l);
                    c.insert(i, &set);
                    sink(c.join("\n"));
                }
            }
        }
        for op in &OPS {
            for t in flat(op) {
                for c in contexts(op.2, &t) {
                    sink(format!("(declare-const x String)\n{}\n(check-sat)\n", c));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let input = parse(case).unwrap();
        let mut got = converted(case, t)?;
        let is = |c: &Sx, h: &str| c.head() == Some(h);
        if input.iter().any(|c| is(c, "set-logic")) || input.is_empty() {
            t.outcome("kept");
        } else {
            t.outcome("added");
            let at: Vec<usize> = (0..got.len()).filter(|i| is(&got[*i], "set-logic")).collect();
            if at.len() != 1 {
                return Err(format!("logic: {} set-logic commands added", at.len()));
            }
            t.transitions += 1;
            // the standard wants options before the logic and everything else after it
            if got[..at[0]].iter().any(|c| !is(c, "set-option") && !is(c, "set-info")) {
                return Err(format!("logic: added after {}", got[at[0] - 1]));
            }
            let last = input.iter().position(|c| !is(c, "set-option") && !is(c, "set-info")).unwrap_or(input.len());
            if input[..last].iter().rposition(|c| is(c, "set-option")).map_or(false, |i| at[0] <= i) {
                return Err("logic: added before a set-option command".into());
            }
            let logic = got.remove(at[0]).list().unwrap()[1].to_string();
            fn arith(x: &Sx) -> bool {
                x.list().map_or(false, |l| {
                    matches!(x.head(), Some("+" | "-" | "*" | "<" | "<=" | ">" | ">=")) || l.iter().any(arith)
                })
            }
            if input.iter().any(arith) && !logic.contains("IA") && logic != "ALL" {
                return Err(format!("logic: {} does not include the arithmetic of the script", logic));
            }
            if !logic.contains('S') && logic != "ALL" {
                return Err(format!("logic: {} does not include strings", logic));
            }
        }
        let want: Vec<Sx> = input.iter().map(reference).collect();
        same(&want, &got, t)
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to 4 of 14 commands (thorough: also all of length 5 that start with one of 6), 26 logics at every place of scripts with and without arithmetic, and every operator in every context: one logic that covers strings and the arithmetic used is added if and only if none is set, after the leading options and before everything else; all other commands keep their order"
    }
}
