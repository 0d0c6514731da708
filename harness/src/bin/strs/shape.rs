//! S05: the transformed script is the original one with declarations renamed, string literals
//! replaced and nothing else changed.
use crate::common::{transform, Out};
use mc::eval::decode_literal;
use mc::run::{Check, Sink, Tally};
use mc::sexp::{parse, Sx};
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Shape;

fn list(l: Vec<Sx>) -> Sx {
    Sx::List(l)
}

/// Symbols can be quoted.
fn plain(a: &str) -> &str {
    a.strip_prefix('|').and_then(|a| a.strip_suffix('|')).unwrap_or(a)
}

/// Expands let binders and gives the variables of other binders unique names. Bound names hide
/// declared ones.
fn expand(t: &Sx, env: &HashMap<String, Sx>, unique: &mut usize) -> Sx {
    match t {
        Sx::Atom(a) => match env.get(plain(a)) {
            Some(t) => t.clone(),
            None => t.clone(),
        },
        Sx::Str(_) => t.clone(),
        Sx::List(l) if t.head() == Some("let") && l.len() == 3 => {
            let mut inner = env.clone();
            for b in l[1].list().unwrap_or(&[]) {
                if let Some([Sx::Atom(n), v]) = b.list() {
                    inner.insert(plain(n).to_string(), expand(v, env, unique));
                }
            }
            expand(&l[2], &inner, unique)
        }
        Sx::List(l) if matches!(t.head(), Some("forall" | "exists")) && l.len() == 3 => {
            let (vars, inner) = bind(&l[1], env, unique);
            list(vec![l[0].clone(), vars, expand(&l[2], &inner, unique)])
        }
        Sx::List(l) if t.head() == Some("_") => list(l.clone()),
        Sx::List(l) => list(l.iter().map(|x| expand(x, env, unique)).collect()),
    }
}

fn bind(vars: &Sx, env: &HashMap<String, Sx>, unique: &mut usize) -> (Sx, HashMap<String, Sx>) {
    let mut inner = env.clone();
    let vars = vars.list().unwrap_or(&[]).iter().map(|v| {
        let v = v.list().unwrap_or(&[]);
        *unique += 1;
        let name = Sx::Atom(format!("?{}", unique));
        inner.insert(plain(v[0].atom().unwrap_or("")).to_string(), name.clone());
        list([&[name], &v[1..]].concat())
    }).collect();
    (list(vars), inner)
}

/// The command with its terms expanded.
fn expand_command(c: &Sx, unique: &mut usize) -> Sx {
    let env = HashMap::new();
    match (c.head().unwrap_or(""), c.list()) {
        ("define-fun" | "define-fun-rec", Some(l)) if l.len() == 5 => {
            let (vars, inner) = bind(&l[2], &env, unique);
            list(vec![l[0].clone(), l[1].clone(), vars, l[3].clone(), expand(&l[4], &inner, unique)])
        }
        ("assert" | "get-value" | "check-sat-assuming", Some(l)) => list(l.iter().enumerate().map(|(i, t)| if i == 0 { t.clone() } else { expand(t, &env, unique) }).collect()),
        _ => c.clone(),
    }
}

/// Terms of the original script and what they became.
struct Zip {
    /// declared symbol -> new name at this point of the script
    names: HashMap<String, String>,
    /// new names of all declarations
    declared: HashSet<String>,
    /// new names of the variables that are bound here
    bound: Vec<String>,
    lits: BTreeMap<Vec<u32>, Vec<u32>>,
    expect: HashMap<Vec<u32>, Vec<u32>>,
}

impl Zip {
    fn term(&mut self, want: &Sx, got: &Sx) -> Result<(), String> {
        let bad = || Err(format!("wrong term: {} became {}", want, got));
        match (want, got) {
            (Sx::Atom(a), Sx::Atom(b)) => {
                let exp = self.names.get(plain(a)).cloned().unwrap_or_else(|| plain(a).to_string());
                if exp == plain(b) { Ok(()) } else { bad() }
            }
            (Sx::Str(a), Sx::Str(b)) => {
                let (a, b) = (decode_literal(a), decode_literal(b));
                if let Some(old) = self.lits.insert(a.clone(), b.clone()) {
                    if old != b {
                        return Err(format!("inconsistent: {} became {}", want, got));
                    }
                }
                match self.expect.get(&a) {
                    Some(m) if *m != b => Err(format!("other than recorded: {} became {}", want, got)),
                    None => Err(format!("not recorded: {} became {}", want, got)),
                    _ => Ok(()),
                }
            }
            (Sx::List(a), Sx::List(b)) => {
                if a.len() != b.len() {
                    return bad();
                }
                if matches!(want.head(), Some("_")) {
                    return if want == got { Ok(()) } else { bad() };
                }
                if matches!(want.head(), Some("forall" | "exists")) && a.len() == 3 {
                    if a[0] != b[0] {
                        return bad();
                    }
                    return self.binder(&a[1], &b[1], &a[2], &b[2]);
                }
                a.iter().zip(b).try_for_each(|(a, b)| self.term(a, b))
            }
            _ => bad(),
        }
    }

    fn binder(&mut self, vars: &Sx, got: &Sx, body: &Sx, got_body: &Sx) -> Result<(), String> {
        let bad = || Err(format!("wrong binder: {} became {}", vars, got));
        let (Some(v), Some(w)) = (vars.list(), got.list()) else { return bad() };
        if v.len() != w.len() {
            return bad();
        }
        for (v, w) in v.iter().zip(w) {
            match (v.list(), w.list()) {
                (Some([Sx::Atom(v), s]), Some([Sx::Atom(w), r])) if s == r => {
                    let w = plain(w).to_string();
                    if self.declared.contains(&w) || self.bound.contains(&w) {
                        return Err(format!("capture: {} bound in {}", w, got_body));
                    }
                    self.names.insert(plain(v).to_string(), w.clone());
                    self.bound.push(w);
                }
                _ => return bad(),
            }
        }
        let r = self.term(body, got_body);
        self.bound.truncate(self.bound.len() - v.len());
        r
    }
}

/// `(assert (= t t))`, which the tool may leave out.
fn trivial(c: &Sx) -> bool {
    match c.list() {
        Some([Sx::Atom(a), t]) if a == "assert" => match expand(t, &HashMap::new(), &mut 0) {
            Sx::List(l) => l.len() == 3 && l[0] == Sx::Atom("=".into()) && l[1] == l[2],
            _ => false,
        },
        _ => false,
    }
}

/// Constructors and selectors keep their names.
fn constructors(c: &Sx) -> Vec<String> {
    let one = |d: &Sx| -> Vec<String> {
        (d.list().unwrap_or(&[]).iter())
            .flat_map(|k| k.list().unwrap_or(&[]).iter().map(|n| n.list().map_or(n, |s| &s[0])))
            .filter_map(|n| n.atom().map(|n| plain(n).to_string()))
            .collect()
    };
    match (c.head(), c.list()) {
        (Some("declare-datatype"), Some([_, _, d])) => one(d),
        (Some("declare-datatypes"), Some([_, _, ds])) => ds.list().unwrap_or(&[]).iter().flat_map(one).collect(),
        _ => vec![],
    }
}

pub fn judge(text: &str, out: &Out, t: &mut Tally) -> Result<(), String> {
    let orig: Vec<Sx> = parse(text)?.into_iter().filter(|c| !trivial(c)).collect();
    let got: Vec<Sx> = parse(&out.text).map_err(|e| format!("unreadable output: {}", e))?.into_iter().filter(|c| !trivial(c)).collect();
    let head = |c: &Sx| c.head().unwrap_or("").to_string();
    let setting = |c: &Sx| matches!(head(c).as_str(), "set-logic" | "set-info" | "set-option" | "declare-sort" | "define-sort" | "declare-datatype" | "declare-datatypes");
    let decl = |c: &Sx| matches!(head(c).as_str(), "declare-const" | "declare-fun");
    let defn = |c: &Sx| matches!(head(c).as_str(), "define-fun" | "define-fun-rec");
    let mut want: Vec<&Sx> = orig.iter().filter(|c| setting(c)).collect();
    want.extend(orig.iter().filter(|c| decl(c)));
    want.extend(orig.iter().filter(|c| !setting(c) && !decl(c)));
    if want.len() != got.len() {
        return Err(format!("wrong commands: {} instead of {} in {}", got.len(), want.len(), out.text));
    }
    // the declarations
    let settings = want.iter().filter(|c| setting(c)).count();
    let decls = want.iter().filter(|c| decl(c)).count();
    let mut fresh: HashSet<String> = orig.iter().flat_map(constructors).collect();
    let mut renamed = vec![];
    let mut defined = vec![];
    for (k, (w, g)) in want.iter().zip(&got).enumerate() {
        if k < settings || !decl(w) && !defn(w) {
            continue;
        }
        let (w, g) = (w.list().unwrap(), g.list().ok_or("not a command")?);
        if w.len() != g.len() || w[0] != g[0] || k < settings + decls && w[2..] != g[2..] {
            return Err(format!("wrong declaration: {} instead of {}", list(g.to_vec()), list(w.to_vec())));
        }
        let (Some(a), Some(b)) = (w[1].atom(), g[1].atom()) else { return Err("not a symbol".into()) };
        if !fresh.insert(plain(b).to_string()) {
            return Err(format!("two declarations of {} in {}", b, out.text));
        }
        if k < settings + decls { &mut renamed } else { &mut defined }.push((plain(a).to_string(), plain(b).to_string()));
    }
    let distinct: HashSet<&String> = renamed.iter().map(|(a, _)| a).collect();
    if distinct.len() == renamed.len() {
        let map: HashMap<&str, &str> = out.alpha.iter().map(|(a, b)| (plain(a), plain(b))).collect();
        if map.len() != out.alpha.len() || renamed.iter().any(|(a, b)| map.get(a.as_str()) != Some(&b.as_str())) {
            return Err(format!("renaming not recorded: {:?} instead of {:?}", out.alpha, renamed));
        }
        if map.iter().any(|(a, b)| !renamed.iter().chain(&defined).any(|(c, d)| a == c && b == d)) {
            return Err(format!("renaming recorded for something else: {:?}", out.alpha));
        }
    }
    let mut z = Zip {
        names: HashMap::new(),
        declared: fresh,
        bound: vec![],
        lits: BTreeMap::new(),
        expect: out.string_map.iter().map(|(a, b)| (a.chars().map(|c| c as u32).collect(), b.chars().map(|c| c as u32).collect())).collect(),
    };
    // the names in force are those of the last declaration before a command
    let mut in_force: Vec<HashMap<String, String>> = vec![];
    let mut now = HashMap::new();
    let (mut next, mut next_defined) = (renamed.iter(), defined.iter());
    for c in &orig {
        if decl(c) {
            let (a, b) = next.next().unwrap();
            now.insert(a.clone(), b.clone());
        } else if !setting(c) {
            if defn(c) {
                let (a, b) = next_defined.next().unwrap();
                now.insert(a.clone(), b.clone());
            }
            in_force.push(now.clone());
        }
    }
    for (w, g) in want[..settings].iter().zip(&got) {
        if *w != g {
            return Err(format!("wrong setting: {} instead of {}", g, w));
        }
    }
    let mut unique = 0;
    for ((w, g), names) in want[settings + decls..].iter().zip(&got[settings + decls..]).zip(in_force) {
        z.names = names;
        t.transitions += 1;
        let w = expand_command(w, &mut unique);
        let bad = || Err(format!("wrong command: {} instead of {}", g, w));
        let (l, h) = (w.list().unwrap(), g.list().ok_or("not a command")?);
        match w.head().unwrap_or("") {
            "assert" | "get-value" | "check-sat-assuming" => {
                if l.len() != h.len() || l[0] != h[0] {
                    return bad();
                }
                for (w, g) in l[1..].iter().zip(&h[1..]) {
                    z.term(w, g)?;
                }
            }
            "define-fun" | "define-fun-rec" => {
                if l.len() != 5 || h.len() != 5 || l[3] != h[3] {
                    return bad();
                }
                z.binder(&l[2], &h[2], &l[4], &h[4])?;
            }
            _ => {
                if w != *g {
                    return bad();
                }
            }
        }
    }
    injective(&orig, &z.lits)
}

const PREDICATES: [&str; 10] = ["=", "distinct", "str.prefixof", "str.suffixof", "str.contains", "str.in_re", "str.is_digit", "<", ">", "<="];

/// Literals that are related to the same variable are mapped to different ones. Only assertions
/// with one atom are considered to relate their literals and variables.
fn injective(orig: &[Sx], lits: &BTreeMap<Vec<u32>, Vec<u32>>) -> Result<(), String> {
    fn collect(t: &Sx, atoms: &mut HashSet<String>, lits: &mut HashSet<Vec<u32>>, preds: &mut usize, other: &mut bool) {
        match t {
            Sx::Atom(a) => {
                atoms.insert(a.clone());
            }
            Sx::Str(s) => {
                lits.insert(decode_literal(s));
            }
            Sx::List(l) => {
                match t.head() {
                    Some(h) if PREDICATES.contains(&h) => *preds += 1,
                    Some("and" | "or" | "=>" | "xor" | "ite" | "let") => *other = true,
                    _ => {}
                }
                l.iter().for_each(|x| collect(x, atoms, lits, preds, other));
            }
        }
    }
    let mut groups: Vec<(HashSet<String>, HashSet<Vec<u32>>)> = vec![];
    for c in orig.iter().filter(|c| c.head() == Some("assert")) {
        let (mut atoms, mut ls, mut preds, mut other) = (HashSet::new(), HashSet::new(), 0, false);
        collect(&c.list().unwrap()[1], &mut atoms, &mut ls, &mut preds, &mut other);
        if preds != 1 || other {
            continue;
        }
        let mut vars: HashSet<String> = ["x", "y"].iter().filter(|v| atoms.contains(**v)).map(|v| v.to_string()).collect();
        let mut i = 0;
        while i < groups.len() {
            if !groups[i].0.is_disjoint(&vars) {
                let (v, l) = groups.swap_remove(i);
                vars.extend(v);
                ls.extend(l);
            } else {
                i += 1;
            }
        }
        groups.push((vars, ls));
    }
    for (_, ls) in groups {
        let mut seen: HashMap<&Vec<u32>, &Vec<u32>> = HashMap::new();
        for l in &ls {
            if let Some(m) = lits.get(l) {
                if let Some(o) = seen.insert(m, l) {
                    return Err(format!("two literals became one: {:?} and {:?} became {:?}", o, l, m));
                }
            }
        }
    }
    Ok(())
}

/// (sorts of the variables x, y, z; assertions over them)
const TERMS: &[&str] = &[
    "(= x \"a\")", "(= \"ab\" x)", "(= x y)", "(distinct x y \"a\" \"b\")", "(= x x)", "(= \"a\" \"b\")", "(str.prefixof \"a\" x)", "(str.prefixof x \"ab\")", "(not (str.contains x \"ab\"))",
    "(= (str.len x) 3)", "(= (str.len x) (+ 1 2))", "(= (+ 1 2) (str.len x))", "(= (str.len x) (str.len y))", "(= i (str.len x))", "(= (str.len x) i)", "(> (str.len x) (* 2 i) (- 3))", "(= (str.indexof x \"a\" i) (- 1))",
    "p", "(and p (not q))", "(= p (= x \"a\"))", "(= p q (= x \"a\"))", "(= p (and q (= x \"a\")))", "(ite p (= x \"a\") (= x \"b\"))", "(= x (ite p \"a\" \"b\"))", "(= (ite p x y) (ite q y x))", "(= i (ite p 1 2))", "(= (ite p i 2) (str.len x))", "(= (str.++ x \"a\" y) (str.++ y \"b\" x))",
    "(str.in_re x (re.++ (str.to_re \"a\") (re.* (re.range \"a\" \"f\"))))", "(str.in_re x (re.union (re.comp (str.to_re \"ab\")) re.none re.all re.allchar (re.opt (str.to_re x))))", "(str.in_re x ((_ re.loop 1 3) (str.to_re \"a\")))", "(str.in_re x ((_ re.^ 2) (re.+ (str.to_re \"b\"))))",
    "(str.in_re x r)", "(str.in_re x (re.++ r (str.to_re \"a\")))", "(= (str.at x 0) (str.substr y i 2))", "(= (str.replace x \"a\" y) (str.replace_all y \"b\" x))", "(= (str.to_int x) 12)", "(= x (str.from_int i))", "(= (str.to_code x) (str.to_code y))", "(str.is_digit (str.at x i))",
    "(let ((z (str.++ x \"a\"))) (= z y))", "(let ((z (str.++ x \"a\")) (w y)) (= z (str.++ w z)))", "(let ((x y) (y x)) (str.prefixof x y))", "(let ((x \"a\")) (let ((y (str.++ x \"b\"))) (let ((x y)) (= x y))))", "(and (let ((x y)) (= x \"a\")) (= x \"b\"))", "(let ((a0 y)) (= a0 x))", "(let ((new_var0 (str.len x))) (= new_var0 i))",
    "(let ((p (= x \"a\"))) (or p (let ((p (not p))) p)))", "(let ((z x)) (and (let ((z y)) (= z \"a\")) (= z \"b\")))", "(let ((x y) (z x)) (and (let ((x z) (z \"a\")) (str.prefixof z x)) (str.suffixof x z)))",
    "(let ((a0 y) (z x)) (str.prefixof z a0))", "(let ((z x) (a0 y)) (= z (str.++ a0 \"a\")))", "(let ((a1 x)) (let ((z y)) (str.contains z a1)))", "(let ((i (str.len x))) (= (let ((i (+ i 1))) i) (* 2 i)))", "(let ((c (= (str.len x) 2))) (ite c (= x \"ab\") c))", "(let ((z (= x \"a\")) (y \"b\")) (and z (= x y)))",
    "(= b #x0f)", "(= (bvadd b #b00000001) #xff)", "(= ((_ extract 3 0) b) #x1)", "(= (concat b b) (concat #x01 b))", "(= (select m i) p)", "(= (store m 0 (= x \"a\")) m)", "(= (select (store n i 4) 1) (str.len (str.++ x \"ab\")))", "(= 1.5 g)", "(<= (/ g 2.0) 0.25 (to_real i))",
    "(str.contains (str.++ (str.at x 0) (str.replace x \"a\" (str.++ \"b\" y))) (str.substr y (str.len x) (- (str.len y) 1)))", "(=> p q (= x \"c\") (xor p q))", "(= (str.prefixof \"a\" x) (str.suffixof \"a\" x))", "(= (str.prefixof \"a\" x) p)", "(or (str.prefixof \"a\" x))", "(str.in_re x (re.diff (re.range \"0\" \"9\") (str.to_re \"5\")))",
    "(= x \"\")", "(= x \"\"\"\")", "(= x \"\\u{e9}\")", "(str.contains x \"\\u0041\")", "true", "(not false)", "(= true (= x y))", "(= (= x y) (= y x) true)",
];
const SORTS: &[(&str, &str)] = &[("x", "String"), ("y", "String"), ("i", "Int"), ("p", "Bool"), ("q", "Bool"), ("r", "RegLan"), ("b", "(_ BitVec 8)"), ("m", "(Array Int Bool)"), ("n", "(Array Int Int)"), ("g", "Real")];

fn uses(t: &Sx, out: &mut HashSet<String>) {
    match t {
        Sx::Atom(a) => {
            out.insert(a.clone());
        }
        Sx::List(l) => l.iter().for_each(|x| uses(x, out)),
        _ => {}
    }
}

/// Declarations that the text needs, in the order of SORTS; `fun` says which are functions.
fn declare(body: &str, fun: u32) -> String {
    let mut used = HashSet::new();
    parse(body).unwrap().iter().for_each(|c| uses(c, &mut used));
    let mut s = String::new();
    for (k, (n, sort)) in SORTS.iter().enumerate() {
        if used.contains(*n) {
            s += &if fun >> (k % 2) & 1 == 1 { format!("(declare-fun {} () {})", n, sort) } else { format!("(declare-const {} {})", n, sort) };
        }
    }
    s
}

/// The text with the variable `from` renamed.
fn rename(t: &Sx, map: &[(&str, &str)]) -> Sx {
    match t {
        Sx::Atom(a) => match map.iter().find(|(f, _)| f == a) {
            Some((_, n)) => Sx::Atom(n.to_string()),
            None => t.clone(),
        },
        Sx::Str(_) => t.clone(),
        Sx::List(l) => list(l.iter().map(|x| rename(x, map)).collect()),
    }
}

impl Check for Shape {
    fn id(&self) -> &'static str {
        "S05"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        // every assertion, every ordered pair of them
        for (i, a) in TERMS.iter().enumerate() {
            let mut both = |body: String| {
                for fun in 0..4 {
                    if fun == 0 || thorough || i % 4 == fun {
                        sink(format!("{}{}", declare(&body, fun as u32), body));
                    }
                }
            };
            both(format!("(assert {})", a));
            for b in TERMS {
                both(format!("(assert {})(assert {})", a, b));
            }
            if thorough {
                for b in TERMS.iter().step_by(3) {
                    for c in TERMS.iter().step_by(5) {
                        both(format!("(assert {})(assert {})(assert {})", a, b, c));
                    }
                }
            }
        }
        // functions, sorts and bound variables
        let funs = [("(define-fun f ((k Int)) Bool (= k (str.len x)))", "(f (str.len y))"), ("(define-fun a0 () Bool (= x \"a\"))", "(and a0 (= y \"a\"))"), ("(define-fun g ((n Int)) Int (ite (= n (str.len x)) 0 (- n 1)))", "(= (g 3) (g (str.len x)))"),
            ("(declare-datatype C ((a0) (green)))(declare-const col C)", "(= (= col a0) (= x \"a\"))"), ("(declare-datatypes ((P 0)) (((mk (fst Int) (a2 Bool)) (nil))))(declare-const q P)(declare-fun j (P) P)", "(and (a2 q) (= (j (mk 1 true)) nil) (= (fst (j q)) (str.len x)))"), ("(declare-datatype N ((new_var0) (new_var1 (new_var2 Int))))(declare-const n N)", "(ite (= n new_var0) (= (new_var2 n) (str.len x)) (= x (str.++ y \"b\")))"),
            ("(declare-fun h (Int Bool) Int)", "(= (h (str.len x) (= x \"a\")) 3)"), ("(declare-sort U 0)(declare-const u U)(declare-fun w (U) Bool)", "(= (w u) (= x \"a\"))"), ("(define-sort I () Int)(declare-const ii I)", "(= ii (str.len x))"), ("(define-fun c ((x Int) (a1 Bool)) Int (ite a1 x (str.len y)))", "(= (c 3 (= x \"b\")) 2)"),
            ("(define-fun d ((p Bool)) Bool (let ((x p)) (or x (= y \"c\"))))", "(d (str.prefixof \"c\" x))"), ("(declare-fun a0 (Int) Int)", "(= (a0 1) (str.len x))"), ("(declare-fun new_var0 (Int) Int)", "(= (new_var0 (new_var0 1)) (str.len x))"), ("(define-fun e ((k Int)) Bool (forall ((x String) (k Bool)) (or k (= x y))))", "(e (str.len x))"),
            ("", "(forall ((x String)) (str.prefixof \"a\" x))"), ("", "(exists ((z String) (i Int)) (and (= z \"a\") (= i (str.len z)) (= x (str.++ z y))))"), ("", "(forall ((x String)) (exists ((x Int)) (= x (str.len y))))"), ("", "(let ((z x)) (forall ((x String)) (= x z)))"), ("", "(forall ((z String)) (let ((x z)) (exists ((z Int)) (= (str.len x) z))))"),
            ("", "(exists ((a0 String) (a1 String)) (= x (str.++ a0 y a1)))"), ("", "(= (forall ((q Bool)) (or q (= x \"a\"))) (exists ((q Bool)) (and q (= y \"b\"))))"), ("", "(forall ((new_var0 Bool)) (=> new_var0 (= x \"a\")))"), ("", "(or (forall ((x Int)) (= x 1)) (= x \"a\"))")];
        let clash = |a: &str, b: &str| ["a0", "new_var0"].iter().any(|n| a.contains(n) && b.contains(n));
        for (i, (d1, a1)) in funs.iter().enumerate() {
            for (j, (d2, a2)) in funs.iter().enumerate() {
                for body in ["", "(assert (= x \"ab\"))", "(assert (str.contains x y))(check-sat)"] {
                    let d2 = if i == j || clash(d1, d2) { "" } else { d2 };
                    let a2 = if d2.is_empty() && clash(d1, a2) && !a2.contains("exists") && !a2.contains("forall") { "true" } else { a2 };
                    sink(format!("(declare-const x String)(declare-const y String){}{}(assert {})(assert {}){}", d1, d2, a1, a2, body));
                    sink(format!("{}(declare-fun y () String)(declare-const x String){}(assert {}){}{}(assert {})", if d1.contains(" x") || d1.contains(" y") { "" } else { d1 }, if d1.contains(" x") || d1.contains(" y") { d1 } else { "" }, a1, body, d2, a2));
                    if thorough {
                        for (d3, a3) in funs.iter().skip(j + 1) {
                            if i != j && ![d1, d2].iter().any(|d| clash(d, d3)) && !(d3.is_empty() && d2.is_empty()) && i < j {
                                sink(format!("(declare-const x String)(declare-const y String){}{}{}(assert {})(assert {})(assert {}){}", d1, d2, d3, a1, a2, a3, body));
                            }
                        }
                    }
                }
            }
        }
        // names of the variables
        let names = ["x", "y", "a0", "a1", "a2", "new_var0", "new_var1", "|a b|", "|x|", "|a0|", "v0", "str", "A", "_1", "n!@$%^&*_-+=<>.?/", "|(assert false)|", "|\"a\"|", "length"];
        for a in names {
            for b in names {
                if plain(a) == plain(b) {
                    continue;
                }
                for body in ["(assert (= x (str.++ y \"a\")))(assert (str.prefixof x \"ab\"))(check-sat)(get-value (x y))", "(assert (let ((x y) (y \"b\")) (str.contains x y)))(assert (= x \"c\"))", "(assert (= (str.len x) (+ (str.len y) 1)))(assert (= (str.len x) (+ (str.len y) 1)))"] {
                    let body: String = parse(body).unwrap().iter().map(|c| rename(c, &[("x", a), ("y", b)]).to_string()).collect();
                    sink(format!("(declare-const {} String)(declare-fun {} () String){}", a, b, body));
                    sink(format!("(declare-const {} String)(declare-const z Int)(declare-fun {} () String)(assert (= z (str.len {}))){}", b, a, b, body));
                }
            }
        }
        // sequences of commands; declarations come before uses
        let cmds = ["(set-info :status sat)", "(check-sat)", "(push 1)", "(pop 1)", "(get-value (x (str.len x) (= x \"ab\")))", "(assert (= x \"ab\"))", "(assert (str.prefixof \"a\" x))", "(assert p)", "(declare-const y String)", "(declare-fun q () Bool)", "(check-sat-assuming (p (not p)))", "(echo \"ab\")", "(exit)",
            "(set-option :produce-models true)", "(set-logic QF_S)", "(set-info :source |a \"b\" c|)", "(get-model)", "(get-assertions)", "(get-unsat-core)", "(reset-assertions)", "(get-info :name)", "(get-assignment)", "(get-proof)", "(get-unsat-assumptions)"];
        let n = cmds.len();
        for depth in 1..=if thorough { 4 } else { 3 } {
            let n = if depth > 2 { 13 } else { n };
            for k in 0..n.pow(depth as u32) {
                let mut s = String::from("(declare-const x String)(declare-const p Bool)");
                let mut ds = 0;
                let mut ok = true;
                let mut k = k;
                let mut level = 0i32;
                for d in 0..depth {
                    let c = cmds[k % n];
                    k /= n;
                    if c.starts_with("(declare") {
                        ds += 1;
                        ok &= !s.contains(c);
                    }
                    level += i32::from(c == "(push 1)") - i32::from(c == "(pop 1)");
                    ok &= level >= 0;
                    // the last command of long sequences uses what was declared
                    let _ = d;
                    s += c;
                }
                if ds > 0 {
                    s += &"(assert (= y \"ab\"))"[..if s.contains("const y") { 19 } else { 0 }];
                    s += if s.contains("q ()") { "(assert (= q (= x \"c\")))" } else { "" };
                }
                if ok {
                    sink(s);
                }
            }
        }
        // declarations in scopes: names come back after a pop with the same or another sort
        for s1 in ["String", "Int", "Bool"] {
            for s2 in ["String", "Int", "Bool"] {
                for s3 in ["String", "Int", ""] {
                    let v = |n: &str, s: &str| match s { "String" => format!("(assert (str.prefixof \"a\" {}))", n), "Int" => format!("(assert (< {} 3))", n), "Bool" => format!("(assert {})", n), _ => String::new() };
                    let third = if s3.is_empty() { String::new() } else { format!("(declare-const y {})", s3) };
                    for (open, close) in [("(push 1)", "(pop 1)"), ("(push 2)", "(pop 2)")] {
                        sink(format!("{o}(declare-const x {})(assert {e}){}{c}{o}(declare-const x {}){t}{}{}(check-sat){c}", s1, v("x", s1), s2, v("x", s2), v("y", s3), o = open, c = close, t = third, e = "true"));
                        sink(format!("(declare-const w String){o}(declare-const x {}){}{c}(declare-const x {}){t}{}{}{}", s1, v("x", s1), s2, v("x", s2), v("y", s3), v("w", "String"), o = open, c = close, t = third));
                        sink(format!("{o}(declare-const x {}){}{c}{t}{o}(declare-const x {}){}{}{c}{o}(declare-fun x () {}){}{c}", s1, v("x", s1), s2, v("x", s2), v("y", s3), s1, v("x", s1), o = open, c = close, t = third));
                    }
                }
            }
        }
        // many literals
        let kinds: [(&str, &dyn Fn(usize) -> String); 6] = [
            ("one char", &|k| char::from_u32(0x21 + k as u32).map(|c| match c { '"' => "\"\"".into(), '\\' => "\\u{5c}".into(), '\u{7f}'.. => format!("\\u{{{:x}}}", c as u32), c => c.to_string() }).unwrap()),
            ("decimal", &|k| k.to_string()),
            ("unary", &|k| "a".repeat(k)),
            ("wide", &|k| format!("\\u{{{:x}}}", 0x3b1 + k * 7)),
            ("words", &|k| { let mut k = k; let mut s = String::new(); loop { s.push(b"abcdefgh"[k % 8] as char); k /= 8; if k == 0 { break s; } } }),
            ("punctuation", &|k| { let mut k = k; let mut s = String::new(); loop { s.push(b"-_/.:@"[k % 6] as char); k /= 6; if k == 0 { break s; } } }),
        ];
        let extra = ["", "(assert (= (str.len x) 1))", "(assert (str.in_re x (re.* (re.range \"a\" \"z\"))))", "(assert (str.is_digit x))", "(assert (str.prefixof x y))", "(assert (str.contains x \"0\"))", "(assert (= (str.to_int x) 3))", "(assert (str.in_re x (re.* (re.union (re.range \"0\" \"9\") (re.range \"A\" \"Z\")))))"];
        let sizes: &[usize] = if thorough { &[1, 2, 3, 5, 9, 17, 33, 64, 90, 95, 128, 200] } else { &[1, 3, 9, 33, 90, 128] };
        for (kind, f) in kinds {
            for &n in sizes {
                for e in extra {
                    for how in 0..4 {
                        if (how > 0 || !e.is_empty()) && (n > 100 || n > 33 && how > 0 || kind == "unary") && !thorough {
                            continue;
                        }
                        if kind == "unary" && n > 100 {
                            continue;
                        }
                        let mut s = String::from("(declare-const x String)(declare-const y String)");
                        for k in 0..n {
                            let l = f(k);
                            s += &match how {
                                0 => format!("(assert (not (= x \"{}\")))", l),
                                1 => format!("(assert (not (str.prefixof \"{}\" x)))", l),
                                2 if k % 2 == 0 => format!("(assert (not (= y \"{}\")))", l),
                                2 => format!("(assert (str.contains x \"{}\"))", l),
                                _ => format!("(assert (str.in_re {} (str.to_re \"{}\")))", if k % 3 == 0 { "x" } else { "y" }, l),
                            };
                        }
                        sink(s + e);
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        for c2c in [false, true] {
            t.execs += 1;
            t.states += 1;
            let out = transform(1, case, c2c).map_err(|e| format!("{}{}", e, if c2c { " (char-to-char)" } else { "" }))?;
            if !out.failed.is_empty() {
                return Err(format!("bail-out: {:?}", out.failed));
            }
            judge(case, &out, t).map_err(|e| format!("{}{}", e, if c2c { " (char-to-char)" } else { "" }))?;
        }
        t.outcome("same shape");
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all single, pairs (thorough: also triples) of 82 assertions over eleven variables of eight sorts; all pairs of 18 names; all sequences of up to 2 of 24 commands and of 3 (thorough: 4) of 13 of them; redeclarations in scopes; 20 definitions (not recursive), uninterpreted functions and quantifiers, alone and in pairs (thorough: triples); up to 128 (thorough: 200) literals of six kinds next to eight other constraints; both mapping modes"
    }
}
