//! Reference semantics: evaluates SMT-LIB scripts (core, integers, bit-vector comparison,
//! strings and regular expressions, uninterpreted functions) under a concrete valuation.
use crate::sexp::Sx;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Bool(bool),
    Int(i128),
    Bv(usize, u128),
    Str(Rc<Vec<u32>>),
}
use Val::*;

pub fn s(x: &str) -> Val {
    Str(Rc::new(x.chars().map(|c| c as u32).collect()))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sort {
    Bool,
    Int,
    Bv(usize),
    Str,
    Re,
}

pub fn sort(x: &Sx) -> Result<Sort, String> {
    match x {
        Sx::Atom(a) => match a.as_str() {
            "Bool" => Ok(Sort::Bool),
            "Int" => Ok(Sort::Int),
            "String" => Ok(Sort::Str),
            "RegLan" => Ok(Sort::Re),
            _ => Err(format!("sort {}", a)),
        },
        Sx::List(l) => match l.as_slice() {
            [Sx::Atom(u), Sx::Atom(b), Sx::Atom(n)] if u == "_" && b == "BitVec" => {
                Ok(Sort::Bv(n.parse().unwrap()))
            }
            _ => Err(format!("sort {}", x)),
        },
        _ => Err(format!("sort {}", x)),
    }
}

/// Decodes the SMT-LIB 2.6 escapes of a string literal (`\u{X..}` and `\uXXXX`).
pub fn decode_literal(lit: &str) -> Vec<u32> {
    let cs: Vec<char> = lit.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && cs.get(i + 1) == Some(&'u') {
            if cs.get(i + 2) == Some(&'{') {
                let mut j = i + 3;
                let mut v = 0u32;
                while j < cs.len() && j < i + 8 && cs[j].is_ascii_hexdigit() {
                    v = v * 16 + cs[j].to_digit(16).unwrap();
                    j += 1;
                }
                if j > i + 3 && cs.get(j) == Some(&'}') && v <= 0x2FFFF {
                    out.push(v);
                    i = j + 1;
                    continue;
                }
            } else if i + 6 <= cs.len() && cs[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) {
                let h: String = cs[i + 2..i + 6].iter().collect();
                out.push(u32::from_str_radix(&h, 16).unwrap());
                i += 6;
                continue;
            }
        }
        out.push(cs[i] as u32);
        i += 1;
    }
    out
}

#[derive(Clone, Debug)]
pub enum E {
    C(Val),
    Var(usize),
    Uf(usize, Vec<E>),
    Op(String, Vec<i128>, Vec<E>),
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub vars: Vec<(String, Sort)>,
    pub funs: Vec<(String, Vec<Sort>, Sort)>,
    pub asserts: Vec<E>,
    /// Other commands, in order of appearance.
    pub other: Vec<Sx>,
}

type Scope = HashMap<String, E>;

fn unquote(a: &str) -> &str {
    a.strip_prefix('|').and_then(|a| a.strip_suffix('|')).unwrap_or(a)
}

impl Script {
    pub fn parse(text: &str) -> Result<Script, String> {
        Self::from_sexps(&crate::sexp::parse(text)?)
    }

    pub fn from_sexps(cmds: &[Sx]) -> Result<Script, String> {
        let mut sc = Script::default();
        for c in cmds {
            let l = c.list().ok_or_else(|| format!("not a command: {}", c))?;
            match c.head() {
                Some("declare-const") => {
                    sc.declare(l[1].atom().unwrap(), vec![], sort(&l[2])?);
                }
                Some("declare-fun") => {
                    let args: Result<Vec<_>, _> = l[2].list().unwrap().iter().map(sort).collect();
                    sc.declare(l[1].atom().unwrap(), args?, sort(&l[3])?);
                }
                Some("assert") => {
                    let e = sc.compile(&l[1], &Scope::new())?;
                    sc.asserts.push(e);
                }
                _ => sc.other.push(c.clone()),
            }
        }
        Ok(sc)
    }

    fn declare(&mut self, name: &str, args: Vec<Sort>, ret: Sort) {
        let name = unquote(name).to_string();
        if args.is_empty() {
            if !self.vars.iter().any(|(n, _)| *n == name) {
                self.vars.push((name, ret));
            }
        } else {
            self.funs.push((name, args, ret));
        }
    }

    pub fn compile(&self, x: &Sx, scope: &Scope) -> Result<E, String> {
        match x {
            Sx::Str(st) => Ok(E::C(Str(Rc::new(decode_literal(st))))),
            Sx::Atom(a) => {
                let name = unquote(a);
                if let Some(e) = scope.get(name) {
                    return Ok(e.clone());
                }
                if let Some(i) = self.vars.iter().position(|(n, _)| n == name) {
                    return Ok(E::Var(i));
                }
                match a.as_str() {
                    "true" => return Ok(E::C(Bool(true))),
                    "false" => return Ok(E::C(Bool(false))),
                    "re.none" | "re.nostr" | "re.all" | "re.allchar" => {
                        return Ok(E::Op(a.clone(), vec![], vec![]))
                    }
                    _ => {}
                }
                if let Some(b) = a.strip_prefix("#b") {
                    return Ok(E::C(Bv(b.len(), u128::from_str_radix(b, 2).map_err(|e| e.to_string())?)));
                }
                if let Some(h) = a.strip_prefix("#x") {
                    return Ok(E::C(Bv(4 * h.len(), u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)));
                }
                a.parse::<i128>().map(|n| E::C(Int(n))).map_err(|_| format!("unknown symbol {}", a))
            }
            Sx::List(l) => {
                if x.head() == Some("let") {
                    let mut inner = scope.clone();
                    for b in l[1].list().unwrap() {
                        let b = b.list().unwrap();
                        inner.insert(unquote(b[0].atom().unwrap()).into(), self.compile(&b[1], scope)?);
                    }
                    return self.compile(&l[2], &inner);
                }
                if x.head() == Some("!") {
                    return self.compile(&l[1], scope);
                }
                if x.head() == Some("_") {
                    if let Some(n) = l[1].atom().and_then(|a| a.strip_prefix("bv")) {
                        if let Ok(v) = n.parse() {
                            return Ok(E::C(Bv(l[2].atom().unwrap().parse().unwrap(), v)));
                        }
                    }
                    return Err(format!("indexed {}", x));
                }
                let args: Result<Vec<E>, String> =
                    l[1..].iter().map(|a| self.compile(a, scope)).collect();
                let args = args?;
                match &l[0] {
                    Sx::Atom(f) => {
                        let name = unquote(f);
                        if let Some(i) = self.funs.iter().position(|(n, _, _)| n == name) {
                            return Ok(E::Uf(i, args));
                        }
                        if !KNOWN_OPS.contains(&f.as_str()) {
                            return Err(format!("unknown operator {}", f));
                        }
                        Ok(E::Op(f.clone(), vec![], args))
                    }
                    Sx::List(h) if l[0].head() == Some("_") => {
                        let f = h[1].atom().unwrap().to_string();
                        let idx: Result<Vec<i128>, _> =
                            h[2..].iter().map(|i| i.atom().unwrap_or("?").parse::<i128>()).collect();
                        if !matches!(f.as_str(), "re.loop" | "re.^") {
                            return Err(format!("unknown operator {}", l[0]));
                        }
                        Ok(E::Op(format!("_{}", f), idx.map_err(|e| e.to_string())?, args))
                    }
                    _ => Err(format!("application {}", x)),
                }
            }
        }
    }
}

const KNOWN_OPS: &[&str] = &[
    "not", "and", "or", "xor", "=>", "=", "distinct", "ite", "+", "-", "*", "<", "<=", ">", ">=",
    "bvule", "str.++", "str.len", "str.at", "str.substr", "str.prefixof", "str.suffixof",
    "str.contains", "str.indexof", "str.replace", "str.replace_all", "str.replace_re",
    "str.replace_re_all", "str.is_digit", "str.to_code", "str.from_code", "str.to_int",
    "str.from_int", "str.to.int", "int.to.str", "str.<", "str.<=", "str.in_re", "str.in.re",
    "str.to_re", "str.to.re", "re.++", "re.union", "re.inter", "re.*", "re.+", "re.opt",
    "re.range", "re.comp", "re.diff", "re.loop", "div", "mod", "abs", "re.^",
];

/// Function interpretations.
pub trait Funs {
    fn apply(&mut self, f: usize, args: Vec<Val>) -> Option<Val>;
}
pub struct NoFuns;
impl Funs for NoFuns {
    fn apply(&mut self, _: usize, _: Vec<Val>) -> Option<Val> {
        panic!("uninterpreted function")
    }
}

fn int(v: &Val) -> i128 {
    match v {
        Int(i) => *i,
        _ => panic!("ill-sorted: expected Int, got {:?}", v),
    }
}
fn boolean(v: &Val) -> bool {
    match v {
        Bool(b) => *b,
        _ => panic!("ill-sorted: expected Bool, got {:?}", v),
    }
}
fn st(v: &Val) -> &[u32] {
    match v {
        Str(s) => s,
        _ => panic!("ill-sorted: expected String, got {:?}", v),
    }
}
fn mk(v: Vec<u32>) -> Val {
    Str(Rc::new(v))
}

fn find(hay: &[u32], needle: &[u32], from: usize) -> Option<usize> {
    if needle.len() > hay.len() {
        return None;
    }
    (from..=hay.len() - needle.len()).find(|&i| &hay[i..i + needle.len()] == needle)
}

/// Evaluates; `None` if a function value is not available (see `Funs`).
pub fn eval(e: &E, env: &[Val], fs: &mut dyn Funs) -> Option<Val> {
    Some(match e {
        E::C(v) => v.clone(),
        E::Var(i) => env[*i].clone(),
        E::Uf(f, args) => {
            let mut vs = Vec::with_capacity(args.len());
            for a in args {
                vs.push(eval(a, env, fs)?);
            }
            return fs.apply(*f, vs);
        }
        E::Op(op, _, args) => {
            match op.as_str() {
                "ite" => {
                    let c = boolean(&eval(&args[0], env, fs)?);
                    return eval(&args[if c { 1 } else { 2 }], env, fs);
                }
                "str.in_re" | "str.in.re" => {
                    let x = eval(&args[0], env, fs)?;
                    let re = regex(&args[1], env, fs)?;
                    return Some(Bool(re.matches(st(&x))));
                }
                "str.replace_re" | "str.replace_re_all" => {
                    let x = eval(&args[0], env, fs)?;
                    let re = regex(&args[1], env, fs)?;
                    let by = eval(&args[2], env, fs)?;
                    return Some(replace_re(st(&x), &re, st(&by), op.ends_with("_all")));
                }
                _ => {}
            }
            let mut v = Vec::with_capacity(args.len());
            for a in args {
                v.push(eval(a, env, fs)?);
            }
            apply_op(op, &v)
        }
    })
}

fn apply_op(op: &str, v: &[Val]) -> Val {
    let chain = |f: &dyn Fn(&Val, &Val) -> bool| Bool(v.windows(2).all(|w| f(&w[0], &w[1])));
    match op {
        "not" => Bool(!boolean(&v[0])),
        "and" => Bool(v.iter().all(boolean)),
        "or" => Bool(v.iter().any(boolean)),
        "xor" => Bool(v.iter().fold(false, |a, b| a ^ boolean(b))),
        "=>" => {
            let (last, init) = v.split_last().unwrap();
            Bool(init.iter().any(|x| !boolean(x)) || boolean(last))
        }
        "=" => chain(&|a, b| a == b),
        "distinct" => Bool((0..v.len()).all(|i| (0..i).all(|j| v[i] != v[j]))),
        "+" => Int(v.iter().fold(0i128, |a, b| a.checked_add(int(b)).expect("overflow"))),
        "-" if v.len() == 1 => Int(-int(&v[0])),
        "-" => Int(v[1..].iter().fold(int(&v[0]), |a, b| a.checked_sub(int(b)).expect("overflow"))),
        "*" => Int(v.iter().fold(1i128, |a, b| a.checked_mul(int(b)).expect("overflow"))),
        "<" => chain(&|a, b| int(a) < int(b)),
        "<=" => chain(&|a, b| int(a) <= int(b)),
        ">" => chain(&|a, b| int(a) > int(b)),
        ">=" => chain(&|a, b| int(a) >= int(b)),
        "div" | "mod" => {
            let (a, b) = (int(&v[0]), int(&v[1]));
            if b == 0 {
                return Int(0);
            }
            Int(if op == "div" { a.div_euclid(b) } else { a.rem_euclid(b) })
        }
        "abs" => Int(int(&v[0]).abs()),
        "bvule" => match (&v[0], &v[1]) {
            (Bv(w, a), Bv(x, b)) if w == x => Bool(a <= b),
            _ => panic!("ill-sorted bvule"),
        },
        "str.++" => mk(v.iter().flat_map(|x| st(x).to_vec()).collect()),
        "str.len" => Int(st(&v[0]).len() as i128),
        "str.at" => {
            let (s, i) = (st(&v[0]), int(&v[1]));
            mk(if i >= 0 && (i as usize) < s.len() { vec![s[i as usize]] } else { vec![] })
        }
        "str.substr" => {
            let (s, i, n) = (st(&v[0]), int(&v[1]), int(&v[2]));
            if i < 0 || i >= s.len() as i128 || n <= 0 {
                return mk(vec![]);
            }
            let end = (i + n).min(s.len() as i128) as usize;
            mk(s[i as usize..end].to_vec())
        }
        "str.prefixof" => Bool(st(&v[1]).starts_with(st(&v[0]))),
        "str.suffixof" => Bool(st(&v[1]).ends_with(st(&v[0]))),
        "str.contains" => Bool(find(st(&v[0]), st(&v[1]), 0).is_some()),
        "str.indexof" => {
            let (s, t) = (st(&v[0]), st(&v[1]));
            let i = v.get(2).map_or(0, int);
            if i < 0 || i > s.len() as i128 {
                return Int(-1);
            }
            Int(find(s, t, i as usize).map_or(-1, |p| p as i128))
        }
        "str.replace" => {
            let (s, t, u) = (st(&v[0]), st(&v[1]), st(&v[2]));
            match find(s, t, 0) {
                Some(p) => mk([&s[..p], u, &s[p + t.len()..]].concat()),
                None => v[0].clone(),
            }
        }
        "str.replace_all" => {
            let (s, t, u) = (st(&v[0]), st(&v[1]), st(&v[2]));
            if t.is_empty() {
                return v[0].clone();
            }
            let (mut out, mut i) = (vec![], 0);
            while let Some(p) = find(s, t, i) {
                out.extend_from_slice(&s[i..p]);
                out.extend_from_slice(u);
                i = p + t.len();
            }
            out.extend_from_slice(&s[i..]);
            mk(out)
        }
        "str.is_digit" => {
            let x = st(&v[0]);
            Bool(x.len() == 1 && (48..58).contains(&x[0]))
        }
        "str.to_code" => {
            let x = st(&v[0]);
            Int(if x.len() == 1 { x[0] as i128 } else { -1 })
        }
        "str.from_code" => {
            let n = int(&v[0]);
            mk(if (0..=0x2FFFF).contains(&n) { vec![n as u32] } else { vec![] })
        }
        "str.to_int" | "str.to.int" => {
            let x = st(&v[0]);
            if x.is_empty() || x.iter().any(|c| !(48..58).contains(c)) {
                Int(-1)
            } else {
                Int(x.iter().fold(0, |a, c| a * 10 + (*c as i128 - 48)))
            }
        }
        "str.from_int" | "int.to.str" => {
            let n = int(&v[0]);
            if n < 0 {
                mk(vec![])
            } else {
                s(&n.to_string())
            }
        }
        "str.<" => chain(&|a, b| st(a) < st(b)),
        "str.<=" => chain(&|a, b| st(a) <= st(b)),
        _ => panic!("operator {}", op),
    }
}

#[derive(Clone, Debug)]
pub enum Re {
    None,
    Eps,
    Any,
    Range(u32, u32),
    Cat(Rc<Re>, Rc<Re>),
    Or(Rc<Re>, Rc<Re>),
    And(Rc<Re>, Rc<Re>),
    Star(Rc<Re>),
    Not(Rc<Re>),
}

impl Re {
    fn lit(x: &[u32]) -> Re {
        x.iter().rev().fold(Re::Eps, |acc, &c| Re::cat(Re::Range(c, c), acc))
    }
    fn cat(a: Re, b: Re) -> Re {
        match (&a, &b) {
            (Re::None, _) | (_, Re::None) => Re::None,
            (Re::Eps, _) => b,
            (_, Re::Eps) => a,
            _ => Re::Cat(Rc::new(a), Rc::new(b)),
        }
    }
    fn or(a: Re, b: Re) -> Re {
        match (&a, &b) {
            (Re::None, _) => b,
            (_, Re::None) => a,
            _ => Re::Or(Rc::new(a), Rc::new(b)),
        }
    }
    fn and(a: Re, b: Re) -> Re {
        match (&a, &b) {
            (Re::None, _) | (_, Re::None) => Re::None,
            _ => Re::And(Rc::new(a), Rc::new(b)),
        }
    }
    fn power(r: &Re, lo: i128, hi: i128) -> Re {
        if lo > hi {
            return Re::None;
        }
        let mut res = Re::Eps;
        for i in (0..hi).rev() {
            let step = Re::cat(r.clone(), res);
            res = if i < lo { step } else { Re::or(Re::Eps, step) };
        }
        res
    }
    fn nullable(&self) -> bool {
        match self {
            Re::None | Re::Any | Re::Range(..) => false,
            Re::Eps | Re::Star(_) => true,
            Re::Cat(a, b) | Re::And(a, b) => a.nullable() && b.nullable(),
            Re::Or(a, b) => a.nullable() || b.nullable(),
            Re::Not(a) => !a.nullable(),
        }
    }
    fn deriv(&self, c: u32) -> Re {
        match self {
            Re::None | Re::Eps => Re::None,
            Re::Any => Re::Eps,
            Re::Range(a, b) => {
                if (*a..=*b).contains(&c) {
                    Re::Eps
                } else {
                    Re::None
                }
            }
            Re::Cat(a, b) => {
                let d = Re::cat(a.deriv(c), (**b).clone());
                if a.nullable() {
                    Re::or(d, b.deriv(c))
                } else {
                    d
                }
            }
            Re::Or(a, b) => Re::or(a.deriv(c), b.deriv(c)),
            Re::And(a, b) => Re::and(a.deriv(c), b.deriv(c)),
            Re::Star(a) => Re::cat(a.deriv(c), self.clone()),
            Re::Not(a) => Re::Not(Rc::new(a.deriv(c))),
        }
    }
    pub fn matches(&self, x: &[u32]) -> bool {
        let mut r = self.clone();
        for &c in x {
            r = r.deriv(c);
        }
        r.nullable()
    }
}

fn replace_re(x: &[u32], re: &Re, by: &[u32], all: bool) -> Val {
    let (mut out, mut i) = (vec![], 0);
    while i <= x.len() {
        // shortest match at the leftmost position (non-empty if replacing all)
        let m = (i + usize::from(all)..=x.len()).find(|&j| re.matches(&x[i..j]));
        match m {
            Some(j) => {
                out.extend_from_slice(by);
                i = j;
                if !all {
                    break;
                }
            }
            None => {
                if i < x.len() {
                    out.push(x[i]);
                }
                i += 1;
            }
        }
    }
    if i < x.len() {
        out.extend_from_slice(&x[i..]);
    }
    mk(out)
}

pub fn regex(e: &E, env: &[Val], fs: &mut dyn Funs) -> Option<Re> {
    let (op, idx, args) = match e {
        E::Op(op, idx, args) => (op.as_str(), idx, args),
        _ => panic!("regular expression expected: {:?}", e),
    };
    if op == "ite" {
        let c = boolean(&eval(&args[0], env, fs)?);
        return regex(&args[if c { 1 } else { 2 }], env, fs);
    }
    macro_rules! re {
        ($i:expr) => {
            regex(&args[$i], env, fs)?
        };
    }
    macro_rules! strv {
        ($i:expr) => {
            st(&eval(&args[$i], env, fs)?).to_vec()
        };
    }
    macro_rules! fold {
        ($f:expr) => {{
            let mut acc = re!(0);
            for i in 1..args.len() {
                acc = $f(acc, re!(i));
            }
            acc
        }};
    }
    Some(match op {
        "re.none" | "re.nostr" => Re::None,
        "re.all" => Re::Star(Rc::new(Re::Any)),
        "re.allchar" => Re::Any,
        "str.to_re" | "str.to.re" => Re::lit(&strv!(0)),
        "re.++" => fold!(Re::cat),
        "re.union" => fold!(Re::or),
        "re.inter" => fold!(Re::and),
        "re.*" => Re::Star(Rc::new(re!(0))),
        "re.+" => {
            let r = re!(0);
            Re::cat(r.clone(), Re::Star(Rc::new(r)))
        }
        "re.opt" => Re::or(Re::Eps, re!(0)),
        "re.comp" => Re::Not(Rc::new(re!(0))),
        "re.diff" => fold!(|a, b| Re::and(a, Re::Not(Rc::new(b)))),
        "re.range" => {
            let (a, b) = (strv!(0), strv!(1));
            match (a.as_slice(), b.as_slice()) {
                ([a], [b]) if a <= b => Re::Range(*a, *b),
                _ => Re::None,
            }
        }
        "_re.loop" => Re::power(&re!(0), idx[0], idx[1]),
        "_re.^" => Re::power(&re!(0), idx[0], idx[0]),
        "re.loop" => {
            let r = re!(0);
            let lo = int(&eval(&args[1], env, fs)?);
            if args.len() > 2 {
                let hi = int(&eval(&args[2], env, fs)?);
                Re::power(&r, lo, hi)
            } else {
                Re::cat(Re::power(&r, lo, lo), Re::Star(Rc::new(r)))
            }
        }
        _ => panic!("regex operator {}", op),
    })
}

impl Script {
    /// Do all assertions hold under `env`?
    pub fn holds(&self, env: &[Val]) -> bool {
        self.asserts.iter().all(|a| eval(a, env, &mut NoFuns) == Some(Bool(true)))
    }

    /// Searches the box of all valuations with values from `dom` for one that satisfies all
    /// assertions; function tables are enumerated lazily. Counts evaluations in `steps`.
    pub fn find_solution(&self, dom: &dyn Fn(&Sort) -> Vec<Val>, steps: &mut u64) -> Option<Vec<Val>> {
        // Only variables that occur are enumerated.
        let mut used = vec![false; self.vars.len()];
        fn mark(e: &E, used: &mut [bool]) {
            match e {
                E::Var(i) => used[*i] = true,
                E::Uf(_, a) | E::Op(_, _, a) => a.iter().for_each(|x| mark(x, used)),
                E::C(_) => {}
            }
        }
        self.asserts.iter().for_each(|a| mark(a, &mut used));
        let doms: Vec<Vec<Val>> = (self.vars.iter().zip(&used))
            .map(|((_, s), u)| {
                let mut d = dom(s);
                if !u {
                    d.truncate(1);
                }
                d
            })
            .collect();
        let mut idx = vec![0usize; doms.len()];
        loop {
            let env: Vec<Val> = idx.iter().zip(&doms).map(|(&i, d)| d[i].clone()).collect();
            if self.funs.is_empty() {
                *steps += 1;
                if self.holds(&env) {
                    return Some(env);
                }
            } else if self.search_funs(&env, &mut Lazy::default(), dom, steps) {
                return Some(env);
            }
            let mut k = 0;
            loop {
                if k == idx.len() {
                    return None;
                }
                idx[k] += 1;
                if idx[k] < doms[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }

    fn search_funs(&self, env: &[Val], lazy: &mut Lazy, dom: &dyn Fn(&Sort) -> Vec<Val>, steps: &mut u64) -> bool {
        *steps += 1;
        lazy.missing = None;
        let mut undetermined = false;
        for a in &self.asserts {
            match eval(a, env, lazy) {
                Some(Bool(true)) => {}
                Some(_) => return false,
                None => {
                    undetermined = true;
                    break;
                }
            }
        }
        if !undetermined {
            return true;
        }
        let key = lazy.missing.take().unwrap();
        for v in dom(&self.funs[key.0].2) {
            lazy.table.insert(key.clone(), v);
            if self.search_funs(env, lazy, dom, steps) {
                return true;
            }
        }
        lazy.table.remove(&key);
        false
    }
}

#[derive(Default)]
struct Lazy {
    table: HashMap<(usize, Vec<Val>), Val>,
    missing: Option<(usize, Vec<Val>)>,
}
impl Funs for Lazy {
    fn apply(&mut self, f: usize, args: Vec<Val>) -> Option<Val> {
        let key = (f, args);
        match self.table.get(&key) {
            Some(v) => Some(v.clone()),
            None => {
                self.missing = Some(key);
                None
            }
        }
    }
}

/// Model returned by a solver: definitions of constants and functions.
#[derive(Debug, Default)]
pub struct Model {
    pub consts: BTreeMap<String, Val>,
    pub funs: BTreeMap<String, (Vec<(String, Sort)>, Sx)>,
}

pub fn default(s: &Sort) -> Val {
    match s {
        Sort::Bool => Bool(false),
        Sort::Int => Int(0),
        Sort::Bv(w) => Bv(*w, 0),
        _ => mk(vec![]),
    }
}

impl Model {
    pub fn parse(text: &str) -> Result<Model, String> {
        let sx = crate::sexp::parse(text)?;
        let mut m = Model::default();
        let defs: Vec<Sx> = match sx.as_slice() {
            [Sx::List(l)] if l.iter().all(|d| d.list().is_some()) => l.clone(),
            _ => sx,
        };
        for d in &defs {
            let l = d.list().ok_or("model: not a list")?;
            if d.head() != Some("define-fun") || l.len() != 5 {
                return Err(format!("model: {}", d));
            }
            let name = unquote(l[1].atom().ok_or("model name")?).to_string();
            let params = l[2].list().ok_or("params")?;
            let ret = sort(&l[3])?;
            if params.is_empty() {
                let e = Script::default().compile(&l[4], &Scope::new()).map_err(|e| format!("value of {}: {}", name, e))?;
                let v = eval(&e, &[], &mut NoFuns).unwrap();
                let ok = matches!((&v, &ret), (Bool(_), Sort::Bool) | (Int(_), Sort::Int) | (Str(_), Sort::Str))
                    || matches!((&v, &ret), (Bv(a, _), Sort::Bv(b)) if a == b);
                if !ok {
                    return Err(format!("model: value of {} is not of its sort: {}", name, d));
                }
                if m.consts.insert(name.clone(), v).is_some() {
                    return Err(format!("model defines {} twice", name));
                }
            } else {
                let ps: Result<Vec<_>, String> = params
                    .iter()
                    .map(|p| {
                        let p = p.list().unwrap();
                        Ok((unquote(p[0].atom().unwrap()).to_string(), sort(&p[1])?))
                    })
                    .collect();
                if m.funs.insert(name.clone(), (ps?, l[4].clone())).is_some() {
                    return Err(format!("model defines {} twice", name));
                }
            }
        }
        Ok(m)
    }

    pub fn env(&self, sc: &Script) -> Result<Vec<Val>, String> {
        sc.vars
            .iter()
            .map(|(n, s)| {
                let v = self.consts.get(n).cloned().unwrap_or_else(|| default(s));
                let ok = matches!((&v, s), (Bool(_), Sort::Bool) | (Int(_), Sort::Int) | (Str(_), Sort::Str))
                    || matches!((&v, s), (Bv(a, _), Sort::Bv(b)) if a == b);
                if ok { Ok(v) } else { Err(format!("model value of {} has the wrong sort", n)) }
            })
            .collect()
    }

    /// Checks every assertion of the script under this model.
    pub fn check(&self, sc: &Script) -> Result<(), String> {
        let env = self.env(sc)?;
        let mut fs = ModelFuns { model: self, sc, env: &env };
        for (i, a) in sc.asserts.iter().enumerate() {
            if eval(a, &env, &mut fs) != Some(Bool(true)) {
                return Err(format!("assertion {} is false", i));
            }
        }
        Ok(())
    }
}

struct ModelFuns<'a> {
    model: &'a Model,
    sc: &'a Script,
    env: &'a [Val],
}
impl Funs for ModelFuns<'_> {
    fn apply(&mut self, f: usize, args: Vec<Val>) -> Option<Val> {
        let (name, _, ret) = &self.sc.funs[f];
        match self.model.funs.get(name) {
            None => Some(default(ret)),
            Some((params, body)) => {
                let scope: Scope =
                    params.iter().zip(args).map(|((n, _), v)| (n.clone(), E::C(v))).collect();
                let e = self.sc.compile(body, &scope).ok()?;
                eval(&e, self.env, self)
            }
        }
    }
}
