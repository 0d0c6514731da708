//! Regular languages of string constraints: hash-consed regular expressions with derivatives.
//! A set of constraints over one string variable is decided exactly by exploring the reachable
//! states of the product of their derivative automata over a representative alphabet.
use mc::eval::{E, Val};
use std::collections::{BTreeSet, HashMap, VecDeque};

pub type Id = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    None,
    Eps,
    /// Sorted, disjoint ranges.
    Set(Vec<(u32, u32)>),
    Cat(Id, Id),
    Or(Vec<Id>),
    And(Vec<Id>),
    Star(Id),
    Not(Id),
}

pub const MAX: u32 = 0x2FFFF;

#[derive(Default)]
pub struct Lang {
    nodes: Vec<R>,
    ids: HashMap<R, Id>,
    derivs: HashMap<(Id, u32), Id>,
}

impl Lang {
    fn mk(&mut self, r: R) -> Id {
        if let Some(i) = self.ids.get(&r) {
            return *i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(r.clone());
        self.ids.insert(r, i);
        i
    }
    pub fn none(&mut self) -> Id {
        self.mk(R::None)
    }
    pub fn eps(&mut self) -> Id {
        self.mk(R::Eps)
    }
    pub fn range(&mut self, a: u32, b: u32) -> Id {
        if a > b { self.none() } else { self.mk(R::Set(vec![(a, b)])) }
    }
    pub fn any(&mut self) -> Id {
        self.range(0, MAX)
    }
    pub fn all(&mut self) -> Id {
        let n = self.none();
        self.not(n)
    }
    pub fn lit(&mut self, x: &[u32]) -> Id {
        let mut r = self.eps();
        for &c in x.iter().rev() {
            let k = self.range(c, c);
            r = self.cat(k, r);
        }
        r
    }
    pub fn cat(&mut self, a: Id, b: Id) -> Id {
        match (&self.nodes[a as usize], &self.nodes[b as usize]) {
            (R::None, _) | (_, R::None) => self.none(),
            (R::Eps, _) => b,
            (_, R::Eps) => a,
            (R::Cat(x, y), _) => {
                let (x, y) = (*x, *y);
                let t = self.cat(y, b);
                self.cat(x, t)
            }
            _ => self.mk(R::Cat(a, b)),
        }
    }
    fn is_all(&self, a: Id) -> bool {
        matches!(&self.nodes[a as usize], R::Not(n) if self.nodes[*n as usize] == R::None)
    }
    pub fn or(&mut self, v: Vec<Id>) -> Id {
        let mut s = BTreeSet::new();
        for i in v {
            match &self.nodes[i as usize] {
                R::None => {}
                R::Or(w) => s.extend(w.iter().copied()),
                _ => {
                    s.insert(i);
                }
            }
        }
        if s.iter().any(|&i| self.is_all(i)) {
            return self.all();
        }
        match s.len() {
            0 => self.none(),
            1 => *s.iter().next().unwrap(),
            _ => self.mk(R::Or(s.into_iter().collect())),
        }
    }
    pub fn and(&mut self, v: Vec<Id>) -> Id {
        let mut s = BTreeSet::new();
        for i in v {
            match &self.nodes[i as usize] {
                R::None => return self.none(),
                R::And(w) => s.extend(w.iter().copied()),
                _ if self.is_all(i) => {}
                _ => {
                    s.insert(i);
                }
            }
        }
        match s.len() {
            0 => self.all(),
            1 => *s.iter().next().unwrap(),
            _ => self.mk(R::And(s.into_iter().collect())),
        }
    }
    pub fn not(&mut self, a: Id) -> Id {
        match &self.nodes[a as usize] {
            R::Not(b) => *b,
            _ => self.mk(R::Not(a)),
        }
    }
    pub fn star(&mut self, a: Id) -> Id {
        match &self.nodes[a as usize] {
            R::None | R::Eps => self.eps(),
            R::Star(_) => a,
            _ => self.mk(R::Star(a)),
        }
    }
    pub fn power(&mut self, r: Id, lo: i128, hi: i128) -> Id {
        if lo > hi || hi < 0 {
            return self.none();
        }
        let e = self.eps();
        let mut res = e;
        for i in (0..hi).rev() {
            let step = self.cat(r, res);
            res = if i < lo { step } else { self.or(vec![e, step]) };
        }
        res
    }
    pub fn nullable(&self, a: Id) -> bool {
        match &self.nodes[a as usize] {
            R::None | R::Set(_) => false,
            R::Eps | R::Star(_) => true,
            R::Cat(x, y) => self.nullable(*x) && self.nullable(*y),
            R::Or(v) => v.iter().any(|i| self.nullable(*i)),
            R::And(v) => v.iter().all(|i| self.nullable(*i)),
            R::Not(x) => !self.nullable(*x),
        }
    }
    pub fn deriv(&mut self, a: Id, c: u32) -> Id {
        if let Some(d) = self.derivs.get(&(a, c)) {
            return *d;
        }
        let d = match self.nodes[a as usize].clone() {
            R::None | R::Eps => self.none(),
            R::Set(v) => {
                if v.iter().any(|(x, y)| (*x..=*y).contains(&c)) { self.eps() } else { self.none() }
            }
            R::Cat(x, y) => {
                let dx = self.deriv(x, c);
                let l = self.cat(dx, y);
                if self.nullable(x) {
                    let r = self.deriv(y, c);
                    self.or(vec![l, r])
                } else {
                    l
                }
            }
            R::Or(v) => {
                let w: Vec<Id> = v.iter().map(|i| self.deriv(*i, c)).collect();
                self.or(w)
            }
            R::And(v) => {
                let w: Vec<Id> = v.iter().map(|i| self.deriv(*i, c)).collect();
                self.and(w)
            }
            R::Star(x) => {
                let dx = self.deriv(x, c);
                self.cat(dx, a)
            }
            R::Not(x) => {
                let dx = self.deriv(x, c);
                self.not(dx)
            }
        };
        self.derivs.insert((a, c), d);
        d
    }
    fn bounds(&self, a: Id, out: &mut BTreeSet<u32>) {
        match &self.nodes[a as usize] {
            R::Set(v) => v.iter().for_each(|(x, y)| {
                out.insert(*x);
                out.insert(*y + 1);
            }),
            R::Cat(x, y) => {
                self.bounds(*x, out);
                self.bounds(*y, out);
            }
            R::Or(v) | R::And(v) => v.iter().for_each(|i| self.bounds(*i, out)),
            R::Star(x) | R::Not(x) => self.bounds(*x, out),
            _ => {}
        }
    }
    /// One character (two if `two`) of every class of characters that the languages treat alike.
    pub fn alphabet(&self, ls: &[Id], two: bool) -> Vec<u32> {
        let mut b = BTreeSet::from([0x21]);
        ls.iter().for_each(|l| self.bounds(*l, &mut b));
        let mut v = vec![];
        let pts: Vec<u32> = b.into_iter().collect();
        for (i, p) in pts.iter().enumerate() {
            let end = pts.get(i + 1).copied().unwrap_or(MAX + 1);
            if *p <= MAX {
                v.push(*p);
                if two && p + 1 < end {
                    v.push(end.min(p + 1000) - 1);
                }
            }
        }
        v
    }
    /// Explores the product of the languages: for every reachable state `k` access words.
    pub fn words(&mut self, ls: &[Id], k: usize, max: usize) -> Option<Vec<Vec<u32>>> {
        let al = self.alphabet(ls, k > 1);
        let mut seen: HashMap<Vec<Id>, usize> = HashMap::new();
        let mut q = VecDeque::from([(ls.to_vec(), vec![])]);
        seen.insert(ls.to_vec(), 1);
        let mut out = vec![];
        while let Some((st, w)) = q.pop_front() {
            out.push(w.clone());
            if out.len() > max {
                return None;
            }
            for &c in &al {
                let n: Vec<Id> = st.iter().map(|l| self.deriv(*l, c)).collect();
                let cnt = seen.entry(n.clone()).or_default();
                if *cnt < k {
                    *cnt += 1;
                    let mut w2 = w.clone();
                    w2.push(c);
                    q.push_back((n, w2));
                }
            }
        }
        Some(out)
    }

    /// The language of the regular expression `e`.
    pub fn regex(&mut self, e: &E) -> Option<Id> {
        let (op, idx, args) = match e {
            E::Op(op, idx, args) => (op.as_str(), idx, args),
            _ => return None,
        };
        let lit = |i: usize| match args.get(i) {
            Some(E::C(Val::Str(s))) => Some(s.to_vec()),
            _ => None,
        };
        let mut subs = |l: &mut Lang| args.iter().map(|a| l.regex(a)).collect::<Option<Vec<_>>>();
        Some(match op {
            "re.none" | "re.nostr" => self.none(),
            "re.all" => self.all(),
            "re.allchar" => self.any(),
            "str.to_re" | "str.to.re" => self.lit(&lit(0)?),
            "re.++" => {
                let v = subs(self)?;
                let mut r = self.eps();
                for i in v.into_iter().rev() {
                    r = self.cat(i, r);
                }
                r
            }
            "re.union" => {
                let v = subs(self)?;
                self.or(v)
            }
            "re.inter" => {
                let v = subs(self)?;
                self.and(v)
            }
            "re.diff" => {
                let v = subs(self)?;
                let mut w = vec![v[0]];
                for i in &v[1..] {
                    let n = self.not(*i);
                    w.push(n);
                }
                self.and(w)
            }
            "re.comp" => {
                let r = self.regex(&args[0])?;
                self.not(r)
            }
            "re.*" => {
                let r = self.regex(&args[0])?;
                self.star(r)
            }
            "re.+" => {
                let r = self.regex(&args[0])?;
                let s = self.star(r);
                self.cat(r, s)
            }
            "re.opt" => {
                let r = self.regex(&args[0])?;
                let e = self.eps();
                self.or(vec![e, r])
            }
            "re.range" => match (lit(0)?.as_slice(), lit(1)?.as_slice()) {
                ([a], [b]) => self.range(*a, *b),
                _ => self.none(),
            },
            "_re.loop" => {
                let r = self.regex(&args[0])?;
                self.power(r, idx[0], idx[1])
            }
            "_re.^" => {
                let r = self.regex(&args[0])?;
                self.power(r, idx[0], idx[0])
            }
            "re.loop" => {
                let r = self.regex(&args[0])?;
                let n: Vec<i128> = args[1..].iter().map(|a| match a { E::C(Val::Int(i)) => *i, _ => -1 }).collect();
                if n.len() > 1 {
                    self.power(r, n[0], n[1])
                } else {
                    let p = self.power(r, n[0], n[0]);
                    let s = self.star(r);
                    self.cat(p, s)
                }
            }
            _ => return None,
        })
    }

    /// The values of the only string variable for which the constraint `e` holds, if regular.
    pub fn atom(&mut self, e: &E) -> Option<Id> {
        let (op, args) = match e {
            E::Op(op, _, args) => (op.as_str(), args),
            E::C(Val::Bool(b)) => return Some(if *b { self.all() } else { self.none() }),
            _ => return None,
        };
        let lit = |i: usize| match args.get(i) {
            Some(E::C(Val::Str(s))) => Some(s.to_vec()),
            _ => None,
        };
        let var = |i: usize| matches!(args.get(i), Some(E::Var(_)));
        let all = self.all();
        let any = self.any();
        match op {
            "not" => {
                let r = self.atom(&args[0])?;
                Some(self.not(r))
            }
            "and" | "or" => {
                let v: Option<Vec<Id>> = args.iter().map(|a| self.atom(a)).collect();
                Some(if op == "and" { self.and(v?) } else { self.or(v?) })
            }
            "str.in_re" | "str.in.re" if var(0) => self.regex(&args[1]),
            "str.prefixof" if var(1) => {
                let l = self.lit(&lit(0)?);
                Some(self.cat(l, all))
            }
            "str.suffixof" if var(1) => {
                let l = self.lit(&lit(0)?);
                Some(self.cat(all, l))
            }
            "str.contains" if var(0) => {
                let l = self.lit(&lit(1)?);
                let t = self.cat(l, all);
                Some(self.cat(all, t))
            }
            "str.prefixof" | "str.suffixof" | "str.contains" => {
                // a literal around the variable: finitely many values
                let (i, j) = if op == "str.contains" { (0, 1) } else { (1, 0) };
                if !var(j) {
                    return None;
                }
                let l = lit(i)?;
                let mut v = vec![];
                for a in 0..=l.len() {
                    for b in a..=l.len() {
                        if (op == "str.prefixof" && a > 0) || (op == "str.suffixof" && b < l.len()) {
                            continue;
                        }
                        v.push(self.lit(&l[a..b]));
                    }
                }
                Some(self.or(v))
            }
            "str.is_digit" if var(0) => Some(self.range(48, 57)),
            "=" if args.len() == 2 => {
                for (i, j) in [(0, 1), (1, 0)] {
                    if let E::C(v) = &args[i] {
                        if let Some(r) = self.equals(&args[j], v) {
                            return Some(r);
                        }
                    }
                }
                None
            }
            "<" | "<=" | ">" | ">=" if args.len() == 2 => {
                let len = |e: &E| matches!(e, E::Op(o, _, a) if o == "str.len" && matches!(a[0], E::Var(_)));
                let (n, below) = match (&args[0], &args[1]) {
                    (l, E::C(Val::Int(n))) if len(l) => (*n, op.starts_with('<')),
                    (E::C(Val::Int(n)), l) if len(l) => (*n, op.starts_with('>')),
                    _ => return None,
                };
                let strict = op.len() == 1;
                Some(if below {
                    self.power(any, 0, if strict { n - 1 } else { n })
                } else {
                    let p = self.power(any, if strict { n + 1 } else { n }.max(0), if strict { n + 1 } else { n }.max(0));
                    self.cat(p, all)
                })
            }
            _ => None,
        }
    }

    /// Values for which the term `e` has the value `v`.
    fn equals(&mut self, e: &E, v: &Val) -> Option<Id> {
        let all = self.all();
        let any = self.any();
        match (e, v) {
            (E::Var(_), Val::Str(s)) => Some(self.lit(s)),
            (E::Op(op, _, a), _) => {
                let int = |i: usize| match a.get(i) {
                    Some(E::C(Val::Int(n))) => Some(*n),
                    _ => None,
                };
                if !matches!(a.first(), Some(E::Var(_))) {
                    return None;
                }
                match (op.as_str(), v) {
                    ("str.len", Val::Int(n)) => Some(self.power(any, *n, *n)),
                    ("str.at", Val::Str(s)) => self.sub(int(1)?, 1, s),
                    ("str.substr", Val::Str(s)) => self.sub(int(1)?, int(2)?, s),
                    ("str.to_int" | "str.to.int", Val::Int(n)) => {
                        let d = self.range(48, 57);
                        let ds = self.star(d);
                        let num = self.cat(d, ds);
                        if *n == -1 {
                            return Some(self.not(num));
                        }
                        if *n < 0 {
                            return Some(self.none());
                        }
                        let z = self.range(48, 48);
                        let z = self.star(z);
                        let l: Vec<u32> = n.to_string().chars().map(|c| c as u32).collect();
                        let l = self.lit(&l);
                        let r = self.cat(z, l);
                        Some(self.and(vec![r, num]))
                    }
                    ("str.to_code", Val::Int(n)) => Some(if *n == -1 {
                        self.not(any)
                    } else if (0..=MAX as i128).contains(n) {
                        self.range(*n as u32, *n as u32)
                    } else {
                        self.none()
                    }),
                    ("str.indexof", Val::Int(n)) => {
                        let l = match a.get(1) {
                            Some(E::C(Val::Str(s))) => s.to_vec(),
                            _ => return None,
                        };
                        let from = if a.len() > 2 { int(2)? } else { 0 };
                        if from < 0 {
                            return Some(if *n == -1 { all } else { self.none() });
                        }
                        let lit = self.lit(&l);
                        let skip = self.power(any, from, from);
                        // x with an occurrence at p >= from
                        let t = self.cat(lit, all);
                        let t2 = self.cat(all, t);
                        let occurs = self.cat(skip, t2);
                        if *n == -1 {
                            return Some(self.not(occurs));
                        }
                        if *n < from {
                            return Some(self.none());
                        }
                        let mut parts = vec![];
                        for p in from..=*n {
                            let s = self.power(any, p, p);
                            let at = self.cat(s, t);
                            parts.push(if p == *n { at } else { self.not(at) });
                        }
                        Some(self.and(parts))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Values whose substring of length `n` from `i` is `s`.
    fn sub(&mut self, i: i128, n: i128, s: &[u32]) -> Option<Id> {
        let all = self.all();
        let any = self.any();
        if i < 0 || n <= 0 {
            return Some(if s.is_empty() { all } else { self.none() });
        }
        let skip = self.power(any, i, i);
        let l = self.lit(s);
        Some(if s.len() as i128 > n {
            self.none()
        } else if s.is_empty() {
            self.power(any, 0, i)
        } else {
            let t = self.cat(skip, l);
            if (s.len() as i128) == n { self.cat(t, all) } else { t }
        })
    }
}
