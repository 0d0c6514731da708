//! Checks of verdicts and models against the reference semantics.
use crate::common::*;
use mc::run::{Check, Sink, Tally};

const OPS: [&str; 6] = ["=", "<", "<=", ">", ">=", "distinct"];

/// Linear integer arithmetic: single atoms with pinned variables (full truth tables), systems of
/// two and three atoms.
pub struct Lia;

/// Ways a user may write `a*x + b*y op c`.
fn layouts(a: i128, b: i128, op: &str, c: i128) -> Vec<String> {
    let mut v = vec![format!("({} {} {})", op, lin(&[(a, "x"), (b, "y")]), lit(c))];
    if a != 0 && b != 0 {
        // everything on the left; variables on both sides; constant first
        v.push(format!("({} (- (+ {} {}) {}) 0)", op, mul(a, "x"), mul(b, "y"), lit(c)));
        v.push(format!("({} {} (- {} {}))", op, mul(a, "x"), lit(c), mul(b, "y")));
        v.push(format!("({} (+ {} {}) {})", op, mul(a, "x"), lit(-c), mul(-b, "y")));
        v.push(format!("({} {} (+ {} {}))", op, lit(-c), mul(-a, "x"), mul(-b, "y")));
    } else if a != 0 {
        v.push(format!("({} {} {})", op, lit(-c), mul(-a, "x")));
        v.push(format!("({} (- {} {}) 0)", op, mul(a, "x"), lit(c)));
        // the same variable several times, cancelling y
        v.push(format!("({} (+ y {} x (- y)) (+ x {}))", op, mul(a, "x"), lit(c)));
    }
    v
}

impl Check for Lia {
    fn id(&self) -> &'static str {
        "A01"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = decls(&[("x", "Int"), ("y", "Int")]);
        // 1. truth tables of single atoms
        let (ca, cc, pv) = if thorough { (4, 4, 3) } else { (2, 3, 2) };
        for a in -ca..=ca {
            for b in -ca..=ca {
                for c in -cc..=cc {
                    for op in OPS {
                        for f in layouts(a, b, op, c) {
                            for x in -pv..=pv {
                                for y in -pv..=pv {
                                    sink(format!("{}(assert (= x {}))(assert {})(assert (= y {}))", d, lit(x), f, lit(y)));
                                }
                            }
                        }
                    }
                }
            }
        }
        // 2. all pairs of atoms over two variables, unpinned
        let (ca, cc) = (2, if thorough { 3 } else { 1 });
        let mut atoms = vec![];
        for a in -ca..=ca {
            for b in -ca..=ca {
                if (a, b) == (0, 0) {
                    continue;
                }
                for c in -1..=cc {
                    for op in ["=", "<=", ">"] {
                        atoms.push(format!("({} {} {})", op, lin(&[(a, "x"), (b, "y")]), lit(c)));
                    }
                }
            }
        }
        for i in 0..atoms.len() {
            for j in i..atoms.len() {
                sink(format!("{}(assert {})(assert {})", d, atoms[i], atoms[j]));
            }
        }
        // 3. systems of three variables
        let d3 = decls(&[("x", "Int"), ("y", "Int"), ("z", "Int")]);
        let mut atoms = vec![];
        for (a, b, c) in [(1, -1, 0), (0, 1, -1), (-1, 0, 1), (1, 1, 1), (2, 0, -1), (1, 2, 0), (1, 1, -1), (0, -3, 2), (0, 0, 1)] {
            for (op, k) in [(">=", 1), ("=", 0), ("<", -1), ("=", 2)] {
                atoms.push(format!("({} {} {})", op, lin(&[(a, "x"), (b, "y"), (c, "z")]), lit(k)));
            }
        }
        for i in 0..atoms.len() {
            for j in i + 1..atoms.len() {
                for k in j + 1..atoms.len() {
                    if thorough || (i + j + k) % 4 == 0 {
                        sink(format!("{}(assert {})(assert {})(assert {})", d3, atoms[i], atoms[j], atoms[k]));
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let r = if case.contains("(declare-const z") { 7 } else { 12 };
        check_verdict(case, &int_box(r), 1, t)
    }
    fn rule(&self) -> &'static str {
        "atoms a*x+b*y op c over 6 relations in up to 5 layouts, pinned to every valuation of a box; all pairs of atoms (coefficients -2..2); triples of 3-variable atoms; sat models evaluated, unsat answers refuted by searching the box [-12,12]^2 / [-7,7]^3"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an unsat answer whose only solutions lie outside the search box is not refuted", "varisat answers correctly"]
    }
}

/// Uninterpreted functions (Ackermannization).
pub struct Uf;
impl Check for Uf {
    fn id(&self) -> &'static str {
        "A03"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = format!(
            "(declare-fun f (Int) Int)(declare-fun g (Int Int) Int)(declare-fun p (Int) Bool)(declare-fun h (Bool) Int){}",
            decls(&[("x", "Int"), ("y", "Int"), ("b", "Bool")])
        );
        let pool = [
            "(= x y)", "(< x y)", "(= (f x) 1)", "(= (f y) 2)", "(= (f x) (f y))", "(< (f x) (f y))",
            "(= (f (f x)) x)", "(= (f x) y)", "(= (f y) x)", "(p x)", "(p y)", "(p (f x))", "(= (g x y) (g y x))",
            "(> (g x x) (g x y))", "(= (g x y) (f x))", "(= (h b) 1)", "(= (h true) (h false))", "(= (h (p x)) (h b))",
            "(= (f (+ x 1)) (f x))", "(= y (+ x 1))", "(> (+ (f x) (f y)) 3)", "b", "(= (f 0) 1)", "(= x 0)",
            "(let ((z (+ x 1))) (= (f z) y))", "(let ((x y)) (= (f x) 2))", "(= (f (ite b x y)) 2)", "(let ((z (f x)) (w (f y))) (distinct z w x))",
        ];
        let lits: Vec<String> = pool.iter().flat_map(|a| [a.to_string(), format!("(not {})", a)]).collect();
        for i in 0..lits.len() {
            for j in i..lits.len() {
                sink(format!("{}(assert {})(assert {})", d, lits[i], lits[j]));
                sink(format!("{}(assert (or {} {}))(assert (= x y))(assert (distinct (f x) y))", d, lits[i], lits[j]));
                for (k, l) in lits.iter().enumerate().skip(j + 1) {
                    if i != j && (thorough || (i + j + k) % 3 == 0) {
                        sink(format!("{}(assert {})(assert {})(assert {})", d, lits[i], lits[j], l));
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        check_verdict(case, &int_box(2), 1, t)
    }
    fn rule(&self) -> &'static str {
        "all pairs (and triples) of literals over f:Int->Int, g:Int,Int->Int, p:Int->Bool, h:Bool->Int with nested and shared arguments, under let and over if-then-else; models (function definitions included) evaluated by the reference interpreter, unsat answers refuted by enumerating variables and lazily all function tables over [-2,2]"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["function models are evaluated with the printed define-fun bodies", "varisat answers correctly"]
    }
}

/// Solution bound: satisfiable formulas whose smallest solutions are as large as possible.
pub struct Bound;
impl Check for Bound {
    fn id(&self) -> &'static str {
        "A04"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let names: Vec<String> = (0..200).map(|i| format!("x{}", i)).collect();
        let decl = |n: usize| names[..n].iter().map(|v| format!("(declare-const {} Int)", v)).collect::<String>();
        let mx = if thorough { 16 } else { 10 };
        let mut emit = |n: usize, asserts: &[String]| {
            let mut s = decl(n);
            for a in asserts {
                s += &format!("(assert {})", a);
            }
            sink(s);
        };
        let x = |i: usize| format!("x{}", i);
        for sign in [1i128, -1] {
            for start in [0i128, 1, 2, 3, 7] {
                for n in 2..=mx {
                    // difference chains x_{i+1} - x_i >= c, several layouts and relations
                    for c in [0i128, 1, 2, 3, 4, 7, 8, 15] {
                        for lay in 0..6 {
                            let mut v = vec![match lay % 3 {
                                0 => format!("(= {} {})", x(0), lit(sign * start)),
                                1 => format!("({} {} {})", if sign > 0 { ">=" } else { "<=" }, x(0), lit(sign * start)),
                                _ => format!("({} {} {})", if sign > 0 { ">" } else { "<" }, x(0), lit(sign * (start - 1))),
                            }];
                            for i in 0..n - 1 {
                                let (a, b) = if sign > 0 { (x(i + 1), x(i)) } else { (x(i), x(i + 1)) };
                                v.push(match lay {
                                    0 => format!("(>= (- {} {}) {})", a, b, c),
                                    1 => format!("(> (- {} {}) {})", a, b, lit(c - 1)),
                                    2 => format!("(<= (+ {} {}) {})", b, c, a),
                                    3 => format!("(= (- {} {}) {})", a, b, c),
                                    4 => format!("(not (< {} (+ {} {})))", a, b, c),
                                    _ => format!("(< (- {} {}) {})", b, a, lit(1 - c)),
                                });
                            }
                            emit(n, &v);
                        }
                    }
                    // coefficient chains x_{i+1} = k x_i + c
                    for k in [2i128, 3, 5] {
                        for c in [0i128, 1, 5] {
                            for lay in 0..3 {
                                let mut v = vec![format!("(= {} {})", x(0), lit(sign * start))];
                                for i in 0..n - 1 {
                                    let kx = mul(k, &x(i));
                                    v.push(match lay {
                                        0 => format!("(= {} (+ {} {}))", x(i + 1), kx, lit(sign * c)),
                                        1 => format!("({} (- {} {}) {})", if sign > 0 { ">=" } else { "<=" }, x(i + 1), kx, lit(sign * c)),
                                        _ => format!("(= {} (+ {} {}))", x(i + 1), vec![x(i); k as usize].join(" "), lit(sign * c)),
                                    });
                                }
                                emit(n, &v);
                            }
                        }
                    }
                    // Fibonacci, tribonacci and prefix-sum chains
                    for w in 2..=4usize {
                        for lay in 0..4 {
                            let mut v: Vec<String> = vec![];
                            for i in 0..n {
                                if i < w {
                                    v.push(match lay % 2 {
                                        0 => format!("(= {} {})", x(i), lit(sign * (start + i as i128))),
                                        _ => format!("({} {} {})", if sign > 0 { ">=" } else { "<=" }, x(i), lit(sign * start)),
                                    });
                                } else {
                                    let from = if lay >= 2 { 0 } else { i - w };
                                    let sum = (from..i).map(x).collect::<Vec<_>>().join(" ");
                                    v.push(format!("(= {} (+ {}))", x(i), sum));
                                }
                            }
                            emit(n, &v);
                        }
                    }
                }
            }
            // long chains: many constraints that are no separation constraints, many bits
            let long: &[usize] = if thorough { &[17, 18, 24, 33, 34, 65, 66, 100, 129, 130] } else { &[18, 34, 66, 130] };
            for &n in long {
                for lay in 0..5 {
                    let mut v = vec![format!("(= x0 {})", lit(sign * 2))];
                    // values double, or inequalities admit values of 128 bits, or the solver needs long
                    if n > [34, 200, 66, 200, 18][lay] {
                        continue;
                    }
                    for i in 0..n - 1 {
                        let (a, b) = (x(i), x(i + 1));
                        v.push(match lay {
                            0 => format!("(= {} (+ {} {}))", b, a, a),
                            1 => format!("(= (+ {} {}) {})", a, b, lit(sign * 3)),
                            2 => format!("({} (+ {} {}) {})", if sign > 0 { "<=" } else { ">=" }, a, b, lit(sign * 4)),
                            3 => format!("(= (- {} {}) {})", b, a, lit(sign * 5)),
                            _ => format!("(>= (* 3 {}) (* 3 {}))", if sign > 0 { &b } else { &a }, if sign > 0 { &a } else { &b }),
                        });
                    }
                    emit(n, &v);
                }
            }
            // all different, alone and with bounds on one side
            for n in 2..=8 {
                for c in [0i128, 1, 3, 4] {
                    for lay in 0..4 {
                        let mut v = vec![];
                        let vars = (0..n).map(x).collect::<Vec<_>>();
                        match lay {
                            0 => v.push(format!("(distinct {})", vars.join(" "))),
                            1 => {
                                v.push(format!("(distinct {})", vars.join(" ")));
                                for a in &vars {
                                    v.push(format!("({} {} {})", if sign > 0 { ">=" } else { "<=" }, a, lit(sign * c)));
                                }
                            }
                            2 => {
                                for i in 0..n {
                                    for j in 0..i {
                                        v.push(format!("(not (= {} {}))", vars[i], vars[j]));
                                    }
                                }
                                v.push(format!("(distinct {} 0)", vars[0]));
                            }
                            _ => {
                                for i in 0..n {
                                    for j in 0..i {
                                        v.push(format!("(or (>= (- {} {}) {}) (>= (- {} {}) {}))", vars[i], vars[j], c, vars[j], vars[i], c));
                                    }
                                }
                                for a in &vars {
                                    v.push(format!("({} {} 0)", if sign > 0 { ">=" } else { "<=" }, a));
                                }
                            }
                        }
                        emit(n, &v);
                    }
                }
            }
            // one equation whose solutions need a large value
            for p in [2i128, 3, 7, 16, 101, 1000] {
                for q in [3i128, 5, 17, 31, 257] {
                    for c in [1i128, 2, 9, 100] {
                        let pos = |v: &str| format!("({} {} 0)", if sign > 0 { ">=" } else { "<=" }, v);
                        emit(2, &[format!("(= {} {})", lin(&[(p, "x0"), (-q, "x1")]), lit(sign * c * num_gcd(p, q))), pos("x0"), pos("x1")]);
                        emit(3, &[format!("(= (+ {} {}) {})", mul(p, "x0"), mul(-q, "x1"), lit(sign * c * num_gcd(p, q))), "(= x2 (+ x0 x1 x1))".into(), pos("x0"), pos("x1")]);
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        // All formulas are satisfiable by construction: the answer must be a correct model, and
        // the reported bound must cover what the README's formula demands for the reported stats.
        use mc::eval::{Model, Script};
        let sc = Script::parse(case).unwrap();
        mc::run::clear_captured();
        t.execs += 1;
        let out = solve(case, 1);
        let printed = mc::run::captured();
        for l in printed.lines().filter(|l| l.starts_with("Partition ")) {
            t.transitions += 1;
            check_printed_bound(l)?;
        }
        match out {
            Outcome::Sat(m) => {
                t.outcome("sat");
                t.transitions += 1;
                let m = Model::parse(&m).map_err(|e| format!("malformed model: {}", e))?;
                m.check(&sc).map_err(|e| format!("wrong model: {} {:?}", e, m.consts))
            }
            Outcome::Unsat => Err("wrong unsat: the formula is satisfiable by construction".into()),
            Outcome::Rejected(e) => Err(format!("rejected: {}", e)),
            Outcome::Failed(p) => Err(p),
        }
    }
    fn rule(&self) -> &'static str {
        "satisfiable-by-construction families with large smallest solutions: difference chains, coefficient chains, Fibonacci/prefix-sum chains, chains of up to 130 variables, all-different, Diophantine equations, over all listed parameters; every printed bound compared with the README formula for the printed statistics"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["varisat answers correctly"]
    }
}

fn num_gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { num_gcd(b, a % b) }
}

/// `Partition 'x': stats: Stats { vars: n, constraints: m, a_max: .., b_max: .., k: .., w: .. }, bound: N bits`
fn check_printed_bound(line: &str) -> Result<(), String> {
    use num_bigint::BigUint;
    let field = |name: &str| -> Option<BigUint> {
        let i = line.find(&format!("{}: ", name))? + name.len() + 2;
        let s: String = line[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
        s.parse().ok()
    };
    let get = |n: &str| field(n).ok_or_else(|| format!("statistics line: no {} in {}", n, line));
    let one = BigUint::from(1u8);
    let (n, m, a, b, k, w) = (get("vars")?, get("constraints")?, get("a_max")?, get("b_max")?, get("k")?, get("w")?);
    let bits = get("bound")?;
    let k0 = k == BigUint::from(0u8);
    let d = if k0 {
        n.clone().min(m) * (&b + &one)
    } else {
        let k: u32 = k.try_into().map_err(|_| "statistics line: k")?;
        (a * w).pow(k) * (&n + 2u8) * (&n + &one).min(m) * (&b + &one)
    };
    // smallest width whose two's complement range contains [-d, d]
    let need = d.bits() + 1;
    // README: ceil(log2(d + 1) + 1)
    let readme = (&d + &one - &one).bits() + 1;
    let got: u64 = bits.try_into().unwrap();
    // The tool rounds up (one spare bit for d = 2^i - 1), and equality logic uses n instead of min(n, m).
    let top = if k0 && b == BigUint::from(0u8) { d.max(n) } else { d };
    let max = (&top + &one).bits() + 1;
    if got < need.max(readme) || got > max {
        return Err(format!("printed bound: expected {}..={} bits: {}", need, max, line));
    }
    Ok(())
}

/// Exact arithmetic for operands of any magnitude.
pub struct Magnitude;
impl Check for Magnitude {
    fn id(&self) -> &'static str {
        "A05"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = decls(&[("x", "Int"), ("y", "Int"), ("z", "Int")]);
        let mut vals: Vec<i128> = vec![0];
        let ks: &[u32] = if thorough { &[1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 70, 90] } else { &[1, 2, 5, 31, 63, 64, 70] };
        for &k in ks {
            for e in [-1i128, 0, 1] {
                for s in [1i128, -1] {
                    vals.push(s * ((1i128 << k) + e));
                }
            }
        }
        vals.sort_by_key(|v| (v.abs(), *v < 0));
        vals.dedup();
        let big = vals.clone();
        if thorough {
            for i in 0..=20 {
                vals.push(i);
                vals.push(-i);
            }
            vals.sort_by_key(|v| (v.abs(), *v < 0));
            vals.dedup();
        }
        for &x in &vals {
            for &y in &vals {
                // quick: operands of similar size, and small with large ones
                if !thorough && x.abs() > 40 && y.abs() > 40 && (x.abs() < y.abs() / 2 || y.abs() < x.abs() / 2) {
                    continue;
                }
                let pins = format!("{}(assert (= x {}))(assert (= y {}))", d, lit(x), lit(y));
                for e in ["(+ x y)", "(- x y)", "(- (- x) y)", "(+ x x y)", "(- y (* 3 x))", "(+ (* (- 2) x) (* 5 y) 1)"] {
                    sink(format!("{}(assert (= z {}))", pins, e));
                    sink(format!("{}(assert (distinct z {}))(assert (>= z {}))(assert (<= z {}))", pins, e, e, e));
                }
                for op in OPS {
                    sink(format!("{}(assert ({} x y))", pins, op));
                    sink(format!("{}(assert ({} (- x y) {}))", pins, op, lit(x - y)));
                    sink(format!("{}(assert ({} (+ x y) {}))", pins, op, lit(x + y + 1)));
                }
            }
        }
        // constants of any size as coefficients (products stay within i128)
        for &c in &big {
            for &y in &vals {
                if c.checked_mul(y).map_or(true, |p| p.unsigned_abs() > 1 << 120) || (y.abs() > 1 << 33 && c.abs() > 1 << 33) || (!thorough && (c.abs().min(y.abs()) > 3 || c < -40)) {
                    continue;
                }
                sink(format!("{}(assert (= y {}))(assert (= z {}))", d, lit(y), mul(c, "y")));
                sink(format!("{}(assert (= y {}))(assert (not (= {} {})))", d, lit(y), mul(c, "y"), lit(c * y)));
                sink(format!("{}(assert (= z (* y {})))(assert (= y {}))(assert (= (+ z x) 1))", d, lit(c), lit(y)));
            }
        }
        // operands beyond all machine words: the expected values come with the case
        use num_bigint::BigInt;
        let big_lit = |v: &BigInt| if *v < BigInt::from(0) { format!("(- {})", -v) } else { v.to_string() };
        let ks: &[u32] = if thorough { &[120, 126, 127, 128, 129, 192, 255, 256, 257, 300, 1024, 4096] } else { &[127, 128, 257, 1024] };
        let mut vals: Vec<BigInt> = [0, 1, -1, 3, -1000].iter().map(|v| BigInt::from(*v)).collect();
        for &k in ks {
            for e in [-1, 0, 1] {
                if k > 1000 && e != 0 {
                    continue;
                }
                let v: BigInt = (BigInt::from(1) << k) + e;
                vals.push(-v.clone());
                vals.push(v);
            }
        }
        for (i, x) in vals.iter().enumerate() {
            for (j, y) in vals.iter().enumerate() {
                if i < 5 && j < 5 || i != 1 && j != 1 && x.bits().max(y.bits()) > 1000 {
                    continue;
                }
                let pins = format!("{}(assert (= x {}))(assert (= y {}))", d, big_lit(x), big_lit(y));
                let mut terms = vec![("(+ x y)".to_string(), x + y), ("(- x y)".into(), x - y), ("(- (- x) y)".into(), -x - y), ("(+ x x y)".into(), x + x + y), ("(- y (* 3 x))".into(), y - x * 3)];
                if i < 5 || (j < 5 && x.bits() < 130) {
                    terms.push((format!("(* {} y)", big_lit(x)), x * y));
                    terms.push((format!("(+ x (* y {}))", big_lit(x)), x * y + x));
                }
                for (n, (e, v)) in terms.iter().enumerate() {
                    if !thorough && (i + j + n) % 2 == 0 {
                        continue;
                    }
                    sink(format!("; z = {}\n{}(assert (= z {}))", v, pins, e));
                    sink(format!("; unsat\n{}(assert (not (= {} {})))", pins, e, big_lit(v)));
                    for (rel, c, holds) in [("<", v + 1, true), ("<=", v.clone(), true), (">", v.clone(), false), (">=", v + 1, false), ("=", v + 1, false)] {
                        sink(format!("; {}\n{}(assert ({} {} {}))", if holds { "sat" } else { "unsat" }, pins, rel, e, big_lit(&c)));
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        use mc::eval::{eval, NoFuns, Script, Sort, Val};
        if let Some((expected, _)) = case.strip_prefix("; ").and_then(|c| c.split_once('\n')) {
            return check_expected(expected, case, t);
        }
        // Pinned values (and the sums they determine) are the only candidates.
        let sc = Script::parse(case).unwrap();
        let cmds = mc::sexp::parse(case).unwrap();
        let mut env: Vec<Val> = vec![Val::Int(0); sc.vars.len()];
        for _ in 0..2 {
            for c in cmds.iter().filter(|c| c.head() == Some("assert")) {
                let f = &c.list().unwrap()[1];
                let l = f.list().unwrap();
                if f.head() == Some("=") && l.len() == 3 {
                    if let Some(i) = l[1].atom().and_then(|v| sc.vars.iter().position(|(n, _)| n == v)) {
                        let e = sc.compile(&l[2], &Default::default()).unwrap();
                        env[i] = eval(&e, &env, &mut NoFuns).unwrap();
                    }
                }
                if f.to_string() == "(= (+ z x) 1)" {
                    if let Val::Int(z) = env[2] {
                        env[0] = Val::Int(1 - z);
                    }
                }
            }
        }
        let cand = env.clone();
        let _ = &cand;
        let i = std::cell::Cell::new(0usize);
        let dom = move |_: &Sort| {
            let k = i.get();
            i.set(k + 1);
            vec![cand[k].clone()]
        };
        check_verdict(case, &dom, 1, t)
    }
    fn rule(&self) -> &'static str {
        "operands 0, +-(2^k-1, 2^k, 2^k+1) (k up to 70, thorough 90): all pairs under +, -, unary -, constant multiplication and the six relations; the exact result is computed by the reference interpreter, equality with it must be sat and its negation unsat; operands +-(2^k-1, 2^k, 2^k+1) with k of 127, 128, 257 (thorough ten from 120 to 300) with each other and with small ones, 2^1024 (thorough also 2^4096) with 1, judged by arbitrary precision integers"
    }
    fn hang_secs(&self) -> u64 {
        60
    }
}

/// The expected answer of a case with operands of any size; the pinned values have to be in the model.
fn check_expected(expected: &str, case: &str, t: &mut Tally) -> Result<(), String> {
    t.execs += 1;
    t.transitions += 1;
    let model = match solve(case, 1) {
        Outcome::Rejected(e) => return Err(format!("rejected: {}", e)),
        Outcome::Failed(p) => return Err(p),
        Outcome::Unsat if expected == "unsat" => {
            t.outcome("unsat");
            return Ok(());
        }
        Outcome::Unsat => return Err(format!("wrong unsat: expected {}", expected)),
        Outcome::Sat(m) if expected == "unsat" => return Err(format!("wrong model: expected unsat, got {}", m.replace('\n', " "))),
        Outcome::Sat(m) => m,
    };
    t.outcome("sat");
    let shown: String = model.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut pins: Vec<(String, String)> = vec![];
    if let Some(z) = expected.strip_prefix("z = ") {
        pins.push(("z".into(), if let Some(n) = z.strip_prefix('-') { format!("(- {})", n) } else { z.into() }));
    }
    for v in ["x", "y"] {
        let after = case.split_once(&format!("(assert (= {} ", v)).unwrap().1;
        pins.push((v.into(), after.split_once("))").map(|(l, _)| if l.starts_with('(') { format!("{})", l) } else { l.to_string() }).unwrap()));
    }
    for (v, val) in pins {
        t.transitions += 1;
        let cmds = mc::sexp::parse(&shown).map_err(|e| format!("malformed model: {:?} in {}", e, shown))?;
        let found = cmds.iter().flat_map(|c| c.list().into_iter().flatten().chain([c])).any(|c| {
            c.head() == Some("define-fun") && c.list().map_or(false, |l| l.len() == 5 && l[1].atom() == Some(&v) && l[4].to_string() == val)
        });
        if !found {
            return Err(format!("wrong model: {} should be {} in {}", v, val, shown));
        }
    }
    Ok(())
}

/// bvule over bit-vectors.
pub struct Bvule;
impl Check for Bvule {
    fn id(&self) -> &'static str {
        "A07"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let bin = |w: usize, v: u32| format!("#b{:0w$b}", v, w = w);
        // every comparison of two literals, and of a pinned variable with a literal or variable
        for w in 1..=4usize {
            let d = format!("(declare-const x (_ BitVec {}))(declare-const y (_ BitVec {}))", w, w);
            for a in 0..1u32 << w {
                for b in 0..1u32 << w {
                    let mut las = vec![bin(w, a)];
                    let mut lbs = vec![bin(w, b), format!("(_ bv{} {})", b, w)];
                    if w == 4 {
                        las.push(format!("#x{:x}", a));
                        lbs.push(format!("#x{:X}", b));
                    }
                    for la in &las {
                        for lb in &lbs {
                            for neg in [false, true] {
                                let n = |f: String| if neg { format!("(not {})", f) } else { f };
                                sink(format!("{}(assert {})", d, n(format!("(bvule {} {})", la, lb))));
                                let pin = |v: &str, l: &str| format!("(assert (bvule {} {}))(assert (bvule {} {}))", v, l, l, v);
                                sink(format!("{}{}(assert {})", d, pin("x", la), n(format!("(bvule x {})", lb))));
                                sink(format!("{}{}(assert {})", d, pin("x", lb), n(format!("(bvule {} x)", la))));
                                sink(format!("{}{}{}(assert {})", d, pin("x", la), pin("y", lb), n("(bvule x y)".into())));
                            }
                        }
                    }
                }
            }
        }
        // wider literals: hexadecimal digits in every position
        for h in ["#x00", "#x0f", "#xf0", "#xff", "#x5a", "#xa5", "#x80", "#x7f", "#x01", "#x10"] {
            for g in ["#x00", "#x0f", "#xf0", "#xff", "#x5a", "#xa5", "#x80", "#x7f", "(_ bv129 8)", "#b10000001"] {
                let d = "(declare-const x (_ BitVec 8))";
                sink(format!("{}(assert (bvule {} x))(assert (bvule x {}))", d, h, g));
                sink(format!("{}(assert (bvule {} {}))", d, h, g));
                sink(format!("{}(assert (not (bvule {} x)))(assert (not (bvule x {})))", d, h, g));
            }
        }
        // bit-vectors of every width: several of them, so that their bits have to be kept apart
        let widths: &[usize] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 96, 100, 127, 128];
        for (wi, &w) in widths.iter().enumerate() {
            let max = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let mut vals = vec![0, 1, max, max - 1, max >> 1, (max >> 1) + 1, max / 3, 1 << (w - 2)];
            if w > 64 {
                vals.extend([u64::MAX as u128, 1 << 64]);
            }
            if w > 32 {
                vals.extend([u32::MAX as u128, 1 << 32]);
            }
            let show = |i: usize, v: u128| match i % 3 {
                0 if w % 4 == 0 => format!("#x{:0w$x}", v, w = w / 4),
                1 => format!("(_ bv{} {})", v, w),
                _ => format!("#b{:0w$b}", v, w = w),
            };
            let d: String = ["x", "y", "z"].iter().map(|v| format!("(declare-const {} (_ BitVec {}))", v, w)).collect();
            let d1 = &d[..d.len() / 3];
            let d2 = &d[..d.len() / 3 * 2];
            let pin = |v: &str, l: &str| format!("(assert (bvule {} {}))(assert (bvule {} {}))", v, l, l, v);
            for (i, &a) in vals.iter().enumerate() {
                for (j, &b) in vals.iter().enumerate() {
                    let (la, lb) = (show(i + j, a), show(j + 2 * i + 1, b));
                    sink(format!("{}(assert (bvule {} {}))", d1, la, lb));
                    for f in ["(bvule x y)", "(not (bvule x y))"] {
                        sink(format!("{}{}{}(assert {})", d2, pin("x", &la), pin("y", &lb), f));
                    }
                    sink(format!("{}(assert (bvule {} x))(assert (bvule y {}))(assert (bvule {} z))", d, la, lb, la));
                    sink(format!("{}(assert (bvule {} x))(assert (not (bvule {} x)))", d1, la, lb));
                    sink(format!("{}(assert (bvule {} x))(assert (bvule y {}))(assert (bvule x y))", d2, la, lb));
                    sink(format!("{}(assert (bvule {} x))(assert (not (bvule y x)))(assert (bvule y z))(assert (bvule z {}))", d, la, lb));
                    if thorough || (i + 3 * j) % 4 == 0 {
                        for (k, &c) in vals.iter().enumerate() {
                            let lc = show(k, c);
                            sink(format!("{}{}{}{}(assert (bvule x y))(assert (not (bvule z y)))", d, pin("x", &la), pin("z", &lc), pin("y", &lb)));
                        }
                    }
                }
                // bit-vectors of another width, an integer and a Boolean beside it
                for &u in &widths[..wi] {
                    let m = (1u128 << u) - 1;
                    for b in [0, m, m >> 1, 1] {
                        let (la, lb) = (show(i, a), format!("#b{:0w$b}", b, w = u));
                        sink(format!(
                            "(declare-const v (_ BitVec {}))(declare-const p Bool)(declare-const x (_ BitVec {}))(declare-const n Int){}(assert (= p (bvule v {})))(assert (not (= p (bvule x {}))))(assert (= n (ite p 3 5)))(assert {})",
                            u, w, pin("x", &la), lb, la, if i % 2 == 0 { "p" } else { "(> n 3)" }
                        ));
                        sink(format!("(declare-const x (_ BitVec {}))(declare-const v (_ BitVec {})){}(assert (bvule v {}))(assert (bvule {} v))", w, u, pin("x", &la), lb, lb));
                    }
                }
            }
        }
        // every Boolean combination of two or three atoms over three variables and literals
        let wmax = if thorough { 3 } else { 2 };
        for w in 1..=wmax {
            let d: String = ["x", "y", "z"].iter().map(|v| format!("(declare-const {} (_ BitVec {}))", v, w)).collect();
            let mut terms: Vec<String> = ["x", "y", "z"].iter().map(|s| s.to_string()).collect();
            terms.extend((0..1u32 << w).map(|v| bin(w, v)));
            let mut lits = vec![];
            for a in &terms {
                for b in &terms {
                    if a != b && !(a.starts_with('#') && b.starts_with('#')) {
                        lits.push(format!("(bvule {} {})", a, b));
                        lits.push(format!("(not (bvule {} {}))", a, b));
                    }
                }
            }
            for i in 0..lits.len() {
                for j in i + 1..lits.len() {
                    sink(format!("{}(assert {})(assert {})", d, lits[i], lits[j]));
                    sink(format!("{}(assert (xor {} {}))(assert (bvule x y))", d, lits[i], lits[j]));
                    for (k, l) in lits.iter().enumerate().skip(j + 1) {
                        if (i + 3 * j + 5 * k) % if thorough { 5 } else { 7 } == 0 {
                            sink(format!("{}(assert {})(assert {})(assert {})", d, lits[i], lits[j], l));
                        }
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        // wide bit-vectors: the values of the literals and their neighbours (and 0 and the
        // greatest) stand for all, which is exact for comparisons of three variables
        let cmds = mc::sexp::parse(case).unwrap();
        let mut lits = vec![];
        fn walk(x: &mc::sexp::Sx, out: &mut Vec<u128>) {
            if let Some(a) = x.atom() {
                if let Some(b) = a.strip_prefix("#b") {
                    out.push(u128::from_str_radix(b, 2).unwrap());
                } else if let Some(h) = a.strip_prefix("#x") {
                    out.push(u128::from_str_radix(h, 16).unwrap());
                } else if let Some(v) = a.strip_prefix("bv").and_then(|v| v.parse().ok()) {
                    out.push(v);
                }
            } else if let Some(l) = x.list() {
                l.iter().for_each(|y| walk(y, out));
            }
        }
        cmds.iter().for_each(|c| walk(c, &mut lits));
        let full = if cmds.iter().filter(|c| c.head() == Some("declare-const")).count() == 1 { 8 } else { 4 };
        let dom = move |s: &mc::eval::Sort| match s {
            mc::eval::Sort::Bv(w) if *w > full => {
                let max = if *w >= 128 { u128::MAX } else { (1 << w) - 1 };
                let mut v: Vec<u128> = vec![];
                for l in lits.iter().copied().chain([0, max]) {
                    v.extend([l, l.saturating_sub(1), l.saturating_add(1)].iter().filter(|x| **x <= max));
                }
                v.sort_unstable();
                v.dedup();
                v.into_iter().map(|b| mc::eval::Val::Bv(*w, b)).collect()
            }
            _ => int_box(0)(s),
        };
        check_verdict(case, &dom, 1, t)
    }
    fn rule(&self) -> &'static str {
        "all bvule comparisons of literals (binary, hexadecimal, bvN) and variables for widths 1-4 and selected width-8 ones; widths up to 128 (17 of them) with one to three variables, alone or of different widths together, compared with the greatest, smallest and middle values and single bits; Boolean combinations over three variables (widths 1-2, thorough 3); every value of every variable is enumerated (for wider ones the values at and next to the literals, which are enough for comparisons), so both verdicts are decided exactly"
    }
    fn hang_secs(&self) -> u64 {
        60
    }
}

/// Boolean structure and derived syntax.
pub struct Sugar;
impl Check for Sugar {
    fn id(&self) -> &'static str {
        "A08"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = decls(&[("x", "Int"), ("y", "Int"), ("p", "Bool"), ("q", "Bool")]);
        let atoms = ["p", "q", "(>= x 1)", "(< x y)", "(= x y)", "(<= (+ x y) (- 1))", "true", "false"];
        let mut f1: Vec<String> = atoms.iter().map(|s| s.to_string()).collect();
        let mut f2 = vec![];
        for a in atoms {
            f1.push(format!("(not {})", a));
            for b in atoms {
                for c in ["and", "or", "xor", "=>", "="] {
                    f2.push(format!("({} {} {})", c, a, b));
                }
            }
        }
        for a in atoms {
            for b in atoms {
                for c in atoms {
                    f2.push(format!("(ite {} {} {})", a, b, c));
                    for o in ["and", "or", "xor", "=>", "="] {
                        f2.push(format!("({} {} {} {})", o, a, b, c));
                    }
                }
            }
        }
        // integer-valued ite, let, chained relations, distinct
        let terms = ["x", "y", "0", "2", "(+ x 1)", "(- y)"];
        let mut f3 = vec![];
        for a in terms {
            for b in terms {
                for c in atoms {
                    for op in ["=", "<", ">="] {
                        f3.push(format!("({} (ite {} {} {}) y)", op, c, a, b));
                        f3.push(format!("({} (+ x (ite {} {} {})) (ite {} {} 1))", op, c, a, b, if c == "p" { "q" } else { "p" }, b));
                    }
                    f3.push(format!("(let ((v {}) (w {})) (and {} (< v w)))", a, b, c));
                }
                f3.push(format!("(let ((x {})) (let ((y {}) (z x)) (= (+ x y) (+ z 1))))", a, b));
                f3.push(format!("(let ((x y) (y {})) (< x y {}))", a, b));
                f3.push(format!("(let ((v {})) (and (let ((v {})) (< v y)) (= x v)))", a, b));
                f3.push(format!("(let ((x {}) (v x)) (or (let ((y x) (x {})) (= x y v)) (let ((v x)) (< v y))))", a, b));
                for c in terms {
                    for op in OPS {
                        f3.push(format!("({} {} {} {})", op, a, b, c));
                    }
                    f3.push(format!("(= {} (- {} {} 1))", a, b, c));
                    f3.push(format!("(distinct {} {} {} 1)", a, b, c));
                    f3.push(format!("(<= 0 {} {} {} 2)", a, b, c));
                }
            }
        }
        let all: Vec<&String> = f1.iter().chain(&f2).chain(&f3).collect();
        for f in &all {
            sink(format!("{}(assert {})", d, f));
            sink(format!("{}(assert (not {}))", d, f));
            // truth table over pins
            let range: &[i128] = if thorough { &[-2, -1, 0, 1, 2] } else { &[-1, 0, 1] };
            for &x in range {
                for &y in range {
                    for b in 0..4 {
                        let pins = format!("(assert (= x {}))(assert (= y {}))", lit(x), lit(y));
                        let lb = |v: &str, t: bool| if t { format!("(assert {})", v) } else { format!("(assert (not {}))", v) };
                        if thorough || (x + 2 * y + b).rem_euclid(3) == 0 {
                            sink(format!("{}{}{}{}(assert {})", d, pins, lb("p", b & 1 == 1), lb("q", b & 2 == 2), f));
                        }
                    }
                }
            }
        }
        // formulas that differ in one argument only, so that they share all other subterms
        let some = &atoms[..if thorough { 6 } else { 5 }];
        for o in ["ite", "and", "or", "xor", "=>", "="] {
            for a in some {
                for b in some {
                    for c in some {
                        for e in some.iter().filter(|e| [a, b, c].iter().any(|o| o != e)) {
                            for (i, other) in [[e, b, c], [a, e, c], [a, b, e]].iter().enumerate() {
                                if *other != [a, b, c] && (thorough || [a, b, c][i] > e) {
                                    let f = format!("({} {} {} {})", o, a, b, c);
                                    let g = format!("({} {} {} {})", o, other[0], other[1], other[2]);
                                    sink(format!("{}(assert {})(assert (not {}))", d, f, g));
                                    sink(format!("{}(assert (and (or {} p) (or {} q)))", d, g, f));
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut ites = vec![];
        for c in ["p", "q", "(not p)", "(< x y)", "(>= x 1)"] {
            for (a, b) in [("x", "y"), ("y", "x"), ("1", "2"), ("2", "1"), ("x", "1"), ("(ite q 1 y)", "1"), ("(+ x 1)", "(+ x 1)")] {
                ites.push(format!("(ite {} {} {})", c, a, b));
            }
        }
        for a in &ites {
            for b in &ites {
                for f in [format!("(= {} {})", a, b), format!("(< {} {})", a, b), format!("(= (+ {} {}) 3)", a, b), format!("(and (= {} 1) (distinct {} 1))", a, b)] {
                    sink(format!("{}(assert {})", d, f));
                    for pins in ["(assert p)(assert q)", "(assert p)(assert (not q))", "(assert (not p))(assert q)", "(assert (= x 1))(assert (= y 2))"] {
                        if thorough || a != b {
                            sink(format!("{}{}(assert {})", d, pins, f));
                        }
                    }
                }
            }
        }
        // pairs
        let step = if thorough { 3 } else { 29 };
        for (i, f) in f2.iter().enumerate() {
            for (j, g) in f3.iter().enumerate() {
                if (i + j * 7) % (step * 5) == 0 {
                    sink(format!("{}(assert {})(assert (not {}))", d, f, g));
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        check_verdict(case, &int_box(4), 1, t)
    }
    fn rule(&self) -> &'static str {
        "every connective (2 and 3 arguments) over 8 atoms, integer and Boolean ite, nested and shadowing let, chained relations and distinct, pairs of formulas that differ in one argument, pairs of ite terms: verdict of the formula, of its negation, and under pinned valuations; model evaluated, unsat refuted by search in [-4,4]"
    }
}

/// The answer does not depend on hash keys or addresses (iteration and term order).
pub struct Order;
impl Check for Order {
    fn id(&self) -> &'static str {
        "A11"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let d = format!("(declare-fun f (Int) Int){}", decls(&[("x", "Int"), ("y", "Int"), ("z", "Int"), ("p", "Bool")]));
        let atoms = [
            "(= (+ x y) z)", "(< (+ x (* 2 y)) z)", "(= (- x y z) 0)", "(>= (- (* 3 z) x) y)", "(= (+ x y z) 1)", "(distinct x y z)",
            "(= x (ite p y z))", "(< x y z)", "(= (f x) (f y))", "(> (f (+ y z)) x)", "(not (= x y))", "(xor p (= z 0))", "(= (- x) (+ y y))",
            "(<= 1 x)", "(<= z (- 2))", "(= x 1)", "(= (* 2 x) (* 3 y))", "(let ((v (- x y))) (= (+ v v) z))",
        ];
        for i in 0..atoms.len() {
            for j in i..atoms.len() {
                sink(format!("{}(assert {})(assert {})", d, atoms[i], atoms[j]));
                sink(format!("{}(assert {})(assert (not {}))", d, atoms[i], atoms[j]));
                for k in j + 1..atoms.len() {
                    if thorough || (i + j + k) % 6 == 0 {
                        sink(format!("{}(assert {})(assert {})(assert {})", d, atoms[i], atoms[j], atoms[k]));
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let mut first: Option<bool> = None;
        for seed in 1..=24 {
            let before = t.outcomes.get("unsat").copied().unwrap_or(0);
            // the first unsat answer is also compared with the reference; later ones with the first
            check_verdict(case, &|s| if first.is_none() { int_box(4)(s) } else { int_box(0)(s) }, seed, t).map_err(|e| format!("{} (order {})", e, seed))?;
            let sat = t.outcomes.get("unsat").copied().unwrap_or(0) == before;
            if *first.get_or_insert(sat) != sat {
                return Err(format!("verdict depends on order: order 1 sat={:?}, order {} sat={}", first, seed, sat));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "pairs and triples of atoms over three variables and a function, each solved under 24 hash-key/address assignments (which permute the order terms and variables are processed in): same verdict, every model correct"
    }
}
