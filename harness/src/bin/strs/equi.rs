use crate::common::{atoms, show, transform, vectors, Out};
use mc::run::{Check, Sink, Tally};

/// Script that names the truth value of every atom.
pub fn script(vars: &[&str], atoms: &[&str]) -> String {
    let mut s = String::new();
    for v in vars {
        s += &format!("(declare-const {} String)", v);
    }
    for (i, _) in atoms.iter().enumerate() {
        s += &format!("(declare-const p{} Bool)", i);
    }
    for (i, a) in atoms.iter().enumerate() {
        s += &format!("(assert (= p{} {}))", i, a);
    }
    s
}

pub fn equisat(text: &str, c2c: bool, seed: u64, t: &mut Tally) -> Result<(), String> {
    t.execs += 1;
    let out = transform(seed, text, c2c)?;
    judge(text, &out, t)
}

/// Does the transformed script admit exactly the same truth values as the original one?
pub fn judge(text: &str, out: &Out, t: &mut Tally) -> Result<(), String> {
    let a = atoms(text)?;
    let want = vectors(&a, 3, t);
    if !out.failed.is_empty() {
        t.outcome("bail-out");
        return Err(format!("bail-out: {:?}", out.failed));
    }
    let b = atoms(&out.text).map_err(|e| format!("{} in {}", e, out.text))?;
    if b.atoms.len() != a.atoms.len() || b.strings.len() != a.strings.len() {
        return Err(format!("wrong shape: {}", out.text));
    }
    let got = vectors(&b, 3, t);
    t.outcome(if want.len() == 1 << a.atoms.len() { "all vectors" } else { "some vectors" });
    let show_all = |v: Vec<u32>| v.into_iter().map(|x| show(&a, x)).collect::<Vec<_>>().join(" ");
    let lost: Vec<u32> = want.difference(&got).copied().collect();
    let new: Vec<u32> = got.difference(&want).copied().collect();
    if !lost.is_empty() || !new.is_empty() {
        return Err(format!("not equisatisfiable: lost {}, gained {} in {}", show_all(lost), show_all(new), out.text.replace('\n', " ")));
    }
    Ok(())
}

pub struct Equi(pub bool);

impl Check for Equi {
    fn id(&self) -> &'static str {
        if self.0 { "S02" } else { "S01" }
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        let lits = ["a", "b", "ab", "ba", "aa", "abc", "1", "12", ""];
        let mut ats: Vec<String> = vec![];
        for l in lits {
            ats.push(format!("(= x \"{}\")", l));
            ats.push(format!("(str.prefixof \"{}\" x)", l));
            ats.push(format!("(str.suffixof \"{}\" x)", l));
            ats.push(format!("(str.contains x \"{}\")", l));
            ats.push(format!("(str.contains \"{}\" x)", l));
            ats.push(format!("(str.prefixof x \"{}\")", l));
            ats.push(format!("(str.suffixof x \"{}\")", l));
            ats.push(format!("(str.in_re x (str.to_re \"{}\"))", l));
            ats.push(format!("(str.in_re x (re.* (str.to_re \"{}\")))", l));
            ats.push(format!("(str.in_re x (re.++ (str.to_re \"{}\") re.allchar))", l));
            ats.push(format!("(str.in_re x (re.++ (str.to_re \"{}\") (re.* re.allchar)))", l));
            ats.push(format!("(str.in_re x (re.++ (re.* (re.range \"a\" \"c\")) (str.to_re \"{}\")))", l));
            ats.push(format!("(= (str.indexof x \"{}\" 0) 1)", l));
            ats.push(format!("(= (str.indexof x \"{}\" 0) (- 1))", l));
            ats.push(format!("(= (str.at x 0) \"{}\")", l));
            ats.push(format!("(= (str.substr x 1 2) \"{}\")", l));
        }
        for a in ["(= (str.len x) 0)", "(= (str.len x) 1)", "(<= (str.len x) 2)", "(= (str.to_int x) 12)", "(= (str.to_int x) (- 1))", "(str.is_digit x)", "(= (str.to_code x) 49)",
            "(str.in_re x (re.+ (re.range \"0\" \"9\")))", "(str.in_re x (re.+ (re.range \"a\" \"c\")))", "(str.in_re x ((_ re.loop 1 2) (re.range \"a\" \"c\")))", "(str.in_re x ((_ re.^ 2) (re.range \"0\" \"9\")))"] {
            ats.push(a.into());
        }
        // triples over small families: digits and their values; ranges of characters that are
        // mapped across characters which are not used
        let digits = ["(= x \"7\")", "(= x \"07\")", "(= x \"a7\")", "(= (str.to_int x) 7)", "(= (str.to_int x) 0)", "(= (str.to_code x) 55)", "(str.is_digit x)", "(str.prefixof \"7\" x)",
            "(str.contains x \"0\")", "(= (str.from_int 7) x)", "(str.in_re x (re.range \"0\" \"9\"))", "(str.in_re x (re.* (re.union (str.to_re \"7\") (re.range \"a\" \"f\"))))"];
        let wide: String = (0x24u8..0x7d).filter(|c| *c != 34 && *c != 92).map(|c| c as char).collect();
        let long = format!("(or (= x \"{}\") (str.in_re x (re.range \"#\" \"}}\")))", wide);
        let ranges = [&long, "(str.in_re x (re.range \"#\" \"}\"))", "(= x \"]\")", "(= x \"^\")", "(= x \"_\")", "(str.prefixof \"[\" x)", "(str.suffixof \"|\" x)", "(str.contains x \"]^\")",
            "(str.in_re x (re.++ (str.to_re \"]\") re.allchar))"];
        // ranges with gaps between, before and after them
        let apart = ["(str.in_re x (re.range \"A\" \"Z\"))", "(str.in_re x (re.range \"a\" \"z\"))", "(str.in_re x (re.+ (re.union (re.range \"A\" \"Z\") (re.range \"a\" \"z\"))))", "(= x \"A\")", "(= x \"Q\")", "(= x \"q\")",
            "(= x \"z\")", "(= x \"Zz\")", "(= x \"_\")", "(str.in_re x (re.++ (re.range \"A\" \"Z\") (str.to_re \"_\") (re.range \"0\" \"9\")))", "(str.in_re x (re.* (re.range \"0\" \"9\")))"];
        // ranges that overlap, contain or touch each other
        let nested = ["(str.in_re x (re.range \"a\" \"z\"))", "(str.in_re x (re.range \"a\" \"f\"))", "(str.in_re x (re.range \"d\" \"h\"))", "(str.in_re x (re.range \"g\" \"z\"))", "(str.in_re x (re.range \"f\" \"a\"))",
            "(str.in_re x (re.range \"0\" \"5\"))", "(str.in_re x (re.range \"3\" \"A\"))", "(str.in_re x (re.range \"0\" \"9\"))", "(str.in_re x (re.range \" \" \"~\"))", "(str.in_re x (re.++ (re.range \"a\" \"f\") (re.* (re.range \"d\" \"z\"))))", "(= x \"e\")", "(= x \"fg\")", "(= x \"f\")", "(str.prefixof \"g\" x)", "(= x \"4\")", "(= (str.to_int x) 4)", "(str.contains x \"7\")", "(= x \"_\")", "(= (str.len x) 1)"];
        // codes of characters
        let codes = ["(= (str.to_code x) 97)", "(= (str.to_code x) 49)", "(> (str.to_code x) 98)", "(= (str.to_code x) (- 1))", "(= x (str.from_code 97))", "(= x (str.from_code (str.len x)))", "(= (str.++ x \"a\") (str.++ (str.from_code 98) \"a\"))", "(= (str.to_code (str.at x 1)) 98)",
            "(= x \"a\")", "(= x \"ab\")", "(= x \"b\")", "(str.prefixof \"a\" x)", "(str.contains x \"c\")", "(str.in_re x (re.range \"a\" \"c\"))", "(= (str.len x) 1)", "(= x \"1\")"];
        // escape sequences and characters beyond ASCII
        let escapes = ["(= x \"\\u{61}\")", "(= x \"a\")", "(= x \"\\u0061b\")", "(= x \"\\u{e9}\")", "(= x \"\u{e9}\")", "(= x \"\\u{5c}u{61}\")", "(= x \"\\u{110000}\")", "(= x \"\\u{}\")", "(= x \"\\x61\")", "(str.prefixof \"\\u{e9}\" x)", "(str.contains x \"a\\u{2028}\")", "(= (str.len x) 1)",
            "(str.in_re x (re.range \"\\u{41}\" \"\\u{5a}\"))", "(str.in_re x (re.range \"A\" \"\\u005A\"))", "(= (str.++ x \"\\u{e9}\") \"a\\u{e9}\")", "(= (str.to_code x) 233)", "(= x \"\\\")", "(str.suffixof \"\"\"\" x)"];
        // strings inside literals: the only characters that matter may be those inside
        let inside = ["(str.contains \"ab\" x)", "(str.contains \"abc\" x)", "(str.contains \"aba\" x)", "(str.prefixof x \"abc\")", "(str.prefixof x \"aa\")", "(str.suffixof x \"abc\")", "(str.suffixof x \"bb\")", "(= x \"\")", "(= x \"ab\")", "(= x \"abc\")",
            "(= x \"b\")", "(= x \"bc\")", "(str.contains x \"b\")", "(str.prefixof \"a\" x)", "(str.suffixof \"c\" x)", "(str.contains \"cab\" (str.++ x \"a\"))", "(= (str.indexof \"abca\" x 0) 0)", "(= (str.replace \"abc\" x \"\") \"c\")", "(= (str.replace_all \"aba\" x \"c\") \"cbc\")"];
        let escapes5 = ["(= x \"A\")", "(= x \"\\u{00041}\")", "(= x \"\\u{000041}\")", "(= x \"\\u{1f600}\")", "(str.contains x \"\\u{1F600}\")", "(str.prefixof \"\\u{2ffff}\" x)", "(= x \"\\u{30000}\")", "(= (str.len x) 1)", "(= (str.len x) 9)",
            "(= x \"\\u0041\\u{042}\")", "(= x \"AB\")", "(= x \"\\U{41}\")", "(= x \"\\ua\")", "(= x \"\\u{g}\")", "(str.suffixof \"\\u{0}\" x)", "(= x \"\\u{d7ff}\")", "(= x \"\\u{d800}\")", "(str.suffixof \"\\udfff\" x)", "(str.contains x \"\\u{e000}\")"];
        // the variable at other places than the first
        let places = ["(= (str.++ \"a\" x) \"aab\")", "(= (str.++ \"b\" x \"b\") \"babb\")", "(= (str.++ \"a\" x) (str.++ x \"a\"))", "(str.contains \"abc\" (str.++ \"b\" x))", "(str.prefixof (str.++ \"a\" x) \"abb\")", "(= (str.replace \"abab\" \"a\" x) \"bbab\")", "(= (str.replace_all \"aab\" \"a\" x) \"bbb\")",
            "(= (str.replace x \"ab\" \"a\") \"a\")", "(= (str.replace_re x (re.++ (str.to_re \"a\") (re.opt (str.to_re \"b\"))) \"c\") \"cb\")", "(= (str.replace_re_all \"abab\" (str.to_re \"ab\") x) \"bb\")", "(= (str.indexof x \"b\" 1) 2)", "(= (str.indexof \"abab\" x 1) 2)", "(str.in_re (str.++ \"a\" x) (re.* (str.to_re \"ab\")))", "(str.in_re x (re.++ (re.opt (str.to_re \"ab\")) (str.to_re \"b\")))",
            "(= x \"b\")", "(= x \"ab\")", "(= x \"bb\")", "(str.suffixof \"ab\" x)", "(= (str.len x) 2)", "(= \"ab\" (str.substr \"cabc\" 1 (str.len x)))", "(= (str.at \"abc\" (str.len x)) \"b\")"];
        for fam in [&places[..], &inside[..], &escapes[..], &escapes5[..], &codes[..], &digits[..], &ranges[..], &apart[..], &nested[..]] {
            for (i, a) in fam.iter().enumerate() {
                for (j, b) in fam.iter().enumerate().skip(i) {
                    for c in &fam[j..] {
                        let mut v = vec![*a, *b, *c];
                        v.dedup();
                        sink(script(&["x"], &v));
                    }
                }
            }
        }
        // every string function
        let all = ["(str.in_re x re.allchar)", "(str.in_re x re.all)", "(str.in_re x re.none)", "(str.in_re x (re.opt (str.to_re \"ab\")))", "(str.in_re x (re.comp (str.to_re \"ab\")))", "(str.in_re x (re.diff (re.* (re.range \"a\" \"c\")) (str.to_re \"ab\")))",
            "(str.in_re x (re.inter (re.* (re.range \"a\" \"c\")) (re.++ re.all (str.to_re \"a\") re.all)))", "(str.in_re x (re.+ (str.to_re \"ab\")))", "(str.in_re x ((_ re.loop 1 2) (str.to_re \"ab\")))", "(str.in_re x ((_ re.^ 2) (str.to_re \"a\")))",
            "(str.in_re x (re.union (str.to_re \"a\") (str.to_re \"bb\")))", "(= (str.replace x \"a\" \"b\") \"bb\")", "(= (str.replace_all x \"a\" \"b\") \"bb\")", "(= (str.replace x \"ab\" \"\") \"a\")",
            "(= (str.replace_re x (re.+ (str.to_re \"a\")) \"b\") \"b\")", "(= (str.replace_re_all x (str.to_re \"a\") \"b\") \"bb\")", "(= (str.from_int (str.len x)) \"1\")", "(= x (str.from_int 12))", "(= x (str.from_code 49))", "(= (str.++ x \"b\") \"ab\")",
            "(= (ite (str.prefixof \"a\" x) x \"b\") \"b\")", "(let ((z (str.++ x \"a\"))) (str.contains z \"ba\"))", "(let ((x \"ab\") (z x)) (str.prefixof z x))", "(distinct x \"a\" \"ab\")", "(str.contains (str.++ x \"a\") \"ab\")", "(str.prefixof (str.substr x 0 1) \"ab\")",
            "(= (str.len (str.++ x \"ab\")) 3)", "(= (str.len \"ab\") (str.len x))", "(= (str.indexof \"abc\" x 0) 1)", "(= (str.substr \"abc\" 1 (str.len x)) x)", "(= (str.at x 1) (str.at \"ab\" 0))", "(and (str.prefixof \"a\" x) (not (= x \"a\")))", "(=> (str.suffixof \"b\" x) (or (= x \"ab\") (= x \"b\")))",
            "(let ((z x)) (= (str.len z) 1))", "(let ((z x) (y \"ab\")) (let ((x y)) (str.prefixof z x)))", "(= x (ite (str.prefixof \"a\" x) \"ab\" \"b\"))", "(= (ite (= (str.len x) 1) x \"b\") \"b\")", "(str.contains x (ite (= (str.len x) 2) \"a\" \"bc\"))", "(xor (= x \"a\") (= x \"b\") (str.prefixof \"b\" x))", "(= (str.prefixof \"a\" x) (str.suffixof \"b\" x))",
            "(= x \"a\")", "(= x \"ab\")", "(str.contains x \"ab\")", "(str.contains x \"1a\")", "(str.suffixof \"bc\" x)", "(= (str.len x) 2)"];
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate().skip(i) {
                for c in if thorough { &all[j..] } else { &all[j..j + 1] } {
                    let mut v = vec![*a, *b, *c];
                    v.dedup();
                    sink(script(&["x"], &v));
                }
            }
        }
        // literals that are only compared, next to ranges of different sizes and other literals
        let free = ["(= y \"ab\")", "(= y \"cd\")", "(= y \"a\")", "(= y \"1\")", "(= y \"\")", "(str.in_re x (re.range \" \" \"~\"))", "(str.in_re x (re.* (re.range \"a\" \"z\")))", "(str.in_re x (re.union (re.range \"A\" \"Z\") (re.range \"a\" \"z\") (re.range \"0\" \"9\")))", "(= x \"ab\")",
            "(str.in_re x (re.union (re.range \"!\" \"/\") (re.range \"0\" \"_\")))", "(str.is_digit x)", "(= (str.len x) 2)", "(str.prefixof \"a\" x)", "(distinct y \"ab\" \"ac\" \"ad\")", "(= x y)"];
        for (i, a) in free.iter().enumerate() {
            for (j, b) in free.iter().enumerate().skip(i + 1) {
                for c in &free[j + 1..] {
                    sink(script(&["x", "y"], &[a, b, c]));
                }
            }
        }
        // literals that are related through a chain of variables
        let links = ["(= {} {})", "(str.contains {} {})", "(str.prefixof {} {})", "(str.suffixof {} {})", "(= (str.++ {} \"b\") {})", "(= (str.at {} 0) {})", "(= (str.replace {} \"a\" \"\") {})"];
        let link = |l: &str, a: &str, b: &str| l.replacen("{}", a, 1).replacen("{}", b, 1);
        for (i, l) in links.iter().enumerate() {
            for (j, m) in links.iter().enumerate() {
                for (k, a) in ["(= x \"ab\")", "(str.contains x \"ba\")", "(str.prefixof x \"abb\")", "(= (str.len x) 2)"].iter().enumerate() {
                    for (n, b) in ["(= z \"ab\")", "(= z \"b\")", "(str.suffixof \"bb\" z)", "(str.in_re z (str.to_re \"ba\"))"].iter().enumerate() {
                        if thorough || (i + j + k + n) % 4 == 0 {
                            sink(script(&["x", "y", "z"], &[&link(l, "x", "y"), &link(m, "y", "z"), a, b]));
                        }
                    }
                }
            }
        }
        // two variables
        let two = ["(= x y)", "(str.prefixof x y)", "(str.suffixof x y)", "(str.contains y x)", "(= (str.len x) (str.len y))", "(< (str.len x) (str.len y))", "(= (str.++ x y) \"ab\")", "(= (str.++ x \"b\" y) \"abb\")",
            "(= (str.++ x \"a\") (str.++ y \"b\"))", "(= (str.++ x \"a\") (str.++ \"a\" y))", "(= (str.replace x \"a\" \"b\") y)", "(= (str.replace x \"ab\" y) \"b\")", "(= (str.replace_all x \"a\" \"b\") y)",
            "(= (str.indexof x y 0) 0)", "(= (str.at x 0) y)", "(= (str.substr x 0 1) y)", "(= x (str.++ y y))"];
        let one = ["(= x \"a\")", "(= x \"ab\")", "(= y \"b\")", "(= y \"ab\")", "(str.prefixof \"a\" x)", "(str.contains y \"b\")", "(str.in_re y (re.+ (re.range \"a\" \"c\")))", "(= (str.to_int y) 1)", "(= (str.len x) 1)"];
        for (i, a) in two.iter().enumerate() {
            sink(script(&["x", "y"], &[a]));
            for b in &two[i + 1..] {
                sink(script(&["x", "y"], &[a, b]));
            }
            for (j, b) in one.iter().enumerate() {
                sink(script(&["x", "y"], &[a, b]));
                if thorough {
                    for c in &one[j + 1..] {
                        sink(script(&["x", "y"], &[a, b, c]));
                    }
                }
            }
        }
        for (i, a) in one.iter().enumerate() {
            for b in &one[i + 1..] {
                sink(script(&["x", "y"], &[a, b]));
            }
        }
        for (i, a) in ats.iter().enumerate() {
            sink(script(&["x"], &[a]));
            for b in &ats[i + 1..] {
                sink(script(&["x"], &[a, b]));
                if thorough { 
                    for c in ats.iter().skip(i + 2).step_by(7) {
                        sink(script(&["x"], &[a, b, c]));
                    }
                }
            }
        }
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        equisat(case, self.0, 1, t)
    }
    fn rule(&self) -> &'static str {
        "scripts with one string variable and one or two (thorough: up to three) of 155 atoms: equality, prefix, suffix, containment in both directions, memberships, positions and replacements over nine literals that contain, extend and overlap each other; lengths, digits, codes and ranges; families of triples: literals with strings inside them, variables at all places, escapes, codes, digits, ranges that are apart, nested or wide; chains of three variables"
    }
}
