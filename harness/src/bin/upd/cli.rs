use crate::terms::modernize;
use mc::run::{isolated, scratch, Check, Sink, Tally};
use std::io::{BufReader, Read};
use std::process::Command;

const GOOD: [&str; 4] = [
    "(declare-const x String)(assert (str.in.re x (re.loop (re.range \"a\" \"z\") 1 12)))(check-sat)\n",
    "(set-logic QF_S)(declare-const x String)(assert (= x \"\\x41\\n\"))",
    "; only a comment\n",
    "(set-option :produce-models true)(declare-const x String)(assert (= (str.to.int x) (+ 1 2)))\n(check-sat)(get-model)(exit)\n",
];
const OTHER: &str = "(declare-const other String)(assert (= other \"b\"))";
const STALE: &str = "stale contents which are much longer than any output of this script would be ........................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................................";

pub struct Files;

struct Failing<'a>(&'a [u8], usize, bool);
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 && self.2 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "fault"));
        }
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

impl Check for Files {
    fn id(&self) -> &'static str {
        "U05"
    }
    fn gen(&self, thorough: bool, sink: Sink<'_>) {
        // files present x what the output path holds x directory of the base name x script
        for present in ["smtlib", "smt2", "both", "none", "bare", "dir-smtlib", "dir-smt2"] {
            for stale in ["absent", "stale", "directory"] {
                for base in ["a", "sub/b", "./c.d", "../s/e f", "abs"] {
                    for g in 0..GOOD.len() {
                        sink(format!("cli {} {} {} {}", present, stale, base.replace(' ', "~"), g));
                    }
                }
            }
        }
        for g in [0, 1, 3] {
            for i in 0..GOOD[g].len() {
                sink(format!("cut {} {}", g, i));
                sink(format!("read {} {}", g, i));
            }
        }
        let junk = ["#", "|", "\"", ")", "(", "#b2", "#xg", "01x", "(assert", "(foo)", "(assert (= x y z", "\u{0}", "é", "(assert)", "(check-sat) )"];
        for (i, _) in junk.iter().enumerate() {
            for g in [0, 1] {
                for end in 0..3 {
                    sink(format!("junk {} {} {}", i, g, end));
                }
            }
        }
        let _ = thorough;
        std::hint::black_box(&junk);
    }
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = case.split(' ').collect();
        match w[0] {
            "read" => {
                // the library's reader fails at this offset, whatever the part read so far is
                let (g, i): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                t.execs += 1;
                t.transitions += 1;
                let r = isolated(1, move || {
                    let rd = BufReader::with_capacity(7, Failing(GOOD[g].as_bytes(), i, true));
                    amzn_smt_string_fct_updater::transpiler::parse(rd).map(|c| c.count()).is_ok()
                })?;
                t.outcome(if r { "accepted" } else { "error" });
                if r {
                    return Err(format!("lost input: read error after {} bytes not reported", i));
                }
                Ok(())
            }
            "cut" | "junk" => {
                // truncated and malformed scripts: an error, or the conversion of every command
                let text = if w[0] == "cut" {
                    let (g, i): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                    GOOD[g][..i].to_string()
                } else {
                    let junk = ["#", "|", "\"", ")", "(", "#b2", "#xg", "01x", "(assert", "(foo)", "(assert (= x y z", "\u{0}", "é", "(assert)", "(check-sat) )"];
                    let (j, g): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                    match w[3] {
                        "0" => format!("{} {}", junk[j], GOOD[g]),
                        "1" => format!("{} {}", GOOD[g], junk[j]),
                        // right after a message
                        _ => format!("{}(echo \"m\") {}(check-sat)", GOOD[g], junk[j]),
                    }
                };
                let wellformed = mc::sexp::parse(&text).ok().filter(|v| w[0] == "cut" && v.iter().all(|c| c.list().is_some()));
                let dir = scratch().join("cut");
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(dir.join("a.smt2"), &text).unwrap();
                let st = tool(&dir, "a")?;
                t.execs += 1;
                t.transitions += 1;
                let out = std::fs::read_to_string(dir.join("a_upt.smt2")).ok();
                t.outcome(if st == 0 { "converted" } else { "error" });
                match (wellformed, st, out) {
                    (Some(v), 0, Some(o)) => {
                        let got = mc::sexp::parse(&o)?;
                        let n = got.len() - usize::from(got.iter().any(|c| c.head() == Some("set-logic")) && !text.contains("set-logic"));
                        if n == v.len() { Ok(()) } else { Err(format!("lost commands: {} of {}", n, v.len())) }
                    }
                    (Some(_), st, _) => Err(format!("rejected: status {} for {}", st, text)),
                    (None, 0, _) => Err(format!("accepted malformed script: {}", text)),
                    (None, _, Some(_)) => Err("output written for a malformed script".into()),
                    (None, _, None) => Ok(()),
                }
            }
            _ => self.cli(&w, t),
        }
    }
    fn rule(&self) -> &'static str {
        "the command line tool for every combination of present input files, contents of the output path, base name and script; every truncation of three scripts and malformed tokens at either end; every offset at which reading the script can fail"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
}

fn tool(dir: &std::path::Path, arg: &str) -> Result<i32, String> {
    let bin = std::env::current_exe().unwrap().with_file_name("cli-upd");
    let st = Command::new("timeout").arg("20").arg(bin).arg(arg).current_dir(dir).stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
    match st.code() {
        Some(124) => Err("hang: the tool does not end".into()),
        Some(c) => Ok(c),
        None => Err(format!("crash: {}", st)),
    }
}

impl Files {
    fn cli(&self, w: &[&str], t: &mut Tally) -> Result<(), String> {
        let (present, stale, base, g) = (w[1], w[2], w[3].replace('~', " "), w[4].parse::<usize>().unwrap());
        let root = scratch().join("cli");
        let _ = std::fs::remove_dir_all(&root);
        let dir = root.join("s");
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let base = if base == "abs" { dir.join("abs").to_str().unwrap().to_string() } else { base };
        let path = |suffix: &str| dir.join(format!("{}{}", base, suffix));
        let mut files: Vec<(std::path::PathBuf, String)> = vec![];
        let mut put = |suffix: &str, text: &str| {
            std::fs::write(path(suffix), text).unwrap();
            files.push((path(suffix), text.to_string()));
        };
        // expected: extension and text that is converted
        let mut expect: Option<(&str, &str)> = None;
        match present {
            "smtlib" => { put(".smtlib", GOOD[g]); expect = Some((".smtlib", GOOD[g])); }
            "smt2" => { put(".smt2", GOOD[g]); expect = Some((".smt2", GOOD[g])); }
            "both" => { put(".smtlib", GOOD[g]); put(".smt2", OTHER); expect = Some((".smtlib", GOOD[g])); }
            "bare" => put("", GOOD[g]),
            "dir-smtlib" => { std::fs::create_dir(path(".smtlib")).unwrap(); }
            "dir-smt2" => { std::fs::create_dir(path(".smt2")).unwrap(); }
            _ => {}
        }
        for ext in [".smtlib", ".smt2"] {
            match stale {
                "stale" => std::fs::write(path(&format!("_upt{}", ext)), STALE).unwrap(),
                "directory" => std::fs::create_dir(path(&format!("_upt{}", ext))).unwrap(),
                _ => {}
            }
        }
        let st = tool(&dir, &base)?;
        t.execs += 1;
        t.transitions += 1;
        t.outcome(if st == 0 { "converted" } else { "error" });
        for (p, text) in &files {
            if std::fs::read_to_string(p).ok().as_deref() != Some(text) {
                return Err(format!("input modified: {}", p.display()));
            }
        }
        let out = |ext: &str| std::fs::read_to_string(path(&format!("_upt{}", ext))).ok();
        let untouched = if stale == "stale" { Some(STALE.to_string()) } else { None };
        match expect {
            Some((ext, text)) if stale != "directory" => {
                let want = modernize(text)?.map_err(|e| format!("rejected: {}", e))?;
                if st != 0 {
                    return Err(format!("failed: status {}", st));
                }
                if out(ext).as_deref().map(str::trim_end) != Some(want.trim_end()) {
                    return Err(format!("wrong output: {:?} instead of {:?}", out(ext), want));
                }
                let other = if ext == ".smt2" { ".smtlib" } else { ".smt2" };
                if out(other) != untouched {
                    return Err("wrong output: the other file was written".into());
                }
                Ok(())
            }
            _ => {
                if st == 0 {
                    return Err("failure not reported: status 0".into());
                }
                for ext in [".smtlib", ".smt2"] {
                    if out(ext) != untouched {
                        return Err(format!("output written although the conversion failed: {:?}", out(ext)));
                    }
                }
                Ok(())
            }
        }
    }
}
