//! Exploration framework: enumerates every case of a check's bounded space, shards them over
//! worker processes (so that panics, aborts and hangs of the code under test are attributed to
//! the case that caused them), compares with known findings and writes the evidence file.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Hash seeds: every std RandomState draws its keys from getrandom(2), once per thread. The
// definition below takes the place of libc's, so the harness decides the iteration order of
// every std HashMap/HashSet in the code under test (run in a fresh thread per execution).
static HASH_SEED: AtomicU64 = AtomicU64::new(1);

/// # Safety
/// `buf` must be valid for `len` bytes.
pub unsafe fn fill_random(buf: *mut u8, len: usize) -> isize {
    let mut x = HASH_SEED.load(Ordering::SeqCst).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

/// Panics unless the harness decides the iteration order of std's hash maps.
fn assert_hashing_controlled() {
    let order = |seed| {
        isolated(seed, || {
            let set: Vec<i32> = (0..64).collect::<HashSet<i32>>().into_iter().collect();
            (set, Box::into_raw(Box::new(0u8)) as usize as u64)
        })
        .unwrap()
    };
    assert!(
        order(1) == order(1) && order(7) == order(7) && order(1).0 != order(7).0 && order(1).1 != order(7).1,
        "hash order is not under the harness' control"
    );
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = msg.lines().next().unwrap_or("").to_string());
    }));
}

/// Seconds an execution may take before it counts as hanging.
static HANG_SECS: AtomicU64 = AtomicU64::new(60);

/// Runs `f` in a forked child (fresh thread with a large stack): hash keys and heap addresses
/// depend on `seed` only. Panics, crashes and hangs are reported as `Err`.
pub fn isolated<T: Send + Serialize + DeserializeOwned + 'static>(
    seed: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, String> {
    let _ = std::io::stdout().flush();
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            crate::alloc::enter_execution(seed);
            HASH_SEED.store(seed, Ordering::SeqCst);
            let r: Result<T, String> = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
                        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
                })
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err("crash: thread died".into()));
            let _ = std::io::stdout().flush();
            let out = serde_json::to_vec(&r).unwrap();
            let mut off = 0;
            while off < out.len() {
                let n = libc::write(fds[1], out[off..].as_ptr() as *const _, out.len() - off);
                if n <= 0 {
                    libc::_exit(98);
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let deadline = Instant::now() + Duration::from_secs(HANG_SECS.load(Ordering::SeqCst));
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        let mut hung = false;
        loop {
            let left = deadline.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.max(0));
            if r == 0 {
                libc::kill(pid, libc::SIGKILL);
                hung = true;
                break;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 {
                continue;
            }
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if hung {
            return Err(format!("hang: no result within {} s", HANG_SECS.load(Ordering::SeqCst)));
        }
        if status != 0 {
            return Err(format!("crash: process ended with status {:#x}", status));
        }
        serde_json::from_slice::<Result<T, String>>(&out).map_err(|e| format!("crash: {}", e))?
    }
}

// ---------------------------------------------------------------------------------------------
/// File descriptor the real stdout was moved to (library code prints to stdout; in workers fd 1
/// is a memory file that `captured` reads back).
static CAPTURE_FD: AtomicU64 = AtomicU64::new(0);

pub fn redirect_stdout() {
    unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        assert!(fd >= 0);
        libc::dup2(fd, 1);
        CAPTURE_FD.store(fd as u64, Ordering::SeqCst);
    }
}

pub fn clear_captured() {
    let fd = CAPTURE_FD.load(Ordering::SeqCst) as i32;
    let _ = std::io::stdout().flush();
    if fd > 0 {
        unsafe {
            libc::ftruncate(fd, 0);
            libc::lseek(fd, 0, libc::SEEK_SET);
        }
    }
}

pub fn captured() -> String {
    let fd = CAPTURE_FD.load(Ordering::SeqCst) as i32;
    let _ = std::io::stdout().flush();
    let mut s = Vec::new();
    if fd > 0 {
        unsafe {
            let len = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
            s.resize(len, 0);
            let n = libc::pread(fd, s.as_mut_ptr() as *mut _, len, 0).max(0) as usize;
            s.truncate(n);
        }
    }
    clear_captured();
    String::from_utf8_lossy(&s).into_owned()
}

// ---------------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Tally {
    /// Cases (inputs, histories) explored.
    pub states: u64,
    /// Oracle steps: valuations, models or comparisons evaluated.
    pub transitions: u64,
    /// Executions of the real code whose result was compared with the oracle.
    pub execs: u64,
    /// Distinct kinds of outcomes observed, with counts.
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Tally {
    pub fn outcome(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_default() += 1;
    }
    fn to_json(&self) -> Value {
        json!({"states": self.states, "transitions": self.transitions, "execs": self.execs,
               "outcomes": self.outcomes, "samples": self.samples})
    }
    fn add(&mut self, v: &Value) {
        self.states += v["states"].as_u64().unwrap_or(0);
        self.transitions += v["transitions"].as_u64().unwrap_or(0);
        self.execs += v["execs"].as_u64().unwrap_or(0);
        if let Some(o) = v["outcomes"].as_object() {
            for (k, n) in o {
                *self.outcomes.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        if let Some(s) = v["samples"].as_array() {
            for x in s {
                if self.samples.len() < 12 {
                    self.samples.push(x.as_str().unwrap_or("").to_string());
                }
            }
        }
    }
}

pub type Sink<'a> = &'a mut dyn FnMut(String);

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// Enumerates every case of the bounded space, simplest first, always in the same order.
    fn gen(&self, thorough: bool, sink: Sink<'_>);
    /// Runs the real code on a case; `Err` describes how the property is violated.
    fn run(&self, case: &str, t: &mut Tally) -> Result<(), String>;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    /// Seconds without progress after which a case counts as hanging.
    fn hang_secs(&self) -> u64 {
        60
    }
}

pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH"))
}

/// Body of a worker process.
pub fn worker(c: &dyn Check, thorough: bool, shard: u64, n: u64, start: u64, dir: &Path) {
    install_panic_hook();
    HANG_SECS.store(c.hang_secs(), Ordering::SeqCst);
    let my = dir.join(format!("scratch{}", shard));
    let _ = fs::create_dir_all(&my);
    std::env::set_var("MC_SCRATCH", &my);
    redirect_stdout();
    let progress = fs::File::create(dir.join(format!("p{}", shard))).unwrap();
    let mut viol = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("v{}", shard)))
        .unwrap();
    let tally_path = dir.join(format!("t{}.{}", shard, start));
    let mut t = Tally::default();
    let mut nviol = 0u64;
    let mut i = 0u64;
    let mut hangs = 0;
    let mut last = Instant::now();
    c.gen(thorough, &mut |case: String| {
        let idx = i;
        i += 1;
        if idx < start || idx % n != shard || hangs > 1 {
            return;
        }
        progress.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        t.states += 1;
        if t.states == 1 || (t.states.is_power_of_two() && t.samples.len() < 3 && t.states > 64) {
            t.samples.push(case.chars().take(400).collect());
        }
        clear_captured();
        if let Err(msg) = run_case(c, &case, &mut t) {
            nviol += 1;
            hangs += u32::from(kind(&msg) == "hang");
            if nviol <= 3000 {
                let line = json!({"idx": idx, "case": case, "msg": msg}).to_string();
                writeln!(viol, "{}", line).unwrap();
            }
        }
        if last.elapsed() > Duration::from_millis(500) {
            last = Instant::now();
            let _ = fs::write(&tally_path, t.to_json().to_string());
        }
    });
    fs::write(&tally_path, t.to_json().to_string()).unwrap();
    progress.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
}

struct Found {
    idx: u64,
    case: String,
    msg: String,
}

fn kind(msg: &str) -> &str {
    msg.split(':').next().unwrap_or("")
}

/// Runs one worker process; a worker that does not finish is an error of the harness.
fn monitor(c: &dyn Check, tier: &str, shard: u64, n: u64, dir: &Path) -> Result<(), String> {
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", c.id(), tier])
        .args([shard.to_string(), n.to_string(), "0".to_string()])
        .arg(dir)
        .stdin(Stdio::null())
        .stderr(fs::File::create(dir.join(format!("e{}", shard))).unwrap())
        .status()
        .unwrap();
    let p = fs::read(dir.join(format!("p{}", shard)))
        .ok()
        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
        .unwrap_or(0);
    if p == u64::MAX && st.success() {
        return Ok(());
    }
    let err = fs::read_to_string(dir.join(format!("e{}", shard))).unwrap_or_default();
    let tail: Vec<&str> = err.lines().take(4).collect();
    Err(format!("worker {} ended at case {} with {}: {}", shard, p, st, tail.join(" | ")))
}

/// Runs one case in this process (used to confirm and to replay violations).
pub fn one(c: &dyn Check, case: &str) -> Result<(), String> {
    install_panic_hook();
    HANG_SECS.store(c.hang_secs(), Ordering::SeqCst);
    redirect_stdout();
    let mut t = Tally::default();
    run_case(c, case, &mut t)
}

/// `None` if `f` panics.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// An output the oracle cannot interpret (it panics) is a violation too.
fn run_case(c: &dyn Check, case: &str, t: &mut Tally) -> Result<(), String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.run(case, t)))
        .unwrap_or_else(|_| Err(format!("uninterpretable result: {}", LAST_PANIC.with(|p| p.borrow().clone()))))
}

fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub struct Known {
    pub case: String,
    pub kind: String,
    pub what: String,
}

/// known_findings.txt: lines `finding: <json {property, case, kind, what}>`; `fixed:` lines are
/// only a record and suppress nothing.
pub fn known_findings(id: &str) -> Vec<Known> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut res = vec![];
    for line in text.lines() {
        if let Some(j) = line.strip_prefix("finding: ") {
            let v: Value = serde_json::from_str(j).expect("known_findings.txt: bad json");
            if v["property"] == id {
                res.push(Known {
                    case: v["case"].as_str().unwrap().into(),
                    kind: v["kind"].as_str().unwrap().into(),
                    what: v["what"].as_str().unwrap().into(),
                });
            }
        }
    }
    res
}

pub fn run(c: &dyn Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    assert_hashing_controlled();
    let n: u64 = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 8);
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", c.id(), std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let errors: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|shard| {
                let dir = dir.clone();
                s.spawn(move || monitor(c, tier, shard, n, &dir))
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap().err()).collect()
    });
    let mut found: Vec<Found> = vec![];
    let mut tally = Tally::default();
    for e in fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().into_string().unwrap();
        if name.starts_with('t') {
            if let Ok(v) = serde_json::from_str::<Value>(&fs::read_to_string(e.path()).unwrap()) {
                tally.add(&v);
            }
        } else if name.starts_with('v') {
            for l in fs::read_to_string(e.path()).unwrap().lines() {
                if let Ok(v) = serde_json::from_str::<Value>(l) {
                    found.push(Found {
                        idx: v["idx"].as_u64().unwrap(),
                        case: v["case"].as_str().unwrap().into(),
                        msg: v["msg"].as_str().unwrap().into(),
                    });
                }
            }
        }
    }
    found.sort_by_key(|f| f.idx);
    if let Ok(p) = std::env::var("MC_DUMP") {
        let lines: Vec<String> = found.iter().map(|f| json!({"case": f.case, "msg": f.msg}).to_string()).collect();
        let _ = fs::write(p, lines.join("\n"));
    }
    let known = known_findings(c.id());
    let known_set: HashSet<(&str, &str)> =
        known.iter().map(|k| (k.case.as_str(), k.kind.as_str())).collect();
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (case {})", c.id(), k.what, k.case.replace('\n', " "));
    }
    let total = found.len();
    let new: Vec<&Found> = found
        .iter()
        .filter(|f| !known_set.contains(&(f.case.as_str(), kind(&f.msg))))
        .collect();
    let replays = verif_dir().join("replays");
    let mut shown = 0;
    let mut per_kind: BTreeMap<&str, u32> = BTreeMap::new();
    for f in &new {
        let n = per_kind.entry(kind(&f.msg)).or_default();
        *n += 1;
        if *n > 3 || shown >= 10 {
            continue;
        }
        shown += 1;
        let _ = fs::create_dir_all(&replays);
        let path = replays.join(format!("{}-{}.json", c.id(), f.idx));
        let body = json!({"property": c.id(), "case": f.case, "kind": kind(&f.msg), "message": f.msg,
            "replay": format!("bash /verif/check.sh replay {}", path.display())});
        let _ = fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", c.id(), path.display());
        println!("  case: {}", f.case.replace('\n', " "));
        println!("  {}", f.msg);
    }
    if !new.is_empty() {
        println!("{} violations: {:?}", new.len(), per_kind);
    }
    if tally.states == 0 || tally.execs == 0 {
        println!("nothing was explored: {:?}", errors);
        return 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": c.id(), "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": c.level(),
        "coverage": {
            "states": tally.states, "transitions": tally.transitions,
            "traces_validated_against_impl": tally.execs,
            "samples": tally.samples, "outcomes": tally.outcomes,
            "exhaustive": errors.is_empty() && !found.iter().any(|f| kind(&f.msg) == "hang"),
            "rule": c.rule(),
            "counts": "states = enumerated cases (inputs/histories); transitions = oracle evaluations (valuations, models, comparisons); traces_validated_against_impl = executions of the real code compared with the oracle",
            "known_findings_observed": total - new.len(),
        },
        "assumptions": c.assumptions(), "wall_s": wall, "violations": new.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", c.id())), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} states, {} transitions, {} executions, {} known, {} new violations, {:.1} s; outcomes {:?}",
        c.id(), tier, tally.states, tally.transitions, tally.execs, total - new.len(), new.len(), wall, tally.outcomes
    );
    let _ = fs::remove_dir_all(&dir);
    if !new.is_empty() {
        return 1;
    }
    for e in &errors {
        println!("error: {}", e);
    }
    if errors.is_empty() { 0 } else { 2 }
}

/// Entry point of a harness binary.
pub fn main(checks: &[&dyn Check]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |id: &str| -> &dyn Check {
        *checks.iter().find(|c| c.id() == id).unwrap_or_else(|| panic!("no check {}", id))
    };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["run", id, tier] => run(get(id), tier),
        ["worker", id, tier, shard, n, start, dir] => {
            worker(get(id), *tier == "thorough", shard.parse().unwrap(), n.parse().unwrap(), start.parse().unwrap(), Path::new(dir));
            0
        }
        ["one", id, "-"] => {
            let case = std::io::read_to_string(std::io::stdin()).unwrap();
            match one(get(id), &case) {
                Ok(()) => 0,
                Err(m) => {
                    eprintln!("{}", m);
                    1
                }
            }
        }
        ["count", id, tier] => {
            let mut n = 0u64;
            get(id).gen(*tier == "thorough", &mut |_| n += 1);
            println!("{}", n);
            0
        }
        ["replay", file] => {
            let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
            let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            std::env::set_var("MC_SCRATCH", &dir);
            let r = one(get(v["property"].as_str().unwrap()), v["case"].as_str().unwrap());
            let _ = fs::remove_dir_all(&dir);
            eprintln!("{}", v["case"].as_str().unwrap());
            match r {
                Ok(()) => {
                    eprintln!("no violation");
                    0
                }
                Err(m) => {
                    eprintln!("VIOLATION property={} replay={}\n{}", v["property"].as_str().unwrap(), file, m);
                    1
                }
            }
        }
        _ => panic!("usage: run ID TIER | one ID - | count ID TIER | replay FILE"),
    };
    std::process::exit(code);
}
