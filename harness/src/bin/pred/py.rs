//! Client of py/driver.py: one Python process per worker serves requests in forked children.
use serde_json::Value;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn scripts() -> PathBuf {
    PathBuf::from("/repo/amzn-smt-prediction/scripts")
}

thread_local! { static DRIVER: RefCell<Option<Child>> = const { RefCell::new(None) }; }

fn start() -> Child {
    let driver = PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("py/driver.py");
    Command::new("python3")
        .arg(driver)
        .arg(scripts())
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONHASHSEED", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("python3")
}

/// The answer to a request; `Err` when the code under test raised, exited, crashed or hung.
pub fn ask(q: Value) -> Result<Value, String> {
    DRIVER.with(|d| {
        let mut d = d.borrow_mut();
        let child = d.get_or_insert_with(start);
        let mut line = q.to_string();
        line.push('\n');
        child.stdin.as_mut().unwrap().write_all(line.as_bytes()).expect("python driver ended");
        let out = child.stdout.as_mut().unwrap();
        let deadline = Instant::now() + Duration::from_secs(60);
        let mut answer: Vec<u8> = vec![];
        let mut buf = [0u8; 65536];
        while answer.last() != Some(&b'\n') {
            let left = deadline.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, left) } <= 0 && Instant::now() >= deadline {
                let _ = child.kill();
                let _ = child.wait();
                *d = None;
                return Err("hang: the script does not end".into());
            }
            match out.read(&mut buf) {
                Ok(n) if n > 0 => answer.extend_from_slice(&buf[..n]),
                _ => panic!("python driver ended"),
            }
        }
        let v: Value = serde_json::from_slice(&answer).expect("driver answer");
        match v["err"].as_str() {
            Some(e) => Err(e.to_string()),
            None => Ok(v["res"].clone()),
        }
    })
}
