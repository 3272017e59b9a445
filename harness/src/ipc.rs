//! Calls into the Python module and the WebAssembly module, in child processes of their own
//! (one per thread and language). A child that dies, traps or does not answer is a violation.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Write},
    os::{fd::AsRawFd, unix::process::CommandExt},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Lang {
    Py,
    Js,
}

struct Kid {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static KIDS: RefCell<[Option<Kid>; 2]> = const { RefCell::new([None, None]) };
}

fn spawn(l: Lang) -> Result<Kid, String> {
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut c = match l {
        Lang::Py => {
            let mut c = Command::new("python3");
            c.args(["-I", "-B"]).arg(format!("{verif}/harness/drv/py.py")).arg(format!("{verif}/target/py"));
            c
        }
        Lang::Js => {
            let mut c = Command::new("node");
            c.arg(format!("{verif}/harness/drv/js.js")).arg(format!("{verif}/target/node"));
            c
        }
    };
    unsafe {
        c.pre_exec(move || {
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            r.rlim_cur = if l == Lang::Py { 6 << 30 } else { r.rlim_max };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            // ends with the worker
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("HARNESS cannot start {l:?}: {e}"))?;
    let tx = child.stdin.take().unwrap();
    let rx = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    Ok(Kid { child, tx, rx })
}

fn exchange(k: &mut Kid, line: &str, secs: i32) -> Result<Value, String> {
    let dead = |k: &mut Kid, what: &str| {
        let _ = k.child.kill();
        match k.child.wait() {
            Ok(s) => format!("{what} ({s})"),
            Err(e) => format!("{what} ({e})"),
        }
    };
    if k.tx.write_all(line.as_bytes()).and_then(|()| k.tx.flush()).is_err() {
        std::thread::sleep(std::time::Duration::from_millis(50));
        return Err(match k.child.try_wait() {
            Ok(Some(s)) => format!("the process died: {s}"),
            _ => dead(k, "the process does not read"),
        });
    }
    if k.rx.buffer().is_empty() {
        let mut p = libc::pollfd { fd: k.rx.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, secs * 1000) } == 0 {
            return Err(dead(k, &format!("no answer within {secs} s")));
        }
    }
    let mut s = String::new();
    match k.rx.read_line(&mut s) {
        Ok(n) if n > 0 => serde_json::from_str(&s).map_err(|e| format!("HARNESS bad answer {s}: {e}")),
        _ => {
            std::thread::sleep(std::time::Duration::from_millis(20));
            Err(match k.child.try_wait() {
                Ok(Some(s)) => format!("the process died: {s}"),
                _ => dead(k, "the process closed its output"),
            })
        }
    }
}

/// what a call answered: a value, or an ordinary error (kind, message)
pub type Answer = Result<Value, (String, String)>;

/// Err: a crash, a panic or trap, a hang
pub fn call(l: Lang, f: &str, args: &[Value]) -> Result<Answer, String> {
    let line = format!("{}\n", json!({ "f": f, "a": args }));
    KIDS.with(|k| {
        let mut kids = k.borrow_mut();
        let slot = &mut kids[l as usize];
        if slot.is_none() {
            *slot = Some(spawn(l)?);
        }
        let v = match exchange(slot.as_mut().unwrap(), &line, 100) {
            Ok(v) => v,
            Err(e) => {
                *slot = None;
                return Err(format!("{l:?} {f}: {e}"));
            }
        };
        if let Some(o) = v.get("ok") {
            return Ok(Ok(o.clone()));
        }
        if let Some(e) = v.get("err").and_then(Value::as_array) {
            return Ok(Err((e[0].as_str().unwrap_or("?").into(), e[1].as_str().unwrap_or("?").into())));
        }
        // a panic or a trap: this instance is not used any further
        *slot = None;
        Err(format!("{l:?} {f}: {}", v["bad"].as_str().unwrap_or("no answer")))
    })
}
/// drop this thread's child process
pub fn reset(l: Lang) {
    KIDS.with(|k| k.borrow_mut()[l as usize] = None);
}

pub fn b(v: &[u8]) -> Value {
    json!({ "b": hex::encode(v) })
}
pub fn t(v: &str) -> Value {
    json!({ "s": v })
}
pub fn i(v: impl std::fmt::Display) -> Value {
    json!({ "i": v.to_string() })
}
pub fn none() -> Value {
    json!({ "n": 0 })
}
pub fn out_b(v: &Value) -> Result<Vec<u8>, String> {
    v.get("b").and_then(Value::as_str).and_then(|h| hex::decode(h).ok()).ok_or_else(|| format!("bytes expected, not {v}"))
}
pub fn out_i(v: &Value) -> Result<i128, String> {
    v.get("i").and_then(Value::as_str).and_then(|h| h.parse().ok()).ok_or_else(|| format!("a number expected, not {v}"))
}
pub fn out_s(v: &Value) -> Result<String, String> {
    v.get("s").and_then(Value::as_str).map(String::from).ok_or_else(|| format!("a text expected, not {v}"))
}
pub fn out_2b(v: &Value) -> Result<(Vec<u8>, Vec<u8>), String> {
    Ok((out_b(&v[0])?, out_b(&v[1])?))
}
