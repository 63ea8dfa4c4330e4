//! The Node child that runs generated clients, driven in lock-step.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

struct Host {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

static HOST: Mutex<Option<Host>> = Mutex::new(None);

fn start() -> Host {
    let root = crate::runner::VERIF;
    let cache = format!("{root}/.build/js");
    let _ = std::fs::create_dir_all(&cache);
    let mut c = Command::new("node");
    c.args(["--max-old-space-size=900", "--expose-gc", &format!("{root}/js/host.js"), &cache]).stdin(Stdio::piped()).stdout(Stdio::piped());
    // never outlives the worker, whatever the client code does
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("node does not start: {e}");
            std::process::exit(2);
        }
    };
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Host { _child: child, to, from }
}

/// starts the host; from the main thread, because the child dies with the thread that started it
pub fn ensure() {
    HOST.lock().unwrap_or_else(|p| p.into_inner()).get_or_insert_with(start);
}

pub fn ask(cmd: &Value) -> Value {
    let mut g = HOST.lock().unwrap_or_else(|p| p.into_inner());
    let h = g.as_mut().expect("js host not started");
    let mut line = cmd.to_string();
    line.push('\n');
    h.to.write_all(line.as_bytes()).expect("write to the js host");
    h.to.flush().expect("write to the js host");
    let mut out = String::new();
    let n = h.from.read_line(&mut out).expect("read from the js host");
    assert!(n > 0, "the js host ended");
    serde_json::from_str(&out).expect("reply of the js host")
}

#[derive(Clone, Debug)]
pub struct Loaded {
    pub hash: String,
    /// namespace, kind, name, digest of the text
    pub exports: Vec<(String, String, String, String)>,
    pub errors: Vec<String>,
}

/// `once`: not worth keeping for other processes
pub fn load(code: &str, once: bool) -> Loaded {
    let r = ask(&json!({"c": "load", "code": code, "once": once}));
    Loaded {
        hash: r["hash"].as_str().unwrap_or("").into(),
        exports: serde_json::from_value(r["exports"].clone()).unwrap_or_default(),
        errors: serde_json::from_value(r["errors"].clone()).unwrap_or_default(),
    }
}
