//! A black-box LSP client driving the real server binary over stdio.
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is violated.
    Violation(String),
    /// The check could not decide (never reported as violation).
    Inconclusive(String),
}
pub type Res<T> = Result<T, Fail>;

/// Waiting is given up after this point in time (ms since `now_ms` was first called; 0: never).
pub static ABORT_AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
fn aborted() -> bool {
    let a = ABORT_AT.load(std::sync::atomic::Ordering::SeqCst);
    a != 0 && now_ms() >= a
}

pub fn viol<T>(s: impl Into<String>) -> Res<T> {
    Err(Fail::Violation(s.into()))
}

pub struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Value>,
    stderr: Arc<Mutex<String>>,
    next_id: i64,
    pub responses: HashMap<i64, Value>,
    /// publishDiagnostics parameters in arrival order
    pub diags: Vec<Value>,
    /// requests of the server to the client which were not yet answered
    pub pending: Vec<Value>,
    pub auto_answer: bool,
    pub init: Value,
    pub transcript: Arc<Mutex<Vec<Value>>>,
    pub methods: HashMap<i64, String>,
    pub shown: Vec<Value>,
    /// more CPU time than this (in s) counts as spinning
    pub cpu_limit: u64,
    /// number of answers per request
    pub answers: HashMap<i64, usize>,
}

#[derive(Clone, Default)]
pub struct InitOpts {
    pub folders: Option<Vec<String>>,
    pub root_uri: Option<String>,
    pub lazy: Option<(bool, bool)>, // (resolveSupport has edit, dataSupport)
    /// log level (the VS Code extension sets "debug")
    pub log: Option<&'static str>,
}

impl Server {
    /// A running server which was not yet initialized.
    pub fn spawn(bin: &str, log: Option<&str>, transcript: Arc<Mutex<Vec<Value>>>) -> Res<Server> {
        let mut command = Command::new("sh");
        if let Some(l) = log {
            command.env("RUST_LOG", l);
        } else {
            command.env_remove("RUST_LOG");
        }
        // runaway allocations end the server, not the machine
        let mut child = command
            .args(["-c", "ulimit -v 6000000; exec \"$0\"", bin])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .env("TOKIO_WORKER_THREADS", "2")
            .env("RUST_BACKTRACE", "0")
            .spawn()
            .map_err(|e| Fail::Inconclusive(format!("cannot start server: {e}")))?;
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        let mut err = child.stderr.take().unwrap();
        let stderr = Arc::new(Mutex::new(String::new()));
        let se = stderr.clone();
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            while let Ok(n) = err.read(&mut buf) {
                if n == 0 {
                    break;
                }
                let mut g = se.lock().unwrap();
                if g.len() < 100_000 {
                    g.push_str(&String::from_utf8_lossy(&buf[..n]));
                }
            }
        });
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            loop {
                let mut n: Option<usize> = None;
                loop {
                    let mut line = String::new();
                    match r.read_line(&mut line) {
                        Ok(0) | Err(_) => return,
                        Ok(_) => {}
                    }
                    let l = line.trim_end();
                    if l.is_empty() {
                        break;
                    }
                    if let Some(v) = l.to_ascii_lowercase().strip_prefix("content-length:") {
                        n = v.trim().parse().ok();
                    }
                }
                let Some(n) = n else { return };
                if n > 300_000_000 {
                    return;
                }
                let mut body = vec![0u8; n];
                if r.read_exact(&mut body).is_err() {
                    return;
                }
                match serde_json::from_slice::<Value>(&body) {
                    Ok(v) => {
                        if tx.send(v).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        Ok(Server {
            child,
            stdin,
            rx,
            stderr,
            next_id: 0,
            responses: HashMap::new(),
            diags: vec![],
            pending: vec![],
            auto_answer: true,
            init: Value::Null,
            transcript,
            methods: HashMap::new(),
            shown: vec![],
            cpu_limit: 90,
            answers: HashMap::new(),
        })
    }

    pub fn start(bin: &str, opts: &InitOpts, transcript: Arc<Mutex<Vec<Value>>>) -> Res<Server> {
        let mut s = Self::spawn(bin, opts.log, transcript)?;
        let mut caps = json!({});
        if let Some((res, data)) = opts.lazy {
            let mut ca = json!({});
            if res {
                ca["resolveSupport"] = json!({"properties": ["edit"]});
            } else {
                ca["resolveSupport"] = json!({"properties": ["command"]});
            }
            ca["dataSupport"] = json!(data);
            caps = json!({"textDocument": {"codeAction": ca}});
        }
        let mut p = json!({"processId": null, "capabilities": caps, "rootUri": opts.root_uri});
        if let Some(f) = &opts.folders {
            p["workspaceFolders"] =
                json!(f.iter().map(|u| json!({"uri": u, "name": "w"})).collect::<Vec<_>>());
        }
        let id = s.send_request("initialize", p);
        let r = s.wait(id)?;
        if r.get("result").is_none() {
            return viol(format!("initialize failed: {r}"));
        }
        s.init = r["result"].clone();
        s.notify("initialized", json!({}));
        Ok(s)
    }

    fn send(&mut self, v: &Value) {
        self.transcript.lock().unwrap().push(v.clone());
        let b = v.to_string();
        if let Some(i) = &mut self.stdin {
            let msg = format!("Content-Length: {}\r\n\r\n{}", b.len(), b);
            let _ = i.write_all(msg.as_bytes());
            let _ = i.flush();
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        let mut v = json!({"jsonrpc": "2.0", "method": method});
        if !(params.is_null() && method == "exit") {
            v["params"] = params;
        }
        self.send(&v);
    }

    pub fn send_request(&mut self, method: &str, params: Value) -> i64 {
        self.next_id += 1;
        let id = self.next_id;
        self.methods.insert(id, method.to_string());
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !(params.is_null() && method == "shutdown") {
            v["params"] = params;
        }
        self.send(&v);
        id
    }

    fn dispatch(&mut self, v: Value) {
        if v.get("method").is_some() {
            if v.get("id").is_some() {
                if v["method"] == "hyperir/showDot" {
                    self.shown.push(v["params"].clone());
                }
                if self.auto_answer {
                    let id = v["id"].clone();
                    self.send(&json!({"jsonrpc": "2.0", "id": id, "result": {}}));
                } else {
                    self.pending.push(v);
                }
            } else if v["method"] == "textDocument/publishDiagnostics" {
                self.diags.push(v["params"].clone());
            }
        } else if let Some(id) = v["id"].as_i64() {
            *self.answers.entry(id).or_default() += 1;
            self.responses.insert(id, v);
        }
    }

    /// Closes the input and waits for the end of the process.
    pub fn close(&mut self) -> Res<std::process::ExitStatus> {
        self.stdin = None;
        let t0 = Instant::now();
        let (mut last, mut quiet) = (u64::MAX, 0);
        loop {
            while let Ok(v) = self.rx.try_recv() {
                self.dispatch(v);
            }
            if let Ok(Some(st)) = self.child.try_wait() {
                return Ok(st);
            }
            match self.cpu_and_states() {
                Some((cpu, true)) if cpu == last => quiet += 1,
                Some((cpu, _)) => {
                    last = cpu;
                    quiet = 0;
                }
                None => quiet = 0,
            }
            if quiet > 600 && t0.elapsed() > Duration::from_secs(20) {
                return viol("the server does not end although its input is closed: all threads asleep");
            }
            if t0.elapsed() > Duration::from_secs(300) {
                return Err(Fail::Inconclusive("timeout waiting for the end of the server".into()));
            }
            std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_millis(50) { 1 } else { 20 }));
        }
    }

    pub fn answer(&mut self, req: &Value, ok: bool) {
        let id = req["id"].clone();
        if ok {
            self.send(&json!({"jsonrpc": "2.0", "id": id, "result": {}}));
        } else {
            self.send(&json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "no viewer"}}));
        }
    }

    fn cpu_and_states(&self) -> Option<(u64, bool)> {
        let mut cpu = 0;
        let mut all_sleep = true;
        for e in std::fs::read_dir(format!("/proc/{}/task", self.child.id())).ok()? {
            let p = e.ok()?.path().join("stat");
            let s = std::fs::read_to_string(p).ok()?;
            let rest = &s[s.rfind(')')? + 2..];
            let f: Vec<&str> = rest.split(' ').collect();
            if f[0] != "S" {
                all_sleep = false;
            }
            cpu += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        }
        Some((cpu, all_sleep))
    }

    /// CPU time consumed so far, in ms.
    pub fn cpu_ms(&self) -> u64 {
        self.cpu_and_states().map_or(0, |x| x.0 * 10)
    }

    pub fn stderr_text(&self) -> String {
        self.stderr.lock().unwrap().clone()
    }

    fn panic_message(&self) -> Option<String> {
        let s = self.stderr_text();
        let i = s.find("panicked at")?;
        let t: String = s[i..].chars().take(300).collect();
        Some(t.replace('\n', " | "))
    }

    /// Pumps messages until `done` is satisfied. Decides "no answer will ever come" without
    /// relying on wall-clock time: the process is dead, it panicked, all its threads sleep
    /// without consuming CPU although all input was delivered, or it burnt an absurd amount
    /// of CPU time on a tiny input.
    pub fn pump(&mut self, what: &str, mut done: impl FnMut(&Server) -> bool) -> Res<()> {
        let t0 = Instant::now();
        let mut last_cpu = u64::MAX;
        let mut quiet_since = Instant::now();
        let mut quiet_samples = 0;
        loop {
            while let Ok(v) = self.rx.try_recv() {
                self.dispatch(v);
            }
            if done(self) {
                return Ok(());
            }
            if aborted() {
                return Err(Fail::Inconclusive("aborted".into()));
            }
            match self.rx.recv_timeout(Duration::from_millis(100)) {
                Ok(v) => {
                    self.dispatch(v);
                    quiet_samples = 0;
                    last_cpu = u64::MAX;
                }
                Err(RecvTimeoutError::Disconnected) => {
                    // stdout closed. Give the stderr reader a moment.
                    std::thread::sleep(Duration::from_millis(50));
                    let m = self.panic_message().unwrap_or_else(|| "output closed".into());
                    return viol(format!("server died while waiting for {what}: {m}"));
                }
                Err(RecvTimeoutError::Timeout) => {
                    if let Some(m) = self.panic_message() {
                        // A panic only counts if the answer does not arrive anyway.
                        if t0.elapsed() > Duration::from_millis(300) {
                            let q = self.cpu_and_states();
                            if matches!(q, None | Some((_, true))) {
                                return viol(format!("server panicked, no answer for {what}: {m}"));
                            }
                        }
                    }
                    match self.cpu_and_states() {
                        None => {
                            if let Ok(Some(st)) = self.child.try_wait() {
                                while let Ok(v) = self.rx.try_recv() {
                                    self.dispatch(v);
                                }
                                if done(self) {
                                    return Ok(());
                                }
                                return viol(format!("server exited ({st}) while waiting for {what}"));
                            }
                        }
                        Some((cpu, asleep)) => {
                            if asleep && cpu == last_cpu {
                                quiet_samples += 1;
                                if quiet_samples >= 40 && quiet_since.elapsed() > Duration::from_secs(5) {
                                    return viol(format!(
                                        "server is stuck: no answer for {what}, all threads asleep and all input delivered"
                                    ));
                                }
                            } else {
                                quiet_samples = 0;
                                quiet_since = Instant::now();
                            }
                            last_cpu = cpu;
                            // 100 ticks per second
                            if cpu > 100 * self.cpu_limit {
                                return viol(format!(
                                    "server is spinning: more than {} s of CPU time without answering {what}",
                                    self.cpu_limit
                                ));
                            }
                        }
                    }
                    if t0.elapsed() > Duration::from_secs(400) {
                        return Err(Fail::Inconclusive(format!("timeout waiting for {what}")));
                    }
                }
            }
        }
    }

    /// The complete response object for a request.
    pub fn wait(&mut self, id: i64) -> Res<Value> {
        let what = format!("`{}`", self.methods.get(&id).cloned().unwrap_or_default());
        self.pump(&what, |s| s.responses.contains_key(&id))?;
        Ok(self.responses[&id].clone())
    }

    /// Result of a request; an error response is a violation.
    pub fn result(&mut self, id: i64) -> Res<Value> {
        let r = self.wait(id)?;
        if let Some(e) = r.get("error") {
            return viol(format!("`{}` failed unexpectedly: {}", self.methods[&id], e));
        }
        Ok(r["result"].clone())
    }

    pub fn open(&mut self, uri: &str, version: i64, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "hir", "version": version, "text": text}}),
        );
    }

    pub fn change(&mut self, uri: &str, version: i64, text: &str) {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}),
        );
    }

    pub fn wait_diags(&mut self, uri: &str, version: i64) -> Res<Vec<Value>> {
        let m = |d: &Value| d["uri"] == uri && d["version"] == version;
        self.pump("publishDiagnostics", |s| s.diags.iter().any(m))?;
        let d = self.diags.iter().rev().find(|d| m(d)).unwrap();
        Ok(d["diagnostics"].as_array().cloned().unwrap_or_default())
    }

    pub fn doc_req(&mut self, method: &str, uri: &str) -> i64 {
        self.send_request(method, json!({"textDocument": {"uri": uri}}))
    }

    pub fn pos_req(&mut self, method: &str, uri: &str, pos: (u64, u64)) -> i64 {
        let mut p = json!({"textDocument": {"uri": uri}, "position": {"line": pos.0, "character": pos.1}});
        if method == "textDocument/references" {
            p["context"] = json!({"includeDeclaration": false});
        }
        self.send_request(method, p)
    }

    pub fn rename_req(&mut self, uri: &str, pos: (u64, u64), new_name: &str) -> i64 {
        self.send_request(
            "textDocument/rename",
            json!({"textDocument": {"uri": uri}, "position": {"line": pos.0, "character": pos.1}, "newName": new_name}),
        )
    }

    pub fn action_req(&mut self, uri: &str, a: (u64, u64), b: (u64, u64)) -> i64 {
        self.send_request(
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri},
                "range": {"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}},
                "context": {"diagnostics": []}}),
        )
    }

    pub fn hints_req(&mut self, uri: &str, last_line: u64) -> i64 {
        self.send_request(
            "textDocument/inlayHint",
            json!({"textDocument": {"uri": uri},
                "range": {"start": {"line": 0, "character": 0}, "end": {"line": last_line + 1, "character": 0}}}),
        )
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
