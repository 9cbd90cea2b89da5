//! Black-box LSP client with online monitors: framing of the server's output, exactly-once
//! answers, liveness (process alive, not idle while a request is open), panics on stderr.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A violation found by a monitor
#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    pub detail: Value,
}

/// The check itself could not be carried out (no verdict)
#[derive(Clone, Debug)]
pub enum Stop {
    Bad(Bad),
    Broken(String),
}

pub type Res<T> = Result<T, Stop>;

pub fn bad<T>(what: impl Into<String>, detail: Value) -> Res<T> {
    Err(Stop::Bad(Bad { what: what.into(), detail }))
}

enum In {
    Msg(Value),
    Frame(String),
    Eof,
}

#[derive(Clone, Default)]
pub struct Counters(pub BTreeMap<String, u64>);
impl Counters {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.0.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Counters) {
        for (k, v) in &o.0 {
            self.add(k, *v);
        }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub server: String,
    pub env: Vec<(String, String)>,
    pub wrapper: Vec<String>,
    pub init: Value,
    /// Seconds of complete inactivity with an open request before we call it a hang
    pub idle_s: u64,
    /// CPU seconds spent on one wait before we call it a hang
    pub cpu_s: u64,
    /// Use strings as request ids
    pub string_ids: bool,
}

impl Opts {
    pub fn new(server: &str) -> Self {
        Opts {
            server: server.to_string(),
            env: vec![],
            wrapper: vec![],
            init: json!({"processId": null, "rootUri": null, "capabilities": {}}),
            idle_s: 8,
            cpu_s: 60,
            string_ids: false,
        }
    }
}

pub struct Client {
    child: Child,
    stdin: Option<Sender<Vec<u8>>>,
    rx: Receiver<In>,
    stderr: Arc<Mutex<Vec<u8>>>,
    pub opts: Opts,
    next_id: i64,
    /// open requests: id -> method
    pub open: HashMap<i64, String>,
    answers: HashMap<i64, Value>,
    /// notifications by the server, in order
    pub notes: VecDeque<Value>,
    /// requests by the server, in order
    pub reqs: VecDeque<Value>,
    /// What we sent since the session started (or since the last trim)
    pub log: Vec<Value>,
    pub log_bytes: usize,
    /// Length of the largest message in either direction
    largest: Arc<std::sync::atomic::AtomicUsize>,
    pub server_info: Value,
    pub count: Counters,
    pub eof: bool,
    pub opened: std::collections::HashSet<String>,
    /// Open requests which may stay unanswered when the session ends
    pub optional: std::collections::HashSet<i64>,
}

fn writer(mut stdin: ChildStdin, rx: Receiver<Vec<u8>>) {
    while let Ok(b) = rx.recv() {
        if stdin.write_all(&b).is_err() || stdin.flush().is_err() {
            return;
        }
    }
}

fn reader(out: impl Read, tx: Sender<In>, largest: Arc<std::sync::atomic::AtomicUsize>) {
    let mut r = BufReader::new(out);
    loop {
        let mut len: Option<usize> = None;
        let mut first = true;
        loop {
            let mut line = vec![];
            match r.read_until(b'\n', &mut line) {
                Ok(0) | Err(_) => {
                    if first && line.is_empty() {
                        let _ = tx.send(In::Eof);
                    } else {
                        let _ = tx.send(In::Frame("output ends inside a header".into()));
                        let _ = tx.send(In::Eof);
                    }
                    return;
                }
                Ok(_) => {}
            }
            first = false;
            let s = String::from_utf8_lossy(&line).to_string();
            if s == "\r\n" {
                break;
            }
            match s.strip_suffix("\r\n").and_then(|s| s.split_once(": ")) {
                Some((k, v)) if k.eq_ignore_ascii_case("content-length") => {
                    len = v.parse().ok();
                }
                Some((k, _)) if k.eq_ignore_ascii_case("content-type") => {}
                _ => {
                    let _ = tx.send(In::Frame(format!("bad header line {:?}", s)));
                    return;
                }
            }
        }
        let n = match len {
            Some(n) => n,
            None => {
                let _ = tx.send(In::Frame("header without Content-Length".into()));
                return;
            }
        };
        largest.fetch_max(n, std::sync::atomic::Ordering::Relaxed);
        let mut buf = vec![0; n];
        if r.read_exact(&mut buf).is_err() {
            let _ = tx.send(In::Frame("output ends inside a message".into()));
            let _ = tx.send(In::Eof);
            return;
        }
        match serde_json::from_slice::<Value>(&buf) {
            Ok(v) if v.is_object() && v["jsonrpc"] == "2.0" => {
                if tx.send(In::Msg(v)).is_err() {
                    return;
                }
            }
            _ => {
                let _ = tx.send(In::Frame(format!(
                    "message is no JSON-RPC object: {:.200}",
                    String::from_utf8_lossy(&buf)
                )));
                return;
            }
        }
    }
}

/// (all threads asleep, total CPU clock ticks)
fn activity(pid: u32) -> Option<(bool, u64)> {
    let mut asleep = true;
    let mut ticks = 0;
    for e in std::fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let p = e.ok()?.path().join("stat");
        if let Ok(s) = std::fs::read_to_string(p) {
            let rest = s.rsplit_once(") ")?.1;
            let f: Vec<&str> = rest.split(' ').collect();
            asleep &= f[0] == "S";
            ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        }
    }
    Some((asleep, ticks))
}

impl Client {
    /// Starts a server without initializing it
    pub fn spawn(opts: &Opts) -> Res<Client> {
        let mut cmd = if let Some((first, rest)) = opts.wrapper.split_first() {
            let mut c = Command::new(first);
            c.args(rest).arg(&opts.server);
            c
        } else {
            Command::new(&opts.server)
        };
        cmd.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
        for (k, v) in &opts.env {
            cmd.env(k, v);
        }
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut child = cmd.spawn().map_err(|e| {
            Stop::Broken(format!("cannot start the server {}: {}", opts.server, e))
        })?;
        let (wtx, wrx) = channel();
        let stdin = child.stdin.take().unwrap();
        std::thread::spawn(move || writer(stdin, wrx));
        let (tx, rx) = channel();
        let out = child.stdout.take().unwrap();
        let largest = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let l2 = largest.clone();
        std::thread::spawn(move || reader(out, tx, l2));
        let stderr = Arc::new(Mutex::new(vec![]));
        let e2 = stderr.clone();
        let mut err = child.stderr.take().unwrap();
        std::thread::spawn(move || {
            let mut buf = [0; 4096];
            while let Ok(n) = err.read(&mut buf) {
                if n == 0 {
                    break;
                }
                let mut v = e2.lock().unwrap();
                v.extend_from_slice(&buf[..n]);
                let l = v.len();
                if l > 200_000 {
                    v.drain(..l - 100_000);
                }
            }
        });
        Ok(Client {
            child,
            stdin: Some(wtx),
            rx,
            stderr,
            opts: opts.clone(),
            next_id: 0,
            open: HashMap::new(),
            answers: HashMap::new(),
            notes: VecDeque::new(),
            reqs: VecDeque::new(),
            log: vec![],
            log_bytes: 0,
            largest,
            server_info: Value::Null,
            count: Counters::default(),
            eof: false,
            opened: Default::default(),
            optional: Default::default(),
        })
    }

    /// Starts and initializes a server
    pub fn start(opts: &Opts) -> Res<Client> {
        let mut c = Client::spawn(opts)?;
        let r = c.request("initialize", opts.init.clone())?;
        match r.get("result") {
            Some(r) => c.server_info = r.clone(),
            None => return bad("initialize failed", r),
        }
        c.notify("initialized", json!({}));
        Ok(c)
    }

    pub fn largest(&self) -> usize {
        self.largest.load(std::sync::atomic::Ordering::Relaxed)
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.stderr.lock().unwrap()).to_string()
    }

    pub fn send_raw(&mut self, v: Value) {
        let b = v.to_string();
        let mut m = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
        m.extend_from_slice(b.as_bytes());
        self.log_bytes += b.len();
        self.largest.fetch_max(b.len(), std::sync::atomic::Ordering::Relaxed);
        self.log.push(v);
        self.count.add("messages_sent", 1);
        if let Some(s) = &self.stdin {
            let _ = s.send(m);
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        let mut m = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send_raw(m);
    }

    pub fn send(&mut self, method: &str, params: Value) -> i64 {
        self.next_id += 1;
        let id = self.next_id;
        self.open.insert(id, method.to_string());
        let mut m = json!({"jsonrpc": "2.0", "id": self.wire_id(id), "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send_raw(m);
        id
    }

    pub fn wire_id(&self, id: i64) -> Value {
        if self.opts.string_ids {
            json!(format!("r-{}", id))
        } else {
            json!(id)
        }
    }

    pub fn reply(&mut self, id: &Value, result: Value) {
        self.send_raw(json!({"jsonrpc": "2.0", "id": id, "result": result}));
    }

    pub fn reply_err(&mut self, id: &Value, code: i64, msg: &str) {
        self.send_raw(
            json!({"jsonrpc": "2.0", "id": id, "error": {"code": code, "message": msg}}),
        );
    }

    fn death<T>(&mut self) -> Res<T> {
        let mut code = None;
        for _ in 0..50 {
            if let Ok(Some(s)) = self.child.try_wait() {
                code = Some(s.to_string());
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        std::thread::sleep(Duration::from_millis(50));
        let err = self.stderr();
        let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().iter().rev().collect();
        let open: Vec<_> = self.open.values().cloned().collect();
        bad(
            "the server ended its output while the session was open",
            json!({"status": code, "stderr": tail, "open_requests": open}),
        )
    }

    fn take(&mut self, m: In) -> Res<()> {
        match m {
            In::Eof => {
                self.eof = true;
                Ok(())
            }
            In::Frame(s) => bad("output is not framed protocol", json!({ "problem": s })),
            In::Msg(v) => {
                self.count.add("messages_received", 1);
                if v.get("method").is_some() {
                    if v.get("id").is_some() {
                        self.reqs.push_back(v);
                    } else {
                        self.notes.push_back(v);
                    }
                    return Ok(());
                }
                let id = if self.opts.string_ids {
                    v["id"].as_str().and_then(|s| s.strip_prefix("r-")).and_then(|s| s.parse().ok())
                } else {
                    v["id"].as_i64()
                };
                if v.get("result").is_some() == v.get("error").is_some() {
                    return bad("an answer needs exactly one of result and error", v);
                }
                match id.and_then(|id| self.open.remove(&id).map(|m| (id, m))) {
                    Some((id, _)) => {
                        self.answers.insert(id, v);
                        Ok(())
                    }
                    None => bad("an answer to no open request (answered twice?)", v),
                }
            }
        }
    }

    /// Waits until `done`; detects death and hangs of the server
    pub fn wait(&mut self, what: &str, mut done: impl FnMut(&Client) -> bool) -> Res<()> {
        let start = Instant::now();
        let tick_s = 100;
        let cpu0 = activity(self.pid()).map_or(0, |a| a.1);
        let mut last = (false, 0);
        let mut idle_since = Instant::now();
        loop {
            if done(self) {
                return Ok(());
            }
            if self.eof {
                return self.death();
            }
            match self.rx.recv_timeout(Duration::from_millis(250)) {
                Ok(m) => {
                    self.take(m)?;
                    idle_since = Instant::now();
                }
                Err(RecvTimeoutError::Disconnected) => self.eof = true,
                Err(RecvTimeoutError::Timeout) => {
                    let now = activity(self.pid()).unwrap_or((false, 0));
                    if !now.0 || now.1 != last.1 {
                        idle_since = Instant::now();
                    }
                    last = now;
                    if idle_since.elapsed() > Duration::from_secs(self.opts.idle_s) {
                        return bad(
                            format!("the server idles without {}", what),
                            json!({"open_requests": self.open.values().collect::<Vec<_>>(),
                                   "idle_s": idle_since.elapsed().as_secs()}),
                        );
                    }
                    if now.1.saturating_sub(cpu0) > self.opts.cpu_s * tick_s {
                        return bad(
                            format!("the server computes without end instead of {}", what),
                            json!({"open_requests": self.open.values().collect::<Vec<_>>(),
                                   "cpu_s": (now.1 - cpu0) / tick_s}),
                        );
                    }
                    if start.elapsed() > Duration::from_secs(600) {
                        return Err(Stop::Broken(format!("no verdict in 600 s on {}", what)));
                    }
                }
            }
        }
    }

    /// Reads what has arrived, without waiting
    pub fn poll(&mut self) -> Res<()> {
        while let Ok(m) = self.rx.try_recv() {
            self.take(m)?;
        }
        Ok(())
    }

    /// Waits for the answer to request `id`: the whole response message
    pub fn answer(&mut self, id: i64) -> Res<Value> {
        self.wait("answering a request", |c| c.answers.contains_key(&id))?;
        Ok(self.answers.remove(&id).unwrap())
    }

    pub fn answered(&self, id: i64) -> bool {
        self.answers.contains_key(&id)
    }

    pub fn request(&mut self, method: &str, params: Value) -> Res<Value> {
        let id = self.send(method, params);
        self.answer(id)
    }

    /// The `result` of a request; an error response is a violation
    pub fn ok(&mut self, method: &str, params: Value) -> Res<Value> {
        let r = self.request(method, params.clone())?;
        match r.get("result") {
            Some(v) => Ok(v.clone()),
            None => bad(
                format!("{} was refused", method),
                json!({"params": params, "answer": r}),
            ),
        }
    }

    /// Sends all requests at once, then collects the answers in order
    pub fn batch(&mut self, reqs: Vec<(&str, Value)>) -> Res<Vec<Value>> {
        let ids: Vec<i64> = reqs.into_iter().map(|(m, p)| self.send(m, p)).collect();
        ids.into_iter().map(|id| self.answer(id)).collect()
    }

    pub fn open_doc(&mut self, uri: &str, text: &str, version: i64) {
        self.opened.insert(uri.to_string());
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "hir", "version": version, "text": text}}),
        );
    }

    pub fn change_doc(&mut self, uri: &str, text: &str, version: i64) {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}),
        );
    }

    /// Waits for the next diagnostics notification
    pub fn diagnostics(&mut self) -> Res<Value> {
        loop {
            self.wait("publishing diagnostics", |c| !c.notes.is_empty())?;
            let n = self.notes.pop_front().unwrap();
            if n["method"] == "textDocument/publishDiagnostics" {
                self.count.add("diagnostics_notifications", 1);
                return Ok(n["params"].clone());
            }
        }
    }

    /// Opens a document and returns its diagnostics (params of the notification)
    pub fn load(&mut self, uri: &str, text: &str, version: i64) -> Res<Value> {
        self.open_doc(uri, text, version);
        let d = self.diagnostics()?;
        if d["uri"] != uri {
            return bad("diagnostics for another document", json!({"uri": uri, "got": d["uri"]}));
        }
        Ok(d)
    }

    pub fn server_request(&mut self) -> Res<Value> {
        self.wait("sending its own request", |c| !c.reqs.is_empty())?;
        Ok(self.reqs.pop_front().unwrap())
    }

    pub fn close_stdin(&mut self) {
        self.stdin = None;
    }

    /// Waits for the process to end
    pub fn wait_exit(&mut self, limit: Duration) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Some(s);
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }

    /// Orderly end of a session; monitors that nothing is left over
    pub fn finish(mut self) -> Res<Counters> {
        let r = self.request("shutdown", Value::Null)?;
        if r.get("result").is_none() {
            return bad("shutdown was refused", r);
        }
        self.notify("exit", Value::Null);
        self.close_stdin();
        self.wait_eof()?;
        self.open.retain(|id, _| !self.optional.contains(id));
        if !self.open.is_empty() {
            return bad("requests left unanswered at the end", json!(self.open.len()));
        }
        let _ = self.wait_exit(Duration::from_secs(20));
        Ok(self.count.clone())
    }

    pub fn wait_eof(&mut self) -> Res<()> {
        let t = Instant::now();
        while !self.eof {
            match self.rx.recv_timeout(Duration::from_millis(100)) {
                Ok(m) => self.take(m)?,
                Err(RecvTimeoutError::Disconnected) => self.eof = true,
                Err(_) => {}
            }
            if t.elapsed() > Duration::from_secs(60) {
                let (asleep, _) = activity(self.pid()).unwrap_or((false, 0));
                if asleep {
                    return bad("the server does not end after exit and end of input", json!(null));
                }
                return Err(Stop::Broken("the server does not end".into()));
            }
        }
        Ok(())
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn exists(p: &str) -> bool {
    Path::new(p).exists()
}
