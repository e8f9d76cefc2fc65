//! A debug adapter client for the real adapter that the language server starts, and the two kinds of game it
//! talks to, played by the harness over their own protocols.
use crate::lsp::*;
use serde_derive::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// the program being debugged

pub const FILES: [&str; 2] = ["a.dm", "sub/b.dm"];
pub const A: &str = "/var/z = 1
/proc/g(a)
\ta = 1
\ta = 2

\t// nothing
\treturn a
/ta
\tproc/p(x)
\t\treturn x
\tp(x)
\t\t. = ..()
\t\tx = 2
\tverb/v()
\t\tset name = \"v\"
\t\treturn
/icon/New(a)
\ta = 3
\t..()
";
pub const B: &str = "/ta/tb
\tp()
\t\treturn 3
/mob/Login()
\t..()
\treturn
/ta/tb/proc/r()
\tfor(var/i in 1 to 3)
\t\ti = 1
/proc/refused()
\treturn 1
";
/// One definition of a proc: where it begins and the instructions its lines begin with.
pub struct Def {
    pub path: &'static str,
    pub over: u32,
    pub file: usize,
    pub line: i64,
    pub code: &'static [(i64, u32)],
}
pub const DEFS: [Def; 9] = [
    Def { path: "/g", over: 0, file: 0, line: 2, code: &[(3, 0), (4, 5), (7, 9)] },
    Def { path: "/ta/p", over: 0, file: 0, line: 9, code: &[(10, 0)] },
    Def { path: "/ta/p", over: 1, file: 0, line: 11, code: &[(12, 0), (13, 4)] },
    Def { path: "/ta/v", over: 0, file: 0, line: 14, code: &[(16, 0)] },
    // the first definition is the one of the game's own stddef.dm
    Def { path: "/icon/New", over: 1, file: 0, line: 17, code: &[(18, 0), (19, 6)] },
    Def { path: "/ta/tb/p", over: 0, file: 1, line: 2, code: &[(3, 0)] },
    Def { path: "/mob/Login", over: 0, file: 1, line: 4, code: &[(5, 0), (6, 2)] },
    Def { path: "/ta/tb/r", over: 0, file: 1, line: 7, code: &[(8, 0), (9, 7)] },
    Def { path: "/refused", over: 0, file: 1, line: 10, code: &[(11, 0)] },
];
pub fn def_at(file: usize, line: i64) -> Option<&'static Def> {
    DEFS.iter().filter(|d| d.file == file && d.line <= line).max_by_key(|d| d.line)
}
/// `/ta/proc/p` is another way to write `/ta/p`.
pub fn plain(path: &str) -> String {
    path.replace("/proc/", "/").replace("/verb/", "/")
}
pub fn def_of(path: &str, over: u32) -> Option<&'static Def> {
    let path = plain(path);
    DEFS.iter().find(|d| d.path == path && d.over == over)
}

// ---------------------------------------------------------------------------------------------
// the adapter's client

/// End a connection the way a game that was killed does.
pub fn reset(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    // connecting a stream to nowhere resets it
    let mut none: libc::sockaddr = unsafe { std::mem::zeroed() };
    none.sa_family = libc::AF_UNSPEC as libc::sa_family_t;
    unsafe {
        libc::connect(s.as_raw_fd(), &none, std::mem::size_of::<libc::sockaddr>() as libc::socklen_t);
    }
}
/// Try again where the machine has run out of ports for the moment.
fn patiently<T>(mut f: impl FnMut() -> Res<T>) -> Res<T> {
    for _ in 0..80 {
        match f() {
            Err(e) if e.contains("Address already in use") || e.contains("Cannot assign requested address") => std::thread::sleep(Duration::from_secs(1)),
            r => return r,
        }
    }
    f()
}

/// A reader that acknowledges at once: the adapter writes its messages in pieces.
pub struct Quick(TcpStream);
impl Quick {
    fn ack(&self) {
        use std::os::fd::AsRawFd;
        let one: libc::c_int = 1;
        let size = std::mem::size_of::<libc::c_int>() as libc::socklen_t;
        unsafe {
            libc::setsockopt(self.0.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, size);
        }
    }
}
impl Read for Quick {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.ack();
        let n = self.0.read(buf);
        self.ack();
        n
    }
}

pub struct Dap {
    input: TcpStream,
    output: BufReader<Quick>,
    seq: i64,
    seqs: BTreeSet<i64>,
    /// Events in the order they came.
    pub events: Vec<Value>,
}

impl Dap {
    pub fn connect(port: u16) -> Res<Dap> {
        let s = patiently(|| TcpStream::connect((Ipv4Addr::LOCALHOST, port)).map_err(|e| format!("connecting to the adapter: {e}")))?;
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        Ok(Dap { input: s.try_clone().unwrap(), output: BufReader::new(Quick(s)), seq: 0, seqs: BTreeSet::new(), events: vec![] })
    }
    pub fn send_raw(&mut self, bytes: &[u8]) {
        let _ = self.input.write_all(bytes);
        let _ = self.input.flush();
    }
    pub fn message(&mut self, command: &str, arguments: &Value) -> (i64, String) {
        self.seq += 1;
        let mut m = json!({"seq": self.seq, "type": "request", "command": command});
        if !arguments.is_null() {
            m["arguments"] = arguments.clone();
        }
        let m = m.to_string();
        (self.seq, format!("Content-Length: {}\r\n\r\n{m}", m.len()))
    }
    pub fn send(&mut self, command: &str, arguments: &Value) -> i64 {
        let (seq, m) = self.message(command, arguments);
        self.send_raw(m.as_bytes());
        seq
    }
    /// The next message; an error when the adapter ended or stays silent.
    pub fn read(&mut self) -> Res<Value> {
        let mut len = None;
        loop {
            let mut line = String::new();
            match self.output.read_line(&mut line) {
                Ok(0) => return Err("the adapter ended".into()),
                Ok(_) => {},
                Err(e) => return Err(format!("nothing from the adapter: {e}")),
            }
            let line = line.trim_end();
            if line.is_empty() {
                break;
            }
            if let Some(n) = line.strip_prefix("Content-Length: ") {
                len = n.parse::<usize>().ok();
            }
        }
        let mut buf = vec![0; len.ok_or("a message without a length")?];
        self.output.read_exact(&mut buf).map_err(|e| format!("cut short: {e}"))?;
        let v: Value = serde_json::from_slice(&buf).map_err(|e| format!("not JSON: {e}"))?;
        let seq = v["seq"].as_i64().ok_or("a message without a number")?;
        if !self.seqs.insert(seq) {
            return Err(format!("two messages are number {seq}"));
        }
        match v["type"].as_str() {
            Some("event") => self.events.push(v.clone()),
            Some("response") => {},
            _ => return Err(format!("neither event nor response: {v}")),
        }
        Ok(v)
    }
    /// The answer to a request already sent.
    pub fn answer(&mut self, seq: i64, command: &str) -> Res<Value> {
        loop {
            let v = self.read().map_err(|e| format!("{e} instead of answering {command}"))?;
            if v["type"] == "response" {
                if v["request_seq"] != json!(seq) || v["command"] != json!(command) {
                    return Err(format!("while waiting for the answer to {command} ({seq}): {v}"));
                }
                return Ok(v);
            }
        }
    }
    pub fn call(&mut self, command: &str, arguments: Value) -> Res<Value> {
        let seq = self.send(command, &arguments);
        self.answer(seq, command)
    }
    /// The body of a successful answer.
    pub fn ok(&mut self, command: &str, arguments: Value) -> Res<Value> {
        let v = self.call(command, arguments)?;
        if v["success"] != json!(true) {
            return Err(format!("{command} failed: {}", v["message"]));
        }
        Ok(v["body"].clone())
    }
    pub fn wait_event(&mut self, name: &str, seen: usize) -> Res<Value> {
        let mut at = seen;
        loop {
            while at < self.events.len() {
                if self.events[at]["event"] == name {
                    return Ok(self.events[at].clone());
                }
                at += 1;
            }
            let v = self.read().map_err(|e| format!("{e} instead of the event {name}"))?;
            if v["type"] == "response" {
                return Err(format!("while waiting for the event {name}: {v}"));
            }
        }
    }
    /// The events since the given number of them, without console output.
    pub fn since(&self, seen: usize) -> Vec<(String, Value)> {
        self.events[seen..].iter().filter(|e| e["event"] != "output").map(|e| (e["event"].as_str().unwrap_or("?").to_string(), e["body"].clone())).collect()
    }
    /// No further answer is under way: everything sent was answered exactly once.
    pub fn quiet(&mut self) -> Res<()> {
        let v = self.call("no such request", Value::Null)?;
        if v["success"] != json!(false) || v["message"].as_str().unwrap_or("").is_empty() {
            return Err(format!("an unknown request was answered with {v}"));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// a game with auxtools

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Req {
    Disconnect,
    Configured,
    StdDef,
    Eval { frame_id: Option<u32>, command: String, context: Option<String> },
    CurrentInstruction { frame_id: u32 },
    BreakpointSet { instruction: Instr, condition: Option<String> },
    BreakpointUnset { instruction: Instr },
    CatchRuntimes { should_catch: bool },
    LineNumber { proc: ProcRef, offset: u32 },
    Offset { proc: ProcRef, line: u32 },
    Stacks,
    StackFrames { stack_id: u32, start_frame: Option<u32>, count: Option<u32> },
    Scopes { frame_id: u32 },
    Variables { vars: i32 },
    Continue { kind: Kind },
    Pause,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Resp {
    Ack,
    StdDef(Option<String>),
    Eval(Evaluated),
    CurrentInstruction(Option<Instr>),
    BreakpointSet { result: SetResult },
    BreakpointUnset { success: bool },
    LineNumber { line: Option<u32> },
    Offset { offset: Option<u32> },
    Stacks { stacks: Vec<Stack> },
    StackFrames { frames: Vec<Frame>, total_count: u32 },
    Scopes { arguments: Option<i32>, locals: Option<i32>, globals: Option<i32> },
    Variables { vars: Vec<Var> },
    Disconnect,
    Notification { message: String },
    BreakpointHit { reason: Reason },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct ProcRef {
    pub path: String,
    pub over: u32,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Instr {
    pub proc: ProcRef,
    pub offset: u32,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Reason {
    Breakpoint,
    Step,
    Pause,
    Runtime(String),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Kind {
    Continue,
    StepOver { stack_id: u32 },
    StepInto { stack_id: u32 },
    StepOut { stack_id: u32 },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Stack {
    pub id: u32,
    pub name: String,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Frame {
    pub id: u32,
    pub instruction: Instr,
    pub line: Option<u32>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum SetResult {
    Success { line: Option<u32> },
    Failed,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Var {
    pub name: String,
    pub value: String,
    pub variables: Option<i32>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Evaluated {
    pub value: String,
    pub variables: Option<i32>,
}

pub fn frame_bytes(r: &Resp) -> Vec<u8> {
    let data = bincode::serialize(r).unwrap();
    let mut out = (data.len() as u32).to_le_bytes().to_vec();
    out.extend(data);
    out
}

/// What the game does with each request: everything it sends in turn.
pub type AuxPlay = Arc<Mutex<dyn FnMut(&Req) -> Vec<Resp> + Send>>;

/// Answer requests until the connection ends.
pub fn play_aux(mut stream: TcpStream, play: AuxPlay) {
    stream.set_nodelay(true).unwrap();
    std::thread::spawn(move || {
        let mut read = BufReader::new(Quick(stream.try_clone().unwrap()));
        loop {
            let mut len = [0; 4];
            if read.read_exact(&mut len).is_err() {
                return;
            }
            let len = u32::from_le_bytes(len) as usize;
            if len > 1 << 20 {
                return;
            }
            let mut buf = vec![0; len];
            if read.read_exact(&mut buf).is_err() {
                return;
            }
            let Ok(req) = bincode::deserialize::<Req>(&buf) else { return };
            let mut out = vec![];
            for r in play.lock().unwrap()(&req) {
                out.extend(frame_bytes(&r));
            }
            if stream.write_all(&out).is_err() {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// a game with extools

pub type ExtPlay = Arc<Mutex<dyn FnMut(&str, &Value) -> Vec<(&'static str, Value)> + Send>>;

pub fn ext_bytes(kind: &str, content: &Value) -> Vec<u8> {
    let mut out = json!({"type": kind, "content": content}).to_string().into_bytes();
    out.push(0);
    out
}
pub fn play_ext(stream: TcpStream, play: ExtPlay) {
    stream.set_nodelay(true).unwrap();
    let mut write = stream.try_clone().unwrap();
    std::thread::spawn(move || {
        let mut read = BufReader::new(Quick(stream));
        loop {
            let mut buf = vec![];
            match read.read_until(0, &mut buf) {
                Ok(n) if n > 0 && buf.last() == Some(&0) => {},
                _ => return,
            }
            buf.pop();
            let Ok(v) = serde_json::from_slice::<Value>(&buf) else { return };
            let mut out = vec![];
            for (k, c) in play.lock().unwrap()(v["type"].as_str().unwrap_or(""), &v["content"]) {
                out.extend(ext_bytes(k, &c));
            }
            if write.write_all(&out).is_err() {
                return;
            }
        }
    });
}
/// What the game's disassembly of a proc looks like.
pub fn disassembly(path: &str, over: u32) -> Value {
    let mut out = vec![];
    let mut at = |offset: u32, mnemonic: &str, comment: String| {
        out.push(json!({"offset": offset, "bytes": format!("{offset:02x} 00"), "mnemonic": mnemonic, "comment": comment, "possible_jumps": []}));
    };
    if let Some(d) = def_of(path, over) {
        for &(line, offset) in d.code {
            at(offset, "DBG LINENO", format!("Line number: {line}"));
            at(offset + 1, "SETVAR", "a".into());
        }
        at(d.code.last().unwrap().1 + 2, "END", String::new());
    }
    json!(out)
}

// ---------------------------------------------------------------------------------------------
// sessions

pub struct Host {
    pub server: Server,
    pub dir: PathBuf,
    pub aux: bool,
    listener: TcpListener,
    sessions: usize,
}
impl Drop for Host {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
thread_local! {
    static HOSTS: std::cell::RefCell<[Option<Host>; 4]> = const { std::cell::RefCell::new([None, None, None, None]) };
}
static HOST_NO: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Host {
    pub fn path(&self, file: usize) -> String {
        self.dir.join(FILES[file]).to_string_lossy().into_owned()
    }
    fn new(scratch: &Path, aux: bool, apart: bool) -> Host {
        let n = HOST_NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = scratch.join(format!("dbg{n}"));
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        std::fs::write(dir.join("x.dme"), "#include \"a.dm\"\n#include \"sub\\b.dm\"\n").unwrap();
        std::fs::write(dir.join("a.dm"), A).unwrap();
        std::fs::write(dir.join("sub/b.dm"), B).unwrap();
        // auxtools is the engine where nothing is configured
        let config = if aux { "" } else { "[debugger]\nengine = \"extools\"\n" };
        std::fs::write(dir.join("SpacemanDMM.toml"), config).unwrap();
        let server = if apart {
            let exe = scratch.join("langserver");
            let own = Server::spawn_as(Some(&dir), Some((&exe, 61_000 + n as u32)));
            Server::start_from(own, Some(&dir), json!({}))
        } else {
            Server::start(Some(&dir))
        };
        let listener = patiently(|| TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(|e| e.to_string())).expect("a port for the game");
        Host { server, dir, aux, listener, sessions: 0 }
    }
    /// A fresh adapter, past its initialization.
    pub fn adapter(&mut self, exe: &str, env: Value) -> Res<Dap> {
        self.sessions += 1;
        let v = patiently(|| self.server.request("experimental/dreammaker/startDebugger", json!({"dreamseeker_exe": exe, "env": env})))?;
        let mut dap = Dap::connect(v["port"].as_u64().ok_or("no port")? as u16)?;
        let caps = dap.ok("initialize", json!({"adapterID": "byond", "linesStartAt1": true, "columnsStartAt1": true}))?;
        for c in ["supportTerminateDebuggee", "supportsConfigurationDoneRequest", "supportsFunctionBreakpoints", "supportsConditionalBreakpoints", "supportsExceptionInfoRequest"] {
            if caps[c] != json!(true) {
                return Err(format!("{c} is not announced: {caps}"));
            }
        }
        Ok(dap)
    }
    /// An adapter attached to a game that waits for it.
    pub fn attach(&mut self) -> Res<(Dap, TcpStream)> {
        let mut dap = self.adapter("/nonexistent", Value::Null)?;
        dap.ok("attach", json!({"port": self.listener.local_addr().unwrap().port()}))?;
        let (stream, _) = self.listener.accept().map_err(|e| e.to_string())?;
        Ok((dap, stream))
    }
    pub fn attach_aux(&mut self, play: AuxPlay) -> Res<(Dap, TcpStream)> {
        let (mut dap, stream) = self.attach()?;
        play_aux(stream.try_clone().unwrap(), play);
        dap.wait_event("initialized", 0)?;
        Ok((dap, stream))
    }
    pub fn attach_ext(&mut self, play: ExtPlay) -> Res<(Dap, TcpStream)> {
        let (mut dap, stream) = self.attach()?;
        play_ext(stream.try_clone().unwrap(), play);
        dap.wait_event("initialized", 0)?;
        Ok((dap, stream))
    }
}
/// Run with this thread's server for the engine; a failed use discards it.
pub fn with_host<R>(scratch: &Path, aux: bool, f: impl FnOnce(&mut Host) -> Res<R>) -> Res<R> {
    with_host_kind(scratch, aux, false, f)
}
/// The same, with a server that runs as a user of its own.
pub fn with_host_apart<R>(scratch: &Path, aux: bool, f: impl FnOnce(&mut Host) -> Res<R>) -> Res<R> {
    with_host_kind(scratch, aux, true, f)
}
fn with_host_kind<R>(scratch: &Path, aux: bool, apart: bool, f: impl FnOnce(&mut Host) -> Res<R>) -> Res<R> {
    let kind = aux as usize + 2 * apart as usize;
    HOSTS.with(|p| {
        let kept = p.borrow_mut()[kind].take().filter(|h| h.sessions < 300 && h.dir.starts_with(scratch));
        let mut h = kept.unwrap_or_else(|| Host::new(scratch, aux, apart));
        let r = f(&mut h);
        if r.is_ok() {
            p.borrow_mut()[kind] = Some(h);
        }
        r
    })
}
