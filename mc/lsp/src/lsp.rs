//! A client for the real language server, run as a child process over its standard streams.
use serde_json::{Value, json};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Server {
    child: Child,
    input: Option<ChildStdin>,
    output: BufReader<ChildStdout>,
    next_id: u64,
    /// Everything the server sent that was not the answer being waited for.
    pub pushed: Vec<Value>,
    pub served: usize,
}

pub type Res<T> = Result<T, String>;

impl Server {
    pub fn spawn() -> Server {
        Server::spawn_in(None)
    }
    /// Editors start the server in the folder it serves.
    pub fn spawn_in(dir: Option<&Path>) -> Server {
        Server::spawn_as(dir, None)
    }
    /// As a user that owns nothing, and outside of this process group, where it is going to end processes.
    pub fn spawn_as(dir: Option<&Path>, user: Option<(&Path, u32)>) -> Server {
        let exe = std::env::current_exe().unwrap().with_file_name("dm-langserver");
        let mut command = Command::new(user.map_or(&*exe, |u| u.0));
        if let Some((_, uid)) = user {
            use std::os::unix::process::CommandExt;
            command.uid(uid).gid(uid).process_group(0);
        }
        if let Some(dir) = dir {
            command.current_dir(dir);
        }
        let mut child = command
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .env("RUST_BACKTRACE", "0")
            .spawn()
            .expect("start the language server");
        let input = child.stdin.take();
        let output = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        Server { child, input, output, next_id: 0, pushed: vec![], served: 0 }
    }
    /// A running server, in single file mode without a folder.
    pub fn start(root: Option<&Path>) -> Server {
        Server::start_caps(root, json!({}))
    }
    pub fn start_caps(root: Option<&Path>, caps: Value) -> Server {
        Server::start_from(Server::spawn_in(root), root, caps)
    }
    pub fn start_from(mut s: Server, root: Option<&Path>, caps: Value) -> Server {
        let root = root.map(|r| format!("file://{}", r.display()));
        s.request("initialize", json!({"processId": null, "rootUri": root, "capabilities": caps})).expect("initialize");
        s.notify("initialized", json!({}));
        // answered once the environment has been read
        let _ = s.call("workspace/symbol", json!({"query": ""}));
        s
    }

    pub fn send_raw(&mut self, bytes: &[u8]) {
        let input = self.input.as_mut().expect("input closed");
        // a server that died is noticed when its answer is read
        let _ = input.write_all(bytes);
        let _ = input.flush();
    }
    pub fn send_text(&mut self, text: &str) {
        let msg = format!("Content-Length: {}\r\n\r\n{}", text.len(), text);
        self.send_raw(msg.as_bytes());
    }
    pub fn send(&mut self, v: &Value) {
        self.send_text(&v.to_string());
    }
    /// The next message, or None at the end of the stream.
    pub fn read(&mut self) -> Option<Value> {
        let mut len = None;
        loop {
            let mut line = String::new();
            if self.output.read_line(&mut line).ok()? == 0 {
                return None;
            }
            let line = line.trim_end();
            if line.is_empty() {
                break;
            }
            if let Some(n) = line.strip_prefix("Content-Length: ") {
                len = n.parse::<usize>().ok();
            }
        }
        let mut buf = vec![0; len?];
        self.output.read_exact(&mut buf).ok()?;
        serde_json::from_slice(&buf).ok()
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
    /// The whole answer to a request: {"result": ..} or {"error": ..}.
    pub fn call(&mut self, method: &str, params: Value) -> Res<Value> {
        self.next_id += 1;
        let id = self.next_id;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        loop {
            match self.read() {
                None => {
                    let status = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Err(format!("the server ended ({status}) instead of answering {method}"));
                },
                Some(v) if v.get("id").is_some() && v["id"] == json!(id) => return Ok(v),
                Some(v) => self.pushed.push(v),
            }
        }
    }
    pub fn request(&mut self, method: &str, params: Value) -> Res<Value> {
        let v = self.call(method, params)?;
        match v.get("error") {
            Some(e) => Err(format!("{method} answered with the error {e}")),
            None => Ok(v["result"].clone()),
        }
    }
    pub fn open(&mut self, uri: &str, version: i64, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "dm", "version": version, "text": text}}));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn at(&mut self, method: &str, uri: &str, line: u32, character: u32) -> Res<Value> {
        self.request(method, json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": character}}))
    }
    pub fn doc(&mut self, method: &str, uri: &str) -> Res<Value> {
        self.request(method, json!({"textDocument": {"uri": uri}}))
    }
    /// Close the input and give the rest of the output and the exit code.
    pub fn finish(mut self) -> (Vec<Value>, Option<i32>) {
        self.input = None;
        let mut rest = std::mem::take(&mut self.pushed);
        while let Some(v) = self.read() {
            rest.push(v);
        }
        let code = self.child.wait().ok().and_then(|s| s.code());
        (rest, code)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.input = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static POOL: std::cell::RefCell<Option<Server>> = const { std::cell::RefCell::new(None) };
}
/// Run with this thread's single-file server, started afresh now and then; a failed use discards it.
pub fn with_server<R>(f: impl FnOnce(&mut Server) -> Res<R>) -> Res<R> {
    POOL.with(|p| {
        let mut s = p.borrow_mut().take().filter(|s| s.served < 400).unwrap_or_else(|| Server::start(None));
        s.served += 1;
        s.pushed.clear();
        let r = f(&mut s);
        if r.is_ok() {
            *p.borrow_mut() = Some(s);
        }
        r
    })
}

/// A server with a folder of its own, whose files are replaced and parsed again for each program.
pub struct Workspace {
    pub server: Server,
    pub dir: std::path::PathBuf,
    loads: usize,
}
thread_local! {
    static WORKSPACES: std::cell::RefCell<Option<Workspace>> = const { std::cell::RefCell::new(None) };
}
static WORKSPACE_NO: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Workspace {
    pub fn uri(&self, file: &str) -> String {
        format!("file://{}/{file}", self.dir.display())
    }
    /// Replace the program and give the messages of its parse, errors and worse only.
    pub fn load(&mut self, files: &[(&str, &str)]) -> Res<Vec<String>> {
        for e in std::fs::read_dir(&self.dir).unwrap() {
            let path = e.unwrap().path();
            let _ = if path.is_dir() { std::fs::remove_dir_all(path) } else { std::fs::remove_file(path) };
        }
        for (name, text) in files {
            if let Some((folder, _)) = name.rsplit_once('/') {
                std::fs::create_dir_all(self.dir.join(folder)).unwrap();
            }
            std::fs::write(self.dir.join(name), text).unwrap();
        }
        self.loads += 1;
        self.server.pushed.clear();
        self.server.notify("experimental/dreammaker/reparse", json!({}));
        // answered once the environment has been read
        self.server.call("workspace/symbol", json!({"query": "?"}))?;
        let mut out = vec![];
        for m in &self.server.pushed {
            if m["method"] == "textDocument/publishDiagnostics" {
                for d in m["params"]["diagnostics"].as_array().into_iter().flatten() {
                    if d["severity"] == 1 {
                        out.push(format!("{}:{}: {}", m["params"]["uri"].as_str().unwrap_or(""), d["range"]["start"]["line"], d["message"].as_str().unwrap_or("")));
                    }
                }
            }
        }
        Ok(out)
    }
}
impl Drop for Workspace {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// Run with this thread's workspace server under the scratch folder; a failed use discards it.
pub fn with_workspace<R>(scratch: &Path, f: impl FnOnce(&mut Workspace) -> Res<R>) -> Res<R> {
    WORKSPACES.with(|p| {
        let kept = p.borrow_mut().take().filter(|w| w.loads < 300 && w.dir.starts_with(scratch));
        let mut w = kept.unwrap_or_else(|| {
            let n = WORKSPACE_NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let dir = scratch.join(format!("ws{n}"));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("x.dme"), "\n").unwrap();
            Workspace { server: Server::start(Some(&dir)), dir, loads: 0 }
        });
        let r = f(&mut w);
        if r.is_ok() {
            *p.borrow_mut() = Some(w);
        }
        r
    })
}
