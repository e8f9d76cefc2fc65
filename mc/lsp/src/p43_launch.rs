//! P43: a game started for debugging: how it is started, what it prints, how it ends and who ends it.
use crate::debug::*;
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};
use std::io::Read;
use std::net::{Ipv4Addr, TcpStream};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static NO: AtomicUsize = AtomicUsize::new(0);

/// The folder of one game, which is a script here, and the program that runs it.
struct Game {
    dir: PathBuf,
    seekers: PathBuf,
}
/// Written once, before anything is started: a file that is open for writing anywhere cannot be run.
fn prepare(scratch: &Path) {
    let dir = scratch.join("seekers");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("seeker"), "#!/bin/sh\nexec /bin/sh \"$@\"\n").unwrap();
    std::fs::set_permissions(dir.join("seeker"), std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::copy(std::env::current_exe().unwrap().with_file_name("dm-langserver"), scratch.join("langserver")).unwrap();
    std::fs::set_permissions(scratch.join("langserver"), std::fs::Permissions::from_mode(0o755)).unwrap();
}
impl Game {
    fn new(scratch: &Path, script: &str) -> Game {
        let dir = scratch.join(format!("game{}", NO.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).unwrap();
        let g = Game { dir, seekers: scratch.join("seekers") };
        // a game left to itself ends with the folder
        let script = script.replace("WAIT", "while [ -e go ] && [ ! -e stop ]; do sleep 0.01; done");
        std::fs::write(g.dmb(), format!("cd '{}' || exit 99\n{script}\n", g.dir.display())).unwrap();
        std::fs::write(g.dir.join("go"), "").unwrap();
        g
    }
    fn exe(&self) -> PathBuf {
        self.seekers.join("seeker")
    }
    fn dmb(&self) -> PathBuf {
        self.dir.join("game.dmb")
    }
    fn stop(&self) {
        std::fs::write(self.dir.join("stop"), "").unwrap();
    }
    fn arguments(&self, debug: Option<bool>) -> Value {
        let mut v = json!({"dmb": self.dmb()});
        if let Some(d) = debug {
            v["noDebug"] = json!(!d);
        }
        v
    }
    fn adapter(&self, h: &mut Host, env: Value) -> Res<Dap> {
        h.adapter(&self.exe().to_string_lossy(), env)
    }
}
impl Drop for Game {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.dir.join("go"));
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn alive(pid: i64) -> bool {
    // one that ended and was not waited for has ended
    std::fs::read_to_string(format!("/proc/{pid}/stat")).is_ok_and(|s| !s.rsplit(')').next().unwrap_or("").trim_start().starts_with('Z'))
}
/// What a stream of the game was shown to have printed.
fn printed(dap: &Dap, stream: &str) -> String {
    dap.events.iter().filter(|e| e["event"] == "output" && e["body"]["category"] == stream).map(|e| e["body"]["output"].as_str().unwrap_or("?")).collect()
}
fn read_until(dap: &mut Dap, stop: impl Fn(&Dap) -> bool) -> Res<()> {
    while !stop(dap) {
        dap.read()?;
    }
    Ok(())
}
/// The value after a label that the game printed.
fn said(dap: &mut Dap, label: &str) -> Res<String> {
    let find = |dap: &Dap| printed(dap, "stdout").lines().find_map(|l| l.strip_prefix(label).map(str::to_string)).filter(|_| printed(dap, "stdout").ends_with('\n'));
    read_until(dap, |d| find(d).is_some())?;
    Ok(find(dap).unwrap())
}
fn ends(dap: &Dap) -> Vec<(String, Option<i64>)> {
    dap.since(0).into_iter().filter(|e| e.0 == "exited" || e.0 == "terminated").map(|e| (e.0, e.1["exitCode"].as_i64())).collect()
}

const PRINTS: [(&str, &str, &str); 7] = [
    ("", "", ""),
    ("echo one; echo two", "one\ntwo\n", ""),
    ("echo bad >&2", "", "bad\n"),
    ("printf 'no end'", "no end", ""),
    ("printf 'a\\n\\nb\\n'; printf 'c\\nd' >&2", "a\n\nb\n", "c\nd"),
    ("printf 'x\\377y\\n'", "x\u{fffd}y\n", ""),
    ("printf 'caf\\303\\251 \\t\"q\"\\r\\n'", "café \t\"q\"\r\n", ""),
];

fn exits(scratch: &Path, h: &mut Host, c: &mut Case, print: usize, how: usize, debug: Option<bool>, after: bool) -> Res<()> {
    let (script, out, err) = PRINTS[print];
    let (end, code) = [("exit 0", 0), ("exit 1", 1), ("exit 7", 7), ("exit 255", 255), ("kill -9 $$", -1), ("kill -15 $$", -1), ("true", 0)][how];
    let g = Game::new(scratch, &format!("{script}\n{}\n{end}", if after { "WAIT" } else { "" }));
    let mut dap = g.adapter(h, Value::Null)?;
    c.trans(1);
    dap.ok("launch", g.arguments(debug))?;
    if after {
        // nothing ends before the game does
        // whole lines, that is
        let lines = |s: &str| s.rfind('\n').map_or(0, |i| i + 1);
        read_until(&mut dap, |d| printed(d, "stdout").len() >= lines(out) && printed(d, "stderr").len() >= lines(err))?;
        c.check_eq("the ends announced while it runs", &vec![], &ends(&dap));
        g.stop();
    }
    read_until(&mut dap, |d| d.since(0).iter().any(|e| e.0 == "exited"))?;
    // what it printed may still be on its way
    read_until(&mut dap, |d| printed(d, "stdout").len() >= out.len() && printed(d, "stderr").len() >= err.len())?;
    c.validated(1);
    c.check_eq("what it printed", &(out.to_string(), err.to_string()), &(printed(&dap, "stdout"), printed(&dap, "stderr")));
    dap.quiet()?;
    c.check_eq("the ends announced", &vec![("terminated".to_string(), None), ("exited".to_string(), Some(code))], &ends(&dap));
    dap.ok("disconnect", json!({}))?;
    dap.quiet()?;
    c.check_eq("the ends announced after all", &2, &ends(&dap).len());
    c.outcome(&(print, code));
    Ok(())
}

fn environment(scratch: &Path, h: &mut Host, c: &mut Case, env: usize, debug: Option<bool>, dll: bool) -> Res<()> {
    let names = ["AUXTOOLS_DEBUG_MODE", "AUXTOOLS_DEBUG_PORT", "AUXTOOLS_DEBUG_DLL", "EXTOOLS_MODE", "EXTOOLS_PORT", "EXTOOLS_DLL", "LD_LIBRARY_PATH", "MINE"];
    let mut script: String = names.iter().map(|n| format!("echo \"{n}=${n}\"\n")).collect();
    script += "echo \"args $0 $*\"\necho done=\n";
    let g = Game::new(scratch, &script);
    if dll {
        h.server.notify("workspace/didChangeConfiguration", json!({"settings": {"dreammaker": {"debugServerDll": "/d/aux.dll", "extoolsDLL": "/d/ext.dll"}}}));
    }
    let given = [Value::Null, json!({}), json!({"MINE": "a b"}), json!({"MINE": "x", "LD_LIBRARY_PATH": "/own"}), json!({"AUXTOOLS_DEBUG_MODE": "mine", "EXTOOLS_MODE": "mine"})][env].clone();
    let mut dap = g.adapter(h, given.clone())?;
    c.trans(1);
    dap.ok("launch", g.arguments(debug))?;
    said(&mut dap, "done=")?;
    c.validated(1);
    let text = printed(&dap, "stdout");
    let value = |n: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{n}="))).unwrap_or("?").to_string();
    let of_env = |n: &str| given[n].as_str().map(str::to_string);
    c.check_eq("how it was started", &Some(format!("args {} -trusted", g.dmb().display())), &text.lines().find(|l| l.starts_with("args ")).map(str::to_string));
    c.check_eq("MINE", &of_env("MINE").unwrap_or_default(), &value("MINE"));
    c.check_eq("LD_LIBRARY_PATH", &of_env("LD_LIBRARY_PATH").unwrap_or(g.seekers.to_string_lossy().into_owned()), &value("LD_LIBRARY_PATH"));
    let debug = debug != Some(false);
    for (prefix, on, lib) in [("AUXTOOLS_DEBUG_", debug && h.aux, "/d/aux.dll"), ("EXTOOLS_", debug && !h.aux, "/d/ext.dll")] {
        let mode = if on { "LAUNCHED".to_string() } else { of_env(&format!("{prefix}MODE")).unwrap_or_default() };
        c.check_eq("the engine's mode", &mode, &value(&format!("{prefix}MODE")));
        c.check_eq("whether a port is given", &on, &value(&format!("{prefix}PORT")).parse::<u16>().is_ok());
        if dll {
            c.check_eq("the engine's library", &(if on { lib } else { "" }).to_string(), &value(&format!("{prefix}DLL")));
        }
    }
    read_until(&mut dap, |d| d.since(0).iter().any(|e| e.0 == "exited"))?;
    dap.ok("disconnect", json!({}))?;
    c.outcome(&(env, debug));
    Ok(())
}

/// Ended by the editor: a game that runs, one that has ended, one that was attached to.
fn disconnects(scratch: &Path, h: &mut Host, c: &mut Case, debug: bool, connected: bool, ended: bool, terminate: Option<bool>) -> Res<()> {
    let port = if h.aux { "AUXTOOLS_DEBUG_PORT" } else { "EXTOOLS_PORT" };
    let g = Game::new(scratch, &format!("echo \"port=${port}\"\necho pid=$$\nWAIT\nexit 7"));
    let mut dap = g.adapter(h, Value::Null)?;
    dap.ok("launch", g.arguments(Some(debug)))?;
    let pid: i64 = said(&mut dap, "pid=")?.parse().map_err(|_| "no pid")?;
    let log: Arc<Mutex<Vec<Req>>> = Arc::default();
    let mut game = None;
    if connected {
        let port: u16 = said(&mut dap, "port=")?.parse().map_err(|_| "no port")?;
        let stream = TcpStream::connect((Ipv4Addr::LOCALHOST, port)).map_err(|e| format!("the game cannot connect: {e}"))?;
        if h.aux {
            let log = log.clone();
            play_aux(
                stream.try_clone().unwrap(),
                Arc::new(Mutex::new(move |r: &Req| {
                    log.lock().unwrap().push(r.clone());
                    match r {
                        Req::StdDef => vec![Resp::StdDef(None)],
                        Req::Disconnect => vec![],
                        _ => vec![Resp::Ack],
                    }
                })),
            );
        } else {
            play_ext(stream.try_clone().unwrap(), Arc::new(Mutex::new(|kind: &str, _: &Value| if kind == "get source" { vec![("get source", json!(""))] } else { vec![] })));
        }
        dap.wait_event("initialized", 0)?;
        dap.ok("configurationDone", Value::Null)?;
        game = Some(stream);
    }
    c.ensure(alive(pid), "the game runs");
    if ended {
        g.stop();
        read_until(&mut dap, |d| d.since(0).iter().any(|e| e.0 == "exited"))?;
    }
    c.trans(1);
    let arguments = terminate.map_or(json!({}), |t| json!({"terminateDebuggee": t}));
    dap.ok("disconnect", arguments)?;
    c.validated(1);
    // a game started here ends with the session where nothing else is said
    let killed = !ended && terminate != Some(false);
    if !ended && !killed {
        let until = Instant::now() + Duration::from_millis(30);
        while Instant::now() < until {
            c.ensure(alive(pid), "a game that is to be left alone goes on");
            std::thread::sleep(Duration::from_millis(5));
        }
        c.check_eq("no end is announced while it runs", &false, &dap.since(0).iter().any(|e| e.0 == "exited"));
        g.stop();
    }
    read_until(&mut dap, |d| d.since(0).iter().any(|e| e.0 == "exited"))?;
    c.ensure(!alive(pid), "it has ended");
    let exits: Vec<Option<i64>> = ends(&dap).into_iter().filter(|e| e.0 == "exited").map(|e| e.1).collect();
    c.check_eq("its exit", &vec![Some(if killed { -1 } else { 7 })], &exits);
    if let Some(mut stream) = game {
        stream.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        if h.aux {
            let until = Instant::now() + Duration::from_secs(5);
            while !log.lock().unwrap().contains(&Req::Disconnect) && Instant::now() < until {
                std::thread::sleep(Duration::from_millis(1));
            }
            c.check_eq("what the game was asked", &vec![Req::StdDef, Req::Configured, Req::Disconnect], &log.lock().unwrap());
        }
        let mut rest = vec![];
        let _ = stream.read_to_end(&mut rest);
        // both directions end
        let _ = stream.shutdown(std::net::Shutdown::Both);
    }
    dap.ok("disconnect", json!({"terminateDebuggee": true}))?;
    dap.quiet()?;
    c.outcome(&(killed, ended));
    Ok(())
}

pub fn check(r: &mut Runner) {
    r.assume("the game is a script started by the real adapter, whose server runs as a user of its own, outside of the harness's process group");
    use std::os::unix::process::CommandExt;
    let able = std::process::Command::new("/bin/true").uid(61_000).gid(61_000).status().is_ok_and(|s| s.success());
    if !able {
        r.assume("this sandbox cannot run processes as another user: nothing was started");
    }
    let yes = able as u64;
    prepare(&r.scratch());
    let scratch = r.scratch().to_path_buf();

    let s = scratch.clone();
    r.suite("exits", "what is printed × how it ends × debugged or not × engine × whether it is awaited", 7 * 7 * 3 * 2 * 2 * yes, |i, c| {
        let mut d = Digits(i);
        let (print, how, debug, aux, after) = (d.take(7), d.take(7), [None, Some(true), Some(false)][d.take(3)], d.flag(), d.flag());
        c.input(|| format!("{:?} exit {how} debug {debug:?} aux {aux} awaited {after}", PRINTS[print].0));
        if let Err(e) = with_host_apart(&s, aux, |h| exits(&s, h, c, print, how, debug, after)) {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("starts", "environment given × debugged or not × engine × library configured", 5 * 3 * 2 * 2 * yes, |i, c| {
        let mut d = Digits(i);
        let (env, debug, aux, dll) = (d.take(5), [None, Some(true), Some(false)][d.take(3)], d.flag(), d.flag());
        c.input(|| format!("env {env} debug {debug:?} aux {aux} dll {dll}"));
        if let Err(e) = with_host_apart(&s, aux, |h| environment(&s, h, c, env, debug, dll)) {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("disconnects", "engine × debugged × connected × ended already × what the editor says of the game", 2 * 3 * 2 * 3 * yes, |i, c| {
        let mut d = Digits(i);
        let (aux, (debug, connected)) = (d.flag(), [(false, false), (true, false), (true, true)][d.take(3)]);
        let (ended, terminate) = (d.flag(), [None, Some(true), Some(false)][d.take(3)]);
        c.input(|| format!("aux {aux} debug {debug} connected {connected} ended {ended} terminate {terminate:?}"));
        if let Err(e) = with_host_apart(&s, aux, |h| disconnects(&s, h, c, debug, connected, ended, terminate)) {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("attached", "engine × what the editor says of the game: a game that was attached to is told and left alone", 2 * 3 * yes, |i, c| {
        let mut d = Digits(i);
        let (aux, terminate) = (d.flag(), [None, Some(true), Some(false)][d.take(3)]);
        c.input(|| format!("aux {aux} terminate {terminate:?}"));
        let res = with_host_apart(&s, aux, |h| {
            let (mut dap, mut stream) = h.attach()?;
            dap.wait_event("initialized", 0)?;
            if !aux {
                // the connection is taken up by the first request
                dap.ok("pause", json!({"threadId": 0}))?;
            }
            c.trans(1);
            dap.ok("disconnect", terminate.map_or(json!({}), |t| json!({"terminateDebuggee": t})))?;
            let mut rest = vec![];
            stream.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
            stream.read_to_end(&mut rest).map_err(|e| format!("the connection stays: {e}"))?;
            if aux {
                c.check_eq("what the game is told", &Some(Req::Disconnect), &rest.get(4..).and_then(|b| bincode::deserialize(b).ok()));
            }
            c.validated(1);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            dap.wait_event("terminated", 0)?;
            dap.quiet()?;
            c.check_eq("the end is announced once", &vec![("terminated".to_string(), None)], &ends(&dap));
            c.outcome(&aux);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("refused", "engine × what cannot be started or attached to: it is refused, and a game can still be started", 2 * 3 * yes, |i, c| {
        let mut d = Digits(i);
        let (aux, how) = (d.flag(), d.take(3));
        c.input(|| format!("aux {aux} how {how}"));
        let res = with_host_apart(&s, aux, |h| {
            let mut dap = h.adapter("/nonexistent/seeker", Value::Null)?;
            c.trans(1);
            let v = match how {
                0 => dap.call("launch", json!({"dmb": "/nonexistent/x.dmb"}))?,
                1 => dap.call("launch", json!({"dmb": "/nonexistent/x.dmb", "noDebug": true}))?,
                _ => dap.call("launch", json!({}))?,
            };
            c.ensure(v["success"] == json!(false), "it is refused");
            c.validated(1);
            dap.ok("disconnect", json!({}))?;
            dap.quiet()?;
            c.check_eq("the ends announced", &vec![], &ends(&dap));
            c.outcome(&how);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });
}
