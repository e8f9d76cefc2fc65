//! P23: whatever order its threads run in, a program's results are the same.
use crate::explore::*;
use crate::scene;
use mc_common::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

// ---------------------------------------------------------------------------------------------
// the language server

/// What the environment holds at one time.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Version {
    a: usize,
    b: usize,
    checker: bool,
}
const A: [&str; 5] = [
    "/zt/proc/zp()\n\treturn 1\n/proc/za()\n\tvar/zt/o = new\n\to.zp()\n",
    "/zt/proc/zp()\n\treturn 1\n/proc/za()\n\tvar/zt/o = nothing_one\n\to.zp()\n\to.zp()\n",
    "/zt/proc/zp()\n\treturn 1\n/proc/za()\n\tvar/zt/o = nothing_two\n\n\to.zp()\n",
    "/zt/proc/zp()\n\treturn 1\n/proc/za()\n\treturn (1 + )\n",
    "/zt/proc/zp()\n\treturn 1\n#warn old\n/zt/zu\n/proc/za()\n\treturn nothing_three\n",
];
const B: [&str; 3] = ["/proc/zb()\n\treturn 1\n", "/proc/zb()\n\tvar/zt/q = new\n\tq.zp()\n\treturn nothing_b\n", "/proc/zb(\n"];

struct Script(Vec<u8>);
impl Script {
    fn message(&mut self, v: Value) {
        let t = v.to_string();
        let m = format!("Content-Length: {}\r\n\r\n{t}", t.len());
        self.0.extend(format!("message {}\n{m}", m.len()).bytes());
    }
    fn write(&mut self, path: &Path, text: &str) {
        self.0.extend(format!("write {} {}\n{text}", text.len(), path.display()).bytes());
    }
    fn settle(&mut self) {
        self.0.extend(b"settle\n");
    }
    fn notify(&mut self, method: &str) {
        self.message(json!({"jsonrpc": "2.0", "method": method, "params": {}}));
    }
    fn request(&mut self, id: u64, method: &str, params: Value) {
        self.message(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
    }
    fn env(&mut self, dir: &Path, v: Version) {
        self.write(&dir.join("a.dm"), A[v.a]);
        self.write(&dir.join("b.dm"), B[v.b]);
        self.write(&dir.join("SpacemanDMM.toml"), if v.checker { "[langserver]\ndreamchecker = true\n" } else { "" });
    }
    fn start(&mut self, dir: &Path, caps: Value) {
        self.request(1, "initialize", json!({"processId": null, "rootUri": format!("file://{}", dir.display()), "capabilities": caps}));
        self.notify("initialized");
    }
    fn references(&mut self, dir: &Path, id: u64) {
        self.request(id, "textDocument/references", json!({"textDocument": {"uri": format!("file://{}/a.dm", dir.display())}, "position": {"line": 0, "character": 10}, "context": {"includeDeclaration": false}}));
    }
}

/// What a client knows after reading everything the server said.
#[derive(PartialEq, Debug, Default, Clone)]
struct Client {
    diagnostics: BTreeMap<String, Vec<String>>,
    tree: String,
    status: String,
    answers: BTreeMap<u64, String>,
    /// Texts of all diagnostics in the order in which they came.
    seen: Vec<String>,
}
fn listen(out: &[u8]) -> Result<Client, String> {
    let mut c = Client::default();
    let mut at = 0;
    while at < out.len() {
        let rest = &out[at..];
        let head = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or("a message without an end of its header")?;
        let n: usize = std::str::from_utf8(&rest[..head]).ok().and_then(|h| h.strip_prefix("Content-Length: ")).and_then(|n| n.parse().ok()).ok_or_else(|| format!("a torn message: {}", String::from_utf8_lossy(rest)))?;
        let body = rest.get(head + 4..head + 4 + n).ok_or("the last message is cut short")?;
        at += head + 4 + n;
        let v: Value = serde_json::from_slice(body).map_err(|e| format!("a torn message: {e}: {}", String::from_utf8_lossy(body)))?;
        match v["method"].as_str() {
            Some("textDocument/publishDiagnostics") => {
                let uri = v["params"]["uri"].as_str().unwrap_or("?").rsplit('/').next().unwrap().to_string();
                let mut list: Vec<String> = v["params"]["diagnostics"].as_array().into_iter().flatten().map(|d| format!("{}:{} {} {}", d["range"]["start"]["line"], d["range"]["start"]["character"], d["severity"], d["message"])).collect();
                list.sort();
                c.seen.extend(list.iter().cloned());
                if list.is_empty() {
                    c.diagnostics.remove(&uri);
                } else {
                    c.diagnostics.insert(uri, list);
                }
            },
            Some("experimental/dreammaker/objectTree") => c.tree = v["params"].to_string(),
            Some("$window/status") => c.status = v["params"]["tasks"].to_string(),
            Some(_) => {},
            None => {
                let id = v["id"].as_u64().unwrap_or(0);
                let text = if id == 1 { String::new() } else { format!("{} {}", v["result"], v["error"]) };
                if c.answers.insert(id, text).is_some() {
                    return Err(format!("two answers to request {id}"));
                }
            },
        }
    }
    Ok(c)
}

struct Bench {
    dir: PathBuf,
    trace: PathBuf,
}
impl Bench {
    fn new(scratch: &Path, name: &str, i: u64) -> Bench {
        let dir = scratch.join(format!("{name}{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("x.dme"), "#include \"a.dm\"\n#include \"b.dm\"\n").unwrap();
        let trace = scratch.join(format!("{name}{i}.trace"));
        Bench { dir, trace }
    }
    fn server(&self) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("sched-langserver"));
        c.current_dir(&self.dir);
        c
    }
    fn go(&self, script: &Script, prefix: &[usize]) -> Run {
        once(self.server(), &script.0, &self.trace, prefix)
    }
}
impl Drop for Bench {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        let _ = std::fs::remove_file(&self.trace);
    }
}
fn schedule(p: &[usize]) -> String {
    p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}
fn tell(c: &mut Case, n: Count) {
    c.trans(n.choices);
    c.validated(n.schedules);
    if n.unstable > 0 {
        c.fail("unstable", format!("{} schedules could not be repeated", n.unstable));
    }
}

/// Parse each of the versions in turn, without waiting for what goes on in the background.
fn server_case(c: &mut Case, scratch: &Path, name: &str, i: u64, versions: &[Version], tree: bool, ask: bool, bound: usize, part: (usize, usize)) {
    let b = Bench::new(scratch, name, i * part.1 as u64 + part.0 as u64);
    let caps = if tree { json!({"experimental": {"dreammaker": {"objectTree": true}}}) } else { json!({}) };
    // alone
    let fresh = |v: Version| -> Result<Client, String> {
        let mut s = Script(vec![]);
        s.env(&b.dir, v);
        s.start(&b.dir, caps.clone());
        s.settle();
        s.references(&b.dir, 2);
        listen(&b.go(&s, &[]).stdout)
    };
    let alone: Vec<Client> = match versions.iter().map(|&v| fresh(v)).collect() {
        Ok(v) => v,
        Err(e) => return c.fail("fresh", e),
    };
    let mut s = Script(vec![]);
    for (k, &v) in versions.iter().enumerate() {
        s.env(&b.dir, v);
        if k == 0 {
            s.start(&b.dir, caps.clone());
        } else {
            s.notify("experimental/dreammaker/reparse");
        }
        if ask {
            s.references(&b.dir, 10 + k as u64);
        }
    }
    s.settle();
    s.references(&b.dir, 2);
    let last = alone.last().unwrap();
    c.input(|| format!("{versions:?}, each parsed while the work on the one before may go on\n{}", String::from_utf8_lossy(&s.0)));
    let n = explore(
        bound,
        part,
        |p| b.go(&s, p),
        |p, r| {
            let at = || format!("under the schedule {} (run sched-langserver with MCSCHED={0})\n{}", schedule(p), r.stderr.lines().filter(|l| l.contains("panicked")).collect::<Vec<_>>().join("\n"));
            if let Some(w) = &r.wrong {
                c.fail("stuck", format!("{w} {}", at()));
                return false;
            }
            if r.code != Some(1) && r.code != Some(0) || r.stderr.contains("panicked") {
                c.fail("crash", format!("the server ended with {:?} {}", r.code, at()));
                return false;
            }
            let got = match listen(&r.stdout) {
                Ok(g) => g,
                Err(e) => {
                    c.fail("stream", format!("{e} {}", at()));
                    return false;
                },
            };
            c.outcome(&got.seen);
            c.state(&r.stdout);
            let mut ok = c.check_eq(&format!("diagnostics shown once all is quiet {}", at()), &last.diagnostics, &got.diagnostics);
            ok &= c.check_eq(&format!("the object tree shown {}", at()), &last.tree, &got.tree);
            ok &= c.check_eq(&format!("the status shown {}", at()), &last.status, &got.status);
            ok &= c.check_eq(&format!("references once all is quiet {}", at()), &last.answers.get(&2), &got.answers.get(&2));
            for (k, a) in alone.iter().enumerate() {
                if ask {
                    let ans = got.answers.get(&(10 + k as u64));
                    let none = Some("null null".to_string());
                    ok &= c.ensure(ans == none.as_ref() || ans == a.answers.get(&2), &format!("references asked for right after parse {k} are those of that parse, or none: {ans:?} {}", at()));
                }
            }
            // what only an earlier version says is not said again after what only a later one says
            let only = |k: usize, t: &String| alone[k].seen.contains(t) && (0..alone.len()).all(|j| j == k || !alone[j].seen.contains(t));
            let order: Vec<usize> = got.seen.iter().filter_map(|t| (0..alone.len()).find(|&k| only(k, t))).collect();
            ok &= c.ensure(order.windows(2).all(|w| w[0] <= w[1]), &format!("diagnostics of an earlier parse come after those of a later one {}", at()));
            ok
        },
    );
    tell(c, n);
}

fn server(r: &mut Runner) {
    let sc = r.scratch();
    let mut all = vec![];
    for a in 0..A.len() {
        for b in 0..B.len() {
            for checker in [true, false] {
                all.push(Version { a, b, checker });
            }
        }
    }
    let some: Vec<Version> = [(0, 0, true), (1, 0, true), (2, 1, true), (3, 1, true), (4, 1, true), (2, 0, false), (0, 2, true), (1, 1, false)].iter().map(|&(a, b, checker)| Version { a, b, checker }).collect();
    let (v, bound) = if r.thorough() { (all.clone(), 1) } else { (some.clone(), 1) };
    let n = v.len();
    r.suite(
        "server: two parses",
        "every pair of versions of an environment (errors of the parser, of the checker, in either file, checker on or off), the second parsed while the checker and the reference search of the first may go on, under every schedule of the threads with one departure from the usual order: what is shown in the end is what a server shows that only ever saw the second",
        (n * n) as u64,
        |i, c| server_case(c, &sc, "two", i, &[v[i as usize / n], v[i as usize % n]], false, false, bound, (0, 1)),
    );
    let w = if r.thorough() { &some[..] } else { &some[..4] };
    let m = w.len();
    let parts = 16;
    let deep: Vec<(usize, usize)> = if r.thorough() { (0..m * m).map(|k| (k / m, k % m)).collect() } else { vec![(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2), (3, 0)] };
    r.suite(
        "server: two parses, deeper",
        "some of the same pairs under every schedule with two departures",
        (deep.len() * parts) as u64,
        |i, c| {
            let (a, b) = deep[i as usize / parts];
            server_case(c, &sc, "deep", i, &[w[a], w[b]], false, false, 2, (i as usize % parts, parts))
        },
    );
    if r.thorough() {
        let parts = 32;
        let deepest: Vec<(usize, usize)> = (0..16).map(|k| (k / 4, k % 4)).collect();
        r.suite(
            "server: two parses, deepest",
            "a few pairs under every schedule with three departures",
            (deepest.len() * parts) as u64,
            |i, c| {
                let (a, b) = deepest[i as usize / parts];
                server_case(c, &sc, "deepest", i, &[w[a], w[b]], false, false, 3, (i as usize % parts, parts))
            },
        );
    }
    r.suite(
        "server: requests between",
        "the same with references asked for right after each parse: those of that parse, or none yet",
        (m * m) as u64,
        |i, c| server_case(c, &sc, "ask", i, &[w[i as usize / m], w[i as usize % m]], false, true, 1, (0, 1)),
    );
    r.suite(
        "server: object tree",
        "the same for a client that is sent the object tree after each parse",
        (m * m) as u64,
        |i, c| server_case(c, &sc, "tree", i, &[w[i as usize / m], w[i as usize % m]], true, false, 1, (0, 1)),
    );
    let k = r.pick(2usize, 6);
    r.suite("server: three parses", "the same for three parses in a row", (k * k * k) as u64, |i, c| {
        let i = i as usize;
        server_case(c, &sc, "three", i as u64, &[w[i / k / k], w[i / k % k], w[i % k]], false, false, 1, (0, 1))
    });
    let bound = r.pick(1, 2);
    r.suite(
        "server: leaving",
        "shutdown and exit, or an end of input, while the background still works: the answers have come whole, nothing hangs, and the exit status is right",
        some.len() as u64 * 3,
        |i, c| {
            let b = Bench::new(&sc, "leave", i);
            let mut s = Script(vec![]);
            s.env(&b.dir, some[i as usize / 3]);
            s.start(&b.dir, json!({}));
            let how = i % 3;
            if how != 2 {
                s.request(2, "shutdown", json!(null));
            }
            if how == 0 {
                s.notify("exit");
            }
            c.input(|| String::from_utf8_lossy(&s.0).into_owned());
            let want = if how == 2 { 1 } else { 0 };
            let n = explore(
                bound,
                (0, 1),
                |p| b.go(&s, p),
                |p, r| {
                    let at = format!("under the schedule {}", schedule(p));
                    if let Some(w) = &r.wrong {
                        c.fail("stuck", format!("{w} {at}"));
                        return false;
                    }
                    c.outcome(&r.stdout.len());
                    // an end of input is no proper end: its status is left open
                    let mut ok = how != 0 || c.check_eq(&format!("exit status {at}"), &Some(want), &r.code);
                    match listen(&r.stdout) {
                        Ok(g) => {
                            ok &= how == 2 || c.check_eq(&format!("answer to shutdown {at}"), &Some(&"null null".to_string()), &g.answers.get(&2));
                        },
                        Err(e) => {
                            c.fail("stream", format!("{e} {at}"));
                            ok = false;
                        },
                    }
                    ok
                },
            );
            tell(c, n);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// the map tool

const DME: &str = "
/area/a/icon = 'icons/none.dmi'
/area/a/invisibility = 101
/turf
	icon = 'icons/solid.dmi'
	layer = 2
/turf/c0/icon_state = \"c0\"
/turf/c1/icon_state = \"c1\"
/turf/c2/icon = 'icons/gone.dmi'
/obj/h0
	icon = 'icons/solid.dmi'
	icon_state = \"h0\"
	layer = 3
/obj/far
	icon = 'icons/dirs.dmi'
	icon_state = \"one\"
	layer = 3
/obj/odd
	icon = 'icons/solid.dmi'
	icon_state = \"no such state\"
/obj/big
	icon = 'icons/big.dmi'
	icon_state = \"b0\"
	layer = 4
";
/// One map per number: a row of tiles per level.
fn map_text(k: usize) -> Option<String> {
    let tile = |t: &str| format!("{t},/area/a");
    let (tiles, levels): (&[&str], &[&str]) = match k {
        0 => (&["/turf/c0", "/obj/h0,/turf/c1"], &["ab"]),
        1 => (&["/obj/far,/turf/c0", "/obj/big,/turf/c2"], &["a", "b"]),
        2 => (&["/turf/c2", "/obj/odd,/turf/c0"], &["ab", "ba"]),
        3 => (&["/obj/far,/turf/c1"], &["a"]),
        _ => return None,
    };
    let mut s = String::new();
    for (i, t) in tiles.iter().enumerate() {
        s += &format!("\"{}\" = ({})\n", (b'a' + i as u8) as char, tile(t));
    }
    for (z, l) in levels.iter().enumerate() {
        s += &format!("\n(1,1,{}) = {{\"\n{l}\n\"}}\n", z + 1);
    }
    Some(s)
}
fn folder(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default()
}
/// The lines said, without the name of the map they are about, in no order.
fn lines(t: &str, names: &[String]) -> Vec<String> {
    let mut v: Vec<String> = t
        .lines()
        .map(|l| names.iter().find_map(|n| l.strip_prefix(&format!("{n}: "))).unwrap_or(l).trim().to_string())
        .filter(|l| !l.is_empty())
        .collect();
    v.sort();
    v.dedup();
    v
}

fn tool(r: &mut Runner) {
    let sc = r.scratch();
    let dir = sc.join("maps");
    scene::write_icons(&dir.join("icons"));
    std::fs::write(dir.join("e.dme"), DME).unwrap();
    for k in 0..4 {
        std::fs::write(dir.join(format!("m{k}.dmm")), map_text(k).unwrap()).unwrap();
    }
    std::fs::write(dir.join("m4.dmm"), "\"a\" = (/turf\n").unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("sched-dmm-tools");
    let command = |args: &[String]| {
        let mut c = Command::new(&exe);
        c.current_dir(&dir).args(args);
        c
    };
    // every selection of up to three of the five maps, in order, on two or three threads
    let bound = r.pick(1, 2);
    let parts = r.pick(1usize, 16);
    let sets: Vec<Vec<usize>> = {
        let mut v = vec![vec![1], vec![2]];
        for a in 0..5 {
            for b in 0..5 {
                v.push(vec![a, b]);
            }
        }
        for s in [[0, 1, 3], [1, 2, 4], [4, 0, 4], [3, 3, 3], [2, 3, 1]] {
            v.push(s.to_vec());
        }
        v
    };
    r.suite(
        "tool: minimap",
        "every list of one or two (some of three) of five maps, of one and two levels, with shared, missing and wrong icons or broken, rendered by two or three threads under every schedule up to the number of departures from the usual order: the pictures, the exit status and what is said are those of one thread",
        sets.len() as u64 * 2 * parts as u64,
        |i, c| {
            let part = i as usize % parts;
            let at_parts = i as usize / parts;
            let set = &sets[at_parts / 2];
            let jobs = 2 + at_parts % 2;
            if jobs == 3 && set.len() > 2 {
                return;
            }
            let bound = if jobs == 3 || set.len() > 2 { 1 } else { bound };
            // the same file twice is written twice: once is enough here
            let mut seen = vec![];
            let names: Vec<String> = set.iter().map(|k| format!("m{k}.dmm")).filter(|n| !seen.contains(n) && { seen.push(n.clone()); true }).collect();
            let out = format!("out{i}");
            let args = |jobs: &str| -> Vec<String> { ["-e", "e.dme", "--jobs", jobs, "minimap", "-o", &out].iter().map(|s| s.to_string()).chain(names.iter().cloned()).collect() };
            let trace = dir.join(format!("{out}.trace"));
            let at = dir.join(&out);
            let base = once(command(&args("1")), b"", &trace, &[]);
            let want = folder(&at);
            let (so, se) = (lines(&String::from_utf8_lossy(&base.stdout), &names), lines(&base.stderr, &names));
            c.input(|| format!("dmm-tools {}", args(&jobs.to_string()).join(" ")));
            let n = explore(
                bound,
                (part, parts),
                |p| {
                    let _ = std::fs::remove_dir_all(&at);
                    once(command(&args(&jobs.to_string())), b"", &trace, p)
                },
                |p, r| {
                    let at_ = format!("under the schedule {} (run sched-dmm-tools with MCSCHED={0})", schedule(p));
                    if let Some(w) = &r.wrong {
                        c.fail("stuck", format!("{w} {at_}"));
                        return false;
                    }
                    let got = folder(&at);
                    c.outcome(&r.stdout);
                    c.state(&(&r.stdout, &r.stderr));
                    let mut ok = c.check_eq(&format!("exit status {at_}\n{}", r.stderr), &base.code, &r.code);
                    ok &= c.check_eq(&format!("files written {at_}"), &want.keys().collect::<Vec<_>>(), &got.keys().collect::<Vec<_>>());
                    for (k, v) in &want {
                        ok &= c.ensure(got.get(k) == Some(v), &format!("{k} is the same picture {at_}"));
                    }
                    ok &= c.check_eq(&format!("lines said {at_}"), &so, &lines(&String::from_utf8_lossy(&r.stdout), &names));
                    ok &= c.check_eq(&format!("complaints {at_}"), &se, &lines(&r.stderr, &names));
                    ok
                },
            );
            let _ = std::fs::remove_dir_all(&at);
            let _ = std::fs::remove_file(&trace);
            tell(c, n);
        },
    );
    // render-many: lists of files with chunks
    let reqs: Vec<Vec<(usize, usize)>> = {
        let mut v = vec![];
        for a in 0..4 {
            for ca in 0..3 {
                v.push(vec![(a, ca)]);
                for b in 0..4 {
                    for cb in 0..2 {
                        v.push(vec![(a, ca), (b, cb)]);
                    }
                }
            }
        }
        v.push(vec![(0, 1), (1, 1), (3, 1)]);
        v
    };
    let every = r.pick(2, 1);
    r.suite(
        "tool: render-many",
        "every request for one or two files with no, one or two regions: the report is byte for byte that of one thread, and so are the pictures",
        reqs.len() as u64,
        |i, c| {
            if i % every != 0 {
                return;
            }
            let out = format!("many{i}");
            let files: Vec<Value> = reqs[i as usize]
                .iter()
                .map(|&(k, chunks)| {
                    let mut v = json!({"path": format!("m{k}.dmm")});
                    if chunks > 0 {
                        v["chunks"] = (0..chunks).map(|_| json!({"z": 1})).collect();
                    }
                    v
                })
                .collect();
            let req = json!({"output_directory": out, "files": files}).to_string();
            let script = format!("message {}\n{req}", req.len());
            let args = |jobs: &str| -> Vec<String> { ["-e", "e.dme", "--jobs", jobs, "render-many"].iter().map(|s| s.to_string()).collect() };
            let trace = dir.join(format!("{out}.trace"));
            let at = dir.join(&out);
            let base = once(command(&args("1")), script.as_bytes(), &trace, &[]);
            let want = folder(&at);
            let se = lines(&base.stderr, &[]);
            c.input(|| format!("dmm-tools -e e.dme --jobs 2 render-many <<< '{req}'"));
            c.ensure(!want.is_empty(), "pictures are written");
            let n = explore(
                1,
                (0, 1),
                |p| {
                    let _ = std::fs::remove_dir_all(&at);
                    once(command(&args("2")), script.as_bytes(), &trace, p)
                },
                |p, r| {
                    let at_ = format!("under the schedule {} (run sched-dmm-tools with MCSCHED={0})", schedule(p));
                    if let Some(w) = &r.wrong {
                        c.fail("stuck", format!("{w} {at_}"));
                        return false;
                    }
                    let got = folder(&at);
                    c.outcome(&r.stdout);
                    c.state(&(&r.stdout, &r.stderr));
                    let mut ok = c.check_eq(&format!("exit status {at_}\n{}", r.stderr), &base.code, &r.code);
                    ok &= c.ensure(got == want, &format!("the files are the same {at_}"));
                    ok &= c.check_eq(&format!("report {at_}"), &String::from_utf8_lossy(&base.stdout), &String::from_utf8_lossy(&r.stdout));
                    ok &= c.check_eq(&format!("complaints {at_}"), &se, &lines(&r.stderr, &[]));
                    ok
                },
            );
            let _ = std::fs::remove_dir_all(&at);
            let _ = std::fs::remove_file(&trace);
            tell(c, n);
        },
    );
}

pub fn check(r: &mut Runner) {
    r.assume("Threads are sequentially consistent and switch at operations on locks, channels, atomics, streams and files, and where they start and end.");
    server(r);
    tool(r);
}
