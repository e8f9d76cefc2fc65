//! P41: while debugging, the editor is shown what the game reported.
use crate::debug::*;
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};

const STDDEF: &str = "// the game's own\nicon\n\tNew(icon)\n\t\treturn\n\tproc/Blend(i)\n\t\treturn 1\n";

/// A game that gives one answer to the request of interest, and nothing in particular to the others.
fn aux_answering(log: Arc<Mutex<Vec<Req>>>, stddef: Option<&'static str>, answer: Resp) -> AuxPlay {
    Arc::new(Mutex::new(move |r: &Req| {
        log.lock().unwrap().push(r.clone());
        match r {
            Req::StdDef => vec![Resp::StdDef(stddef.map(str::to_string))],
            Req::Configured => vec![Resp::Ack],
            Req::Disconnect | Req::CatchRuntimes { .. } => vec![],
            _ => vec![answer.clone()],
        }
    }))
}
fn reference(v: &Value) -> Option<i64> {
    v["variablesReference"].as_i64()
}

// ---------------------------------------------------------------------------------------------
// stack frames

struct Place {
    path: &'static str,
    over: u32,
    offset: u32,
    /// Where it is defined: a file, or the game's own stddef.dm.
    at: Option<(Option<usize>, i64)>,
}
const PLACES: [Place; 15] = [
    Place { path: "/g", over: 0, offset: 0, at: Some((Some(0), 2)) },
    Place { path: "/proc/g", over: 0, offset: 5, at: Some((Some(0), 2)) },
    Place { path: "/ta/p", over: 0, offset: 0, at: Some((Some(0), 9)) },
    Place { path: "/ta/p", over: 1, offset: 4, at: Some((Some(0), 11)) },
    Place { path: "/ta/verb/v", over: 0, offset: 0, at: Some((Some(0), 14)) },
    Place { path: "/icon/New", over: 0, offset: 0, at: Some((None, 3)) },
    Place { path: "/icon/proc/Blend", over: 0, offset: 3, at: Some((None, 5)) },
    Place { path: "/icon/New", over: 1, offset: 6, at: Some((Some(0), 17)) },
    Place { path: "/mob/Login", over: 0, offset: 2, at: Some((Some(1), 4)) },
    Place { path: "/unknown/x", over: 0, offset: 1, at: None },
    Place { path: "/ta/p", over: 2, offset: 0, at: None },
    Place { path: "/g", over: 0, offset: 1, at: Some((Some(0), 2)) },
    Place { path: "/g", over: 0, offset: 6, at: Some((Some(0), 2)) },
    Place { path: "/g", over: 0, offset: 11, at: Some((Some(0), 2)) },
    Place { path: "/icon/New", over: 1, offset: 1, at: Some((Some(0), 17)) },
];
/// Name, id, file, path, source reference, line, column, instruction.
type FrameView = (String, i64, Option<String>, Option<String>, Option<i64>, i64, i64, Option<String>);
fn frame_view(f: &Value) -> FrameView {
    let s = |v: &Value| v.as_str().map(str::to_string);
    (
        s(&f["name"]).unwrap_or_default(),
        f["id"].as_i64().unwrap_or(-1),
        s(&f["source"]["name"]),
        s(&f["source"]["path"]),
        f["source"]["sourceReference"].as_i64(),
        f["line"].as_i64().unwrap_or(-1),
        f["column"].as_i64().unwrap_or(-1),
        s(&f["instructionPointerReference"]),
    )
}
fn want_frame(h: &Host, first: bool, id: i64, p: &Place, line: Option<i64>, stddef: bool) -> FrameView {
    let mut v: FrameView = (p.path.into(), id, None, None, None, 0, first as i64, Some(format!("{}#{}@{}", p.path, p.over, p.offset)));
    match p.at {
        Some((Some(file), at)) => {
            v.2 = Some(FILES[file].rsplit('/').next().unwrap().to_string());
            v.3 = Some(h.path(file));
            v.5 = at;
        },
        Some((None, at)) if stddef => {
            v.2 = Some("stddef.dm".into());
            v.4 = Some(1);
            v.5 = at;
        },
        _ => {},
    }
    if let Some(l) = line {
        v.5 = l;
    }
    v
}

fn aux_frames(h: &mut Host, c: &mut Case, stddef: bool, frames: &[(usize, Option<u32>)], window: (Option<i64>, Option<i64>)) -> Res<()> {
    let log: Arc<Mutex<Vec<Req>>> = Arc::default();
    let sent = frames.iter().enumerate().map(|(i, &(p, line))| {
        let p = &PLACES[p];
        Frame { id: 40 + 3 * i as u32, instruction: Instr { proc: ProcRef { path: p.path.into(), over: p.over }, offset: p.offset }, line }
    });
    let answer = Resp::StackFrames { frames: sent.collect(), total_count: 17 };
    let (mut dap, stream) = h.attach_aux(aux_answering(log.clone(), stddef.then_some(STDDEF), answer))?;
    dap.ok("configurationDone", Value::Null)?;
    c.trans(1);
    let mut arguments = json!({"threadId": 3});
    if let Some(n) = window.0 {
        arguments["startFrame"] = json!(n);
    }
    if let Some(n) = window.1 {
        arguments["levels"] = json!(n);
    }
    let v = dap.ok("stackTrace", arguments)?;
    c.validated(1);
    let exp: Vec<FrameView> = frames.iter().enumerate().map(|(i, &(p, line))| want_frame(h, i == 0, 40 + 3 * i as i64, &PLACES[p], line.map(|l| l as i64), stddef)).collect();
    let act: Vec<FrameView> = v["stackFrames"].as_array().into_iter().flatten().map(frame_view).collect();
    c.check_eq("the frames", &exp, &act);
    c.check_eq("how many there are", &Some(17), &v["totalFrames"].as_i64());
    let asked = Req::StackFrames { stack_id: 3, start_frame: window.0.map(|n| n as u32), count: window.1.map(|n| n as u32) };
    c.check_eq("what the game was asked", &vec![Req::StdDef, Req::Configured, asked], &*log.lock().unwrap());
    if frames.iter().any(|f| matches!(PLACES[f.0].at, Some((None, _)))) && stddef {
        let v = dap.ok("source", json!({"sourceReference": 1, "source": {"name": "stddef.dm", "sourceReference": 1}}))?;
        c.check_eq("stddef.dm", &Some(STDDEF), &v["content"].as_str());
    }
    dap.quiet()?;
    c.outcome(&act.iter().map(|a| (a.2.clone(), a.5)).collect::<Vec<_>>());
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// values of extools

/// What a game with extools says of a value, and what is shown of it: its text and whether it can be opened.
fn ext_value(k: usize) -> (Value, &'static str, i64) {
    match k {
        0 => (json!({"literal": {"ref": 0}}), "null", 0),
        1 => (json!({"literal": {"number": 1.5}, "has_vars": false, "is_list": false}), "1.5", 0),
        2 => (json!({"literal": {"string": "a\"b"}}), "\"a\\\"b\"", 0),
        3 => (json!({"literal": {"ref": 0x0f_000012}, "is_list": true}), "[0x0f000012]", 0x0f_000012),
        4 => (json!({"literal": {"ref": 0x21_000003}, "has_vars": true}), "[0x21000003]", 0x21_000003),
        5 => (json!({"literal": {"typepath": "/ta/tb"}}), "/ta/tb", 0),
        6 => (json!({"literal": {"resource": "a.dmi"}}), "'a.dmi'", 0),
        7 => (json!({"literal": {"proc": "/ta/p"}}), "/ta/proc/p", 0),
        8 => (json!({"literal": {"ref": 0x0e_000000}, "has_vars": true}), "world", 0x0e_000000),
        9 => (json!({"literal": {"number": 3}}), "3", 0),
        10 => (json!({"literal": {"proc": "/g"}}), "/proc/g", 0),
        // a reference that cannot be opened
        _ => (json!({"literal": {"ref": 0x02_000001}}), "[0x02000001]", 0),
    }
}
const VALUES: usize = 12;
type Shown = (String, String, Option<i64>);
fn shown(v: &Value) -> Vec<Shown> {
    let s = |v: &Value| v.as_str().unwrap_or("?").to_string();
    v["variables"].as_array().into_iter().flatten().map(|v| (s(&v["name"]), s(&v["value"]), reference(v))).collect()
}
fn show_value(name: &str, k: usize) -> Shown {
    let (_, text, open) = ext_value(k);
    (name.to_string(), text.to_string(), Some(open))
}
/// Names as they are shown: the second of a name is its first repetition.
fn numbered(taken: &[&str], names: &[&str]) -> Vec<String> {
    let mut out = vec![];
    for (i, n) in names.iter().enumerate() {
        let before = taken.iter().chain(&names[..i]).filter(|m| *m == n).count();
        out.push(if before == 0 { n.to_string() } else { format!("{n} #{before}") });
    }
    out
}

/// A game with extools, stopped with these stacks, the running one first.
fn ext_stopped(lists: Value, fields: Value) -> ExtPlay {
    Arc::new(Mutex::new(move |kind: &str, c: &Value| match kind {
        "proc disassembly" => {
            let (path, over) = (c["proc"].as_str().unwrap_or(""), c["override_id"].as_u64().unwrap_or(99) as u32);
            vec![("proc disassembly", json!({"proc": path, "override_id": over, "instructions": disassembly(path, over)}))]
        },
        "get list contents" => vec![("get list contents", lists[c.to_string()].clone())],
        "get all fields" => vec![("get all fields", fields[c.to_string()].clone())],
        "get source" => vec![("get source", json!(STDDEF))],
        _ => vec![],
    }))
}
fn ext_frame(p: &Place, src: usize, usr: usize, dot: usize, args: &[(&str, usize)], locals: &[(&str, usize)], unnamed: bool) -> Value {
    let names = |l: &[(&str, usize)]| json!(if unnamed { vec![] } else { l.iter().map(|x| x.0).collect::<Vec<_>>() });
    let values = |l: &[(&str, usize)]| json!(l.iter().map(|x| ext_value(x.1).0).collect::<Vec<_>>());
    json!({"proc": p.path, "override_id": p.over, "offset": p.offset, "usr": ext_value(usr).0, "src": ext_value(src).0, "dot": ext_value(dot).0,
        "locals": values(locals), "args": values(args), "local_names": names(locals), "arg_names": names(args)})
}
/// The line of an instruction, where the game's disassembly has it.
fn ext_line(p: &Place) -> Option<i64> {
    let d = def_of(p.path, p.over)?;
    d.code.iter().rev().find(|c| c.1 <= p.offset && p.offset <= d.code.last().unwrap().1 + 2).map(|c| c.0)
}

fn ext_stacks(h: &mut Host, c: &mut Case, stacks: &[Vec<usize>]) -> Res<()> {
    let (mut dap, mut stream) = h.attach_ext(ext_stopped(json!({}), json!({})))?;
    dap.ok("configurationDone", Value::Null)?;
    // nothing is known of any stack yet
    for (command, arguments) in [("scopes", json!({"frameId": 0})), ("variables", json!({"variablesReference": 1})), ("evaluate", json!({"expression": "#dis", "frameId": 0})), ("stackTrace", json!({"threadId": 0}))] {
        let v = dap.call(command, arguments)?;
        c.ensure(v["success"] == json!(false), "nothing can be shown before the first stop");
    }
    // pausing needs a thread to be paused
    let v = dap.ok("threads", Value::Null)?;
    c.check_eq("the threads before the first stop", &vec![(0, "Main".to_string())], &v["threads"].as_array().into_iter().flatten().map(|t| (t["id"].as_i64().unwrap_or(-1), t["name"].as_str().unwrap_or("?").to_string())).collect::<Vec<_>>());
    let dump = |s: &Vec<usize>, t: usize| -> Value {
        json!(s.iter().enumerate().map(|(i, &p)| ext_frame(&PLACES[p], 0, 0, 0, &[("a", (t + 2 * i) % VALUES)], &[("l", (t + 3 * i + 1) % VALUES)], false)).collect::<Vec<_>>())
    };
    let suspended: Vec<Value> = stacks[1..].iter().enumerate().map(|(t, s)| dump(s, t + 1)).collect();
    use std::io::Write;
    let mut bytes = ext_bytes("call stack", &json!({"current": dump(&stacks[0], 0), "suspended": suspended}));
    bytes.extend(ext_bytes("breakpoint hit", &json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": "step"})));
    let seen = dap.events.len();
    stream.write_all(&bytes).map_err(|e| e.to_string())?;
    loop {
        let n = dap.events.len();
        if n > seen && dap.events[n - 1]["event"] == "stopped" && dap.events[n - 1]["body"]["threadId"] == json!(0) {
            break;
        }
        dap.read()?;
    }
    c.trans(1);
    let mut threads: Vec<(i64, String)> = dap.ok("threads", Value::Null)?["threads"].as_array().into_iter().flatten().map(|t| (t["id"].as_i64().unwrap_or(-1), t["name"].as_str().unwrap_or("?").to_string())).collect();
    threads.sort();
    let exp: Vec<(i64, String)> = stacks.iter().enumerate().map(|(t, s)| (t as i64, PLACES[*s.last().unwrap()].path.to_string())).collect();
    c.check_eq("the threads", &exp, &threads);
    let mut ids = std::collections::BTreeSet::new();
    for (t, s) in stacks.iter().enumerate() {
        let v = dap.ok("stackTrace", json!({"threadId": t}))?;
        c.validated(1);
        let act: Vec<FrameView> = v["stackFrames"].as_array().into_iter().flatten().map(frame_view).collect();
        let exp: Vec<FrameView> = s.iter().enumerate().map(|(i, &p)| want_frame(h, i == 0, act.get(i).map_or(-1, |a| a.1), &PLACES[p], ext_line(&PLACES[p]), true)).collect();
        c.check_eq("the frames", &exp, &act);
        for (i, (&p, a)) in s.iter().zip(&act).enumerate() {
            c.ensure(ids.insert(a.1), "each frame has an id of its own");
            let scopes = dap.ok("scopes", json!({"frameId": a.1}))?;
            for (name, exp) in [
                ("Locals", vec![show_value(".", 0), show_value("l", (t + 3 * i + 1) % VALUES)]),
                ("Arguments", vec![show_value("src", 0), show_value("usr", 0), show_value("a", (t + 2 * i) % VALUES)]),
            ] {
                let at = scopes["scopes"].as_array().into_iter().flatten().find(|s| s["name"] == name).and_then(reference);
                let v = dap.ok("variables", json!({"variablesReference": at}))?;
                c.check_eq(&format!("{name} of frame {i} of thread {t}"), &exp, &shown(&v));
            }
            // its instructions, both ways of asking
            let instructions = disassembly(PLACES[p].path, PLACES[p].over);
            let exp: Vec<String> = instructions.as_array().unwrap().iter().map(|x| format!("{}#{}@{}", PLACES[p].path, PLACES[p].over, x["offset"])).collect();
            let v = dap.ok("disassemble", json!({"memoryReference": a.7, "instructionCount": 9}))?;
            let act: Vec<String> = v["instructions"].as_array().into_iter().flatten().map(|x| x["address"].as_str().unwrap_or("?").to_string()).collect();
            c.check_eq("the instructions of its proc", &exp, &act);
            let v = dap.ok("evaluate", json!({"expression": " #dis", "frameId": a.1}))?;
            c.check_eq("the lines of its disassembly", &exp.len(), &v["result"].as_str().unwrap_or("").lines().count());
        }
        c.outcome(&act.iter().map(|a| (a.2.clone(), a.5)).collect::<Vec<_>>());
    }
    let v = dap.call("stackTrace", json!({"threadId": stacks.len()}))?;
    c.ensure(v["success"] == json!(false), "a thread that does not exist has no frames");
    dap.quiet()?;
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

/// One frame whose variables are asked for.
fn ext_variables(h: &mut Host, c: &mut Case, args: &[(&'static str, usize)], locals: &[(&'static str, usize)], unnamed: bool) -> Res<()> {
    use std::io::Write;
    let (mut dap, mut stream) = h.attach_ext(ext_stopped(json!({}), json!({})))?;
    let frame = ext_frame(&PLACES[0], 4, 8, 9, args, locals, unnamed);
    let mut bytes = ext_bytes("call stack", &json!({"current": [frame], "suspended": []}));
    bytes.extend(ext_bytes("breakpoint hit", &json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": "pause"})));
    stream.write_all(&bytes).map_err(|e| e.to_string())?;
    dap.wait_event("stopped", 0)?;
    c.trans(1);
    let v = dap.ok("stackTrace", json!({"threadId": 0}))?;
    let scopes = dap.ok("scopes", json!({"frameId": v["stackFrames"][0]["id"]}))?;
    let mut exp = vec![show_value("src", 4), show_value("usr", 8)];
    let names = numbered(&["src", "usr"], &args.iter().map(|a| a.0).collect::<Vec<_>>());
    for (i, a) in args.iter().enumerate() {
        exp.push(show_value(&if unnamed { format!("args[{}]", i + 1) } else { names[i].clone() }, a.1));
    }
    let mut exp2 = vec![show_value(".", 9)];
    let names = numbered(&[], &locals.iter().map(|a| a.0).collect::<Vec<_>>());
    for (i, a) in locals.iter().enumerate() {
        exp2.push(show_value(&if unnamed { i.to_string() } else { names[i].clone() }, a.1));
    }
    for (name, exp) in [("Locals", exp2), ("Arguments", exp)] {
        let at = scopes["scopes"].as_array().into_iter().flatten().find(|s| s["name"] == name).and_then(reference);
        let v = dap.ok("variables", json!({"variablesReference": at}))?;
        c.validated(1);
        c.check_eq(name, &exp, &shown(&v));
        c.outcome(&shown(&v));
    }
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

/// The contents of a list or of an object.
fn ext_contents(h: &mut Host, c: &mut Case, shape: usize, values: &[usize]) -> Res<()> {
    // any list and any object, the first and the last of a kind included
    let pick = values.iter().sum::<usize>() % 4;
    let list: i64 = [0x0f_000012, 0x0f_000000, 0x0f_ffffff, 0x0f_000100][pick];
    let object: i64 = [0x21_000003, 0x01_000000, 0x10_ffffff, 0x02_000001][pick];
    let raw: Vec<Value> = values.iter().map(|k| ext_value(*k).0).collect();
    let (at, content, exp): (i64, Value, Vec<Shown>) = match shape {
        0 => (list, json!({"linear": raw}), values.iter().enumerate().map(|(i, k)| show_value(&format!("[{}]", i + 1), *k)).collect()),
        1 => {
            let pairs: Vec<Value> = raw.iter().map(|v| json!([ext_value(2).0, v])).collect();
            let exp = values.iter().enumerate().flat_map(|(i, k)| [show_value(&format!("keys[{}]", i + 1), 2), show_value(&format!("vals[{}]", i + 1), *k)]);
            (list, json!({"associative": pairs}), exp.collect())
        },
        _ => {
            let names = ["name", "b", "zz", "a"];
            let content: serde_json::Map<String, Value> = raw.iter().enumerate().map(|(i, v)| (names[i].to_string(), v.clone())).collect();
            let mut exp: Vec<Shown> = values.iter().enumerate().map(|(i, k)| show_value(names[i], *k)).collect();
            exp.sort();
            (object, json!(content), exp)
        },
    };
    let table = json!({at.to_string(): content});
    let (mut dap, stream) = h.attach_ext(if at == list { ext_stopped(table, json!({})) } else { ext_stopped(json!({}), table) })?;
    c.trans(1);
    let v = dap.ok("variables", json!({"variablesReference": at}))?;
    c.validated(1);
    c.check_eq("the contents", &exp, &shown(&v));
    c.outcome(&shown(&v));
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn check(r: &mut Runner) {
    r.assume("the game is played by the harness over the engine's own protocol");
    r.assume("with extools, the instruction of a frame is one that the disassembly lists");
    let scratch = r.scratch().to_path_buf();

    // frames: up to two, each at any place, with and without a line of its own
    let one = (11 * 2) as u64;
    let windows = [(None, None), (Some(0), Some(1)), (Some(2), None), (None, Some(0))];
    let n = (1 + one + one * one) * 2;
    let s = scratch.clone();
    r.suite("auxtools frames", "up to two frames × definition × line given or not × with or without stddef.dm", n, |i, c| {
        let mut d = Digits(i);
        let stddef = d.flag();
        let window = windows[(i as usize / 2) % 4];
        let frames: Vec<(usize, Option<u32>)> = word(one as usize, d.0).into_iter().map(|k| (k / 2, (k % 2 == 1).then_some(77))).collect();
        c.input(|| format!("stddef {stddef} {window:?} {frames:?}"));
        if let Err(e) = with_host(&s, true, |h| aux_frames(h, c, stddef, &frames, window)) {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("auxtools scopes", "which of the three scopes there are × which frame", 8 * 3, |i, c| {
        let mut d = Digits(i);
        let (a, l, g) = (d.flag().then_some(7), d.flag().then_some(-3), d.flag().then_some(0x7fff_ffff));
        let frame = [0u32, 5, 40_000][d.take(3)];
        c.input(|| format!("{a:?} {l:?} {g:?} frame {frame}"));
        let res = with_host(&s, true, |h| {
            let log: Arc<Mutex<Vec<Req>>> = Arc::default();
            let (mut dap, stream) = h.attach_aux(aux_answering(log.clone(), None, Resp::Scopes { arguments: a, locals: l, globals: g }))?;
            c.trans(1);
            let v = dap.ok("scopes", json!({"frameId": frame}))?;
            c.validated(1);
            let mut act: Vec<(String, i64)> = v["scopes"].as_array().into_iter().flatten().map(|s| (s["name"].as_str().unwrap_or("?").to_string(), reference(s).unwrap_or(0))).collect();
            act.sort();
            let mut exp = vec![];
            for (name, v) in [("Arguments", a), ("Globals", g), ("Locals", l)] {
                exp.extend(v.map(|v: i32| (name.to_string(), v as i64)));
            }
            c.check_eq("the scopes", &exp, &act);
            c.check_eq("what the game was asked", &vec![Req::Scopes { frame_id: frame }], &*log.lock().unwrap());
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let letters = ["x", "y", "src", "usr"];
    let len = r.pick(4, 6);
    let s = scratch.clone();
    r.suite("auxtools variables", &format!("up to {len} variables named by four names"), count_upto(4, len), |i, c| {
        let names: Vec<&str> = word(4, i).into_iter().map(|k| letters[k]).collect();
        c.input(|| format!("{names:?}"));
        let res = with_host(&s, true, |h| {
            let log: Arc<Mutex<Vec<Req>>> = Arc::default();
            let vars = names.iter().enumerate().map(|(i, n)| Var { name: n.to_string(), value: format!("v{i}"), variables: (i % 2 == 1).then_some(100 + i as i32) });
            let (mut dap, stream) = h.attach_aux(aux_answering(log.clone(), None, Resp::Variables { vars: vars.collect() }))?;
            c.trans(1);
            let v = dap.ok("variables", json!({"variablesReference": 12}))?;
            c.validated(1);
            let exp: Vec<Shown> = numbered(&[], &names).into_iter().enumerate().map(|(i, n)| (n, format!("v{i}"), Some(if i % 2 == 1 { 100 + i as i64 } else { 0 }))).collect();
            c.check_eq("the variables", &exp, &shown(&v));
            c.check_eq("what the game was asked", &vec![Req::Variables { vars: 12 }], &*log.lock().unwrap());
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let expressions = ["a", "  a + 1", "\t#help", "é\"\\", ""];
    let s = scratch.clone();
    r.suite("auxtools expressions", "expression × frame × context × whether the value can be opened", 5 * 2 * 2 * 2, |i, c| {
        let mut d = Digits(i);
        let expr = expressions[d.take(5)];
        let (frame, context, open) = (d.flag().then_some(4u32), d.flag().then_some("watch"), d.flag());
        c.input(|| format!("{expr:?} {frame:?} {context:?} {open}"));
        let res = with_host(&s, true, |h| {
            let log: Arc<Mutex<Vec<Req>>> = Arc::default();
            let (mut dap, stream) = h.attach_aux(aux_answering(log.clone(), None, Resp::Eval(Evaluated { value: "five\nsix".into(), variables: open.then_some(9) })))?;
            c.trans(1);
            let mut arguments = json!({"expression": expr});
            if let Some(f) = frame {
                arguments["frameId"] = json!(f);
            }
            if let Some(x) = context {
                arguments["context"] = json!(x);
            }
            let v = dap.ok("evaluate", arguments)?;
            c.validated(1);
            c.check_eq("the value", &(Some("five\nsix"), Some(if open { 9 } else { 0 })), &(v["result"].as_str(), reference(&v)));
            let asked = Req::Eval { frame_id: frame, command: expr.trim_start().to_string(), context: context.map(str::to_string) };
            c.check_eq("what the game was asked", &vec![asked], &*log.lock().unwrap());
            c.outcome(&(frame, open));
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("auxtools threads", "up to three stacks × source requests with and without stddef.dm", 8, |i, c| {
        let (n, stddef) = (i as usize / 2, i % 2 == 1);
        c.input(|| format!("{n} stacks, stddef {stddef}"));
        let res = with_host(&s, true, |h| {
            let stacks: Vec<Stack> = (0..n).map(|k| Stack { id: [0, 3, 65_536][k], name: format!("stack {k}") }).collect();
            let (mut dap, stream) = h.attach_aux(aux_answering(Arc::default(), stddef.then_some(STDDEF), Resp::Stacks { stacks: stacks.clone() }))?;
            c.trans(1);
            let v = dap.ok("threads", Value::Null)?;
            c.validated(1);
            let act: Vec<(i64, String)> = v["threads"].as_array().into_iter().flatten().map(|t| (t["id"].as_i64().unwrap_or(-1), t["name"].as_str().unwrap_or("?").to_string())).collect();
            let exp: Vec<(i64, String)> = if n == 0 { vec![(0, "Main".into())] } else { stacks.iter().map(|s| (s.id as i64, s.name.clone())).collect() };
            c.check_eq("the threads", &exp, &act);
            // stddef.dm is asked for once configuration is done, and nothing else is served
            c.ensure(dap.call("source", json!({"sourceReference": 1}))?["success"] == json!(false), "no source before it is known");
            dap.ok("configurationDone", Value::Null)?;
            let v = dap.call("source", json!({"sourceReference": 1}))?;
            c.check_eq("stddef.dm", &(stddef, stddef.then_some(STDDEF)), &(v["success"] == json!(true), v["body"]["content"].as_str()));
            for (a, b) in [(2, None), (0, None), (1, Some(2))] {
                let v = dap.call("source", json!({"sourceReference": a, "source": b.map(|b| json!({"sourceReference": b}))}))?;
                c.ensure(v["success"] == json!(false), "no other source is served");
            }
            c.ensure(dap.call("disassemble", json!({"memoryReference": "/g#0@0", "instructionCount": 1}))?["success"] == json!(false), "auxtools cannot disassemble");
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    // the running stack and up to two sleeping ones, of up to two frames each
    let mut stacks: Vec<Vec<usize>> = vec![];
    for a in 0..PLACES.len() {
        stacks.push(vec![a]);
    }
    for a in [0, 3, 5, 8, 9] {
        for b in [1, 7, 6] {
            stacks.push(vec![a, b]);
        }
    }
    let sleeping = [vec![], vec![vec![2]], vec![vec![8, 3], vec![0]], vec![vec![5], vec![1, 7, 3], vec![9, 4]]];
    let s = scratch.clone();
    r.suite("extools stacks", "the running stack × the sleeping ones: threads, frames, their variables and instructions", (stacks.len() * sleeping.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let mut all = vec![d.pick(&stacks).clone()];
        all.extend(d.pick(&sleeping).clone());
        c.input(|| format!("{all:?}"));
        if let Err(e) = with_host(&s, false, |h| ext_stacks(h, c, &all)) {
            c.fail("answer", e);
        }
    });

    let len = r.pick(3, 4);
    let one = count_upto(4, len);
    let s = scratch.clone();
    r.suite("extools variables", &format!("up to {len} arguments × up to {len} locals named by four names, named or not"), one * one * 2, |i, c| {
        let mut d = Digits(i);
        let unnamed = d.flag();
        let mut list = |shift: usize| -> Vec<(&'static str, usize)> { word(4, d.take(one as usize) as u64).into_iter().enumerate().map(|(j, k)| (letters[k], (j + shift + i as usize) % VALUES)).collect() };
        let (args, locals) = (list(0), list(5));
        c.input(|| format!("{args:?} {locals:?} unnamed {unnamed}"));
        if let Err(e) = with_host(&s, false, |h| ext_variables(h, c, &args, &locals, unnamed)) {
            c.fail("answer", e);
        }
    });

    let len = r.pick(2, 3);
    let one = count_upto(VALUES, len);
    let s = scratch.clone();
    r.suite("extools contents", &format!("a list, an associative list or an object × up to {len} of {VALUES} values"), one * 3, |i, c| {
        let mut d = Digits(i);
        let shape = d.take(3);
        let values = word(VALUES, d.0);
        c.input(|| format!("shape {shape} {values:?}"));
        if let Err(e) = with_host(&s, false, |h| ext_contents(h, c, shape, &values)) {
            c.fail("answer", e);
        }
    });
}
