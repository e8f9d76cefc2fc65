//! P42: running a debugged game: each request reaches it once and is answered once, each stop is announced once.
use crate::debug::*;
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};
use std::io::Write;
use std::sync::{Arc, Mutex};

type Event = (String, Value);
fn event(name: &str, body: Value) -> Event {
    (name.to_string(), body)
}
/// An event without what it leaves unsaid.
fn plain_event(e: &Event) -> Event {
    let body = match &e.1 {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect()),
        v => v.clone(),
    };
    (e.0.clone(), body)
}
fn events(dap: &Dap, seen: usize) -> Vec<Event> {
    dap.since(seen).iter().map(plain_event).collect()
}

// ---------------------------------------------------------------------------------------------
// auxtools

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Continue,
    Next,
    StepIn,
    StepOut,
    Pause,
    Catch(u8),
    Threads,
    What,
    Unknown,
    /// Something the game says of its own accord.
    Says(u8),
}
const OPS: [Op; 15] = [
    Op::Continue,
    Op::Next,
    Op::StepIn,
    Op::StepOut,
    Op::Pause,
    Op::Catch(0),
    Op::Catch(1),
    Op::Catch(2),
    Op::Threads,
    Op::What,
    Op::Unknown,
    Op::Says(0),
    Op::Says(1),
    Op::Says(3),
    Op::Says(4),
];
fn says(k: u8) -> (Resp, Option<Event>) {
    let stop = |reason: &str, description: Option<&str>| {
        let mut body = json!({"reason": reason, "threadId": 0, "allThreadsStopped": true});
        if let Some(d) = description {
            body["description"] = json!(d);
        }
        Some(event("stopped", body))
    };
    match k {
        0 => (Resp::BreakpointHit { reason: Reason::Breakpoint }, stop("breakpoint", None)),
        1 => (Resp::BreakpointHit { reason: Reason::Runtime("bad index".into()) }, stop("exception", Some("bad index"))),
        2 => (Resp::BreakpointHit { reason: Reason::Step }, stop("step", None)),
        3 => (Resp::BreakpointHit { reason: Reason::Runtime("é: null.x".into()) }, stop("exception", Some("é: null.x"))),
        4 => (Resp::Notification { message: "hello".into() }, None),
        _ => (Resp::BreakpointHit { reason: Reason::Pause }, stop("pause", None)),
    }
}
const STACKS: [(u32, &str); 3] = [(0, "main"), (2, "/ta/p"), (5, "/g")];

/// Two sleeping stacks beside the running one.
#[derive(Default)]
struct Game {
    log: Vec<Req>,
    /// What it says before and after its next answers.
    before: Vec<Resp>,
    after: Vec<Resp>,
    /// The answer it mistakes for the right one.
    wrong: Option<Resp>,
    stacks: usize,
}
fn game(g: Arc<Mutex<Game>>) -> AuxPlay {
    Arc::new(Mutex::new(move |r: &Req| {
        let mut g = g.lock().unwrap();
        g.log.push(r.clone());
        let mut out = std::mem::take(&mut g.before);
        match r {
            Req::Disconnect | Req::CatchRuntimes { .. } => {},
            _ => out.push(match g.wrong.take() {
                Some(w) => w,
                None => right(r, g.stacks),
            }),
        }
        out.append(&mut g.after);
        out
    }))
}
fn right(r: &Req, stacks: usize) -> Resp {
    match r {
        Req::StdDef => Resp::StdDef(None),
        Req::Eval { .. } => Resp::Eval(Evaluated { value: "1".into(), variables: None }),
        Req::BreakpointSet { .. } => Resp::BreakpointSet { result: SetResult::Success { line: None } },
        Req::BreakpointUnset { .. } => Resp::BreakpointUnset { success: true },
        Req::Offset { .. } => Resp::Offset { offset: Some(0) },
        Req::Stacks => Resp::Stacks { stacks: STACKS[..stacks].iter().map(|s| Stack { id: s.0, name: s.1.into() }).collect() },
        Req::StackFrames { .. } => Resp::StackFrames { frames: vec![], total_count: 0 },
        Req::Scopes { .. } => Resp::Scopes { arguments: None, locals: None, globals: None },
        Req::Variables { .. } => Resp::Variables { vars: vec![] },
        _ => Resp::Ack,
    }
}

/// What a request asks of the game and what the editor is told besides its answer.
fn meaning(op: Op, stacks: usize) -> (&'static str, Value, Vec<Req>, Vec<Event>) {
    let go = |kind: Kind| {
        let mut ev: Vec<Event> = STACKS[..stacks].iter().filter(|s| s.0 != 0).map(|s| event("thread", json!({"reason": "exited", "threadId": s.0}))).collect();
        ev.push(event("continued", json!({"threadId": 0, "allThreadsContinued": true})));
        (vec![Req::Stacks, Req::Continue { kind }], ev)
    };
    match op {
        Op::Continue => {
            let (log, ev) = go(Kind::Continue);
            ("continue", json!({"threadId": 2}), log, ev)
        },
        Op::Next => {
            let (log, ev) = go(Kind::StepOver { stack_id: 2 });
            ("next", json!({"threadId": 2}), log, ev)
        },
        Op::StepIn => {
            let (log, ev) = go(Kind::StepInto { stack_id: 0 });
            ("stepIn", json!({"threadId": 0}), log, ev)
        },
        Op::StepOut => {
            let (log, ev) = go(Kind::StepOut { stack_id: 5 });
            ("stepOut", json!({"threadId": 5}), log, ev)
        },
        Op::Pause => ("pause", json!({"threadId": 0}), vec![Req::Pause], vec![]),
        Op::Catch(k) => {
            let filters = [vec![], vec!["runtimes"], vec!["other", "runtimes"]][k as usize].clone();
            let should_catch = !filters.is_empty();
            ("setExceptionBreakpoints", json!({"filters": filters}), vec![Req::CatchRuntimes { should_catch }], vec![])
        },
        Op::Threads => ("threads", Value::Null, vec![Req::Stacks], vec![]),
        Op::What => ("exceptionInfo", json!({"threadId": 0}), vec![], vec![]),
        Op::Unknown => ("restartFrame", json!({"frameId": 0}), vec![], vec![]),
        Op::Says(_) => unreachable!(),
    }
}

fn history(h: &mut Host, c: &mut Case, ops: &[Op], stacks: usize) -> Res<()> {
    let g = Arc::new(Mutex::new(Game { stacks, ..Default::default() }));
    let (mut dap, mut stream) = h.attach_aux(game(g.clone()))?;
    let mut last = String::new();
    for &op in ops {
        let seen = dap.events.len();
        g.lock().unwrap().log.clear();
        c.trans(1);
        if let Op::Says(k) = op {
            let (said, ev) = says(k);
            if let Resp::BreakpointHit { reason: Reason::Runtime(e) } = &said {
                last = e.clone();
            }
            stream.write_all(&frame_bytes(&said)).map_err(|e| e.to_string())?;
            if ev.is_some() {
                dap.read()?;
            }
            c.check_eq("what is announced", &ev.into_iter().collect::<Vec<_>>(), &events(&dap, seen));
            continue;
        }
        let (command, arguments, log, ev) = meaning(op, stacks);
        let v = dap.call(command, arguments)?;
        c.validated(1);
        c.check_eq(&format!("{command} succeeds"), &(op != Op::Unknown), &(v["success"] == json!(true)));
        if op == Op::What {
            c.check_eq("the last runtime", &Some(last.as_str()), &v["body"]["exceptionId"].as_str());
        }
        c.check_eq("what is announced", &ev, &events(&dap, seen));
        if let Op::Catch(_) = op {
            // nothing answers this one: another request shows that it was taken
            dap.ok("pause", json!({"threadId": 0}))?;
            let mut log = log;
            log.push(Req::Pause);
            c.check_eq("what the game was asked", &log, &g.lock().unwrap().log);
        } else {
            c.check_eq("what the game was asked", &log, &g.lock().unwrap().log);
        }
    }
    let seen = dap.events.len();
    dap.quiet()?;
    c.check_eq("nothing more is announced", &vec![], &events(&dap, seen));
    c.state(&(stacks, &last));
    c.outcome(&last);
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

/// Requests that make the game answer, for the suites about its answers.
fn requests(dir: &Host) -> Vec<(&'static str, Value, usize)> {
    let path = dir.path(0);
    vec![
        ("threads", Value::Null, 1),
        ("stackTrace", json!({"threadId": 0}), 1),
        ("scopes", json!({"frameId": 0}), 1),
        ("variables", json!({"variablesReference": 1}), 1),
        ("evaluate", json!({"expression": "a"}), 1),
        ("pause", json!({"threadId": 0}), 1),
        ("continue", json!({"threadId": 0}), 2),
        ("next", json!({"threadId": 0}), 2),
        ("configurationDone", Value::Null, 2),
        ("setBreakpoints", json!({"source": {"path": path}, "breakpoints": [{"line": 3}]}), 2),
        ("setFunctionBreakpoints", json!({"breakpoints": [{"name": "/g"}]}), 1),
    ]
}
fn answers() -> Vec<Resp> {
    vec![
        Resp::Ack,
        Resp::StdDef(None),
        Resp::Eval(Evaluated { value: "1".into(), variables: None }),
        Resp::BreakpointSet { result: SetResult::Failed },
        Resp::BreakpointUnset { success: true },
        Resp::LineNumber { line: Some(1) },
        Resp::Offset { offset: Some(0) },
        Resp::Stacks { stacks: vec![] },
        Resp::StackFrames { frames: vec![], total_count: 0 },
        Resp::Scopes { arguments: None, locals: None, globals: None },
        Resp::Variables { vars: vec![] },
        Resp::CurrentInstruction(None),
    ]
}
fn kind(r: &Resp) -> std::mem::Discriminant<Resp> {
    std::mem::discriminant(r)
}

pub fn check(r: &mut Runner) {
    r.assume("the game is played by the harness over the engine's own protocol, and answers every request");
    let scratch = r.scratch().to_path_buf();

    let depth = r.pick(3, 4);
    let n = pow(OPS.len(), depth);
    let s = scratch.clone();
    r.suite("auxtools histories", &format!("every sequence of {depth} of {} requests and things the game says × up to three stacks", OPS.len()), n * 3, |i, c| {
        let mut d = Digits(i);
        let stacks = [0, 1, 3][d.take(3)];
        let ops: Vec<Op> = (0..depth).map(|_| *d.pick(&OPS)).collect();
        c.input(|| format!("{stacks} stacks: {ops:?}"));
        if let Err(e) = with_host(&s, true, |h| history(h, c, &ops, stacks)) {
            c.fail("answer", e);
        }
    });

    // what the game says around its answers
    let s = scratch.clone();
    r.suite("around answers", "each request × what the game says before its answer × after it", 11 * 7 * 7 * 2, |i, c| {
        let mut d = Digits(i);
        let (req, before, after, at) = (d.take(11), d.take(7), d.take(7), d.take(2));
        c.input(|| format!("request {req}, before {before}, after {after}, answer {at}"));
        let res = with_host(&s, true, |h| {
            let (command, arguments, count) = requests(h).swap_remove(req);
            let g = Arc::new(Mutex::new(Game { stacks: 3, ..Default::default() }));
            let (mut dap, stream) = h.attach_aux(game(g.clone()))?;
            let mut exp = vec![];
            let mut last = "";
            {
                let mut g = g.lock().unwrap();
                for (k, list) in [(before, 0), (after, 1)] {
                    if k == 6 {
                        continue;
                    }
                    let (said, ev) = says(k as u8);
                    exp.extend(ev);
                    last = match k {
                        1 => "bad index",
                        3 => "é: null.x",
                        _ => last,
                    };
                    if list == 0 { g.before.push(said) } else { g.after.push(said) }
                }
                // once everything before the answer is sent, none of it waits
                if at == 1 && count == 1 {
                    let more = says(2);
                    g.after.push(more.0);
                    exp.extend(more.1);
                }
            }
            let seen = dap.events.len();
            c.trans(1);
            let v = dap.call(command, arguments)?;
            c.validated(1);
            c.ensure(v["success"] == json!(true), "the request succeeds");
            let stops = |dap: &Dap| events(dap, seen).into_iter().filter(|e| e.0 == "stopped").collect::<Vec<_>>();
            while stops(&dap).len() < exp.len() {
                dap.read()?;
            }
            c.check_eq("the stops", &exp, &stops(&dap));
            let v = dap.ok("exceptionInfo", json!({"threadId": 0}))?;
            c.check_eq("the last runtime", &Some(last), &v["exceptionId"].as_str());
            dap.ok("threads", Value::Null)?;
            c.check_eq("no further stops", &exp, &stops(&dap));
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    // answers of the wrong kind
    let all = answers();
    let s = scratch.clone();
    r.suite("wrong answers", "each request × each kind of answer: refused when it is of another kind, and the next one works", 11 * all.len() as u64, |i, c| {
        let mut d = Digits(i);
        let (req, k) = (d.take(11), d.take(all.len()));
        c.input(|| format!("request {req} answered with {:?}", all[k]));
        let res = with_host(&s, true, |h| {
            let (command, arguments, count) = requests(h).swap_remove(req);
            let g = Arc::new(Mutex::new(Game { stacks: 0, ..Default::default() }));
            let (mut dap, stream) = h.attach_aux(game(g.clone()))?;
            g.lock().unwrap().wrong = Some(all[k].clone());
            c.trans(1);
            let v = dap.call(command, arguments)?;
            c.validated(1);
            let first = g.lock().unwrap().log.first().cloned().ok_or("the game was asked nothing")?;
            let fits = kind(&right(&first, 0)) == kind(&all[k]);
            // the sleeping stacks are only looked up for display
            let minor = first == Req::Stacks && count == 2;
            c.check_eq(&format!("{command} succeeds"), &(fits || minor), &(v["success"] == json!(true)));
            for (command, arguments, _) in requests(h) {
                let v = dap.call(command, arguments)?;
                c.ensure(v["success"] == json!(true), &format!("{command} succeeds after it"));
            }
            c.outcome(&fits);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    // the ends of a connection
    let s = scratch.clone();
    r.suite("ends", "how the connection ends × after which message: the end is announced once and everything is still answered", 5 * 6, |i, c| {
        let mut d = Digits(i);
        let (how, after) = (d.take(5), d.take(6) as u8);
        c.input(|| format!("end {how} after {after}"));
        let res = with_host(&s, true, |h| {
            let g = Arc::new(Mutex::new(Game::default()));
            let (mut dap, mut stream) = h.attach_aux(game(g.clone()))?;
            let seen = dap.events.len();
            let (said, ev) = says(after);
            let mut bytes = frame_bytes(&said);
            match how {
                0 => {},
                1 => bytes.extend(frame_bytes(&Resp::Disconnect)),
                // cut short
                2 => bytes.extend([9, 0]),
                3 => bytes.extend([9, 0, 0, 0, 1, 0]),
                // not a message
                _ => bytes.extend([4, 0, 0, 0, 99, 0, 0, 0]),
            }
            c.trans(1);
            stream.write_all(&bytes).map_err(|e| e.to_string())?;
            if how != 1 && how != 4 {
                stream.shutdown(std::net::Shutdown::Write).map_err(|e| e.to_string())?;
            }
            dap.wait_event("terminated", seen)?;
            let mut exp: Vec<Event> = ev.into_iter().collect();
            exp.push(event("terminated", json!({})));
            c.validated(1);
            c.check_eq("what is announced", &exp, &events(&dap, seen));
            let v = dap.call("threads", Value::Null)?;
            c.ensure(v["success"] == json!(false), "a game that is gone has no threads to show");
            dap.ok("disconnect", json!({}))?;
            dap.quiet()?;
            c.check_eq("nothing more is announced", &exp, &events(&dap, seen));
            c.outcome(&how);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    // the editor's stream and the game's, cut anywhere
    let s = scratch.clone();
    let pieces = 420u64;
    r.suite("pieces", "three requests sent at once, cut at each byte; three messages of the game, cut at each byte", pieces * 2, |i, c| {
        let (cut, editor) = ((i / 2) as usize, i % 2 == 0);
        c.input(|| format!("cut at {cut}, the editor's side: {editor}"));
        let res = with_host(&s, true, |h| {
            let g = Arc::new(Mutex::new(Game { stacks: 3, ..Default::default() }));
            let (mut dap, mut stream) = h.attach_aux(game(g.clone()))?;
            let pause = || std::thread::sleep(std::time::Duration::from_micros(1500));
            let seen = dap.events.len();
            c.trans(1);
            if editor {
                let sent = [dap.message("threads", &Value::Null), dap.message("evaluate", &json!({"expression": "é ☃"})), dap.message("pause", &json!({"threadId": 0}))];
                let bytes = sent.iter().map(|m| m.1.as_str()).collect::<String>().into_bytes();
                let cut = cut.min(bytes.len());
                dap.send_raw(&bytes[..cut]);
                pause();
                dap.send_raw(&bytes[cut..]);
                for (k, name) in ["threads", "evaluate", "pause"].iter().enumerate() {
                    let v = dap.answer(sent[k].0, name)?;
                    c.ensure(v["success"] == json!(true), "each of them succeeds");
                }
                let asked = Req::Eval { frame_id: None, command: "é ☃".into(), context: None };
                c.check_eq("what the game was asked", &vec![Req::Stacks, asked, Req::Pause], &g.lock().unwrap().log);
            } else {
                let said = [says(1), says(4), says(2)];
                let bytes: Vec<u8> = said.iter().flat_map(|s| frame_bytes(&s.0)).collect();
                let cut = cut.min(bytes.len());
                let _ = stream.write_all(&bytes[..cut]);
                pause();
                let _ = stream.write_all(&bytes[cut..]);
                let exp: Vec<Event> = said.into_iter().filter_map(|s| s.1).collect();
                while events(&dap, seen).len() < exp.len() {
                    dap.read()?;
                }
                c.check_eq("what is announced", &exp, &events(&dap, seen));
                dap.ok("threads", Value::Null)?;
                c.check_eq("nothing more is announced", &exp, &events(&dap, seen));
            }
            c.validated(1);
            c.outcome(&editor);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let depth = r.pick(3, 4);
    let n = pow(EXT.len(), depth);
    let s = scratch.clone();
    r.suite("extools histories", &format!("every sequence of {depth} of {} requests and things the game says", EXT.len()), n, |i, c| {
        let mut d = Digits(i);
        let ops: Vec<Ext> = (0..depth).map(|_| *d.pick(&EXT)).collect();
        c.input(|| format!("{ops:?}"));
        if let Err(e) = with_host(&s, false, |h| ext_history(h, c, &ops)) {
            c.fail("answer", e);
        }
    });

    // after the game is gone, whatever is asked is still answered
    let after: Vec<(&str, Value)> = vec![
        ("threads", Value::Null),
        ("pause", json!({"threadId": 0})),
        ("continue", json!({"threadId": 0})),
        ("next", json!({"threadId": 0})),
        ("setExceptionBreakpoints", json!({"filters": ["runtimes"]})),
        ("configurationDone", Value::Null),
        ("setFunctionBreakpoints", json!({"breakpoints": [{"name": "/g"}]})),
        ("setFunctionBreakpoints", json!({"breakpoints": []})),
        ("stackTrace", json!({"threadId": 0})),
        ("exceptionInfo", json!({"threadId": 0})),
        ("variables", json!({"variablesReference": 0x0f_000001})),
        ("evaluate", json!({"expression": "#dis /g"})),
    ];
    let none = json!({"literal": {"ref": 0}});
    let frame = json!({"proc": "/g", "override_id": 0, "offset": 0, "usr": none, "src": none, "dot": none, "locals": [], "args": [], "local_names": [], "arg_names": []});
    let s = scratch.clone();
    let n = after.len();
    r.suite("extools ends", "how the connection ends × what it said last × what is asked twice afterwards: the end is announced once and everything is answered", (5 * 3 * n * n) as u64, |i, c| {
        let mut d = Digits(i);
        let (how, said) = (d.take(5), d.take(3));
        let asked = [d.take(n), d.take(n)];
        c.input(|| format!("end {how} after {said}, asked {:?} then {:?}", after[asked[0]].0, after[asked[1]].0));
        let res = with_host(&s, false, |h| {
            let (mut dap, mut stream) = h.attach_ext(ext_game(Arc::default()))?;
            let seen = dap.events.len();
            let mut exp: Vec<Event> = vec![];
            c.trans(1);
            match said {
                0 => {},
                1 => {
                    stream.write_all(&ext_bytes("call stack", &json!({"current": [frame], "suspended": []}))).map_err(|e| e.to_string())?;
                    stream.write_all(&ext_bytes("breakpoint hit", &json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": "pause"}))).map_err(|e| e.to_string())?;
                    dap.wait_event("stopped", seen)?;
                    exp.push(event("stopped", json!({"reason": "pause", "description": "Paused by request", "threadId": 0})));
                },
                _ => {
                    dap.ok("configurationDone", Value::Null)?;
                },
            }
            let bytes: &[u8] = match how {
                0 | 1 => b"",
                // cut short
                2 | 3 => b"{\"type\": \"breakpoint hit\", \"conte",
                // not a message
                _ => b"\xff\0{\0\0",
            };
            stream.write_all(bytes).map_err(|e| e.to_string())?;
            if how % 2 == 1 {
                reset(&stream);
            } else {
                stream.shutdown(std::net::Shutdown::Both).map_err(|e| e.to_string())?;
            }
            dap.wait_event("terminated", seen)?;
            for &k in &asked {
                dap.call(after[k].0, after[k].1.clone())?;
                c.validated(1);
            }
            dap.ok("disconnect", json!({}))?;
            dap.quiet()?;
            exp.push(event("terminated", json!({})));
            let act: Vec<Event> = events(&dap, seen).into_iter().filter(|e| e.0 == "stopped" || e.0 == "terminated").collect();
            c.check_eq("the end is announced once", &exp, &act);
            c.outcome(&(how, said, asked));
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let s = scratch.clone();
    r.suite("extools pieces", "four messages of the game, cut at each two bytes", 3 * 200 + 2000, |i, c| {
        let (a, b) = if i < 600 { (i as usize, i as usize) } else { (((i - 600) % 50) as usize * 12, ((i - 600) / 50) as usize * 15) };
        let (a, b) = (a.min(b), a.max(b));
        c.input(|| format!("cut at {a} and {b}"));
        let res = with_host(&s, false, |h| {
            let (mut dap, mut stream) = h.attach_ext(ext_game(Arc::default()))?;
            let seen = dap.events.len();
            let mut bytes = ext_bytes("call stack", &json!({"current": [], "suspended": [[], []]}));
            bytes.extend(ext_bytes("breakpoint hit", &json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": "step"})));
            bytes.extend(ext_bytes("runtime", &json!({"proc": "/ta/p", "override_id": 1, "offset": 0, "message": "é ☃"})));
            bytes.extend(ext_bytes("breakpoint hit", &json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": "breakpoint opcode"})));
            let (a, b) = (a.min(bytes.len()), b.min(bytes.len()));
            c.trans(1);
            for (k, piece) in [&bytes[..a], &bytes[a..b], &bytes[b..]].into_iter().enumerate() {
                if k > 0 && !piece.is_empty() {
                    std::thread::sleep(std::time::Duration::from_micros(1000));
                }
                let _ = stream.write_all(piece);
            }
            let exp: Vec<(String, Option<i64>)> = ["step", "exception", "breakpoint"].iter().flat_map(|r| [("sleep".to_string(), Some(1)), ("sleep".to_string(), Some(2)), (r.to_string(), Some(0))]).collect();
            let stops = |dap: &Dap| {
                let mut v: Vec<(String, Option<i64>)> = events(dap, seen).into_iter().map(|e| (e.1["reason"].as_str().unwrap_or(&e.0).to_string(), e.1["threadId"].as_i64())).collect();
                for c in v.chunks_mut(3) {
                    let n = c.len().min(2);
                    c[..n].sort();
                }
                v
            };
            while stops(&dap).len() < exp.len() {
                dap.read()?;
            }
            c.validated(1);
            c.check_eq("what is announced", &exp, &stops(&dap));
            let v = dap.ok("exceptionInfo", json!({"threadId": 0}))?;
            c.check_eq("the last runtime", &Some("é ☃"), &v["exceptionId"].as_str());
            c.check_eq("nothing more is announced", &exp, &stops(&dap));
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });
}

// ---------------------------------------------------------------------------------------------
// extools

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Continue,
    Next,
    StepIn,
    StepOut,
    Pause,
    Catch(u8),
    What,
    Hit(u8),
    Runtime(u8),
    Stacks(u8),
    Garbage(u8),
    Configured,
}
const EXT: [Ext; 16] = [
    Ext::Continue,
    Ext::Next,
    Ext::StepIn,
    Ext::StepOut,
    Ext::Pause,
    Ext::Catch(0),
    Ext::Catch(1),
    Ext::What,
    Ext::Hit(0),
    Ext::Hit(2),
    Ext::Runtime(0),
    Ext::Runtime(1),
    Ext::Stacks(1),
    Ext::Stacks(3),
    Ext::Garbage(0),
    Ext::Configured,
];
fn ext_game(log: Arc<Mutex<Vec<(String, Value)>>>) -> ExtPlay {
    Arc::new(Mutex::new(move |kind: &str, c: &Value| match kind {
        "get list contents" => vec![("get list contents", json!({"linear": []}))],
        "get source" => {
            log.lock().unwrap().push((kind.to_string(), c.clone()));
            vec![("get source", json!("// nothing\n"))]
        },
        _ => {
            log.lock().unwrap().push((kind.to_string(), c.clone()));
            vec![]
        },
    }))
}
fn ext_history(h: &mut Host, c: &mut Case, ops: &[Ext]) -> Res<()> {
    let log: Arc<Mutex<Vec<(String, Value)>>> = Arc::default();
    let (mut dap, mut stream) = h.attach_ext(ext_game(log.clone()))?;
    let mut threads = 0usize;
    let mut last = String::new();
    for &op in ops {
        let seen = dap.events.len();
        log.lock().unwrap().clear();
        c.trans(1);
        // what the game says
        let said = match op {
            Ext::Hit(k) => Some(("breakpoint hit", json!({"proc": "/g", "override_id": 0, "offset": 0, "reason": (["breakpoint opcode", "step", "pause"][k as usize])}), Some((["breakpoint", "step", "pause"][k as usize], None)))),
            Ext::Runtime(k) => {
                last = ["bad index", "null.x"][k as usize].into();
                Some(("runtime", json!({"proc": "/g", "override_id": 0, "offset": 0, "message": last}), Some(("exception", Some(last.clone())))))
            },
            Ext::Stacks(n) => {
                threads = n as usize;
                Some(("call stack", json!({"current": [], "suspended": vec![json!([]); n as usize - 1]}), None))
            },
            Ext::Garbage(_) => Some(("no such message", json!([1]), None)),
            _ => None,
        };
        if let Some((kind, content, stop)) = said {
            let mut bytes = ext_bytes(kind, &content);
            // a message that ends the exchange, as nothing else shows that the game's was taken
            bytes.extend(ext_bytes("raw message", &json!("done")));
            stream.write_all(&bytes).map_err(|e| e.to_string())?;
            loop {
                let v = dap.read()?;
                if v["event"] == "output" && v["body"]["output"].as_str().is_some_and(|s| s.contains("done")) {
                    break;
                }
            }
            let mut exp: Vec<(String, Option<i64>, Option<String>)> = vec![];
            if let Some((reason, text)) = stop {
                for t in 1..threads {
                    exp.push(("sleep".into(), Some(t as i64), None));
                }
                exp.sort();
                exp.push((reason.into(), Some(0), text));
            }
            let mut act: Vec<(String, Option<i64>, Option<String>)> = events(&dap, seen).into_iter().map(|e| (e.1["reason"].as_str().unwrap_or(&e.0).to_string(), e.1["threadId"].as_i64(), e.1["text"].as_str().map(str::to_string))).collect();
            let n = act.len().saturating_sub(1);
            act[..n].sort();
            c.check_eq("what is announced", &exp, &act);
            continue;
        }
        let (command, arguments, asked): (&str, Value, Vec<(&str, Value)>) = match op {
            Ext::Continue => ("continue", json!({"threadId": 0}), vec![("breakpoint resume", Value::Null)]),
            Ext::Next => ("next", json!({"threadId": 0}), vec![("breakpoint step over", Value::Null)]),
            Ext::StepIn => ("stepIn", json!({"threadId": 0}), vec![("breakpoint step into", Value::Null)]),
            Ext::StepOut => ("stepOut", json!({"threadId": 1}), vec![("breakpoint step out", Value::Null)]),
            Ext::Pause => ("pause", json!({"threadId": 0}), vec![("breakpoint pause", Value::Null)]),
            Ext::Catch(k) => ("setExceptionBreakpoints", json!({"filters": if k == 1 { vec!["runtimes"] } else { vec![] }}), vec![("break on runtimes", json!(k == 1))]),
            Ext::Configured => ("configurationDone", Value::Null, vec![("get source", json!("stddef.dm")), ("configuration done", Value::Null)]),
            _ => ("exceptionInfo", json!({"threadId": 0}), vec![]),
        };
        let v = dap.ok(command, arguments)?;
        c.validated(1);
        if op == Ext::What {
            c.check_eq("the last runtime", &Some(last.as_str()), &v["exceptionId"].as_str());
        }
        let mut exp: Vec<Event> = vec![];
        if matches!(op, Ext::Continue | Ext::Next | Ext::StepIn | Ext::StepOut) {
            for t in 1..threads {
                exp.push(event("thread", json!({"reason": "exited", "threadId": t})));
            }
            exp.push(event("continued", json!({"threadId": 0, "allThreadsContinued": true})));
        }
        let mut act = events(&dap, seen);
        let n = act.len().saturating_sub(1);
        act[..n].sort_by_key(|e| e.1["threadId"].as_i64());
        c.check_eq("what is announced", &exp, &act);
        // the game has handled everything sent before it answers this
        dap.ok("variables", json!({"variablesReference": 0x0f_000001}))?;
        let exp: Vec<(String, Value)> = asked.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        c.check_eq("what the game was asked", &exp, &log.lock().unwrap());
    }
    dap.quiet()?;
    c.state(&(threads, &last));
    c.outcome(&(threads, &last));
    let seen = dap.events.len();
    let _ = stream.shutdown(std::net::Shutdown::Both);
    dap.wait_event("terminated", seen)?;
    c.check_eq("the end is announced once", &vec![event("terminated", json!({}))], &events(&dap, seen));
    Ok(())
}
