//! P40: the game stops exactly where breakpoints were last asked for.
use crate::debug::*;
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

type Key = (String, u32, u32);
type Active = BTreeMap<Key, Option<String>>;

/// What a game with auxtools does with the requests that concern breakpoints.
fn aux_game(active: Arc<Mutex<Active>>, log: Arc<Mutex<Vec<Req>>>) -> AuxPlay {
    Arc::new(Mutex::new(move |r: &Req| {
        log.lock().unwrap().push(r.clone());
        vec![match r {
            Req::Offset { proc, line } => {
                let d = def_of(&proc.path, proc.over);
                Resp::Offset { offset: d.and_then(|d| d.code.iter().find(|c| c.0 == *line as i64)).map(|c| c.1) }
            },
            Req::BreakpointSet { instruction: i, condition } => {
                let d = def_of(&i.proc.path, i.proc.over).filter(|d| d.path != "/refused");
                match d.and_then(|d| d.code.iter().find(|c| c.1 == i.offset)) {
                    Some(c) => {
                        active.lock().unwrap().insert((plain(&i.proc.path), i.proc.over, i.offset), condition.clone());
                        Resp::BreakpointSet { result: SetResult::Success { line: Some(c.0 as u32) } }
                    },
                    None => Resp::BreakpointSet { result: SetResult::Failed },
                }
            },
            Req::BreakpointUnset { instruction: i } => {
                let gone = active.lock().unwrap().remove(&(plain(&i.proc.path), i.proc.over, i.offset));
                Resp::BreakpointUnset { success: gone.is_some() }
            },
            Req::Stacks => Resp::Stacks { stacks: vec![] },
            Req::CatchRuntimes { .. } | Req::Disconnect => return vec![],
            _ => Resp::Ack,
        }]
    }))
}
fn ext_game(active: Arc<Mutex<Active>>) -> ExtPlay {
    Arc::new(Mutex::new(move |kind: &str, c: &Value| {
        let key = || (plain(c["proc"].as_str().unwrap_or("")), c["override_id"].as_u64().unwrap_or(99) as u32, c["offset"].as_u64().unwrap_or(99) as u32);
        match kind {
            "breakpoint set" => {
                active.lock().unwrap().insert(key(), None);
                vec![("breakpoint set", c.clone())]
            },
            "breakpoint unset" => {
                active.lock().unwrap().remove(&key());
                vec![("breakpoint unset", c.clone())]
            },
            "proc disassembly" => {
                let k = key();
                vec![("proc disassembly", json!({"proc": c["proc"], "override_id": k.1, "instructions": disassembly(&k.0, k.1)}))]
            },
            "get list contents" => vec![("get list contents", json!({"linear": []}))],
            _ => vec![],
        }
    }))
}

#[derive(Clone)]
enum Op {
    Lines(usize, &'static [(i64, Option<&'static str>)]),
    Funcs(&'static [(&'static str, Option<&'static str>)]),
    Bad(u8),
}
fn show(op: &Op) -> String {
    match op {
        Op::Lines(f, l) => format!("{} {l:?}", FILES[*f]),
        Op::Funcs(l) => format!("functions {l:?}"),
        Op::Bad(k) => format!("bad {k}"),
    }
}

#[derive(Default)]
struct Model {
    /// What was last asked for, by file, and in the end by function.
    asked: [Vec<(Key, Option<&'static str>)>; 3],
    /// Instructions that two of them asked for at some time.
    shared: BTreeSet<Key>,
}
type Entry = (bool, Option<i64>);
impl Model {
    fn note_shared(&mut self) {
        for i in 0..3 {
            for j in 0..i {
                for (k, _) in &self.asked[i] {
                    if self.asked[j].iter().any(|x| x.0 == *k) {
                        self.shared.insert(k.clone());
                    }
                }
            }
        }
    }
    fn lines(&mut self, aux: bool, file: usize, list: &[(i64, Option<&'static str>)]) -> Vec<Entry> {
        let mut out = vec![];
        self.asked[file].clear();
        for &(line, cond) in list {
            let found = def_at(file, line).and_then(|d| d.code.iter().find(|c| c.0 == line).map(|c| (d, c.1)));
            match found {
                None => out.push((false, Some(line))),
                // this one the game does not take
                Some((d, _)) if aux && d.path == "/refused" => out.push((false, None)),
                Some((d, offset)) => {
                    out.push((true, Some(line)));
                    self.asked[file].push(((d.path.to_string(), d.over, offset), cond));
                },
            }
        }
        self.note_shared();
        out
    }
    fn funcs(&mut self, aux: bool, list: &[(&str, Option<&'static str>)]) -> Vec<Entry> {
        let mut out = vec![];
        self.asked[2].clear();
        for (name, cond) in list {
            let (path, over) = name.split_once('#').map_or((*name, 0), |(p, o)| (p, o.parse().unwrap()));
            match def_of(path, over) {
                Some(d) if aux && d.path == "/refused" => out.push((false, None)),
                Some(d) => {
                    out.push((true, Some(if aux { d.code[0].0 } else { d.line })));
                    self.asked[2].push(((d.path.to_string(), d.over, 0), *cond));
                },
                None => out.push((false, None)),
            }
        }
        self.note_shared();
        out
    }
    fn active(&self) -> BTreeSet<Key> {
        self.asked.iter().flatten().map(|x| x.0.clone()).collect()
    }
    fn condition(&self, k: &Key) -> Option<String> {
        self.asked.iter().flatten().filter(|x| x.0 == *k).last().and_then(|x| x.1).map(str::to_string)
    }
}
fn entries(v: &Value) -> Vec<Entry> {
    v["breakpoints"].as_array().into_iter().flatten().map(|b| (b["verified"] == json!(true), b["line"].as_i64())).collect()
}

fn history(h: &mut Host, c: &mut Case, ops: &[Op]) -> Res<()> {
    let aux = h.aux;
    let active: Arc<Mutex<Active>> = Arc::default();
    let (mut dap, stream) = if aux { h.attach_aux(aux_game(active.clone(), Arc::default()))? } else { h.attach_ext(ext_game(active.clone()))? };
    let mut m = Model::default();
    for op in ops {
        c.trans(1);
        let (exp, act) = match op {
            Op::Lines(f, list) => {
                let bps: Vec<Value> = list.iter().map(|(l, cond)| json!({"line": l, "condition": cond})).collect();
                let path = h.path(*f);
                (m.lines(aux, *f, list), dap.ok("setBreakpoints", json!({"source": {"path": path}, "breakpoints": bps}))?)
            },
            Op::Funcs(list) => {
                let bps: Vec<Value> = list.iter().map(|(n, cond)| json!({"name": n, "condition": cond})).collect();
                (m.funcs(aux, list), dap.ok("setFunctionBreakpoints", json!({"breakpoints": bps}))?)
            },
            Op::Bad(k) => {
                let (command, arguments) = match k {
                    0 => ("setBreakpoints", json!({"source": {"name": "a.dm"}, "breakpoints": [{"line": 3}]})),
                    1 => ("setBreakpoints", json!({"source": {"path": "/elsewhere/a.dm"}, "breakpoints": [{"line": 3}]})),
                    2 => ("setBreakpoints", json!({"source": {"path": h.path(0)}, "breakpoints": [{"line": 10}], "sourceModified": true})),
                    _ => ("setFunctionBreakpoints", json!({"breakpoints": [{"name": "/ta/p#x"}]})),
                };
                let v = dap.call(command, arguments)?;
                c.ensure(v["success"] == json!(false), "a request that cannot be met is refused");
                c.validated(1);
                continue;
            },
        };
        c.validated(1);
        c.check_eq("the answer", &exp, &entries(&act));
        if !aux {
            // the game has handled everything sent before it answers this
            dap.ok("variables", json!({"variablesReference": 0x0f_000001}))?;
        }
        let active = active.lock().unwrap();
        c.check_eq("where the game stops", &m.active(), &active.keys().cloned().collect());
        if aux {
            for (k, cond) in active.iter() {
                if !m.shared.contains(k) {
                    c.check_eq(&format!("the condition at {k:?}"), &m.condition(k), cond);
                }
            }
        }
        c.state(&(aux, format!("{active:?}")));
    }
    dap.quiet()?;
    c.outcome(&m.active());
    let _ = stream.shutdown(std::net::Shutdown::Both);
    Ok(())
}

const OPS: [Op; 18] = [
    Op::Lines(0, &[]),
    Op::Lines(0, &[(3, None)]),
    Op::Lines(0, &[(3, Some("a > 1"))]),
    Op::Lines(0, &[(4, None), (3, None)]),
    Op::Lines(0, &[(12, Some("x")), (1, None), (5, None), (19, None)]),
    Op::Lines(0, &[(4, None), (10, None), (4, Some("z"))]),
    Op::Lines(1, &[]),
    Op::Lines(1, &[(3, None), (11, None), (5, Some("usr"))]),
    Op::Lines(1, &[(9, None)]),
    Op::Funcs(&[]),
    Op::Funcs(&[("/g", None)]),
    Op::Funcs(&[("/g", Some("a")), ("/nope", None), ("/ta/p#1", None)]),
    Op::Funcs(&[("/ta/p", None), ("/icon/New#1", None)]),
    Op::Funcs(&[("/ta/tb/p", None), ("/ta/p#2", None)]),
    Op::Bad(0),
    Op::Bad(1),
    Op::Bad(2),
    Op::Bad(3),
];

pub fn check(r: &mut Runner) {
    r.assume("the game is played by the harness over the engine's own protocol: it knows the instructions of nine proc definitions and keeps the set of breakpoints it was told");
    r.assume("conditions are compared only where a single list ever asked for the instruction; the extools engine has none");
    let scratch = r.scratch().to_path_buf();

    // every line of both files, by absolute and by relative path, and every proc by its spellings
    let s = scratch.clone();
    let lines = 24u64;
    r.suite("places", "each line × file × spelling of the path × engine: the definition and instruction asked for", 2 * 2 * 2 * lines, |i, c| {
        let mut d = Digits(i);
        let (aux, file, relative, line) = (d.flag(), d.take(2), d.flag(), d.take(lines as usize) as i64);
        c.input(|| format!("aux {aux} {} line {line} relative {relative}", FILES[file]));
        let res = with_host(&s, aux, |h| {
            let active: Arc<Mutex<Active>> = Arc::default();
            let log: Arc<Mutex<Vec<Req>>> = Arc::default();
            let (mut dap, stream) = if aux { h.attach_aux(aux_game(active.clone(), log.clone()))? } else { h.attach_ext(ext_game(active.clone()))? };
            let path = if relative { FILES[file].to_string() } else { h.path(file) };
            let mut m = Model::default();
            let exp = m.lines(aux, file, &[(line, None)]);
            let act = dap.ok("setBreakpoints", json!({"source": {"path": path}, "breakpoints": [{"line": line}]}))?;
            c.trans(1);
            c.validated(1);
            c.check_eq("the answer", &exp, &entries(&act));
            if !aux {
                dap.ok("variables", json!({"variablesReference": 0x0f_000001}))?;
            } else if let Some(def) = def_at(file, line) {
                let proc = ProcRef { path: def.path.to_string(), over: def.over };
                c.check_eq("what the game was asked first", &Some(Req::Offset { proc, line: line as u32 }), &log.lock().unwrap().first().cloned());
            } else {
                c.check_eq("what the game was asked", &0, &log.lock().unwrap().len());
            }
            c.check_eq("where the game stops", &m.active(), &active.lock().unwrap().keys().cloned().collect());
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    let spelt: Vec<(String, String)> = DEFS
        .iter()
        .flat_map(|d| {
            let (ty, name) = d.path.rsplit_once('/').unwrap();
            let o = d.over;
            let mut v = vec![format!("{ty}/{name}#{o}"), format!("{ty}/proc/{name}#{o}"), format!("{ty}/verb/{name}#{o}")];
            if o == 0 {
                v.push(format!("{ty}/{name}"));
                v.push(format!("{ty}/proc/{name}"));
            }
            v.push(format!("{ty}/{name}#{}", o + 1));
            v.into_iter().map(|s| (s, d.path.to_string())).collect::<Vec<_>>()
        })
        .collect();
    let s = scratch.clone();
    r.suite("functions", "each proc × spelling × engine: a breakpoint where its definition begins", 2 * spelt.len() as u64, |i, c| {
        let (aux, name) = (i % 2 == 1, &spelt[i as usize / 2].0);
        c.input(|| format!("aux {aux} {name}"));
        let res = with_host(&s, aux, |h| {
            let active: Arc<Mutex<Active>> = Arc::default();
            let (mut dap, stream) = if aux { h.attach_aux(aux_game(active.clone(), Arc::default()))? } else { h.attach_ext(ext_game(active.clone()))? };
            let mut m = Model::default();
            let exp = m.funcs(aux, &[(name, None)]);
            c.trans(1);
            let act = dap.ok("setFunctionBreakpoints", json!({"breakpoints": [{"name": name}]}))?;
            c.validated(1);
            c.check_eq("the answer", &exp, &entries(&act));
            if !aux {
                dap.ok("variables", json!({"variablesReference": 0x0f_000001}))?;
            }
            c.check_eq("where the game stops", &m.active(), &active.lock().unwrap().keys().cloned().collect());
            c.outcome(&exp);
            let _ = stream.shutdown(std::net::Shutdown::Both);
            Ok(())
        });
        if let Err(e) = res {
            c.fail("answer", e);
        }
    });

    for (aux, name) in [(true, "auxtools histories"), (false, "extools histories")] {
        let depth = r.pick(3, 4);
        let n = pow(OPS.len(), depth);
        let s = scratch.clone();
        r.suite(name, &format!("every sequence of {depth} of {} requests", OPS.len()), n, |i, c| {
            let mut d = Digits(i);
            let ops: Vec<Op> = (0..depth).map(|_| d.pick(&OPS).clone()).collect();
            c.input(|| ops.iter().map(show).collect::<Vec<_>>().join("; "));
            if let Err(e) = with_host(&s, aux, |h| history(h, c, &ops)) {
                c.fail("answer", e);
            }
        });
    }
}
