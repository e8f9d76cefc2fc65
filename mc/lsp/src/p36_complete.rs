//! P36: completion offers what may be written there, and signature help shows the call being written.
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};

const METHOD: u64 = 2;
const FUNCTION: u64 = 3;
const CONSTRUCTOR: u64 = 4;
const FIELD: u64 = 5;
const VARIABLE: u64 = 6;
const CLASS: u64 = 7;
const KEYWORD: u64 = 14;
const CONSTANT: u64 = 21;

const PATHS: [&str; 5] = ["", "/zaa", "/zaa/zbb", "/zaa/zbb/zcc", "/zdd"];
/// Nearest first.
const CHAIN: [&[usize]; 5] = [&[0], &[1], &[2, 1], &[3, 2, 1], &[4, 2, 1]];

/// One thing offered: all that is compared of it.
fn item(label: &str, kind: u64, detail: &str, insert: &str, doc: &str) -> String {
    format!("{label} kind {kind} <{detail}> inserts {insert:?} doc {doc:?}")
}
/// The offers whose names are of the program's own making.
fn own_items(v: &Value) -> Vec<String> {
    let mut out: Vec<String> = v
        .as_array()
        .into_iter()
        .flatten()
        .filter(|i| i["label"].as_str().is_some_and(|l| l.to_lowercase().starts_with('z')))
        .map(|i| {
            item(
                i["label"].as_str().unwrap(),
                i["kind"].as_u64().unwrap_or(0),
                i["detail"].as_str().unwrap_or(""),
                i["insertText"].as_str().unwrap_or(""),
                i["documentation"]["value"].as_str().unwrap_or("").trim(),
            )
        })
        .collect();
    out.sort();
    out
}
fn labels(v: &Value, kind: u64) -> Vec<String> {
    let mut out: Vec<String> = v.as_array().into_iter().flatten().filter(|i| i["kind"] == kind).map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect();
    out.sort();
    out
}
/// Letters and digits only, in lower case.
fn plain(s: &str) -> String {
    s.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect()
}
fn fits(name: &str, query: &str) -> bool {
    plain(name).contains(&plain(query))
}

#[derive(Clone)]
struct Mention {
    name: &'static str,
    var: bool,
    /// Declares, with this keyword for a proc and these words for a variable.
    decl: Option<&'static str>,
    value: String,
    doc: String,
    /// The parameters, as written and as offered.
    params: (&'static str, &'static str),
}
impl Mention {
    fn write(&self, path: &str) -> String {
        let doc = if self.doc.is_empty() { String::new() } else { format!("/// {}\n", self.doc) };
        match (self.var, self.decl) {
            (true, Some(d)) => format!("{doc}{path}/var/{d}{} = {}\n", self.name, self.value),
            (true, None) => format!("{doc}{path}/{} = {}\n", self.name, self.value),
            (false, Some(d)) => format!("{doc}{path}/{d}/{}({})\n", self.name, self.params.0),
            (false, None) => format!("{doc}{path}/{}({})\n", self.name, self.params.0),
        }
    }
    fn detail(&self, k: usize) -> String {
        if self.var && self.decl == Some("const/") {
            return if k == 0 { self.value.clone() } else { format!("{} - on {}", self.value, PATHS[k]) };
        }
        format!("on {}", if k == 0 { "(global)" } else { PATHS[k] })
    }
    fn kind(&self, k: usize) -> u64 {
        match (self.var, k) {
            (true, _) => FIELD,
            (false, 0) => FUNCTION,
            _ => METHOD,
        }
    }
}

struct World {
    /// What each type mentions itself.
    on: Vec<Vec<Mention>>,
}
impl World {
    fn new(i: u64) -> Option<World> {
        let mut d = Digits(i);
        let global = d.take(2);
        let decl = d.take(3);
        let over = d.take(8);
        let form = d.take(4);
        let mut lay = [global, 0, 0, 0, 0];
        if decl > 0 {
            lay[decl] = 1;
        }
        for (b, k) in [(1, 2), (2, 3), (4, 4)] {
            if over & b != 0 {
                if decl == 0 || decl == k {
                    return None;
                }
                lay[k] = 2;
            }
        }
        let mut on: Vec<Vec<Mention>> = vec![vec![]; 5];
        for k in 0..5 {
            let doc = |n: &str| if (k + form) % 2 == 0 { format!("{n} of {k}.") } else { String::new() };
            if lay[k] != 0 {
                let d = lay[k] == 1;
                on[k].push(Mention { name: "zqv", var: true, decl: d.then_some(["", "list/", "const/", "zaa/zbb/"][form]), value: format!("{}", 20 + k), doc: doc("v"), params: ("", "") });
                on[k].push(Mention {
                    name: "z_Qp",
                    var: false,
                    decl: d.then_some(["proc", "verb"][form % 2]),
                    value: String::new(),
                    doc: doc("p"),
                    params: [("", ""), ("zaa/zbb/x, y = 2", "zaa/zbb/x, y"), ("var/list/z as num", "list/z"), ("a, b, c", "a, b, c")][k % 4],
                });
            }
        }
        // always there
        on[1].push(Mention { name: "zqVv", var: true, decl: Some(""), value: "1".into(), doc: String::new(), params: ("", "") });
        on[2].push(Mention { name: "zp", var: false, decl: Some("proc"), value: String::new(), doc: "one two".into(), params: ("x", "x") });
        on[0].push(Mention { name: "zzqvp", var: true, decl: Some("const/"), value: "9".into(), doc: String::new(), params: ("", "") });
        Some(World { on })
    }
    fn text(&self) -> String {
        let mut t = String::from("#define ZM(x) x + 1\n/// A macro.\n#define z_QM 2\n/// A type.\n/zaa\n/zaa/zbb\n/zaa/zbb/zcc\n/zaa/zbb/Z_b\n/zdd\n/zdd/parent_type = /zaa/zbb\n");
        for k in 0..5 {
            for m in &self.on[k] {
                t += &m.write(PATHS[k]);
            }
        }
        t
    }
    /// The nearest mention of every name along the chain.
    fn members(&self, chain: &[usize]) -> Vec<(usize, &Mention)> {
        let mut out: Vec<(usize, &Mention)> = vec![];
        for &k in chain {
            for m in &self.on[k] {
                if !out.iter().any(|(_, o)| o.name == m.name) {
                    out.push((k, m));
                }
            }
        }
        out
    }
    fn member_items(&self, chain: &[usize], query: &str) -> Vec<String> {
        self.members(chain)
            .into_iter()
            .filter(|(_, m)| fits(m.name, query))
            .map(|(k, m)| item(m.name, m.kind(k), &m.detail(k), if m.var { "" } else { m.name }, &m.doc))
            .collect()
    }
    fn children(&self, k: usize, query: &str) -> Vec<String> {
        let kids: &[(&str, &str)] = match k {
            0 => &[("zaa", "A type."), ("zdd", "")],
            1 => &[("zbb", "")],
            2 => &[("zcc", ""), ("Z_b", "")],
            _ => &[],
        };
        kids.iter().filter(|(n, _)| fits(n, query)).map(|(n, d)| item(n, CLASS, "", "", d)).collect()
    }
}

/// Completion at the mark `|` of an addition to the program.
fn ask(w: &mut Workspace, c: &mut Case, base: &str, extra: &str) -> Res<Value> {
    let at = extra.find('|').expect("a mark");
    let text = format!("{base}{}{}", &extra[..at], &extra[at + 1..]);
    let before = format!("{base}{}", &extra[..at]);
    let line = before.matches('\n').count() as u32;
    let col = (before.len() - before.rfind('\n').map_or(0, |i| i + 1)) as u32;
    let uri = w.uri("a.dm");
    w.server.open(&uri, 1, &text);
    c.trans(1);
    let v = w.server.at("textDocument/completion", &uri, line, col);
    w.server.close(&uri);
    c.validated(1);
    v
}

const QUERIES: [&str; 13] = ["", "z", "zq", "q", "zqv", "ZQV", "qp", "z_qp", "v", "zp", "b", "zb", "x1"];

fn worlds(r: &mut Runner) {
    let sc = r.scratch();
    r.suite(
        "members",
        "a variable and a proc declared globally, on a type or its subtype and overridden by any of three types in four forms, and a dozen prefixes typed after every receiver, at the start of an expression, in paths and in the body of each type: exactly the members, types, macros and keywords that may stand there and contain what was typed, each from the nearest type that mentions it",
        48 * 4,
        |i, c| {
            let Some(wd) = World::new(i) else { return };
            let base = wd.text();
            c.input(|| base.clone());
            let r = with_workspace(&sc, |w| {
                w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &base)])?;
                let check = |w: &mut Workspace, c: &mut Case, extra: &str, mut exp: Vec<String>| -> Res<Value> {
                    let v = ask(w, c, &base, extra)?;
                    exp.sort();
                    c.check_eq(&format!("offers at {extra:?}"), &exp, &own_items(&v));
                    c.outcome(&exp);
                    Ok(v)
                };
                for q in QUERIES {
                    // of other objects
                    for k in 1..5 {
                        let p = &PATHS[k][1..];
                        let e = wd.member_items(CHAIN[k], q);
                        check(w, c, &format!("/proc/zuse()\n\tvar/{p}/zo = src\n\tzo.{q}|\n"), e.clone())?;
                        check(w, c, &format!("/proc/zuse()\n\tvar/{p}/zo\n\treturn 1 + zo.{q}|\n"), e.clone())?;
                        check(w, c, &format!("{}/proc/zuse()\n\tfor(var/{p}/zo in src)\n\t\tzo.{q}|()\n", PATHS[4 - k]), e.clone())?;
                    }
                    // at the start of an expression
                    for k in 0..5 {
                        let mut chain = CHAIN[k].to_vec();
                        if k > 0 {
                            chain.push(0);
                        }
                        let mut e = wd.member_items(&chain, q);
                        e.retain(|s| !s.starts_with("zuse"));
                        for (n, d, doc) in [("ZM", "#define ZM(x)\nx + 1", ""), ("z_QM", "#define z_QM\n2", "A macro.")] {
                            if fits(n, q) {
                                e.push(item(n, CONSTANT, d, "", doc));
                            }
                        }
                        for n in ["zl", "zbl"] {
                            if fits(n, q) {
                                e.push(item(n, VARIABLE, "(local)", "", ""));
                            }
                        }
                        for n in ["zparam", "zq2"] {
                            if fits(n, q) {
                                e.push(item(n, VARIABLE, "(parameter)", "", ""));
                            }
                        }
                        // the proc has to be known to know its parameters
                        let b2 = format!("{base}{}/proc/zwho(zparam, list/zq2 = 3)\n\tvar/zl = 2\n\tvar/list/zbl\n\tsleep(1)\n", PATHS[k]);
                        if q == "z" || q == "v" || q == "" || q == "b" || q == "q" {
                            w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &b2)])?;
                            let mut e = e.clone();
                            if fits("zwho", q) {
                                e.push(item("zwho", if k == 0 { FUNCTION } else { METHOD }, &format!("on {}", if k == 0 { "(global)" } else { PATHS[k] }), "zwho", ""));
                            }
                            e.sort();
                            let v = ask(w, c, &b2, &format!("\t{q}|\n\tsleep(2)\n"))?;
                            c.check_eq(&format!("offers at {q:?} in a proc of {:?}", PATHS[k]), &e, &own_items(&v));
                            let words = labels(&v, KEYWORD);
                            if q.is_empty() || q == "b" {
                                let some: &[&str] = if q == "b" { &["break"] } else { &["args", "as", "break", "call", "catch", "continue", "del", "do", "else", "for", "global", "goto", "if", "new", "null", "return", "set", "spawn", "src", "switch", "throw", "try", "usr", "var", "while"] };
                                for s in some {
                                    c.ensure(words.iter().any(|w| w == s), &format!("the keyword {s} is offered at {q:?}"));
                                }
                            }
                            for word in &words {
                                c.ensure(q.is_empty() || fits(word, q), &format!("the keyword {word} fits {q:?}"));
                            }
                            w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &base)])?;
                        }
                    }
                    // paths as values
                    for k in 0..5 {
                        let v = check(w, c, &format!("/proc/zuse()\n\treturn {}/{q}|\n", PATHS[k]), wd.children(k, q))?;
                        let mut e: Vec<&str> = ["proc", "verb"].into_iter().filter(|n| fits(n, q)).collect();
                        e.sort();
                        c.check_eq(&format!("the keywords after {}/{q}", PATHS[k]), &e.iter().map(|s| s.to_string()).collect::<Vec<_>>(), &labels(&v, KEYWORD));
                        for word in ["proc", "verb"] {
                            if k == 0 {
                                continue;
                            }
                            let e = CHAIN[k]
                                .iter()
                                .flat_map(|&j| wd.on[j].iter().map(move |m| (j, m)))
                                .filter(|(_, m)| !m.var && m.decl == Some(word) && fits(m.name, q))
                                .map(|(j, m)| item(m.name, m.kind(j), &m.detail(j), "", &m.doc))
                                .collect();
                            check(w, c, &format!("/proc/zuse()\n\treturn {}/{word}/{q}|\n", PATHS[k]), e)?;
                        }
                    }
                    // declarations, on paths and in blocks
                    for k in 0..5 {
                        let mut e = wd.children(k, q);
                        if k > 0 {
                            for (j, m) in wd.members(CHAIN[k]) {
                                if fits(m.name, q) {
                                    let ins = if m.var { format!("{} = ", m.name) } else { format!("{}({})\n\t. = ..()\n\t", m.name, m.params.1) };
                                    e.push(item(m.name, m.kind(j), &m.detail(j), &ins, &m.doc));
                                }
                            }
                        }
                        let mut words: Vec<String> = ["proc", "var", "verb"].into_iter().filter(|n| fits(n, q)).map(|s| s.to_string()).collect();
                        words.sort();
                        let path = if q.is_empty() && k == 0 { continue } else { format!("{}/{q}|\n", PATHS[k]) };
                        let v = check(w, c, &path, e.clone())?;
                        c.check_eq(&format!("the keywords at {path:?}"), &words, &labels(&v, KEYWORD));
                        if k > 0 && !q.is_empty() {
                            let block = format!("{}\n\tx = 1\n\t{q}|\n", PATHS[k]);
                            let v = check(w, c, &block, e)?;
                            c.check_eq(&format!("the keywords at {block:?}"), &words, &labels(&v, KEYWORD));
                        }
                    }
                    if c.failed() {
                        break;
                    }
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail("server", e);
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// local variables

const OPS: [&str; 6] = ["var", "ask", "if", "for", "catch", "end"];

fn scopes(r: &mut Runner) {
    let depth = r.pick(6, 8);
    let n = count_upto(OPS.len(), depth);
    const CHUNK: u64 = 100;
    r.suite(
        "scopes",
        "every body of up to N steps (declare a variable, open an if, for or catch block, close it, type a prefix): exactly the variables declared before it in the blocks around it are offered",
        n.div_ceil(CHUNK),
        |i, c| {
            for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let ops = word(OPS.len(), j);
                if ops.last().is_none_or(|&o| OPS[o] != "ask") {
                    continue;
                }
                let mut text = String::from("/proc/p()\n");
                // names of each open block; a loop's variable is murky after its loop
                let mut stack: Vec<Vec<String>> = vec![vec![]];
                let mut murky: Vec<Vec<String>> = vec![vec![]];
                let mut asks: Vec<(u32, u32, Vec<String>, Vec<String>)> = vec![];
                let mut dead = false;
                let mut fresh = false;
                for (no, &o) in ops.iter().enumerate() {
                    let ind = "\t".repeat(stack.len());
                    let was_fresh = std::mem::take(&mut fresh);
                    match OPS[o] {
                        "var" => {
                            text += &format!("{ind}var/zl{no} = 1\n");
                            stack.last_mut().unwrap().push(format!("zl{no}"));
                        },
                        "ask" => {
                            let line = text.matches('\n').count() as u32;
                            text += &format!("{ind}zl++\n");
                            let mut all: Vec<String> = stack.concat();
                            all.sort();
                            asks.push((line, stack.len() as u32 + 2, all, murky.concat()));
                        },
                        "if" => {
                            text += &format!("{ind}if(1)\n");
                            stack.push(vec![]);
                            murky.push(vec![]);
                            fresh = true;
                        },
                        "for" => {
                            text += &format!("{ind}for(var/zl{no} in list(1))\n");
                            stack.push(vec![format!("zl{no}")]);
                            murky.last_mut().unwrap().push(format!("zl{no}"));
                            murky.push(vec![]);
                            fresh = true;
                        },
                        "catch" => {
                            text += &format!("{ind}try\n{ind}\tsleep(1)\n{ind}catch(var/zl{no})\n");
                            stack.push(vec![format!("zl{no}")]);
                            murky.push(vec![]);
                            fresh = true;
                        },
                        _ => {
                            if stack.len() == 1 || was_fresh {
                                dead = true;
                                break;
                            }
                            stack.pop();
                            murky.pop();
                        },
                    }
                }
                if dead {
                    continue;
                }
                c.input(|| text.clone());
                let uri = "file:///p36/s.dm";
                let r = with_server(|s| {
                    s.open(uri, 1, &text);
                    let mut out = Ok(());
                    for (line, col, all, murky) in &asks {
                        c.trans(1);
                        match s.at("textDocument/completion", uri, *line, *col) {
                            Err(e) => {
                                out = Err(e);
                                break;
                            },
                            Ok(v) => {
                                c.validated(1);
                                let mut act = labels(&v, VARIABLE);
                                act.retain(|l| all.contains(l) || !murky.contains(l));
                                c.check_eq(&format!("variables offered on line {line} of\n{text}"), all, &act);
                                c.outcome(&act);
                            },
                        }
                    }
                    s.close(uri);
                    out
                });
                if let Err(e) = r {
                    c.fail("server", e);
                }
                if c.failed() {
                    return;
                }
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// signatures

const ARGS: [&str; 6] = ["1", "zo", "\"s, t\"", "list(3, 4)", "(5)", "zz = 6"];

fn signatures(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(2, 3);
    let calls = count_upto(ARGS.len(), depth);
    r.suite(
        "signatures",
        "a proc declared globally, on a type or its subtype and overridden by any of three types, called through every receiver with every list of up to N arguments, and once more inside an argument of another call, with the cursor in every argument: the signature of the nearest definition, and the argument the cursor is in",
        48 * 4,
        |i, c| {
            let Some(wd) = World::new(i) else { return };
            let base = wd.text();
            c.input(|| base.clone());
            let sig = |chain: &[usize], global_too: bool| -> Option<(String, Vec<String>)> {
                let mut chain = chain.to_vec();
                if global_too && !chain.contains(&0) {
                    chain.push(0);
                }
                let (k, m) = wd.members(&chain).into_iter().find(|(_, m)| m.name == "z_Qp")?;
                let names = m.params.1.split(", ").filter(|s| !s.is_empty()).map(|s| s.rsplit('/').next().unwrap().to_string()).collect();
                Some((format!("{}/z_Qp({})", PATHS[k], m.params.1), names))
            };
            let r = with_workspace(&sc, |w| {
                let uri = w.uri("a.dm");
                // (written before the cursor, after it, the signature, the argument)
                let mut text = base.clone();
                let mut asks: Vec<(u32, u32, Option<(String, Vec<String>)>, usize, String)> = vec![];
                for k in 0..5 {
                    text += &format!("{}/proc/zz{k}(zaa/zo, zaa/zbb/zp, zaa/zbb/zcc/zq, zdd/zr, zs)\n", PATHS[k]);
                    for (recv, s) in [
                        ("", sig(CHAIN[k], true)),
                        ("src.", if k == 0 { None } else { sig(CHAIN[k], false) }),
                        ("zo.", sig(CHAIN[1], false)),
                        ("zp.", sig(CHAIN[2], false)),
                        ("zq.", sig(CHAIN[3], false)),
                        ("zr.", sig(CHAIN[4], false)),
                        ("zs.", None),
                        ("global.", sig(CHAIN[0], false)),
                    ] {
                        if k == 0 && recv == "src." {
                            continue;
                        }
                        for j in 0..calls {
                            let args = word(ARGS.len(), j);
                            // a nested call, in each position
                            for nest in [None, Some("zo.z_Qp(7, 8)"), Some("foo(9)")] {
                                if nest.is_some() && (j % 3 != 0 || k % 2 == 0) {
                                    continue;
                                }
                                text += "\t";
                                let line = text.matches('\n').count() as u32;
                                let start = text.rfind('\n').unwrap() + 1;
                                text += &format!("{recv}z_Qp(");
                                for (no, &a) in args.iter().enumerate() {
                                    if no > 0 {
                                        text += ", ";
                                    }
                                    if ARGS[a].starts_with("list") {
                                        text += "list(3, 4)";
                                        continue;
                                    }
                                    // within the argument
                                    let col = (text.len() - start) as u32;
                                    text += ARGS[a];
                                    for off in [0, 1] {
                                        // inside parentheses and at ends there may be more to say
                                        if ARGS[a].len() > off + 1 || off == 0 {
                                            asks.push((line, col + off as u32, s.clone(), no, format!("{recv}z_Qp(.., {}", ARGS[a])));
                                        }
                                    }
                                }
                                if let Some(nest) = nest {
                                    if !args.is_empty() {
                                        text += ", ";
                                    }
                                    let col = (text.len() - start) as u32;
                                    text += nest;
                                    if nest.starts_with("zo") {
                                        let inner = sig(CHAIN[1], false);
                                        asks.push((line, col + 8, inner.clone(), 0, format!("{recv}z_Qp(.., zo.z_Qp(7")));
                                        asks.push((line, col + 11, inner, 1, format!("{recv}z_Qp(.., zo.z_Qp(7, 8")));
                                    } else {
                                        asks.push((line, col + 4, None, 0, format!("{recv}z_Qp(.., foo(9")));
                                    }
                                }
                                text += ")\n";
                            }
                        }
                    }
                }
                c.input(|| text.clone());
                w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &text)])?;
                w.server.open(&uri, 1, &text);
                let mut out = Ok(());
                for (line, col, s, no, what) in &asks {
                    c.trans(1);
                    match w.server.at("textDocument/signatureHelp", &uri, *line, *col) {
                        Err(e) => {
                            out = Err(e);
                            break;
                        },
                        Ok(v) => {
                            c.validated(1);
                            let sg = &v["signatures"][0];
                            let act = if v.is_null() {
                                None
                            } else {
                                let ps: Vec<String> = sg["parameters"].as_array().into_iter().flatten().map(|p| p["label"].as_str().unwrap_or("?").to_string()).collect();
                                Some((sg["label"].as_str().unwrap_or("?").to_string(), ps, v["activeParameter"].as_u64().unwrap_or(99)))
                            };
                            let exp = s.clone().map(|(l, p)| (l, p, *no as u64));
                            c.check_eq(&format!("signature at {line}:{col}, {what}"), &exp, &act);
                            c.outcome(&act);
                        },
                    }
                    if c.failed() {
                        break;
                    }
                }
                w.server.close(&uri);
                out
            });
            if let Err(e) = r {
                c.fail("server", e);
            }
        },
    );
}

pub fn check(r: &mut Runner) {
    let _ = (CONSTRUCTOR, json!(0));
    worlds(r);
    scopes(r);
    signatures(r);
}
