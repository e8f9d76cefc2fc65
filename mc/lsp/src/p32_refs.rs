//! P32: find references and go to implementation list every place and nothing else.
use crate::lsp::*;
use crate::p29_nav::{CHAIN, Prog, SOPS, TYPES, Want, body, def};
use mc_common::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

/// Something that can be asked for: where its name stands, where it is used and where it is defined.
#[derive(Default, Clone)]
struct Sym {
    asked: Vec<(usize, u32, u32)>,
    uses: BTreeSet<(usize, u32)>,
    /// Not compared if empty.
    defs: BTreeSet<(usize, u32)>,
}

#[derive(Default, Clone)]
struct Syms(BTreeMap<String, Sym>);

impl Syms {
    fn of(&mut self, k: &str) -> &mut Sym {
        self.0.entry(k.to_string()).or_default()
    }
    /// A name at the end of the program so far: a use.
    fn used(&mut self, p: &mut Prog, k: &str, name: &str, ask: bool) {
        let (line, col) = p.place();
        let file = p.cur;
        let s = self.of(k);
        s.uses.insert((file, line));
        if ask {
            s.asked.push((file, line, col));
        }
        p.t(name);
    }
    /// The same for a definition.
    fn defined(&mut self, p: &mut Prog, k: &str, name: &str) {
        let (line, col) = p.place();
        let file = p.cur;
        let s = self.of(k);
        s.defs.insert((file, line));
        s.asked.push((file, line, col));
        p.t(name);
    }
}

/// The environment, which ends with a proc whose references tell when the table is ready.
fn load(w: &mut Workspace, p: &Prog) -> Res<Vec<String>> {
    let mut env: String = p.files.iter().map(|f| format!("#include \"{}\"\n", f.0)).collect();
    let at = env.matches('\n').count() as u32;
    env.push_str("/proc/ready_sentinel()\n\tready_sentinel()\n");
    let mut all: Vec<(&str, &str)> = p.files.iter().map(|(n, t)| (n.as_str(), t.as_str())).collect();
    all.push(("x.dme", &env));
    let errors = w.load(&all)?;
    let uri = w.uri("x.dme");
    let start = std::time::Instant::now();
    loop {
        let v = w.server.request("textDocument/references", json!({"textDocument": {"uri": uri}, "position": {"line": at, "character": 8}, "context": {"includeDeclaration": false}}))?;
        if v != Value::Null {
            let v = v.as_array().cloned().unwrap_or_default();
            if v.len() != 1 || v[0]["range"]["start"]["line"] != json!(at + 1) {
                return Err(format!("the references of the sentinel are {v:?} instead of line {}", at + 1));
            }
            return Ok(errors);
        }
        if start.elapsed().as_secs() > 20 {
            return Err("the references were not ready after 20 s".into());
        }
        std::thread::yield_now();
    }
}

fn lines(w: &Workspace, p: &Prog, v: &Value) -> BTreeSet<String> {
    let list = match v {
        Value::Array(a) => a.clone(),
        Value::Null => vec![],
        v => vec![v.clone()],
    };
    let _ = (w, p);
    list.iter()
        .map(|l| format!("{} line {:03}", l["uri"].as_str().unwrap_or("?").rsplit('/').next().unwrap_or("?"), l["range"]["start"]["line"].as_u64().unwrap_or(9999)))
        .collect()
}

fn decide(c: &mut Case, scratch: &std::path::Path, p: &Prog, syms: &Syms, ask_all: bool) {
    c.input(|| p.files.iter().map(|(n, t)| format!("--- {n}\n{}", t.lines().enumerate().map(|(i, l)| format!("{i:03} {l}\n")).collect::<String>())).collect());
    let r = with_workspace(scratch, |w| {
        let errors = load(w, p)?;
        let mut wrong = vec![];
        for (k, s) in &syms.0 {
            let set = |x: &BTreeSet<(usize, u32)>| -> BTreeSet<String> { x.iter().map(|(f, l)| format!("{} line {l:03}", p.files[*f].0)).collect() };
            let (uses, defs) = (set(&s.uses), set(&s.defs));
            for (n, &(f, line, col)) in s.asked.iter().enumerate() {
                if !ask_all && n > 0 && n + 1 < s.asked.len() {
                    continue;
                }
                let uri = w.uri(&p.files[f].0);
                let place = format!("{k} asked at {}:{line}:{col}", p.files[f].0);
                let v = w.server.request("textDocument/references", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": col}, "context": {"includeDeclaration": false}}))?;
                c.trans(1);
                c.validated(1);
                let got = lines(w, p, &v);
                if got != uses {
                    let text = |x: &String| {
                        let (f, l) = x.split_once(" line ").unwrap();
                        let l: usize = l.parse().unwrap();
                        p.files.iter().find(|g| g.0 == f).and_then(|g| g.1.lines().nth(l)).map_or_else(|| x.clone(), |t| format!("{x}: {}", t.trim()))
                    };
                    wrong.extend(uses.difference(&got).map(|x| format!("{place} misses {}", text(x))));
                    wrong.extend(got.difference(&uses).map(|x| format!("{place} lists besides {}", text(x))));
                }
                if !defs.is_empty() {
                    let v = w.server.at("textDocument/implementation", &uri, line, col)?;
                    c.trans(1);
                    c.validated(1);
                    let got = lines(w, p, &v);
                    if got != defs {
                        wrong.push(format!("implementations of {place}: {got:?} instead of {defs:?}"));
                    }
                }
                c.outcome(&got.len());
            }
        }
        if !wrong.is_empty() {
            for e in errors.iter().take(3) {
                wrong.insert(0, format!("(error {e})"));
            }
            c.fail("references", format!("{} lines\n{}", wrong.len(), wrong.iter().take(60).map(|x| format!("      {x}\n")).collect::<String>()));
        }
        Ok(())
    });
    if let Err(e) = r {
        c.fail("server", e);
    }
}

// ---------------------------------------------------------------------------------------------
// every place an expression can stand

const HEAD: &str = "/var/ty/gv\n/proc/gp(kw)\n\treturn\n/base/var/ty/iv\n/base/proc/ip()\n\treturn\n/base/own/var/ty/ov\n/base/own/proc/op()\n\treturn\n/ty/var/ty/mv\n/ty/var/nv\n/ty/proc/mp()\n\treturn\n/ty/New(b)\n\treturn\n";
/// (key, line, column) within the head.
const HEADS: [(&str, u32, u32); 9] = [("gv", 0, 8), ("gp", 1, 6), ("iv", 3, 13), ("ip", 4, 11), ("ov", 6, 17), ("op", 7, 15), ("mv", 9, 11), ("nv", 10, 8), ("mp", 11, 9)];

/// What can be written and the symbols it names.
const WHAT: [(&str, &[&str]); 26] = [
    ("gv", &["gv"]),
    ("ov", &["ov"]),
    ("iv", &["iv"]),
    ("m.mv", &["mv"]),
    ("m?.mv.nv", &["mv", "nv"]),
    ("global.gv", &["gv"]),
    ("src.ov", &["ov"]),
    ("gp()", &["gp"]),
    ("op()", &["op"]),
    ("ip()", &["ip"]),
    ("m.mp()", &["mp"]),
    ("global.gp()", &["gp"]),
    ("src.ip()", &["ip"]),
    ("/ty", &["ty"]),
    ("/ty/proc/mp", &["mp"]),
    ("new /ty", &["ty"]),
    ("/ty{mv = 1}", &["ty", "mv"]),
    ("gv.mv", &["gv", "mv"]),
    ("a.mv", &[]),
    ("a.mp()", &[]),
    ("lt[1].mv", &["mv"]),
    ("(m:mv)", &["mv"]),
    ("m::mv", &["mv"]),
    ("new m.mv(ov)", &["mv", "ov"]),
    ("new gv.mv", &["gv", "mv"]),
    ("m.gv", &[]),
];

const EXPRS: [&str; 56] = [
    "@", "(@)", "-@", "!@", "~@", "@ + 1", "1 + @", "@ && 1", "1 || @", "@ == 1", "(1 in @)", "(@ in lo)", "@ ? 1 : 2", "1 ? (@) : 2", "1 ? 2 : @",
    "list(@)", "list(1, @)", "list(\"k\" = @)", "list(1 + @ = 2)", "gp(@)", "gp(1, @)", "gp(kw = @)", "m.mp(@)", "op(@)", "unknown(@)", "a.unknown(@)", "m.unknown(@)", "global.gp(@)", "global.unknown(@)",
    "lo[@]", "lo?[@]", "(@)[1]", "\"[@]\"", "\"a[1]b[@]c\"", "new /ty(@)", "new a(@)", "new m.nv(@)", "new(@)", "new /unknown(@)", "locate(@)", "(locate(1) in @)", "input(@)", "(input(1) as text in @)", "pick(@)", "pick(5;@)", "pick(@;5)",
    "call(@, \"a\")()", "call(lo, \"a\")(@)", "call_ext(@, \"a\")()", "istype(@)", "istype(m, @)", "initial(@)", "arglist(@)", "..(@)", ".(@)", "/ty{nv = @}",
];

const STMTS: [&str; 58] = [
    "@", "a = @", "a += @", "return @", "throw @", "if(@)\n\ta = 1", "if(1)\n\ta = @", "if(a)\n\ta = 1\nelse if(@)\n\ta = 2", "if(a)\n\ta = 1\nelse if(2)\n\ta = @", "if(a)\n\ta = 1\nelse\n\ta = @",
    "while(@)\n\ta = 1", "while(a)\n\ta = @", "do\n\ta = @\nwhile(a)", "do\n\ta = 1\nwhile(@)", "for(var/q in @)\n\ta = 1", "for(a in @)\n\ta = 1", "for(var/q in lo)\n\ta = @", "for(a in lo)\n\ta = @",
    "for(var/q = @ to 3)\n\ta = 1", "for(var/q = 1 to @)\n\ta = 1", "for(var/q = 1 to 3 step @)\n\ta = 1", "for(a = @ to 3)\n\ta = 1", "for(a = 1 to @)\n\ta = 1", "for(a = 1 to 3 step @)\n\ta = 1", "for(a in (@) to 3)\n\ta = 1", "for(a in 1 to @)\n\ta = 1", "for(var/q in (@) to 2)\n\ta = 1", "for(var/q = 1 to 2)\n\ta = @", "for(a = 1 to 2)\n\ta = @",
    "for(a = @, a < 3, a++)\n\ta = 1", "for(a = 1, @, a++)\n\ta = 1", "for(a = 1; a < 2; a += @)\n\ta = 1", "for(a = 1; a < 2; a++)\n\ta = @", "for(var/q = @; a < 2; a++)\n\ta = 1", "for()\n\ta = @\n\tbreak", "for(var/k, v in @)\n\ta = 1", "for(var/k, v in lo)\n\ta = @",
    "switch(@)\n\tif(1)\n\t\ta = 1", "switch(a)\n\tif(1)\n\t\ta = @", "switch(a)\n\tif(1)\n\t\ta = 1\n\telse\n\t\ta = @", "switch(a)\n\tif(1, @)\n\t\ta = 1", "spawn(@)\n\ta = 1", "spawn(1)\n\ta = @", "spawn\n\ta = @", "try\n\ta = @\ncatch(var/e)\n\ta = 1", "try\n\ta = 1\ncatch(var/e)\n\ta = @",
    "del(@)", "var/z = @", "var/list/z = @", "var/ty/z = @", "var/static/z = @", "var/y = 1, z = @", "lo << @", "a << lo[@]", "CRASH(@)", "if(1) a = @", "(@) = 1", "a = b = @",
];

fn places(r: &mut Runner) {
    let sc = r.scratch();
    let deep = r.pick(1, 2);
    // the outermost expression is part of the case, the ones within it and what stands there are lines of one program
    let (ns, ne) = (STMTS.len() as u64, EXPRS.len() as u64);
    let n = if deep == 2 { ns * ne } else { ns + ne };
    r.suite(
        "places",
        "every kind of name in every expression form nested to a depth, in every place of every statement: the references of each symbol are exactly the lines that name it",
        n,
        |i, c| {
            let (stmt, outer) = match (deep, i < ns) {
                (2, _) => (STMTS[(i % ns) as usize], EXPRS[(i / ns) as usize]),
                (_, true) => (STMTS[i as usize], "@"),
                _ => ("a = @", EXPRS[(i - ns) as usize]),
            };
            let mut p = Prog::new(&["a.dm"]);
            let mut syms = Syms::default();
            for (k, l, col) in HEADS {
                syms.of(k).asked.push((0, l, col));
            }
            p.t(HEAD);
            p.t("/base/own/proc/body(");
            p.t("m_, ");
            let (line, _) = p.place();
            // the types of declarations are uses as well
            for (k, ls) in [("ty", [0, 3, 6, 9])] {
                for l in ls {
                    syms.of(k).uses.insert((0, l));
                }
                syms.of(k).uses.insert((0, line));
                syms.of(k).asked.push((0, 0, 5));
            }
            p.t("ty/m, list/lo, list/ty/lt, a)\n\tvar/b\n");
            for inner in EXPRS {
                for (text, keys) in WHAT {
                    let e = inner.replace('@', text);
                    let e = if outer == "@" { e } else { outer.replace('@', &if inner == "@" { e } else { format!("({e})") }) };
                    for l in stmt.split('\n') {
                        let (line, _) = p.place();
                        if l.contains('@') {
                            for k in keys {
                                syms.of(k).uses.insert((0, line));
                            }
                        }
                        let full = l.replace('@', &e);
                        let own: [(&str, &[&str]); 8] = [
                            ("gp(", &["gp"]),
                            ("m.mp(", &["mp"]),
                            ("op(", &["op"]),
                            ("new /ty", &["ty"]),
                            ("m.nv", &["nv"]),
                            ("/ty{nv", &["ty", "nv"]),
                            ("var/ty/z", &["ty"]),
                            ("/ty{mv", &["ty", "mv"]),
                        ];
                        for (t, ks) in own {
                            if full.contains(t) {
                                for k in ks {
                                    syms.of(k).uses.insert((0, line));
                                }
                            }
                        }
                        p.t("\t").t(&full).t("\n");
                    }
                }
            }
            decide(c, &sc, &p, &syms, true);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// declarations, where a type or a value is named

/// `@` stands for a declared type (with its slash), `#` for a value.
const DECLS: [&str; 31] = [
    "/base/own/var@/f% = #\n",
    "/base/own/var/list@/f%\n",
    "/base/own/var/static@/f% = #\n",
    "/base/own/var/tmp@/f%\n",
    "/base/own/var/const@/f% = #\n",
    "/base/own\n\tvar@/f% = #\n",
    "/base/own\n\tvar\n\t\tf% = #\n",
    "/base/own\n\tov = #\n",
    "/base/own/f0 = #\n",
    "/var@/f% = #\n",
    "/var/list@/f%\n",
    "/base/own/proc/f%(*/p)\n\treturn\n",
    "/base/own/proc/f%(q, */p)\n\treturn\n",
    "/base/own/proc/f%(list@/p, q)\n\treturn\n",
    "/base/own/proc/f%(p = #)\n\treturn\n",
    "/base/own/proc/f%(var@/p = #)\n\treturn\n",
    "/base/own/op(*/p = #)\n\treturn\n",
    "/proc/f%(*/p = #)\n\treturn\n",
    "/proc/f%()\n\tvar@/p = #\n",
    "/proc/f%()\n\tfor(var@/p in #)\n\t\treturn\n",
    "/proc/f%()\n\tfor(var@/p, v in #)\n\t\treturn\n",
    "/proc/f%()\n\tvar/a, b = #\n",
    "/proc/f%()\n\tfor(var@/p = 1, p, p++)\n\t\treturn #\n",
    "/proc/f%()\n\tvar@/p = 1, q = 2\n",
    "/proc/f%()\n\tvar/static/list@/p = #\n",
    // `$` an existing variable
    "/base/own/proc/f%()\n\tfor($ in #)\n\t\treturn\n",
    "/base/own/proc/f%()\n\tfor($ = 1 to 3)\n\t\treturn #\n",
    "/base/own/proc/f%()\n\tfor($ in 1 to 3)\n\t\treturn\n",
    "/base/own/proc/f%()\n\tfor($, v in #)\n\t\treturn\n",
    "/base/own/proc/f%()\n\tfor($ = 1, $ < 4, $++)\n\t\treturn\n",
    "/base/own/proc/f%()\n\tfor($ as num in list(1))\n\t\treturn\n",
];

fn decls(r: &mut Runner) {
    let sc = r.scratch();
    const VALUES: [(&str, &[&str]); 6] = [("/ty", &["ty"]), ("/ty/proc/mp", &["mp"]), ("new /ty", &["ty"]), ("list(/ty, /ty{mv = 1})", &["ty", "mv"]), ("list(/base/own = /ty/sub)", &["own", "sub"]), ("gv", &["gv"])];
    const TY: [(&str, &str); 4] = [("/ty", "ty"), ("/ty/sub", "sub"), ("/base", "base"), ("", "")];
    r.suite(
        "declarations",
        "every form of declaration of globals, variables, parameters and locals naming every type, with every kind of value: the references of each symbol are exactly the lines that name it",
        DECLS.len() as u64 * 6 * 4,
        |i, c| {
            let mut d = Digits(i);
            let (which, (value, vkeys), (ty, tkey)) = (d.take(DECLS.len()), VALUES[d.take(6)], TY[d.take(4)]);
            let mut p = Prog::new(&["a.dm", "b.dm"]);
            let mut syms = Syms::default();
            for (k, l, col) in HEADS {
                syms.of(k).asked.push((0, l, col));
            }
            p.t(HEAD);
            for l in [0, 3, 6, 9] {
                syms.of("ty").uses.insert((0, l));
            }
            for (k, path, col) in [("ty", "/ty", 1), ("sub", "/ty/sub", 4), ("own", "/base/own", 6), ("base", "/base", 1)] {
                let (l, _) = p.place();
                syms.of(k).asked.push((0, l, col));
                p.t(path).t("\n");
            }
            p.t("/base/own/var/f0\n");
            // the same in two files, before and after another declaration
            for file in [0, 1] {
                for (n, form) in [DECLS[which], DECLS[(which + 7) % DECLS.len()], DECLS[which]].into_iter().enumerate() {
                    if !form.contains('%') && (n > 0 || file > 0) {
                        continue; // only its last value counts
                    }
                    p.file(file);
                    if ty.is_empty() && form.contains('*') {
                        continue;
                    }
                    let var = ["gv", "ov", "iv", "iv"][TY.iter().position(|t| t.0 == ty).unwrap()];
                    let text = form.replace('$', var).replace('*', ty.trim_start_matches('/')).replace('@', ty).replace('#', value).replace('%', &format!("{file}{n}"));
                    let mut line = p.place().0;
                    for l in form.split_inclusive('\n') {
                        if (l.contains('@') || l.contains('*')) && !ty.is_empty() {
                            syms.of(tkey).uses.insert((file, line));
                        }
                        if l.contains('$') {
                            syms.of(var).uses.insert((file, line));
                        }
                        if l.contains('#') {
                            for k in vkeys {
                                syms.of(k).uses.insert((file, line));
                            }
                        }
                        line += 1;
                    }
                    p.t(&text);
                }
            }
            decide(c, &sc, &p, &syms, true);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// which declaration is meant

fn members(r: &mut Runner) {
    let sc = r.scratch();
    r.suite(
        "members",
        "every set of types (a chain of three, one with a parent_type, and the root) that mention a variable and a proc, used from every one of them through every kind of receiver: asked from every mention and use, the references are exactly the uses of the same declaration and the implementations exactly its mentions",
        32 * 32 * 5,
        |i, c| {
            let mut d = Digits(i);
            let (vars, procs, ctx) = (d.take(32), d.take(32), d.take(5));
            let mut p = Prog::new(&["a.dm", "b.dm"]);
            let mut y = Syms::default();
            p.t("/t0\n/t0/t1\n/t0/t1/t2\n/ss/parent_type = /t0/t1\n/aa\n");
            for k in 0..4 {
                p.t(TYPES[k]).t("/var").t(TYPES[k]).t("/");
                y.defined(&mut p, &format!("m{k}"), &format!("mm{k}"));
                p.t("\n/var").t(TYPES[k]).t("/");
                y.defined(&mut p, &format!("g{k}"), &format!("gg{k}"));
                p.t("\n");
            }
            let has = |m: usize, t: usize| m >> t & 1 == 1;
            // the declaration that applies: the topmost mention of the chain
            let first = |m: usize, t: usize| CHAIN[t].iter().rev().copied().find(|&a| has(m, a));
            for t in [0usize, 1, 2, 3] {
                if let (true, Some(f)) = (has(vars, t), first(vars, t)) {
                    p.file(t % 2).t(TYPES[t]);
                    p.t(if f == t { "/var/aa/" } else { "/" });
                    y.defined(&mut p, &format!("v{f}"), "vv");
                    p.t(if f == t { "\n" } else { " = 1\n" });
                }
                if let (true, Some(f)) = (has(procs, t), first(procs, t)) {
                    p.file(1 - t % 2).t(TYPES[t]);
                    p.t(if f == t { "/proc/" } else { "/" });
                    y.defined(&mut p, &format!("p{f}"), "pp");
                    p.t("()\n\treturn\n");
                }
            }
            p.file(0);
            if has(vars, 4) {
                p.t("/var/aa/");
                y.defined(&mut p, "v4", "vv");
                p.t("\n");
            }
            if has(procs, 4) {
                p.t("/proc/");
                y.defined(&mut p, "p4", "pp");
                p.t("()\n\treturn\n");
            }
            let own = if ctx == 4 { "" } else { TYPES[ctx] };
            p.file(1).t(&format!("{own}/proc/use{ctx}("));
            for j in 0..4 {
                p.t(&format!("{}/aa{j}, ", &TYPES[j][1..]));
            }
            p.t("ua)\n");
            for j in 0..4 {
                p.t(&format!("\tvar{}/ll{j}\n", TYPES[j]));
            }
            let put = |p: &mut Prog, y: &mut Syms, k: Option<String>, name: &str| match k {
                Some(k) => y.used(p, &k, name, true),
                None => {
                    p.t(name);
                },
            };
            let key = |x: char, t: Option<usize>| t.map(|t| format!("{x}{t}"));
            let (mut v, mut q) = (None, None);
            if ctx < 4 {
                v = first(vars, ctx);
                q = first(procs, ctx);
            }
            let v = key('v', v.or(has(vars, 4).then_some(4)));
            let q = key('p', q.or(has(procs, 4).then_some(4)));
            p.t("\t");
            put(&mut p, &mut y, v.clone(), "vv");
            p.t(" = 1\n\t");
            put(&mut p, &mut y, q.clone(), "pp");
            p.t("(\"[");
            put(&mut p, &mut y, v.clone(), "vv");
            p.t("]\")\n\tglobal.");
            put(&mut p, &mut y, key('v', has(vars, 4).then_some(4)), "vv");
            p.t("++\n\tglobal.");
            put(&mut p, &mut y, key('p', has(procs, 4).then_some(4)), "pp");
            p.t("()\n");
            let mut recv: Vec<(Vec<(String, Option<String>)>, usize)> = vec![];
            if ctx < 4 {
                recv.push((vec![("src".into(), None)], ctx));
            }
            for j in 0..4 {
                let k = (j + 1) % 4;
                let (g, m) = (|j: usize| (format!("gg{j}"), Some(format!("g{j}"))), |j: usize| (format!("mm{j}"), Some(format!("m{j}"))));
                recv.push((vec![(format!("ll{j}"), None)], j));
                recv.push((vec![(format!("aa{j}"), None)], j));
                recv.push((vec![g(j)], j));
                recv.push((vec![("global".into(), None), g(j)], j));
                // from here, members of one's own type only
                if ctx < 4 && CHAIN[ctx].contains(&j) {
                    recv.push((vec![m(j)], j));
                    recv.push((vec![("src".into(), None), m(j)], j));
                }
                if CHAIN[k].contains(&j) {
                    recv.push((vec![(format!("ll{k}"), None), m(j)], j));
                    recv.push((vec![g(k), m(k), m(j)], j));
                }
            }
            for (n, (path, t)) in recv.iter().enumerate() {
                let op = if path[0].0 == "global" { "." } else { [".", "?.", ":"][n % 3] };
                let (v, q) = (key('v', first(vars, *t)), key('p', first(procs, *t)));
                for what in 0..2 {
                    p.t("\t");
                    for (name, k) in path {
                        put(&mut p, &mut y, k.clone(), name);
                        p.t(op);
                    }
                    match what {
                        0 => put(&mut p, &mut y, v.clone(), "vv"),
                        _ => put(&mut p, &mut y, q.clone(), "pp"),
                    }
                    p.t(["++\n", "()\n"][what]);
                }
            }
            p.t("\tua.vv = ua.pp()\n\tll0.un.vv = nope.vv\n");
            decide(c, &sc, &p, &y, i % 8 == 0);
        },
    );
}

fn scopes(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(7, 8);
    let n = count_upto(SOPS.len(), depth);
    const CHUNK: u64 = 48;
    r.suite(
        "scopes",
        "every body of up to N steps (declare, use, open an if, for or catch block, close it) where a local may hide a variable of the object, of its ancestor or a global: only the uses outside of the local's scope are references of the variable",
        n.div_ceil(CHUNK),
        |i, c| {
            let mut p = Prog::new(&["a.dm"]);
            let mut y = Syms::default();
            p.t("/ta\n/tb\n/pp\n/pp/qq\n");
            let mut any = false;
            for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let ops = word(SOPS.len(), j);
                if !ops.iter().any(|&o| SOPS[o] == "use") {
                    continue;
                }
                let mut q = Prog { files: vec![("a.dm".into(), p.files[0].1.clone())], cur: 0, defs: p.defs.clone(), uses: vec![] };
                let mut z = y.clone();
                let key = format!("{j}m");
                q.t(&format!("/pp/k{j}\n/pp/k{j}/var/tb/"));
                z.defined(&mut q, &key, "xx");
                q.t("\n");
                if j % 2 == 0 {
                    q.t(&format!("/pp/k{j}/w\n/pp/k{j}/w/proc/ff()\n"));
                } else {
                    q.t(&format!("/pp/k{j}/proc/ff()\n"));
                }
                if body(&mut q, &ops, j as usize, &def(&key), &Want::Nothing) {
                    any = true;
                    for u in &q.uses {
                        if u.want == def(&key) {
                            z.of(&key).uses.insert((u.file, u.line));
                        }
                    }
                    p = Prog { files: q.files, cur: 0, defs: q.defs, uses: vec![] };
                    y = z;
                }
            }
            if any {
                decide(c, &sc, &p, &y, false);
            }
        },
    );
}

fn overrides(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(4, 5);
    r.suite(
        "overrides",
        "every sequence of up to N definitions of one proc and values of one variable on types of a family, spread over two files: the implementations are exactly those of the same declaration, asked from any of them, and parent calls are no references",
        count_upto(8, depth),
        |i, c| {
            let seq = word(8, i);
            if seq.is_empty() {
                return;
            }
            let site: Vec<(usize, usize)> = seq.iter().map(|x| (x % 4, x / 4)).collect();
            const T: [&str; 4] = ["/t0", "/t0/t1", "/ss", "/uu"];
            const UP: [&[usize]; 4] = [&[], &[0], &[1, 0], &[]];
            let mut p = Prog::new(&["a.dm", "b.dm"]);
            let mut y = Syms::default();
            p.t("/t0\n/t0/t1\n/ss\n\tparent_type = /t0/t1\n/uu\n");
            let any = |t: usize| site.iter().any(|s| s.0 == t);
            // the type of the declaration that applies
            let top = |t: usize| UP[t].iter().rev().copied().find(|&a| any(a)).unwrap_or(t);
            // the declaration comes first in reading order
            let mut order: Vec<usize> = (0..site.len()).collect();
            order.sort_by_key(|&k| (site[k].1, k));
            let mut declared = [false; 4];
            for &k in &order {
                let (t, f) = site[k];
                let declares = top(t) == t && !declared[t];
                declared[t] = true;
                p.file(f).t(T[t]);
                p.t(if declares { "/proc/" } else { "/" });
                y.defined(&mut p, &format!("p{}", top(t)), "pp");
                p.t("()\n\t..()\n\t.()\n\t");
                y.used(&mut p, &format!("p{}", top(t)), "pp", true);
                p.t("()\n");
            }
            let mut declared = [false; 4];
            for &k in &order {
                let (t, f) = site[k];
                if std::mem::replace(&mut declared[t], true) {
                    continue;
                }
                p.file(f).t(T[t]);
                p.t(if top(t) == t { "/var/" } else { "/" });
                y.defined(&mut p, &format!("v{}", top(t)), "vv");
                p.t(" = 1\n");
            }
            decide(c, &sc, &p, &y, true);
        },
    );
}

pub fn check(r: &mut Runner) {
    r.assume("References are compared by file and line, each line once.");
    places(r);
    decls(r);
    members(r);
    scopes(r);
    overrides(r);
}
