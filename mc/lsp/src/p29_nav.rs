//! P29: go to definition and go to type definition lead where the name means.
use crate::lsp::*;
use mc_common::*;
use serde_json::Value;
use std::collections::HashMap;

/// Where a name should lead.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Nothing,
    /// Here at least; names within a macro's replacement stand at its use.
    AtLeast(String),
    Def(String),
}
pub fn def(k: impl Into<String>) -> Want {
    Want::Def(k.into())
}

pub struct Use {
    pub file: usize,
    pub line: u32,
    pub col: u32,
    pub len: u32,
    pub name: String,
    pub want: Want,
    /// The type definition, where it is asked for.
    typ: Option<Want>,
}

/// Program text with the places of definitions and uses noted.
pub struct Prog {
    pub files: Vec<(String, String)>,
    pub cur: usize,
    pub defs: HashMap<String, (usize, u32)>,
    pub uses: Vec<Use>,
}

impl Prog {
    pub fn new(names: &[&str]) -> Prog {
        Prog { files: names.iter().map(|n| (n.to_string(), String::new())).collect(), cur: 0, defs: HashMap::new(), uses: vec![] }
    }
    pub fn file(&mut self, n: usize) -> &mut Self {
        self.cur = n;
        self
    }
    pub fn t(&mut self, s: &str) -> &mut Self {
        self.files[self.cur].1.push_str(s);
        self
    }
    pub fn place(&self) -> (u32, u32) {
        let t = &self.files[self.cur].1;
        let line = t.matches('\n').count() as u32;
        let col = (t.len() - t.rfind('\n').map_or(0, |i| i + 1)) as u32;
        (line, col)
    }
    /// The current line defines this.
    /// Replace a definition.
    fn redef(&mut self, key: impl Into<String>) {
        let (line, _) = self.place();
        self.defs.insert(key.into(), (self.cur, line));
    }
    pub fn d(&mut self, key: impl Into<String>) -> &mut Self {
        let key = key.into();
        let (line, _) = self.place();
        let old = self.defs.insert(key.clone(), (self.cur, line));
        assert!(old.is_none(), "{key} twice");
        self
    }
    pub fn u(&mut self, name: &str, want: Want) -> &mut Self {
        self.ut(name, want, None)
    }
    pub fn ut(&mut self, name: &str, want: Want, typ: Option<Want>) -> &mut Self {
        let (line, col) = self.place();
        self.uses.push(Use { file: self.cur, line, col, len: name.len() as u32, name: name.into(), want, typ });
        self.t(name)
    }
    pub fn show(&self) -> String {
        self.files.iter().map(|(n, t)| format!("--- {n}\n{t}")).collect()
    }
    fn check(&self, w: &mut Workspace, c: &mut Case) -> Res<()> {
        let files: Vec<(&str, &str)> = self.files.iter().map(|(n, t)| (n.as_str(), t.as_str())).collect();
        let mut all = files.clone();
        let env: String = files.iter().filter(|f| !f.0.starts_with("inc")).map(|f| format!("#include \"{}\"\n", f.0)).collect();
        all.push(("x.dme", &env));
        w.load(&all)?;
        let uris: Vec<String> = files.iter().map(|f| w.uri(f.0)).collect();
        let show = |v: &Value| -> String {
            let list: Vec<Value> = match v {
                Value::Null => vec![],
                Value::Array(a) => a.clone(),
                v => vec![v.clone()],
            };
            let mut out: Vec<String> = list
                .iter()
                .map(|l| {
                    let u = l["uri"].as_str().unwrap_or("?");
                    let f = u.rsplit('/').next().unwrap_or("?");
                    format!("{f} line {}", l["range"]["start"]["line"])
                })
                .collect();
            out.sort();
            if out.is_empty() { "nothing".into() } else { out.join(", ") }
        };
        let want = |x: &Want| match x {
            Want::Nothing => "nothing".to_string(),
            Want::Def(k) | Want::AtLeast(k) => {
                let (f, l) = self.defs.get(k).unwrap_or_else(|| panic!("no definition {k}"));
                format!("{} line {l}", self.files[*f].0)
            },
        };
        for u in &self.uses {
            let what = || format!("{} at {}:{}:{}", u.name, self.files[u.file].0, u.line, u.col);
            for off in [0, u.len - 1] {
                if off > 0 && u.len == 1 {
                    continue;
                }
                c.trans(1);
                let v = w.server.at("textDocument/definition", &uris[u.file], u.line, u.col + off)?;
                c.validated(1);
                let (e, mut a) = (want(&u.want), show(&v));
                if let Want::AtLeast(_) = u.want {
                    if a.split(", ").any(|x| x == e) {
                        a = e.clone();
                    }
                }
                c.check_eq(&format!("the definition of {} (+{off})", what()), &e, &a);
                c.outcome(&show(&v));
            }
            if let Some(t) = &u.typ {
                c.trans(1);
                let v = w.server.at("textDocument/typeDefinition", &uris[u.file], u.line, u.col)?;
                c.validated(1);
                c.check_eq(&format!("the type definition of {}", what()), &want(t), &show(&v));
            }
        }
        Ok(())
    }
}

fn decide(c: &mut Case, scratch: &std::path::Path, p: &Prog) {
    c.input(|| p.show());
    if let Err(e) = with_workspace(scratch, |w| p.check(w, c)) {
        c.fail("server", e);
    }
}

// ---------------------------------------------------------------------------------------------
// local scopes

pub const SOPS: [&str; 6] = ["var", "use", "if", "for", "catch", "end"];

/// Write one body; false if it isn't a program (unbalanced, declared twice in one block).
pub fn body(p: &mut Prog, ops: &[usize], proc_no: usize, outer: &Want, otype: &Want) -> bool {
    #[derive(Clone)]
    struct Scope {
        own: Option<String>,
        /// a loop's variable after its loop: neither in nor out of scope for sure
        murky: bool,
        header: Option<String>,
    }
    let mut stack = vec![Scope { own: None, murky: false, header: None }];
    let mut n = 0;
    let mut last_open = false;
    for &o in ops {
        let ind = "\t".repeat(stack.len() + 1);
        let ind = &ind[1..];
        match SOPS[o] {
            "var" => {
                let s = stack.last_mut().unwrap();
                if s.own.is_some() {
                    return false;
                }
                n += 1;
                let key = format!("{proc_no}l{n}");
                let ty = ["", "ta/", "tb/"][n % 3];
                p.t(ind).t("var/").t(ty).d(&key).t("xx = 1\n");
                s.own = Some(key);
                s.murky = false;
                last_open = false;
            },
            "use" => {
                let mut want = outer.clone();
                let mut typ = otype.clone();
                let mut murky = false;
                for s in stack.iter().rev() {
                    if s.murky {
                        murky = true;
                        break;
                    }
                    if let Some(k) = s.own.clone().or(s.header.clone()) {
                        let num: usize = k.rsplit('l').next().unwrap().parse().unwrap();
                        typ = [Want::Nothing, def("ta"), def("tb")][num % 3].clone();
                        want = Want::Def(k);
                        break;
                    }
                }
                p.t(ind);
                if murky {
                    p.t("xx++\n");
                } else {
                    p.ut("xx", want.clone(), Some(typ.clone())).t("++\n");
                }
                last_open = false;
            },
            "if" => {
                p.t(ind).t("if(1)\n");
                stack.push(Scope { own: None, murky: false, header: None });
                last_open = true;
            },
            "for" => {
                if stack.last().unwrap().own.is_some() {
                    return false;
                }
                n += 1;
                let key = format!("{proc_no}l{n}");
                let ty = ["", "ta/", "tb/"][n % 3];
                p.t(ind).t("for(var/").t(ty).d(&key).t("xx in list(1))\n");
                stack.last_mut().unwrap().murky = true;
                stack.push(Scope { own: None, murky: false, header: Some(key) });
                last_open = true;
            },
            "catch" => {
                n += 1;
                let key = format!("{proc_no}l{n}");
                let ty = ["", "ta/", "tb/"][n % 3];
                p.t(ind).t("try\n").t(ind).t("\tsleep(1)\n").t(ind).t("catch(var/").t(ty).d(&key).t("xx)\n");
                stack.push(Scope { own: None, murky: false, header: Some(key) });
                last_open = true;
            },
            _ => {
                if stack.len() == 1 || last_open {
                    return false;
                }
                stack.pop();
                last_open = false;
            },
        }
    }
    !last_open
}

fn scopes(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(7, 8);
    let n = count_upto(SOPS.len(), depth);
    const CHUNK: u64 = 48;
    r.suite(
        "scopes",
        "every body of up to N steps (declare, use, open an if, for or catch block, close it) under every combination of a parameter, a variable of the object, of its ancestor and a global of the same name: each use leads to the innermost declaration before it, and its type definition to that declaration's type",
        n.div_ceil(CHUNK),
        |i, c| {
            let mut p = Prog::new(&["a.dm"]);
            p.d("ta").t("/ta\n").d("tb").t("/tb\n").t("/pp\n/pp/qq\n");
            p.d("vp").t("/pp/var/ta/yy\n");
            p.d("gx").t("/var/tb/zz\n");
            // the outer meaning differs by the place of the name
            p.d("none").t("\n");
            let mut any = false;
            for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let ops = word(SOPS.len(), j);
                if !ops.iter().any(|&o| SOPS[o] == "use") {
                    continue;
                }
                let outer = (j % 5) as usize;
                let mut q = Prog { files: vec![("a.dm".into(), p.files[0].1.clone())], cur: 0, defs: p.defs.clone(), uses: vec![] };
                // each proc sits on its own type, so that the surroundings can differ
                q.t(&format!("/pp/k{j}\n"));
                let (w, t) = match outer {
                    0 => (Want::Nothing, Want::Nothing),
                    1 => {
                        q.d(format!("{j}m")).t(&format!("/pp/k{j}/var/tb/xx\n"));
                        (def(format!("{j}m")), def("tb"))
                    },
                    2 => {
                        q.d(format!("{j}m")).t(&format!("/pp/k{j}/var/ta/xx\n")).t(&format!("/pp/k{j}/w\n"));
                        (def(format!("{j}m")), def("ta"))
                    },
                    _ => (def(format!("{j}p")), def("ta")),
                };
                let tail = if outer == 2 { "/w" } else { "" };
                q.t(&format!("/pp/k{j}{tail}/proc/ff("));
                match outer {
                    3 => {
                        q.d(format!("{j}p")).t("ta/xx");
                    },
                    4 => {
                        q.d(format!("{j}p")).t("oo, ta/xx = 2");
                    },
                    _ => {},
                }
                q.t(")\n");
                if body(&mut q, &ops, j as usize, &w, &t) {
                    any = true;
                    p.files = q.files;
                    p.defs = q.defs;
                    p.uses.append(&mut q.uses);
                }
            }
            if any {
                decide(c, &sc, &p);
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// members

pub const TYPES: [&str; 4] = ["/t0", "/t0/t1", "/t0/t1/t2", "/ss"];
/// Nearest first.
pub const CHAIN: [&[usize]; 4] = [&[0], &[1, 0], &[2, 1, 0], &[3, 1, 0]];

fn members(r: &mut Runner) {
    let sc = r.scratch();
    r.suite(
        "members",
        "every set of types (a chain of three, one with a parent_type, and the root) that mention a variable and a proc, in either of two files read in either order: uses through every kind of receiver lead to the nearest mention at or above its static type, or nowhere, and type definitions to the declared type",
        32 * 32 * 2,
        |i, c| {
            let mut d = Digits(i);
            let (vars, procs, order) = (d.take(32), d.take(32), d.take(2));
            let mut p = Prog::new(if order == 0 { &["a.dm", "b.dm"] } else { &["b.dm", "a.dm"] });
            let (fd, fu) = (order, 1 - order);
            p.file(fd);
            for t in TYPES {
                p.d(t).t(t).t("\n");
            }
            p.t("/ss/parent_type = /t0/t1\n");
            p.d("/aa").t("/aa\n");
            for (k, t) in TYPES.iter().enumerate() {
                // the same names at every type, so that receivers can be chained
                if k == 0 {
                    for (j, u) in TYPES.iter().enumerate() {
                        p.d(format!("m{j}")).t(&format!("{t}/var{u}/mm{j}\n"));
                    }
                    p.d("L").t("/t0/var/list/ll\n");
                    p.d("un").t("/t0/var/un\n");
                }
            }
            for j in 0..4 {
                p.d(format!("g{j}")).t(&format!("/var{}/gg{j}\n", TYPES[j]));
            }
            let has = |m: usize, t: usize| m >> t & 1 == 1;
            let nearest = |m: usize, t: usize| CHAIN[t].iter().copied().find(|&a| has(m, a));
            // the first mention of a chain declares
            for t in [0usize, 1, 2, 3] {
                let first = CHAIN[t].iter().rev().copied().find(|&a| has(vars, a));
                if has(vars, t) {
                    p.file(if t % 2 == 0 { fd } else { fu });
                    p.d(format!("v{t}"));
                    if first == Some(t) { p.t(&format!("{}/var/aa/vv\n", TYPES[t])) } else { p.t(&format!("{}/vv = {t}\n", TYPES[t])) };
                }
                let first = CHAIN[t].iter().rev().copied().find(|&a| has(procs, a));
                if has(procs, t) {
                    p.file(if t % 2 == 1 { fd } else { fu });
                    p.d(format!("p{t}"));
                    if first == Some(t) { p.t(&format!("{}/proc/pp()\n\treturn\n", TYPES[t])) } else { p.t(&format!("{}/pp()\n\treturn\n", TYPES[t])) };
                }
            }
            p.file(fd);
            if has(vars, 4) {
                p.d("v4").t("/var/aa/vv\n");
            }
            if has(procs, 4) {
                p.d("p4").t("/proc/pp()\n\treturn\n");
            }
            let key = |x: char, t: Option<usize>| t.map_or(Want::Nothing, |t| def(format!("{x}{t}")));
            let typ = |w: &Want| if *w == Want::Nothing { Want::Nothing } else { def("/aa") };
            p.file(fu);
            for ctx in 0..5 {
                let own = if ctx == 4 { "" } else { TYPES[ctx] };
                p.t(&format!("{own}/proc/use{ctx}("));
                for j in 0..4 {
                    p.d(format!("{ctx}a{j}")).t(&format!("{}{}/aa{j}", if j > 0 { ", " } else { "" }, &TYPES[j][1..]));
                }
                p.t(", ua)\n");
                for j in 0..4 {
                    p.d(format!("{ctx}l{j}")).t(&format!("\tvar{}/ll{j}\n", TYPES[j]));
                }
                // unscoped
                let (mut v, mut q) = (None, None);
                if ctx < 4 {
                    v = nearest(vars, ctx);
                    q = nearest(procs, ctx);
                }
                v = v.or(has(vars, 4).then_some(4));
                q = q.or(has(procs, 4).then_some(4));
                let (vw, qw) = (key('v', v), key('p', q));
                p.t("\t").ut("vv", vw.clone(), Some(typ(&vw))).t(" = 1\n\t").u("pp", qw.clone()).t("()\n");
                p.t("\tif(!").ut("vv", vw.clone(), Some(typ(&vw))).t(" + ").u("pp", qw.clone()).t("(1, ").u("vv", vw.clone()).t("))\n\t\treturn \"a[").u("vv", vw.clone()).t("]b\"\n");
                // global.
                let gw = (key('v', has(vars, 4).then_some(4)), key('p', has(procs, 4).then_some(4)));
                p.t("\tglobal.").ut("vv", gw.0.clone(), Some(typ(&gw.0))).t(" = 1\n\tglobal.").u("pp", gw.1.clone()).t("()\n");
                // receivers
                let mut recv: Vec<(Vec<(String, Want, Option<usize>)>, usize)> = vec![];
                if ctx < 4 {
                    recv.push((vec![("src".into(), Want::Nothing, None)], ctx));
                }
                for j in 0..4 {
                    recv.push((vec![(format!("ll{j}"), def(format!("{ctx}l{j}")), Some(j))], j));
                    recv.push((vec![(format!("aa{j}"), def(format!("{ctx}a{j}")), Some(j))], j));
                    recv.push((vec![(format!("gg{j}"), def(format!("g{j}")), Some(j))], j));
                    recv.push((vec![("global".into(), Want::Nothing, None), (format!("gg{j}"), def(format!("g{j}")), Some(j))], j));
                    if ctx < 4 {
                        recv.push((vec![(format!("mm{j}"), def(format!("m{j}")), Some(j))], j));
                        recv.push((vec![("src".into(), Want::Nothing, None), (format!("mm{j}"), def(format!("m{j}")), Some(j))], j));
                    }
                    let k = (j + 1) % 4;
                    recv.push((vec![(format!("ll{k}"), def(format!("{ctx}l{k}")), Some(k)), (format!("mm{j}"), def(format!("m{j}")), Some(j))], j));
                    recv.push((vec![(format!("gg{k}"), def(format!("g{k}")), Some(k)), (format!("mm{k}"), def(format!("m{k}")), Some(k)), (format!("mm{j}"), def(format!("m{j}")), Some(j))], j));
                }
                for (n, (path, t)) in recv.iter().enumerate() {
                    let op = [".", "?."][n % 2];
                    let vw = key('v', nearest(vars, *t));
                    let qw = key('p', nearest(procs, *t));
                    let write = |p: &mut Prog| {
                        for (name, w, ty) in path {
                            match ty {
                                Some(ty) => p.ut(name, w.clone(), Some(def(TYPES[*ty]))),
                                None => p.t(name),
                            };
                            p.t(op);
                        }
                    };
                    p.t("\t");
                    write(&mut p);
                    p.ut("vv", vw.clone(), Some(typ(&vw))).t(" = (");
                    write(&mut p);
                    p.u("pp", qw).t("(");
                    write(&mut p);
                    p.u("vv", vw).t("))\n");
                }
                // nothing is known of these
                p.t("\tua.").u("vv", Want::Nothing).t(" = ua.").u("pp", Want::Nothing).t("()\n");
                p.t("\tll0.un.").u("vv", Want::Nothing).t(" = nope.").u("vv", Want::Nothing).t("\n");
            }
            decide(c, &sc, &p);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// overrides

fn overrides(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(4, 5);
    // each definition: type 0..3 (0 /t0, 1 /t0/t1, 2 /ss) or the root, in one of two files
    let n = count_upto(8, depth);
    r.suite(
        "overrides",
        "every sequence of up to N definitions of one proc on types of a family and at the root, spread over two files, the defining one in any place: ..() leads to the definition before it on the same type, else to the last of the nearest ancestor, parameters to those of the same definition, and calls to the last definition",
        n,
        |i, c| {
            let seq = word(8, i);
            if seq.is_empty() {
                return;
            }
            let mut d = Digits(i.wrapping_mul(0x9E37_79B9) >> 7);
            let site: Vec<(usize, usize)> = seq.iter().map(|x| (x % 4, x / 4)).collect();
            const T: [&str; 4] = ["/t0", "/t0/t1", "/ss", ""];
            const UP: [&[usize]; 4] = [&[], &[0], &[1, 0], &[]];
            // which one carries the declaration: the first type of each chain that has any, at any of its places
            let on = |t: usize| -> Vec<usize> {
                // in reading order: file 0 before file 1
                let mut v: Vec<usize> = (0..site.len()).filter(|&k| site[k].0 == t).collect();
                v.sort_by_key(|&k| (site[k].1, k));
                v
            };
            let declares = |t: usize| !on(t).is_empty() && UP[t].iter().all(|&a| on(a).is_empty());
            let mut order: Vec<Vec<usize>> = vec![];
            let mut decl: Vec<Option<usize>> = vec![];
            for t in 0..4 {
                let mut v = on(t);
                if declares(t) {
                    let k = d.take(v.len());
                    let x = v.remove(k);
                    v.insert(0, x);
                    decl.push(Some(x));
                } else {
                    decl.push(None);
                }
                order.push(v);
            }
            let parent = |k: usize| -> Want {
                let t = site[k].0;
                let at = order[t].iter().position(|&x| x == k).unwrap();
                if at > 0 {
                    return def(format!("d{}", order[t][at - 1]));
                }
                UP[t].iter().find_map(|&a| order[a].last()).map_or(Want::Nothing, |x| def(format!("d{x}")))
            };
            let last = |t: usize| -> Want {
                std::iter::once(&t).chain(UP[t]).find_map(|&a| order[a].last()).or(order[3].last()).map_or(Want::Nothing, |x| def(format!("d{x}")))
            };
            let mut p = Prog::new(&["a.dm", "b.dm"]);
            p.t("/t0\n/t0/t1\n/ss\n\tparent_type = /t0/t1\n");
            for (k, &(t, f)) in site.iter().enumerate() {
                p.file(f);
                let kw = if decl[t] == Some(k) { "/proc" } else { "" };
                // a header of the override leads to the definition it overrides on an ancestor
                let up = UP[t].iter().find_map(|&a| order[a].last()).map_or(Want::Nothing, |x| def(format!("d{x}")));
                p.t(T[t]).t(kw).t("/").d(format!("d{k}"));
                if decl[t] == Some(k) { p.t("pp") } else { p.u("pp", up) };
                p.t("(").t("qq, rr)\n");
                p.t("\tqq = ").u("..", parent(k)).t("(").u("qq", def(format!("d{k}"))).t(")\n");
                p.t("\tif(").u("rr", def(format!("d{k}"))).t(")\n\t\t").u("pp", last(t)).t("(").u("..", parent(k)).t("())\n");
            }
            decide(c, &sc, &p);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// paths

const PT: [&[&str]; 5] = [&["ta"], &["ta", "tb"], &["ta", "tb", "tc"], &["td"], &["td", "tb"]];

fn put_path(p: &mut Prog, path: &[&str]) {
    put_from(p, path, 0, true);
}
/// The segments of a path after the first `from`, each leading to its type.
fn put_from(p: &mut Prog, path: &[&str], from: usize, lead: bool) {
    for (n, s) in path.iter().enumerate().skip(from) {
        if n > from || lead {
            p.t("/");
        }
        p.u(s, def(path[..=n].join("/")));
    }
}

fn paths(r: &mut Runner) {
    let sc = r.scratch();
    // header: a type, how it is split over nested blocks, what stands in it, a type used there
    r.suite(
        "paths",
        "every way of spreading a type's path over nested blocks, absolute or relative, with every kind of declaration inside naming every type, and every use of every type's path in a proc there: each segment leads to the type it ends, keywords nowhere, and relative paths are searched from the surrounding type upwards",
        5 * 16 * 5,
        |i, c| {
            let mut d = Digits(i);
            let (t, split, u) = (d.take(5), d.take(16), d.take(5));
            let full = PT[t];
            if split >> 1 >= 1 << (full.len() - 1) {
                return;
            }
            let mut p = Prog::new(&["a.dm", "b.dm"]);
            for ty in PT {
                p.d(ty.join("/")).t(&format!("/{}\n", ty.join("/")));
            }
            p.d("pp").t("/ta/proc/pp()\n\treturn\n");
            p.d("pd").t("/td/proc/pp()\n\treturn\n");
            p.file(1);
            // the header
            let mut ind = String::new();
            let mut from = 0;
            for k in 1..=full.len() {
                if k == full.len() || split >> k & 1 == 1 {
                    p.t(&ind);
                    if from > 0 {
                        // a type with a header of its own in a block is defined by the shorter header
                        p.redef(full[..k].join("/"));
                    }
                    put_from(&mut p, &full[..k], from, from == 0 && split & 1 == 1);
                    p.t("\n");
                    from = k;
                    ind.push('\t');
                }
            }
            let used = PT[u];
            let top = if full[0] == "ta" { "pp" } else { "pd" };
            // declarations
            p.t(&ind).u("var", Want::Nothing);
            put_path(&mut p, used);
            p.t("/v1\n");
            p.t(&ind).t("var/list");
            put_path(&mut p, used);
            p.t("/v2\n");
            p.t(&ind).t("var/static");
            p.t("/v5 = list(");
            put_path(&mut p, used);
            p.t(")\n");
            p.t(&ind).u("var", Want::Nothing).t("\n").t(&ind).t("\t");
            put_from(&mut p, used, 0, false);
            p.t("/v3\n").t(&ind).t("\t");
            put_from(&mut p, used, 0, false);
            p.t("\n").t(&ind).t("\t\tv4\n");
            p.t(&ind).t("v1 = ");
            put_path(&mut p, used);
            p.t("\n");
            // headers of procs
            let above = if full.len() > 1 { def(top) } else { Want::Nothing };
            let over = t == 0 || t == 3;
            if over {
                p.d("over");
            }
            let last = |own: usize, key: &str| def(if t == own { "over" } else { key });
            p.t(&ind).u("pp", above).t("(");
            put_from(&mut p, used, 0, false);
            p.t("/a1, var");
            put_path(&mut p, used);
            p.t("/a2 = ");
            put_path(&mut p, used);
            p.t(")\n").t(&ind).t("\treturn\n");
            p.t(&ind).u("proc", Want::Nothing).t("\n").t(&ind).t("\tpq()\n").t(&ind).t("\t\treturn\n");
            p.t(&ind).u("proc", Want::Nothing).t("/pr()\n");
            let ind = format!("{ind}\t");
            // uses in a body
            let line = |p: &mut Prog, a: &str, b: &str| {
                p.t(&ind).t(a);
                put_path(p, used);
                p.t(b).t("\n");
            };
            line(&mut p, "var", "/w1");
            line(&mut p, "var/list", "/w2 = list()");
            line(&mut p, "w1 = ", "");
            line(&mut p, "w1 = new ", "");
            line(&mut p, "w1 = new ", "(1)");
            line(&mut p, "w1 = new ", "{name = 2}(1)");
            line(&mut p, "w1 = istype(w1, ", ")");
            line(&mut p, "w1 = list(1, ", " = 2, 3)");
            line(&mut p, "w1 = locate(", ") in world");
            line(&mut p, "for(var", "/w3 in w2) w1++");
            line(&mut p, "w2 += (w1 ? ", " : null)");
            line(&mut p, "if(w1 == ", ") return");
            p.t(&ind).t("switch(w1)\n\t");
            line(&mut p, "if(", ")");
            p.t(&ind).t("\t\treturn\n");
            p.t(&ind).t("w1 = ");
            put_path(&mut p, used);
            p.t("{v1 = ");
            put_path(&mut p, used);
            p.t("}\n");
            // paths of procs
            p.t(&ind).t("w1 = /ta/").u("proc", Want::Nothing).t("/").u("pp", last(0, "pp")).t("\n");
            p.t(&ind).t("w1 = /td/proc/").u("pp", last(3, "pd")).t("\n");
            // relative paths
            for name in ["ta", "tb", "tc", "td"] {
                let mut want = Want::Nothing;
                for k in (0..=full.len()).rev() {
                    let mut q = full[..k].to_vec();
                    q.push(name);
                    if PT.contains(&&q[..]) {
                        want = def(q.join("/"));
                        break;
                    }
                }
                if want == Want::Nothing {
                    continue;
                }
                p.t(&ind).t("w1 = .").u(name, want.clone()).t("\n");
                p.t(&ind).t("w1 = new .").u(name, want.clone()).t("(1)\n");
                if let Want::Def(k) = &want {
                    let mut q: Vec<&str> = k.split('/').collect();
                    let from = q.len();
                    q.push(if name == "ta" || name == "td" { "tb" } else { "tc" });
                    if PT.contains(&&q[..]) {
                        p.t(&ind).t("w1 = list(.").u(name, want.clone());
                        put_from(&mut p, &q, from, true);
                        p.t(")\n");
                    }
                }
            }
            // the next entry is at the root again
            p.u("td", def("td")).t("\n\tvar/");
            put_from(&mut p, used, 0, false);
            p.t("/v9\n");
            decide(c, &sc, &p);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// macros

fn macros(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(7, 8);
    const M: [&str; 4] = ["define", "undef", "call", "use"];
    r.suite(
        "macros",
        "every sequence of N steps defining, undefining and using a macro, spread over two files, one of which includes a third in its middle: each use leads to the definition in force there, or nowhere",
        pow(M.len(), depth) * 2,
        |i, c| {
            let mut d = Digits(i);
            let inc = d.flag();
            let ops: Vec<&str> = (0..depth).map(|_| M[d.take(4)]).collect();
            let mut p = Prog::new(&["a.dm", "inc.dm", "b.dm"]);
            let mut now: Option<(String, bool)> = None;
            for (k, op) in ops.iter().enumerate() {
                // reading order: a (first part), inc, a (second part), b
                let f = match (k * 4 / depth, inc) {
                    (0, _) => 0,
                    (1, true) => 1,
                    (1, false) | (2, _) => 0,
                    _ => 2,
                };
                if f == 1 && !p.files[0].1.contains("#include") {
                    p.file(0).t("#include \"inc.dm\"\n");
                }
                p.file(f);
                match *op {
                    "define" => {
                        if now.is_some() {
                            p.t("#undef MM\n");
                        }
                        p.d(format!("m{k}")).t("#define MM 1\n");
                        now = Some((format!("m{k}"), false));
                    },
                    "call" => {
                        if now.is_some() {
                            p.t("#undef MM\n");
                        }
                        p.d(format!("m{k}")).t("#define MM(X) (X)\n");
                        now = Some((format!("m{k}"), true));
                    },
                    "undef" => {
                        if now.take().is_none() {
                            return;
                        }
                        p.t("#undef MM\n");
                    },
                    _ => match &now {
                        Some((key, true)) => {
                            p.t(&format!("/var/g{k} = 2 + ")).u("MM", Want::AtLeast(key.clone())).t("(3)\n");
                            p.t(&format!("/proc/h{k}(a)\n\tvar/b = ")).u("MM", Want::AtLeast(key.clone())).t("(a)\n");
                        },
                        Some((key, false)) => {
                            p.t(&format!("/var/g{k} = 2 + ")).u("MM", Want::AtLeast(key.clone())).t("\n");
                        },
                        None => {
                            p.t(&format!("/proc/h{k}(a)\n\ta = ")).u("MM", Want::Nothing).t("\n");
                        },
                    },
                }
            }
            if p.uses.is_empty() {
                return;
            }
            decide(c, &sc, &p);
        },
    );
}

pub fn check(r: &mut Runner) {
    r.assume("The client shows locations by file and line; the column within the line is not compared.");
    members(r);
    overrides(r);
    paths(r);
    macros(r);
    scopes(r);
}
