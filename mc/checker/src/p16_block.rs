//! P16: a proc that must not sleep is reported exactly when it can block.
//!
//! The reference executes the programs abstractly: every call is dispatched on the actual type of
//! the object it is made on (any subtype of the declared one), and `src` keeps its type across
//! calls to oneself and to the parent.
use crate::util::*;
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Sleep,
    /// `name()` from a method: the object's own method, or the global proc
    Call(&'static str),
    Parent,
    Dot,
    /// `var/T/o` ... `o.name()`
    On(usize, &'static str),
    Spawn(&'static str),
    SpawnSleep,
    New(usize),
}

#[derive(Clone, Copy, PartialEq, Default, Debug)]
enum Flag {
    #[default]
    None,
    Restrict,
    NoWait,
    Allowed,
}

#[derive(Clone, Debug)]
struct Pr {
    ty: Option<usize>,
    name: &'static str,
    flag: Flag,
    body: Vec<St>,
}

struct World {
    types: &'static [(&'static str, Option<usize>)],
    procs: Vec<Pr>,
}

impl World {
    fn declared_here(&self, i: usize) -> bool {
        let p = &self.procs[i];
        self.parent(i).is_none() && p.name != "New"
    }
    /// the implementation a call of `name` on an object of type `t` runs
    fn resolve(&self, t: Option<usize>, name: &str) -> Option<usize> {
        let mut t = t;
        while let Some(k) = t {
            if let Some(i) = self.procs.iter().rposition(|p| p.ty == Some(k) && p.name == name) {
                return Some(i);
            }
            t = self.types[k].1;
        }
        None
    }
    fn global(&self, name: &str) -> Option<usize> {
        self.procs.iter().rposition(|p| p.ty.is_none() && p.name == name)
    }
    fn parent(&self, i: usize) -> Option<usize> {
        let p = &self.procs[i];
        let t = p.ty?;
        self.procs[..i].iter().rposition(|q| q.ty == Some(t) && q.name == p.name).or_else(|| self.resolve(self.types[t].1, p.name))
    }
    fn subtypes(&self, t: usize) -> Vec<usize> {
        (0..self.types.len())
            .filter(|k| {
                let mut c = Some(*k);
                while let Some(x) = c {
                    if x == t {
                        return true;
                    }
                    c = self.types[x].1;
                }
                false
            })
            .collect()
    }
    fn restricted(&self, i: usize) -> bool {
        self.procs[i].flag == Flag::Restrict || self.parent(i).is_some_and(|p| self.restricted(p))
    }
    fn blocks(&self, i: usize) -> bool {
        self.procs[i].body.contains(&St::Sleep)
    }
    /// the blocking procs that can run, unguarded, on behalf of `root` when every call is taken by
    /// itself: it may run any implementation on an object of the type known for its receiver
    fn may(&self, root: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut seen = HashSet::new();
        let mut todo = vec![(root, self.procs[root].ty)];
        while let Some((i, bound)) = todo.pop() {
            if !seen.insert((i, bound)) {
                continue;
            }
            let p = &self.procs[i];
            if i != root {
                if matches!(p.flag, Flag::NoWait | Flag::Allowed) || self.restricted(i) {
                    continue;
                }
                if self.blocks(i) {
                    out.insert(i);
                    continue;
                }
            }
            let call = |n: &str, bound: usize| {
                let base = self.resolve(Some(bound), n).unwrap();
                let mut v = vec![(base, Some(bound))];
                v.extend(self.subtypes(bound).into_iter().filter_map(|d| self.resolve(Some(d), n)).filter(|q| *q != base).map(|q| (q, self.procs[q].ty)));
                v
            };
            for s in &p.body {
                match *s {
                    St::Sleep | St::Spawn(_) | St::SpawnSleep => {},
                    St::Call(n) => {
                        if self.resolve(p.ty, n).is_some() {
                            todo.extend(call(n, bound.unwrap()));
                        } else {
                            todo.extend(self.global(n).map(|g| (g, None)));
                        }
                    },
                    St::Parent => todo.extend(self.parent(i).map(|q| (q, bound))),
                    St::Dot => todo.push((i, bound)),
                    St::On(t, n) => todo.extend(call(n, t)),
                    St::New(t) => todo.extend(self.resolve(Some(t), "New").map(|q| (q, Some(t)))),
                }
            }
        }
        out
    }
    /// the blocking procs that run, unguarded, on behalf of `root` on some actual object and
    /// are not hidden by another report: exploration ends at a blocking proc, and overrides of a
    /// method that itself blocks are not looked at
    fn must(&self, root: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut seen = HashSet::new();
        // proc, actual type of src, declared type of src
        let mut todo: Vec<(usize, Option<usize>, Option<usize>)> = match self.procs[root].ty {
            None => vec![(root, None, None)],
            Some(t) => self.subtypes(t).into_iter().map(|d| (root, Some(d), Some(t))).collect(),
        };
        while let Some((i, this, bound)) = todo.pop() {
            if !seen.insert((i, this, bound)) {
                continue;
            }
            let p = &self.procs[i];
            if i != root {
                if matches!(p.flag, Flag::NoWait | Flag::Allowed) || self.restricted(i) {
                    continue;
                }
                if self.blocks(i) {
                    out.insert(i);
                    continue;
                }
            }
            // a call of `n` on an object declared as `bound` that is in fact a `this`
            let call = |n: &str, this: Option<usize>, bound: Option<usize>| {
                let base = self.resolve(bound, n).unwrap();
                let q = &self.procs[base];
                let ends = self.blocks(base) || matches!(q.flag, Flag::NoWait | Flag::Allowed) || self.restricted(base);
                if ends {
                    return (base, this, bound);
                }
                let q = self.resolve(this, n).unwrap();
                (q, this, if q == base { bound } else { self.procs[q].ty })
            };
            for s in &p.body {
                match *s {
                    St::Sleep | St::Spawn(_) | St::SpawnSleep => {},
                    St::Call(n) => {
                        if self.resolve(p.ty, n).is_some() {
                            todo.push(call(n, this, bound));
                        } else if let Some(g) = self.global(n) {
                            todo.push((g, None, None));
                        }
                    },
                    St::Parent => todo.extend(self.parent(i).map(|q| (q, this, bound))),
                    St::Dot => todo.push((i, this, bound)),
                    St::On(t, n) => {
                        for d in self.subtypes(t) {
                            todo.push(call(n, Some(d), Some(t)));
                        }
                    },
                    St::New(t) => todo.extend(self.resolve(Some(t), "New").map(|q| (q, Some(t), Some(t)))),
                }
            }
        }
        out
    }
    fn path(&self, i: usize) -> String {
        let p = &self.procs[i];
        let same: Vec<usize> = (0..self.procs.len()).filter(|k| self.procs[*k].ty == p.ty && self.procs[*k].name == p.name).collect();
        let nth = if same.len() > 1 { format!("[{}/{}]", same.iter().position(|k| *k == i).unwrap(), same.len()) } else { String::new() };
        format!("{}/proc/{}{nth}", p.ty.map_or("", |t| self.types[t].0), p.name)
    }
    /// the program's text and the line of each proc
    fn text(&self) -> (String, Vec<u32>) {
        let mut s = String::new();
        let mut line = 1;
        let mut lines = vec![];
        for (k, (t, _)) in self.types.iter().enumerate() {
            let _ = k;
            s += &format!("{t}\n");
            line += 1;
        }
        for (i, p) in self.procs.iter().enumerate() {
            let head = s.len();
            lines.push(line);
            s += &format!("{}/{}{}()\n", p.ty.map_or("", |t| self.types[t].0), if self.declared_here(i) { "proc/" } else { "" }, gname(p));
            match p.flag {
                Flag::None => {},
                Flag::Restrict => s += "\tset SpacemanDMM_should_not_sleep = 1\n",
                Flag::NoWait => s += "\tset waitfor = 0\n",
                Flag::Allowed => s += "\tset SpacemanDMM_allowed_to_sleep = 1\n",
            }
            for (n, st) in p.body.iter().enumerate() {
                let call = |n: &str| if self.resolve(p.ty, n).is_some() { n.to_owned() } else { format!("@{n}") };
                match st {
                    St::Sleep => s += "\tsleep(1)\n",
                    St::Call(n) => s += &format!("\t{}()\n", call(n)),
                    St::Parent => s += "\t..()\n",
                    St::Dot => s += "\t.()\n",
                    St::On(t, m) => s += &format!("\tvar{}/o{n}\n\to{n}.{m}()\n", self.types[*t].0),
                    St::Spawn(n) => s += &format!("\tspawn(1)\n\t\t{}()\n", call(n)),
                    St::SpawnSleep => s += "\tspawn(1)\n\t\tsleep(1)\n",
                    St::New(t) => s += &format!("\tnew {}\n", self.types[*t].0),
                }
            }
            if p.body.is_empty() {
                s += "\treturn\n";
            }
            line += s[head..].matches('\n').count() as u32;
        }
        (s, lines)
    }
    fn program(&self) -> (String, Want) {
        let (text, lines) = self.text();
        let mut w = Want::default();
        let names = |s: BTreeSet<usize>| s.into_iter().map(|b| fix(&self.path(b), &self.procs[b])).collect::<BTreeSet<String>>();
        for i in 0..self.procs.len() {
            if self.restricted(i) {
                let name = fix(&self.path(i), &self.procs[i]);
                w.roots.insert(lines[i], (name, self.blocks(i), names(self.may(i)), names(self.must(i))));
            }
        }
        (text, w)
    }
}

fn gname(p: &Pr) -> String {
    if p.ty.is_none() { format!("@{}", p.name) } else { p.name.to_owned() }
}

fn fix(path: &str, p: &Pr) -> String {
    if p.ty.is_none() { format!("/proc/@{}", p.name) } else { path.to_owned() }
}

/// line of a restricted proc -> its name, whether it blocks by itself, the blocking procs it
/// can reach, and those of them that must be reported
#[derive(Default)]
struct Want {
    roots: BTreeMap<u32, (String, bool, BTreeSet<String>, BTreeSet<String>)>,
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut direct: BTreeMap<u32, usize> = BTreeMap::new();
    let mut named: BTreeMap<String, usize> = BTreeMap::new();
    for d in got {
        if d.kind == "redefined_proc" {
            continue;
        }
        if d.kind != "must_not_sleep" {
            return Err(("other diagnostic".into(), format!("unexpected: {}", d.show())));
        }
        let Some((root, blocks, reach, _)) = w.roots.get(&d.line) else {
            return Err(("not a restricted proc".into(), format!("reported against a proc that may sleep: {}", d.show())));
        };
        if !d.text.starts_with(&format!("{root} ")) {
            return Err(("wrong name".into(), format!("the restricted proc here is {root}: {}", d.show())));
        }
        if d.text.ends_with("blocking built-in(s)") {
            if !blocks {
                return Err(("false direct report".into(), format!("{root} does not itself block: {}", d.show())));
            }
            *direct.entry(d.line).or_default() += 1;
        } else {
            let b = d.text.rsplit(' ').next().unwrap_or("").to_owned();
            if !reach.contains(&b) {
                return Err(("false report".into(), format!("{root} cannot reach {b}: {}", d.show())));
            }
            *named.entry(b).or_default() += 1;
        }
    }
    for (l, (root, blocks, _, _)) in &w.roots {
        let n = direct.get(l).copied().unwrap_or(0);
        if n != *blocks as usize {
            return Err(("missed direct".into(), format!("{root} blocks by itself: expected {} report(s), got {n}", *blocks as u8)));
        }
    }
    let may: BTreeSet<&String> = w.roots.values().flat_map(|r| &r.2).collect();
    let must: BTreeSet<&String> = w.roots.values().flat_map(|r| &r.3).collect();
    for b in may {
        let n = named.get(b).copied().unwrap_or(0);
        if n > 1 || (n == 0 && must.contains(b)) {
            let from: Vec<&String> = w.roots.values().filter(|r| r.2.contains(b)).map(|r| &r.0).collect();
            return Err(("missed report".into(), format!("{b} blocks and can run on behalf of {from:?}: expected one report, got {n}")));
        }
    }
    Ok(())
}

const T: usize = 0;
const M: usize = 1;
const L: usize = 2;
const S: usize = 3;
const TYPES: &[(&str, Option<usize>)] = &[("/@top", None), ("/@top/mid", Some(0)), ("/@top/mid/low", Some(1)), ("/@top/side", Some(0))];
const BATCH: u64 = 256;

fn dispatch(i: u64) -> Option<World> {
    let mut d = Digits(i);
    let at = *d.pick(&[T, M, L]);
    let call = *d.pick(&[St::Call("f"), St::On(T, "f"), St::On(M, "f"), St::On(L, "f"), St::On(S, "f"), St::Call("h")]);
    let mut procs = vec![Pr { ty: Some(at), name: "r", flag: Flag::Restrict, body: vec![call] }, Pr { ty: None, name: "h", flag: Flag::None, body: vec![St::On(M, "f")] }];
    for t in [T, M, L, S] {
        let body = if t == T {
            Some(d.pick(&[vec![], vec![St::Call("g")], vec![St::Sleep]]).clone())
        } else {
            d.pick(&[None, Some(vec![]), Some(vec![St::Call("g")]), Some(vec![St::Parent]), Some(vec![St::Sleep])]).clone()
        };
        procs.extend(body.map(|body| Pr { ty: Some(t), name: "f", flag: Flag::None, body }));
    }
    for t in [T, M, L, S] {
        let body = if t == T { Some(d.pick(&[vec![], vec![St::Sleep]]).clone()) } else { d.pick(&[None, Some(vec![]), Some(vec![St::Sleep])]).clone() };
        procs.extend(body.map(|body| Pr { ty: Some(t), name: "g", flag: Flag::None, body }));
    }
    (d.0 == 0).then_some(World { types: TYPES, procs })
}

fn graph(i: u64, n: usize, bodies: &[Vec<St>], flags: &[Flag]) -> Option<World> {
    let mut d = Digits(i);
    let mut procs = vec![];
    for name in ["a", "b", "c", "d"].into_iter().take(n) {
        let body = d.pick(bodies).clone();
        let flag = *d.pick(flags);
        procs.push(Pr { ty: None, name, flag, body });
    }
    Some(World { types: &[], procs })
}

fn batches(r: &mut Runner, name: &str, rule: &str, n: u64, make: impl Fn(u64) -> Option<World> + Sync) {
    r.suite(name, rule, n.div_ceil(BATCH), |b, c| {
        let progs: Vec<_> = (b * BATCH..((b + 1) * BATCH).min(n)).filter_map(&make).map(|w| w.program()).collect();
        for (_, w) in &progs {
            c.state(&w.roots.iter().map(|(l, r)| (*l, r.1, r.2.clone(), r.3.clone())).collect::<Vec<_>>());
        }
        batch(c, &progs, verify);
    });
}

/// More than one definition per type, calls of oneself, `new`, and inherited restrictions.
fn family(i: u64, full: bool) -> Option<World> {
    let mut d = Digits(i);
    let at = *d.pick(&[T, M, L]);
    let call = *d.pick(&[St::Call("f"), St::On(M, "f"), St::New(M), St::Spawn("f"), St::Dot, St::Parent]);
    // `r` may be an override that inherits the restriction, and may be redefined on the same type
    let inherit = d.flag();
    let redefined = d.flag();
    let mut procs = vec![];
    if inherit && at != T {
        procs.push(Pr { ty: Some(T), name: "r", flag: Flag::Restrict, body: vec![] });
    } else if inherit {
        return None;
    }
    procs.push(Pr { ty: Some(at), name: "r", flag: if inherit { Flag::None } else { Flag::Restrict }, body: vec![call] });
    if redefined {
        procs.push(Pr { ty: Some(at), name: "r", flag: Flag::None, body: vec![St::Parent] });
    }
    if call == St::Parent && !inherit {
        return None;
    }
    let over = [None, Some(vec![St::Parent]), Some(vec![St::Call("g")]), Some(vec![St::Sleep]), Some(vec![])];
    for (t, many) in [(T, 0), (M, 5), (M, if full { 5 } else { 2 }), (L, if full { 5 } else { 3 })] {
        let b = if many > 0 { d.pick(&over[..many]).clone() } else { Some(d.pick(&[vec![], vec![St::Dot], vec![St::Sleep], vec![St::Call("g")]]).clone()) };
        procs.extend(b.map(|body| Pr { ty: Some(t), name: "f", flag: Flag::None, body }));
    }
    let gf = *d.pick(&[Flag::None, Flag::NoWait, Flag::Allowed, Flag::Restrict]);
    procs.push(Pr { ty: Some(T), name: "g", flag: gf, body: d.pick(&[vec![St::Sleep], vec![]][..if full { 2 } else { 1 }]).clone() });
    if let Some(body) = d.pick(&[None, Some(vec![]), Some(vec![St::Sleep])][..if full { 3 } else { 2 }]).clone() {
        procs.push(Pr { ty: Some(M), name: "g", flag: Flag::None, body });
    }
    if let Some(body) = d.pick(&[None, Some(vec![St::Sleep]), Some(vec![St::Parent]), Some(vec![])][..if full { 4 } else { 3 }]).clone() {
        procs.push(Pr { ty: Some(M), name: "New", flag: Flag::None, body });
    }
    if let Some(body) = d.pick(&[None, Some(vec![St::Sleep])]).clone() {
        procs.push(Pr { ty: Some(T), name: "New", flag: Flag::None, body });
    }
    (d.0 == 0).then_some(World { types: TYPES, procs })
}

/// expressions that block, with the variables they use, and one that does not
const BLOCKING: &[(&str, bool)] = &[
    ("sleep(1)", true),
    ("input(\"x\")", true),
    ("input(usr, \"x\") as num", true),
    ("input(\"x\") in list(1)", true),
    ("alert(\"x\")", true),
    ("shell(\"x\")", true),
    ("winexists(usr, \"x\")", true),
    ("winget(usr, \"x\", \"y\")", true),
    ("world.Import()", true),
    ("world.Export(\"x\")", true),
    ("C.SoundQuery()", true),
    ("C.MeasureText(\"x\")", true),
    ("C?.SoundQuery()", true),
    ("C.mob.client.SoundQuery()", true),
    ("length(\"x\")", false),
    ("winset(usr, \"x\", \"y\")", false),
    ("world.IsBanned(\"x\")", false),
    ("C.Command(\"x\")", false),
    ("C.Export(\"x\")", false),
];

/// places an expression can stand in, and whether it runs as part of the proc itself
pub const PLACES: &[(&str, bool)] = &[
    ("\t#\n", true),
    ("\tx = #\n", true),
    ("\tx += #\n", true),
    ("\tvar/y = #\n", true),
    ("\tvar/z = 1, y = #\n", true),
    ("\treturn #\n", true),
    ("\treturn -#\n", true),
    ("\treturn !(#)\n", true),
    ("\treturn x + #\n", true),
    ("\treturn # && x\n", true),
    ("\treturn x || #\n", true),
    ("\treturn x ? (#) : 1\n", true),
    ("\treturn x ? 1 : (#)\n", true),
    ("\treturn (#) ? 1 : 2\n", true),
    ("\treturn x in (#)\n", true),
    ("\treturn L[#]\n", true),
    ("\treturn L?[#]\n", true),
    ("\treturn list(1, #)\n", true),
    ("\treturn list(a = #)\n", true),
    ("\treturn \"a[#]b\"\n", true),
    ("\treturn length(#)\n", true),
    ("\treturn @g(1, #)\n", true),
    ("\treturn @g(b = #)\n", true),
    ("\treturn pick(1, #)\n", true),
    ("\treturn pick(#; 1, 2)\n", true),
    ("\treturn locate(#)\n", true),
    ("\treturn locate(/obj) in (#)\n", true),
    ("\treturn call(#)()\n", true),
    ("\treturn call(x, \"y\")(#)\n", true),
    ("\treturn new /obj(#)\n", true),
    ("\treturn new x(#)\n", true),
    ("\tvar/obj/y = new(#)\n", true),
    ("\treturn x:foo(#)\n", true),
    ("\treturn x?:foo(#)\n", true),
    ("\tthrow #\n", true),
    ("\tdel #\n", true),
    ("\tCRASH(#)\n", true),
    ("\tif(#)\n\t\tx = 1\n", true),
    ("\tif(x)\n\t\tx = 1\n\telse if(#)\n\t\tx = 1\n", true),
    ("\tif(x)\n\t\tx = 1\n\telse\n\t\t#\n", true),
    ("\tif(x)\n\t\t#\n", true),
    ("\twhile(#)\n\t\tx = 1\n", true),
    ("\twhile(x)\n\t\t#\n", true),
    ("\tdo\n\t\tx = 1\n\twhile(#)\n", true),
    ("\tdo\n\t\t#\n\twhile(x)\n", true),
    ("\tfor(x = #; x < 3; x++)\n\t\tL = x\n", true),
    ("\tfor(x = 0; x < #; x++)\n\t\tL = x\n", true),
    ("\tfor(x = 0; x < 3; x += #)\n\t\tL = x\n", true),
    ("\tfor(x = 0; x < 3; x++)\n\t\t#\n", true),
    ("\tfor(;;)\n\t\t#\n", true),
    ("\tfor(var/y in #)\n\t\tL = y\n", true),
    ("\tfor(var/y in L)\n\t\t#\n", true),
    ("\tfor(var/y = # to 3)\n\t\tL = y\n", true),
    ("\tfor(var/y = 1 to #)\n\t\tL = y\n", true),
    ("\tfor(var/y = 1 to x step #)\n\t\tL = y\n", true),
    ("\tfor(var/y = 1 to x)\n\t\t#\n", true),
    ("\tfor(var/y, z in #)\n\t\tL = y\n", true),
    ("\tfor(var/y, z in L)\n\t\t#\n", true),
    ("\tswitch(#)\n\t\tif(1)\n\t\t\tx = 1\n", true),
    ("\tswitch(x)\n\t\tif(1)\n\t\t\t#\n", true),
    ("\tswitch(x)\n\t\tif(1)\n\t\t\tx = 2\n\t\telse\n\t\t\t#\n", true),
    ("\ttry\n\t\t#\n\tcatch\n\t\tx = 1\n", true),
    ("\ttry\n\t\tx = 1\n\tcatch(var/e)\n\t\t#\n\t\tL = e\n", true),
    ("\tlab:\n\t\t#\n", true),
    ("\tif(x)\n\t\tfor(var/y in L)\n\t\t\tswitch(x)\n\t\t\t\tif(1)\n\t\t\t\t\t#\n", true),
    ("\tspawn(1)\n\t\t#\n", false),
    ("\tspawn(1)\n\t\tx = 1\n\t#\n", true),
    ("\tspawn()\n\t\tspawn(1)\n\t\t\tx = 1\n\t\t#\n", false),
    ("\tspawn(1)\n\t\tif(x)\n\t\t\tfor(var/y in #)\n\t\t\t\tL = y\n", false),
];

/// how the place is reached from the restricted proc
fn all_places() -> Vec<(&'static str, bool)> {
    PLACES.iter().cloned().chain(crate::p19_names::MORE_PLACES.iter().filter(|p| !p.contains("input")).map(|p| (*p, true))).collect()
}
fn place(i: u64) -> (String, Want, bool) {
    let mut d = Digits(i);
    let (place, runs) = *d.pick(&all_places());
    let (expr, blocks) = *d.pick(BLOCKING);
    let how = d.take(4);
    // an `x in y` input is ambiguous inside larger expressions
    let expr = if expr.contains(" in ") || expr.contains(" as ") { format!("({expr})") } else { expr.to_owned() };
    // sleep is a statement
    let fits = expr != "sleep(1)" || place.trim_start_matches('\t').lines().any(|l| l.trim() == "#");
    let body = place.replace('#', &expr);
    let params = "(x, list/L, client/C)";
    let g = "/proc/@g(a, b)\n\treturn a\n";
    let mut w = Want::default();
    let b = blocks && runs;
    let one = |s: &str| if b { BTreeSet::from([s.to_owned()]) } else { BTreeSet::new() };
    let text = match how {
        0 => {
            w.roots.insert(3, ("/proc/@r".into(), b, BTreeSet::new(), BTreeSet::new()));
            format!("{g}/proc/@r{params}\n\tset SpacemanDMM_should_not_sleep = 1\n{body}")
        },
        1 => {
            w.roots.insert(3, ("/proc/@r".into(), false, one("/proc/@h"), one("/proc/@h")));
            format!("{g}/proc/@r{params}\n\tset SpacemanDMM_should_not_sleep = 1\n\t@h(x, L, C)\n/proc/@h{params}\n{body}")
        },
        2 => {
            w.roots.insert(4, ("/@t/proc/r".into(), false, one("/@t/proc/h"), one("/@t/proc/h")));
            format!("{g}/@t\n/@t/proc/r{params}\n\tset SpacemanDMM_should_not_sleep = TRUE\n\treturn h(x, L, C)\n/@t/proc/h{params}\n{body}")
        },
        _ => {
            // the call itself is made from the place
            w.roots.insert(3, ("/proc/@r".into(), false, if runs && blocks { one("/proc/@h") } else { BTreeSet::new() }, if runs && blocks { one("/proc/@h") } else { BTreeSet::new() }));
            let body = place.replace('#', "@h(x, L, C)");
            format!("{g}/proc/@r{params}\n\tset SpacemanDMM_should_not_sleep = 1\n{body}/proc/@h{params}\n\treturn {expr}\n")
        },
    };
    (text, w, fits)
}

pub fn check(r: &mut Runner) {
    let n = 3 * 6 * 3 * 125 * 2 * 27;
    batches(r, "dispatch", "a restricted proc at each of three nested types calls f (on itself, on a typed variable, through a global proc); f and g are overridden in every way over four types, f may call g or its parent", n, dispatch);

    let names: &[&'static str] = &["a", "b", "c"];
    let mut ones: Vec<Vec<St>> = vec![vec![], vec![St::Sleep], vec![St::SpawnSleep]];
    ones.extend(names.iter().map(|n| vec![St::Call(n)]));
    ones.extend(names.iter().map(|n| vec![St::Spawn(n)]));
    let mut two = ones.clone();
    for x in &ones[1..] {
        for y in &ones[1..] {
            if x != y {
                two.push(vec![x[0], y[0]]);
            }
        }
    }
    let flags = [Flag::None, Flag::Restrict, Flag::NoWait, Flag::Allowed];
    let bodies: &[Vec<St>] = if r.thorough() { &two } else { &ones };
    batches(r, "call graph", "every call graph over three global procs whose bodies are short statement lists, each proc plain, restricted, not waiting, or allowed to sleep", pow(bodies.len() * 4, 3), |i| graph(i, 3, bodies, &flags));

    let full = r.thorough();
    let n = 3 * 6 * 2 * 2 * 4 * if full { 125 * 4 * 2 * 3 * 4 * 2 } else { 5 * 2 * 3 * 4 * 1 * 2 * 3 * 2 };
    batches(r, "family", "redefinitions on one type, inherited restrictions, calls of oneself, constructors and exempt callees", n, |i| family(i, full));
    let n = (all_places().len() * BLOCKING.len() * 4) as u64;
    r.suite("places", "every blocking built-in in every place an expression can stand in, in the restricted proc, in one it calls, and behind a call made from the place", n.div_ceil(16), |b, c| {
        let progs: Vec<_> = (b * 16..((b + 1) * 16).min(n)).map(place).filter(|p| p.2).map(|p| (p.0, p.1)).collect();
        batch(c, &progs, |w, got| {
            let (rest, got): (Vec<_>, Vec<_>) = got.iter().cloned().partition(|d| d.kind != "must_not_sleep");
            if let Some(d) = rest.iter().find(|d| d.text.contains("undefined") || d.text.contains("got '")) {
                return Err(("other diagnostic".into(), format!("unexpected: {}", d.show())));
            }
            verify(w, &got)
        });
    });
}
