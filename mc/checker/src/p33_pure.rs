//! P33: a proc that must be pure is reported exactly for the impure procs it can run.
use crate::util::*;
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// line of a pure proc -> (name, impure by itself, impure procs it must / may be reported for)
#[derive(Default)]
struct Want {
    roots: BTreeMap<u32, (String, bool, BTreeSet<String>, BTreeSet<String>)>,
    /// lines on which the result of a pure proc is discarded
    discards: BTreeSet<u32>,
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut own: BTreeMap<u32, usize> = BTreeMap::new();
    let mut named: BTreeMap<(u32, String), usize> = BTreeMap::new();
    let mut discards = BTreeSet::new();
    for d in got {
        if d.text == "returning a value in a spawn has no effect" || d.text.starts_with("do while terminates") {
            continue;
        }
        if d.text.ends_with("discards return value") {
            discards.insert(d.line);
            continue;
        }
        if d.kind != "must_be_pure" {
            return Err(("other diagnostic".into(), format!("unexpected: {}", d.show())));
        }
        let Some((root, impure, _, may)) = w.roots.get(&d.line) else {
            return Err(("not a pure proc".into(), format!("reported against a proc that need not be pure: {}", d.show())));
        };
        if !d.text.starts_with(&format!("{root} ")) {
            return Err(("wrong name".into(), format!("the pure proc here is {root}: {}", d.show())));
        }
        if d.text == format!("{root} does impure operations") {
            if !impure {
                return Err(("false own report".into(), format!("{root} is not itself impure: {}", d.show())));
            }
            *own.entry(d.line).or_default() += 1;
        } else {
            let Some(b) = may.iter().find(|m| d.text.ends_with(&format!(" {m}")) || d.text.contains(&format!(" {m} that"))) else {
                return Err(("false report".into(), format!("{root} may run only {may:?}: {}", d.show())));
            };
            // an override may be named once per implementation that leads to it
            let n = named.entry((d.line, b.clone())).or_default();
            *n = if d.text.contains(" override child proc ") { (*n).max(1) } else { *n + 1 };
        }
    }
    for (l, (root, impure, must, _)) in &w.roots {
        if own.get(l).copied().unwrap_or(0) != *impure as usize {
            return Err(("missed own".into(), format!("{root} is impure by itself, expected one report for that")));
        }
        for b in must {
            if !named.contains_key(&(*l, b.clone())) {
                return Err(("missed report".into(), format!("{root} runs {b}, which is impure")));
            }
        }
    }
    if let Some(((l, b), n)) = named.iter().find(|(_, n)| **n > 1) {
        return Err(("repeated".into(), format!("line {l}: {b} is reported {n} times")));
    }
    if discards != w.discards {
        return Err(("discards".into(), format!("pure results are discarded on lines {:?}, reported: {discards:?}", w.discards)));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Impure,
    /// the result is used
    Use(usize),
    /// the result is discarded
    Drop(usize),
    Spawn(usize),
}

fn graph(i: u64, n: usize, bodies: &[Vec<St>], flags: usize) -> (String, Want) {
    let mut d = Digits(i);
    let procs: Vec<(usize, &Vec<St>)> = (0..n).map(|_| (d.take(flags), d.pick(bodies))).collect();
    let name = |k: usize| format!("@{}", ["a", "b", "c", "d"][k]);
    let mut s = String::new();
    let mut w = Want::default();
    let mut line = 1;
    for (k, (flag, body)) in procs.iter().enumerate() {
        let head = line;
        s += &format!("/proc/{}()\n", name(k));
        line += 1;
        if *flag == 1 {
            s += "\tset SpacemanDMM_should_be_pure = 1\n";
            line += 1;
        }
        s += "\tvar/x = 1\n";
        line += 1;
        for st in body.iter() {
            match st {
                St::Impure => s += "\tworld << x\n",
                St::Use(j) => s += &format!("\tx = {}()\n", name(*j)),
                St::Drop(j) => s += &format!("\t{}()\n", name(*j)),
                St::Spawn(j) => s += &format!("\tspawn(1)\n\t\tx = {}()\n", name(*j)),
            }
            if let St::Drop(j) = st {
                if procs[*j].0 == 1 {
                    w.discards.insert(line);
                }
            }
            line += 1 + matches!(st, St::Spawn(_)) as u32;
        }
        s += "\treturn x\n";
        line += 1;
        if *flag == 1 {
            let mut seen = HashSet::new();
            let mut todo = vec![k];
            let mut first = true;
            while let Some(p) = todo.pop() {
                if !first && !seen.insert(p) {
                    continue;
                }
                first = false;
                todo.extend(procs[p].1.iter().filter_map(|s| match s {
                    St::Impure => None,
                    St::Use(j) | St::Drop(j) | St::Spawn(j) => Some(*j),
                }));
            }
            let bad: BTreeSet<String> = seen.iter().filter(|p| procs[**p].1.contains(&St::Impure)).map(|p| format!("/proc/{}", name(*p))).collect();
            w.roots.insert(head, (format!("/proc/{}", name(k)), body.contains(&St::Impure), bad.clone(), bad));
        }
    }
    (s, w)
}

/// A method called on oneself or through the parent, overridden in every way.
fn family(i: u64) -> Option<(String, Want)> {
    const TYPES: &[(&str, Option<usize>)] = &[("/@top", None), ("/@top/mid", Some(0)), ("/@top/mid/low", Some(1)), ("/@top/side", Some(0))];
    let mut d = Digits(i);
    let at = d.take(3);
    // inherited: `r` is declared pure on the top type and overridden
    let inherit = d.flag();
    let via = d.take(3);
    let rbody = d.flag();
    if inherit && at == 0 {
        return None;
    }
    // None: absent, 0 empty, 1 impure, 2 calls the parent, 3 calls an impure global proc
    let mut f = vec![Some(d.take(2) * 3)];
    if d.flag() {
        f[0] = Some(1);
    }
    for _ in 1..4 {
        f.push(*d.pick(&[None, Some(0), Some(1), Some(2), Some(3)]));
    }
    let mut s = String::new();
    for t in TYPES {
        s += &format!("{}\n", t.0);
    }
    let mut w = Want::default();
    if inherit {
        s += "/@top/proc/r()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn 1\n";
        w.roots.insert(5, ("/@top/proc/r".into(), false, BTreeSet::new(), BTreeSet::new()));
    }
    let head = s.matches('\n').count() as u32 + 1;
    let rname = format!("{}/proc/r", TYPES[at].0);
    s += &format!("{}{}r()\n", TYPES[at].0, if inherit { "/" } else { "/proc/" });
    if !inherit {
        s += "\tset SpacemanDMM_should_be_pure = 1\n";
    }
    s += "\tvar/x = 1\n";
    if rbody {
        s += "\tworld << x\n";
    }
    match via {
        0 => s += "\tx = f()\n",
        1 => s += "\tx = q()\n",
        _ => s += "\tif(x)\n\t\treturn list(f(), 2)\n",
    }
    s += "\treturn x\n/@top/proc/q()\n\treturn f()\n/proc/@bad()\n\tworld << 1\n";
    for (t, b) in f.iter().enumerate() {
        let Some(b) = b else { continue };
        s += &format!("{}/{}f()\n", TYPES[t].0, if t == 0 { "proc/" } else { "" });
        match b {
            0 => s += "\treturn 1\n",
            1 => s += "\tworld << 1\n\treturn 1\n",
            2 => s += "\treturn ..()\n",
            _ => s += "\treturn @bad()\n",
        }
    }
    if d.0 != 0 {
        return None;
    }
    let up = |t: usize| TYPES[t].1;
    let below = |t: usize, a: usize| {
        let mut c = Some(t);
        while let Some(x) = c {
            if x == a {
                return true;
            }
            c = up(x);
        }
        false
    };
    let fname = |t: usize| format!("{}/proc/f", TYPES[t].0);
    // the implementation `r` sees; through the helper it is the topmost one
    let seen_from = if via == 1 { 0 } else { at };
    let mut base = seen_from;
    while f[base].is_none() {
        base = up(base).unwrap();
    }
    let mut must = BTreeSet::new();
    let mut may = BTreeSet::new();
    // the chain of parent calls from the implementation seen
    let mut c = base;
    loop {
        if f[c] == Some(1) {
            must.insert(fname(c));
        }
        if f[c] == Some(3) {
            must.insert("/proc/@bad".to_owned());
        }
        if f[c] != Some(2) {
            break;
        }
        c = up(c).unwrap();
        while f[c].is_none() {
            c = up(c).unwrap();
        }
    }
    let base_impure = f[base] == Some(1);
    for t in 0..4 {
        if t != base && below(t, base) && below(t, at) && f[t] == Some(1) {
            may.insert(fname(t));
            if !base_impure {
                must.insert(fname(t));
            }
        }
    }
    // implementations above the one seen may be named for their overrides as well
    if f[base] == Some(2) {
        for t in 0..4 {
            if below(t, at) && f[t] == Some(1) {
                may.insert(fname(t));
            }
        }
    }
    // seen through the helper, an implementation between the top type's and the object's own may be named
    if via == 1 {
        let mut o = at;
        while f[o].is_none() {
            o = up(o).unwrap();
        }
        if f[o] == Some(1) {
            may.insert(fname(o));
        }
    }
    may.extend(must.iter().cloned());
    if !must.iter().all(|m| may.contains(m)) {
        return None;
    }
    w.roots.insert(head, (rname, rbody, must, may));
    Some((s, w))
}

/// statements, and whether they change something outside of the proc (or output)
const OPS: &[(&str, bool)] = &[
    ("world << 1", true),
    ("usr << 1", true),
    ("M << 1", true),
    ("F << 1", true),
    ("v = 1", true),
    ("v += 1", true),
    ("v ||= 1", true),
    ("v++", true),
    ("++v", true),
    ("v--", true),
    ("--v", true),
    ("@g = 1", true),
    ("@g -= 1", true),
    ("@g++", true),
    ("global.@g = 1", true),
    ("global.@g++", true),
    ("src.v = 1", true),
    ("src.v++", true),
    ("src.v += 1", true),
    ("o.v = 1", true),
    ("o.v--", true),
    ("o.o.v = 1", true),
    ("o.o.l[1] = 2", true),
    ("p.v = 1", true),
    ("p.o.v = 1", true),
    ("p?.v = 1", true),
    ("l[1] = 1", true),
    ("l += 1", true),
    ("l[1] += 1", true),
    ("pl[1] = 1", true),
    ("pl[1]++", true),
    ("po[1] = 1", true),
    ("po[1].v = 1", true),
    ("world.name = 1", true),
    ("a = (v = 1)", true),
    ("if(v++)\n\t\treturn", true),
    ("return v = 1", true),
    ("for(v = 1; v < a; v++)\n\t\ta = 2", true),
    ("while(v--)\n\t\ta = 2", true),
    ("a = list(v = 1)", false),
    ("spawn(1)\n\t\tv = 1", true),
    ("a = 1", false),
    ("a += 1", false),
    ("a++", false),
    ("--a", false),
    ("a = v", false),
    ("a = src.v", false),
    ("a = p.v + o.v + pl[1]", false),
    ("a = @g", false),
    ("a = global.@g", false),
    (". = 1", false),
    (". = v", false),
    ("b += 1", false),
    ("b[1] = 2", false),
    ("b[1] += v", false),
    ("c.v = 1", false),
    ("c.v++", false),
    ("c.o.v = 1", false),
    ("c.l[1] = 2", false),
    ("return v << 1", false),
    ("a = v << 1", false),
    ("a = v == 1", false),
    ("a = v ? 1 : @g", false),
    ("for(a = 1; a < v; a++)\n\t\tb += a", false),
    ("for(var/i in l)\n\t\tb += i", false),
    ("var/t = 1\n\tt = 2", false),
    ("a = \"[v][src.v]\"", false),
    ("return list(v, p)", false),
    ("switch(v)\n\t\tif(1)\n\t\t\ta = 2", false),
];

const OP_PLACES: &[&str] = &["\t#\n", "\tif(a)\n\t\t#\n", "\tif(a)\n\t\ta = 2\n\telse\n\t\t#\n", "\tfor(var/k in b)\n\t\t#\n", "\twhile(a)\n\t\t#\n", "\tdo\n\t\t#\n\twhile(a)\n", "\tswitch(a)\n\t\tif(1)\n\t\t\t#\n", "\tswitch(a)\n\t\tif(1)\n\t\t\ta = 3\n\t\telse\n\t\t\t#\n", "\ttry\n\t\t#\n\tcatch\n\t\ta = 2\n", "\ttry\n\t\ta = 2\n\tcatch(var/e)\n\t\t#\n", "\tspawn(1)\n\t\t#\n", "\tfor(var/k = 1 to 3)\n\t\t#\n", "\tlab:\n\t\t#\n"];

fn operation(i: u64) -> (String, Want) {
    let mut d = Digits(i);
    let (op, impure) = *d.pick(OPS);
    let place = *d.pick(OP_PLACES);
    let how = d.take(3);
    let tabs = place.lines().find(|l| l.trim() == "#").unwrap().len() - 1;
    let op = op.replace("\n", &format!("\n{}", "\t".repeat(tabs - 1)));
    let body = place.replace('#', &op);
    let locals = "\tvar/a = 1\n\tvar/list/b = list()\n\tvar/@t/c = new\n\tvar/mob/M = null\n\tvar/savefile/F = null\n";
    let params = "(@t/p, list/pl, list/@t/po)";
    let head = "/var/@g = 1\n/@t\n\tvar/v = 1\n\tvar/list/l\n\tvar/@t/o\n/@t/New()\n\treturn\n";
    let pure = "\tset SpacemanDMM_should_be_pure = TRUE\n";
    let mut w = Want::default();
    let h = BTreeSet::from(["/@t/proc/h".to_owned()]);
    let text = match how {
        0 => {
            w.roots.insert(8, ("/@t/proc/r".into(), impure, BTreeSet::new(), BTreeSet::new()));
            format!("{head}/@t/proc/r{params}\n{pure}{locals}{body}")
        },
        1 => {
            w.roots.insert(8, ("/@t/proc/r".into(), false, if impure { h.clone() } else { BTreeSet::new() }, if impure { h } else { BTreeSet::new() }));
            format!("{head}/@t/proc/r{params}\n{pure}\treturn h(p, pl)\n/@t/proc/h{params}\n{locals}{body}")
        },
        _ => {
            // a child of a pure proc is pure
            w.roots.insert(8, ("/@t/proc/r".into(), false, BTreeSet::new(), BTreeSet::new()));
            w.roots.insert(12, ("/@t/sub/proc/r".into(), impure, BTreeSet::new(), BTreeSet::new()));
            format!("{head}/@t/proc/r{params}\n{pure}\treturn\n/@t/sub\n/@t/sub/r{params}\n{locals}{body}")
        },
    };
    (text, w)
}

fn batches(r: &mut Runner, name: &str, rule: &str, size: u64, n: u64, make: impl Fn(u64) -> Option<(String, Want)> + Sync) {
    r.suite(name, rule, n.div_ceil(size), |b, c| {
        let progs: Vec<_> = (b * size..((b + 1) * size).min(n)).filter_map(&make).collect();
        for (_, w) in &progs {
            c.state(&w.roots.iter().map(|(l, r)| (*l, r.1, r.2.clone(), r.3.clone())).collect::<Vec<_>>());
        }
        batch(c, &progs, verify);
    });
}

pub fn check(r: &mut Runner) {
    let mut ones: Vec<Vec<St>> = vec![vec![], vec![St::Impure]];
    for f in [St::Use, St::Drop, St::Spawn] {
        ones.extend((0..3).map(|k| vec![f(k)]));
    }
    let mut two = ones.clone();
    for x in &ones[1..] {
        for y in &ones[1..] {
            if x != y {
                two.push(vec![x[0], y[0]]);
            }
        }
    }
    let some: Vec<Vec<St>> = two.iter().filter(|b| b.len() < 2 || (b[0] == St::Impure) ^ (b[1] == St::Impure)).cloned().collect();
    let bodies: &[Vec<St>] = if r.thorough() { &two } else { &some };
    batches(r, "call graph", "every call graph over three global procs with short bodies, each pure or not, results used or discarded", 256, pow(bodies.len() * 2, 3), |i| Some(graph(i, 3, bodies, 2)));
    let n = 3 * 2 * 3 * 2 * 2 * 2 * 125;
    batches(r, "family", "a pure method at each of three types (by its own declaration or inherited), calling a method overridden in every way over four types", 256, n, family);
    let n = (OPS.len() * OP_PLACES.len() * 3) as u64;
    batches(r, "operations", "every kind of change and of harmless statement in every place, in the pure proc, in one it calls, in an override", 16, n, |i| Some(operation(i)));
}
