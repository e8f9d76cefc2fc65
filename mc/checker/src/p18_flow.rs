//! P18: what the checker says about reachability, against a textbook reachability analysis.
use crate::util::*;
use mc_common::*;
use std::collections::BTreeSet;

// --------------------------------------------------------------------------------------------
// Proc bodies as byte strings: a statement is its kind followed by its blocks, each closed by '.'.

/// kind, number of blocks, is a loop
const COMPOUND: [(u8, usize, bool); 19] = [
    (b'I', 1, false), // if(u)
    (b'E', 2, false), // if(u) else
    (b'F', 3, false), // if(u) else if(u) else
    (b'1', 2, false), // if(1) else
    (b'0', 2, false), // if(0) else
    (b'S', 2, false), // switch(u) if(1) else
    (b'T', 2, false), // switch(u) if(1) if(2)
    (b'P', 1, false), // spawn
    (b'Y', 2, false), // try catch
    (b'A', 1, false), // label with a block
    (b'W', 1, true),  // while(u)
    (b'D', 1, true),  // do while(u)
    (b'L', 1, true),  // for(x in u)
    (b'R', 1, true),  // for(i in 1 to 3)
    (b'N', 1, true),  // for(i in 3 to 1)
    (b'V', 1, true),  // for(i in 1 to u)
    (b'Z', 1, true),  // for()
    (b'J', 1, true),  // for(init, u, inc)
    (b'H', 1, true),  // for(k, v in u)
];
fn arity(k: u8) -> usize {
    match k.to_ascii_uppercase() {
        _ if b"pecBCbkgzt".contains(&k) => 0,
        b'W' | b'D' | b'R' | b'L' if k.is_ascii_lowercase() => 1,
        _ => COMPOUND.iter().find(|c| c.0 == k).unwrap().1,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Scope {
    in_loop: bool,
    in_label: bool,
}

struct Gen {
    leaves: &'static [u8],
    compound: Vec<(u8, usize, bool)>,
    /// labelled loops (lower case kinds) and the jumps to them
    labels: bool,
    memo: std::collections::HashMap<(usize, Scope), Vec<Vec<u8>>>,
}

impl Gen {
    fn new(leaves: &'static [u8], compound: &[u8], labels: bool) -> Gen {
        Gen { leaves, compound: COMPOUND.iter().filter(|c| compound.contains(&c.0)).copied().collect(), labels, memo: Default::default() }
    }
    /// every block of exactly `n` statements, counting nested ones
    fn blocks(&mut self, n: usize, s: Scope) -> Vec<Vec<u8>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for k in 1..=n {
            let first = self.stmts(k, s);
            let rest = self.blocks(n - k, s);
            for a in &first {
                for b in &rest {
                    let mut v = a.clone();
                    v.extend(b);
                    out.push(v);
                }
            }
        }
        out
    }
    fn stmts(&mut self, n: usize, s: Scope) -> Vec<Vec<u8>> {
        if let Some(r) = self.memo.get(&(n, s)) {
            return r.clone();
        }
        let mut out = vec![];
        if n == 1 {
            out.extend(self.leaves.iter().map(|l| vec![*l]));
            if s.in_loop {
                out.extend([vec![b'B'], vec![b'C']]);
            }
            if s.in_label {
                out.extend([vec![b'b'], vec![b'k']]);
            }
        } else {
            let mut kinds: Vec<(u8, usize, Scope)> = self
                .compound
                .iter()
                .map(|c| {
                    let s = match c.0 {
                        b'P' => Scope { in_loop: false, in_label: false },
                        _ => Scope { in_loop: s.in_loop || c.2, ..s },
                    };
                    (c.0, c.1, s)
                })
                .collect();
            if self.labels && !s.in_label {
                kinds.extend(b"wdrl".iter().map(|k| (*k, 1, Scope { in_loop: true, in_label: true })));
            }
            for (k, arity, inner) in kinds {
                if arity > n - 1 {
                    continue;
                }
                let mut heads: Vec<(Vec<u8>, usize)> = vec![(vec![k], n - 1)];
                for a in 0..arity {
                    let mut next = vec![];
                    for (h, left) in heads {
                        let need = arity - 1 - a;
                        for take in 1..=left {
                            if (need == 0 && take != left) || left - take < need {
                                continue;
                            }
                            for b in self.blocks(take, inner) {
                                let mut v = h.clone();
                                v.extend(b);
                                v.push(b'.');
                                next.push((v, left - take));
                            }
                        }
                    }
                    heads = next;
                }
                out.extend(heads.into_iter().map(|h| h.0));
            }
        }
        self.memo.insert((n, s), out.clone());
        out
    }
}

#[derive(Debug)]
enum S {
    Leaf(u8, u32),
    Comp(u8, u32, Vec<(u32, Vec<S>)>), // line, and per block the line of its head
}

/// Renders the statements at `at..` into `out`, giving each one its line.
fn render(code: &[u8], at: &mut usize, depth: usize, out: &mut String, line: &mut u32) -> Vec<S> {
    let mut v = vec![];
    while *at < code.len() && code[*at] != b'.' {
        let k = code[*at];
        *at += 1;
        let ind = "\t".repeat(depth);
        let mut put = |s: &str, line: &mut u32| {
            out.push_str(&ind);
            out.push_str(s);
            out.push('\n');
            *line += 1;
            *line - 1
        };
        if arity(k) == 0 {
            let l = put(
                match k {
                    b'p' => "u()",
                    b'e' => "return",
                    b'c' => "CRASH(\"x\")",
                    b't' => "throw u()",
                    b'B' => "break",
                    b'C' => "continue",
                    b'b' => "break o",
                    b'k' => "continue o",
                    b'g' => "goto z",
                    _ => "z:",
                },
                line,
            );
            v.push(S::Leaf(k, l));
            continue;
        }
        let heads: &[&str] = match k {
            b'I' => &["if(u())"],
            b'E' => &["if(u())", "else"],
            b'F' => &["if(u())", "else if(u())", "else"],
            b'1' => &["if(1)", "else"],
            b'0' => &["if(0)", "else"],
            b'S' => &["\tif(1)", "\telse"],
            b'T' => &["\tif(1)", "\tif(2)"],
            b'P' => &["spawn(1)"],
            b'Y' => &["try", "catch(var/e)"],
            b'A' => &["q:"],
            b'W' | b'w' => &["while(u())"],
            b'D' | b'd' => &["do"],
            b'L' | b'l' => &["for(var/x in u())"],
            b'R' | b'r' => &["for(var/i in 1 to 3)"],
            b'N' => &["for(var/i in 3 to 1)"],
            b'V' => &["for(var/i in 1 to u())"],
            b'Z' => &["for()"],
            b'J' => &["for(var/i = u(), i < u(), i++)"],
            _ => &["for(var/x, y in u())"],
        };
        let l = *line;
        let mut sub = 1;
        if k == b'S' || k == b'T' {
            put("switch(u())", line);
            sub = 2;
        } else if k.is_ascii_lowercase() {
            put("o:", line);
        }
        let first = *line;
        let mut blocks = vec![];
        for h in heads {
            let mut put = |s: &str, line: &mut u32| {
                out.push_str(&ind);
                out.push_str(s);
                out.push('\n');
                *line += 1;
                *line - 1
            };
            let hl = put(h, line);
            let b = render(code, at, depth + sub, out, line);
            assert_eq!(code[*at], b'.');
            *at += 1;
            blocks.push((hl, b));
        }
        if k == b'D' || k == b'd' {
            out.push_str(&ind);
            out.push_str("while(u())\n");
            *line += 1;
        }
        v.push(S::Comp(k, if k.is_ascii_lowercase() { first } else { l }, blocks));
    }
    v
}

const FALL: u8 = 1;
const BRK: u8 = 2;
const CONT: u8 = 4;
const LBRK: u8 = 8;
const LCONT: u8 = 16;
const RET: u8 = 32;

/// Reachability: which lines can run, and which do-while conditions and loop bodies.
#[derive(Default)]
struct Flow {
    reach: BTreeSet<u32>,
    /// line of a `do` -> condition reached
    cond: BTreeSet<u32>,
    jumps: bool,
}

impl Flow {
    fn block(&mut self, b: &[S], live: bool) -> u8 {
        let mut live = live;
        let mut done = 0;
        for s in b {
            if let S::Leaf(b'z', _) = s {
                live |= self.jumps;
            }
            let r = self.stmt(s, live);
            done |= r & !FALL;
            live = r & FALL != 0;
        }
        done | live as u8
    }
    /// the ways in which a statement can complete, if it runs at all
    fn stmt(&mut self, s: &S, live: bool) -> u8 {
        match s {
            S::Leaf(k, l) => {
                if !live {
                    return 0;
                }
                self.reach.insert(*l);
                match k {
                    b'e' | b'c' | b't' => RET,
                    b'B' => BRK,
                    b'C' => CONT,
                    b'b' => LBRK,
                    b'k' => LCONT,
                    b'g' => {
                        self.jumps = true;
                        0
                    },
                    _ => FALL,
                }
            },
            S::Comp(k, l, blocks) => {
                if live {
                    self.reach.insert(*l);
                }
                let run = |me: &mut Self, i: usize, live: bool| {
                    if live {
                        me.reach.insert(blocks[i].0);
                    }
                    me.block(&blocks[i].1, live)
                };
                let live8 = live as u8;
                match k {
                    b'I' => run(self, 0, live) | live8,
                    b'E' | b'S' => run(self, 0, live) | run(self, 1, live),
                    b'F' => run(self, 0, live) | run(self, 1, live) | run(self, 2, live),
                    b'1' => run(self, 0, live) | run(self, 1, false),
                    b'0' => run(self, 0, false) | run(self, 1, live),
                    b'T' => run(self, 0, live) | run(self, 1, live) | live8,
                    b'P' => {
                        run(self, 0, live);
                        live8
                    },
                    b'Y' => {
                        // u() may throw anywhere, so may a thrown value be caught here
                        let a = run(self, 0, live);
                        a | run(self, 1, live)
                    },
                    b'A' => run(self, 0, live),
                    _ => {
                        // loops
                        let enters = live && *k != b'N';
                        let r = run(self, 0, enters);
                        let own = if k.is_ascii_lowercase() { 2 } else { 0 };
                        let brk = r & BRK != 0 || (own > 0 && r & LBRK != 0);
                        let cont = r & CONT != 0 || (own > 0 && r & LCONT != 0);
                        let around = r & FALL != 0 || cont;
                        let mut out = r & RET;
                        if own == 0 {
                            out |= r & (LBRK | LCONT);
                        }
                        let after = match k.to_ascii_uppercase() {
                            b'Z' => brk,
                            b'D' => {
                                if around {
                                    self.cond.insert(*l);
                                }
                                brk || around
                            },
                            b'R' => brk || around,
                            _ => live,
                        };
                        out | (after && live) as u8
                    },
                }
            },
        }
    }
}

/// Has a goto or label, or a break or continue that leaves it.
fn jumpy(s: &S) -> bool {
    leaves(s, true)
}
fn leaves(s: &S, plain: bool) -> bool {
    match s {
        S::Leaf(k, _) => b"bkgz".contains(k) || (plain && b"BC".contains(k)),
        S::Comp(k, _, bs) => {
            let plain = plain && !COMPOUND.iter().any(|c| c.0 == k.to_ascii_uppercase() && c.2);
            bs.iter().any(|b| b.1.iter().any(|s| leaves(s, plain)))
        },
    }
}

/// What must be reported: code after what plainly ends the proc, in blocks without jumps before it.
/// (line to report at, line that must be reachable unless the program has no jumps at all)
#[derive(Default)]
struct Must {
    after: BTreeSet<(u32, u32)>,
    dowhile: BTreeSet<(u32, u32)>,
    never: BTreeSet<(u32, u32)>,
    straight: bool,
}

fn line_of(s: &S) -> u32 {
    match s {
        S::Leaf(_, l) | S::Comp(_, l, _) => *l,
    }
}

impl Must {
    fn block(&mut self, b: &[S]) -> bool {
        let mut ends = false;
        let (mut jumps, mut dead) = (false, false);
        let mut before = 0;
        for s in b {
            if matches!(s, S::Leaf(b'z', _) | S::Comp(b'A' | b'a'..=b'z', ..)) {
                // a label: taken to be reachable
                ends = false;
                dead = false;
                jumps = true;
            }
            if ends {
                if !dead {
                    self.after.insert((line_of(s), before));
                }
                dead = true;
                continue;
            }
            before = line_of(s);
            let e = self.stmt(s);
            jumps |= jumpy(s);
            ends = e && !jumps;
        }
        ends
    }
    fn stmt(&mut self, s: &S) -> bool {
        match s {
            S::Leaf(k, _) => matches!(k, b'e' | b'c'),
            S::Comp(k, l, bs) => {
                let ends: Vec<bool> = bs.iter().map(|b| self.block(&b.1)).collect();
                let all = ends.iter().all(|e| *e) && !jumpy(s);
                match k {
                    b'0' => ends[1] && !jumpy(s),
                    b'E' | b'F' | b'S' | b'1' => all,
                    b'D' | b'd' if all => {
                        self.dowhile.insert((*l, *l));
                        true
                    },
                    b'R' | b'r' => all,
                    b'N' => {
                        self.never.insert((*l, *l));
                        false
                    },
                    _ => false,
                }
            },
        }
    }
}

struct Want {
    flow: Flow,
    /// loops that never run, reachable or not
    never: BTreeSet<u32>,
    must: Must,
}

/// Messages other than those about reachability that these programs rightly provoke.
fn other(d: &Diag) -> bool {
    matches!(d.kind.as_str(), "control_condition_static" | "if_condition_determinate")
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut seen = BTreeSet::new();
    for d in got {
        if other(d) {
            continue;
        }
        let l = d.line;
        if !seen.insert((l, d.text.clone())) {
            return Err(("repeated".into(), format!("said twice: {}", d.show())));
        }
        let truth = match d.text.as_str() {
            "possible unreachable code here" | "unreachable else block, preceeding if/elseif condition(s) are always true" | "unreachable if block, preceeding if/elseif condition(s) are always true" => !w.flow.reach.contains(&l),
            "do while terminates without ever reaching condition" => !w.flow.cond.contains(&l),
            "for range loop body is never reached due to invalid range" => w.never.contains(&l),
            _ => return Err(("other diagnostic".into(), format!("unexpected: {}", d.show()))),
        };
        if !truth {
            return Err((format!("false: {}", d.text), format!("line {l} says \"{}\", but it can be reached", d.text)));
        }
    }
    let needed = |at: &u32| w.must.straight || w.flow.reach.contains(at);
    let has = |l: u32, t: &str| seen.iter().any(|s| s.0 == l && s.1 == t);
    for (l, at) in &w.must.after {
        if needed(at) && !has(*l, "possible unreachable code here") {
            return Err(("missed unreachable".into(), format!("line {l} follows what ends the proc")));
        }
    }
    for (l, at) in &w.must.dowhile {
        if needed(at) && !has(*l, "do while terminates without ever reaching condition") {
            return Err(("missed do while".into(), format!("the loop at line {l} never reaches its condition")));
        }
    }
    for (l, at) in &w.must.never {
        if needed(at) && !has(*l, "for range loop body is never reached due to invalid range") {
            return Err(("missed range".into(), format!("the loop at line {l} never runs")));
        }
    }
    Ok(())
}

fn program(code: &[u8]) -> (String, Want) {
    let mut out = "/proc/@f()\n".to_owned();
    let mut line = 2;
    let mut at = 0;
    let body = render(code, &mut at, 1, &mut out, &mut line);
    out = out.replace("u()", "@u()");
    out.push_str("/proc/@u()\n");
    let mut flow = Flow::default();
    flow.block(&body, true);
    if flow.jumps {
        flow.block(&body, true);
    }
    // a goto found only through the label
    flow.block(&body, true);
    let mut must = Must { straight: !code.iter().any(|k| b"BCbkgzAwdrl".contains(k)), ..Must::default() };
    must.block(&body);
    fn nevers(b: &[S], out: &mut BTreeSet<u32>) {
        for s in b {
            if let S::Comp(k, l, bs) = s {
                if *k == b'N' {
                    out.insert(*l);
                }
                bs.iter().for_each(|b| nevers(&b.1, out));
            }
        }
    }
    let mut never = BTreeSet::new();
    nevers(&body, &mut never);
    (out, Want { flow, never, must })
}

fn bodies(r: &mut Runner, name: &str, rule: &str, mut g: Gen, upto: usize) {
    let top = Scope { in_loop: false, in_label: false };
    // a case is a choice of the first statement; the rest of the body runs through every block
    let mut firsts: Vec<(Vec<u8>, usize)> = vec![];
    let mut rests: Vec<Vec<Vec<u8>>> = vec![];
    for n in 0..=upto {
        if n > 0 {
            firsts.extend(g.stmts(n, top).into_iter().map(|s| (s, n)));
        }
        if n < upto {
            rests.push(g.blocks(n, top));
        } else {
            rests.push(vec![]);
        }
    }
    drop(g);
    // a case is a range of first statements with every rest, or one with some of the rests of one size
    let mut groups: Vec<(usize, usize, Option<(usize, usize, usize)>)> = vec![];
    let mut i = 0;
    while i < firsts.len() {
        let per: usize = (0..=upto - firsts[i].1).map(|k| rests[k].len()).sum();
        if per > 20000 {
            for k in 0..=upto - firsts[i].1 {
                let mut at = 0;
                while at < rests[k].len() {
                    let to = (at + 20000).min(rests[k].len());
                    groups.push((i, i + 1, Some((k, at, to))));
                    at = to;
                }
            }
            i += 1;
            continue;
        }
        let n = (2000 / per.max(1)).max(1);
        let mut j = i;
        while j < firsts.len() && j - i < n && firsts[j].1 == firsts[i].1 {
            j += 1;
        }
        groups.push((i, j, None));
        i = j;
    }
    r.suite(name, rule, groups.len() as u64, |k, c| {
        let (a, b, part) = groups[k as usize];
        let mut buf = vec![];
        for (f, n) in &firsts[a..b] {
            for (k, rest) in rests.iter().take(upto - n + 1).enumerate() {
                let rest = match part {
                    None => &rest[..],
                    Some((p, from, to)) if p == k => &rest[from..to],
                    Some(_) => continue,
                };
                for t in rest {
                    let mut code = f.clone();
                    code.extend(t);
                    if !gotos_in_scope(&code) {
                        continue;
                    }
                    buf.push(program(&code));
                    if buf.len() >= 500 {
                        batch(c, &buf, verify);
                        buf.clear();
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        }
        batch(c, &buf, verify);
    });
}

/// A goto reaches labels in its own block or those around it.
fn gotos_in_scope(code: &[u8]) -> bool {
    if !code.contains(&b'g') {
        return true;
    }
    fn walk(code: &[u8], at: &mut usize, path: &mut Vec<usize>, g: &mut Vec<Vec<usize>>, z: &mut Vec<Vec<usize>>) {
        while *at < code.len() && code[*at] != b'.' {
            let k = code[*at];
            let me = *at;
            *at += 1;
            match k {
                b'g' => g.push(path.clone()),
                b'z' => z.push(path.clone()),
                _ => {},
            }
            for i in 0..arity(k) {
                path.push(me * 4 + i);
                walk(code, at, path, g, z);
                path.pop();
                *at += 1;
            }
        }
    }
    let (mut g, mut z) = (vec![], vec![]);
    walk(code, &mut 0, &mut vec![], &mut g, &mut z);
    g.iter().all(|g| z.iter().all(|z| g.starts_with(z)))
}

// --------------------------------------------------------------------------------------------
// Conditions

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Null,
    Num(f32),
    Str(&'static str),
    Ref,
}
fn truthy(v: V) -> bool {
    match v {
        V::Null => false,
        V::Num(n) => n != 0.0,
        V::Str(s) => !s.is_empty(),
        V::Ref => true,
    }
}

/// Literals and what they are, then things whose value is not known.
const ATOMS: [(&str, Option<V>); 17] = [
    ("1", Some(V::Num(1.0))),
    ("0", Some(V::Num(0.0))),
    ("null", Some(V::Null)),
    ("\"\"", Some(V::Str(""))),
    ("\"a\"", Some(V::Str("a"))),
    ("0.5", Some(V::Num(0.5))),
    ("0.0", Some(V::Num(0.0))),
    ("/obj", Some(V::Ref)),
    ("\"0\"", Some(V::Str("0"))),
    ("7", Some(V::Num(7.0))),
    ("v", None),
    ("u()", None),
    ("src.v", None),
    ("args[1]", None),
    ("global.g", None),
    ("\"[v]\"", None),
    ("-v", None),
];
const LITERALS: usize = 10;
const UNKNOWN: [V; 5] = [V::Null, V::Num(0.0), V::Num(1.0), V::Str(""), V::Ref];

#[derive(Clone, Debug)]
enum E {
    A(usize),
    Not(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    Assign(&'static str, Box<E>),
    New(&'static str),
}

impl E {
    fn show(&self) -> String {
        match self {
            E::A(i) => ATOMS[*i].0.replace('u', "@u").replace("n@ull", "null").replace("global.g", "global.@g"),
            E::Not(e) => format!("!({})", e.show()),
            E::Bin(op, a, b) => {
                let side = |e: &E| if matches!(e, E::A(_)) { e.show() } else { format!("({})", e.show()) };
                format!("{} {op} {}", side(a), side(b))
            },
            E::Tern(a, b, c) => format!("({}) ? ({}) : ({})", a.show(), b.show(), c.show()),
            E::Assign(op, a) => format!("v {op} ({})", a.show()),
            E::New(t) => (*t).to_owned(),
        }
    }
    /// Every value it may have; atoms of unknown value may have any, each time they are asked.
    fn truths(&self) -> (bool, bool) {
        let (mut f, mut t) = (false, false);
        for v in self.values() {
            match v {
                Some(v) => {
                    if truthy(v) {
                        t = true
                    } else {
                        f = true
                    }
                },
                None => (f, t) = (true, true),
            }
        }
        (f, t)
    }
    /// None: something numeric that is not followed further
    fn values(&self) -> Vec<Option<V>> {
        match self {
            E::A(i) => match ATOMS[*i].1 {
                Some(v) => vec![Some(v)],
                None => UNKNOWN.iter().map(|v| Some(*v)).collect(),
            },
            E::Not(e) => {
                let (f, t) = e.truths();
                let mut r = vec![];
                if t {
                    r.push(Some(V::Num(0.0)));
                }
                if f {
                    r.push(Some(V::Num(1.0)));
                }
                r
            },
            E::Bin("&&", a, b) => {
                let mut r: Vec<_> = a.values().into_iter().filter(|v| v.is_none_or(|v| !truthy(v))).collect();
                if a.truths().1 {
                    r.extend(b.values());
                }
                r
            },
            E::Bin("||", a, b) => {
                let mut r: Vec<_> = a.values().into_iter().filter(|v| v.is_none_or(truthy)).collect();
                if a.truths().0 {
                    r.extend(b.values());
                }
                r
            },
            E::Bin("==", a, b) | E::Bin("!=", a, b) => {
                let eq = matches!(self, E::Bin("==", ..));
                match (&a.values()[..], &b.values()[..]) {
                    ([Some(x)], [Some(y)]) => vec![Some(V::Num(((x == y && *x != V::Ref) == eq) as u8 as f32))],
                    _ => vec![None],
                }
            },
            E::Bin(..) => vec![None],
            E::Tern(c, a, b) => {
                let (f, t) = c.truths();
                let mut r = vec![];
                if t {
                    r.extend(a.values());
                }
                if f {
                    r.extend(b.values());
                }
                r
            },
            E::Assign("=", a) => a.values(),
            E::Assign("||=", a) => {
                let mut r: Vec<Option<V>> = UNKNOWN.iter().filter(|v| truthy(**v)).map(|v| Some(*v)).collect();
                r.extend(a.values());
                r
            },
            E::Assign("&&=", a) => {
                let mut r: Vec<Option<V>> = UNKNOWN.iter().filter(|v| !truthy(**v)).map(|v| Some(*v)).collect();
                r.extend(a.values());
                r
            },
            E::Assign(..) => vec![None],
            E::New(_) => vec![Some(V::Ref)],
        }
    }
    fn literal(&self) -> bool {
        matches!(self, E::A(i) if *i < LITERALS)
    }
    /// nothing in it can differ from run to run
    fn fixed(&self) -> bool {
        match self {
            E::A(i) => *i < LITERALS,
            E::Not(a) => a.fixed(),
            E::Bin(_, a, b) => a.fixed() && b.fixed(),
            E::Tern(a, b, c) => a.fixed() && b.fixed() && c.fixed(),
            E::Assign(..) | E::New(_) => false,
        }
    }
    /// Literals joined by !, &&, || and ?: must be seen through.
    fn evident(&self) -> bool {
        match self {
            E::A(i) => *i < LITERALS,
            E::Not(a) => a.evident(),
            E::Bin("&&" | "||", a, b) => a.evident() && b.evident(),
            E::Tern(a, b, c) => a.evident() && b.evident() && c.evident(),
            E::Assign("=", a) => a.literal(),
            E::New(_) => true,
            _ => false,
        }
    }
}

const OPS: [&str; 12] = ["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "&", "in", "-"];
const COMPARE: [&str; 8] = ["&&", "||", "==", "!=", "<", ">", "<=", ">="];

fn exprs(depth: usize, small: bool) -> Vec<E> {
    let b = |e: &E| Box::new(e.clone());
    let mut out: Vec<E> = (0..ATOMS.len()).map(E::A).collect();
    out.extend(["new /obj", "list()", "new /obj(v)", "list(v)"].map(E::New));
    if depth == 0 {
        return if small { vec![E::A(0), E::A(1), E::A(4), E::A(10)] } else { out };
    }
    let inner = exprs(depth - 1, small || depth > 1);
    for a in &inner {
        if !matches!(a, E::A(_)) || depth == 1 {
            out.push(E::Not(b(a)));
        }
        for op in ["=", "+=", "||=", "&&="] {
            out.push(E::Assign(op, b(a)));
        }
        for c in &inner {
            for op in OPS {
                out.push(E::Bin(op, b(a), b(c)));
            }
        }
    }
    let small = exprs(0, true);
    for a in &inner {
        for c in &small {
            for d in &small {
                out.push(E::Tern(b(a), b(c), b(d)));
                out.push(E::Tern(b(c), b(a), b(d)));
                out.push(E::Tern(b(c), b(d), b(a)));
            }
        }
    }
    out
}

/// place, and which messages it gives: determinate for `if`, for loops, none; static or not
const PLACES: [(&str, &str, bool); 7] = [
    ("\tif(#)\n\t\t@u()\n", "if", true),
    ("\tif(@u())\n\t\t@u()\n\telse if(#)\n\t\t@u()\n", "if", true),
    ("\tfor(v = 0, #, v++)\n\t\t@u()\n", "loop", true),
    ("\twhile(#)\n\t\t@u()\n", "", false),
    ("\tdo\n\t\t@u()\n\twhile(#)\n", "", false),
    ("\tswitch(#)\n\t\tif(3)\n\t\t\t@u()\n", "", true),
    ("\tv = list(#)\n", "", false),
];

struct Cond {
    e: E,
    place: usize,
}

fn verify_cond(w: &Cond, got: &[Diag]) -> Result<(), (String, String)> {
    let (place, det, stat) = PLACES[w.place];
    let (f, t) = w.e.truths();
    let det_kind = match det {
        "if" => "if_condition_determinate",
        "loop" => "loop_condition_determinate",
        _ => "-",
    };
    let (mut said, mut said_static) = (None, 0);
    for d in got {
        let text = d.text.as_str();
        if d.kind == det_kind && text == format!("{det} condition is always true") {
            if f {
                return Err(("false always true".into(), format!("can be false: {}", d.show())));
            }
            if said.replace(true).is_some() {
                return Err(("repeated".into(), "said twice".into()));
            }
        } else if d.kind == det_kind && text == format!("{det} condition is always false") {
            if t {
                return Err(("false always false".into(), format!("can be true: {}", d.show())));
            }
            if said.replace(false).is_some() {
                return Err(("repeated".into(), "said twice".into()));
            }
        } else if d.kind == "control_condition_static" && stat {
            if !w.e.fixed() {
                return Err(("false static".into(), format!("depends on more than literals: {}", d.show())));
            }
            said_static += 1;
        } else if !place.contains('#') || d.kind.starts_with("ambiguous") || text.starts_with("got '") {
        } else {
            return Err(("other diagnostic".into(), format!("unexpected: {}", d.show())));
        }
    }
    if said_static > 1 {
        return Err(("repeated".into(), "static condition said twice".into()));
    }
    if !det.is_empty() && w.e.evident() && said.is_none() {
        return Err(("missed determinate".into(), format!("made of literals only and always {t}")));
    }
    let plainly = w.e.literal() || matches!(&w.e, E::Bin(op, a, b) if COMPARE.contains(op) && a.literal() && b.literal());
    if stat && plainly && said_static == 0 {
        return Err(("missed static".into(), "a literal, or a comparison of literals".into()));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------

const BOUNDS: [(&str, Option<f32>); 13] = [
    ("0", Some(0.0)),
    ("1", Some(1.0)),
    ("2", Some(2.0)),
    ("5", Some(5.0)),
    ("-1", Some(-1.0)),
    ("-2", Some(-2.0)),
    ("1.5", Some(1.5)),
    ("0.5", Some(0.5)),
    ("-0.5", Some(-0.5)),
    ("v", None),
    ("@u()", None),
    ("(1)", Some(1.0)),
    ("1000000", Some(1000000.0)),
];

struct Range {
    runs: Option<bool>,
    required: bool,
    body: u32,
    after: u32,
}

fn verify_range(w: &Range, got: &[Diag]) -> Result<(), (String, String)> {
    let (mut never, mut after) = (0, 0);
    for d in got {
        match d.text.as_str() {
            "for range loop body is never reached due to invalid range" if d.line == w.body => never += 1,
            "possible unreachable code here" if d.line == w.after => after += 1,
            _ => return Err(("other diagnostic".into(), format!("unexpected: {}", d.show()))),
        }
    }
    if never > 0 && w.runs != Some(false) {
        return Err(("false never".into(), "the body can run".into()));
    }
    if after > 0 && w.runs != Some(true) {
        return Err(("false unreachable".into(), "the loop need not run its body".into()));
    }
    if w.required && w.runs == Some(false) && never != 1 {
        return Err(("missed never".into(), "the body never runs".into()));
    }
    if w.required && w.runs == Some(true) && after != 1 {
        return Err(("missed unreachable".into(), "the body always runs, and returns".into()));
    }
    Ok(())
}

pub fn check(r: &mut Runner) {
    let all: Vec<u8> = COMPOUND.iter().map(|c| c.0).collect();
    bodies(r, "bodies", "every proc body of up to N statements over every kind of branch, loop, spawn, try and label", Gen::new(b"pect", &all, false), r.pick(5, 5));
    bodies(
        r,
        "loops",
        "every proc body of up to N statements over conditionals and loops, for the ways in which jumps nest",
        Gen::new(b"pe", b"IEDRW", false),
        r.pick(6, 7),
    );
    bodies(r, "labels", "every proc body of up to N statements with labelled loops and jumps to the outer one", Gen::new(b"pe", b"IEDRA", true), r.pick(5, 6));
    bodies(r, "goto", "every proc body of up to N statements with a goto and labels anywhere", Gen::new(b"pegz", b"IEDRWS", false), r.pick(5, 6));

    let es = exprs(r.pick(1, 2), false);
    let per = 500;
    let n = es.len().div_ceil(per);
    r.suite("conditions", "every condition over 17 atoms, 12 operators, negation, ternaries, assignments and creations, in every place", (n * PLACES.len()) as u64, |i, c| {
        let place = i as usize % PLACES.len();
        let k = i as usize / PLACES.len();
        let progs: Vec<_> = es[k * per..(k * per + per).min(es.len())]
            .iter()
            .map(|e| {
                let t = format!("var/@g\n/datum/@t\n\tvar/v\n/datum/@t/proc/@f(v)\n{}/proc/@u()\n", PLACES[place].0.replace('#', &e.show()));
                (t, Cond { e: e.clone(), place })
            })
            .collect();
        batch(c, &progs, verify_cond);
    });

    // chains of conditions: an arm is unreachable exactly after one that is always true
    const KINDS: [(&str, u8); 5] = [("@u()", 2), ("1", 1), ("0", 0), ("!0", 1), ("null", 0)];
    let arms = r.pick(4, 5);
    let n = count_upto(KINDS.len(), arms) as u64;
    r.suite("chains", "every chain of up to N conditions of known and unknown truth, with and without else", n, |i, c| {
        let w = word(KINDS.len(), i);
        if w.is_empty() {
            return;
        }
        let mut progs = vec![];
        for els in [false, true] {
            let mut t = "/proc/@u()\n/proc/@f()\n".to_owned();
            let mut line = 3;
            let mut want = BTreeSet::new();
            let mut taken = false;
            for (k, a) in w.iter().enumerate() {
                t.push_str(&format!("\t{}if({})\n\t\t@u()\n", if k > 0 { "else " } else { "" }, KINDS[*a].0));
                if taken {
                    want.insert(line);
                }
                taken |= KINDS[*a].1 == 1;
                line += 2;
            }
            if els {
                t.push_str("\telse\n\t\t@u()\n");
                if taken {
                    want.insert(line + 1);
                }
            }
            progs.push((t, want));
        }
        batch(c, &progs, |want, got| {
            let said: Vec<u32> = got.iter().filter(|d| d.kind == "unreachable_code").map(|d| d.line).collect();
            if got.iter().any(|d| d.kind != "unreachable_code" && !other(d)) {
                return Err(("other diagnostic".into(), "unexpected".into()));
            }
            if said != want.iter().copied().collect::<Vec<_>>() {
                return Err(("arms".into(), format!("unreachable arms are on lines {want:?}, said {said:?}")));
            }
            Ok(())
        });
    });

    let n = BOUNDS.len();
    r.suite("ranges", "every pair of 13 bounds with every step, with a body that returns", (n * n) as u64, |i, c| {
        let mut d = Digits(i);
        let (a, b) = (BOUNDS[d.take(n)], BOUNDS[d.take(n)]);
        let mut progs = vec![];
        for step in std::iter::once(None).chain(BOUNDS.iter().map(Some)) {
            for form in 0..2 {
                let head = match form {
                    0 => format!("for(var/i in {} to {}", a.0, b.0),
                    _ => format!("for(v = {} to {}", a.0, b.0),
                };
                let t = format!("/proc/@u()\n/proc/@f(v)\n\t{head}{})\n\t\treturn\n\t@u()\n", step.map_or(String::new(), |s| format!(" step {}", s.0)));
                let runs = match (a.1, b.1, step) {
                    (Some(x), Some(y), None) => Some(x <= y),
                    (Some(x), Some(y), Some((_, Some(s)))) if *s > 0.0 => Some(x <= y),
                    (Some(x), Some(y), Some((_, Some(s)))) if *s < 0.0 => Some(x >= y),
                    _ => None,
                };
                let whole = |v: (&str, Option<f32>)| v.0.bytes().all(|b| b.is_ascii_digit());
                let required = whole(a) && whole(b) && step.is_none_or(|s| whole(*s) && s.0 != "0");
                progs.push((t, Range { runs, required, body: 3, after: 5 }));
            }
        }
        batch(c, &progs, verify_range);
    });
}
