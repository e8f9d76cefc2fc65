//! Object tree: histories of declarations vs. a reference class hierarchy.
use crate::p09_const::parse_tree;
use crate::util::*;
use dm::ast::PathOp;
use dm::constants::Constant;
use dm::objtree::TypeRef;
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
enum D {
    Type,
    /// declare variable x with a value
    Var(i32),
    Bare,
    Set(i32),
    Parent(&'static str),
    ProcDecl(&'static str, usize),
    Proc(usize),
}
use D::*;

const STMTS: [(&str, D); 20] = [
    ("/a", Type),
    ("/a/b", Type),
    ("/c/d", Type),
    ("/a", Var(1)),
    ("/a", Set(2)),
    ("/a/b", Set(3)),
    ("/c", Set(4)),
    ("/c/d", Var(5)),
    ("/c", Parent("/a")),
    ("/c", Parent("/a/b")),
    ("/a", Parent("/c/d")),
    ("/a", ProcDecl("proc", 1)),
    ("/a", Proc(2)),
    ("/a/b", Proc(0)),
    ("/c", Proc(3)),
    ("/c/d", ProcDecl("verb", 4)),
    ("/a/b", Parent("/obj")),
    ("/c", Parent("/nope")),
    ("/a/b", Parent("/c")),
    ("/a/b", Bare),
];

fn leaf(d: D) -> String {
    let params = |n: usize| (0..n).map(|k| format!("p{k}")).collect::<Vec<_>>().join(", ");
    match d {
        Type => String::new(),
        Var(v) => format!("var/vx = {v}"),
        Bare => "var/vx".into(),
        Set(v) => format!("vx = {v}"),
        Parent(p) => format!("parent_type = {p}"),
        ProcDecl(k, n) => format!("{k}/pf({})", params(n)),
        Proc(n) => format!("pf({})", params(n)),
    }
}

/// The statement in a spelling; the number of the line holding the declaration itself is returned.
fn spell(path: &str, d: D, form: usize, out: &mut Vec<String>) -> u32 {
    let l = leaf(d);
    let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
    match form {
        0 => {
            out.push(if l.is_empty() { path.to_owned() } else { format!("{path}/{l}") });
            out.len() as u32
        },
        1 => {
            for (k, p) in parts.iter().enumerate() {
                out.push(format!("{}{p}", "\t".repeat(k)));
            }
            if !l.is_empty() {
                // var and proc groups get a block of their own
                let ind = "\t".repeat(parts.len());
                match l.split_once('/') {
                    Some((g @ ("var" | "proc" | "verb"), rest)) => {
                        out.push(format!("{ind}{g}"));
                        out.push(format!("{ind}\t{rest}"));
                    },
                    _ => out.push(format!("{ind}{l}")),
                }
            }
            out.len() as u32
        },
        _ => {
            let mut t = parts.join(" { ");
            if !l.is_empty() {
                t += &format!(" {{ {l}; }}");
            }
            for _ in 1..parts.len() {
                t += " }";
            }
            out.push(t);
            out.len() as u32
        },
    }
}

#[derive(Default, Clone)]
struct Ty {
    decl: Option<u32>,
    value: Option<(u32, Option<i32>)>,
    procs: Vec<(u32, usize)>,
    pdecl: Option<u32>,
    parent: Option<(&'static str, u32)>,
}

const BUILTIN: [(&str, &str); 5] = [("/datum", ""), ("/atom", "/datum"), ("/atom/movable", "/atom"), ("/obj", "/atom/movable"), ("/list", "")];

fn model(seq: &[(u32, &'static str, D)]) -> (BTreeMap<String, Ty>, BTreeMap<String, String>, BTreeSet<u32>, BTreeSet<u32>) {
    let mut t: BTreeMap<String, Ty> = BTreeMap::new();
    let (mut bad, mut hints) = (BTreeSet::new(), BTreeSet::new());
    for &(line, path, d) in seq {
        for (i, _) in path[1..].match_indices('/') {
            t.entry(path[..i + 1].to_owned()).or_default();
        }
        let ty = t.entry(path.to_owned()).or_default();
        match d {
            Type => {},
            Var(v) => {
                ty.decl = Some(line);
                ty.value = Some((line, Some(v)));
            },
            Bare => {
                ty.decl = Some(line);
                ty.value = Some((line, None));
            },
            Set(v) => ty.value = Some((line, Some(v))),
            Parent(p) => ty.parent = Some((p, line)),
            ProcDecl(_, n) => {
                if ty.pdecl.is_some() {
                    bad.insert(line);
                } else {
                    ty.pdecl = Some(line);
                }
                if ty.procs.is_empty() {
                    ty.procs.push((line, n));
                } else {
                    hints.insert(ty.procs[0].0);
                    ty.procs.insert(0, (line, n));
                }
            },
            Proc(n) => ty.procs.push((line, n)),
        }
    }
    // parents
    let mut par: BTreeMap<String, String> = BUILTIN.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for (p, ty) in &t {
        let default = match p.rfind('/').unwrap() {
            0 => "/datum",
            i => &p[..i],
        };
        let mut to = default.to_owned();
        if let Some((q, line)) = ty.parent {
            to = q.to_owned();
            if !t.contains_key(q) && q != "/obj" {
                bad.insert(line);
                to = String::new();
            }
        }
        par.insert(p.clone(), to);
    }
    // break cycles at their first member
    for p in t.keys() {
        let mut x = par[p].clone();
        for _ in 0..20 {
            if &x == p {
                bad.insert(t[p].parent.expect("a cycle's first member is redirected").1);
                par.insert(p.clone(), String::new());
                break;
            }
            if x.is_empty() {
                break;
            }
            x = par[&x].clone();
        }
    }
    (t, par, bad, hints)
}

fn chain(par: &BTreeMap<String, String>, p: &str) -> Vec<String> {
    let mut v = vec![p.to_owned()];
    while !v.last().unwrap().is_empty() {
        let n = par[v.last().unwrap()].clone();
        v.push(n);
    }
    v
}

fn case(stmts: &[(&'static str, D)], form: usize, c: &mut Case) {
    let mut out = vec![];
    let mut seq = vec![];
    // lines mentioning each type
    let mut located: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for (k, &(p, d)) in stmts.iter().enumerate() {
        let f = if form == 3 { k % 3 } else { form };
        let first = out.len() as u32 + 1;
        let line = spell(p, d, f, &mut out);
        let depth = p.matches('/').count();
        for j in 1..=depth {
            let pre: String = p.split('/').take(j + 1).collect::<Vec<_>>().join("/");
            located.entry(pre).or_default().insert(if f == 1 { first + j as u32 - 1 } else { first });
        }
        seq.push((line, p, d));
    }
    let src = out.join("\n") + "\n";
    c.input(|| src.clone());
    c.trans(stmts.len() as u64);
    c.validated(1);
    let (t, par, mut bad, hints) = model(&seq);
    let (ctx, tree) = parse_tree(&src);
    c.state(&format!("{par:?}"));
    c.outcome(&(bad.len(), hints.len()));

    macro_rules! eq {
        ($key:expr, $want:expr, $got:expr, $($what:tt)*) => {{
            let (w, g) = ($want, $got);
            if w != g {
                c.fail($key, format!("{}: expected {w:?}, got {g:?}", format!($($what)*)));
                return;
            }
        }};
    }
    let path = |t: TypeRef| t.path.clone();
    let types: Vec<&String> = t.keys().collect();
    let user = |p: &str| t.contains_key(p);
    eq!("types", types.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>(), tree.iter_types().filter(|t| user(&t.path) || !t.location.is_builtins() && !t.path.is_empty()).map(path).collect::<BTreeSet<_>>(), "declared types");
    for &p in &types {
        let ty = tree.find(p).unwrap();
        let ch = chain(&par, p);
        eq!("type location", true, located[p].contains(&ty.location.line), "{p} is located at line {}", ty.location.line);
        eq!("parents", ch.clone(), ty.iter_parent_types().map(path).collect::<Vec<_>>(), "ancestors of {p}");
        eq!("parent path", p[..p.rfind('/').unwrap()].to_owned(), ty.parent_path().unwrap().path.clone(), "{p}");
        eq!("by path", Some(p.clone()), tree.type_by_path(p[1..].split('/')).map(path), "{p}");
        // values
        let own = |q: &String| t.get(q);
        let decl = ch.iter().find_map(|q| own(q).and_then(|x| x.decl));
        let val = ch.iter().find_map(|q| own(q).and_then(|x| x.value));
        eq!("declaration", decl, ty.get_var_declaration("vx").map(|d| d.location.line), "declaration of x on {p}");
        eq!("value line", val.map(|v| v.0), ty.get_value("vx").map(|d| d.location.line), "value of x on {p}");
        if let (Some(_), Some((_, v))) = (decl, t[p].value) {
            let got = ty.get_value("vx").and_then(|v| v.constant.clone());
            let want = v.map(|v| v as f32);
            if !match (&want, &got) {
                (Some(w), Some(Constant::Float(g))) => w == g,
                (None, Some(Constant::Null(_))) => true,
                _ => false,
            } {
                c.fail("value", format!("x on {p}: expected {want:?}, got {got:?}"));
                return;
            }
        }
        if decl.is_none() {
            if let Some((line, _)) = t[p].value {
                bad.insert(line);
            }
        }
        if let Some((_, line)) = t[p].parent {
            // a type which does not descend from /datum has no parent_type to set
            if !ch.iter().any(|q| q == "/datum") {
                bad.insert(line);
            }
        }
        // procs: the full stack of definitions, outermost first
        let mut stack = vec![];
        for q in &ch {
            if let Some(x) = own(q) {
                for (i, (line, n)) in x.procs.iter().enumerate().rev() {
                    stack.push((q.clone(), i, *line, *n));
                }
            }
        }
        let mut got = vec![];
        let mut pr = ty.get_proc("pf");
        while let Some(x) = pr {
            got.push((x.ty().path.clone(), x.index(), x.location.line, x.parameters.len()));
            if got.len() > 40 {
                break;
            }
            pr = x.parent_proc();
        }
        eq!("proc stack", stack, got, "f on {p}");
        let pdecl = ch.iter().find_map(|q| own(q).and_then(|x| x.pdecl));
        eq!("proc declaration", pdecl, ty.get_proc_declaration("pf").map(|d| d.location.line), "f on {p}");
        eq!("own procs", t[p].procs.iter().map(|x| x.0).collect::<Vec<_>>(), ty.iter_self_procs().filter(|x| x.name() == "pf").map(|x| x.location.line).collect::<Vec<_>>(), "{p}");
        // descendants
        let mut want: Vec<String> = types.iter().filter(|q| chain(&par, q).contains(p)).map(|q| q.to_string()).collect();
        want.sort();
        let mut got = vec![];
        ty.recurse_types(&mut |x| got.push(x.path.clone()));
        got.sort();
        eq!("descendants", want.clone(), got, "{p}");
        if let Some(x) = ty.get_proc("pf") {
            let mut w: Vec<String> = want.iter().filter(|q| !t[*q].procs.is_empty()).cloned().collect();
            w.sort();
            let mut got = vec![];
            x.recurse_children_within(ty, &mut |y| got.push(y.ty().path.clone()));
            got.sort();
            eq!("overrides within", w, got, "{p}");
            let o = x.ty().path.clone();
            let mut w: Vec<String> = types.iter().filter(|q| !t[**q].procs.is_empty() && chain(&par, q).contains(&o)).map(|q| q.to_string()).collect();
            w.sort();
            let mut got = vec![];
            x.recurse_children(&mut |y| got.push(y.ty().path.clone()));
            got.sort();
            eq!("overrides", w, got, "{o} seen from {p}");
        }
        for &q in &types {
            let other = tree.find(q).unwrap();
            eq!("subtype", ch.contains(q), ty.is_subtype_of(other.get()), "{p} under {q}");
            eq!("subpath", p == q || p.starts_with(&format!("{q}/")), ty.is_subpath_of(q), "{p} below {q}");
        }
        eq!("subtype", ch.iter().any(|x| x == "/obj"), ty.is_subtype_of(tree.expect("/obj").get()), "{p} under /obj");
        eq!("subtype", ch.iter().any(|x| x == "/datum"), ty.is_subtype_of(tree.expect("/datum").get()), "{p} under /datum");
        // relative paths
        for name in ["a", "b", "c", "d"] {
            let mut up = None;
            let mut x = Some(p.as_str());
            while let Some(y) = x {
                let z = format!("{y}/{name}");
                if user(&z) {
                    up = Some(z);
                    break;
                }
                x = if y.is_empty() { None } else { Some(&y[..y.rfind('/').unwrap()]) };
            }
            eq!("dot path", up, ty.navigate(PathOp::Dot, name).map(path), "{p} .{name}");
            let direct = Some(format!("{p}/{name}")).filter(|z| user(z));
            eq!("slash path", direct.clone(), ty.navigate(PathOp::Slash, name).map(path), "{p} /{name}");
            let deep = direct.or_else(|| types.iter().find(|z| z.starts_with(&format!("{p}/")) && z.ends_with(&format!("/{name}"))).map(|z| z.to_string()));
            eq!("colon path", deep, ty.navigate(PathOp::Colon, name).map(path), "{p} :{name}");
        }
    }
    let lines = |s: dm::Severity| ctx.errors().iter().filter(|e| e.severity() == s).map(|e| e.location().line).collect::<BTreeSet<u32>>();
    let (e, h) = (lines(dm::Severity::Error), lines(dm::Severity::Hint));
    if e != bad || h != hints {
        c.fail("diagnostics", format!("expected errors on lines {bad:?}, hints on {hints:?}\ngot {:?}", errors_text(&ctx)));
    }
}

pub fn check(r: &mut Runner) {
    let n = STMTS.len();
    let len = r.pick(4, 5);
    r.suite("histories", "every sequence of up to N declarations from the catalogue (types, variables, overrides, parents, procedures), as absolute paths, indented, braced or mixed", count_upto(n, len) * 4, |i, c| {
        let mut d = Digits(i);
        let form = d.take(4);
        let seq: Vec<_> = word(n, d.0).into_iter().map(|k| STMTS[k]).collect();
        case(&seq, form, c);
    });
}
