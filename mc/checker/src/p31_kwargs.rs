//! P31: keyword arguments.
use crate::util::*;
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a diagnostic says, without its wording.
fn norm(d: &Diag) -> String {
    let quoted = |s: &str, n: usize| s.split('"').nth(2 * n + 1).unwrap_or("?").to_owned();
    let single = |s: &str, n: usize| s.split('\'').nth(2 * n + 1).unwrap_or("?").to_owned();
    let t = d.text.as_str();
    if t.starts_with("bad keyword argument") {
        format!("{} bad {} to {}", d.sev, quoted(t, 0), t.rsplit(' ').next().unwrap())
    } else if t.starts_with("proc called with non-kwargs after kwargs") {
        format!("{} order", d.sev)
    } else if d.kind == "override_missing_keyword_arg" {
        let mut children: Vec<String> = d
            .notes
            .iter()
            .filter(|n| n.contains(" is missing "))
            .map(|n| {
                let mut ks: Vec<&str> = n.split('"').skip(1).step_by(2).collect();
                ks.sort();
                format!("{}:{}", n.split(' ').nth(1).unwrap(), ks.join("+"))
            })
            .collect();
        children.sort();
        let count = if t.starts_with("an override") { "1" } else { t.split(' ').next().unwrap() };
        let of = t.split(" of ").nth(1).unwrap_or("").split(' ').next().unwrap();
        format!("{} missing {count} of {of} {}", d.sev, children.join(" "))
    } else if d.kind == "empty_find" {
        format!("{} find", d.sev)
    } else if t.starts_with("undefined var") {
        format!("{} undefined {}", d.sev, quoted(t, 0))
    } else if t.starts_with("filter() called without") {
        format!("{} no type", d.sev)
    } else if t.starts_with("filter() called with invalid type") {
        format!("{} bad type {}", d.sev, single(t, 0))
    } else if t.contains("called with invalid keyword parameter") {
        format!("{} bad key {}", d.sev, single(t, 0))
    } else if t.contains("parameter must have one value") {
        format!("{} exclusive", d.sev)
    } else if t.starts_with("filter") {
        format!("{} bad flag", d.sev)
    } else {
        format!("{} [{}] {t}", d.sev, d.kind)
    }
}

type Want = Vec<(u32, String)>;

fn verify(want: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut must = want.clone();
    for d in got {
        let k = (d.line, norm(d));
        match must.iter().position(|m| *m == k) {
            Some(i) => {
                must.swap_remove(i);
            },
            None => return Err((format!("false {}", head(&k.1)), format!("not expected: {} ({})\n  notes {:?}\n  expected {must:?}", d.show(), k.1, d.notes))),
        }
    }
    match must.first() {
        Some((l, k)) => Err((format!("missed {}", head(k)), format!("{k} belongs on line {l}"))),
        None => Ok(()),
    }
}
fn head(s: &str) -> String {
    s.split(' ').take(2).collect::<Vec<_>>().join(" ")
}

const BATCH: usize = 64;

// ------------------------------------------------------------------------------------------------
// One call

/// how a proc is called: text with `ARGS`, path of the proc reached ("" when it cannot be known)
const FORMS: [(&str, &str, &str); 22] = [
    // name, statement in /datum/@t/proc/@use(datum/@t/v, datum/@s/w, u), proc reached
    ("unscoped", "@m(ARGS)", "/datum/@t/proc/@m"),
    ("src", "src.@m(ARGS)", "/datum/@t/proc/@m"),
    ("var", "v.@m(ARGS)", "/datum/@t/proc/@m"),
    ("var?", "v?.@m(ARGS)", "/datum/@t/proc/@m"),
    ("override", "w.@m(ARGS)", "/datum/@t/@s/proc/@m"),
    ("global", "@g(ARGS)", "/proc/@g"),
    ("scoped global", "global.@g(ARGS)", "/proc/@g"),
    ("new", "new /datum/@t(ARGS)", "/datum/@t/proc/New"),
    ("implicit new", "v = new(ARGS)", "/datum/@t/proc/New"),
    ("untyped", "u:@m(ARGS)", ""),
    ("typed colon", "v:@m(ARGS)", ""),
    ("dynamic", "call(v, \"m\")(ARGS)", ""),
    ("list", "u = list(ARGS)", ""),
    ("varargs", "@va(ARGS)", "/proc/@va"),
    ("nested", "@va(1, @m(ARGS))", "/datum/@t/proc/@m"),
    ("in condition", "if(v.@m(ARGS)) return", "/datum/@t/proc/@m"),
    ("in index", "u[v.@m(ARGS)] = 1", "/datum/@t/proc/@m"),
    ("returned", "return v.@m(ARGS)", "/datum/@t/proc/@m"),
    ("in text", "u = \"[v.@m(ARGS)]\"", "/datum/@t/proc/@m"),
    ("spawned", "spawn(v.@m(ARGS)) u = 1", "/datum/@t/proc/@m"),
    ("new in var", "new u(ARGS)", ""),
    ("global by name", "global.@m(ARGS)", "none"),
];
/// an argument: text, keyword, undefined variable in its value
const ARGS: [(&str, &str, bool); 10] = [
    ("1", "", false),
    ("v", "", false),
    ("@x", "", true),
    ("k = 1", "k", false),
    ("l = v", "l", false),
    ("z = 1", "z", false),
    ("\"k\" = 1", "k", false),
    ("\"z\" = @x", "z", true),
    ("k = @x", "k", true),
    ("(k == 1)", "", false),
];
/// parameters of the procs
const PARAMS: [&str; 5] = ["", "k", "k, l", "a, l, k", "z"];

fn call_program(form: usize, params: &str, args: &[usize]) -> (String, Want) {
    let (_, stmt, reached) = FORMS[form];
    let mut t = String::new();
    t += &format!("/datum/@t/proc/@m({params})\n\treturn 1\n/datum/@t/New({params})\n\treturn\n/datum/@s\n\tparent_type = /datum/@t\n/datum/@s/@m({params})\n\treturn 2\n/proc/@g({params})\n\treturn 3\n/proc/@va(...)\n\treturn 4\n");
    let text = args.iter().map(|a| ARGS[*a].0).collect::<Vec<_>>().join(", ");
    // (k is a variable of the proc, so that k == 1 is no mistake)
    t += "/datum/@t/proc/@use(datum/@t/v, datum/@s/w, u, k)\n";
    let line = t.matches('\n').count() as u32 + 1;
    t += &format!("\t{}\n", stmt.replace("ARGS", &text));
    let mut want = vec![];
    let reached = if form == 4 { "/datum/@s/proc/@m" } else { reached };
    let own: Vec<&str> = if form == 13 { vec!["..."] } else { params.split(", ").collect() };
    let mut any = false;
    for a in args {
        let (_, key, undefined) = ARGS[*a];
        if undefined {
            want.push((line, "error undefined @x".into()));
        }
        if reached.is_empty() || reached == "none" {
            continue;
        }
        if !key.is_empty() {
            any = true;
            if !own.contains(&key) {
                want.push((line, format!("error bad {key} to {reached}")));
            }
        } else if any {
            want.push((line, "error order".into()));
        }
    }
    if reached == "none" {
        want.push((line, "error [] undefined proc: \"@m\" on (global)".into()));
    }
    (t, want)
}

// ------------------------------------------------------------------------------------------------
// Overrides

const TREE: [(&str, &[usize]); 5] = [
    ("/datum/@a", &[0]),
    ("/datum/@a/b", &[0, 1]),
    ("/datum/@a/b/c", &[0, 1, 2]),
    ("/datum/@a/d", &[0, 3]),
    ("/datum/@e", &[4]),
];
fn below(x: usize, t: usize) -> bool {
    x != t && TREE[x].1.contains(&t)
}

#[derive(Clone, Copy)]
struct Call {
    on: usize,
    keys: &'static str,
    /// 0: v.p(), 1: unscoped in a proc of the type, 2: src.p() there, 3: v.p()(twice)
    how: usize,
}

/// `defs[t]`: parameters of the implementations type t has, in order
fn override_program(defs: &[Vec<&str>; 4], calls: &[Call], global: bool) -> (String, Want) {
    let mut t = String::new();
    for (p, _) in TREE {
        t += &format!("{p}\n");
    }
    if global {
        t += "/proc/p(k)\n\treturn 9\n".replace("/p(", "/@p(").as_str();
    }
    let name = "@p";
    let mut at = vec![vec![]; 4];
    let mut declared = false;
    for (i, d) in defs.iter().enumerate() {
        for params in d {
            at[i].push(t.matches('\n').count() as u32 + 1);
            // the first one up the tree declares it
            let top = !(0..4).any(|u| below(i, u) && !defs[u].is_empty());
            let decl = top && at[i].len() == 1;
            declared |= decl;
            t += &format!("{}/{}{name}({params})\n\treturn {i}\n", TREE[i].0, if decl { "proc/" } else { "" });
        }
    }
    let _ = declared;
    // the implementation a type has: (type, parameters, line)
    let impl_of = |ty: usize| TREE[ty].1.iter().rev().find(|u| **u < 4 && !defs[**u].is_empty()).map(|u| (*u, *defs[*u].last().unwrap(), *at[*u].last().unwrap()));
    let mut want: Want = vec![];
    let mut used: BTreeMap<usize, BTreeSet<&str>> = BTreeMap::new();
    for (i, c) in calls.iter().enumerate() {
        let args = c.keys.split('+').map(|k| format!("{k} = 1")).collect::<Vec<_>>().join(", ");
        let head = match c.how {
            0 | 3 => format!("/proc/@call{i}({}/v)\n", &TREE[c.on].0[1..]),
            _ => format!("{}/proc/@call{i}()\n", TREE[c.on].0),
        };
        t += &head;
        let times = if c.how == 3 { 2 } else { 1 };
        for _ in 0..times {
            let line = t.matches('\n').count() as u32 + 1;
            let recv = match c.how {
                0 | 3 => "v.",
                1 => "",
                _ => "src.",
            };
            t += &format!("\t{recv}{name}({args})\n");
            let Some((ty, params, _)) = impl_of(c.on) else {
                if !(c.how == 1 && global) {
                    let on = if c.how == 1 { "" } else { "" };
                    want.push((line, format!("error [] undefined proc: \"{name}\" on {}{on}", TREE[c.on].0)));
                } else {
                    for k in c.keys.split('+').filter(|k| *k != "k") {
                        want.push((line, format!("error bad {k} to /proc/{name}")));
                    }
                }
                continue;
            };
            for k in c.keys.split('+') {
                if params.split(", ").any(|p| p == k) {
                    used.entry(c.on).or_default().insert(k);
                } else {
                    let idx = if defs[ty].len() > 1 { format!("[{}/{}]", defs[ty].len() - 1, defs[ty].len()) } else { String::new() };
                    want.push((line, format!("error bad {k} to {}/proc/{name}{idx}", TREE[ty].0)));
                }
            }
        }
    }
    for (ty, keys) in &used {
        let mut bad = vec![];
        for x in 0..4 {
            if below(x, *ty) && !defs[x].is_empty() {
                let has: Vec<&str> = defs[x].last().unwrap().split(", ").collect();
                let missing: Vec<&str> = keys.iter().copied().filter(|k| !has.contains(k)).collect();
                if !missing.is_empty() {
                    bad.push(format!("{}:{}", TREE[x].0, missing.join("+")));
                }
            }
        }
        if !bad.is_empty() {
            bad.sort();
            want.push((impl_of(*ty).unwrap().2, format!("error missing {} of {}/proc/{name} {}", bad.len(), TREE[*ty].0, bad.join(" "))));
        }
    }
    (t, want)
}

// ------------------------------------------------------------------------------------------------
// filter(): the documented parameters of each kind

const FILTERS: [(&str, &str); 14] = [
    ("alpha", "x y icon render_source flags"),
    ("angular_blur", "x y size"),
    ("bloom", "threshold size offset alpha"),
    ("color", "color space"),
    ("displace", "x y size icon render_source flags"),
    ("drop_shadow", "x y size offset color"),
    ("blur", "size"),
    ("layer", "x y icon render_source flags color transform blend_mode"),
    ("motion_blur", "x y"),
    ("outline", "size color flags"),
    ("radial_blur", "x y size"),
    ("rays", "x y size color offset density threshold factor flags"),
    ("ripple", "x y size repeat radius falloff flags"),
    ("wave", "x y size offset flags"),
];
const FILTER_PARAMS: [&str; 21] = [
    "size", "color", "x", "y", "offset", "flags", "border", "render_source", "icon", "space", "transform", "blend_mode", "density", "threshold", "factor", "repeat", "radius", "falloff", "alpha",
    "name", "nothing",
];
/// kind, parameter, one value only, values
const FILTER_FLAGS: [(&str, &str, bool, &str); 8] = [
    ("alpha", "flags", false, "MASK_INVERSE MASK_SWAP"),
    ("color", "space", true, "FILTER_COLOR_RGB FILTER_COLOR_HSV FILTER_COLOR_HSL FILTER_COLOR_HCY"),
    ("displace", "flags", false, "FILTER_OVERLAY"),
    ("layer", "flags", true, "FILTER_OVERLAY FILTER_UNDERLAY"),
    ("rays", "flags", false, "FILTER_OVERLAY FILTER_UNDERLAY"),
    ("outline", "flags", false, "OUTLINE_SHARP OUTLINE_SQUARE"),
    ("ripple", "flags", false, "WAVE_BOUNDED"),
    ("wave", "flags", false, "WAVE_SIDEWAYS WAVE_BOUNDED"),
];
const ALL_FLAGS: [&str; 12] = [
    "MASK_INVERSE",
    "MASK_SWAP",
    "FILTER_COLOR_RGB",
    "FILTER_COLOR_HSV",
    "FILTER_COLOR_HSL",
    "FILTER_COLOR_HCY",
    "FILTER_OVERLAY",
    "FILTER_UNDERLAY",
    "OUTLINE_SHARP",
    "OUTLINE_SQUARE",
    "WAVE_BOUNDED",
    "WAVE_SIDEWAYS",
];

/// (text, flags or-ed, whether it is zero)
fn flag_values(depth: usize) -> Vec<(String, Vec<&'static str>, bool)> {
    let mut out = vec![("0".to_owned(), vec![], true)];
    for f in ALL_FLAGS {
        out.push((f.to_owned(), vec![f], false));
    }
    if depth > 0 {
        for a in ALL_FLAGS {
            for b in ALL_FLAGS {
                out.push((format!("{a} | {b}"), vec![a, b], false));
                out.push((format!("({a} | {b})"), vec![a, b], false));
                if depth > 1 {
                    for c in ALL_FLAGS {
                        out.push((format!("{a} | {b} | {c}"), vec![a, b, c], false));
                        out.push((format!("{a} | ({b} | {c})"), vec![a, b, c], false));
                    }
                }
            }
        }
    }
    out
}

pub fn check(r: &mut Runner) {
    // calls
    let n = r.pick(3, 4);
    let mut lists: Vec<Vec<usize>> = vec![];
    for k in 0..=n {
        for w in 0..pow(ARGS.len(), k as usize) {
            lists.push(word_of(ARGS.len(), k as usize, w));
        }
    }
    let per = lists.len().div_ceil(BATCH);
    r.suite("calls", "every argument list in every form of call to procs with every list of parameters", (FORMS.len() * PARAMS.len() * per) as u64, |i, c| {
        let i = i as usize;
        let (form, params) = (i / per / PARAMS.len(), PARAMS[i / per % PARAMS.len()]);
        let progs: Vec<_> = lists.iter().skip(i % per * BATCH).take(BATCH).map(|l| call_program(form, params, l)).collect();
        batch(c, &progs, verify);
    });
    // overrides
    let one: Vec<Vec<&str>> = vec![vec![], vec![""], vec!["k"], vec!["k, l"], vec!["l"]];
    let two: Vec<Vec<&str>> = vec![vec!["k", ""], vec!["", "k"], vec!["k, l", "l"]];
    let all: Vec<Vec<&str>> = one.iter().chain(&two).cloned().collect();
    let mut calls = vec![];
    for on in 0..4 {
        for keys in ["k", "l", "k+l"] {
            for how in 0..4 {
                calls.push(Call { on, keys, how });
            }
        }
    }
    let mut sets: Vec<Vec<Call>> = calls.iter().map(|c| vec![*c]).collect();
    for a in calls.iter().filter(|c| c.how == 0) {
        for b in calls.iter().filter(|c| c.how == 0) {
            sets.push(vec![*a, *b]);
        }
    }
    // all implementations from `one`; and one of the four types redefining it
    let mut shapes: Vec<[Vec<&str>; 4]> = vec![];
    for w in 0..pow(all.len(), 4) {
        let d = word_of(all.len(), 4, w);
        let re = d.iter().filter(|x| **x >= one.len()).count();
        if re <= 1 && (r.thorough() || re == 0 || d.iter().filter(|x| **x == 0).count() >= 1) && d.iter().any(|x| *x > 0) {
            shapes.push([0, 1, 2, 3].map(|k| all[d[k]].clone()));
        }
    }
    r.suite("overrides", "every list of parameters for a proc's implementations over a tree of types, with every one and two keyword calls", shapes.len() as u64, |i, c| {
        let defs = &shapes[i as usize];
        // redefinitions are hinted at, which P17 judges
        let progs: Vec<_> = sets.iter().map(|s| override_program(defs, s, false)).collect();
        batch(c, &progs, |w, got| verify(w, &got.iter().filter(|d| d.kind != "redefined_proc").cloned().collect::<Vec<_>>()));
    });
    r.suite("global namesake", "the same with a global proc of that name, which no type's proc overrides", shapes.len() as u64, |i, c| {
        let defs = &shapes[i as usize];
        let mut progs: Vec<_> = sets.iter().filter(|s| s.len() == 1).map(|s| override_program(defs, s, true)).collect();
        // a call to the global proc itself
        let (mut t, w) = override_program(defs, &[], true);
        t += "/proc/@callg()\n\t@p(k = 1)\n\tglobal.@p(k = 1)\n/datum/@e/proc/@callg()\n\t@p(k = 1)\n\tglobal.@p(k = 1)\n";
        progs.push((t, w));
        batch(c, &progs, |w, got| {
            let got: Vec<Diag> = got.iter().filter(|d| d.kind != "redefined_proc").cloned().collect();
            verify(w, &got)
        });
    });
    // calls that always reach one implementation: the parent's, the proc itself, New
    r.suite("exact", "keywords to ..(), .(), and new, over every list of parameters of three levels", (one.len() as u64).pow(3), |i, c| {
        let mut d = Digits(i);
        let ps: Vec<Vec<&str>> = (0..3).map(|_| one[d.take(one.len())].clone()).collect();
        let mut progs = vec![];
        for (what, name) in [("..", "@p"), (".", "@p"), ("new", "New")] {
            for keys in ["k", "l", "k+l"] {
                let mut t = String::from("/datum/@a\n/datum/@a/b\n/datum/@a/b/c\n");
                let mut want = vec![];
                let mut up: Option<(usize, &str)> = None;
                for (lv, p) in ps.iter().enumerate() {
                    let Some(p) = p.first() else { continue };
                    let path = ["/datum/@a", "/datum/@a/b", "/datum/@a/b/c"][lv];
                    let decl = up.is_none() && name != "New";
                    t += &format!("{path}/{}{name}({p})\n", if decl { "proc/" } else { "" });
                    let line = t.matches('\n').count() as u32 + 1;
                    let args = keys.split('+').map(|k| format!("{k} = 1")).collect::<Vec<_>>().join(", ");
                    let target = match what {
                        ".." => up.map(|u| (["/datum/@a", "/datum/@a/b", "/datum/@a/b/c"][u.0], u.1)),
                        _ => Some((path, *p)),
                    };
                    match what {
                        "new" => t += &format!("\tnew {path}({args})\n"),
                        _ if target.is_none() => t += "\treturn\n",
                        w => t += &format!("\t{w}({args})\n"),
                    }
                    if let Some((on, has)) = target {
                        for k in keys.split('+').filter(|k| !has.split(", ").any(|h| h == *k)) {
                            want.push((line, format!("error bad {k} to {on}/proc/{name}")));
                        }
                    }
                    up = Some((lv, p));
                }
                progs.push((t, want));
            }
        }
        batch(c, &progs, verify);
    });
    // filter()
    r.suite("filter parameters", "every one and two parameters with every kind of filter", FILTERS.len() as u64 + 2, |i, c| {
        let (kind, has) = FILTERS.get(i as usize).copied().unwrap_or((if i as usize == FILTERS.len() { "nonsense" } else { "" }, ""));
        let known = !has.is_empty();
        let has: Vec<&str> = has.split(' ').collect();
        let mut progs = vec![];
        let special = |p: &str| FILTER_FLAGS.iter().any(|f| f.0 == kind && f.1 == p);
        for a in FILTER_PARAMS {
            for b in FILTER_PARAMS {
                for form in 0..4 {
                    let value = |p: &str| if special(p) { FILTER_FLAGS.iter().find(|f| f.0 == kind).unwrap().3.split(' ').next().unwrap() } else { "1" };
                    let mut args = vec![format!("{a} = {}", value(a))];
                    if b != a {
                        args.push(format!("{b} = {}", value(b)));
                    }
                    match form {
                        0 => args.insert(0, format!("type = \"{kind}\"")),
                        1 => args.push(format!("\"type\" = \"{kind}\"")),
                        2 => {},
                        _ => args.insert(0, "arglist(u)".into()),
                    }
                    let t = format!("/proc/@f(u)\n\treturn filter({})\n", args.join(", "));
                    let mut want: Want = vec![];
                    let ps: BTreeSet<&str> = [a, b].into_iter().collect();
                    for p in &ps {
                        if *p == "nothing" {
                            want.push((2, "error bad nothing to /proc/filter".into()));
                        }
                    }
                    if form == 2 {
                        want.push((2, "error no type".into()));
                    } else if form < 2 && !known {
                        want.push((2, format!("error bad type {kind}")));
                    } else if form < 2 {
                        for p in &ps {
                            if *p != "name" && !has.contains(p) {
                                want.push((2, format!("error bad key {p}")));
                            }
                        }
                    }
                    progs.push((t, want));
                }
            }
        }
        batch(c, &progs, verify);
    });
    let depth = r.pick(1, 2);
    r.suite("filter flags", "every combination of flags for every kind of filter", FILTERS.len() as u64, |i, c| {
        let kind = FILTERS[i as usize].0;
        let mut progs = vec![];
        for (text, flags, zero) in flag_values(depth) {
            for param in ["flags", "space"] {
                if !FILTERS[i as usize].1.split(' ').any(|p| p == param) {
                    continue;
                }
                let spec = FILTER_FLAGS.iter().find(|f| f.0 == kind && f.1 == param);
                for t in [format!("filter(type = \"{kind}\", {param} = {text})"), format!("filter({param} = {text}, type = \"{kind}\")")] {
                    let mut want: Want = vec![];
                    if let Some((_, p, single, values)) = spec {
                        if zero {
                            if *p == "space" {
                                want.push((2, "error bad flag".into()));
                            }
                        } else if *single && flags.len() > 1 {
                            want.push((2, "error exclusive".into()));
                        } else {
                            for f in &flags {
                                if !values.split(' ').any(|v| v == *f) {
                                    want.push((2, "error bad flag".into()));
                                }
                            }
                        }
                    }
                    progs.push((format!("/proc/@f()\n\treturn {t}\n"), want));
                }
            }
        }
        batch(c, &progs, verify);
    });
    // Find() and animate()
    let lists = ["L", "(L)", "M[1]", "L + 1", "list(1)", "u.l", "got()", "D", "T", "null", "u"];
    r.suite("find", "Find() with and without arguments on lists, regexes and other things", lists.len() as u64, |i, c| {
        let recv = lists[i as usize];
        let mut progs = vec![];
        for args in ["", "null", "1", "u", "1, 2"] {
            for op in [".", "?.", ":"] {
                let recv = recv.replace("got()", "@got()");
                let recv = if recv.contains(" + ") { format!("({recv})") } else { recv };
                let t = format!(
                    "/datum/@d/var/list/l\n/datum/@d/proc/Find(x)\n\treturn 1\n/proc/@got()\n\tset SpacemanDMM_return_type = /list\n\treturn 1\n/proc/@f(list/L, list/list/M, datum/@d/D, regex/T, datum/@d/u)\n\treturn {recv}{op}Find({args})\n"
                );
                let is_list = !matches!(recv.as_str(), "D" | "T" | "null" | "u");
                let want = if is_list && op != ":" && args.is_empty() { vec![(8, "warning find".to_owned())] } else { vec![] };
                progs.push((t, want));
            }
        }
        batch(c, &progs, |w, got| verify(w, &got.iter().filter(|d| !d.kind.ends_with("static_type")).cloned().collect::<Vec<_>>()));
    });
    r.suite("animate", "animate() may mix keywords and others in any order", lists_of_animate().len() as u64, |i, c| {
        let t = format!("/proc/@f(atom/a)\n\tanimate({})\n", lists_of_animate()[i as usize]);
        batch(c, &[(t, vec![])], verify);
    });
}

fn lists_of_animate() -> Vec<String> {
    let parts = ["a", "alpha = 3", "2", "time = 5", "pixel_x = 4", "easing = 1", "null"];
    let mut out = vec![];
    for k in 1..=3 {
        for w in 0..pow(parts.len(), k) {
            out.push(word_of(parts.len(), k, w).into_iter().map(|x| parts[x]).collect::<Vec<_>>().join(", "));
        }
    }
    out
}
