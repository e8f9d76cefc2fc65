//! P34: private, protected and final members.
use crate::util::*;
use mc_common::*;

const TYPES: [(&str, &[usize]); 6] = [
    // path, types it descends from (itself included)
    ("/datum/@a", &[0]),
    ("/datum/@a/b", &[0, 1]),
    ("/datum/@a/b/c", &[0, 1, 2]),
    ("/datum/@a/d", &[0, 3]),
    ("/datum/@e", &[4]),
    ("", &[5]), // global procs
];
fn sub(a: usize, b: usize) -> bool {
    TYPES[a].1.contains(&b)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    PlainProc,
    PrivateProc,
    ProtectedProc,
    PlainVar,
    PrivateVar,
    ProtectedVar,
}
use Kind::*;
const KINDS: [Kind; 6] = [PrivateProc, ProtectedProc, PrivateVar, ProtectedVar, PlainProc, PlainVar];

#[derive(Default)]
struct Want {
    must: Vec<(u32, String)>,
    may: Vec<(u32, String)>,
}

fn kind_of(d: &Diag) -> String {
    let k = match d.kind.as_str() {
        "" if d.text.contains(" redeclares var ") => "redeclares",
        "" if d.text.starts_with("undefined") => "undefined",
        "" => d.text.as_str(),
        k => k,
    };
    format!("{} {k}", d.sev)
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut must = w.must.clone();
    let mut may = w.may.clone();
    for d in got {
        let k = (d.line, kind_of(d));
        if let Some(i) = must.iter().position(|m| *m == k) {
            must.remove(i);
        } else if let Some(i) = may.iter().position(|m| *m == k) {
            may.remove(i);
        } else {
            return Err((format!("false {}", k.1), format!("not a mistake: {}", d.show())));
        }
    }
    match must.first() {
        Some((l, k)) => Err((format!("missed {k}"), format!("{k} belongs on line {l}"))),
        None => Ok(()),
    }
}

/// the way the receiver is written, given the name of its type
const RECEIVERS: [&str; 8] = ["v", "v?", "u.n", "L[1]", "got()", "(v)", "M[1][2]", "cond"];

struct Access {
    kind: Kind,
    decl: usize,
    overrides: [bool; 4],
    caller: usize,
}

/// One program: a member, and a proc of `caller` that touches it through every receiver in every way.
fn build(a: &Access) -> (String, Want) {
    let mut t = String::new();
    let mut line = 1;
    let mut w = Want::default();
    let put = |t: &mut String, line: &mut u32, s: &str| {
        t.push_str(s);
        t.push('\n');
        *line += 1;
    };
    for (p, _) in &TYPES[..5] {
        put(&mut t, &mut line, p);
    }
    let member = format!("{}/", TYPES[a.decl].0);
    let proc = matches!(a.kind, PlainProc | PrivateProc | ProtectedProc);
    match a.kind {
        PlainProc => put(&mut t, &mut line, &format!("{member}proc/m(x)\n\treturn 1")),
        PrivateProc => put(&mut t, &mut line, &format!("{member}proc/m(x)\n\tset SpacemanDMM_private_proc = 1\n\treturn 1")),
        ProtectedProc => put(&mut t, &mut line, &format!("{member}proc/m(x)\n\tset SpacemanDMM_protected_proc = 1\n\treturn 1")),
        PlainVar => put(&mut t, &mut line, &format!("{member}var/m")),
        PrivateVar => put(&mut t, &mut line, &format!("{member}var/SpacemanDMM_private/m")),
        ProtectedVar => put(&mut t, &mut line, &format!("{member}var/SpacemanDMM_protected/m")),
    }
    line = 1 + t.matches('\n').count() as u32;
    for o in 1..4 {
        if a.overrides[o] && o != a.decl && sub(o, a.decl) {
            match a.kind {
                PrivateProc => w.must.push((line, "error private_proc".into())),
                PrivateVar => w.must.push((line, "error private_var".into())),
                _ => {},
            }
            put(&mut t, &mut line, &format!("{}/m{}", TYPES[o].0, if proc { "(x)" } else { " = 3" }));
            if proc {
                put(&mut t, &mut line, "\treturn 2");
            }
        }
    }
    // through a receiver known to be each type
    for r in 0..5 {
        if !sub(r, a.decl) {
            continue;
        }
        let tree = &TYPES[r].0[1..];
        put(&mut t, &mut line, &format!("{}/proc/@use{r}(var/{tree}/v, var/datum/@h{r}/u, var/list/{tree}/L, var/list/list/{tree}/M)", TYPES[a.caller].0).replace("(var/", "(").replace(", var/", ", "));
        for rec in RECEIVERS {
            let rec = match rec {
                "got()" => format!("@got{r}()"),
                "cond" => "(u ? v : v)".into(),
                other => other.to_owned(),
            };
            let uses: &[&str] = if proc { &["x.m()", "return x.m(1)", "if(x.m(x.m()))", "u.g = x.m()"] } else { &["u.g = x.m", "x.m = 1", "x.m += 2", "if(x.m)", "L[x.m] = 1"] };
            for s in uses {
                if (rec == "v?" || rec.starts_with("(u")) && s.starts_with("x.m ") {
                    continue;
                }
                if s.starts_with("return") && rec != "v" {
                    continue;
                }
                let s = if s.starts_with("return") { "u.g = x.m(1)" } else { s };
                let n = s.matches("x.m").count();
                let (must, may) = match a.kind {
                    PrivateProc => (!(r == a.decl && a.caller == a.decl), false),
                    ProtectedProc | ProtectedVar => (!sub(a.caller, a.decl), false),
                    PrivateVar => (r != a.caller, r == a.caller && r != a.decl),
                    _ => (false, false),
                };
                let k = match a.kind {
                    PrivateProc => "error private_proc",
                    ProtectedProc => "error protected_proc",
                    PrivateVar => "warning private_var",
                    _ => "warning protected_var",
                };
                for _ in 0..n {
                    if must {
                        w.must.push((line, k.into()));
                    } else if may {
                        w.may.push((line, k.into()));
                    }
                }
                let s = s.replace("x.", &format!("{rec}."));
                put(&mut t, &mut line, &format!("\t{s}"));
                if s.starts_with("if(") {
                    put(&mut t, &mut line, "\t\tu.g = 1");
                }
            }
        }
        put(&mut t, &mut line, &format!("/datum/@h{r}"));
        put(&mut t, &mut line, &format!("\tvar/{tree}/n"));
        put(&mut t, &mut line, "\tvar/g");
        put(&mut t, &mut line, &format!("/proc/@got{r}()"));
        put(&mut t, &mut line, &format!("\tset SpacemanDMM_return_type = /{tree}"));
        put(&mut t, &mut line, "\treturn null");
    }
    // without a receiver, and through src
    if a.caller < 5 && sub(a.caller, a.decl) {
        put(&mut t, &mut line, &format!("{}/proc/@self()", TYPES[a.caller].0));
        let k = if proc { "error private_proc" } else { "warning private_var" };
        for s in if proc { ["m()", "src.m()", "for(var/x in m())", "src?.m()"] } else { ["m = 1", "src.m = 1", "for(var/x in m)", "src.m += 1"] } {
            match a.kind {
                PrivateProc if a.caller != a.decl => w.must.push((line, k.into())),
                // a private variable named without another object is left open in subtypes
                PrivateVar if a.caller != a.decl => w.may.push((line, k.into())),
                _ => {},
            }
            put(&mut t, &mut line, &format!("\t{s}"));
            if s.starts_with("for") {
                put(&mut t, &mut line, "\t\tpass(x)");
            }
        }
        put(&mut t, &mut line, &format!("{}/proc/pass(x)", TYPES[a.caller].0));
        put(&mut t, &mut line, "\treturn x");
    }
    (t, w)
}

/// how a level mentions the variable: text, declares, final, private
const LEVELS: [(&str, bool, bool, bool); 10] = [
    ("", false, false, false),
    ("x = 5", false, false, false),
    ("var/x", true, false, false),
    ("var/x = 1", true, false, false),
    ("var/SpacemanDMM_final/x = 2", true, true, false),
    ("var/final/x = 2", true, true, false),
    ("var/SpacemanDMM_private/x = 3", true, false, true),
    ("var/SpacemanDMM_protected/x", true, false, false),
    ("var/SpacemanDMM_private/SpacemanDMM_final/x = 4", true, true, true),
    ("var/static/x = 4", true, false, false),
];

fn levels(ls: &[usize], parents: &[Option<usize>], paths: &[&str], order: &[usize], style: usize) -> (String, Want) {
    let mut t = String::new();
    let mut w = Want::default();
    let mut line = 1;
    let mut at = vec![0; ls.len()];
    for k in order {
        let (text, ..) = LEVELS[ls[*k]];
        if style == 0 {
            t.push_str(&format!("{}\n", paths[*k]));
            line += 1;
            if !text.is_empty() {
                t.push_str(&format!("\t{text}\n"));
                at[*k] = line;
                line += 1;
            }
        } else {
            t.push_str(&format!("{}\n", paths[*k]));
            line += 1;
            if !text.is_empty() {
                t.push_str(&format!("{}/{text}\n", paths[*k]));
                at[*k] = line;
                line += 1;
            }
        }
    }
    for k in 0..ls.len() {
        let (text, declares, ..) = LEVELS[ls[k]];
        if text.is_empty() {
            continue;
        }
        let mut up = parents[k];
        let mut nearest = true;
        let mut known = declares;
        while let Some(p) = up {
            let (_, d, fin, private) = LEVELS[ls[p]];
            if d {
                known = true;
                let out = if nearest { &mut w.must } else { &mut w.may };
                if declares {
                    out.push((at[k], "error redeclares".into()));
                }
                if fin {
                    out.push((at[k], "error final_var".into()));
                }
                if private {
                    out.push((at[k], "error private_var".into()));
                }
                nearest = false;
            }
            up = parents[p];
        }
        if !known {
            w.must.push((at[k], "error undefined".into()));
        }
    }
    (t, w)
}

pub fn check(r: &mut Runner) {
    r.suite("access", "every kind of member declared on either of two types, with every set of overrides, used by procs of six owners through every receiver", (KINDS.len() * 2 * 8) as u64, |i, c| {
        let mut d = Digits(i);
        let kind = *d.pick(&KINDS);
        let decl = d.take(2);
        let o = d.take(8);
        let progs: Vec<_> = (0..6).map(|caller| build(&Access { kind, decl, overrides: [false, o & 1 > 0, o & 2 > 0, o & 4 > 0], caller })).collect();
        batch(c, &progs, verify);
    });
    let depth = r.pick(4, 5);
    let paths = ["/datum/@a", "/datum/@a/b", "/datum/@a/b/c", "/datum/@a/b/c/d", "/datum/@a/b/c/d/e"];
    let n = LEVELS.len();
    r.suite("levels", "every chain of types that declare, redeclare or override a variable, in both styles, both orders", pow(n, depth - 2), |i, c| {
        let mut d = Digits(i);
        let head: Vec<usize> = (0..depth - 2).map(|_| d.take(n)).collect();
        let mut progs = vec![];
        for a in 0..n {
            for b in 0..n {
                let mut ls = head.clone();
                ls.extend([a, b]);
                let parents: Vec<Option<usize>> = (0..depth).map(|k| k.checked_sub(1)).collect();
                let forward: Vec<usize> = (0..depth).collect();
                for style in 0..2 {
                    progs.push(levels(&ls, &parents, &paths, &forward, style));
                }
                let back: Vec<usize> = (0..depth).rev().collect();
                progs.push(levels(&ls, &parents, &paths, &back, 0));
            }
        }
        batch(c, &progs, verify);
    });
    r.suite("siblings", "every way three sibling and parent types mention a variable", pow(n, 3), |i, c| {
        let mut d = Digits(i);
        let ls: Vec<usize> = (0..3).map(|_| d.take(n)).collect();
        let progs: Vec<_> = permutations(3).iter().map(|o| levels(&ls, &[None, Some(0), Some(0)], &["/datum/@a", "/datum/@a/b", "/datum/@a/c"], o, 0)).collect();
        batch(c, &progs, verify);
    });
}
