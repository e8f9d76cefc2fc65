//! P17: the rules a proc sets for its overrides, and the settings themselves.
use crate::util::*;
use mc_common::*;

/// name, may be disabled, only on the declaration, allowed on global procs
const DIRECTIVES: [(&str, bool, bool, bool); 9] = [
    ("should_call_parent", true, false, false),
    ("should_not_call_parent", true, false, false),
    ("should_not_override", false, false, false),
    ("can_be_redefined", false, false, false),
    ("private_proc", false, true, false),
    ("protected_proc", false, true, false),
    ("should_not_sleep", false, true, true),
    ("allowed_to_sleep", false, true, true),
    ("should_be_pure", false, true, true),
];
const CALL: usize = 0;
const NOT_CALL: usize = 1;
const FINAL: usize = 2;
const REDEF: usize = 3;
const PRIVATE: usize = 4;

/// text of a value and what it means
const VALUES: [(&str, Option<bool>); 14] = [
    ("1", Some(true)),
    ("0", Some(false)),
    ("TRUE", Some(true)),
    ("FALSE", Some(false)),
    ("2", None),
    ("-1", None),
    ("null", None),
    ("\"1\"", None),
    ("0.5", None),
    ("/obj", None),
    ("name", None),
    ("1 + 0", None),
    ("!0", None),
    ("list()", None),
];

#[derive(Clone, Default, Debug)]
struct Def {
    ty: usize,
    /// directive, value (index into VALUES)
    sets: Vec<(usize, usize)>,
    /// the way it calls its parent, if it does
    calls: bool,
}

#[derive(Clone, Debug)]
struct Family {
    parent: Vec<Option<usize>>,
    names: Vec<&'static str>,
    /// in order of appearance
    defs: Vec<Def>,
    final_decl: bool,
    global: bool,
}

#[derive(Default)]
struct Want {
    must: Vec<(u32, String)>,
    may: Vec<(u32, String)>,
}

fn kind_of(d: &Diag) -> String {
    let k = if !d.kind.is_empty() {
        d.kind.clone()
    } else if d.text.starts_with("Can't define procs") {
        "outside_definition".into()
    } else {
        d.text.clone()
    };
    let sev = match k.as_str() {
        "redefined_proc" => "hint",
        "disabled_directive" | "sets_directive_twice" | "invalid_lint_directive_value" | "unknown_linter_setting" | "invalid_set_value" | "outside_definition" => "warning",
        k if k.starts_with("unknown setting") => "warning",
        _ => "error",
    };
    if sev == d.sev { k } else { format!("{k} as {}", d.sev) }
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut must: Vec<_> = w.must.clone();
    let mut may: Vec<_> = w.may.clone();
    for d in got {
        let k = (d.line, kind_of(d));
        if let Some(i) = must.iter().position(|m| *m == k) {
            must.remove(i);
        } else if let Some(i) = may.iter().position(|m| *m == k) {
            may.remove(i);
        } else {
            return Err((format!("false {}", k.1), format!("not a mistake: {}", d.show())));
        }
    }
    match must.first() {
        Some((l, k)) => Err((format!("missed {k}"), format!("{k} belongs on line {l}"))),
        None => Ok(()),
    }
}

fn build(f: &Family) -> (String, Want) {
    let mut text = String::new();
    let mut line = 1;
    if !f.global {
        for (i, n) in f.names.iter().enumerate() {
            let _ = i;
            text.push_str(&format!("/datum/@a{n}\n"));
            line += 1;
        }
    }
    let mut w = Want::default();
    let declared = f.defs[0].ty;
    // what each definition has set, and where it was defined
    let mut own: Vec<[Option<bool>; 9]> = vec![];
    let mut lines = vec![];
    let mut call_lines = vec![];
    for (k, d) in f.defs.iter().enumerate() {
        let owner = if f.global { String::new() } else { format!("/datum/@a{}", f.names[d.ty]) };
        let decl = match (k, f.final_decl) {
            (0, false) => "/proc",
            (0, true) => "/proc/final",
            _ if f.global => "/proc",
            _ => "",
        };
        text.push_str(&format!("{owner}{decl}/@f()\n"));
        lines.push(line);
        line += 1;
        let mut mine = [None; 9];
        if f.final_decl && d.ty == declared {
            mine[FINAL] = Some(true);
        }
        for (dir, v) in &d.sets {
            let (name, disable, at_def, global) = DIRECTIVES[*dir];
            let (val, means) = VALUES[*v];
            text.push_str(&format!("\tset SpacemanDMM_{name} = {val}\n"));
            let bad = if at_def && k > 0 {
                "outside_definition"
            } else if means.is_none() {
                "invalid_lint_directive_value"
            } else if f.global && !global {
                "incompatible_directive"
            } else if means == Some(false) && !disable {
                "disabled_directive"
            } else if mine[*dir].is_some() {
                "sets_directive_twice"
            } else {
                mine[*dir] = means;
                ""
            };
            if !bad.is_empty() {
                w.must.push((line, bad.into()));
            }
            line += 1;
        }
        if d.calls {
            text.push_str("\t..()\n");
        } else {
            text.push_str("\treturn 1\n");
        }
        call_lines.push(line);
        line += 1;
        own.push(mine);
    }
    // the definition each one overrides
    let over = |k: usize| -> Option<usize> {
        let mut at = Some(f.defs[k].ty);
        let mut first = true;
        while let Some(t) = at {
            let found = (0..f.defs.len()).filter(|j| f.defs[*j].ty == t && (!first || *j < k)).next_back();
            if found.is_some() {
                return found;
            }
            first = false;
            at = f.parent[t];
        }
        None
    };
    for k in 0..f.defs.len() {
        let p = over(k);
        let Some(p) = p else {
            if f.defs[k].calls {
                w.must.push((call_lines[k], "proc_has_no_parent".into()));
            }
            continue;
        };
        let chain = |from: Option<usize>, dir: usize| {
            let mut at = from;
            while let Some(j) = at {
                if let Some(v) = own[j][dir] {
                    return Some((j, v));
                }
                at = over(j);
            }
            None
        };
        if let Some((_, true)) = chain(Some(p), PRIVATE) {
            w.must.push((lines[k], "private_proc".into()));
        }
        if let Some((_, true)) = chain(Some(p), FINAL) {
            w.must.push((lines[k], "must_not_override".into()));
        }
        if f.defs[k].calls {
            if own[p][NOT_CALL] == Some(true) && own[k][NOT_CALL] != Some(false) {
                w.must.push((lines[k], "must_not_call_parent".into()));
            }
            if let Some((j, true)) = chain(Some(p), PRIVATE) {
                if f.defs[j].ty != f.defs[k].ty {
                    w.must.push((call_lines[k], "private_proc".into()));
                }
            }
        } else {
            match chain(Some(k), CALL) {
                Some((j, true)) if j != k => w.must.push((lines[k], "must_call_parent".into())),
                // whether the proc that sets it should call its own parent is left open
                Some((_, true)) => w.may.push((lines[k], "must_call_parent".into())),
                _ => {},
            }
        }
        if f.defs[p].ty == f.defs[k].ty && chain(Some(k), REDEF).is_none() {
            w.must.push((lines[k], "redefined_proc".into()));
        }
    }
    (text, w)
}

fn chain_family(defs: Vec<Def>, final_decl: bool) -> Family {
    Family { parent: vec![None, Some(0), Some(1), Some(0)], names: vec!["", "/b", "/b/c", "/d"], defs, final_decl, global: false }
}

/// Every definition with up to `n` settings out of `dirs`, each on or off.
fn one_def(dirs: &[usize], both: bool) -> Vec<Def> {
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for d in dirs {
        sets.push(vec![(*d, 0)]);
        sets.push(vec![(*d, 1)]);
    }
    if both {
        for a in dirs {
            for b in dirs {
                for v in 0..4 {
                    sets.push(vec![(*a, v & 1), (*b, v >> 1)]);
                }
            }
        }
    }
    sets.into_iter().flat_map(|s| [false, true].map(|calls| Def { ty: 0, sets: s.clone(), calls })).collect()
}

/// all sequences of up to `n` of `d`, on type `ty`
fn up_to(d: &[Def], ty: usize, n: usize) -> Vec<Vec<Def>> {
    let d: Vec<Def> = d.iter().map(|d| Def { ty, ..d.clone() }).collect();
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<Def>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|s: &Vec<Def>| d.iter().map(move |x| s.iter().cloned().chain([x.clone()]).collect())).collect();
        out.extend(last.clone());
    }
    out
}

fn run_families(c: &mut Case, fams: impl Iterator<Item = Family>) {
    let mut buf = vec![];
    for f in fams {
        buf.push(build(&f));
        if buf.len() == 500 {
            batch(c, &buf, verify);
            buf.clear();
            if c.failed() {
                return;
            }
        }
    }
    batch(c, &buf, verify);
}

const BUILTIN: [&str; 10] = ["background", "waitfor", "hidden", "instant", "popup_menu", "name", "category", "desc", "invisibility", "src"];
const PLAIN: [(&str, u8); 16] = [
    // bits: valid for switches, name, category, invisibility; 16: left open for texts; 32: for category
    ("0", 1 | 8),
    ("1", 1 | 8),
    ("TRUE", 1 | 8),
    ("FALSE", 1 | 8),
    ("2", 8),
    ("100", 8),
    ("101", 0),
    ("-1", 16),
    ("\"x\"", 2 | 4),
    ("\"\"", 2 | 4),
    ("\"a[1]\"", 2 | 4),
    ("null", 4),
    ("0.5", 0),
    ("/obj", 0),
    ("1000", 0),
    ("\"a\" + \"b\"", 16),
];

pub fn check(r: &mut Runner) {
    // one rule at a time, on three levels each defined up to twice
    let per = 43; // nothing, one of six, or two of them
    r.suite("rules", "every directive on every chain of three types, each defining the proc up to twice, with the directive on, off or absent and the parent called or not", (9 * per) as u64, |i, c| {
        let (dir, first) = (i as usize / per, i as usize % per);
        let defs = one_def(&[dir], false);
        let at = |t| up_to(&defs, t, 2);
        let (a, b, d) = (&at(0)[first], at(1), at(2));
        run_families(
            c,
            b.iter().flat_map(|b| d.iter().map(move |d| [&a[..], b, d].concat())).filter(|d| !d.is_empty()).map(|d| chain_family(d, false)),
        );
    });

    // two rules at once
    let mut pairs = vec![];
    for a in 0..9 {
        for b in a + 1..9 {
            pairs.push((a, b));
        }
    }
    let pairs: Vec<_> = pairs.into_iter().filter(|(a, b)| r.thorough() || *a < 5 && *b < 5).collect();
    let n = one_def(&[0, 1], true).len();
    r.suite("pairs", "every pair of directives on every chain of three types, in every order and repeated", (pairs.len() * n) as u64, |i, c| {
        let (x, y) = pairs[i as usize / n];
        let defs = one_def(&[x, y], true);
        let a = Def { ty: 0, ..defs[i as usize % n].clone() };
        let (b, d) = (up_to(&defs, 1, 1), up_to(&one_def(&[x, y], false), 2, 1));
        run_families(c, b.iter().flat_map(|b| d.iter().map(|d| [&[a.clone()][..], b, d].concat())).map(|d| chain_family(d, false)));
    });

    // final procs, siblings, order of definitions
    let dirs = [CALL, NOT_CALL, FINAL, REDEF];
    let defs = one_def(&dirs, false);
    let n = defs.len();
    r.suite("tree", "every final or plain proc over two subtypes and a sibling, each with any one setting", (2 * n * (n + 1)) as u64, |i, c| {
        let mut d = Digits(i);
        let fin = d.flag();
        let a = Def { ty: 0, ..d.pick(&defs).clone() };
        let bs = up_to(&defs, 1, 1);
        let b = d.pick(&bs);
        let (cs, ds) = (up_to(&defs, 2, 1), up_to(&defs, 3, 1));
        run_families(c, cs.iter().flat_map(|x| ds.iter().map(|y| [&[a.clone()][..], b, x, y].concat())).map(|d| chain_family(d, fin)));
    });

    // values of directives
    let n = VALUES.len();
    r.suite("values", "every value of every directive, alone or twice, on declarations, overrides and global procs", (9 * n * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let dir = d.take(9);
        let v = d.take(n);
        let place = d.take(3);
        let mut fams = vec![];
        for w in 0..=n {
            for other in 0..9 {
                let mut sets = vec![(dir, v)];
                if w < n {
                    sets.push((if other == 0 { dir } else { (dir + other) % 9 }, w));
                }
                let me = Def { ty: (place == 1) as usize, sets, calls: true };
                let defs = match place {
                    1 => vec![Def::default(), me],
                    _ => vec![me],
                };
                let mut f = chain_family(defs, false);
                f.global = place == 2;
                fams.push(f);
            }
        }
        run_families(c, fams.into_iter());
    });

    // what counts as calling the parent
    let places: Vec<&str> = crate::p16_block::PLACES.iter().map(|p| p.0).collect();
    r.suite("places", "a parent call in every place an expression can stand, for both rules about it", places.len() as u64, |i, c| {
        let p = places[i as usize];
        let mut progs = vec![];
        for rule in ["should_call_parent", "should_not_call_parent"] {
            for call in ["..()", "..(1)", "@k()"] {
                if p.contains("\treturn #") && p.contains("; ") {
                    continue;
                }
                let t = format!(
                    "/proc/@g(a, b)\n\treturn a\n/datum/@a\n/datum/@a/proc/@k()\n/datum/@a/proc/@f(x, list/L)\n\tset SpacemanDMM_{rule} = 1\n/datum/@a/b\n/datum/@a/b/@f(x, list/L)\n{}",
                    p.replace('#', call)
                );
                let mut w = Want::default();
                let parent = call != "@k()";
                if rule == "should_call_parent" && !parent {
                    w.must.push((8, "must_call_parent".into()));
                }
                if rule == "should_not_call_parent" && parent {
                    w.must.push((8, "must_not_call_parent".into()));
                }
                progs.push((t, w));
            }
        }
        batch(c, &progs, |w: &Want, got: &[Diag]| {
            let got: Vec<Diag> = got.iter().filter(|d| d.kind.starts_with("must_")).cloned().collect();
            verify(w, &got)
        });
    });

    // the other settings, and where settings may stand
    r.suite("settings", "every built-in and unknown setting with every value, and directives in every position", (BUILTIN.len() * PLAIN.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let name = *d.pick(&BUILTIN);
        let (val, ok) = *d.pick(&PLAIN);
        let mut progs = vec![];
        let (bit, open) = match name {
            "background" | "waitfor" | "hidden" | "instant" | "popup_menu" => (1, 0),
            "name" | "desc" => (2, 16),
            "category" => (4, 16),
            "invisibility" => (8, 0),
            _ => (255, 255),
        };
        for (head, at) in [("/datum/@a/proc/@f()\n", 3), ("/datum/@a/verb/@f()\n", 3), ("/datum/@a/proc/@f()\n\tset SpacemanDMM_should_call_parent = 1\n", 4), ("/datum/@a/proc/@f()\n\tset src in view()\n", 4)] {
            let mut w = Want::default();
            if open & ok != 0 || bit == 255 {
                w.may.push((at, "invalid_set_value".into()));
            } else if ok & bit == 0 {
                w.must.push((at, "invalid_set_value".into()));
            }
            if bit == 255 {
                w.may.clear();
            }
            progs.push((format!("/datum/@a\n{head}\tset {name} = {val}\n\treturn 1\n"), w));
        }
        if i as usize % BUILTIN.len() == 0 {
            for s in ["nam", "Name", "SpacemanDMM", "backgroundd", "@x"] {
                let w = Want { must: vec![(3, format!("unknown setting {:?}", s))], may: vec![] };
                progs.push((format!("/datum/@a\n/datum/@a/proc/@f()\n\tset {s} = {val}\n\treturn 1\n"), w));
            }
            for s in ["SpacemanDMM_foo", "SpacemanDMM_should_call_parentt", "SpacemanDMM_Should_call_parent", "SpacemanDMM_"] {
                let w = Want { must: vec![(3, "unknown_linter_setting".into())], may: vec![] };
                progs.push((format!("/datum/@a\n/datum/@a/proc/@f()\n\tset {s} = {val}\n\treturn 1\n"), w));
            }
            // a directive that is not at the top has no effect
            for d in DIRECTIVES {
                for body in ["\tsrc = 1\n#", "\tif(src)\n\t#", "\tspawn(1)\n\t#", "\tfor(var/i in 1 to 3)\n\t#", "\tvar/x\n#"] {
                    let set = format!("\tset SpacemanDMM_{} = 1\n", d.0);
                    let l = 5;
                    let w = Want { must: vec![(l - 1, "set_has_no_effect".into())], may: vec![] };
                    progs.push((format!("/datum/@a\n/datum/@a/proc/@f()\n{}\treturn 1\n/datum/@a/b\n/datum/@a/b/@f()\n\treturn 2\n/datum/@a/b/@f()\n\treturn ..()\n", body.replace('#', &set)), Want { must: [w.must, vec![(9, "redefined_proc".into())]].concat(), may: vec![] }));
                }
            }
        }
        batch(c, &progs, verify);
    });
}
