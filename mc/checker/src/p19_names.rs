//! P19: names and static types in proc bodies.
use crate::p16_block::PLACES;
use crate::util::*;
use mc_common::*;

// ------------------------------------------------------------------------------------------------
// A small world of types, and what is known about each by reading it.

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    None,
    Is(&'static str),
    /// a list, its elements
    List(Box<Ty>),
}
use Ty::{Is, List};
fn list(t: Ty) -> Ty {
    List(Box::new(t))
}

const A: &str = "/datum/@a";
const SUB: &str = "/datum/@a/sub";
const B: &str = "/datum/@b";
const C: &str = "/datum/@c";
const O: &str = "/datum/@o";
const WORLD: &str = "\
var/datum/@b/@g
var/list/@gl
var/@gu
/proc/@gp()
\tset SpacemanDMM_return_type = /datum/@b
\treturn 1
/proc/@gn(k)
\treturn k
/datum/@a/var/n
/datum/@a/var/datum/@b/b
/datum/@a/var/list/l
/datum/@a/var/list/datum/@b/lb
/datum/@a/var/list/list/datum/@b/ll
/datum/@a/var/static/datum/@a/sub/st
/datum/@a/proc/p(k)
\treturn k
/datum/@a/proc/pb()
\tset SpacemanDMM_return_type = /datum/@b
\treturn 1
/datum/@a/proc/pl()
\tset SpacemanDMM_return_type = /list/datum/@b
\treturn 1
/datum/@a/proc/pa() as /datum/@a
\treturn 1
/datum/@a/sub/var/extra
/datum/@a/sub/n = 3
/datum/@a/sub/proc/more()
\tset SpacemanDMM_return_type = /datum/@a/sub
\treturn 1
/datum/@a/sub/p(k)
\treturn 2
/datum/@b/var/datum/@a/back
/datum/@b/proc/q()
\tset SpacemanDMM_return_type = /datum/@a
\treturn 1
/datum/@c
\tparent_type = /datum/@a
/datum/@c/var/c
/datum/@o/var/v
/datum/@o/proc/operator[](i)
\treturn i
/datum/@o/proc/operator++()
\treturn src
";

fn parent(t: &str) -> Option<&'static str> {
    match t {
        SUB | C => Some(A),
        A | B | O | "/mob" | "/atom" => Some("/datum"),
        _ => None,
    }
}
/// declared in the world above, or built in
fn own_var(t: &str, v: &str) -> Option<Ty> {
    Some(match (t, v) {
        (A, "n") => Ty::None,
        (A, "b") => Is(B),
        (A, "l") => list(Ty::None),
        (A, "lb") => list(Is(B)),
        (A, "ll") => list(list(Is(B))),
        (A, "st") => Is(SUB),
        (SUB, "extra") => Ty::None,
        (B, "back") => Is(A),
        (C, "c") => Ty::None,
        (O, "v") => Ty::None,
        ("/datum" | "/list", "tag") => Ty::None,
        ("/list", "len") => Ty::None,
        ("/mob", "client") => Is("/client"),
        ("", "@g") => Is(B),
        ("", "@gl") => list(Ty::None),
        ("", "@gu") => Ty::None,
        _ => return None,
    })
}
fn own_proc(t: &str, p: &str) -> Option<Ty> {
    Some(match (t, p) {
        (A, "p") => Ty::None,
        (A, "pb") => Is(B),
        (A, "pl") => list(Is(B)),
        (A, "pa") => Is(A),
        (SUB, "more") => Is(SUB),
        (B, "q") => Is(A),
        ("/list", "Copy") => Ty::None,
        ("", "@gp") => Is(B),
        ("", "@gn") => Ty::None,
        _ => return None,
    })
}
fn up<T>(t: &'static str, f: impl Fn(&'static str) -> Option<T>) -> Option<T> {
    let mut at = Some(t);
    while let Some(x) = at {
        if let Some(r) = f(x) {
            return Some(r);
        }
        at = parent(x);
    }
    None
}
fn pretty(t: &str) -> &str {
    if t.is_empty() {
        "(global)"
    } else {
        t
    }
}

/// An expression: its text, its static type, and the mistakes in it.
#[derive(Clone, Debug)]
struct X {
    text: String,
    ty: Ty,
    errs: Vec<String>,
    /// can be followed by `.x` without parentheses
    tight: bool,
}
fn x(text: &str, ty: Ty) -> X {
    X { text: text.into(), ty, errs: vec![], tight: true }
}
fn bad(text: &str, err: &str) -> X {
    X { text: text.into(), ty: Ty::None, errs: vec![err.into()], tight: true }
}
fn err(k: &str) -> String {
    format!("error [] {k}")
}

#[derive(Clone, Debug)]
enum F {
    Field(&'static str, &'static str),
    Call(&'static str, &'static str, X),
    Index(X),
    Incr(&'static str),
    Unary(&'static str),
}

fn basic(t: &Ty) -> Option<&'static str> {
    match t {
        Ty::None => None,
        Is(t) => Some(t),
        List(_) => Some("/list"),
    }
}

fn follow(b: &X, f: &F) -> X {
    let mut errs = b.errs.clone();
    let t = if b.tight { b.text.clone() } else { format!("({})", b.text) };
    let ty;
    let mut tight = true;
    let text = match f {
        F::Field(op, name) => {
            ty = match basic(&b.ty) {
                _ if op.contains(':') => Ty::None,
                None => {
                    errs.push(format!("warning [field_access_static_type] field access requires static type: \"{name}\""));
                    Ty::None
                },
                Some(on) => up(on, |t| own_var(t, name)).unwrap_or_else(|| {
                    errs.push(err(&format!("undefined field: \"{name}\" on {}", pretty(on))));
                    Ty::None
                }),
            };
            format!("{t}{op}{name}")
        },
        F::Call(op, name, arg) => {
            errs.extend(arg.errs.clone());
            ty = match basic(&b.ty) {
                _ if op.contains(':') => Ty::None,
                None => {
                    errs.push(format!("warning [proc_call_static_type] proc call requires static type: \"{name}\""));
                    Ty::None
                },
                Some(on) => up(on, |t| own_proc(t, name)).unwrap_or_else(|| {
                    errs.push(err(&format!("undefined proc: \"{name}\" on {}", pretty(on))));
                    Ty::None
                }),
            };
            format!("{t}{op}{name}({})", arg.text)
        },
        F::Index(i) => {
            errs.extend(i.errs.clone());
            ty = match &b.ty {
                List(of) => (**of).clone(),
                Ty::None => Ty::None,
                Is("/list") | Is(O) => Ty::None,
                Is(t) => {
                    errs.push(format!("error [improper_index] invalid list access on {t}"));
                    Ty::None
                },
            };
            format!("{t}[{}]", i.text)
        },
        F::Incr(op) => {
            ty = Ty::None;
            match &b.ty {
                Ty::None | Is(O) if *op == "++" => {},
                Ty::None => {},
                List(_) => errs.push(format!("error [no_operator_overload] Attempting operator{op} on a list which does not overload operator{op}")),
                Is(t) => errs.push(format!("error [no_operator_overload] Attempting operator{op} on a {} which does not overload operator{op}", pretty(t))),
            }
            tight = false;
            format!("{t}{op}")
        },
        F::Unary(op) => {
            ty = Ty::None;
            tight = false;
            format!("{op}{t}")
        },
    };
    X { text, ty, errs, tight }
}

/// Expressions of one name, in a proc of `/datum/@a` with
/// `(datum/@a/v, u, datum/@a/sub/w, list/L, list/datum/@b/K, list/list/datum/@b/M, datum/@o/o, datum/@c/z)`.
fn leaves() -> Vec<X> {
    vec![
        x("v", Is(A)),
        x("u", Ty::None),
        x("w", Is(SUB)),
        x("L", list(Ty::None)),
        x("K", list(Is(B))),
        x("M", list(list(Is(B)))),
        x("o", Is(O)),
        x("z", Is(C)),
        x("src", Is(A)),
        x("usr", Is("/mob")),
        x("args", Is("/list")),
        x("n", Ty::None),
        x("b", Is(B)),
        x("lb", list(Is(B))),
        x("st", Is(SUB)),
        x("tag", Ty::None),
        x("@g", Is(B)),
        x("@gl", list(Ty::None)),
        x("@gu", Ty::None),
        x("global.@g", Is(B)),
        x("null", Ty::None),
        X { tight: false, ..x("\"text\"", Ty::None) },
        x("list(1, 2)", Is("/list")),
        x("@gp()", Is(B)),
        x("global.@gp()", Is(B)),
        x("@gn(1)", Ty::None),
        x("pb()", Is(B)),
        x("pl()", list(Is(B))),
        x("pa()", Is(A)),
        x("p(v)", Ty::None),
        x("(v)", Is(A)),
        x("(u ? v : u)", Is(A)),
        x("view()", list(Is("/atom"))),
        x("pick(v, v)", Ty::None),
        x("locate(v)", Ty::None),
        bad("nope", "error [] undefined var: \"nope\""),
        bad("nope()", "error [] undefined proc: \"nope\" on /datum/@a"),
        bad("extra", "error [] undefined var: \"extra\""),
        bad("back", "error [] undefined var: \"back\""),
        bad("more()", "error [] undefined proc: \"more\" on /datum/@a"),
        bad("global.nope", "error [] undefined field: \"nope\" on (global)"),
        bad("global.nope()", "error [] undefined proc: \"nope\" on (global)"),
        bad("global.b", "error [] undefined field: \"b\" on (global)"),
        bad("global.pb()", "error [] undefined proc: \"pb\" on (global)"),
        x("::@g", Is(B)),
        x("::@gp()", Is(B)),
        bad("::nope", "error [] undefined global var: \"nope\""),
        bad("::nope()", "error [] undefined global proc: \"nope\""),
        bad("::b", "error [] undefined global var: \"b\""),
        bad("::pb()", "error [] undefined global proc: \"pb\""),
    ]
}
fn follows() -> Vec<F> {
    let mut out = vec![];
    for name in ["n", "b", "l", "lb", "ll", "st", "extra", "back", "c", "len", "tag", "nope", "@g"] {
        out.push(F::Field(".", name));
    }
    for (op, name) in [("?.", "b"), ("?.", "nope"), (":", "b"), (":", "nope"), ("?:", "nope")] {
        out.push(F::Field(op, name));
    }
    for name in ["p", "pb", "pl", "pa", "more", "q", "nope", "Copy", "@gp"] {
        out.push(F::Call(".", name, x("", Ty::None)));
    }
    let wrong = bad("nope", "error [] undefined var: \"nope\"");
    out.push(F::Call("?.", "pb", x("", Ty::None)));
    out.push(F::Call("?.", "nope", x("", Ty::None)));
    out.push(F::Call(":", "pb", x("", Ty::None)));
    out.push(F::Call(".", "p", wrong.clone()));
    out.push(F::Call(":", "p", wrong.clone()));
    out.push(F::Call("?:", "p", wrong.clone()));
    out.push(F::Index(x("1", Ty::None)));
    out.push(F::Index(x("\"k\"", Ty::None)));
    out.push(F::Index(wrong));
    out
}
fn ends() -> Vec<F> {
    vec![F::Incr("++"), F::Incr("--"), F::Unary("!"), F::Unary("-"), F::Unary("~")]
}

type Want = Vec<(u32, String)>;

fn show(d: &Diag) -> String {
    format!("{} [{}] {}", d.sev, d.kind, d.text)
}
fn class(s: &str) -> String {
    s.split('"').next().unwrap().split(" on ").next().unwrap().to_owned()
}
fn verify(want: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let mut must = want.clone();
    for d in got {
        let k = (d.line, show(d));
        match must.iter().position(|m| *m == k) {
            Some(i) => {
                must.swap_remove(i);
            },
            None => {
                let line: Vec<_> = must.iter().filter(|m| m.0 == d.line).collect();
                return Err((format!("false {}", class(&k.1)), format!("not expected: {}\n  expected there: {line:?}", d.show())));
            },
        }
    }
    match must.first() {
        Some((l, k)) => Err((format!("missed {}", class(k)), format!("{k} belongs on line {l}"))),
        None => Ok(()),
    }
}

const HEAD: &str = "/datum/@a/proc/@use(datum/@a/v, u, datum/@a/sub/w, list/L, list/datum/@b/K, list/list/datum/@b/M, datum/@o/o, datum/@c/z)\n";

/// One program of many expressions, each on a line of its own.
fn lines(xs: &[X]) -> (String, Want) {
    let mut t = format!("{WORLD}{HEAD}");
    let mut line = t.matches('\n').count() as u32;
    let mut want = vec![];
    for e in xs {
        t += &format!("\t. = {}\n", e.text);
        line += 1;
        want.extend(e.errs.iter().map(|k| (line, k.clone())));
    }
    (t, want)
}

fn chains(r: &mut Runner) {
    let (ls, fs) = (leaves(), follows());
    let mut last = fs.clone();
    last.extend(ends());
    let depth = r.pick(3, 4);
    r.suite("names", "every name alone", ls.len() as u64, |i, c| batch(c, &[lines(&ls[i as usize..=i as usize])], verify));
    for d in 1..=depth {
        // the middle steps are one case, the last step varies within the program
        let mids = pow(fs.len(), d - 1);
        r.suite(&format!("chains {d}"), "every chain of member accesses, calls and indexing from every name", ls.len() as u64 * mids, |i, c| {
            let mut e = ls[(i / mids) as usize].clone();
            for k in word_of(fs.len(), d - 1, i % mids) {
                e = follow(&e, &fs[k]);
            }
            let xs: Vec<X> = last.iter().map(|f| follow(&e, f)).collect();
            batch(c, &[lines(&xs)], verify);
        });
    }
}

// ------------------------------------------------------------------------------------------------
// Operators

fn bin(op: &str, a: &X, b: &X) -> X {
    let lists = matches!(a.ty, List(_)) || a.ty == Is("/list");
    let keeps = lists && matches!(op, "+" | "-" | "|" | "&" | "^");
    let mut errs = a.errs.clone();
    errs.extend(b.errs.clone());
    X { text: format!("{} {op} {}", a.text, b.text), ty: if keeps { a.ty.clone() } else { Ty::None }, errs, tight: false }
}
fn operators(r: &mut Runner) {
    const OPS: [&str; 19] = ["+", "-", "*", "/", "%", "**", "==", "!=", "<>", "<", ">=", "&&", "||", "&", "|", "^", ">>", "~=", "%%"];
    let ls = leaves();
    let fs: Vec<F> = follows().into_iter().filter(|f| matches!(f, F::Field(".", "len" | "n" | "nope" | "back") | F::Index(_) | F::Call(".", "q" | "Copy", _))).collect();
    r.suite("operators", "every binary operator between every two names, and what its result is known to be", (ls.len() * OPS.len()) as u64, |i, c| {
        let (a, op) = (&ls[i as usize / OPS.len()], OPS[i as usize % OPS.len()]);
        let mut xs = vec![];
        for b in &ls {
            // a path would be read in `a / b`
            let e = bin(op, a, b);
            xs.push(e.clone());
            for f in &fs {
                xs.push(follow(&e, f));
            }
            xs.push(bin("+", &X { text: format!("({})", e.text), ..e.clone() }, b));
        }
        batch(c, &[lines(&xs)], verify);
    });
    r.suite("choices", "every ternary of every three names: the type is that of the first outcome", ls.len() as u64, |i, c| {
        let mut xs = vec![];
        for a in &ls {
            for b in &ls {
                let q = &ls[i as usize];
                let mut errs = q.errs.clone();
                errs.extend(a.errs.clone());
                errs.extend(b.errs.clone());
                let e = X { text: format!("{} ? {} : {}", q.text, a.text, b.text), ty: a.ty.clone(), errs, tight: false };
                if basic(&a.ty) == basic(&b.ty) {
                    for f in &fs {
                        xs.push(follow(&e, f));
                    }
                } else {
                    xs.push(e);
                }
            }
        }
        batch(c, &[lines(&xs)], verify);
    });
    // !x & y, and x op y in z
    const LEFT: [(&str, &str); 13] = [
        // text, what the left of `in` is
        ("v", ""),
        ("v.n", ""),
        ("!v", "`!`"),
        ("-v", "`-`"),
        ("~v", "`~`"),
        ("!v.n", "`!`"),
        ("(!v)", ""),
        ("!!v", "`!`"),
        ("(v + 1)", ""),
        ("v[1]", ""),
        ("(-v)", ""),
        ("!(v)", "`!`"),
        ("-(-v)", "`-`"),
    ];
    r.suite("ambiguity", "a negated left side of a bitwise operator, and anything but a plain value on the left of `in`", (LEFT.len() * OPS.len()) as u64, |i, c| {
        let ((l, lin), op) = (LEFT[i as usize / OPS.len()], OPS[i as usize % OPS.len()]);
        let mut t = format!("{WORLD}/datum/@a/proc/@use(v, n, q)\n");
        let mut want = vec![];
        let mut line = t.matches('\n').count() as u32;
        let mut put = |text: &str, kinds: &[&str]| {
            line += 1;
            t += &format!("\t. = {text}\n");
            want.extend(kinds.iter().map(|k| (line, k.to_string())));
        };
        let not = l.starts_with('!') && matches!(op, "&" | "|" | "^");
        let nb = format!("warning [ambiguous_not_bitwise] Ambiguous `!` on left side of bitwise `{op}` operator");
        let nbs: Vec<&str> = if not { vec![&nb] } else { vec![] };
        put(&format!("{l} {op} q"), &nbs);
        put(&format!("({l}) {op} q"), &[]);
        put(&format!("({l} {op} q)"), &nbs);
        put(&format!("q {op} {l}"), &[]);
        let _ = lin;
        batch(c, &[(t, want)], |w, got| {
            // only about the operators; the values are untyped or numbers here
            let got: Vec<Diag> = got.iter().filter(|d| !d.kind.ends_with("static_type")).cloned().collect();
            verify(w, &got)
        });
    });
    r.suite("in", "every left side of `in`, with and without parentheses", LEFT.len() as u64, |i, c| {
        let (l, lin) = LEFT[i as usize];
        let mut progs = vec![];
        for (text, what) in [
            (format!("{l} in q"), lin.to_owned()),
            (format!("({l}) in q"), String::new()),
            (format!("({l} in q)"), lin.to_owned()),
            (format!("q && {l} in q"), "`&&`".to_owned()),
            (format!("q && ({l} in q)"), lin.to_owned()),
            (format!("(q && {l}) in q"), String::new()),
            (format!("q + {l} in q"), "`+`".to_owned()),
            (format!("q == {l} in q"), "`==`".to_owned()),
            (format!("q | {l} in q"), "`|`".to_owned()),
            (format!("q ? 1 : {l} in q"), "ternary".to_owned()),
            (format!("(q ? 1 : {l}) in q"), String::new()),
        ] {
            let t = format!("{WORLD}/datum/@a/proc/@use(v, n, q)\n\treturn {text}\n");
            let line = t.matches('\n').count() as u32;
            let want = if what.is_empty() { vec![] } else { vec![(line, format!("warning [ambiguous_in_lhs] ambiguous {what} on left side of an `in`"))] };
            progs.push((t, want));
        }
        batch(c, &progs, |w, got| {
            let got: Vec<Diag> = got.iter().filter(|d| !d.kind.ends_with("static_type")).cloned().collect();
            verify(w, &got)
        });
    });
}

// ------------------------------------------------------------------------------------------------
// Every place of a proc is looked at once

pub const MORE_PLACES: [&str; 34] = [
    "\tfor(x = # to 3)\n\t\tL = x\n",
    "\tfor(x = 1 to #)\n\t\tL = x\n",
    "\tfor(x = 1 to 3 step #)\n\t\tL = x\n",
    "\tfor(x in # to 3)\n\t\tL = x\n",
    "\tfor(x in #)\n\t\tL = x\n",
    "\tfor(var/y in # to 3)\n\t\tL = y\n",
    "\tfor(var/y as anything in #)\n\t\tL = y\n",
    "\tfor(var/y = #, y < 3, y++)\n\t\tL = y\n",
    "\tswitch(x)\n\t\tif(1)\n\t\t\tx = 1\n\t\telse\n\t\t\tswitch(#)\n\t\t\t\tif(2)\n\t\t\t\t\tx = 2\n",
    "\tspawn(#)\n\t\tx = 1\n",
    "\treturn x:foo(1)[#]\n",
    "\treturn -(#)\n",
    "\treturn ~(#)\n",
    "\treturn (#)\n",
    "\treturn (# + 1) * 2\n",
    "\treturn L[1][#]\n",
    "\tL[#] = 1\n",
    "\tL[1] += #\n",
    "\tL[x] ||= #\n",
    "\tx = L = #\n",
    "\tx << #\n",
    "\tx >> #\n",
    "\t(#) << x\n",
    "\treturn input(#)\n",
    "\treturn input(x, #) in L\n",
    "\treturn input(x) in (#)\n",
    "\treturn locate(#, 2, 3)\n",
    "\treturn new /list(#)\n",
    "\treturn pick(prob(#); 1, 2)\n",
    "\treturn list(\"a\" = #, \"b\" = 1)\n",
    "\treturn @g(1, b = #)\n",
    "\treturn global.@g(#)\n",
    "\treturn min(1, #)\n",
    "\treturn x?[#]\n",
];
const MISTAKES: [(&str, &str); 11] = [
    ("@nope", "error [] undefined var: \"@nope\""),
    ("@nope()", "error [] undefined proc: \"@nope\" on (global)"),
    ("global.@nope", "error [] undefined field: \"@nope\" on (global)"),
    ("global.@nope()", "error [] undefined proc: \"@nope\" on (global)"),
    ("(::@nope)", "error [] undefined global var: \"@nope\""),
    ("(::@nope())", "error [] undefined global proc: \"@nope\""),
    ("L.@nope", "error [] undefined field: \"@nope\" on /list"),
    ("L.@nope()", "error [] undefined proc: \"@nope\" on /list"),
    ("(/datum/@none)", "error [] failed to resolve path /datum/@none"),
    ("@g(zz = 1)", "error [] bad keyword argument \"zz\" to /proc/@g"),
    ("(L++)", "error [no_operator_overload] Attempting operator++ on a list which does not overload operator++"),
];
fn places(r: &mut Runner) {
    let all: Vec<&str> = PLACES.iter().map(|p| p.0).chain(MORE_PLACES).collect();
    r.suite("places", "every kind of mistake in every place an expression can stand is reported once", (all.len() * MISTAKES.len()) as u64, |i, c| {
        let (place, (text, want)) = (all[i as usize / MISTAKES.len()], MISTAKES[i as usize % MISTAKES.len()]);
        // within strings and nested brackets the text is the same
        let t = format!("/proc/@g(a, b)\n\treturn a\n/proc/@r(x, list/L, client/C)\n{}", place.replace('#', text));
        let line = 3 + place[..place.find('#').unwrap()].matches('\n').count() as u32 + 1;
        batch(c, &[(t, want)], |want, got| {
            let mut seen = 0;
            for d in got {
                if show(d) == **want {
                    seen += 1;
                    if d.line != line && !(line > d.line && line <= d.line + 4) {
                        return Err(("line".into(), format!("belongs on line {line}: {}", d.show())));
                    }
                } else if !(d.kind.ends_with("static_type") || d.kind.contains("determinate") || d.text.contains("spawn") || d.text.contains("mutable") || d.kind.contains("condition")) {
                    return Err((format!("false {}", class(&show(d))), d.show()));
                }
            }
            match seen {
                1 => Ok(()),
                0 => Err((format!("missed in a place: {}", class(want)), format!("{want}: not reported"))),
                _ => Err((format!("repeated: {}", class(want)), format!("{want}: reported {seen} times"))),
            }
        });
    });
    // calls whose receiver or target is not known still have their arguments looked at
    const CALLS: [(&str, &str); 12] = [
        ("x.foo(#)", "warning [proc_call_static_type] proc call requires static type: \"foo\""),
        ("x?.foo(#)", "warning [proc_call_static_type] proc call requires static type: \"foo\""),
        ("x:foo(#)", ""),
        ("x?:foo(#)", ""),
        ("L[1].foo(#)", "warning [proc_call_static_type] proc call requires static type: \"foo\""),
        ("x.y(#).z(1)", "*"),
        ("x.y(1).z(#)", "*"),
        ("x.y(a = #)", "warning [proc_call_static_type] proc call requires static type: \"y\""),
        ("call(x, \"y\")(1, #)", ""),
        ("call_ext(x, \"y\")(1, #)", ""),
        ("new x(1, #)", ""),
        ("new /list(1, #)", ""),
    ];
    r.suite("open calls", "the arguments of calls on untyped values", (CALLS.len() * MISTAKES.len()) as u64, |i, c| {
        let ((call, extra), (text, want)) = (CALLS[i as usize / MISTAKES.len()], MISTAKES[i as usize % MISTAKES.len()]);
        let t = format!("/proc/@g(a, b)\n\treturn a\n/proc/@r(x, list/L, client/C)\n\treturn {}\n", call.replace('#', text));
        let mut w: Want = vec![(4, want.to_string())];
        if extra == "*" {
            for n in ["y", "z"] {
                w.push((4, format!("warning [proc_call_static_type] proc call requires static type: \"{n}\"")));
            }
        } else if !extra.is_empty() {
            w.push((4, extra.to_string()));
        }
        batch(c, &[(t, w)], verify);
    });
}


// ------------------------------------------------------------------------------------------------
// Which declaration a name means, across nested blocks

/// What `@x` is at some point, as a use of it shows.
#[derive(Clone, Copy, PartialEq)]
enum Decl {
    Nothing,
    A,
    B,
    Untyped,
}
/// The mistakes in `@x.q()`, where only `/datum/@b` has a `q`.
fn use_errs(d: Decl) -> Vec<String> {
    let untyped = "warning [proc_call_static_type] proc call requires static type: \"q\"".to_owned();
    match d {
        Decl::Nothing => vec![err("undefined var: \"@x\""), untyped],
        Decl::A => vec![err("undefined proc: \"q\" on /datum/@a")],
        Decl::B => vec![],
        Decl::Untyped => vec![untyped],
    }
}
#[derive(Clone)]
enum St {
    Use,
    /// a declaration; with an initialiser that uses the name
    Let(Decl, bool),
    Block(usize, Vec<St>),
}
/// (text before the body, text after it, what the head itself declares,
///  uses within the head: before and after that declaration)
const SCOPES: [(&str, &str, Option<Decl>, u32, u32); 26] = [
    ("if(u)", "", None, 0, 0),
    ("if(@x.q())", "", None, 1, 0),
    ("if(u)\n>\tu = 1\n>else", "", None, 0, 0),
    ("if(u)\n>\tu = 1\n>else if(@x.q())", "", None, 0, 0),
    ("if(u)\n>\tvar/@x\n>\tu = @x\n>else", "", None, 0, 0),
    ("while(u)", "", None, 0, 0),
    ("while(@x.q())", "", None, 1, 0),
    ("do", "while(u)", None, 0, 0),
    ("switch(u)\n>\tif(1)", "", None, 0, 0),
    ("switch(u)\n>\tif(1)\n>\t\tvar/@x\n>\t\tu = @x\n>\telse", "", None, 0, 0),
    ("switch(@x.q())\n>\tif(1)", "", None, 0, 0),
    ("spawn(u)", "", None, 0, 0),
    ("spawn(@x.q())", "", None, 1, 0),
    ("@label:", "", None, 0, 0),
    ("try", "catch\n>\tu = 1", None, 0, 0),
    ("try\n>\tvar/@x\n>\tu = @x\n>catch", "", None, 0, 0),
    ("try\n>\tu = 1\n>catch(var/datum/@b/@x)", "", Some(Decl::B), 0, 0),
    ("for(var/datum/@b/@x in L)", "", Some(Decl::B), 0, 0),
    ("for(var/datum/@a/@x in @x.q())", "", Some(Decl::A), 1, 0),
    ("for(var/@x in L)", "", Some(Decl::Untyped), 0, 0),
    ("for(var/@x = 1 to 3)", "", Some(Decl::Untyped), 0, 0),
    ("for(var/@x = @x.q() to @x.q())", "", Some(Decl::Untyped), 2, 0),
    ("for(var/datum/@b/@x = u, u, u)", "", Some(Decl::B), 0, 0),
    ("for(var/datum/@a/@x = @x.q(), @x.q(), @x.q())", "", Some(Decl::A), 1, 2),
    ("for(var/datum/@b/@x, y in L)", "", Some(Decl::B), 0, 0),
    ("for(var/k, @x in L)", "", Some(Decl::Untyped), 0, 0),
];

struct Scoped {
    text: String,
    line: u32,
    want: Want,
    labels: u32,
}
impl Scoped {
    fn line(&mut self, depth: usize, s: &str) {
        let s = s.replace("@label", &format!("@label{}", self.labels));
        for l in s.split('\n') {
            self.text += &"\t".repeat(depth);
            self.text += l.trim_start_matches('>');
            self.text.push('\n');
            self.line += 1;
        }
    }
    fn uses(&mut self, line: u32, d: Decl, n: u32) {
        for _ in 0..n {
            self.want.extend(use_errs(d).into_iter().map(|e| (line, e)));
        }
    }
    /// `at` is what the name means here; returns what it means after.
    fn body(&mut self, depth: usize, sts: &[St], mut at: Decl) {
        for s in sts {
            match s {
                St::Use => {
                    self.line(depth, "u = @x.q()");
                    self.uses(self.line, at, 1);
                },
                St::Let(d, init) => {
                    let ty = match d {
                        Decl::A => "datum/@a/",
                        Decl::B => "datum/@b/",
                        _ => "",
                    };
                    self.line(depth, &format!("var/{ty}@x{}", if *init { " = @x.q()" } else { "" }));
                    if *init {
                        self.uses(self.line, at, 1);
                    }
                    at = *d;
                },
                St::Block(k, inner) => {
                    let (head, tail, declares, before, after) = SCOPES[*k];
                    self.labels += 1;
                    self.line(depth, head);
                    // `else if` and `switch` use it elsewhere than before a body on the next line
                    let first = self.line - head.matches('\n').count() as u32;
                    let (bl, before) = match head {
                        h if h.contains("else if(@x") => (self.line, 1),
                        h if h.starts_with("switch(@x") => (first, 1),
                        _ => (self.line, before),
                    };
                    self.uses(bl, at, before);
                    let inside = declares.unwrap_or(at);
                    self.uses(self.line, inside, after);
                    // a label of its own may not be followed by less than a statement
                    let d = depth + 1 + head.rsplit('\n').next().unwrap().matches('\t').count();
                    self.body(d, inner, inside);
                    if !tail.is_empty() {
                        self.line(depth, tail);
                    }
                },
            }
        }
    }
}
const AROUND: [(&str, Decl); 5] = [
    ("/proc/@use(u, list/L)\n", Decl::Nothing),
    ("/proc/@use(u, list/L, datum/@a/@x)\n", Decl::A),
    ("var/datum/@b/@x\n/proc/@use(u, list/L)\n", Decl::B),
    ("/datum/@m/var/datum/@a/@x\n/datum/@m/proc/use(u, list/L)\n", Decl::A),
    ("var/datum/@a/@x\n/datum/@m/var/datum/@b/@x\n/datum/@m/sub/proc/use(u, list/L)\n", Decl::B),
];
const TWO: &str = "/datum/@a/proc/p()\n\treturn 1\n/datum/@b/proc/q()\n\treturn 1\n";
fn scoped(around: usize, sts: &[St]) -> (String, Want) {
    let text = format!("{TWO}{}", AROUND[around].0);
    let mut s = Scoped { line: text.matches('\n').count() as u32, text, want: vec![], labels: 0 };
    s.body(1, sts, AROUND[around].1);
    (s.text, s.want)
}
fn scopes(r: &mut Runner) {
    let leaves = || vec![St::Use, St::Let(Decl::B, false), St::Let(Decl::A, false), St::Let(Decl::Untyped, false), St::Let(Decl::B, true)];
    let mut inner: Vec<Vec<St>> = vec![];
    for a in leaves() {
        inner.push(vec![a.clone()]);
        for b in leaves() {
            inner.push(vec![a.clone(), b]);
        }
    }
    let items = |inner: &[Vec<St>]| {
        let mut out = leaves();
        for k in 0..SCOPES.len() {
            out.extend(inner.iter().map(|i| St::Block(k, i.clone())));
        }
        out
    };
    let flat = items(&inner);
    let few: Vec<Vec<St>> = r.pick(vec![vec![St::Use], vec![St::Let(Decl::B, false), St::Use]], inner.clone());
    let once = items(&few);
    let keep = |w: &Want, got: &[Diag]| {
        let got: Vec<Diag> = got.iter().filter(|d| !d.kind.contains("condition") && !d.text.contains("spawn")).cloned().collect();
        verify(w, &got)
    };
    r.suite("scopes", "every two statements with blocks of up to two, then a use, in every surrounding", (AROUND.len() * flat.len()) as u64, |i, c| {
        let (around, a) = (i as usize / flat.len(), &flat[i as usize % flat.len()]);
        let progs: Vec<_> = once.iter().map(|b| scoped(around, &[a.clone(), b.clone(), St::Use])).collect();
        for part in progs.chunks(200) {
            batch(c, part, keep);
        }
    });
    r.suite("nested", "every block within every block, with declarations before, between and after", (AROUND.len() * SCOPES.len() * once.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let (around, k) = (d.take(AROUND.len()), d.take(SCOPES.len()));
        let b = &once[d.take(once.len())];
        let mut progs = vec![];
        for pre in leaves() {
            for mid in leaves() {
                progs.push(scoped(around, &[pre.clone(), St::Block(k, vec![mid.clone(), b.clone(), St::Use]), St::Use]));
            }
        }
        batch(c, &progs, keep);
    });
}

// ------------------------------------------------------------------------------------------------
// What an implicit new() creates

fn implied(r: &mut Runner) {
    const TYPES: &str = "\
/datum/@a/New(ka)
\treturn
/datum/@a/sub/New(ks)
\treturn
/datum/@b/New(kb)
\treturn
/datum/@a/var/datum/@b/b
/datum/@a/var/list/datum/@b/lb
/datum/@a/var/list/l
/datum/@a/var/w
/datum/@a/proc/pb()
\tset SpacemanDMM_return_type = /datum/@b
var/datum/@a/@g
/datum/@a/proc/@use(u, datum/@a/v, datum/@a/sub/s, list/datum/@b/K, list/list/datum/@b/M, list/L)
";
    // what is assigned, and the type that gives
    const TARGETS: [(&str, &str); 24] = [
        ("var/datum/@a/y = #", A),
        ("var/datum/@b/y = #", B),
        ("var/datum/@a/sub/y = #", SUB),
        ("var/static/datum/@b/y = #", B),
            ("var/list/y = #", "/list"),
        ("var/list/datum/@b/y = #", "/list"),
        ("var/y = #", ""),
        ("v = #", A),
        ("s = #", SUB),
        ("u = #", ""),
        ("b = #", B),
        ("src.b = #", B),
        ("v.b = #", B),
        ("s.b = #", B),
        ("@g = #", A),
        ("K\\[1] = #", B),
        ("M\\[1]\\[2] = #", B),
        ("M\\[1] = #", "/list"),
        ("lb\\[u] = #", B),
        ("L\\[1] = #", ""),
        ("u.x = #", "?"),
        ("w = #", ""),
        ("v ||= #", A),
        ("return #", ""),
    ];
    // around the new(); whether what is assigned still says what it creates, once for each
    const WRAPS: [(&str, bool, usize); 9] = [
        ("%", true, 1),
        ("(%)", true, 1),
        ("((%))", true, 1),
        ("u || %", true, 1),
        ("u || u || %", true, 1),
        ("% || %", true, 2),
        ("u ? % : null", true, 1),
        ("u ? null : (%)", true, 1),
        ("list(%)", false, 1),
    ];
    // how it is written: argument, keyword
    const NEWS: [&str; 4] = ["new", "new()", "new(u)", "new(zz = 1)"];
    r.suite("implied new", "every target of every implicit new", (TARGETS.len() * WRAPS.len()) as u64, |i, c| {
        let ((target, ty), (wrap, carried, times)) = (TARGETS[i as usize / WRAPS.len()], WRAPS[i as usize % WRAPS.len()]);
        let mut progs = vec![];
        for new in NEWS {
            if new == "new" && (wrap.starts_with("% ") || wrap.starts_with("list") || wrap.contains("% :")) {
                // read as new <what follows>
                continue;
            }
            let text = format!("{TYPES}\t{}\n", target.replace("\\[", "[").replace('#', &wrap.replace('%', new)));
            let line = text.matches('\n').count() as u32;
            let mut want: Want = vec![];
            let mut push = |n: usize, e: String| {
                for _ in 0..n {
                    want.push((line, e.clone()));
                }
            };
            if ty == "?" {
                push(1, "warning [field_access_static_type] field access requires static type: \"x\"".into());
            }
            let ty = if carried { ty } else { "" };
            match ty {
                "" | "?" => push(times, "error [no_typehint_implicit_new] no type hint available on implicit new()".into()),
                "/list" => {},
                ty if new.contains("zz") => push(times, err(&format!("bad keyword argument \"zz\" to {ty}/proc/New"))),
                _ => {},
            }
            progs.push((text, want));
        }
        batch(c, &progs, verify);
    });
}

// ------------------------------------------------------------------------------------------------
// Return type annotations

fn returns(r: &mut Runner) {
    /// what an annotation depends on
    #[derive(Clone, Debug)]
    enum R {
        Fixed(&'static str, Ty),
        /// a parameter's value, a path
        Path(usize),
        /// a parameter's type, so many lists stripped
        Type(usize, usize),
        Or(Box<R>, Box<R>),
        And(Box<R>, Box<R>),
        If(Box<R>, Box<R>, Box<R>),
    }
    fn text(e: &R) -> String {
        let p = |i: &usize| ["p", "o"][*i];
        match e {
            R::Fixed(t, _) => t.to_string(),
            R::Path(i) => p(i).into(),
            R::Type(i, n) => format!("{}{}.type", p(i), "[_]".repeat(*n)),
            R::Or(a, b) => format!("{} || {}", text(a), text(b)),
            R::And(a, b) => format!("{} && {}", text(a), text(b)),
            R::If(a, b, d) => format!("{} ? {} : {}", text(a), text(b), text(d)),
        }
    }
    // an argument: text, its type, the path it is
    type Arg = (&'static str, fn() -> Ty, Option<fn() -> Ty>);
    const ARGS: [Arg; 9] = [
        ("v", || Is(A), None),
        ("b", || Is(B), None),
        ("K", || list(Is(B)), None),
        ("M", || list(list(Is(B))), None),
        ("/datum/@b", || Ty::None, Some(|| Is(B))),
        ("/datum/@a", || Ty::None, Some(|| Is(A))),
        ("null", || Ty::None, None),
        ("u", || Ty::None, None),
        ("src", || Is(A), None),
    ];
    fn eval(e: &R, args: &[Option<usize>; 2]) -> Ty {
        match e {
            R::Fixed(_, t) => t.clone(),
            R::Path(i) => args[*i].and_then(|a| ARGS[a].2).map_or(Ty::None, |f| f()),
            R::Type(i, n) => {
                let mut t = args[*i].map_or(Ty::None, |a| ARGS[a].1());
                for _ in 0..*n {
                    t = match t {
                        List(of) => *of,
                        _ => Ty::None,
                    };
                }
                t
            },
            R::Or(a, b) => match eval(a, args) {
                Ty::None => eval(b, args),
                t => t,
            },
            R::And(a, b) => match eval(a, args) {
                Ty::None => Ty::None,
                _ => eval(b, args),
            },
            R::If(a, b, d) => match eval(a, args) {
                Ty::None => eval(d, args),
                _ => eval(b, args),
            },
        }
    }
    let mut atoms = vec![
        R::Fixed("/datum/@a", Is(A)),
        R::Fixed("/datum/@b", Is(B)),
        R::Fixed("/list/datum/@b", list(Is(B))),
        R::Fixed("/list", list(Ty::None)),
        R::Fixed("null", Ty::None),
    ];
    for i in 0..2 {
        atoms.push(R::Path(i));
        for n in 0..3 {
            atoms.push(R::Type(i, n));
        }
    }
    let mut all = atoms.clone();
    let bx = |e: &R| Box::new(e.clone());
    for a in &atoms {
        for b in &atoms {
            all.push(R::Or(bx(a), bx(b)));
            all.push(R::And(bx(a), bx(b)));
        }
    }
    let three: Vec<R> = atoms.iter().enumerate().filter(|(k, _)| r.thorough() || [1, 4, 5, 6, 7].contains(k)).map(|x| x.1.clone()).collect();
    for a in &three {
        for b in &three {
            for d in &three {
                all.push(R::If(bx(a), bx(b), bx(d)));
            }
        }
    }
    // how the two arguments are passed
    const CALLS: [(&str, usize); 6] = [
        // text with $ and % for the arguments, how many of them
        ("", 0),
        ("$", 1),
        ("$, %", 2),
        ("$, o = %", 2),
        ("o = %, p = $", 2),
        ("p = $", 1),
    ];
    // where the proc is, and how it is called
    const WHERE: [(&str, &str); 6] = [
        ("/proc/@ret", "@ret"),
        ("/proc/@ret", "global.@ret"),
        ("/datum/@a/proc/ret", "ret"),
        ("/datum/@a/proc/ret", "v.ret"),
        ("/datum/@a/proc/ret", "w?.ret"),
        ("/datum/proc/@ret", "b.@ret"),
    ];
    let probes: Vec<F> = follows().into_iter().filter(|f| matches!(f, F::Call(".", "q" | "pb" | "Copy", _) | F::Field(".", "len"))).filter(|f| !matches!(f, F::Call(_, _, a) if !a.errs.is_empty())).collect();
    r.suite("returns", "every annotation of every call: paths, parameters, types of parameters, and choices", (all.len() * WHERE.len()) as u64, |i, c| {
        let (e, (decl, call)) = (&all[i as usize / WHERE.len()], WHERE[i as usize % WHERE.len()]);
        let head = format!("{decl}(p, o)\n\tset SpacemanDMM_return_type = {}\n\treturn 1\n", text(e));
        let mut xs = vec![];
        for (form, n) in CALLS {
            let combos = [1, ARGS.len(), ARGS.len() * ARGS.len()][n];
            for k in 0..combos {
                let (a, b) = (k % ARGS.len(), k / ARGS.len());
                let args = [(n > 0).then_some(a), (n > 1).then_some(b)];
                // named arguments in reverse are the same
                let t = format!("{call}({})", form.replace('$', ARGS[a].0).replace('%', ARGS[b].0));
                let base = x(&t, eval(e, &args));
                for f in &probes {
                    xs.push(follow(&base, f));
                    xs.push(follow(&follow(&base, &F::Index(x("1", Ty::None))), f));
                }
            }
        }
        let (t, want) = lines(&xs);
        let shift = head.matches('\n').count() as u32;
        let want = want.into_iter().map(|(l, k)| (l + shift, k)).collect();
        batch(c, &[(format!("{head}{t}"), want)], verify);
    });
    // paths kept in locals
    r.suite("paths in variables", "a path held by a local, by a type hint, and by type", 6 * 3, |i, c| {
        let (hold, is) = [
            ("var/t = /datum/@b", Some(B)),
            ("var/const/t = /datum/@b", Some(B)),
            ("var/datum/@b/t = __IMPLIED_TYPE__", Some(B)),
            ("var/t = __TYPE__", Some(A)),
            ("var/t = type", Some(A)),
            ("var/t = u", None),
        ][i as usize / 3];
        let call = ["@ret(t)", "@ret(p = t)", "global.@ret(t)"][i as usize % 3];
        let mut xs = vec![];
        let base = x(call, is.map_or(Ty::None, Is));
        for f in &probes {
            xs.push(follow(&base, f));
        }
        let (t, want) = lines(&xs);
        let t = t.replace(HEAD, &format!("/proc/@ret(p)\n\tset SpacemanDMM_return_type = p\n\treturn 1\n{HEAD}\t{hold}\n"));
        let want = want.into_iter().map(|(l, k)| (l + 4, k)).collect();
        batch(c, &[(t, want)], verify);
    });
}

// ------------------------------------------------------------------------------------------------
// What is iterated over; parents; static members

fn loops(r: &mut Runner) {
    const WHAT: [(&str, &str); 20] = [
        ("u", ""),
        ("L", ""),
        ("K", ""),
        ("M\\[1]", ""),
        ("K\\[1]", "error [] iterating over a /datum/@b which cannot be iterated"),
        ("v", "error [] iterating over a /datum/@a which cannot be iterated"),
        ("v.b", "error [] iterating over a /datum/@b which cannot be iterated"),
        ("v.l", ""),
        ("v.n", ""),
        ("src", "error [] iterating over a /datum/@a which cannot be iterated"),
        ("usr", ""),
        ("world", ""),
        ("usr.client", "error [] iterating over a /client which cannot be iterated"),
        ("d", "hint [] iterating over a /datum which might not be an /atom"),
        ("m", ""),
        ("view()", ""),
        ("list(1, 2)", ""),
        ("v.pl()", ""),
        ("v.pb()", "error [] iterating over a /datum/@b which cannot be iterated"),
        ("callee.proc", "error [] iterating over a procpath which cannot be iterated"),
    ];
    const HOW: [&str; 8] = [
        "for(var/y in #)",
        "for(var/y in (#))",
        "for(u in #)",
        "for(var/datum/@b/y in #)",
        "for(var/datum/@b/y as anything in #)",
        "for(var/y, z in #)",
        "for(var/datum/@b/y, z in #)",
        "for(n in #)",
    ];
    r.suite("iteration", "every value in every loop over it", (WHAT.len() * HOW.len()) as u64, |i, c| {
        let ((what, want), how) = (WHAT[i as usize / HOW.len()], HOW[i as usize % HOW.len()]);
        let head = format!("{}, datum/d, mob/m)\n", HEAD.trim_end().trim_end_matches(')'));
        let t = format!("{WORLD}{head}\t{}\n\t\tu = 1\n", how.replace('#', &what.replace("\\[", "[")));
        let line = t.matches('\n').count() as u32 - 1;
        let want = if want.is_empty() { vec![] } else { vec![(line, want.to_owned())] };
        batch(c, &[(t, want)], verify);
    });
}

fn parents(r: &mut Runner) {
    // per level of four: not defined, defined, defined twice; and a global proc of the name
    const LEVELS: [&str; 4] = ["/datum/@a", "/datum/@a/b", "/datum/@a/b/c", "/datum/@d"];
    r.suite("parents", "..() on every level of every family that defines a proc once, twice or not at all", 2 * 3 * 3 * 3 * 3 * 2, |i, c| {
        let mut d = Digits(i);
        let global = d.flag();
        let n: Vec<usize> = LEVELS.iter().map(|_| d.take(3)).collect();
        // `@d` is moved below the second level
        let below = d.flag();
        let mut progs = vec![];
        // the calling level: each of the definitions in turn calls
        for call in ["..()", "..(1)", "return ..()"] {
            let mut t = "/datum/@a/b/c\n/datum/@d\n".to_owned();
            if global {
                t += "/proc/@f(k)\n\treturn k\n";
            }
            if below {
                t += "/datum/@d\n\tparent_type = /datum/@a/b\n";
            }
            let mut want = vec![];
            let mut line = t.matches('\n').count() as u32;
            for (k, ty) in LEVELS.iter().enumerate() {
                let up: &[usize] = match k {
                    3 if below => &[0, 1],
                    3 => &[],
                    1 => &[0],
                    2 => &[0, 1],
                    _ => &[],
                };
                let any_above = up.iter().any(|&u| n[u] > 0);
                for times in 0..n[k] {
                    let declares = times == 0 && !any_above;
                    t += &format!("{ty}/{}@f(k)\n\t{call}\n", if declares { "proc/" } else { "" });
                    if declares {
                        want.push((line + 2, format!("error [proc_has_no_parent] proc has no parent: {ty}/proc/@f")));
                    }
                    line += 2;
                }
            }
            progs.push((t, want));
        }
        batch(c, &progs, |w, got| {
            // the second definition on one type is its own matter
            let got: Vec<Diag> = got.iter().filter(|d| !d.text.contains("redefin")).cloned().collect();
            let mut got = got;
            for g in &mut got {
                // which of several definitions it is may be named too
                if let Some(p) = g.text.find("@f") {
                    if g.text.starts_with("proc has no parent") {
                        g.text.truncate(p + 2);
                    }
                }
            }
            verify(w, &got)
        });
    });
}

fn scope_operator(r: &mut Runner) {
    // the type a base names
    const BASES: [(&str, Option<&str>, &str); 17] = [
        ("/datum/@a", Some(A), ""),
        ("/datum/@a/sub", Some(SUB), ""),
        ("/datum/@b", Some(B), ""),
        ("/datum/@c", Some(C), ""),
        ("v", Some(A), ""),
        ("w", Some(SUB), ""),
        ("b", Some(B), ""),
        ("src", Some(A), ""),
        ("type", Some(A), ""),
        ("__TYPE__", Some(A), ""),
        ("L", Some("/list"), ""),
        ("v.b", Some(B), ""),
        ("K[1]", Some(B), ""),
        ("@g", Some(B), ""),
        ("u", None, "no typepath found for: "),
        ("v.n", None, "no typepath found for: "),
        ("\"text\"", None, "static"),
    ];
    const NAMES: [&str; 11] = ["n", "b", "lb", "st", "extra", "back", "c", "len", "tag", "nope", "@g"];
    const PROCS: [&str; 9] = ["p", "pb", "pl", "more", "q", "nope", "Copy", "@gp", "operator[]"];
    r.suite("static members", "every member of every type and object through ::", (BASES.len() * (NAMES.len() + PROCS.len())) as u64, |i, c| {
        let ((base, ty, open), k) = (BASES[i as usize / (NAMES.len() + PROCS.len())], i as usize % (NAMES.len() + PROCS.len()));
        let ty: Option<&'static str> = ty;
        let mut xs = vec![];
        if k < NAMES.len() {
            let name = NAMES[k];
            let e = match ty {
                Some(on) => match up(on, |t| own_var(t, name)) {
                    Some(t) => x(&format!("{base}::{name}"), t),
                    None => bad(&format!("{base}::{name}"), &err(&format!("undefined field: \"{name}\" on {on}"))),
                },
                None => bad(&format!("{base}::{name}"), &err(&format!("{open}\"{name}\""))),
            };
            xs.push(e.clone());
            for f in follows() {
                xs.push(follow(&e, &f));
            }
        } else {
            let name = PROCS[k - NAMES.len()];
            if name == "operator[]" {
                return;
            }
            let e = match ty {
                Some(on) => match up(on, |t| own_proc(t, name)) {
                    Some(_) => x(&format!("{base}::{name}()"), Ty::None),
                    None => bad(&format!("{base}::{name}()"), &err(&format!("undefined proc: \"{name}\" on {on}"))),
                },
                None => bad(&format!("{base}::{name}()"), &err(&format!("{open}\"{name}\""))),
            };
            xs.push(e);
        }
        if open == "static" {
            // a number or text is no type: some error
            for e in &xs[..1] {
                batch(c, &[lines(&[e.clone()])], |w, got| {
                    if got.iter().any(|d| d.sev == "error" && d.line == w[0].0) {
                        Ok(())
                    } else {
                        Err(("missed static".into(), "text has no members".into()))
                    }
                });
            }
            return;
        }
        batch(c, &[lines(&xs)], verify);
    });
}

pub fn check(r: &mut Runner) {
    chains(r);
    operators(r);
    places(r);
    scopes(r);
    implied(r);
    returns(r);
    loops(r);
    parents(r);
    scope_operator(r);
}
