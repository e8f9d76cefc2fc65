//! Macro definition, undefinition and expansion vs. a rescanning reference expander.
use crate::util::*;
use dm::lexer::Token;
use dm::preprocessor::Preprocessor;
use dm::{Context, Location, Severity};
use mc_common::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct T {
    s: String,
    line: u32,
    col: u32,
    depth: u32,
    str: bool,
}

#[derive(Clone, Debug)]
struct Def {
    params: Option<Vec<String>>,
    variadic: bool,
    body: Vec<String>,
    at: (u32, u32),
}

#[derive(Default, Debug)]
struct Ref {
    out: Vec<T>,
    /// a diagnostic of error severity is required, and the rest of the output is unspecified
    error: bool,
    /// outside the specified fragment: only crash freedom applies
    skip: bool,
    /// would not finish in reasonable time (doubly self-referential macro)
    explosive: bool,
    redefined: usize,
    undefined: usize,
    /// every definition made, with the region in which it is in force
    regions: Vec<(String, (u32, u32), Option<(u32, u32)>)>,
}

fn scan(src: &str) -> Vec<T> {
    let b = src.as_bytes();
    let (mut i, mut line, mut col) = (0, 1, 1);
    let mut out = vec![];
    while i < b.len() {
        let st = i;
        let c = b[i];
        if c.is_ascii_alphanumeric() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if b[i..].starts_with(b"...") {
            i += 3;
        } else if b[i..].starts_with(b"##") || b[i..].starts_with(b"++") {
            i += 2;
        } else {
            i += 1;
        }
        let s = &src[st..i];
        if s != " " {
            out.push(T { s: s.to_owned(), line, col, depth: 0, str: false });
        }
        col += (i - st) as u32;
        if s == "\n" {
            line += 1;
            col = 1;
        }
    }
    out
}

fn ident(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
}
fn int(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_digit())
}

fn expand(src: &str) -> Ref {
    let mut r = Ref::default();
    let mut q: VecDeque<T> = scan(src).into();
    let mut defs: BTreeMap<String, Vec<Def>> = BTreeMap::new();
    let mut work = 0u32;
    let mut line_start = true;
    while let Some(t) = q.pop_front() {
        if t.s == "#" && t.depth == 0 {
            if !line_start {
                r.skip = true;
                return r;
            }
            // directive
            let mut l = vec![];
            while let Some(x) = q.pop_front() {
                if x.s == "\n" {
                    break;
                }
                l.push(x);
            }
            match &l[0].s[..] {
                "define" => {
                    let name = l[1].clone();
                    let mut d = Def { params: None, variadic: false, body: vec![], at: (name.line, name.col) };
                    let mut k = 2;
                    // a parenthesis directly after the name makes it function-like
                    if l.get(2).is_some_and(|p| p.s == "(" && p.col == name.col + name.s.len() as u32) {
                        let mut ps = vec![];
                        k = 3;
                        while l[k].s != ")" {
                            match &l[k].s[..] {
                                "," => {},
                                "..." => {
                                    d.variadic = true;
                                    if l[k - 1].s == "(" || l[k - 1].s == "," {
                                        ps.push("__VA_ARGS__".to_owned());
                                    }
                                },
                                p => ps.push(p.to_owned()),
                            }
                            k += 1;
                        }
                        k += 1;
                        d.params = Some(ps);
                    }
                    d.body = l[k..].iter().map(|t| t.s.clone()).collect();
                    let st = defs.entry(name.s.clone()).or_default();
                    if !st.is_empty() {
                        r.redefined += 1;
                    }
                    r.regions.push((name.s.clone(), d.at, None));
                    st.push(d);
                },
                "undef" => match defs.entry(l[1].s.clone()).or_default().pop() {
                    Some(d) => {
                        let e = r.regions.iter_mut().find(|x| x.0 == l[1].s && x.1 == d.at).unwrap();
                        // in force up to the directive's own line
                        e.2 = Some((l[1].line, l[1].col));
                    },
                    None => r.undefined += 1,
                },
                _ => unreachable!(),
            }
            line_start = true;
            continue;
        }
        line_start = t.s == "\n";
        work += 1;
        if work > 3000 {
            r.explosive = true;
            return r;
        }
        if !ident(&t.s) || t.str {
            r.out.push(t);
            continue;
        }
        if t.s == "__LINE__" {
            let l = t.line.to_string();
            r.out.push(T { s: l, ..t });
            continue;
        }
        let Some(d) = defs.get(&t.s).and_then(|s| s.last()).cloned() else {
            r.out.push(t);
            continue;
        };
        if t.depth > 24 {
            r.error = true; // runaway recursion: must be diagnosed
            // keep scanning to find out whether it explodes
            if t.depth > 33 {
                continue;
            }
        }
        let repl = |s: &str, depth: u32| T { s: s.to_owned(), line: t.line, col: t.col, depth, str: false };
        match &d.params {
            None => {
                if d.body.iter().any(|s| s == "##" || s == "#") {
                    r.skip = true;
                    return r;
                }
                for s in d.body.iter().rev() {
                    q.push_front(repl(s, t.depth + 1));
                }
            },
            Some(ps) => {
                match q.front() {
                    Some(p) if p.s == "(" => {},
                    _ => {
                        r.out.push(t);
                        continue;
                    },
                }
                q.pop_front();
                let mut args: Vec<Vec<T>> = vec![vec![]];
                let mut par = 0;
                let last;
                loop {
                    let Some(x) = q.pop_front() else {
                        r.error = true; // never closed
                        return r;
                    };
                    if x.s == "#" && x.depth == 0 {
                        r.skip = true;
                        return r;
                    }
                    match &x.s[..] {
                        "(" => par += 1,
                        ")" if par == 0 => {
                            last = x.depth;
                            break;
                        },
                        ")" => par -= 1,
                        "," if par == 0 => {
                            args.push(vec![]);
                            continue;
                        },
                        _ => {},
                    }
                    args.last_mut().unwrap().push(x);
                }
                if d.variadic {
                    if args.len() > ps.len() {
                        let rest = args.split_off(ps.len() - 1);
                        let mut j = vec![];
                        for (k, a) in rest.into_iter().enumerate() {
                            if k > 0 {
                                j.push(repl(",", 0));
                            }
                            j.extend(a);
                        }
                        args.push(j);
                    } else if args.len() + 1 == ps.len() {
                        args.push(vec![]);
                    }
                }
                if args.len() != ps.len() {
                    r.error = true;
                    return r;
                }
                let dep = last + 1;
                let arg = |s: &str| ps.iter().position(|p| p == s).map(|i| &args[i]);
                let mut ex: Vec<T> = vec![];
                let mut k = 0;
                while k < d.body.len() {
                    let s = &d.body[k];
                    k += 1;
                    if s == "#" {
                        match d.body.get(k).and_then(|n| arg(n)) {
                            Some(a) => {
                                if a.iter().any(|x| x.s == "\n") {
                                    r.skip = true;
                                    return r;
                                }
                                let txt = a.iter().map(|x| if x.str { format!("\"{}\"", x.s) } else { x.s.clone() }).collect::<Vec<_>>().join(" ");
                                ex.push(T { str: true, ..repl(&txt, dep) });
                                k += 1;
                            },
                            None => {
                                r.error = true;
                                return r;
                            },
                        }
                    } else if s == "##" {
                        let lhs = ex.pop();
                        let rhs: Vec<T> = match d.body.get(k) {
                            None => vec![],
                            Some(n) if n == "#" || n == "##" => {
                                r.skip = true;
                                return r;
                            },
                            Some(n) => match arg(n) {
                                Some(a) => a.clone(),
                                None => vec![repl(n, dep)],
                            },
                        };
                        k += 1;
                        match (lhs, rhs.first()) {
                            (Some(l), Some(f)) if ident(&l.s) && !l.str && !f.str && (ident(&f.s) || int(&f.s)) => {
                                ex.push(repl(&format!("{}{}", l.s, f.s), dep));
                                ex.extend(rhs[1..].iter().cloned());
                            },
                            (l, _) => {
                                ex.extend(l);
                                ex.extend(rhs);
                            },
                        }
                    } else if let Some(a) = arg(s) {
                        ex.extend(a.iter().cloned());
                    } else {
                        ex.push(repl(s, dep));
                    }
                }
                for mut x in ex.into_iter().rev() {
                    x.depth = dep;
                    x.line = t.line;
                    x.col = t.col;
                    q.push_front(x);
                }
            },
        }
    }
    r
}

fn compare(src: &str, c: &mut Case) {
    c.input(|| src.to_owned());
    let want = expand(src);
    if want.explosive {
        return; // see assumptions
    }
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "x.dme".into(), src);
    let toks: Vec<_> = pp.by_ref().collect();
    c.trans(toks.len() as u64);
    c.outcome(&(want.error, want.skip));
    if want.skip {
        return;
    }
    c.validated(1);
    let errs = ctx.errors().iter().filter(|e| e.severity() == Severity::Error).count();
    if want.error {
        if errs == 0 {
            c.fail("diagnostic", "ill-formed or runaway expansion was not diagnosed");
        }
        return;
    }
    if errs > 0 {
        c.fail("diagnostic", format!("well-formed expansion was diagnosed: {:?}", errors_text(&ctx)));
    }
    let show: Vec<(String, u32, u32, bool)> = toks
        .iter()
        .filter(|t| !t.token.is_whitespace())
        .map(|t| {
            let (s, st) = match &t.token {
                Token::String(s) => (s.clone(), true),
                Token::Ident(i, _) => (i.to_string(), false),
                Token::Int(i) => (i.to_string(), false),
                o => (o.to_string(), false),
            };
            (s, t.location.line, t.location.column as u32, st)
        })
        .collect();
    let exp: Vec<(String, u32, u32, bool)> = want.out.iter().filter(|t| t.s != "\n").map(|t| (t.s.clone(), t.line, t.col, t.str)).collect();
    c.state(&exp.iter().map(|x| (&x.0, x.3)).collect::<Vec<_>>());
    if exp.iter().map(|x| (&x.0, x.3)).ne(show.iter().map(|x| (&x.0, x.3))) {
        c.fail("expansion", format!("expected {exp:?}\n got {show:?}"));
    } else if exp != show {
        c.fail("location", format!("expected {exp:?}\n got {show:?}"));
    }
    let count = |ty: &str| ctx.errors().iter().filter(|e| e.errortype() == Some(ty)).count();
    if (count("macro_redefined"), count("macro_undefined_no_definition")) != (want.redefined, want.undefined) {
        c.fail("warnings", format!("expected {} redefinitions and {} bad undefs: {:?}", want.redefined, want.undefined, errors_text(&ctx)));
    }
    // the define history lists exactly the definitions made, each in force from its name onwards
    let hist = pp.finalize();
    let file = ctx.get_file("x.dme".as_ref()).unwrap();
    let mut got: Vec<(String, (u32, u32), Option<(u32, u32)>)> = hist
        .iter()
        .filter(|(k, _)| k.start.file == file)
        .map(|(k, (n, _))| {
            (
                n.to_string(),
                (k.start.line, k.start.column as u32),
                if k.end.file == file { Some((k.end.line, 0)) } else { None },
            )
        })
        .collect();
    got.sort();
    let mut reg: Vec<_> = want.regions.iter().map(|(n, a, b)| (n.clone(), *a, b.map(|b| (b.0, 0)))).collect();
    reg.sort();
    if got != reg {
        c.fail("define history", format!("expected {reg:?}\n got {got:?}"));
    }
    // ... so a query at any line yields the macros in force there
    let lines = src.lines().count() as u32;
    for line in 1..=lines {
        let at = Location { file, line, column: 0 };
        let mut got: Vec<String> = hist.range(interval_tree::range(at, at)).filter(|(k, _)| !k.start.is_builtins()).map(|(_, (n, _))| n.to_string()).collect();
        got.sort();
        let mut exp: Vec<String> = want.regions.iter().filter(|(_, a, b)| a.0 < line && b.is_none_or(|b| b.0 >= line)).map(|x| x.0.clone()).collect();
        exp.sort();
        if got != exp {
            c.fail("define history", format!("line {line}: expected macros {exp:?} in force, got {got:?}"));
        }
    }
}

pub fn check(r: &mut Runner) {
    r.assume("macros whose bodies mention themselves more than once per expansion are excluded (their bounded expansion is exponential); so are # or ## in object-like bodies and directives inside macro arguments");
    let atoms: &[&str] = &["x", "y", "A", "1", "+", "(", ")", ",", "##", "#x", "#q", "F", "G(x)", "ab", "__LINE__"];
    let a_bodies = ["", "7", "F", "p q", "G", "(x)", "A"];
    let uses: &[&str] = &[
        "F(u,v)", "F(,)", "F((a,b),c d)", "F(A,A)", "F(F(1,2),3)", "A(5,6)", "F", "F A", "F + A", "F(u)", "F(u,v,w)", "F(5,x)", "\nF(\nu,v) w", "G(F)(1,2)", "F(G,1)(9)", "z A A", "F(u,v", "[F(a,)]",
    ];
    let blen = r.pick(3, 4);
    let nb = count_upto(atoms.len(), blen);
    r.suite("bodies", "every body of up to N atoms (parameters, other macros, parentheses, commas, paste, stringify, __LINE__) for a two-parameter macro, every catalogue body of a second macro, every catalogue use", nb * (a_bodies.len() * uses.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let a = d.pick(&a_bodies);
        let u = d.pick(uses);
        let body: Vec<&str> = word(atoms.len(), d.0).into_iter().map(|k| atoms[k]).collect();
        let src = format!("#define G(z) z z\n#define F(x, y) {}\n#define A {a}\n{u} end\n", body.join(" "));
        compare(&src, c);
    });
    let sets: &[&str] = &[
        "#define A 1\n#define F(x) [x]\n#define V(x, y...) x{y}\n",
        "#define A F\n#define F(x) x A\n#define V(...) [__VA_ARGS__]\n",
        "#define A (\n#define F(x) x)\n#define V(a...) #a\n",
        "#define A F(\n#define F(x) V(x)\n#define V(a, b, c...) c b a\n",
        "#define A V\n#define F(x, y) x##y\n#define V(x) F(x, A)\n",
        "#define A B\n#define B A\n#define F(x) F\n#define V(x) x(x)\n",
        "#define A (x) x\n#define F (x)\n#define V(F) F\n",
    ];
    let ua = ["A", "F", "V", "(", ")", ",", "q", "1", "\n"];
    let ul = r.pick(5, 6);
    r.suite("uses", "every use of up to N atoms under each of seven macro sets (variadic, mutually recursive, partial calls, names shadowed by parameters)", count_upto(ua.len(), ul) * sets.len() as u64, |i, c| {
        let s = sets[i as usize % sets.len()];
        let u: Vec<&str> = word(ua.len(), i / sets.len() as u64).into_iter().map(|k| ua[k]).collect();
        compare(&format!("{s}{}\n", u.join(" ")), c);
    });
    let lines = ["#define A 1", "#define A 2", "#define A(x) <x>", "#undef A", "use A", "use A(3)", "#define B A", "use B(4)", "#undef B"];
    let ll = r.pick(5, 6);
    r.suite("histories", "every sequence of up to N define/redefine/undef/use lines of two macros; an undef restores the previous definition; the define history is queried at every line", count_upto(lines.len(), ll), |i, c| {
        let u: Vec<&str> = word(lines.len(), i).into_iter().map(|k| lines[k]).collect();
        compare(&format!("{}\n", u.join("\n")), c);
    });
    let params = ["x", "x, y", "x, y, z", "...", "x...", "x, ...", "x, y..."];
    let arg = ["", "a", "1", "(b,c)", "A", "a b"];
    r.suite("arguments", "every parameter list x every argument list of up to 4 arguments x every body shape", (params.len() * 3) as u64 * count_upto(arg.len(), 4), |i, c| {
        let mut d = Digits(i);
        let p = d.pick(&params);
        let shape = d.take(3);
        let args: Vec<&str> = word(arg.len(), d.0).into_iter().map(|k| arg[k]).collect();
        let names: Vec<String> = p.split(", ").map(|n| if n == "..." { "__VA_ARGS__".into() } else { n.trim_end_matches("...").to_owned() }).collect();
        let body = match shape {
            0 => names.iter().map(|n| format!("<{n}>")).collect::<String>(),
            1 => names.iter().map(|n| format!("#{n} ")).collect::<String>(),
            _ => names.iter().map(|n| format!("p##{n} ")).collect::<String>(),
        };
        compare(&format!("#define A 7\n#define M({p}) {body}\nM({}) end\n", args.join(",")), c);
    });
}
