//! Expression parsing vs. a reference that splits at the loosest operator.
use crate::astfmt;
use crate::util::*;
use dm::lexer::Lexer;
use dm::{Context, Location};
use mc_common::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gap {
    Bin(&'static str, u8),
    Assign(&'static str),
    In,
    Q,
    C,
}
use Gap::*;

/// Operator families, tightest first.
pub const LEVELS: [&[&str]; 11] = [
    &["**"],
    &["*", "/", "%", "%%"],
    &["+", "-"],
    &["<", ">", "<=", ">=", "<=>"],
    &["<<", ">>"],
    &["==", "!=", "<>", "~=", "~!"],
    &["&"],
    &["^"],
    &["|"],
    &["&&"],
    &["||"],
];
pub const ASSIGN: [&str; 15] = ["=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||="];

pub fn all_gaps() -> Vec<Gap> {
    let mut v = vec![];
    for (l, ops) in LEVELS.iter().enumerate() {
        v.extend(ops.iter().map(|o| Bin(o, l as u8)));
    }
    v.extend(ASSIGN.iter().map(|o| Assign(o)));
    v.push(In);
    v
}
pub fn level_gaps() -> Vec<Gap> {
    let mut v: Vec<Gap> = LEVELS.iter().enumerate().map(|(l, o)| Bin(o[o.len() - 1], l as u8)).collect();
    v.push(Assign("+="));
    v.push(In);
    v
}
fn text(g: Gap) -> &'static str {
    match g {
        Bin(s, _) | Assign(s) => s,
        In => "in",
        Q => "?",
        C => ":",
    }
}
fn name(s: &str) -> &str {
    if s == "<>" { "!=" } else { s }
}

/// The S-expression the grammar assigns to operands separated by gaps, or None if ill-formed.
pub fn build(g: &[Gap], o: &[String]) -> Option<String> {
    if g.is_empty() {
        return Some(o[0].clone());
    }
    let mut depth = 0;
    let mut zero = vec![];
    for (i, x) in g.iter().enumerate() {
        match x {
            Q => {
                if depth == 0 {
                    zero.push(i);
                }
                depth += 1;
            },
            C => {
                depth -= 1;
                if depth < 0 {
                    return None;
                }
            },
            _ if depth == 0 => zero.push(i),
            _ => {},
        }
    }
    if depth != 0 {
        return None;
    }
    let join = |op: &str, i: usize| Some(format!("({} {} {})", name(op), build(&g[..i], &o[..=i])?, build(&g[i + 1..], &o[i + 1..])?));
    if let Some(&i) = zero.iter().rev().find(|&&i| g[i] == In) {
        return join("in", i);
    }
    if let Some(&i) = zero.iter().find(|&&i| matches!(g[i], Assign(_))) {
        return join(text(g[i]), i);
    }
    if let Some(&i) = zero.iter().find(|&&i| g[i] == Q) {
        let mut d = 0;
        let mut j = i;
        loop {
            match g[j] {
                Q => d += 1,
                C => d -= 1,
                // an unparenthesised assignment or `in` between ? and : is not in the language
                In | Assign(_) if d == 1 => return None,
                _ => {},
            }
            if d == 0 {
                break;
            }
            j += 1;
        }
        return Some(format!("(? {} {} {})", build(&g[..i], &o[..=i])?, build(&g[i + 1..j], &o[i + 1..=j])?, build(&g[j + 1..], &o[j + 1..])?));
    }
    for l in (0..LEVELS.len() as u8).rev() {
        if let Some(&i) = zero.iter().rev().find(|&&i| matches!(g[i], Bin(_, x) if x == l)) {
            return join(text(g[i]), i);
        }
    }
    unreachable!()
}

pub fn spell(g: &[Gap], o: &[&str]) -> String {
    let mut s = o[0].to_owned();
    for (i, x) in g.iter().enumerate() {
        s += " ";
        s += text(*x);
        s += " ";
        s += o[i + 1];
    }
    s
}

/// Parse `(src)` and give its S-expression, or the diagnostics.
pub fn parse(src: &str) -> Result<String, String> {
    let ctx = Context::default();
    let file = ctx.register_file("x.dm".as_ref());
    let full = format!("({src})");
    let loc = Location { file, line: 1, column: 1 };
    let lexer = Lexer::new(&ctx, file, full.as_bytes());
    let r = dm::parser::parse_expression(&ctx, loc, lexer);
    match r {
        Ok(e) if !has_errors(&ctx) => {
            if !matches!(e.as_term(), Some(dm::ast::Term::Expr(_))) {
                return Err(format!("text left over after {}", astfmt::ex(&e)));
            }
            Ok(astfmt::ex(&e))
        },
        Ok(e) => Err(format!("{} with {:?}", astfmt::ex(&e), errors_text(&ctx))),
        Err(e) => Err(format!("{}: {}", e.location().column, e.description())),
    }
}

fn expect(src: &str, want: &str, c: &mut Case) {
    c.input(|| src.to_owned());
    c.trans(1);
    c.validated(1);
    let got = parse(src);
    c.state(&want);
    if got.as_deref() != Ok(want) {
        c.fail("tree", format!("expected {want}\n got {got:?}"));
    }
}

const OPERANDS: [&str; 7] = ["a", "b", "c", "d", "e", "f", "g"];

fn chain(gaps: &[Gap], c: &mut Case) {
    let o: Vec<String> = OPERANDS[..=gaps.len()].iter().map(|s| s.to_string()).collect();
    let Some(want) = build(gaps, &o) else {
        return c.outcome(&"not in the language");
    };
    expect(&spell(gaps, &OPERANDS[..=gaps.len()]), &want, c);
    c.outcome(&want.chars().filter(|c| "()".contains(*c)).collect::<String>());
}

pub fn check(r: &mut Runner) {
    r.assume("a parenthesis-free assignment or `in` between ? and : is left out (the parser rejects it)");
    let all = all_gaps();
    let lv = level_gaps();
    let n3 = pow(all.len(), 3);
    r.suite("all operators", "every chain of three binary, assignment or in operators", n3, |i, c| {
        let mut d = Digits(i);
        let g: Vec<Gap> = (0..3).map(|_| *d.pick(&all)).collect();
        chain(&g, c);
    });
    let len = r.pick(6, 7);
    r.suite("levels", "every chain of N operators, one per precedence level", pow(lv.len(), len), |i, c| {
        let mut d = Digits(i);
        let g: Vec<Gap> = (0..len).map(|_| *d.pick(&lv)).collect();
        chain(&g, c);
    });
    let mut tg = lv.clone();
    tg.extend([Q, C]);
    let tl = r.pick(6, 7);
    r.suite("conditional", "every chain of up to N gaps holding ? and : (ill-nested ones skipped)", count_upto(tg.len(), tl), |i, c| {
        let g: Vec<Gap> = word(tg.len(), i).into_iter().map(|k| tg[k]).collect();
        if !g.contains(&Q) {
            return;
        }
        chain(&g, c);
    });
    // decorated operands: (text with @, tree with @)
    let deco: Vec<(&str, &str)> = vec![
        ("@", "@"),
        ("-@", "(neg @)"),
        ("!@", "(not @)"),
        ("~@", "(bitnot @)"),
        ("++@", "(pre++ @)"),
        ("--@", "(pre-- @)"),
        ("&@", "(ref @)"),
        ("*@", "(deref @)"),
        ("@++", "(post++ @)"),
        ("@--", "(post-- @)"),
        ("@.m", "(. @ m)"),
        ("@[1]", "([] @ 1)"),
        ("@.p(1)", "(.() @ p 1)"),
        ("!-@.m", "(not (neg (. @ m)))"),
        ("- -@[1]++", "(neg (neg (post++ ([] @ 1))))"),
        ("(@ + 1)", "(+ @ 1)"),
        ("(@ = 1)", "(= @ 1)"),
        ("(@ ? 1 : 2)", "(? @ 1 2)"),
        ("!(@ in 1)", "(not (in @ 1))"),
        ("~@?.m", "(bitnot (?. @ m))"),
    ];
    let mut g2 = lv.clone();
    g2.push(Q);
    let nd = deco.len();
    let n = pow(nd, 3) * pow(g2.len(), 2);
    r.suite("decorated", "every pair of operator levels (conditional included) over every triple of prefixed, suffixed or parenthesised operands", n, |i, c| {
        let mut d = Digits(i);
        let mut g: Vec<Gap> = vec![*d.pick(&g2)];
        let o: Vec<usize> = (0..3).map(|_| d.take(nd)).collect();
        let second = *d.pick(&g2);
        g.push(if g[0] == Q { C } else if second == Q { return } else { second });
        let t: Vec<String> = o.iter().enumerate().map(|(k, &x)| deco[x].0.replace('@', OPERANDS[k])).collect();
        let s: Vec<String> = o.iter().enumerate().map(|(k, &x)| deco[x].1.replace('@', OPERANDS[k])).collect();
        let want = build(&g, &s).unwrap();
        expect(&spell(&g, &t.iter().map(|s| &s[..]).collect::<Vec<_>>()), &want, c);
    });
    // every term with every sequence of follows and prefixes; $ is a nested expression
    let terms: Vec<(&str, &str)> = vec![
        ("x", "x"),
        ("12", "12"),
        ("1.5", "1.5f"),
        ("\"s\"", "\"s\""),
        ("'r.dmi'", "'r.dmi'"),
        ("null", "null"),
        ("($)", "#"),
        ("f()", "(f())"),
        ("f($)", "(f() #)"),
        ("f($, 2)", "(f() # 2)"),
        ("f(k = $)", "(f() (= k #))"),
        ("f(1,,$)", "(f() 1 #)"),
        ("..()", "(..())"),
        ("..($)", "(..() #)"),
        (".($)", "(.() #)"),
        (".", "."),
        ("::gv", "(:: gv)"),
        ("::gf($)", "(::gf() #)"),
        ("/obj/a", "/obj/a"),
        ("/obj/a{v = $}", "/obj/a{v=#}"),
        ("/obj/a{v = 1; w = $}", "/obj/a{v=1;w=#}"),
        ("/obj:a/b", "/obj:a/b"),
        (".a/b", ".a/b"),
        ("new", "(new)"),
        ("new()", "(new ())"),
        ("new($)", "(new ( #))"),
        ("new /obj/a", "(new /obj/a)"),
        ("new /obj/a($, 1)", "(new /obj/a ( # 1))"),
        ("new /obj{v = $}(1)", "(new /obj{v=#} ( 1))"),
        ("new x.y", "(new x.y)"),
        ("new x.y?.z($)", "(new x.y?.z ( #))"),
        ("new .($)", "(new . ( #))"),
        ("new .a/b()", "(new .a/b ())"),
        ("list()", "(list)"),
        ("list($, \"k\" = 2)", "(list # (= \"k\" 2))"),
        ("alist(1 = $)", "(list (= 1 #))"),
        ("pick($; 1, 2)", "(pick #;1 -;2)"),
        ("pick(1, 2; $)", "(pick -;1 2;#)"),
        ("locate($)", "(locate # in -)"),
        ("locate()", "(locate in -)"),
        ("input(x)", "(input x as - in -)"),
        ("input(x, $) as num|text", "(input x # as text|num in -)"),
        ("call(x, $)(1)", "(call ( x #) ( 1))"),
        ("call_ext(x, $)(1, 2)", "(call_ext x # 1 2)"),
        ("call_ext($)()", "(call_ext - #)"),
        ("\"a[$]b\"", "(interp \"a\" # \"b\")"),
        ("\"[x][$]\"", "(interp \"\" x \"\" # \"\")"),
        ("\"a[]b[$]c\"", "(interp \"a\" - \"b\" # \"c\")"),
        ("as(mob)", "(as mob)"),
        ("__PROC__", "__PROC__"),
        ("__TYPE__", "__TYPE__"),
        ("__IMPLIED_TYPE__", "__IMPLIED_TYPE__"),
    ];
    let follows: Vec<(&str, &str)> = vec![
        (".m", "(. @ m)"),
        ("?.m", "(?. @ m)"),
        (":m", "(: @ m)"),
        ("?:m", "(?: @ m)"),
        ("::m", "(:: @ m)"),
        (".p()", "(.() @ p)"),
        ("?.p($)", "(?.() @ p #)"),
        (":p($, 1)", "(:() @ p # 1)"),
        ("?:p()", "(?:() @ p)"),
        ("::p()", "(::() @ p)"),
        ("[$]", "([] @ #)"),
        ("?[$]", "(?[] @ #)"),
        ("++", "(post++ @)"),
        ("--", "(post-- @)"),
    ];
    let prefixes = [("", "@"), ("-", "(neg @)"), ("!", "(not @)"), ("~", "(bitnot @)"), ("++", "(pre++ @)"), ("--", "(pre-- @)"), ("&", "(ref @)"), ("*", "(deref @)")];
    let nested = [("7", "7"), ("a + b * c", "(+ a (* b c))"), ("a ? b : c", "(? a b c)"), ("g(h[1].i)", "(g() (. ([] h 1) i))"), ("!a.b", "(not (. a b))"), ("\"u[v]w\"", "(interp \"u\" v \"w\")")];
    let (nt, nf) = (terms.len() as u64, count_upto(follows.len(), r.pick(3, 4)));
    r.suite("terms", "every kind of term, with every sequence of up to N accesses, calls, indexings or postfix operators, every prefix operator, and every nested operand", nt * nf * 8 * 6, |i, c| {
        let mut d = Digits(i);
        let (ns, nw) = nested[d.take(6)];
        let (ps, pw) = prefixes[d.take(8)];
        let (ts, tw) = terms[d.take(nt as usize)];
        let fs = word(follows.len(), d.take(nf as usize) as u64);
        // these end in something that would swallow the follow, by the language's rules
        let open = [".", "/", "new", "::", "locate(", "input(", "12", "1.5"];
        if !fs.is_empty() && open.iter().any(|o| ts.starts_with(o)) {
            return;
        }
        let (mut s, mut w) = (ts.to_owned(), tw.to_owned());
        for f in &fs {
            let (a, b) = follows[*f as usize];
            s += a;
            w = b.replace('@', &w);
        }
        s = format!("{ps}{}", s.replace('$', ns));
        w = pw.replace('@', &w.replace('#', nw));
        expect(&s, &w, c);
    });
    let ops3: Vec<Gap> = level_gaps();
    let nlev = ops3.len() as u64;
    r.suite("parenthesised", "every binary tree of three operators of every level, fully parenthesised and minimally parenthesised at the root", 5 * nlev * nlev * nlev, |i, c| {
        let mut d = Digits(i);
        let shape = d.take(5);
        let o: Vec<Gap> = (0..3).map(|_| *d.pick(&ops3)).collect();
        let t = |k: usize, a: String, b: String| (format!("({a} {} {b})", text(o[k])), ());
        let n = |k: usize| text(o[k]);
        let (x, w) = match shape {
            0 => (t(2, t(1, t(0, "a".into(), "b".into()).0, "c".into()).0, "d".into()).0, format!("({} ({} ({} a b) c) d)", n(2), n(1), n(0))),
            1 => (t(2, t(0, "a".into(), t(1, "b".into(), "c".into()).0).0, "d".into()).0, format!("({} ({} a ({} b c)) d)", n(2), n(0), n(1))),
            2 => (t(1, t(0, "a".into(), "b".into()).0, t(2, "c".into(), "d".into()).0).0, format!("({} ({} a b) ({} c d))", n(1), n(0), n(2))),
            3 => (t(0, "a".into(), t(2, t(1, "b".into(), "c".into()).0, "d".into()).0).0, format!("({} a ({} ({} b c) d))", n(0), n(2), n(1))),
            _ => (t(0, "a".into(), t(1, "b".into(), t(2, "c".into(), "d".into()).0).0).0, format!("({} a ({} b ({} c d)))", n(0), n(1), n(2))),
        };
        expect(&x, &w, c);
    });
}
