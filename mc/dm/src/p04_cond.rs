//! Conditional compilation: every sequence of directive lines vs. a line-based reference model.
use crate::util::*;
use dm::lexer::Token;
use dm::preprocessor::Preprocessor;
use dm::{Context, Location, Severity};
use mc_common::*;
use std::collections::BTreeMap;

const LINES: &[&str] = &[
    "CONTENT", "#endif", "#else", "#ifdef A", "#ifndef A", "#define A", "#undef A", "#if 1", "#if 0", "#elif 1", "#elif 0",
    "#if defined(A)", "#elif !defined(A)", "#define B", "#ifdef B",
];

#[derive(Debug, Default, PartialEq, Eq, Hash)]
struct Out {
    shown: Vec<usize>,
    unmatched: usize,
    unterminated: usize,
    redefined: usize,
    undefined: usize,
}

struct Frame {
    /// some branch of this chain was already selected
    taken: bool,
    /// this branch is selected
    on: bool,
}

/// One conditional chain selects at most one branch: the first whose condition holds, or `#else`.
fn model(lines: &[usize], table: &[&str]) -> (Out, BTreeMap<&'static str, usize>) {
    let mut o = Out::default();
    let mut defs: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut st: Vec<Frame> = vec![];
    let name = |n: &str| if n == "A" { "A" } else { "B" };
    for (k, &l) in lines.iter().enumerate() {
        let live = st.iter().all(|f| f.on);
        let t = table[l];
        let has = |d: &BTreeMap<&'static str, usize>, n: &str| d.get(n).copied().unwrap_or(0) > 0;
        let cond = |d: &BTreeMap<&'static str, usize>, e: &str| match e {
            "1" => true,
            "0" => false,
            "defined(A)" => has(d, "A"),
            "!defined(A)" => !has(d, "A"),
            _ => unreachable!("{e}"),
        };
        if t == "CONTENT" {
            if live {
                o.shown.push(k);
            }
        } else if let Some(n) = t.strip_prefix("#ifdef ") {
            let on = has(&defs, n);
            st.push(Frame { taken: on, on });
        } else if let Some(n) = t.strip_prefix("#ifndef ") {
            let on = !has(&defs, n);
            st.push(Frame { taken: on, on });
        } else if let Some(e) = t.strip_prefix("#if ") {
            let on = cond(&defs, e);
            st.push(Frame { taken: on, on });
        } else if let Some(e) = t.strip_prefix("#elif ") {
            match st.last_mut() {
                None => o.unmatched += 1,
                Some(f) => {
                    f.on = !f.taken && cond(&defs, e);
                    f.taken |= f.on;
                },
            }
        } else if t == "#else" {
            match st.last_mut() {
                None => o.unmatched += 1,
                Some(f) => {
                    f.on = !f.taken;
                    f.taken = true;
                },
            }
        } else if t == "#endif" {
            if st.pop().is_none() {
                o.unmatched += 1;
            }
        } else if let Some(n) = t.strip_prefix("#define ") {
            if live {
                let e = defs.entry(name(n)).or_default();
                if *e > 0 {
                    o.redefined += 1;
                }
                *e += 1;
            }
        } else if let Some(n) = t.strip_prefix("#undef ") {
            if live {
                let e = defs.entry(name(n)).or_default();
                if *e == 0 {
                    o.undefined += 1;
                } else {
                    *e -= 1;
                }
            }
        }
    }
    o.unterminated = st.len();
    (o, defs)
}

fn source(lines: &[usize], table: &[&str]) -> String {
    let mut s = String::new();
    for (k, &l) in lines.iter().enumerate() {
        if table[l] == "CONTENT" {
            s.push_str(&format!("c{k}\n"));
        } else {
            s.push_str(table[l]);
            s.push('\n');
        }
    }
    s
}

fn compare(lines: &[usize], table: &[&str], c: &mut Case) {
    let mut src = source(lines, table);
    let (want, defs) = model(lines, table);
    // close what is open, then ask which macros survived
    c.input(|| src.clone());
    c.trans(lines.len() as u64);
    c.validated(1);
    c.state(&(&want, &defs));
    let probe = "#ifdef A\nhasA\n#endif\n#ifdef B\nhasB\n#endif\n";
    let closes = want.unterminated;
    for _ in 0..closes {
        src.push_str("#endif\n");
    }
    src.push_str(probe);
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "x.dme".into(), &src[..]);
    let toks: Vec<_> = pp.by_ref().collect();
    let mut shown = vec![];
    let mut probes = vec![];
    let mut locs = vec![];
    for t in &toks {
        match &t.token {
            Token::Ident(i, _) if i.starts_with("has") => probes.push(i.to_string()),
            Token::Ident(i, _) if i.starts_with('c') => {
                shown.push(i[1..].parse::<usize>().unwrap_or(usize::MAX));
                locs.push(t.location);
            },
            Token::Punct(dm::lexer::Punctuation::Newline) => {},
            // the rest of an unmatched (and diagnosed) #elif line is unspecified
            _ if want.unmatched > 0 && lines.get(t.location.line as usize - 1).is_some_and(|&l| table[l].starts_with("#elif")) => {},
            other => c.fail("stray token", format!("stray token {other:?}")),
        }
    }
    if shown != want.shown {
        c.fail("selection", format!("expected content lines {:?}, got {:?}", want.shown, shown));
    }
    for (l, k) in locs.iter().zip(&shown) {
        if l.line as usize != k + 1 || l.column != 1 {
            c.fail("location", format!("content of line {} located at {}:{}", k + 1, l.line, l.column));
        }
    }
    let want_probe: Vec<String> = ["A", "B"].iter().filter(|n| defs.get(*n).copied().unwrap_or(0) > 0).map(|n| format!("has{n}")).collect();
    if probes != want_probe {
        c.fail("macros", format!("expected surviving macros {want_probe:?}, got {probes:?}"));
    }
    let errs = errors_text(&ctx);
    let count = |ty: Option<&str>, sev: Severity| ctx.errors().iter().filter(|e| e.errortype() == ty && e.severity() == sev).count();
    let got = (count(None, Severity::Error), count(Some("macro_redefined"), Severity::Warning), count(Some("macro_undefined_no_definition"), Severity::Warning));
    if got != (want.unmatched, want.redefined, want.undefined) {
        c.fail("diagnostics", format!("expected (unmatched, redefined, undefined-while-undefined) {:?}, got {got:?}: {errs:?}", (want.unmatched, want.redefined, want.undefined)));
    }
    // the recorded region history tells, for every line, whether it was compiled
    let hist = pp.ifdef_history();
    for (k, &l) in lines.iter().enumerate() {
        if table[l] == "CONTENT" {
            let at = Location { file: ctx.get_file("x.dme".as_ref()).unwrap(), line: k as u32 + 1, column: 1 };
            let on = hist.range(interval_tree::range(at, at)).all(|(_, &a)| a);
            if on != want.shown.contains(&k) {
                c.fail("history", format!("region history says line {} is {}", k + 1, if on { "compiled" } else { "skipped" }));
            }
        }
    }
    // unterminated chains are reported
    if closes > 0 {
        let src = source(lines, table);
        let ctx = Context::default();
        let n = Preprocessor::from_buffer(&ctx, "x.dme".into(), &src[..]).count();
        c.trans(n as u64);
        let got = ctx.errors().iter().filter(|e| e.severity() == Severity::Error).count();
        if got != want.unmatched + closes {
            c.fail("unterminated", format!("expected {} errors, got {:?}", want.unmatched + closes, errors_text(&ctx)));
        }
    }
}

// ---- conditions ------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum E {
    Num(f32),
    Mac(&'static str, f32),
    Def(&'static str, bool),
    Not(Box<E>),
    Neg(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
}

fn val(e: &E) -> f32 {
    let b = |x: bool| if x { 1.0 } else { 0.0 };
    match e {
        E::Num(n) | E::Mac(_, n) => *n,
        E::Def(_, d) => b(*d),
        E::Not(x) => b(val(x) == 0.0),
        E::Neg(x) => -val(x),
        E::Bin(op, l, r) => {
            let l = val(l);
            let r = || val(r);
            match *op {
                "&&" => if l == 0.0 { l } else { r() },
                "||" => if l != 0.0 { l } else { r() },
                "==" => b(l == r()),
                "!=" => b(l != r()),
                "<" => b(l < r()),
                ">" => b(l > r()),
                "<=" => b(l <= r()),
                ">=" => b(l >= r()),
                "+" => l + r(),
                "-" => l - r(),
                "*" => l * r(),
                "&" => ((l as i32) & (r() as i32)) as f32,
                "|" => ((l as i32) | (r() as i32)) as f32,
                _ => unreachable!(),
            }
        },
    }
}

fn text(e: &E) -> String {
    match e {
        E::Num(n) => format!("{n}"),
        E::Mac(n, _) => n.to_string(),
        E::Def(n, _) => format!("defined({n})"),
        E::Not(x) => format!("!({})", text(x)),
        E::Neg(x) => format!("-({})", text(x)),
        E::Bin(op, l, r) => format!("({}) {op} ({})", text(l), text(r)),
    }
}

fn exprs() -> Vec<E> {
    let atoms = vec![
        E::Num(0.0), E::Num(1.0), E::Num(2.0), E::Mac("TWO", 2.0), E::Mac("ZERO", 0.0), E::Mac("SUM", 3.0),
        E::Def("TWO", true), E::Def("NOPE", false),
    ];
    let ops = ["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "&", "|"];
    let mut d1 = atoms.clone();
    for a in &atoms {
        d1.push(E::Not(Box::new(a.clone())));
        d1.push(E::Neg(Box::new(a.clone())));
        for b in &atoms {
            for op in ops {
                d1.push(E::Bin(op, Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    d1
}

const TEXTS: &[&str] = &["plain words", "[", "use [x] now", "a]b", "it's \"quoted", "a { b } ( c", "#else", "1 // 2 /* 3", "@"];

/// `#warn` and `#error` say their line's text, as written, exactly where it is in force.
fn messages(lines: &[usize], table: &[&str], newline: bool, c: &mut Case) {
    let plain: Vec<&str> = lines.iter().map(|&l| if table[l].starts_with("#warn") || table[l].starts_with("#error") { "CONTENT2" } else { table[l] }).collect();
    let idx: Vec<usize> = (0..lines.len()).collect();
    let (want, _) = model(&idx, &plain.iter().map(|l| if *l == "CONTENT2" { "CONTENT" } else { *l }).collect::<Vec<_>>());
    let mut src = source(lines, table);
    if !newline {
        src.pop();
    }
    c.input(|| src.clone());
    c.trans(lines.len() as u64);
    c.validated(1);
    c.state(&want);
    let (mut exp, mut shown) = (vec![], vec![]);
    for &k in &want.shown {
        if plain[k] == "CONTENT2" {
            exp.push((table[lines[k]].to_owned(), k as u32 + 1, if table[lines[k]].starts_with("#warn") { Severity::Warning } else { Severity::Error }));
        } else {
            shown.push(format!("c{k}"));
        }
    }
    let ctx = Context::default();
    let toks: Vec<_> = Preprocessor::from_buffer(&ctx, "x.dme".into(), &src[..]).collect();
    let got_shown: Vec<String> = toks.iter().filter_map(|t| if let Token::Ident(i, _) = &t.token { Some(i.to_string()) } else { None }).collect();
    c.check_eq("lines shown", &shown, &got_shown);
    let (mut got, mut rest) = (vec![], 0);
    for e in ctx.errors().iter() {
        if e.description().starts_with("#warn") || e.description().starts_with("#error") {
            got.push((e.description().to_owned(), e.location().line, e.severity()));
        } else {
            rest += 1;
        }
    }
    got.sort_by_key(|g| g.1);
    c.check_eq("messages", &exp, &got);
    if rest != want.unmatched + want.unterminated {
        c.fail("other messages", format!("expected {} unmatched and {} unterminated: {}", want.unmatched, want.unterminated, ctx.errors().iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; ")));
    }
}

pub fn check(r: &mut Runner) {
    let table: Vec<String> = ["CONTENT", "#if 0", "#else", "#endif"].iter().map(|s| s.to_string())
        .chain(TEXTS.iter().enumerate().map(|(k, t)| format!("#{} {t}", if k % 2 == 0 { "warn" } else { "error" })))
        .chain(["#error [".to_owned(), "#warn a]b".to_owned()]).collect();
    let tab: Vec<&str> = table.iter().map(|s| &s[..]).collect();
    let mmax = r.pick(4, 5);
    r.suite("messages", "every sequence of up to N lines over content, if 0/else/endif and #warn/#error with every text of a catalogue (brackets, quotes, braces, comment openers), with and without a final newline: each message in force is reported with its text and line, no other", 2 * count_upto(tab.len(), mmax), |i, c| {
        let l = word(tab.len(), i / 2);
        if l.is_empty() {
            return;
        }
        messages(&l, &tab, i % 2 == 0, c);
    });
    r.assume("conditions are evaluable expressions over macros, numbers and defined(); undefined macros in a bare #if are out of scope");
    let all = LINES;
    let max = r.pick(5, 6);
    r.suite("all directives", "every sequence of up to N lines over content, if/ifdef/ifndef/elif/else/endif, define/undef of two macros", count_upto(all.len(), max), |i, c| {
        compare(&word(all.len(), i), all, c);
    });
    let core = &LINES[..7];
    let cmax = r.pick(7, 8);
    r.suite("core directives", "deeper: every sequence over content, endif, else, ifdef, ifndef, define, undef of one macro", count_upto(core.len(), cmax), |i, c| {
        compare(&word(core.len(), i), core, c);
    });
    let chain: &[&str] = &["CONTENT", "#endif", "#else", "#if 1", "#if 0", "#elif 1", "#elif 0"];
    let hmax = r.pick(7, 8);
    r.suite("chains", "deeper: every sequence over content and if/elif/else/endif with constant conditions", count_upto(chain.len(), hmax), |i, c| {
        compare(&word(chain.len(), i), chain, c);
    });
    let es = exprs();
    let tops = ["&&", "||", "==", "<", "+", "!"];
    let small: Vec<&E> = es.iter().filter(|e| r.thorough() || !matches!(e, E::Bin(op, _, _) if ["<=", ">", "-", "|", "*"].contains(op))).collect();
    r.suite("conditions", "every condition of depth 1 and every pairing of depth-1 conditions under a connective: the branch taken is the one its value selects", (small.len() * small.len() * tops.len()) as u64 + es.len() as u64, |i, c| {
        let e = if (i as usize) < es.len() {
            es[i as usize].clone()
        } else {
            let mut d = Digits(i - es.len() as u64);
            let a = (*d.pick(&small)).clone();
            let b = (*d.pick(&small)).clone();
            match *d.pick(&tops) {
                "!" => E::Not(Box::new(E::Bin("||", Box::new(a), Box::new(b)))),
                op => E::Bin(op, Box::new(a), Box::new(b)),
            }
        };
        let src = format!("#define TWO 2\n#define ZERO 0\n#define SUM (TWO + 1)\n#if {}\nyes\n#else\nno\n#endif\n", text(&e));
        c.input(|| src.clone());
        let ctx = Context::default();
        let toks: Vec<_> = Preprocessor::from_buffer(&ctx, "x.dme".into(), &src[..]).collect();
        let got: Vec<String> = toks.iter().filter(|t| matches!(t.token, Token::Ident(..))).map(|t| t.token.to_string()).collect();
        let want = if val(&e) != 0.0 { "yes" } else { "no" };
        c.trans(1);
        c.validated(1);
        c.state(&val(&e).to_bits());
        c.outcome(want);
        if got != [want] {
            c.fail("condition", format!("value {} selects {want}, got {got:?} {:?}", val(&e), errors_text(&ctx)));
        }
        if !ctx.errors().is_empty() {
            c.fail("condition diagnostics", format!("{:?}", errors_text(&ctx)));
        }
    });
}
