//! Documentation comments: every comment style in every place of small programs.
use dm::Context;
use dm::docs::{DocCollection, DocComment};
use dm::indents::IndentProcessor;
use dm::parser::Parser;
use dm::preprocessor::Preprocessor;
use mc_common::*;
use std::collections::BTreeMap;

/// A line of a program: its depth, its text and the item it declares.
/// Items: `t /path`, `v /path name`, `p /path name`, `m name`.
type Line = (usize, &'static str, &'static str);

#[derive(Clone, Copy, PartialEq)]
enum Sort {
    /// Declares an item, and the line ends with it.
    Item,
    /// Declares an item which does not reach to the end of the line.
    Mixed,
    /// Opens a block of declarations without being an item itself.
    Heading,
    /// Part of a proc's body.
    Code,
    /// A preprocessor directive which declares nothing.
    Directive,
    /// Skipped by the preprocessor.
    Skipped,
}
fn sort(program: &[Line], k: usize) -> Sort {
    let (ind, text, item) = program[k];
    let mut depth = 0;
    for l in &program[..k] {
        if l.1.starts_with("#if") {
            depth = 1;
        } else if l.1.starts_with("#else") || l.1.starts_with("#endif") {
            depth = 0;
        }
    }
    if text.starts_with('#') && !text.starts_with("#define") {
        Sort::Directive
    } else if depth == 1 {
        Sort::Skipped
    } else if item.is_empty() {
        if text == "var" || text == "proc" || text.ends_with("var/static") {
            Sort::Heading
        } else {
            let _ = ind;
            Sort::Code
        }
    } else if text.ends_with(';') || text.ends_with('}') || text.contains(") return") {
        Sort::Mixed
    } else {
        Sort::Item
    }
}
fn is_directive(l: &Line) -> bool {
    l.1.starts_with('#')
}

const PROGRAMS: [&[Line]; 14] = [
    &[(0, "/ta", "t /ta"), (1, "var/x = 1", "v /ta x"), (1, "proc/p()", "p /ta p"), (2, "return 1", ""), (0, "/tb", "t /tb")],
    &[(0, "var/gx", "v  gx"), (0, "/proc/gp()", "p  gp"), (1, "return 1", ""), (0, "#define N(a) a", "m N"), (0, "/ta", "t /ta")],
    &[(0, "/ta", "t /ta"), (1, "var", ""), (2, "x = 1", "v /ta x"), (2, "y", "v /ta y"), (1, "proc", ""), (2, "p()", "p /ta p"), (3, "return 1", ""), (2, "q()", "p /ta q")],
    &[(0, "/ta", "t /ta"), (1, "tb", "t /ta/tb"), (2, "var/x", "v /ta/tb x"), (1, "tc", "t /ta/tc"), (0, "/td/te", "t /td/te")],
    &[(0, "/ta/proc/p(a)", "p /ta p"), (1, "return 1", ""), (1, "return 2", ""), (0, "/ta/tb/p(a)", "p /ta/tb p"), (1, "if(a)", ""), (2, "return 3", ""), (0, "/ta/var/x", "v /ta x")],
    &[(0, "/ta", "t /ta"), (1, "var/x", "v /ta x"), (0, "#define M 1", "m M"), (1, "var/y = M", "v /ta y"), (0, "#undef M", ""), (0, "/tb", "t /tb")],
    &[(0, "#if 0", ""), (0, "/tz", ""), (0, "#define Z 1", ""), (0, "#else", ""), (0, "/ta", "t /ta"), (0, "#endif", ""), (0, "#define M 2", "m M")],
    &[(0, "/proc/gp() return 1", "p  gp"), (0, "/ta/tb/x = 2", "v /ta/tb x"), (0, "/ta/var/x = list(\n\t1,\n\t2)", "v /ta x"), (0, "/proc/gq(a,\n\tb)", "p  gq"), (1, "return a", "")],
    &[(0, "/ta;", "t /ta"), (0, "/ta/var/x;", "v /ta x"), (0, "/proc/gp() { return 1 }", "p  gp"), (0, "/tb", "t /tb")],
    &[(0, "#define A 1", "m A"), (0, "#define B(x) x + \\\n\t1", "m B"), (0, "#define C", "m C"), (0, "/ta", "t /ta"), (1, "var/const/k = A", "v /ta k")],
    &[(0, "/ta", "t /ta"), (1, "proc/p()", "p /ta p"), (2, "var/l = 1", ""), (2, "return l", ""), (1, "verb/v()", "p /ta v"), (2, "set name = \"n\"", ""), (1, "var/z", "v /ta z")],
    &[(0, "/ta", "t /ta"), (1, "var/static", ""), (2, "x = 1", "v /ta x"), (0, "/ta/proc/p2()", "p /ta p2"), (1, "return 1", ""), (0, "/ta/p2()", "p /ta p2 1"), (1, "..()", ""), (0, "/tb", "t /tb")],
    &[(0, "/ta", "t /ta"), (1, "var/a = 1", "v /ta a"), (1, "tb", "t /ta/tb"), (2, "a = 2", "v /ta/tb a"), (2, "tc", "t /ta/tb/tc"), (3, "a = 3", "v /ta/tb/tc a"), (1, "var/b", "v /ta b")],
    &[(0, "var", ""), (1, "ga = 1", "v  ga"), (1, "list/gb", "v  gb"), (0, "proc", ""), (1, "gp()", "p  gp"), (2, "return", ""), (0, "/ta/var/obj/o = null as null|obj", "v /ta o")],
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    FLine,
    FBlock,
    FLong,
    ELine,
    EBlock,
}
use Style::*;
const STYLES: [Style; 5] = [FLine, FBlock, FLong, ELine, EBlock];
impl Style {
    fn following(self) -> bool {
        matches!(self, FLine | FBlock | FLong)
    }
    fn line(self) -> bool {
        matches!(self, FLine | ELine)
    }
    fn show(self, word: &str, ind: usize) -> String {
        match self {
            FLine => format!("/// {word}"),
            FBlock => format!("/** {word} */"),
            FLong => format!("/**\n{0} * {word}\n{0} */", "\t".repeat(ind)),
            ELine => format!("//! {word}"),
            EBlock => format!("/*! {word} */"),
        }
    }
}

/// Where a comment is: behind line k, or on a line of its own before line k.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    Behind(usize),
    Before(usize),
}
/// The places of a program with n lines in the order of the text.
fn places(n: usize) -> Vec<Place> {
    let mut out = vec![Place::Before(0)];
    for k in 0..n {
        out.push(Place::Behind(k));
        out.push(Place::Before(k + 1));
    }
    out
}

#[derive(Debug, Clone)]
enum Goes {
    /// To this item (`module` for the file, nothing for none).
    To(String),
    /// To one of these, or to none.
    Perhaps(Vec<String>),
}

fn enclosing(program: &[Line], ind: usize, k: usize) -> Vec<String> {
    // the items around depth `ind` before line k
    let mut out = Vec::new();
    let mut ind = ind;
    for l in program[..k].iter().rev() {
        if l.0 < ind && !is_directive(l) {
            ind = l.0;
            if !l.2.is_empty() {
                out.push(l.2.to_string());
                return out;
            }
        }
    }
    out.push("t ".to_string());
    out
}

fn goes(program: &[Line], place: Place, style: Style, after_following: bool) -> Goes {
    let n = program.len();
    let next = match place {
        Place::Before(k) => k,
        Place::Behind(k) => k + 1,
    };
    let skipped = |k: usize| k < n && sort(program, k) == Sort::Skipped || k < n && program[k].1.starts_with("#else");
    let hidden = match place {
        Place::Before(k) => skipped(k),
        Place::Behind(k) => skipped(k) && sort(program, k) == Sort::Skipped,
    };
    if hidden {
        return Goes::To(String::new());
    }
    if style.following() {
        if let Place::Behind(k) = place {
            if program[k].1.starts_with("#define") {
                // hinted at, and taken for the macro
                return Goes::To(program[k].2.into());
            }
            if sort(program, k) == Sort::Directive {
                let mut v = vec![];
                v.extend(program[k + 1..].iter().find(|l| !l.2.is_empty()).map(|l| l.2.to_string()));
                return Goes::Perhaps(v);
            }
        }
        if next >= n {
            return Goes::To(String::new());
        }
        return match sort(program, next) {
            Sort::Item | Sort::Mixed => Goes::To(program[next].2.into()),
            Sort::Code => Goes::To(String::new()),
            Sort::Heading => Goes::Perhaps(enclosing(program, program[next].0, next)),
            Sort::Directive | Sort::Skipped => Goes::Perhaps(program[next..].iter().find(|l| !l.2.is_empty()).map(|l| l.2.to_string()).into_iter().collect()),
        };
    }
    match place {
        Place::Behind(k) => {
            let l = program[k];
            match sort(program, k) {
                Sort::Item => {
                    if after_following && !l.1.starts_with("#define") {
                        Goes::Perhaps(vec![l.2.into()])
                    } else {
                        Goes::To(l.2.into())
                    }
                },
                Sort::Mixed => Goes::Perhaps(vec![l.2.into(), "module".into()]),
                Sort::Heading | Sort::Code => Goes::Perhaps([enclosing(program, l.0, k), vec!["module".into()]].concat()),
                Sort::Directive | Sort::Skipped => Goes::Perhaps([enclosing(program, l.0, k), vec!["module".into()]].concat()),
            }
        },
        Place::Before(k) => {
            let prev = (0..k).rev().find(|&j| !is_directive(&program[j]) && sort(program, j) != Sort::Skipped);
            let next = (k..n).find(|&j| !is_directive(&program[j]) && sort(program, j) != Sort::Skipped);
            let depth = next.map_or(0, |j| program[j].0);
            let before = prev.map_or(0, |j| program[j].0);
            let own = if k < n { program[k].0 } else { 0 };
            let firm = own == depth && !after_following;
            let (to, firm) = if depth > before {
                let p = prev.unwrap();
                if program[p].2.is_empty() {
                    return Goes::Perhaps([enclosing(program, depth, next.unwrap()), vec!["module".into()]].concat());
                }
                (program[p].2.to_string(), firm)
            } else if depth == 0 {
                ("module".to_string(), firm)
            } else {
                return Goes::Perhaps([enclosing(program, depth, next.unwrap()), vec!["module".into()]].concat());
            };
            if firm { Goes::To(to) } else { Goes::Perhaps(vec![to, "module".into()]) }
        },
    }
}

struct Comment {
    place: Place,
    style: Style,
    word: String,
}

fn write(program: &[Line], comments: &[Comment]) -> (String, Vec<u32>) {
    let mut s = String::new();
    let mut lines = vec![0; comments.len()];
    for place in places(program.len()) {
        let ind = match place {
            Place::Before(k) => {
                if k < program.len() { program[k].0 } else { 0 }
            },
            Place::Behind(k) => {
                let l = program[k];
                s += &"\t".repeat(l.0);
                s += l.1;
                l.0
            },
        };
        for (i, c) in comments.iter().enumerate().filter(|(_, c)| c.place == place) {
            match place {
                Place::Before(_) => s += &"\t".repeat(ind),
                Place::Behind(_) => s += " ",
            }
            lines[i] = s.matches('\n').count() as u32 + 1;
            s += &c.style.show(&c.word, ind);
            if let Place::Before(_) = place {
                s += "\n";
            }
        }
        if let Place::Behind(_) = place {
            s += "\n";
        }
    }
    (s, lines)
}

/// The documentation of every item and of the file, as the words in it.
fn read(text: &str, procs: bool) -> (BTreeMap<String, Vec<String>>, String) {
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "x.dm".into(), text.to_string());
    let (tree, modules) = {
        let indents = IndentProcessor::new(&ctx, &mut pp);
        let mut parser = Parser::new(&ctx, indents);
        if procs {
            parser.enable_procs();
        }
        parser.parse_with_module_docs()
    };
    let mut out = BTreeMap::new();
    let mut put = |key: String, docs: &DocCollection| {
        let words: Vec<String> = docs.text().split_whitespace().map(|w| w.to_string()).collect();
        if words.is_empty() != docs.is_empty() {
            out.insert(format!("{key} (empty?)"), vec![]);
        }
        if !words.is_empty() {
            out.insert(key, words);
        }
    };
    let mut shape = String::new();
    for ty in tree.iter_types() {
        if !ty.location.is_builtins() {
            shape += &format!("{} ", ty.path);
        }
        for (name, v) in ty.vars.iter().filter(|v| !v.1.value.location.is_builtins()) {
            shape += &format!("{}:{name} {:?} {:?} ", ty.path, v.declaration.as_ref().map(|d| &d.var_type), v.value.constant);
        }
        for (name, p) in ty.procs.iter().filter(|p| !p.1.main_value().location.is_builtins()) {
            shape += &format!("{}:{name} ", ty.path);
            for v in &p.value {
                shape += &format!("{:?} ", v.code.as_ref().map(|b| crate::astfmt::block(b)));
            }
        }
        put(format!("t {}", ty.path), &ty.docs);
        for (name, v) in ty.vars.iter() {
            put(format!("v {} {name}", ty.path), &v.value.docs);
        }
        for (name, p) in ty.procs.iter() {
            for (i, v) in p.value.iter().enumerate() {
                put(if i == 0 { format!("p {} {name}", ty.path) } else { format!("p {} {name} {i}", ty.path) }, &v.docs);
            }
        }
    }
    let defines = pp.finalize();
    for (_, (name, define)) in defines.iter() {
        put(format!("m {name}"), define.docs());
    }
    for e in ctx.errors().iter().filter(|e| e.severity() == dm::Severity::Error) {
        shape += &format!("{} ", e.description());
    }
    for (_, list) in modules {
        let words = list.iter().map(|(line, doc)| format!("{line}:{}", text_of(doc).trim())).collect::<Vec<_>>();
        out.insert("module".into(), words);
    }
    (out, shape)
}
fn text_of(doc: &DocComment) -> String {
    let mut c = DocCollection::default();
    c.push(doc.clone());
    c.text()
}

fn judge(c: &mut Case, program: &[Line], base: &str, comments: &[Comment]) {
    // a comment to the end of the line ends what can be behind it
    for (i, x) in comments.iter().enumerate() {
        for y in &comments[..i] {
            if let (Place::Behind(a), Place::Behind(b)) = (x.place, y.place) {
                if a == b && y.style.line() {
                    return;
                }
            }
        }
        if let Place::Before(k) = x.place {
            // the indentation of a comment counts as that of code does
            let own = if k < program.len() { program[k].0 } else { 0 };
            let next = (k..program.len()).find(|&j| !is_directive(&program[j]) && sort(program, j) != Sort::Skipped);
            if own != next.map_or(0, |j| program[j].0) {
                return;
            }
        }
        if let Place::Behind(k) = x.place {
            // nothing but whitespace can follow on the line of a directive like these
            if sort(program, k) == Sort::Directive && (x.style == FLong || program[k].1 != "#endif") {
                return;
            }
            if program[k].1.starts_with("#define") && x.style == FLong {
                return;
            }
        }
    }
    let (text, lines) = write(program, comments);
    c.input(|| text.clone());
    let (got, shape) = read(&text, true);
    c.check_eq("the program", &base.to_string(), &shape);
    c.ensure(got == read(&text, false).0, "reading procs makes a difference");
    let mut seen: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for (key, words) in &got {
        seen.insert(key, words.iter().map(|w| w.as_str()).collect());
    }
    let mut want: BTreeMap<String, Vec<(String, bool)>> = BTreeMap::new();
    for (i, x) in comments.iter().enumerate() {
        let after = comments[..i].iter().rev().take_while(|y| places_touch(program, y.place, x.place)).any(|y| y.style.following());
        let before = comments[i + 1..].iter().take_while(|y| places_touch(program, x.place, y.place)).any(|y| !y.style.following());
        let g = match goes(program, x.place, x.style, after) {
            // whether a comment on the enclosing item comes between a comment and its item
            Goes::To(item) if x.style.following() && before => Goes::Perhaps(vec![item]),
            other => other,
        };
        let line = lines[i];
        let word = |item: &str| if item == "module" { format!("{line}:{}", x.word) } else { x.word.clone() };
        match g {
            Goes::To(item) if item.is_empty() => {},
            Goes::To(item) => want.entry(item.clone()).or_default().push((word(&item), true)),
            Goes::Perhaps(list) => {
                let mut list = list;
                list.dedup();
                for item in list {
                    want.entry(item.clone()).or_default().push((word(&item), false));
                }
            },
        }
    }
    for (key, words) in &seen {
        let allowed = want.get(*key).cloned().unwrap_or_default();
        let mut at = 0;
        for w in words {
            match allowed[at..].iter().position(|(a, _)| a == w) {
                Some(p) => {
                    if let Some(lost) = allowed[at..at + p].iter().find(|a| a.1) {
                        c.fail("lost", format!("{key}: {words:?} lacks {:?} before {w}", lost.0));
                        return;
                    }
                    at += p + 1;
                },
                None => {
                    c.fail("stray", format!("{key} is documented by {words:?}, which may be {allowed:?}"));
                    return;
                },
            }
        }
        if let Some(lost) = allowed[at..].iter().find(|a| a.1) {
            c.fail("lost", format!("{key}: {words:?} lacks {:?}", lost.0));
            return;
        }
    }
    for (key, allowed) in &want {
        if !seen.contains_key(key.as_str()) {
            if let Some(lost) = allowed.iter().find(|a| a.1) {
                c.fail("lost", format!("{key} is not documented by {:?}; there is {seen:?}", lost.0));
                return;
            }
        }
    }
    c.outcome(&got);
}
/// Whether nothing but comments is between two places.
fn places_touch(program: &[Line], a: Place, b: Place) -> bool {
    let all = places(program.len());
    let i = all.iter().position(|p| *p == a).unwrap();
    let j = all.iter().position(|p| *p == b).unwrap();
    i == j
        || all[i..=j].iter().skip(1).all(|p| match *p {
            Place::Before(_) => true,
            Place::Behind(k) => matches!(sort(program, k), Sort::Directive | Sort::Skipped),
        })
}

pub fn check(r: &mut Runner) {
    let depth = r.pick(2, 3);
    for n in 1..=depth {
        for (pi, program) in PROGRAMS.iter().enumerate() {
            let slots = places(program.len());
            let s = slots.len();
            let base = read(&write(program, &[]).0, true).1;
            // places in the order of the text, so only those which do not decrease
            let total = pow(s, n) * pow(STYLES.len(), n);
            r.suite(&format!("placement {pi} x{n}"), "a comment documents the item it is meant for, and no other", total, |i, c| {
                let mut d = Digits(i);
                let at: Vec<usize> = (0..n).map(|_| d.take(s)).collect();
                let styles: Vec<Style> = (0..n).map(|_| STYLES[d.take(STYLES.len())]).collect();
                if at.windows(2).any(|w| w[0] > w[1]) {
                    return;
                }
                let comments: Vec<Comment> = (0..n as usize).map(|k| Comment { place: slots[at[k]], style: styles[k], word: format!("w{k}") }).collect();
                judge(c, program, &base, &comments);
            });
        }
    }
    contents(r);
}

/// Lines without what all of them begin and end with, as far as it is decoration.
fn strip(lines: &[String], decoration: char) -> Vec<String> {
    let deco = |c: char| c == decoration || c.is_whitespace();
    let full: Vec<&String> = lines.iter().filter(|l| !l.chars().all(deco)).collect();
    let Some(first) = full.first() else { return vec![] };
    let first: Vec<char> = first.chars().collect();
    let lead = (0..first.len()).take_while(|&k| deco(first[k]) && full.iter().all(|l| l.chars().nth(k) == Some(first[k]))).count();
    let back = |l: &str, k: usize| l.chars().rev().nth(k);
    let trail = (0..first.len()).take_while(|&k| back(full[0], k).is_some_and(deco) && full.iter().all(|l| back(l, k) == back(full[0], k))).count();
    let from = lines.iter().position(|l| !l.chars().all(deco)).unwrap();
    let to = lines.iter().rposition(|l| !l.chars().all(deco)).unwrap();
    lines[from..=to]
        .iter()
        .map(|l| {
            let l: Vec<char> = l.chars().collect();
            if l.iter().all(|&c| deco(c)) { String::new() } else { l[lead..l.len() - trail].iter().collect() }
        })
        .collect()
}
/// Markdown does not tell one blank line from several.
fn squeeze(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in text.lines() {
        if !l.trim().is_empty() {
            out.push(l.to_string());
        } else if out.last().is_some_and(|l| !l.is_empty()) {
            out.push(String::new());
        }
    }
    while out.last().is_some_and(|l| l.is_empty()) {
        out.pop();
    }
    out
}
fn docs_of(text: &str) -> (Vec<String>, bool, Vec<String>) {
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "x.dm".into(), text.to_string());
    let tree = {
        let indents = IndentProcessor::new(&ctx, &mut pp);
        Parser::new(&ctx, indents).parse_object_tree()
    };
    let errors = ctx.errors().iter().map(|e| e.to_string()).collect();
    match tree.find("/ta") {
        Some(ty) => (squeeze(&ty.docs.text()), ty.docs.is_empty(), errors),
        None => (vec!["no type".into()], true, errors),
    }
}
const PIECES: [&str; 9] = ["a", " ", "*", "\n", "\t", "/", "!", "\r\n", "\u{e9}"];
const TEXTS: [&str; 12] = ["", " a", "  b", "c", "/ d", " e /", "\tf", " ", " * g", " h  ", "\u{e9}\u{4e00}", " i\r"];

fn contents(r: &mut Runner) {
    for enclosing in [false, true] {
        let k = PIECES.len();
        let depth = r.pick(5, 6);
        r.suite(if enclosing { "block text, enclosing" } else { "block text" }, "the text of a block comment is kept, without its frame", count_upto(k, depth), |i, c| {
            let body: String = word(k, i).into_iter().map(|p| PIECES[p]).collect();
            let all = format!("{body}*/");
            // no nested comments, and none which ends early
            if body.contains("/*") || body.contains("*/") || all.find("*/") != Some(body.len()) || body.starts_with('/') || body.is_empty() || body.ends_with('/') {
                return;
            }
            let text = if enclosing { format!("/ta\n\t/*!{body}*/\n\tvar/x\n") } else { format!("/**{body}*/\n/ta\n") };
            c.input(|| format!("{text:?}"));
            let lines: Vec<String> = body.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).to_string()).collect();
            let want = strip(&lines, '*');
            let (got, empty, errors) = docs_of(&text);
            c.check_eq("the text", &squeeze(&want.join("\n")), &got);
            c.check_eq("being empty", &want.is_empty(), &empty);
            c.check_eq("errors", &Vec::<String>::new(), &errors);
            c.outcome(&got);
        });
    }
    // runs of line comments and block comments
    let k = TEXTS.len() * 2;
    let depth = r.pick(4, 5);
    r.suite("several comments", "block comments and runs of line comments are paragraphs", count_upto(k, depth), |i, c| {
        let parts = word(k, i);
        let mut text = String::new();
        let mut paragraphs: Vec<Vec<String>> = vec![];
        let mut run: Vec<String> = vec![];
        for p in &parts {
            let (t, block) = (TEXTS[p % TEXTS.len()], p / TEXTS.len() == 1);
            if block {
                if t.starts_with('/') || t.ends_with('/') || t.is_empty() || t.ends_with('\r') {
                    return;
                }
                text += &format!("/**{t}*/\n");
                paragraphs.push(strip(&std::mem::take(&mut run), '/'));
                paragraphs.push(strip(&[t.to_string()], '*'));
            } else {
                text += &format!("///{t}\n");
                run.push(t.trim_end_matches('\r').to_string());
            }
        }
        paragraphs.push(strip(&run, '/'));
        text += "/ta\n";
        c.input(|| format!("{text:?}"));
        let want = squeeze(&paragraphs.iter().map(|p| p.join("\n")).collect::<Vec<_>>().join("\n\n"));
        let (got, empty, errors) = docs_of(&text);
        c.check_eq("the text", &want, &got);
        c.check_eq("being empty", &want.is_empty(), &empty);
        c.check_eq("errors", &Vec::<String>::new(), &errors);
        c.outcome(&got);
    });
}
