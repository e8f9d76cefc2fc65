//! Block structure: layouts of every small forest, and every small sequence of raw lines.
use crate::util::*;
use dm::indents::IndentProcessor;
use dm::lexer::{Lexer, LocatedToken, Punctuation, Token};
use dm::{Context, FileId};
use mc_common::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Node {
    words: Vec<String>,
    kids: Vec<Node>,
}

/// All ordered forests with exactly `n` nodes (words left empty).
fn forests(n: usize) -> Vec<Vec<Node>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 0..n {
        // first tree has k nodes below its root
        for kids in forests(k) {
            for rest in forests(n - 1 - k) {
                let mut f = vec![Node { words: vec![], kids: kids.clone() }];
                f.extend(rest);
                out.push(f);
            }
        }
    }
    out
}

fn label(f: &mut Vec<Node>, next: &mut usize) {
    for n in f {
        n.words = vec![format!("n{next}")];
        *next += 1;
        label(&mut n.kids, next);
    }
}

/// Structure of a processed token stream: `;`-separated items, each with an optional block.
fn build(toks: &[LocatedToken]) -> Result<Vec<Node>, String> {
    fn list(t: &[LocatedToken], i: &mut usize, top: bool) -> Result<Vec<Node>, String> {
        let mut out: Vec<Node> = vec![];
        let mut cur: Option<Node> = None;
        loop {
            match t.get(*i).map(|t| &t.token) {
                None if top => {
                    out.extend(cur);
                    return Ok(out);
                },
                None => return Err("block never closed".into()),
                Some(Token::Punct(Punctuation::Semicolon)) => {
                    out.extend(cur.take());
                    *i += 1;
                },
                Some(Token::Punct(Punctuation::LBrace)) => {
                    *i += 1;
                    let mut n = cur.take().unwrap_or_default();
                    n.kids = list(t, i, false)?;
                    out.push(n);
                },
                Some(Token::Punct(Punctuation::RBrace)) => {
                    if top {
                        return Err("closing brace without a block".into());
                    }
                    *i += 1;
                    out.extend(cur);
                    return Ok(out);
                },
                Some(Token::Punct(p @ (Punctuation::Newline | Punctuation::Tab | Punctuation::Space))) => {
                    return Err(format!("layout token {p:?} survives"));
                },
                Some(t) => {
                    cur.get_or_insert_with(Node::default).words.push(t.to_string());
                    *i += 1;
                },
            }
        }
    }
    list(toks, &mut 0, true)
}

fn process<'a>(ctx: &'a Context, text: &'a str) -> Vec<LocatedToken> {
    // documentation comments are items of their own; none are used here
    IndentProcessor::new(ctx, Lexer::new(ctx, FileId::default(), text.as_bytes())).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Indent,
    Inline,    // a{b;c}
    Braces,    // a {\n\tb\n\tc\n}   (tab layout only)
}

/// Write the forest; `styles[k]` is the block style of node k (in preorder).
fn render(f: &[Node], depth: usize, unit: &str, styles: &dyn Fn(usize) -> Style, k: &mut usize, lines: &mut Vec<String>) {
    for n in f {
        let st = styles(*k);
        *k += 1;
        let pad = unit.repeat(depth);
        let head = n.words.join(" ");
        if n.kids.is_empty() {
            lines.push(format!("{pad}{head}"));
            continue;
        }
        match st {
            Style::Indent => {
                lines.push(format!("{pad}{head}"));
                render(&n.kids, depth + 1, unit, styles, k, lines);
            },
            Style::Braces => {
                lines.push(format!("{pad}{head} {{"));
                render(&n.kids, depth + 1, unit, styles, k, lines);
                lines.push(format!("{pad}}}"));
            },
            Style::Inline => {
                fn one(f: &[Node], k: &mut usize, out: &mut String) {
                    for (i, n) in f.iter().enumerate() {
                        *k += 1;
                        if i > 0 {
                            out.push(';');
                        }
                        out.push_str(&n.words.join(" "));
                        if !n.kids.is_empty() {
                            out.push('{');
                            one(&n.kids, k, out);
                            out.push('}');
                        }
                    }
                }
                let mut s = String::new();
                one(&n.kids, k, &mut s);
                lines.push(format!("{pad}{head}{{{s}}}"));
            },
        }
    }
}

const DECOR: &[&str] = &["", "   ", "\t", "// note", "     // note", "/* note\n  over\n lines */", " /* a */ /* b */ ", "\\", "\r"];

fn compare(text: &str, want: &[Node], c: &mut Case) {
    let ctx = Context::default();
    let toks = process(&ctx, text);
    c.trans(toks.len() as u64);
    c.validated(1);
    match build(&toks) {
        Err(e) => c.fail("structure", format!("{e}: {}", show_tokens(&toks))),
        Ok(got) => {
            c.state(&got);
            if got != want {
                c.fail("structure", format!("expected {want:?}\n got {got:?}\n tokens {}", show_tokens(&toks)));
            }
        },
    }
    if !ctx.errors().is_empty() {
        c.fail("diagnostic", format!("well-formed layout was diagnosed: {:?}", errors_text(&ctx)));
    }
}

// ---- raw lines -------------------------------------------------------------------------------

const BODY: &[&str] = &["x", "", "// c", "x(", ")y", "x{y}", "x{y;z}", "}", "x;y", "{ y }"];

/// Reference: nest lines by their depth.  Returns the forest, or the fact that the layout is wrong.
fn reference(lines: &[(usize, usize)]) -> Result<Vec<Node>, ()> {
    // logical lines: (blanks, items)
    let mut logical: Vec<(usize, Vec<String>)> = vec![];
    let mut paren = 0usize;
    for &(blanks, kind) in lines {
        let words: &[&str] = match BODY[kind] {
            "x" => &["x"],
            "" | "// c" => &[],
            "x(" => &["x", "("],
            ")y" => &[")", "y"],
            "x{y}" => &["x", "{", "y", "}"],
            "x{y;z}" => &["x", "{", "y", ";", "z", "}"],
            "}" => &["}"],
            "x;y" => &["x", ";", "y"],
            "{ y }" => &["{", "y", "}"],
            _ => unreachable!(),
        };
        let words = words.iter().map(|s| s.to_string());
        if paren > 0 {
            logical.last_mut().unwrap().1.extend(words);
        } else if words.len() > 0 {
            logical.push((blanks, words.collect()));
        }
        match BODY[kind] {
            "x(" => paren += 1,
            ")y" => paren = paren.saturating_sub(1),
            _ => {},
        }
    }
    // nest
    let mut unit = 0usize;
    let mut stack: Vec<Vec<Node>> = vec![vec![]];
    let close_to = |stack: &mut Vec<Vec<Node>>, d: usize| {
        while stack.len() > d + 1 {
            let kids = stack.pop().unwrap();
            attach(stack.last_mut().unwrap(), kids);
        }
    };
    for (blanks, words) in logical {
        let ends = words.first().map(|s| &s[..]);
        if ends == Some("}") || ends == Some("{") {
            // explicit braces at a line's start ignore its indentation; covered by the forest suite
            return Err(());
        }
        let depth = if blanks == 0 {
            unit = 0;
            0
        } else {
            if unit == 0 {
                unit = blanks;
            }
            if blanks % unit != 0 {
                return Err(());
            }
            blanks / unit
        };
        let cur = stack.len() - 1;
        if depth > cur + 1 {
            return Err(());
        }
        if depth == cur + 1 {
            stack.push(vec![]);
        } else {
            close_to(&mut stack, depth);
        }
        // items of the line, with inline blocks
        let mut it = words.iter().peekable();
        let mut node = Node::default();
        let mut have = false;
        while let Some(w) = it.next() {
            match &w[..] {
                ";" => {
                    if have {
                        stack.last_mut().unwrap().push(std::mem::take(&mut node));
                        have = false;
                    }
                },
                "{" => {
                    let mut kids = vec![];
                    let mut kid = Node::default();
                    for w in it.by_ref() {
                        match &w[..] {
                            "}" => break,
                            ";" => kids.push(std::mem::take(&mut kid)),
                            w => kid.words.push(w.to_owned()),
                        }
                    }
                    kids.push(kid);
                    node.kids = kids;
                    stack.last_mut().unwrap().push(std::mem::take(&mut node));
                    have = false;
                },
                w => {
                    node.words.push(w.to_owned());
                    have = true;
                },
            }
        }
        if have {
            stack.last_mut().unwrap().push(node);
        }
    }
    close_to(&mut stack, 0);
    Ok(stack.pop().unwrap())
}

/// A deeper block belongs to the item before it; if that item already has one, it stands alone.
fn attach(list: &mut Vec<Node>, kids: Vec<Node>) {
    match list.last_mut() {
        Some(n) if n.kids.is_empty() => n.kids = kids,
        _ => list.push(Node { words: vec![], kids }),
    }
}

pub fn check(r: &mut Runner) {
    r.assume("multi-line explicit brace blocks are laid out one blank per level, as the tool requires; explicit braces at the start of a line are only explored in that layout");
    let max = r.pick(6, 7);
    let units = ["\t", " ", "  ", "   ", "    ", "\t\t"];
    let mut all: Vec<Vec<Node>> = vec![];
    for n in 1..=max {
        for mut f in forests(n) {
            label(&mut f, &mut 0);
            all.push(f);
        }
    }
    let count = |f: &[Node]| {
        fn go(f: &[Node]) -> usize {
            f.iter().map(|n| 1 + go(&n.kids)).sum()
        }
        go(f)
    };
    r.suite("styles", "every forest, every block style per node (indented, one-line braces, multi-line braces), every indent unit", all.len() as u64 * units.len() as u64 * 3u64.pow(max as u32), |i, c| {
        let mut d = Digits(i);
        let f = d.pick(&all);
        let unit = *d.pick(&units);
        let n = count(f);
        let st: Vec<Style> = (0..max).map(|_| *d.pick(&[Style::Indent, Style::Inline, Style::Braces])).collect();
        // canonical: unused style digits and leaf styles are indented; braces only with one blank per level
        fn leafs(f: &[Node], k: &mut usize, st: &[Style]) -> bool {
            f.iter().all(|n| {
                let ok = !n.kids.is_empty() || st[*k] == Style::Indent;
                *k += 1;
                ok && leafs(&n.kids, k, st)
            })
        }
        if st[n..].iter().any(|s| *s != Style::Indent) || !leafs(f, &mut 0, &st) {
            return;
        }
        if unit.len() > 1 && st.contains(&Style::Braces) {
            return;
        }
        // a multi-line brace block that starts at depth zero fixes its own unit, so must be one blank
        let mut lines = vec![];
        render(f, 0, unit, &|k| st[k], &mut 0, &mut lines);
        let text = lines.join("\n");
        c.input(|| text.clone());
        compare(&text, f, c);
    });
    r.suite("decorations", "every forest in indented form, every indent unit, one decoration (blank, blank with odd blanks, comment, multi-line comment, lone continuation) in every gap, with and without final newline", all.len() as u64 * units.len() as u64 * (max as u64 + 2) * DECOR.len() as u64 * 2, |i, c| {
        let mut d = Digits(i);
        let f = d.pick(&all);
        let unit = *d.pick(&units);
        let gap = d.take(max + 2);
        let dec = *d.pick(DECOR);
        let nl = d.flag();
        let mut lines = vec![];
        render(f, 0, unit, &|_| Style::Indent, &mut 0, &mut lines);
        if gap > lines.len() {
            return;
        }
        if dec == "\\" && (gap == lines.len() || true) {
            // a lone continuation joins the next line: only sound before an unindented line
            if gap >= lines.len() || lines[gap].starts_with([' ', '\t']) {
                return;
            }
        }
        lines.insert(gap, dec.to_owned());
        let mut text = lines.join("\n");
        if nl {
            text.push('\n');
        }
        c.input(|| text.clone());
        compare(&text, f, c);
    });
    // items spread over several lines
    let spread: &[(&str, &[&str])] = &[
        ("f(\n  b\nc)", &["f", "(", "b", "c", ")"]),
        ("f((\n)\n\t\t\t)", &["f", "(", "(", ")", ")"]),
        ("f \\\n      g", &["f", "g"]),
        ("f\\\n+g", &["f", "+", "g"]),
        ("f /* a\nb */ g", &["f", "g"]),
        ("f(a, // c\n b)", &["f", "(", "a", ",", "b", ")"]),
    ];
    let mx = r.pick(5, 6);
    let mid: Vec<&Vec<Node>> = all.iter().filter(|f| count(f) <= mx).collect();
    r.suite("spread items", "every forest, one item of it spread over lines (parentheses, continuation, comment) in every position, every indent unit", mid.len() as u64 * units.len() as u64 * mx as u64 * spread.len() as u64, |i, c| {
        let mut d = Digits(i);
        let mut f = (*d.pick(&mid)).clone();
        let unit = *d.pick(&units);
        let at = d.take(mx);
        let (src, words) = *d.pick(spread);
        if at >= count(&f) {
            return;
        }
        fn set(f: &mut [Node], at: usize, k: &mut usize, words: Vec<String>) {
            for n in f {
                if *k == at {
                    n.words = words.clone();
                }
                *k += 1;
                set(&mut n.kids, at, k, words.clone());
            }
        }
        let mut lines = vec![];
        set(&mut f, at, &mut 0, vec![src.to_owned()]);
        render(&f, 0, unit, &|_| Style::Indent, &mut 0, &mut lines);
        set(&mut f, at, &mut 0, words.iter().map(|s| s.to_string()).collect());
        let text = lines.join("\n");
        c.input(|| text.clone());
        compare(&text, &f, c);
    });
    // raw line sequences, well- and ill-formed
    let (indents, depth) = (r.pick(5, 6), r.pick(5, 6));
    let kinds = 7;
    r.suite("raw lines", "every sequence of up to N lines over (leading blanks 0..k) x (word, blank, comment, open paren, close paren, one-line block, one-line block with two items): same structure as the reference nesting, diagnosed exactly when inconsistent", count_upto(indents * kinds, r.pick(4, 5)), |i, c| {
        let _ = depth;
        let lines: Vec<(usize, usize)> = std::iter::once((0, 0)).chain(word(indents * kinds, i).into_iter().map(|d| (d / kinds, d % kinds))).collect();
        let text = lines.iter().map(|&(b, k)| format!("{}{}", " ".repeat(b), BODY[k])).collect::<Vec<_>>().join("\n");
        c.input(|| format!("{text:?}"));
        raw(&text, reference(&lines), c);
    });
    let (ind2, len2) = (r.pick(7, 9), 6);
    r.suite("raw indents", "every sequence of lines with 0..k leading blanks each", count_upto(ind2, len2), |i, c| {
        let lines: Vec<(usize, usize)> = std::iter::once((0, 0)).chain(word(ind2, i).into_iter().map(|b| (b, 0))).collect();
        let text = lines.iter().map(|&(b, k)| format!("{}{}", " ".repeat(b), BODY[k])).collect::<Vec<_>>().join("\n");
        c.input(|| format!("{text:?}"));
        raw(&text, reference(&lines), c);
    });
    r.suite("unmatched", "every flat sequence of braces and words: an unmatched closing brace is diagnosed, a matched sequence is not", count_upto(3, r.pick(9, 11)), |i, c| {
        let w = word(3, i);
        let text: String = w.iter().map(|d| ["x ", "{", "}"][*d]).collect();
        c.input(|| text.clone());
        let mut depth = 0i32;
        let mut bad = false;
        for d in &w {
            match d {
                1 => depth += 1,
                2 if depth == 0 => bad = true,
                2 => depth -= 1,
                _ => {},
            }
        }
        let ctx = Context::default();
        let toks = process(&ctx, &text);
        c.trans(toks.len() as u64);
        c.validated(1);
        c.state(&w);
        if bad != has_errors(&ctx) {
            c.fail("diagnostic", format!("unmatched={bad}, errors {:?}", errors_text(&ctx)));
        }
        if !bad {
            if let Err(e) = build(&toks) {
                c.fail("structure", format!("{e}: {}", show_tokens(&toks)));
            }
        }
    });
}

fn raw(text: &str, want: Result<Vec<Node>, ()>, c: &mut Case) {
    let ctx = Context::default();
    let toks = process(&ctx, text);
    c.trans(toks.len() as u64);
    c.validated(1);
    c.outcome(&want.is_ok());
    if want.is_err() != has_errors(&ctx) {
        c.fail("diagnostic", format!("reference ok={}, errors {:?}", want.is_ok(), errors_text(&ctx)));
        return;
    }
    if let Ok(want) = want {
        match build(&toks) {
            Err(e) => c.fail("structure", format!("{e}: {}", show_tokens(&toks))),
            Ok(got) => {
                c.state(&got);
                if got != want {
                    c.fail("structure", format!("expected {want:?}\n got {got:?}\n tokens {}", show_tokens(&toks)));
                }
            },
        }
    }
}
