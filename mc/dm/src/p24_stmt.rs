//! Proc bodies: every statement form in every block style vs. the tree built alongside the text.
use crate::astfmt;
use crate::util::*;
use dm::Context;
use dm::indents::IndentProcessor;
use dm::lexer::Lexer;
use dm::parser::Parser;
use mc_common::*;

pub const LEAVES: [(&str, &str); 34] = [
    ("a = 1", "[(= a 1)]"),
    ("f(a, 2)", "[(f() a 2)]"),
    ("a.b[c]++", "[(post++ ([] (. a b) c))]"),
    ("return", "(return -)"),
    ("return a ? b : c", "(return (? a b c))"),
    ("return (a)", "(return a)"),
    ("throw a", "(throw a)"),
    ("break", "(break)"),
    ("break L", "(break L)"),
    ("continue", "(continue)"),
    ("continue L", "(continue L)"),
    ("goto L", "(goto L)"),
    ("del a", "(del a)"),
    ("del(a.b)", "(del (. a b))"),
    ("CRASH(\"m\")", "(crash \"m\")"),
    ("CRASH()", "(crash -)"),
    ("var/a", "(var a=-)"),
    ("var/obj/o/a = b", "(var obj/o/a=b)"),
    ("var/a = 1, b, c = 3", "(vars a=1 b=- c=3)"),
    ("var/list/a = list(1)", "(var list/a=(list 1))"),
    ("var/a[5]", "(var list/a=(new /list ( 5)))"),
    ("var/a[]", "(var list/a=-)"),
    ("var/static/obj/a = 1", "(var static/obj/a=1)"),
    ("var/global/a", "(var static/a=-)"),
    ("var/const/a = 1", "(var const/a=1)"),
    ("set name = \"x\"", "(set name = \"x\")"),
    ("set src in usr", "(set src in usr)"),
    ("..()", "[(..())]"),
    (". = a", "[(= . a)]"),
    ("new /obj(a)", "[(new /obj ( a))]"),
    ("a in b", "[(in a b)]"),
    ("a ||= b", "[(||= a b)]"),
    ("if2 = 1", "[(= if2 1)]"),
    ("\"[a]b\"", "[(interp \"\" a \"b\")]"),
];

/// Block statements: heads of the parts, closing line, and the tree with $0, $1, ... for the blocks.
pub const HEADS: [(&[&str], &str, &str); 47] = [
    (&["if(x)"], "", "(if x $0)"),
    (&["if(x)", "else"], "", "(if x $0 else $1)"),
    (&["if(x)", "else if(y)"], "", "(if x $0 y $1)"),
    (&["if(x)", "else if(y)", "else"], "", "(if x $0 y $1 else $2)"),
    (&["if((x = y) && !z)"], "", "(if (&& (= x y) (not z)) $0)"),
    (&["while(x)"], "", "(while x $0)"),
    (&["do"], "while(x)", "(do $0 x)"),
    (&["for()"], "", "(for $0)"),
    (&["for(a in b)"], "", "(forin - a as - b $0)"),
    (&["for(a)"], "", "(forin - a as - - $0)"),
    (&["for(var/a)"], "", "(forin var/ a as - - $0)"),
    (&["for(var/obj/a in b)"], "", "(forin var/obj/ a as - b $0)"),
    (&["for(var/a in view(7))"], "", "(forin var/ a as - (view() 7) $0)"),
    (&["for(var/a as num|text in b)"], "", "(forin var/ a as text|num b $0)"),
    (&["for(var/obj/a as anything in b)"], "", "(forin var/obj/ a as anything b $0)"),
    (&["for(a as obj in b)"], "", "(forin - a as obj b $0)"),
    (&["for(var/a as obj)"], "", "(forin var/ a as obj - $0)"),
    (&["for(var/a = 1 to 5)"], "", "(forrange var/ a 1 5 - $0)"),
    (&["for(var/a = 1 to n - 1 step 2)"], "", "(forrange var/ a 1 (- n 1) 2 $0)"),
    (&["for(var/a in 1 to 5)"], "", "(forrange var/ a 1 5 - $0)"),
    (&["for(var/a in 1 to 5 step s)"], "", "(forrange var/ a 1 5 s $0)"),
    (&["for(a = 1 to 5)"], "", "(forrange - a 1 5 - $0)"),
    (&["for(a = 5 to 1 step -1)"], "", "(forrange - a 5 1 (neg 1) $0)"),
    (&["for(a in 1 to 5)"], "", "(forrange - a 1 5 - $0)"),
    (&["for(a in b to c step 3)"], "", "(forrange - a b c 3 $0)"),
    (&["for(var/i = 0, i < 5, i++)"], "", "(for3 (var i=0) (< i 5) [(post++ i)] $0)"),
    (&["for(var/i = 0; i < 5; i++)"], "", "(for3 (var i=0) (< i 5) [(post++ i)] $0)"),
    (&["for(i = 0; i < 5; i += 2)"], "", "(for3 [(= i 0)] (< i 5) [(+= i 2)] $0)"),
    (&["for(i = 0, i < 5)"], "", "(for3 [(= i 0)] (< i 5) - $0)"),
    (&["for(i = 0; i < 5)"], "", "(for3 [(= i 0)] (< i 5) - $0)"),
    (&["for(; i < 5;)"], "", "(for3 - (< i 5) - $0)"),
    (&["for(;;)"], "", "(for3 - - - $0)"),
    (&["for(,, i++)"], "", "(for3 - - [(post++ i)] $0)"),
    (&["for(k, v in x)"], "", "(forkv - k as - v x $0)"),
    (&["for(var/k, v in x.y)"], "", "(forkv var/ k as - v (. x y) $0)"),
    (&["for(var/k as text, v in x)"], "", "(forkv var/ k as text v x $0)"),
    (&["spawn"], "", "(spawn - $0)"),
    (&["spawn()"], "", "(spawn - $0)"),
    (&["spawn(5)"], "", "(spawn 5 $0)"),
    (&["try", "catch"], "", "(try $0 () $1)"),
    (&["try", "catch(var/exception/e)"], "", "(try $0 (/var/exception/e) $1)"),
    (&["L:"], "", "(label L $0)"),
    (&["switch(x)", "if(1)"], "", "(switch x (1) $1)"),
    (&["switch(x)", "if(1, 2 to 3)", "if(\"s\")"], "", "(switch x (1,2..3) $1 (\"s\") $2)"),
    (&["switch(x + 1)", "if(A to B)", "else"], "", "(switch (+ x 1) (A..B) $1 else $2)"),
    (&["switch(x)", "if(1)", "if(2)", "else"], "", "(switch x (1) $1 (2) $2 else $3)"),
    (&["switch(x)", "else"], "", "(switch x else $1)"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Indent,
    Brace,
    BraceLine,
    OneLine,
}
pub const STYLES: [Style; 4] = [Style::Indent, Style::Brace, Style::BraceLine, Style::OneLine];

#[derive(Clone)]
pub enum S {
    Leaf(usize),
    /// head, style, one block per part (the first of a switch is unused)
    Head(usize, Style, Vec<Vec<S>>),
}

pub fn sexp(b: &[S]) -> String {
    let v: Vec<String> = b
        .iter()
        .map(|s| match s {
            S::Leaf(i) => LEAVES[*i].1.to_owned(),
            S::Head(h, _, bl) => {
                let mut t = HEADS[*h].2.to_owned();
                for (k, x) in bl.iter().enumerate() {
                    t = t.replace(&format!("${k}"), &sexp(x));
                }
                t
            },
        })
        .collect();
    format!("{{{}}}", v.join(" "))
}

/// `else` and `if` on one line are an arm of the outer statement, not a nested one.
fn joins_else(part: &str, s: &S) -> bool {
    part == "else" && matches!(s, S::Head(h, ..) if HEADS[*h].0[0].starts_with("if("))
}

/// On a single line; None if that cannot be spelled.
fn inline(s: &S) -> Option<String> {
    match s {
        S::Leaf(i) => Some(LEAVES[*i].0.to_owned()),
        S::Head(h, st, bl) => {
            let (parts, tail, _) = HEADS[*h];
            let switch = parts[0].starts_with("switch");
            let mut out = String::new();
            for (k, p) in parts.iter().enumerate() {
                if switch && k == 0 {
                    out += &format!("{p} {{ ");
                    continue;
                }
                match st {
                    Style::BraceLine => {
                        let x = bl[k].iter().map(inline).collect::<Option<Vec<_>>>()?;
                        out += &format!("{p} {{ {} }} ", x.join("; "));
                    },
                    Style::OneLine => {
                        if bl[k].len() != 1 || joins_else(p, &bl[k][0]) {
                            return None;
                        }
                        let last = k + 1 == parts.len() && tail.is_empty();
                        if !last && !matches!(bl[k][0], S::Leaf(_)) {
                            return None; // a following else would belong to the inner statement
                        }
                        out += &format!("{p} {}", inline(&bl[k][0])?);
                        if !last || switch {
                            out += "; ";
                        }
                    },
                    _ => return None,
                }
            }
            if switch {
                out += "}";
            }
            out += tail;
            Some(out.trim_end().to_owned())
        },
    }
}

fn lines(b: &[S], ind: usize, out: &mut Vec<String>) -> Option<()> {
    let tab = "\t".repeat(ind);
    for s in b {
        match s {
            S::Leaf(i) => out.push(format!("{tab}{}", LEAVES[*i].0)),
            S::Head(_, Style::BraceLine, _) => out.push(format!("{tab}{}", inline(s)?)),
            S::Head(h, st, bl) => {
                let (parts, tail, _) = HEADS[*h];
                let switch = parts[0].starts_with("switch");
                let (mut ind, mut tab) = (ind, tab.clone());
                for (k, p) in parts.iter().enumerate() {
                    if switch && k == 0 {
                        out.push(format!("{tab}{p}{}", if *st == Style::Brace { " {" } else { "" }));
                        ind += 1;
                        tab.push('\t');
                        continue;
                    }
                    match st {
                        Style::Indent => {
                            if bl[k].is_empty() {
                                return None;
                            }
                            out.push(format!("{tab}{p}"));
                            lines(&bl[k], ind + 1, out)?;
                        },
                        Style::Brace => {
                            out.push(format!("{tab}{p} {{"));
                            lines(&bl[k], ind + 1, out)?;
                            out.push(format!("{tab}}}"));
                        },
                        Style::OneLine => {
                            if bl[k].len() != 1 || joins_else(p, &bl[k][0]) {
                                return None;
                            }
                            let last = k + 1 == parts.len() && tail.is_empty();
                            if !last && !matches!(bl[k][0], S::Leaf(_)) {
                                return None;
                            }
                            out.push(format!("{tab}{p} {}", inline(&bl[k][0])?));
                        },
                        Style::BraceLine => unreachable!(),
                    }
                }
                if switch {
                    tab.pop();
                    if *st == Style::Brace {
                        out.push(format!("{tab}}}"));
                    }
                }
                if !tail.is_empty() {
                    out.push(format!("{tab}{tail}"));
                }
            },
        }
    }
    Some(())
}

/// The text of `/proc/p()` with this body, or None if a block cannot be spelled in its style.
pub fn render(b: &[S]) -> Option<String> {
    let mut v = vec!["/proc/p()".to_owned()];
    lines(b, 1, &mut v)?;
    v.push(String::new());
    Some(v.join("\n"))
}

pub fn parse_body(src: &str) -> Result<String, String> {
    let ctx = Context::default();
    let file = ctx.register_file("x.dm".as_ref());
    let mut p = Parser::new(&ctx, IndentProcessor::new(&ctx, Lexer::new(&ctx, file, src.as_bytes())));
    p.enable_procs();
    let tree = p.parse_object_tree_without_builtins();
    if has_errors(&ctx) {
        return Err(format!("{:?}", errors_text(&ctx)));
    }
    let Some(pr) = tree.root().get_proc("p") else {
        return Err("no proc".into());
    };
    match &pr.code {
        Some(c) => Ok(astfmt::block(c)),
        None => Err("no body".into()),
    }
}

fn expect(b: &[S], c: &mut Case) {
    let Some(src) = render(b) else {
        c.outcome(&"not spelled");
        return;
    };
    c.input(|| src.clone());
    c.trans(1);
    c.validated(1);
    let want = sexp(b);
    c.state(&want);
    c.outcome(&want.matches('{').count());
    let got = parse_body(&src);
    if got.as_deref() != Ok(&want) {
        c.fail("tree", format!("expected {want}\n got {got:?}"));
    }
}

/// Blocks for head `h` with `inner` in part `slot` and a plain leaf elsewhere.
pub fn fill(h: usize, st: Style, slot: usize, inner: Vec<S>, other: usize) -> S {
    let n = HEADS[h].0.len();
    S::Head(h, st, (0..n).map(|k| if k == slot { inner.clone() } else { vec![S::Leaf(other)] }).collect())
}

pub fn check(r: &mut Runner) {
    r.assume("a one-line if directly before an else is written only with a simple statement (the else would belong to the inner if)");
    let slots: Vec<(usize, usize)> = (0..HEADS.len())
        .flat_map(|h| {
            let s = HEADS[h].0[0].starts_with("switch") as usize;
            (s..HEADS[h].0.len()).map(move |k| (h, k))
        })
        .collect();
    let nl = LEAVES.len();
    let ns = slots.len();
    r.suite("simple", "every sequence of up to three simple statements", count_upto(nl, 3), |i, c| {
        let b: Vec<S> = word(nl, i).into_iter().map(S::Leaf).collect();
        if b.is_empty() {
            return;
        }
        expect(&b, c);
    });
    r.suite("one block", "every block statement, every block of it, every style, every two-statement body, followed by every simple statement", (ns * 4 * nl * (nl + 1) * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let (h, k) = *d.pick(&slots);
        let st = *d.pick(&STYLES);
        let mut inner = vec![S::Leaf(d.take(nl))];
        let x = d.take(nl + 1);
        if x < nl {
            inner.push(S::Leaf(x));
        }
        let mut b = vec![fill(h, st, k, inner, 0)];
        match d.take(3) {
            0 => {},
            1 => b.push(S::Leaf(1)),
            _ => b.insert(0, S::Leaf(0)),
        }
        expect(&b, c);
    });
    r.suite("nested", "every block statement inside every block of every block statement, in every pair of styles, alone, preceded and followed by simple statements", (ns * ns * 16 * 4) as u64, |i, c| {
        let mut d = Digits(i);
        let (h1, k1) = *d.pick(&slots);
        let (h2, k2) = *d.pick(&slots);
        let (s1, s2) = (*d.pick(&STYLES), *d.pick(&STYLES));
        let mut inner = vec![fill(h2, s2, k2, vec![S::Leaf(1)], 0)];
        if d.flag() {
            inner.push(S::Leaf(3));
        }
        let mut b = vec![fill(h1, s1, k1, inner, 0)];
        if d.flag() {
            b.push(S::Leaf(0));
        }
        expect(&b, c);
    });
    r.suite("adjacent", "every pair of block statements in a row, in every pair of styles", (ns * ns * 16) as u64, |i, c| {
        let mut d = Digits(i);
        let (h1, k1) = *d.pick(&slots);
        let (h2, k2) = *d.pick(&slots);
        let (s1, s2) = (*d.pick(&STYLES), *d.pick(&STYLES));
        expect(&[fill(h1, s1, k1, vec![S::Leaf(1)], 0), fill(h2, s2, k2, vec![S::Leaf(2)], 0)], c);
    });
    let empty: Vec<usize> = vec![1, 3];
    r.suite("empty blocks", "every block statement with every choice of empty braced blocks", (ns * 2 * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let (h, k) = *d.pick(&slots);
        let st = if d.flag() { Style::Brace } else { Style::BraceLine };
        let follow = d.flag();
        let mut b = vec![fill(h, st, k, vec![], empty[0])];
        if follow {
            b.push(S::Leaf(0));
        }
        expect(&b, c);
    });
    // the innermost statement and its neighbours are fixed
    r.suite("three levels", "every block statement nested three deep in every combination of blocks and styles", (ns * ns * ns * 64) as u64, |i, c| {
        let mut d = Digits(i);
        let hs: Vec<(usize, usize)> = (0..3).map(|_| *d.pick(&slots)).collect();
        let st: Vec<Style> = (0..3).map(|_| *d.pick(&STYLES)).collect();
        let mut inner = vec![S::Leaf(1)];
        for j in 0..3 {
            inner = vec![fill(hs[j].0, st[j], hs[j].1, inner, 0)];
        }
        inner.push(S::Leaf(3));
        expect(&inner, c);
    });
    if r.thorough() {
        r.suite("siblings inside", "every pair of block statements in a row inside every block of every block statement, in every combination of styles", (ns * ns * ns * 64) as u64, |i, c| {
            let mut d = Digits(i);
            let hs: Vec<(usize, usize)> = (0..3).map(|_| *d.pick(&slots)).collect();
            let st: Vec<Style> = (0..3).map(|_| *d.pick(&STYLES)).collect();
            let leaf = |j: usize| fill(hs[j].0, st[j], hs[j].1, vec![S::Leaf(1)], 0);
            expect(&[fill(hs[2].0, st[2], hs[2].1, vec![leaf(0), leaf(1)], 3), S::Leaf(0)], c);
        });
    }
}
