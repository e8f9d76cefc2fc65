//! P25: switches on rand() against plain enumeration of the numbers drawn.
use crate::util::*;
use mc_common::*;

/// A case label in halves: `n/2`, or `lo/2 to hi/2`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Label {
    One(i64),
    Span(i64, i64),
    /// not a constant: nothing is known about what it matches
    Unknown,
}
use Label::*;

fn num(h: i64) -> String {
    match h % 2 {
        0 => format!("{}", h / 2),
        _ if h < 0 => format!("-{}.5", (-h) / 2),
        _ => format!("{}.5", h / 2),
    }
}
fn label(l: &Label) -> String {
    match *l {
        One(a) => num(a),
        Span(a, b) => format!("{} to {}", num(a), num(b)),
        Unknown => "@k".into(),
    }
}

struct Want {
    line: u32,
    lo: i64,
    hi: i64,
    /// line, label
    labels: Vec<(u32, Label)>,
    default: bool,
}

fn verify(w: &Want, got: &[Diag]) -> Result<(), (String, String)> {
    let drawn: Vec<i64> = (w.lo..=w.hi).collect();
    let hits = |l: &Label, n: i64| match *l {
        One(a) => a == 2 * n,
        Span(a, b) => a <= 2 * n && 2 * n <= b,
        Unknown => true,
    };
    let mut gaps = 0;
    let mut dead: Vec<u32> = vec![];
    for d in got {
        if d.text.contains("will never trigger") {
            dead.push(d.line);
        } else if d.text.starts_with("Switch branches on rand()") {
            gaps += 1;
            if d.line != w.line {
                return Err(("line of a gap".into(), format!("reported on line {}, the switch is on {}", d.line, w.line)));
            }
            let n: i64 = d.text.rsplit(' ').next().unwrap().parse().map_err(|_| ("gap".to_string(), d.text.clone()))?;
            if !drawn.contains(&n) || w.labels.iter().any(|l| hits(&l.1, n)) {
                return Err(("false gap".into(), format!("{n} is not a number drawn that no case takes")));
            }
        } else {
            return Err((format!("false {}", d.kind), d.show()));
        }
    }
    let uncovered = drawn.iter().any(|n| !w.labels.iter().any(|l| hits(&l.1, *n)));
    let want = (uncovered && !w.default) as u32;
    if gaps != want {
        return Err((if gaps < want { "missed gap" } else { "false gap" }.into(), format!("{gaps} gaps reported, {want} expected")));
    }
    let mut lines: Vec<u32> = w.labels.iter().map(|l| l.0).collect();
    lines.dedup();
    for line in lines {
        // labels never drawn: those outside the numbers drawn are to be reported, one among them
        // that takes none all the same (1.5, or 3 to 1) may be
        let (mut must, mut may) = (0, 0);
        for (_, l) in w.labels.iter().filter(|l| l.0 == line) {
            if drawn.iter().any(|n| hits(l, *n)) {
                continue;
            }
            let outside = match *l {
                One(a) => a < 2 * w.lo || a > 2 * w.hi,
                Span(a, b) => a <= b && (b < 2 * w.lo || a > 2 * w.hi),
                Unknown => false,
            };
            must += outside as usize;
            may += 1;
        }
        // (a case is located at its labels or at what follows them)
        let before = dead.len();
        dead.retain(|d| *d != line && *d != line + 1);
        let told = before - dead.len();
        if told < must {
            return Err(("missed dead case".into(), format!("{must} labels on line {line} lie outside the numbers drawn, {told} reported")));
        }
        if told > may {
            return Err(("false dead case".into(), format!("{may} labels on line {line} are never drawn, {told} reported")));
        }
    }
    match dead.is_empty() {
        true => Ok(()),
        false => Err(("dead case elsewhere".into(), format!("{dead:?}"))),
    }
}

/// groups: labels of each branch
fn program(head: &str, lo: i64, hi: i64, groups: &[Vec<Label>], default: bool) -> (String, Want) {
    let mut t = String::from("/var/const/@k = 1\n/proc/@f()\n");
    t += &format!("\tswitch({head})\n");
    let mut line = 3;
    let mut labels = vec![];
    for g in groups {
        line += 1;
        labels.extend(g.iter().map(|l| (line, *l)));
        t += &format!("\t\tif({})\n\t\t\t. = 1\n", g.iter().map(label).collect::<Vec<_>>().join(", "));
        line += 1;
    }
    if default {
        t += "\t\telse\n\t\t\t. = 2\n";
    }
    (t, Want { line: 3, lo, hi, labels, default })
}

const BATCH: u64 = 64;

pub fn check(r: &mut Runner) {
    // every label of up to `span` around the range
    let mut vocabulary = vec![];
    for a in -2..=7 {
        vocabulary.push(One(a));
    }
    for a in [-2, 0, 1, 2, 3, 4, 6] {
        for b in [0, 1, 2, 3, 4, 5, 6, 8] {
            if a != b {
                vocabulary.push(Span(a, b));
            }
        }
    }
    vocabulary.push(Unknown);
    let v = vocabulary.len();
    let heads: Vec<(String, i64, i64)> = {
        let mut h = vec![];
        for lo in -1..=2 {
            for hi in lo..=3 {
                h.push((format!("rand({lo}, {hi})"), lo, hi));
            }
        }
        for hi in 0..=3 {
            h.push((format!("rand({hi})"), 0, hi));
        }
        h
    };
    let depth = 3;
    let deep = r.thorough();
    let heads3: Vec<_> = heads.iter().filter(|h| h.0 == "rand(0, 2)" || h.0 == "rand(1, 3)" || h.0 == "rand(2)").cloned().collect();
    for n in 1..=depth {
        let heads = if n == 3 && !deep { &heads3 } else { &heads };
        let total = pow(v, n) * 2;
        let per = total.div_ceil(BATCH);
        r.suite(&format!("labels {n}"), "every list of labels, with and without else, for every range drawn", heads.len() as u64 * per, |i, c| {
            let (head, lo, hi) = &heads[(i / per) as usize];
            let mut progs = vec![];
            for k in (i % per * BATCH)..((i % per + 1) * BATCH).min(total) {
                let mut d = Digits(k);
                let default = d.flag();
                let ls: Vec<Label> = (0..n).map(|_| vocabulary[d.take(v)]).collect();
                // each in a branch of its own, and all in one
                if n > 1 {
                    progs.push(program(head, *lo, *hi, &[ls.clone()], default));
                }
                progs.push(program(head, *lo, *hi, &ls.iter().map(|l| vec![*l]).collect::<Vec<_>>(), default));
            }
            batch(c, &progs, verify);
        });
    }
    // small ranges partitioned every way: 0..=n, each number covered by 0, 1 or 2 of k labels
    let few: Vec<Label> = {
        let mut f = vec![];
        for a in 0..4 {
            for b in a..4 {
                f.push(if a == b { One(2 * a) } else { Span(2 * a, 2 * b) });
            }
        }
        f
    };
    let n = few.len() as u64;
    let k = r.pick(5, 6);
    r.suite("covers", "every list of whole-number labels within rand(0, 3)", pow(n as usize, k).div_ceil(BATCH), |i, c| {
        let mut progs = vec![];
        for w in (i * BATCH)..((i + 1) * BATCH).min(pow(n as usize, k)) {
            let mut d = Digits(w);
            let ls: Vec<Label> = (0..k).map(|_| few[d.take(n as usize)]).collect();
            progs.push(program("rand(0, 3)", 0, 3, &ls.iter().map(|l| vec![*l]).collect::<Vec<_>>(), false));
        }
        batch(c, &progs, verify);
    });
    // how numbers can be written, and inputs about which nothing is known
    let forms: Vec<(&str, i64, i64)> = vec![
        ("rand(1, 1 + 2)", 1, 3),
        ("rand((1), 3)", 1, 3),
        ("rand(-1, 1)", -1, 1),
        ("rand(0x1, 1e0 * 3)", 1, 3),
        ("rand(1 << 1, 12 / 4)", 2, 3),
        ("rand(16777214, 16777216)", 16777214, 16777216),
        ("rand(2147483646, 2147483647)", 2147483647, 2147483647), // both are 2^31 as floats
        ("rand(-2147483648, -2147483648)", -2147483648, -2147483648),
        ("rand(1, @k)", 1, 0),
        ("rand()", 1, 0),
        ("rand(1, 2, 3)", 1, 0),
        ("rand(1, 3) + 1", 1, 0),
        ("-rand(1, 3)", 1, 0),
        ("rand(1, 3):x", 1, 0),
        ("prob(50)", 1, 0),
        ("@g(1, 3)", 1, 0),
        ("@k", 1, 0),
    ];
    let cases: Vec<(&str, Label)> = vec![
        ("1", One(2)),
        ("1 to 3", Span(2, 6)),
        ("2 + 1", One(6)),
        ("(2)", One(4)),
        ("2 to 1 + 2", Span(4, 6)),
        ("-1 to 1", Span(-2, 2)),
        ("1 << 1", One(4)),
        ("\"1\"", Unknown),
        ("null", Unknown),
        ("@k", Unknown),
        ("@k to 3", Unknown),
        ("1 to @k", Unknown),
        ("16777214 to 16777216", Span(16777214 * 2, 16777216 * 2)),
        ("16777215", One(16777215 * 2)),
        ("2147483647", One(2147483647 * 2)),
        ("1 to 2147483647", Span(2, 2147483647 * 2)),
        ("-2147483648", One(-2147483648 * 2)),
        ("-2147483648 to 1", Span(-2147483648 * 2, 2)),
    ];
    r.suite("forms", "every way of writing the input with every pair of ways of writing cases", (forms.len() * cases.len()) as u64, |i, c| {
        let (head, lo, hi) = forms[i as usize / cases.len()];
        let a = &cases[i as usize % cases.len()];
        let mut progs = vec![];
        for b in &cases {
            for default in ["", "\t\telse\n\t\t\t. = 2\n"] {
                let t = format!("/var/const/@k = 1\n/proc/@g(a, b)\n\treturn 1\n/proc/@f()\n\tswitch({head})\n\t\tif({})\n\t\t\t. = 1\n\t\tif({})\n\t\t\t. = 1\n{default}", a.0, b.0);
                let big = lo.abs() > 1 << 30;
                progs.push((t, (big, head, Want { line: 5, lo, hi, labels: vec![(6, a.1), (8, b.1)], default: !default.is_empty() })));
            }
        }
        batch(c, &progs, |(big, head, w), got| {
            let got: Vec<Diag> = got.iter().filter(|d| d.kind != "integer_precision_loss" && d.kind != "field_access_static_type" && d.kind != "control_condition_static").cloned().collect();
            if w.lo > w.hi {
                // unknown range: nothing can be said
                return match got.iter().find(|d| d.text.contains("rand()")) {
                    None => Ok(()),
                    Some(d) => Err(("said about an unknown range".into(), format!("{head}: {}", d.show()))),
                };
            }
            if *big {
                // at the edge of what is told apart: only the full range covered is claimed
                let far = |l: &Label| matches!(l, Span(a, b) if *a <= 2 * w.lo && *b >= 2 * w.hi) || matches!(l, One(a) if *a == 2 * w.lo && w.lo == w.hi);
                return match got.iter().find(|d| d.text.starts_with("Switch branches on rand()")) {
                    Some(d) if w.labels.iter().any(|l| far(&l.1)) => Err(("false gap".into(), d.show())),
                    _ => Ok(()),
                };
            }
            verify(w, &got)
        });
    });
}
