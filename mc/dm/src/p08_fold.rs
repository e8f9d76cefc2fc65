//! Constant folding vs. a reference evaluator.
use dm::Location;
use dm::constants::{Constant, evaluate_str};
use mc_common::*;

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    F(f32),
    S(String),
    R(String),
    P(String),
    L(usize),
    /// cannot be folded
    Err,
    /// outside the compared domain
    Any,
}
use V::*;

const VALS: [&str; 18] = [
    "0", "1", "2", "3", "5", "255", "16777215", "0.5", "2.5", "(-1)", "(-2.5)", "null", "\"\"", "\"a\"", "\"ab\"", "'a'", "(/obj)", "list()",
];
fn val(i: usize) -> V {
    match VALS[i] {
        "null" => Null,
        "\"\"" => S("".into()),
        "\"a\"" => S("a".into()),
        "\"ab\"" => S("ab".into()),
        "'a'" => R("a".into()),
        "(/obj)" => P("/obj".into()),
        "list()" => L(0),
        n => F(n.trim_matches(['(', ')']).parse().unwrap()),
    }
}

fn truth(v: &V) -> bool {
    match v {
        Null => false,
        F(f) => *f != 0.0,
        S(s) => !s.is_empty(),
        _ => true,
    }
}
fn b(x: bool) -> V {
    F(if x { 1.0 } else { 0.0 })
}

const OPS: [&str; 21] = ["+", "-", "*", "/", "%", "%%", "**", "<", "<=", ">", ">=", "==", "!=", "<>", "&", "|", "^", "<<", ">>", "&&", "||"];

/// Bitwise operators work on unsigned 24-bit numbers; other operands are not compared.
fn bits(x: f32) -> Option<u32> {
    (x >= 0.0 && x < 16777216.0).then_some(x as u32)
}

fn bin(op: &str, l: V, r: V) -> V {
    if l == Err || r == Err {
        return Err;
    }
    if l == Any || r == Any {
        return Any;
    }
    match op {
        "==" => return b(l == r),
        "!=" | "<>" => return b(l != r),
        "&&" => return if truth(&l) { r } else { l },
        "||" => return if truth(&l) { l } else { r },
        _ => {},
    }
    let (x, y) = match (l, r) {
        (F(x), F(y)) => (x, y),
        (S(x), S(y)) if op == "+" => return S(x + &y),
        _ => return Err,
    };
    let whole = x.fract() == 0.0 && y.fract() == 0.0;
    match op {
        "+" => F(x + y),
        "-" => F(x - y),
        "*" => F(x * y),
        "/" => F(x / y),
        // the integer remainder; fractions are left to %%
        "%" => if whole && y != 0.0 { F(x % y) } else { Any },
        "%%" => F(x - (x / y).floor() * y),
        "**" => F(x.powf(y)),
        "<" => b(x < y),
        "<=" => b(x <= y),
        ">" => b(x > y),
        ">=" => b(x >= y),
        _ => {
            let (Some(x), Some(y)) = (bits(x), bits(y)) else { return Any };
            F((match op {
                "&" => x & y,
                "|" => x | y,
                "^" => x ^ y,
                "<<" => if y < 24 { (((x as u64) << y) & 0xffffff) as u32 } else { return Any },
                ">>" => if y < 24 { x >> y } else { return Any },
                _ => unreachable!(),
            }) as f32)
        },
    }
}

fn un(op: &str, v: V) -> V {
    match (op, v) {
        (_, Err) => Err,
        (_, Any) => Any,
        ("!", v) => b(!truth(&v)),
        ("-", F(x)) => F(-x),
        ("~", F(x)) => bits(x).map_or(Any, |x| F((!x & 0xffffff) as f32)),
        _ => Err,
    }
}

fn conv(c: &Constant) -> V {
    match c {
        Constant::Null(_) => Null,
        Constant::Float(f) => F(*f),
        Constant::String(s) => S(s.to_string()),
        Constant::Resource(s) => R(s.to_string()),
        Constant::Prefab(p) => P(p.to_string()),
        Constant::List(l) => L(l.len()),
        _ => Any,
    }
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (F(x), F(y)) => x == y || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}

fn loc() -> Location {
    Location { file: Default::default(), line: 1, column: 1 }
}

fn compare(text: &str, want: V, c: &mut Case) {
    c.input(|| text.to_owned());
    c.trans(1);
    if matches!(&want, F(x) if x.is_nan()) {
        return; // comparisons of these are not specified
    }
    c.outcome(&std::mem::discriminant(&want));
    if want == Any {
        return;
    }
    c.validated(1);
    let got = match evaluate_str(loc(), text.as_bytes()) {
        Ok(v) => conv(&v),
        Result::Err(_) => Err,
    };
    if !same(&got, &want) {
        c.fail("value", format!("expected {want:?}, got {got:?}"));
    }
}

fn hsv(h: f64, s: f64, v: f64) -> [f64; 3] {
    let f = |n: f64| {
        let k = (n + h / 60.0) % 6.0;
        v - v * s * 0f64.max(k.min(4.0 - k).min(1.0))
    };
    [f(5.0), f(3.0), f(1.0)]
}
fn hsl(h: f64, s: f64, l: f64) -> [f64; 3] {
    let a = s * l.min(1.0 - l);
    let f = |n: f64| {
        let k = (n + h / 30.0) % 12.0;
        l - a * (-1f64).max((k - 3.0).min(9.0 - k).min(1.0))
    };
    [f(0.0), f(8.0), f(4.0)]
}

pub fn check(r: &mut Runner) {
    r.assume("bitwise operators are compared on operands from 0 to 2^24-1, shifts below 24, and % on whole numbers");
    r.assume("a folded value that is not a number in IEEE's sense is not compared");
    let (nv, no) = (VALS.len(), OPS.len());
    r.suite("operators", "every tree of up to two operators over the whole catalogue of values, with a unary operator on any node", (nv * nv * nv * no * no * 2 * 4) as u64, |i, c| {
        let mut d = Digits(i);
        let (x, y, z) = (d.take(nv), d.take(nv), d.take(nv));
        let (p, q) = (*d.pick(&OPS), *d.pick(&OPS));
        let u = *d.pick(&["", "!", "-", "~"]);
        let ub = |v: V| if u.is_empty() { v } else { un(u, v) };
        if d.flag() {
            compare(&format!("(({} {p} {}) {q} {u}({}))", VALS[x], VALS[y], VALS[z]), bin(q, bin(p, val(x), val(y)), ub(val(z))), c);
        } else {
            compare(&format!("({} {p} {u}({} {q} {}))", VALS[x], VALS[y], VALS[z]), bin(p, val(x), ub(bin(q, val(y), val(z)))), c);
        }
    });
    let sub = [1usize, 2, 7, 11, 13];
    r.suite("three operators", "every tree of three operators over five values", 5 * (no * no * no) as u64 * 625, |i, c| {
        let mut d = Digits(i);
        let v: Vec<usize> = (0..4).map(|_| *d.pick(&sub)).collect();
        let o: Vec<&str> = (0..3).map(|_| *d.pick(&OPS)).collect();
        let t = |k: usize| VALS[v[k]].to_owned();
        let w = |k: usize| val(v[k]);
        let jt = |a: String, p: &str, b: String| format!("({a} {p} {b})");
        let (text, want) = match d.take(5) {
            0 => (jt(jt(jt(t(0), o[0], t(1)), o[1], t(2)), o[2], t(3)), bin(o[2], bin(o[1], bin(o[0], w(0), w(1)), w(2)), w(3))),
            1 => (jt(jt(t(0), o[0], jt(t(1), o[1], t(2))), o[2], t(3)), bin(o[2], bin(o[0], w(0), bin(o[1], w(1), w(2))), w(3))),
            2 => (jt(jt(t(0), o[0], t(1)), o[1], jt(t(2), o[2], t(3))), bin(o[1], bin(o[0], w(0), w(1)), bin(o[2], w(2), w(3)))),
            3 => (jt(t(0), o[0], jt(jt(t(1), o[1], t(2)), o[2], t(3))), bin(o[0], w(0), bin(o[2], bin(o[1], w(1), w(2)), w(3)))),
            _ => (jt(t(0), o[0], jt(t(1), o[1], jt(t(2), o[2], t(3)))), bin(o[0], w(0), bin(o[1], w(1), bin(o[2], w(2), w(3))))),
        };
        compare(&text, want, c);
    });
    r.suite("conditional", "every conditional over every value as condition, with foldable, failing and nested conditional arms", (nv * nv * no * 6 * 6) as u64, |i, c| {
        let mut d = Digits(i);
        let (x, y, p) = (d.take(nv), d.take(nv), *d.pick(&OPS));
        let arm = |k: usize| match k {
            0 => ("1".to_owned(), F(1.0)),
            1 => ("\"s\"".to_owned(), S("s".into())),
            2 => ("(null + 1)".to_owned(), Err),
            3 => ("unknown".to_owned(), Err),
            4 => ("(0 ? 5 : 6)".to_owned(), F(6.0)),
            _ => ("(\"a\" ? 5 : 6)".to_owned(), F(5.0)),
        };
        let (t, e) = (arm(d.take(6)), arm(d.take(6)));
        let cond = bin(p, val(x), val(y));
        let want = match &cond {
            Err => Err,
            Any => Any,
            v => if truth(v) { t.1 } else { e.1 },
        };
        compare(&format!("({} {p} {}) ? {} : {}", VALS[x], VALS[y], t.0, e.0), want, c);
    });
    r.suite("unary chains", "every chain of up to five unary operators on every value", count_upto(3, 5) * nv as u64, |i, c| {
        let mut d = Digits(i);
        let k = d.take(nv);
        let ops = word(3, d.0);
        let mut v = val(k);
        let mut t = format!("({})", VALS[k]);
        for o in ops {
            let u = ["!", "-", "~"][o];
            v = un(u, v);
            t = format!("{u}({t})");
        }
        compare(&t, v, c);
    });
    // whole degrees
    r.suite("trigonometry", "sin, cos, arcsin, arccos of every whole degree and hundredth", 2 * 721 + 2 * 201, |i, c| {
        let (text, want) = if i < 1442 {
            let deg = (i / 2) as i32 - 360;
            let x = (deg as f64).to_radians();
            if i % 2 == 0 { (format!("sin({deg})"), x.sin()) } else { (format!("cos({deg})"), x.cos()) }
        } else {
            let h = ((i - 1442) / 2) as i32 - 100;
            let x = h as f64 / 100.0;
            if i % 2 == 0 { (format!("arcsin({x})"), x.asin().to_degrees()) } else { (format!("arccos({x})"), x.acos().to_degrees()) }
        };
        c.input(|| text.clone());
        c.trans(1);
        match evaluate_str(loc(), text.as_bytes()) {
            Ok(Constant::Float(f)) if (f as f64 - want).abs() <= 1e-4 => {},
            other => c.fail("degrees", format!("expected about {want}, got {:?}", other.map(|x| conv(&x)).map_err(|e| e.description().to_owned()))),
        }
    });
    let grid: [i32; 9] = [-1, 0, 1, 15, 16, 128, 254, 255, 256];
    r.suite("rgb", "every rgb() over component and alpha grids, positional, named in every order, and with an explicit space", 9 * 9 * 9 * 10 * 9, |i, c| {
        let mut d = Digits(i);
        let v: Vec<i32> = (0..3).map(|_| *d.pick(&grid)).collect();
        let a = d.take(10);
        let form = d.take(9);
        let (text, _) = {
            let n = [["r", "red"], ["g", "green"], ["b", "blue"]];
            let mut parts: Vec<String> = match form {
                0 | 7 | 8 => v.iter().map(|x| x.to_string()).collect(),
                f => {
                    let perm = permutations(3)[f - 1].clone();
                    perm.iter().map(|&k| format!("{} = {}", n[k][f % 2], v[k])).collect()
                },
            };
            if a < 9 {
                parts.push(match form {
                    0 | 7 => grid[a].to_string(),
                    8 => format!("a = {}", grid[a]),
                    _ => format!("alpha = {}", grid[a]),
                });
            }
            if form >= 7 {
                parts.push("space = 0".into());
            }
            (format!("rgb({})", parts.join(", ")), 0)
        };
        let ok = |x: i32| (0..=255).contains(&x);
        let want = if v.iter().all(|x| ok(*x)) && (a == 9 || ok(grid[a])) {
            let mut s = format!("#{:02x}{:02x}{:02x}", v[0], v[1], v[2]);
            if a < 9 {
                s += &format!("{:02x}", grid[a]);
            }
            S(s)
        } else {
            Err
        };
        compare(&text, want, c);
    });
    let hs: Vec<i32> = if r.thorough() { (0..=360).collect() } else { (0..=360).step_by(5).collect() };
    let ps: Vec<i32> = if r.thorough() { (0..=100).step_by(2).collect() } else { (0..=100).step_by(10).collect() };
    r.suite("colour spaces", "every rgb() given as hue, saturation and value or luminance over the grid, named in every order or positional with a space", (hs.len() * ps.len() * ps.len() * 2 * 7) as u64, |i, c| {
        let mut d = Digits(i);
        let (h, s, v) = (*d.pick(&hs), *d.pick(&ps), *d.pick(&ps));
        let l = d.flag();
        let form = d.take(7);
        let text = if form == 6 {
            format!("rgb({h}, {s}, {v}, space = {})", if l { 2 } else { 1 })
        } else {
            let parts = [format!("h = {h}"), format!("s = {s}"), format!("{} = {v}", if l { "l" } else { "v" })];
            let o: Vec<String> = permutations(3)[form].iter().map(|&k| parts[k].clone()).collect();
            format!("rgb({})", o.join(", "))
        };
        c.input(|| text.clone());
        c.trans(1);
        c.validated(1);
        let f = if l { hsl } else { hsv };
        let want = f(h as f64, s as f64 / 100.0, v as f64 / 100.0).map(|x| x * 255.0);
        let got = match evaluate_str(loc(), text.as_bytes()) {
            Ok(Constant::String(s)) => s.to_string(),
            other => {
                c.fail("no colour", format!("{:?}", other.map(|x| conv(&x)).map_err(|e| e.description().to_owned())));
                return;
            },
        };
        // a component halfway between two values may round either way
        let ok = got.len() == 7 && (0..3).all(|k| u8::from_str_radix(&got[1 + 2 * k..3 + 2 * k], 16).is_ok_and(|g| (g as f64 - want[k]).abs() <= 0.5 + 1e-6));
        if !ok {
            c.fail("colour", format!("expected {want:?}, got {got}"));
        }
    });
    let args = ["1", "2", "300", "\"x\"", "r = 1", "h = 1", "s = 2", "v = 3", "c = 4", "y = 5", "a = 6", "space = 0", "space = 1", "space = 3", "space = 9", "q = 1", "null"];
    let n = args.len();
    let len = r.pick(5, 6);
    r.suite("rgb arguments", "every sequence of up to N arguments from the catalogue is folded or diagnosed", count_upto(n, len), |i, c| {
        let w: Vec<&str> = word(n, i).into_iter().map(|k| args[k]).collect();
        let text = format!("rgb({})", w.join(", "));
        c.input(|| text.clone());
        c.trans(1);
        match evaluate_str(loc(), text.as_bytes()) {
            Ok(Constant::String(s)) => {
                c.outcome(&s.len());
                if !(s.starts_with('#') && [7, 9].contains(&s.len())) {
                    c.fail("shape", s.to_string());
                }
            },
            Ok(other) => c.fail("shape", format!("{other}")),
            Result::Err(_) => c.outcome(&0),
        }
    });
}
