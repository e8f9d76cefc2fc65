//! P10: printing of numbers and constants, and reading them back.
use crate::util::*;
use dm::constants::Constant;
use dm::lexer::{FormatFloat, Lexer, Token};
use dm::{Context, Location, Severity};
use mc_common::*;

// ------------------------------------------------------------------------------------------------
// What printf("%g") prints, with an exponent of three digits

/// `digits` are six significant digits, `exp` the exponent of the first.
fn spell(neg: bool, digits: &str, exp: i32) -> String {
    let sign = if neg { "-" } else { "" };
    let d = digits.trim_end_matches('0');
    if !(-4..6).contains(&exp) {
        let (a, b) = d.split_at(1);
        let dot = if b.is_empty() { "" } else { "." };
        let es = if exp < 0 { '-' } else { '+' };
        return format!("{sign}{a}{dot}{b}e{es}{:03}", exp.abs());
    }
    if exp < 0 {
        return format!("{sign}0.{}{d}", "0".repeat((-exp - 1) as usize));
    }
    let whole = exp as usize + 1;
    if d.len() <= whole {
        format!("{sign}{d}{}", "0".repeat(whole - d.len()))
    } else {
        format!("{sign}{}.{}", &d[..whole], &d[whole..])
    }
}
/// six digits and exponent of a positive number, from its decimal expansion
fn six(text: &str) -> (String, i32) {
    let (m, e) = text.split_once('e').unwrap();
    (m.replace('.', ""), e.parse().unwrap())
}
fn special(n: f32) -> Option<&'static str> {
    Some(match (n.is_nan(), n.is_infinite(), n.is_sign_negative()) {
        (true, _, true) => "-1.#IND",
        (true, _, false) => "1.#IND",
        (_, true, true) => "-1.#INF",
        (_, true, false) => "1.#INF",
        _ if n == 0.0 => "0",
        _ => return None,
    })
}
fn print(n: f32) -> String {
    if let Some(s) = special(n) {
        return s.into();
    }
    let (d, e) = six(&format!("{:.5e}", n.abs() as f64));
    spell(n < 0.0, &d, e)
}
/// Exactly halfway between two numbers of six digits: either will do.
fn tie(n: f32) -> Option<[String; 2]> {
    special(n).is_none().then_some(())?;
    let all = format!("{:.170e}", n.abs() as f64);
    let (m, e) = all.split_once('e').unwrap();
    let m = m.replace('.', "");
    let (head, rest) = m.split_at(6);
    if rest.as_bytes()[0] != b'5' || rest[1..].bytes().any(|b| b != b'0') {
        return None;
    }
    let e: i32 = e.parse().unwrap();
    let down = spell(n < 0.0, head, e);
    let next = (head.parse::<u32>().unwrap() + 1).to_string();
    let up = if next.len() == 7 { spell(n < 0.0, &next[..6], e + 1) } else { spell(n < 0.0, &next, e) };
    Some([down, up])
}

fn read(ctx: &Context, text: &str) -> Vec<Token> {
    Lexer::new(ctx, Default::default(), text.as_bytes().to_vec()).map(|t| t.token).filter(|t| !matches!(t, Token::Punct(dm::lexer::Punctuation::Newline) | Token::Eof)).collect()
}
fn value(t: &[Token]) -> Option<f32> {
    let (neg, t) = match t {
        [Token::Punct(dm::lexer::Punctuation::Sub), rest @ ..] => (true, rest),
        _ => (false, t),
    };
    let v = match t {
        [Token::Int(i)] => *i as f32,
        [Token::Float(f)] => *f,
        _ => return None,
    };
    Some(if neg { -v } else { v })
}

fn printed(c: &mut Case, n: f32, buf: &mut String) -> bool {
    use std::fmt::Write;
    buf.clear();
    let _ = write!(buf, "{}", FormatFloat(n));
    if *buf == print(n) {
        return true;
    }
    if let Some(t) = tie(n) {
        if t.contains(buf) {
            return true;
        }
    }
    c.input(|| format!("{n:e} (bits {:#010x})", n.to_bits()));
    c.fail("print", format!("printed as {buf}, six significant digits are {}", print(n)));
    false
}
fn read_back(c: &mut Case, ctx: &Context, n: f32, text: &str) {
    let Some(v) = value(&read(ctx, text)) else {
        c.input(|| format!("{n:e} (bits {:#010x})", n.to_bits()));
        return c.fail("read back", format!("{text} is not read as a number"));
    };
    let again = FormatFloat(v).to_string();
    let near = n.is_nan() && v.is_nan() || n == v || ((n as f64 - v as f64).abs() <= n.abs() as f64 * 5.1e-6) || n.abs() < 1e-37;
    if again != text && tie(v).is_none() && !(n.is_nan() && v.is_nan()) || !near {
        c.input(|| format!("{n:e} (bits {:#010x})", n.to_bits()));
        c.fail("read back", format!("printed as {text}, which reads as {v:e} and prints as {again}"));
    }
}

fn numbers(r: &mut Runner) {
    // a pattern of mantissas for every sign and exponent
    r.suite("every exponent", "every sign and exponent with 8192 mantissas: all high bits with the low bits at the edges", 512, |i, c| {
        let ctx = Context::default();
        let mut buf = String::new();
        for high in 0..1024u32 {
            for low in [0, 1, 2, 0x0fff, 0x1000, 0x1001, 0x1ffe, 0x1fff] {
                let n = f32::from_bits((i as u32) << 23 | high << 13 | low);
                c.trans(1);
                if !printed(c, n, &mut buf) {
                    return;
                }
                read_back(c, &ctx, n, &buf);
                if c.failed() {
                    return;
                }
            }
        }
        c.outcome(&buf);
    });
    r.suite("powers of ten", "the numbers nearest to every power of ten and to every number of one to three digits", 84, |i, c| {
        let ctx = Context::default();
        let mut buf = String::new();
        let e = i as i32 - 45;
        for m in 1..=999u32 {
            let around: f32 = format!("{m}e{e}").parse().unwrap();
            let span = if m.is_power_of_two() || m % 100 == 0 { 64 } else { 3 };
            for d in -span..=span {
                let n = f32::from_bits((around.to_bits() as i64 + d).clamp(0, 0x7f80_0000) as u32);
                c.trans(1);
                if !printed(c, n, &mut buf) {
                    return;
                }
                read_back(c, &ctx, n, &buf);
                if c.failed() {
                    return;
                }
            }
        }
        c.outcome(&buf);
    });
    let whole = r.pick(1 << 20, 1 << 24);
    r.suite("whole numbers", "every whole number from 0, positive and negative, as the language's numbers print", whole / 4096, |i, c| {
        let mut buf = String::new();
        for k in 0..4096u32 {
            let n = (i as u32 * 4096 + k) as f32;
            c.trans(2);
            if !printed(c, n, &mut buf) || !printed(c, -n, &mut buf) {
                return;
            }
            let int = Token::Int(i as i32 * 4096 + k as i32).to_string();
            if int != FormatFloat(n).to_string() {
                c.fail("int", format!("{n} is written {int}"));
            }
            if n < 1e6 && int != format!("{}", n as u32) {
                c.input(|| format!("{n}"));
                return c.fail("int", format!("{n} is written {int}"));
            }
        }
        c.outcome(&buf);
    });
    if r.thorough() {
        r.suite("every number", "every one of the 2^32 numbers prints with six significant digits", 1 << 14, |i, c| {
            let mut buf = String::new();
            for k in 0..1u32 << 18 {
                c.trans(1);
                if !printed(c, f32::from_bits((i as u32) << 18 | k), &mut buf) {
                    return;
                }
            }
            c.outcome(&buf);
        });
    }
}

// ------------------------------------------------------------------------------------------------
// Reading decimal numbers: the nearest 32-bit number, exactly

/// numerator and denominator as powers: digits * 10^exp against n, exactly
fn nearest(digits: u128, exp: i32, n: f32) -> bool {
    // compare |digits*10^exp - n| with the distances to the neighbours, all scaled to integers
    let (mant, e2) = if n == 0.0 {
        (0i128, -149)
    } else {
        let bits = n.to_bits();
        let e = (bits >> 23 & 0xff) as i32;
        if e == 0 { ((bits & 0x7f_ffff) as i128, -149) } else { ((bits & 0x7f_ffff | 0x80_0000) as i128, e - 150) }
    };
    // lower half gap is half as wide at a power of two
    let lower_half = if mant == 0x80_0000 && e2 > -149 { 1 } else { 2 };
    // value*4 / 2^e2 lies within [4*mant - lower_half, 4*mant + 2]
    let lo = Big::from((4 * mant - lower_half).max(0) as u128);
    let hi = Big::from((4 * mant + 2) as u128);
    let mut v = Big::from(digits).mul(4);
    let (mut l, mut h) = (lo, hi);
    for _ in 0..exp.max(0) {
        v = v.mul(10);
    }
    for _ in 0..(-exp).max(0) {
        l = l.mul(10);
        h = h.mul(10);
    }
    for _ in 0..e2.max(0) {
        l = l.mul(2);
        h = h.mul(2);
    }
    for _ in 0..(-e2).max(0) {
        v = v.mul(2);
    }
    let odd = mant & 1 == 1;
    (if odd { l.lt(&v) } else { !v.lt(&l) }) && (if odd { v.lt(&h) } else { !h.lt(&v) })
}
/// a natural number, least significant first
#[derive(Clone, Debug)]
struct Big(Vec<u32>);
impl Big {
    fn from(mut v: u128) -> Big {
        let mut d = vec![];
        while v > 0 {
            d.push(v as u32);
            v >>= 32;
        }
        Big(d)
    }
    fn mul(mut self, k: u32) -> Big {
        let mut carry = 0u64;
        for d in &mut self.0 {
            let x = *d as u64 * k as u64 + carry;
            *d = x as u32;
            carry = x >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
        self
    }
    fn lt(&self, o: &Big) -> bool {
        if self.0.len() != o.0.len() {
            return self.0.len() < o.0.len();
        }
        self.0.iter().rev().lt(o.0.iter().rev())
    }
}

fn reading(r: &mut Runner) {
    let n = r.pick(4, 6);
    r.suite("decimals", "every number of so many digits with every exponent is read as the nearest number there is", 90, |i, c| {
        let ctx = Context::default();
        let exp = i as i32 - 48;
        let step = if n == 4 { 1 } else { 7 };
        for m in (1..10u128.pow(n as u32)).step_by(step) {
            c.trans(1);
            // the forms a number can be spelled in
            let d = m.to_string();
            let text = match m % 5 {
                0 => format!("{m}e{exp}"),
                1 => format!("{m}E{exp:+}"),
                2 => format!("{}.{}e{}", &d[..1], if d.len() > 1 { &d[1..] } else { "0" }, exp + d.len() as i32 - 1),
                3 => format!("0.{d}e{}", exp + d.len() as i32),
                _ => format!("{m}.0e{exp:03}"),
            };
            match value(&read(&ctx, &text)) {
                Some(v) if v.is_infinite() => {
                    if nearest(m, exp, f32::MAX) || (m as f64) * 10f64.powi(exp) < 3.4e38 {
                        c.input(|| text.clone());
                        return c.fail("read", "not infinite".to_string());
                    }
                },
                Some(v) if nearest(m, exp, v) => {},
                v => {
                    c.input(|| text.clone());
                    return c.fail("read", format!("read as {v:?}"));
                },
            }
        }
        if !ctx.errors().is_empty() {
            c.fail("errors", format!("{:?}", errors_text(&ctx)));
        }
    });
    // integers around the limits
    r.suite("large integers", "integers around every power of two from 2^20 to 2^70, and whether something is lost in reading them", 51, |i, c| {
        let p = 1u128 << (20 + i);
        for d in -600i128..=600 {
            let n = (p as i128 + d) as u128;
            for text in [n.to_string(), format!("{:?}", n).replacen('1', "1_", 1)] {
                c.trans(1);
                let ctx = Context::default();
                let t = read(&ctx, &text);
                let lost: Vec<_> = ctx.errors().iter().map(|e| (e.severity(), e.errortype().unwrap_or("").to_owned())).collect();
                c.input(|| text.clone());
                if n <= i32::MAX as u128 {
                    if t != [Token::Int(n as i32)] || !lost.is_empty() {
                        return c.fail("integer", format!("{t:?} {lost:?}"));
                    }
                    continue;
                }
                let Some(v) = value(&t) else {
                    return c.fail("integer", format!("{t:?}"));
                };
                if !nearest(n, 0, v) {
                    return c.fail("integer", format!("read as {v:e}"));
                }
                let exact = v as u128 == n;
                let want: Vec<(Severity, String)> = if exact { vec![] } else { vec![(Severity::Warning, "integer_precision_loss".into())] };
                if lost != want {
                    return c.fail("precision", format!("{text} is {} a number, but the diagnostics are {lost:?}", if exact { "exactly" } else { "not" }));
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// Constants

fn constants(r: &mut Runner) {
    let strings: Vec<String> = {
        let alpha = ["a", " ", "\\\"", "\\\\", "\\n", "\\[", "]", "'", "{", "}", "/", "é", "%", ";", "\\improper "];
        let mut v = vec![String::new()];
        for a in alpha {
            v.push(a.into());
            for b in alpha {
                v.push(format!("{a}{b}"));
                for d in alpha {
                    v.push(format!("{a}{b}{d}"));
                }
            }
        }
        v
    };
    fn eval(s: &str) -> Result<Constant, String> {
        dm::constants::evaluate_str(Location::default(), s.as_bytes()).map_err(|e| e.description().to_owned())
    }
    fn round(c: &mut Case, s: &str) {
        c.trans(1);
        let v = match eval(s) {
            Ok(v) => v,
            Err(e) => {
                c.input(|| s.to_owned());
                return c.fail("evaluate", e);
            },
        };
        let text = v.to_string();
        c.outcome(&text);
        match eval(&text) {
            Ok(again) if again == v => {},
            Ok(again) => {
                c.input(|| s.to_owned());
                c.fail("constant", format!("prints as {text}, which is {again:?} instead of {v:?}"));
            },
            Err(e) => {
                c.input(|| s.to_owned());
                c.fail("constant", format!("prints as {text}, which does not evaluate: {e}"));
            },
        }
    }
    r.suite("strings", "every string of up to three pieces, in every kind of quotes", strings.len() as u64, |i, c| {
        let s = &strings[i as usize];
        round(c, &format!("\"{s}\""));
        round(c, &format!("{{\"{s}\"}}"));
        let plain = s.replace("\\\"", "\"").replace("\\n", "\n");
        if !plain.contains('"') || !plain.contains("\"}") {
            round(c, &format!("{{\"{plain}\"}}"));
        }
        if !plain.contains('"') && !plain.contains('\n') {
            round(c, &format!("@\"{}\"", plain.replace('\\', "/")));
        }
        round(c, &format!("'{}'", s.replace('\'', "\\'")));
    });
    // strings that only raw quotes can hold
    const RAW: [&str; 11] = ["a", "[", "]", "\\", "\"", "{", "}", "@", "\n", "'", "#"];
    let depth = r.pick(5, 7);
    r.suite("raw strings", "every raw string of up to so many pieces, in every kind of raw quotes", count_upto(11, depth - 2), |i, c| {
        let head: String = word(11, i).iter().map(|k| RAW[*k]).collect();
        let full = word(11, i).len() == depth - 2;
        for tail in 0..if full { 121 } else { 1 } {
            let s = if full { format!("{head}{}{}", RAW[tail / 11], RAW[tail % 11]) } else { head.clone() };
            for (open, close) in [("@\"", "\""), ("@{\"", "\"}"), ("@#", "#"), ("@(xy)", "xy"), ("@@", "@"), ("@'", "'")] {
                // the first appearance of the end is the end
                if format!("{s}{close}").find(close) == Some(s.len()) && !(close.len() == 1 && s.contains('\n')) {
                    round(c, &format!("{open}{s}{close}"));
                }
            }
            if c.failed() {
                return;
            }
        }
    });
    let leaves: Vec<String> = ["null", "0", "1", "-1", "0.5", "-2.25", "1e10", "-1e-10", "123456", "1.#INF", "\"\"", "\"a\"", "\"a\\\"b\"", "{\"a\nb\"}", "'icon.dmi'", "/obj", "/obj/item/x", "/obj{a = 1}", "/obj{a = 1; b = \"x\"}", "list()", "newlist(/obj)", "matrix(1, 0, 0, 0, 1, 0)", "new /obj", "new /obj()", "new /obj(1)", "icon('a.dmi', \"s\")", "/proc/f", "/mob/proc/f", "/mob/verb/f", "sound('s.ogg')", "filter(type = \"blur\", size = 2)", "generator(\"num\", 0, 1)", "file(\"x.txt\")"].iter().map(|s| s.to_string()).collect();
    let n = leaves.len();
    r.suite("constants", "every constant, in every list and call of up to two, keys and values", (n * (n + 1)) as u64, |i, c| {
        let a = &leaves[i as usize % n];
        let k = i as usize / n;
        if k == n {
            for form in ["#", "(#)", "list(#)", "list(list(#))", "list(\"k\" = #)", "list(#, 1, #)", "list(\"a\" = #, \"b\" = list(#))", "newlist(#)", "new /obj(#)", "matrix(#)", "/obj{a = #}", "/obj{a = #; b = list(#)}", "list(/obj{a = #} = #)", "list(new /obj(#))"] {
                round(c, &form.replace('#', a));
            }
            return;
        }
        let b = &leaves[k];
        for form in ["list(#, %)", "list(# = %)", "list(\"k\" = #, %)", "list(#, \"k\" = %)", "list(# = %, % = #)", "list(list(#), list(%))", "new /obj(#, %)", "/obj{a = #; b = %}", "matrix(#, %)", "newlist(#, %)", "list(1, list(\"x\" = #), %)"] {
            round(c, &form.replace('#', a).replace('%', b));
        }
    });
}

pub fn check(r: &mut Runner) {
    numbers(r);
    reading(r);
    constants(r);
}
