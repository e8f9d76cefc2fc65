//! The real lexer vs. a position-indexed reference lexer, on every string over several alphabets.
use crate::util::*;
use dm::docs::{CommentKind, DocComment, DocTarget};
use dm::lexer::{Lexer, LocatedToken, LocationTracker, Punctuation, Token};
use dm::{Context, FileId, Location};
use mc_common::*;

/// Independent list of DM's punctuation (longest match wins).
const PUNCT: &[(&str, Punctuation)] = {
    use Punctuation::*;
    &[
        ("\n", Newline), ("\t", Tab), (" ", Space),
        ("!", Not), ("!=", NotEq), ("#", Hash), ("##", TokenPaste),
        ("%", Mod), ("%=", ModAssign), ("%%", FloatMod), ("%%=", FloatModAssign),
        ("&", BitAnd), ("&&", And), ("&=", BitAndAssign), ("&&=", AndAssign),
        ("(", LParen), (")", RParen), ("*", Mul), ("**", Pow), ("*=", MulAssign),
        ("+", Add), ("++", PlusPlus), ("+=", AddAssign), (",", Comma),
        ("-", Sub), ("--", MinusMinus), ("-=", SubAssign),
        (".", Dot), ("..", Super), ("...", Ellipsis), ("/", Slash), ("/=", DivAssign),
        (":", Colon), ("::", Scope), (":=", AssignInto), (";", Semicolon),
        ("<", Less), ("<<", LShift), ("<<=", LShiftAssign), ("<=", LessEq), ("<=>", LessOrGreater), ("<>", LessGreater),
        ("=", Assign), ("==", Eq), (">", Greater), (">=", GreaterEq), (">>", RShift), (">>=", RShiftAssign),
        ("?", QuestionMark), ("?.", SafeDot), ("?:", SafeColon), ("?[", SafeLBracket),
        ("[", LBracket), ("]", RBracket), ("^", BitXor), ("^=", BitXorAssign),
        ("{", LBrace), ("}", RBrace), ("|", BitOr), ("||", Or), ("|=", BitOrAssign), ("||=", OrAssign),
        ("~", BitNot), ("~=", Equiv), ("~!", NotEquiv),
    ]
};

fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_owned(),
        Err(_) => b.iter().map(|&c| c as char).collect(),
    }
}

#[derive(Default)]
struct RefOut {
    toks: Vec<(Token, usize)>, // token, byte offset of its first character
    error: bool,
    /// Tokens after this many are unspecified (an error made recovery implementation-defined).
    cut: bool,
    /// Indices of tokens whose colon tightness is not specified (after a literal).
    loose: Vec<usize>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// Reference lexer.  Works on the whole buffer by position.
fn reference(s: &[u8]) -> RefOut {
    let mut o = RefOut::default();
    let mut i = if s.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
    let base = i;
    let n = s.len();
    let at = |k: usize| -> Option<u8> { s.get(k).copied() };
    // "line head": only blanks between the line's start and here
    let head = |k: usize| {
        let mut j = k;
        while j > base && (s[j - 1] == b' ' || s[j - 1] == b'\t') {
            j -= 1;
        }
        j == base || s[j - 1] == b'\n'
    };
    let line_of = |k: usize| s[..k].iter().filter(|&&c| c == b'\n').count();
    let mut interp: Vec<(&'static [u8], u32)> = vec![];
    let mut hash_line: Option<usize> = None; // line with a '#' whose directive word is still to come
    let mut ordinary_line: Option<usize> = None;
    let mut stringy = false;
    // tightness of a colon: 2 = directly after an identifier, ')' or ']' ; 0 = after blanks ; 1 = other
    let mut prev_kind = 2u8;
    loop {
        // skip whitespace
        while i < n {
            match s[i] {
                b'\r' => {},
                b' ' | b'\t' if !head(i) => prev_kind = 0,
                _ => break,
            }
            i += 1;
        }
        if i >= n {
            o.toks.push((Token::Punct(Punctuation::Newline), usize::MAX));
            return o;
        }
        let start = i;
        let c = s[i];
        if stringy {
            stringy = false;
            ordinary_line = None;
            let (tok, e) = string(s, &mut i, b"\n", false, &mut interp);
            o.error |= e;
            o.toks.push((tok, start));
            if prev_kind == 2 { prev_kind = 1 }
            continue;
        }
        let here = line_of(i);
        if hash_line.is_some_and(|l| l != here) {
            hash_line = None;
        }
        if ordinary_line.is_some_and(|l| l != here) {
            ordinary_line = None;
        }
        // comments
        if s[i..].starts_with(b"//") {
            i += 2;
            let doc = match at(i) {
                Some(b'/') => Some(DocTarget::FollowingItem),
                Some(b'!') => Some(DocTarget::EnclosingItem),
                _ => None,
            };
            if doc.is_some() {
                i += 1;
            }
            let mut t = vec![];
            let mut bs = false;
            while i < n {
                let ch = s[i];
                if ch == b'\n' && !bs {
                    break;
                }
                if ch != b'\n' && ch != b'\r' {
                    t.push(ch);
                }
                if ch != b'\r' {
                    bs = ch == b'\\' && !bs;
                }
                i += 1;
            }
            if let Some(target) = doc {
                let mut d = DocComment::new(CommentKind::Line, target);
                d.text = text(&t);
                o.toks.push((Token::DocComment(d), start));
            }
            continue;
        }
        if s[i..].starts_with(b"/*") {
            i += 2;
            let doc = match at(i) {
                Some(b'*') => Some(DocTarget::FollowingItem),
                Some(b'!') => Some(DocTarget::EnclosingItem),
                _ => None,
            };
            // the marker is not part of the text, though an asterisk in it may be part of the end
            let t0 = i + doc.is_some() as usize;
            if at(i) == Some(b'!') {
                i += 1;
            }
            let mut depth = 1;
            let mut closed = None;
            while i + 1 < n {
                if &s[i..i + 2] == b"/*" {
                    depth += 1;
                } else if &s[i..i + 2] == b"*/" {
                    depth -= 1;
                    if depth == 0 {
                        closed = Some(i);
                        i += 2;
                        break;
                    }
                }
                i += 1;
            }
            match closed {
                Some(e) => {
                    if let Some(target) = doc {
                        if e > t0 {
                            let mut d = DocComment::new(CommentKind::Block, target);
                            d.text = text(&s[t0..e]);
                            o.toks.push((Token::DocComment(d), start));
                        }
                    }
                },
                None => {
                    o.error = true;
                    o.cut = true;
                    return o;
                },
            }
            continue;
        }
        match c {
            b'\'' => {
                i += 1;
                let mut t = vec![];
                let mut closed = false;
                while i < n {
                    match s[i] {
                        b'\'' => {
                            closed = true;
                            i += 1;
                            break;
                        },
                        b'\\' if i + 1 < n => {
                            t.push(s[i + 1]);
                            i += 2;
                        },
                        b'\\' => i += 1,
                        ch => {
                            t.push(ch);
                            i += 1;
                        },
                    }
                }
                o.error |= !closed;
                o.toks.push((Token::Resource(text(&t)), start));
                if prev_kind == 2 { prev_kind = 1 }
                continue;
            },
            b'"' => {
                i += 1;
                let (tok, e) = string(s, &mut i, b"\"", false, &mut interp);
                o.error |= e;
                o.toks.push((tok, start));
                if prev_kind == 2 { prev_kind = 1 }
                continue;
            },
            b'{' if at(i + 1) == Some(b'"') => {
                i += 2;
                let (tok, e) = string(s, &mut i, b"\"}", false, &mut interp);
                o.error |= e;
                o.toks.push((tok, start));
                if prev_kind == 2 { prev_kind = 1 }
                continue;
            },
            b'@' => {
                i += 1;
                let term: Vec<u8> = match at(i) {
                    None | Some(b'\n') => {
                        o.error = true;
                        o.cut = true;
                        return o;
                    },
                    Some(b'(') => {
                        match s[i + 1..].iter().position(|&c| c == b')') {
                            Some(k) if k > 0 => {
                                let t = s[i + 1..i + 1 + k].to_vec();
                                i += k + 2;
                                t
                            },
                            _ => {
                                o.error = true;
                                o.cut = true;
                                return o;
                            },
                        }
                    },
                    Some(b'{') if at(i + 1) == Some(b'"') => {
                        i += 2;
                        b"\"}".to_vec()
                    },
                    Some(t) => {
                        i += 1;
                        vec![t]
                    },
                };
                let tok = match s[i..].windows(term.len()).position(|w| w == &term[..]) {
                    Some(k) => {
                        let t = text(&s[i..i + k]);
                        i += k + term.len();
                        t
                    },
                    None => {
                        o.error = true;
                        let t = text(&s[i..]);
                        i = n;
                        t
                    },
                };
                o.toks.push((Token::String(tok), start));
                if prev_kind == 2 { prev_kind = 1 }
                continue;
            },
            b'\\' => {
                // join with the next line: skip blanks, at most one newline, blanks
                i += 1;
                let mut nl = false;
                while i < n {
                    match s[i] {
                        b'\r' => {},
                        b' ' | b'\t' => prev_kind = 0,
                        b'\n' if !nl => {
                            nl = true;
                            prev_kind = 2;
                        },
                        _ => break,
                    }
                    i += 1;
                }
                continue;
            },
            b'0'..=b'9' => {
                match number(s, &mut i) {
                    Some(t) => o.toks.push((t, start)),
                    None => {
                        o.error = true;
                        o.cut = true;
                        return o;
                    },
                }
                if prev_kind == 2 { prev_kind = 1 }
                continue;
            },
            b'_' | b'a'..=b'z' | b'A'..=b'Z' => {
                while i < n && is_word(s[i]) {
                    i += 1;
                }
                let w = text(&s[start..i]);
                if hash_line == Some(here) {
                    hash_line = None;
                    if w == "warn" || w == "error" {
                        stringy = true;
                    } else {
                        ordinary_line = Some(here);
                    }
                }
                if w == "in" {
                    o.toks.push((Token::Punct(Punctuation::In), start));
                    if prev_kind == 2 { prev_kind = 1 }
                } else {
                    let ws = matches!(at(i), Some(b' ') | Some(b'\t'));
                    o.toks.push((Token::Ident(w.into(), ws), start));
                    prev_kind = 2;
                }
                continue;
            },
            _ => {},
        }
        // punctuation, longest first
        let best = PUNCT.iter().filter(|(t, _)| s[i..].starts_with(t.as_bytes())).max_by_key(|(t, _)| t.len());
        match best {
            Some(&(t, mut p)) => {
                i += t.len();
                if p == Punctuation::Hash && hash_line.is_none() && ordinary_line.is_none() {
                    hash_line = Some(here);
                }
                if p == Punctuation::RBracket {
                    if let Some((end, d)) = interp.pop() {
                        if d == 1 {
                            let (tok, e) = string(s, &mut i, end, true, &mut interp);
                            o.error |= e;
                            o.toks.push((tok, start));
                            if prev_kind == 2 { prev_kind = 1 }
                            continue;
                        }
                        interp.push((end, d - 1));
                    }
                }
                if matches!(p, Punctuation::LBracket | Punctuation::SafeLBracket) {
                    if let Some(l) = interp.last_mut() {
                        l.1 += 1;
                    }
                }
                if p == Punctuation::Colon {
                    let gap = matches!(at(i), Some(b' ' | b'\t' | b'\r' | b'\n'));
                    if !gap && prev_kind != 0 {
                        p = Punctuation::CloseColon;
                    }
                    if prev_kind == 1 {
                        o.loose.push(o.toks.len());
                    }
                }
                o.toks.push((Token::Punct(p), start));
                prev_kind = match p {
                    Punctuation::RBracket | Punctuation::RParen => 2,
                    _ if prev_kind == 2 => 1,
                    _ => prev_kind,
                };
            },
            None => {
                // a byte outside the grammar: reported and skipped
                o.error = true;
                i += 1;
            },
        }
    }
}

fn string(s: &[u8], i: &mut usize, end: &'static [u8], closing: bool, interp: &mut Vec<(&'static [u8], u32)>) -> (Token, bool) {
    let n = s.len();
    let mut t: Vec<u8> = vec![];
    let mut opened = false;
    let mut error = false;
    loop {
        if *i >= n {
            error = end != b"\n";
            // a trailing lone backslash or half terminator contributes nothing
            break;
        }
        if s[*i..].starts_with(end) {
            *i += end.len();
            break;
        }
        match s[*i] {
            b'[' if end != b"\n" => {
                *i += 1;
                interp.push((end, 1));
                opened = true;
                break;
            },
            b'\\' => match s.get(*i + 1) {
                Some(b'\n') | Some(b'\r') => {
                    *i += 2;
                    let mut nl = false;
                    while *i < n {
                        match s[*i] {
                            b'\r' | b' ' | b'\t' => {},
                            b'\n' if !nl => nl = true,
                            _ => break,
                        }
                        *i += 1;
                    }
                },
                Some(&e) => {
                    t.push(b'\\');
                    t.push(e);
                    *i += 2;
                },
                None => *i += 1,
            },
            ch => {
                if !(end.len() == 2 && ch == b'"' && *i + 1 == n) {
                    t.push(ch);
                }
                *i += 1;
            },
        }
    }
    let t = text(&t);
    (
        match (closing, opened) {
            (false, false) => Token::String(t),
            (false, true) => Token::InterpStringBegin(t),
            (true, true) => Token::InterpStringPart(t),
            (true, false) => Token::InterpStringEnd(t),
        },
        error,
    )
}

/// `None`: malformed number.
fn number(s: &[u8], i: &mut usize) -> Option<Token> {
    let st = *i;
    let hex = s[st] == b'0' && s.get(st + 1) == Some(&b'x');
    let octal = s[st] == b'0' && !hex;
    let mut body = String::new();
    let mut integer = true;
    if hex {
        // a bare `0x` reads as zero
        body.push('0');
        *i += 2;
    }
    let mut after_exp = false;
    while let Some(&c) = s.get(*i) {
        match c {
            b'_' => {
                // separators are dropped, and do not end an exponent marker
                *i += 1;
                continue;
            },
            b'.' => integer = hex && integer,
            b'e' | b'E' => {
                if !hex {
                    integer = false;
                    after_exp = true;
                    body.push(c as char);
                    *i += 1;
                    continue;
                }
            },
            b'+' | b'-' if after_exp => {
                body.push(c as char);
                *i += 1;
                continue;
            },
            b'#' => {
                let r = &s[*i + 1..];
                if r.starts_with(b"INF") {
                    *i += 4;
                    return Some(Token::Float(f32::INFINITY));
                } else if r.starts_with(b"IND") {
                    *i += 4;
                    return Some(Token::Float(f32::NAN));
                }
                return None;
            },
            b'0'..=b'9' => after_exp = false,
            b'a'..=b'f' | b'A'..=b'F' if hex => {},
            _ => break,
        }
        body.push(c as char);
        *i += 1;
    }
    if integer {
        let radix = if hex { 16 } else if octal { 8 } else { 10 };
        // exact arithmetic, independent of the parser under test
        let mut v: u128 = 0;
        if body.is_empty() {
            return None;
        }
        if radix == 10 && body.len() > 30 {
            return decimal(&body).map(Token::Float);
        }
        for c in body.chars() {
            v = v.checked_mul(radix as u128)?.checked_add(c.to_digit(radix)? as u128)?;
        }
        if v <= i32::MAX as u128 {
            Some(Token::Int(v as i32))
        } else if radix == 10 {
            Some(Token::Float(v as f32))
        } else {
            None
        }
    } else {
        decimal(&body).map(Token::Float)
    }
}

/// digits [. digits] [e [sign] digits] -> f32; `None` when malformed.
fn decimal(b: &str) -> Option<f32> {
    let (mant, exp) = match b.find(['e', 'E']) {
        Some(k) => (&b[..k], Some(&b[k + 1..])),
        None => (b, None),
    };
    let (int, frac) = match mant.find('.') {
        Some(k) => (&mant[..k], &mant[k + 1..]),
        None => (mant, ""),
    };
    if !int.bytes().all(|c| c.is_ascii_digit()) || !frac.bytes().all(|c| c.is_ascii_digit()) || int.len() + frac.len() == 0 {
        return None;
    }
    let e: i64 = match exp {
        None => 0,
        Some(x) => {
            let d = x.strip_prefix(['+', '-']).unwrap_or(x);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let v: i64 = d.parse().unwrap_or(1 << 40);
            if x.starts_with('-') { -v } else { v }
        },
    };
    let digits: f64 = format!("{int}{frac}").parse().ok()?;
    let p = (e - frac.len() as i64).clamp(-100000, 100000);
    // at most 6 digits here: exact as f64, one correctly rounded scaling
    let v = if digits == 0.0 {
        0.0
    } else if p > 300 {
        f64::INFINITY
    } else if p < -300 {
        0.0
    } else if p >= 0 {
        digits * 10f64.powi(p as i32)
    } else {
        digits / 10f64.powi(-p as i32)
    };
    Some(v as f32)
}

fn locate(s: &[u8], off: usize, base_line: u32, base_col: u16) -> (u32, u16) {
    let bom = if s.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
    let mut line = base_line;
    let mut col = base_col;
    for &c in &s[bom..off.min(s.len())] {
        if c == b'\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (line, col)
}

fn compare(s: &[u8], c: &mut Case, from: Option<(u32, u16)>) {
    c.input(|| format!("{:?}", String::from_utf8_lossy(s)));
    let want = reference(s);
    let ctx = Context::default();
    let file = FileId::default();
    let got: Vec<LocatedToken> = match from {
        None => Lexer::new(&ctx, file, s).collect(),
        Some((line, column)) => {
            Lexer::from_input(&ctx, LocationTracker::from_location(Location { file, line, column }, s.into())).collect()
        },
    };
    let (bl, bc) = from.unwrap_or((1, 1));
    c.trans(got.len() as u64);
    c.validated(1);
    let kinds: Vec<_> = got.iter().map(|t| (std::mem::discriminant(&t.token), if let Token::Punct(p) = &t.token { Some(*p as u8) } else { None })).collect();
    c.state(&kinds);
    c.outcome(&(want.error, got.len()));
    let n = want.toks.len();
    if got.len() < n || (!want.cut && got.len() != n) {
        c.fail("token count", format!("expected {} tokens {:?}\n got {}", n, want.toks, show_tokens(&got)));
        return;
    }
    for (k, (t, off)) in want.toks.iter().enumerate() {
        let g = &got[k];
        let colon = |t: &Token| matches!(t, Token::Punct(Punctuation::Colon | Punctuation::CloseColon));
        if !(tok_eq(t, &g.token) || (want.loose.contains(&k) && colon(t) && colon(&g.token))) {
            c.fail("token", format!("token {k}: expected {t:?}, got {:?}\n all: {}", g.token, show_tokens(&got)));
            return;
        }
        let loc = if *off == usize::MAX { locate(s, s.len(), bl, bc) } else { locate(s, *off, bl, bc) };
        if (g.location.line, g.location.column) != loc {
            c.fail("location", format!("token {k} {t:?}: expected at {loc:?}, got {}:{}", g.location.line, g.location.column));
            return;
        }
    }
    // a diagnostic is raised exactly when the text is lexically malformed
    if want.error != has_errors(&ctx) {
        c.fail("diagnostic", format!("malformed={} but errors: {:?}", want.error, errors_text(&ctx)));
    }
}

fn words(r: &mut Runner, name: &str, atoms: &[&str], max: usize) {
    let rule = format!("every string of up to {max} atoms from {atoms:?}");
    r.suite(name, &rule, count_upto(atoms.len(), max), |i, c| {
        let s: String = word(atoms.len(), i).into_iter().map(|d| atoms[d]).collect();
        compare(s.as_bytes(), c, None);
    });
}

pub fn check(r: &mut Runner) {
    r.assume("after a lexical error whose recovery is unspecified (unterminated comment, bad number, bad raw-string opener) only the diagnostic and the tokens before it are compared");
    let t = r.thorough();
    let all: Vec<String> = (33u8..127).map(|b| (b as char).to_string()).filter(|c| !c.chars().all(|c| c.is_ascii_alphanumeric())).collect();
    let mut punct: Vec<&str> = all.iter().map(|s| &s[..]).collect();
    punct.extend(["a", " ", "\n"]);
    words(r, "punctuation", &punct, if t { 4 } else { 4 });
    let ops: Vec<&str> = vec!["!", "%", "&", "*", "+", "-", ".", "/", ":", "<", "=", ">", "?", "[", "^", "|", "~", "#", "a"];
    words(r, "operators", &ops, if t { 6 } else { 5 });
    words(r, "strings", &["\"", "{\"", "\"}", "[", "]", "\\", "\n", " ", "a", "?", "}"], if t { 8 } else { 7 });
    words(r, "raw strings", &["@", "(", ")", "\"", "{", "}", "a", "\n", "\\", "'"], if t { 8 } else { 7 });
    words(r, "comments", &["/", "*", "!", "\n", "\\", "\"", "a", " ", "\r"], if t { 8 } else { 7 });
    words(r, "numbers", &["0", "1", "8", ".", "e", "E", "+", "-", "x", "a", "F", "_", "#INF", "#IND", "2147483648", " "], if t { 6 } else { 5 });
    words(r, "directives", &["#", "warn", "error", "if", " ", "\n", "\\", "\"", "[", "]", "1", "//"], if t { 8 } else { 7 });
    words(r, "lines", &[" ", "\t", "\n", "\r", "\\", "a", ":", ".", "in", ")"], if t { 8 } else { 7 });
    let ctxs: &[(&str, &str)] = &[("", ""), ("a", "b"), ("\"", "\" a"), ("'", "' a"), ("///", "\n a"), ("/**", "*/ a"), ("@x", "x a"), ("\u{feff}a", "\n")];
    r.suite("bytes", "every pair of bytes inside each lexical context (plain, identifier, string, resource, comment, raw string, after a BOM)", 65536 * ctxs.len() as u64, |i, c| {
        let (p, q) = ctxs[(i / 65536) as usize];
        let mut s = p.as_bytes().to_vec();
        s.push((i >> 8) as u8);
        s.push(i as u8);
        s.extend_from_slice(q.as_bytes());
        // inside a comment, NUL is dropped from documentation text: not specified
        if p == "/**" && s[3..].contains(&0) {
            return;
        }
        compare(&s, c, None);
    });
    let atoms = ["a", "\n", " ", "\t", "\"", "/", "+", "(", "\\", "["];
    let max = r.pick(4, 5);
    r.suite("start position", "every string of atoms, lexed as a fragment that starts at line 5 column 7, at line 3 column 1", 2 * count_upto(atoms.len(), max), |i, c| {
        let s: String = word(atoms.len(), i / 2).into_iter().map(|d| atoms[d]).collect();
        compare(s.as_bytes(), c, Some(if i % 2 == 0 { (5, 7) } else { (3, 1) }));
    });
}
