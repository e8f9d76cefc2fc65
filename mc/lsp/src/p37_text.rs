//! P37: colours, folding regions and links of a document are exactly those its text spells.
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};

fn with_text<R>(text: &str, f: impl FnOnce(&mut Server, &str) -> Res<R>) -> Res<R> {
    with_server(|s| {
        let uri = "file:///p37/t.dm";
        s.open(uri, 1, text);
        let v = f(s, uri);
        s.close(uri);
        v
    })
}

// ---------------------------------------------------------------------------------------------
// folding

const LINES: [(&str, i8); 14] = [
    ("//#region", 1),
    ("//#endregion", -1),
    ("\t// #region one two", 1),
    ("    // #endregion\tmore", -1),
    ("x = 1", 0),
    ("//  #region", 0),
    ("//#regions", 0),
    ("#region", 0),
    ("x //#endregion", 0),
    ("///#endregion", 0),
    ("// #Region", 0),
    ("//#endregion-", 0),
    ("", 0),
    ("/* //#region */", 0),
];

fn folding(r: &mut Runner) {
    let depth = r.pick(5, 6);
    for (name, k, depth) in [("folding", LINES.len(), r.pick(4, 5)), ("folding-deep", 4, depth + 3)] {
        let n = count_upto(k, depth);
        const CHUNK: u64 = 500;
        r.suite(
            name,
            "every sequence of up to N lines which start or end a region, look like it or do not: each end closes the innermost region still open, and only then there is something to fold",
            n.div_ceil(CHUNK),
            |i, c| {
                for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let w = word(k, j);
                    let ending = ["\n", "\r\n", ""][(j % 3) as usize];
                    let sep = if ending.is_empty() { "\n" } else { ending };
                    let text = w.iter().map(|&l| LINES[l].0).collect::<Vec<_>>().join(sep) + ending;
                    let mut open = vec![];
                    let mut exp = vec![];
                    for (no, &l) in w.iter().enumerate() {
                        match LINES[l].1 {
                            1 => open.push(no),
                            -1 => {
                                if let Some(s) = open.pop() {
                                    exp.push(format!("{s}-{no}"));
                                }
                            },
                            _ => {},
                        }
                    }
                    c.input(|| text.clone());
                    c.trans(1);
                    match with_text(&text, |s, uri| s.doc("textDocument/foldingRange", uri)) {
                        Err(e) => c.fail("server", e),
                        Ok(v) => {
                            c.validated(1);
                            let mut act: Vec<String> = v.as_array().into_iter().flatten().map(|f| format!("{}-{}", f["startLine"], f["endLine"])).collect();
                            act.sort();
                            exp.sort();
                            c.check_eq(&format!("regions of {text:?}"), &exp, &act);
                            if v.as_array().into_iter().flatten().any(|f| f["kind"] != "region") {
                                c.fail("kind", format!("not all regions: {v}"));
                            }
                            c.outcome(&act);
                        },
                    }
                    if c.failed() {
                        return;
                    }
                }
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// colours

/// A piece of text and the colour it is.
fn pieces() -> Vec<(String, Option<[u8; 4]>)> {
    let mut out: Vec<(String, Option<[u8; 4]>)> = vec![];
    let digits = "1aF09Bc7e";
    let hex = |s: &str| u8::from_str_radix(s, 16).unwrap();
    for (a, b) in [("\"#", "\""), ("'#", "'"), ("\"#", "'"), ("\"", "\""), ("\"#", " \""), ("\" #", "\""), ("#", ""), ("'#", "\"")] {
        for n in 0..=9 {
            let d = &digits[..n];
            let short = |k: usize| hex(&d[k..k + 1].repeat(2));
            let long = |k: usize| hex(&d[k..k + 2]);
            let col = match (n, a, b) {
                (3, "\"#", "\"") | (3, "'#", "'") => Some([short(0), short(1), short(2), 255]),
                (4, "\"#", "\"") | (4, "'#", "'") => Some([short(0), short(1), short(2), short(3)]),
                (6, "\"#", "\"") | (6, "'#", "'") => Some([long(0), long(2), long(4), 255]),
                (8, "\"#", "\"") | (8, "'#", "'") => Some([long(0), long(2), long(4), long(6)]),
                _ => None,
            };
            // unbalanced quotes are only clear when nothing follows that closes them
            out.push((format!("{a}{d}{b}"), col));
        }
    }
    for s in ["\"#12g\"", "\"#g12\"", "\"#12345g\"", "'#12 '", "\"##123\"", "\"#-12\"", "\"#1.2\"", "\"#é12\""] {
        out.push((s.into(), None));
    }
    for (s, c) in [
        ("rgb(1,2,3)", Some([1, 2, 3, 255])),
        ("rgb( 255,  0, 17)", Some([255, 0, 17, 255])),
        ("rgb(1, 2, 3, 4)", Some([1, 2, 3, 4])),
        ("rgb(1,2,3,0)", Some([1, 2, 3, 0])),
        ("rgb(010,\t020,\n030 )", Some([10, 20, 30, 255])),
        ("rgb(256, 0, 0)", None),
        ("rgb(0, 256, 0)", None),
        ("rgb(0, 0, 999)", None),
        ("rgb(0, 0)", None),
        ("rgb(0, 0, 0, 0, 0)", None),
        ("rgb(1000, 0, 0)", None),
        ("rgb(-1, 0, 0)", None),
        ("rgb(x, 0, 0)", None),
        ("rgb(0, 0, 0,)", None),
        ("rgb (1, 2, 3)", None),
        ("RGB(1, 2, 3)", None),
        ("rgb(1 2 3)", None),
        ("rgb(#123)", None),
    ] {
        out.push((s.into(), c));
    }
    out
}

/// Where this place of the text is, lines and UTF-16 units.
fn position(text: &str, offset: usize) -> (u64, u64) {
    let before = &text[..offset];
    let line = before.rsplit('\n').next().unwrap();
    (before.matches('\n').count() as u64, line.encode_utf16().count() as u64)
}

type Place = ((u64, u64), (u64, u64));
fn found(v: &Value) -> Vec<(Place, [u8; 4])> {
    let p = |v: &Value| (v["line"].as_u64().unwrap_or(0), v["character"].as_u64().unwrap_or(0));
    let part = |v: &Value| (v.as_f64().unwrap_or(9.0) * 255.0).round() as u8;
    let mut out: Vec<_> = v
        .as_array()
        .into_iter()
        .flatten()
        .map(|x| ((p(&x["range"]["start"]), p(&x["range"]["end"])), [part(&x["color"]["red"]), part(&x["color"]["green"]), part(&x["color"]["blue"]), part(&x["color"]["alpha"])]))
        .collect();
    out.sort();
    out
}

fn colours(r: &mut Runner) {
    let pcs = pieces();
    let k = pcs.len();
    let seps = [" ", "\n", "\u{e9}\u{1D11E} "];
    let n = pow(k, 2) * seps.len() as u64;
    const CHUNK: u64 = 400;
    let all = &pcs;
    r.suite(
        "colours",
        "every pair of about a hundred texts that are colours or nearly are (0 to 9 hexadecimal digits in either quotes or mismatched ones, rgb() with good and bad arguments), separated by a space, a line break or characters of several bytes: exactly the colours, at their places",
        n.div_ceil(CHUNK),
        |i, c| {
            for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let mut d = Digits(j);
                let (a, b, sep) = (d.take(k), d.take(k), seps[d.take(seps.len())]);
                // a digit-only tail and a quote could meet
                let text = format!("{}{}{sep}{}", ["", "\u{e9}", "\t"][a % 3], all[a].0, all[b].0);
                let first = text.find(&all[a].0).unwrap();
                let mut exp = vec![];
                for (at, (s, col)) in [(first, &all[a]), (text.len() - all[b].0.len(), &all[b])] {
                    if let Some(col) = col {
                        exp.push(((position(&text, at), position(&text, at + s.len())), *col));
                    }
                }
                c.input(|| text.clone());
                c.trans(1);
                match with_text(&text, |s, uri| s.doc("textDocument/documentColor", uri)) {
                    Err(e) => c.fail("server", e),
                    Ok(v) => {
                        c.validated(1);
                        c.check_eq(&format!("the colours of {text:?}"), &exp, &found(&v));
                        c.outcome(&exp);
                    },
                }
                if c.failed() {
                    return;
                }
            }
        },
    );
}

const PARTS: [u8; 6] = [0, 0x11, 0x12, 0x80, 0xee, 0xff];
const ALPHAS: [u8; 4] = [0xff, 0, 0x33, 0x81];
const FORMS: [&str; 10] = ["\"#123\"", "'#123'", "\"#1234\"", "\"#102030\"", "'#102030'", "\"#10203040\"", "'#10203040'", "rgb(1,2,3)", "rgb( 1, 2, 3, 4 )", "nothing"];

fn spelled(form: &str, [r, g, b, a]: [u8; 4]) -> String {
    if form.starts_with("rgb") {
        return if form.matches(',').count() == 3 || a != 255 { format!("rgb({r}, {g}, {b}, {a})") } else { format!("rgb({r}, {g}, {b})") };
    }
    let q = if form.starts_with('\'') { '\'' } else { '"' };
    let digits = if form.starts_with('n') { 6 } else { form.len() - 3 };
    let alpha = matches!(digits, 4 | 8) || a != 255;
    let mut s = format!("{r:02x}{g:02x}{b:02x}");
    if alpha {
        s += &format!("{a:02x}");
    }
    let doubled = s.as_bytes().chunks(2).all(|p| p[0] == p[1]) && a % 0x11 == 0;
    if digits <= 4 && doubled {
        s = s.chars().step_by(2).collect();
    }
    format!("{q}#{s}{q}")
}

fn presentations(r: &mut Runner) {
    let n = (FORMS.len() * ALPHAS.len() * PARTS.len()) as u64;
    r.suite(
        "presentations",
        "every change of a colour in ten notations to one of 864 colours: the text offered keeps the notation (quotes, short or long digits, rgb, an alpha where there was one) as far as the new colour can be written in it, and is that colour again",
        n,
        |i, c| {
            let mut d = Digits(i);
            let form = FORMS[d.take(FORMS.len())];
            let (a, red) = (ALPHAS[d.take(ALPHAS.len())], PARTS[d.take(PARTS.len())]);
            let text = format!("x\n\u{1D11E} = {form} // \u{e9}\n");
            let range = json!({"start": {"line": 1, "character": 5}, "end": {"line": 1, "character": 5 + form.len()}});
            c.input(|| format!("{text} red {red} alpha {a}"));
            let mut offered = vec![];
            let r = with_text(&text, |s, uri| {
                for g in PARTS {
                    for b in PARTS {
                        let col = [red, g, b, a];
                        let v = s.request(
                            "textDocument/colorPresentation",
                            json!({"textDocument": {"uri": uri}, "range": range, "color": {
                                "red": red as f32 / 255.0, "green": g as f32 / 255.0, "blue": b as f32 / 255.0, "alpha": a as f32 / 255.0}}),
                        )?;
                        c.trans(1);
                        c.validated(1);
                        let labels: Vec<String> = v.as_array().into_iter().flatten().map(|p| p["label"].as_str().unwrap_or("?").to_string()).collect();
                        c.check_eq(&format!("{form} changed to {col:?}"), &vec![spelled(form, col)], &labels);
                        offered.push((labels.first().cloned().unwrap_or_default(), col));
                    }
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail("server", e);
                return;
            }
            let text: String = offered.iter().map(|o| format!("{}\n", o.0)).collect();
            match with_text(&text, |s, uri| s.doc("textDocument/documentColor", uri)) {
                Err(e) => c.fail("server", e),
                Ok(v) => {
                    let act: Vec<[u8; 4]> = found(&v).iter().map(|f| f.1).collect();
                    let exp: Vec<[u8; 4]> = offered.iter().map(|o| o.1).collect();
                    c.check_eq(&format!("what was offered is the colour asked for\n{text}"), &exp, &act);
                    c.outcome(&text);
                },
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// links

/// A line, and the texts in it that lead to a file, for a document in the root and in a subfolder.
const LINKS: [(&str, &[(&str, &str, &str)]); 14] = [
    ("#include \"inc.dm\"", &[("\"inc.dm\"", "inc.dm", "sub/inc.dm")]),
    ("#include \"sub/two.dm\"", &[("\"sub/two.dm\"", "sub/two.dm", "sub/two.dm")]),
    ("#include \"sub\\two.dm\"", &[("\"sub\\two.dm\"", "sub/two.dm", "sub/two.dm")]),
    ("#include \"three.dm\"", &[("\"three.dm\"", "three.dm", "three.dm")]),
    ("#include \"gone.dm\"", &[]),
    ("  # include \"map.dmm\" // 'x.dmi'", &[("\"map.dmm\"", "map.dmm", "map.dmm")]),
    ("// #include \"inc.dm\" 'res.dmi'", &[]),
    ("#if 0\n#include \"inc.dm\"\n#endif", &[]),
    ("#ifdef MISSING\n/var/m = 'gone.dmi'\n#else\n/var/n = 'res.dmi'\n#endif", &[("'res.dmi'", "res.dmi", "res.dmi")]),
    ("/var/a = 'res.dmi'", &[("'res.dmi'", "res.dmi", "res.dmi")]),
    ("/var/b = list('sub/r e.dmi' = 1, \"x\" = 'gone.dmi')", &[("'sub/r e.dmi'", "sub/r e.dmi", "sub/r e.dmi"), ("'gone.dmi'", "gone.dmi", "gone.dmi")]),
    ("/var/c = \"'res.dmi'\"", &[]),
    ("/t\n\ticon = 'res.dmi'", &[("'res.dmi'", "res.dmi", "res.dmi")]),
    ("/proc/p(d = 'res.dmi')\n\treturn foo('a/b.ogg')", &[("'res.dmi'", "res.dmi", "res.dmi"), ("'a/b.ogg'", "a/b.ogg", "a/b.ogg")]),
];

fn links(r: &mut Runner) {
    let sc = r.scratch();
    let k = LINKS.len();
    let depth = r.pick(2, 3);
    let n = count_upto(k, depth) * 2;
    const CHUNK: u64 = 40;
    r.suite(
        "links",
        "every sequence of up to N of fourteen lines with includes (beside the file, from the environment's folder, with backslashes, missing, disabled, in comments) and resources, in a file in the root or a subfolder: exactly the includes and resources are links, over their quotes, to the file they mean",
        n.div_ceil(CHUNK),
        |i, c| {
            let r = with_workspace(&sc, |w| {
                let inner = "/var/global/q = 'inner.dmi'\n";
                w.load(&[
                    ("x.dme", "#include \"a.dm\"\n#include \"sub/b.dm\"\n"),
                    ("a.dm", ""),
                    ("sub/b.dm", ""),
                    ("inc.dm", inner),
                    ("sub/inc.dm", "#include \"two.dm\"\n"),
                    ("sub/two.dm", ""),
                    ("three.dm", ""),
                    ("map.dmm", ""),
                    ("res.dmi", ""),
                ])?;
                for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let sub = j % 2 == 1;
                    let mut text = String::new();
                    let mut exp = vec![];
                    for l in word(k, j / 2) {
                        let (line, ls) = LINKS[l];
                        let mut from = text.len();
                        text += &format!("{line}\n");
                        for (s, root, deep) in ls.iter() {
                            from += text[from..].find(s).unwrap();
                            let target = if sub { deep } else { root };
                            let (a, b) = (position(&text, from), position(&text, from + s.len()));
                            exp.push(format!("{a:?}-{b:?} {target}"));
                            from += s.len();
                        }
                    }
                    c.input(|| text.clone());
                    c.trans(1);
                    let uri = w.uri(if sub { "sub/b.dm" } else { "a.dm" });
                    w.server.open(&uri, 1, &text);
                    let v = w.server.doc("textDocument/documentLink", &uri);
                    w.server.close(&uri);
                    let v = v?;
                    c.validated(1);
                    let base = w.uri("");
                    let mut act: Vec<String> = v
                        .as_array()
                        .into_iter()
                        .flatten()
                        .map(|l| {
                            let p = |k: &str| (l["range"][k]["line"].as_u64().unwrap_or(0), l["range"][k]["character"].as_u64().unwrap_or(0));
                            let t = l["target"].as_str().unwrap_or("?").replace("%20", " ");
                            format!("{:?}-{:?} {}", p("start"), p("end"), t.strip_prefix(&base).unwrap_or(&t))
                        })
                        .collect();
                    act.sort();
                    exp.sort();
                    c.check_eq(&format!("the links of\n{text}"), &exp, &act);
                    c.outcome(&act);
                    if c.failed() {
                        break;
                    }
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail("server", e);
            }
        },
    );
}

pub fn check(r: &mut Runner) {
    folding(r);
    colours(r);
    presentations(r);
    links(r);
}
