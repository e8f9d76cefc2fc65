//! P28: the language server answers for the documents the editor holds, over its protocol.
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------
// the editor's side: text and positions in UTF-16 units

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Pos {
    line: u32,
    ch: u32,
}

/// Index into `text` (in characters) of every position an editor can name, one position past each line's
/// end included (it means the line's end).
fn positions(text: &[char]) -> Vec<(Pos, usize)> {
    let mut out = vec![];
    let (mut line, mut i) = (0, 0);
    loop {
        let mut ch = 0;
        loop {
            out.push((Pos { line, ch }, i));
            let ends = i >= text.len() || text[i] == '\n' || (text[i] == '\r' && text.get(i + 1) == Some(&'\n'));
            if ends {
                out.push((Pos { line, ch: ch + 1 }, i));
                out.push((Pos { line, ch: ch + 1000 }, i));
                break;
            }
            ch += text[i].len_utf16() as u32;
            i += 1;
        }
        if i < text.len() && text[i] == '\r' {
            i += 1;
        }
        if i >= text.len() {
            return out;
        }
        i += 1;
        line += 1;
    }
}

#[derive(Clone, Debug, Hash)]
struct Edit {
    start: Pos,
    end: Pos,
    from: usize,
    to: usize,
    with: &'static str,
}
impl Edit {
    fn json(&self) -> Value {
        json!({"range": {"start": {"line": self.start.line, "character": self.start.ch}, "end": {"line": self.end.line, "character": self.end.ch}}, "text": self.with})
    }
    fn apply(&self, text: &str) -> String {
        let t: Vec<char> = text.chars().collect();
        t[..self.from].iter().copied().chain(self.with.chars()).chain(t[self.to..].iter().copied()).collect()
    }
}
const WITH: [&str; 6] = ["", "b", "é😀", "\n", "b\nc\r\n", "🦀"];

/// Every replacement of a part of `text`, between the character indices given.
fn edits(text: &str, within: std::ops::RangeInclusive<usize>, with: &[&'static str]) -> Vec<Edit> {
    let t: Vec<char> = text.chars().collect();
    let ps: Vec<(Pos, usize)> = positions(&t).into_iter().filter(|p| within.contains(&p.1)).collect();
    let mut out = vec![];
    for (i, &(start, from)) in ps.iter().enumerate() {
        for &(end, to) in &ps[i..] {
            for &with in with {
                out.push(Edit { start, end, from, to, with });
            }
        }
    }
    out
}

fn change(s: &mut Server, uri: &str, version: i64, changes: Vec<Value>) {
    s.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}));
}

// ---------------------------------------------------------------------------
// what the server thinks of a document

const FRONT: &str = "/var/const/q = {\"";
const BACK: &str = "\"}\n";

/// The text of the constant `q`, which the hover shows, when it is declared at `line` from the first column on.
fn shown(s: &mut Server, uri: &str, line: u32) -> Res<Option<String>> {
    let v = s.at("textDocument/hover", uri, line, 12)?;
    let Some(text) = v["contents"][0].as_str() else { return Ok(None) };
    let Some(at) = text.find("\n```dm\n= ") else { return Ok(None) };
    let text = &text[at + 9..];
    let text = text.strip_suffix("\n```").unwrap_or(text);
    let text = text.strip_prefix("{\"").and_then(|t| t.strip_suffix("\"}")).or(text.strip_prefix('"').and_then(|t| t.strip_suffix('"')));
    Ok(text.map(|t| t.to_owned()))
}

fn unname(mut v: Value, uri: &str) -> Value {
    fn go(v: &mut Value, uri: &str) {
        match v {
            Value::String(s) => *s = s.replace(uri, "URI"),
            Value::Array(a) => a.iter_mut().for_each(|v| go(v, uri)),
            Value::Object(o) => o.values_mut().for_each(|v| go(v, uri)),
            _ => {},
        }
    }
    go(&mut v, uri);
    v
}

/// An answer without its number.
fn whole(v: Value) -> Value {
    json!({"result": v["result"], "error": v["error"]})
}

/// Everything the server says about a document as a whole, and about each place in `spots`.
fn view(s: &mut Server, uri: &str, spots: &[Pos]) -> Res<BTreeMap<String, Value>> {
    let mut out = BTreeMap::new();
    s.pushed.clear();
    for m in ["textDocument/documentSymbol", "textDocument/documentColor", "textDocument/foldingRange"] {
        out.insert(m.to_owned(), unname(whole(s.call(m, json!({"textDocument": {"uri": uri}}))?), uri));
    }
    let diags: Vec<&Value> = s.pushed.iter().filter(|v| v["method"] == "textDocument/publishDiagnostics").collect();
    if let Some(d) = diags.last() {
        out.insert("diagnostics".into(), unname(d["params"].clone(), uri));
    }
    for p in spots {
        for m in ["textDocument/hover", "textDocument/definition"] {
            out.insert(format!("{m} {}:{}", p.line, p.ch), unname(whole(s.call(m, json!({"textDocument": {"uri": uri}, "position": {"line": p.line, "character": p.ch}}))?), uri));
        }
    }
    Ok(out)
}

fn report(c: &mut Case, r: Res<()>) {
    if let Err(e) = r {
        if !c.failed() {
            c.fail("server", e);
        }
    }
}

fn case_uri(kind: &str, i: u64) -> String {
    format!("file:///nowhere/{kind}{i}.dm")
}

// ---------------------------------------------------------------------------
// suites

const ATOMS: [&str; 5] = ["a", "é", "😀", "\n", "\r\n"];

fn single_edits(r: &mut Runner) {
    let n = count_upto(5, r.pick(3, 4));
    r.suite(
        "single-edits",
        "every text of up to N pieces (letters of one to four bytes, either line end) in a string, every range of it (positions past line ends included) replaced by every text: the string the server then shows is the one the editor has",
        n,
        |i, c| {
            let body: String = word(5, i).into_iter().map(|k| ATOMS[k]).collect();
            let text = format!("{FRONT}{body}{BACK}");
            c.input(|| format!("edits of {text:?}"));
            let from = FRONT.chars().count();
            let list = edits(&text, from..=from + body.chars().count(), &WITH);
            let uri = case_uri("se", i);
            let r = with_server(|s| {
                s.open(&uri, 1, "");
                for (k, e) in list.iter().enumerate() {
                    change(s, &uri, 2 + k as i64, vec![json!({"text": text}), e.json()]);
                    let new = e.apply(&text);
                    let want = new.strip_prefix(FRONT).and_then(|t| t.strip_suffix(BACK)).unwrap().replace('\r', "");
                    let got = shown(s, &uri, 0)?;
                    c.trans(1);
                    c.validated(1);
                    c.state(&(&text, e));
                    c.outcome(&want);
                    // the server prints text with or without quotes that allow line breaks
                    if got.as_deref().map(|g| g.replace('\r', "")) != Some(want.clone()) {
                        c.fail(format!("edit {text:?} {e:?}"), format!("text {text:?}\nedit {e:?}\nexpected string {want:?}\nserver shows {got:?}"));
                        return Err("stop".into());
                    }
                }
                s.close(&uri);
                Ok(())
            });
            report(c, r);
        },
    );
}

const BASES: [&str; 6] = ["", "ab", "a\nb", "é😀\n\nc", "x\r\ny", "\n😀"];
fn double_edits(r: &mut Runner) {
    let deep = r.thorough();
    let first: Vec<(usize, Edit)> = BASES
        .iter()
        .enumerate()
        .flat_map(|(b, body)| {
            let text = format!("{FRONT}{body}{BACK}");
            let from = FRONT.chars().count();
            let with: &[&str] = if deep { &WITH } else { &WITH[2..5] };
            edits(&text, from..=from + body.chars().count(), with).into_iter().map(move |e| (b, e))
        })
        .collect();
    r.suite(
        "two-edits",
        "every pair of ranged edits of six texts, sent in one notification and in two: the second applies to the result of the first",
        first.len() as u64,
        |i, c| {
            let (b, e1) = &first[i as usize];
            let text = format!("{FRONT}{}{BACK}", BASES[*b]);
            let mid = e1.apply(&text);
            c.input(|| format!("{text:?} {e1:?} then any"));
            let from = FRONT.chars().count();
            let list = edits(&mid, from..=mid.chars().count() - BACK.chars().count(), &["", "Z\n"]);
            let uri = case_uri("de", i);
            let r = with_server(|s| {
                s.open(&uri, 1, "");
                let mut v = 2;
                for (k, e2) in list.iter().enumerate() {
                    if (k + i as usize) % 2 == 0 || deep {
                        change(s, &uri, v, vec![json!({"text": text}), e1.json(), e2.json()]);
                    } else {
                        change(s, &uri, v, vec![json!({"text": text})]);
                        change(s, &uri, v + 1, vec![e1.json()]);
                        change(s, &uri, v + 2, vec![e2.json()]);
                    }
                    v += 3;
                    let new = e2.apply(&mid);
                    let want = new.strip_prefix(FRONT).and_then(|t| t.strip_suffix(BACK)).unwrap().replace('\r', "");
                    let got = shown(s, &uri, 0)?;
                    c.trans(2);
                    c.validated(1);
                    c.outcome(&want);
                    if got.as_deref().map(|g| g.replace('\r', "")) != Some(want.clone()) {
                        c.fail(format!("edits {text:?} {e1:?} {e2:?}"), format!("text {text:?}\nedits {e1:?} {e2:?}\nexpected string {want:?}\nserver shows {got:?}"));
                        return Err("stop".into());
                    }
                }
                s.close(&uri);
                Ok(())
            });
            report(c, r);
        },
    );
}

const PROGRAM: &str = "/obj/thing // 😀é\n\tvar/qq = \"#ff0000\"\n\tproc/go(aa)\n\t\treturn qq + aa\n//#region r\n//#endregion\n";
fn program_edits(r: &mut Runner) {
    const NEW: [&str; 4] = ["", "\n", "z", "/* 🦀\n */"];
    let all = edits(PROGRAM, 0..=PROGRAM.chars().count(), &NEW);
    // quick: ranges of up to three characters and those reaching the end; thorough: all
    let n = PROGRAM.chars().count();
    let list: Vec<Edit> = all.into_iter().filter(|e| e.start.ch < 900 && e.end.ch < 900 && (r.thorough() || e.to - e.from <= 2 || (e.to == n && e.with.is_empty()))).collect();
    r.suite(
        "program-edits",
        "every replacement of a part of a program: outline, colours, folding, diagnostics, hover and definition at the edit equal those a server gives that was sent the new text whole",
        list.len() as u64,
        |i, c| {
            let e = &list[i as usize];
            let new = e.apply(PROGRAM);
            c.input(|| format!("{e:?}\n{new}"));
            let uri = case_uri("pe", i);
            let fresh = case_uri("fresh", i);
            let r = with_server(|s| {
                s.open(&uri, 1, PROGRAM);
                if i % 2 == 0 {
                    // with an answer given before the edit
                    s.doc("textDocument/documentSymbol", &uri)?;
                }
                change(s, &uri, 2, vec![e.json()]);
                let spots = [e.start, Pos { line: 3, ch: 9 }];
                let got = view(s, &uri, &spots)?;
                s.open(&fresh, 1, &new);
                let want = view(s, &fresh, &spots)?;
                c.trans(1);
                c.validated(want.len() as u64);
                c.outcome(&format!("{want:?}"));
                if got != want {
                    for (k, w) in &want {
                        if got.get(k) != Some(w) {
                            c.fail(format!("program edit {e:?}"), format!("edit {e:?}\nnew text {new:?}\n{k}\nexpected {w}\nactual   {}", got.get(k).unwrap_or(&Value::Null)));
                        }
                    }
                    return Err("stop".into());
                }
                s.close(&uri);
                s.close(&fresh);
                Ok(())
            });
            report(c, r);
        },
    );
}

// ---------------------------------------------------------------------------
// histories of opening and closing

const OPS: [&str; 11] = ["openA1", "openA2", "wholeA", "rangedA", "oldA", "beyondA", "closeA", "askA", "openB1", "rangedB", "closeB"];
#[derive(Default, Clone)]
struct Doc {
    open: Option<(i64, String)>,
}

fn var_text(name: &str, extra: &str) -> String {
    format!("/var/{name}1\n/var/{name}2\n{extra}")
}
/// The names in the outline of a document.
fn outline(s: &mut Server, uri: &str) -> Res<Vec<String>> {
    let v = s.doc("textDocument/documentSymbol", uri)?;
    Ok(v.as_array().map(|a| a.iter().map(|x| x["name"].as_str().unwrap_or("?").to_owned()).collect()).unwrap_or_default())
}
fn names(text: &str) -> Vec<String> {
    text.lines().filter_map(|l| l.strip_prefix("/var/")).map(|l| l.to_owned()).collect()
}

fn histories(r: &mut Runner, workspace: bool) {
    let depth = r.pick(4, 5);
    let k = OPS.len();
    let n = pow(k, depth);
    let sc = r.scratch();
    let name = if workspace { "histories-workspace" } else { "histories" };
    r.suite(
        name,
        "every history of N steps over two documents (one also on disk): opening, whole and ranged edits, an edit of an older version, a range outside the document, closing, asking; after each answer and at the end the outline is that of the editor's text, or of the file when closed, and refused messages are reported and change nothing",
        n,
        |i, c| {
            let mut d = Digits(i);
            let ops: Vec<usize> = (0..depth).map(|_| d.take(k)).collect();
            // a history whose last step has no effect on the outcome is its own prefix
            if ops.last() == Some(&7) {
                return;
            }
            c.input(|| ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join(" "));
            let mut body = |s: &mut Server, dir: &str| -> Res<()> {
                let uris = [format!("{dir}/a{i}.dm"), format!("{dir}/b{i}.dm")];
                let path = uris[0].strip_prefix("file://").unwrap().to_owned();
                let disk = var_text("disk", "");
                std::fs::write(&path, &disk).map_err(|e| e.to_string())?;
                let mut docs: [Doc; 2] = Default::default();
                let step = |s: &mut Server, c: &mut Case, docs: &[Doc; 2], at: &str| -> Res<()> {
                    for (k, doc) in docs.iter().enumerate() {
                        let want = match &doc.open {
                            Some((_, t)) => Some(names(t)),
                            None if k == 0 => Some(names(&disk)),
                            None => None,
                        };
                        c.trans(1);
                        match want {
                            Some(want) => {
                                let got = outline(s, &uris[k])?;
                                c.validated(1);
                                c.outcome(&want);
                                if got != want {
                                    return Err(format!("{at}: document {k} should have the outline {want:?}, the server says {got:?}"));
                                }
                            },
                            None => {
                                // neither open nor on disk: refused
                                if let Ok(v) = s.doc("textDocument/documentSymbol", &uris[k]) {
                                    if v != Value::Null && v != json!([]) {
                                        return Err(format!("{at}: document {k} does not exist, the server says {v}"));
                                    }
                                }
                            },
                        }
                    }
                    Ok(())
                };
                for (n, &o) in ops.iter().enumerate() {
                    let which = (o >= 8) as usize;
                    let uri = &uris[which];
                    let doc = &mut docs[which];
                    let mut refused = false;
                    s.pushed.clear();
                    match OPS[o] {
                        "openA1" | "openA2" | "openB1" => {
                            if doc.open.is_some() {
                                // opening twice is against the protocol; what is shown then is left open
                                continue;
                            }
                            let v = if OPS[o] == "openA2" { 7 } else { 1 };
                            let text = var_text(&format!("open{v}x{n}"), if v == 7 { "// é\n" } else { "" });
                            s.open(uri, v, &text);
                            doc.open = Some((v, text));
                        },
                        "wholeA" => {
                            let text = var_text(&format!("whole{n}"), "");
                            let v = doc.open.as_ref().map_or(5, |d| d.0 + 1);
                            change(s, uri, v, vec![json!({"text": text})]);
                            match &mut doc.open {
                                Some(d) => *d = (v, text),
                                None => refused = true,
                            }
                        },
                        "rangedA" | "rangedB" => {
                            // name the first variable anew and add one at the end
                            let text = doc.open.as_ref().map_or(disk.clone(), |d| d.1.clone());
                            let first = text.lines().next().unwrap_or("").chars().count() as u32;
                            let lines = text.lines().count() as u32;
                            let v = doc.open.as_ref().map_or(5, |d| d.0 + 1);
                            let range = |l0: u32, c0: u32, l1: u32, c1: u32, t: &str| json!({"range": {"start": {"line": l0, "character": c0}, "end": {"line": l1, "character": c1}}, "text": t});
                            change(s, uri, v, vec![range(0, 5, 0, first, &format!("ranged{n}")), range(lines, 0, lines, 0, "/var/added\n")]);
                            match &mut doc.open {
                                Some(d) => {
                                    let rest = text.split_once('\n').map_or("", |t| t.1);
                                    *d = (v, format!("/var/ranged{n}\n{rest}/var/added\n"));
                                },
                                None => refused = true,
                            }
                        },
                        "oldA" => {
                            let v = doc.open.as_ref().map_or(5, |d| d.0 - 1);
                            change(s, uri, v, vec![json!({"text": "/var/old\n"})]);
                            refused = true;
                        },
                        "beyondA" => {
                            let v = doc.open.as_ref().map_or(5, |d| d.0 + 1);
                            change(s, uri, v, vec![json!({"range": {"start": {"line": 900, "character": 0}, "end": {"line": 900, "character": 1}}, "text": "/var/beyond\n"})]);
                            if let Some(d) = &mut doc.open {
                                d.0 = v;
                            }
                            refused = true;
                        },
                        "closeA" | "closeB" => {
                            s.close(uri);
                            if doc.open.take().is_none() {
                                refused = true;
                            }
                        },
                        "askA" => {
                            let docs = docs.clone();
                            step(s, c, &docs, &format!("after step {n}"))?;
                            continue;
                        },
                        _ => unreachable!(),
                    }
                    c.trans(1);
                    if refused {
                        // an answer shows that everything before it was handled
                        s.call("workspace/symbol", json!({"query": ""}))?;
                        if !s.pushed.iter().any(|v| v["method"] == "window/showMessage" && v["params"]["type"] == 1) {
                            return Err(format!("step {n} ({}) is against the protocol but was not reported", OPS[o]));
                        }
                    }
                    c.state(&docs.iter().map(|d| d.open.clone()).collect::<Vec<_>>());
                }
                step(s, c, &docs, "at the end")?;
                let _ = std::fs::remove_file(&path);
                for (k, d) in docs.iter().enumerate() {
                    if d.open.is_some() {
                        s.close(&uris[k]);
                    }
                }
                Ok(())
            };
            let r = if workspace { with_workspace(&sc, |s, dir| body(s, dir)) } else { with_server(|s| body(s, &format!("file://{}", sc.display()))) };
            report(c, r);
        },
    );
}

thread_local! {
    static WORK: std::cell::RefCell<Option<(Server, std::path::PathBuf)>> = const { std::cell::RefCell::new(None) };
}
/// A server with a small environment, one per thread.
fn with_workspace<R>(sc: &std::path::Path, f: impl FnOnce(&mut Server, &str) -> Res<R>) -> Res<R> {
    WORK.with(|w| {
        let (mut s, dir) = match w.borrow_mut().take().filter(|s| s.0.served < 400) {
            Some(s) => s,
            None => {
                let dir = sc.join(format!("ws{:?}", std::thread::current().id()).replace(['(', ')'], ""));
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(dir.join("x.dme"), "#include \"main.dm\"\n").unwrap();
                std::fs::write(dir.join("main.dm"), "/var/main\n").unwrap();
                (Server::start(Some(&dir)), dir)
            },
        };
        s.served += 1;
        s.pushed.clear();
        let r = f(&mut s, &format!("file://{}", dir.display()));
        if r.is_ok() {
            *w.borrow_mut() = Some((s, dir));
        }
        r
    })
}

// ---------------------------------------------------------------------------
// reparsing

const ROPS: [&str; 8] = ["define", "undefine", "reparse", "ask", "openX", "editX", "closeX", "addvar"];
fn reparsing(r: &mut Runner) {
    let depth = r.pick(4, 5);
    let n = pow(ROPS.len(), depth);
    let sc = r.scratch();
    r.suite(
        "reparsing",
        "every history of N steps of changing a header on disk, reparsing the environment, opening, editing and closing a file after it, and asking: the outline follows the macros of the last parse, and definitions found are those of the last parse",
        n,
        |i, c| {
            let mut d = Digits(i);
            let ops: Vec<&str> = (0..depth).map(|_| ROPS[d.take(ROPS.len())]).collect();
            if !ops.contains(&"reparse") {
                return;
            }
            c.input(|| ops.join(" "));
            let dir = sc.join(format!("rp{i}"));
            std::fs::create_dir_all(&dir).unwrap();
            let disk = "#ifdef X\n/var/on_disk\n#else\n/var/off_disk\n#endif\n/var/use = added\n";
            let mine = |n: usize| format!("#ifdef X\n/var/on_{n}\n#else\n/var/off_{n}\n#endif\n/var/use = added\n");
            std::fs::write(dir.join("x.dme"), "#include \"h.dm\"\n#include \"x.dm\"\n").unwrap();
            std::fs::write(dir.join("x.dm"), disk).unwrap();
            let header = |defined: bool, lines: usize| format!("{}{}/var/added = 1\n", if defined { "#define X\n" } else { "\n" }, "\n".repeat(lines));
            let (mut defined, mut lines) = (true, 0);
            std::fs::write(dir.join("h.dm"), header(defined, lines)).unwrap();
            let (mut parsed, mut parsed_lines) = (true, 0);
            let mut s = Server::start(Some(&dir));
            let uri = format!("file://{}/x.dm", dir.display());
            let huri = format!("file://{}/h.dm", dir.display());
            let mut open: Option<String> = None;
            let mut version = 1;
            let mut go = || -> Res<()> {
                for (n, op) in ops.iter().chain(["ask"].iter()).enumerate() {
                    match *op {
                        "define" | "undefine" | "addvar" => {
                            match *op {
                                "define" => defined = true,
                                "undefine" => defined = false,
                                _ => lines += 1,
                            }
                            std::fs::write(dir.join("h.dm"), header(defined, lines)).unwrap();
                        },
                        "reparse" => {
                            s.notify("experimental/dreammaker/reparse", json!({}));
                            // answered once the environment has been read
                            s.call("workspace/symbol", json!({"query": ""}))?;
                            (parsed, parsed_lines) = (defined, lines);
                        },
                        "openX" => {
                            if open.is_some() {
                                continue;
                            }
                            version += 1;
                            s.open(&uri, version, &mine(n));
                            open = Some(mine(n));
                        },
                        "editX" => {
                            if open.is_none() {
                                continue;
                            }
                            version += 1;
                            change(&mut s, &uri, version, vec![json!({"text": mine(n)})]);
                            open = Some(mine(n));
                        },
                        "closeX" => {
                            if open.take().is_none() {
                                continue;
                            }
                            s.close(&uri);
                        },
                        _ => {
                            let text = open.as_deref().unwrap_or(disk);
                            let var = text.lines().nth(if parsed { 1 } else { 3 }).unwrap().strip_prefix("/var/").unwrap().to_owned();
                            let want = vec![var, "use".to_owned()];
                            let got = outline(&mut s, &uri)?;
                            c.validated(2);
                            c.outcome(&want);
                            if got != want {
                                return Err(format!("step {n}: the outline should be {want:?} but is {got:?}"));
                            }
                            let v = s.at("textDocument/definition", &uri, 5, 12)?;
                            let at = (v[0]["uri"].as_str().unwrap_or("").to_owned(), v[0]["range"]["start"]["line"].as_u64());
                            let want = (huri.clone(), Some(1 + parsed_lines as u64));
                            if at != want {
                                return Err(format!("step {n}: the definition should be at {want:?} but is {v}"));
                            }
                        },
                    }
                    c.trans(1);
                    c.state(&(defined, lines, parsed, parsed_lines, &open));
                }
                Ok(())
            };
            let r = go();
            report(c, r);
            let _ = std::fs::remove_dir_all(&dir);
        },
    );
}

// ---------------------------------------------------------------------------
// the protocol's life cycle

const CALLS: [&str; 12] =
    ["initialize", "initialized", "symbols", "unknown request", "bad parameters", "no json", "unknown notification", "batch", "invalid call", "shutdown", "open", "empty batch"];

fn life(r: &mut Runner) {
    let depth = r.pick(3, 4);
    let n = CALLS.len() as u64;
    let total = n.pow(depth as u32) * 3;
    r.suite(
        "life-cycle",
        "every history of N messages (initialisation, requests known and unknown, malformed ones, batches, shutdown), ended by exit, the end of input or both: each request gets exactly one answer with its id, of the kind its state allows, and the exit code is 0 exactly after a shutdown or an end of input",
        total,
        |i, c| {
            let mut d = Digits(i);
            let end = d.take(3);
            let ops: Vec<&str> = (0..depth).map(|_| CALLS[d.take(n as usize)]).collect();
            c.input(|| format!("{} | end {end}", ops.join(", ")));
            let mut s = Server::spawn();
            #[derive(PartialEq, Clone, Copy, Hash)]
            enum St {
                Starting,
                Running,
                Down,
            }
            let mut st = St::Starting;
            let uri = "file:///nowhere/life.dm";
            // what each answer must be: its id, and the code of its error (0: any error)
            let mut want: Vec<Vec<(Value, Option<i64>)>> = vec![];
            let sym = |id: Value| json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/documentSymbol", "params": {"textDocument": {"uri": uri}}});
            let mut open = false;
            for (k, op) in ops.iter().enumerate() {
                let id = if k % 2 == 0 { json!(k + 10) } else { json!(format!("s{k}")) };
                let ready = if st == St::Running { None } else { Some(-32002) };
                match *op {
                    "initialize" => {
                        s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}}));
                        want.push(vec![(id, if st == St::Starting { None } else { Some(0) })]);
                        if st == St::Starting {
                            st = St::Running;
                        }
                    },
                    "initialized" => s.notify("initialized", json!({})),
                    "open" => {
                        if !open {
                            s.open(uri, 1, "/var/x\n");
                            open = st == St::Running;
                        }
                    },
                    "symbols" => {
                        s.send(&sym(id.clone()));
                        want.push(vec![(id, ready.or(if open { None } else { Some(0) }))]);
                    },
                    "unknown request" => {
                        s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "no/such", "params": {}}));
                        want.push(vec![(id, ready.or(Some(0)))]);
                    },
                    "bad parameters" => {
                        s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/hover", "params": {"textDocument": 5}}));
                        want.push(vec![(id, ready.or(Some(0)))]);
                    },
                    "no json" => {
                        s.send_text("{\"jsonrpc\": ");
                        want.push(vec![(Value::Null, Some(-32700))]);
                    },
                    "unknown notification" => s.notify("no/such", json!({"a": 1})),
                    "batch" => {
                        let (a, b) = (json!(format!("a{k}")), json!(format!("b{k}")));
                        s.send(&json!([
                            sym(a.clone()),
                            {"jsonrpc": "2.0", "method": "no/such", "params": {}},
                            {"jsonrpc": "2.0", "id": b, "method": "no/such", "params": {}},
                        ]));
                        want.push(vec![(a, ready.or(if open { None } else { Some(0) })), (b, ready.or(Some(0)))]);
                    },
                    "invalid call" => {
                        s.send(&json!({"jsonrpc": "2.0", "id": id}));
                        want.push(vec![(id, Some(0))]);
                    },
                    "empty batch" => s.send_text("[]"),
                    "shutdown" => {
                        s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}));
                        want.push(vec![(id, ready)]);
                        if st == St::Running {
                            st = St::Down;
                        }
                    },
                    _ => unreachable!(),
                }
                c.trans(1);
                c.state(&(st, open));
            }
            if end != 1 {
                s.notify("exit", json!(null));
            }
            if end == 2 {
                // nothing after exit is answered
                s.send(&sym(json!("late")));
            }
            let code = if end == 1 || st == St::Down { 0 } else { 1 };
            let (out, got_code) = s.finish();
            let answers: Vec<&Value> = out.iter().filter(|v| v.get("method").is_none()).collect();
            let show = || format!("answers {answers:?}");
            if answers.len() != want.len() {
                c.fail("number of answers", format!("{} answers expected\n{}", want.len(), show()));
                return;
            }
            for (w, a) in want.iter().zip(&answers) {
                let list: Vec<&Value> = match a {
                    Value::Array(l) => l.iter().collect(),
                    v => vec![v],
                };
                c.validated(1);
                let ok = list.len() == w.len()
                    && w.iter().zip(&list).all(|((id, err), v)| {
                        v["id"] == *id
                            && match err {
                                None => v.get("result").is_some() && v.get("error").is_none(),
                                Some(0) => v.get("error").is_some(),
                                Some(code) => v["error"]["code"] == json!(code),
                            }
                    });
                c.outcome(&format!("{w:?}"));
                if !ok {
                    c.fail("answer", format!("expected {w:?}\ngot {a}\n{}", show()));
                    return;
                }
            }
            c.check_eq("exit code", &Some(code), &got_code);
        },
    );
}

fn framing(r: &mut Runner) {
    let uri = "file:///nowhere/frame.dm";
    let sym = |id: u32| json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/documentColor", "params": {"textDocument": {"uri": uri}}}).to_string();
    let open = json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "dm", "version": 1, "text": "// é😀\n\"#123456\"\n"}}});
    // the same text written with and without escapes
    let escaped = open.to_string().replace('é', "\\u00e9").replace('😀', "\\ud83d\\ude00");
    let mut streams: Vec<(String, Vec<u8>)> = vec![];
    for (h, head) in ["Content-Length: ", "content-length: ", "CONTENT-LENGTH: "].iter().enumerate() {
        for (o, open) in [open.to_string(), escaped.clone()].iter().enumerate() {
            let mut bytes = vec![];
            for m in [open.clone(), sym(101), sym(102)] {
                bytes.extend(format!("{head}{}\r\n\r\n{}", m.len(), m).into_bytes());
            }
            streams.push((format!("header {h} text {o}"), bytes));
        }
    }
    let cuts: Vec<(usize, usize)> = streams.iter().enumerate().flat_map(|(k, s)| (0..s.1.len()).map(move |c| (k, c))).collect();
    r.suite(
        "framing",
        "a stream of three messages cut into two writes at every byte, with each spelling of the header and the text with and without escapes: both requests are answered for the text sent",
        cuts.len() as u64,
        |i, c| {
            let (k, cut) = cuts[i as usize];
            c.input(|| format!("{} cut at {cut}", streams[k].0));
            let r = with_server(|s| {
                let bytes = &streams[k].1;
                s.send_raw(&bytes[..cut]);
                std::thread::yield_now();
                s.send_raw(&bytes[cut..]);
                for id in [101, 102] {
                    let v = loop {
                        match s.read() {
                            None => return Err("the server ended".into()),
                            Some(v) if v.get("method").is_some() => {},
                            Some(v) => break v,
                        }
                    };
                    c.trans(1);
                    c.validated(1);
                    let want = json!({"start": {"line": 1, "character": 0}, "end": {"line": 1, "character": 9}});
                    if v["id"] != json!(id) || v["result"][0]["range"] != want {
                        return Err(format!("answer {id}: {v}"));
                    }
                }
                s.close(uri);
                Ok(())
            });
            report(c, r);
        },
    );
}

pub fn check(r: &mut Runner) {
    r.assume("positions within a surrogate pair, a second opening of an open document and files changed on disk while they are closed are left open");
    single_edits(r);
    double_edits(r);
    program_edits(r);
    histories(r, false);
    histories(r, true);
    reparsing(r);
    life(r);
    framing(r);
}
