//! P39: the documentation generator: pages, their contents and every link in them.
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// How an item is documented.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Doc {
    None,
    /// One paragraph.
    Line,
    /// A paragraph and more.
    Long,
    /// A title and a paragraph.
    Titled,
    /// A title and more.
    TitledLong,
    /// More than a paragraph, but none to begin with.
    List,
    /// A comment without text.
    Blank,
}
use Doc::*;
impl Doc {
    fn has(self) -> bool {
        !matches!(self, None | Blank)
    }
    fn more(self) -> bool {
        matches!(self, Long | TitledLong | List)
    }
    fn title(self, word: &str) -> Option<String> {
        matches!(self, Titled | TitledLong).then(|| format!("Title{word}"))
    }
    fn teaser(self, word: &str) -> String {
        if self.has() && self != List { format!("Tease{word}.") } else { String::new() }
    }
    /// Markdown, as lines.
    fn lines(self, word: &str) -> Vec<String> {
        let t = format!("Tease{word}.");
        let more = format!("More{word}.");
        match self {
            None => vec![],
            Blank => vec![String::new()],
            Line => vec![t],
            Long => vec![t, String::new(), more],
            Titled => vec![format!("# Title{word}"), t],
            TitledLong => vec![format!("# Title{word}"), t, String::new(), more],
            List => vec![format!("- Item{word}."), format!("- More{word}.")],
        }
    }
    /// All that must appear in the text.
    fn words(self, word: &str) -> Vec<String> {
        let mut out = vec![];
        if self.has() && self != List {
            out.push(format!("Tease{word}."));
        }
        if self == List {
            out.push(format!("Item{word}."));
        }
        if self.more() {
            out.push(format!("More{word}."));
        }
        out
    }
}
fn line_comment(lines: &[String], mark: &str, ind: &str) -> String {
    lines.iter().map(|l| format!("{ind}//{mark} {l}\n")).collect()
}
fn block_comment(lines: &[String], ind: &str) -> String {
    if lines.is_empty() {
        return String::new();
    }
    format!("{ind}/**\n{}{ind} */\n", lines.iter().map(|l| format!("{ind} * {l}\n")).collect::<String>())
}

/// The items of the project, by the name under which they are documented.
const ITEMS: [&str; 12] = ["ta", "tax", "tap", "tb", "tbx", "tbp", "te", "M", "N", "gx", "gp", "mod"];
#[derive(Clone)]
struct Project {
    docs: BTreeMap<&'static str, Doc>,
    /// Text added to the documentation of one item.
    extra: Option<(&'static str, String)>,
    named: bool,
    block: bool,
}
impl Project {
    fn new() -> Project {
        Project { docs: ITEMS.iter().map(|i| (*i, None)).collect(), extra: Option::None, named: false, block: false }
    }
    fn doc(&self, item: &str) -> Doc {
        self.docs.get(item).copied().unwrap_or(None)
    }
    fn lines(&self, item: &str) -> Vec<String> {
        let mut l = self.doc(item).lines(item);
        if let Some((i, t)) = &self.extra {
            if *i == item {
                if !l.is_empty() {
                    l.push(String::new());
                }
                l.push(t.clone());
            }
        }
        l
    }
    fn has(&self, item: &str) -> bool {
        self.doc(item).has() || self.extra.as_ref().is_some_and(|e| e.0 == item)
    }
    fn comment(&self, item: &str, ind: &str) -> String {
        if self.block { block_comment(&self.lines(item), ind) } else { line_comment(&self.lines(item), "/", ind) }
    }
    fn files(&self) -> Vec<(&'static str, String)> {
        let name = if self.named { "\tname = \"\\improper thing\"\n" } else { "" };
        let a = format!(
            "{}{}#define M 1\n{}#define N(a, b...) a\n\n/ta\n{}\tvar/name = \"\"\n{}\tvar/x = 1\n{}\tproc/p(a, mob/b)\n\t\treturn a\n{}{name}",
            line_comment(&self.lines("mod"), "!", ""),
            if self.lines("mod").is_empty() { self.comment("M", "") } else { format!("\n{}", self.comment("M", "")) },
            self.comment("N", ""),
            line_comment(&self.lines("ta"), "!", "\t"),
            self.comment("tax", "\t"),
            self.comment("tap", "\t"),
            "",
        );
        let b = format!(
            "{}/ta/tb\n{}\tx = 2\n{}\tp(a)\n\t\treturn ..()\n\n{}/var/ta/gx = 1\n{}/proc/gp(ta/tb/a)\n\treturn 1\n{}/te\n\tparent_type = /ta\n",
            self.comment("tb", ""),
            self.comment("tbx", "\t"),
            self.comment("tbp", "\t"),
            self.comment("gx", ""),
            self.comment("gp", ""),
            self.comment("te", ""),
        );
        vec![("x.dme", "#include \"code/a.dm\"\n#include \"code/sub/b.dm\"\n".into()), ("code/a.dm", a), ("code/sub/b.dm", b)]
    }
    // -- what the documentation must be

    /// Types with more to say than one paragraph have pages of their own.
    fn page(&self, ty: &str) -> bool {
        let more = |i: &str| self.doc(i).more() || self.extra.as_ref().is_some_and(|e| e.0 == i) && self.doc(i).has();
        match ty {
            "ta" => more("ta") || self.has("tax") || self.has("tap"),
            "tb" => more("tb") || self.has("tbx") || self.has("tbp"),
            "te" => more("te"),
            "global" => self.has("gx") || self.has("gp"),
            _ => false,
        }
    }
    fn listed(&self, ty: &str) -> bool {
        self.page(ty) || self.has(ty)
    }
}
impl std::ops::Index<&str> for Project {
    type Output = Doc;
    fn index(&self, i: &str) -> &Doc {
        &self.docs[i]
    }
}

struct Made {
    code: Option<i32>,
    out: String,
    err: String,
    pages: BTreeMap<String, String>,
}
struct Tool {
    exe: PathBuf,
    scratch: PathBuf,
}
impl Tool {
    fn make(&self, i: u64, name: &str, files: &[(&str, String)], args: &[&str]) -> Made {
        let dir = self.scratch.join(format!("{}{i}", name.replace(' ', "_")));
        for (f, t) in files {
            let p = dir.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
        }
        let o = Command::new(&self.exe).args(args).current_dir(&dir).env_remove("GIT_DIR").env("GIT_CEILING_DIRECTORIES", &self.scratch).stdin(Stdio::null()).output().unwrap();
        let mut pages = BTreeMap::new();
        collect(&dir.join("dmdoc"), "", &mut pages);
        let _ = std::fs::remove_dir_all(&dir);
        Made { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned(), pages }
    }
}
fn collect(dir: &Path, at: &str, out: &mut BTreeMap<String, String>) {
    let Ok(list) = std::fs::read_dir(dir) else { return };
    for e in list.flatten() {
        let name = format!("{at}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            collect(&e.path(), &format!("{name}/"), out);
        } else {
            out.insert(name, String::from_utf8_lossy(&std::fs::read(e.path()).unwrap()).into_owned());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// reading pages

fn attributes(html: &str, name: &str) -> Vec<String> {
    let key = format!(" {name}=\"");
    html.match_indices(&key)
        .map(|(at, _)| {
            let rest = &html[at + key.len()..];
            rest[..rest.find('"').unwrap_or(0)].replace("&amp;", "&").replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"")
        })
        .collect()
}
fn between<'a>(text: &'a str, from: &str, to: &str) -> Option<&'a str> {
    let at = text.find(from)? + from.len();
    let rest = &text[at..];
    Some(&rest[..rest.find(to)?])
}
fn plain(html: &str) -> String {
    let mut out = String::new();
    let mut tag = false;
    for c in html.chars() {
        match c {
            '<' => tag = true,
            '>' if tag => tag = false,
            _ if !tag => out.push(c),
            _ => {},
        }
    }
    out.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}
/// Every link leads to a page that exists, and to a place on it that exists.
fn links(c: &mut Case, pages: &BTreeMap<String, String>) {
    for (name, html) in pages.iter().filter(|p| p.0.ends_with(".html")) {
        let up = name.matches('/').count();
        let base = html.split("<base").nth(1).and_then(|t| attributes(&format!(" {t}"), "href").into_iter().next()).unwrap_or_default();
        c.check_eq(&format!("the way from {name} to the top"), &"../".repeat(up), &base);
        let mut targets = attributes(html, "href");
        if !base.is_empty() {
            targets.retain(|t| *t != base);
        }
        targets.extend(attributes(html, "src"));
        for t in targets {
            c.trans(1);
            if t.starts_with("https://") || t.starts_with("http://") {
                continue;
            }
            let (file, place) = match t.split_once('#') {
                Some((f, p)) => (f, Some(p)),
                Option::None => (t.as_str(), Option::None),
            };
            match pages.get(file) {
                Option::None => c.fail("broken link", format!("{name} links to {t:?}, but there is no {file:?}: {:?}", pages.keys().collect::<Vec<_>>())),
                Some(page) => {
                    if let Some(p) = place {
                        if !attributes(page, "id").iter().any(|i| i == p) && !(file == "index.html" && (p == "modules" || p == "types")) {
                            c.fail("broken link", format!("{name} links to {t:?}, but {file} has no {p:?}"));
                        }
                    }
                },
            }
        }
    }
}
/// The entries of a page: the name and the text of everything that has an anchor.
fn entries(html: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for part in html.split("<h3 id=\"").skip(1) {
        let id = part.split('"').next().unwrap().to_string();
        let end = part.find("<h2").or_else(|| part.find("</main>")).unwrap_or(part.len());
        let head_end = part.find("</h3>").unwrap_or(0);
        out.insert(id, plain(&part[head_end..end.max(head_end)]));
    }
    out
}
/// What the rows of a page's summary say: the name and the teaser, or a text of the file's own.
fn rows(html: &str) -> Vec<(String, String)> {
    let table = between(html, "<table class=\"summary\" cellspacing=\"0\">", "</table>").unwrap_or("");
    table
        .split("<tr>")
        .skip(1)
        .map(|row| match between(row, "<th>", "</th>") {
            Some(h) => (plain(h), plain(between(row, "<td>", "</td>").unwrap_or(""))),
            Option::None => (String::new(), plain(row)),
        })
        .filter(|r| !(r.0.is_empty() && (r.1 == "Vars" || r.1 == "Procs")))
        .collect()
}
/// The entries of the index as (link, name, teaser).
fn index(html: &str) -> Vec<(String, String, String)> {
    html.split("<li class").skip(1).map(|li| {
        let li = &li[li.find('>').map_or(0, |k| k + 1)..];
        let end = ["<ul", "</li>"].iter().filter_map(|e| li.find(e)).min().unwrap_or(li.len());
        let li = &li[..end];
        let text = plain(li);
        let (name, teaser) = text.split_once(" - ").unwrap_or((&text, ""));
        (attributes(li, "title").into_iter().next().unwrap_or_default(), name.trim().to_string(), teaser.trim().to_string())
    }).collect()
}

const HTML: [(&str, &str); 4] = [("ta", "ta.html"), ("tb", "ta/tb.html"), ("te", "te.html"), ("global", "global.html")];
const FULL: [(&str, &str); 4] = [("ta", "/ta"), ("tb", "/ta/tb"), ("te", "/te"), ("global", "(global)")];

fn judge(c: &mut Case, p: &Project, m: &Made, totals: (usize, usize)) {
    c.check_eq("exit status", &Some(0), &m.code);
    if c.failed() {
        return;
    }
    // pages
    let mut must: BTreeSet<String> = ["index.html", "dmdoc.css", "dmdoc.js", "git.png"].iter().map(|s| s.to_string()).collect();
    let mut may = must.clone();
    for (ty, f) in HTML {
        if p.page(ty) {
            must.insert(f.into());
        }
    }
    if p.has("mod") || p.has("M") || p.has("N") {
        must.insert("code/a.html".into());
    }
    may.extend(must.iter().cloned());
    // an empty comment for a module may or may not make a page of it
    if p.has("ta") || p["mod"] != Doc::None {
        may.insert("code/a.html".into());
    }
    if ["tb", "gx", "gp", "te"].iter().any(|i| p.has(i)) {
        may.insert("code/sub/b.html".into());
    }
    let made: BTreeSet<String> = m.pages.keys().cloned().collect();
    for f in must.difference(&made) {
        c.fail("pages", format!("{f} is missing: {made:?}"));
        return;
    }
    for f in made.difference(&may) {
        c.fail("pages", format!("{f} has nothing to say: {made:?}"));
        return;
    }
    // numbers
    let modules = made.iter().filter(|f| f.starts_with("code/")).count();
    let types = FULL.iter().filter(|t| p.listed(t.0)).count();
    let detailed = FULL.iter().filter(|t| p.page(t.0)).count();
    let macros = ["M", "N"].iter().filter(|i| p.has(i)).count();
    let want = format!("documenting {modules} modules, {macros}/{} macros ({}%), {detailed}/{types}/{} types ({}%)", totals.0, (macros * 1000 / totals.0) as f32 / 10., totals.1, (types * 1000 / totals.1) as f32 / 10.);
    c.check_eq("the report", &want, &m.out.lines().find(|l| l.starts_with("documenting")).unwrap_or("").to_string());
    c.check_eq("complaints", &String::new(), &m.err);
    let html = &m.pages["index.html"];
    let heads: Vec<String> = html.split("<aside>").skip(1).map(|a| a.split("</aside>").next().unwrap().to_string()).collect();
    let percent = |a: usize, b: usize| format!("{:.1}%", a as f32 * 100.0 / b as f32);
    let mut want = vec![];
    if modules > 0 {
        want.push(format!("({modules} modules, {macros}/{} macros, {})", totals.0, percent(macros, totals.0)));
    }
    if types > 0 {
        want.push(format!("({detailed} detailed/{types} documented/{} total, {})", totals.1, percent(types, totals.1)));
    }
    c.check_eq("the numbers on the index", &want, &heads);
    // the pages of types
    for (ty, f) in HTML {
        let Some(html) = m.pages.get(f) else { continue };
        let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut summary: Vec<(String, String)> = vec![];
        let members: &[(&str, &str)] = match ty {
            "ta" => &[("tax", "var/x"), ("tap", "proc/p")],
            "tb" => &[("tbx", "var/x"), ("tbp", "proc/p")],
            "global" => &[("gx", "var/gx"), ("gp", "proc/gp")],
            _ => &[],
        };
        for (item, id) in members {
            if p.has(item) {
                want.insert(id.to_string(), p[item].words(item));
                summary.push((id.split('/').nth(1).unwrap().to_string(), teaser(p, item)));
            }
        }
        let got = entries(html);
        c.check_eq(&format!("the entries of {f}"), &want.keys().collect::<Vec<_>>(), &got.keys().collect::<Vec<_>>());
        for (id, words) in &want {
            for w in words {
                c.ensure(got.get(id).is_some_and(|t| t.contains(w.as_str())), &format!("{f} says {w} about {id}"));
            }
        }
        c.check_eq(&format!("the summary of {f}"), &summary, &rows(html));
        if ty != "global" && p.has(ty) {
            for w in p[ty].words(ty) {
                c.ensure(plain(html).contains(&w), &format!("{f} says {w}"));
            }
        }
        // no page tells what belongs on another
        for other in ITEMS {
            let here = other == ty || members.iter().any(|m| m.0 == other);
            if !here && (plain(html).contains(&format!("Tease{other}.")) || plain(html).contains(&format!("More{other}."))) {
                c.fail("stray", format!("{f} has the text of {other}"));
            }
        }
        let h1 = plain(between(html, "<h1>", "</h1>").unwrap_or(""));
        if ty != "global" {
            let full = FULL.iter().find(|t| t.0 == ty).unwrap().1;
            let title = name_of(p, ty);
            let mut want = if title.is_empty() { full.to_string() } else { format!("{title} {full}") };
            match ty {
                "ta" => want += " inherits /datum",
                "te" => want += " inherits /ta",
                _ => {},
            }
            c.check_eq(&format!("the heading of {f}"), &want, &h1.trim().to_string());
        }
    }
    // the pages of files
    for (f, items) in [("code/a.html", &["M", "N", "ta"][..]), ("code/sub/b.html", &["tb", "gx", "gp", "te"][..])] {
        let Some(html) = m.pages.get(f) else { continue };
        let mut want: Vec<(String, String)> = vec![];
        if f == "code/a.html" && p.has("mod") {
            want.push((String::new(), "mod".into()));
        }
        for item in items {
            if p.has(item) {
                want.push((match *item { "ta" => "/ta".into(), "tb" => "/ta/tb".into(), "te" => "/te".into(), "gx" => "/var/gx".into(), "gp" => "/proc/gp".into(), other => other.to_string() }, teaser(p, item)));
            }
        }
        let mut got = rows(html);
        for r in got.iter_mut().filter(|r| r.0.is_empty()) {
            for w in p["mod"].words("mod") {
                c.ensure(r.1.contains(&w), &format!("{f} says {w}"));
            }
            r.1 = "mod".into();
        }
        c.check_eq(&format!("the rows of {f}"), &want, &got);
        let ids: BTreeSet<String> = items.iter().filter(|i| (**i == "M" || **i == "N") && p.has(i)).map(|i| format!("define/{i}")).collect();
        let got = entries(html);
        c.check_eq(&format!("the entries of {f}"), &ids, &got.keys().cloned().collect());
        for i in ["M", "N"] {
            for w in p[i].words(i) {
                if f == "code/a.html" {
                    c.ensure(got.get(&format!("define/{i}")).is_some_and(|t| t.contains(w.as_str())), &format!("{f} says {w} about {i}"));
                }
            }
        }
        let file = f.replace(".html", ".dm");
        let h1 = plain(between(html, "<h1>", "</h1>").unwrap_or("")).trim().to_string();
        let want = match p["mod"].title("mod") {
            Some(t) if f == "code/a.html" => format!("{t} {file}"),
            _ => file,
        };
        c.check_eq(&format!("the heading of {f}"), &want, &h1);
    }
    // the index
    let mut want: BTreeMap<String, (String, String)> = BTreeMap::new();
    for (ty, full) in FULL {
        if p.listed(ty) {
            let last = full.rsplit('/').next().unwrap();
            let title = if ty == "global" { String::new() } else { name_of(p, ty) };
            want.insert(full.into(), (if title.is_empty() { last.into() } else { title }, if ty == "global" { String::new() } else { teaser(p, ty) }));
        }
    }
    for f in made.iter().filter(|f| f.starts_with("code/")) {
        let stem = f.trim_end_matches(".html");
        let a = stem == "code/a";
        let name = p["mod"].title("mod").filter(|_| a).unwrap_or(stem.rsplit('/').next().unwrap().into());
        want.insert(stem.into(), (name, if a { teaser(p, "mod") } else { String::new() }));
    }
    let list = index(&m.pages["index.html"]);
    for (full, (name, text)) in &want {
        let found: Vec<_> = list.iter().filter(|e| e.0 == *full).collect();
        match found[..] {
            [e] => {
                // a type without siblings shows the way to it
                let shown = e.1.rsplit('/').next().unwrap().to_string();
                c.check_eq(&format!("the index on {full}"), &(name.clone(), text.clone()), &(shown, e.2.clone()));
            },
            _ => c.fail("index", format!("{} entries for {full}: {list:?}", found.len())),
        }
    }
    for e in &list {
        if !want.contains_key(&e.0) && !want.keys().any(|k| k.starts_with(&format!("{}/", e.0))) {
            c.fail("index", format!("{e:?} is not documented"));
        }
    }
    links(c, &m.pages);
    c.outcome(&made);
}
fn teaser(p: &Project, item: &str) -> String {
    p[item].teaser(item)
}
fn name_of(p: &Project, ty: &str) -> String {
    p[ty].title(ty).unwrap_or_else(|| if p.named && ty == "ta" { "thing".into() } else { String::new() })
}

fn totals(tool: &Tool) -> (usize, usize) {
    let m = tool.make(0, "totals", &Project::new().files(), &[]);
    let line = m.out.lines().find(|l| l.starts_with("documenting")).unwrap_or("");
    let number = |unit: &str| line.split(", ").find(|p| p.contains(unit)).and_then(|p| p.split(' ').next()).and_then(|n| n.rsplit('/').next()).and_then(|n| n.parse().ok()).unwrap_or(0);
    (number("macros"), number("types"))
}

pub fn check(r: &mut Runner) {
    let tool = Tool { exe: std::env::current_exe().unwrap().with_file_name("dmdoc"), scratch: r.scratch() };
    let all = totals(&tool);
    r.note("macros and types without the project's", format!("{all:?}"));
    // every combination of documented and not
    r.suite("which items", "pages, entries, teasers and links follow from what is documented", 1 << ITEMS.len(), |i, c| {
        let mut d = Digits(i);
        let mut p = Project::new();
        for item in ITEMS {
            if d.flag() {
                p.docs.insert(item, Line);
            }
        }
        c.input(|| show(&p));
        let m = tool.make(i, "items", &p.files(), &[]);
        judge(c, &p, &m, all);
    });
    // how they are documented
    let kinds = [None, Line, Long, Titled, TitledLong, List, Blank];
    let small = [None, Line, Long];
    let n = pow(kinds.len(), 2) * pow(small.len(), 2) * 2 * 2 * 5;
    r.suite("in which way", "titles, teasers and the need of a page follow from the text", n, |i, c| {
        let mut d = Digits(i);
        let mut p = Project::new();
        p.block = d.flag();
        p.named = d.flag();
        let (one, other) = *d.pick(&[("ta", "tb"), ("mod", "M"), ("te", "gx"), ("N", "tax"), ("tbp", "gp")]);
        p.docs.insert(one, *d.pick(&kinds));
        p.docs.insert(other, *d.pick(&kinds));
        for item in ["tb", "ta"] {
            let k = *d.pick(&small);
            if p.docs[item] == None {
                p.docs.insert(item, k);
            }
        }
        for m in ["tax", "tap", "tbx", "tbp", "gx", "gp", "M", "N"] {
            // a title means nothing here
            if matches!(p.docs[m], Titled | TitledLong) {
                p.docs.insert(m, Line);
            }
        }
        c.input(|| show(&p));
        let m = tool.make(i, "way", &p.files(), &[]);
        judge(c, &p, &m, all);
    });
    declarations(r, &tool);
    crosslinks(r, &tool);
    blocks(r, &tool);
    files(r, &tool);
    r.suite("many broken links", "a dry run fails if a crosslink is broken, however many are", 12, |i, c| {
        let n = [0, 1, 2, 100, 254, 255, 256, 257, 511, 512, 513, 768][i as usize];
        let mut text = String::new();
        for k in 0..n {
            text += &format!("/// see [/nope{k}] here\n");
        }
        text += "/// done\n/ta\n";
        c.input(|| format!("{n} broken links"));
        let m = tool.make(i, "many", &[("x.dme", "#include \"code/a.dm\"\n".into()), ("code/a.dm", text)], &["--dry-run"]);
        c.check_eq("complaints", &n, &m.err.lines().filter(|l| l.starts_with("    [")).count());
        c.check_eq("success", &(n == 0), &(m.code == Some(0)));
    });
}

/// Blocks of variables, and of types, that have a comment of their own.
fn blocks(r: &mut Runner, tool: &Tool) {
    const OWNERS: [&str; 2] = ["", "/ta"];
    r.suite("blocks", "comments on blocks of variables or procs, on the root or in a type: every link leads somewhere", 2 * 2 * 2 * 3 * 3, |i, c| {
        let mut d = Digits(i);
        let owner = d.take(2);
        let what = if d.flag() { "var" } else { "proc" };
        let path = d.flag();
        let (on_block, on_item) = (d.take(3), d.take(3));
        let comment = |k: usize, tabs: usize| {
            let t = "\t".repeat(tabs);
            match k {
                0 => String::new(),
                1 => format!("{t}/// Says{tabs}.\n"),
                _ => format!("{t}/// Says{tabs}, [/ta/var/x].\n"),
            }
        };
        let item = if what == "var" { "y = 1" } else { "q()" };
        let text = match (owner, path) {
            (0, false) => format!("{}{what}\n{}\t{item}\n", comment(on_block, 0), comment(on_item, 1)),
            (0, true) => format!("{}/{what}\n{}\t{item}\n", comment(on_block, 0), comment(on_item, 1)),
            (_, false) => format!("/ta\n{}\t{what}\n{}\t\t{item}\n", comment(on_block, 1), comment(on_item, 2)),
            (_, true) => format!("{}/ta/{what}\n{}\t{item}\n", comment(on_block, 0), comment(on_item, 1)),
        };
        let text = format!("//! Module.\n/ta\n\t/// Thing.\n\tvar/x\n{text}");
        c.input(|| text.clone());
        let m = tool.make(i, "blocks", &[("x.dme", "#include \"code/a.dm\"\n".into()), ("code/a.dm", text.clone())], &[]);
        c.check_eq("exit status", &Some(0), &m.code);
        c.check_eq("complaints", &String::new(), &m.err);
        let made: BTreeSet<&str> = m.pages.keys().map(|f| f.as_str()).filter(|f| !["dmdoc.css", "dmdoc.js", "git.png"].contains(f)).collect();
        let mut want: BTreeSet<&str> = ["index.html", "code/a.html", "ta.html"].into();
        if owner == 0 && on_item > 0 {
            want.insert("global.html");
        }
        c.check_eq("pages", &want, &made);
        if on_item > 0 && !c.failed() {
            let page = &m.pages[if owner == 0 { "global.html" } else { "ta.html" }];
            c.ensure(attributes(page, "id").iter().any(|a| *a == format!("{what}/{}", item.trim_end_matches(['(', ')', '1', '=', ' ']))), &format!("the {what} is on the page of {:?}", OWNERS[owner]));
        }
        links(c, &m.pages);
        c.outcome(&made);
    });
}

/// Texts which stand beside the code.
fn files(r: &mut Runner, tool: &Tool) {
    const TEXTS: [(&str, &str, &str); 7] = [
        ("code/notes.md", "# Notestitle\n\nNotestext. See [/ta].\n", "code/notes"),
        ("code/sub/README.md", "Readmetext.\n", "code/sub"),
        ("code/list.txt", "Listtext <b> [/ta]\n", "code/list"),
        ("code/a.md", "Atext.\n", "code/a"),
        ("code/.hidden.md", "Hiddentext.\n", ""),
        ("code/.git/x.md", "Hiddentext.\n", ""),
        ("other/far.md", "Fartext.\n", ""),
    ];
    r.suite("texts", "texts beside the code become pages, and one of them the index", (1 << TEXTS.len()) * 3 * 4, |i, c| {
        let mut d = Digits(i);
        let picked: Vec<_> = TEXTS.iter().filter(|_| d.flag()).collect();
        let index = d.take(3);
        let (doc, typepath) = (d.flag(), d.flag());
        let mut p = Project::new();
        p.named = true;
        p.docs.insert("ta", Long);
        if doc {
            p.docs.insert("mod", Titled);
        }
        let mut list = p.files();
        for (f, t, _) in &picked {
            list.push((f, t.to_string()));
        }
        if typepath {
            list.push(("SpacemanDMM.toml", "[dmdoc]\nuse_typepath_names = true\n".into()));
        }
        let mut args = vec![];
        match index {
            1 => {
                list.push(("code/main.md", "# Maintitle\n\nMaintext, [/ta].\n".into()));
                args = vec!["--index", "code/main.md"];
            },
            2 => {
                list.push(("front.md", "Maintext, [/ta].\n".into()));
                args = vec!["--index", "front.md"];
            },
            _ => {},
        }
        c.input(|| format!("{list:?} {args:?}"));
        let m = tool.make(i, "texts", &list, &args);
        c.check_eq("exit status", &Some(0), &m.code);
        c.check_eq("complaints", &String::new(), &m.err);
        if c.failed() {
            return;
        }
        let mut want: BTreeSet<String> = ["code/a.html".to_string()].into();
        want.extend(picked.iter().filter(|p| !p.2.is_empty()).map(|p| format!("{}.html", p.2)));
        let made: BTreeSet<String> = m.pages.keys().filter(|f| f.starts_with("code") || f.starts_with("other") || f.starts_with("front")).cloned().collect();
        c.check_eq("pages", &want, &made);
        for (f, t, page) in picked.iter().filter(|p| !p.2.is_empty()) {
            let html = &m.pages[&format!("{page}.html")];
            let word = t.split(|c: char| !c.is_alphanumeric()).find(|w| w.ends_with("text")).unwrap();
            c.ensure(plain(html).contains(word), &format!("the page has the text of {f}"));
            match *page {
                "code/notes" => {
                    c.ensure(html.contains("See <a href=\"ta.html\""), "the crosslink in notes.md");
                    c.ensure(plain(between(html, "<h1>", "</h1>").unwrap_or("")).trim() == "Notestitle code/notes.md", "the title of notes.md");
                },
                "code/list" => {
                    c.ensure(html.contains("Listtext &lt;b&gt; [/ta]"), "a .txt file is shown as it is");
                },
                _ => {},
            }
        }
        for (name, html) in &m.pages {
            c.ensure(!html.contains("Hiddentext"), &format!("{name} has nothing that is hidden"));
            c.ensure(!html.contains("Fartext"), &format!("{name} has nothing from elsewhere"));
        }
        let html = &m.pages["index.html"];
        c.check_eq("the index text", &(index > 0), &plain(html).contains("Maintext, /ta."));
        if index > 0 {
            c.ensure(html.contains("Maintext, <a href=\"ta.html\""), "the crosslink on the index");
        }
        c.check_eq("the heading of the index", if index == 1 { &"Maintitle" } else { &"byond" }, &between(html, "<h1>", "</h1>").unwrap_or(""));
        let shown = super::p39_dmdoc::index(html).into_iter().find(|e| e.0 == "/ta").map(|e| e.1);
        c.check_eq("the name of the type", &Some(if typepath { "ta" } else { "thing" }.to_string()), &shown);
        links(c, &m.pages);
        c.outcome(&made);
    });
}
fn show(p: &Project) -> String {
    p.files().iter().map(|(f, t)| format!("{f}:\n{t}")).collect()
}

/// Crosslinks: where they may lead. `Err` is a broken one; the number counts complaints.
fn resolve(p: &Project, link: &str) -> (Option<String>, usize) {
    let ty = |t: &str| -> Option<&'static str> {
        match t {
            "/ta" => Some("ta"),
            "/ta/tb" => Some("tb"),
            "/te" => Some("te"),
            _ => Option::None,
        }
    };
    let member = |t: &str, kind: &str, name: &str| -> Option<&'static str> {
        match (t, kind, name) {
            ("ta", "var", "x") => Some("tax"),
            ("ta", "proc", "p") => Some("tap"),
            ("tb", "var", "x") => Some("tbx"),
            ("tb", "proc", "p") => Some("tbp"),
            ("", "var", "gx") => Some("gx"),
            ("", "proc", "gp") => Some("gp"),
            _ => Option::None,
        }
    };
    if link == "M" || link == "N" {
        return if p.has(link) { (Some(format!("code/a.html#define/{link}")), 0) } else { (Option::None, 1) };
    }
    if link.ends_with(".dm") {
        return if link == "code/a.dm" && (p.has("mod") || p.has("M") || p.has("N")) { (Some("code/a.html".into()), 0) } else { (Option::None, 1) };
    }
    let html = |t: &str| match t {
        "ta" => "ta.html",
        "tb" => "ta/tb.html",
        "te" => "te.html",
        _ => "global.html",
    };
    let find = |path: &str, kind: &str, name: &str, complaints: usize| -> (Option<String>, usize) {
        // the type named, or the nearest type around it
        let mut chain: Vec<&str> = match path {
            "" => vec![""],
            "/ta" => vec!["ta"],
            "/ta/tb" => vec!["tb", "ta"],
            "/te" => vec!["te"],
            "/ta/nope" => vec!["?", "ta"],
            _ => vec![],
        };
        let first = chain.first().copied().unwrap_or("?");
        chain.retain(|t| *t != "?");
        for t in chain {
            let there = if kind.is_empty() { p.page(if t.is_empty() { "global" } else { t }) } else { member(t, kind, name).is_some_and(|i| p.has(i)) };
            if there {
                let n = complaints + (t != first) as usize;
                return (Some(if kind.is_empty() { html(t).to_string() } else { format!("{}#{kind}/{name}", html(t)) }), n);
            }
        }
        (Option::None, complaints + 1)
    };
    for kind in ["proc", "var"] {
        if let Some((path, name)) = link.split_once(&format!("/{kind}/")) {
            return find(path, kind, name, 0);
        }
    }
    if ty(link).is_some() {
        return find(link, "", "", 0);
    }
    match link {
        "/ta/x" => find("/ta", "var", "x", 1),
        "/ta/p" => find("/ta", "proc", "p", 1),
        "/ta/tb/x" => find("/ta/tb", "var", "x", 1),
        "/ta/tb/p" => find("/ta/tb", "proc", "p", 1),
        "gx" => find("", "var", "gx", 1),
        "/ta/nope" => find("/ta/nope", "", "", 0),
        _ => (Option::None, 1),
    }
}
const LINKS: [&str; 23] = ["M", "N", "/ta", "/ta/tb", "/te", "/ta/var/x", "/ta/proc/p", "/ta/tb/var/x", "/ta/tb/proc/p", "/var/gx", "/proc/gp", "gx", "/ta/x", "/ta/p", "/ta/tb/x", "/ta/tb/p", "/ta/nope", "/nope", "/ta/var/nope", "nope", "code/a.dm", "code/sub/nope.dm", "/ta/nope/var/x"];
const OUTSIDE: [(&str, &str); 4] = [("/obj", "https://www.byond.com/docs/ref/#/obj"), ("/atom/var/name", "https://www.byond.com/docs/ref/#/atom/var/name"), ("/client/proc/Click", "https://www.byond.com/docs/ref/#/client/proc/Click"), ("/proc/abs", "https://www.byond.com/docs/ref/#/proc/abs")];

fn crosslinks(r: &mut Runner, tool: &Tool) {
    let sources = ["ta", "tax", "tap", "tb", "M", "gx", "gp", "mod", "te"];
    let n = sources.len() * (LINKS.len() + OUTSIDE.len()) * 2 * 2;
    let states = r.pick(5, 7);
    r.suite("crosslinks", "a crosslink leads to the item it names, and one which cannot is complained about and counted", (n as u64) << states, |i, c| {
        let mut d = Digits(i);
        let source = *d.pick(&sources);
        let which = d.take(LINKS.len() + OUTSIDE.len());
        let dry = d.flag();
        let text = d.flag();
        let mut p = Project::new();
        p.docs.insert(source, Line);
        for item in &["ta", "tbx", "tax", "gx", "tb", "M", "mod"][..states] {
            if d.flag() {
                p.docs.insert(item, if matches!(*item, "ta" | "tb") { Long } else { Line });
            }
        }
        // the procs go with the vars
        p.docs.insert("tap", p["tax"]);
        p.docs.insert("tbp", p["tbx"]);
        p.docs.insert("gp", p["gx"]);
        if !p.has(source) {
            p.docs.insert(source, Line);
        }
        let (link, want) = if which < LINKS.len() { (LINKS[which], resolve_with(&p, source, LINKS[which])) } else { (OUTSIDE[which - LINKS.len()].0, (Some(OUTSIDE[which - LINKS.len()].1.to_string()), 0)) };
        let written = if text { format!("see [the words][{link}] here") } else { format!("see [{link}] here") };
        p.extra = Some((source, written.clone()));
        c.input(|| format!("{}{}", show(&p), if dry { "--dry-run" } else { "" }));
        let m = tool.make(i, "links", &p.files(), if dry { &["--dry-run"] } else { &[] });
        let complaints = m.err.lines().filter(|l| l.starts_with("    [")).count();
        c.check_eq("complaints", &want.1, &complaints);
        if c.failed() {
            c.fail("said", m.err.clone());
        }
        c.check_eq("exit status", &Some(if dry { want.1 as i32 } else { 0 }), &m.code);
        c.check_eq("anything written", &!dry, &!m.pages.is_empty());
        if !dry && !c.failed() {
            let page = match source {
                "ta" | "tax" | "tap" => "ta.html",
                "tb" => "ta/tb.html",
                "te" => "te.html",
                "M" | "mod" => "code/a.html",
                _ => "global.html",
            };
            let html = &m.pages[page];
            let at = html.rfind("see ").map(|k| &html[k..]).unwrap_or("");
            let at = &at[..at.find(" here").unwrap_or(0)];
            match &want.0 {
                Some(to) => {
                    let href = attributes(at, "href");
                    c.check_eq("the link", &vec![to.clone()], &href);
                    c.check_eq("its text", &if text { "see the words".to_string() } else { format!("see {link}") }, &plain(at));
                },
                Option::None => { c.check_eq("the text of a broken link", &written.trim_end_matches(" here").to_string(), &at.to_string()); },
            }
            links(c, &m.pages);
        }
        c.outcome(&want);
    });
}
fn resolve_with(p: &Project, source: &'static str, link: &str) -> (Option<String>, usize) {
    let mut p = p.clone();
    p.extra = Some((source, String::new()));
    resolve(&p, link)
}

/// How a declared type reads, and the links in it.
fn type_text(path: &str, pages: &[&str]) -> (String, Vec<String>) {
    let mut links = vec![];
    let mut at = String::new();
    let mut start = true;
    for bit in path.split('/').filter(|b| !b.is_empty()) {
        at = format!("{at}{}{bit}", if at.is_empty() { "" } else { "/" });
        if pages.contains(&at.as_str()) {
            links.push(format!("{at}.html"));
        }
        if start && at == "list" {
            at.clear();
        } else {
            start = false;
        }
    }
    (if path.is_empty() { String::new() } else { format!("/{path}") }, links)
}
const PATHS: [&str; 12] = ["", "ta", "ta/tb", "ta/un", "list", "list/ta", "list/ta/tb", "list/list/ta", "un", "un/ta", "te", "list/un"];
const INPUTS: [&str; 9] = ["", "num", "num|text", "mob", "anything", "obj|mob", "mob|obj|turf|area", "null|color", "list"];
fn input_text(written: &str) -> String {
    match written {
        "num|text" => "text | num",
        "obj|mob" => "movable",
        "mob|obj|turf|area" => "atom",
        other => other,
    }
    .replace("null|color", "null | color")
}
fn declarations(r: &mut Runner, tool: &Tool) {
    let n = 4 * 16 * INPUTS.len() as u64 * 3;
    r.suite("declarations", "the heading of a variable or proc tells its declared kind, type, parameters and result, with a link to every documented type named in it", n, |i, c| {
        let mut d = Digits(i);
        let (ta, tb) = (d.flag(), d.flag());
        let flags: Vec<&str> = ["static", "const", "tmp", "final"].into_iter().filter(|_| d.flag()).collect();
        let input = *d.pick(&INPUTS);
        let result = d.take(3);
        let pages: Vec<&str> = [(ta, "ta"), (tb, "ta/tb"), (true, "h"), (true, "h/sub")].iter().filter(|p| p.0).map(|p| p.1).collect();
        let doc = |on: bool| if on { "/// One.\n///\n/// Two.\n" } else { "" };
        let mut text = format!("{}/ta\n{}/ta/tb\n/te\n/h\n", doc(ta), doc(tb));
        let mut sub = String::from("/h/sub\n");
        let mut want: Vec<(String, String, Vec<String>)> = vec![];
        let mut wsub = vec![];
        let pre: String = flags.iter().map(|f| format!("{f}/")).collect();
        let slashed: String = flags.iter().map(|f| format!("/{f}")).collect();
        let as_in = if input.is_empty() { String::new() } else { format!(" as {input}") };
        let as_out = if input.is_empty() { String::new() } else { format!(" as {}", input_text(input)) };
        for (k, path) in PATHS.iter().enumerate() {
            let (shown, links) = type_text(path, &pages);
            let slash = if path.is_empty() { "" } else { "/" };
            text += &format!("\t/// A var.\n\tvar/{pre}{path}{slash}v{k} = 1{as_in}\n");
            let tail = if slashed.is_empty() && path.is_empty() && input.is_empty() { String::new() } else { format!(" – {slashed}{shown}{as_out}") };
            want.push((format!("var/v{k}"), format!("var v{k}{tail}"), links.clone()));
            if !flags.contains(&"const") && !flags.contains(&"final") && !flags.contains(&"static") {
                sub += &format!("\t/// Its own.\n\tv{k} = 2\n");
                let mut l = vec![format!("h.html#var/v{k}")];
                l.extend(links.clone());
                wsub.push((format!("var/v{k}"), format!("↑v{k}{tail}"), l));
            }
            // procs: this path and every other one as parameters
            for (m, other) in PATHS.iter().enumerate() {
                let id = format!("p{k}_{m}");
                let kind = if (k + m) % 2 == 0 { "proc" } else { "verb" };
                let var = if m % 2 == 0 { "var/" } else { "" };
                let (oshown, olinks) = type_text(other, &pages);
                let os = if other.is_empty() { "" } else { "/" };
                let mut all = links.clone();
                all.extend(olinks.clone());
                let mut back = String::new();
                let mut body = "return".to_string();
                let mut ret = String::new();
                match result {
                    1 if !input.is_empty() => {
                        ret = as_in.clone();
                        back = as_out.clone();
                    },
                    2 if !path.is_empty() => {
                        body = format!("set SpacemanDMM_return_type = /{path}");
                        back = format!(" as {shown}");
                        all.extend(links.clone());
                    },
                    _ => {},
                }
                text += &format!("\t/// A proc.\n\t{kind}/{id}({var}{path}{slash}a{as_in}, {var}{other}{os}b = 2){ret}\n\t\t{body}\n");
                let sig = format!("({shown}{slash}a{as_out}, {oshown}{os}b)");
                want.push((format!("proc/{id}"), format!("{kind} {id}{sig} {back}"), all));
                if m == 0 {
                    sub += &format!("\t/// Its own.\n\t{id}(q, {path}{slash}r)\n\t\treturn\n");
                    let mut l = vec![format!("h.html#proc/{id}")];
                    l.extend(links.clone());
                    wsub.push((format!("proc/{id}"), format!("↑{id}(q, {shown}{slash}r)"), l));
                }
            }
        }
        text += &sub;
        c.input(|| text.clone());
        let m = tool.make(i, "decl", &[("x.dme", "#include \"a.dm\"\n".into()), ("a.dm", text.clone())], &[]);
        c.check_eq("exit status", &Some(0), &m.code);
        for (page, want) in [("h.html", want), ("h/sub.html", wsub)] {
            let got = heads(m.pages.get(page).map_or("", |s| s));
            c.check_eq(&format!("how many entries {page} has"), &want.len(), &got.len());
            for (id, text, links) in want {
                let g = got.get(&id);
                let clean = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
                c.check_eq(&format!("{page}: heading of {id}"), &Some(clean(&text)), &g.map(|g| clean(&g.0)));
                c.check_eq(&format!("{page}: links of {id}"), &Some(links), &g.map(|g| g.1.clone()));
                c.trans(1);
            }
        }
        links(c, &m.pages);
        c.outcome(&pages);
    });
}
/// The headings of a page's entries and the links in them.
fn heads(html: &str) -> BTreeMap<String, (String, Vec<String>)> {
    html.split("<h3 id=\"")
        .skip(1)
        .map(|part| {
            let id = part.split('"').next().unwrap().to_string();
            let head = &part[part.find('>').unwrap_or(0) + 1..part.find("</h3>").unwrap_or(part.len())];
            (id, (plain(head), attributes(head, "href")))
        })
        .collect()
}
