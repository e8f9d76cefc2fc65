//! P35: symbol search, document outlines and the object tree browser list what is declared, where it is declared.
use crate::lsp::*;
use mc_common::*;
use serde_json::{Value, json};

const CLASS: u64 = 5;
const METHOD: u64 = 6;
const FIELD: u64 = 8;
const CONSTRUCTOR: u64 = 9;
const FUNCTION: u64 = 12;
const VARIABLE: u64 = 13;
const CONSTANT: u64 = 14;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Define,
    Type,
    Var,
    Proc,
}

/// One thing the program declares.
#[derive(Clone, Debug)]
struct Sym {
    what: What,
    name: String,
    /// The path of the type that holds it, or that it extends.
    on: String,
    file: &'static str,
    line: u32,
}

impl Sym {
    fn path(&self) -> String {
        format!("{}/{}", self.on, self.name)
    }
    fn show(&self) -> String {
        let kind = match self.what {
            What::Define => CONSTANT,
            What::Type => CLASS,
            What::Var => FIELD,
            What::Proc if self.on.is_empty() => FUNCTION,
            What::Proc if matches!(&self.name[..], "New" | "Initialize" | "init") => CONSTRUCTOR,
            What::Proc => METHOD,
        };
        let cont = if self.what == What::Define { "-" } else { &self.on };
        format!("{} kind {kind} in <{cont}> at {}:{}", self.name, self.file, self.line)
    }
}

fn show_found(v: &Value) -> Option<String> {
    let uri = v["location"]["uri"].as_str().unwrap_or("?");
    if uri.starts_with("dm:") {
        return None;
    }
    Some(format!(
        "{} kind {} in <{}> at {}:{}",
        v["name"].as_str().unwrap_or("?"),
        v["kind"],
        v["containerName"].as_str().unwrap_or("-"),
        uri.rsplit('/').next().unwrap(),
        v["location"]["range"]["start"]["line"]
    ))
}

/// Letters and digits only, in lower case.
fn plain(s: &str) -> String {
    s.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect()
}

/// Does the query ask for this symbol? None if the query asks for nothing at all.
fn wanted(query: &str, s: &Sym) -> Option<bool> {
    if plain(query).is_empty() {
        return None;
    }
    let (kinds, rest): (&[What], &str) = if let Some(r) = query.strip_prefix('#') {
        (&[What::Define], r)
    } else if let Some(r) = query.strip_prefix("var/") {
        (&[What::Var], r)
    } else if let Some(r) = query.strip_prefix("proc/") {
        (&[What::Proc], r)
    } else if query.contains('/') {
        return Some(s.what == What::Type && s.path().to_lowercase().contains(&query.to_lowercase()));
    } else {
        (&[What::Define, What::Type, What::Var, What::Proc], query)
    };
    if plain(rest).is_empty() {
        return None;
    }
    Some(kinds.contains(&s.what) && plain(&s.name).starts_with(&plain(rest)))
}

fn search(w: &mut Workspace, c: &mut Case, query: &str, syms: &[Sym]) -> Res<()> {
    c.trans(1);
    let v = w.server.request("workspace/symbol", json!({"query": query}))?;
    c.validated(1);
    let mut exp: Vec<String> = syms.iter().filter(|s| wanted(query, s) == Some(true)).map(|s| s.show()).collect();
    exp.sort();
    let null = syms.first().is_some_and(|s| wanted(query, s).is_none());
    if null || v.is_null() {
        c.check_eq(&format!("no answer to {query:?}"), &null, &v.is_null());
        return Ok(());
    }
    let list = v.as_array().cloned().unwrap_or_default();
    let mut act: Vec<String> = list.iter().filter_map(show_found).collect();
    act.sort();
    c.check_eq(&format!("symbols found for {query:?}"), &exp, &act);
    // what comes with the language answers to the same query
    for f in &list {
        if show_found(f).is_some() {
            continue;
        }
        let what = match f["kind"].as_u64().unwrap_or(0) {
            CONSTANT => What::Define,
            CLASS => What::Type,
            FIELD => What::Var,
            _ => What::Proc,
        };
        let s = Sym { what, name: f["name"].as_str().unwrap_or("").into(), on: f["containerName"].as_str().unwrap_or("").into(), file: "", line: 0 };
        if wanted(query, &s) != Some(true) {
            c.fail("unasked", format!("{query:?} found {}", s.show()));
        }
    }
    c.outcome(&act);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// search

struct Text {
    files: Vec<(&'static str, String)>,
    syms: Vec<Sym>,
    cur: usize,
}
impl Text {
    fn new(names: &[&'static str]) -> Text {
        Text { files: names.iter().map(|n| (*n, String::new())).collect(), syms: vec![], cur: 0 }
    }
    fn line(&mut self, s: &str) -> &mut Self {
        let t = &mut self.files[self.cur].1;
        t.push_str(s);
        t.push('\n');
        self
    }
    /// The next line declares this.
    fn next(&mut self, what: What, on: &str, name: &str) -> &mut Self {
        let (file, text) = &self.files[self.cur];
        let line = text.matches('\n').count() as u32;
        self.syms.push(Sym { what, name: name.into(), on: on.into(), file, line });
        self
    }
    fn show(&self) -> String {
        self.files.iter().map(|(n, t)| format!("--- {n}\n{t}")).collect()
    }
    fn load(&self, w: &mut Workspace) -> Res<()> {
        let env: String = self.files.iter().map(|f| format!("#include \"{}\"\n", f.0)).collect();
        let mut all: Vec<(&str, &str)> = self.files.iter().map(|(n, t)| (*n, t.as_str())).collect();
        all.push(("x.dme", &env));
        w.load(&all)?;
        Ok(())
    }
}

fn names() -> Text {
    use What::*;
    let mut t = Text::new(&["a.dm", "b.dm"]);
    for (n, v) in [("AB", "1"), ("a_b_c", "2"), ("B1c", ""), ("_a", "3")] {
        t.next(Define, "", n).line(&format!("#define {n} {v}"));
    }
    t.next(Define, "", "ac").line("#define ac(x) x");
    // defined twice, each stands for itself
    t.next(Define, "", "c1").line("#define c1 1").line("#undef c1");
    t.next(Define, "", "c1").line("#define c1 2").line("#undef c1");
    t.next(Type, "", "ab").line("/ab");
    t.next(Type, "", "a_bc").line("/a_bc");
    t.next(Type, "/ab", "ac").line("/ab/ac");
    t.next(Var, "/ab/ac", "B_1").line("\tvar/B_1 = 2");
    t.next(Var, "/ab/ac", "b").line("\tvar/static/b");
    t.line("\tab = 4");
    t.next(Type, "/ab/ac", "_Bb").line("\t_Bb");
    t.line("\t\tbbb = 1");
    t.next(Var, "/ab/ac/_Bb", "c").line("\t\tvar/const/c = 2");
    t.next(Proc, "/ab/ac/_Bb", "C1").line("\t\tproc/C1()");
    t.next(Var, "/ab", "ab").line("/ab/var/ab = 1");
    t.next(Var, "/ab", "bbb").line("/ab/var/list/bbb");
    t.next(Proc, "/ab", "b").line("/ab/proc/b()");
    t.next(Proc, "/ab", "A_B").line("/ab/verb/A_B()");
    t.line("/ab/ac/b()").line("/ab/A_B()");
    t.next(Proc, "/ab", "init").line("/ab/proc/init()");
    t.cur = 1;
    t.next(Type, "/a_bc", "cab").line("/a_bc/cab/var");
    t.next(Var, "/a_bc/cab", "Cab").line("\tCab");
    t.next(Var, "/a_bc/cab", "b11").line("\tb11 = list(1)");
    t.line("/a_bc/cab/proc");
    t.next(Proc, "/a_bc/cab", "Initialize").line("\tInitialize()");
    t.next(Proc, "/a_bc/cab", "cc").line("\tcc(abc)").line("\t\tvar/abcd = 1").line("\t\tfor(var/abca in 1 to 2)");
    t.next(Var, "", "a_").line("/var/a_ = 2");
    t.next(Var, "", "Aab").line("/var/global/Aab");
    t.line("/var");
    t.next(Var, "", "caa").line("\tcaa");
    t.next(Proc, "", "ba").line("/proc/ba(c)").line("\treturn c");
    t.next(Proc, "", "New").line("/proc/New()");
    t.next(Type, "", "b1").line("b1");
    t.next(Proc, "/b1", "a").line("\tproc/a()");
    t.next(Type, "/b1", "c_1").line("b1/c_1/ab").line("\ta()");
    let (f, l) = ("b.dm", t.syms.last().unwrap().line);
    t.syms.push(Sym { what: Type, name: "ab".into(), on: "/b1/c_1".into(), file: f, line: l });
    t
}

const LETTERS: [char; 7] = ['a', 'B', 'c', '_', '1', '/', '#'];

fn queries(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(4, 5);
    let plain_n = count_upto(LETTERS.len(), depth);
    let pre_n = count_upto(LETTERS.len(), depth - 1);
    let n = plain_n + 3 * pre_n;
    const CHUNK: u64 = 64;
    r.suite(
        "queries",
        "every query of up to N of the characters a, B, c, _, 1, / and #, also after var/, proc/ and Var/, against an environment with two dozen macros, types, variables and procs whose names differ by case, underscores and prefixes: exactly the declarations the query asks for, each at its declaration and with its holder",
        n.div_ceil(CHUNK),
        |i, c| {
            let t = names();
            c.input(|| format!("{}\nqueries from {}", t.show(), i * CHUNK));
            let r = with_workspace(&sc, |w| {
                t.load(w)?;
                for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let q = if j < plain_n {
                        word(LETTERS.len(), j).iter().map(|&k| LETTERS[k]).collect::<String>()
                    } else {
                        let j = j - plain_n;
                        let w: String = word(LETTERS.len(), j % pre_n).iter().map(|&k| LETTERS[k]).collect();
                        format!("{}{w}", ["var/", "proc/", "Var/"][(j / pre_n) as usize])
                    };
                    search(w, c, &q, &t.syms)?;
                    if c.failed() {
                        break;
                    }
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail("server", e);
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// mentions of one variable and one proc, and the browser's view of them

const PATHS: [&str; 4] = ["", "/aa", "/aa/bb", "/cc"];
const VARS: [&str; 6] = ["none", "value", "declared", "block", "static", "const"];
const PROCS: [&str; 6] = ["none", "again", "proc", "verb", "proc and again", "block"];

fn browse(w: &mut Workspace, c: &mut Case, path: &str, exp: &Value) -> Res<()> {
    c.trans(1);
    let v = w.server.request("experimental/dreammaker/objectTree2", json!({"path": path}))?;
    c.validated(1);
    let place = |v: &Value| -> Value {
        match v["location"]["uri"].as_str() {
            None => Value::Null,
            Some(u) => json!(format!("{}:{}", u.rsplit('/').next().unwrap(), v["location"]["range"]["start"]["line"])),
        }
    };
    let own = |v: &&Value| !v["location"]["uri"].as_str().unwrap_or("").starts_with("dm:");
    let list = |k: &str, f: &dyn Fn(&Value) -> Value| -> Value { v[k].as_array().into_iter().flatten().filter(own).map(f).collect() };
    let mut act = json!({
        "name": v["name"],
        "vars": list("vars", &|x| json!([x["name"], x["kind"], place(x), x["is_declaration"]])),
        "procs": list("procs", &|x| json!([x["name"], x["kind"], place(x), x["is_verb"]])),
        "children": list("children", &|x| json!([x["name"], x["kind"], place(x), x["n_vars"], x["n_procs"], x["n_children"], x["vars"].as_array().map_or(9, |v| v.len()) + x["procs"].as_array().map_or(9, |v| v.len())])),
    });
    if !path.is_empty() {
        act["location"] = place(&v);
        act["counts"] = json!([v["n_vars"], v["n_procs"], v["n_children"]]);
    }
    c.check_eq(&format!("the browser's view of {path:?}"), &exp.to_string(), &act.to_string());
    c.outcome(&act.to_string());
    Ok(())
}

fn mentions(r: &mut Runner) {
    let sc = r.scratch();
    let nv = pow(VARS.len(), 3);
    r.suite(
        "mentions",
        "a variable and a proc mentioned on the root, on a type, on its subtype and on an unrelated type in every way (declared in a path or a block, static, constant, verb, given again, overridden only) and in either order of types: searching finds exactly the declarations, and the object tree browser lists each type's own variables, procs (every definition) and children",
        nv * 6 * 2,
        |i, c| {
            let mut d = Digits(i);
            // the variable's forms on all, the proc's forms on all
            let vk: Vec<usize> = (0..3).map(|_| d.take(VARS.len())).collect();
            let shift = d.take(6);
            let order = d.take(2);
            let form = |k: usize| -> (&str, &str) {
                // the root has no overrides
                if k == 0 {
                    let (v, p) = (VARS[vk[0]], PROCS[(vk[1] + shift) % 6]);
                    return (if v == "value" { "none" } else { v }, if p == "again" { "none" } else { p });
                }
                (VARS[vk[k - 1]], PROCS[(vk[k % 3] + shift) % 6])
            };
            let mut t = Text::new(if order == 0 { &["a.dm", "b.dm"] } else { &["b.dm", "a.dm"] });
            let mut own: Vec<(Vec<Value>, Vec<Value>, String)> = vec![Default::default(); 4];
            let at = |t: &Text, back: u32| -> String {
                let (f, x) = &t.files[t.cur];
                format!("{f}:{}", x.matches('\n').count() as u32 - back)
            };
            let ks: Vec<usize> = if order == 0 { vec![0, 1, 2, 3] } else { vec![3, 2, 1, 0] };
            for k in ks {
                t.cur = (k % 2) ^ order;
                let p = PATHS[k];
                if k > 0 {
                    let (on, name) = p.rsplit_once('/').unwrap();
                    t.next(What::Type, on, name).line(p);
                    own[k].2 = at(&t, 1);
                }
                let (v, pr) = form(k);
                match v {
                    "none" => {},
                    "value" => {
                        t.line(&format!("{p}/vv = 2"));
                        own[k].0.push(json!(["vv", FIELD, at(&t, 1), false]));
                    },
                    "block" => {
                        t.line(&format!("{p}/var"));
                        t.next(What::Var, p, "vv").line("\tvv = 3");
                        own[k].0.push(json!(["vv", FIELD, at(&t, 1), true]));
                    },
                    v => {
                        let m = match v {
                            "declared" => "",
                            "static" => "static/",
                            _ => "const/",
                        };
                        t.next(What::Var, p, "vv").line(&format!("{p}/var/{m}vv = 1"));
                        own[k].0.push(json!(["vv", if v == "const" { CONSTANT } else { FIELD }, at(&t, 1), true]));
                    },
                }
                let kind = if k == 0 { FUNCTION } else { METHOD };
                match pr {
                    "none" => {},
                    "again" => {
                        t.line(&format!("{p}/pp()"));
                        own[k].1.push(json!(["pp", kind, at(&t, 1), null]));
                    },
                    "block" => {
                        t.line(&format!("{p}/proc"));
                        t.next(What::Proc, p, "pp").line("\tpp()");
                        own[k].1.push(json!(["pp", kind, at(&t, 1), false]));
                    },
                    f => {
                        let word = if f == "verb" { "verb" } else { "proc" };
                        t.next(What::Proc, p, "pp").line(&format!("{p}/{word}/pp()"));
                        own[k].1.push(json!(["pp", kind, at(&t, 1), word == "verb"]));
                        if f == "proc and again" {
                            t.line(&format!("{p}/pp(x)"));
                            own[k].1.push(json!(["pp", kind, at(&t, 1), null]));
                        }
                    },
                }
                if k > 0 && k != 2 {
                    t.next(What::Proc, p, "Initialize").line(&format!("{p}/proc/Initialize()"));
                    own[k].1.insert(0, json!(["Initialize", CONSTRUCTOR, at(&t, 1), false]));
                }
            }
            c.input(|| t.show());
            let r = with_workspace(&sc, |w| {
                t.load(w)?;
                for q in ["vv", "var/v", "pp", "proc/pp", "aa/b", "/", "/c", "b", "init"] {
                    search(w, c, q, &t.syms)?;
                }
                let counts = |k: usize, kids: usize| -> [usize; 3] {
                    let mut names: Vec<String> = own[k].1.iter().map(|p| p[0].to_string()).collect();
                    names.dedup();
                    [own[k].0.len(), names.len(), kids]
                };
                for k in 0..4 {
                    let kids: &[usize] = [&[1usize, 3][..], &[2], &[], &[]][k];
                    let name = PATHS[k].rsplit('/').next().unwrap();
                    let mut exp = json!({
                        "name": name,
                        "vars": own[k].0,
                        "procs": own[k].1,
                        "children": kids.iter().map(|&j| {
                            let [a, b, d] = counts(j, (j == 1) as usize);
                            json!([PATHS[j].rsplit('/').next().unwrap(), CLASS, own[j].2, a, b, d, 0])
                        }).collect::<Vec<_>>(),
                    });
                    if k > 0 {
                        exp["location"] = json!(own[k].2);
                        exp["counts"] = json!(counts(k, kids.len()));
                    }
                    browse(w, c, PATHS[k], &exp)?;
                }
                for bad in ["/aa/cc", "aa/bbb", "/x"] {
                    let v = w.server.call("experimental/dreammaker/objectTree2", json!({"path": bad}))?;
                    c.check_eq(&format!("the type {bad} is unknown"), &true, &v.get("error").is_some());
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail("server", e);
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// outline

const OPS: [&str; 13] = ["end", "type", "path", "var", "value", "proc", "override", "local", "if", "define", "far var", "far value", "far proc"];

#[derive(Default)]
struct Node {
    name: String,
    /// What the declaration's own path says it belongs to or is of, if it says.
    detail: &'static str,
    kind: u64,
    line: u32,
    kids: Vec<Node>,
}
impl Node {
    fn show(&self) -> Option<String> {
        let kids: Vec<String> = self.kids.iter().filter_map(|k| k.show()).collect();
        let at = match self.kind {
            CLASS if kids.is_empty() => return None,
            CLASS => "in it".to_string(),
            _ => self.line.to_string(),
        };
        Some(format!("{} {} <{}>@{}[{}]", self.kind, self.name, self.detail, at, kids.join(" ")))
    }
}

/// A type without entries has no block to show. The place of a block is its first entry's or its header's.
fn outline_of(v: &Value) -> Option<String> {
    let kids: Vec<String> = v["children"].as_array().into_iter().flatten().filter_map(outline_of).collect();
    let at = match v["kind"].as_u64() {
        Some(CLASS) if kids.is_empty() => return None,
        Some(CLASS) => "in it".to_string(),
        _ => v["range"]["start"]["line"].to_string(),
    };
    Some(format!("{} {} <{}>@{}[{}]", v["kind"], v["name"].as_str().unwrap_or("?"), v["detail"].as_str().unwrap_or(""), at, kids.join(" ")))
}
/// Every symbol lies within the one that holds it, and after the one before it.
fn nested(list: &Value, within: Option<(u64, u64)>) -> bool {
    let mut last = (0, 0);
    for v in list.as_array().into_iter().flatten() {
        let p = |k: &str| (v["range"][k]["line"].as_u64().unwrap_or(0), v["range"][k]["character"].as_u64().unwrap_or(0));
        let (s, e) = (p("start"), p("end"));
        if s > e || s < last || within.is_some_and(|w| s.0 < w.0 || e.0 > w.1) || !nested(&v["children"], Some((s.0, e.0))) {
            return false;
        }
        last = s;
    }
    true
}

/// The program a sequence of steps writes, and its outline.
fn write(ops: &[usize], dead: &mut bool) -> (String, Vec<Node>) {
    let mut text = String::new();
    let mut line = 0;
    // (is a proc body, is a plain block inside one) and the node
    let mut stack: Vec<(u8, Node)> = vec![(0, Node::default())];
    let mut n = 0;
    for &o in ops {
        let ind = "\t".repeat(stack.len() - 1);
        let state = stack.last().unwrap().0;
        n += 1;
        let node = |name: String, kind: u64| Node { name, detail: "", kind, line, kids: vec![] };
        let top = stack.len() == 1;
        match OPS[o] {
            "end" => {
                if top {
                    *dead = true;
                    return (text, vec![]);
                }
                // an empty body is no block
                let (_, done) = stack.pop().unwrap();
                // a macro after the last entry of a block is neither in nor out of it for sure
                if done.kids.last().is_some_and(|k| k.kind == CONSTANT) {
                    *dead = true;
                    return (text, vec![]);
                }
                let up = &mut stack.last_mut().unwrap().1;
                if done.kind == 0 { up.kids.extend(done.kids) } else { up.kids.push(done) }
                continue;
            },
            "type" | "path" if state == 0 => {
                let name = format!("t{n}");
                let pre = if OPS[o] == "path" { "pre/" } else { "" };
                text += &format!("{ind}{}{pre}{name}\n", if top { "/" } else { "" });
                stack.push((0, Node { detail: if pre.is_empty() { "" } else { "pre" }, ..node(name, CLASS) }));
            },
            "var" if state == 0 => {
                text += &format!("{ind}var/list/v{n} = 1\n");
                let x = Node { detail: "list", ..node(format!("v{n}"), FIELD) };
                stack.last_mut().unwrap().1.kids.push(x);
            },
            "value" if state == 0 && !top => {
                text += &format!("{ind}v{n} = 1\n");
                let x = node(format!("v{n}"), FIELD);
                stack.last_mut().unwrap().1.kids.push(x);
            },
            "proc" if state == 0 => {
                text += &format!("{ind}{}proc/p{n}(a{n})\n", if top { "/" } else { "" });
                stack.push((1, node(format!("p{n}"), if top { FUNCTION } else { METHOD })));
            },
            "override" if state == 0 && !top => {
                text += &format!("{ind}New()\n");
                stack.push((1, node("New".into(), CONSTRUCTOR)));
            },
            "far var" if top => {
                text += &format!("/a/b/var/static/datum/v{n} = 1\n");
                let x = Node { detail: "datum", ..node(format!("v{n}"), FIELD) };
                stack.last_mut().unwrap().1.kids.push(x);
            },
            "far value" if top => {
                text += &format!("/a/b/v{n} = 1\n");
                let x = Node { detail: "b", ..node(format!("v{n}"), FIELD) };
                stack.last_mut().unwrap().1.kids.push(x);
            },
            "far proc" if state == 0 => {
                text += &format!("{ind}{}a/b/{}p{n}()\n", if top { "/" } else { "" }, if n % 2 == 0 { "verb/" } else { "" });
                stack.push((1, Node { detail: "b", ..node(format!("p{n}"), METHOD) }));
            },
            "local" if state > 0 => {
                text += &format!("{ind}var/l{n} = 1\n");
                let x = node(format!("l{n}"), VARIABLE);
                stack.last_mut().unwrap().1.kids.push(x);
            },
            "if" if state > 0 => {
                text += &format!("{ind}if(x)\n");
                stack.push((2, node(String::new(), 0)));
            },
            "define" if state == 0 && stack.last().unwrap().1.kids.last().map_or(top, |k| k.kids.is_empty()) => {
                text += &format!("#define D{n} {n}\n");
                let x = node(format!("D{n}"), CONSTANT);
                stack.last_mut().unwrap().1.kids.push(x);
            },
            _ => {
                *dead = true;
                return (text, vec![]);
            },
        }
        line += 1;
    }
    while stack.len() > 1 {
        let (_, done) = stack.pop().unwrap();
        if done.kids.last().is_some_and(|k| k.kind == CONSTANT) {
            *dead = true;
        }
        let up = &mut stack.last_mut().unwrap().1;
        if done.kind == 0 { up.kids.extend(done.kids) } else { up.kids.push(done) }
    }
    (text, stack.pop().unwrap().1.kids)
}

fn outline(r: &mut Runner) {
    let sc = r.scratch();
    const CHUNK: u64 = 2000;
    for (name, folder, used, depth) in [("outline-alone", false, 10, r.pick(6, 7)), ("outline", true, 10, r.pick(6, 7)), ("outline-paths", true, 13, r.pick(5, 6))] {
        let n = count_upto(used, depth);
        r.suite(
            name,
            "every program of up to N steps (open a type, a type by a longer path, a proc, an override or an if; declare a variable, a value, a local variable or a macro; declare a member by its whole path; close), in a folder or a file on its own: the outline nests every symbol in what holds it, with its kind, its place and what its path says of it",
            n.div_ceil(CHUNK),
            |i, c| {
                for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let ops = word(used, j);
                    if ops.is_empty() || ops.last() == Some(&0) {
                        continue;
                    }
                    let mut dead = false;
                    let (text, nodes) = write(&ops, &mut dead);
                    if dead {
                        continue;
                    }
                    c.input(|| text.clone());
                    c.trans(1);
                    let ask = |s: &mut Server, uri: &str| {
                        s.open(uri, 1, &text);
                        let v = s.doc("textDocument/documentSymbol", uri);
                        s.close(uri);
                        v
                    };
                    let r = if folder {
                        with_workspace(&sc, |w| {
                            let uri = w.uri("o.dm");
                            ask(&mut w.server, &uri)
                        })
                    } else {
                        with_server(|s| ask(s, "file:///p35/o.dm"))
                    };
                    match r {
                        Err(e) => c.fail("server", e),
                        Ok(v) => {
                            c.validated(1);
                            let exp: Vec<String> = nodes.iter().filter_map(|n| n.show()).collect();
                            let act: Vec<String> = v.as_array().into_iter().flatten().filter_map(outline_of).collect();
                            if !nested(&v, None) {
                                c.fail("ranges", format!("the ranges of the outline do not nest: {v}\n{text}"));
                            }
                            c.check_eq(&format!("the outline of\n{text}"), &exp, &act);
                            c.outcome(&act);
                        },
                    }
                    if c.failed() {
                        return;
                    }
                }
            },
        );
    }
}

pub fn check(r: &mut Runner) {
    queries(r);
    mentions(r);
    outline(r);
}
