//! P38: hovering over a name shows the declaration and documentation of what it means.
use crate::lsp::*;
use mc_common::*;
use serde_json::Value;

const PATHS: [&str; 5] = ["", "/aa", "/aa/bb", "/aa/bb/cc", "/dd"];
/// Nearest first.
const CHAIN: [&[usize]; 5] = [&[0], &[1], &[2, 1], &[3, 2, 1], &[4, 2, 1]];

#[derive(Default)]
struct Text {
    text: String,
    uses: Vec<(u32, u32, String, Want)>,
}
enum Want {
    Nothing,
    /// What is shown, and the documentation it may come with.
    Shown(String, Vec<String>),
}
impl Text {
    fn t(&mut self, s: &str) -> &mut Self {
        self.text += s;
        self
    }
    fn line(&self) -> u32 {
        self.text.matches('\n').count() as u32
    }
    fn u(&mut self, name: &str) -> (u32, u32, String) {
        let at = (self.line(), (self.text.len() - self.text.rfind('\n').map_or(0, |i| i + 1)) as u32, name.to_string());
        self.text += name;
        at
    }
}

fn strings(v: &Value) -> Vec<String> {
    v["contents"].as_array().into_iter().flatten().map(|s| s.as_str().unwrap_or("?").trim().to_string()).collect()
}

fn decide(w: &mut Workspace, c: &mut Case, t: &Text) -> Res<()> {
    w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &t.text)])?;
    let uri = w.uri("a.dm");
    for (line, col, name, want) in &t.uses {
        c.trans(1);
        let v = w.server.at("textDocument/hover", &uri, *line, *col)?;
        c.validated(1);
        let act = strings(&v);
        let what = format!("hovering over {name} at {line}:{col}");
        match want {
            Want::Nothing => {
                c.check_eq(&what, &Vec::<String>::new(), &act);
            },
            Want::Shown(s, docs) => {
                let s = s.replace("{uri}", &uri);
                let mut exp = vec![s];
                exp.retain(|s| !s.is_empty());
                // where several definitions are documented, any of their texts
                if !docs.is_empty() {
                    let shown = act.last().filter(|a| docs.contains(a)).unwrap_or(&docs[0]);
                    exp.push(shown.clone());
                }
                c.check_eq(&what, &exp, &act);
            },
        }
        c.outcome(&act.iter().map(|s| s.replace(&uri, "")).collect::<Vec<_>>());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// variables and procs

struct Mention {
    line: u32,
    /// The declared type, where it declares.
    decl: Option<String>,
    /// The value, or the parameters.
    value: String,
    doc: Option<String>,
}

fn link(k: usize, m: &Mention) -> String {
    format!("[{}]({{uri}}#{})", if k == 0 { "(global)" } else { PATHS[k] }, m.line + 1)
}

/// What a use of the variable shows when it means the one of the types `chain`.
fn var_use(chain: &[usize], ms: &[Option<Mention>]) -> Want {
    let Some((k, m)) = chain.iter().filter_map(|&k| ms[k].as_ref().map(|m| (k, m))).find(|x| x.1.decl.is_some()) else {
        return Want::Nothing;
    };
    Want::Shown(format!("{}\n```dm\nvar/{}vv\n```", link(k, m), m.decl.as_ref().unwrap()), docs(chain, ms))
}
fn docs(chain: &[usize], ms: &[Option<Mention>]) -> Vec<String> {
    chain.iter().filter_map(|&k| ms[k].as_ref()?.doc.clone()).collect()
}
fn proc_use(chain: &[usize], ms: &[Option<Mention>]) -> Want {
    let Some((k, m)) = chain.iter().find_map(|&k| ms[k].as_ref().map(|m| (k, m))) else {
        return Want::Nothing;
    };
    let kind = chain.iter().find_map(|&k| ms[k].as_ref()?.decl.clone()).unwrap();
    Want::Shown(format!("{}\n```dm\n{kind}/pp({})\n```", link(k, m), m.value), docs(chain, ms))
}
/// What hovering over the mention itself shows: every mention from the declaration down.
fn mention(chain: &[usize], ms: &[Option<Mention>], var: bool) -> Want {
    let mut out = vec![];
    for &k in chain.iter().rev() {
        if let Some(m) = &ms[k] {
            if var {
                if let Some(d) = &m.decl {
                    out.push(format!("```dm\nvar/{d}vv\n```"));
                }
                out.push(if m.value.is_empty() { link(k, m) } else { format!("{}\n```dm\n= {}\n```", link(k, m), m.value) });
            } else {
                if let Some(d) = &m.decl {
                    out.push(format!("```dm\n{d}/pp\n```"));
                }
                out.push(format!("{}  \n```dm\npp({})\n```", link(k, m), m.value));
            }
        }
    }
    Want::Shown(out.join("\n\n"), docs(chain, ms))
}

/// Which of the five places mention: the global, where it is declared, which override it.
fn layout(d: &mut Digits) -> Option<[u8; 5]> {
    let global = d.take(2) as u8;
    let decl = d.take(3);
    let over = d.take(8);
    let mut out = [global, 0, 0, 0, 0];
    if decl > 0 {
        out[decl] = 1;
    }
    for (b, k) in [(1, 2), (2, 3), (4, 4)] {
        if over & b != 0 {
            if decl == 0 || decl == k {
                return None;
            }
            out[k] = 2;
        }
    }
    Some(out)
}

fn members(r: &mut Runner) {
    let sc = r.scratch();
    let kinds = r.pick(4, 12);
    r.suite(
        "members",
        "a variable and a proc declared globally, on a type or its subtype and overridden by any of three types, with documentation on any of them: uses through every receiver show the declaration that is meant, and hovering over a mention shows it and those it overrides, never a global of the same name",
        48 * 32 * kinds as u64,
        |i, c| {
            let mut d = Digits(i);
            let Some(lay) = layout(&mut d) else { return };
            let doc = d.take(32);
            let kind = d.take(kinds);
            let no = |k: usize| lay[k] == 0 && doc & (1 << k) != 0;
            if (0..5).any(no) {
                return;
            }
            let vt = ["", "list/", "static/aa/bb/", "const/"][kind % 4];
            let pk = ["proc", "verb"][kind / 2 % 2];
            let by_block = kind % 3 == 0;
            let mut t = Text::default();
            let mut vs: Vec<Option<Mention>> = (0..5).map(|_| None).collect();
            let mut ps: Vec<Option<Mention>> = (0..5).map(|_| None).collect();
            let mut marks: Vec<(usize, bool, (u32, u32, String))> = vec![];
            // the types themselves
            t.t("/aa\n/aa/bb\n/aa/bb/cc\n/dd\n/dd/parent_type = /aa/bb\n");
            for k in 0..5 {
                if lay[k] == 0 {
                    continue;
                }
                let p = PATHS[k];
                let block = by_block && k > 0;
                let ind = if block {
                    t.t(p).t("\n");
                    "\t"
                } else {
                    ""
                };
                let pre = if block { String::new() } else { format!("{p}/") };
                for var in [true, false] {
                    let doc = (doc & (1 << k) != 0).then(|| format!("About {} of {k}.", if var { "vv" } else { "pp" }));
                    if let Some(doc) = &doc {
                        t.t(&format!("{ind}/// {doc}\n"));
                    }
                    t.t(ind).t(&pre);
                    let line = t.line();
                    // a global of another type than the members
                    let vt = if k == 0 { "turf/" } else { vt };
                    let pk = if k == 0 { "proc" } else { pk };
                    let decl = lay[k] == 1;
                    if var {
                        if decl {
                            t.t("var/").t(vt);
                        }
                        let at = t.u("vv");
                        marks.push((k, true, at));
                        let value = if (k + kind) % 3 == 0 && vt != "const/" { String::new() } else { format!("{}", 10 + k) };
                        let value = if !decl && value.is_empty() { "7".to_string() } else { value };
                        if !value.is_empty() {
                            t.t(&format!(" = {value}"));
                        }
                        t.t("\n");
                        // only what can be known before the program runs is shown
                        let value = if k == 0 || vt.starts_with("static") {
                            String::new()
                        } else if value.is_empty() {
                            "null".to_string()
                        } else {
                            value
                        };
                        vs[k] = Some(Mention { line, decl: decl.then(|| vt.to_string()), value, doc });
                    } else {
                        if decl {
                            t.t(pk).t("/");
                        }
                        let at = t.u("pp");
                        marks.push((k, false, at));
                        let (src, shown) = [("", ""), ("aa/x, y = 2", "aa/x, y"), ("var/list/z as num", "list/z as num")][k % 3];
                        t.t(&format!("({src})\n"));
                        ps[k] = Some(Mention { line, decl: decl.then(|| pk.to_string()), value: shown.to_string(), doc });
                    }
                }
            }
            for (k, var, (l, col, n)) in marks {
                t.uses.push((l, col, n, mention(CHAIN[k], if var { &vs } else { &ps }, var)));
            }
            // uses from within each type, and of another object
            for k in 0..5 {
                let p = PATHS[k];
                t.t(&format!("{p}/proc/use{k}(aa/bb/o, aa/bb/cc/q, dd/e, w)\n"));
                let own = |ms: &[Option<Mention>]| -> &'static [usize] { if CHAIN[k].iter().any(|&j| ms[j].is_some()) { CHAIN[k] } else { CHAIN[0] } };
                for (recv, chain) in [("", None), ("o.", Some(2)), ("q.", Some(3)), ("e.", Some(4)), ("src.", Some(k)), ("w.", Some(9)), ("global.", Some(0))] {
                    if k == 0 && recv == "src." {
                        continue;
                    }
                    let none: &[usize] = &[];
                    let (cv, cp) = match chain {
                        None => (own(&vs), own(&ps)),
                        Some(9) => (none, none),
                        Some(j) => (CHAIN[j], CHAIN[j]),
                    };
                    t.t("\t").t(recv);
                    let (l, col, n) = t.u("vv");
                    t.t("++\n");
                    t.uses.push((l, col, format!("{recv}{n}"), var_use(cv, &vs)));
                    t.t("\t").t(recv);
                    let (l, col, n) = t.u("pp");
                    t.t("(1)\n");
                    t.uses.push((l, col, format!("{recv}{n}"), proc_use(cp, &ps)));
                }
                t.t("\tvar/vvv\n\tif(1)\n\t\tvar/vv\n\t\t");
                let (l, col, n) = t.u("vv");
                t.t("++\n");
                t.uses.push((l, col, format!("local {n}"), Want::Nothing));
            }
            c.input(|| t.text.clone());
            if let Err(e) = with_workspace(&sc, |w| decide(w, c, &t)) {
                c.fail("server", e);
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// macros

const STEPS: [&str; 8] = ["plain", "doc", "block doc", "trailing doc", "undef", "use", "call", "other"];

fn macros(r: &mut Runner) {
    let sc = r.scratch();
    let depth = r.pick(4, 5);
    let n = count_upto(STEPS.len(), depth);
    const CHUNK: u64 = 30;
    r.suite(
        "macros",
        "every sequence of up to N definitions of a macro (undocumented or documented in three ways), removals and uses: each use shows the documentation of the definition in force, if it has any",
        n.div_ceil(CHUNK),
        |i, c| {
            for j in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let w = word(STEPS.len(), j);
                if w.last().is_none_or(|&l| STEPS[l] != "use" && STEPS[l] != "call") {
                    continue;
                }
                let mut t = Text::default();
                // the documentation of each definition in force; removing one uncovers the one before
                let mut cur: Vec<Option<String>> = vec![];
                for (no, &s) in w.iter().enumerate() {
                    let doc = format!("Text {no}.");
                    match STEPS[s] {
                        "plain" => {
                            t.t("#define MM(x) x\n");
                            cur.push(None);
                        },
                        "doc" => {
                            t.t(&format!("/// {doc}\n#define MM(x) x\n"));
                            cur.push(Some(doc));
                        },
                        "block doc" => {
                            t.t(&format!("/** {doc} */\n#define MM(x) x\n"));
                            cur.push(Some(doc));
                        },
                        "trailing doc" => {
                            t.t(&format!("#define MM(x) x //! {doc}\n"));
                            cur.push(Some(doc));
                        },
                        "undef" => {
                            if cur.pop().is_none() {
                                break;
                            }
                            t.t("#undef MM\n");
                        },
                        "other" => {
                            t.t(&format!("/// {doc}\n#define OO{no} 1\n"));
                        },
                        f => {
                            t.t(if f == "use" { "/proc/p" } else { "/var/v" }).t(&no.to_string()).t(if f == "use" { "()\n\treturn " } else { " = " });
                            let (l, col, name) = t.u("MM");
                            t.t(&format!("({no})\n"));
                            if f == "call" && cur.is_empty() {
                                // not a constant, what is shown of it is of no concern here
                                continue;
                            }
                            let want = match cur.last() {
                                Some(Some(d)) => Want::Shown(String::new(), vec![d.clone()]),
                                _ => Want::Nothing,
                            };
                            t.uses.push((l, col, name, want));
                        },
                    }
                }
                c.input(|| t.text.clone());
                let r = with_workspace(&sc, |w| {
                    w.load(&[("x.dme", "#include \"a.dm\"\n"), ("a.dm", &t.text)])?;
                    let uri = w.uri("a.dm");
                    for (line, col, name, want) in &t.uses {
                        c.trans(1);
                        let v = w.server.at("textDocument/hover", &uri, *line, *col)?;
                        c.validated(1);
                        // the variable whose value it is may be shown as well
                        let act: Vec<String> = strings(&v).into_iter().filter(|s| !s.contains("```")).collect();
                        let exp: Vec<String> = match want {
                            Want::Shown(_, d) => d.clone(),
                            Want::Nothing => vec![],
                        };
                        c.check_eq(&format!("hovering over {name} at {line}:{col} in\n{}", t.text), &exp, &act);
                        c.outcome(&act);
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    c.fail("server", e);
                }
                if c.failed() {
                    return;
                }
            }
        },
    );
}

pub fn check(r: &mut Runner) {
    members(r);
    macros(r);
}
