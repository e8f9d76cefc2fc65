//! Include graphs on real files vs. a reference interpreter.
use crate::util::*;
use dm::preprocessor::Preprocessor;
use dm::{Context, Severity};
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// (file, line, text)
type Out = Vec<(String, u32, String)>;

#[derive(Default)]
struct Ref<'a> {
    files: BTreeMap<String, &'a [String]>,
    out: Out,
    diags: Vec<(String, u32, Severity)>,
    included: BTreeSet<String>,
    multiple: BTreeSet<String>,
    defs: Vec<String>,
    conds: Vec<(bool, String, u32)>,
    depth: usize,
    runaway: bool,
    steps: usize,
}

impl<'a> Ref<'a> {
    fn active(&self) -> bool {
        self.conds.iter().all(|c| c.0)
    }
    fn run(&mut self, name: &str) {
        if self.depth > 12 || self.steps > 400 {
            self.runaway = true;
            return;
        }
        self.depth += 1;
        let lines = self.files[name];
        for (i, l) in lines.iter().enumerate() {
            self.steps += 1;
            let at = i as u32 + 1;
            let me = || name.to_owned();
            let words: Vec<&str> = l.split(' ').collect();
            match words[0] {
                "#ifdef" => {
                    let v = self.defs.iter().any(|d| d == words[1]);
                    self.conds.push((v, me(), at));
                },
                "#endif" => {
                    if self.conds.pop().is_none() {
                        self.diags.push((me(), at, Severity::Error));
                    }
                },
                _ if !self.active() => {},
                "#define" => {
                    if self.defs.iter().any(|d| d == words[1]) {
                        self.diags.push((me(), at, Severity::Warning));
                    }
                    self.defs.push(words[1].to_owned());
                },
                "#undef" => match self.defs.iter().rposition(|d| d == words[1]) {
                    Some(i) => {
                        self.defs.remove(i);
                    },
                    None => self.diags.push((me(), at, Severity::Warning)),
                },
                "#pragma" => {
                    self.multiple.insert(me());
                },
                "#include" => {
                    let want = words[1].trim_matches('"').replace('\\', "/");
                    let dir = name.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
                    let found = [format!("{dir}{want}"), want.clone()].into_iter().find(|f| self.files.contains_key(f));
                    match found {
                        None => self.diags.push((me(), at, Severity::Error)),
                        Some(f) => match Path::new(&f).extension().and_then(|e| e.to_str()) {
                            Some("dm") | Some("dme") => {
                                if self.included.contains(&f) && !self.multiple.contains(&f) {
                                    self.diags.push((me(), at, Severity::Warning));
                                } else {
                                    self.included.insert(f.clone());
                                    self.run(&f);
                                }
                            },
                            Some("dmm") | Some("dmf") | Some("dms") => {},
                            _ => self.diags.push((me(), at, Severity::Error)),
                        },
                    }
                },
                "" => {},
                w => self.out.push((me(), at, w.to_owned())),
            }
            if self.runaway {
                return;
            }
        }
        self.depth -= 1;
    }
}

fn compare(dir: &Path, files: &[(&str, Vec<String>)], c: &mut Case) {
    c.input(|| files.iter().map(|(n, l)| format!("--- {n}\n{}\n", l.join("\n"))).collect());
    let mut r = Ref { files: files.iter().map(|(n, l)| (n.to_string(), &l[..])).collect(), ..Default::default() };
    r.run("e.dme");
    while let Some((_, f, l)) = r.conds.pop() {
        r.diags.push((f, l, Severity::Error));
    }
    if r.runaway {
        c.outcome(&"runaway");
        return; // a file that includes itself without end (see assumptions)
    }
    for (n, l) in files {
        std::fs::write(dir.join(n), l.join("\n") + "\n").expect("write");
    }
    let ctx = Context::default();
    let pp = match Preprocessor::new(&ctx, dir.join("e.dme")) {
        Ok(pp) => pp,
        Err(e) => return c.fail("open", format!("{e:?}")),
    };
    let prefix = dir.to_string_lossy().into_owned();
    let rel = |f| {
        let p = ctx.file_path(f);
        let p = p.to_string_lossy();
        p.strip_prefix(&prefix).unwrap_or(&p).trim_start_matches('/').to_owned()
    };
    let got: Out = pp.filter(|t| !t.token.is_whitespace()).map(|t| (rel(t.location.file), t.location.line, t.token.to_string().trim().to_owned())).collect();
    c.trans(r.steps as u64);
    c.validated(1);
    c.state(&(&r.out, r.diags.len()));
    c.outcome(&(r.included.len(), r.diags.len().min(5)));
    if got != r.out {
        c.fail("tokens", format!("expected {:?}\n got {got:?}", r.out));
    }
    let mut diags: Vec<_> = ctx.errors().iter().map(|e| (rel(e.location().file), e.location().line, e.severity())).collect();
    diags.sort();
    r.diags.sort();
    if diags != r.diags {
        c.fail("diagnostics", format!("expected {:?}\n got {diags:?}\n {:?}", r.diags, errors_text(&ctx)));
    }
}

fn dir_for(base: &Path) -> PathBuf {
    thread_local!(static D: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) });
    D.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = base.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "_"));
                std::fs::create_dir_all(p.join("sub")).expect("scratch");
                p
            })
            .clone()
    })
}

/// Item lines framed by one marker before, between and after.
fn body(mark: &str, items: &[&str]) -> Vec<String> {
    let mut v = vec![format!("{mark}0")];
    for (i, it) in items.iter().enumerate() {
        v.push(it.to_string());
        v.push(format!("{mark}{}", i + 1));
    }
    v
}

pub fn check(r: &mut Runner) {
    r.assume("include cycles through files marked as includable several times never end by definition and are left out");
    r.assume("in the graphs, a file is spelled without . and .. and the environment file is not included (see the suite aliases)");
    let base = r.scratch();
    let inc = ["#include \"a.dm\"", "#include \"b.dm\"", "#include \"sub/c.dm\""];
    let root_items: Vec<&str> = inc.iter().copied().chain(["#define M", "#undef M", "#ifdef M", "#endif", "tok"]).collect();
    let a_items = ["tok", "#include \"b.dm\"", "#include \"sub/c.dm\"", "#include \"a.dm\"", "#pragma multiple", "#define M", "#ifdef M", "#endif", "#undef M"];
    let b_items = ["tok", "#include \"a.dm\"", "#pragma multiple", "#endif", "#define M"];
    let c_items = ["tok", "#include \"a.dm\"", "#include \"b.dm\"", "#include \"c.dm\"", "#include \"sub/a.dm\"", "#pragma multiple"];
    let (rl, al) = (r.pick(3, 4), 2usize);
    let n = pow(root_items.len(), rl) * pow(a_items.len(), al) * (b_items.len() * c_items.len() * 2) as u64;
    r.suite("graphs", "every choice of directives in an environment and the files it reaches (two files share a name in different folders)", n, |i, c| {
        let mut d = Digits(i);
        let has_sub_a = d.flag();
        let ci = *d.pick(&c_items);
        let bi = *d.pick(&b_items);
        let ai: Vec<&str> = (0..al).map(|_| *d.pick(&a_items)).collect();
        let ri: Vec<&str> = (0..rl).map(|_| *d.pick(&root_items)).collect();
        let dir = dir_for(&base);
        let mut files = vec![("e.dme", body("r", &ri)), ("a.dm", body("a", &ai)), ("b.dm", body("b", &[bi])), ("sub/c.dm", body("c", &[ci]))];
        if has_sub_a {
            files.push(("sub/a.dm", body("s", &["#include \"b.dm\""])));
        } else {
            let _ = std::fs::remove_file(dir.join("sub/a.dm"));
        }
        compare(&dir, &files, c);
    });
    let paths = ["a.dm", "sub/c.dm", "sub\\c.dm", "c.dm", "sub/a.dm", "no.dm", "m.dmm", "sub/m.dmm", "sub\\m.dmm", "f.dmf", "s.dms", "x.txt", "sub/y.txt", "noext", "i.dme", "a"];
    let np = paths.len() as u64;
    r.suite("resolution", "every sequence of N include paths from the catalogue, spread over the environment, a file in its folder and one in a subfolder", np.pow(4), |i, c| {
        let mut d = Digits(i);
        let p: Vec<String> = (0..4).map(|_| format!("#include \"{}\"", d.pick(&paths))).collect();
        let dir = dir_for(&base);
        let _ = std::fs::remove_file(dir.join("b.dm"));
        let e: Vec<String> = vec![];
        let files = vec![
            ("e.dme", body("r", &[&p[0], &p[1]])),
            ("a.dm", body("a", &[&p[2]])),
            ("sub/c.dm", body("c", &[&p[3]])),
            ("sub/a.dm", body("s", &[])),
            ("i.dme", body("i", &[])),
            ("m.dmm", e.clone()),
            ("sub/m.dmm", e.clone()),
            ("f.dmf", e.clone()),
            ("s.dms", e.clone()),
            ("x.txt", e.clone()),
            ("sub/y.txt", e.clone()),
            ("noext", e),
        ];
        compare(&dir, &files, c);
    });
    r.suite("aliases", "the same file reached by two spellings of its path, and the environment reached from an include", 3, |i, c| {
        let dir = dir_for(&base);
        let (a, b, key) = [
            ("#include \"b.dm\"", "#include \"./b.dm\"", "alias ./"),
            ("#include \"b.dm\"", "#include \"sub/../b.dm\"", "alias sub/../"),
            ("#include \"b.dm\"", "#include \"e.dme\"", "environment included"),
        ][i as usize];
        c.input(|| format!("{a}\n{b}"));
        std::fs::write(dir.join("e.dme"), format!("{a}\n{b}\nroot\n")).expect("write");
        std::fs::write(dir.join("b.dm"), "leaf\n").expect("write");
        let ctx = Context::default();
        let got: Vec<String> = Preprocessor::new(&ctx, dir.join("e.dme")).expect("open").filter(|t| !t.token.is_whitespace()).map(|t| t.token.to_string().trim().to_owned()).collect();
        c.trans(got.len() as u64);
        c.validated(1);
        if got != ["leaf", "root"] {
            c.fail(key, format!("a file was processed twice: {got:?}"));
        }
    });
}
