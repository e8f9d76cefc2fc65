//! P22: the configuration file decides which diagnostics appear, and at what severity.
use crate::frags::*;
use mc_common::*;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct D {
    at: String,
    sev: u8,
    kind: &'static str,
    text: String,
}
impl D {
    fn show(&self) -> String {
        format!("{} {} [{}] {}", self.at, SEV[self.sev as usize - 1], self.kind, self.text)
    }
}
const SEV: [&str; 4] = ["error", "warning", "info", "hint"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Level {
    Sev(u8),
    Off,
    Unset,
}
use Level::*;
/// The spellings of the documentation.
const WORDS: [(&str, Level); 12] = [
    ("error", Sev(1)),
    ("errors", Sev(1)),
    ("warning", Sev(2)),
    ("warnings", Sev(2)),
    ("info", Sev(3)),
    ("infos", Sev(3)),
    ("hint", Sev(4)),
    ("hints", Sev(4)),
    ("disabled", Off),
    ("false", Off),
    ("off", Off),
    ("unset", Unset),
];
const PLAIN: [usize; 6] = [0, 2, 4, 6, 8, 11];

enum Conf<'a> {
    None,
    Forced(&'a Path),
    Beside,
}

/// Descriptions may hold the number or directory of a file, which a configuration may well change.
fn masked(text: &str, dir: &Path) -> String {
    let t = text.replace(&*dir.to_string_lossy(), "");
    let mut parts = t.split("FileId(");
    let mut out = parts.next().unwrap().to_owned();
    for p in parts {
        out.push_str("FileId(");
        out.push_str(p.trim_start_matches(|c: char| c.is_ascii_digit()));
    }
    out
}

fn analyse(dme: &Path, conf: Conf) -> Vec<D> {
    let mut ctx = dm::Context::default();
    match conf {
        Conf::None => {},
        Conf::Forced(p) => ctx.force_config(p),
        Conf::Beside => ctx.autodetect_config(dme),
    }
    let pp = dm::preprocessor::Preprocessor::new(&ctx, dme.to_owned()).expect("source file");
    let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let (fatal, tree) = parser.parse_object_tree_2();
    if !fatal {
        dreamchecker::run(&ctx, &tree);
    }
    let v = ctx
        .errors()
        .iter()
        .map(|e| D {
            at: format!("{}:{}:{}", ctx.file_path(e.location().file).file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default(), e.location().line, e.location().column),
            sev: e.severity() as u8,
            kind: e.errortype().unwrap_or(""),
            text: masked(e.description(), dme.parent().unwrap()),
        })
        .collect();
    v
}

/// What the documentation says a configuration does to a list of diagnostics.
fn configured(base: &[D], levels: &[(&str, Level)], threshold: Level) -> Vec<D> {
    let mut out = vec![];
    for d in base {
        let mut d = d.clone();
        match levels.iter().find(|l| l.0 == d.kind && !d.kind.is_empty()) {
            Some((_, Off)) => continue,
            Some((_, Sev(s))) => d.sev = *s,
            _ => {},
        }
        if match threshold {
            Sev(s) => d.sev <= s,
            Off => false,
            Unset => true,
        } {
            out.push(d);
        }
    }
    out
}

fn same(c: &mut Case, toml: &str, want: &[D], got: &[D]) -> bool {
    c.trans(1);
    c.outcome(got);
    // the order of diagnostics is not the business of the configuration
    let sorted = |v: &[D]| {
        let mut v: Vec<String> = v.iter().map(D::show).collect();
        v.sort();
        v
    };
    let (w, g) = (sorted(want), sorted(got));
    if w == g {
        return true;
    }
    c.input(|| format!("configuration:\n{toml}"));
    let missing: Vec<_> = w.iter().filter(|d| !g.contains(d)).cloned().collect();
    let extra: Vec<_> = g.iter().filter(|d| !w.contains(d)).cloned().collect();
    c.fail("config", format!("expected but not reported:\n  {}\nreported but not expected:\n  {}", missing.join("\n  "), extra.join("\n  ")));
    false
}

fn threshold_toml(word: Option<&str>) -> String {
    word.map(|w| format!("[display]\nerror_level = \"{w}\"\n")).unwrap_or_default()
}

fn setup(dir: &Path) -> PathBuf {
    std::fs::write(dir.join("other.dm"), "/datum/other/var/k\n").unwrap();
    let all: String = FRAGS.iter().map(|f| f.2).collect();
    std::fs::write(dir.join("all.dme"), all).unwrap();
    for (i, f) in FRAGS.iter().enumerate() {
        std::fs::write(dir.join(format!("f{i}.dme")), f.2).unwrap();
    }
    dir.join("all.dme")
}

pub fn check(r: &mut Runner) {
    let dir = r.scratch();
    let all = setup(&dir);
    let base = analyse(&all, Conf::None);
    let opts = options();
    r.suite("kinds", "every option has diagnostics that it governs, and every piece of code raises those of its option only", FRAGS.len() as u64, |i, c| {
        let (kind, n, text) = FRAGS[i as usize];
        let got = analyse(&dir.join(format!("f{i}.dme")), Conf::None);
        c.trans(1);
        c.outcome(&got);
        c.input(|| format!("{text}\n\nreported:\n{}", got.iter().map(D::show).collect::<Vec<_>>().join("\n")));
        if got.len() != n || got.iter().any(|d| d.kind != kind) {
            c.fail("kind", format!("expected {n} of {kind:?}\nreported:\n  {}", got.iter().map(D::show).collect::<Vec<_>>().join("\n  ")));
        }
    });
    let write = |name: &str, text: &str| {
        let p = dir.join(name);
        std::fs::write(&p, text).unwrap();
        p
    };
    r.suite("one option", "every option at every documented spelling, under every error level", (opts.len() * WORDS.len()) as u64, |i, c| {
        let (o, w) = (opts[i as usize / WORDS.len()], WORDS[i as usize % WORDS.len()]);
        for t in 0..=WORDS.len() {
            let t = WORDS.get(t).copied();
            let toml = format!("[diagnostics]\n{o} = \"{}\"\n{}", w.0, threshold_toml(t.map(|t| t.0)));
            let p = write(&format!("one{i}.toml"), &toml);
            let got = analyse(&all, Conf::Forced(&p));
            let _ = std::fs::remove_file(&p);
            if !same(c, &toml, &configured(&base, &[(o, w.1)], t.map_or(Unset, |t| t.1)), &got) {
                return;
            }
        }
    });
    let levels = r.pick(PLAIN.to_vec(), (0..WORDS.len()).collect());
    let n = opts.len();
    r.suite("two options", "every two options at every two levels", (n * n) as u64, |i, c| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return;
        }
        for &x in &levels {
            for &y in &levels {
                let toml = format!("[diagnostics]\n{} = \"{}\"\n{} = \"{}\"\n", opts[a], WORDS[x].0, opts[b], WORDS[y].0);
                let p = write(&format!("two{i}.toml"), &toml);
                let got = analyse(&all, Conf::Forced(&p));
                let _ = std::fs::remove_file(&p);
                if !same(c, &toml, &configured(&base, &[(opts[a], WORDS[x].1), (opts[b], WORDS[y].1)], Unset), &got) {
                    return;
                }
            }
        }
    });
    r.suite("every option", "all options at once: at one level, or at levels rotated through the list, under every error level, given or found beside the environment", 12 * 13 * 2 * 2, |i, c| {
        let mut d = Digits(i);
        let (shift, t, rotate, beside) = (d.take(12), d.take(13), d.flag(), d.flag());
        let set: Vec<(&str, Level, &str)> = opts.iter().enumerate().map(|(k, o)| (*o, WORDS[(shift + if rotate { k } else { 0 }) % 12].1, WORDS[(shift + if rotate { k } else { 0 }) % 12].0)).collect();
        let mut toml = threshold_toml(WORDS.get(t).map(|t| t.0));
        toml.push_str("[diagnostics]\n");
        for s in &set {
            toml.push_str(&format!("{} = \"{}\"\n", s.0, s.2));
        }
        let pairs: Vec<_> = set.iter().map(|s| (s.0, s.1)).collect();
        let want = configured(&base, &pairs, WORDS.get(t).map_or(Unset, |t| t.1));
        if beside {
            let sub = dir.join(format!("every{i}"));
            std::fs::create_dir_all(&sub).unwrap();
            let dme = setup(&sub);
            std::fs::write(sub.join("SpacemanDMM.toml"), &toml).unwrap();
            let got = analyse(&dme, Conf::Beside);
            let _ = std::fs::remove_dir_all(&sub);
            same(c, &toml, &want, &got);
        } else {
            let p = write(&format!("every{i}.toml"), &toml);
            let got = analyse(&all, Conf::Forced(&p));
            let _ = std::fs::remove_file(&p);
            same(c, &toml, &want, &got);
        }
    });
    // anything else the file may hold changes nothing
    const OTHER: [&str; 10] = [
        "",
        "# nothing\n",
        "environment = \"all.dme\"\n",
        "[langserver]\ndreamchecker = true\n",
        "[dmdoc]\nuse_typepath_names = true\nindex_file = \"x.md\"\nmodule_directories = [\"a\"]\n",
        "[debugger]\nengine = \"extools\"\n",
        "[debugger]\nengine = \"auxtools\"\n",
        "[map_renderer]\nhide_invisible = [\"/obj\"]\n",
        "[map_renderer.render_passes]\nhide-space = true\n",
        "[code_standards]\ndisallow_relative_proc_definitions = false\ndisallow_relative_type_definitions = false\n",
    ];
    r.suite("other sections", "every other section, alone and with options after it", OTHER.len() as u64 * 3, |i, c| {
        let (o, k) = (OTHER[i as usize / 3], i % 3);
        let (tail, levels, t): (&str, &[(&str, Level)], Level) = match k {
            0 => ("", &[], Unset),
            1 => ("[diagnostics]\nunreachable_code = \"off\"\nmacro_redefined = \"error\"\n", &[("unreachable_code", Off), ("macro_redefined", Sev(1))], Unset),
            _ => ("[diagnostics]\nunreachable_code = \"info\"\n[display]\nerror_level = \"warning\"\n", &[("unreachable_code", Sev(3))], Sev(2)),
        };
        let toml = format!("{o}{tail}");
        let p = write(&format!("other{i}.toml"), &toml);
        let got = analyse(&all, Conf::Forced(&p));
        same(c, &toml, &configured(&base, levels, t), &got);
    });
    broken(r, &dir, &all, &base);
    standards(r, &dir);
    command(r, &dir);
}

/// Files that are not a configuration are reported, and change nothing else.
fn broken(r: &mut Runner, dir: &Path, all: &Path, base: &[D]) {
    const BAD: [&str; 8] = [
        "[diagnostics]\nmacro_redefined = \"fatal\"\n",
        "[diagnostics]\nmacro_redefined = 1\n",
        "[diagnostics]\nmacro_redefined\n",
        "[diagnostics\nmacro_redefined = \"off\"\n",
        "[display]\nerror_level = \"none\"\n",
        "[display]\nerror_level = \"Error\"\n",
        "[code_standards]\ndisallow_relative_proc_definitions = \"yes\"\n",
        "diagnostics = 3\n",
    ];
    r.suite("broken files", "every beginning of a configuration file, and files with wrong words in them", 8 + 100, |i, c| {
        const FULL: &str = "[display]\nerror_level = \"info\"\n\n[diagnostics]\nunreachable_code = \"off\"\nmacro_redefined = \"errors\"\n";
        let toml = match BAD.get(i as usize) {
            Some(b) => b,
            None if i as usize - 8 <= FULL.len() => &FULL[..i as usize - 8],
            None => return,
        };
        let p = dir.join(format!("bad{i}.toml"));
        std::fs::write(&p, toml).unwrap();
        let got = analyse(all, Conf::Forced(&p));
        let reports: Vec<&D> = got.iter().filter(|d| d.at.starts_with("bad")).collect();
        let rest: Vec<D> = got.iter().filter(|d| !d.at.starts_with("bad")).cloned().collect();
        c.input(|| toml.to_owned());
        let line = |k: usize| toml.lines().count() > k || toml.lines().count() == k && toml.ends_with('\n') || toml.lines().count() == k && i >= 8 && toml.lines().last().is_some_and(|l| FULL.lines().nth(k - 1) == Some(l));
        // a beginning is whole when it ends between two entries
        let whole = BAD.get(i as usize).is_none() && {
            let last = toml.rsplit('\n').next().unwrap_or("");
            last.is_empty() || FULL.lines().any(|l| l == last)
        };
        if whole {
            let mut levels = vec![];
            if line(5) {
                levels.push(("unreachable_code", Off));
            }
            if line(6) {
                levels.push(("macro_redefined", Sev(1)));
            }
            let t = if line(2) { Sev(3) } else { Unset };
            same(c, toml, &configured(base, &levels, t), &got);
        } else {
            let lines = toml.lines().count().max(1) as u32 + 1;
            if reports.len() != 1 || reports[0].sev != 1 {
                return c.fail("broken config", format!("a broken file must be reported once, as an error: {:?}", reports.iter().map(|d| d.show()).collect::<Vec<_>>()));
            }
            let l: u32 = reports[0].at.split(':').nth(1).unwrap().parse().unwrap();
            if l == 0 || l > lines {
                return c.fail("broken config", format!("reported outside the file: {}", reports[0].show()));
            }
            same(c, toml, base, &rest);
        }
    });
}

/// Definitions by relative and absolute paths.
fn standards(r: &mut Runner, dir: &Path) {
    // (text of one entry, children of a type?, relative type, relative proc)
    // `@` is the name of the entry
    const HEADS: [(&str, bool, bool); 6] = [
        // entry, is a block of a type, type by relative path
        ("/datum/@\n", true, false),
        ("datum/@\n", true, true),
        ("/datum/@/b\n", true, false),
        ("/datum/@{}\n", false, false),
        ("datum/@{}\n", false, true),
        ("/datum/@/b{var/q}\n", false, false),
    ];
    const ENTRIES: [(&str, bool, bool); 16] = [
        // entry, type by relative path, proc by relative path
        ("var/@\n", false, false),
        ("var/@ = 1\n", false, false),
        ("tag = 1\n", false, false),
        ("@\n$\tvar/k = 1\n", true, false),
        ("@/c\n$\tvar/k = 1\n", true, false),
        ("@/var/k = 1\n", true, false),
        ("/datum/@/x\n$\tvar/k = 1\n", false, false),
        ("proc/@()\n", false, true),
        ("proc/@()\n$\treturn 1\n", false, true),
        ("verb/@()\n", false, true),
        ("proc\n$\t@()\n", false, true),
        ("New()\n", false, true),
        ("proc/@(a, b)\n", false, true),
        ("@/c/d/var/k = 2\n", true, false),
        ("/datum/@/x/New()\n", false, false),
        ("/datum/@/x/proc/k()\n", false, false),
    ];
    let n = HEADS.len() as u64 * 16 * 16;
    r.suite("code standards", "definitions by relative and absolute paths in two nested places, under every setting", n * 4, |i, c| {
        let mut d = Digits(i);
        let (procs, types) = (d.flag(), d.flag());
        let head = HEADS[d.take(6)];
        let (e1, e2) = (ENTRIES[d.take(16)], ENTRIES[d.take(16)]);
        let mut src = head.0.replace('@', "a1");
        let mut want = vec![];
        if head.2 && types {
            want.push((1, "type"));
        }
        let mut line = 2u32;
        for (k, e) in [e1, e2].iter().enumerate() {
            let pad = if head.1 { "\t" } else { "" };
            if !head.1 && (e.0 == "tag = 1\n" || e.0.starts_with("var/@\n") || e.0.starts_with("New")) {
                return; // not entries of the root
            }
            let text = format!("{pad}{}", e.0.replace('@', &format!("e{k}")).replace('$', pad));
            let last = line + text.matches('\n').count() as u32 - 1;
            let at_last = e.0.starts_with("proc\n");
            if e.1 && types {
                want.push((line, "type"));
            }
            if e.2 && procs {
                want.push((if at_last { last } else { line }, "proc"));
            }
            line = last + 1;
            src.push_str(&text);
        }
        let dme = dir.join(format!("std{i}.dme"));
        let conf = dir.join(format!("std{i}.toml"));
        std::fs::write(&dme, &src).unwrap();
        let toml = format!("[code_standards]\ndisallow_relative_proc_definitions = {procs}\ndisallow_relative_type_definitions = {types}\n");
        std::fs::write(&conf, &toml).unwrap();
        let all = analyse(&dme, Conf::Forced(&conf));
        let base = analyse(&dme, Conf::None);
        let _ = std::fs::remove_file(&dme);
        let _ = std::fs::remove_file(&conf);
        c.trans(1);
        c.outcome(&all);
        let mut got = vec![];
        for d in &all {
            if d.text.starts_with("relatively pathed ") {
                let l: u32 = d.at.split(':').nth(1).unwrap().parse().unwrap();
                got.push((l, if d.text.contains("type") { "type" } else { "proc" }));
            }
        }
        got.sort();
        want.sort();
        c.input(|| format!("{toml}\n{src}"));
        if got != want {
            c.fail("code standards", format!("expected {want:?}\nreported {}", all.iter().map(D::show).collect::<Vec<_>>().join("\n  ")));
        } else if all.len() != base.len() + want.len() {
            c.fail("code standards", "other diagnostics change".to_string());
        }
    });
}

/// The command line tool: exit status, count and summary.
fn command(r: &mut Runner, dir: &Path) {
    let exe = std::env::current_exe().unwrap().with_file_name("dreamchecker");
    let kinds: Vec<usize> = (0..FRAGS.len()).collect();
    let n = kinds.len() + 1;
    r.suite("command", "the command on every piece of code, with one option at every level, and --json", (n * 6 * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let (json, w, k) = (d.flag(), PLAIN[d.take(6)], d.take(n));
        let sub = dir.join(format!("cmd{i}"));
        std::fs::create_dir_all(&sub).unwrap();
        let (kind, _, text) = FRAGS.get(k).copied().unwrap_or(("", 0, "/datum/fine/var/v = 1\n"));
        std::fs::write(sub.join("other.dm"), "/datum/other/var/k\n").unwrap();
        std::fs::write(sub.join("p.dme"), text).unwrap();
        let toml = if kind.is_empty() { format!("[display]\nerror_level = \"{}\"\n", WORDS[w].0) } else { format!("[diagnostics]\n{kind} = \"{}\"\n", WORDS[w].0) };
        let base = analyse(&sub.join("p.dme"), Conf::None);
        let want = if kind.is_empty() { configured(&base, &[], WORDS[w].1) } else { configured(&base, &[(kind, WORDS[w].1)], Unset) };
        for given in [true, false] {
            let name = if given { "c.toml" } else { "SpacemanDMM.toml" };
            std::fs::write(sub.join(name), &toml).unwrap();
            let mut cmd = std::process::Command::new(&exe);
            cmd.current_dir(&sub).env("NO_COLOR", "1").env("TERM", "dumb");
            if given {
                cmd.args(["-e", "p.dme", "-c", name]);
            }
            if json {
                cmd.arg("--json");
            }
            let out = cmd.output().expect("running dreamchecker");
            let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
            let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
            c.trans(1);
            c.outcome(&(out.status.code(), want.len()));
            let shown = want.iter().filter(|d| d.sev <= 3).count();
            let count = |s: u8| want.iter().filter(|d| d.sev == s).count();
            let mut why = vec![];
            if out.status.code() != Some((shown > 0) as i32) {
                why.push(format!("exit status {:?}", out.status.code()));
            }
            if !stdout.contains(&format!("Found {shown} diagnostics\n")) {
                why.push(format!("{shown} diagnostics expected"));
            }
            if json {
                let last = stdout.lines().last().unwrap_or("");
                let want: serde_json::Value = serde_json::json!({"error": count(1), "warning": count(2), "info": count(3), "hint": count(4)});
                if serde_json::from_str::<serde_json::Value>(last).ok() != Some(want.clone()) {
                    why.push(format!("summary {want} expected"));
                }
            }
            // every diagnostic down to info is printed, with file, line and column
            for d in want.iter().filter(|d| d.sev <= 3) {
                let mut at = d.at.split(':');
                let (f, l, col) = (at.next().unwrap(), at.next().unwrap(), at.next().unwrap());
                let text = format!("{f}, line {l}, column {col}:\n{}: {}\n", SEV[d.sev as usize - 1], d.text);
                if !masked(&stderr, &sub).replace("\"other.dm", "\"/other.dm").contains(&text) {
                    why.push(format!("not printed: {text}"));
                }
            }
            let printed = stderr.lines().filter(|l| SEV.iter().any(|s| l.strip_prefix(s).is_some_and(|r| r.starts_with(": ")))).count();
            if printed != shown {
                why.push(format!("{printed} printed"));
            }
            if !why.is_empty() {
                c.input(|| format!("{toml}\n{text}"));
                c.fail("command", format!("{}\noutput:\n{stdout}\n{stderr}", why.join("\n")));
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&sub);
    });
}
