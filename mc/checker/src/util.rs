//! Running dreamchecker over many independent small programs at once.
//!
//! A program's text names its own types, procs and variables with the marker `@`, which becomes a
//! prefix unique to the program; so hundreds of programs share one object tree without meeting, and
//! each diagnostic is handed back to the program on whose lines it was reported.
use dm::{Context, DMError, Severity};
use mc_common::Case;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Diag {
    /// line within the program, from 1
    pub line: u32,
    pub col: u16,
    pub sev: &'static str,
    pub kind: String,
    /// description, with the program's prefix turned back into `@`
    pub text: String,
    pub notes: Vec<String>,
}

impl Diag {
    pub fn show(&self) -> String {
        format!("{}:{} {} [{}] {}", self.line, self.col, self.sev, self.kind, self.text)
    }
}

fn sev(s: Severity) -> &'static str {
    match s {
        Severity::Error => "error",
        Severity::Warning => "warning",
        Severity::Info => "info",
        Severity::Hint => "hint",
    }
}

fn diag(e: &DMError, first: u32, prefix: &str) -> Diag {
    Diag {
        line: e.location().line - first + 1,
        col: e.location().column,
        sev: sev(e.severity()),
        kind: e.errortype().unwrap_or("").to_owned(),
        text: e.description().replace(prefix, "@"),
        notes: e.notes().iter().map(|n| format!("{}: {}", n.location().line.wrapping_sub(first).wrapping_add(1), n.description().replace(prefix, "@"))).collect(),
    }
}

/// Runs the real pipeline (preprocessor, indentation, parser, object tree, dreamchecker).
pub fn analyse(src: String) -> Context {
    let ctx = Context::default();
    {
        let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "x.dm".into(), src);
        let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        dreamchecker::run(&ctx, &tree);
    }
    ctx
}

/// The diagnostics of each program, in the order they were reported.
pub fn run_all(progs: &[String]) -> Vec<Vec<Diag>> {
    let mut src = String::new();
    let mut starts = vec![];
    let mut line = 1u32;
    for (i, p) in progs.iter().enumerate() {
        let t = p.replace('@', &format!("p{i}_"));
        starts.push(line);
        line += t.matches('\n').count() as u32;
        assert!(t.ends_with('\n'));
        src.push_str(&t);
    }
    let ctx = analyse(src);
    let mut out: Vec<Vec<Diag>> = vec![vec![]; progs.len()];
    for e in ctx.errors().iter() {
        let l = e.location().line;
        let k = starts.partition_point(|s| *s <= l).saturating_sub(1);
        out[k].push(diag(e, starts[k], &format!("p{k}_")));
    }
    out
}

pub fn numbered(p: &str) -> String {
    p.lines().enumerate().map(|(i, l)| format!("{:3} {l}", i + 1)).collect::<Vec<_>>().join("\n")
}

/// Runs `progs` together and lets `verify` judge each one's diagnostics.
pub fn batch<T>(c: &mut Case, progs: &[(String, T)], verify: impl Fn(&T, &[Diag]) -> Result<(), (String, String)>) {
    if progs.is_empty() {
        return;
    }
    let texts: Vec<String> = progs.iter().map(|p| p.0.clone()).collect();
    let all = run_all(&texts);
    c.trans(progs.len() as u64);
    for (k, ((src, want), got)) in progs.iter().zip(&all).enumerate() {
        c.outcome(got);
        if let Err((key, why)) = verify(want, got) {
            // confirm on the program alone, which also gives the shorter reproduction
            let alone = run_all(&[src.clone()]).remove(0);
            let (note, got) = match verify(want, &alone) {
                Err(_) => ("", &alone),
                Ok(()) => ("\n  (only together with the other programs of this batch)", got),
            };
            c.input(|| format!("program {k} of the batch:\n{}", numbered(src)));
            c.fail(
                key,
                format!("{why}{note}\n  reported:\n{}\n  program:\n{}", got.iter().map(|d| format!("    {}", d.show())).collect::<Vec<_>>().join("\n"), numbered(src)),
            );
            return;
        }
    }
    c.validated(progs.len() as u64);
    c.input(|| format!("first of {} programs:\n{}", progs.len(), numbered(&progs[0].0)));
}

/// The `w`th word of exactly `len` letters out of `k`.
pub fn word_of(k: usize, len: usize, w: u64) -> Vec<usize> {
    let mut d = mc_common::Digits(w);
    (0..len).map(|_| d.take(k)).collect()
}
