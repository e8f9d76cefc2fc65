//! Driver shared by every check: exhaustive enumeration of numbered cases with panic, crash and
//! hang containment, state/transition accounting, replay files and known findings.
//!
//! A check is a list of *suites*.  A suite is a finite space `0..n`; the closure maps an index to
//! one behaviour (an input, a history, a schedule), runs it on the real code, compares it with the
//! reference model and reports through [`Case`].  Nothing is sampled: every index is executed.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod gen_util;
pub use gen_util::*;

const SLOTS: usize = 64;
const SLOT_BYTES: usize = 32;
const SUITE_NAME_BYTES: usize = 256;

#[derive(Clone, Debug)]
pub struct Failure {
    /// Identifies the failing input / call site / history for the known-findings file.
    pub key: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Case {
    pub describe: bool,
    pub input: Option<String>,
    pub failure: Option<Failure>,
    known: Vec<Failure>,
    transitions: u64,
    validated: u64,
    states: Vec<u64>,
    outcomes: Vec<u64>,
}

impl Case {
    /// Record the human-readable form of the case (only evaluated when a replay or sample needs it).
    pub fn input<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describe {
            self.input = Some(f());
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.failure.is_none() {
            self.failure = Some(Failure {
                key: key.into(),
                detail: detail.into(),
            });
        }
    }
    pub fn check_eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, expected: &T, actual: &T) -> bool {
        if expected != actual {
            self.fail(what, format!("{what}\n  expected: {expected:?}\n  actual:   {actual:?}"));
            false
        } else {
            true
        }
    }
    pub fn ensure(&mut self, ok: bool, what: &str) -> bool {
        if !ok {
            self.fail(what, what);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn validated(&mut self, n: u64) {
        self.validated += n;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        self.states.push(hash_of(s));
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, s: &T) {
        self.outcomes.push(hash_of(s));
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Known {
    key: String,
    text: String,
}

struct SlotMap {
    ptr: *mut u8,
}
unsafe impl Sync for SlotMap {}
unsafe impl Send for SlotMap {}

impl SlotMap {
    fn open(path: &std::path::Path) -> SlotMap {
        use std::os::fd::AsRawFd;
        let len = SLOTS * SLOT_BYTES + SUITE_NAME_BYTES;
        let file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        file.set_len(len as u64).expect("slot len");
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        SlotMap { ptr: ptr as *mut u8 }
    }
    // slot layout: u64 active (0/1), u64 index, u64 start-millis
    fn cell(&self, slot: usize, field: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(slot * SLOT_BYTES + field * 8) as *const AtomicU64) }
    }
    fn set_suite(&self, name: &str) {
        let b = name.as_bytes();
        let n = b.len().min(SUITE_NAME_BYTES - 1);
        unsafe {
            let p = self.ptr.add(SLOTS * SLOT_BYTES);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            *p.add(n) = 0;
        }
    }
    fn suite(&self) -> String {
        unsafe {
            let p = self.ptr.add(SLOTS * SLOT_BYTES);
            let s = std::slice::from_raw_parts(p, SUITE_NAME_BYTES);
            let n = s.iter().position(|&c| c == 0).unwrap_or(0);
            String::from_utf8_lossy(&s[..n]).into_owned()
        }
    }
}

pub struct Runner {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    only: Option<(String, u64)>,
    root: PathBuf,
    known: Vec<Known>,
    slots: SlotMap,
    epoch: Instant,
    case_limit: Duration,
    suites: Vec<serde_json::Value>,
    samples: Vec<serde_json::Value>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    transitions: u64,
    validated: u64,
    cases: u64,
    known_hits: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    extra: serde_json::Map<String, serde_json::Value>,
    only_seen: bool,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn contained<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}

impl Runner {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_owned());
    }
    pub fn note(&mut self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.insert(k.to_owned(), v.into());
    }
    /// Scratch directory for checks that need files; removed at the end of the run.
    pub fn scratch(&self) -> PathBuf {
        let d = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }.join(format!("verif-mc-{}-{}", self.id, std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch dir");
        d
    }

    pub fn suite<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Case) + Sync,
    {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        self.run_suite(name, rule, n, |i, c| {
            f(i, c);
            None::<()>
        });
    }

    /// As `suite`, for layered searches: collects what the cases produced, in index order.
    pub fn suite_map<T: Send, F>(&mut self, name: &str, rule: &str, n: u64, f: F) -> Vec<T>
    where
        F: Fn(u64, &mut Case) -> Option<T> + Sync,
    {
        self.run_suite(name, rule, n, f)
    }

    fn run_one<T, F>(f: &F, i: u64, c: &mut Case) -> Option<T>
    where
        F: Fn(u64, &mut Case) -> Option<T> + Sync,
    {
        match contained(|| f(i, &mut *c)) {
            Ok(v) => v,
            Err(msg) => {
                // a panic in the code under test (or in the harness) is a failed case
                let loc = msg.lines().next().unwrap_or("").to_owned();
                c.failure = Some(Failure {
                    key: format!("panic {loc}"),
                    detail: format!("the code panicked: {msg}"),
                });
                None
            },
        }
    }

    fn run_suite<T: Send, F>(&mut self, name: &str, rule: &str, n: u64, f: F) -> Vec<T>
    where
        F: Fn(u64, &mut Case) -> Option<T> + Sync,
    {
        let t0 = Instant::now();
        if let Some((s, i)) = self.only.clone() {
            if s == name {
                self.only_seen = true;
                self.slots.set_suite(name);
                let mut c = Case {
                    describe: true,
                    ..Case::default()
                };
                Self::run_one(&f, i, &mut c);
                println!("case {name}:{i}\n{}", c.input.as_deref().unwrap_or("(no description)"));
                match c.failure {
                    Some(fl) if self.known_text(&fl.key).is_none() => {
                        println!("FAILS [{}]: {}", fl.key, fl.detail);
                        std::process::exit(1);
                    },
                    Some(fl) => println!("known finding [{}]: {}", fl.key, fl.detail),
                    None => println!("ok"),
                }
                std::process::exit(0);
            }
            if std::mem::size_of::<T>() == 0 {
                return vec![];
            }
        }
        // for work on a check: MC_SUITE runs a single suite
        if std::mem::size_of::<T>() == 0 && std::env::var("MC_SUITE").is_ok_and(|s| s != name) {
            return vec![];
        }
        self.slots.set_suite(name);
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
            .clamp(1, SLOTS);
        let chunk = (n / (threads as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let fails: Mutex<Vec<(u64, Failure)>> = Mutex::new(Vec::new());
        let acc = Mutex::new((
            HashSet::<u64>::new(),
            HashSet::<u64>::new(),
            0u64,
            0u64,
            0u64,
            BTreeMap::<String, u64>::new(),
            Vec::<(u64, T)>::new(),
        ));
        let slots = &self.slots;
        let epoch = self.epoch;
        let known = &self.known;
        let limit = self.case_limit.as_millis() as u64;
        std::thread::scope(|scope| {
            let mut handles = Vec::new();
            for slot in 0..threads {
                let (next, stop, fails, acc, f) = (&next, &stop, &fails, &acc, &f);
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || {
                            let mut states = HashSet::new();
                            let mut outcomes = HashSet::new();
                            let (mut tr, mut va, mut cs) = (0u64, 0u64, 0u64);
                            let mut kh: BTreeMap<String, u64> = BTreeMap::new();
                            let mut out = Vec::new();
                            'work: loop {
                                let start = next.fetch_add(chunk, Ordering::Relaxed);
                                if start >= n {
                                    break;
                                }
                                for i in start..(start + chunk).min(n) {
                                    if stop.load(Ordering::Relaxed) {
                                        break 'work;
                                    }
                                    slots.cell(slot, 1).store(i, Ordering::Relaxed);
                                    slots
                                        .cell(slot, 2)
                                        .store(epoch.elapsed().as_millis() as u64, Ordering::Relaxed);
                                    slots.cell(slot, 0).store(1, Ordering::Release);
                                    let mut c = Case::default();
                                    let v = Self::run_one(f, i, &mut c);
                                    slots.cell(slot, 0).store(0, Ordering::Release);
                                    cs += 1;
                                    tr += c.transitions;
                                    va += c.validated;
                                    states.extend(c.states.drain(..));
                                    outcomes.extend(c.outcomes.drain(..));
                                    for k in c.known.drain(..) {
                                        *kh.entry(k.key).or_default() += 1;
                                    }
                                    if let Some(v) = v {
                                        out.push((i, v));
                                    }
                                    if let Some(fl) = c.failure {
                                        if known.iter().any(|k| k.key == fl.key) {
                                            *kh.entry(fl.key).or_default() += 1;
                                        } else {
                                            let mut g = fails.lock().unwrap();
                                            g.push((i, fl));
                                            if std::env::var_os("MC_KEEP_GOING").is_none() {
                                                stop.store(true, Ordering::Relaxed);
                                            }
                                        }
                                    }
                                }
                            }
                            let mut a = acc.lock().unwrap();
                            a.0.extend(states);
                            a.1.extend(outcomes);
                            a.2 += tr;
                            a.3 += va;
                            a.4 += cs;
                            for (k, v) in kh {
                                *a.5.entry(k).or_default() += v;
                            }
                            a.6.extend(out);
                        })
                        .expect("spawn"),
                );
            }
            // watchdog
            let done = &done;
            let dog = scope.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = epoch.elapsed().as_millis() as u64;
                    for s in 0..threads {
                        if slots.cell(s, 0).load(Ordering::Acquire) == 1 {
                            let began = slots.cell(s, 2).load(Ordering::Relaxed);
                            if now.saturating_sub(began) > limit {
                                // leave only this slot marked active, then die
                                for o in 0..threads {
                                    if o != s {
                                        slots.cell(o, 0).store(0, Ordering::Release);
                                    }
                                }
                                unsafe { libc::_exit(97) };
                            }
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
            dog.thread().unpark();
        });
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        let (st, oc, tr, va, cs, kh, mut out) = acc.into_inner().unwrap();
        let new_states = st.len();
        let salt = hash_of(name);
        self.states.extend(st.into_iter().map(|s| s ^ salt));
        let noc = oc.len();
        self.outcomes.extend(oc.into_iter().map(|s| s ^ salt));
        self.transitions += tr;
        self.validated += va;
        self.cases += cs;
        for (k, v) in kh {
            *self.known_hits.entry(k).or_default() += v;
        }
        self.suites.push(serde_json::json!({
            "suite": name, "rule": rule, "cases": cs, "states": new_states, "transitions": tr,
            "distinct_outcomes": noc, "wall_s": (t0.elapsed().as_secs_f64()*1000.0).round()/1000.0,
        }));
        println!(
            "[{}] {name}: {cs}/{n} cases, {new_states} states, {tr} transitions, {noc} distinct outcomes, {:.2}s",
            self.id,
            t0.elapsed().as_secs_f64()
        );
        if std::env::var_os("MC_KEEP_GOING").is_some() && !fails.is_empty() {
            println!("  {} failing cases", fails.len());
            let mut seen = BTreeMap::new();
            for (i, fl) in &fails {
                let e = seen.entry(fl.key.clone()).or_insert((0u64, *i));
                e.0 += 1;
            }
            for (k, (n, i)) in seen.iter().take(40) {
                println!("  {n} x {k}  (first {name}:{i})");
            }
            for (i, fl) in fails.iter().take(5) {
                let mut c = Case { describe: true, ..Case::default() };
                Self::run_one(&f, *i, &mut c);
                println!("  {name}:{i} {}\n    {}", c.input.unwrap_or_default(), fl.detail.lines().take(12).collect::<Vec<_>>().join("\n    "));
            }
            return vec![];
        }
        if let Some((i, fl)) = fails.into_iter().next() {
            let mut c = Case {
                describe: true,
                ..Case::default()
            };
            Self::run_one(&f, i, &mut c);
            let input = c.input.clone().unwrap_or_default();
            self.violation(name, i, &fl, &input);
        }
        // samples
        if self.samples.len() < 16 && n > 0 {
            let mut idx = vec![n / 2, n - 1];
            idx.dedup();
            for i in idx {
                let mut c = Case {
                    describe: true,
                    ..Case::default()
                };
                Self::run_one(&f, i, &mut c);
                if let Some(s) = c.input {
                    let s: String = s.chars().take(600).collect();
                    self.samples.push(serde_json::json!({"suite": name, "index": i, "case": s}));
                }
            }
        }
        out.sort_by_key(|x| x.0);
        out.into_iter().map(|x| x.1).collect()
    }

    fn known_text(&self, key: &str) -> Option<&str> {
        self.known.iter().find(|k| k.key == key).map(|k| &k.text[..])
    }

    fn violation(&mut self, suite: &str, idx: u64, fl: &Failure, input: &str) -> ! {
        let path = write_replay(&self.root, &self.id, &self.tier, suite, idx, fl, input);
        self.write_evidence(1);
        println!("  {}", fl.detail.lines().take(12).collect::<Vec<_>>().join("\n  "));
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.cleanup();
        std::process::exit(1);
    }

    fn cleanup(&self) {
        let d = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }.join(format!("verif-mc-{}-{}", self.id, std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
    }

    fn write_evidence(&self, violations: u64) {
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), self.states.len().into());
        cov.insert("transitions".into(), self.transitions.into());
        cov.insert("traces_validated_against_impl".into(), self.validated.into());
        cov.insert("cases".into(), self.cases.into());
        cov.insert("distinct_outcomes".into(), self.outcomes.len().into());
        cov.insert("samples".into(), self.samples.clone().into());
        cov.insert("suites".into(), self.suites.clone().into());
        cov.insert("exhaustive".into(), (violations == 0).into());
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        if !self.known_hits.is_empty() {
            cov.insert("known_finding_cases".into(), serde_json::json!(self.known_hits));
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "violations": violations,
            "wall_s": (self.epoch.elapsed().as_secs_f64()*100.0).round()/100.0,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let tmp = dir.join(format!(".{}.tmp", self.id));
        std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        std::fs::rename(&tmp, dir.join(format!("{}.json", self.id))).expect("evidence");
    }

    fn finish(&mut self) {
        if let Some((s, i)) = &self.only {
            if !self.only_seen {
                println!("no such case: {s}:{i}");
                std::process::exit(2);
            }
        }
        self.write_evidence(0);
        for k in &self.known {
            if self.known_hits.contains_key(&k.key) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.text);
            }
        }
        println!(
            "PASS property={} cases={} states={} transitions={} outcomes={} wall={:.1}s",
            self.id,
            self.cases,
            self.states.len(),
            self.transitions,
            self.outcomes.len(),
            self.epoch.elapsed().as_secs_f64()
        );
        self.cleanup();
    }
}

fn write_replay(
    root: &std::path::Path,
    id: &str,
    tier: &str,
    suite: &str,
    idx: u64,
    fl: &Failure,
    input: &str,
) -> PathBuf {
    let dir = root.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = suite
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
        .collect();
    let path = dir.join(format!("{id}-{safe}-{idx}.txt"));
    let text = format!(
        "property: {id}\ncase: {suite}:{idx}\nreplay: ./check.sh {id} {tier} --only '{suite}:{idx}'\nkey: {}\n\n--- input ---\n{input}\n\n--- what failed ---\n{}\n",
        fl.key, fl.detail
    );
    let _ = std::fs::write(&path, text);
    path
}

fn load_known(root: &std::path::Path, id: &str) -> Vec<Known> {
    // lines: "KNOWN-FINDING property=<id> key=<<<...>>> <text>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            let Some(rest) = l.strip_prefix("KNOWN-FINDING property=") else {
                continue;
            };
            let Some((pid, rest)) = rest.split_once(" key=<<<") else {
                continue;
            };
            if pid.trim() != id {
                continue;
            }
            let Some((key, text)) = rest.split_once(">>>") else {
                continue;
            };
            v.push(Known {
                key: key.to_owned(),
                text: text.trim().to_owned(),
            });
        }
    }
    v
}

/// Entry point of a check binary: `<bin> <ID> [--tier quick|thorough] [--only suite:index]`.
pub fn run(checks: &[(&str, fn(&mut Runner))]) {
    let args: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut only = None;
    let mut child = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = args[i].clone();
            },
            "quick" | "thorough" => tier = args[i].clone(),
            "--only" => {
                i += 1;
                let (s, n) = args[i].rsplit_once(':').expect("suite:index");
                only = Some((s.to_owned(), n.parse().expect("index")));
            },
            "--child" => child = true,
            other => id = other.to_owned(),
        }
        i += 1;
    }
    let Some(&(_, func)) = checks.iter().find(|c| c.0 == id) else {
        eprintln!("unknown check {id:?}");
        std::process::exit(2);
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let slot_path = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }.join(format!(
        "verif-mc-slots-{id}-{}",
        std::env::var("MC_SLOT").unwrap_or_else(|_| std::process::id().to_string())
    ));
    if only.is_some() || child {
        if !child {
            unsafe { std::env::set_var("MC_SLOT", std::process::id().to_string()) };
        }
        install_hook();
        let limit = std::env::var("MC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let mut r = Runner {
            known: load_known(&root, &id),
            id: id.clone(),
            tier,
            seed,
            only,
            root,
            slots: SlotMap::open(&slot_path),
            epoch: Instant::now(),
            case_limit: Duration::from_secs(limit),
            suites: vec![],
            samples: vec![],
            states: HashSet::new(),
            outcomes: HashSet::new(),
            transitions: 0,
            validated: 0,
            cases: 0,
            known_hits: BTreeMap::new(),
            assumptions: vec![],
            extra: serde_json::Map::new(),
            only_seen: false,
        };
        if !child {
            let _ = std::fs::remove_file(&slot_path);
        }
        func(&mut r);
        r.finish();
        std::process::exit(0);
    }
    // parent: run the exploration in a child so that an abort, stack overflow or hang in the code
    // under test is attributed to the case that caused it.
    let slots = SlotMap::open(&slot_path);
    let me = std::env::current_exe().expect("exe");
    let mut cmd = std::process::Command::new(&me);
    cmd.args(["--child", &id, "--tier", &tier]).env("MC_SLOT", std::process::id().to_string());
    let mut ch = cmd.spawn().expect("spawn child");
    let st = ch.wait().expect("wait");
    let scratch = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }.join(format!("verif-mc-{}-{}", id, ch.id()));
    let _ = std::fs::remove_dir_all(&scratch);
    let code = st.code();
    use std::os::unix::process::ExitStatusExt;
    if code == Some(0) || code == Some(1) {
        let _ = std::fs::remove_file(&slot_path);
        std::process::exit(code.unwrap());
    }
    let suite = slots.suite();
    let active: Vec<u64> = (0..SLOTS)
        .filter(|&s| slots.cell(s, 0).load(Ordering::Acquire) == 1)
        .map(|s| slots.cell(s, 1).load(Ordering::Relaxed))
        .collect();
    let _ = std::fs::remove_file(&slot_path);
    let what = match (code, st.signal()) {
        (Some(97), _) => "did not terminate".to_owned(),
        (_, Some(s)) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL || s == libc::SIGFPE => {
            format!("crashed (signal {s}: abort, stack overflow or memory exhaustion)")
        },
        other => {
            eprintln!("check of {id} ended abnormally: {other:?}");
            std::process::exit(2);
        },
    };
    println!("{what}: candidates {suite}:{active:?}");
    for idx in active {
        let mut c = std::process::Command::new(&me)
            .args([&id, "--tier", &tier, "--only", &format!("{suite}:{idx}")])
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("spawn");
        let began = Instant::now();
        let mut bad = None;
        loop {
            if let Some(s) = c.try_wait().expect("wait") {
                if s.code() != Some(0) {
                    bad = Some(format!("the code under test ended with {s}"));
                }
                break;
            }
            if began.elapsed() > Duration::from_secs(60) {
                let _ = c.kill();
                let _ = c.wait();
                bad = Some("the code under test did not terminate within 60 s".to_owned());
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        if let Some(b) = bad {
            let fl = Failure {
                key: "crash-or-hang".into(),
                detail: format!("{what}; {b}"),
            };
            let path = write_replay(&root, &id, &tier, &suite, idx, &fl, "(see the replay command: the case is rebuilt from its index)");
            println!("VIOLATION property={id} replay={}", path.display());
            std::process::exit(1);
        }
    }
    eprintln!("check of {id}: the abnormal end could not be reproduced from its case");
    std::process::exit(2);
}
