//! Runs a program under every schedule of its threads, up to a number of departures from the usual order.
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};

/// How one run ended.
pub struct Run {
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub code: Option<i32>,
    /// What the scheduler itself found wrong.
    pub wrong: Option<String>,
    choices: Vec<(usize, usize)>,
}

pub fn once(mut cmd: Command, input: &[u8], trace: &Path, prefix: &[usize]) -> Run {
    let list: Vec<String> = prefix.iter().map(|c| c.to_string()).collect();
    let mut child = cmd
        .env("MCSCHED", list.join(","))
        .env("MCSCHED_OUT", trace)
        .env("RUST_BACKTRACE", "0")
        .env("NO_COLOR", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("starting the program");
    let mut stdin = child.stdin.take().unwrap();
    let (mut stdout, mut stderr) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let done = ::std::sync::atomic::AtomicBool::new(false);
    let pid = child.id() as i32;
    let (mut out, mut err, mut late) = (vec![], vec![], false);
    ::std::thread::scope(|s| {
        s.spawn(|| {
            let _ = stdin.write_all(input);
            drop(stdin);
        });
        s.spawn(|| {
            let _ = stderr.read_to_end(&mut err);
        });
        let watch = s.spawn(|| {
            let start = ::std::time::Instant::now();
            loop {
                ::std::thread::park_timeout(::std::time::Duration::from_millis(500));
                if done.load(::std::sync::atomic::Ordering::SeqCst) {
                    return false;
                }
                if start.elapsed().as_secs() >= 20 {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return true;
                }
            }
        });
        let _ = stdout.read_to_end(&mut out);
        done.store(true, ::std::sync::atomic::Ordering::SeqCst);
        watch.thread().unpark();
        late = watch.join().unwrap();
    });
    let status = child.wait().unwrap();
    let text = std::fs::read_to_string(trace).unwrap_or_default();
    let mut choices = vec![];
    let mut wrong = late.then(|| "the program hangs".to_string());
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "p" | "s" => choices.push((w[1].parse().unwrap(), w[2].parse().unwrap())),
            _ => wrong = Some(format!("the threads wait for each other or go on for ever: {l}")),
        }
    }
    Run { stdout: out, stderr: String::from_utf8_lossy(&err).into_owned(), code: status.code(), wrong, choices }
}

#[derive(Default)]
pub struct Count {
    pub schedules: u64,
    pub choices: u64,
    pub longest: usize,
    /// Schedules that did not come out the same way again.
    pub unstable: u64,
}

/// Every schedule that departs from the first choice (the running thread goes on; once it ends or waits, the
/// oldest that can run does) up to `bound` times; `judge` says whether to go on. Only the part `part.0` of
/// `part.1` of them, by their first departure.
pub fn explore(bound: usize, part: (usize, usize), mut go: impl FnMut(&[usize]) -> Run, mut judge: impl FnMut(&[usize], &Run) -> bool) -> Count {
    let mut todo: Vec<(usize, Vec<usize>)> = vec![(0, vec![])];
    let mut count = Count::default();
    while let Some((used, prefix)) = todo.pop() {
        let mut r = go(&prefix);
        let mut tries = 0;
        while r.code == Some(78) && tries < 5 {
            r = go(&prefix);
            tries += 1;
        }
        if r.code == Some(78) {
            count.unstable += 1;
            continue;
        }
        count.schedules += 1;
        count.choices += r.choices.len() as u64;
        count.longest = count.longest.max(r.choices.len());
        if !judge(&prefix, &r) {
            break;
        }
        if used == bound {
            continue;
        }
        let mut k = 0;
        for i in prefix.len()..r.choices.len() {
            for alt in 1..r.choices[i].0 {
                k += 1;
                if prefix.is_empty() && k % part.1 != part.0 {
                    continue;
                }
                let mut p: Vec<usize> = r.choices[..i].iter().map(|c| c.1).collect();
                p.push(alt);
                todo.push((used + 1, p));
            }
        }
    }
    count
}
