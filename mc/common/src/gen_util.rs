//! Small enumeration helpers.

/// Number of strings of length exactly `len` over an alphabet of `k` symbols.
pub fn pow(k: usize, len: usize) -> u64 {
    (k as u64).pow(len as u32)
}

/// Number of strings of length `0..=max`.
pub fn count_upto(k: usize, max: usize) -> u64 {
    (0..=max).map(|l| pow(k, l)).sum()
}

/// The `idx`-th string (shortest first) over an alphabet of size `k`, as digit vector.
pub fn word(k: usize, mut idx: u64) -> Vec<usize> {
    let mut len = 0;
    loop {
        let n = pow(k, len);
        if idx < n {
            break;
        }
        idx -= n;
        len += 1;
    }
    let mut v = vec![0; len];
    for d in v.iter_mut().rev() {
        *d = (idx % k as u64) as usize;
        idx /= k as u64;
    }
    v
}

/// Mixed-radix decoder.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, radix: usize) -> usize {
        let r = (self.0 % radix as u64) as usize;
        self.0 /= radix as u64;
        r
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.take(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.take(2) == 1
    }
}

/// All permutations of `0..n`, lexicographic.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, n, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], n, &mut out);
    out
}

/// Sends what the code under test prints on standard error nowhere.
pub fn silence_stderr() {
    if std::env::var_os("MC_KEEP_GOING").is_some() {
        return;
    }
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        use std::os::fd::AsRawFd;
        unsafe { libc::dup2(f.as_raw_fd(), 2) };
    }
}
