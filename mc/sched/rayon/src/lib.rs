//! The parallel iterators of rayon, on a pool of controlled threads.
//!
//! Every item is a task. A thread of the pool that waits for the parts of its own task runs other tasks
//! meanwhile, on top of its stack, as rayon's threads do. Which task a thread takes is a choice of the
//! schedule, so all orders rayon can bring about are among those explored.
use std::sched;

type Task = Box<dyn FnOnce() + Send + 'static>;

struct Pool {
    queue: Vec<Task>,
    threads: usize,
    want: usize,
}
// not under control: nothing is chosen while it is held
static POOL: ::std::sync::real::Mutex<Pool> = ::std::sync::real::Mutex::new(Pool { queue: vec![], threads: 0, want: 0 });
static KEY: u8 = 0;
thread_local! {
    static WORKER: ::std::cell::Cell<bool> = const { ::std::cell::Cell::new(false) };
}
fn key() -> usize {
    &raw const KEY as usize
}
fn pool() -> ::std::sync::real::MutexGuard<'static, Pool> {
    POOL.lock().unwrap_or_else(|e| e.into_inner())
}
/// One of the tasks that wait.
fn take() -> Option<Task> {
    sched::point();
    let mut p = pool();
    if p.queue.is_empty() {
        return None;
    }
    let k = sched::choose(p.queue.len());
    Some(p.queue.remove(k))
}
fn work() {
    WORKER.set(true);
    loop {
        match take() {
            Some(t) => t(),
            None => sched::block(key()),
        }
    }
}

/// Run all of them, and return when they are done.
fn run_all(tasks: Vec<Box<dyn FnOnce() + Send + '_>>) {
    let n = tasks.len();
    let left = ::std::sync::Arc::new(::std::sync::real::Mutex::new((n, None)));
    {
        let mut p = pool();
        for t in tasks {
            // nothing borrowed is used after this returns
            let t: Task = unsafe { ::std::mem::transmute(t) };
            let left = left.clone();
            p.queue.push(Box::new(move || {
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(t));
                let mut l = left.lock().unwrap();
                l.0 -= 1;
                if let Err(e) = r {
                    l.1 = Some(e);
                }
                drop(l);
                sched::wake(key());
            }));
        }
        if p.want == 0 {
            p.want = 2;
        }
    }
    sched::wake(key());
    let worker = WORKER.get();
    if !worker {
        loop {
            let mut p = pool();
            if p.threads >= p.want {
                break;
            }
            p.threads += 1;
            drop(p);
            ::std::thread::spawn(work);
        }
    }
    while left.lock().unwrap().0 > 0 {
        match if worker { take() } else { None } {
            Some(t) => t(),
            None => {
                if left.lock().unwrap().0 > 0 {
                    sched::block(key());
                }
            },
        }
    }
    let panic = left.lock().unwrap().1.take();
    if let Some(e) = panic {
        ::std::panic::resume_unwind(e);
    }
}
fn map_all<T: Send, R: Send, F: Fn(T) -> R + Sync>(items: Vec<T>, f: F) -> Vec<R> {
    let mut out: Vec<Option<R>> = items.iter().map(|_| None).collect();
    let f = &f;
    run_all(out.iter_mut().zip(items).map(|(o, t)| Box::new(move || *o = Some(f(t))) as Box<dyn FnOnce() + Send + '_>).collect());
    out.into_iter().map(|o| o.unwrap()).collect()
}

pub fn current_num_threads() -> usize {
    pool().want.max(2)
}
pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    let (mut ra, mut rb) = (None, None);
    run_all(vec![Box::new(|| ra = Some(a())), Box::new(|| rb = Some(b()))]);
    (ra.unwrap(), rb.unwrap())
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl ::std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
        f.write_str("pool")
    }
}
impl ::std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder(usize);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(0)
    }
    pub fn num_threads(self, n: usize) -> Self {
        Self(n)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        pool().want = self.0;
        Ok(())
    }
}

pub mod iter {
    use super::*;

    /// A parallel iterator: the items, and what is still to be done to each.
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        /// Do all of it, in parallel, and then `f`.
        fn drive<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Vec<R>;

        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.drive(f);
        }
        fn for_each_with<T: Send + Clone + Sync, F: Fn(&mut T, Self::Item) + Sync + Send>(self, t: T, f: F) {
            self.drive(|i| f(&mut t.clone(), i));
        }
        fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> {
            Map(self, f)
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Items<Self::Item> {
            Items(self.drive(|i| f(&i).then_some(i)).into_iter().flatten().collect())
        }
        fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Items<R> {
            Items(self.drive(f).into_iter().flatten().collect())
        }
        fn flat_map<I: IntoParallelIterator, F: Fn(Self::Item) -> I + Sync + Send>(self, f: F) -> Items<I::Item> {
            Items(self.drive(|i| f(i).into_par_iter().drive(|x| x)).into_iter().flatten().collect())
        }
        fn flat_map_iter<I: IntoIterator<Item: Send>, F: Fn(Self::Item) -> I + Sync + Send>(self, f: F) -> Items<I::Item> {
            Items(self.drive(|i| f(i).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Items<Self::Item> {
            Items(self.drive(|i| {
                f(&i);
                i
            }))
        }
        fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
            self.drive(f).into_iter().collect()
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.drive(|i| i).into_iter().collect()
        }
        fn sum<S: ::std::iter::Sum<Self::Item>>(self) -> S {
            self.drive(|i| i).into_iter().sum()
        }
        fn count(self) -> usize {
            self.drive(|_| ()).len()
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.drive(f).contains(&true)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            !self.drive(f).contains(&false)
        }
        fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, f: F) -> Self::Item {
            self.drive(|i| i).into_iter().fold(id(), f)
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.drive(|i| i).into_iter().max()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.drive(|i| i).into_iter().min()
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn enumerate(self) -> Items<(usize, Self::Item)> {
            Items(self.drive(|i| i).into_iter().enumerate().collect())
        }
        fn zip<J: IntoParallelIterator>(self, other: J) -> Items<(Self::Item, J::Item)> {
            Items(self.drive(|i| i).into_iter().zip(other.into_par_iter().drive(|i| i)).collect())
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn rev(self) -> Items<Self::Item> {
            Items(self.drive(|i| i).into_iter().rev().collect())
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.drive(|i| i);
        }
    }
    pub struct Items<T>(pub(crate) Vec<T>);
    impl<T: Send> ParallelIterator for Items<T> {
        type Item = T;
        fn drive<R: Send, F: Fn(T) -> R + Sync + Send>(self, f: F) -> Vec<R> {
            map_all(self.0, f)
        }
    }
    impl<T: Send> IndexedParallelIterator for Items<T> {
        // the items are there already: nothing to be done to them
        fn enumerate(self) -> Items<(usize, T)> {
            Items(self.0.into_iter().enumerate().collect())
        }
        fn rev(self) -> Items<T> {
            Items(self.0.into_iter().rev().collect())
        }
    }
    pub struct Map<I, F>(I, F);
    impl<I: ParallelIterator, R: Send, M: Fn(I::Item) -> R + Sync + Send> ParallelIterator for Map<I, M> {
        type Item = R;
        fn drive<S: Send, F: Fn(R) -> S + Sync + Send>(self, f: F) -> Vec<S> {
            let m = self.1;
            self.0.drive(move |i| f(m(i)))
        }
    }
    impl<I: IndexedParallelIterator, R: Send, M: Fn(I::Item) -> R + Sync + Send> IndexedParallelIterator for Map<I, M> {}

    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: Send> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Items<T>;
        fn into_par_iter(self) -> Items<T> {
            Items(self)
        }
    }
    impl<'a, T: Sync> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        type Iter = Items<&'a T>;
        fn into_par_iter(self) -> Items<&'a T> {
            Items(self.iter().collect())
        }
    }
    impl<'a, T: Sync> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        type Iter = Items<&'a T>;
        fn into_par_iter(self) -> Items<&'a T> {
            Items(self.iter().collect())
        }
    }
    impl<'a, T: Send> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        type Iter = Items<&'a mut T>;
        fn into_par_iter(self) -> Items<&'a mut T> {
            Items(self.iter_mut().collect())
        }
    }
    macro_rules! ranges {
        ($($t:ty)*) => {
            $(impl IntoParallelIterator for ::std::ops::Range<$t> {
                type Item = $t;
                type Iter = Items<$t>;
                fn into_par_iter(self) -> Items<$t> {
                    Items(self.collect())
                }
            }
            impl IntoParallelIterator for ::std::ops::RangeInclusive<$t> {
                type Item = $t;
                type Iter = Items<$t>;
                fn into_par_iter(self) -> Items<$t> {
                    Items(self.collect())
                }
            })*
        };
    }
    ranges!(usize u32 i32 u64 i64);
    impl<T: ParallelIterator> IntoParallelIterator for T {
        type Item = T::Item;
        type Iter = T;
        fn into_par_iter(self) -> T {
            self
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> Items<Self::Item>;
    }
    impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
        type Item = &'a T;
        fn par_iter(&'a self) -> Items<&'a T> {
            Items(self.iter().collect())
        }
    }
    impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for Vec<T> {
        type Item = &'a T;
        fn par_iter(&'a self) -> Items<&'a T> {
            Items(self.iter().collect())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> Items<Self::Item>;
    }
    impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
        type Item = &'a mut T;
        fn par_iter_mut(&'a mut self) -> Items<&'a mut T> {
            Items(self.iter_mut().collect())
        }
    }
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Items<Self::Item>
        where
            Self::Item: Send,
        {
            Items(self.collect())
        }
    }
    impl<I: Iterator> ParallelBridge for I {}
}
pub mod prelude {
    pub use crate::iter::*;
}
