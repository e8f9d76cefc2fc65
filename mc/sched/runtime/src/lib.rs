//! The standard library, with its threads and locks under the control of a scheduler.
//!
//! The programs checked are compiled with this crate named `std`, so their unchanged source uses it. Exactly
//! one thread runs at a time. At every operation on a lock, channel, atomic or stream, and where a thread
//! starts or ends, the next thread to run is chosen by the schedule in MCSCHED (a list of numbers), and once
//! that is used up, the running thread goes on while it can. Every choice is written to the file MCSCHED_OUT
//! with the number of alternatives. Without MCSCHED everything behaves as it does in the real library.
#![allow(deprecated)]
pub use ::std::*;

pub mod sched {
    use ::std::cell::Cell;
    use ::std::io::Write;
    use ::std::sync::{Condvar, Mutex, MutexGuard, OnceLock};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Status {
        Ready,
        /// Waiting for something to happen to this.
        Blocked(usize),
        /// Waiting for every other thread to be done or blocked.
        Idle,
        Done,
    }
    struct State {
        threads: Vec<Status>,
        current: usize,
        prefix: Vec<usize>,
        used: usize,
        steps: usize,
        out: Option<::std::fs::File>,
    }
    static STATE: Mutex<Option<State>> = Mutex::new(None);
    static TURN: Condvar = Condvar::new();
    static ON: OnceLock<bool> = OnceLock::new();
    thread_local! {
        static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    }

    /// Is this run controlled?
    pub fn on() -> bool {
        *ON.get_or_init(|| {
            let Ok(list) = ::std::env::var("MCSCHED") else { return false };
            let prefix = list.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let out = ::std::env::var("MCSCHED_OUT").ok().map(|p| ::std::fs::File::create(p).unwrap());
            *lock() = Some(State { threads: vec![Status::Ready], current: 0, prefix, used: 0, steps: 0, out });
            ME.set(0);
            true
        })
    }
    fn lock() -> MutexGuard<'static, Option<State>> {
        STATE.lock().unwrap_or_else(|e| e.into_inner())
    }

    impl State {
        fn choice(&mut self, n: usize, kind: char) -> usize {
            let c = self.prefix.get(self.used).copied().unwrap_or(0);
            self.used += 1;
            if let Some(out) = &mut self.out {
                let _ = out.write_all(format!("{kind} {n} {c}\n").as_bytes());
            }
            if c >= n {
                ::std::process::exit(78);
            }
            c
        }
        fn note(&mut self, what: &str) {
            if let Some(out) = &mut self.out {
                let _ = out.write_all(format!("{what}\n").as_bytes());
            }
        }
        /// Decide which thread is next.
        fn pass_on(&mut self, me: usize) {
            self.steps += 1;
            if self.steps > 2_000_000 {
                self.note("endless");
                ::std::process::exit(79);
            }
            let mut can: Vec<usize> = (0..self.threads.len()).filter(|&t| self.threads[t] == Status::Ready).collect();
            if can.is_empty() {
                can = (0..self.threads.len()).filter(|&t| self.threads[t] == Status::Idle).collect();
                for &t in &can {
                    self.threads[t] = Status::Ready;
                }
            }
            if can.is_empty() {
                let what = format!("deadlock {:?}", self.threads);
                self.note(&what);
                ::std::process::exit(77);
            }
            // the running thread first: to go on is never an alternative that has to be asked for
            let going_on = can.iter().position(|&t| t == me);
            if let Some(p) = going_on {
                can.remove(p);
                can.insert(0, me);
            }
            let c = if can.len() == 1 { 0 } else { self.choice(can.len(), if going_on.is_some() { 'p' } else { 's' }) };
            self.current = can[c];
        }
    }
    fn wait_turn(mut g: MutexGuard<'static, Option<State>>, me: usize) {
        while g.as_ref().unwrap().current != me {
            g = TURN.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn give(status: Status) {
        if !on() {
            return;
        }
        let me = ME.get();
        if me == usize::MAX {
            // not one of ours
            return;
        }
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.threads[me] = status;
        s.pass_on(me);
        if s.current != me {
            TURN.notify_all();
        }
        wait_turn(g, me);
    }

    /// Another thread may go first.
    pub fn point() {
        give(Status::Ready);
    }
    /// Wait until something happens to `key`.
    pub fn block(key: usize) {
        if !on() || ME.get() == usize::MAX {
            ::std::thread::yield_now();
            return;
        }
        give(Status::Blocked(key));
    }
    /// Something happened to `key`.
    pub fn wake(key: usize) {
        if !on() {
            return;
        }
        if let Some(s) = lock().as_mut() {
            for t in &mut s.threads {
                if *t == Status::Blocked(key) {
                    *t = Status::Ready;
                }
            }
        }
    }
    /// Wait until no other thread has anything left to do.
    pub fn settle() {
        give(Status::Idle);
    }
    /// One of `n`, as the schedule says.
    pub fn choose(n: usize) -> usize {
        if n < 2 || !on() {
            return 0;
        }
        lock().as_mut().unwrap().choice(n, 's')
    }
    /// Make room for a new thread.
    pub fn register() -> usize {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.threads.push(Status::Ready);
        s.threads.len() - 1
    }
    /// Called first by a new thread.
    pub fn begin(me: usize) {
        ME.set(me);
        wait_turn(lock(), me);
    }
    pub fn end(me: usize) {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.threads[me] = Status::Done;
        for t in &mut s.threads {
            if *t == Status::Blocked(thread_key(me)) {
                *t = Status::Ready;
            }
        }
        s.pass_on(me);
        ME.set(usize::MAX);
        TURN.notify_all();
    }
    pub fn done(t: usize) -> bool {
        lock().as_ref().unwrap().threads[t] == Status::Done
    }
    pub fn thread_key(t: usize) -> usize {
        usize::MAX - t
    }
}

pub mod thread {
    use crate::sched;
    pub use ::std::thread::*;

    #[derive(Debug)]
    pub struct JoinHandle<T> {
        real: ::std::thread::JoinHandle<T>,
        id: Option<usize>,
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            if let Some(id) = self.id {
                sched::point();
                while !sched::done(id) {
                    sched::block(sched::thread_key(id));
                }
            }
            self.real.join()
        }
        pub fn is_finished(&self) -> bool {
            sched::point();
            self.id.map_or_else(|| self.real.is_finished(), sched::done)
        }
        pub fn thread(&self) -> &Thread {
            self.real.thread()
        }
    }
    struct End(usize);
    impl Drop for End {
        fn drop(&mut self) {
            sched::end(self.0);
        }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        Builder::new().spawn(f).expect("failed to spawn thread")
    }
    #[derive(Debug)]
    pub struct Builder(::std::thread::Builder);
    impl Builder {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Builder {
            Builder(::std::thread::Builder::new())
        }
        pub fn name(self, name: String) -> Builder {
            Builder(self.0.name(name))
        }
        pub fn stack_size(self, size: usize) -> Builder {
            Builder(self.0.stack_size(size))
        }
        pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> ::std::io::Result<JoinHandle<T>> {
            if !sched::on() {
                return Ok(JoinHandle { real: self.0.spawn(f)?, id: None });
            }
            let id = sched::register();
            let real = self.0.spawn(move || {
                sched::begin(id);
                let _end = End(id);
                f()
            })?;
            sched::point();
            Ok(JoinHandle { real, id: Some(id) })
        }
    }
    pub fn yield_now() {
        sched::point();
    }
    pub fn sleep(d: ::std::time::Duration) {
        if sched::on() {
            // anything may happen meanwhile
            sched::point();
        } else {
            ::std::thread::sleep(d);
        }
    }
}

pub mod sync {
    /// The real ones, for what is not to be controlled.
    pub mod real {
        pub use ::std::sync::{Mutex, MutexGuard};
    }
    use crate::sched;
    pub use ::std::sync::*;
    use ::std::ops::{Deref, DerefMut};

    fn key<T: ?Sized>(t: &T) -> usize {
        t as *const T as *const () as usize
    }

    // ---- mutexes
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized> {
        real: ::std::sync::Mutex<T>,
    }
    #[derive(Debug)]
    pub struct MutexGuard<'a, T: ?Sized> {
        real: Option<::std::sync::MutexGuard<'a, T>>,
        of: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Mutex<T> {
            Mutex { real: ::std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Mutex<T> {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn wrap<'a>(&'a self, real: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard { real: Some(real), of: self }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::point();
            loop {
                match self.real.try_lock() {
                    Ok(g) => return Ok(self.wrap(g)),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wrap(e.into_inner()))),
                    Err(TryLockError::WouldBlock) => sched::block(key(self)),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sched::point();
            match self.real.try_lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner())))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.real.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.real.clear_poison()
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.real.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.real.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            drop(self.real.take());
            sched::wake(key(self.of));
        }
    }

    #[derive(Debug, Default)]
    pub struct Condvar {
        real: ::std::sync::Condvar,
    }
    impl Condvar {
        pub const fn new() -> Condvar {
            Condvar { real: ::std::sync::Condvar::new() }
        }
        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let of = guard.of;
            if !sched::on() {
                let real = guard.real.take().unwrap();
                ::std::mem::forget(guard);
                return match self.real.wait(real) {
                    Ok(g) => Ok(of.wrap(g)),
                    Err(e) => Err(PoisonError::new(of.wrap(e.into_inner()))),
                };
            }
            drop(guard);
            sched::block(key(self));
            of.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn notify_all(&self) {
            self.real.notify_all();
            sched::wake(key(self));
            sched::point();
        }
        pub fn notify_one(&self) {
            self.notify_all();
        }
    }

    // ---- read-write locks
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized> {
        real: ::std::sync::RwLock<T>,
    }
    #[derive(Debug)]
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        real: Option<::std::sync::RwLockReadGuard<'a, T>>,
        of: &'a RwLock<T>,
    }
    #[derive(Debug)]
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        real: Option<::std::sync::RwLockWriteGuard<'a, T>>,
        of: &'a RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> RwLock<T> {
            RwLock { real: ::std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    macro_rules! locking {
        ($lock:ident $try:ident $guard:ident) => {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                sched::point();
                loop {
                    match self.real.$try() {
                        Ok(g) => return Ok($guard { real: Some(g), of: self }),
                        Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($guard { real: Some(e.into_inner()), of: self })),
                        Err(TryLockError::WouldBlock) => sched::block(key(self)),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                sched::point();
                match self.real.$try() {
                    Ok(g) => Ok($guard { real: Some(g), of: self }),
                    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($guard { real: Some(e.into_inner()), of: self }))),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        locking!(read try_read RwLockReadGuard);
        locking!(write try_write RwLockWriteGuard);
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.real.is_poisoned()
        }
    }
    macro_rules! guard {
        ($guard:ident) => {
            impl<T: ?Sized> Deref for $guard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.real.as_ref().unwrap()
                }
            }
            impl<T: ?Sized> Drop for $guard<'_, T> {
                fn drop(&mut self) {
                    drop(self.real.take());
                    sched::wake(key(self.of));
                }
            }
        };
    }
    guard!(RwLockReadGuard);
    guard!(RwLockWriteGuard);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.real.as_mut().unwrap()
        }
    }

    // ---- set once
    #[derive(Debug)]
    pub struct OnceLock<T> {
        real: ::std::sync::OnceLock<T>,
        busy: Mutex<()>,
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            OnceLock::new()
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> OnceLock<T> {
            OnceLock { real: ::std::sync::OnceLock::new(), busy: Mutex::new(()) }
        }
        pub fn get(&self) -> Option<&T> {
            sched::point();
            self.real.get()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _busy = self.busy.lock();
            self.real.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            let _busy = self.busy.lock();
            self.real.get_or_init(f)
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.real.get_mut()
        }
        pub fn into_inner(self) -> Option<T> {
            self.real.into_inner()
        }
    }

    // ---- channels
    pub mod mpsc {
        use crate::sched;
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use ::std::sync::{Arc, mpsc as real};

        /// Wakes the other side when an end is dropped.
        #[derive(Debug)]
        struct Key(Arc<u8>);
        impl Key {
            fn key(&self) -> usize {
                &*self.0 as *const u8 as usize
            }
        }
        impl Drop for Key {
            fn drop(&mut self) {
                sched::wake(self.key());
            }
        }
        #[derive(Debug)]
        pub struct Sender<T> {
            real: real::Sender<T>,
            key: Key,
        }
        #[derive(Debug)]
        pub struct SyncSender<T> {
            real: real::SyncSender<T>,
            key: Key,
        }
        #[derive(Debug)]
        pub struct Receiver<T> {
            real: real::Receiver<T>,
            key: Key,
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (s, r) = real::channel();
            let k = Arc::new(0u8);
            (Sender { real: s, key: Key(k.clone()) }, Receiver { real: r, key: Key(k) })
        }
        pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
            let (s, r) = real::sync_channel(n);
            let k = Arc::new(0u8);
            (SyncSender { real: s, key: Key(k.clone()) }, Receiver { real: r, key: Key(k) })
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                Sender { real: self.real.clone(), key: Key(self.key.0.clone()) }
            }
        }
        impl<T> Clone for SyncSender<T> {
            fn clone(&self) -> Self {
                SyncSender { real: self.real.clone(), key: Key(self.key.0.clone()) }
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                sched::point();
                let r = self.real.send(t);
                sched::wake(self.key.key());
                r
            }
        }
        impl<T> SyncSender<T> {
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                sched::point();
                let r = self.real.try_send(t);
                sched::wake(self.key.key());
                r
            }
            pub fn send(&self, mut t: T) -> Result<(), SendError<T>> {
                loop {
                    match self.try_send(t) {
                        Ok(()) => return Ok(()),
                        Err(TrySendError::Disconnected(t)) => return Err(SendError(t)),
                        Err(TrySendError::Full(back)) => {
                            t = back;
                            sched::block(self.key.key());
                        },
                    }
                }
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                sched::point();
                let r = self.real.try_recv();
                sched::wake(self.key.key());
                r
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                if !sched::on() {
                    return self.real.recv();
                }
                loop {
                    match self.try_recv() {
                        Ok(t) => return Ok(t),
                        Err(TryRecvError::Disconnected) => return Err(RecvError),
                        Err(TryRecvError::Empty) => sched::block(self.key.key()),
                    }
                }
            }
            pub fn recv_timeout(&self, d: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
                if !sched::on() {
                    return self.real.recv_timeout(d);
                }
                match self.try_recv() {
                    Ok(t) => Ok(t),
                    Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                }
            }
            pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.recv().ok())
            }
            pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.try_recv().ok())
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
    }

    // ---- atomics
    pub mod atomic {
        use crate::sched;
        pub use ::std::sync::atomic::*;

        macro_rules! common {
            ($name:ident $ty:ty) => {
                #[derive(Debug, Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl From<$ty> for $name {
                    fn from(v: $ty) -> Self {
                        Self::new(v)
                    }
                }
                impl $name {
                    pub const fn new(v: $ty) -> Self {
                        $name(::std::sync::atomic::$name::new(v))
                    }
                    pub fn into_inner(self) -> $ty {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $ty {
                        self.0.get_mut()
                    }
                    pub fn load(&self, o: Ordering) -> $ty {
                        sched::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $ty, o: Ordering) {
                        sched::point();
                        self.0.store(v, o)
                    }
                    pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                        sched::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                        sched::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(&self, s: Ordering, f: Ordering, up: F) -> Result<$ty, $ty> {
                        sched::point();
                        self.0.fetch_update(s, f, up)
                    }
                    common!(@ops $ty; swap fetch_and fetch_or fetch_xor);
                }
            };
            (@ops $ty:ty; $($op:ident)*) => {
                $(pub fn $op(&self, v: $ty, o: Ordering) -> $ty {
                    sched::point();
                    self.0.$op(v, o)
                })*
            };
        }
        macro_rules! number {
            ($($name:ident $ty:ty),*) => {
                $(common!($name $ty);
                impl $name {
                    common!(@ops $ty; fetch_add fetch_sub fetch_max fetch_min);
                })*
            };
        }
        number!(AtomicIsize isize, AtomicUsize usize, AtomicI32 i32, AtomicU32 u32, AtomicI64 i64, AtomicU64 u64, AtomicU8 u8, AtomicU16 u16);
        common!(AtomicBool bool);
    }
}

pub mod io {
    use crate::sched;
    pub use ::std::io::*;

    pub fn stdout() -> Stdout {
        sched::point();
        ::std::io::stdout()
    }

    /// Standard input. In a controlled run it is a script of messages, changes to files and waits.
    #[derive(Debug)]
    pub struct Stdin(());
    pub fn stdin() -> Stdin {
        Stdin(())
    }
    enum Item {
        Bytes(Vec<u8>),
        Write(String, Vec<u8>),
        Settle,
    }
    pub struct StdinLock {
        items: ::std::collections::VecDeque<Item>,
        cur: Vec<u8>,
        at: usize,
        script: bool,
    }
    impl Stdin {
        pub fn lock(&self) -> StdinLock {
            if !sched::on() {
                return StdinLock { items: Default::default(), cur: vec![], at: 0, script: false };
            }
            let mut all = vec![];
            ::std::io::stdin().read_to_end(&mut all).unwrap();
            let mut items = ::std::collections::VecDeque::new();
            let mut at = 0;
            while at < all.len() {
                let end = at + all[at..].iter().position(|&b| b == b'\n').unwrap();
                let line = ::std::str::from_utf8(&all[at..end]).unwrap();
                let words: Vec<&str> = line.split(' ').collect();
                at = end + 1;
                match words[0] {
                    "settle" => items.push_back(Item::Settle),
                    "message" | "write" => {
                        let n: usize = words[1].parse().unwrap();
                        let bytes = all[at..at + n].to_vec();
                        at += n;
                        items.push_back(if words[0] == "message" { Item::Bytes(bytes) } else { Item::Write(words[2].to_owned(), bytes) });
                    },
                    other => panic!("script: {other}"),
                }
            }
            StdinLock { items, cur: vec![], at: 0, script: true }
        }
        pub fn read_line(&self, buf: &mut String) -> Result<usize> {
            ::std::io::stdin().read_line(buf)
        }
        pub fn lines(self) -> Lines<::std::io::StdinLock<'static>> {
            ::std::io::stdin().lines()
        }
    }
    impl Read for StdinLock {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            let have = self.fill_buf()?;
            let n = have.len().min(buf.len());
            buf[..n].copy_from_slice(&have[..n]);
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for StdinLock {
        fn fill_buf(&mut self) -> Result<&[u8]> {
            if self.at == self.cur.len() && !self.script {
                self.cur.resize(1 << 16, 0);
                let n = ::std::io::stdin().read(&mut self.cur)?;
                self.cur.truncate(n);
                self.at = 0;
            }
            while self.at == self.cur.len() && self.script {
                match self.items.pop_front() {
                    Some(Item::Bytes(b)) => {
                        sched::point();
                        self.cur = b;
                        self.at = 0;
                    },
                    Some(Item::Write(path, b)) => {
                        sched::point();
                        ::std::fs::write(path, b).unwrap();
                    },
                    Some(Item::Settle) => sched::settle(),
                    None => {
                        sched::settle();
                        break;
                    },
                }
            }
            Ok(&self.cur[self.at..])
        }
        fn consume(&mut self, n: usize) {
            self.at += n;
        }
    }
}

pub mod fs {
    use crate::sched;
    use ::std::io::Result;
    use ::std::path::Path;
    pub use ::std::fs::*;

    pub fn create_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
        sched::point();
        ::std::fs::create_dir_all(p)
    }
    pub fn create_dir<P: AsRef<Path>>(p: P) -> Result<()> {
        sched::point();
        ::std::fs::create_dir(p)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
        sched::point();
        ::std::fs::write(p, c)
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
        sched::point();
        ::std::fs::remove_file(p)
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<()> {
        sched::point();
        ::std::fs::rename(p, q)
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
        sched::point();
        ::std::fs::metadata(p)
    }
}
