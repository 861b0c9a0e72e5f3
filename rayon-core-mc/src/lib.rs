//! A stand-in for `rayon-core` in which the scheduler is under the control of an explorer.
//!
//! Outside a controlled run (`mc::run_controlled`) everything is executed in order on the calling
//! thread. Inside a controlled run every `join` asks the oracle whether the second closure is
//! stolen; a stolen closure runs on another (real) worker thread, exactly one worker holds the
//! baton at any moment, and at every scheduling point (start, end and wait of a closure, and
//! explicit `mc::point()` calls made by user closures) the oracle decides who continues.

use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;

pub mod mc;

thread_local! {
    static NUM_THREADS: Cell<usize> = const { Cell::new(4) };
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    #[inline]
    pub(crate) fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    #[inline]
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if mc::controlled() {
        mc::join_controlled(oper_a, oper_b)
    } else {
        let ra = oper_a(FnContext::new(false));
        let rb = oper_b(FnContext::new(false));
        (ra, rb)
    }
}

pub fn current_num_threads() -> usize {
    mc::num_threads().unwrap_or_else(|| NUM_THREADS.with(|n| n.get()))
}

pub fn max_num_threads() -> usize {
    0xffff
}

pub fn current_thread_index() -> Option<usize> {
    mc::thread_index()
}

/// Sets the thread count reported outside controlled runs, for the calling thread.
pub fn set_num_threads(n: usize) {
    NUM_THREADS.with(|c| c.set(n));
}

// ---------------------------------------------------------------------------------------------
// scopes: a spawned closure either runs at once or is deferred to the end of the scope

type Job<'s, S> = Box<dyn FnOnce(&S) + Send + 's>;

macro_rules! scope_type {
    ($S:ident, $spawn:ident, $scope:ident, $inplace:ident) => {
        pub struct $S<'scope> {
            deferred: std::sync::Mutex<Vec<Job<'scope, $S<'scope>>>>,
        }
        impl<'scope> $S<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                if mc::controlled() && mc::decide(2) == 1 {
                    self.deferred.lock().unwrap().push(Box::new(body));
                } else {
                    body(self);
                }
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for i in 0..current_num_threads() {
                    body(self, BroadcastContext { index: i, _m: PhantomData });
                }
            }
            fn finish(&self) {
                loop {
                    let job = {
                        let mut d = self.deferred.lock().unwrap();
                        if d.is_empty() {
                            break;
                        }
                        let n = d.len();
                        let i = if mc::controlled() { mc::decide(n) } else { 0 };
                        d.remove(i)
                    };
                    job(self);
                }
            }
        }
        impl<'scope> fmt::Debug for $S<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($S))
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R + Send,
            R: Send,
        {
            let s = $S { deferred: std::sync::Mutex::new(Vec::new()) };
            let r = op(&s);
            s.finish();
            r
        }
        pub fn $inplace<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R,
        {
            let s = $S { deferred: std::sync::Mutex::new(Vec::new()) };
            let r = op(&s);
            s.finish();
            r
        }
    };
}
scope_type!(Scope, spawn, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    mc::thread_index().map(|_| {
        mc::point();
        Yield::Idle
    })
}

pub fn yield_local() -> Option<Yield> {
    mc::thread_index().map(|_| Yield::Idle)
}

pub struct BroadcastContext<'a> {
    index: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}

impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads())
        .map(|index| op(BroadcastContext { index, _m: PhantomData }))
        .collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool build error")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    num_threads: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { _n: self.num_threads })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct ThreadPool {
    _n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, oper_a: A, oper_b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(oper_a, oper_b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
}
