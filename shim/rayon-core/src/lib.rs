//! A stand-in for `rayon-core` 1.13: the work-stealing pool is replaced by a
//! controlled scheduler (`mc`). rayon's own iterators and the code under test
//! run unmodified on top of it.
//!
//! - Off (default): `join` runs both halves inline on the caller.
//! - Exploring: workers are real threads of which exactly one runs at a time;
//!   at every scheduling point the explorer decides who continues and who
//!   steals what, so that all schedules can be enumerated.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub mod mc;

// ---- join -----------------------------------------------------------------
#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

type Boxed = Box<dyn FnOnce(bool) + 'static>;
unsafe fn erase<'a>(f: Box<dyn FnOnce(bool) + 'a>) -> Boxed {
    std::mem::transmute(f)
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !mc::active() {
        mc::note_join();
        // same panic protocol as rayon: b is run even if a panics
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
        let rb = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(false))));
        return match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        };
    }
    in_worker(|injected| {
        let mut slot: Option<std::thread::Result<RB>> = None;
        let p = Ptr(&mut slot as *mut _);
        let job: Box<dyn FnOnce(bool) + '_> = Box::new(move |migrated| {
            let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(migrated))));
            unsafe { *p.get() = Some(r) }
        });
        let id = mc::push(unsafe { erase(job) });
        mc::note_join();
        mc::point();
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        match ra {
            Err(e) => {
                // rayon: wait for b (running it here if nobody stole it)
                mc::wait_job(id);
                resume_unwind(e)
            }
            Ok(ra) => {
                mc::fine_point();
                mc::finish_job(id, injected);
                match slot.take().expect("b has run") {
                    Ok(rb) => (ra, rb),
                    Err(e) => resume_unwind(e),
                }
            }
        }
    })
}

/// Runs `f` on a worker; `f` is told whether it was injected from outside.
pub(crate) fn in_worker<R: Send>(f: impl FnOnce(bool) -> R + Send) -> R {
    if mc::me().is_some() {
        return f(false);
    }
    let mut slot: Option<std::thread::Result<R>> = None;
    let p = Ptr(&mut slot as *mut _);
    let job: Box<dyn FnOnce(bool) + '_> = Box::new(move |_| {
        let r = catch_unwind(AssertUnwindSafe(|| f(true)));
        unsafe { *p.get() = Some(r) }
    });
    mc::inject_and_wait(unsafe { erase(job) });
    match slot.take().expect("root job has run") {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

// ---- spawn, scopes --------------------------------------------------------
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if mc::me().is_some() {
        mc::push(Box::new(move |_| f()));
        mc::point();
    } else {
        f()
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

struct ScopeBase {
    pending: std::sync::Mutex<Vec<u64>>,
    panic: std::sync::Mutex<Option<Box<dyn Any + Send>>>,
}
impl ScopeBase {
    fn new() -> Self {
        ScopeBase { pending: Default::default(), panic: Default::default() }
    }
    fn keep(&self, r: std::thread::Result<()>) {
        if let Err(e) = r {
            self.panic.lock().unwrap().get_or_insert(e);
        }
    }
    fn run<'s>(&self, f: Box<dyn FnOnce() + 's>) {
        if mc::me().is_none() {
            self.keep(catch_unwind(AssertUnwindSafe(f)));
            return;
        }
        let p = self as *const ScopeBase as usize;
        let job: Box<dyn FnOnce(bool) + 's> = Box::new(move |_| {
            let r = catch_unwind(AssertUnwindSafe(f));
            unsafe { &*(p as *const ScopeBase) }.keep(r);
        });
        let id = mc::push(unsafe { erase(job) });
        self.pending.lock().unwrap().push(id);
        mc::point();
    }
    fn complete<R>(&self, r: std::thread::Result<R>) -> R {
        loop {
            let id = self.pending.lock().unwrap().pop();
            match id {
                Some(id) => mc::wait_job(id),
                None => break,
            }
        }
        let r = match r {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        };
        if let Some(e) = self.panic.lock().unwrap().take() {
            resume_unwind(e)
        }
        r
    }
}

macro_rules! scope_type {
    ($Scope:ident, $spawn:ident, $scope:ident, $in_place:ident) => {
        pub struct $Scope<'scope> {
            base: ScopeBase,
            _m: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $Scope<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
            {
                let me = self as *const Self as usize;
                self.base.run(Box::new(move || body(unsafe { &*(me as *const $Scope<'scope>) })));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                for index in 0..n {
                    body(self, BroadcastContext { index, n, _marker: PhantomData });
                }
            }
        }
        impl<'scope> fmt::Debug for $Scope<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("Scope")
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R + Send,
            R: Send,
        {
            if !mc::active() {
                return $in_place(op);
            }
            in_worker(|_| $in_place(op))
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R,
        {
            let s = $Scope { base: ScopeBase::new(), _m: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.base.complete(r)
        }
    };
}
scope_type!(Scope, spawn, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

// ---- broadcast ------------------------------------------------------------
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    if !mc::active() {
        return (0..n).map(|index| op(BroadcastContext { index, n, _marker: PhantomData })).collect();
    }
    in_worker(|_| {
        let mut slots: Vec<Option<std::thread::Result<R>>> = (0..n).map(|_| None).collect();
        let mut ids = vec![];
        for (index, slot) in slots.iter_mut().enumerate() {
            let p = Ptr(slot as *mut _);
            let op = &op;
            let job: Box<dyn FnOnce(bool) + '_> = Box::new(move |_| {
                let r = catch_unwind(AssertUnwindSafe(|| op(BroadcastContext { index, n, _marker: PhantomData })));
                unsafe { *p.get() = Some(r) }
            });
            ids.push(mc::push_own(index, unsafe { erase(job) }));
        }
        mc::point();
        for id in ids {
            mc::wait_job(id);
        }
        slots
            .into_iter()
            .map(|s| match s.expect("has run") {
                Ok(x) => x,
                Err(e) => resume_unwind(e),
            })
            .collect()
    })
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

// ---- pools ----------------------------------------------------------------
pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    mc::pool()
}
pub fn current_thread_index() -> Option<usize> {
    mc::me()
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    mc::me().map(mc::has_local)
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    mc::me().map(|_| {
        mc::point();
        Yield::Idle
    })
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool build error")
    }
}
impl Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Debug, Default)]
pub struct DefaultSpawn;
#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        if mc::active() {
            in_worker(|_| op())
        } else {
            op()
        }
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        mc::me()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
}
