//! The controlled scheduler and its exhaustive explorer.
//!
//! Model of the pool (rayon-core 1.13): every worker owns a deque; `join`
//! pushes its second half, runs the first, then pops the second half or, if it
//! was stolen, waits for it while stealing other work; idle and waiting
//! workers steal the oldest job of any other deque, or an injected job. A
//! stolen or injected job sees `migrated = true`. Which runnable worker
//! proceeds, and who steals from whom, is chosen by the explorer at every
//! scheduling point (after a push, before a pop if `set_fine`, at the end of a
//! job, while waiting, and wherever the client calls `point()`).
//! Workers that hold no job are interchangeable; only one is tried.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

const MAXW: usize = 16;
const EXT: usize = MAXW;
const OWN: usize = MAXW + 1;

type Job = Box<dyn FnOnce(bool) + 'static>;
struct SendJob(Job);
unsafe impl Send for SendJob {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Running,
    /// waiting for job `.0`; may steal meanwhile
    Wait(u64),
    /// blocked on a lock (the address of a futex)
    Blocked(usize),
    /// gave way to the others
    Yielded,
}

struct State {
    cur: usize,
    st: [St; MAXW],
    ext_wait: Option<u64>,
    deques: Vec<VecDeque<(u64, SendJob)>>,
    injector: VecDeque<(u64, SendJob)>,
    /// broadcast jobs, which only their own worker may run
    own: Vec<VecDeque<(u64, SendJob)>>,
    order: [Option<SendJob>; MAXW],
    done: std::collections::HashSet<u64>,
    next_id: u64,
    // exploration
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    preempts: usize,
    bound: usize,
    steals: u64,
    turn: usize,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static POOL: AtomicUsize = AtomicUsize::new(4);
static JOINS: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<Option<State>> = Mutex::new(None);
#[allow(clippy::declare_interior_mutable_const)]
const CV: Condvar = Condvar::new();
static CVS: [Condvar; MAXW + 1] = [CV; MAXW + 1];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(EXT) };
}

pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
pub fn pool() -> usize {
    POOL.load(SeqCst)
}
/// Pool size reported to rayon's splitter.
pub fn set_pool(n: usize) {
    POOL.store(n, SeqCst)
}
/// Index of the worker running this code.
pub fn me() -> Option<usize> {
    let m = ME.with(Cell::get);
    (m != EXT).then_some(m)
}
/// Number of `join`s executed so far in this process.
pub fn joins() -> u64 {
    JOINS.load(SeqCst)
}
pub(crate) fn note_join() {
    JOINS.fetch_add(1, SeqCst);
}

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone, Copy)]
enum Act {
    Go(usize),
    Steal(usize, usize), // thief, victim (EXT: injector)
}

fn acts(s: &State, me: usize, runnable: bool) -> Vec<Act> {
    let mut v = vec![];
    if runnable {
        v.push(Act::Go(me));
    }
    let p = pool();
    let mut idle_seen = false;
    for w in (0..p).chain([EXT]) {
        if w == EXT {
            if let Some(j) = s.ext_wait {
                if s.done.contains(&j) {
                    v.push(Act::Go(EXT));
                }
            }
            continue;
        }
        if w == me && runnable {
            continue;
        }
        match s.st[w] {
            St::Running => v.push(Act::Go(w)),
            St::Blocked(_) | St::Yielded => (),
            St::Wait(j) if s.done.contains(&j) => v.push(Act::Go(w)),
            st => {
                if st == St::Idle && s.own[w].is_empty() {
                    if idle_seen {
                        continue;
                    }
                    idle_seen = true;
                }
                // own jobs first (a waiting worker pops its own deque)
                if !s.deques[w].is_empty() {
                    v.push(Act::Steal(w, w));
                    continue;
                }
                if !s.own[w].is_empty() {
                    v.push(Act::Steal(w, OWN));
                    continue;
                }
                for d in 0..p {
                    if d != w && !s.deques[d].is_empty() {
                        v.push(Act::Steal(w, d));
                    }
                }
                if !s.injector.is_empty() {
                    v.push(Act::Steal(w, EXT));
                }
            }
        }
    }
    if v.is_empty() {
        v.extend((0..p).filter(|w| s.st[*w] == St::Yielded).map(Act::Go));
    }
    v
}

/// Picks who proceeds and hands over. Returns when `me` is scheduled again
/// (with an order to execute, if any).
fn schedule(mut g: MutexGuard<'static, Option<State>>, me: usize, runnable: bool) -> Option<SendJob> {
    {
        let s = g.as_mut().expect("exploring");
        for w in 0..MAXW {
            if w != me && s.st[w] == St::Yielded {
                s.st[w] = St::Running;
            }
        }
        let mut a = acts(s, me, runnable);
        if a.is_empty() {
            // a defect of the code under test; the supervisor attributes it
            eprintln!("mc: deadlock: {:?}", &s.st[..pool()]);
            std::process::abort();
        }
        match BASE.load(SeqCst) {
            1 => a.reverse(),
            2 => {
                s.turn += 1;
                let n = a.len();
                a.rotate_left(s.turn % n);
            }
            _ => (),
        }
        let delays = BASE.load(SeqCst) != 0;
        let n = if (runnable || delays) && s.preempts >= s.bound { 1 } else { a.len() };
        let k = if n == 1 {
            0
        } else {
            let d = s.trace.len();
            let k = s.prefix.get(d).copied().unwrap_or(0);
            assert!((k as usize) < n, "mc: non-deterministic replay");
            s.trace.push((k, n as u32));
            k as usize
        };
        if (runnable || delays) && k != 0 {
            s.preempts += 1;
        }
        let next = match a[k] {
            Act::Go(w) => w,
            Act::Steal(w, d) => {
                s.steals += (w != d && d != OWN) as u64;
                let (id, job) = if d == EXT {
                    s.injector.pop_front()
                } else if d == OWN {
                    s.own[w].pop_front()
                } else if d == w {
                    s.deques[d].pop_back()
                } else {
                    s.deques[d].pop_front()
                }
                .expect("job");
                s.order[w] = Some(SendJob(Box::new(move |_| {
                    let SendJob(j) = job;
                    j(true);
                    complete(id);
                })));
                w
            }
        };
        if next != EXT {
            // a waiting worker that executes a job or whose latch is set runs
            s.st[next] = St::Running;
        }
        s.cur = next;
        if next == me {
            return if me == EXT { None } else { s.order[me].take() };
        }
    }
    CVS[s_cur(&g)].notify_all();
    wait_turn(g, me)
}
fn s_cur(g: &MutexGuard<'static, Option<State>>) -> usize {
    g.as_ref().unwrap().cur
}
fn wait_turn(mut g: MutexGuard<'static, Option<State>>, me: usize) -> Option<SendJob> {
    loop {
        if let Some(s) = g.as_mut() {
            if s.cur == me {
                return if me == EXT { None } else { s.order[me].take() };
            }
        }
        g = CVS[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
fn complete(id: u64) {
    let mut g = lock();
    g.as_mut().expect("exploring").done.insert(id);
}

static BASE: AtomicUsize = AtomicUsize::new(0);
/// The schedule that costs no preemption: 0 - whoever runs goes on; 1 - a
/// thief takes over whenever there is something to steal; 2 - all the workers
/// take turns. With 1 and 2 every choice that differs counts against the bound
/// (delay bounding), even where the worker cannot go on.
pub fn set_base(k: usize) {
    BASE.store(k, SeqCst)
}
static COARSE: AtomicBool = AtomicBool::new(false);
/// Schedule at pushes and waits only, not at the client's `point()`s.
pub fn set_coarse(on: bool) {
    COARSE.store(on, SeqCst)
}
static INSIDE: AtomicBool = AtomicBool::new(false);
/// Run the explored body on a worker (as within `ThreadPool::install`).
pub fn set_inside(on: bool) {
    INSIDE.store(on, SeqCst)
}
static FINE: AtomicBool = AtomicBool::new(false);
/// Also schedule between the end of a `join`'s first half and the pop of its
/// second half. (A steal there differs from a steal at the last point of the
/// first half only in steps nobody can observe.)
pub fn set_fine(on: bool) {
    FINE.store(on, SeqCst)
}
pub(crate) fn fine_point() {
    if FINE.load(SeqCst) {
        point()
    }
}

/// A scheduling point.
pub fn point() {
    if !active() {
        return;
    }
    let me = ME.with(Cell::get);
    if me == EXT || std::thread::panicking() {
        return;
    }
    let o = schedule(lock(), me, true);
    assert!(o.is_none());
}

/// A scheduling point of the client's code.
pub fn client_point() {
    if !COARSE.load(SeqCst) {
        point()
    }
}

pub(crate) fn push(job: Job) -> u64 {
    let me = ME.with(Cell::get);
    let mut g = lock();
    let s = g.as_mut().expect("exploring");
    let id = s.next_id;
    s.next_id += 1;
    s.deques[me].push_back((id, SendJob(job)));
    id
}
pub(crate) fn has_local(w: usize) -> bool {
    lock().as_ref().is_some_and(|s| !s.deques[w].is_empty())
}

/// One job for each worker (`broadcast`).
pub(crate) fn push_own(w: usize, job: Job) -> u64 {
    let mut g = lock();
    let s = g.as_mut().expect("exploring");
    let id = s.next_id;
    s.next_id += 1;
    s.own[w].push_back((id, SendJob(job)));
    id
}

// ---- blocking in the code under test ---------------------------------------
// std's locks, condition variables and parking all come down to futex calls
// through libc's `syscall`, which is replaced here: a controlled worker that
// would block hands over to another one instead.
fn errno(e: i32) -> i64 {
    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe { *__errno_location() = e };
    -1
}
fn inside<T>(x: &T, a: usize) -> bool {
    let b = x as *const T as usize;
    a >= b && a < b + size_of::<T>()
}
/// # Safety
/// As the system call.
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX && active() && !inside(&STATE, a) && !inside(&CVS, a) {
        let me = ME.try_with(Cell::get).unwrap_or(EXT);
        if me != EXT {
            match b & 0x7f {
                0 | 9 => {
                    let mut g = lock();
                    let now = unsafe { (*(a as *const std::sync::atomic::AtomicU32)).load(SeqCst) };
                    if now != c as u32 {
                        return errno(11);
                    }
                    let timed = d != 0;
                    g.as_mut().expect("exploring").st[me] = if timed { St::Yielded } else { St::Blocked(a) };
                    let o = schedule(g, me, false);
                    assert!(o.is_none());
                    return if timed { errno(110) } else { 0 };
                }
                1 | 10 => {
                    let mut g = lock();
                    let s = g.as_mut().expect("exploring");
                    let mut woken = 0;
                    for w in 0..MAXW {
                        if woken < c as i64 && s.st[w] == St::Blocked(a) {
                            s.st[w] = St::Running;
                            woken += 1;
                        }
                    }
                    if woken == c as i64 {
                        return woken;
                    }
                }
                _ => (),
            }
        }
    }
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    if (-4095..0).contains(&r) { errno(-r as i32) } else { r }
}
/// # Safety
/// As the system call.
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = ME.try_with(Cell::get).unwrap_or(EXT);
    if !active() || me == EXT {
        let _r: i64;
        unsafe { std::arch::asm!("syscall", inlateout("rax") 24i64 => _r, lateout("rcx") _, lateout("r11") _, options(nostack)) };
        return 0;
    }
    let mut g = lock();
    g.as_mut().expect("exploring").st[me] = St::Yielded;
    let o = schedule(g, me, false);
    assert!(o.is_none());
    0
}

/// Second half of a `join`: run local jobs down to `id`, or wait for the thief.
pub(crate) fn finish_job(id: u64, injected: bool) {
    let me = ME.with(Cell::get);
    loop {
        let mut g = lock();
        let s = g.as_mut().expect("exploring");
        if s.done.contains(&id) {
            return;
        }
        if let Some((j, SendJob(job))) = s.deques[me].pop_back() {
            drop(g);
            if j == id {
                job(injected);
                complete(id);
                return;
            }
            job(true);
            complete(j);
            continue;
        }
        drop(g);
        wait_job(id);
        return;
    }
}
/// Wait for `id`, executing whatever is scheduled for us meanwhile.
pub(crate) fn wait_job(id: u64) {
    let me = ME.with(Cell::get);
    loop {
        let mut g = lock();
        let s = g.as_mut().expect("exploring");
        if s.done.contains(&id) {
            return;
        }
        s.st[me] = St::Wait(id);
        if let Some(SendJob(j)) = schedule(g, me, false) {
            j(true);
        }
    }
}
pub(crate) fn inject_and_wait(job: Job) {
    let mut g = lock();
    let s = g.as_mut().expect("exploring");
    let id = s.next_id;
    s.next_id += 1;
    s.injector.push_back((id, SendJob(job)));
    s.ext_wait = Some(id);
    schedule(g, EXT, false);
    lock().as_mut().expect("exploring").ext_wait = None;
}

fn worker(w: usize) {
    ME.with(|m| m.set(w));
    let mut o = wait_turn(lock(), w);
    loop {
        if let Some(SendJob(j)) = o {
            j(true);
        }
        let mut g = lock();
        g.as_mut().expect("exploring").st[w] = St::Idle;
        o = schedule(g, w, false);
    }
}

fn ensure_threads(n: usize) {
    static STARTED: AtomicUsize = AtomicUsize::new(0);
    while STARTED.load(SeqCst) < n {
        let w = STARTED.fetch_add(1, SeqCst);
        std::thread::Builder::new().name(format!("mc-worker-{w}")).spawn(move || worker(w)).expect("spawn");
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Explored {
    pub schedules: u64,
    pub points: u64,
    pub steals: u64,
    /// false if `max` cut the enumeration short
    pub complete: bool,
    pub deepest: usize,
}

// the caller waits meanwhile, so nothing is used by two threads at once
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T: FnOnce() -> R, R> Carry<T> {
    fn go(self) -> R {
        (self.0)()
    }
}

/// Runs `body` once per schedule of a pool of `pool` workers with at most
/// `bound` preemptions. `body` runs on an outside thread; a panic or an error
/// ends the exploration.
pub fn explore<E>(pool: usize, bound: usize, max: u64, mut body: impl FnMut() -> Result<(), E>) -> (Explored, Result<(), (Vec<u32>, E)>) {
    assert!(pool >= 1 && pool <= MAXW && !active() && me().is_none());
    let old = POOL.swap(pool, SeqCst);
    ensure_threads(pool);
    let mut x = Explored { complete: true, ..Default::default() };
    let mut prefix: Vec<u32> = vec![];
    struct Off(usize);
    impl Drop for Off {
        fn drop(&mut self) {
            ACTIVE.store(false, SeqCst);
            POOL.store(self.0, SeqCst);
        }
    }
    let _off = Off(old);
    loop {
        {
            let mut g = lock();
            *g = Some(State {
                cur: EXT,
                st: [St::Idle; MAXW],
                ext_wait: None,
                deques: (0..MAXW).map(|_| VecDeque::new()).collect(),
                injector: VecDeque::new(),
                own: (0..MAXW).map(|_| VecDeque::new()).collect(),
                order: Default::default(),
                done: Default::default(),
                next_id: 1,
                prefix: std::mem::take(&mut prefix),
                trace: vec![],
                preempts: 0,
                bound,
                steals: 0,
                turn: 0,
            });
        }
        ACTIVE.store(true, SeqCst);
        let r = if INSIDE.load(SeqCst) {
            let c = Carry(&mut body);
            crate::in_worker(move |_| Carry(c.go())).0
        } else {
            body()
        };
        ACTIVE.store(false, SeqCst);
        let mut trace = {
            let mut g = lock();
            let s = g.as_mut().expect("exploring");
            x.steals += s.steals;
            std::mem::take(&mut s.trace)
        };
        x.schedules += 1;
        x.points += trace.len() as u64;
        x.deepest = x.deepest.max(trace.len());
        if let Err(e) = r {
            return (x, Err((trace.iter().map(|t| t.0).collect(), e)));
        }
        // next schedule
        while let Some((k, n)) = trace.pop() {
            if k + 1 < n {
                prefix = trace.iter().map(|t| t.0).collect();
                prefix.push(k + 1);
                break;
            }
        }
        if prefix.is_empty() {
            return (x, Ok(()));
        }
        if x.schedules >= max {
            x.complete = false;
            return (x, Ok(()));
        }
    }
}
