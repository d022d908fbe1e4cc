//! C16: the parallel helpers under every schedule of a controlled
//! work-stealing pool, against their sequential counterparts.
use matreex::parallel::*;
use matreex::{Error, Index, Matrix};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use rayon_core::mc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Apply,
    Map,
    MapRef,
    Iter,
    IterMut,
    IntoIter,
    IterIx,
    IterMutIx,
    IntoIterIx,
    /// `into_par_iter_elements_with_index().collect()`
    IntoCollect,
    /// consuming iterator stopped early
    IntoAny,
    IntoDrop,
    /// count and reduction through the by-reference iterator
    Count,
    IxMax,
    /// closures that use the pool themselves
    NestApply,
    NestMap,
    NestIter,
}
const NEST: [Op; 3] = [Op::NestApply, Op::NestMap, Op::NestIter];
const OPS: [Op; 14] = [
    Op::Apply,
    Op::Map,
    Op::MapRef,
    Op::Iter,
    Op::IterMut,
    Op::IntoIter,
    Op::IterIx,
    Op::IterMutIx,
    Op::IntoIterIx,
    Op::IntoCollect,
    Op::IntoAny,
    Op::IntoDrop,
    Op::Count,
    Op::IxMax,
];

/// Log of closure calls: (value seen, reported index, worker).
struct Log(Mutex<Vec<(u32, Option<(usize, usize)>, usize)>>);
impl Log {
    fn new() -> Log {
        Log(Mutex::new(vec![]))
    }
    fn call(&self, v: u32, ix: Option<Index>) {
        self.0.lock().unwrap().push((v, ix.map(|i| (i.row, i.col)), mc::me().unwrap_or(99)));
        mc::client_point();
    }
    fn take(&self) -> Vec<(u32, Option<(usize, usize)>, usize)> {
        let mut v = std::mem::take(&mut *self.0.lock().unwrap());
        v.sort();
        v
    }
}

/// The multiset of calls the sequential counterpart makes, sorted.
fn calls(x: &M, ix: bool) -> Vec<(u32, Option<(usize, usize)>)> {
    let mut v: Vec<_> = (0..x.nr).flat_map(|r| (0..x.nc).map(move |c| (r, c))).map(|(r, c)| (x.rows[r][c], ix.then_some((r, c)))).collect();
    v.sort();
    v
}

/// One execution under the current schedule. Returns the worker of each call.
fn one<E: Elem>(op: Op, x: &M) -> Result<Vec<usize>, Fail> {
    reset();
    let log = Log::new();
    let f1 = |v: u32| mix(FN1, v, 7);
    let workers: Vec<usize> = {
        let mut m: Matrix<E> = x.build();
        let mut ix = false;
        let mut seen_all = true;
        let inner = Matrix::from_row(vec![3u32, 4]);
        let nest = |v: u32| {
            let r = inner.par_map_ref(|y| {
                mc::client_point();
                mix(FN2, v, *y)
            });
            let r = r.expect("no overflow");
            mix(FN1, r[(0, 0)], r[(0, 1)])
        };
        let nested = |v: u32| mix(FN1, mix(FN2, v, 3), mix(FN2, v, 4));
        match op {
            Op::Apply => {
                m.par_apply(|e| {
                    log.call(e.val(), None);
                    e.set(f1(e.val()));
                });
                let mut s: Matrix<E> = x.build();
                s.apply(|e| e.set(f1(e.val())));
                agree(&m, &x.map(f1).norm::<E>())?;
                agree(&s, &x.map(f1).norm::<E>())?;
            }
            Op::Map => {
                let r = m.par_map(|e| {
                    log.call(e.val(), None);
                    (E::make(f1(e.val())), 5u8)
                });
                let s = x.build::<E>().map(|e| (E::make(f1(e.val())), 5u8));
                let (Ok(r), Ok(s)) = (r, s) else { bail!("par_map or map failed") };
                coherent(&r)?;
                ensure!((r.order(), r.shape()) == (s.order(), s.shape()), "par_map: {:?} {:?}, map: {:?} {:?}", r.order(), r.shape(), s.order(), s.shape());
                ensure!(r.iter_elements().map(|e| (e.0.val(), e.1)).eq(s.iter_elements().map(|e| (e.0.val(), e.1))), "par_map and map differ");
                agree(&r.map(|e| e.0).unwrap(), &x.map(f1).norm::<E>())?;
            }
            Op::MapRef => {
                let r = m.par_map_ref(|e| {
                    log.call(e.val(), None);
                    (e as *const E as usize, e.val())
                });
                let s = m.map_ref(|e| (e as *const E as usize, e.val()));
                let (Ok(r), Ok(s)) = (r, s) else { bail!("par_map_ref or map_ref failed") };
                coherent(&r)?;
                ensure!((r.order(), r.shape()) == (s.order(), s.shape()), "par_map_ref and map_ref differ in shape or order");
                ensure!(r.iter_elements().eq(s.iter_elements()), "par_map_ref and map_ref differ");
                agree(&m, x)?;
            }
            Op::Iter => {
                m.par_iter_elements().for_each(|e| log.call(e.val(), None));
                agree(&m, x)?;
            }
            Op::IterMut => {
                m.par_iter_elements_mut().for_each(|e| {
                    log.call(e.val(), None);
                    e.set(f1(e.val()));
                });
                agree(&m, &x.map(f1).norm::<E>())?;
            }
            Op::NestApply => {
                m.par_apply(|e| {
                    log.call(e.val(), None);
                    e.set(nest(e.val()));
                });
                agree(&m, &x.map(nested).norm::<E>())?;
            }
            Op::NestMap => {
                let Ok(r) = m.par_map(|e| {
                    log.call(e.val(), None);
                    E::make(nest(e.val()))
                }) else {
                    bail!("par_map failed")
                };
                agree(&r, &x.map(nested).norm::<E>())?;
            }
            Op::NestIter => {
                ix = true;
                m.par_iter_elements_mut_with_index().for_each(|(i, e)| {
                    log.call(e.val(), Some(i));
                    let mut n = Matrix::from_col(vec![E::make(1), E::make(2)]);
                    n.par_apply(|f| f.set(mix(FN2, f.val(), 1)));
                    e.set(nested(e.val()));
                });
                agree(&m, &x.map(nested).norm::<E>())?;
            }
            Op::IntoIter => m.into_par_iter_elements().for_each(|e| log.call(e.val(), None)),
            Op::IterIx => {
                ix = true;
                let bad = Mutex::new(None);
                m.par_iter_elements_with_index().for_each(|(i, e)| {
                    log.call(e.val(), Some(i));
                    if !m.get(i).is_ok_and(|g| std::ptr::eq(g, e)) {
                        *bad.lock().unwrap() = Some(i);
                    }
                });
                if let Some(i) = bad.into_inner().unwrap() {
                    bail!("par_iter_elements_with_index pairs {i:?} with an element that is not there");
                }
            }
            Op::IterMutIx => {
                ix = true;
                m.par_iter_elements_mut_with_index().for_each(|(i, e)| {
                    log.call(e.val(), Some(i));
                    e.set(mix(FN1, e.val(), (i.row * 31 + i.col) as u32));
                });
                let y = M::new(x.order, x.nr, x.nc, |r, c| mix(FN1, x.rows[r][c], (r * 31 + c) as u32)).norm::<E>();
                agree(&m, &y)?;
            }
            Op::IntoIterIx => {
                ix = true;
                m.into_par_iter_elements_with_index().for_each(|(i, e)| log.call(e.val(), Some(i)));
            }
            Op::IntoCollect => {
                ix = true;
                let v: Vec<(Index, E)> = m
                    .into_par_iter_elements_with_index()
                    .map(|(i, e)| {
                        log.call(e.val(), Some(i));
                        (i, e)
                    })
                    .collect();
                let mut got: Vec<_> = v.iter().map(|(i, e)| (e.val(), Some((i.row, i.col)))).collect();
                got.sort();
                ensure!(got == calls(x, true), "collected {got:?}");
            }
            Op::IntoAny => {
                seen_all = false;
                let hit = x.rows.iter().flatten().max().copied();
                let r = m.into_par_iter_elements().any(|e| {
                    log.call(e.val(), None);
                    Some(e.val()) == hit
                });
                ensure!(r == hit.is_some(), "any() = {r}");
            }
            Op::IntoDrop => {
                seen_all = false;
                drop(m.into_par_iter_elements());
                drop(x.build::<E>().into_par_iter_elements_with_index());
            }
            Op::Count => {
                seen_all = false;
                let n = m.par_iter_elements().count();
                ensure!(n == x.size(), "count() = {n} of {}", x.size());
                let n = m.par_iter_elements_mut().count();
                ensure!(n == x.size(), "mut count() = {n} of {}", x.size());
                let n = m.into_par_iter_elements().count();
                ensure!(n == x.size(), "into count() = {n} of {}", x.size());
            }
            Op::IxMax => {
                ix = true;
                let r = m
                    .par_iter_elements_with_index()
                    .map(|(i, e)| {
                        log.call(e.val(), Some(i));
                        (e.val(), i.row, i.col)
                    })
                    .max();
                let s = m.iter_elements_with_index().map(|(i, e)| (e.val(), i.row, i.col)).max();
                ensure!(r == s, "max() = {r:?}, sequentially {s:?}");
            }
        }
        let got = log.take();
        let want = calls(x, ix);
        if seen_all {
            let g: Vec<_> = got.iter().map(|c| (c.0, c.1)).collect();
            ensure!(g == want, "closure saw {g:?}, sequential counterpart {want:?}");
        } else {
            for c in &got {
                ensure!(want.binary_search(&(c.0, c.1)).is_ok(), "closure saw {c:?}, not in the matrix");
            }
            for (a, b) in got.iter().zip(got.iter().skip(1)) {
                ensure!((a.0, a.1) != (b.0, b.1) || E::norm(1) == E::norm(2), "closure saw {a:?} twice");
            }
        }
        got.iter().map(|c| c.2).collect()
    };
    finish()?;
    Ok(workers)
}

const QUICK: u64 = 60_000;
static START: OnceLock<Instant> = OnceLock::new();
static THOROUGH: AtomicBool = AtomicBool::new(false);

fn case<E: Elem>(op: Op, o: Ord_, nr: usize, nc: usize, pool: usize, bound: usize, s: &mut Stats) -> Res {
    case_max::<E>(op, o, nr, nc, pool, bound, if THOROUGH.load(Relaxed) { 3_000_000 } else { QUICK }, s)
}

#[allow(clippy::too_many_arguments)]
fn case_max<E: Elem>(op: Op, o: Ord_, nr: usize, nc: usize, pool: usize, bound: usize, max: u64, s: &mut Stats) -> Res {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    // what an ordinary caller sees first: no scheduler
    mc::set_pool(pool);
    one::<E>(op, &x)?;
    let mut workers = 0;
    let mut bound = bound;
    loop {
        // the quick tier has to answer whatever the code under test does with the
        // pool: fewer schedules per case once it takes far longer than usual
        let late = if max > QUICK { 0 } else { START.get_or_init(Instant::now).elapsed().as_secs() / 70 };
        let (bound_now, max) = match late {
            0 => (bound, max),
            1 => (bound.min(1), max.min(1000)),
            _ => (0, 100),
        };
        let (st, r) = mc::explore(pool, bound_now, max, || {
            beat();
            let w = one::<E>(op, &x)?;
            let mut d = w.clone();
            d.sort();
            d.dedup();
            workers = workers.max(d.len());
            s.state((op, E::NAME, o, nr, nc, pool, w));
            Ok::<(), Fail>(())
        });
        s.add("schedules", st.schedules);
        s.add("steals", st.steals);
        s.transitions(st.points);
        r.map_err(|(c, f)| Fail { key: f.key, msg: format!("schedule {c:?} of a pool of {pool}: {}", f.msg) })?;
        if late > 0 && bound > bound_now {
            s.add("cases_with_fewer_preemptions", 1);
        }
        if st.complete {
            break;
        }
        s.add("truncated_explorations", 1);
        if bound_now == 0 {
            break;
        }
        // all schedules with fewer preemptions instead
        bound = if bound_now > 3 { 3 } else { bound_now - 1 };
    }
    s.outcome(&format!("up to {workers} worker(s) used"));
    Ok(())
}

/// Like `case`, around another schedule that costs nothing, and possibly
/// without scheduling points inside the closures.
#[allow(clippy::too_many_arguments)]
fn around<E: Elem>(op: Op, o: Ord_, nr: usize, nc: usize, pool: usize, base: usize, coarse: bool, bound: usize, s: &mut Stats) -> Res {
    mc::set_base(base);
    mc::set_coarse(coarse);
    let r = case::<E>(op, o, nr, nc, pool, bound, s);
    mc::set_base(0);
    mc::set_coarse(false);
    r
}

/// CapacityOverflow in the same cases as the sequential forms.
fn overflow(s: &mut Stats) -> Res {
    fn pair<U: Send + Default>(n: usize, s: &mut Stats) -> Res {
        let over = (n as u128) * (size_of::<U>() as u128) > isize::MAX as u128;
        if !over {
            return Ok(());
        }
        for o in ORDERS {
            for shape in [(1, n), (n, 1)] {
                let make = || {
                    let mut m = Matrix::from_row(vec![ZA; n]);
                    m.reshape(shape).unwrap();
                    m.set_order(o.real());
                    m
                };
                let called = std::sync::atomic::AtomicBool::new(false);
                let f = |_: ZA| {
                    called.store(true, std::sync::atomic::Ordering::Relaxed);
                    U::default()
                };
                let a = make().par_map(f).err();
                let b = make().map(f).err();
                let c = make().par_map_ref(|e| f(*e)).err();
                let d = make().map_ref(|e| f(*e)).err();
                let want = Some(Error::CapacityOverflow);
                ensure!(a == want && b == want && c == want && d == want, "{n} elements of {} bytes: par_map {a:?} map {b:?} par_map_ref {c:?} map_ref {d:?}", size_of::<U>());
                ensure!(!called.load(std::sync::atomic::Ordering::Relaxed), "closure called by a failing map");
                s.transitions(4);
                s.state(("overflow", n, size_of::<U>(), o, shape));
            }
        }
        Ok(())
    }
    let lim = isize::MAX as usize;
    for n in [lim / 16, lim / 8, lim / 4, lim / 2, lim, usize::MAX] {
        for d in 0..3usize {
            for n in [n.saturating_add(d), n - d] {
                pair::<u8>(n, s)?;
                pair::<u16>(n, s)?;
                pair::<u32>(n, s)?;
                pair::<u64>(n, s)?;
                pair::<[u64; 3]>(n, s)?;
                pair::<u128>(n, s)?;
            }
        }
    }
    Ok(())
}

fn main() {
    run(
        Meta {
            prop: "C16",
            level: "model_checking",
            rule: "each parallel helper runs for real (matreex and rayon's iterators) on a controlled work-stealing scheduler; a case explores by depth-first search every schedule (who runs at each push, pop, closure call, job end and wait; who steals from whom) up to the preemption bound and compares result, closure calls and drops with the sequential counterpart on each",
            bounds: |t| {
                let common = "17 ways to use the 9 helpers (nested calls, calls from inside a pool), both orders, 3-4 element types; every number of elements 10-280; undisturbed pools of every size up to 70 and some up to 65535; long and very long shapes, without preemption, thieves first and by turns; real rayon-core natively and under Miri; locks and atomics of matreex itself, if it has any, are choice points";
                if t {
                    format!("pools 1-16; all preemptions up to 6 elements on 2 workers, 4 on 3; bounded preemptions (1-4) up to 1024 elements; {common}")
                } else {
                    format!("pools 1-16; all preemptions up to 4 elements on 2 workers; bounded preemptions (1-3) up to 256 elements; {common}")
                }
            },
            assumptions: &[
                "the scheduler model in shim/rayon-core (deques, LIFO pop, FIFO steal, migrated flag, leapfrogging waits, broadcast queues) over-approximates rayon-core's pool at the granularity of closure calls",
                "closures are atomic apart from their scheduling point; workers without a job are interchangeable; memory is sequentially consistent on the controlled scheduler (weak orders only under Miri)",
            ],
            stall_s: 120,
        },
        |cx| {
            let t = cx.thorough;
            THOROUGH.store(t, Relaxed);
            START.get_or_init(Instant::now);
            mc::set_fine(t);
            if cfg!(feature = "atomics") {
                // matreex built with a scheduling point at every atomic access and
                // every attempt to take a lock (only if its source has any)
                for (nr, nc, pool, bound) in [(1, 1, 2, 3), (1, 2, 2, 3), (2, 1, 3, 2), (1, 3, 2, 2), (2, 2, 2, 2), (2, 3, 3, 1), (4, 3, 4, 1), (9, 7, 5, 0)] {
                    for op in OPS.into_iter().chain(NEST) {
                        for o in ORDERS {
                            for (base, name) in ["undisturbed", "thieves first", "workers take turns"].into_iter().enumerate() {
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, {name}, up to {bound} change(s), points at atomics and locks", Tr::NAME),
                                    |s| {
                                        mc::set_base(base);
                                        let r = case_max::<Tr>(op, o, nr, nc, pool, bound, if t { 200_000 } else { 10_000 }, s);
                                        mc::set_base(0);
                                        r
                                    },
                                );
                            }
                        }
                    }
                }
                return;
            }
            let name = ["undisturbed", "thieves first", "workers take turns"];
            // (shapes, pool, preemption bound)
            let mut plan: Vec<(Vec<(usize, usize)>, usize, usize)> = vec![
                (vec![(0, 0), (0, 3), (3, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)], 1, 99),
                (vec![(0, 0), (0, 3), (3, 0), (1, 1), (1, 2), (2, 1), (3, 1), (1, 4), (2, 2)], 2, 99),
                (vec![(1, 1), (2, 1), (1, 3), (0, 2)], 3, 3),
                (vec![(2, 2), (1, 5), (2, 3), (3, 2)], 3, 2),
                (vec![(2, 3), (3, 3), (5, 1)], 2, 3),
                (vec![(2, 3), (3, 3), (4, 1)], 4, 2),
                (vec![(7, 3), (3, 7)], 5, 1),
                (vec![(2, 3), (1, 5), (5, 5)], 8, 1),
                (vec![(2, 3), (8, 5)], 16, 1),
                (vec![(16, 16)], 3, 1),
            ];
            if t {
                plan.extend([
                    (vec![(2, 3), (3, 2), (5, 1), (1, 6)], 2, 99),
                    (vec![(2, 2), (1, 3), (4, 1)], 3, 5),
                    (vec![(2, 3), (3, 2), (7, 1)], 3, 3),
                    (vec![(3, 3), (2, 5)], 4, 3),
                    (vec![(4, 4)], 2, 4),
                    (vec![(7, 3), (3, 7)], 5, 2),
                    (vec![(2, 3), (5, 5)], 8, 2),
                    (vec![(32, 32), (64, 3)], 4, 1),
                    (vec![(32, 32), (3, 100)], 16, 1),
                    (vec![(3, 7)], 6, 2),
                    (vec![(3, 7)], 7, 2),
                    (vec![(16, 16)], 12, 1),
                ]);
            }
            for (shapes, pool, bound) in plan {
                for (nr, nc) in shapes {
                    for op in OPS {
                        for o in ORDERS {
                            let small = nr * nc <= 9;
                            cx.case(
                                || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {bound} preemption(s)", Tr::NAME),
                                |s| case::<Tr>(op, o, nr, nc, pool, bound, s),
                            );
                            if small && bound < 4 {
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {bound} preemption(s)", TrZ::NAME),
                                    |s| case::<TrZ>(op, o, nr, nc, pool, bound, s),
                                );
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {bound} preemption(s)", P16::NAME),
                                    |s| case::<P16>(op, o, nr, nc, pool, bound, s),
                                );
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {} preemption(s)", P8::NAME, bound.min(1)),
                                    |s| case::<P8>(op, o, nr, nc, pool, bound.min(1), s),
                                );
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {} preemption(s)", TrB::NAME, bound.min(1)),
                                    |s| case::<TrB>(op, o, nr, nc, pool, bound.min(1), s),
                                );
                            }
                            if small && t {
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, up to {bound} preemption(s)", P1::NAME),
                                    |s| case::<P1>(op, o, nr, nc, pool, bound, s),
                                );
                            }
                        }
                    }
                }
            }
            // closures that use the pool themselves (a worker that waits inside a
            // closure may run another closure of the same call)
            for (nr, nc, pool, bound) in [(0, 2, 2, 2), (1, 1, 2, 3), (1, 2, 2, 2), (2, 1, 3, 2), (2, 2, 2, 2), (3, 1, 3, 1), (2, 3, 4, 1), (5, 4, 4, 0), (17, 3, 8, 0)] {
                let bound = bound + (t && bound > 0) as usize;
                for op in NEST {
                    for o in ORDERS {
                        for (base, name) in name.into_iter().enumerate() {
                            cx.case(
                                || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, {name}, up to {bound} change(s)", Tr::NAME),
                                |s| around::<Tr>(op, o, nr, nc, pool, base, false, bound, s),
                            );
                            cx.case(
                                || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, {name}, up to {bound} change(s)", P4::NAME),
                                |s| around::<P4>(op, o, nr, nc, pool, base, true, bound, s),
                            );
                        }
                    }
                }
            }
            // called from a worker of the pool
            for (nr, nc, pool, bound) in [(0, 2, 2, 2), (1, 1, 2, 9), (1, 2, 1, 9), (1, 2, 2, 9), (2, 2, 2, 3), (3, 1, 3, 2), (2, 3, 4, 1), (5, 5, 8, 0), (17, 3, 16, 0)] {
                for op in OPS.into_iter().chain(NEST) {
                    for o in ORDERS {
                        for (base, name) in name.into_iter().enumerate() {
                            let bound = if NEST.contains(&op) || base > 0 { bound.min(1) } else { bound };
                            cx.case(
                                || format!("{op:?} on {o:?}-major {nr}x{nc} {}, within a pool of {pool}, {name}, up to {bound} change(s)", Tr::NAME),
                                |s| {
                                    mc::set_inside(true);
                                    let r = around::<Tr>(op, o, nr, nc, pool, base, false, bound, s);
                                    mc::set_inside(false);
                                    r
                                },
                            );
                        }
                    }
                }
            }
            // every pool size as client code would see it (the divisions of work
            // of an undisturbed pool), over every small shape
            for (o, nr, nc) in shapes(if t { 8 } else { 5 }) {
                for op in OPS {
                    cx.case(
                        || format!("{op:?} on {o:?}-major {nr}x{nc}, every pool size up to 70 and some up to 65535"),
                        |s| {
                            for pool in (1..=70).chain([100, 127, 128, 200, 255, 256, 257, 1000, 65535]) {
                                mc::set_pool(pool);
                                one::<P4>(op, &M::numbered(o, nr, nc, 0), ).map_err(|f| Fail { key: f.key, msg: format!("pool of {pool}: {}", f.msg) })?;
                                s.state((op, o, nr, nc, pool, "undisturbed"));
                                s.transition();
                            }
                            Ok(())
                        },
                    );
                }
            }
            let lim = if t { usize::MAX } else { 5000 };
            for (nr, nc) in BIG.into_iter().filter(|s| s.0 * s.1 < lim) {
                for op in OPS {
                    for o in ORDERS {
                        for pool in [2, 5, 16] {
                            cx.case(|| format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, no preemption", P4::NAME), |s| case::<P4>(op, o, nr, nc, pool, 0, s));
                            cx.case(|| format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, no preemption", P8::NAME), |s| case::<P8>(op, o, nr, nc, pool, 0, s));
                        }
                    }
                }
            }
            // schedules in which every job is stolen at once or all workers take
            // turns, and one or two preemptions between jobs, on long matrices
            let lim = if t { usize::MAX } else { 150_000 };
            for (nr, nc) in BIG.into_iter().chain(HUGE).filter(|s| s.0 * s.1 < lim) {
                let n = nr * nc;
                for op in OPS {
                    for o in ORDERS {
                        for pool in [2, 5, 16] {
                            if n > 17000 && !(t || pool == 5 && o == Ord_::C) {
                                continue;
                            }
                            for base in 0..3 {
                                let bound = if base > 0 || n > 17000 || !t && n > 1500 { 0 } else { 1 };
                                if !t && (n > 5000 && base != 1 || pool == 16 && base == 0) {
                                    continue;
                                }
                                let coarse = base < 2 || n > 1500;
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, {}, up to {bound} change(s), coarse={coarse}", P4::NAME, name[base]),
                                    |s| around::<P4>(op, o, nr, nc, pool, base, coarse, bound, s),
                                );
                            }
                            if n < if t { 5000 } else { 1200 } {
                                cx.case(
                                    || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, thieves first", Tr::NAME),
                                    |s| around::<Tr>(op, o, nr, nc, pool, 1, true, 0, s),
                                );
                            }
                        }
                    }
                }
            }
            // every length
            for n in 10..=(if t { 1100 } else { 280 }) {
                for op in OPS {
                    for (o, nr, nc) in [(Ord_::R, 1, n), (Ord_::C, n / 2, 2)] {
                        for pool in [2, 4] {
                            cx.case(
                                || format!("{op:?} on {o:?}-major {nr}x{nc} {}, pool of {pool}, thieves first, coarse", P4::NAME),
                                |s| around::<P4>(op, o, nr, nc, pool, 1, true, 0, s),
                            );
                        }
                    }
                }
            }
            // the real rayon-core with Miri as the judge of every access (data races)
            miri_bin(cx, "realpar/Cargo.toml", "miripar", "c16", "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance", if t { 64 } else { 8 });
            cx.case(|| "CapacityOverflow of the mapping helpers".into(), overflow);
        },
    )
}
