//! C02: a panic injected into every single piece of user code that any
//! operation runs, from every small state; afterwards every matrix that is
//! still reachable is inspected, used and dropped.
use matreex::Matrix;
use matreex::shape::Shape;
use mcx::elem::*;
use mcx::model::*;
use mcx::ops::{self, *};
use mcx::sup::*;
use mcx::{bail, ensure};
use rayon_core::mc;
use std::panic::{AssertUnwindSafe, catch_unwind};

type St = (Ord_, usize, usize, bool);

/// Everything a caller can do with a matrix that survived.
fn survivor<E: Elem>(m: Matrix<E>, what: &str, post: &[Op]) -> Result<Matrix<E>, Fail> {
    let tag = |e: Fail| Fail { msg: format!("{what}: {}", e.msg), ..e };
    coherent(&m).map_err(tag)?;
    let x = contents(&m).map_err(tag)?;
    // every view, and two live references at once
    let mut m = m;
    if x.size() < 1 << 12 && x.nr.max(x.nc) < 1 << 12 {
        let n: usize = m.iter_rows().map(|r| r.map(|e| (e.val() & 0) as usize + 1).sum::<usize>()).sum();
        ensure!(n == x.size(), "{what}: the rows yield {n} of {} elements", x.size());
        let mut v: Vec<&mut E> = m.iter_cols_mut().flatten().collect();
        ensure!(v.len() == x.size(), "{what}: the columns yield {} of {} elements", v.len(), x.size());
        if v.len() > 1 {
            let (a, b) = v.split_at_mut(1);
            std::mem::swap(&mut *a[0], &mut *b[0]);
            std::mem::swap(&mut *a[0], &mut *b[0]);
        }
    }
    error().map_err(|e| Fail::from(format!("{what}: {e}")))?;
    let c = counts();
    let leaked = c.live - m.size() as i64;
    ensure!(!E::TRACKED || leaked >= 0, "{what}: holds {} elements, only {} are alive", m.size(), c.live);
    let mut d = Duo { m, x, base: 50_000, leaked };
    for op in post {
        d.step(*op).map_err(|e| Fail { msg: format!("{what}, later {op:?}: {}", e.msg), ..e })?;
    }
    Ok(d.m)
}

struct Ran {
    calls: u64,
    kinds: [u64; 16],
    fired: bool,
}

/// One execution with a fault at call `k` (0: none), optionally a second one
/// in a following operation.
fn one<E: Elem>(st: St, op: Op, k: u64, second: Option<(Op, u64)>, post: &[Op]) -> Result<Ran, Fail> {
    reset();
    let ran;
    {
        let d = start::<E>(st.0, st.1, st.2, st.3);
        let mut m = d.m;
        let aux_x = op.aux(&d.x, 100);
        let mut aux: Matrix<E> = aux_x.as_ref().map_or_else(Matrix::new, |a| a.build());
        let mut obs = vec![];
        arm(k);
        let out = exec(op, &mut m, &mut aux, 100, &mut obs);
        let kinds = kinds();
        let (calls, fired) = disarm();
        if fired {
            ensure!(out == Out::Panic, "{op:?} from {st:?}: swallows the panic of user call {k}: {out:?}");
        }
        let mut r = Ran { calls, kinds, fired };
        if let Some((op2, k2)) = second {
            let aux_x = contents(&m).map(|x| op2.aux(&x, 9000))?;
            let mut aux: Matrix<E> = aux_x.as_ref().map_or_else(Matrix::new, |a| a.build());
            arm(k2);
            let _ = exec(op2, &mut m, &mut aux, 9000, &mut obs);
            let (calls, fired) = disarm();
            r = Ran { calls, kinds, fired };
            coherent(&aux)?;
            drop(aux);
        }
        ran = r;
        error()?;
        coherent(&aux).map_err(|e| Fail { msg: format!("operand: {}", e.msg), ..e })?;
        contents(&aux)?;
        let m = if fired || second.is_some() {
            // drop one, use the other
            drop(aux);
            survivor(m, "receiver", post)?
        } else {
            m
        };
        drop(m);
    }
    error()?;
    Ok(ran)
}

/// Both operands are used afterwards.
fn operand<E: Elem>(st: St, op: Op, k: u64, post: &[Op]) -> Res {
    reset();
    {
        let d = start::<E>(st.0, st.1, st.2, st.3);
        let mut m = d.m;
        let Some(a) = op.aux(&d.x, 100) else { return Ok(()) };
        let mut aux: Matrix<E> = a.build();
        let mut obs = vec![];
        arm(k);
        let _ = exec(op, &mut m, &mut aux, 100, &mut obs);
        disarm();
        coherent(&m)?;
        drop(m);
        error()?;
        drop(survivor(aux, "operand", post)?);
    }
    Ok(error()?)
}

/// The matrix itself is dropped while an element's drop panics.
fn dropping<E: Elem>(st: St, k: u64) -> Res {
    reset();
    let d = start::<E>(st.0, st.1, st.2, st.3);
    let n = d.m.size() as u64;
    arm(k);
    let r = catch_unwind(AssertUnwindSafe(move || drop(d.m)));
    let (calls, fired) = disarm();
    ensure!(fired == (k <= n), "dropping {n} elements runs {calls} drops");
    ensure!(r.is_err() == fired, "panic while dropping is lost");
    error()?;
    ensure!(calls <= n, "{calls} drops of {n} elements");
    Ok(())
}

const POSTS: [&[Op]; 3] = [
    &[Op::ReadAll, Op::Resize(3, 3), Op::RowsMut, Op::Transpose, Op::Switch, Op::Format(true), Op::ReadAll],
    &[Op::CloneReplace, Op::SwapRows(0, 1), Op::SwapCols(0, 1), Op::Map, Op::Resize(1, 2), Op::IntoIter(1, 1)],
    &[Op::ColsMut, Op::Overwrite(Ord_::C, 2, 2), Op::Reshape(1, 6), Op::Clear, Op::Resize(2, 2), Op::Rebuild(2)],
];

fn all<E: Elem>(st: St, ops: &[Op], s: &mut Stats) -> Res {
    for op in ops {
        if matches!(op, Op::Resize(k, 1) if *k > 1 << 40) {
            continue;
        }
        let r = one::<E>(st, *op, 0, None, &[])?;
        s.transition();
        for (k, n) in r.kinds.iter().enumerate() {
            if *n > 0 {
                s.add(["user_default", "user_clone", "user_drop", "user_eq", "user_fmt", "user_op", "user_closure", "user_index", "user_iter", "user_opassign", "user_neg", "", "", "", "", ""][k], *n);
            }
        }
        for k in 1..=r.calls {
            let post = POSTS[(k % 3) as usize];
            let f = |e: Fail| Fail { msg: format!("{op:?} from {st:?}, panic in user call {k} of {}: {}", r.calls, e.msg), ..e };
            let q = one::<E>(st, *op, k, None, post).map_err(f)?;
            ensure!(q.fired, "{op:?} from {st:?}: user call {k} of {} did not happen again", r.calls);
            s.transition();
            s.add("faults", 1);
            s.state((E::NAME, st, op, k));
            if op.aux(&M::numbered(st.0, st.1, st.2, 0), 100).is_some() {
                operand::<E>(st, *op, k, POSTS[((k + 1) % 3) as usize]).map_err(f)?;
                s.add("faults", 1);
            }
        }
    }
    Ok(())
}

fn pairs(st: St, op: Op, seconds: &[Op], s: &mut Stats) -> Res {
    let n = one::<Tr>(st, op, 0, None, &[])?.calls;
    for k in 1..=n {
        for op2 in seconds {
            let n2 = one::<Tr>(st, op, k, Some((*op2, 0)), &[])?.calls;
            for k2 in 1..=n2 {
                one::<Tr>(st, op, k, Some((*op2, k2)), POSTS[(k2 % 3) as usize])
                    .map_err(|e| Fail { msg: format!("{op:?} from {st:?} with a panic in user call {k}, then {op2:?} with one in {k2}: {}", e.msg), ..e })?;
                s.transition();
                s.add("double_faults", 1);
            }
            s.state((st, op, k, op2));
        }
    }
    Ok(())
}

/// Parallel operations: every schedule, a fault in every call.
fn parallel<E: Elem>(st: St, op: Op, pool: usize, bound: usize, s: &mut Stats) -> Res {
    let total = {
        let r = one::<E>(st, op, 0, None, &[])?;
        r.calls
    };
    for k in 1..=total {
        let mut fired = 0u64;
        let (e, r) = mc::explore(pool, bound, 2_000_000, || {
            beat();
            let q = one::<E>(st, op, k, None, POSTS[(k % 3) as usize])?;
            fired += q.fired as u64;
            Ok::<(), Fail>(())
        });
        s.add("schedules", e.schedules);
        s.add("faults", e.schedules);
        s.transitions(e.schedules);
        s.state((E::NAME, st, op, pool, k));
        if let Err((sch, f)) = r {
            bail!("{op:?} from {st:?}, panic in user call {k}, {pool} workers, schedule {sch:?}: {}", f.msg);
        }
        ensure!(e.complete, "exploration of {op:?} was cut short");
        ensure!(fired > 0, "{op:?}: user call {k} was reached on no schedule");
    }
    Ok(())
}

// ---- user code the alphabet does not have ------------------------------------
struct UserShape(usize, usize);
impl From<UserShape> for Shape {
    fn from(s: UserShape) -> Shape {
        tick(Kind::Index);
        Shape::new(s.0, s.1)
    }
}
struct UserVec<E>(Vec<E>);
impl<E> From<UserVec<E>> for Vec<E> {
    fn from(s: UserVec<E>) -> Vec<E> {
        tick(Kind::Iter);
        s.0
    }
}
/// An iterator with a misleading length that calls user code for every item.
struct UserIter<I>(I, usize);
impl<I: Iterator> Iterator for UserIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick(Kind::Iter);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tick(Kind::Iter);
        (self.1, None)
    }
}

/// Operations with a receiver that survives, named.
type Extra<E> = (&'static str, fn(&mut Matrix<E>));
fn extras<E: Elem>() -> Vec<Extra<E>> {
    fn e<E: Elem>(v: u32) -> E {
        E::make(v)
    }
    vec![
        ("reshape(user shape)", |m| {
            let _ = m.reshape(UserShape(3, 2));
        }),
        ("resize(user shape) up", |m| {
            let _ = m.resize(UserShape(3, 4));
        }),
        ("resize(user shape) down", |m| {
            let _ = m.resize(UserShape(1, 2));
        }),
        ("with_default(user shape)", |m| *m = Matrix::with_default(UserShape(2, 2)).unwrap()),
        ("with_value(user shape)", |m| *m = Matrix::with_value(UserShape(2, 2), e(4)).unwrap()),
        ("with_initializer(user shape)", |m| {
            *m = Matrix::with_initializer(UserShape(2, 2), |i| {
                tick(Kind::Closure);
                e((i.row + i.col) as u32)
            })
            .unwrap()
        }),
        ("from_row(user vector)", |m| *m = Matrix::from_row(UserVec((0..3).map(e).collect()))),
        ("from_col(user vector)", |m| *m = Matrix::from_col(UserVec((0..3).map(e).collect()))),
        ("collect of user iterators", |m| {
            *m = UserIter((0..3).map(|r| UserIter((0..2).map(move |c| e(r * 2 + c)), 2)), 3).collect();
        }),
        ("collect of user iterators with long hints", |m| {
            *m = UserIter((0..2).map(|r| UserIter((0..3).map(move |c| e(r * 3 + c)), 3)), 1).collect();
        }),
        ("collect of ragged user iterators", |m| {
            *m = UserIter((0..3u32).map(|r| UserIter((0..=r).map(e), 0)), 0).collect();
        }),
        ("From<&[[T; C]]>", |m| {
            let a: [[E; 2]; 2] = [[e(1), e(2)], [e(3), e(4)]];
            *m = Matrix::from(&a[..]);
        }),
        ("get with a user index", |m| {
            let _ = m.get(UserIx(1, 1)).map(|x| x.val());
            let _ = m.get(UserIx(9, 0));
            let _ = m.get_mut(UserIx(0, 1)).map(|x| x.set(5));
        }),
        ("get_unchecked with a user index", |m| {
            if m.nrows() > 1 && m.ncols() > 1 {
                unsafe {
                    let _ = m.get_unchecked(UserIx(1, 1)).val();
                    *m.get_unchecked_mut(UserIx(0, 1)) = e(8);
                }
            }
        }),
        ("swap with user indices", |m| {
            let _ = m.swap(UserIx(0, 0), UserIx(1, 1));
            let _ = m.swap(UserIx(0, 0), (7, 7));
            let _ = m.swap((0, 1), UserIx(0, 0));
        }),
        ("== and !=", |m| {
            let n = m.clone();
            let _ = n == *m;
            let mut n = n;
            n.switch_order();
            let _ = n == *m;
            let _ = *m != n;
        }),
        ("retain through into_iter_elements", |m| {
            let v: Vec<E> = std::mem::take(m)
                .into_iter_elements()
                .rev()
                .filter(|x| {
                    tick(Kind::Closure);
                    x.val() % 2 == 1
                })
                .collect();
            *m = Matrix::from_row(v);
        }),
        ("rows abandoned halfway", |m| {
            let mut it = m.iter_rows_mut();
            if let Some(mut row) = it.next_back() {
                if let Some(x) = row.next_back() {
                    tick(Kind::Closure);
                    *x = e(9);
                }
            }
            if let Some(row) = it.next() {
                for x in row {
                    tick(Kind::Closure);
                    *x = e(10);
                }
            }
        }),
        ("map to another size, with the source dropped", |m| {
            let n = std::mem::take(m)
                .map(|x| {
                    tick(Kind::Closure);
                    (x, 1u8)
                })
                .unwrap();
            *m = n
                .map(|x| {
                    tick(Kind::Closure);
                    x.0
                })
                .unwrap();
        }),
        ("map to a smaller type and back", |m| {
            let n = std::mem::take(m)
                .map(|x| {
                    tick(Kind::Closure);
                    x.val() as u8
                })
                .unwrap();
            *m = n
                .map(|x| {
                    tick(Kind::Closure);
                    e(x as u32)
                })
                .unwrap();
        }),
        ("scalar assign", |m| {
            m.scalar_operation_assign(&2u32, |x, y| {
                tick(Kind::Closure);
                *x = e(x.val() + y);
            });
        }),
        ("apply replacing", |m| {
            m.apply(|x| {
                tick(Kind::Closure);
                *x = x.clone();
            });
        }),
        ("overwrite from a smaller and a larger matrix", |m| {
            let a: Matrix<E> = Matrix::with_initializer((1, 3), |_| e(1)).unwrap();
            let mut b: Matrix<E> = Matrix::with_initializer((3, 1), |_| e(2)).unwrap();
            b.switch_order();
            m.overwrite(&a).overwrite(&b);
        }),
    ]
}
fn extra<E: Elem>(st: St, n: usize, k: u64) -> Result<u64, Fail> {
    reset();
    let calls;
    {
        let d = start::<E>(st.0, st.1, st.2, st.3);
        let mut m = d.m;
        let (name, f) = extras::<E>()[n];
        arm(k);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut m)));
        let (c, fired) = disarm();
        calls = c;
        ensure!(!fired || r.is_err(), "{name} swallows the panic of user call {k}");
        error().map_err(|e| Fail::from(format!("{name}, panic in user call {k}: {e}")))?;
        drop(survivor(m, name, if k == 0 { &[] } else { POSTS[(k % 3) as usize] })?);
    }
    error()?;
    Ok(calls)
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    let d = if th { 3 } else { 2 };
    for (o, r, c) in shapes(d).into_iter().chain([(Ord_::R, 2, 3), (Ord_::C, 2, 3), (Ord_::R, 3, 2), (Ord_::C, 3, 2), (Ord_::R, 1, 3), (Ord_::C, 1, 3), (Ord_::R, 3, 1), (Ord_::C, 3, 1)]) {
        for slack in [false, true] {
            let st = (o, r, c, slack);
            let v = ops::full(o, r, c, d.max(r).max(c), true);
            for v in v.chunks(50) {
                let v = v.to_vec();
                cx.case(|| format!("{} operations from {st:?} (Tr24), {:?}..", v.len(), v[0]), |s| all::<Tr>(st, &v, s));
                if !slack {
                    cx.case(|| format!("{} operations from {st:?} (TrZ0), {:?}..", v.len(), v[0]), |s| all::<TrZ>(st, &v, s));
                    cx.case(|| format!("{} operations from {st:?} (Tr8), {:?}..", v.len(), v[0]), |s| all::<Tr8>(st, &v, s));
                    cx.case(|| format!("{} operations from {st:?} (Tr88), {:?}..", v.len(), v[0]), |s| all::<TrB>(st, &v, s));
                }
            }
            for k in 1..=(r * c + 1) as u64 {
                cx.case(|| format!("drop of {st:?}, panic in drop {k}"), |s| {
                    s.transition();
                    dropping::<Tr>(st, k)?;
                    dropping::<TrZ>(st, k)
                });
            }
            for n in 0..extras::<Tr>().len() {
                cx.case(|| format!("{} from {st:?}", extras::<Tr>()[n].0), |s| {
                    let calls = extra::<Tr>(st, n, 0)?;
                    for k in 1..=calls {
                        extra::<Tr>(st, n, k)?;
                        s.transition();
                        s.add("faults", 1);
                        s.state((st, n, k));
                    }
                    let calls = extra::<TrZ>(st, n, 0)?;
                    for k in 1..=calls {
                        extra::<TrZ>(st, n, k)?;
                        s.transition();
                        s.add("faults", 1);
                    }
                    Ok(())
                });
            }
        }
    }
    // larger matrices, every fault of the medium alphabet
    for (r, c) in [(4, 4), (3, 5), (5, 3), (1, 16), (16, 1), (2, 9)] {
        for o in ORDERS {
            let st = (o, r, c, false);
            let mut v = ops::medium(true);
            v.extend([Op::Resize(c, r + 1), Op::Resize(r + 2, c), Op::Resize(r, c - 1), Op::Resize(1, 3), Op::Overwrite(Ord_::C, r, c), Op::Overwrite(Ord_::R, c, r), Op::Overwrite(Ord_::R, 9, 9)]);
            for p in ORDERS {
                v.extend([Op::Elementwise(0, p, r, c), Op::Elementwise(1, p, r, c), Op::Elementwise(2, p, r, c), Op::Named(0, 1, p, r, c), Op::Operator(true, 0, p, r, c), Op::Operator(false, 4, p, r, c)]);
                v.extend([Op::Multiply(0, p, c, 3), Op::Multiply(1, p, c, 2), Op::Multiply(4, p, c, 2), Op::MulLike(p, c, 3), Op::Compare(p, r, c, true), Op::CloneFrom(p, r, c), Op::CloneFrom(p, c, r + 2)]);
            }
            for v in v.chunks(20) {
                let v = v.to_vec();
                cx.case(|| format!("{} operations from {st:?}, {:?}..", v.len(), v[0]), |s| all::<Tr>(st, &v, s));
            }
        }
    }
    // long matrices, every fault of the operations that walk the elements
    for (r, c) in if th { vec![(1, 70), (70, 1), (5, 13), (13, 5), (9, 9), (3, 40), (40, 3), (1, 300), (300, 1), (17, 9)] } else { vec![(1, 70), (70, 1), (5, 13), (9, 8)] } {
        for o in ORDERS {
            let st = (o, r, c, r == 5);
            let n = r * c;
            let p = o.flip();
            let v = [
                Op::Resize(r, c / 2), Op::Resize(r / 2, c), Op::Resize(c, r + 1), Op::Resize(r + 2, c), Op::Clear, Op::Apply, Op::Map, Op::MapRef, Op::ReadAll, Op::RowsMut, Op::ColsMut, Op::RowsMutMixed,
                Op::ElemsMut, Op::ElemsMutIdx, Op::IntoIter(n / 2, 1), Op::IntoIter(3, n / 2), Op::IntoIterSome(1, n / 2), Op::IntoIterIdx, Op::CloneReplace, Op::CloneFrom(p, r, c), Op::CloneFrom(p, c, r / 2), Op::Take,
                Op::Overwrite(p, r, c), Op::Overwrite(o, r + 1, c + 1), Op::Scalar(0), Op::Scalar(1), Op::Scalar(2), Op::Neg(true), Op::Neg(false), Op::Compare(p, r, c, true), Op::Contains(false),
                Op::WithDefault(r, c), Op::WithValue(r, c), Op::WithInit(r, c), Op::Rebuild(0), Op::Rebuild(2), Op::Rebuild(4), Op::Transpose, Op::Switch,
                Op::Elementwise(0, p, r, c), Op::Elementwise(1, p, r, c), Op::Elementwise(2, p, r, c), Op::Operator(true, 0, p, r, c), Op::Operator(false, 5, p, r, c), Op::Multiply(0, p, c, 2), Op::MulLike(p, c, 1),
                Op::ParMap, Op::ParApply, Op::IntoPar(true), Op::IntoPar(false),
            ];
            for op in v {
                cx.case(|| format!("{op:?} from {st:?} (Tr24)"), |s| all::<Tr>(st, &[op], s));
                if th {
                    cx.case(|| format!("{op:?} from {st:?} (TrZ0)"), |s| all::<TrZ>(st, &[op], s));
                }
            }
        }
    }
    // a second fault in a second operation
    let core = ops::core();
    let seconds: Vec<Op> = [Op::Resize(3, 3), Op::Resize(1, 1), Op::Map, Op::Apply, Op::CloneReplace, Op::Overwrite(Ord_::C, 2, 3), Op::Clear, Op::RowsMut, Op::Multiply(0, Ord_::C, 3, 2), Op::IntoIter(1, 1), Op::Rebuild(2), Op::Take].to_vec();
    for st in [(Ord_::R, 2, 3, false), (Ord_::C, 2, 3, false), (Ord_::C, 2, 2, true), (Ord_::R, 3, 1, false)] {
        for op in if th { ops::medium(false) } else { core.clone() } {
            cx.case(|| format!("two faults: {op:?} from {st:?}"), |s| pairs(st, op, &seconds, s));
        }
    }
    // parallel operations under every schedule
    let par = [Op::ParApply, Op::ParMap, Op::ParMapRef, Op::ParElemsMut(true), Op::ParElemsMut(false), Op::IntoPar(true), Op::IntoPar(false)];
    for (st, pool, bound) in [
        ((Ord_::R, 2, 2, false), 2, 2),
        ((Ord_::C, 3, 1, false), 2, 2),
        ((Ord_::C, 2, 2, true), 3, 1),
        ((Ord_::R, 1, 2, false), 3, 2),
    ]
    .into_iter()
    .chain(if th { vec![((Ord_::R, 2, 3, false), 2, 2), ((Ord_::C, 2, 3, false), 3, 1), ((Ord_::R, 2, 2, false), 2, 3)] } else { vec![] })
    {
        for op in par {
            cx.case(|| format!("{op:?} from {st:?} on every schedule of {pool} workers"), |s| parallel::<Tr>(st, op, pool, bound, s));
            if st.1 * st.2 < 4 {
                cx.case(|| format!("{op:?} from {st:?} on every schedule of {pool} workers (TrZ0)"), |s| parallel::<TrZ>(st, op, pool, bound, s));
            }
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C02",
            level: "fault_enumeration",
            rule: "a case is (element type, state, operation, number k of the user-code call that panics [, second operation and k]); every k from 1 to the number of calls the operation makes is executed; afterwards every surviving matrix is checked for coherence, read through every view, driven through six more operations in lock-step with the reference model, and dropped, with a ledger of every element",
            bounds: |t| {
                format!(
                    "every operation x argument from every (order, shape <= {}, slack) and 8 more shapes, tracked and zero-sized elements; 150 operations from 12 larger states; 49 operations from {} states of {} elements; two faults over {} x 12 operations from 4 states; parallel operations on every schedule of 2-3 workers with at most {} preemptions",
                    if t { 3 } else { 2 },
                    if t { 20 } else { 8 },
                    if t { "up to 300" } else { "65-72" },
                    if t { 130 } else { 38 },
                    if t { 3 } else { 2 }
                )
            },
            assumptions: &["one panic at a time (a second panic during unwinding aborts by the language's rules)", "leaks are allowed, as stated"],
            stall_s: 60,
        },
        body,
    )
}
