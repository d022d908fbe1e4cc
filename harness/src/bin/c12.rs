//! C12: elementwise operations on every pair of shapes and orders, with
//! closures and operator types that record what met what.
use matreex::{Error, Matrix};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::ops::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Left operand, right operand and result are three different types.
#[derive(Clone)]
struct L<E>(E);
#[derive(Clone)]
struct R<E>(E);
struct U<E>(E);

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $code:expr;)*) => {$(
        impl<E: Elem> $tr<R<E>> for L<E> {
            type Output = U<E>;
            fn $f(self, r: R<E>) -> U<E> { U(E::make(mix($code, self.0.val(), r.0.val()))) }
        }
        impl<E: Elem> $tra<R<E>> for L<E> {
            fn $fa(&mut self, r: R<E>) { let v = mix($code, self.0.val(), r.0.val()); self.0.set(v) }
        }
    )*};
}
ops!(
    Add add AddAssign add_assign ADD;
    Sub sub SubAssign sub_assign SUB;
    Mul mul MulAssign mul_assign MUL;
    Div div DivAssign div_assign DIV;
    Rem rem RemAssign rem_assign REM;
);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    Generic,
    GenericConsume,
    GenericAssign,
    /// named method for the operator code
    Named(u32),
    NamedConsume(u32),
    NamedAssign(u32),
    /// operator: code, lhs by reference, rhs by reference
    Op(u32, bool, bool),
    /// compound assignment: code, rhs by reference
    OpAssign(u32, bool),
}
fn forms() -> Vec<Form> {
    let mut v = vec![Form::Generic, Form::GenericConsume, Form::GenericAssign];
    for c in [ADD, SUB, MUL, DIV, REM] {
        v.extend([Form::Named(c), Form::NamedConsume(c), Form::NamedAssign(c)]);
    }
    for c in [ADD, SUB] {
        for l in [false, true] {
            for r in [false, true] {
                v.push(Form::Op(c, l, r));
            }
        }
        v.push(Form::OpAssign(c, false));
        v.push(Form::OpAssign(c, true));
    }
    v
}

fn left<E: Elem>(x: &M) -> Matrix<L<E>> {
    x.build::<E>().map(L).unwrap_or_else(|_| unreachable!())
}
fn right<E: Elem>(x: &M) -> Matrix<R<E>> {
    x.build::<E>().map(R).unwrap_or_else(|_| unreachable!())
}
fn check<T, E: Elem>(m: &Matrix<T>, get: impl Fn(&T) -> &E, x: &M, who: &str) -> Res {
    coherent(m)?;
    ensure!(m.nrows() == x.nr && m.ncols() == x.nc, "{who} is {}x{}, expected {}x{}", m.nrows(), m.ncols(), x.nr, x.nc);
    ensure!(Ord_::of(m.order()) == x.order, "{who} is {:?}, expected {:?}", m.order(), x.order);
    for r in 0..x.nr {
        for c in 0..x.nc {
            let v = get(&m[(r, c)]).val();
            ensure!(v == x.rows[r][c], "{who} has {v} at ({r}, {c}), expected {}", x.rows[r][c]);
        }
    }
    Ok(())
}

type Out<T> = Result<T, Option<Error>>;

fn call<E: Elem>(form: Form, a: &M, b: &M, s: &mut Stats) -> Res {
    reset();
    {
        let conformable = (a.nr, a.nc) == (b.nr, b.nc);
        let l = left::<E>(a);
        let r = right::<E>(b);
        ensure!(l.is_elementwise_operation_conformable(&r) == conformable, "is_elementwise_operation_conformable is {}", !conformable);
        ensure!(
            match l.ensure_elementwise_operation_conformable(&r) {
                Ok(m) => conformable && std::ptr::eq(m, &l),
                Err(e) => !conformable && e == Error::ShapeNotConformable,
            },
            "ensure_elementwise_operation_conformable wrong"
        );
        s.transitions(3);
        let laddr: Vec<usize> = l.iter_elements().map(|e| e as *const L<E> as usize).collect();
        let rids: Vec<u64> = r.iter_elements().map(|e| e.0.id()).collect();
        let lids: Vec<u64> = l.iter_elements().map(|e| e.0.id()).collect();
        let want = |code: u32| {
            let mut w = a.clone();
            for i in 0..a.nr {
                for j in 0..a.nc {
                    w.rows[i][j] = E::norm(mix(code, a.rows[i][j], if conformable { b.rows[i][j] } else { 0 }));
                }
            }
            w
        };
        // closure call log: left value, left id, right value, right address
        let log: std::cell::RefCell<Vec<(u32, u64, u32, usize)>> = Default::default();
        let mut l = Some(l);
        let mut r = Some(r);
        let mut new: Out<Option<Matrix<U<E>>>> = Ok(None);
        let mut code = FN2;
        let addr = |y: &R<E>| y as *const R<E> as usize;
        macro_rules! caught {
            ($e:expr) => {
                catch_unwind(AssertUnwindSafe(|| $e)).map_err(|_| None)
            };
        }
        macro_rules! by_code {
            ($c:expr, $l:expr, $r:expr, $a:ident $b:ident $d:ident $e:ident $f:ident) => {
                match $c {
                    ADD => $l.$a($r),
                    SUB => $l.$b($r),
                    MUL => $l.$d($r),
                    DIV => $l.$e($r),
                    _ => $l.$f($r),
                }
            };
        }
        let mut in_place = false;
        match form {
            Form::Generic => {
                let (l, r) = (l.as_ref().unwrap(), r.as_ref().unwrap());
                let f = |x: &L<E>, y: &R<E>| {
                    log.borrow_mut().push((x.0.val(), x.0.id(), y.0.val(), addr(y)));
                    U(E::make(mix(FN2, x.0.val(), y.0.val())))
                };
                new = l.elementwise_operation(r, f).map(Some).map_err(Some);
            }
            Form::GenericConsume => {
                let f = |x: L<E>, y: &R<E>| {
                    log.borrow_mut().push((x.0.val(), x.0.id(), y.0.val(), addr(y)));
                    U(E::make(mix(FN2, x.0.val(), y.0.val())))
                };
                new = l.take().unwrap().elementwise_operation_consume_self(r.as_ref().unwrap(), f).map(Some).map_err(Some);
            }
            Form::GenericAssign => {
                in_place = true;
                let f = |x: &mut L<E>, y: &R<E>| {
                    log.borrow_mut().push((x.0.val(), x.0.id(), y.0.val(), addr(y)));
                    let v = mix(FN2, x.0.val(), y.0.val());
                    x.0.set(v)
                };
                let m = l.as_mut().unwrap();
                let p = m as *const _;
                match m.elementwise_operation_assign(r.as_ref().unwrap(), f) {
                    Ok(q) => ensure!(std::ptr::eq(p, q), "returns another matrix"),
                    Err(e) => new = Err(Some(e)),
                }
            }
            Form::Named(c) => {
                code = c;
                let (l, r) = (l.as_ref().unwrap(), r.as_ref().unwrap());
                new = by_code!(c, l, r, elementwise_add elementwise_sub elementwise_mul elementwise_div elementwise_rem).map(Some).map_err(Some);
            }
            Form::NamedConsume(c) => {
                code = c;
                let (l, r) = (l.take().unwrap(), r.as_ref().unwrap());
                new = by_code!(c, l, r, elementwise_add_consume_self elementwise_sub_consume_self elementwise_mul_consume_self elementwise_div_consume_self elementwise_rem_consume_self)
                    .map(Some)
                    .map_err(Some);
            }
            Form::NamedAssign(c) => {
                code = c;
                in_place = true;
                let (l, r) = (l.as_mut().unwrap(), r.as_ref().unwrap());
                if let Err(e) = by_code!(c, l, r, elementwise_add_assign elementwise_sub_assign elementwise_mul_assign elementwise_div_assign elementwise_rem_assign) {
                    new = Err(Some(e));
                }
            }
            Form::Op(c, lr, rr) => {
                code = c;
                let add = c == ADD;
                new = match (lr, rr) {
                    (false, false) => {
                        let (l, r) = (l.take().unwrap(), r.take().unwrap());
                        caught!(if add { l + r } else { l - r })
                    }
                    (false, true) => {
                        let (l, r) = (l.take().unwrap(), r.as_ref().unwrap());
                        caught!(if add { l + r } else { l - r })
                    }
                    (true, false) => {
                        let (l, r) = (l.as_ref().unwrap(), r.take().unwrap());
                        caught!(if add { l + r } else { l - r })
                    }
                    (true, true) => {
                        let (l, r) = (l.as_ref().unwrap(), r.as_ref().unwrap());
                        caught!(if add { l + r } else { l - r })
                    }
                }
                .map(Some);
            }
            Form::OpAssign(c, rr) => {
                code = c;
                in_place = true;
                let add = c == ADD;
                let l = l.as_mut().unwrap();
                let o: Out<()> = if rr {
                    let r = r.as_ref().unwrap();
                    caught!(if add { *l += r } else { *l -= r })
                } else {
                    let r = r.take().unwrap();
                    caught!(if add { *l += r } else { *l -= r })
                };
                if let Err(e) = o {
                    new = Err(e);
                }
            }
        }
        s.transition();
        let expect = want(code);
        match (&new, conformable) {
            (Ok(None), true) => ensure!(in_place, "no result"),
            (Ok(Some(m)), true) => check(m, |e| &e.0, &expect, "the result")?,
            (Ok(_), false) => bail!("accepts {}x{} with {}x{}", a.nr, a.nc, b.nr, b.nc),
            (Err(e), true) => bail!("fails with {e:?} ({}) for equal shapes", last_panic()),
            (Err(e), false) => ensure!(e.is_none() || *e == Some(Error::ShapeNotConformable), "fails with {e:?}"),
        }
        if let Some(l) = &l {
            check(l, |e| &e.0, if in_place && conformable { &expect } else { a }, "the left operand")?;
            let ids: Vec<u64> = l.iter_elements().map(|e| e.0.id()).collect();
            let ad: Vec<usize> = l.iter_elements().map(|e| e as *const L<E> as usize).collect();
            ensure!(ids == lids && ad == laddr, "elements of the left operand were replaced");
        }
        if let Some(r) = &r {
            check(r, |e| &e.0, b, "the right operand")?;
            let ids: Vec<u64> = r.iter_elements().map(|e| e.0.id()).collect();
            ensure!(ids == rids, "elements of the right operand were replaced");
        }
        if matches!(form, Form::Generic | Form::GenericConsume | Form::GenericAssign) {
            let mut got = log.into_inner();
            let r = r.as_ref().unwrap();
            let mut exp = vec![];
            if conformable {
                for (k, (i, j)) in a.positions().into_iter().enumerate() {
                    exp.push((a.rows[i][j], lids[k], b.rows[i][j], addr(&r[(i, j)])));
                }
            }
            got.sort();
            exp.sort();
            ensure!(got == exp, "closure calls (left value, left id, right value, right address) {got:?}, expected {exp:?}");
        }
        error()?;
    }
    Ok(finish()?)
}

/// Longer shapes with plain integers, every form with subtraction; and every
/// near miss of the shape is refused by every form.
fn long(r: usize, c: usize, oa: Ord_, ob: Ord_, s: &mut Stats) -> Res {
    let f = |i: usize, j: usize| (i * 7919 + j * 104729 + 5) as i64;
    let g = |i: usize, j: usize| (i * 15485863 + j * 32452843 + 3) as i64;
    let mk = |r: usize, c: usize, o: Ord_, f: &dyn Fn(usize, usize) -> i64| {
        let mut m = Matrix::with_initializer((r, c), |i| f(i.row, i.col)).unwrap();
        m.set_order(o.real());
        m
    };
    let (a, b) = (mk(r, c, oa, &f), mk(r, c, ob, &g));
    s.state(("long", r, c, oa, ob));
    let ok = |m: &Matrix<i64>, w: &dyn Fn(usize, usize) -> i64, what: &str| -> Res {
        ensure!((m.nrows(), m.ncols(), m.size()) == (r, c, r * c) && Ord_::of(m.order()) == oa, "{what}: {:?}-major {}x{}", m.order(), m.nrows(), m.ncols());
        for i in 0..r {
            for j in 0..c {
                ensure!(m[(i, j)] == w(i, j), "{what}: ({i}, {j}) is {}, expected {}", m[(i, j)], w(i, j));
            }
        }
        Ok(())
    };
    let sub = |i: usize, j: usize| f(i, j) - g(i, j);
    let mixed = |i: usize, j: usize| f(i, j) * 3 - g(i, j) * 5;
    s.transitions(11);
    ok(&a.elementwise_sub(&b).map_err(|e| format!("{e:?}"))?, &sub, "elementwise_sub")?;
    ok(&a.clone().elementwise_sub_consume_self(&b).map_err(|e| format!("{e:?}"))?, &sub, "elementwise_sub_consume_self")?;
    let mut d = a.clone();
    d.elementwise_sub_assign(&b).map_err(|e| format!("{e:?}"))?;
    ok(&d, &sub, "elementwise_sub_assign")?;
    ok(&(&a - &b), &sub, "&a - &b")?;
    ok(&(a.clone() - b.clone()), &sub, "a - b")?;
    let mut d = a.clone();
    d -= &b;
    ok(&d, &sub, "-=")?;
    ok(&(&a + &b), &|i, j| f(i, j) + g(i, j), "&a + &b")?;
    let mut d = a.clone();
    d += b.clone();
    ok(&d, &|i, j| f(i, j) + g(i, j), "+=")?;
    let mut n = 0;
    let o = a.elementwise_operation(&b, |x, y| {
        n += 1;
        x * 3 - y * 5
    });
    ok(&o.map_err(|e| format!("{e:?}"))?, &mixed, "elementwise_operation")?;
    let o = a.clone().elementwise_operation_consume_self(&b, |x, y| {
        n += 1;
        x * 3 - y * 5
    });
    ok(&o.map_err(|e| format!("{e:?}"))?, &mixed, "elementwise_operation_consume_self")?;
    let mut d = a.clone();
    d.elementwise_operation_assign(&b, |x, y| {
        n += 1;
        *x = *x * 3 - y * 5
    })
    .map_err(|e| format!("{e:?}"))?;
    ok(&d, &mixed, "elementwise_operation_assign")?;
    ensure!(n == 3 * r * c, "{n} closure calls for three operations on {} elements", r * c);
    ensure!((0..r).all(|i| (0..c).all(|j| a[(i, j)] == f(i, j) && b[(i, j)] == g(i, j))), "an operand changed");
    // near misses
    let mut miss = vec![(c, r), (r + 1, c), (r, c + 1), (r + 1, c + 1), (r * c, 1), (1, r * c)];
    if r > 0 {
        miss.push((r - 1, c));
        miss.push((r - 1, c + 1));
    }
    if c > 0 {
        miss.push((r, c - 1));
        miss.push((r + 1, c - 1));
    }
    for q in [2, 3, 4] {
        if r % q == 0 {
            miss.push((r / q, c * q));
        }
        if c % q == 0 {
            miss.push((r * q, c / q));
        }
    }
    miss.retain(|&m| m != (r, c) && m.0 * m.1 <= 1 << 17);
    for (p, q) in miss {
        let b = mk(p, q, ob, &g);
        let e = Some(Error::ShapeNotConformable);
        let mut d = a.clone();
        let bad = a.is_elementwise_operation_conformable(&b)
            || a.elementwise_operation(&b, |x, _| *x).err() != e
            || a.clone().elementwise_operation_consume_self(&b, |x, _| x).err() != e
            || d.elementwise_operation_assign(&b, |x, _| *x = 0).err() != e
            || d.elementwise_add_assign(&b).err() != e
            || a.elementwise_mul(&b).err() != e
            || (r * c < 2000 && catch_unwind(AssertUnwindSafe(|| &a - &b)).is_ok())
            || (r * c < 2000 && catch_unwind(AssertUnwindSafe(|| d -= &b)).is_ok());
        s.transitions(8);
        ensure!(!bad, "{r}x{c} and {p}x{q} are not refused");
        ensure!(d == a, "a refused operation changed its left operand");
    }
    Ok(())
}

/// Conformability of astronomically large zero-sized matrices.
fn huge(a: (usize, usize), b: (usize, usize), oa: Ord_, ob: Ord_, s: &mut Stats) -> Res {
    let make = |x: (usize, usize), o: Ord_| {
        let mut m = Matrix::from_row(vec![ZA; x.0 * x.1]);
        m.reshape(x).unwrap();
        m.set_order(o.real());
        m
    };
    let (mut l, r) = (make(a, oa), make(b, ob));
    ensure!(l.is_elementwise_operation_conformable(&r) == (a == b), "conformable {}", a != b);
    ensure!(l.ensure_elementwise_operation_conformable(&r).is_ok() == (a == b), "ensure conformable {}", a != b);
    if a != b {
        let e = Some(Error::ShapeNotConformable);
        ensure!(l.elementwise_operation(&r, |_, _| ()).err() == e, "elementwise_operation");
        ensure!(l.elementwise_operation_assign(&r, |_, _| ()).err() == e, "elementwise_operation_assign");
        ensure!(l.elementwise_operation_consume_self(&r, |_, _| ()).err() == e, "elementwise_operation_consume_self");
    }
    s.transitions(2);
    s.state((a, b, oa, ob));
    Ok(())
}

fn main() {
    run(
        Meta {
            prop: "C12",
            level: "model_checking",
            rule: "every pair of operand shapes and storage orders in the bound times every form (3 generic variants, 15 named methods, 8 operators, 4 compound assignments), on the real code over a free algebra with distinct left/right/result types; argument pairs, results, operands and drops compared position by position",
            bounds: |t| {
                format!(
                    "all pairs of shapes up to {0}x{0} plus 1xn/nx1 up to {1} and equal-size reshapes (2x6, 3x4, ...); integers on all shapes up to {2} squared and about 22 longer ones with up to 16 near misses each; 4 order pairs; 30 forms; element types 24-byte tracked, zero-sized tracked, 1-byte, 16-byte; conformability of zero-sized matrices up to usize::MAX elements",
                    if t { 6 } else { 4 },
                    if t { 40 } else { 12 },
                    if t { 48 } else { 24 }
                )
            },
            assumptions: &[],
            stall_s: 60,
        },
        |cx| {
            let t = cx.thorough;
            let d = if t { 6 } else { 4 };
            let mut shapes = vec![];
            for r in 0..=d {
                for c in 0..=d {
                    shapes.push((r, c));
                }
            }
            let mut pairs: Vec<((usize, usize), (usize, usize))> = shapes.iter().flat_map(|a| shapes.iter().map(move |b| (*a, *b))).collect();
            let twelve = [(1, 12), (12, 1), (2, 6), (6, 2), (3, 4), (4, 3)];
            pairs.extend(twelve.iter().flat_map(|a| twelve.iter().map(move |b| (*a, *b))));
            let extra = [(0, 7), (7, 0), (5, 5), (4, 7), (7, 4), (1, if t { 40 } else { 9 })];
            pairs.extend(extra.iter().flat_map(|a| extra.iter().map(move |b| (*a, *b))));
            for ((ar, ac), (br, bc)) in pairs {
                for oa in ORDERS {
                    for ob in ORDERS {
                        let a = M::numbered(oa, ar, ac, 0);
                        let b = M::numbered(ob, br, bc, 100);
                        for f in forms() {
                            macro_rules! go {
                                ($($t:ty)*) => {$(
                                    cx.case(
                                        || format!("{f:?}: {oa:?}-major {ar}x{ac} with {ob:?}-major {br}x{bc} of {}", <$t>::NAME),
                                        |s| {
                                            s.state((f, oa, ob, ar, ac, br, bc, <$t>::NAME));
                                            call::<$t>(f, &a.clone().norm::<$t>(), &b.clone().norm::<$t>(), s)
                                        },
                                    );
                                )*};
                            }
                            go!(Tr TrZ P1 P8 TrB);
                            if t {
                                go!(P16);
                            }
                        }
                    }
                }
            }
            let lim = if t { usize::MAX } else { 150_000 };
            for (r, c) in sweep(2, if t { 48 } else { 24 }).into_iter().chain(BIG.into_iter().chain(HUGE).filter(|s| s.0 * s.1 < lim)) {
                for oa in ORDERS {
                    for ob in ORDERS {
                        cx.case(|| format!("integers, {oa:?}-major with {ob:?}-major {r}x{c} and near misses"), |s| long(r, c, oa, ob, s));
                    }
                }
            }
            let big = usize::MAX;
            let hs = [(1, big), (big, 1), (3, big / 3), (big / 3, 3), (5, big / 5), (0, big), (big, 0), (0, 0), (0, 1), (1 << 32, (1 << 32) - 1), ((1 << 32) - 1, 1 << 32)];
            for a in hs {
                for b in hs {
                    for oa in ORDERS {
                        for ob in ORDERS {
                            cx.soft(|| format!("zero-sized {oa:?}-major {a:?} with {ob:?}-major {b:?}"), move |s| huge(a, b, oa, ob, s));
                        }
                    }
                }
            }
        },
    )
}
