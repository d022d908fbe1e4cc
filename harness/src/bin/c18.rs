//! C18: every macro-generated scalar operator form for all 14 primitives, over
//! boundary values (all values for the 8-bit types), against the primitive op.
use matreex::{Matrix, Order};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

/// Whether integer overflow panics in this build (else it wraps).
const CHECKED: bool = cfg!(debug_assertions);

trait Prim: Copy + Debug + PartialEq + 'static {
    const NAME: &'static str;
    /// None: the primitive operation panics
    fn op(op: Op, a: Self, b: Self) -> Option<Self>;
    fn same(self, o: Self) -> bool;
    fn values() -> Vec<Self>;
    fn forms() -> Vec<Form<Self>>;
    fn neg(self) -> Option<Self>;
    #[allow(clippy::type_complexity)]
    fn negs() -> Vec<(&'static str, fn(&Matrix<Self>) -> Matrix<Self>)>;
}
struct Form<T> {
    op: Op,
    name: &'static str,
    scalar_left: bool,
    assign: bool,
    f: fn(&mut Matrix<T>, T) -> Matrix<T>,
}

macro_rules! forms {
    ($t:ty; $($op:ident $o:tt $oa:tt)*) => {
        vec![$(
            Form { op: Op::$op, name: "M<T> op T", scalar_left: false, assign: false, f: |m, s| m.clone() $o s },
            Form { op: Op::$op, name: "M<T> op &T", scalar_left: false, assign: false, f: |m, s| m.clone() $o &s },
            Form { op: Op::$op, name: "&M<T> op T", scalar_left: false, assign: false, f: |m, s| &*m $o s },
            Form { op: Op::$op, name: "&M<T> op &T", scalar_left: false, assign: false, f: |m, s| &*m $o &s },
            Form { op: Op::$op, name: "T op M<T>", scalar_left: true, assign: false, f: |m, s| s $o m.clone() },
            Form { op: Op::$op, name: "&T op M<T>", scalar_left: true, assign: false, f: |m, s| &s $o m.clone() },
            Form { op: Op::$op, name: "T op &M<T>", scalar_left: true, assign: false, f: |m, s| s $o &*m },
            Form { op: Op::$op, name: "&T op &M<T>", scalar_left: true, assign: false, f: |m, s| &s $o &*m },
            Form { op: Op::$op, name: "M<&T> op T", scalar_left: false, assign: false, f: |m, s| refs(m) $o s },
            Form { op: Op::$op, name: "M<&T> op &T", scalar_left: false, assign: false, f: |m, s| refs(m) $o &s },
            Form { op: Op::$op, name: "&M<&T> op T", scalar_left: false, assign: false, f: |m, s| &refs(m) $o s },
            Form { op: Op::$op, name: "&M<&T> op &T", scalar_left: false, assign: false, f: |m, s| &refs(m) $o &s },
            Form { op: Op::$op, name: "T op M<&T>", scalar_left: true, assign: false, f: |m, s| s $o refs(m) },
            Form { op: Op::$op, name: "&T op M<&T>", scalar_left: true, assign: false, f: |m, s| &s $o refs(m) },
            Form { op: Op::$op, name: "T op &M<&T>", scalar_left: true, assign: false, f: |m, s| s $o &refs(m) },
            Form { op: Op::$op, name: "&T op &M<&T>", scalar_left: true, assign: false, f: |m, s| &s $o &refs(m) },
            Form { op: Op::$op, name: "M<T> op= T", scalar_left: false, assign: true, f: |m, s| { *m $oa s; m.clone() } },
            Form { op: Op::$op, name: "M<T> op= &T", scalar_left: false, assign: true, f: |m, s| { *m $oa &s; m.clone() } },
        )*]
    };
}
fn refs<T>(m: &Matrix<T>) -> Matrix<&T> {
    m.map_ref(|e| e).unwrap_or_else(|_| unreachable!())
}
macro_rules! common {
    ($t:ty) => {
        const NAME: &'static str = stringify!($t);
        fn forms() -> Vec<Form<$t>> {
            forms!($t; Add + += Sub - -= Mul * *= Div / /= Rem % %=)
        }
    };
}
macro_rules! negs {
    () => {
        vec![
            ("-M<T>", |m| -m.clone()),
            ("-&M<T>", |m| -m),
            ("-M<&T>", |m| -refs(m)),
            ("-&M<&T>", |m| -&refs(m)),
        ]
    };
}
macro_rules! int {
    ($($t:ty, $neg:expr, $negs:expr;)*) => {$(
        impl Prim for $t {
            common!($t);
            fn op(op: Op, a: $t, b: $t) -> Option<$t> {
                match op {
                    Op::Add => if CHECKED { a.checked_add(b) } else { Some(a.wrapping_add(b)) },
                    Op::Sub => if CHECKED { a.checked_sub(b) } else { Some(a.wrapping_sub(b)) },
                    Op::Mul => if CHECKED { a.checked_mul(b) } else { Some(a.wrapping_mul(b)) },
                    Op::Div => a.checked_div(b),
                    Op::Rem => a.checked_rem(b),
                }
            }
            fn same(self, o: $t) -> bool { self == o }
            fn values() -> Vec<$t> {
                if size_of::<$t>() == 1 {
                    return (<$t>::MIN..=<$t>::MAX).collect();
                }
                let mut v: Vec<$t> = (0..=9).collect();
                for k in 0..4 {
                    v.push(<$t>::MIN + k);
                    v.push(<$t>::MAX - k);
                    v.push(<$t>::MAX / 2 - 1 + k);
                    v.push(<$t>::MIN / 2 + k);
                }
                for k in [1 as $t, 2, 3, 7, 10] {
                    v.push((0 as $t).wrapping_sub(k));
                }
                let h = <$t>::BITS / 2;
                v.extend([(1 as $t) << h, ((1 as $t) << h) - 1, ((1 as $t) << h) + 1, 100, 101, 117]);
                v.sort();
                v.dedup();
                v
            }
            fn neg(self) -> Option<$t> { let f: fn($t) -> Option<$t> = $neg; f(self) }
            fn negs() -> Vec<(&'static str, fn(&Matrix<$t>) -> Matrix<$t>)> { $negs }
        }
    )*};
}
int! {
    u8, |_| None, vec![]; u16, |_| None, vec![]; u32, |_| None, vec![]; u64, |_| None, vec![]; u128, |_| None, vec![]; usize, |_| None, vec![];
    i8, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!(); i16, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!(); i32, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!();
    i64, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!(); i128, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!(); isize, |x| if CHECKED { x.checked_neg() } else { Some(x.wrapping_neg()) }, negs!();
}
macro_rules! float {
    ($($t:ident)*) => {$(
        impl Prim for $t {
            common!($t);
            fn op(op: Op, a: $t, b: $t) -> Option<$t> {
                Some(match op {
                    Op::Add => a + b,
                    Op::Sub => a - b,
                    Op::Mul => a * b,
                    Op::Div => a / b,
                    Op::Rem => a % b,
                })
            }
            fn same(self, o: $t) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
            fn values() -> Vec<$t> {
                let mut v = vec![0.0, 1.0, 1.5, 2.0, 2.5, 3.0, 3.75, 7.0, 0.1, 0.3, 1e10, 1e-10, 16777217.0,
                    $t::MAX, $t::MIN_POSITIVE, $t::MIN_POSITIVE / 4.0, $t::from_bits(1), $t::EPSILON, 1.0 + $t::EPSILON, $t::INFINITY, $t::MAX / 2.0];
                let n: Vec<$t> = v.iter().map(|x: &$t| -*x).collect();
                v.extend(n);
                v.push($t::NAN);
                v
            }
            fn neg(self) -> Option<$t> { Some(-self) }
            fn negs() -> Vec<(&'static str, fn(&Matrix<$t>) -> Matrix<$t>)> { negs!() }
        }
    )*};
}
float!(f32 f64);

/// `vals` laid out over a shape of at least that many positions.
fn matrix<T: Prim>(o: Ord_, nr: usize, nc: usize, vals: &[T]) -> (Matrix<T>, Vec<Vec<T>>) {
    let at = |r: usize, c: usize| vals[(r * nc + c) % vals.len()];
    let mut m = Matrix::with_initializer((nr, nc), |i| at(i.row, i.col)).unwrap();
    m.set_order(o.real());
    (m, (0..nr).map(|r| (0..nc).map(|c| at(r, c)).collect()).collect())
}
fn same<T: Prim>(m: &Matrix<T>, rows: &[Vec<T>], o: Order, nr: usize, nc: usize, what: &str, why: impl Fn(usize, usize) -> String) -> Res {
    coherent(m)?;
    ensure!((m.nrows(), m.ncols()) == (nr, nc), "{what}: result is {}x{}, expected {nr}x{nc}", m.nrows(), m.ncols());
    ensure!(m.order() == o, "{what}: result is {:?}", m.order());
    for r in 0..nr {
        for c in 0..nc {
            ensure!(m[(r, c)].same(rows[r][c]), "{what}: {:?} at ({r}, {c}), expected {:?}{}", m[(r, c)], rows[r][c], why(r, c));
        }
    }
    Ok(())
}

fn scalar<T: Prim>(k: usize, t: bool, s: &mut Stats) -> Res {
    let sc = T::values()[k];
    for form in T::forms() {
        let prim = |e: T| if form.scalar_left { T::op(form.op, sc, e) } else { T::op(form.op, e, sc) };
        let vals: Vec<T> = T::values().into_iter().filter(|e| prim(*e).is_some()).collect();
        let ctx = format!("{} {:?} as {}, scalar {sc:?}", T::NAME, form.op, form.name);
        let n = vals.len();
        let mut shapes = vec![(0, 0), (0, 3), (2, 0)];
        if n > 0 {
            shapes.extend([(1, n), (n, 1), (n.div_ceil(3).min(if t { n } else { 12 }), 3), (2, 2)]);
        }
        for (nr, nc) in shapes {
            for o in ORDERS {
                let dummy = [sc];
                let (mut m, rows) = matrix(o, nr, nc, if vals.is_empty() { &dummy } else { &vals });
                let out = match catch_unwind(AssertUnwindSafe(|| (form.f)(&mut m, sc))) {
                    Ok(out) => out,
                    Err(_) => bail!("{ctx}: panics on {nr}x{nc} where the primitive does not: {}", last_panic()),
                };
                let exp: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|e| prim(*e).unwrap()).collect()).collect();
                same(&out, &exp, o.real(), nr, nc, &ctx, |r, c| format!(" for element {:?}", rows[r][c]))?;
                if form.assign {
                    same(&m, &exp, o.real(), nr, nc, &ctx, |_, _| " in place".into())?;
                } else {
                    same(&m, &rows, o.real(), nr, nc, &ctx, |_, _| " in the operand".into())?;
                }
                s.transition();
                s.add("element_operations", (nr * nc) as u64);
            }
        }
        // where the primitive panics (overflow, division by zero) so does the matrix
        let bad: Vec<T> = T::values().into_iter().filter(|e| prim(*e).is_none()).collect();
        for e in bad.iter().take(1).chain(bad.iter().rev().take(1)) {
            let (mut m, _) = matrix(Ord_::R, 2, 1, &[*e]);
            ensure!(catch_unwind(AssertUnwindSafe(|| (form.f)(&mut m, sc))).is_err(), "{ctx}: element {e:?} gives a value, the primitive operation panics");
            s.transition();
        }
        s.state((T::NAME, form.op, form.name, k));
    }
    Ok(())
}

fn negation<T: Prim>(s: &mut Stats) -> Res {
    let vals: Vec<T> = T::values().into_iter().filter(|e| e.neg().is_some()).collect();
    let n = vals.len();
    for (name, f) in T::negs() {
        for (nr, nc) in [(0, 0), (0, 3), (2, 0), (1, n), (n, 1), (n.div_ceil(3), 3), (2, 2)] {
            for o in ORDERS {
                let (m, rows) = matrix(o, nr, nc, &vals);
                let out = f(&m);
                let exp: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|e| e.neg().unwrap()).collect()).collect();
                same(&out, &exp, o.real(), nr, nc, name, |r, c| format!(" for element {:?}", rows[r][c]))?;
                same(&m, &rows, o.real(), nr, nc, name, |_, _| " in the operand".into())?;
                s.transition();
            }
        }
        s.state((T::NAME, name));
    }
    Ok(())
}

/// Long and lopsided matrices of cycling values, one form at a time.
fn long<T: Prim>(t: bool, s: &mut Stats) -> Res {
    let all = T::values();
    let step = (all.len() / 12).max(1);
    for (k, form) in T::forms().into_iter().enumerate() {
        for (b, &(nr, nc)) in BIG.iter().enumerate() {
            // the largest shapes take turns
            if !t && nr * nc > 5000 && (k + b) % 9 != 0 {
                continue;
            }
            // one scalar per (form, shape), chosen so that all of them come up
            let sc = all[(nr * 7 + nc * 3 + form.name.len()) % all.len()];
            let sc = [sc, all[all.len() / 2 + 1], T::op(Op::Div, sc, sc).unwrap_or(sc)];
            for sc in &sc[..if t { 3 } else { 1 }] {
                let sc = *sc;
                let prim = |e: T| if form.scalar_left { T::op(form.op, sc, e) } else { T::op(form.op, e, sc) };
                let vals: Vec<T> = all.iter().copied().step_by(step).filter(|e| prim(*e).is_some()).collect();
                if vals.is_empty() {
                    continue;
                }
                let ctx = format!("{} {:?} as {}, scalar {sc:?}", T::NAME, form.op, form.name);
                for o in ORDERS {
                    let (mut m, rows) = matrix(o, nr, nc, &vals);
                    let out = match catch_unwind(AssertUnwindSafe(|| (form.f)(&mut m, sc))) {
                        Ok(out) => out,
                        Err(_) => bail!("{ctx}: panics on {nr}x{nc} where the primitive does not: {}", last_panic()),
                    };
                    let exp: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|e| prim(*e).unwrap()).collect()).collect();
                    same(&out, &exp, o.real(), nr, nc, &ctx, |r, c| format!(" for element {:?}", rows[r][c]))?;
                    same(&m, if form.assign { &exp } else { &rows }, o.real(), nr, nc, &ctx, |_, _| " afterwards".into())?;
                    s.transition();
                    s.add("element_operations", (nr * nc) as u64);
                }
            }
            s.state((T::NAME, form.op, form.name, "long", nr, nc));
        }
    }
    let vals: Vec<T> = all.iter().copied().filter(|e| e.neg().is_some()).collect();
    for (name, f) in T::negs() {
        for &(nr, nc) in BIG.iter() {
            for o in ORDERS {
                let (m, rows) = matrix(o, nr, nc, &vals);
                let exp: Vec<Vec<T>> = rows.iter().map(|r| r.iter().map(|e| e.neg().unwrap()).collect()).collect();
                same(&f(&m), &exp, o.real(), nr, nc, name, |r, c| format!(" for element {:?}", rows[r][c]))?;
                s.transition();
            }
        }
    }
    Ok(())
}

/// The generic family and negation over user-defined elements.
fn generic<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let sc = (E::make(77), 9u8);
        let scv = sc.0.val();
        let exp = x.map(|v| mix(FN2, v, scv)).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let mut want: Vec<(u32, u64)> = m.iter_elements().map(|e| (e.val(), e.id())).collect();
        want.sort();
        let log = std::cell::RefCell::new(vec![]);
        let note = |e: &E, q: &(E, u8)| {
            log.borrow_mut().push((e.val(), e.id()));
            assert!(std::ptr::eq(q, &sc), "closure got another scalar");
            mix(FN2, e.val(), q.0.val())
        };
        let seen = |w: &str| {
            let mut g = std::mem::take(&mut *log.borrow_mut());
            g.sort();
            ensure!(g == want, "{w}: closure saw {g:?}, elements are {want:?}");
            Ok::<(), Fail>(())
        };
        let c0 = counts().clones;
        let out = m.scalar_operation(&sc, |e, q| E::make(note(e, q))).map_err(|e| format!("{e:?}"))?;
        seen("scalar_operation")?;
        agree(&out, &exp)?;
        agree(&m, &x)?;
        // another element type for the result
        let out = m.scalar_operation(&sc, |e, q| (note(e, q), 1u8)).map_err(|e| format!("{e:?}"))?;
        seen("scalar_operation")?;
        coherent(&out)?;
        agree(&out.map(|p| E::make(p.0)).unwrap(), &exp)?;
        let p = &raw const m;
        let r = m.scalar_operation_assign(&sc, |e, q| {
            let v = note(e, q);
            e.set(v)
        });
        ensure!(std::ptr::eq(p, r), "scalar_operation_assign returns another matrix");
        seen("scalar_operation_assign")?;
        agree(&m, &exp)?;
        let m: Matrix<E> = x.build();
        want = m.iter_elements().map(|e| (e.val(), e.id())).collect();
        want.sort();
        let seen = |w: &str| {
            let mut g = std::mem::take(&mut *log.borrow_mut());
            g.sort();
            ensure!(g == want, "{w}: closure saw {g:?}, elements are {want:?}");
            Ok::<(), Fail>(())
        };
        let out = m.scalar_operation_consume_self(&sc, |e, q| E::make(note(&e, q))).map_err(|e| format!("{e:?}"))?;
        seen("scalar_operation_consume_self")?;
        agree(&out, &exp)?;
        ensure!(counts().clones == c0, "scalar operations clone");
        let neg = x.map(|v| mix(NEG, v, 0)).norm::<E>();
        let m: Matrix<E> = x.build();
        agree(&-&m, &neg)?;
        agree(&m, &x)?;
        agree(&-m, &neg)?;
        s.transitions(6);
        s.state((E::NAME, o, nr, nc));
    }
    Ok(finish()?)
}

fn main() {
    run(
        Meta {
            prop: "C18",
            level: "model_checking",
            rule: "every (primitive type, operator, operand form) instance - 14 x 5 x 18 plus negation - applied to every pair of values of the type's value set (complete for 8-bit types), on several shapes in both orders; each element compared with the primitive operator (bitwise for floats), operands checked unchanged; panicking primitives must panic (overflow wraps in the release build); the generic scalar family over logging closures",
            bounds: |t| format!("value sets: all 256 for u8/i8, 26-43 boundary values for the others, 43 for floats; shapes 0x0, 0x3, 2x0, 1xn, nx1, kx3, 2x2; 24 long and lopsided shapes up to 65,792 elements for every form (in the quick tier the largest ones take turns); generic family on shapes up to {0}x{0} (4 element types), up to {1}x{1} and the long shapes (2)", if t { 9 } else { 4 }, if t { 48 } else { 20 }),
            assumptions: &["wide integer types are covered on boundary values, not on all values"],
            stall_s: 60,
        },
        |cx| {
            let t = cx.thorough;
            macro_rules! each {
                ($($t:ty)*) => {$(
                    for k in 0..<$t as Prim>::values().len() {
                        cx.case(|| format!("{} with scalar {:?}", stringify!($t), <$t as Prim>::values()[k]), |s| scalar::<$t>(k, t, s));
                    }
                    cx.case(|| format!("negation of {}", stringify!($t)), negation::<$t>);
                    cx.case(|| format!("long matrices of {}", stringify!($t)), |s| long::<$t>(t, s));
                )*};
            }
            each!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
            let d = if t { 9 } else { 4 };
            for (nr, nc) in sweep(d, if t { 48 } else { 20 }).into_iter().chain(BIG) {
                for o in ORDERS {
                    cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", Tr::NAME), |s| generic::<Tr>(o, nr, nc, s));
                    cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P1::NAME), |s| generic::<P1>(o, nr, nc, s));
                    cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P8::NAME), |s| generic::<P8>(o, nr, nc, s));
                    cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", TrB::NAME), |s| generic::<TrB>(o, nr, nc, s));
                }
            }
            for (nr, nc) in HUGE {
                for o in ORDERS {
                    cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P4::NAME), |s| generic::<P4>(o, nr, nc, s));
                }
            }
            for (o, nr, nc) in shapes(d) {
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", Tr::NAME), |s| generic::<Tr>(o, nr, nc, s));
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", TrZ::NAME), |s| generic::<TrZ>(o, nr, nc, s));
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P1::NAME), |s| generic::<P1>(o, nr, nc, s));
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P8::NAME), |s| generic::<P8>(o, nr, nc, s));
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", TrB::NAME), |s| generic::<TrB>(o, nr, nc, s));
                cx.case(|| format!("generic family on {o:?}-major {nr}x{nc} of {}", P16::NAME), |s| generic::<P16>(o, nr, nc, s));
            }
        },
    )
}
