//! C11: every product shape, order combination and operand form, with element
//! types that record which factors met, on which side, how often.
use matreex::{Error, Matrix};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::ops::{Add, Mul};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Left and right factors are different types around a tracked element.
#[derive(Clone)]
struct L<E>(E);
#[derive(Clone)]
struct R<E>(E);
/// A formal sum of products.
struct P<E> {
    terms: Vec<(u32, u32)>,
    default: bool,
    _t: E,
}
impl<E: Elem> Default for P<E> {
    fn default() -> Self {
        P { terms: vec![], default: true, _t: E::make(0) }
    }
}
impl<E: Elem> Mul<R<E>> for L<E> {
    type Output = P<E>;
    fn mul(self, r: R<E>) -> P<E> {
        P { terms: vec![(self.0.val(), r.0.val())], default: false, _t: E::make(0) }
    }
}
impl<E: Elem> Add for P<E> {
    type Output = P<E>;
    fn add(mut self, o: P<E>) -> P<E> {
        self.terms.extend(o.terms);
        self.default |= o.default;
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    Multiply,
    OwnOwn,
    OwnRef,
    RefOwn,
    RefRef,
    Like,
}
const FORMS: [Form; 6] = [Form::Multiply, Form::OwnOwn, Form::OwnRef, Form::RefOwn, Form::RefRef, Form::Like];

fn left<E: Elem>(x: &M) -> Matrix<L<E>> {
    x.build::<E>().map(L).unwrap_or_else(|_| unreachable!())
}
fn right<E: Elem>(x: &M) -> Matrix<R<E>> {
    x.build::<E>().map(R).unwrap_or_else(|_| unreachable!())
}
fn operand_unchanged<T, E: Elem>(m: &Matrix<T>, get: impl Fn(&T) -> &E, x: &M, ids: &[u64], who: &str) -> Res {
    coherent(m)?;
    ensure!(m.nrows() == x.nr && m.ncols() == x.nc && Ord_::of(m.order()) == x.order, "{who} operand changed shape or order");
    for ((r, c), id) in x.positions().into_iter().zip(ids) {
        let e = get(&m[(r, c)]);
        ensure!(e.val() == x.rows[r][c] && e.id() == *id, "{who} operand changed at ({r}, {c})");
    }
    Ok(())
}

fn call<E: Elem>(form: Form, a: &M, b: &M, s: &mut Stats) -> Res {
    reset();
    {
        let conformable = a.nc == b.nr;
        let l = left::<E>(a);
        let r = right::<E>(b);
        let lids: Vec<u64> = l.iter_elements().map(|e| e.0.id()).collect();
        let rids: Vec<u64> = r.iter_elements().map(|e| e.0.id()).collect();
        ensure!(l.is_multiplication_like_operation_conformable(&r) == conformable, "is_multiplication_like_operation_conformable wrong");
        let en = l.ensure_multiplication_like_operation_conformable(&r);
        ensure!(
            match en {
                Ok(m) => conformable && std::ptr::eq(m, &l),
                Err(e) => !conformable && e == Error::ShapeNotConformable,
            },
            "ensure_multiplication_like_operation_conformable wrong"
        );
        s.transitions(3);
        if form == Form::Like {
            let mut seen: Vec<(Vec<u32>, Vec<u32>)> = vec![];
            let mut bad = String::new();
            let out = l.multiplication_like_operation(r, |x: &[L<E>], y: &[R<E>]| {
                if x.is_empty() || x.len() != y.len() {
                    bad = format!("slices of lengths {} and {}", x.len(), y.len());
                }
                let k = seen.len() as u32;
                seen.push((x.iter().map(|e| e.0.val()).collect(), y.iter().map(|e| e.0.val()).collect()));
                (k, P::<E> { terms: vec![], default: false, _t: E::make(0) }, false)
            });
            ensure!(bad.is_empty(), "closure received {bad}");
            if !conformable {
                match out {
                    Err(Error::ShapeNotConformable) if seen.is_empty() => {}
                    Err(e) => bail!("{e:?} after {} call(s) for non-conformable operands", seen.len()),
                    Ok(_) => bail!("accepts non-conformable operands"),
                }
            } else {
                let o = match out {
                    Ok(o) => o,
                    Err(e) => bail!("{e:?} for conformable operands"),
                };
                coherent(&o)?;
                ensure!((o.nrows(), o.ncols()) == (a.nr, b.nc), "result is {}x{}", o.nrows(), o.ncols());
                ensure!(Ord_::of(o.order()) == a.order, "result is stored in rhs's order");
                let calls = if a.nc == 0 { 0 } else { a.nr * b.nc };
                ensure!(seen.len() == calls, "{} closure calls for {} elements", seen.len(), calls);
                let mut used = vec![false; seen.len()];
                for i in 0..a.nr {
                    for j in 0..b.nc {
                        let e = &o[(i, j)];
                        if a.nc == 0 {
                            ensure!(e.1.default, "element ({i}, {j}) is not the default");
                            continue;
                        }
                        let k = e.0 as usize;
                        ensure!(!e.1.default && k < used.len() && !used[k], "element ({i}, {j}) is not the result of its own closure call");
                        used[k] = true;
                        let col: Vec<u32> = b.rows.iter().map(|r| r[j]).collect();
                        ensure!(seen[k].0 == a.rows[i], "element ({i}, {j}) computed from left slice {:?}, row is {:?}", seen[k].0, a.rows[i]);
                        ensure!(seen[k].1 == col, "element ({i}, {j}) computed from right slice {:?}, column is {col:?}", seen[k].1);
                    }
                }
            }
        } else {
            let mut keep_l = None;
            let mut keep_r = None;
            // Ok(result) | Err(description)
            let out: Result<Matrix<P<E>>, Option<Error>> = match form {
                Form::Multiply => l.multiply(r).map_err(Some),
                Form::OwnOwn => catch_unwind(AssertUnwindSafe(|| l * r)).map_err(|_| None),
                Form::OwnRef => {
                    let o = catch_unwind(AssertUnwindSafe(|| l * &r)).map_err(|_| None);
                    keep_r = Some(r);
                    o
                }
                Form::RefOwn => {
                    let o = catch_unwind(AssertUnwindSafe(|| &l * r)).map_err(|_| None);
                    keep_l = Some(l);
                    o
                }
                _ => {
                    let o = catch_unwind(AssertUnwindSafe(|| &l * &r)).map_err(|_| None);
                    keep_l = Some(l);
                    keep_r = Some(r);
                    o
                }
            };
            match (out, conformable) {
                (Err(e), false) => ensure!(e.is_none() || e == Some(Error::ShapeNotConformable), "{e:?} for non-conformable operands"),
                (Ok(_), false) => bail!("accepts non-conformable operands"),
                (Err(Some(e)), true) => bail!("{e:?} for conformable operands"),
                (Err(None), true) => bail!("panics for conformable operands: {}", last_panic()),
                (Ok(o), true) => {
                    coherent(&o)?;
                    ensure!((o.nrows(), o.ncols()) == (a.nr, b.nc), "result is {}x{}", o.nrows(), o.ncols());
                    ensure!(Ord_::of(o.order()) == a.order, "result is not stored in lhs's order");
                    for i in 0..a.nr {
                        for j in 0..b.nc {
                            let e = &o[(i, j)];
                            ensure!(e.default == (a.nc == 0), "element ({i}, {j}): {} U::default() with inner dimension {}", if e.default { "contains" } else { "is not" }, a.nc);
                            let mut got = e.terms.clone();
                            let mut want: Vec<_> = (0..a.nc).map(|k| (a.rows[i][k], b.rows[k][j])).collect();
                            got.sort();
                            want.sort();
                            ensure!(got == want, "element ({i}, {j}) sums the products {got:?}, textbook says {want:?}");
                        }
                    }
                }
            }
            if let Some(m) = keep_l {
                operand_unchanged(&m, |e| &e.0, a, &lids, "left")?;
            }
            if let Some(m) = keep_r {
                operand_unchanged(&m, |e| &e.0, b, &rids, "right")?;
            }
        }
        error()?;
    }
    Ok(finish()?)
}

/// Plain integers and floats through all forms, a matrix times itself.
fn plain(n: usize, oa: Ord_, ob: Ord_, s: &mut Stats) -> Res {
    let a = M::new(oa, n, n, |r, c| (r * 5 + c * 3 + 2) as u32);
    let b = M::new(ob, n, n, |r, c| (r * 2 + c * 7 + 1) as u32);
    let build = |x: &M| {
        let mut m = Matrix::with_initializer((n, n), |i| x.rows[i.row][i.col] as i64 - 4).unwrap();
        m.set_order(x.order.real());
        m
    };
    let (p, q) = (build(&a), build(&b));
    let want = |x: &M, y: &M, i: usize, j: usize| (0..n).map(|k| (x.rows[i][k] as i64 - 4) * (y.rows[k][j] as i64 - 4)).sum::<i64>();
    let check = |o: &Matrix<i64>, x: &M, y: &M| {
        coherent(o)?;
        for i in 0..n {
            for j in 0..n {
                ensure!(o[(i, j)] == want(x, y, i, j), "integer product wrong at ({i}, {j}): {} vs {}", o[(i, j)], want(x, y, i, j));
            }
        }
        Ok::<(), Fail>(())
    };
    check(&(&p * &q), &a, &b)?;
    check(&(&p * &p), &a, &a)?;
    check(&(p.clone() * &p), &a, &a)?;
    check(&(&p * p.clone()), &a, &a)?;
    check(&p.clone().multiply(q.clone()).unwrap(), &a, &b)?;
    let f = |m: &Matrix<i64>| m.map_ref(|x| *x as f64).unwrap();
    let o = (f(&p) * f(&q)).map(|x| x as i64).unwrap();
    check(&o, &a, &b)?;
    ensure!(p == build(&a) && q == build(&b), "operand changed");
    s.transitions(6);
    Ok(())
}

/// Long and lopsided products of plain integers.
fn rect(n: usize, k: usize, m: usize, oa: Ord_, ob: Ord_, s: &mut Stats) -> Res {
    let f = |r: usize, c: usize| ((r.wrapping_mul(2654435761) ^ c.wrapping_mul(40503)) % 2003) as i64 - 1001;
    let g = |r: usize, c: usize| ((r.wrapping_mul(97) ^ c.wrapping_mul(2246822519)) % 1999) as i64 - 998;
    let mut a = Matrix::with_initializer((n, k), |i| f(i.row, i.col)).unwrap();
    let mut b = Matrix::with_initializer((k, m), |i| g(i.row, i.col)).unwrap();
    a.set_order(oa.real());
    b.set_order(ob.real());
    let w: Vec<Vec<i64>> = (0..n)
        .map(|i| {
            let row: Vec<i64> = (0..k).map(|x| f(i, x)).collect();
            (0..m).map(|j| (0..k).map(|x| row[x] * g(x, j)).sum()).collect()
        })
        .collect();
    let check = |o: &Matrix<i64>, form: &str| -> Res {
        coherent(o)?;
        ensure!((o.nrows(), o.ncols()) == (n, m) && Ord_::of(o.order()) == oa, "{form}: result is {:?}-major {}x{}", o.order(), o.nrows(), o.ncols());
        for i in 0..n {
            for j in 0..m {
                ensure!(o[(i, j)] == w[i][j], "{form}: element ({i}, {j}) is {}, textbook says {}", o[(i, j)], w[i][j]);
            }
        }
        Ok(())
    };
    s.state(("rect", n, k, m, oa, ob));
    s.transitions(6);
    check(&(&a * &b), "&a * &b")?;
    check(&(a.clone() * &b), "a * &b")?;
    check(&(&a * b.clone()), "&a * b")?;
    check(&(a.clone() * b.clone()), "a * b")?;
    check(&a.clone().multiply(b.clone()).map_err(|e| format!("{e:?}"))?, "multiply")?;
    let mut calls = 0usize;
    let o = a.clone().multiplication_like_operation(b.clone(), |x: &[i64], y: &[i64]| {
        calls += 1;
        assert!(x.len() == k && y.len() == k && k > 0, "slices of {} and {}", x.len(), y.len());
        x.iter().zip(y).map(|(x, y)| x * y).sum::<i64>()
    });
    check(&o.map_err(|e| format!("{e:?}"))?, "multiplication_like_operation")?;
    ensure!(calls == if k == 0 { 0 } else { n * m }, "{calls} closure calls");
    let ok = (0..n).all(|r| (0..k).all(|c| a[(r, c)] == f(r, c))) && (0..k).all(|r| (0..m).all(|c| b[(r, c)] == g(r, c)));
    ensure!(ok && Ord_::of(a.order()) == oa && Ord_::of(b.order()) == ob, "an operand changed");
    Ok(())
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Z;
impl std::ops::Mul for Z {
    type Output = Wide;
    fn mul(self, _: Z) -> Wide {
        Wide([0; 5])
    }
}
impl std::ops::Mul<&Z> for &Z {
    type Output = Wide;
    fn mul(self, _: &Z) -> Wide {
        Wide([0; 5])
    }
}
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Wide([u64; 5]);
impl std::ops::Add for Wide {
    type Output = Wide;
    fn add(self, _: Wide) -> Wide {
        self
    }
}

fn misfit((ar, ac): (usize, usize), oa: Ord_, shapes: &[(usize, usize)], s: &mut Stats) -> Res {
    fn of(o: Ord_, r: usize, c: usize) -> Result<Matrix<Z>, Fail> {
        let mut m = Matrix::from_row(vec![Z; r * c]);
        m.set_order(o.real());
        m.reshape((r, c)).map_err(|e| format!("{e:?}"))?;
        Ok(m)
    }
    for &(br, bc) in shapes {
        if ac == br {
            continue;
        }
        for ob in ORDERS {
            s.transition();
            s.state(("misfit", ar, ac, oa, br, bc, ob));
            let (a, b) = (of(oa, ar, ac)?, of(ob, br, bc)?);
            let wrong = |what: &str, e: Option<Error>| Fail::from(format!("{what} of {ar}x{ac} and {ob:?}-major {br}x{bc} gives {e:?}"));
            let e = of(oa, ar, ac)?.multiply(of(ob, br, bc)?).err();
            ensure!(e == Some(Error::ShapeNotConformable), "{}", wrong("multiply", e).msg);
            let mut calls = 0;
            let e = of(oa, ar, ac)?
                .multiplication_like_operation(of(ob, br, bc)?, |_: &[Z], _: &[Z]| {
                    calls += 1;
                    0u64
                })
                .err();
            ensure!(e == Some(Error::ShapeNotConformable) && calls == 0, "{} after {calls} call(s)", wrong("multiplication_like_operation", e).msg);
            ensure!(!a.is_multiplication_like_operation_conformable(&b), "{}", wrong("is_..._conformable", None).msg);
            ensure!(catch_unwind(AssertUnwindSafe(|| drop(&a * &b))).is_err(), "{}", wrong("&a * &b", None).msg);
            ensure!((a.nrows(), a.ncols(), b.nrows(), b.ncols()) == (ar, ac, br, bc), "{}", wrong("operands", None).msg);
        }
    }
    Ok(())
}

fn main() {
    run(
        Meta {
            prop: "C11",
            level: "model_checking",
            rule: "for every quadruple of operand extents in the bound, every storage-order pair and every operand form, the real product is computed over a formal-sum algebra (distinct left, right and product types that record every factor pair) and each element compared with the textbook multiset; multiplication_like_operation's closure arguments are logged and matched to positions",
            bounds: |t| {
                format!(
                    "lhs n x k, rhs k' x m with n, k, k', m <= {0} (k = k') and <= 3 (k != k'); long vectors up to {1}; integer products for all n, k, m <= {2} and longer ones up to 128x128x128, 300x1x300, 1x65537x1; 4 order pairs; 6 operand forms; element types 24-byte tracked, zero-sized tracked, 1-byte, 16-byte",
                    if t { 9 } else { 6 },
                    if t { 65 } else { 40 },
                    if t { 40 } else { 16 }
                )
            },
            assumptions: &["the order in which the k products of one element are added is not constrained (compared as a multiset)"],
            stall_s: 60,
        },
        |cx| {
            let t = cx.thorough;
            let d = if t { 9 } else { 6 };
            let mut quads = vec![];
            for n in 0..=d {
                for k in 0..=d {
                    for m in 0..=d {
                        quads.push((n, k, k, m));
                    }
                }
            }
            for n in 0..=3 {
                for k in 0..=3 {
                    for k2 in 0..=3 {
                        for m in 0..=3 {
                            if k != k2 {
                                quads.push((n, k, k2, m));
                            }
                        }
                    }
                }
            }
            let long = if t { 65 } else { 40 };
            quads.extend([(1, long, long, 1), (long, 1, 1, long), (2, long, long, 3), (3, 2, 2, long), (long, 2, 2, 3), (long, 0, 0, 2), (2, 0, 0, long), (8, 9, 9, 8), (4, 6, 5, 4), (16, 16, 16, 16), (17, 16, 16, 9), (9, 33, 33, 7)]);
            for (n, k, k2, m) in quads {
                for oa in ORDERS {
                    for ob in ORDERS {
                        let a = M::numbered(oa, n, k, 0);
                        let b = M::numbered(ob, k2, m, 1 << 20);
                        for f in FORMS {
                            macro_rules! go {
                                ($($t:ty)*) => {$(
                                    cx.case(
                                        || format!("{f:?}: {oa:?}-major {n}x{k} times {ob:?}-major {k2}x{m} of {}", <$t>::NAME),
                                        |s| {
                                            s.state((f, oa, ob, n, k, k2, m, <$t>::NAME));
                                            s.transition();
                                            call::<$t>(f, &a.clone().norm::<$t>(), &b.clone().norm::<$t>(), s)
                                        },
                                    );
                                )*};
                            }
                            go!(Tr TrZ P1 P8 P16 TrB);
                        }
                    }
                }
            }
            let e = if t { 40 } else { 16 };
            let mut rects = vec![];
            for n in 0..=e {
                for k in 0..=e {
                    for m in 0..=e {
                        rects.push((n, k, m));
                    }
                }
            }
            for n in 17..=(if t { 140 } else { 66 }) {
                rects.extend([(n, n, n), (n, 1, n), (n, 3, 2), (2, n, 3), (3, 2, n), (1, n, 1), (n, 2, n + 1), (n, n + 1, 2)]);
            }
            rects.extend([(1, 300, 1), (300, 1, 300), (300, 2, 1), (1, 2, 300), (2, 1025, 2), (1025, 2, 2), (2, 2, 1025), (64, 65, 64), (65, 64, 65), (128, 128, 128), (100, 3, 100), (3, 4097, 1), (1, 65537, 1), (257, 1, 256), (256, 2, 257)]);
            for (n, k, m) in rects {
                for oa in ORDERS {
                    for ob in ORDERS {
                        cx.case(|| format!("integers {n}x{k} times {k}x{m}, {oa:?} times {ob:?}"), |s| rect(n, k, m, oa, ob, s));
                    }
                }
            }
            // operands that do not fit, whatever the size of the product they would have
            let ext = [0, 1, 2, 3, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, usize::MAX / 2, usize::MAX - 1, usize::MAX];
            let shapes: Vec<(usize, usize)> = ext.iter().flat_map(|&r| ext.iter().map(move |&c| (r, c))).filter(|(r, c)| r.checked_mul(*c).is_some()).collect();
            for &a in &shapes {
                for oa in ORDERS {
                    cx.case(|| format!("zero-sized {a:?} {oa:?} times every boundary shape that does not fit"), |s| misfit(a, oa, &shapes, s));
                }
            }
            for n in 0..=(if t { 9 } else { 6 }) {
                for oa in ORDERS {
                    for ob in ORDERS {
                        cx.case(|| format!("integers {n}x{n}, {oa:?} times {ob:?}"), |s| plain(n, oa, ob, s));
                    }
                }
            }
        },
    )
}
