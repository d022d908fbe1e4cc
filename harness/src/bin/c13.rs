//! C13: wrapping indices against 128-bit Euclidean remainder.
use matreex::index::MatrixIndex;
use matreex::{Error, Matrix, WrappingIndex};
use mcx::alloc::{lock, paged, regions};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::ensure;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

fn check<E>(m: &mut Matrix<E>, r: isize, c: isize, s: &mut Stats) -> Res {
    let (nr, nc) = (m.nrows(), m.ncols());
    let er = (r as i128).rem_euclid(nr as i128) as usize;
    let ec = (c as i128).rem_euclid(nc as i128) as usize;
    let base = m.iter_elements().next().map_or(0, addr);
    let o = Ord_::of(m.order());
    let want = base + if size_of::<E>() == 0 { 0 } else { size_of::<E>() * if o == Ord_::R { er * nc + ec } else { ec * nr + er } };
    let w = WrappingIndex::new(r, c);
    let mut sw = WrappingIndex { row: c, col: r };
    sw.swap();
    ensure!(sw == w, "WrappingIndex::swap");
    s.transitions(7);
    let got = [
        ("get", m.get(w).map(addr)),
        ("get_mut", m.get_mut(w).map(|x| addr(x))),
        ("[]", Ok(addr(&m[w]))),
        ("[]mut", Ok(addr(&mut m[w]))),
        ("get_unchecked", Ok(unsafe { addr(m.get_unchecked(w)) })),
        ("get_unchecked_mut", Ok(unsafe { addr(m.get_unchecked_mut(w)) })),
    ];
    for (n, g) in got {
        ensure!(g == Ok(want), "{n}(wrapping ({r}, {c})) on {o:?} {nr}x{nc}: element address off by {:?}, expected the element at ({er}, {ec})", g.map(|a| a as i128 - want as i128));
    }
    ensure!(!w.is_out_of_bounds(m) && w.ensure_in_bounds(m).is_ok(), "({r}, {c}) reported out of bounds");
    Ok(())
}

const EXT: [isize; 11] =
    [isize::MIN, isize::MIN + 1, isize::MIN + 2, -2, -1, 0, 1, 2, isize::MAX - 2, isize::MAX - 1, isize::MAX];

fn shape<E: Elem>(o: Ord_, nr: usize, nc: usize, periods: isize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let cand = |n: usize| -> Vec<isize> {
            let n = n as isize;
            let mut v: Vec<isize> = (-(periods * n) - 1..=periods * n + 1).collect();
            v.extend(EXT);
            v.extend((0..=n).map(|k| isize::MIN + k));
            v.extend((0..=n).map(|k| isize::MAX - k));
            v.sort();
            v.dedup();
            v
        };
        for r in cand(nr) {
            for c in cand(nc) {
                s.state((o, nr, nc, r, c, size_of::<E>()));
                check(&mut m, r, c, s)?;
            }
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// One full period around zero and around the extremes, on a longer shape.
fn sweep_one<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let cand = |n: usize| -> Vec<isize> {
            let n = n as isize;
            let mut v = vec![];
            for b in [0, -n, n, n / 2, -n / 2, 2 * n, -2 * n, isize::MIN, isize::MAX, isize::MIN / n * n, isize::MAX / n * n, 1 << 31, 1 << 32, -(1 << 31), -(1 << 32)] {
                for d in -1..=1 {
                    v.extend(b.checked_add(d));
                }
            }
            v.sort();
            v.dedup();
            v
        };
        for r in cand(nr) {
            for c in cand(nc) {
                check(&mut m, r, c, s)?;
            }
        }
        // every residue, along each axis
        for r in -(nr as isize)..nr as isize {
            check(&mut m, r, -1, s)?;
            check(&mut m, r, isize::MIN, s)?;
        }
        for c in -(nc as isize)..nc as isize {
            check(&mut m, -1, c, s)?;
            check(&mut m, isize::MIN, c, s)?;
        }
        s.state((o, nr, nc, "sweep", size_of::<E>()));
    }
    Ok(finish()?)
}

fn empty<E: Elem>(o: Ord_, nr: usize, nc: usize, spare: bool, s: &mut Stats) -> Res {
    // spare capacity on pages that cannot be read
    let mut m: Matrix<E> = if spare { paged(|| Matrix::with_capacity(8)) } else { Matrix::new() };
    m.resize((nr, nc)).unwrap();
    m.set_order(o.real());
    s.add("locked_buffers", regions().filter(|&b| lock(b, true)).count() as u64);
    ensure!(m.nrows() == nr && m.ncols() == nc, "shape");
    for r in EXT {
        for c in EXT {
            let w = WrappingIndex::new(r, c);
            s.state((o, nr, nc, r, c, spare, size_of::<E>()));
            s.transitions(8);
            ensure!(w.is_out_of_bounds(&m), "({r}, {c}) not out of bounds of an empty matrix");
            ensure!(w.ensure_in_bounds(&m) == Err(Error::IndexOutOfBounds), "ensure_in_bounds");
            ensure!(m.get(w).err() == Some(Error::IndexOutOfBounds), "get on an empty matrix");
            ensure!(m.get_mut(w).err() == Some(Error::IndexOutOfBounds), "get_mut on an empty matrix");
            ensure!(catch_unwind(AssertUnwindSafe(|| addr(&m[w]))).is_err(), "[] on an empty matrix returned");
            ensure!(catch_unwind(AssertUnwindSafe(|| addr(&mut m[w]))).is_err(), "[]mut on an empty matrix returned");
            ensure!(catch_unwind(AssertUnwindSafe(|| unsafe { addr(m.get_unchecked(w)) })).is_err(), "get_unchecked on an empty matrix returned");
            ensure!(catch_unwind(AssertUnwindSafe(|| unsafe { addr(m.get_unchecked_mut(w)) })).is_err(), "get_unchecked_mut on an empty matrix returned");
        }
    }
    let _ = regions().filter(|&b| lock(b, false)).count();
    coherent(&m)
}

fn long(n: usize, col: bool, o: Ord_, s: &mut Stats) -> Res {
    let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let mut m = if col { Matrix::from_col(v) } else { Matrix::from_row(v) };
    m.set_order(o.real());
    let n = n as isize;
    let mut k: Vec<isize> = vec![];
    for b in [0, -n, n, -2 * n, 2 * n, isize::MIN, isize::MAX, isize::MIN / 2, isize::MAX / 2, isize::MIN / n * n, isize::MAX / n * n] {
        for d in -3..=3 {
            if let Some(x) = b.checked_add(d) {
                k.push(x);
            }
        }
    }
    k.sort();
    k.dedup();
    for &a in &k {
        for b in EXT {
            s.state(("long", n, col, o, a, b));
            if col { check(&mut m, a, b, s)? } else { check(&mut m, b, a, s)? }
        }
    }
    Ok(())
}

fn zst(nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    let mut m = Matrix::from_row(vec![ZA; nr * nc]);
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    for r in EXT {
        for c in EXT {
            s.state(("zst", nr, nc, o, r, c));
            check(&mut m, r, c, s)?;
        }
    }
    Ok(())
}

fn body(cx: &mut Cx) {
    let (n, p) = if cx.thorough { (12, 4) } else { (6, 3) };
    for (o, r, c) in shapes(n) {
        if r * c > 0 {
            cx.case(|| format!("window and extremes on Tr24 {o:?} {r}x{c}"), |s| shape::<Tr>(o, r, c, p, s));
            cx.case(|| format!("window and extremes on P1 {o:?} {r}x{c}"), |s| shape::<P1>(o, r, c, p, s));
            cx.case(|| format!("window and extremes on P8 {o:?} {r}x{c}"), |s| shape::<P8>(o, r, c, p, s));
            cx.case(|| format!("window and extremes on TrB {o:?} {r}x{c}"), |s| shape::<TrB>(o, r, c, p, s));
        } else {
            for spare in [false, true] {
                cx.case(|| format!("empty Tr24 {o:?} {r}x{c} spare={spare}"), |s| empty::<Tr>(o, r, c, spare, s));
                cx.case(|| format!("empty TrZ0 {o:?} {r}x{c} spare={spare}"), |s| empty::<TrZ>(o, r, c, spare, s));
            }
        }
    }
    for (r, c) in [(usize::MAX, 0), (0, usize::MAX), (1 << 63, 0), (0, 1 << 63)] {
        for o in ORDERS {
            cx.case(|| format!("empty Tr24 {o:?} {r}x{c}"), |s| empty::<Tr>(o, r, c, false, s));
        }
    }
    for (r, c) in sweep(n, if cx.thorough { 60 } else { 33 }).into_iter().chain(BIG).chain(HUGE) {
        if r * c > 0 {
            for o in ORDERS {
                cx.case(|| format!("boundary indices of P4 {o:?} {r}x{c}"), |s| sweep_one::<P4>(o, r, c, s));
                cx.case(|| format!("boundary indices of P8 {o:?} {r}x{c}"), |s| sweep_one::<P8>(o, r, c, s));
            }
        }
    }
    for n in [7, 13, 64, 97, 255, 256, 1000, 65536, 1 << 20] {
        for col in [false, true] {
            for o in ORDERS {
                cx.case(|| format!("{n}-element {} {o:?}", if col { "column" } else { "row" }), |s| long(n, col, o, s));
            }
        }
    }
    for (r, c) in [(usize::MAX, 1), (1, usize::MAX), (1 << 63, 1), (isize::MAX as usize, 2), (2, isize::MAX as usize), (1 << 32, 1 << 31), (3, 1 << 62), ((1 << 63) + 1, 1)] {
        for o in ORDERS {
            cx.soft(|| format!("zero-sized {o:?} {r}x{c}"), move |s| zst(r, c, o, s));
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C13",
            level: "model_checking",
            rule: "state = (order, shape, row, col) queried; transition = one access form compared by element address (or error/panic) with 128-bit Euclidean remainder",
            bounds: |t| {
                let (n, p) = if t { (12, 4) } else { (6, 3) };
                format!("all shapes 0..={n} squared, both orders, all (row, col) in +-{p} periods plus extremes and their neighbourhoods; boundary values and every residue along each axis on all shapes up to {} squared and 24 longer ones; 1xn/nx1 up to 2^20; zero-sized extents up to usize::MAX; empty shapes with and without (inaccessible) spare capacity", if t { 60 } else { 33 })
            },
            assumptions: &[],
            stall_s: 60,
        },
        body,
    )
}
