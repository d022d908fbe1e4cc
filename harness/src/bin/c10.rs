//! C10: swaps over every index pair.
use matreex::{Error, Index, Matrix, WrappingIndex};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};

fn idx(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 1).collect();
    v.extend([usize::MAX, usize::MAX / 2 + 1]);
    if n > 1 {
        v.push(usize::MAX / n + 1);
    }
    v
}

/// Run `f` on a fresh matrix; compare contents and identities with `want`.
fn probe<E: Elem>(
    x: &M,
    what: &dyn Fn() -> String,
    f: impl FnOnce(&mut Matrix<E>) -> Result<(), Error>,
    perm: Option<&dyn Fn(usize, usize) -> (usize, usize)>,
    s: &mut Stats,
) -> Res {
    reset();
    {
        let mut m: Matrix<E> = x.build();
        let id0 = ids(&m);
        let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
        let before = counts();
        let r = f(&mut m);
        s.transition();
        ensure!(counts() == before, "{} cloned, dropped or created elements", what());
        match (r, perm) {
            (Ok(()), Some(_)) => {}
            (Err(Error::IndexOutOfBounds), None) => {}
            (r, p) => bail!("{} on {}: returned {r:?}, expected {}", what(), x.short(), if p.is_some() { "Ok" } else { "IndexOutOfBounds" }),
        }
        let id = |r: usize, c: usize| (r, c);
        let p: &dyn Fn(usize, usize) -> (usize, usize) = match perm {
            Some(p) => p,
            None => &id,
        };
        let y = M::new(x.order, x.nr, x.nc, |r, c| {
            let (a, b) = p(r, c);
            x.rows[a][b]
        });
        if let Err(e) = agree(&m, &y) {
            bail!("{} on {}: {}", what(), x.short(), e.msg);
        }
        let id1 = ids(&m);
        for r in 0..x.nr {
            for c in 0..x.nc {
                let (a, b) = p(r, c);
                ensure!(id1[r][c] == id0[a][b], "{} on {}: element at ({r}, {c}) was not moved", what(), x.short());
            }
        }
        let base2 = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
        ensure!(base == base2, "{}: the element buffer moved", what());
    }
    Ok(finish()?)
}

fn vectors<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    for m in idx(nr) {
        for n in idx(nr) {
            s.state((E::NAME, o, nr, nc, "rows", m, n));
            let p = move |r: usize, c: usize| (if r == m { n } else if r == n { m } else { r }, c);
            let ok = m < nr && n < nr;
            probe::<E>(&x, &|| format!("swap_rows({m}, {n})"), |a| a.swap_rows(m, n).map(|_| ()), if ok { Some(&p) } else { None }, s)?;
        }
    }
    for m in idx(nc) {
        for n in idx(nc) {
            s.state((E::NAME, o, nr, nc, "cols", m, n));
            let p = move |r: usize, c: usize| (r, if c == m { n } else if c == n { m } else { c });
            let ok = m < nc && n < nc;
            probe::<E>(&x, &|| format!("swap_cols({m}, {n})"), |a| a.swap_cols(m, n).map(|_| ()), if ok { Some(&p) } else { None }, s)?;
        }
    }
    Ok(())
}

fn elements<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    let coords: Vec<(usize, usize)> = (0..=nr).chain([usize::MAX]).flat_map(|r| (0..=nc).chain([usize::MAX]).map(move |c| (r, c))).collect();
    for &i in &coords {
        for &j in &coords {
            s.state((E::NAME, o, nr, nc, i, j));
            let p = move |r: usize, c: usize| if (r, c) == i { j } else if (r, c) == j { i } else { (r, c) };
            let inb = |k: (usize, usize)| k.0 < nr && k.1 < nc;
            let ok = inb(i) && inb(j);
            let perm: Option<&dyn Fn(usize, usize) -> (usize, usize)> = if ok { Some(&p) } else { None };
            probe::<E>(&x, &|| format!("swap({i:?}, {j:?})"), |a| a.swap(i, j).map(|_| ()), perm, s)?;
            probe::<E>(&x, &|| format!("swap(Index{i:?}, [..]{j:?})"), |a| a.swap(Index::new(i.0, i.1), [j.0, j.1]).map(|_| ()), perm, s)?;
            // wrapping indices: valid whenever the matrix has elements
            if nr * nc > 0 && i.0 <= nr && i.1 <= nc && inb(j) {
                let w = WrappingIndex::new(i.0 as isize - nr as isize, i.1 as isize - 2 * nc as isize);
                let t = (w.row.rem_euclid(nr as isize) as usize, w.col.rem_euclid(nc as isize) as usize);
                let q = move |r: usize, c: usize| if (r, c) == t { j } else if (r, c) == j { t } else { (r, c) };
                probe::<E>(&x, &|| format!("swap({w:?}, {j:?})"), |a| a.swap(w, j).map(|_| ()), Some(&q), s)?;
                probe::<E>(&x, &|| format!("swap({j:?}, {w:?})"), |a| a.swap(j, w).map(|_| ()), Some(&q), s)?;
                let w2 = WrappingIndex::new(j.0 as isize + nr as isize, j.1 as isize - nc as isize);
                probe::<E>(&x, &|| format!("swap({w:?}, {w2:?})"), |a| a.swap(w, w2).map(|_| ()), Some(&q), s)?;
            }
            if nr * nc == 0 {
                let w = WrappingIndex::new(i.0 as isize, j.1 as isize);
                probe::<E>(&x, &|| format!("swap({w:?}, {w:?})"), |a| a.swap(w, w).map(|_| ()), None, s)?;
            }
            if !inb(i) && nr * nc > 0 {
                let w = WrappingIndex::new(-1, -1);
                probe::<E>(&x, &|| format!("swap({i:?}, {w:?})"), |a| a.swap(i, w).map(|_| ()), None, s)?;
                probe::<E>(&x, &|| format!("swap({w:?}, {i:?})"), |a| a.swap(w, i).map(|_| ()), None, s)?;
            }
        }
    }
    Ok(())
}

/// Selected pairs on a longer shape, one matrix swapped many times: after each
/// swap the whole matrix is compared with the permuted reference.
fn long<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let mut x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let mut id0 = ids(&m);
        let before = counts();
        let sel = |n: usize| {
            let mut v = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
            v.retain(|&k| k < n);
            v.sort();
            v.dedup();
            v
        };
        let same = |m: &Matrix<E>, x: &M, id0: &Vec<Vec<u64>>, what: String| -> Res {
            for r in 0..nr {
                for c in 0..nc {
                    let e = &m[(r, c)];
                    ensure!(e.val() == x.rows[r][c] && e.id() == id0[r][c], "{what}: element ({r}, {c}) is wrong");
                }
            }
            Ok(())
        };
        for a in sel(nr) {
            for b in sel(nr) {
                m.swap_rows(a, b).map_err(|e| format!("swap_rows({a}, {b}): {e:?}"))?;
                x.rows.swap(a, b);
                id0.swap(a, b);
                same(&m, &x, &id0, format!("swap_rows({a}, {b})"))?;
                s.transition();
            }
            ensure!(m.swap_rows(a, nr).is_err() && m.swap_rows(nr, a).is_err(), "row {nr} accepted");
        }
        for a in sel(nc) {
            for b in sel(nc) {
                m.swap_cols(a, b).map_err(|e| format!("swap_cols({a}, {b}): {e:?}"))?;
                for r in 0..nr {
                    x.rows[r].swap(a, b);
                    id0[r].swap(a, b);
                }
                same(&m, &x, &id0, format!("swap_cols({a}, {b})"))?;
                s.transition();
            }
            ensure!(m.swap_cols(a, nc).is_err() && m.swap_cols(nc, a).is_err(), "column {nc} accepted");
        }
        let pos: Vec<(usize, usize)> = [0, nr / 2, nr.saturating_sub(1)].into_iter().flat_map(|r| [0, nc / 2, nc.saturating_sub(1)].map(|c| (r, c))).filter(|&(r, c)| r < nr && c < nc).collect();
        for &i in &pos {
            for &j in &pos {
                m.swap(i, j).map_err(|e| format!("swap({i:?}, {j:?}): {e:?}"))?;
                let (a, b) = (x.rows[i.0][i.1], id0[i.0][i.1]);
                x.rows[i.0][i.1] = x.rows[j.0][j.1];
                id0[i.0][i.1] = id0[j.0][j.1];
                x.rows[j.0][j.1] = a;
                id0[j.0][j.1] = b;
                same(&m, &x, &id0, format!("swap({i:?}, {j:?})"))?;
                s.transition();
            }
        }
        s.state((E::NAME, o, nr, nc, "long"));
        ensure!(counts() == before, "a swap cloned, dropped or created elements");
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

fn huge(nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    // zero-sized: only the axis that needs no per-element loop is cheap
    let mut m = Matrix::from_row(vec![ZA; nr * nc]);
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    let mut pairs = vec![];
    for a in [0, 1, nr / 2, nr - 1, nr, usize::MAX] {
        for b in [0, 1, nr - 1, nr, usize::MAX] {
            pairs.push((a, b));
        }
    }
    for (a, b) in pairs {
        s.state(("zst", nr, nc, o, a, b));
        s.transition();
        let small = |n: usize| n <= 1 << 16;
        if o == Ord_::R || small(nc) {
            let r = m.swap_rows(a, b).map(|_| ());
            ensure!(r == if a < nr && b < nr { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "swap_rows({a}, {b}) on zero-sized {nr}x{nc}: {r:?}");
        }
        let r = m.swap((a, 0), (b, nc - 1)).map(|_| ());
        ensure!(r == if a < nr && b < nr { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "swap(({a}, 0), ({b}, ..)): {r:?}");
        ensure!(m.nrows() == nr && m.ncols() == nc && m.size() == nr * nc, "shape changed");
    }
    Ok(())
}

fn body(cx: &mut Cx) {
    let (n, k) = if cx.thorough { (12, 5) } else { (7, 4) };
    macro_rules! all {
        ($($e:ty)*) => {
            for (o, r, c) in shapes(n) {
                $( cx.case(|| format!("all row/column pairs on {} {o:?} {r}x{c}", <$e>::NAME), |s| vectors::<$e>(o, r, c, s)); )*
            }
            for (o, r, c) in shapes(k) {
                $( cx.case(|| format!("all element pairs on {} {o:?} {r}x{c}", <$e>::NAME), |s| elements::<$e>(o, r, c, s)); )*
            }
        };
    }
    all!(Tr TrZ P1 P2 P4 P8 P16 P64 Tr8 TrB);
    for (r, c) in [(2, 37), (37, 2), (1, 64), (64, 1), (13, 17)] {
        for o in ORDERS {
            cx.case(|| format!("all row/column pairs on Tr24 {o:?} {r}x{c}"), |s| vectors::<Tr>(o, r, c, s));
        }
    }
    let lim = if cx.thorough { usize::MAX } else { 150_000 };
    for (r, c) in sweep(n, if cx.thorough { 40 } else { 20 }).into_iter().chain(BIG.into_iter().chain(HUGE).filter(|s| s.0 * s.1 < lim)) {
        for o in ORDERS {
            cx.case(|| format!("a series of swaps on P4 {o:?} {r}x{c}"), |s| long::<P4>(o, r, c, s));
            if r * c > 20_000 && !cx.thorough {
                continue;
            }
            cx.case(|| format!("a series of swaps on Tr24 {o:?} {r}x{c}"), |s| long::<Tr>(o, r, c, s));
            cx.case(|| format!("a series of swaps on P1 {o:?} {r}x{c}"), |s| long::<P1>(o, r, c, s));
            cx.case(|| format!("a series of swaps on P8 {o:?} {r}x{c}"), |s| long::<P8>(o, r, c, s));
            cx.case(|| format!("a series of swaps on P16 {o:?} {r}x{c}"), |s| long::<P16>(o, r, c, s));
            cx.case(|| format!("a series of swaps on TrB {o:?} {r}x{c}"), |s| long::<TrB>(o, r, c, s));
        }
    }
    for (r, c) in [(usize::MAX, 1), (1 << 62, 2), (1 << 63, 1)] {
        for o in ORDERS {
            cx.soft(|| format!("zero-sized {o:?} {r}x{c}"), move |s| huge(r, c, o, s));
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C10",
            level: "model_checking",
            rule: "state = (element type, order, shape, operation, index pair); transition = one swap call on a fresh matrix, compared on contents, element identities (moved, never cloned/dropped) and returned error",
            bounds: |t| {
                let (n, k) = if t { (12, 5) } else { (7, 4) };
                format!("rows/cols: shapes 0..={n} squared plus 5 longer, all pairs in 0..=extent+1 plus wrapping extremes; elements: shapes 0..={k} squared, all coordinate pairs up to one past the extent plus MAX, plain and wrapping index types mixed; element sizes 0/1/4/16/24; series of up to 81 swaps on all shapes up to {} squared and about 22 longer ones; zero-sized up to usize::MAX", if t { 40 } else { 20 })
            },
            assumptions: &[],
            stall_s: 60,
        },
        body,
    )
}
