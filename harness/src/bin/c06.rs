//! C06: every row/column view, driven along every front/back pattern, against
//! the logical matrix.
use matreex::{Error, Matrix};
use mcx::drive::*;
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct View {
    rows: bool,
    mutable: bool,
}
const VIEWS: [View; 4] = [
    View { rows: true, mutable: false },
    View { rows: false, mutable: false },
    View { rows: true, mutable: true },
    View { rows: false, mutable: true },
];

/// Expected (address) keys of each vector of the view.
fn lines<E: Elem>(m: &Matrix<E>, v: View) -> Vec<Vec<(usize, u32)>> {
    let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
    let o = Ord_::of(m.order());
    let (nr, nc) = (m.nrows(), m.ncols());
    let at = |r: usize, c: usize| {
        let flat = if o == Ord_::R { r * nc + c } else { c * nr + r };
        (base + flat * size_of::<E>(), m[(r, c)].val())
    };
    if v.rows {
        (0..nr).map(|r| (0..nc).map(|c| at(r, c)).collect()).collect()
    } else {
        (0..nc).map(|c| (0..nr).map(|r| at(r, c)).collect()).collect()
    }
}

fn item<E: Elem>(e: &E, k: &(usize, u32)) -> Res {
    let a = e as *const E as usize;
    ensure!(a == k.0 && e.val() == k.1, "yields the element at {} bytes from the expected one (value {}, expected {})", a as i128 - k.0 as i128, e.val(), k.1);
    Ok(())
}

fn outer<E: Elem>(m: &mut Matrix<E>, v: View, acts: &[Act], fin: Fin, iacts: &[Act], ifin: Fin) -> Result<u64, Fail> {
    let exp = lines(m, v);
    let mut total = 0;
    macro_rules! go {
        ($it:expr) => {
            drive($it, &exp, acts, fin, &mut |inner, k: &Vec<(usize, u32)>| {
                total += drive(inner, k, iacts, ifin, &mut |e, k| item::<E>(&*e, k))?;
                Ok(())
            })?
        };
    }
    let n = match (v.rows, v.mutable) {
        (true, false) => go!(m.iter_rows()),
        (false, false) => go!(m.iter_cols()),
        (true, true) => go!(m.iter_rows_mut()),
        (false, true) => go!(m.iter_cols_mut()),
    };
    Ok(n + total)
}

fn nth<E: Elem>(m: &mut Matrix<E>, v: View, n: usize, acts: &[Act], fin: Fin) -> Result<u64, Fail> {
    let exp = lines(m, v);
    macro_rules! go {
        ($it:expr) => {
            match ($it, exp.get(n)) {
                (Ok(it), Some(k)) => drive(it, k, acts, fin, &mut |e, k| item::<E>(&*e, k))?,
                (Err(Error::IndexOutOfBounds), None) => 1,
                (Ok(_), None) => bail!("accepts n = {n} of {} vectors", exp.len()),
                (Err(e), k) => bail!("{e:?} for n = {n} ({:?})", k.is_some()),
            }
        };
    }
    Ok(match (v.rows, v.mutable) {
        (true, false) => go!(m.iter_nth_row(n)),
        (false, false) => go!(m.iter_nth_col(n)),
        (true, true) => go!(m.iter_nth_row_mut(n)),
        (false, true) => go!(m.iter_nth_col_mut(n)),
    })
}

fn patterns(len: usize, deep: usize) -> Vec<Vec<Act>> {
    let mut p = if len + 1 <= deep { sequences(&FB, len + 1) } else { sequences(&FB, deep) };
    p.extend(sequences(&ALL, 3.min(len + 1)));
    p
}

fn shape<E: Elem>(o: Ord_, nr: usize, nc: usize, v: View, deep: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let before = counts();
        let (lines_n, len) = if v.rows { (nr, nc) } else { (nc, nr) };
        let ctx = |f: Fail, what: String| Fail { key: f.key, msg: format!("{what}: {}", f.msg) };
        // every outer pattern, simple inner ones
        for a in patterns(lines_n, deep) {
            for (ia, ifin) in [(vec![], Fin::Drain), (vec![Act::B], Fin::DrainBack), (vec![], Fin::Collect)] {
                let n = outer(&mut m, v, &a, Fin::Drain, &ia, ifin).map_err(|f| ctx(f, format!("outer {a:?}")))?;
                s.transitions(n);
            }
        }
        for a in sequences(&ALL, 2) {
            for fin in FINS {
                let n = outer(&mut m, v, &a, fin, &[], Fin::Collect).map_err(|f| ctx(f, format!("outer {a:?} then {fin:?}")))?;
                s.transitions(n);
            }
        }
        // arguments of nth that wrap around
        let size = size_of::<E>();
        for w in wrapping_acts(&[size, len, lines_n, size * len, size * lines_n, size * len * lines_n]) {
            let n = outer(&mut m, v, &w, Fin::Drain, &[], Fin::Collect).map_err(|f| ctx(f, format!("outer {w:?}")))?;
            let k = outer(&mut m, v, &[], Fin::Drain, &w, Fin::Drain).map_err(|f| ctx(f, format!("inner {w:?}")))?;
            s.transitions(n + k);
        }
        // every inner pattern, outer from both ends
        for ia in patterns(len, deep) {
            for (a, fin) in [(vec![], Fin::Drain), (vec![], Fin::DrainBack), (vec![Act::B, Act::F], Fin::Drain)] {
                let n = outer(&mut m, v, &a, fin, &ia, Fin::Drain).map_err(|f| ctx(f, format!("inner {ia:?}")))?;
                s.transitions(n);
            }
        }
        for ia in sequences(&ALL, 2) {
            for ifin in FINS {
                let n = outer(&mut m, v, &[], Fin::Drain, &ia, ifin).map_err(|f| ctx(f, format!("inner {ia:?} then {ifin:?}")))?;
                s.transitions(n);
            }
        }
        // the nth variants
        let mut ns: Vec<usize> = (0..=lines_n + 1).collect();
        ns.extend([usize::MAX, usize::MAX - 1, 1 << 63, isize::MAX as usize, 1 << 32]);
        if len > 0 {
            ns.extend([usize::MAX / len, (usize::MAX / len).saturating_add(1)]);
        }
        if lines_n > 0 {
            ns.extend([usize::MAX / lines_n, (usize::MAX / lines_n).saturating_add(1)]);
        }
        for n in ns {
            s.state((E::NAME, o, nr, nc, v, n));
            let pats = if n < lines_n { patterns(len, deep) } else { vec![vec![]] };
            for a in pats {
                for fin in [Fin::Drain, Fin::DrainBack] {
                    let k = nth(&mut m, v, n, &a, fin).map_err(|f| ctx(f, format!("nth({n}) {a:?}")))?;
                    s.transitions(k);
                }
            }
            if n < lines_n {
                for a in sequences(&ALL, 2) {
                    for fin in FINS {
                        let k = nth(&mut m, v, n, &a, fin).map_err(|f| ctx(f, format!("nth({n}) {a:?} {fin:?}")))?;
                        s.transitions(k);
                    }
                }
            }
        }
        ensure!(counts() == before, "viewing cloned, dropped or created elements");
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Longer shapes: every view from the front, the back and both ends in turn,
/// in both dimensions.
fn long<E: Elem>(o: Ord_, nr: usize, nc: usize, v: View, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let (lines_n, len) = if v.rows { (nr, nc) } else { (nc, nr) };
        s.state((E::NAME, o, nr, nc, v, "long"));
        let alt = |n: usize| -> Vec<Act> { (0..n.min(100)).map(|k| if k % 3 == 0 { Act::B } else { Act::F }).collect() };
        let jump = |n: usize| vec![Act::N(n / 3), Act::NB(n / 3), Act::F, Act::B, Act::N(n), Act::F];
        for (a, fin, ia, ifin) in [
            (vec![], Fin::Drain, vec![], Fin::Drain),
            (vec![], Fin::DrainBack, vec![], Fin::DrainBack),
            (alt(lines_n), Fin::Drain, alt(len), Fin::Drain),
            (vec![], Fin::Rev, vec![], Fin::Collect),
            (vec![], Fin::Collect, vec![], Fin::Rfold),
            (jump(lines_n), Fin::Drain, jump(len), Fin::Drain),
        ] {
            let n = outer(&mut m, v, &a, fin, &ia, ifin).map_err(|f| Fail { key: f.key, msg: format!("{fin:?}/{ifin:?}: {}", f.msg) })?;
            s.transitions(n);
        }
        for n in [0, 1, lines_n / 2, lines_n.wrapping_sub(2), lines_n.wrapping_sub(1), lines_n, lines_n + 1, nr * nc, usize::MAX] {
            for (a, fin) in [(vec![], Fin::Drain), (vec![], Fin::DrainBack), (alt(len), Fin::Drain)] {
                s.transitions(nth(&mut m, v, n, &a, fin).map_err(|f| Fail { key: f.key, msg: format!("nth({n}): {}", f.msg) })?);
            }
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Views of zero-sized matrices with astronomically many elements: lengths and
/// the first items from both ends.
fn huge(nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    let mut m = Matrix::from_row(vec![ZA; nr * nc]);
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    macro_rules! inner {
        ($j:expr, $len:expr, $w:expr) => {{
            let mut j = $j;
            ensure!(j.len() == $len, "{}: inner len {} of {}", $w, j.len(), $len);
            let mut left: usize = $len;
            for k in 0..4 {
                let got = if k % 2 == 0 { j.next().is_some() } else { j.next_back().is_some() };
                ensure!(got == (left > 0), "{}: inner call {k} wrong", $w);
                left = left.saturating_sub(1);
                ensure!(j.len() == left, "{}: inner len {} of {left}", $w, j.len());
                s.transition();
            }
        }};
    }
    macro_rules! go {
        ($it:expr, $n:expr, $len:expr, $w:expr) => {{
            let mut it = $it;
            let mut left: usize = $n;
            ensure!(it.len() == left, "{}: len {} of {left}", $w, it.len());
            for k in 0..4 {
                let j = if k % 2 == 0 { it.next() } else { it.next_back() };
                ensure!(j.is_some() == (left > 0), "{}: call {k} wrong", $w);
                left = left.saturating_sub(1);
                ensure!(it.len() == left, "{}: len {} of {left}", $w, it.len());
                s.transition();
                if let Some(j) = j {
                    inner!(j, $len, $w);
                }
            }
        }};
    }
    s.state(("huge", nr, nc, o));
    go!(m.iter_rows_mut(), nr, nc, "iter_rows_mut");
    go!(m.iter_cols_mut(), nc, nr, "iter_cols_mut");
    go!(m.iter_rows(), nr, nc, "iter_rows");
    go!(m.iter_cols(), nc, nr, "iter_cols");
    for n in [0, nr / 2, nr.wrapping_sub(1), nr, usize::MAX] {
        let r = m.iter_nth_row(n).map(|i| i.len());
        ensure!(r == if n < nr { Ok(nc) } else { Err(Error::IndexOutOfBounds) }, "iter_nth_row({n}): {r:?}");
        let r = m.iter_nth_row_mut(n).map(|i| i.len());
        ensure!(r == if n < nr { Ok(nc) } else { Err(Error::IndexOutOfBounds) }, "iter_nth_row_mut({n}): {r:?}");
    }
    for n in [0, nc / 2, nc.wrapping_sub(1), nc, usize::MAX] {
        let r = m.iter_nth_col(n).map(|i| i.len());
        ensure!(r == if n < nc { Ok(nr) } else { Err(Error::IndexOutOfBounds) }, "iter_nth_col({n}): {r:?}");
        let r = m.iter_nth_col_mut(n).map(|i| i.len());
        ensure!(r == if n < nc { Ok(nr) } else { Err(Error::IndexOutOfBounds) }, "iter_nth_col_mut({n}): {r:?}");
    }
    Ok(())
}

fn degenerate(nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    // no elements, but possibly astronomically many empty rows or columns
    let mut m: Matrix<P4> = Matrix::new();
    m.resize((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    s.state(("degenerate", nr, nc, o));
    macro_rules! go {
        ($it:expr, $n:expr, $w:expr) => {{
            let mut it = $it;
            let mut left: usize = $n;
            ensure!(it.len() == left, "{}: {} empty vectors expected, len() = {}", $w, left, it.len());
            for k in 0..4 {
                let j = if k % 2 == 0 { it.next() } else { it.next_back() };
                ensure!(j.is_some() == (left > 0), "{}: call {k} wrong", $w);
                left = left.saturating_sub(1);
                ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "{}: len {} of {left}", $w, it.len());
                s.transition();
                if let Some(mut j) = j {
                    ensure!(j.len() == 0 && j.next().is_none() && j.next_back().is_none() && j.len() == 0, "{}: a vector is not empty", $w);
                }
            }
        }};
    }
    go!(m.iter_rows_mut(), nr, "iter_rows_mut");
    go!(m.iter_cols_mut(), nc, "iter_cols_mut");
    go!(m.iter_rows(), nr, "iter_rows");
    go!(m.iter_cols(), nc, "iter_cols");
    Ok(())
}

fn body(cx: &mut Cx) {
    let (n, deep) = if cx.thorough { (6, 9) } else { (4, 5) };
    for (o, r, c) in shapes(n) {
        for v in VIEWS {
            cx.case(|| format!("{v:?} on P4 {o:?} {r}x{c}"), |s| shape::<P4>(o, r, c, v, deep, s));
            if r <= 4 && c <= 4 {
                cx.case(|| format!("{v:?} on Tr24 {o:?} {r}x{c}"), |s| shape::<Tr>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on TrZ0 {o:?} {r}x{c}"), |s| shape::<TrZ>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on P1 {o:?} {r}x{c}"), |s| shape::<P1>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on P16 {o:?} {r}x{c}"), |s| shape::<P16>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on P8 {o:?} {r}x{c}"), |s| shape::<P8>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on TrB {o:?} {r}x{c}"), |s| shape::<TrB>(o, r, c, v, 4, s));
                cx.case(|| format!("{v:?} on P64 {o:?} {r}x{c}"), |s| shape::<P64>(o, r, c, v, 4, s));
            }
        }
    }
    for (r, c) in [(1, 12), (12, 1), (2, 9), (9, 2), (7, 5), (5, 8), (0, 9), (9, 0)] {
        for o in ORDERS {
            for v in VIEWS {
                cx.case(|| format!("{v:?} on P4 {o:?} {r}x{c}"), |s| shape::<P4>(o, r, c, v, 6, s));
            }
        }
    }
    let lim = if cx.thorough { usize::MAX } else { 150_000 };
    for (r, c) in sweep(n, if cx.thorough { 40 } else { 20 }).into_iter().chain(BIG.into_iter().chain(HUGE).filter(|s| s.0 * s.1 < lim)) {
        for o in ORDERS {
            for v in VIEWS {
                cx.case(|| format!("{v:?} on P4 {o:?} {r}x{c}, both ends"), |s| long::<P4>(o, r, c, v, s));
            }
        }
    }
    for (r, c) in [(usize::MAX, 1), (1, usize::MAX), (1 << 32, 1 << 31), (1 << 62, 3), (3, 1 << 62), (isize::MAX as usize, 2), (2, isize::MAX as usize), (1 << 63, 1)] {
        for o in ORDERS {
            cx.soft(|| format!("zero-sized {o:?} {r}x{c}"), move |s| huge(r, c, o, s));
        }
    }
    for (r, c) in [(usize::MAX, 0), (0, usize::MAX), (1 << 63, 0), (0, 1 << 63), (3, 0), (0, 3)] {
        for o in ORDERS {
            cx.soft(|| format!("degenerate {o:?} {r}x{c}"), move |s| degenerate(r, c, o, s));
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C06",
            level: "model_checking",
            rule: "state = (element type, order, shape, view, n); transition = one iterator call (next, next_back, nth, nth_back, len, size_hint or a consuming adaptor) whose result is compared by element address and value with the logical matrix",
            bounds: |t| {
                let (n, d) = if t { (6, 9) } else { (4, 5) };
                format!("shapes 0..={n} squared and 8 longer, both orders, 4 view families + 4 nth variants; all front/back sequences to depth min(len+1, {d}) and all sequences over next/next_back/nth/nth_back to depth 3, each followed by 11 ways to finish (depth 2); n up to extent+1 and wrapping extremes; 6 patterns in both dimensions on all shapes up to {} squared and about 22 longer ones; zero-sized and empty shapes up to usize::MAX", if t { 40 } else { 20 })
            },
            assumptions: &[],
            stall_s: 60,
        },
        body,
    )
}
