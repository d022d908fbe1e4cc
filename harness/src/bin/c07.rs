//! C07: the storage order of any operand, at any point of a history, is
//! invisible. Every enumerated history is run once with everything row-major
//! and once for every assignment of storage orders.
use matreex::index::WrappingIndex;
use matreex::{Error, Index, Matrix};
use mcx::elem::*;
use mcx::model::*;
use mcx::ops::{self, Op, Out, UserIx, exec};
use mcx::sup::*;
use mcx::{bail, ensure};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Q {
    /// an operation of the common alphabet
    O(Op),
    /// every order-agnostic accessor with every index
    Look,
    /// Display under one of several format specifications
    Show(u8),
    /// products whose addition is neither commutative nor associative
    Prod(u8, usize, usize),
    /// equality in both directions, with an equal or a different matrix
    Same(u8),
}
use Q::*;

fn show<E: Elem>(m: &Matrix<E>, k: u8) -> String {
    match k {
        0 => format!("{m}"),
        1 => format!("{m:#}"),
        2 => format!("{m:>4}"),
        3 => format!("{m:<3.1}"),
        _ => format!("{m:^+09}"),
    }
}

/// Everything that may be seen without asking for the order.
fn look<E: Elem>(m: &mut Matrix<E>, o: &mut Vec<u64>) {
    let (nr, nc) = (m.nrows(), m.ncols());
    o.extend([nr as u64, nc as u64, m.size() as u64, m.is_empty() as u64, m.shape().nrows() as u64, m.shape().ncols() as u64]);
    let e = |r: Result<u32, Error>| match r {
        Ok(v) => v as u64,
        Err(e) => (1 << 40) | (format!("{e:?}").len() as u64),
    };
    for r in m.iter_rows() {
        o.push(r.len() as u64);
        o.extend(r.map(|e| e.val() as u64));
    }
    for c in m.iter_cols().rev() {
        o.push(c.len() as u64);
        o.extend(c.rev().map(|e| e.val() as u64));
    }
    for r in m.iter_rows_mut().rev() {
        o.push(r.len() as u64);
        o.extend(r.map(|e| e.val() as u64));
    }
    for c in m.iter_cols_mut() {
        o.push(c.len() as u64);
        o.extend(c.rev().map(|e| e.val() as u64));
    }
    for n in 0..=nr + 1 {
        match m.iter_nth_row(n) {
            Ok(it) => o.extend(it.map(|e| e.val() as u64)),
            Err(x) => o.push(e(Err(x))),
        }
        match m.iter_nth_row_mut(n) {
            Ok(it) => o.extend(it.rev().map(|e| e.val() as u64)),
            Err(x) => o.push(e(Err(x))),
        }
    }
    for n in 0..=nc + 1 {
        match m.iter_nth_col(n) {
            Ok(it) => o.extend(it.rev().map(|e| e.val() as u64)),
            Err(x) => o.push(e(Err(x))),
        }
        match m.iter_nth_col_mut(n) {
            Ok(it) => o.extend(it.map(|e| e.val() as u64)),
            Err(x) => o.push(e(Err(x))),
        }
    }
    let mut v: Vec<[u64; 3]> = m.iter_elements_with_index().map(|(i, e)| [i.row as u64, i.col as u64, e.val() as u64]).collect();
    v.sort();
    o.extend(v.concat());
    let mut v: Vec<[u64; 3]> = m.iter_elements_mut_with_index().map(|(i, e)| [i.row as u64, i.col as u64, e.val() as u64]).collect();
    v.sort();
    o.extend(v.concat());
    let mut v: Vec<u64> = m.iter_elements().map(|e| e.val() as u64).collect();
    v.sort();
    o.extend(v);
    let ix: Vec<usize> = (0..=nr.max(nc) + 1).chain([usize::MAX / 2, usize::MAX]).collect();
    for &r in &ix {
        for &c in &ix {
            o.push(e(m.get((r, c)).map(|e| e.val())));
            o.push(e(m.get_mut([r, c]).map(|e| e.val())));
            o.push(e(m.get(UserIx(r, c)).map(|e| e.val())));
            if r < nr && c < nc {
                o.push(m[(r, c)].val() as u64);
                o.push((&mut m[Index::new(r, c)]).val() as u64);
                unsafe {
                    o.push(m.get_unchecked([r, c]).val() as u64);
                    o.push(m.get_unchecked_mut(Index::new(r, c)).val() as u64);
                    o.push(m.get_unchecked(UserIx(r, c)).val() as u64);
                }
            }
        }
    }
    for r in -2..=nr as isize + 1 {
        for c in -2..=nc as isize + 1 {
            o.push(e(m.get(WrappingIndex::new(r, c)).map(|e| e.val())));
            if nr * nc > 0 {
                o.push(m[WrappingIndex::new(c, r)].val() as u64);
                unsafe { o.push(m.get_unchecked(WrappingIndex::new(r, c)).val() as u64) };
            }
        }
    }
}

fn aux_of(q: Q, x: &M, base: u32) -> Option<M> {
    match q {
        O(op) => op.aux(x, base),
        Prod(_, r, c) => Some(M::numbered(Ord_::R, r, c, base + 1000)),
        Same(k) => {
            let mut a = x.clone();
            match k {
                0 => {}
                1 => a = a.transposed(),
                k => {
                    // one element differs
                    let n = a.size();
                    if n > 0 {
                        let at = (k as usize * 7) % n;
                        a.rows[at / a.nc][at % a.nc] ^= 1;
                    }
                }
            }
            Some(a)
        }
        _ => None,
    }
}

fn take<E>(m: &mut Matrix<E>) -> Matrix<E> {
    std::mem::take(m)
}

fn apply<E: Elem>(q: Q, m: &mut Matrix<E>, aux: &mut Matrix<E>, base: u32, obs: &mut Vec<u64>, text: &mut String) -> Out {
    match q {
        O(op) => exec(op, m, aux, base, obs),
        Look => {
            look(m, obs);
            Out::Ok
        }
        Show(k) => {
            *text = show(m, k);
            Out::Ok
        }
        Same(_) => {
            obs.extend([*m == *aux, *aux == *m, *m != *aux, *aux != *m].map(|b| b as u64));
            Out::Ok
        }
        Prod(f, ..) => {
            let r = catch_unwind(AssertUnwindSafe(|| match f {
                0 => take(m).multiply(take(aux)),
                1 => Ok(take(m) * take(aux)),
                2 => Ok(&*m * take(aux)),
                3 => Ok(take(m) * &*aux),
                _ => Ok(&*m * &*aux),
            }));
            match r {
                Ok(Ok(n)) => {
                    *m = n;
                    Out::Ok
                }
                Ok(Err(e)) => {
                    *m = Matrix::new();
                    Out::Err(e)
                }
                Err(_) => {
                    *m = Matrix::new();
                    Out::Panic
                }
            }
        }
    }
}

/// Operations that build a new matrix from a left operand (or modify it).
fn keeps_order(q: Q) -> bool {
    use Op::*;
    match q {
        O(op) => matches!(
            op,
            Apply | Map | MapRef | Overwrite(..) | Swap(..) | SwapWrap(..) | SwapUser(..) | SwapRows(..) | SwapCols(..) | Elementwise(..) | Named(..) | Operator(..) | Multiply(..) | MulLike(..) | Scalar(_) | Neg(_) | ParApply | ParMap | ParMapRef
        ),
        Prod(..) => true,
        _ => false,
    }
}

fn order_agnostic(op: Op) -> bool {
    use Op::*;
    match op {
        Switch | SwitchRaw | Set(_) | SetRaw(_) | Reshape(..) | Resize(..) | ReadAll | ElemsMut | ElemsSwap | IntoIter(..) | IntoIterSome(..) | Rebuild(_) | Contains(_) | Format(_) | WithDefault(..) | WithValue(..) | WithInit(..) | Take | Clear | ShrinkFit | ShrinkTo(_) | ParElemsMut(_) | IntoPar(_) => false,
        // aux orders are assigned here
        Overwrite(o, ..) | CloneFrom(o, ..) | Elementwise(_, o, ..) | Named(_, _, o, ..) | Operator(_, _, o, ..) | Multiply(_, o, ..) | MulLike(o, ..) | Compare(o, ..) => o == Ord_::R,
        _ => true,
    }
}

struct Step {
    out: Out,
    x: M,
    obs: Vec<u64>,
    text: String,
}

fn logical<E: Elem>(m: &Matrix<E>) -> M {
    M::new(Ord_::R, m.nrows(), m.ncols(), |r, c| m[(r, c)].val())
}

/// Run `seq`; bit 0 of `bits`: order of the start matrix; then two bits per
/// step: switch the receiver first, order of the operand. Row-major
/// everywhere: bits = 0.
fn play<E: Elem>(nr: usize, nc: usize, seq: &[Q], bits: u32, base: Option<&[Step]>, out: &mut Vec<Step>) -> Result<(), Fail> {
    let ord = |b: u32| if b & 1 == 0 { Ord_::R } else { Ord_::C };
    let mut m: Matrix<E> = M::numbered(ord(bits), nr, nc, 0).norm::<E>().build();
    let mut b = 100;
    for (k, q) in seq.iter().enumerate() {
        let v = bits >> (1 + 2 * k);
        if v & 1 == 1 {
            m.switch_order();
        }
        let lx = logical(&m);
        let aux_x = aux_of(*q, &lx, b).map(|a| a.norm::<E>());
        let aux_order = ord(v >> 1);
        let mut aux: Matrix<E> = match &aux_x {
            Some(a) => M { order: aux_order, ..a.clone() }.build(),
            None => Matrix::new(),
        };
        let left = m.order();
        let mut obs = vec![];
        let mut text = String::new();
        let res = apply(*q, &mut m, &mut aux, b, &mut obs, &mut text);
        b += 5000;
        coherent(&m)?;
        let x = logical(&m);
        if res == Out::Ok && keeps_order(*q) {
            ensure!(m.order() == left, "step {}, {q:?}: the left operand is {left:?}, the result is {:?}", k + 1, m.order());
        }
        match base {
            None => out.push(Step { out: res, x, obs, text }),
            Some(base) => {
                let w = &base[k];
                let how = || {
                    format!(
                        "step {}, {q:?}, receiver {left:?}{} (start {nr}x{nc})",
                        k + 1,
                        if aux_x.is_some() { format!(", operand {aux_order:?}") } else { String::new() }
                    )
                };
                ensure!(res == w.out, "{}: {res:?}, with everything row-major {:?}", how(), w.out);
                ensure!((x.nr, x.nc) == (w.x.nr, w.x.nc), "{}: result is {}x{}, with everything row-major {}x{}", how(), x.nr, x.nc, w.x.nr, w.x.nc);
                if x.rows != w.x.rows {
                    bail!("{}: result {:?}, with everything row-major {:?}", how(), x.rows, w.x.rows);
                }
                if obs != w.obs {
                    let at = obs.iter().zip(&w.obs).position(|(a, b)| a != b);
                    bail!("{}: observes {} value(s), first different at {at:?}, with everything row-major {}", how(), obs.len(), w.obs.len());
                }
                ensure!(text == w.text, "{}: Display gives {text:?}, with everything row-major {:?}", how(), w.text);
                // as a matrix: equal to the row-major one
                let y: Matrix<E> = w.x.build();
                ensure!(m == y && y == m && !(m != y), "{}: the result does not compare equal to the row-major one", how());
            }
        }
        error()?;
    }
    Ok(())
}

fn paired<E: Elem>(nr: usize, nc: usize, seq: &[Q], s: &mut Stats) -> Res {
    reset();
    let mut base = vec![];
    play::<E>(nr, nc, seq, 0, None, &mut base)?;
    let n = 1 + 2 * seq.len() as u32;
    let has_aux: Vec<bool> = seq.iter().zip(std::iter::once(M::numbered(Ord_::R, nr, nc, 0)).chain(base.iter().map(|s| s.x.clone()))).map(|(q, x)| aux_of(*q, &x, 0).is_some()).collect();
    for bits in 1..1u32 << n {
        if (0..seq.len()).any(|k| !has_aux[k] && bits >> (2 + 2 * k) & 1 == 1) {
            continue;
        }
        play::<E>(nr, nc, seq, bits, Some(&base), &mut vec![]).map_err(|e| Fail { msg: format!("{} {seq:?}: {}", E::NAME, e.msg), ..e })?;
        s.transitions(seq.len() as u64);
        s.state((nr, nc, seq, bits));
    }
    Ok(finish()?)
}

// ---- the equality relation itself -------------------------------------------
/// All matrices with dims <= d over `vals`, in both orders.
fn universe<T: Clone>(d: usize, vals: &[T], lim: usize) -> Vec<(Vec<Vec<T>>, usize, usize, Matrix<T>)> {
    let mut v = vec![];
    for r in 0..=d {
        for c in 0..=d {
            if r * c > lim {
                continue;
            }
            let n = vals.len().pow((r * c) as u32);
            for k in 0..n {
                let mut q = k;
                let mut rows = vec![vec![]; r];
                for row in &mut rows {
                    for _ in 0..c {
                        row.push(vals[q % vals.len()].clone());
                        q /= vals.len();
                    }
                }
                for o in ORDERS {
                    for slack in [false, true] {
                        let mut m = Matrix::with_initializer((r, c), |i| rows[i.row][i.col].clone()).unwrap();
                        if slack {
                            // the same contents with another history
                            m.switch_order();
                            m.transpose();
                            m.switch_order();
                            m.transpose();
                        }
                        m.set_order(o.real());
                        v.push((rows.clone(), r, c, m));
                    }
                }
            }
        }
    }
    v
}

fn relation<T: Clone + PartialEq + std::fmt::Debug>(d: usize, vals: &[T], lim: usize, transitive: bool, s: &mut Stats) -> Res {
    let u = universe(d, vals, lim);
    let n = u.len();
    let mut eq = vec![false; n * n];
    for (i, a) in u.iter().enumerate() {
        for (j, b) in u.iter().enumerate() {
            let want = (a.1, a.2) == (b.1, b.2) && a.0.iter().zip(&b.0).all(|(x, y)| x.iter().zip(y).all(|(x, y)| x == y));
            let got = a.3 == b.3;
            eq[i * n + j] = got;
            ensure!(got == want, "{:?}-major {}x{} {:?} == {:?}-major {}x{} {:?} is {got}", a.3.order(), a.1, a.2, a.0, b.3.order(), b.1, b.2, b.0);
            ensure!((a.3 != b.3) != got, "!= agrees with ==");
            s.transitions(2);
        }
        s.state((std::any::type_name::<T>(), d, i));
    }
    for i in 0..n {
        for j in 0..n {
            ensure!(eq[i * n + j] == eq[j * n + i], "== is not symmetric");
            if transitive && eq[i * n + j] {
                for k in 0..n {
                    ensure!(!eq[j * n + k] || eq[i * n + k], "== is not transitive");
                }
            }
        }
        ensure!(!transitive || eq[i * n + i], "== is not reflexive");
    }
    Ok(())
}

/// One element differs, at every position; rows and columns exchanged; every
/// shape with the same number of elements.
fn nearly<T: Clone + PartialEq + std::fmt::Debug>(nr: usize, nc: usize, mk: fn(usize) -> T, at: &[usize], s: &mut Stats) -> Res {
    let n = nr * nc;
    for oa in ORDERS {
        for ob in ORDERS {
            let mut a = Matrix::with_initializer((nr, nc), |i| mk(i.row * nc + i.col)).unwrap();
            let mut b = a.clone();
            a.set_order(oa.real());
            b.set_order(ob.real());
            ensure!(a == b && !(a != b), "{oa:?} and {ob:?} {nr}x{nc}: equal matrices differ");
            s.transition();
            for &k in at {
                if k >= n {
                    continue;
                }
                let p = (k / nc, k % nc);
                let keep = b[p].clone();
                b[p] = mk(n + 1);
                ensure!(a != b && !(a == b) && b != a, "{oa:?} and {ob:?} {nr}x{nc}: a difference at {p:?} goes unnoticed");
                b[p] = keep;
                s.transitions(2);
                s.state(("nearly", nr, nc, oa, ob, k));
            }
            ensure!(b == a, "restored, yet different");
            // same elements in another shape, in either memory order
            for r in 1..=n {
                if n % r == 0 && (r, n / r) != (nr, nc) {
                    let mut c = b.clone();
                    c.reshape((r, n / r)).unwrap();
                    ensure!(a != c && c != a, "{oa:?} {nr}x{nc} equals {ob:?} {r}x{}", n / r);
                    if (r, n / r) == (nc, nr) {
                        let mut c = b.clone();
                        c.switch_order_without_rearrangement();
                        ensure!(a != c && c != a, "{oa:?} {nr}x{nc} equals its reinterpretation");
                    }
                    s.transitions(2);
                }
            }
        }
    }
    Ok(())
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    // one operation, every argument
    let d = if th { 4 } else { 3 };
    for r in 0..=d {
        for c in 0..=d {
            let mut v: Vec<Q> = ops::full(Ord_::R, r, c, d, true).into_iter().filter(|o| order_agnostic(*o)).map(O).collect();
            v.push(Look);
            v.extend((0..5).map(Show));
            v.extend((0..5).map(Same));
            for k in 0..=d {
                v.extend((0..5).map(|f| Prod(f, c, k)));
                v.extend((0..5).map(|f| Prod(f, c + 1, k)));
            }
            for v in v.chunks(60) {
                cx.case(|| format!("{} operations on {r}x{c}, {:?}..", v.len(), v[0]), |s| {
                    for q in v {
                        paired::<Tr>(r, c, &[*q], s)?;
                        paired::<P4>(r, c, &[*q], s)?;
                        paired::<P1>(r, c, &[*q], s)?;
                        paired::<P8>(r, c, &[*q], s)?;
                        paired::<TrB>(r, c, &[*q], s)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // larger and lopsided shapes
    for (r, c) in [(1, 9), (9, 1), (5, 4), (4, 5), (8, 8), (2, 17), (17, 2), (33, 1), (1, 33), (16, 16), (9, 15), (17, 33), (65, 3)] {
        let mut v: Vec<Q> = vec![Look, Show(0), Show(2), Same(0), Same(1), Same(2), Same(3), Same(4)];
        for f in 0..6 {
            v.push(O(Op::Operator(f % 2 == 0, f, Ord_::R, r, c)));
            v.push(O(Op::Operator(f % 2 == 0, f, Ord_::R, c, r)));
        }
        for f in 0..3 {
            v.push(O(Op::Elementwise(f, Ord_::R, r, c)));
            v.extend((0..5).map(|k| O(Op::Named(k, f, Ord_::R, r, c))));
            v.push(O(Op::Elementwise(f, Ord_::R, c, r)));
            v.push(O(Op::Scalar(f)));
        }
        for f in 0..5 {
            v.extend([Prod(f, c, 3), Prod(f, c, r), Prod(f, c, c), Prod(f, r, c)]);
        }
        v.extend([(r, c), (c, r), (r + 1, c), (r, c + 1), (r / 2, c), (r, c / 2), (3, 3), (1, c), (r, 1)].map(|(a, b)| O(Op::Overwrite(Ord_::R, a, b))));
        v.extend([O(Op::MulLike(Ord_::R, c, 4)), O(Op::MulLike(Ord_::R, c, r)), O(Op::Transpose), O(Op::Map), O(Op::MapRef), O(Op::Apply), O(Op::Neg(true)), O(Op::Neg(false)), O(Op::RowsMut), O(Op::ColsMut), O(Op::RowsMutMixed), O(Op::ElemsMutIdx), O(Op::IntoIterIdx), O(Op::SwapWrap((-1, -1), (0, 0))), O(Op::ParApply), O(Op::ParMap), O(Op::ParMapRef)]);
        for a in [0, 1, r / 2, r - 1, r] {
            for b in [0, r / 3, r - 1, r] {
                v.push(O(Op::SwapRows(a, b)));
            }
            v.extend([O(Op::NthRowMut(a)), O(Op::GetMut(a, c - 1)), O(Op::Swap((a, 0), (0, c - 1)))]);
        }
        for a in [0, 1, c / 2, c - 1, c] {
            for b in [0, c / 3, c - 1, c] {
                v.push(O(Op::SwapCols(a, b)));
            }
            v.extend([O(Op::NthColMut(a)), O(Op::GetMut(r - 1, a)), O(Op::Swap((0, a), (r - 1, 0)))]);
        }
        for v in v.chunks(12) {
            cx.case(|| format!("{} operations on {r}x{c}, {:?}..", v.len(), v[0]), |s| {
                for q in v {
                    paired::<P4>(r, c, &[*q], s)?;
                }
                Ok(())
            });
        }
    }
    for (r, c) in BIG.into_iter().chain(HUGE).filter(|b| b.0 * b.1 < if th { 200_000 } else { 150_000 }) {
        let mut v: Vec<Q> = vec![Look, Show(0), Same(0), Same(1), Same(2)];
        for f in 0..3 {
            v.push(O(Op::Elementwise(f, Ord_::R, r, c)));
            v.push(O(Op::Elementwise(f, Ord_::R, c, r)));
        }
        for (a, b) in [(r, c), (c, r)] {
            v.extend([O(Op::Operator(true, 4, Ord_::R, a, b)), O(Op::Operator(false, 1, Ord_::R, a, b)), O(Op::Named(3, 0, Ord_::R, a, b)), O(Op::Overwrite(Ord_::R, a, b))]);
        }
        v.extend([O(Op::Transpose), O(Op::Map), O(Op::MapRef), O(Op::Apply), O(Op::Neg(true)), O(Op::Scalar(1)), O(Op::ParApply), O(Op::ParMap), O(Op::ParMapRef), O(Op::RowsMut), O(Op::ColsMut)]);
        v.extend([O(Op::SwapRows(0, r - 1)), O(Op::SwapCols(0, c - 1)), O(Op::SwapRows(r, 0)), O(Op::SwapCols(0, c)), O(Op::NthRowMut(r - 1)), O(Op::NthColMut(c - 1)), O(Op::Swap((0, 0), (r - 1, c - 1)))]);
        if r.max(c) > 1500 {
            v.retain(|q| !matches!(q, Look)); // quadratic in the number of lines
        }
        if r * c < 5000 {
            v.extend([Prod(0, c, 3), Prod(2, c, 2), Prod(4, c, 1), O(Op::MulLike(Ord_::R, c, 2))]);
        } else {
            v.retain(|q| !matches!(q, Show(_)));
        }
        for v in v.chunks(4) {
            cx.case(|| format!("{} operations on {r}x{c}, {:?}..", v.len(), v[0]), |s| v.iter().try_for_each(|q| paired::<P4>(r, c, &[*q], s)));
        }
    }
    // histories
    let sts: Vec<(usize, usize)> = vec![(2, 3), (2, 2), (3, 2), (1, 3), (3, 1), (3, 3), (0, 2), (2, 0)];
    let mut med: Vec<Q> = ops::medium(true).into_iter().filter(|o| order_agnostic(*o)).map(O).collect();
    med.extend([Look, Show(0), Show(2), Same(0), Same(1), Same(3), Prod(0, 3, 2), Prod(4, 2, 3), Prod(1, 2, 2)]);
    for (r, c) in &sts {
        for a in &med {
            cx.case(|| format!("{a:?} then one more on {r}x{c}"), |s| med.iter().try_for_each(|b| paired::<P4>(*r, *c, &[*a, *b], s)));
        }
    }
    let core: Vec<Q> = [
        Op::Transpose,
        Op::Map,
        Op::Overwrite(Ord_::R, 2, 2),
        Op::Swap((0, 1), (1, 0)),
        Op::SwapRows(0, 1),
        Op::SwapCols(0, 1),
        Op::RowsMut,
        Op::ColsMut,
        Op::Elementwise(0, Ord_::R, 2, 2),
        Op::Elementwise(1, Ord_::R, 2, 3),
        Op::Elementwise(2, Ord_::R, 3, 2),
        Op::Operator(true, 5, Ord_::R, 2, 3),
        Op::Operator(false, 0, Ord_::R, 3, 2),
        Op::MulLike(Ord_::R, 3, 2),
        Op::Scalar(1),
        Op::CloneFrom(Ord_::R, 2, 3),
    ]
    .map(O)
    .into_iter()
    .chain([Prod(0, 3, 2), Prod(4, 2, 3), Look, Show(0)])
    .collect();
    for (r, c) in sts.iter().take(if th { 4 } else { 2 }) {
        for a in &core {
            for b in &core {
                cx.case(|| format!("{a:?}, {b:?} then one more on {r}x{c}"), |s| core.iter().try_for_each(|q| paired::<P4>(*r, *c, &[*a, *b, *q], s)));
            }
        }
    }
    if th {
        for a in &core {
            for b in &core {
                for q in &core {
                    cx.case(|| format!("{a:?}, {b:?}, {q:?} then one more on 2x3"), |s| core.iter().step_by(2).try_for_each(|p| paired::<P4>(2, 3, &[*a, *b, *q, *p], s)));
                }
            }
        }
    }
    // the relation
    cx.case(|| "== over all matrices with dims <= 2 over {0, 1}".into(), |s| relation(2, &[0u8, 1], 4, true, s));
    cx.case(|| "== over all matrices with dims <= 3, at most 3 elements, over {0, 1, 2}".into(), |s| relation(3, &[0i64, 1, 2], 3, true, s));
    cx.case(|| "== over all f64 matrices with dims <= 2 over {0, -0, 1, NaN}".into(), |s| relation(2, &[0.0, -0.0, 1.0, f64::NAN], if th { 4 } else { 2 }, false, s));
    cx.case(|| "== over all f64 matrices with dims <= 2 over {0, NaN}".into(), |s| relation(2, &[0.0, f64::NAN], 4, false, s));
    cx.case(|| "== over all unit matrices with dims <= 3".into(), |s| relation(3, &[()], 9, true, s));
    cx.case(|| "== over all string matrices with dims <= 2".into(), |s| relation(2, &[String::from(""), String::from("a")], 4, true, s));
    let ext = [0, 1, 2, 3, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, usize::MAX / 3, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    let shapes: Vec<(usize, usize)> = ext.iter().flat_map(|&r| ext.iter().map(move |&c| (r, c))).filter(|(r, c)| r.checked_mul(*c).is_some()).collect();
    for &a in &shapes {
        let shapes = shapes.clone();
        cx.soft(|| format!("== of a zero-sized {a:?} with every boundary shape"), move |s| {
            let of = |o: Ord_, (r, c): (usize, usize)| {
                let mut m = Matrix::from_row(vec![(); r * c]);
                m.set_order(o.real());
                m.reshape((r, c)).map_err(|e| format!("{e:?}"))?;
                Ok::<_, String>(m)
            };
            for &b in &shapes {
                if a == b && a.0 * a.1 > 1 << 17 {
                    continue;
                }
                for (oa, ob) in [(Ord_::R, Ord_::R), (Ord_::R, Ord_::C), (Ord_::C, Ord_::R), (Ord_::C, Ord_::C)] {
                    let (x, y) = (of(oa, a)?, of(ob, b)?);
                    s.transitions(4);
                    s.state((a, b, oa, ob));
                    ensure!((x == y) == (a == b) && (y == x) == (a == b), "{oa:?}-major {a:?} == {ob:?}-major {b:?} is {} / {}", x == y, y == x);
                    ensure!((x != y) == (a != b) && (y != x) == (a != b), "{oa:?}-major {a:?} != {ob:?}-major {b:?} is {} / {}", x != y, y != x);
                }
            }
            Ok(())
        });
    }
    cx.case(|| "== over matrices of matrices".into(), |s| {
        let a = Matrix::with_initializer((2, 2), |i| i.row * 2 + i.col).unwrap();
        let mut b = a.clone();
        b.switch_order();
        let mut t = a.clone();
        t.transpose();
        let mut e1: Matrix<usize> = Matrix::new();
        e1.resize((0, 2)).unwrap();
        let mut e2: Matrix<usize> = Matrix::new();
        e2.resize((2, 0)).unwrap();
        relation(2, &[a, b, t, e1, e2], 3, true, s)
    });
    // an element equality that is coarser than identity
    #[derive(Clone, Debug)]
    struct Mod3(u32);
    impl PartialEq for Mod3 {
        fn eq(&self, o: &Mod3) -> bool {
            self.0 % 3 == o.0 % 3
        }
    }
    cx.case(|| "== with a coarse element equality".into(), |s| relation(2, &[Mod3(0), Mod3(3), Mod3(1)], if th { 4 } else { 2 }, true, s));
    for (r, c) in (1..=7).flat_map(|r| (1..=7).map(move |c| (r, c))).chain([(1, 64), (64, 1), (16, 16), (17, 9), (9, 17), (32, 33), (3, 100), (100, 3)]) {
        cx.case(|| format!("one difference in {r}x{c}"), |s| {
            let n = r * c;
            let at: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..n).step_by(n / 40 + 1).chain([1, n / 2, n - 2, n - 1]).collect() };
            nearly::<u8>(r, c, |k| if k > 1 << 14 { 255 } else { (k % 250) as u8 }, if n < 250 { &at } else { &[] }, s)?;
            nearly::<u64>(r, c, |k| k as u64, &at, s)?;
            nearly::<String>(r, c, |k| k.to_string(), &at, s)
        });
    }
}

fn main() {
    run(
        Meta {
            prop: "C07",
            level: "model_checking",
            rule: "state = (start shape, history of order-agnostic operations, assignment of storage orders to the start matrix and every operand, subset of points at which switch_order() is inserted); each is executed on the real code next to the all-row-major run of the same history and compared after every step: outcome, error, logical contents, everything observed, Display text, == in both directions; plus the relation == over every pair and triple of a closed universe of small matrices",
            bounds: |t| {
                format!(
                    "every order-agnostic operation x argument on every shape <= {0}x{0} for three element types; 13 larger shapes up to 17x33 and 65x3; all pairs of ~110 operations from 8 shapes; all triples of 20 operations from {1} shapes{2}; every order assignment and every subset of switch points; == over all matrices with dims <= 2 (several value sets incl. NaN), single differences in shapes up to 100x3",
                    if t { 4 } else { 3 },
                    if t { 4 } else { 2 },
                    if t { "; quadruples of 20 operations from 2x3 (last one from 10)" } else { "" }
                )
            },
            assumptions: &[
                "order-sensitive operations (reshape, resize, memory-order iteration, Debug, *_without_rearrangement) are excluded, as in the property",
                "operand conversion uses the construction from rows followed by set_order, whose correctness C05 and C19 decide",
            ],
            stall_s: 120,
        },
        body,
    )
}
