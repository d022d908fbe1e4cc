//! C19: every way of building a matrix from rows, for every pattern of row
//! lengths; constructors filling a shape; the macros.
#![allow(semicolon_in_expressions_from_non_local_macros)]
use matreex::shape::Shape;
use matreex::{Error, Matrix, Order, col_vec, matrix, row_vec};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Hint {
    Exact,
    None,
    Under,
    OverUpper,
    LieLow,
    LieHigh,
}
const HINTS: [Hint; 6] = [Hint::Exact, Hint::None, Hint::Under, Hint::OverUpper, Hint::LieLow, Hint::LieHigh];

struct Src<T> {
    it: std::vec::IntoIter<T>,
    hint: Hint,
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::None => (0, None),
            Hint::Under => (n.saturating_sub(1), None),
            Hint::OverUpper => (n, Some(n + 5)),
            Hint::LieLow => (n / 2, Some(n / 2)), // wrong, but harmless by contract
            Hint::LieHigh => (n + 3, Some(n + 3)),
        }
    }
}

fn rows<E: Elem>(lens: &[usize]) -> Vec<Vec<E>> {
    let mut k = 0;
    lens.iter()
        .map(|n| {
            (0..*n)
                .map(|_| {
                    k += 1;
                    E::make(k)
                })
                .collect()
        })
        .collect()
}
fn model<E: Elem>(lens: &[usize]) -> Option<M> {
    let nc = lens.first().copied().unwrap_or(0);
    lens.iter().all(|n| *n == nc).then(|| M::numbered(Ord_::R, lens.len(), nc, 0).norm::<E>())
}
fn all_ids<E: Elem>(r: &[Vec<E>]) -> Vec<u64> {
    r.iter().flatten().map(|e| e.id()).collect()
}
fn built<E: Elem>(m: &Matrix<E>, x: &M, ids: Option<&[u64]>) -> Res {
    agree(m, x)?;
    if let Some(ids) = ids {
        let got: Vec<u64> = m.iter_elements().map(|e| e.id()).collect();
        ensure!(got == ids, "elements were not moved in");
    }
    Ok(())
}

/// Which route from rows of vectors.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Route {
    VecVec,
    Array,
    Slice,
    Collect,
    CollectHints(Hint, Hint),
    FromIterRefs,
}

fn judge<E: Elem>(r: Result<Matrix<E>, Option<Error>>, lens: &[usize], ids: Option<&[u64]>, panics: bool) -> Res {
    match (r, model::<E>(lens)) {
        (Ok(m), Some(x)) => built(&m, &x, ids),
        (Ok(m), None) => bail!("accepts ragged rows as {}x{}", m.nrows(), m.ncols()),
        (Err(e), Some(_)) => bail!("rejects uniform rows with {e:?} ({})", last_panic()),
        (Err(Some(Error::LengthInconsistent)), None) if !panics => Ok(()),
        (Err(None), None) if panics => Ok(()),
        (Err(e), None) => bail!("rejects ragged rows with {e:?} ({})", last_panic()),
    }
}

fn array<E: Elem, const N: usize>(src: Vec<Vec<E>>) -> Result<Matrix<E>, Error> {
    match <[Vec<E>; N]>::try_from(src) {
        Ok(a) => Matrix::try_from(a),
        Err(_) => unreachable!(),
    }
}

fn from_rows<E: Elem>(route: Route, lens: &[usize], s: &mut Stats) -> Res {
    reset();
    {
        let src = rows::<E>(lens);
        let ids = all_ids(&src);
        let c0 = counts();
        let caught = |f: &mut dyn FnMut() -> Matrix<E>| catch_unwind(AssertUnwindSafe(f)).map_err(|_| None);
        match route {
            Route::VecVec => judge(Matrix::try_from(src).map_err(Some), lens, Some(&ids), false)?,
            Route::Array => {
                let r = match lens.len() {
                    0 => array::<E, 0>(src),
                    1 => array::<E, 1>(src),
                    2 => array::<E, 2>(src),
                    3 => array::<E, 3>(src),
                    4 => array::<E, 4>(src),
                    5 => array::<E, 5>(src),
                    _ => array::<E, 6>(src),
                };
                judge(r.map_err(Some), lens, Some(&ids), false)?
            }
            Route::Slice => {
                judge(Matrix::try_from(&src[..]).map_err(Some), lens, None, false)?;
                ensure!(all_ids(&src) == ids, "source rows changed");
                ensure!(src.iter().map(Vec::len).eq(lens.iter().copied()), "source lengths changed");
                ensure!(src.iter().flatten().enumerate().all(|(k, e)| e.val() == E::norm(k as u32 + 1)), "source values changed");
            }
            Route::Collect => {
                let mut src = Some(src);
                judge(caught(&mut || src.take().unwrap().into_iter().collect()), lens, Some(&ids), true)?
            }
            Route::CollectHints(o, i) => {
                let rows: Vec<Src<E>> = src.into_iter().map(|r| Src { it: r.into_iter(), hint: i }).collect();
                let mut it = Some(Src { it: rows.into_iter(), hint: o });
                judge(caught(&mut || Matrix::from_iter(it.take().unwrap())), lens, Some(&ids), true)?
            }
            Route::FromIterRefs => {
                judge(caught(&mut || src.iter().map(|r| r.iter().cloned()).collect()), lens, None, true)?;
                ensure!(all_ids(&src) == ids, "source rows changed");
            }
        }
        if !matches!(route, Route::Slice | Route::FromIterRefs) {
            ensure!(counts().clones == c0.clones && counts().defaults == c0.defaults, "owned rows were cloned");
        }
        s.transition();
        s.state((E::NAME, route, lens));
    }
    Ok(finish()?)
}

/// The const-generic conversions, one instantiation per R x C.
fn fixed<E: Elem, const R: usize, const C: usize>(s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(Ord_::R, R, C, 0).norm::<E>();
        let mk = || -> [[E; C]; R] { std::array::from_fn(|r| std::array::from_fn(|c| E::make((r * C + c) as u32 + 1))) };
        let ids = |a: &[[E; C]]| -> Vec<u64> { a.iter().flatten().map(|e| e.id()).collect() };
        let a = mk();
        let i = ids(&a);
        built(&Matrix::from(a), &x, Some(&i))?;
        let v = Vec::from(mk());
        let i = ids(&v);
        built(&Matrix::from(v), &x, Some(&i))?;
        let a = mk();
        let i = ids(&a);
        built(&Matrix::from(&a[..]), &x, None)?;
        ensure!(ids(&a) == i && a.iter().flatten().enumerate().all(|(k, e)| e.val() == E::norm(k as u32 + 1)), "source changed");
        let m: Matrix<E> = mk().into_iter().collect();
        if R > 0 {
            built(&m, &x, None)?;
        } else {
            coherent(&m)?;
            ensure!(m.nrows() == 0 && m.is_empty(), "collecting no rows gives {}x{}", m.nrows(), m.ncols());
        }
        // from_row and from_col of every C
        let flat = || -> [E; C] { std::array::from_fn(|c| E::make(c as u32 + 1)) };
        let row = M::numbered(Ord_::R, 1, C, 0).norm::<E>();
        let col = M::numbered(Ord_::R, C, 1, 0).norm::<E>();
        built(&Matrix::from_row(flat()), &row, None)?;
        built(&Matrix::from_row(Vec::from(flat())), &row, None)?;
        built(&Matrix::from_row(Box::<[E]>::from(flat())), &row, None)?;
        built(&Matrix::from_row(std::collections::VecDeque::from(flat())), &row, None)?;
        built(&Matrix::from_row(&flat()[..]), &row, None)?;
        built(&Matrix::from_col(flat()), &col, None)?;
        built(&Matrix::from_col(Vec::from(flat())), &col, None)?;
        built(&Matrix::from_col(Box::<[E]>::from(flat())), &col, None)?;
        built(&Matrix::from_col(&flat()[..]), &col, None)?;
        // spare capacity in the source does not matter
        let mut v = Vec::with_capacity(C + 9);
        v.extend(flat());
        built(&Matrix::from_col(v), &col, None)?;
        s.transitions(14);
        s.state((E::NAME, R, C));
    }
    Ok(finish()?)
}

/// Many rows that are arrays of one length, and long single rows and columns.
fn slab<E: Elem, const C: usize>(nr: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(Ord_::R, nr, C, 0).norm::<E>();
        let v: Vec<[E; C]> = (0..nr).map(|r| std::array::from_fn(|c| E::make((r * C + c) as u32 + 1))).collect();
        let ids: Vec<u64> = v.iter().flatten().map(|e| e.id()).collect();
        built(&Matrix::from(&v[..]), &x, None)?;
        ensure!(v.iter().flatten().map(|e| e.id()).eq(ids.iter().copied()), "source changed");
        if nr > 0 {
            built(&v.iter().map(|r| r.iter().cloned()).collect::<Matrix<E>>(), &x, None)?;
        }
        built(&Matrix::from(v), &x, Some(&ids))?;
        let flat = || -> Vec<E> { (0..nr * C).map(|k| E::make(k as u32 + 1)).collect() };
        built(&Matrix::from_row(flat()), &M::numbered(Ord_::R, 1, nr * C, 0).norm::<E>(), None)?;
        built(&Matrix::from_col(flat()), &M::numbered(Ord_::R, nr * C, 1, 0).norm::<E>(), None)?;
        let mut spare = Vec::with_capacity(nr * C + 1000);
        spare.extend(flat());
        built(&Matrix::from_row(spare), &M::numbered(Ord_::R, 1, nr * C, 0).norm::<E>(), None)?;
        built(&Matrix::from_col(&flat()[..]), &M::numbered(Ord_::R, nr * C, 1, 0).norm::<E>(), None)?;
        s.transitions(7);
        s.state((E::NAME, "slab", nr, C));
    }
    Ok(finish()?)
}

fn fills<E: Elem>(nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let o = Ord_::of(Order::default());
        let d = M::new(o, nr, nc, |_, _| E::norm(DEFAULT));
        let v = M::new(o, nr, nc, |_, _| E::norm(42));
        let sh = Shape::new(nr, nc);
        let c = |e: Error| Fail::from(format!("{e:?}"));
        agree(&Matrix::<E>::with_default((nr, nc)).map_err(c)?, &d)?;
        agree(&Matrix::<E>::with_default([nr, nc]).map_err(c)?, &d)?;
        agree(&Matrix::<E>::with_default(sh).map_err(c)?, &d)?;
        agree(&Matrix::<E>::with_default(Shape::new(nr, nc)).map_err(c)?, &d)?;
        agree(&Matrix::with_value((nr, nc), E::make(42)).map_err(c)?, &v)?;
        agree(&Matrix::with_value([nr, nc], E::make(42)).map_err(c)?, &v)?;
        agree(&Matrix::with_value(sh, E::make(42)).map_err(c)?, &v)?;
        let mut log: Vec<(usize, usize, u64)> = vec![];
        let f = |r: usize, c: usize| (r * 11 + c) as u32;
        let m: Matrix<E> = Matrix::with_initializer(sh, |i| {
            let e = E::make(f(i.row, i.col));
            log.push((i.row, i.col, e.id()));
            e
        })
        .map_err(c)?;
        agree(&m, &M::new(o, nr, nc, f).norm::<E>())?;
        log.sort();
        let want: Vec<(usize, usize, u64)> = (0..nr).flat_map(|r| (0..nc).map(move |c| (r, c))).map(|(r, c)| (r, c, m[(r, c)].id())).collect();
        ensure!(log == want, "initializer calls and the elements they returned (row, col, id) {log:?}, stored {want:?}");
        s.transitions(8);
        // macros with run-time extents
        agree(&matrix![[E::make(42); nc]; nr], &v)?;
        agree(&row_vec![E::make(42); nc], &M { nr: 1, ..M::new(o, 1, nc, |_, _| E::norm(42)) })?;
        agree(&col_vec![E::make(42); nr], &M::new(o, nr, 1, |_, _| E::norm(42)))?;
        let g = |k: usize| M::new(o, nr, k, |_, c| E::norm(c as u32 + 1));
        agree(&matrix![[E::make(1)]; nr], &g(1))?;
        agree(&matrix![[E::make(1), E::make(2)]; nr], &g(2))?;
        agree(&matrix![[E::make(1), E::make(2), E::make(3),]; nr], &g(3))?;
        s.transitions(6);
        s.state((E::NAME, "fill", nr, nc));
        for cap in [0, 1, nr * nc] {
            let m = Matrix::<E>::with_capacity(cap);
            coherent(&m)?;
            ensure!(m.is_empty() && (m.nrows(), m.ncols()) == (0, 0) && m.capacity() >= cap, "with_capacity({cap})");
        }
    }
    Ok(finish()?)
}

fn macros(s: &mut Stats) -> Res {
    let chk = |m: Matrix<i32>, want: &[&[i32]], nr: usize, nc: usize| {
        coherent(&m)?;
        ensure!((m.nrows(), m.ncols()) == (nr, nc), "macro gives {}x{}, expected {nr}x{nc}", m.nrows(), m.ncols());
        for r in 0..nr {
            for c in 0..nc {
                ensure!(m[(r, c)] == want[r][c], "macro gives {} at ({r}, {c}), expected {}", m[(r, c)], want[r][c]);
            }
        }
        Ok::<(), Fail>(())
    };
    chk(matrix![], &[], 0, 0)?;
    chk(matrix![[1]], &[&[1]], 1, 1)?;
    chk(matrix![[1, 2, 3]], &[&[1, 2, 3]], 1, 3)?;
    chk(matrix![[1], [2], [3]], &[&[1], &[2], &[3]], 3, 1)?;
    chk(matrix![[1, 2, 3], [4, 5, 6]], &[&[1, 2, 3], &[4, 5, 6]], 2, 3)?;
    chk(matrix![[1, 2, 3,], [4, 5, 6,],], &[&[1, 2, 3], &[4, 5, 6]], 2, 3)?;
    chk(matrix![[1, 2], [3, 4], [5, 6]], &[&[1, 2], &[3, 4], &[5, 6]], 3, 2)?;
    chk(matrix![[7; 3]; 2], &[&[7, 7, 7], &[7, 7, 7]], 2, 3)?;
    chk(matrix![[7; 2]; 3], &[&[7, 7], &[7, 7], &[7, 7]], 3, 2)?;
    chk(matrix![[7; 2]; 0], &[], 0, 2)?;
    chk(matrix![[7; 0]; 3], &[], 3, 0)?;
    chk(matrix![[1, 2]; 3], &[&[1, 2], &[1, 2], &[1, 2]], 3, 2)?;
    chk(matrix![[1, 2, 3]; 2], &[&[1, 2, 3], &[1, 2, 3]], 2, 3)?;
    chk(matrix![[1, 2, 3]; 0], &[], 0, 3)?;
    chk(matrix![[0; 3], [1; 3]], &[&[0, 0, 0], &[1, 1, 1]], 2, 3)?;
    let r = [4, 5];
    chk(matrix![[1, 2], r], &[&[1, 2], &[4, 5]], 2, 2)?;
    chk(row_vec![], &[&[]], 1, 0)?;
    chk(row_vec![1, 2, 3], &[&[1, 2, 3]], 1, 3)?;
    chk(row_vec![1, 2, 3,], &[&[1, 2, 3]], 1, 3)?;
    chk(row_vec![9; 3], &[&[9, 9, 9]], 1, 3)?;
    chk(row_vec![9; 0], &[&[]], 1, 0)?;
    chk(col_vec![], &[], 0, 1)?;
    chk(col_vec![1, 2, 3], &[&[1], &[2], &[3]], 3, 1)?;
    chk(col_vec![1, 2, 3,], &[&[1], &[2], &[3]], 3, 1)?;
    chk(col_vec![9; 3], &[&[9], &[9], &[9]], 3, 1)?;
    // a macro's expressions are evaluated once each, in order
    let n = std::cell::Cell::new(0);
    let next = || {
        n.set(n.get() + 1);
        n.get()
    };
    chk(matrix![[next(), next()], [next(), next()]], &[&[1, 2], &[3, 4]], 2, 2)?;
    chk(row_vec![next(), next()], &[&[5, 6]], 1, 2)?;
    chk(col_vec![next(), next()], &[&[7], &[8]], 2, 1)?;
    chk(matrix![[next(); 2]; 2], &[&[9, 9], &[9, 9]], 2, 2)?;
    ensure!(n.get() == 9, "expressions evaluated {} times", n.get());
    // so are the counts: they describe one matrix even if they change
    let k = std::cell::Cell::new(0);
    let more = || {
        k.set(k.get() + 1);
        k.get()
    };
    chk(matrix![[7; 2]; more()], &[&[7, 7]], 1, 2)?;
    chk(matrix![[7; more()]; 1], &[&[7, 7]], 1, 2)?;
    chk(matrix![[7, 8]; more() - 1], &[&[7, 8], &[7, 8]], 2, 2)?;
    chk(row_vec![9; more()], &[&[9, 9, 9, 9]], 1, 4)?;
    chk(col_vec![9; more() - 3], &[&[9], &[9]], 2, 1)?;
    ensure!(k.get() == 5, "5 counts evaluated {} times", k.get());
    ensure!(catch_unwind(|| matrix![[(); usize::MAX]; 2]).is_err(), "matrix! accepts an overflowing shape");
    s.transitions(30);
    s.state("macros");
    Ok(())
}

/// Rows of zero-sized elements too long to ever exist: ragged patterns whose
/// total length wraps around.
fn huge(lens: &[usize], s: &mut Stats) -> Res {
    let src: Vec<Vec<ZA>> = lens.iter().map(|n| vec![ZA; *n]).collect();
    let uniform = lens.iter().all(|n| *n == lens[0]);
    let total: u128 = lens.iter().map(|n| *n as u128).sum();
    let a = Matrix::try_from(&src[..]);
    let b = Matrix::try_from(src.clone());
    for r in [a, b] {
        match r {
            Ok(m) => {
                ensure!(uniform && total <= usize::MAX as u128, "accepts {lens:?}");
                ensure!((m.nrows(), m.ncols()) == (lens.len(), lens[0]) && m.size() as u128 == total, "gives {}x{}", m.nrows(), m.ncols());
            }
            Err(Error::LengthInconsistent) => ensure!(!uniform, "rejects uniform {lens:?}"),
            Err(Error::SizeOverflow) => ensure!(total > usize::MAX as u128 && uniform, "SizeOverflow for {lens:?}"),
            Err(e) => bail!("{e:?} for {lens:?}"),
        }
        s.transition();
    }
    if !uniform {
        let r = catch_unwind(|| src.iter().map(|r| r.iter().copied()).take(3).collect::<Matrix<ZA>>().size());
        // only lengths small enough to walk are collected
        ensure!(r.is_err() || total > 1 << 20, "collects {lens:?}");
    }
    s.state(("huge", lens));
    Ok(())
}

fn main() {
    run(
        Meta {
            prop: "C19",
            level: "model_checking",
            rule: "every vector of row lengths in the bound through every dynamic route (owned, array of vectors, borrowed, FromIterator with 36 size-hint combinations), every R x C instantiation of the const-generic routes, every filled shape, and all macro arms; contents, identity of moved elements, initializer log, rejection and drop ledger compared with the rows given",
            bounds: |t| {
                if t {
                    "row counts 0-5 with lengths 0-4 (3,906 patterns), 6 rows of lengths 0-2; arrays up to 6x6; fills up to 9x9 with 4 element types, up to 40x40 and 24 long shapes with 2; 10 long row patterns (up to 300 rows) uniform and with a wrong row at every place".into()
                } else {
                    "row counts 0-4 with lengths 0-3 (341 patterns), 5 rows of lengths 0-2; arrays up to 4x4; fills up to 5x5 with 4 element types, up to 20x20 and 24 long shapes with 2; 10 long row patterns (up to 260 rows) uniform and with a wrong row at every place".into()
                }
            },
            assumptions: &["zero dynamic rows give ncols = 0", "size hints that are wrong are tolerated, as for the standard collections"],
            stall_s: 60,
        },
        |cx| {
            let t = cx.thorough;
            let mut pats: Vec<Vec<usize>> = vec![];
            let mut add = |max_rows: usize, max_len: usize| {
                let mut level: Vec<Vec<usize>> = vec![vec![]];
                for k in 0..=max_rows {
                    pats.extend(level.iter().cloned());
                    if k < max_rows {
                        level = level.iter().flat_map(|p| (0..=max_len).map(move |l| [p.clone(), vec![l]].concat())).collect();
                    }
                }
            };
            if t {
                add(5, 4);
                add(6, 2);
            } else {
                add(4, 3);
                add(5, 2);
            }
            pats.sort_by_key(|p| p.len());
            pats.dedup();
            pats.sort();
            pats.dedup();
            pats.extend([vec![9, 9, 9], vec![9, 9, 8], vec![8, 9, 9], vec![9, 8, 9], vec![17; 6], vec![17, 17, 17, 0, 17, 17]]);
            let mut routes = vec![Route::VecVec, Route::Array, Route::Slice, Route::Collect, Route::FromIterRefs];
            for a in HINTS {
                for b in HINTS {
                    routes.push(Route::CollectHints(a, b));
                }
            }
            for p in &pats {
                for r in &routes {
                    macro_rules! go {
                        ($($t:ty)*) => {$(
                            cx.case(|| format!("{r:?} rows of lengths {p:?} of {}", <$t>::NAME), |s| from_rows::<$t>(*r, p, s));
                        )*};
                    }
                    go!(Tr TrZ P1 P8 TrB);
                    if t {
                        go!(P16);
                    }
                }
            }
            macro_rules! fix {
                ($($r:literal: $($c:literal)*;)*) => {$($(
                    cx.case(|| format!("fixed arrays {}x{} of Tr24", $r, $c), |s| fixed::<Tr, $r, $c>(s));
                    cx.case(|| format!("fixed arrays {}x{} of TrZ0", $r, $c), |s| fixed::<TrZ, $r, $c>(s));
                    cx.case(|| format!("fixed arrays {}x{} of P1", $r, $c), |s| fixed::<P1, $r, $c>(s));
                    cx.case(|| format!("fixed arrays {}x{} of P8", $r, $c), |s| fixed::<P8, $r, $c>(s));
                    cx.case(|| format!("fixed arrays {}x{} of TrB", $r, $c), |s| fixed::<TrB, $r, $c>(s));
                )*)*};
            }
            fix!(0: 0 1 2 3 4; 1: 0 1 2 3 4; 2: 0 1 2 3 4; 3: 0 1 2 3 4; 4: 0 1 2 3 4; 7: 1 2 5; 1: 9;);
            let d = if t { 9 } else { 5 };
            for nr in 0..=d {
                for nc in 0..=d {
                    cx.case(|| format!("filling {nr}x{nc} of Tr24"), |s| fills::<Tr>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of TrZ0"), |s| fills::<TrZ>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of P1"), |s| fills::<P1>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of P16"), |s| fills::<P16>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of P8"), |s| fills::<P8>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of Tr8"), |s| fills::<Tr8>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of TrB"), |s| fills::<TrB>(nr, nc, s));
                    cx.case(|| format!("filling {nr}x{nc} of P64"), |s| fills::<P64>(nr, nc, s));
                }
            }
            // long patterns: uniform, and with one row off by one at every place
            let mut long: Vec<Vec<usize>> = BIG.iter().filter(|b| b.0 * b.1 <= 5000).map(|&(r, c)| vec![c; r]).collect();
            for (r, c) in [(1, 300), (40, 3), (64, 1), (65, 2), (130, 1), (9, 40), (17, 33), (257, 1), (33, 0), (260, 0)] {
                long.push(vec![c; r]);
                for k in 0..r {
                    if !t && r > 70 && k > 3 && k < r - 4 && k % 16 > 1 {
                        continue;
                    }
                    for l in [c + 1, c.wrapping_sub(1), 0, 2 * c] {
                        if l <= 2 * c + 1 && l != c {
                            let mut p = vec![c; r];
                            p[k] = l;
                            long.push(p);
                        }
                    }
                    // one longer and one shorter: the total still fits
                    if c > 0 && r > 1 {
                        let mut p = vec![c; r];
                        p[k] += 1;
                        p[(k + 1) % r] -= 1;
                        long.push(p);
                    }
                }
            }
            for p in &long {
                for r in [Route::VecVec, Route::Slice, Route::Collect, Route::FromIterRefs, Route::CollectHints(Hint::None, Hint::None), Route::CollectHints(Hint::LieHigh, Hint::LieLow)] {
                    let name = || {
                        let n = p.len();
                        let odd: Vec<_> = p.iter().enumerate().filter(|(_, l)| **l != p[n / 2]).collect();
                        format!("{n} rows of length {} except (row, length) {odd:?}, {r:?}", p[n / 2])
                    };
                    cx.case(|| format!("{} of Tr24", name()), |s| from_rows::<Tr>(r, p, s));
                    cx.case(|| format!("{} of P1", name()), |s| from_rows::<P1>(r, p, s));
                    cx.case(|| format!("{} of P8", name()), |s| from_rows::<P8>(r, p, s));
                }
            }
            for (nr, nc) in sweep(d, if t { 40 } else { 20 }).into_iter().chain(BIG).chain(HUGE) {
                cx.case(|| format!("filling {nr}x{nc} of P1"), |s| fills::<P1>(nr, nc, s));
                if nr * nc > 100_000 && !t {
                    continue;
                }
                cx.case(|| format!("filling {nr}x{nc} of Tr24"), |s| fills::<Tr>(nr, nc, s));
            }
            cx.case(|| "macros".into(), macros);
            let mut many: Vec<usize> = (1..=if t { 700 } else { 130 }).collect();
            for b in 8..=if t { 17 } else { 14 } {
                many.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
            }
            many.extend([10_000, 65_535, 65_536, 65_537]);
            macro_rules! slabs {
                ($($c:literal)*) => {$(
                    for &n in &many {
                        if n * $c > if t { 1 << 21 } else { 1 << 17 } {
                            continue;
                        }
                        cx.case(|| format!("{n} arrays of {} of P1", $c), |s| slab::<P1, $c>(n, s));
                        if n * $c < if t { 100_000 } else { 10_000 } {
                            cx.case(|| format!("{n} arrays of {} of Tr24", $c), |s| slab::<Tr, $c>(n, s));
                            cx.case(|| format!("{n} arrays of {} of P8", $c), |s| slab::<P8, $c>(n, s));
                        }
                    }
                )*};
            }
            slabs!(0 1 2 3 7 16 33 300);
            for n in [1023usize, 1024, 1025, 2048, 4096, 4097, 65_535, 65_536, 65_537] {
                for c in [1, 2] {
                    let at = [0, 1, 255, 256, 1000, 1022, 1023, 1024, n / 2, n - 2, n - 1];
                    for k in at.into_iter().filter(|&k| k < n).map(Some).chain([None]) {
                        for l in [c + 1, c - 1] {
                            let mut p = vec![c; n];
                            if let Some(k) = k {
                                p[k] = l;
                            }
                            for r in [Route::VecVec, Route::Slice, Route::Collect] {
                                cx.case(|| format!("{n} rows of length {c}, row {k:?} of length {l}, {r:?} of P1"), |s| from_rows::<P1>(r, &p, s));
                            }
                        }
                    }
                }
            }
            let b = usize::MAX;
            let h = b / 2 + 1;
            for l in [
                vec![b], vec![b, b], vec![b, 0], vec![0, b], vec![h, h], vec![h - 1, h - 1], vec![h, h - 1], vec![h - 1, h], vec![1, b], vec![b, 1],
                vec![2, b, 3], vec![2, 0, b], vec![h, 0, h], vec![h, h, 1], vec![b / 3, b / 3, b / 3], vec![b / 3 + 1, b / 3 + 1, b / 3 + 1], vec![h, 1, h], vec![0, h, h],
            ] {
                let q = l.clone();
                cx.soft(|| format!("rows of zero-sized elements of lengths {l:?}"), move |s| huge(&q, s));
            }
        },
    )
}
