//! The operation alphabet shared by C01, C02 and C09: every kind of safe
//! public operation, executed on the real matrix and on the reference model.
use crate::elem::*;
use crate::model::*;
use crate::sup::{Fail, Res};
use crate::{bail, ensure};
use matreex::index::{AsIndex, Index, WrappingIndex};
#[cfg(feature = "par")]
use matreex::parallel::*;
use matreex::{Error, Matrix};
use std::fmt::Write;
use std::ops::{Add, Mul};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Transpose,
    Switch,
    SwitchRaw,
    Set(Ord_),
    SetRaw(Ord_),
    Reshape(usize, usize),
    Resize(usize, usize),
    ShrinkFit,
    ShrinkTo(usize),
    Clear,
    Overwrite(Ord_, usize, usize),
    Apply,
    Map,
    MapRef,
    Swap((usize, usize), (usize, usize)),
    SwapWrap((isize, isize), (isize, isize)),
    SwapUser((usize, usize), (usize, usize)),
    SwapRows(usize, usize),
    SwapCols(usize, usize),
    GetMut(usize, usize),
    IndexMut(usize, usize),
    WrapMut(isize, isize),
    UserMut(usize, usize),
    ReadAll,
    RowsMut,
    ColsMut,
    /// take rows from both ends, elements from both ends, write into all
    RowsMutMixed,
    NthRowMut(usize),
    NthColMut(usize),
    ElemsMut,
    ElemsMutIdx,
    /// exchange the first and last reference handed out
    ElemsSwap,
    /// consume some elements from the front and the back, drop the rest
    IntoIter(usize, usize),
    IntoIterIdx,
    /// elements with index, some from each end; the rest are dropped with the iterator
    IntoIterSome(usize, usize),
    Rebuild(u8),
    CloneReplace,
    CloneFrom(Ord_, usize, usize),
    Take,
    Elementwise(u8, Ord_, usize, usize),
    /// operator 0..5, form 0..3
    Named(u8, u8, Ord_, usize, usize),
    /// + or -, form 0..6
    Operator(bool, u8, Ord_, usize, usize),
    Multiply(u8, Ord_, usize, usize),
    MulLike(Ord_, usize, usize),
    Scalar(u8),
    Neg(bool),
    Compare(Ord_, usize, usize, bool),
    Contains(bool),
    Format(bool),
    WithDefault(usize, usize),
    WithValue(usize, usize),
    WithInit(usize, usize),
    ParApply,
    ParMap,
    ParMapRef,
    ParElemsMut(bool),
    IntoPar(bool),
}
use Op::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    Err(Error),
    Panic,
}

/// Where the calls of a fallible in-place operation end when they fail.
impl Op {
    /// The receiver is modified in place, or not at all.
    pub fn in_place(self) -> bool {
        match self {
            Reshape(..) | Resize(..) | Swap(..) | SwapWrap(..) | SwapUser(..) | SwapRows(..) | SwapCols(..) => true,
            Elementwise(f, ..) => f == 2,
            Named(_, f, ..) => f == 2,
            Operator(_, f, ..) => f >= 4,
            GetMut(..) | IndexMut(..) | WrapMut(..) | UserMut(..) | NthRowMut(..) | NthColMut(..) => true,
            _ => false,
        }
    }
    pub fn aux(self, x: &M, base: u32) -> Option<M> {
        let m = |o, r, c| Some(M::numbered(o, r, c, base + 1000));
        match self {
            Overwrite(o, r, c) | CloneFrom(o, r, c) | Elementwise(_, o, r, c) | Named(_, _, o, r, c) | Operator(_, _, o, r, c) | Multiply(_, o, r, c) | MulLike(o, r, c) => m(o, r, c),
            Compare(o, r, c, same) => {
                if same && (r, c) == (x.nr, x.nc) {
                    Some(M { order: o, ..x.clone() })
                } else if same && r * c > 0 && (r, c) == (x.nc, x.nr) {
                    Some(M { order: o, ..x.transposed() })
                } else {
                    m(o, r, c)
                }
            }
            _ => None,
        }
    }
}

/// Caller-defined index.
#[derive(Clone, Copy)]
pub struct UserIx(pub usize, pub usize);
impl AsIndex for UserIx {
    fn row(&self) -> usize {
        tick(Kind::Index);
        self.0
    }
    fn col(&self) -> usize {
        tick(Kind::Index);
        self.1
    }
}

// Operand and result types of products: the result's addition is commutative
// and associative, so that no accumulation order is demanded.
pub struct W<E>(pub E);
pub struct Acc<E>(pub E);
impl<E: Elem> Clone for W<E> {
    fn clone(&self) -> Self {
        W(self.0.clone())
    }
}
impl<E: Elem> Mul for W<E> {
    type Output = Acc<E>;
    fn mul(self, o: W<E>) -> Acc<E> {
        tick(Kind::Op);
        Acc(E::make(mix(MUL, self.0.val(), o.0.val())))
    }
}
impl<E: Elem> Add for Acc<E> {
    type Output = Acc<E>;
    fn add(self, o: Acc<E>) -> Acc<E> {
        tick(Kind::Op);
        Acc(E::make(self.0.val().wrapping_add(o.0.val())))
    }
}
impl<E: Elem> Default for Acc<E> {
    fn default() -> Self {
        Acc(E::default())
    }
}

fn op_code(k: u8) -> u32 {
    [ADD, SUB, MUL, DIV, REM][k as usize]
}

/// A replacement value for position k.
fn fresh(base: u32, k: usize) -> u32 {
    base + 1 + k as u32
}

// ---- the real side ------------------------------------------------------------
fn res<T>(r: Result<T, Error>, obs: &mut Vec<u64>) -> Option<T> {
    match r {
        Ok(t) => Some(t),
        Err(e) => {
            obs.push(u64::MAX);
            LAST_ERR.with(|l| *l.borrow_mut() = Some(e));
            None
        }
    }
}
thread_local! {
    static LAST_ERR: std::cell::RefCell<Option<Error>> = const { std::cell::RefCell::new(None) };
}

/// Run `op`. `m` stays a valid matrix whatever happens; so does `aux` when
/// it is only borrowed (otherwise it is left empty).
pub fn exec<E: Elem>(op: Op, m: &mut Matrix<E>, aux: &mut Matrix<E>, base: u32, obs: &mut Vec<u64>) -> Out {
    LAST_ERR.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| raw(op, m, aux, base, obs)));
    match r {
        Err(_) => Out::Panic,
        Ok(()) => match LAST_ERR.with(|l| l.borrow_mut().take()) {
            Some(e) => Out::Err(e),
            None => Out::Ok,
        },
    }
}

fn raw<E: Elem>(op: Op, m: &mut Matrix<E>, aux: &mut Matrix<E>, base: u32, obs: &mut Vec<u64>) {
    let take = std::mem::take::<Matrix<E>>;
    let f1 = |v: u32| mix(FN1, v, 0);
    let f2 = |a: u32, b: u32| mix(FN2, a, b);
    let put = |e: &mut E, k: usize| {
        tick(Kind::Closure);
        *e = E::make(fresh(base, k));
    };
    match op {
        Transpose => {
            m.transpose();
        }
        Switch => {
            m.switch_order();
        }
        SwitchRaw => {
            m.switch_order_without_rearrangement();
        }
        Set(o) => {
            m.set_order(o.real());
        }
        SetRaw(o) => {
            m.set_order_without_rearrangement(o.real());
        }
        Reshape(r, c) => {
            res(m.reshape((r, c)).map(|_| ()), obs);
        }
        Resize(r, c) => {
            res(m.resize([r, c]).map(|_| ()), obs);
        }
        ShrinkFit => {
            m.shrink_to_fit();
        }
        ShrinkTo(k) => {
            m.shrink_to(k);
        }
        Clear => {
            m.clear();
        }
        Overwrite(..) => {
            m.overwrite(aux);
        }
        Apply => {
            m.apply(|e| {
                tick(Kind::Closure);
                let v = f1(e.val());
                e.set(v);
            });
        }
        Map => {
            let r = take(m).map(|e| {
                tick(Kind::Closure);
                E::make(f1(e.val()))
            });
            if let Some(n) = res(r, obs) {
                *m = n;
            }
        }
        MapRef => {
            let r = m.map_ref(|e| {
                tick(Kind::Closure);
                E::make(f1(e.val()))
            });
            if let Some(n) = res(r, obs) {
                *m = n;
            }
        }
        Swap(i, j) => {
            res(m.swap(i, [j.0, j.1]).map(|_| ()), obs);
        }
        SwapWrap(i, j) => {
            res(m.swap(WrappingIndex::new(i.0, i.1), WrappingIndex::new(j.0, j.1)).map(|_| ()), obs);
        }
        SwapUser(i, j) => {
            res(m.swap(UserIx(i.0, i.1), UserIx(j.0, j.1)).map(|_| ()), obs);
        }
        SwapRows(a, b) => {
            res(m.swap_rows(a, b).map(|_| ()), obs);
        }
        SwapCols(a, b) => {
            res(m.swap_cols(a, b).map(|_| ()), obs);
        }
        GetMut(r, c) => {
            if let Some(e) = res(m.get_mut((r, c)), obs) {
                put(e, 0);
            }
        }
        IndexMut(r, c) => put(&mut m[Index::new(r, c)], 0),
        WrapMut(r, c) => {
            if let Some(e) = res(m.get_mut(WrappingIndex::new(r, c)), obs) {
                put(e, 0);
            }
        }
        UserMut(r, c) => put(&mut m[UserIx(r, c)], 0),
        ReadAll => {
            for v in m.iter_rows() {
                obs.extend(v.map(|e| e.val() as u64));
            }
            for v in m.iter_cols() {
                obs.extend(v.rev().map(|e| e.val() as u64));
            }
            obs.extend(m.iter_elements().map(|e| e.val() as u64));
            for (i, e) in m.iter_elements_with_index() {
                obs.extend([i.row as u64, i.col as u64, e.val() as u64]);
            }
            for n in 0..m.nrows() {
                obs.extend(m.iter_nth_row(n).unwrap().map(|e| e.val() as u64));
            }
            for n in 0..m.ncols() {
                obs.extend(m.iter_nth_col(n).unwrap().map(|e| e.val() as u64));
            }
        }
        RowsMut => {
            let nc = m.ncols();
            for (r, row) in m.iter_rows_mut().enumerate() {
                for (c, e) in row.enumerate() {
                    put(e, r * nc + c);
                }
            }
        }
        ColsMut => {
            let nc = m.ncols();
            for (c, col) in m.iter_cols_mut().enumerate() {
                for (r, e) in col.enumerate() {
                    put(e, r * nc + c);
                }
            }
        }
        RowsMutMixed => {
            // all references alive at once, obtained from both ends
            let (nr, nc) = (m.nrows(), m.ncols());
            let mut it = m.iter_rows_mut();
            let mut rows = vec![];
            for k in 0..nr {
                let row = if k % 2 == 0 { it.next() } else { it.next_back() };
                let at = if k % 2 == 0 { k / 2 } else { nr - 1 - k / 2 };
                rows.push((at, row.unwrap()));
            }
            obs.push(it.len() as u64);
            let mut es: Vec<(usize, &mut E)> = vec![];
            for (r, mut row) in rows {
                for k in 0..nc {
                    let e = if k % 2 == 1 { row.next() } else { row.next_back() };
                    let c = if k % 2 == 1 { k / 2 } else { nc - 1 - k / 2 };
                    es.push((r * nc + c, e.unwrap()));
                }
            }
            for (k, e) in es {
                put(e, k);
            }
        }
        NthRowMut(n) => {
            if let Some(it) = res(m.iter_nth_row_mut(n), obs) {
                it.enumerate().for_each(|(k, e)| put(e, k));
            }
        }
        NthColMut(n) => {
            if let Some(it) = res(m.iter_nth_col_mut(n), obs) {
                it.enumerate().for_each(|(k, e)| put(e, k));
            }
        }
        ElemsMut => m.iter_elements_mut().enumerate().for_each(|(k, e)| put(e, k)),
        ElemsMutIdx => {
            let nc = m.ncols();
            m.iter_elements_mut_with_index().for_each(|(i, e)| put(e, i.row * nc + i.col));
        }
        ElemsSwap => {
            let mut it = m.iter_elements_mut();
            if let (Some(a), Some(b)) = (it.next(), it.next_back()) {
                std::mem::swap(a, b);
            }
        }
        IntoIter(f, b) => {
            let mut it = take(m).into_iter_elements();
            let mut v: Vec<E> = vec![];
            for _ in 0..f {
                v.extend(it.next());
            }
            for _ in 0..b {
                v.extend(it.next_back());
            }
            obs.push(it.len() as u64);
            drop(it);
            *m = Matrix::from_row(v);
        }
        IntoIterSome(f, b) => {
            let mut it = take(m).into_iter_elements_with_index();
            let mut v: Vec<E> = vec![];
            for _ in 0..f {
                v.extend(it.next().map(|x| x.1));
            }
            for _ in 0..b {
                v.extend(it.next_back().map(|x| x.1));
            }
            obs.push(it.len() as u64);
            drop(it);
            *m = Matrix::from_row(v);
        }
        IntoIterIdx => {
            let (nr, nc) = (m.nrows(), m.ncols());
            let mut g: Vec<Vec<Option<E>>> = (0..nr).map(|_| (0..nc).map(|_| None).collect()).collect();
            for (i, e) in take(m).into_iter_elements_with_index() {
                g[i.row][i.col] = Some(e);
            }
            let n = Matrix::with_initializer((nr, nc), |i| {
                tick(Kind::Closure);
                g[i.row][i.col].take().unwrap()
            });
            if let Some(n) = res(n, obs) {
                *m = n;
            }
        }
        Rebuild(k) => {
            // through vectors of rows, whatever the order
            let (nr, nc) = (m.nrows(), m.ncols());
            let mut old = take(m);
            old.set_order(Ord_::R.real());
            let mut it = old.into_iter_elements();
            let rows: Vec<Vec<E>> = (0..nr).map(|_| it.by_ref().take(nc).collect()).collect();
            drop(it);
            match k {
                0 => {
                    if let Some(n) = res(Matrix::try_from(rows), obs) {
                        *m = n;
                    }
                }
                1 => {
                    if let Some(n) = res(Matrix::try_from(rows.as_slice()), obs) {
                        *m = n;
                    }
                }
                2 => {
                    *m = rows
                        .into_iter()
                        .map(|r| {
                            tick(Kind::Iter);
                            r.into_iter().inspect(|_| tick(Kind::Iter))
                        })
                        .collect();
                }
                3 => *m = Matrix::from_col(rows.into_iter().flatten().collect::<Vec<_>>()),
                4 => {
                    // rejected: one row is longer
                    let mut rows = rows;
                    rows.push((0..=nc).map(|k| E::make(k as u32)).collect());
                    if let Some(n) = res(Matrix::try_from(rows), obs) {
                        *m = n;
                    }
                }
                5 => {
                    let mut rows = rows;
                    rows.insert(0, (0..=nc).map(|k| E::make(k as u32)).collect());
                    if let Some(n) = res(Matrix::try_from(rows.as_slice()), obs) {
                        *m = n;
                    }
                }
                _ => {
                    // panics: one row is longer
                    let mut rows = rows;
                    rows.push((0..=nc).map(|k| E::make(k as u32)).collect());
                    *m = rows.into_iter().collect();
                }
            }
        }
        CloneReplace => {
            let n = m.clone();
            *m = n;
        }
        CloneFrom(..) => m.clone_from(aux),
        Take => {
            let n = take(m);
            obs.push(n.size() as u64);
        }
        Elementwise(f, ..) => {
            let g = |a: &E, b: &E| {
                tick(Kind::Closure);
                E::make(f2(a.val(), b.val()))
            };
            match f {
                0 => {
                    if let Some(n) = res(m.elementwise_operation(aux, g), obs) {
                        *m = n;
                    }
                }
                1 => {
                    let r = take(m).elementwise_operation_consume_self(aux, |a, b| g(&a, b));
                    if let Some(n) = res(r, obs) {
                        *m = n;
                    }
                }
                _ => {
                    let r = m.elementwise_operation_assign(aux, |a, b| {
                        tick(Kind::Closure);
                        let v = f2(a.val(), b.val());
                        a.set(v);
                    });
                    res(r.map(|_| ()), obs);
                }
            }
        }
        Named(k, f, ..) => {
            macro_rules! named {
                ($a:ident $b:ident $c:ident) => {
                    match f {
                        0 => {
                            if let Some(n) = res(m.$a(aux), obs) {
                                *m = n;
                            }
                        }
                        1 => {
                            if let Some(n) = res(take(m).$b(aux), obs) {
                                *m = n;
                            }
                        }
                        _ => {
                            res(m.$c(aux).map(|_| ()), obs);
                        }
                    }
                };
            }
            match k {
                0 => named!(elementwise_add elementwise_add_consume_self elementwise_add_assign),
                1 => named!(elementwise_sub elementwise_sub_consume_self elementwise_sub_assign),
                2 => named!(elementwise_mul elementwise_mul_consume_self elementwise_mul_assign),
                3 => named!(elementwise_div elementwise_div_consume_self elementwise_div_assign),
                _ => named!(elementwise_rem elementwise_rem_consume_self elementwise_rem_assign),
            }
        }
        Operator(plus, f, ..) => match (plus, f) {
            (true, 0) => *m = take(m) + take(aux),
            (true, 1) => *m = take(m) + &*aux,
            (true, 2) => *m = &*m + take(aux),
            (true, 3) => *m = &*m + &*aux,
            (true, 4) => *m += take(aux),
            (true, _) => *m += &*aux,
            (false, 0) => *m = take(m) - take(aux),
            (false, 1) => *m = take(m) - &*aux,
            (false, 2) => *m = &*m - take(aux),
            (false, 3) => *m = &*m - &*aux,
            (false, 4) => *m -= take(aux),
            (false, _) => *m -= &*aux,
        },
        Multiply(f, ..) => {
            let a = take(m).map(W).unwrap();
            let b = take(aux).map(W).unwrap();
            let r = match f {
                0 => a.multiply(b),
                1 => Ok(a * b),
                2 => Ok(&a * b),
                3 => Ok(a * &b),
                _ => Ok(&a * &b),
            };
            if let Some(n) = res(r, obs) {
                *m = n.map(|a| a.0).unwrap();
            }
        }
        MulLike(..) => {
            let r = take(m).multiplication_like_operation(take(aux), |a, b| {
                tick(Kind::Closure);
                let v = a.iter().zip(b).fold(a.len() as u32, |v, (a, b)| mix(FN3, v, mix(FN3, a.val(), b.val())));
                E::make(v)
            });
            if let Some(n) = res(r, obs) {
                *m = n;
            }
        }
        Scalar(f) => {
            let s = E::make(fresh(base, 77));
            match f {
                0 => {
                    let r = m.scalar_operation(&s, |a, b| {
                        tick(Kind::Closure);
                        E::make(f2(a.val(), b.val()))
                    });
                    if let Some(n) = res(r, obs) {
                        *m = n;
                    }
                }
                1 => {
                    let r = take(m).scalar_operation_consume_self(&s, |a, b| {
                        tick(Kind::Closure);
                        E::make(f2(a.val(), b.val()))
                    });
                    if let Some(n) = res(r, obs) {
                        *m = n;
                    }
                }
                _ => {
                    m.scalar_operation_assign(&s, |a, b| {
                        tick(Kind::Closure);
                        let v = f2(a.val(), b.val());
                        a.set(v);
                    });
                }
            }
        }
        Neg(own) => {
            *m = if own { -take(m) } else { ref_neg(m) };
        }
        Compare(..) => {
            obs.push((*m == *aux) as u64);
            obs.push((*aux != *m) as u64);
        }
        Contains(hit) => {
            let v = if hit { m.iter_elements().last().map_or(0, |e| e.val()) } else { base + 900_000 };
            let e = E::make(v);
            obs.push(m.contains(&e) as u64);
        }
        Format(debug) => {
            let mut t = String::new();
            if debug {
                write!(t, "{m:?}").unwrap();
            } else {
                write!(t, "{m}").unwrap();
            }
            obs.push((t.len() >= 2) as u64);
        }
        WithDefault(r, c) => {
            if let Some(n) = res(Matrix::with_default((r, c)), obs) {
                *m = n;
            }
        }
        WithValue(r, c) => {
            if let Some(n) = res(Matrix::with_value((r, c), E::make(fresh(base, 0))), obs) {
                *m = n;
            }
        }
        WithInit(r, c) => {
            let n = Matrix::with_initializer((r, c), |i| {
                tick(Kind::Closure);
                E::make(fresh(base, i.row * c + i.col))
            });
            if let Some(n) = res(n, obs) {
                *m = n;
            }
        }
        #[cfg(feature = "par")]
        ParApply => {
            m.par_apply(|e| {
                tick(Kind::Closure);
                let v = f1(e.val());
                e.set(v);
            });
        }
        #[cfg(feature = "par")]
        ParMap => {
            let r = take(m).par_map(|e| {
                tick(Kind::Closure);
                E::make(f1(e.val()))
            });
            if let Some(n) = res(r, obs) {
                *m = n;
            }
        }
        #[cfg(feature = "par")]
        ParMapRef => {
            let r = m.par_map_ref(|e| {
                tick(Kind::Closure);
                E::make(f1(e.val()))
            });
            if let Some(n) = res(r, obs) {
                *m = n;
            }
        }
        #[cfg(feature = "par")]
        ParElemsMut(ix) => {
            let nc = m.ncols();
            if ix {
                m.par_iter_elements_mut_with_index().for_each(|(i, e)| {
                    tick(Kind::Closure);
                    *e = E::make(fresh(base, i.row * nc + i.col));
                });
            } else {
                m.par_iter_elements_mut().for_each(|e| {
                    tick(Kind::Closure);
                    *e = E::make(f1(e.val()));
                });
            }
        }
        #[cfg(feature = "par")]
        IntoPar(ix) => {
            let (nr, nc) = (m.nrows(), m.ncols());
            let mut v: Vec<(usize, E)> = if ix {
                take(m)
                    .into_par_iter_elements_with_index()
                    .map(|(i, e)| {
                        tick(Kind::Closure);
                        (i.row * nc + i.col, e)
                    })
                    .collect()
            } else {
                // some elements are dropped by the consumer
                take(m)
                    .into_par_iter_elements()
                    .filter(|e| {
                        tick(Kind::Closure);
                        e.val() % 2 == 0
                    })
                    .map(|e| (e.val() as usize, e))
                    .collect()
            };
            v.sort_by_key(|t| t.0);
            let v: Vec<E> = v.into_iter().map(|t| t.1).collect();
            *m = Matrix::from_row(v);
            if ix && let Some(()) = res(m.reshape((nr, nc)).map(|_| ()), obs) {}
        }
        #[cfg(not(feature = "par"))]
        ParApply | ParMap | ParMapRef | ParElemsMut(_) | IntoPar(_) => {}
    }
}

/// `-&matrix` (the operand's lifetime appears in the bound, so go through a
/// named type).
fn ref_neg<E: Elem>(m: &Matrix<E>) -> Matrix<E> {
    let n = m.map_ref(|e| R(e)).unwrap();
    (-&n).map(|e| e).unwrap()
}
#[derive(Clone)]
struct R<'a, E>(&'a E);
impl<E: Elem> std::ops::Neg for R<'_, E> {
    type Output = E;
    fn neg(self) -> E {
        tick(Kind::Neg);
        E::make(mix(NEG, self.0.val(), 0))
    }
}

// ---- the model side -------------------------------------------------------------
pub enum Exp {
    Ok,
    Err(Error),
    Panic,
    /// in the model's words: nothing is demanded of the outcome
    Any,
}

/// What `op` must do to the reference matrix.
pub fn predict<E: Elem>(op: Op, x: &mut M, aux: &Option<M>, base: u32, obs: &mut Option<Vec<u64>>) -> Exp {
    let n = |v: u32| E::norm(v);
    let f1 = |v: u32| n(mix(FN1, v, 0));
    let f2 = |a: u32, b: u32| n(mix(FN2, a, b));
    let empty = || M::new(Ord_::R, 0, 0, |_, _| 0);
    let (nr, nc) = (x.nr, x.nc);
    let oob = |x: &M, i: (usize, usize)| i.0 >= x.nr || i.1 >= x.nc;
    let put = |x: &mut M, r: usize, c: usize, k: usize| x.rows[r][c] = n(fresh(base, k));
    match op {
        Transpose => *x = x.transposed(),
        Switch => x.order = x.order.flip(),
        SwitchRaw => *x = M { order: x.order.flip(), ..x.transposed() },
        Set(o) => x.order = o,
        SetRaw(o) => {
            if o != x.order {
                *x = M { order: o, ..x.transposed() }
            }
        }
        Reshape(r, c) => {
            if r.checked_mul(c) != Some(x.size()) {
                return Exp::Err(Error::SizeMismatch);
            }
            *x = M::from_seq(x.order, r, c, &x.seq());
        }
        Resize(r, c) => {
            let Some(k) = r.checked_mul(c) else { return Exp::Err(Error::SizeOverflow) };
            if k as u128 * size_of::<E>() as u128 > isize::MAX as u128 {
                return Exp::Err(Error::CapacityOverflow);
            }
            let mut s = x.seq();
            s.resize(k, n(DEFAULT));
            *x = M::from_seq(x.order, r, c, &s);
        }
        ShrinkFit | ShrinkTo(_) => {}
        Clear => *x = M { nr: 0, nc: 0, rows: vec![], ..x.clone() },
        Overwrite(..) => {
            let a = aux.as_ref().unwrap();
            for r in 0..nr.min(a.nr) {
                for c in 0..nc.min(a.nc) {
                    x.rows[r][c] = a.rows[r][c];
                }
            }
        }
        Apply | Map | MapRef | ParApply | ParMap | ParMapRef | ParElemsMut(false) => *x = x.map(f1),
        ParElemsMut(true) | RowsMut | ColsMut | ElemsMutIdx => {
            *x = M::new(x.order, nr, nc, |r, c| n(fresh(base, r * nc + c)));
        }
        RowsMutMixed => {
            *x = M::new(x.order, nr, nc, |r, c| n(fresh(base, r * nc + c)));
            *obs = Some(vec![0]);
        }
        IntoPar(true) => x.order = Ord_::R,
        IntoPar(false) => {
            let mut v: Vec<u32> = x.seq().into_iter().filter(|v| v % 2 == 0).collect();
            v.sort();
            *x = M::from_seq(Ord_::R, 1, v.len(), &v);
        }
        Swap(i, j) | SwapUser(i, j) => {
            if oob(x, i) || oob(x, j) {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            let t = x.rows[i.0][i.1];
            x.rows[i.0][i.1] = x.rows[j.0][j.1];
            x.rows[j.0][j.1] = t;
        }
        SwapWrap(i, j) => {
            if x.size() == 0 {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            let w = |i: (isize, isize)| (i.0.rem_euclid(nr as isize) as usize, i.1.rem_euclid(nc as isize) as usize);
            let (i, j) = (w(i), w(j));
            let t = x.rows[i.0][i.1];
            x.rows[i.0][i.1] = x.rows[j.0][j.1];
            x.rows[j.0][j.1] = t;
        }
        SwapRows(a, b) => {
            if a >= nr || b >= nr {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            x.rows.swap(a, b);
        }
        SwapCols(a, b) => {
            if a >= nc || b >= nc {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            for r in &mut x.rows {
                r.swap(a, b);
            }
        }
        GetMut(r, c) => {
            if oob(x, (r, c)) {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            put(x, r, c, 0);
        }
        IndexMut(r, c) | UserMut(r, c) => {
            if oob(x, (r, c)) {
                return Exp::Panic;
            }
            put(x, r, c, 0);
        }
        WrapMut(r, c) => {
            if x.size() == 0 {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            put(x, r.rem_euclid(nr as isize) as usize, c.rem_euclid(nc as isize) as usize, 0);
        }
        ReadAll => {
            let mut v: Vec<u64> = vec![];
            for r in &x.rows {
                v.extend(r.iter().map(|e| *e as u64));
            }
            for c in 0..nc {
                v.extend((0..nr).rev().map(|r| x.rows[r][c] as u64));
            }
            v.extend(x.seq().into_iter().map(u64::from));
            for (r, c) in x.positions() {
                v.extend([r as u64, c as u64, x.rows[r][c] as u64]);
            }
            for r in &x.rows {
                v.extend(r.iter().map(|e| *e as u64));
            }
            for c in 0..nc {
                v.extend((0..nr).map(|r| x.rows[r][c] as u64));
            }
            *obs = Some(v);
        }
        NthRowMut(r) => {
            if r >= nr {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            (0..nc).for_each(|c| put(x, r, c, c));
        }
        NthColMut(c) => {
            if c >= nc {
                return Exp::Err(Error::IndexOutOfBounds);
            }
            (0..nr).for_each(|r| put(x, r, c, r));
        }
        ElemsMut => {
            for (k, (r, c)) in x.positions().into_iter().enumerate() {
                put(x, r, c, k);
            }
        }
        ElemsSwap => {
            let mut s = x.seq();
            if s.len() > 1 {
                let l = s.len() - 1;
                s.swap(0, l);
                *x = M::from_seq(x.order, nr, nc, &s);
            }
        }
        IntoIter(f, b) | IntoIterSome(f, b) => {
            let s = x.seq();
            let f = f.min(s.len());
            let b = b.min(s.len() - f);
            let mut v = s[..f].to_vec();
            v.extend(s[s.len() - b..].iter().rev());
            *obs = Some(vec![(s.len() - f - b) as u64]);
            *x = M::from_seq(Ord_::R, 1, v.len(), &v);
        }
        IntoIterIdx => x.order = Ord_::R,
        Rebuild(k) => {
            let rows = x.rows.clone();
            let nc = if nr == 0 { 0 } else { nc };
            match k {
                0..=2 => *x = M { order: Ord_::R, nr, nc, rows },
                3 => {
                    let v: Vec<u32> = rows.concat();
                    *x = M { order: Ord_::R, nr: v.len(), nc: 1, rows: v.into_iter().map(|v| vec![v]).collect() };
                }
                4 | 5 => {
                    *x = empty();
                    if nr == 0 {
                        return Exp::Any; // a single row: not ragged
                    }
                    return Exp::Err(Error::LengthInconsistent);
                }
                _ => {
                    *x = empty();
                    return if nr == 0 { Exp::Any } else { Exp::Panic };
                }
            }
        }
        CloneReplace => {}
        CloneFrom(..) => *x = aux.clone().unwrap(),
        Take => {
            *obs = Some(vec![x.size() as u64]);
            *x = empty();
        }
        Elementwise(f, ..) => {
            let a = aux.as_ref().unwrap();
            if (a.nr, a.nc) != (nr, nc) {
                if f == 1 {
                    *x = empty();
                }
                return Exp::Err(Error::ShapeNotConformable);
            }
            *x = M::new(x.order, nr, nc, |r, c| f2(x.rows[r][c], a.rows[r][c]));
        }
        Named(k, f, ..) => {
            let a = aux.as_ref().unwrap();
            if (a.nr, a.nc) != (nr, nc) {
                if f == 1 {
                    *x = empty();
                }
                return Exp::Err(Error::ShapeNotConformable);
            }
            *x = M::new(x.order, nr, nc, |r, c| n(mix(op_code(k), x.rows[r][c], a.rows[r][c])));
        }
        Operator(plus, f, ..) => {
            let a = aux.as_ref().unwrap();
            if (a.nr, a.nc) != (nr, nc) {
                if f < 2 {
                    *x = empty();
                }
                return Exp::Panic;
            }
            let k = if plus { ADD } else { SUB };
            *x = M::new(x.order, nr, nc, |r, c| n(mix(k, x.rows[r][c], a.rows[r][c])));
        }
        Multiply(f, ..) => {
            let a = aux.as_ref().unwrap();
            if a.nr != nc {
                *x = empty();
                return if f == 0 { Exp::Err(Error::ShapeNotConformable) } else { Exp::Panic };
            }
            *x = M::new(x.order, nr, a.nc, |r, c| {
                if nc == 0 {
                    return n(DEFAULT);
                }
                (0..nc).fold(0u32, |v, k| n(v.wrapping_add(n(mix(MUL, x.rows[r][k], a.rows[k][c])))))
            });
        }
        MulLike(..) => {
            let a = aux.as_ref().unwrap();
            if a.nr != nc {
                *x = empty();
                return Exp::Err(Error::ShapeNotConformable);
            }
            if nc == 0 && nr * a.nc > 0 {
                // the closure is not called: the result's elements are defaults
                *x = M::new(x.order, nr, a.nc, |_, _| n(DEFAULT));
            } else {
                *x = M::new(x.order, nr, a.nc, |r, c| {
                    n((0..nc).fold(nc as u32, |v, k| mix(FN3, v, mix(FN3, x.rows[r][k], a.rows[k][c]))))
                });
            }
        }
        Scalar(_) => *x = x.map(|v| f2(v, n(fresh(base, 77)))),
        Neg(_) => *x = x.map(|v| n(mix(NEG, v, 0))),
        Compare(..) => {
            let a = aux.as_ref().unwrap();
            let e = x.same_contents(&a.clone().norm::<E>());
            *obs = Some(vec![e as u64, !e as u64]);
        }
        Contains(hit) => {
            let v = if hit { x.seq().last().copied().unwrap_or(0) } else { n(base + 900_000) };
            *obs = Some(vec![x.rows.iter().flatten().any(|e| *e == v) as u64]);
        }
        Format(_) => *obs = Some(vec![1]),
        WithDefault(r, c) => *x = M::new(Ord_::R, r, c, |_, _| n(DEFAULT)),
        WithValue(r, c) => *x = M::new(Ord_::R, r, c, |_, _| n(fresh(base, 0))),
        WithInit(r, c) => *x = M::new(Ord_::R, r, c, |i, j| n(fresh(base, i * c + j))),
    }
    Exp::Ok
}

// ---- lock-step -------------------------------------------------------------------
pub struct Duo<E: Elem> {
    pub m: Matrix<E>,
    pub x: M,
    pub base: u32,
    /// elements known to have been leaked
    pub leaked: i64,
}

/// Build a start state; `slack` leaves spare capacity behind.
pub fn start<E: Elem>(o: Ord_, nr: usize, nc: usize, slack: bool) -> Duo<E> {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    let mut m: Matrix<E> = x.build();
    if slack {
        let n = nr * nc;
        m.resize((1, n + 7)).unwrap().resize((1, n)).unwrap().reshape((nr, nc)).unwrap();
    }
    Duo { m, x, base: 100, leaked: 0 }
}

impl<E: Elem> Duo<E> {
    /// One transition on both sides, compared.
    pub fn step(&mut self, op: Op) -> Res {
        let aux_x = op.aux(&self.x, self.base).map(|a| a.norm::<E>());
        let mut aux: Matrix<E> = aux_x.as_ref().map_or_else(Matrix::new, |a| a.build());
        let live = self.m.size() as i64 + aux.size() as i64 + self.leaked;
        let c = counts();
        ensure!(!E::TRACKED || c.live == live, "{} live elements in matrices of {live}", c.live);
        let before = if op.in_place() { Some((ids(&self.m), self.x.clone(), self.m.capacity())) } else { None };
        let mut obs = vec![];
        let out = exec(op, &mut self.m, &mut aux, self.base, &mut obs);
        let mut want_obs = None;
        let exp = predict::<E>(op, &mut self.x, &aux_x, self.base, &mut want_obs);
        self.base += 5000;
        match (&exp, &out) {
            (Exp::Ok, Out::Ok) | (Exp::Panic, Out::Panic) => {}
            (Exp::Err(a), Out::Err(b)) if a == b => {}
            (Exp::Any, _) => {
                self.x = contents(&self.m)?;
                obs.clear();
            }
            (e, o) => bail!(
                "{op:?} on {}: {o:?}{}, expected {}",
                self.x.short(),
                if *o == Out::Panic { format!(" ({})", crate::sup::last_panic()) } else { String::new() },
                match e {
                    Exp::Ok => "success".into(),
                    Exp::Err(e) => format!("Err({e:?})"),
                    _ => "a panic".into(),
                }
            ),
        }
        if let Some(w) = want_obs {
            ensure!(obs == w, "{op:?} on {}: observed {obs:?}, reference says {w:?}", self.x.short());
        }
        if let Err(e) = agree(&self.m, &self.x) {
            bail!("after {op:?}: {}", e.msg);
        }
        if let Some((i, x, cap)) = before
            && !matches!(exp, Exp::Ok)
        {
            ensure!(x == self.x && ids(&self.m) == i, "{op:?} fails but replaces or moves elements");
            ensure!(self.m.capacity() == cap, "{op:?} fails but changes the capacity");
        }
        // what was only borrowed is unchanged
        if let Some(a) = &aux_x {
            let borrowed = match op {
                Overwrite(..) | CloneFrom(..) | Elementwise(..) | Named(..) | Compare(..) => true,
                Operator(_, f, ..) => matches!(f, 1 | 3 | 5),
                _ => false,
            };
            if borrowed && let Err(e) = agree(&aux, a) {
                bail!("{op:?} changes its source operand: {}", e.msg);
            }
        }
        if E::TRACKED {
            let live = self.m.size() as i64 + aux.size() as i64 + self.leaked;
            let c = counts();
            ensure!(c.live == live, "after {op:?}: {} elements alive, the matrices hold {live}", c.live);
        }
        Ok(())
    }
}

/// Run a sequence from a start state and drop everything.
pub fn run_seq<E: Elem>(st: (Ord_, usize, usize, bool), seq: &[Op]) -> Res {
    reset();
    {
        let mut d = start::<E>(st.0, st.1, st.2, st.3);
        agree(&d.m, &d.x)?;
        for (k, op) in seq.iter().enumerate() {
            d.step(*op).map_err(|e| Fail { msg: format!("step {}: {}", k + 1, e.msg), ..e })?;
        }
    }
    Ok(finish()?)
}

// ---- alphabets ---------------------------------------------------------------------
const UM: usize = usize::MAX;

/// Every operation with every argument in the domain, for one state.
pub fn full(o: Ord_, nr: usize, nc: usize, d: usize, par: bool) -> Vec<Op> {
    let _ = o;
    let mut v = vec![Transpose, Switch, SwitchRaw];
    for o in ORDERS {
        v.extend([Set(o), SetRaw(o)]);
    }
    let n = nr * nc;
    for r in 0..=d * d {
        for c in 0..=d * d {
            if r * c == n || (r <= d && c <= d) {
                v.push(Reshape(r, c));
            }
        }
    }
    for p in [(UM, 2), (2, UM), (UM, UM), (1 << 32, 1 << 32), (1 << 63, 2), (n, UM)] {
        v.push(Reshape(p.0, p.1));
    }
    for r in 0..=d {
        for c in 0..=d {
            v.extend([Resize(r, c), WithDefault(r, c), WithValue(r, c), WithInit(r, c)]);
            for o in ORDERS {
                v.extend([Overwrite(o, r, c), CloneFrom(o, r, c), Elementwise(0, o, r, c), Elementwise(1, o, r, c), Elementwise(2, o, r, c), MulLike(o, r, c)]);
                v.extend([Compare(o, r, c, false)]);
                for f in 0..3 {
                    for k in 0..5 {
                        if (r, c) == (nr, nc) || k == 0 {
                            v.push(Named(k, f, o, r, c));
                        }
                    }
                }
                for f in 0..6 {
                    if (r, c) == (nr, nc) || (r, c) == (nc, nr) || (r + c) % 3 == 0 {
                        v.extend([Operator(true, f, o, r, c), Operator(false, f, o, r, c)]);
                    }
                }
                for f in 0..5 {
                    if r == nc || (r, c) == (nr, nc) || f == 0 {
                        v.push(Multiply(f, o, r, c));
                    }
                }
            }
        }
    }
    for o in ORDERS {
        v.extend([Compare(o, nr, nc, true), Compare(o, nc, nr, true)]);
    }
    v.extend([Resize(UM, 2), Resize(UM, UM), Resize(UM / 2, 1), Resize(1 << 32, 1 << 32)]);
    v.extend([ShrinkFit, ShrinkTo(0), ShrinkTo(n), ShrinkTo(n + 3), ShrinkTo(UM), Clear, Apply, Map, MapRef]);
    let pos: Vec<(usize, usize)> = (0..=nr).flat_map(|r| (0..=nc).map(move |c| (r, c))).collect();
    for i in &pos {
        for j in &pos {
            v.extend([Swap(*i, *j), SwapUser(*i, *j)]);
        }
        v.extend([GetMut(i.0, i.1), IndexMut(i.0, i.1), UserMut(i.0, i.1)]);
    }
    for p in [(UM, 0), (0, UM), (UM, UM), (nr, UM)] {
        v.extend([GetMut(p.0, p.1), IndexMut(p.0, p.1), UserMut(p.0, p.1), Swap(p, (0, 0)), Swap((0, 0), p), Swap(p, p)]);
    }
    for i in -1..=nr as isize {
        for j in -1..=nc as isize {
            v.extend([WrapMut(i, j), SwapWrap((i, j), (0, -1)), SwapWrap((isize::MIN, 1), (j, i))]);
        }
    }
    v.extend([WrapMut(isize::MIN, isize::MAX), WrapMut(isize::MAX, isize::MIN)]);
    for a in 0..=nr {
        for b in 0..=nr {
            v.push(SwapRows(a, b));
        }
        v.extend([SwapRows(a, UM), SwapRows(UM, a), NthRowMut(a)]);
    }
    for a in 0..=nc {
        for b in 0..=nc {
            v.push(SwapCols(a, b));
        }
        v.extend([SwapCols(a, UM), SwapCols(UM, a), NthColMut(a)]);
    }
    v.extend([ReadAll, RowsMut, ColsMut, RowsMutMixed, ElemsMut, ElemsMutIdx, ElemsSwap, NthRowMut(UM), NthColMut(UM), IntoIterIdx]);
    for f in 0..=n.min(4) {
        for b in 0..=n.min(3) {
            v.push(IntoIter(f, b));
            v.push(IntoIterSome(f, b));
        }
    }
    v.push(IntoIter(n, n));
    v.extend((0..7).map(Rebuild));
    v.extend([CloneReplace, Take, Scalar(0), Scalar(1), Scalar(2), Op::Neg(true), Op::Neg(false), Contains(true), Contains(false), Format(true), Format(false)]);
    if par {
        v.extend([ParApply, ParMap, ParMapRef, ParElemsMut(true), ParElemsMut(false), IntoPar(true), IntoPar(false)]);
    }
    v
}

/// Operations whose arguments do not depend on the state, for sequences.
pub fn medium(par: bool) -> Vec<Op> {
    use Ord_::{C, R};
    let mut v = vec![
        Transpose, Switch, SwitchRaw, Set(R), Set(C), SetRaw(R), SetRaw(C),
        Reshape(1, 6), Reshape(3, 2), Reshape(2, 3), Reshape(6, 1), Reshape(1, 2), Reshape(2, 1), Reshape(0, 5), Reshape(7, 0), Reshape(4, 1), Reshape(UM, 2),
        Resize(0, 0), Resize(0, 3), Resize(2, 0), Resize(1, 1), Resize(1, 2), Resize(2, 1), Resize(2, 2), Resize(2, 3), Resize(3, 2), Resize(3, 3), Resize(UM, 2),
        ShrinkFit, ShrinkTo(4), Clear,
        Overwrite(R, 2, 2), Overwrite(C, 1, 3), Overwrite(C, 3, 1), Overwrite(R, 4, 4),
        Apply, Map, MapRef,
        Swap((0, 0), (1, 1)), Swap((0, 1), (1, 0)), Swap((0, 0), (5, 5)), SwapWrap((-1, -1), (0, 0)), SwapUser((0, 1), (0, 0)),
        SwapRows(0, 1), SwapRows(1, 1), SwapRows(0, 2), SwapCols(0, 1), SwapCols(1, 2), SwapCols(0, 0),
        GetMut(0, 0), GetMut(1, 2), GetMut(2, 1), IndexMut(0, 1), WrapMut(-1, 7), UserMut(1, 0),
        ReadAll, RowsMut, ColsMut, RowsMutMixed, NthRowMut(1), NthColMut(1), ElemsMut, ElemsMutIdx, ElemsSwap,
        IntoIter(2, 1), IntoIterSome(0, 3), IntoIter(99, 0), IntoIterSome(1, 0), IntoIterIdx, Rebuild(0), Rebuild(1), Rebuild(2), Rebuild(3), Rebuild(4), Rebuild(5), Rebuild(6),
        CloneReplace, CloneFrom(C, 2, 3), CloneFrom(R, 0, 2), Take,
        Multiply(0, R, 2, 3), Multiply(1, C, 3, 2), Multiply(4, R, 1, 2), Multiply(2, C, 0, 2), MulLike(C, 2, 2), MulLike(R, 3, 1),
        Scalar(0), Scalar(1), Scalar(2), Op::Neg(true), Op::Neg(false),
        Compare(R, 2, 3, true), Compare(C, 3, 2, true), Contains(true), Contains(false), Format(true), Format(false),
        WithDefault(2, 3), WithValue(3, 2), WithInit(2, 2), WithInit(3, 0),
    ];
    for o in ORDERS {
        for (r, c) in [(2, 3), (3, 2), (2, 2)] {
            for f in 0..3 {
                v.push(Elementwise(f, o, r, c));
                v.push(Named((f + r as u8) % 5, f, o, r, c));
            }
            for f in 0..6 {
                v.push(Operator((f as usize + r) % 2 == 0, f, o, r, c));
            }
        }
    }
    if par {
        v.extend([ParApply, ParMap, ParMapRef, ParElemsMut(true), ParElemsMut(false), IntoPar(true), IntoPar(false)]);
    }
    v
}

/// A core of operations that change the representation, for longer sequences.
pub fn core() -> Vec<Op> {
    use Ord_::C;
    vec![
        Transpose, Switch, SwitchRaw, SetRaw(C), Set(Ord_::R),
        Reshape(1, 6), Reshape(3, 2), Reshape(2, 2), Reshape(0, 4),
        Resize(0, 2), Resize(1, 2), Resize(2, 2), Resize(3, 2), Resize(2, 3), Resize(UM, 2),
        ShrinkFit, Clear, Overwrite(C, 2, 3), Apply, Map, Swap((0, 1), (1, 0)), SwapRows(0, 1), SwapCols(1, 0),
        GetMut(1, 1), RowsMut, ColsMut, IntoIter(3, 1), IntoIterIdx, Rebuild(2), CloneReplace, Take,
        Elementwise(2, C, 2, 3), Operator(true, 5, C, 3, 2), Multiply(0, C, 2, 3), MulLike(Ord_::R, 3, 2), Scalar(1), WithInit(2, 3), ElemsSwap,
    ]
}
