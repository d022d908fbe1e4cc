//! C04: checked indexing over every boundary index, index type and accessor stream.
use matreex::index::{AsIndex, MatrixIndex};
use matreex::{Error, Index, Matrix};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Caller-defined index type, consistent.
struct Mine(usize, usize);
impl AsIndex for Mine {
    fn row(&self) -> usize {
        self.0
    }
    fn col(&self) -> usize {
        self.1
    }
}

/// Answers a fixed stream, then repeats its last value; logs what it answered.
struct Stream<'a> {
    rows: &'a [usize],
    cols: &'a [usize],
    log: &'a RefCell<(Vec<usize>, Vec<usize>)>,
}
impl AsIndex for Stream<'_> {
    fn row(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.rows[l.0.len().min(self.rows.len() - 1)];
        l.0.push(v);
        v
    }
    fn col(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.cols[l.1.len().min(self.cols.len() - 1)];
        l.1.push(v);
        v
    }
}

fn candidates(n: usize, other: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n + 3).collect();
    for x in [1usize << 31, 1 << 32, 1 << 62, isize::MAX as usize, 1 << 63, usize::MAX - 1, usize::MAX] {
        v.push(x);
    }
    // values k for which k * stride wraps around to a small number
    for s in [n, other, n * other] {
        if s > 1 {
            let q = usize::MAX / s;
            v.extend([q - 1, q, q + 1, q + 2]);
            if s.is_power_of_two() {
                v.push(1usize << (64 - s.trailing_zeros()));
            }
        }
        v.push(usize::MAX - s);
        v.push((usize::MAX - s).wrapping_add(1));
    }
    v.sort();
    v.dedup();
    v
}

fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

fn one<E, I: MatrixIndex<E, Output = E>>(
    m: &mut Matrix<E>,
    mk: &dyn Fn() -> I,
    what: &str,
    r: usize,
    c: usize,
    expect: Option<usize>,
    s: &mut Stats,
) -> Res {
    s.transitions(6);
    let ctx = || format!("index ({r}, {c}) as {what}");
    ensure!(mk().is_out_of_bounds(m) == expect.is_none(), "{}: is_out_of_bounds wrong", ctx());
    match (mk().ensure_in_bounds(m).map(|_| ()), expect) {
        (Ok(()), Some(_)) | (Err(Error::IndexOutOfBounds), None) => {}
        (x, _) => bail!("{}: ensure_in_bounds = {x:?}", ctx()),
    }
    match (m.get(mk()).map(addr), expect) {
        (Ok(a), Some(e)) => ensure!(a == e, "{}: get returns another element ({} bytes off)", ctx(), a as i128 - e as i128),
        (Err(Error::IndexOutOfBounds), None) => {}
        (x, e) => bail!("{}: get = {x:?}, expected {e:?}", ctx()),
    }
    match (m.get_mut(mk()).map(|x| addr(x)), expect) {
        (Ok(a), Some(e)) => ensure!(a == e, "{}: get_mut returns another element", ctx()),
        (Err(Error::IndexOutOfBounds), None) => {}
        (x, e) => bail!("{}: get_mut = {x:?}, expected {e:?}", ctx()),
    }
    let x = catch_unwind(AssertUnwindSafe(|| addr(&m[mk()])));
    match (x, expect) {
        (Ok(a), Some(e)) => ensure!(a == e, "{}: [] returns another element", ctx()),
        (Err(_), None) => {}
        (x, e) => bail!("{}: [] -> {:?}, expected {e:?}", ctx(), x.ok()),
    }
    let x = catch_unwind(AssertUnwindSafe(|| addr(&mut m[mk()])));
    match (x, expect) {
        (Ok(a), Some(e)) => ensure!(a == e, "{}: []mut returns another element", ctx()),
        (Err(_), None) => {}
        (x, e) => bail!("{}: []mut -> {:?}, expected {e:?}", ctx(), x.ok()),
    }
    if let Some(e) = expect {
        s.transitions(2);
        unsafe {
            ensure!(addr(m.get_unchecked(mk())) == e, "{}: get_unchecked returns another element", ctx());
            ensure!(addr(m.get_unchecked_mut(mk())) == e, "{}: get_unchecked_mut returns another element", ctx());
        }
    }
    Ok(())
}

fn all_types<E>(m: &mut Matrix<E>, r: usize, c: usize, expect: Option<usize>, s: &mut Stats) -> Res {
    one(m, &|| (r, c), "(usize, usize)", r, c, expect, s)?;
    one(m, &|| [r, c], "[usize; 2]", r, c, expect, s)?;
    one(m, &|| Index::new(r, c), "Index", r, c, expect, s)?;
    one(m, &|| Index::from((r, c)), "Index::from(tuple)", r, c, expect, s)?;
    one(m, &|| Index::from([r, c]), "Index::from(array)", r, c, expect, s)?;
    one(m, &|| *Index::new(c, r).swap(), "Index::swap", r, c, expect, s)?;
    one(m, &|| Mine(r, c), "a caller-defined type", r, c, expect, s)
}

fn plain<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let before = counts();
        let base = m.iter_elements().next().map_or(0, addr);
        for r in candidates(nr, nc) {
            for c in candidates(nc, nr) {
                let expect = (r < nr && c < nc).then(|| {
                    let flat = if o == Ord_::R { r * nc + c } else { c * nr + r };
                    base + flat * size_of::<E>()
                });
                s.state((nr, nc, o, r, c, size_of::<E>()));
                all_types(&mut m, r, c, expect, s)?;
                if expect.is_some() {
                    ensure!(m[(r, c)].val() == x.rows[r][c], "({r}, {c}) holds a wrong value");
                }
            }
        }
        ensure!(counts() == before, "indexing created, cloned or dropped elements");
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Every position, and everything just outside, of a long shape.
fn every<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let base = m.iter_elements().next().map_or(0, addr);
        let before = counts();
        s.state((nr, nc, o, size_of::<E>()));
        for r in 0..nr {
            for c in 0..nc {
                let e = base + size_of::<E>() * if o == Ord_::R { r * nc + c } else { c * nr + r };
                let v = x.rows[r][c];
                s.transitions(4);
                let ok = m.get((r, c)).is_ok_and(|t| addr(t) == e && t.val() == v) && m.get_mut([r, c]).is_ok_and(|t| addr(t) == e) && addr(&m[Index::new(r, c)]) == e && addr(&mut m[Mine(r, c)]) == e;
                ensure!(ok, "({r}, {c}) does not address its element");
            }
        }
        let out = |m: &mut Matrix<E>, r: usize, c: usize| -> Res {
            ensure!(m.get((r, c)).map(addr) == Err(Error::IndexOutOfBounds) && m.get_mut(Mine(r, c)).map(|t| addr(t)) == Err(Error::IndexOutOfBounds), "({r}, {c}) accepted");
            Ok(())
        };
        for r in 0..nr + 2 {
            for c in [nc, nc + 1, nc + nr, nc * nr, usize::MAX] {
                s.transitions(2);
                out(&mut m, r, c.max(nc))?;
            }
        }
        for c in 0..nc + 2 {
            for r in [nr, nr + 1, nc + nr, nc * nr, usize::MAX] {
                s.transitions(2);
                out(&mut m, r.max(nr), c)?;
            }
        }
        ensure!(counts() == before, "indexing created, cloned or dropped elements");
    }
    Ok(finish()?)
}

/// The failing half with the element memory inaccessible: a call that so much
/// as looks at an element (or at what lies behind the buffer) does not return.
fn locked<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    use mcx::alloc::{lock, paged, regions};
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let m: Matrix<E> = x.build();
        let mut m = paged(|| {
            let mut d: Matrix<E> = Matrix::with_capacity(nr * nc + 3);
            d.resize((nr, nc)).unwrap();
            d.set_order(o.real());
            d.overwrite(&m);
            d
        });
        let before = counts();
        // whatever is alive of the allocations made meanwhile is the element
        // buffer (which also exists when it holds no element)
        let n = regions().filter(|&b| lock(b, true)).count();
        s.add("locked_buffers", n as u64);
        let r: Res = (|| {
            for r in candidates(nr, nc) {
                for c in candidates(nc, nr) {
                    if r < nr && c < nc {
                        continue;
                    }
                    s.state(("locked", nr, nc, o, r, c, size_of::<E>()));
                    one(&mut m, &|| (r, c), "(usize, usize), elements inaccessible", r, c, None, s)?;
                    one(&mut m, &|| [r, c], "[usize; 2], elements inaccessible", r, c, None, s)?;
                    one(&mut m, &|| Index::new(r, c), "Index, elements inaccessible", r, c, None, s)?;
                    one(&mut m, &|| Mine(r, c), "a caller-defined type, elements inaccessible", r, c, None, s)?;
                }
            }
            Ok(())
        })();
        let _ = regions().filter(|&b| lock(b, false)).count();
        r?;
        ensure!(counts() == before, "indexing created, cloned or dropped elements");
        agree(&m, &x)?;
        drop(m);
    }
    Ok(finish()?)
}

fn inconsistent(o: Ord_, nr: usize, nc: usize, rv: &[usize], len: usize, s: &mut Stats) -> Res {
    reset();
    let x = M::numbered(o, nr, nc, 0);
    {
        let mut m: Matrix<Tr> = x.build();
        let base = m.iter_elements().next().map_or(0, addr);
        let cv: Vec<usize> = {
            let mut v = vec![0, nc.saturating_sub(1), nc, usize::MAX];
            v.dedup();
            v
        };
        let mut idx = vec![0usize; len];
        loop {
            let cols: Vec<usize> = idx.iter().map(|&i| cv[i]).collect();
            for mode in 0..4 {
                let log = RefCell::new((vec![], vec![]));
                let st = Stream { rows: rv, cols: &cols, log: &log };
                let r: Result<Result<usize, Error>, ()> = catch_unwind(AssertUnwindSafe(|| match mode {
                    0 => m.get(st).map(addr),
                    1 => m.get_mut(st).map(|x| addr(x)),
                    2 => Ok(addr(&m[st])),
                    _ => Ok(addr(&mut m[st])),
                }))
                .map_err(|_| ());
                s.transition();
                let l = log.borrow();
                s.add("accessor_calls", (l.0.len() + l.1.len()) as u64);
                let ctx = || format!("accessors answering rows {:?} cols {:?} (mode {mode}) on {o:?} {nr}x{nc}", l.0, l.1);
                match r {
                    Ok(Ok(a)) => {
                        let ok = l.0.iter().any(|&r| {
                            l.1.iter().any(|&c| {
                                r < nr && c < nc && a == base + size_of::<Tr>() * if o == Ord_::R { r * nc + c } else { c * nr + r }
                            })
                        });
                        ensure!(ok, "{}: returned memory that is no element at any answered position", ctx());
                    }
                    Ok(Err(Error::IndexOutOfBounds)) | Err(()) => {
                        let bad = l.0.iter().any(|&r| r >= nr) || l.1.iter().any(|&c| c >= nc);
                        ensure!(bad, "{}: rejected although every answer was in bounds", ctx());
                    }
                    Ok(Err(e)) => bail!("{}: {e:?}", ctx()),
                }
                s.state(("inconsistent", nr, nc, o, &l.0, &l.1, mode));
            }
            let mut k = 0;
            loop {
                if k == len {
                    agree(&m, &x)?;
                    drop(m);
                    return Ok(finish()?);
                }
                idx[k] += 1;
                if idx[k] < cv.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
}

fn zst<E: Clone>(e: E, nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    let n = nr * nc;
    let mut m = Matrix::from_row(vec![e; n]);
    m.reshape((nr, nc)).map_err(|e| format!("reshape: {e:?}"))?;
    m.set_order(o.real());
    ensure!(m.nrows() == nr && m.ncols() == nc, "shape");
    let cand = |n: usize| {
        let mut v = vec![0, 1, n / 2, n.wrapping_sub(2), n - 1, n, n.wrapping_add(1), usize::MAX, isize::MAX as usize, 1 << 63, 1 << 32];
        v.sort();
        v.dedup();
        v
    };
    for r in cand(nr) {
        for c in cand(nc) {
            let expect = (r < nr && c < nc).then(|| m.iter_elements().next().map_or(0, addr));
            s.state(("zst", nr, nc, o, r, c, align_of::<E>()));
            all_types(&mut m, r, c, expect, s)?;
        }
    }
    Ok(())
}

fn body(cx: &mut Cx) {
    let n = if cx.thorough { 9 } else { 5 };
    for (o, r, c) in shapes(n) {
        cx.case(|| format!("every candidate index on Tr24 {o:?} {r}x{c}"), |s| plain::<Tr>(o, r, c, s));
        cx.case(|| format!("every candidate index on P1 {o:?} {r}x{c}"), |s| plain::<P1>(o, r, c, s));
        cx.case(|| format!("every candidate index on P4 {o:?} {r}x{c}"), |s| plain::<P4>(o, r, c, s));
        cx.case(|| format!("every candidate index on P8 {o:?} {r}x{c}"), |s| plain::<P8>(o, r, c, s));
        cx.case(|| format!("every candidate index on TrB {o:?} {r}x{c}"), |s| plain::<TrB>(o, r, c, s));
        cx.case(|| format!("every candidate index on P64 {o:?} {r}x{c}"), |s| plain::<P64>(o, r, c, s));
        cx.case(|| format!("every candidate index on TrZ0 {o:?} {r}x{c}"), |s| plain::<TrZ>(o, r, c, s));
    }
    for (o, r, c) in shapes(if cx.thorough { 6 } else { 4 }).into_iter().chain([(Ord_::R, 1, 31), (Ord_::C, 31, 1), (Ord_::R, 33, 17), (Ord_::C, 33, 17)]) {
        cx.case(|| format!("every failing index on Tr24 {o:?} {r}x{c} with its elements inaccessible"), |s| locked::<Tr>(o, r, c, s));
        cx.case(|| format!("every failing index on P1 {o:?} {r}x{c} with its elements inaccessible"), |s| locked::<P1>(o, r, c, s));
    }
    for (r, c) in [(1, 31), (31, 1), (2, 17), (16, 8), (7, 13)] {
        for o in ORDERS {
            cx.case(|| format!("every candidate index on P1 {o:?} {r}x{c}"), |s| plain::<P1>(o, r, c, s));
        }
    }
    for (r, c) in sweep(n, if cx.thorough { 80 } else { 40 }).into_iter().chain(BIG) {
        for o in ORDERS {
            cx.case(|| format!("every position of Tr24 {o:?} {r}x{c}"), |s| every::<Tr>(o, r, c, s));
            cx.case(|| format!("every position of P1 {o:?} {r}x{c}"), |s| every::<P1>(o, r, c, s));
            cx.case(|| format!("every position of P8 {o:?} {r}x{c}"), |s| every::<P8>(o, r, c, s));
            cx.case(|| format!("every position of TrB {o:?} {r}x{c}"), |s| every::<TrB>(o, r, c, s));
        }
    }
    for (r, c) in HUGE {
        for o in ORDERS {
            cx.case(|| format!("every position of P4 {o:?} {r}x{c}"), |s| every::<P4>(o, r, c, s));
        }
    }
    let len = if cx.thorough { 5 } else { 4 };
    let sh = if cx.thorough { shapes(3) } else { shapes(2).into_iter().chain([(Ord_::R, 2, 3), (Ord_::C, 2, 3), (Ord_::R, 3, 1), (Ord_::C, 3, 2)]).collect() };
    for (o, r, c) in sh {
        let mut rv = vec![0, r.saturating_sub(1), r, usize::MAX];
        rv.dedup();
        let len = if r * c > 2 { len.min(3 + cx.thorough as usize) } else { len };
        let total = rv.len().pow(len as u32);
        for k in 0..total {
            let mut q = k;
            let rows: Vec<usize> = (0..len)
                .map(|_| {
                    let v = rv[q % rv.len()];
                    q /= rv.len();
                    v
                })
                .collect();
            cx.case(|| format!("accessors answering rows {rows:?} and every column stream on {o:?} {r}x{c}"), |s| inconsistent(o, r, c, &rows, len, s));
        }
    }
    for (r, c) in [(usize::MAX, 1), (1, usize::MAX), (1 << 32, 1 << 31), (1 << 31, 1 << 32), (1 << 62, 3), (3, 1 << 62), (isize::MAX as usize, 2), (5, usize::MAX / 5), ((1 << 32) + 1, (1 << 32) - 1), ((1 << 32) - 1, (1 << 32) + 1)] {
        for o in ORDERS {
            cx.soft(|| format!("zero-sized {o:?} {r}x{c}"), move |s| zst((), r, c, o, s));
            cx.soft(|| format!("zero-sized, over-aligned {o:?} {r}x{c}"), move |s| zst(ZA, r, c, o, s));
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C04",
            level: "model_checking",
            rule: "state = (element size, order, shape, row, col) or (order, shape, answered accessor values, access form); transition = one checked/unchecked access through one index type, compared by element address, error or panic with the oracle",
            bounds: |t| {
                format!(
                    "shapes 0..={} squared and 5 longer ones, both orders, element sizes 0/1/4/24; every failing index again with the element buffer made inaccessible (shapes up to 4, with and without elements); indices: everything up to extent+2 plus extremes and all values whose product with a stride wraps; 7 index types x 8 access forms; every position and border of all shapes up to {} squared and 24 longer ones up to 65792 elements; inconsistent accessors: all streams of length {} (one less on larger shapes) over {{0, n-1, n, MAX}}^2; zero-sized shapes up to usize::MAX elements",
                    if t { 9 } else { 5 },
                    if t { 80 } else { 40 },
                    if t { 5 } else { 4 }
                )
            },
            assumptions: &["out-of-bounds reads are also caught by std's debug preconditions on slice access, which are on in this build, and by the inaccessible pages"],
            stall_s: 60,
        },
        body,
    )
}
