//! C15: element iteration order, indices and moves, after every short history
//! of order and shape changes, along every front/back pattern.
use matreex::parallel::*;
use matreex::{Index, Matrix};
use mcx::drive::*;
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use rayon_core::mc;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum H {
    Transpose,
    Switch,
    SwitchRaw,
    Set(Ord_),
    SetRaw(Ord_),
    Reshape(usize, usize),
    Resize(usize, usize),
}

fn menu(size: usize) -> Vec<H> {
    let mut v = vec![H::Transpose, H::Switch, H::SwitchRaw, H::Set(Ord_::R), H::Set(Ord_::C), H::SetRaw(Ord_::R), H::SetRaw(Ord_::C)];
    for r in 0..=size {
        for c in 0..=size {
            if r * c == size && (size > 0 || r + c <= 2) {
                v.push(H::Reshape(r, c));
            }
        }
    }
    v.push(H::Resize(2, 3));
    v.push(H::Resize(3, 1));
    v
}

fn step<E: Elem>(m: &mut Matrix<E>, x: &mut M, h: H) -> Res {
    match h {
        H::Transpose => {
            m.transpose();
            *x = x.transposed();
        }
        H::Switch => {
            m.switch_order();
            x.order = x.order.flip();
        }
        H::SwitchRaw => {
            m.switch_order_without_rearrangement();
            *x = M { order: x.order.flip(), ..x.transposed() };
        }
        H::Set(o) => {
            m.set_order(o.real());
            x.order = o;
        }
        H::SetRaw(o) => {
            m.set_order_without_rearrangement(o.real());
            if o != x.order {
                *x = M { order: o, ..x.transposed() };
            }
        }
        H::Reshape(r, c) => {
            if let Err(e) = m.reshape((r, c)) {
                bail!("reshape to {r}x{c}: {e:?}");
            }
            *x = M::from_seq(x.order, r, c, &x.seq());
        }
        H::Resize(r, c) => {
            if let Err(e) = m.resize((r, c)) {
                bail!("resize to {r}x{c}: {e:?}");
            }
            let mut q = x.seq();
            q.resize(r * c, E::norm(DEFAULT));
            *x = M::from_seq(x.order, r, c, &q);
        }
    }
    Ok(())
}

fn make<E: Elem>(x0: &M, hist: &[H]) -> Result<(Matrix<E>, M), Fail> {
    let mut m: Matrix<E> = x0.build();
    let mut x = x0.clone();
    for h in hist {
        step(&mut m, &mut x, *h)?;
    }
    Ok((m, x))
}

type Key = (usize, usize, u32, u64, usize); // row, col, value, id, address

fn keys<E: Elem>(m: &Matrix<E>, x: &M) -> Result<Vec<Key>, Fail> {
    let mut v = vec![];
    for (r, c) in x.positions() {
        let Ok(e) = m.get((r, c)) else { bail!("get(({r}, {c})) fails") };
        v.push((r, c, x.rows[r][c], e.id(), e as *const E as usize));
    }
    Ok(v)
}
fn same<E: Elem>(e: &E, k: &Key, moved: bool) -> Res {
    ensure!(e.val() == k.2, "yields value {}, expected {} of ({}, {})", e.val(), k.2, k.0, k.1);
    ensure!(e.id() == k.3, "yields another object with an equal value");
    ensure!(moved || e as *const E as usize == k.4, "yields an element that is not the one at ({}, {})", k.0, k.1);
    Ok(())
}
fn at(i: Index, k: &Key) -> Res {
    ensure!((i.row, i.col) == (k.0, k.1), "reports index ({}, {}), expected ({}, {})", i.row, i.col, k.0, k.1);
    Ok(())
}

const FAMILIES: usize = 6;
fn family<E: Elem>(f: usize, x0: &M, hist: &[H], acts: &[Act], fin: Fin, s: &mut Stats) -> Res {
    reset();
    let n;
    {
        let (mut m, x) = make::<E>(x0, hist)?;
        let k = keys(&m, &x)?;
        let c0 = counts();
        n = match f {
            0 => drive(m.iter_elements(), &k, acts, fin, &mut |e, k| same(e, k, false))?,
            1 => drive(m.iter_elements_mut(), &k, acts, fin, &mut |e, k| same(&*e, k, false))?,
            2 => drive(m.iter_elements_with_index(), &k, acts, fin, &mut |(i, e), k| at(i, k).and_then(|()| same(e, k, false)))?,
            3 => drive(m.iter_elements_mut_with_index(), &k, acts, fin, &mut |(i, e), k| at(i, k).and_then(|()| same(&*e, k, false)))?,
            4 => drive(std::mem::take(&mut m).into_iter_elements(), &k, acts, fin, &mut |e, k| same(&e, k, true))?,
            _ => drive(std::mem::take(&mut m).into_iter_elements_with_index(), &k, acts, fin, &mut |(i, e), k| at(i, k).and_then(|()| same(&e, k, true)))?,
        };
        let c1 = counts();
        ensure!(c0.clones == c1.clones && c0.defaults == c1.defaults, "iteration cloned or created elements");
        if f < 4 {
            ensure!(c0 == c1, "iteration by reference dropped elements");
            agree(&m, &x)?;
        }
    }
    s.transitions(n + hist.len() as u64);
    Ok(finish()?)
}

/// Writes through the mutable iterators land on the indexed element.
fn writes<E: Elem>(x0: &M, hist: &[H], s: &mut Stats) -> Res {
    reset();
    {
        let (mut m, x) = make::<E>(x0, hist)?;
        let f = |r: usize, c: usize| (r * 16 + c + 1000) as u32;
        for (i, e) in m.iter_elements_mut_with_index().rev() {
            e.set(f(i.row, i.col));
        }
        agree(&m, &M::new(x.order, x.nr, x.nc, f).norm::<E>())?;
        for (k, e) in m.iter_elements_mut().enumerate() {
            e.set(k as u32 + 1);
        }
        let seq: Vec<u32> = (0..x.size()).map(|k| k as u32 + 1).collect();
        agree(&m, &M::from_seq(x.order, x.nr, x.nc, &seq).norm::<E>())?;
        s.transitions(2);
    }
    Ok(finish()?)
}

fn parallel<E: Elem>(x0: &M, hist: &[H], s: &mut Stats) -> Res {
    for pool in [1, 2, 3, 8] {
        mc::set_pool(pool);
        reset();
        {
            let (mut m, x) = make::<E>(x0, hist)?;
            let k = keys(&m, &x)?;
            let mut want: Vec<_> = k.iter().map(|k| (k.0, k.1, k.2, k.3)).collect();
            want.sort();
            let seen = Mutex::new(vec![]);
            let put = |i: Index, e: &E| seen.lock().unwrap().push((i.row, i.col, e.val(), e.id()));
            let take = |w: &str| {
                let mut v = std::mem::take(&mut *seen.lock().unwrap());
                v.sort();
                ensure!(v == want, "{w}: items (row, col, value, id) {v:?}, expected {want:?}");
                Ok::<(), Fail>(())
            };
            let mm = &m;
            let at_get = Mutex::new(true);
            m.par_iter_elements_with_index().for_each(|(i, e)| {
                put(i, e);
                if !mm.get(i).is_ok_and(|g| std::ptr::eq(g, e)) {
                    *at_get.lock().unwrap() = false;
                }
            });
            ensure!(*at_get.lock().unwrap(), "par_iter_elements_with_index: get at a reported index is another element");
            take("par_iter_elements_with_index")?;
            m.par_iter_elements_mut_with_index().for_each(|(i, e)| put(i, e));
            take("par_iter_elements_mut_with_index")?;
            agree(&m, &x)?;
            let c0 = counts();
            let v: Vec<(Index, E)> = std::mem::take(&mut m).into_par_iter_elements_with_index().collect();
            ensure!(counts() == c0, "collecting a consuming parallel iterator clones or drops");
            v.iter().for_each(|(i, e)| put(*i, e));
            take("into_par_iter_elements_with_index")?;
            drop(v);
            let (mut m, x) = make::<E>(x0, hist)?;
            let mut want: Vec<_> = keys(&m, &x)?.iter().map(|k| (k.2, k.3)).collect();
            want.sort();
            let seen = Mutex::new(vec![]);
            let put = |e: &E| seen.lock().unwrap().push((e.val(), e.id()));
            let take = |w: &str| {
                let mut v = std::mem::take(&mut *seen.lock().unwrap());
                v.sort();
                ensure!(v == want, "{w}: items (value, id) {v:?}, expected {want:?}");
                Ok::<(), Fail>(())
            };
            m.par_iter_elements().for_each(put);
            take("par_iter_elements")?;
            m.par_iter_elements_mut().for_each(|e| put(&*e));
            take("par_iter_elements_mut")?;
            let v: Vec<E> = m.into_par_iter_elements().collect();
            v.iter().for_each(put);
            take("into_par_iter_elements")?;
            s.transitions(6);
        }
        finish()?;
    }
    mc::set_pool(4);
    Ok(())
}

fn whole<E: Elem>(x0: &M, hist: &[H], deep: usize, s: &mut Stats) -> Res {
    let ctx = |f: Fail, what: String| Fail { key: f.key, msg: format!("{what}: {}", f.msg) };
    reset();
    let x = make::<E>(x0, hist)?.1;
    s.state((E::NAME, x.order, x.nr, x.nc, x.seq()));
    let names = ["iter_elements", "iter_elements_mut", "iter_elements_with_index", "iter_elements_mut_with_index", "into_iter_elements", "into_iter_elements_with_index"];
    let n = x.size();
    let mut pats: Vec<(Vec<Act>, Fin)> = vec![];
    for a in sequences(&FB, (n + 1).min(deep)) {
        pats.push((a.clone(), Fin::Drain));
        pats.push((a, Fin::Drop));
    }
    for a in sequences(&ALL, if deep > 2 { 2 } else { 1 }) {
        for fin in FINS {
            pats.push((a.clone(), fin));
        }
    }
    if deep > 2 {
        pats.extend(wrapping_acts(&[size_of::<E>(), x.nr, x.nc]).into_iter().map(|w| (w, Fin::Drain)));
    }
    for f in 0..FAMILIES {
        for (a, fin) in &pats {
            family::<E>(f, x0, hist, a, *fin, s).map_err(|e| ctx(e, format!("{} {a:?} {fin:?}", names[f])))?;
        }
    }
    writes::<E>(x0, hist, s)?;
    parallel::<E>(x0, hist, s)
}

/// Every family on longer shapes: all items from the front, from the back, and
/// from both ends in turn, then writes and the parallel ones.
fn long<E: Elem>(o: Ord_, nr: usize, nc: usize, s: &mut Stats) -> Res {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    let n = nr * nc;
    let alternate: Vec<Act> = (0..n.min(200)).map(|k| if k % 3 == 0 { Act::B } else { Act::F }).collect();
    let jumps = [Act::N(n / 2), Act::NB(n / 4), Act::F, Act::B, Act::N(n)];
    for f in 0..FAMILIES {
        for (a, fin) in [(&[][..], Fin::Drain), (&[], Fin::DrainBack), (&alternate, Fin::Drain), (&alternate, Fin::Drop), (&jumps, Fin::Drain), (&[], Fin::Rev), (&[], Fin::Fold), (&[], Fin::Rfold), (&[], Fin::SkipStep)] {
            family::<E>(f, &x, &[], a, fin, s).map_err(|e| Fail { key: e.key, msg: format!("family {f} {fin:?}: {}", e.msg) })?;
        }
    }
    s.state(("long", E::NAME, o, nr, nc));
    writes::<E>(&x, &[], s)?;
    parallel::<E>(&x, &[], s)
}

/// Zero-sized elements beyond any memory: reported indices at both ends.
fn huge(nr: usize, nc: usize, o: Ord_, s: &mut Stats) -> Res {
    let make = || -> Result<Matrix<ZA>, Fail> {
        let mut m = Matrix::from_row(vec![ZA; nr * nc]);
        m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
        m.set_order(o.real());
        Ok(m)
    };
    let at = |k: usize| if o == Ord_::R { (k / nc, k % nc) } else { (k % nr, k / nr) };
    let n = nr * nc;
    let mut m = make()?;
    macro_rules! go {
        ($it:expr, $w:expr) => {{
            let mut it = $it;
            ensure!(it.len() == n, "{}: len {}", $w, it.len());
            let (mut lo, mut hi) = (0, n);
            for _ in 0..3 {
                if lo < hi {
                    let i: Index = it.next().map(|p| p.0).ok_or("next() ends early")?;
                    ensure!((i.row, i.col) == at(lo), "{}: item {lo} has index {i:?}", $w);
                    lo += 1;
                }
                if lo < hi {
                    hi -= 1;
                    let i: Index = it.next_back().map(|p| p.0).ok_or("next_back() ends early")?;
                    ensure!((i.row, i.col) == at(hi), "{}: item {hi} has index {i:?}", $w);
                }
                ensure!(it.len() == hi - lo, "{}: len {}", $w, it.len());
                s.transitions(2);
            }
            std::mem::forget(it);
        }};
    }
    go!(m.iter_elements_with_index(), "iter_elements_with_index");
    go!(m.iter_elements_mut_with_index(), "iter_elements_mut_with_index");
    go!(make()?.into_iter_elements_with_index(), "into_iter_elements_with_index");
    s.state(("huge", nr, nc, o));
    Ok(())
}

fn main() {
    run(
        Meta {
            prop: "C15",
            level: "model_checking",
            rule: "from every small matrix, every history of order/shape changes up to the depth bound, then each of the six sequential iterator families along every front/back pattern (and nth/fold/rev/last/skip/step/partial-drop variants), with identity, address, index and drop ledger compared to the reference; the six parallel ones on every deterministic splitting of pools 1, 2, 3, 8",
            bounds: |t| {
                format!(
                    "start shapes up to {0}x{0} (plus 1xn, nx1), both orders; histories to depth {1}; patterns of length {2} fully; 9 patterns on all shapes up to {3} squared and about 20 longer ones; element types 24-byte tracked, zero-sized tracked, 1-byte",
                    if t { 4 } else { 3 },
                    if t { 3 } else { 2 },
                    if t { 9 } else { 7 },
                    if t { 24 } else { 12 }
                )
            },
            assumptions: &["histories longer than the bound reach no new kind of (order, shape, store) state"],
            stall_s: 60,
        },
        |cx| {
            let t = cx.thorough;
            let mut shapes = shapes(if t { 4 } else { 3 });
            for n in [5, 7] {
                for o in ORDERS {
                    shapes.push((o, 1, n));
                    shapes.push((o, n, 1));
                }
            }
            for (o, nr, nc) in shapes {
                let x0 = M::numbered(o, nr, nc, 0);
                let mut level: Vec<Vec<H>> = vec![vec![]];
                let mut hists = level.clone();
                for _ in 0..if t && nr * nc <= 6 { 3 } else { 2 } {
                    let mut next = vec![];
                    for h in &level {
                        let mut x = x0.clone();
                        let mut m: Matrix<P4> = x0.build();
                        if h.iter().try_for_each(|h| step(&mut m, &mut x, *h)).is_err() {
                            continue;
                        }
                        for a in menu(x.size()) {
                            next.push([h.clone(), vec![a]].concat());
                        }
                    }
                    hists.extend(next.iter().cloned());
                    level = next;
                }
                for h in hists {
                    let deep = match h.len() {
                        0 => if t { 9 } else { 7 },
                        1 => 4,
                        _ => 2,
                    };
                    cx.case(|| format!("{o:?}-major {nr}x{nc} {} after {h:?}", Tr::NAME), |s| whole::<Tr>(&x0, &h, deep, s));
                    if h.len() <= 1 {
                        let (z, p) = (x0.clone().norm::<TrZ>(), x0.clone().norm::<P1>());
                        cx.case(|| format!("{o:?}-major {nr}x{nc} {} after {h:?}", TrZ::NAME), |s| whole::<TrZ>(&z, &h, deep.min(4), s));
                        cx.case(|| format!("{o:?}-major {nr}x{nc} {} after {h:?}", P1::NAME), |s| whole::<P1>(&p, &h, deep.min(4), s));
                        let (e, b) = (x0.clone().norm::<P8>(), x0.clone().norm::<TrB>());
                        cx.case(|| format!("{o:?}-major {nr}x{nc} {} after {h:?}", P8::NAME), |s| whole::<P8>(&e, &h, deep.min(4), s));
                        cx.case(|| format!("{o:?}-major {nr}x{nc} {} after {h:?}", TrB::NAME), |s| whole::<TrB>(&b, &h, deep.min(4), s));
                    }
                }
            }
            let lim = if t { usize::MAX } else { 150_000 };
            for (r, c) in sweep(3, if t { 24 } else { 12 }).into_iter().chain(BIG.into_iter().chain(HUGE).filter(|s| s.0 * s.1 < lim)) {
                for o in ORDERS {
                    cx.case(|| format!("every element of {o:?}-major {r}x{c} {}", P8::NAME), |s| long::<P8>(o, r, c, s));
                    if r * c > 5000 && !t {
                        continue;
                    }
                    cx.case(|| format!("every element of {o:?}-major {r}x{c} {}", Tr::NAME), |s| long::<Tr>(o, r, c, s));
                    cx.case(|| format!("every element of {o:?}-major {r}x{c} {}", P16::NAME), |s| long::<P16>(o, r, c, s));
                    cx.case(|| format!("every element of {o:?}-major {r}x{c} {}", TrB::NAME), |s| long::<TrB>(o, r, c, s));
                }
            }
            let big = usize::MAX;
            for (nr, nc) in [(1, big), (big, 1), (3, big / 3), (big / 3, 3), (1 << 32, (1 << 32) - 1), ((1 << 32) - 1, 1 << 32), (2, 1 << 62)] {
                for o in ORDERS {
                    cx.soft(|| format!("huge {o:?}-major {nr}x{nc} of zero-sized elements"), move |s| huge(nr, nc, o, s));
                }
            }
        },
    )
}
