//! C05: transpose and the storage-order operations, over every small shape and
//! every composition of the seven operations up to a depth.
use matreex::{Matrix, Order};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    T,
    Sw,
    SwW,
    Set(Ord_),
    SetW(Ord_),
}
const OPS: [Op; 7] = [Op::T, Op::Sw, Op::SwW, Op::Set(Ord_::R), Op::Set(Ord_::C), Op::SetW(Ord_::R), Op::SetW(Ord_::C)];

fn model(op: Op, m: &M) -> M {
    let relay = |m: &M, o: Ord_| {
        let mut x = m.clone();
        x.order = o;
        x
    };
    // same memory sequence, other order: the transposed matrix is presented
    let retag = |m: &M, o: Ord_| if o == m.order { m.clone() } else { M::from_seq(o, m.nc, m.nr, &m.seq()) };
    match op {
        Op::T => m.transposed(),
        Op::Sw => relay(m, m.order.flip()),
        Op::SwW => retag(m, m.order.flip()),
        Op::Set(o) => relay(m, o),
        Op::SetW(o) => retag(m, o),
    }
}

fn real<E>(op: Op, m: &mut Matrix<E>) {
    match op {
        Op::T => m.transpose(),
        Op::Sw => m.switch_order(),
        Op::SwW => m.switch_order_without_rearrangement(),
        Op::Set(o) => m.set_order(o.real()),
        Op::SetW(o) => m.set_order_without_rearrangement(o.real()),
    };
}

fn step<E: Elem>(op: Op, m: &mut Matrix<E>, x: &M, s: &mut Stats) -> Result<M, Fail> {
    let before = counts();
    let seq: Vec<u64> = m.iter_elements().map(|e| e.id()).collect();
    real(op, m);
    let y = model(op, x);
    s.transition();
    let after = counts();
    ensure!(before == after, "{op:?} on {} created, cloned or dropped elements: {before:?} -> {after:?}", x.short());
    if let Err(f) = agree(m, &y) {
        bail!("{op:?} on {} of {}: {}", x.short(), E::NAME, f.msg);
    }
    let now: Vec<u64> = m.iter_elements().map(|e| e.id()).collect();
    if matches!(op, Op::SwW | Op::SetW(_)) {
        ensure!(now == seq, "{op:?} on {} changed the memory-order sequence", x.short());
    }
    s.state((E::NAME, y.order, y.nr, y.nc));
    Ok(y)
}

fn single<E: Elem>(o: Ord_, r: usize, c: usize, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, r, c, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        agree(&m, &x)?;
        // twice: transpose . transpose = id, switch . switch = id, ...
        for op in OPS {
            let y = step(op, &mut m, &x, s)?;
            let z = step(op, &mut m, &y, s)?;
            if matches!(op, Op::T | Op::Sw | Op::SwW) {
                ensure!(z == x, "{op:?} twice is not the identity on {}", x.short());
            }
            // back to the start by the remaining operations
            let mut z = z;
            if z.order != o {
                z = step(Op::Set(o), &mut m, &z, s)?;
            }
            if (z.nr, z.nc) != (r, c) || z.rows != x.rows {
                z = step(Op::T, &mut m, &z, s)?;
            }
            ensure!(z == x, "cannot return to the start from {op:?}");
        }
    }
    finish()?;
    Ok(())
}

fn compose<E: Elem>(o: Ord_, r: usize, c: usize, first: Op, depth: usize, s: &mut Stats) -> Res {
    // every sequence starting with `first`, replayed from scratch
    let mut seq = vec![0usize; depth - 1];
    loop {
        reset();
        {
            let x = M::numbered(o, r, c, 0).norm::<E>();
            let mut m: Matrix<E> = x.build();
            let mut y = step(first, &mut m, &x, s)?;
            for &i in &seq {
                y = match step(OPS[i], &mut m, &y, s) {
                    Ok(y) => y,
                    Err(f) => bail!("after {first:?} {:?}: {}", seq.iter().map(|&i| OPS[i]).collect::<Vec<_>>(), f.msg),
                };
            }
            s.add("sequences", 1);
        }
        finish()?;
        let mut k = 0;
        loop {
            if k == seq.len() {
                return Ok(());
            }
            seq[k] += 1;
            if seq[k] < OPS.len() {
                break;
            }
            seq[k] = 0;
            k += 1;
        }
    }
}

fn huge(n: usize, row: bool, ops: &[Op], s: &mut Stats) -> Res {
    let v = vec![(); n];
    let mut m = if row { Matrix::from_row(v) } else { Matrix::from_col(v) };
    let (mut r, mut c) = (m.nrows(), m.ncols());
    let mut o = m.order();
    for &op in ops {
        real(op, &mut m);
        s.transition();
        let (o2, flip) = match op {
            Op::T => (o, true),
            Op::Sw => (Ord_::of(o).flip().real(), false),
            Op::SwW => (Ord_::of(o).flip().real(), true),
            Op::Set(p) => (p.real(), false),
            Op::SetW(p) => (p.real(), p.real() != o),
        };
        o = o2;
        if flip {
            (r, c) = (c, r);
        }
        ensure!(m.order() == o && m.nrows() == r && m.ncols() == c, "{ops:?} on {n} zero-sized elements: {:?} {}x{}", m.order(), m.nrows(), m.ncols());
        ensure!(m.size() == n, "size changed");
        ensure!(m.get((r - 1, c - 1)).is_ok() && m.get((r, c - 1)).is_err() && m.get((r - 1, c)).is_err(), "bounds after {ops:?}");
    }
    Ok(())
}

fn big_shapes(thorough: bool) -> Vec<(usize, usize)> {
    let n = if thorough { 150 } else { 40 };
    let mut v = vec![];
    for r in 0..=n {
        for c in 0..=n {
            v.push((r, c));
        }
    }
    let m = if thorough { 2000 } else { 300 };
    for k in n + 1..=m {
        v.push((1, k));
        v.push((k, 1));
        if k % 7 == 0 {
            v.push((2, k));
            v.push((k, 3));
        }
    }
    for p in [(64, 96), (96, 64), (97, 101), (100, 100), (128, 129), (60, 84), (0, 500), (500, 0)] {
        v.push(p);
    }
    v
}

fn body(cx: &mut Cx) {
    // compositions first: smallest counterexamples
    let th = cx.thorough;
    let depth = if th { 6 } else { 4 };
    for (o, r, c) in shapes(4) {
        for first in OPS {
            cx.case(|| format!("all sequences {first:?}.. of depth {depth} on Tr24 {o:?} {r}x{c}"), |s| compose::<Tr>(o, r, c, first, depth, s));
            cx.case(|| format!("all sequences {first:?}.. of depth {depth} on TrZ0 {o:?} {r}x{c}"), |s| compose::<TrZ>(o, r, c, first, depth - 1, s));
        }
    }
    for (r, c) in big_shapes(th) {
        for o in ORDERS {
            cx.case(|| format!("each operation twice on P2 {o:?} {r}x{c}"), |s| single::<P2>(o, r, c, s));
            cx.case(|| format!("each operation twice on P8 {o:?} {r}x{c}"), |s| single::<P8>(o, r, c, s));
            if r <= 40 && c <= 40 {
                cx.case(|| format!("each operation twice on Tr24 {o:?} {r}x{c}"), |s| single::<Tr>(o, r, c, s));
            }
            if r <= 12 && c <= 12 {
                cx.case(|| format!("each operation twice on P1 {o:?} {r}x{c}"), |s| single::<P1>(o, r, c, s));
                cx.case(|| format!("each operation twice on P4 {o:?} {r}x{c}"), |s| single::<P4>(o, r, c, s));
                cx.case(|| format!("each operation twice on P16 {o:?} {r}x{c}"), |s| single::<P16>(o, r, c, s));
                cx.case(|| format!("each operation twice on P8 {o:?} {r}x{c}"), |s| single::<P8>(o, r, c, s));
                cx.case(|| format!("each operation twice on Tr8 {o:?} {r}x{c}"), |s| single::<Tr8>(o, r, c, s));
                cx.case(|| format!("each operation twice on TrB {o:?} {r}x{c}"), |s| single::<TrB>(o, r, c, s));
                cx.case(|| format!("each operation twice on P64 {o:?} {r}x{c}"), |s| single::<P64>(o, r, c, s));
                cx.case(|| format!("each operation twice on TrZ0 {o:?} {r}x{c}"), |s| single::<TrZ>(o, r, c, s));
            }
        }
    }
    for (r, c) in BIG.into_iter().chain(HUGE) {
        for o in ORDERS {
            cx.case(|| format!("each operation twice on P4 {o:?} {r}x{c}"), |s| single::<P4>(o, r, c, s));
            if r * c < if th { 200_000 } else { 20_000 } {
                cx.case(|| format!("each operation twice on Tr8 {o:?} {r}x{c}"), |s| single::<Tr8>(o, r, c, s));
                cx.case(|| format!("each operation twice on P1 {o:?} {r}x{c}"), |s| single::<P1>(o, r, c, s));
                cx.case(|| format!("each operation twice on TrB {o:?} {r}x{c}"), |s| single::<TrB>(o, r, c, s));
            }
        }
    }
    for n in [1 << 40, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX] {
        for row in [false, true] {
            for a in OPS {
                for b in OPS {
                    for c in OPS {
                        cx.soft(|| format!("{a:?} {b:?} {c:?} on {n} zero-sized elements, row={row}"), move |s| huge(n, row, &[a, b, c], s));
                    }
                }
            }
        }
    }
    let _ = Order::RowMajor;
}

fn main() {
    run(
        Meta {
            prop: "C05",
            level: "model_checking",
            rule: "state = (element type, order, nrows, ncols) reached; transition = one transpose/order operation executed on the real matrix and compared with the row-of-rows model, the memory-order identities and the clone/drop/creation ledger",
            bounds: |t| {
                if t {
                    "all sequences of the 7 operations: depth 6 on all shapes 0..=4 x 0..=4, both orders; each operation applied twice on all shapes 0..=150 squared plus 1xn/nx1 to 2000; zero-sized elements up to usize::MAX".into()
                } else {
                    "all sequences of the 7 operations: depth 4 on all shapes 0..=4 x 0..=4, both orders; each operation applied twice on all shapes 0..=40 squared plus 1xn/nx1 to 300; zero-sized elements up to usize::MAX".into()
                }
            },
            assumptions: &["behaviour does not depend on element values (no user code is called by these operations)"],
            stall_s: 60,
        },
        body,
    )
}
