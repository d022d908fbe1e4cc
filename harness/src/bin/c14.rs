//! C14: overwrite over every pair of shapes and storage orders.
use matreex::Matrix;
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};

fn one<E: Elem>(d: (Ord_, usize, usize), q: (Ord_, usize, usize), s: &mut Stats) -> Res {
    reset();
    {
        let xd = M::numbered(d.0, d.1, d.2, 0).norm::<E>();
        let xs = M::numbered(q.0, q.1, q.2, 100_000).norm::<E>();
        let mut dst: Matrix<E> = xd.build();
        let src: Matrix<E> = xs.build();
        let (did, sid) = (ids(&dst), ids(&src));
        let before = counts();
        dst.overwrite(&src);
        s.transition();
        s.state((E::NAME, d, q));
        let after = counts();
        let (mr, mc) = (d.1.min(q.1), d.2.min(q.2));
        let mut want = xd.clone();
        for r in 0..mr {
            for c in 0..mc {
                want.rows[r][c] = xs.rows[r][c];
            }
        }
        if let Err(e) = agree(&dst, &want) {
            bail!("dest: {}", e.msg);
        }
        if let Err(e) = agree(&src, &xs) {
            bail!("source changed: {}", e.msg);
        }
        ensure!(ids(&src) == sid, "source elements were replaced or moved");
        let did2 = ids(&dst);
        for r in 0..d.1 {
            for c in 0..d.2 {
                if r >= mr || c >= mc {
                    ensure!(did2[r][c] == did[r][c], "element ({r}, {c}) outside the overlap was replaced");
                }
            }
        }
        ensure!(after.live == before.live, "number of live elements changed: {before:?} -> {after:?}");
        let made = after.clones - before.clones;
        ensure!(made >= (mr * mc) as u64, "{made} clones for {} copied elements", mr * mc);
    }
    Ok(finish()?)
}

fn huge(a: (usize, usize), b: (usize, usize), o: (Ord_, Ord_), s: &mut Stats) -> Res {
    let mk = |r: usize, c: usize, o: Ord_| {
        let mut m = Matrix::from_row(vec![ZA; r * c]);
        m.reshape((r, c)).unwrap();
        m.set_order(o.real());
        m
    };
    let mut d = mk(a.0, a.1, o.0);
    let q = mk(b.0, b.1, o.1);
    d.overwrite(&q);
    s.transition();
    s.state((a, b, o));
    ensure!(d.nrows() == a.0 && d.ncols() == a.1 && d.size() == a.0 * a.1, "dest shape changed");
    ensure!(q.nrows() == b.0 && q.ncols() == b.1, "source shape changed");
    Ok(())
}

fn body(cx: &mut Cx) {
    let n = if cx.thorough { 10 } else { 6 };
    for d in shapes(n) {
        for q in shapes(n) {
            cx.case(|| format!("Tr24 {d:?} <- {q:?}"), |s| one::<Tr>(d, q, s));
            if d.1 <= 4 && d.2 <= 4 && q.1 <= 4 && q.2 <= 4 {
                cx.case(|| format!("TrZ0 {d:?} <- {q:?}"), |s| one::<TrZ>(d, q, s));
                cx.case(|| format!("P1 {d:?} <- {q:?}"), |s| one::<P1>(d, q, s));
                cx.case(|| format!("P4 {d:?} <- {q:?}"), |s| one::<P4>(d, q, s));
                cx.case(|| format!("P8 {d:?} <- {q:?}"), |s| one::<P8>(d, q, s));
                cx.case(|| format!("Tr8 {d:?} <- {q:?}"), |s| one::<Tr8>(d, q, s));
                cx.case(|| format!("TrB {d:?} <- {q:?}"), |s| one::<TrB>(d, q, s));
                cx.case(|| format!("P64 {d:?} <- {q:?}"), |s| one::<P64>(d, q, s));
            }
        }
    }
    let n = if cx.thorough { 16 } else { 9 };
    for (_, r, c) in shapes(n).into_iter().filter(|d| d.0 == Ord_::R) {
        cx.case(
            || format!("P4 {r}x{c} <- every shape up to {n}"),
            |s| {
                for (p, a, b) in shapes(n) {
                    for o in ORDERS {
                        one::<P4>((o, r, c), (p, a, b), s).map_err(|f| Fail { key: f.key, msg: format!("{o:?} <- {p:?} {a}x{b}: {}", f.msg) })?;
                    }
                }
                Ok(())
            },
        );
    }
    let lim = if cx.thorough { usize::MAX } else { 17000 };
    for a in BIG.into_iter().filter(|s| s.0 * s.1 < lim) {
        for b in BIG.into_iter().filter(|s| s.0 * s.1 < lim) {
            for o in ORDERS {
                for p in ORDERS {
                    cx.case(|| format!("P4 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<P4>((o, a.0, a.1), (p, b.0, b.1), s));
                    cx.case(|| format!("P8 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<P8>((o, a.0, a.1), (p, b.0, b.1), s));
                    cx.case(|| format!("Tr8 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<Tr8>((o, a.0, a.1), (p, b.0, b.1), s));
                }
            }
        }
    }
    for (k, a) in BIG.into_iter().chain(HUGE).enumerate() {
        for b in [a, (a.1, a.0), (a.0 + 1, a.1), (a.0, a.1 + 1), (a.0 / 2 + 1, a.1 + 3), (a.0 + 3, a.1 / 2 + 1), (1, a.1), (a.0, 1), (a.0 - 1, a.1), (a.0, a.1 - 1)] {
            for o in ORDERS {
                for p in ORDERS {
                    cx.case(|| format!("P4 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<P4>((o, a.0, a.1), (p, b.0, b.1), s));
                    if a.0 * a.1 < 20_000 || cx.thorough || k % 4 == 0 {
                        cx.case(|| format!("P1 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<P1>((o, a.0, a.1), (p, b.0, b.1), s));
                    }
                }
            }
        }
    }
    let long = [(1, 40), (40, 1), (2, 33), (33, 2), (7, 11), (11, 7), (0, 40), (40, 0), (16, 16)];
    for a in long {
        for b in long {
            for o in ORDERS {
                for p in ORDERS {
                    cx.case(|| format!("Tr24 {o:?}{a:?} <- {p:?}{b:?}"), |s| one::<Tr>((o, a.0, a.1), (p, b.0, b.1), s));
                }
            }
        }
    }
    // zero-sized destinations far larger than the source and vice versa
    for a in [(usize::MAX, 1), (1, usize::MAX), (1 << 62, 3), (2, 3)] {
        for b in [(2, 3), (1, 1), (3, 2)] {
            for o in ORDERS {
                for p in ORDERS {
                    cx.soft(|| format!("zero-sized {o:?}{a:?} <- {p:?}{b:?}"), move |s| huge(a, b, (o, p), s));
                    if o == p {
                        cx.soft(|| format!("zero-sized {o:?}{b:?} <- {p:?}{a:?}"), move |s| huge(b, a, (o, p), s));
                    }
                }
            }
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C14",
            level: "model_checking",
            rule: "state = (element type, dest order+shape, source order+shape); transition = one overwrite compared on all dest and source contents, element identities outside the overlap and in the source, and the clone/drop ledger",
            bounds: |t| format!("all pairs of shapes 0..={} squared, four order combinations, all pairs of shapes 0..={} squared of 4-byte elements, plus all pairs of 33 longer shapes (up to 65792 elements); zero-sized up to usize::MAX", if t { 10 } else { 6 }, if t { 16 } else { 9 }),
            assumptions: &["an element's clone_from may assign in place, so identities inside the overlap are not constrained"],
            stall_s: 60,
        },
        body,
    )
}
