//! C09: reshape and resize on the memory-order sequence, and every failing
//! in-place operation, from every small state; identities, not only values.
use matreex::Matrix;
use mcx::elem::*;
use mcx::model::*;
use mcx::ops::{self, *};
use mcx::sup::*;
use mcx::{bail, ensure};

type St = (Ord_, usize, usize, bool);

/// Identities (or addresses' order, for untracked elements: values) in memory order.
fn seq_ids<E: Elem>(m: &Matrix<E>) -> Vec<(u64, u32)> {
    m.iter_elements().map(|e| (e.id(), e.val())).collect()
}

fn one<E: Elem>(st: St, pre: Option<Op>, op: Op, post: &[Op], s: &mut Stats) -> Res {
    reset();
    {
        let mut d = start::<E>(st.0, st.1, st.2, st.3);
        if let Some(p) = pre {
            d.step(p)?;
        }
        let before = seq_ids(&d.m);
        let (order, nr, nc) = (d.x.order, d.x.nr, d.x.nc);
        let c0 = counts();
        s.transition();
        s.state((E::NAME, st, pre, op));
        d.step(op)?; // outcome, shape, order, contents, nothing changed on failure
        let after = seq_ids(&d.m);
        let c1 = counts();
        match op {
            Op::Reshape(r, c) => {
                ensure!(after == before, "{op:?} on {order:?}{nr}x{nc} changes the memory-order sequence");
                ensure!(Ord_::of(d.m.order()) == order, "{op:?} changes the order");
                ensure!(c0 == c1, "{op:?} clones, creates or drops elements: {c0:?} -> {c1:?}");
                s.outcome(if r as u128 * c as u128 == (nr * nc) as u128 { "reshaped" } else { "SizeMismatch" });
            }
            Op::Resize(r, c) => {
                let keep = if (d.x.nr, d.x.nc) == (r, c) { before.len().min(r * c) } else { before.len() };
                ensure!(after.len() >= keep && after[..keep] == before[..keep], "{op:?} on {order:?}{nr}x{nc} does not keep the first {keep} elements of the memory-order sequence in place");
                for e in &after[keep.min(after.len())..] {
                    ensure!(e.1 == E::norm(DEFAULT), "{op:?} appends {} instead of the default", e.1);
                }
                if E::TRACKED {
                    let gone = before.len() - keep;
                    ensure!(c1.drops - c0.drops == gone as u64, "{op:?} drops {} elements instead of {gone}", c1.drops - c0.drops);
                }
                ensure!(c1.clones == c0.clones, "{op:?} clones elements");
                ensure!(Ord_::of(d.m.order()) == order, "{op:?} changes the order");
                s.outcome("resized or refused");
            }
            _ => {
                let mut a = after.clone();
                let mut b = before.clone();
                a.sort();
                b.sort();
                if matches!(op, Op::Swap(..) | Op::SwapRows(..) | Op::SwapCols(..) | Op::SwapWrap(..) | Op::SwapUser(..)) {
                    ensure!(a == b, "{op:?} replaces elements");
                    ensure!(c0 == c1, "{op:?} clones, creates or drops elements");
                }
                s.outcome(if a == b { "unchanged or permuted" } else { "changed" });
            }
        }
        for p in post {
            if d.x.nr.max(d.x.nc) > 1 << 20 {
                break; // 0 x usize::MAX: nothing to look at, and no end to it
            }
            d.step(*p).map_err(|e| Fail { msg: format!("after {op:?}: {}", e.msg), ..e })?;
        }
    }
    if let Err(e) = finish() {
        bail!("{op:?} from {st:?}: {e}");
    }
    Ok(())
}

fn subject(op: &Op) -> bool {
    op.in_place()
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    let d = if th { 6 } else { 4 };
    let post = [Op::ReadAll, Op::Transpose, Op::Resize(3, 3), Op::ReadAll, Op::CloneReplace];
    for (o, r, c) in shapes(d) {
        for slack in [false, true] {
            let st = (o, r, c, slack);
            let v: Vec<Op> = ops::full(o, r, c, d, false).into_iter().filter(subject).collect();
            let small: Vec<Op> = v.iter().copied().filter(|o| !matches!(o, Op::Resize(k, 1) if *k > 1 << 40)).collect();
            for v in v.chunks(200) {
                let v = v.to_vec();
                cx.case(|| format!("{} operations from {st:?} (Tr24)", v.len()), |s| v.iter().try_for_each(|op| one::<Tr>(st, None, *op, &post, s)));
            }
            for v in small.chunks(200) {
                let v = v.to_vec();
                if !slack {
                    cx.case(|| format!("{} operations from {st:?} (TrZ0)", v.len()), |s| v.iter().try_for_each(|op| one::<TrZ>(st, None, *op, &post, s)));
                    cx.case(|| format!("{} operations from {st:?} (P1)", v.len()), |s| v.iter().try_for_each(|op| one::<P1>(st, None, *op, &post, s)));
                    cx.case(|| format!("{} operations from {st:?} (P8)", v.len()), |s| v.iter().try_for_each(|op| one::<P8>(st, None, *op, &post, s)));
                    cx.case(|| format!("{} operations from {st:?} (Tr8)", v.len()), |s| v.iter().try_for_each(|op| one::<Tr8>(st, None, *op, &post, s)));
                    cx.case(|| format!("{} operations from {st:?} (TrB)", v.len()), |s| v.iter().try_for_each(|op| one::<TrB>(st, None, *op, &post, s)));
                }
            }
        }
    }
    // preceded by any other operation
    let med = ops::medium(false);
    let sub: Vec<Op> = med
        .iter()
        .copied()
        .filter(subject)
        .chain((0..=4).flat_map(|r| (0..=4).flat_map(move |c| [Op::Reshape(r, c), Op::Resize(r, c)])))
        .chain([Op::Reshape(1 << 63, 2), Op::Reshape(1 << 32, 1 << 32), Op::Resize(usize::MAX, usize::MAX), Op::Resize(usize::MAX / 4, 1)])
        .collect();
    for (r, c) in [(2, 3), (3, 2), (2, 2), (1, 4), (0, 3), (3, 0), (3, 3)] {
        for o in ORDERS {
            let st = (o, r, c, r == 3);
            for p in &med {
                cx.case(|| format!("{p:?}, then each subject, from {st:?}"), |s| sub.iter().try_for_each(|op| one::<Tr>(st, Some(*p), *op, &post, s)));
            }
            if th {
                for a in &sub {
                    for b in &sub {
                        cx.case(|| format!("{a:?}, {b:?}, then each subject, from {st:?}"), |s| {
                            sub.iter().try_for_each(|op| one::<Tr>(st, Some(*a), *b, &[*op, Op::ReadAll], s))
                        });
                    }
                }
            }
        }
    }
    // long shapes: every outcome at the boundaries
    for (r, c) in sweep(d, if th { 24 } else { 12 }).into_iter().chain(BIG.into_iter().filter(|b| th || b.0 * b.1 <= 5000)) {
        let n = r * c;
        for o in ORDERS {
            let st = (o, r, c, n % 3 == 1);
            let mut v = vec![];
            for (a, b) in [(c, r), (1, n), (n, 1), (2, n / 2), (n / 2, 2), (n / 3, 3), (r + 1, c), (r, c + 1), (n + 1, 1), (1, n.saturating_sub(1)), (0, n), (n, 0), (r.wrapping_mul(1 << 32), 1), (1 << 32, 1 << 32), (n | 1 << 63, 2), (n | 1 << 62, 4)] {
                v.push(Op::Reshape(a, b));
                if (a as u128 * b as u128) < 200_000 || a as u128 * b as u128 > 1 << 100 {
                    v.push(Op::Resize(a, b));
                }
            }
            v.extend([Op::Resize(c + 1, r + 1), Op::Resize(r / 2, c), Op::Resize(r, c / 2), Op::Resize(r, c), Op::Resize(2 * r, 2 * c), Op::Resize(usize::MAX / 64, 3)]);
            let (l, k) = (r.saturating_sub(1), c.saturating_sub(1));
            v.extend([Op::SwapRows(0, l), Op::SwapRows(l, r), Op::SwapRows(r, l), Op::SwapRows(l, l), Op::SwapRows(l / 2, r + 1), Op::SwapRows(usize::MAX, 0)]);
            v.extend([Op::SwapCols(0, k), Op::SwapCols(k, c), Op::SwapCols(c, k), Op::SwapCols(k, k), Op::SwapCols(k / 2, c + 1), Op::SwapCols(usize::MAX, 0)]);
            v.extend([Op::Swap((0, 0), (l, k)), Op::Swap((0, 0), (l, c)), Op::Swap((r, 0), (0, k)), Op::Swap((l, k), (r, c)), Op::Swap((l, k / 2), (l / 2, k)), Op::SwapUser((l, 0), (0, c)), Op::SwapWrap((-1, -1), (0, isize::MAX))]);
            for p in ORDERS {
                for (a, b) in [(r, c), (c, r), (r, c + 1), (r + 1, c), (n, 1), (r, k)] {
                    v.push(Op::Elementwise(2, p, a, b));
                    v.push(Op::Named((a % 5) as u8, 2, p, a, b));
                    v.extend([Op::Operator(true, 4, p, a, b), Op::Operator(false, 5, p, a, b)]);
                }
            }
            cx.case(|| format!("boundary operations from {st:?}"), |s| v.iter().try_for_each(|op| one::<Tr>(st, None, *op, &[Op::ReadAll], s)));
            v.retain(|op| *op != Op::Resize(usize::MAX / 64, 3)); // would be legal
            cx.case(|| format!("boundary operations from {st:?} (P1)"), |s| v.iter().try_for_each(|op| one::<P1>(st, None, *op, &[Op::ReadAll], s)));
        }
    }
    for (r, c) in BIG.into_iter().filter(|b| b.0 * b.1 > 5000).chain(HUGE.into_iter().filter(|b| th || b.0 * b.1 < 150_000)) {
        let n = r * c;
        for o in ORDERS {
            let st = (o, r, c, false);
            let (l, k) = (r - 1, c - 1);
            let mut v = vec![];
            for (a, b) in [(c, r), (1, n), (n, 1), (n / 2, 2), (r + 1, c), (r, c + 1), (n + 1, 1), (0, n), (1 << 32, 1 << 32), (n | 1 << 63, 2)] {
                v.push(Op::Reshape(a, b));
                if (a as u128 * b as u128) < 2_000_000 || a as u128 * b as u128 > 1 << 100 {
                    v.push(Op::Resize(a, b));
                }
            }
            v.extend([Op::Resize(r / 2, c), Op::Resize(r, c / 2), Op::Resize(r, c + 3), Op::SwapRows(0, l), Op::SwapRows(l, r), Op::SwapRows(r, 0), Op::SwapCols(0, k), Op::SwapCols(k, c), Op::SwapCols(c, 0)]);
            v.extend([Op::Swap((0, 0), (l, k)), Op::Swap((0, 0), (l, c)), Op::Swap((r, 0), (0, k))]);
            for p in ORDERS {
                for (a, b) in [(r, c), (c, r), (r, c + 1)] {
                    v.extend([Op::Elementwise(2, p, a, b), Op::Operator(true, 4, p, a, b)]);
                }
            }
            for v in v.chunks(10) {
                cx.case(|| format!("boundary operations from {st:?} (P4), {:?}..", v[0]), |s| v.iter().try_for_each(|op| one::<P4>(st, None, *op, &[Op::ReadAll], s)));
            }
        }
    }
    // long sequences
    for (r, c) in [(1, 40), (40, 1), (5, 8), (8, 5), (13, 17), (64, 3), (3, 64)] {
        for o in ORDERS {
            let st = (o, r, c, false);
            let n = r * c;
            let mut v = vec![];
            for k in 1..=n {
                if n % k == 0 {
                    v.push(Op::Reshape(k, n / k));
                } else {
                    v.push(Op::Reshape(k, n / k));
                }
                v.push(Op::Resize(k, 1));
                v.push(Op::Resize(1, k));
                v.push(Op::Resize(k, 2));
                v.push(Op::Resize(3, k));
            }
            for k in 0..=r {
                v.push(Op::SwapRows(k, r));
                v.push(Op::SwapRows(0, k));
            }
            for k in 0..=c {
                v.push(Op::SwapCols(c, k));
                v.push(Op::SwapCols(k, 0));
            }
            for p in ORDERS {
                for (a, b) in [(r, c), (c, r), (r, c + 1), (r + 1, c), (n, 1)] {
                    v.push(Op::Elementwise(2, p, a, b));
                    v.extend((0..5).map(|k| Op::Named(k, 2, p, a, b)));
                    v.extend([Op::Operator(true, 4, p, a, b), Op::Operator(true, 5, p, a, b), Op::Operator(false, 4, p, a, b), Op::Operator(false, 5, p, a, b)]);
                }
            }
            cx.case(|| format!("long sequences from {st:?}"), |s| v.iter().try_for_each(|op| one::<Tr>(st, None, *op, &[Op::ReadAll], s)));
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C09",
            level: "model_checking",
            rule: "state = (element type, start state, preceding operation, operation); transition = one in-place operation compared by outcome, shape, order, contents, identity of every element in memory order, drops and clones; on failure nothing (including capacity) may differ",
            bounds: |t| format!("every fallible in-place operation x argument from every (order, shape <= {0}, slack), reshape/resize to every shape <= {0} and to overflowing ones; preceded by each of 130 operations from 14 states{1}; every outcome at its boundary from every shape up to {2} squared and long shapes up to {3} elements; sequences up to 221 elements", if t { 6 } else { 4 }, if t { "; all triples of in-place operations" } else { "" }, if t { 24 } else { 12 }, if t { 65792 } else { 4225 }),
            assumptions: &["element identities stand for \"observably unchanged\""],
            stall_s: 90,
        },
        body,
    )
}
