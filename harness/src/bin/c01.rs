//! C01: every operation sequence against the row-of-rows model, with a ledger
//! of every element ever created.
use mcx::elem::*;
use mcx::model::*;
use mcx::ops::{self, *};
use mcx::sup::*;
use mcx::ensure;

type St = (Ord_, usize, usize, bool);

/// All operations with all arguments, one step (and a second, fixed one) from one state.
fn wide<E: Elem>(st: St, d: usize, s: &mut Stats) -> Res {
    for op in ops::full(st.0, st.1, st.2, d, true) {
        if op == Op::Resize(usize::MAX / 2, 1) && size_of::<E>() < 2 {
            continue; // legal, and asks for everything
        }
        run_seq::<E>(st, &[op]).map_err(|e| Fail { msg: format!("{op:?} from {st:?}: {}", e.msg), ..e })?;
        s.transition();
        s.state((E::NAME, st, op));
    }
    Ok(())
}
fn seqs<E: Elem>(st: St, pre: &[Op], last: &[Op], s: &mut Stats) -> Res {
    let mut q = pre.to_vec();
    q.push(Op::Transpose);
    for op in last {
        *q.last_mut().unwrap() = *op;
        run_seq::<E>(st, &q).map_err(|e| Fail { msg: format!("{q:?} from {st:?}: {}", e.msg), ..e })?;
        s.transitions(q.len() as u64);
        s.add("sequences", 1);
    }
    s.state((E::NAME, st, pre));
    Ok(())
}

/// Explicit-state search: states (order, shape, spare capacity or not), each
/// reached by a real history; every operation from every state.
fn search(d: usize, s: &mut Stats) -> Res {
    use std::collections::{HashMap, VecDeque};
    type Key = (Ord_, usize, usize, bool);
    let mut seen: HashMap<Key, Vec<Op>> = HashMap::new();
    let mut todo = VecDeque::new();
    seen.insert((Ord_::R, 0, 0, false), vec![]);
    todo.push_back((Ord_::R, 0, 0, false));
    let mut depth = 0;
    while let Some(k) = todo.pop_front() {
        beat();
        let hist = seen[&k].clone();
        depth = depth.max(hist.len());
        for op in ops::full(k.0, k.1, k.2, d, true) {
            reset();
            {
                let mut duo = start::<Tr>(Ord_::R, 0, 0, false);
                for h in &hist {
                    duo.step(*h)?;
                }
                duo.step(op).map_err(|e| Fail { msg: format!("after {hist:?}: {}", e.msg), ..e })?;
                s.transition();
                let n = (duo.x.order, duo.x.nr, duo.x.nc, duo.m.capacity() > duo.m.size());
                if n.1 <= d && n.2 <= d && !seen.contains_key(&n) {
                    let mut h = hist.clone();
                    h.push(op);
                    seen.insert(n, h);
                    todo.push_back(n);
                }
            }
            finish()?;
        }
    }
    // spare capacity is left behind exactly by operations that shrink
    s.add("search_states", seen.len() as u64);
    s.add("search_depth", depth as u64);
    for k in seen.keys() {
        s.state(("search", k));
    }
    ensure!(seen.len() >= 2 * (d + 1) * (d + 1), "the search stopped early: {} states", seen.len());
    Ok(())
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    if th {
        miri(cx, "seq", "-Zmiri-disable-stacked-borrows", 32);
    }
    cx.case(|| "explicit-state search".into(), |s| search(if th { 3 } else { 2 }, s));
    let d = if th { 4 } else { 3 };
    for (o, r, c) in shapes(d) {
        for slack in [false, true] {
            let st = (o, r, c, slack);
            cx.case(|| format!("every operation from {st:?} (Tr24)"), |s| wide::<Tr>(st, d, s));
            cx.case(|| format!("every operation from {st:?} (TrZ0)"), |s| wide::<TrZ>(st, d, s));
            if !slack {
                cx.case(|| format!("every operation from {st:?} (P1)"), |s| wide::<P1>(st, d, s));
                cx.case(|| format!("every operation from {st:?} (P16)"), |s| wide::<P16>(st, d, s));
                cx.case(|| format!("every operation from {st:?} (P8)"), |s| wide::<P8>(st, d, s));
                cx.case(|| format!("every operation from {st:?} (Tr8)"), |s| wide::<Tr8>(st, d, s));
                cx.case(|| format!("every operation from {st:?} (TrB)"), |s| wide::<TrB>(st, d, s));
                cx.case(|| format!("every operation from {st:?} (P64)"), |s| wide::<P64>(st, d, s));
            }
        }
    }
    // longer and lopsided shapes, one operation
    let long = [(1, 9), (9, 1), (2, 7), (7, 2), (5, 4), (4, 5), (1, 33), (33, 1), (8, 8), (0, 17), (17, 0), (5, 13)];
    for (r, c) in long {
        for o in ORDERS {
            let st = (o, r, c, false);
            let v: Vec<Op> = ops::medium(true).into_iter().chain(extra(r, c)).collect();
            cx.case(|| format!("medium operations from {st:?}"), |s| seqs::<Tr>(st, &[], &v, s));
        }
    }
    for (r, c) in sweep(d, if th { 24 } else { 12 }).into_iter().chain(BIG.into_iter().filter(|b| th || b.0 * b.1 <= 5000)) {
        for o in ORDERS {
            let st = (o, r, c, false);
            let v: Vec<Op> = if r * c <= 600 { ops::medium(true) } else { ops::core() }.into_iter().chain(extra(r, c)).collect();
            cx.case(|| format!("medium operations from {st:?}"), |s| seqs::<Tr>(st, &[], &v, s));
            if r * c >= 600 {
                cx.case(|| format!("medium operations from {st:?} (P1)"), |s| seqs::<P1>(st, &[], &v, s));
                cx.case(|| format!("medium operations from {st:?} (Tr8)"), |s| seqs::<Tr8>(st, &[], &v, s));
                cx.case(|| format!("medium operations from {st:?} (TrB)"), |s| seqs::<TrB>(st, &[], &v, s));
            }
        }
    }
    for (r, c) in BIG.into_iter().filter(|b| b.0 * b.1 > 5000).chain(HUGE.into_iter().filter(|b| th || b.0 * b.1 < 150_000)) {
        for o in ORDERS {
            let st = (o, r, c, false);
            let v: Vec<Op> = ops::core().into_iter().chain(extra(r, c)).filter(|p| !matches!(p, Op::Multiply(..) | Op::MulLike(..))).collect();
            for v in v.chunks(10) {
                cx.case(|| format!("{} operations from {st:?} (P4), {:?}..", v.len(), v[0]), |s| seqs::<P4>(st, &[], v, s));
                if r * c < 20_000 || th {
                    cx.case(|| format!("{} operations from {st:?} (Tr8), {:?}..", v.len(), v[0]), |s| seqs::<Tr8>(st, &[], v, s));
                }
            }
        }
    }
    // two operations on long matrices
    for (r, c) in [(17, 33), (5, 257), (64, 16), (1, 300)] {
        for o in ORDERS {
            let st = (o, r, c, r == 17);
            let v: Vec<Op> = ops::core().into_iter().chain(extra(r, c)).collect();
            for a in v.iter().filter(|a| th || extra(r, c).contains(a)) {
                cx.case(|| format!("{a:?} then one more from {st:?}"), |s| seqs::<Tr>(st, &[*a], &v, s));
            }
        }
    }
    // sequences of two over the medium alphabet, from several states and types
    let med = ops::medium(true);
    let sts: Vec<St> = [(2, 3), (3, 2), (2, 2), (1, 3), (3, 1), (0, 2), (2, 0), (1, 1), (0, 0)]
        .into_iter()
        .flat_map(|(r, c)| ORDERS.map(|o| (o, r, c, r == 2)))
        .collect();
    for st in &sts {
        for a in &med {
            cx.case(|| format!("{a:?} then one more from {st:?} (Tr24)"), |s| seqs::<Tr>(*st, &[*a], &med, s));
            if st.1 * st.2 == 6 {
                cx.case(|| format!("{a:?} then one more from {st:?} (TrZ0)"), |s| seqs::<TrZ>(*st, &[*a], &med, s));
                cx.case(|| format!("{a:?} then one more from {st:?} (P4)"), |s| seqs::<P4>(*st, &[*a], &med, s));
                cx.case(|| format!("{a:?} then one more from {st:?} (P8)"), |s| seqs::<P8>(*st, &[*a], &med, s));
                cx.case(|| format!("{a:?} then one more from {st:?} (TrB)"), |s| seqs::<TrB>(*st, &[*a], &med, s));
            }
        }
    }
    // sequences of three: medium x medium x core, and deeper over the core
    let core = ops::core();
    for st in sts.iter().take(if th { 8 } else { 4 }) {
        for a in &med {
            for b in &core {
                cx.case(|| format!("{a:?}, {b:?} then one more from {st:?}"), |s| seqs::<Tr>(*st, &[*a, *b], if th { &med } else { &core }, s));
            }
        }
    }
    let n = if th { 4 } else { 2 };
    for st in sts.iter().take(n) {
        for a in &core {
            for b in &core {
                for c in &core {
                    cx.case(|| format!("{a:?}, {b:?}, {c:?} then one more from {st:?}"), |s| seqs::<Tr>(*st, &[*a, *b, *c], &core, s));
                }
            }
        }
    }
    if th {
        // five operations that only change the representation
        let rep: Vec<Op> = core.iter().copied().filter(|o| {
            matches!(o, Op::Transpose | Op::Switch | Op::SwitchRaw | Op::Reshape(..) | Op::Resize(..) | Op::SwapRows(..) | Op::ShrinkFit | Op::Overwrite(..) | Op::CloneReplace)
        }).collect();
        for st in sts.iter().take(2) {
            for a in &rep {
                for b in &rep {
                    for c in &rep {
                        for d in &rep {
                            cx.case(|| format!("{a:?}, {b:?}, {c:?}, {d:?} then one more from {st:?}"), |s| seqs::<Tr>(*st, &[*a, *b, *c, *d], &rep, s));
                        }
                    }
                }
            }
        }
    }
}

fn extra(r: usize, c: usize) -> Vec<Op> {
    let mut v = vec![Op::Reshape(c, r), Op::Reshape(1, r * c), Op::Reshape(r * c, 1), Op::Resize(c, r), Op::Resize(r + 1, c), Op::Resize(r, c + 1), Op::Resize(r, c / 2), Op::IntoIter(r, c), Op::IntoIterSome(c, r)];
    for o in ORDERS {
        v.extend([Op::Overwrite(o, c, r), Op::Overwrite(o, r + 2, c), Op::Multiply(0, o, c, 3), Op::Multiply(0, o, c, r), Op::MulLike(o, c, 2), Op::Compare(o, r, c, true), Op::Compare(o, r, c, false)]);
        for f in 0..3 {
            v.extend([Op::Elementwise(f, o, r, c), Op::Named(1, f, o, r, c)]);
        }
    }
    v.extend([Op::SwapRows(0, r.wrapping_sub(1)), Op::SwapCols(0, c.wrapping_sub(1)), Op::SwapRows(1, 3), Op::SwapCols(1, 3), Op::GetMut(r.wrapping_sub(1), c.wrapping_sub(1)), Op::NthRowMut(r.wrapping_sub(1)), Op::NthColMut(c.wrapping_sub(1))]);
    v
}

fn main() {
    run(
        Meta {
            prop: "C01",
            level: "model_checking",
            rule: "state = (order, shape, spare capacity; contents are distinct symbols) reached by a real history, or prefix of an enumerated sequence; transition = one public operation executed on the real matrix and on the row-of-rows model, then compared: outcome, coherence (shape vs. store, every position its own element, nothing else in bounds), contents, live-element ledger",
            bounds: |t| {
                if t {
                    "explicit-state closure for dims <= 3; every operation x argument from every (order, shape <= 4, slack) for four element types; 180 operations from every shape up to 24 squared and 24 long shapes up to 65,792 elements; pairs from 4 long shapes; all pairs of 150 operations from 18 states; triples medium x core x medium from 8 states; quadruples over 38 operations from 4; quintuples over representation changes from 2".into()
                } else {
                    "explicit-state closure for dims <= 2; every operation x argument from every (order, shape <= 3, slack) for four element types; 180 operations from every shape up to 12 squared and long shapes up to 4,225 elements; pairs from 4 long shapes; all pairs of 150 operations from 18 states; triples medium x core x core from 4 states; quadruples over 38 operations from 2".into()
                }
            },
            assumptions: &[
                "the code is generic in the element type, so contents are represented by distinct symbols",
                "parallel operations run the deterministic splitting here; schedules are C16's subject",
            ],
            stall_s: 120,
        },
        body,
    )
}
