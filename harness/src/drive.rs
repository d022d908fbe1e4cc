//! Driving double-ended exact-size iterators along every call pattern,
//! against a deque of expected keys.
use crate::sup::Fail;
use crate::{bail, ensure};
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    F,
    B,
    N(usize),
    NB(usize),
}
pub const FB: [Act; 2] = [Act::F, Act::B];
pub const ALL: [Act; 6] = [Act::F, Act::B, Act::N(0), Act::N(1), Act::NB(1), Act::NB(2)];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fin {
    Drain,
    DrainBack,
    Collect,
    Rev,
    Last,
    Count,
    Fold,
    Rfold,
    ByRef,
    SkipStep,
    Drop,
}
pub const FINS: [Fin; 11] = [
    Fin::Drain,
    Fin::DrainBack,
    Fin::Collect,
    Fin::Rev,
    Fin::Last,
    Fin::Count,
    Fin::Fold,
    Fin::Rfold,
    Fin::ByRef,
    Fin::SkipStep,
    Fin::Drop,
];

/// All sequences of length `n` over `alphabet`.
pub fn sequences(alphabet: &[Act], n: usize) -> Vec<Vec<Act>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|s: Vec<Act>| alphabet.iter().map(move |a| [s.clone(), vec![*a]].concat())).collect();
    }
    out
}

/// Arguments of nth that wrap around when multiplied with any of `units`.
pub fn wrapping(units: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    for u in units.iter().copied().chain([1]).filter(|&u| u > 0) {
        for top in [usize::MAX, isize::MAX as usize, u32::MAX as usize, i32::MAX as usize, u16::MAX as usize] {
            v.extend((0..4).map(|k| (top / u).saturating_add(k)));
        }
        v.push(usize::MAX - usize::MAX / u);
    }
    v.retain(|&n| n > 4096);
    v.sort_unstable();
    v.dedup();
    v
}
/// Short call patterns with such an argument in them.
pub fn wrapping_acts(units: &[usize]) -> Vec<Vec<Act>> {
    use Act::*;
    wrapping(units)
        .into_iter()
        .flat_map(|n| [vec![N(n)], vec![NB(n)], vec![F, N(n)], vec![F, NB(n)], vec![B, N(n)], vec![B, NB(n)]])
        .collect()
}

/// Drives `it`; every yielded item must match the next expected key according
/// to `check(item, key)`. Returns the number of calls made.
pub fn drive<I, X, K: Clone + std::fmt::Debug>(
    mut it: I,
    expected: &[K],
    acts: &[Act],
    fin: Fin,
    check: &mut dyn FnMut(X, &K) -> Result<(), Fail>,
) -> Result<u64, Fail>
where
    I: ExactSizeIterator<Item = X> + DoubleEndedIterator,
{
    let mut q: VecDeque<K> = expected.iter().cloned().collect();
    let mut n = 0u64;
    let mut done: Vec<Act> = vec![];
    macro_rules! lens {
        () => {
            n += 2;
            ensure!(it.len() == q.len(), "len() = {} with {} item(s) to come, after {done:?}", it.len(), q.len());
            ensure!(it.size_hint() == (q.len(), Some(q.len())), "size_hint() = {:?} with {} item(s) to come, after {done:?}", it.size_hint(), q.len());
        };
    }
    macro_rules! one {
        ($got:expr, $want:expr, $what:expr) => {
            match ($got, $want) {
                (Some(x), Some(k)) => {
                    if let Err(e) = check(x, &k) {
                        return Err(Fail { key: e.key, msg: format!("{} after {done:?}: {}", $what, e.msg) });
                    }
                }
                (None, None) => {}
                (Some(_), None) => bail!("{} after {done:?} yields an item beyond the end", $what),
                (None, Some(k)) => bail!("{} after {done:?} yields nothing, expected {k:?}", $what),
            }
        };
    }
    lens!();
    for &a in acts {
        n += 1;
        match a {
            Act::F => one!(it.next(), q.pop_front(), "next()"),
            Act::B => one!(it.next_back(), q.pop_back(), "next_back()"),
            Act::N(k) => {
                q.drain(..k.min(q.len()));
                one!(it.nth(k), q.pop_front(), format!("nth({k})"));
            }
            Act::NB(k) => {
                q.truncate(q.len().saturating_sub(k));
                one!(it.nth_back(k), q.pop_back(), format!("nth_back({k})"));
            }
        }
        done.push(a);
        lens!();
    }
    n += q.len() as u64;
    match fin {
        Fin::Drain => {
            while !q.is_empty() {
                one!(it.next(), q.pop_front(), "next()");
                done.push(Act::F);
                lens!();
            }
            for _ in 0..2 {
                one!(it.next(), None::<K>, "next() at the end");
                one!(it.next_back(), None::<K>, "next_back() at the end");
                lens!();
            }
        }
        Fin::DrainBack => {
            while !q.is_empty() {
                one!(it.next_back(), q.pop_back(), "next_back()");
                done.push(Act::B);
                lens!();
            }
            for _ in 0..2 {
                one!(it.next_back(), None::<K>, "next_back() at the end");
                one!(it.next(), None::<K>, "next() at the end");
                lens!();
            }
        }
        Fin::Collect => {
            let v: Vec<X> = it.collect();
            ensure!(v.len() == q.len(), "collect() gives {} of {} items after {done:?}", v.len(), q.len());
            for x in v {
                one!(Some(x), q.pop_front(), "collect()");
            }
        }
        Fin::Rev => {
            let v: Vec<X> = it.rev().collect();
            ensure!(v.len() == q.len(), "rev().collect() gives {} of {} items after {done:?}", v.len(), q.len());
            for x in v {
                one!(Some(x), q.pop_back(), "rev()");
            }
        }
        Fin::Last => one!(it.last(), q.pop_back(), "last()"),
        Fin::Count => {
            let c = it.count();
            ensure!(c == q.len(), "count() = {c} of {} after {done:?}", q.len());
        }
        Fin::Fold => {
            let v = it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            ensure!(v.len() == q.len(), "fold() visits {} of {} after {done:?}", v.len(), q.len());
            for x in v {
                one!(Some(x), q.pop_front(), "fold()");
            }
        }
        Fin::Rfold => {
            let v = it.rfold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            ensure!(v.len() == q.len(), "rfold() visits {} of {} after {done:?}", v.len(), q.len());
            for x in v {
                one!(Some(x), q.pop_back(), "rfold()");
            }
        }
        Fin::ByRef => {
            let k = q.len() / 2;
            let v: Vec<X> = it.by_ref().take(k).collect();
            ensure!(v.len() == k, "by_ref().take({k}) gives {}", v.len());
            for x in v {
                one!(Some(x), q.pop_front(), "take()");
            }
            lens!();
            for x in it.rev() {
                one!(Some(x), q.pop_back(), "rev() after take()");
            }
            ensure!(q.is_empty(), "rev() after take() misses {} item(s)", q.len());
        }
        Fin::SkipStep => {
            let want: Vec<K> = q.iter().skip(1).step_by(2).cloned().collect();
            let v: Vec<X> = it.skip(1).step_by(2).collect();
            ensure!(v.len() == want.len(), "skip(1).step_by(2) gives {} of {}", v.len(), want.len());
            for (x, k) in v.into_iter().zip(want) {
                one!(Some(x), Some(k), "skip(1).step_by(2)");
            }
        }
        Fin::Drop => drop(it),
    }
    Ok(n)
}
