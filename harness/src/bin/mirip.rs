//! Enumerations run under Miri: the same drivers as the native checks, with
//! Miri judging every memory access, pointer offset and reborrow.
//! Usage: mirip MODE SHARD NSHARDS quick|thorough
use mcx::elem::*;
use mcx::model::*;
use mcx::ops::{self, Op};
use mcx::sup::Res;

/// (patterns, steps)
struct S(u64, u64);
use mcx::ensure;
use matreex::Matrix;

struct Run {
    shard: u64,
    n: u64,
    k: u64,
    done: u64,
    s: S,
}

impl Run {
    fn case(&mut self, d: impl FnOnce() -> String, f: impl FnOnce(&mut S) -> Res) {
        self.k += 1;
        if self.k % self.n != self.shard {
            return;
        }
        self.done += 1;
        let d = d();
        println!("case {d}");
        if let Err(e) = f(&mut self.s) {
            println!("MIRI-FAIL {d}: {}", e.msg);
            std::process::exit(3);
        }
    }
}

/// Complete consumption patterns: which end every outer call uses, which end
/// every inner call uses, and whether lines are drained as they come, after
/// all have been produced, or in turns.
fn patterns(lines: usize, len: usize) -> Vec<(u32, u32, u8)> {
    let mut v = vec![];
    for o in 0..1u32 << lines.min(4) {
        for i in 0..1u32 << len.min(4) {
            for d in 0..3 {
                v.push((o, i, d));
            }
        }
    }
    v
}

fn consume<'a, T: 'a + Copy + PartialEq, J: DoubleEndedIterator<Item = &'a mut T> + ExactSizeIterator>(
    mut outer: impl DoubleEndedIterator<Item = J> + ExactSizeIterator,
    lines: usize,
    len: usize,
    p: (u32, u32, u8),
    s: &mut S,
) -> Result<Vec<(usize, usize, &'a mut T)>, String> {
    let mut got = vec![];
    let mut held: Vec<(usize, usize, usize, J)> = vec![];
    let (mut lo, mut hi) = (0, lines);
    let one = |i: usize, a: &mut usize, b: &mut usize, j: &mut J, got: &mut Vec<(usize, usize, &'a mut T)>| -> Result<(), String> {
        let back = p.1 >> ((*a + len - *b) % 4) & 1 == 1;
        let e = if back { j.next_back() } else { j.next() }.ok_or("line ends early")?;
        let at = if back {
            *b -= 1;
            *b
        } else {
            *a += 1;
            *a - 1
        };
        if j.len() != *b - *a {
            return Err(format!("len() = {} of line {i}, {} to come", j.len(), *b - *a));
        }
        got.push((i, at, e));
        Ok(())
    };
    for k in 0..lines {
        let back = p.0 >> (k % 4) & 1 == 1;
        let mut j = if back { outer.next_back() } else { outer.next() }.ok_or("outer ends early")?;
        let i = if back {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        s.1 += 1;
        if outer.len() != hi - lo {
            return Err(format!("outer len() = {}, {} to come", outer.len(), hi - lo));
        }
        let (mut a, mut b) = (0, len);
        if p.2 == 0 {
            while a < b {
                one(i, &mut a, &mut b, &mut j, &mut got)?;
            }
        }
        held.push((i, a, b, j));
    }
    if outer.next().is_some() || outer.next_back().is_some() {
        return Err("outer yields too much".into());
    }
    loop {
        let mut any = false;
        for (i, a, b, j) in &mut held {
            while a < b {
                any = true;
                one(*i, a, b, j, &mut got)?;
                if p.2 == 2 {
                    break;
                }
            }
        }
        if !any {
            break;
        }
    }
    for (.., j) in &mut held {
        if j.next_back().is_some() || j.next().is_some() {
            return Err("line yields too much".into());
        }
    }
    s.1 += got.len() as u64;
    Ok(got)
}

fn light<T: Copy + PartialEq>(mk: fn(usize) -> T, o: Ord_, nr: usize, nc: usize, rows: bool, s: &mut S) -> Res {
    let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
    let mut m = Matrix::from_row((0..nr * nc).map(mk).collect::<Vec<T>>());
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    let mut base = 0;
    for p in patterns(lines, len) {
        s.0 += 1;
        let r = if rows { consume(m.iter_rows_mut(), lines, len, p, s) } else { consume(m.iter_cols_mut(), lines, len, p, s) };
        let got = r.map_err(|e| format!("{p:?}: {e}"))?;
        // all references are alive: use each, in another order
        let next = 100 - base;
        let n = got.len();
        let mut got = got;
        for k in 0..n {
            let (i, k, e) = &mut got[(n + n / 2 - 1 - k) % n];
            let at = if rows { *i * nc + *k } else { *k * nc + *i };
            ensure!(**e == mk(base + at), "{p:?}: line {i} position {k} is another element");
            **e = mk(next + at);
        }
        base = next;
    }
    for (r, c) in positions(Ord_::R, nr, nc) {
        ensure!(m[(r, c)] == mk(base + r * nc + c), "({r}, {c}) not written");
        m[(r, c)] = mk(r * nc + c);
    }
    // the views of single lines
    for n in 0..lines {
        for back in [false, true] {
            let v: Vec<&mut T> = match (rows, back) {
                (true, false) => m.iter_nth_row_mut(n).unwrap().collect(),
                (true, true) => m.iter_nth_row_mut(n).unwrap().rev().collect(),
                (false, false) => m.iter_nth_col_mut(n).unwrap().collect(),
                (false, true) => m.iter_nth_col_mut(n).unwrap().rev().collect(),
            };
            ensure!(v.len() == len, "nth line yields {} of {len}", v.len());
            for (k, e) in v.into_iter().enumerate() {
                let k = if back { len - 1 - k } else { k };
                let (r, c) = if rows { (n, k) } else { (k, n) };
                ensure!(*e == mk(r * nc + c), "nth line: wrong element");
                *e = mk(r * nc + c);
            }
        }
    }
    Ok(())
}

fn c03_cases(r: &mut Run, th: bool) {
    let mut list: Vec<(usize, usize)> = (0..=2).flat_map(|a| (0..=2).map(move |b| (a, b))).collect();
    list.extend([(1, 3), (3, 1), (2, 3), (3, 2)]);
    if th {
        list.extend([(3, 3), (1, 5), (5, 1), (2, 4), (4, 2), (4, 4), (3, 5), (5, 3), (4, 3), (3, 4), (1, 9), (9, 1), (7, 2), (2, 7), (0, 3), (3, 0)]);
    }
    for rows in [true, false] {
        for o in ORDERS {
            for &(a, b) in &list {
                r.case(|| format!("u32 {o:?} {a}x{b} rows={rows}"), |s| light::<u32>(|k| k as u32, o, a, b, rows, s));
                r.case(|| format!("[u64; 3] {o:?} {a}x{b} rows={rows}"), |s| light::<[u64; 3]>(|k| [k as u64; 3], o, a, b, rows, s));
                r.case(|| format!("() {o:?} {a}x{b} rows={rows}"), |s| light::<()>(|_| (), o, a, b, rows, s));
                if th {
                    r.case(|| format!("u8 {o:?} {a}x{b} rows={rows}"), |s| light::<u8>(|k| k as u8, o, a, b, rows, s));
                    r.case(|| format!("ZA {o:?} {a}x{b} rows={rows}"), |s| light::<ZA>(|_| ZA, o, a, b, rows, s));
                }
            }
        }
    }
}

/// Real threads that own the lines of an assignment, under the race detector.
fn race<T: Copy + PartialEq + Send>(mk: fn(usize) -> T, o: Ord_, nr: usize, nc: usize, rows: bool, owner: &[usize], n: usize, how: u8, s: &mut S) -> Res {
    fn assigned<'a, T: 'a + Send, J: DoubleEndedIterator<Item = &'a mut T> + Send>(outer: impl Iterator<Item = J>, owner: &[usize], n: usize, f: impl Fn(usize, usize, &mut T) + Sync) {
        let mut per: Vec<Vec<(usize, J)>> = (0..n).map(|_| vec![]).collect();
        for (i, j) in outer.enumerate() {
            per[owner[i]].push((i, j));
        }
        std::thread::scope(|sc| {
            for v in per {
                let f = &f;
                sc.spawn(move || {
                    // hold all references of this thread, then write
                    let v: Vec<(usize, Vec<&mut T>)> = v.into_iter().map(|(i, j)| (i, j.collect())).collect();
                    for (i, j) in v {
                        for (k, e) in j.into_iter().enumerate() {
                            f(i, k, e);
                        }
                    }
                });
            }
        });
    }
    fn taken<'a, T: 'a + Send, J: DoubleEndedIterator<Item = &'a mut T> + Send>(outer: impl DoubleEndedIterator<Item = (usize, J)> + Send, n: usize, f: impl Fn(usize, usize, &mut T) + Sync) {
        let outer = std::sync::Mutex::new(outer);
        std::thread::scope(|sc| {
            for t in 0..n {
                let (f, outer) = (&f, &outer);
                sc.spawn(move || {
                    loop {
                        let next = if t % 2 == 0 { outer.lock().unwrap().next() } else { outer.lock().unwrap().next_back() };
                        let Some((i, j)) = next else { break };
                        for (k, e) in j.enumerate() {
                            f(i, k, e);
                        }
                        std::thread::yield_now();
                    }
                });
            }
        });
    }
    let mut m = Matrix::from_row((0..nr * nc).map(mk).collect::<Vec<T>>());
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    let f = |i: usize, k: usize, e: &mut T| {
        let at = if rows { i * nc + k } else { k * nc + i };
        assert!(*e == mk(at), "another element");
        *e = mk(100 + at);
    };
    match (rows, how) {
        (true, 0) => assigned(m.iter_rows_mut(), owner, n, f),
        (false, 0) => assigned(m.iter_cols_mut(), owner, n, f),
        (true, 1) => taken(m.iter_rows_mut().enumerate(), n, f),
        (false, 1) => taken(m.iter_cols_mut().enumerate(), n, f),
        // the outer iterator itself moves to another thread
        (true, _) => {
            let it = m.iter_rows_mut();
            std::thread::scope(|sc| {
                sc.spawn(move || it.enumerate().for_each(|(i, j)| j.enumerate().for_each(|(k, e)| f(i, k, e))));
            });
        }
        (false, _) => {
            let it = m.iter_cols_mut();
            std::thread::scope(|sc| {
                sc.spawn(move || it.enumerate().for_each(|(i, j)| j.enumerate().for_each(|(k, e)| f(i, k, e))));
            });
        }
    }
    for (r, c) in positions(Ord_::R, nr, nc) {
        ensure!(m[(r, c)] == mk(100 + r * nc + c), "({r}, {c}) not written");
    }
    s.0 += 1;
    s.1 += (nr * nc) as u64;
    Ok(())
}

fn c17_cases(r: &mut Run, th: bool) {
    let mut list = vec![(2, 2, 2), (3, 1, 2), (1, 3, 2), (3, 2, 2), (2, 1, 3), (3, 2, 3)];
    if th {
        list.extend([(4, 3, 2), (4, 2, 3), (5, 1, 2), (3, 5, 4)]);
    }
    for (l, k, n) in list {
        for rows in [true, false] {
            let (a, b) = if rows { (l, k) } else { (k, l) };
            for o in ORDERS {
                let mut v: Vec<Vec<usize>> = vec![vec![]];
                for _ in 0..l {
                    v = v.into_iter().flat_map(|a: Vec<usize>| (0..n).map(move |t| [a.clone(), vec![t]].concat())).collect();
                }
                // up to renaming of threads
                v.retain(|a| {
                    let mut mx = 0;
                    a.iter().all(|&t| {
                        let ok = t <= mx;
                        mx = mx.max(t + 1);
                        ok
                    })
                });
                for w in &v {
                    r.case(|| format!("race u32 {o:?} {a}x{b} rows={rows} {w:?}"), |s| race::<u32>(|k| k as u32, o, a, b, rows, w, n, 0, s));
                }
                for how in 1..3 {
                    r.case(|| format!("race [u64; 3] {o:?} {a}x{b} rows={rows} how={how}"), |s| race::<[u64; 3]>(|k| [k as u64; 3], o, a, b, rows, &[], n, how, s));
                    r.case(|| format!("race u8 {o:?} {a}x{b} rows={rows} how={how}"), |s| race::<u8>(|k| k as u8, o, a, b, rows, &[], n, how, s));
                }
            }
        }
    }
}

fn seq_cases(r: &mut Run, th: bool) {
    let d = if th { 3 } else { 2 };
    for (o, a, b) in shapes(d) {
        let v: Vec<Op> = ops::full(o, a, b, d, false);
        for v in v.chunks(40) {
            r.case(|| format!("{} operations from {o:?} {a}x{b}, {:?}..", v.len(), v[0]), |s| {
                for op in v {
                    if matches!(op, Op::Resize(k, 1) if *k > 1 << 40) {
                        continue;
                    }
                    ops::run_seq::<Tr>((o, a, b, false), &[*op])?;
                    ops::run_seq::<P4>((o, a, b, true), &[*op])?;
                    s.1 += 2;
                }
                Ok(())
            });
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.is_empty() {
        return; // only built
    }
    mcx::sup::quiet_panics();
    let mut r = Run { shard: a[1].parse().unwrap(), n: a[2].parse().unwrap(), k: 0, done: 0, s: S(0, 0) };
    let th = a[3] == "thorough";
    match a[0].as_str() {
        "c03" => c03_cases(&mut r, th),
        "c17" => c17_cases(&mut r, th),
        "seq" => seq_cases(&mut r, th),
        _ => panic!("mode"),
    }
    println!("MIRI-OK cases={} transitions={} states={}", r.done, r.s.1, r.s.0);
}
