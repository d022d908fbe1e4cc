//! C03: every interleaving of next/next_back/len on the mutable outer iterators
//! and on all inner iterators, kept alive together.
use matreex::Matrix;
use mcx::drive::{ALL, Act, FB, FINS, drive, sequences, wrapping_acts};
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::collections::{BTreeSet, HashSet, VecDeque};

/// One call: on the outer iterator (who = 0) or on the inner iterator of line
/// `who - 1`; from the back or not.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Call {
    who: usize,
    back: bool,
}

/// Abstract state: what is left in the outer iterator and in every inner one
/// produced so far (`None`: not produced).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct St {
    outer: (usize, usize),
    inner: Vec<Option<(usize, usize)>>,
}

impl St {
    fn init(lines: usize) -> St {
        St { outer: (0, lines), inner: vec![None; lines] }
    }
    fn enabled(&self) -> Vec<Call> {
        let mut v = vec![];
        if self.outer.0 < self.outer.1 {
            v.extend([Call { who: 0, back: false }, Call { who: 0, back: true }]);
        }
        for (i, s) in self.inner.iter().enumerate() {
            if let Some((a, b)) = s {
                if a < b {
                    v.extend([Call { who: i + 1, back: false }, Call { who: i + 1, back: true }]);
                }
            }
        }
        v
    }
    fn step(&mut self, c: Call, len: usize) -> usize {
        // returns the line (outer) or position (inner) handed out
        if c.who == 0 {
            let i = if c.back {
                self.outer.1 -= 1;
                self.outer.1
            } else {
                self.outer.0 += 1;
                self.outer.0 - 1
            };
            self.inner[i] = Some((0, len));
            i
        } else {
            let s = self.inner[c.who - 1].as_mut().unwrap();
            if c.back {
                s.1 -= 1;
                s.1
            } else {
                s.0 += 1;
                s.0 - 1
            }
        }
    }
}

struct Geo {
    base: usize,
    size: usize,
    align: usize,
    zst: bool,
    line_stride: usize,
    step: usize,
    /// look at the touched iterators (and a few others) only
    light: bool,
}

fn addr<E>(e: &mut E) -> usize {
    e as *mut E as usize
}

/// Every pointer-sized word an iterator holds that lies near the element
/// buffer must lie in it (one past the end is tolerated: it is never
/// outside the allocation).
fn peek<I>(it: &I, g: &Geo, n: usize) -> Res {
    if g.zst {
        return Ok(());
    }
    let bytes = n * g.size;
    let window = bytes + 64 * g.size.max(16) + 4096;
    let p = it as *const I as *const usize;
    for k in 0..size_of::<I>() / size_of::<usize>() {
        let w = unsafe { p.add(k).read_volatile() };
        let inside = w >= g.base && w <= g.base + bytes;
        let near = w >= g.base.saturating_sub(window) && w <= g.base.saturating_add(bytes + window);
        ensure!(inside || !near, "the iterator holds a pointer {} bytes off the start of a buffer of {bytes} bytes", w as i128 - g.base as i128);
    }
    Ok(())
}

/// Execute a path on the real iterators; every step is checked.
fn exec<'a, E: Elem, I, J>(outer: I, lines: usize, len: usize, path: &[Call], g: &Geo, s: &mut Stats, end: bool) -> Result<Vec<(usize, usize, &'a mut E)>, Fail>
where
    I: ExactSizeIterator<Item = J> + DoubleEndedIterator,
    J: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator,
{
    let mut outer = outer;
    let mut inner: Vec<Option<J>> = (0..lines).map(|_| None).collect();
    let mut st = St::init(lines);
    let mut got: Vec<(usize, usize, &'a mut E)> = vec![];
    let mut seen = BTreeSet::new();
    let look = |k: usize| -> Vec<usize> {
        if g.light {
            let w = if k == 0 { 0 } else { path[k - 1].who.saturating_sub(1) };
            [w, w + 1, w.wrapping_sub(1), k % lines.max(1), 0, lines.wrapping_sub(1)].into_iter().filter(|&i| i < lines).collect()
        } else {
            (0..lines).collect()
        }
    };
    macro_rules! lens {
        ($k:expr) => {
            if lines * len > 0 {
                peek(&outer, g, lines * len).map_err(|e| Fail { msg: format!("after {:?}: outer: {}", &path[..$k], e.msg), ..e })?;
                for i in look($k) {
                    if let Some(j) = &inner[i] {
                        peek(j, g, lines * len).map_err(|e| Fail { msg: format!("after {:?}: line {i}: {}", &path[..$k], e.msg), ..e })?;
                    }
                }
            }
            let left = st.outer.1 - st.outer.0;
            ensure!(outer.len() == left && outer.size_hint() == (left, Some(left)), "after {:?}: outer len() = {}, {left} line(s) to come", &path[..$k], outer.len());
            for i in look($k) {
                if let Some(j) = &inner[i] {
                    let (a, b) = st.inner[i].unwrap();
                    ensure!(j.len() == b - a && j.size_hint() == (b - a, Some(b - a)), "after {:?}: len() of line {i} = {}, {} to come", &path[..$k], j.len(), b - a);
                }
            }
        };
    }
    lens!(0);
    for (k, &c) in path.iter().enumerate() {
        s.transition();
        if c.who == 0 {
            let j = if c.back { outer.next_back() } else { outer.next() };
            let i = st.step(c, len);
            match j {
                Some(j) => inner[i] = Some(j),
                None => bail!("{:?} yields nothing", &path[..=k]),
            }
        } else {
            let i = c.who - 1;
            let j = inner[i].as_mut().unwrap();
            let e = if c.back { j.next_back() } else { j.next() };
            let p = st.step(c, len);
            let Some(e) = e else { bail!("{:?} yields nothing, expected line {i} position {p}", &path[..=k]) };
            let a = addr(e);
            if g.zst {
                ensure!(a != 0 && a % g.align == 0, "{:?}: null or misaligned reference {a:#x}", &path[..=k]);
            } else {
                let want = g.base + (i * g.line_stride + p * g.step) * g.size;
                ensure!(a == want, "{:?} yields the element {} bytes off line {i} position {p}", &path[..=k], a as i128 - want as i128);
                ensure!(seen.insert(a), "{:?} hands out the same element twice", &path[..=k]);
            }
            got.push((i, p, e));
        }
        lens!(k + 1);
    }
    if end {
        // exhausted iterators stay exhausted
        if st.outer.0 == st.outer.1 {
            for _ in 0..2 {
                ensure!(outer.next().is_none() && outer.next_back().is_none(), "after {path:?}: outer yields beyond the end");
            }
            ensure!(outer.len() == 0, "outer len() after the end");
        }
        for i in 0..lines {
            if let (Some(j), Some((a, b))) = (&mut inner[i], st.inner[i]) {
                if a == b {
                    for _ in 0..2 {
                        ensure!(j.next().is_none() && j.next_back().is_none(), "after {path:?}: line {i} yields beyond the end");
                    }
                    ensure!(j.len() == 0, "inner len() after the end");
                }
            }
        }
    }
    Ok(got)
}

fn run_path<E: Elem>(m: &mut Matrix<E>, rows: bool, path: &[Call], s: &mut Stats) -> Res {
    let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
    let (nr, nc) = (m.nrows(), m.ncols());
    let rm = Ord_::of(m.order()) == Ord_::R;
    let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
    let contiguous = rm == rows;
    let g = Geo {
        base,
        size: size_of::<E>(),
        align: align_of::<E>(),
        zst: size_of::<E>() == 0,
        line_stride: if contiguous { len } else { 1 },
        step: if contiguous { 1 } else { lines },
        light: lines * len > 64,
    };
    let before: Vec<u32> = m.iter_elements().map(|e| e.val()).collect();
    let mut touched: HashSet<(usize, usize)> = HashSet::new();
    {
        let got = if rows { exec::<E, _, _>(m.iter_rows_mut(), lines, len, path, &g, s, true)? } else { exec::<E, _, _>(m.iter_cols_mut(), lines, len, path, &g, s, true)? };
        // all references are alive together: write through every one of them
        for (i, p, e) in got {
            ensure!(touched.insert((i, p)), "line {i} position {p} handed out twice");
            let v = e.val();
            e.set(v.wrapping_add(1));
        }
    }
    for (k, (r, c)) in positions(Ord_::of(m.order()), nr, nc).into_iter().enumerate() {
        let key = if rows { (r, c) } else { (c, r) };
        let want = E::norm(before[k].wrapping_add(touched.contains(&key) as u32));
        let v = m[(r, c)].val();
        ensure!(v == want, "after {path:?}: element ({r}, {c}) is {v}, expected {want}");
    }
    for (r, c) in positions(Ord_::R, nr, nc) {
        let key = if rows { (r, c) } else { (c, r) };
        if touched.contains(&key) {
            let v = m[(r, c)].val().wrapping_sub(1);
            m[(r, c)].set(v);
        }
    }
    Ok(())
}

/// Breadth-first over the abstract state graph; every transition is executed on
/// fresh real iterators along a shortest path that reaches its source.
fn merged<E: Elem>(o: Ord_, nr: usize, nc: usize, rows: bool, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
        let mut seen: HashSet<St> = HashSet::new();
        let mut q: VecDeque<(St, Vec<Call>)> = VecDeque::new();
        let s0 = St::init(lines);
        seen.insert(s0.clone());
        q.push_back((s0, vec![]));
        while let Some((st, path)) = q.pop_front() {
            let en = st.enabled();
            s.state((E::NAME, o, nr, nc, rows, &st));
            if seen.len() % 4096 == 0 {
                beat();
            }
            if en.is_empty() || path.is_empty() {
                run_path(&mut m, rows, &path, s)?;
                s.add("complete_paths", en.is_empty() as u64);
            }
            for c in en {
                let mut n = st.clone();
                n.step(c, len);
                let mut p = path.clone();
                p.push(c);
                run_path(&mut m, rows, &p, s)?;
                s.add("paths", 1);
                if seen.insert(n.clone()) {
                    q.push_back((n, p));
                }
            }
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Every complete call sequence, no merging.
fn unmerged<E: Elem>(o: Ord_, nr: usize, nc: usize, rows: bool, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
        let mut stack: Vec<(St, Vec<Call>)> = vec![(St::init(lines), vec![])];
        let mut n = 0u64;
        while let Some((st, path)) = stack.pop() {
            let en = st.enabled();
            if en.is_empty() {
                run_path(&mut m, rows, &path, s)?;
                s.add("complete_paths", 1);
                n += 1;
                if n % 4096 == 0 {
                    beat();
                }
            }
            for c in en {
                let mut t = st.clone();
                t.step(c, len);
                let mut p = path.clone();
                p.push(c);
                stack.push((t, p));
            }
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Systematic ways to consume a long matrix completely: how the lines are
/// obtained x how their elements are.
fn long<E: Elem>(o: Ord_, nr: usize, nc: usize, rows: bool, some: Option<usize>, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
        for pat in 0..32 {
            if some.is_some_and(|k| pat % 5 != k % 5) {
                continue;
            }
            let (a, b) = (pat % 4, pat / 4);
            beat();
            let turn = |k: usize, i: usize| match k {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                _ => i % 3 == 1,
            };
            let mut st = St::init(lines);
            let mut path = vec![];
            let mut call = |who: usize, back: bool| {
                let c = Call { who, back };
                path.push(c);
                st.step(c, len)
            };
            if b < 4 {
                // every line is used up before the next one
                for i in 0..lines {
                    let l = call(0, turn(a, i));
                    for p in 0..len {
                        call(l + 1, turn(b, p));
                    }
                }
            } else if b < 7 {
                // all the lines, then one element of each in turn
                let ls: Vec<usize> = (0..lines).map(|i| call(0, turn(a, i))).collect();
                for p in 0..len {
                    for (i, l) in ls.iter().enumerate() {
                        call(l + 1, turn(b - 4, p + i));
                    }
                }
            } else {
                // two lines at a time, from opposite ends
                let mut i = 0;
                while i < lines {
                    let l = call(0, turn(a, i));
                    let k = (i + 1 < lines).then(|| call(0, !turn(a, i)));
                    for p in 0..len {
                        call(l + 1, p % 2 == 0);
                        if let Some(k) = k {
                            call(k + 1, p % 2 == 1);
                        }
                    }
                    i += 2;
                }
            }
            s.state((E::NAME, o, nr, nc, rows, "long", pat));
            run_path(&mut m, rows, &path, s).map_err(|f| Fail { msg: clip(f.msg), ..f })?;
            s.add("complete_paths", 1);
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}
fn clip(t: String) -> String {
    if t.len() < 2000 {
        return t;
    }
    let head: String = t.chars().take(300).collect();
    let tail: Vec<char> = t.chars().rev().take(500).collect();
    format!("{head} ... {}", tail.into_iter().rev().collect::<String>())
}

/// nth/nth_back and consuming adaptors on outer and inner (as in C06, but all
/// element sizes), one iterator at a time.
fn adaptors<E: Elem>(o: Ord_, nr: usize, nc: usize, rows: bool, s: &mut Stats) -> Res {
    reset();
    {
        let x = M::numbered(o, nr, nc, 0).norm::<E>();
        let mut m: Matrix<E> = x.build();
        let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
        let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
        let contiguous = (o == Ord_::R) == rows;
        let keys: Vec<Vec<usize>> = (0..lines)
            .map(|i| (0..len).map(|p| base + size_of::<E>() * if contiguous { i * len + p } else { p * lines + i }).collect())
            .collect();
        let mut pats: Vec<(Vec<Act>, usize)> = vec![];
        for a in sequences(&ALL, 2) {
            for f in 0..FINS.len() {
                pats.push((a.clone(), f));
            }
        }
        for a in sequences(&FB, 4) {
            pats.push((a, 0));
            // exhaustion from both ends is part of Drain
        }
        let size = size_of::<E>();
        let wraps = wrapping_acts(&[size, len, lines, size * len, size * lines, size * len * lines]);
        let plain = pats.len();
        let mut plan: Vec<_> = (0..plain).map(|k| (pats[k].clone(), pats[(k * 7 + 3) % plain].clone())).collect();
        for w in wraps {
            plan.push(((w.clone(), 0), (vec![Act::F], 0)));
            plan.push(((vec![Act::B], 0), (w, 0)));
        }
        for ((a, f), (ia, ifin)) in plan.iter() {
            let mut n = 0;
            let mut chk = |e: &mut E, k: &usize| -> Res {
                let a = addr(e);
                if size_of::<E>() == 0 {
                    ensure!(a != 0 && a % align_of::<E>() == 0, "bad reference {a:#x}");
                } else {
                    ensure!(a == *k, "element {} bytes off", a as i128 - *k as i128);
                }
                Ok(())
            };
            macro_rules! go {
                ($it:expr) => {
                    drive($it, &keys, a, FINS[*f], &mut |j, k: &Vec<usize>| {
                        n += drive(j, k, ia, FINS[*ifin], &mut chk)?;
                        Ok(())
                    })
                    .map_err(|e| Fail { key: e.key, msg: format!("{a:?} {:?} / inner {ia:?} {:?}: {}", FINS[*f], FINS[*ifin], e.msg) })?
                };
            }
            let t = if rows { go!(m.iter_rows_mut()) } else { go!(m.iter_cols_mut()) };
            s.transitions(t + n);
        }
        agree(&m, &x)?;
    }
    Ok(finish()?)
}

/// Zero-sized matrices with astronomically many elements: every sequence of
/// outer calls, and every sequence of inner calls on each line they yield.
fn huge<E: Clone + 'static>(e: E, nr: usize, nc: usize, o: Ord_, rows: bool, depth: usize, s: &mut Stats) -> Res {
    let mut m = Matrix::from_row(vec![e; nr * nc]);
    m.reshape((nr, nc)).map_err(|e| format!("{e:?}"))?;
    m.set_order(o.real());
    let (lines, len) = if rows { (nr, nc) } else { (nc, nr) };
    fn inner<'a, E: 'a>(mut j: impl ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator, len: usize, acts: &[Act], s: &mut Stats) -> Res {
        let mut left = len;
        ensure!(j.len() == left, "inner len() = {}, expected {left}", j.len());
        for a in acts {
            s.transition();
            let e = match a {
                Act::B => j.next_back(),
                _ => j.next(),
            };
            ensure!(e.is_some() == (left > 0), "inner {a:?} with {left} left");
            if let Some(e) = e {
                let p = e as *mut E as usize;
                ensure!(p != 0 && p % align_of::<E>() == 0, "bad reference {p:#x}");
            }
            left = left.saturating_sub(1);
            ensure!(j.len() == left && j.size_hint() == (left, Some(left)), "inner len() = {}, expected {left}", j.len());
        }
        Ok(())
    }
    fn outer<'a, E: 'a, J: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator>(
        mut it: impl ExactSizeIterator<Item = J> + DoubleEndedIterator,
        lines: usize,
        len: usize,
        acts: &[Act],
        iacts: &[Act],
        s: &mut Stats,
    ) -> Res {
        let mut left = lines;
        ensure!(it.len() == left, "outer len() = {}, expected {left}", it.len());
        for a in acts {
            s.transition();
            let j = match a {
                Act::B => it.next_back(),
                _ => it.next(),
            };
            ensure!(j.is_some() == (left > 0), "outer {a:?} with {left} left");
            left = left.saturating_sub(1);
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "outer len() = {}, expected {left}", it.len());
            if let Some(j) = j {
                inner(j, len, iacts, s)?;
            }
        }
        Ok(())
    }
    for a in sequences(&FB, depth) {
        for ia in sequences(&FB, depth) {
            s.state(("huge", align_of::<E>(), nr, nc, o, rows, &a, &ia));
            let r = if rows { outer(m.iter_rows_mut(), lines, len, &a, &ia, s) } else { outer(m.iter_cols_mut(), lines, len, &a, &ia, s) };
            r.map_err(|f| Fail { key: f.key, msg: format!("{a:?} / {ia:?}: {}", f.msg) })?;
        }
    }
    Ok(())
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    miri(cx, "c03", "-Zmiri-tree-borrows", if th { 32 } else { 8 });
    let mut list: Vec<(usize, usize)> = vec![];
    for l in 0..=3usize {
        for k in 0..=3 {
            list.push((l, k));
        }
    }
    list.extend([(4, 1), (4, 2), (1, 6), (2, 4), (2, 5), (5, 1), (0, 5), (5, 0), (1, 9), (6, 1)]);
    if th {
        list.extend([(4, 3), (3, 4), (3, 5), (5, 2), (2, 9), (7, 1), (8, 1), (1, 20)]);
    }
    let both = |(l, k): (usize, usize), rows: bool| if rows { (l, k) } else { (k, l) };
    macro_rules! go {
        ($e:ty) => {
            for &p in &list {
                for rows in [true, false] {
                    let (r, c) = both(p, rows);
                    for o in ORDERS {
                        cx.case(|| format!("state graph of iter_{}_mut on {} {o:?} {r}x{c}", if rows { "rows" } else { "cols" }, <$e>::NAME), |s| merged::<$e>(o, r, c, rows, s));
                    }
                }
            }
        };
    }
    go!(Tr);
    go!(P4);
    go!(P1);
    go!(P16);
    go!(P8);
    go!(TrB);
    go!(P64);
    go!(TrZ);
    if th {
        for rows in [true, false] {
            let (r, c) = both((4, 4), rows);
            for o in ORDERS {
                cx.case(|| format!("state graph on P4 {o:?} {r}x{c} rows={rows}"), |s| merged::<P4>(o, r, c, rows, s));
            }
        }
    }
    let mut un = vec![(1, 1), (1, 3), (3, 1), (2, 1), (1, 5), (2, 2), (4, 1)];
    if th {
        un.extend([(2, 3), (1, 8), (5, 1), (3, 2)]);
    } else {
        un.push((2, 3));
    }
    for p in un {
        for rows in [true, false] {
            let (r, c) = both(p, rows);
            for o in ORDERS {
                cx.case(|| format!("every complete call sequence, rows={rows}, P4 {o:?} {r}x{c}"), |s| unmerged::<P4>(o, r, c, rows, s));
                if p.0 * p.1 <= 4 {
                    cx.case(|| format!("every complete call sequence, rows={rows}, TrZ0 {o:?} {r}x{c}"), |s| unmerged::<TrZ>(o, r, c, rows, s));
                    cx.case(|| format!("every complete call sequence, rows={rows}, Tr24 {o:?} {r}x{c}"), |s| unmerged::<Tr>(o, r, c, rows, s));
                }
            }
        }
    }
    let mut ad = shapes(if th { 6 } else { 4 });
    for p in [(1, 17), (17, 1), (2, 13), (13, 2), (7, 9)] {
        for o in ORDERS {
            ad.push((o, p.0, p.1));
        }
    }
    for (o, r, c) in ad {
        for rows in [true, false] {
            cx.case(|| format!("adaptors, rows={rows}, Tr24 {o:?} {r}x{c}"), |s| adaptors::<Tr>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, P1 {o:?} {r}x{c}"), |s| adaptors::<P1>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, P16 {o:?} {r}x{c}"), |s| adaptors::<P16>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, P8 {o:?} {r}x{c}"), |s| adaptors::<P8>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, Tr8 {o:?} {r}x{c}"), |s| adaptors::<Tr8>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, TrB {o:?} {r}x{c}"), |s| adaptors::<TrB>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, P64 {o:?} {r}x{c}"), |s| adaptors::<P64>(o, r, c, rows, s));
            cx.case(|| format!("adaptors, rows={rows}, TrZ0 {o:?} {r}x{c}"), |s| adaptors::<TrZ>(o, r, c, rows, s));
        }
    }
    let lim = if th { 20000 } else { 4500 };
    for (k, (r, c)) in sweep(4, if th { 40 } else { 20 }).into_iter().chain(BIG).chain(HUGE).chain([(7, 300), (300, 7)]).enumerate() {
        let some = (r * c > lim).then_some(k);
        if r * c == 0 || r * c > if th { usize::MAX } else { 150_000 } {
            continue;
        }
        for o in ORDERS {
            for rows in [true, false] {
                cx.case(|| format!("systematic consumption, rows={rows}, P4 {o:?} {r}x{c}"), |s| long::<P4>(o, r, c, rows, some, s));
                if r * c < lim {
                    cx.case(|| format!("systematic consumption, rows={rows}, TrB {o:?} {r}x{c}"), |s| long::<TrB>(o, r, c, rows, Some(k), s));
                    cx.case(|| format!("systematic consumption, rows={rows}, P1 {o:?} {r}x{c}"), |s| long::<P1>(o, r, c, rows, Some(k + 1), s));
                    cx.case(|| format!("systematic consumption, rows={rows}, Tr8 {o:?} {r}x{c}"), |s| long::<Tr8>(o, r, c, rows, Some(k + 2), s));
                }
            }
        }
    }
    #[repr(align(8))]
    #[derive(Clone)]
    struct Z8;
    let depth = if th { 6 } else { 4 };
    for (r, c) in [
        (usize::MAX, 1),
        (1, usize::MAX),
        (usize::MAX - 1, 1),
        (1 << 32, 1 << 31),
        ((1 << 32) + 1, (1 << 32) - 1),
        (1 << 62, 3),
        (3, 1 << 62),
        (isize::MAX as usize, 2),
        (2, isize::MAX as usize),
        (1 << 63, 1),
        (1, 1 << 63),
        (2, 2),
        (3, 5),
    ] {
        for o in ORDERS {
            for rows in [true, false] {
                cx.soft(|| format!("zero-sized align 1, rows={rows} {o:?} {r}x{c}"), move |s| huge((), r, c, o, rows, depth, s));
                cx.soft(|| format!("zero-sized align 8, rows={rows} {o:?} {r}x{c}"), move |s| huge(Z8, r, c, o, rows, depth, s));
                cx.soft(|| format!("zero-sized align 64, rows={rows} {o:?} {r}x{c}"), move |s| huge(ZA, r, c, o, rows, depth, s));
            }
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C03",
            level: "model_checking",
            rule: "state = (element type, order, shape, axis, remaining range of the outer iterator and of every live inner iterator); transition = one next/next_back call on one of the live real iterators, with len()/size_hint() of all of them and the address and uniqueness of the yielded element checked, all references kept alive and written through at the end",
            bounds: |t| {
                format!(
                    "complete state graphs for lines x length in {{0..=3}}^2{} and thin shapes, both axes and orders, element sizes 0/1/4/16/24; every complete call sequence without state merging for up to {} elements; nth/nth_back/adaptors on shapes up to {}; zero-sized alignments 1/8/64 up to usize::MAX elements, all call sequences of depth {}; every pointer-sized word of every live iterator range-checked after every step; pointer formation and aliasing (tree borrows) judged by Miri for every consumption pattern of small shapes (miri_* fields)",
                    if t { " + {4x3,3x4,3x5,5x2,4x4}" } else { "" },
                    6,
                    if t { 6 } else { 4 },
                    if t { 6 } else { 4 }
                )
            },
            assumptions: &["state merging assumes an iterator's future depends only on its remaining range; the unmerged runs do not"],
            stall_s: 60,
        },
        body,
    )
}
