//! C20: Display and Debug, over all small shapes x width patterns x orders,
//! index-width boundaries, awkward renderings, every failing write, and the
//! three feature configurations (this binary is also built with the colour
//! feature and run with --dump; texts are compared case by case).
use matreex::Matrix;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::fmt::{self, Write};
use std::process::{Command, Stdio};

/// Separate Display and Debug renderings.
#[derive(Clone, PartialEq)]
struct El {
    disp: String,
    dbg: String,
}
impl fmt::Display for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.disp)
    }
}
impl fmt::Debug for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.dbg)
    }
}

type Rend = Vec<Vec<String>>;

#[derive(Clone)]
struct Case {
    what: String,
    nr: usize,
    nc: usize,
    disp: Rend,
    dbg: Rend,
    /// renderings are plain tokens: no white space, brackets or line breaks
    clean: bool,
    single: bool,
    /// also enumerate every failing write
    faults: bool,
}

fn build(c: &Case, o: Ord_) -> Matrix<El> {
    let mut m = Matrix::with_initializer((c.nr, c.nc), |i| El {
        disp: c.disp[i.row][i.col].clone(),
        dbg: c.dbg[i.row][i.col].clone(),
    })
    .unwrap();
    m.set_order(o.real());
    m
}

// ---- oracles --------------------------------------------------------------
fn chars(s: &str) -> usize {
    s.chars().count()
}

/// The lines between the opening and the closing bracket line.
fn inner(text: &str) -> Result<Vec<&str>, Fail> {
    let lines: Vec<&str> = text.split('\n').collect();
    let lines = match lines.as_slice() {
        [l @ .., ""] => l,
        l => l,
    };
    ensure!(
        lines.len() >= 2 && lines[0].trim_end() == "[" && lines[lines.len() - 1].trim() == "]",
        "text is not enclosed in bracket lines: {}",
        clip(text)
    );
    Ok(lines[1..lines.len() - 1].to_vec())
}

fn clip(s: &str) -> String {
    let t: String = s.chars().take(400).collect();
    format!("{t:?}")
}

fn equal_width(rows: &[&str]) -> Res {
    for (k, r) in rows.iter().enumerate() {
        ensure!(
            chars(r) == chars(rows[0]),
            "row lines differ in width: line 0 has {} characters, line {k} has {}",
            chars(rows[0]),
            chars(r)
        );
    }
    Ok(())
}

/// What stands before, inside and (nothing) after the brackets of a row line.
fn split_row(l: &str) -> Result<(&str, &str), Fail> {
    let t = l.trim_end();
    ensure!(t.ends_with(']'), "row line does not end with a bracket: {}", clip(l));
    let Some(i) = t.find('[') else { bail!("row line without an opening bracket: {}", clip(l)) };
    ensure!(i + 1 < t.len(), "row line without a closing bracket: {}", clip(l));
    Ok((&t[..i], &t[i + 1..t.len() - 1]))
}

fn empty_case(c: &Case, text: &str) -> Res {
    if c.nr == 0 {
        // nothing to print: no element, no row
        if text.trim() != "[]" {
            let rows = inner(text)?;
            ensure!(rows.iter().all(|l| !l.contains(']')), "row lines printed for a matrix without rows: {}", clip(text));
        }
        return Ok(());
    }
    // r x 0: r row lines without elements
    if text == "[]" {
        return Err(Fail {
            key: "c20-no-line-for-empty-row".into(),
            msg: format!("{}x0 prints \"[]\": no bracketed line per logical row", c.nr),
        });
    }
    let lines = inner(text)?;
    let rows: Vec<&str> = lines.into_iter().filter(|l| l.contains(']')).collect();
    ensure!(rows.len() == c.nr, "{} row lines for {} rows: {}", rows.len(), c.nr, clip(text));
    for r in &rows {
        let (_, body) = split_row(r)?;
        ensure!(body.trim().is_empty(), "elements printed in an empty row: {}", clip(r));
    }
    equal_width(&rows)
}

fn display_clean(c: &Case, text: &str) -> Res {
    let rows = inner(text)?;
    ensure!(rows.len() == c.nr, "{} row lines for {} rows: {}", rows.len(), c.nr, clip(text));
    for (r, l) in rows.iter().enumerate() {
        let (pre, body) = split_row(l)?;
        ensure!(pre.trim().is_empty(), "text before the row bracket: {}", clip(l));
        let got: Vec<&str> = body.split_whitespace().collect();
        let want: Vec<&str> = c.disp[r].iter().map(String::as_str).filter(|s| !s.is_empty()).collect();
        ensure!(got == want, "row {r} shows {got:?}, its elements are {want:?}");
    }
    equal_width(&rows)
}

fn debug_clean(c: &Case, o: Ord_, text: &str) -> Res {
    let lines = inner(text)?;
    ensure!(lines.len() == c.nr + 1, "{} lines for a header and {} rows: {}", lines.len(), c.nr, clip(text));
    let got: Vec<String> = lines[0].split_whitespace().map(String::from).collect();
    let want: Vec<String> = (0..c.nc).map(|k| k.to_string()).collect();
    ensure!(got == want, "column numbers are {got:?}, expected {want:?}");
    let mut pos = vec![vec![0; c.nc]; c.nr];
    for (k, (r, cc)) in positions(o, c.nr, c.nc).into_iter().enumerate() {
        pos[r][cc] = k;
    }
    for (r, l) in lines[1..].iter().enumerate() {
        let (pre, body) = split_row(l)?;
        ensure!(pre.trim() == r.to_string(), "row {r} is labelled {:?}", pre.trim());
        let got: Vec<&str> = body.split_whitespace().collect();
        let mut want: Vec<String> = vec![];
        for k in 0..c.nc {
            want.push(pos[r][k].to_string());
            if !c.dbg[r][k].is_empty() {
                want.push(c.dbg[r][k].clone());
            }
        }
        ensure!(got == want, "row {r} ({o:?}-major {}x{}) shows {got:?}, expected {want:?}", c.nr, c.nc);
    }
    equal_width(&lines[1..])
}

/// All tokens of the text, without brackets that stand alone or enclose a row.
fn tokens(text: &str) -> Vec<String> {
    let mut v: Vec<String> = text
        .split_whitespace()
        .map(|t| t.trim_start_matches('[').trim_end_matches(']').to_string())
        .filter(|t| !t.is_empty())
        .collect();
    v.sort();
    v
}

/// Awkward single-line renderings: the text must be that of a matrix of clean
/// tokens of the same lengths, with each token replaced.
fn substitute(c: &Case, debug: bool, clean_text: &str) -> String {
    let src = if debug { &c.dbg } else { &c.disp };
    let mut out = String::new();
    let mut chars = clean_text.chars().peekable();
    while let Some(ch) = chars.next() {
        let u = ch as u32;
        if (0xE000..0xF000).contains(&u) {
            let k = (u - 0xE000) as usize;
            out.push_str(&src[k / c.nc][k % c.nc]);
            while chars.peek() == Some(&ch) {
                chars.next();
            }
        } else {
            out.push(ch);
        }
    }
    out
}
fn stand_in(c: &Case) -> Case {
    let f = |s: &Rend| -> Rend {
        s.iter()
            .enumerate()
            .map(|(r, v)| {
                v.iter()
                    .enumerate()
                    .map(|(k, t)| {
                        let u = char::from_u32(0xE000 + (r * c.nc + k) as u32).unwrap();
                        std::iter::repeat_n(u, chars(t)).collect()
                    })
                    .collect()
            })
            .collect()
    };
    Case { disp: f(&c.disp), dbg: f(&c.dbg), clean: true, ..c.clone() }
}

/// A writer that fails at the k-th byte.
struct Short(usize, String);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0 < s.len() {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ s.len() as u64
}

fn texts(c: &Case) -> [(String, String); 2] {
    ORDERS.map(|o| {
        let m = build(c, o);
        (format!("{m}"), format!("{m:?}"))
    })
}

fn judge(c: &Case, d: &[(String, String); 2], s: &mut Stats) -> Res {
    ensure!(d[0].0 == d[1].0, "Display differs between storage orders: {} vs {}", clip(&d[0].0), clip(&d[1].0));
    s.transitions(4);
    if c.nr == 0 || c.nc == 0 {
        for t in [&d[0].0, &d[0].1, &d[1].1] {
            empty_case(c, t)?;
        }
        return Ok(());
    }
    if c.clean {
        display_clean(c, &d[0].0).map_err(|e| Fail { msg: format!("Display: {}", e.msg), ..e })?;
        for k in 0..2 {
            debug_clean(c, ORDERS[k], &d[k].1).map_err(|e| Fail { msg: format!("Debug: {}", e.msg), ..e })?;
        }
    } else if c.single {
        let cc = stand_in(c);
        let t = texts(&cc);
        judge(&cc, &t, s)?;
        for k in 0..2 {
            let w = substitute(c, false, &t[k].0);
            ensure!(d[k].0 == w, "Display of {:?} is {}, by its lengths it should be {}", c.disp, clip(&d[k].0), clip(&w));
            let w = substitute(c, true, &t[k].1);
            ensure!(d[k].1 == w, "Debug of {:?} is {}, by its lengths it should be {}", c.dbg, clip(&d[k].1), clip(&w));
        }
    } else {
        // several lines per element: every line of every element once
        let want = |r: &Rend| {
            let mut v: Vec<String> = r.iter().flatten().flat_map(|t| t.split_whitespace()).map(String::from).collect();
            v.sort();
            v
        };
        ensure!(tokens(&d[0].0) == want(&c.disp), "Display of {:?} shows {:?}", c.disp, tokens(&d[0].0));
        for k in 0..2 {
            let mut w = want(&c.dbg);
            for i in 0..c.nr * c.nc {
                w.push(i.to_string());
            }
            w.extend((0..c.nr).chain(0..c.nc).map(|i| i.to_string()));
            w.sort();
            ensure!(tokens(&d[k].1) == w, "Debug of {:?} shows {:?}", c.dbg, tokens(&d[k].1));
        }
    }
    Ok(())
}

fn check(c: &Case, dumps: &[(&'static str, Option<[u64; 4]>)], s: &mut Stats) -> Res {
    let d = texts(c);
    s.state((&c.disp, &c.dbg, c.nr, c.nc));
    for (name, h) in dumps {
        let Some(h) = h else { bail!("no text from the {name} build") };
        for k in 0..2 {
            let o = ORDERS[k];
            ensure!(h[2 * k] == hash(&d[k].0), "Display text of the {o:?}-major matrix differs in the {name} run; here {}", clip(&d[k].0));
            ensure!(h[2 * k + 1] == hash(&d[k].1), "Debug text of the {o:?}-major matrix differs in the {name} run; here {}", clip(&d[k].1));
            s.transitions(2);
        }
    }
    judge(c, &d, s)?;
    if c.faults {
        for (k, o) in ORDERS.into_iter().enumerate() {
            let m = build(c, o);
            for n in 0..=d[k].0.len() {
                let mut w = Short(n, String::new());
                let r = write!(w, "{m}");
                s.transition();
                ensure!(r.is_ok() == (n == d[k].0.len()), "Display into a writer that fails after {n} bytes returns {r:?}");
                ensure!(d[k].0.starts_with(&w.1), "Display writes something else after a failed write");
            }
            for n in 0..=d[k].1.len() {
                let mut w = Short(n, String::new());
                let r = write!(w, "{m:?}");
                s.transition();
                ensure!(r.is_ok() == (n == d[k].1.len()), "Debug into a writer that fails after {n} bytes returns {r:?}");
                ensure!(d[k].1.starts_with(&w.1), "Debug writes something else after a failed write");
            }
        }
    }
    Ok(())
}

// ---- cases ----------------------------------------------------------------
fn grid(nr: usize, nc: usize, f: impl Fn(usize, usize) -> String) -> Rend {
    (0..nr).map(|r| (0..nc).map(|c| f(r, c)).collect()).collect()
}
/// A token of length w that names its element.
fn tok(k: usize, w: usize, base: char) -> String {
    let mut t = format!("{base}{k}");
    while t.len() < w {
        t.push('~');
    }
    t.chars().take(w.max(1)).collect()
}

fn cases(th: bool) -> Vec<Case> {
    let mut v = vec![];
    let max = if th { 6 } else { 4 };
    let full = if th { 6 } else { 4 };
    let mk = |what: String, nr, nc, disp, dbg, clean, single| Case { what, nr, nc, disp, dbg, clean, single, faults: false };
    for nr in 0..=max {
        for nc in 0..=max {
            let n = nr * nc;
            let same = |f: &dyn Fn(usize) -> usize| grid(nr, nc, |r, c| tok(r * nc + c, f(r * nc + c), 'e'));
            let deb = |f: &dyn Fn(usize) -> usize| grid(nr, nc, |r, c| tok(r * nc + c, f(r * nc + c), 'd'));
            let mut c = mk(format!("{nr}x{nc} plain"), nr, nc, same(&|_| 3), deb(&|_| 4), true, true);
            c.faults = n <= 6;
            v.push(c);
            if n == 0 {
                continue;
            }
            // one wider (and one narrower) element at every place; Debug and Display independently
            for k in 0..n {
                let wide = move |i: usize| if i == k { 7 } else { 3 };
                let narrow = move |i: usize| if i == k { 2 } else { 5 };
                v.push(mk(format!("{nr}x{nc} wide Display at {k}"), nr, nc, same(&wide), deb(&|_| 3), true, true));
                v.push(mk(format!("{nr}x{nc} wide Debug at {k}"), nr, nc, same(&|_| 3), deb(&wide), true, true));
                v.push(mk(format!("{nr}x{nc} narrow at {k}"), nr, nc, same(&narrow), deb(&narrow), true, true));
            }
            // all assignments of two widths and of the empty rendering
            if n <= full {
                for code in 0..4usize.pow(n as u32) {
                    let w = |i: usize| (code / 4usize.pow(i as u32)) % 4;
                    let g = |b: char| {
                        grid(nr, nc, |r, c| {
                            let i = r * nc + c;
                            if w(i) == 0 { String::new() } else { tok(i, w(i) + 1, b) }
                        })
                    };
                    v.push(mk(format!("{nr}x{nc} widths {code}"), nr, nc, g('e'), g('d'), true, true));
                }
            }
            // awkward renderings: all assignments over tiny matrices
            let odd = ["", " ", "[", "]", "[]", "\u{e9}", "\u{65e5}\u{672c}", "a b", "\t", "-1", "e\u{301}", "\r", "\u{0}", "\u{1b}[0m", "] [", "{}", "\u{1F600}", "]  [", "0 a"];
            if n <= 2 || (n <= 3 && th) {
                for code in 0..odd.len().pow(n as u32) {
                    let g = grid(nr, nc, |r, c| odd[(code / odd.len().pow((r * nc + c) as u32)) % odd.len()].to_string());
                    let mut c = mk(format!("{nr}x{nc} odd {code}"), nr, nc, g.clone(), g, false, true);
                    c.faults = n == 1;
                    v.push(c);
                }
            } else {
                for k in 0..n {
                    for (j, t) in odd.iter().enumerate() {
                        let g = |b: char| grid(nr, nc, |r, c| if r * nc + c == k { t.to_string() } else { tok(r * nc + c, 2, b) });
                        v.push(mk(format!("{nr}x{nc} odd {j} at {k}"), nr, nc, g('e'), g('d'), false, true));
                    }
                }
            }
            // several lines
            let multi = ["x\ny", "x\n\ny", "\nx", "x\r\ny", "x\ny\nz", "", "w", "x\nyyyy", "\n", "\n\n"];
            if n <= 3 {
                for code in 0..multi.len().pow(n as u32) {
                    let g = grid(nr, nc, |r, c| {
                        let i = r * nc + c;
                        multi[(code / multi.len().pow(i as u32)) % multi.len()].replace(['w', 'x', 'y', 'z'], &format!("{}{i}", if code % 2 == 0 { "q" } else { "Q" }))
                    });
                    let mut c = mk(format!("{nr}x{nc} lines {code}"), nr, nc, g.clone(), g, false, false);
                    c.faults = n == 1;
                    v.push(c);
                }
            } else if n <= 12 {
                for k in 0..n {
                    for t in multi {
                        let g = grid(nr, nc, |r, c| {
                            let i = r * nc + c;
                            if i == k { t.replace(['w', 'x', 'y', 'z'], &format!("q{i}")) } else { format!("p{i}") }
                        });
                        v.push(mk(format!("{nr}x{nc} lines {t:?} at {k}"), nr, nc, g.clone(), g, false, false));
                    }
                }
            }
        }
    }
    // index widths: sizes around powers of ten, and row/column numbers of several digits
    let mut long = vec![];
    for n in [5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001] {
        long.push((1, n));
        long.push((n, 1));
        if n <= 300 {
            long.push((2, n));
            long.push((n, 2));
        }
    }
    long.extend([(3, 3), (3, 4), (5, 2), (9, 11), (10, 10), (11, 9), (5, 20), (20, 5), (4, 25), (12, 9), (34, 3), (3, 34), (33, 31), (31, 33), (20, 50), (50, 20), (100, 11), (11, 100)]);
    if th {
        long.extend([(100, 100), (101, 99), (99, 101), (1, 10000), (10001, 1), (250, 41), (41, 250), (3, 3334)]);
        for r in 1..=14 {
            for c in 1..=14 {
                if r > max || c > max {
                    long.push((r, c));
                }
            }
        }
    }
    for (nr, nc) in long {
        let g = |b: char| grid(nr, nc, |r, c| tok(r * nc + c, 1 + (r * 7 + c * 3) % 9, b).replacen(b, "", 1).replace('~', "x") + &b.to_string());
        v.push(mk(format!("{nr}x{nc}"), nr, nc, g('e'), g('d'), true, true));
    }
    // one deviating width at every place of a longer matrix, and at places
    // where a shortcut might begin or end in larger ones
    let mut devs: Vec<(usize, usize, bool)> = vec![];
    for (r, c) in [(1, 40), (40, 1), (5, 7), (7, 5), (9, 8), (8, 9), (11, 13), (13, 11), (17, 19), (10, 30), (30, 10)] {
        devs.push((r, c, true));
    }
    for (r, c) in [(33, 31), (31, 33), (2, 700), (700, 2), (1, 1300), (1300, 1), (64, 64)] {
        devs.push((r, c, th));
    }
    if th {
        devs.extend([(128, 129, false), (1, 10001, false), (10001, 1, false), (257, 256, false)]);
    }
    for (nr, nc, every) in devs {
        let n = nr * nc;
        let at: Vec<usize> = (0..n)
            .filter(|&k| {
                let (r, c) = (k / nc, k % nc);
                let near = |k: usize, n: usize| {
                    k < 2 || k + 2 >= n || (k + 1).is_power_of_two() || k.is_power_of_two() || (k - 1).is_power_of_two() || [9, 10, 99, 100, 999, 1000].contains(&k)
                };
                every || k % 331 == 7 || near(k, n) || near(c * nr + r, n)
            })
            .collect();
        for k in at {
            let wide = |i: usize| if i == k { 9 } else { 6 };
            let g = |b: char| grid(nr, nc, |r, c| tok(r * nc + c, wide(r * nc + c), b));
            v.push(mk(format!("{nr}x{nc} wide at {k}"), nr, nc, g('e'), g('d'), true, true));
        }
    }
    // very wide renderings
    for (nr, nc) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
        for w in [255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000] {
            for k in 0..nr * nc {
                for which in 0..3 {
                    let g = |on: bool, b: char| grid(nr, nc, |r, c| tok(r * nc + c, if on && r * nc + c == k { w } else { 2 }, b));
                    v.push(mk(format!("{nr}x{nc} {w} wide at {k} in {which}"), nr, nc, g(which != 1, 'e'), g(which != 0, 'd'), true, true));
                }
            }
        }
    }
    v
}

// ---- real element types and format specifiers -----------------------------
fn typed<T: fmt::Debug + fmt::Display + Clone + PartialEq + 'static>(rows: &[&[T]], s: &mut Stats) -> Res {
    let (nr, nc) = (rows.len(), rows[0].len());
    let mk = |o: Ord_| {
        let mut m = Matrix::with_initializer((nr, nc), |i| rows[i.row][i.col].clone()).unwrap();
        m.set_order(o.real());
        m
    };
    let c = Case {
        what: String::new(),
        nr,
        nc,
        disp: grid(nr, nc, |r, c| rows[r][c].to_string()),
        dbg: grid(nr, nc, |r, c| format!("{:?}", rows[r][c])),
        clean: true,
        single: true,
        faults: false,
    };
    let d = ORDERS.map(|o| {
        let m = mk(o);
        (format!("{m}"), format!("{m:?}"))
    });
    s.state(("typed", std::any::type_name::<T>(), nr, nc));
    judge(&c, &d, s)?;
    // never panics, whatever the specifier; brackets and row count stay
    for (k, o) in ORDERS.into_iter().enumerate() {
        let m = mk(o);
        let w = 9;
        for (n, t) in [
            ("{:5}", format!("{m:5}")),
            ("{:>9}", format!("{m:>w$}")),
            ("{:<9}", format!("{m:<w$}")),
            ("{:^9}", format!("{m:^w$}")),
            ("{:*^9}", format!("{m:*^9}")),
            ("{:#}", format!("{m:#}")),
            ("{:+}", format!("{m:+}")),
            ("{:05}", format!("{m:05}")),
            ("{:.1}", format!("{m:.1}")),
        ] {
            s.transition();
            let rows = inner(&t)?;
            ensure!(rows.len() == nr, "{n} of the {o:?}-major matrix prints {} lines for {nr} rows", rows.len());
            equal_width(&rows)?;
        }
        // every width (and precision) of an order of magnitude, every alignment
        for w in (0..=20).chain([31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 1000, 65535]) {
            for p in [0, 1, 2, 3, 7, 30] {
                if p > 0 && w > 20 {
                    continue;
                }
                for (n, t) in [
                    ("{:w$}", format!("{m:w$}")),
                    ("{:w$.p$}", format!("{m:w$.p$}")),
                    ("{:<w$.p$}", format!("{m:<w$.p$}")),
                    ("{:^w$}", format!("{m:^w$}")),
                    ("{:->w$}", format!("{m:->w$}")),
                    ("{:+0w$}", format!("{m:+0w$}")),
                    ("{:#w$}", format!("{m:#w$}")),
                    ("{:.w$}", format!("{m:.w$}")),
                ] {
                    s.transition();
                    let rows = inner(&t)?;
                    ensure!(rows.len() == nr, "{n} (w = {w}, p = {p}) of the {o:?}-major matrix prints {} lines for {nr} rows", rows.len());
                    equal_width(&rows)?;
                }
                for (n, t) in [("{:w$?}", format!("{m:w$?}")), ("{:<w$.p$?}", format!("{m:<w$.p$?}")), ("{:#w$?}", format!("{m:#w$?}")), ("{:0w$x?}", format!("{m:0w$x?}"))] {
                    s.transition();
                    let rows = inner(&t)?;
                    ensure!(rows.len() == nr + 1, "{n} (w = {w}, p = {p}) of the {o:?}-major matrix prints {} lines for a header and {nr} rows", rows.len());
                    equal_width(&rows[1..])?;
                }
            }
        }
        for (n, t) in [("{:5?}", format!("{m:5?}")), ("{:#?}", format!("{m:#?}")), ("{:08?}", format!("{m:08?}")), ("{:x?}", format!("{m:x?}")), ("{:#X?}", format!("{m:#X?}"))] {
            s.transition();
            let rows = inner(&t)?;
            ensure!(rows.len() == nr + 1, "{n} of the {o:?}-major matrix prints {} lines for a header and {nr} rows", rows.len());
            equal_width(&rows[1..])?;
        }
        ensure!(m.to_string() == d[k].0, "to_string() differs from format!");
        let mut t = String::new();
        write!(t, "a{m}b{m:?}").unwrap();
        ensure!(t == format!("a{}b{}", d[k].0, d[k].1), "text depends on what was written before");
    }
    Ok(())
}

// ---- other builds and environments ----------------------------------------
unsafe extern "C" {
    fn posix_openpt(f: i32) -> i32;
    fn grantpt(f: i32) -> i32;
    fn unlockpt(f: i32) -> i32;
    fn ptsname(f: i32) -> *const std::ffi::c_char;
}
/// (master, slave) of a pseudo terminal, if there is one.
fn pty() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::FromRawFd;
    unsafe {
        let m = posix_openpt(2);
        if m < 0 {
            return None;
        }
        let master = std::fs::File::from_raw_fd(m);
        if grantpt(m) != 0 || unlockpt(m) != 0 {
            return None;
        }
        let p = ptsname(m);
        if p.is_null() {
            return None;
        }
        let name = std::ffi::CStr::from_ptr(p).to_str().ok()?;
        let slave = std::fs::OpenOptions::new().read(true).write(true).open(name).ok()?;
        Some((master, slave))
    }
}

const CLEAR: [&str; 9] = ["NO_COLOR", "FORCE_COLOR", "CLICOLOR_FORCE", "CLICOLOR", "TERM", "COLORTERM", "TERM_PROGRAM", "IGNORE_IS_TERMINAL", "CI"];

/// Run the colour build in one environment; text hashes of every case.
fn dump(exe: &str, env: &[(&str, &str)], out_tty: bool, err_tty: bool, th: bool, shard: (u64, u64)) -> Option<Vec<[u64; 4]>> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let file = std::env::temp_dir().join(format!("mcx-c20-{}-{n}", std::process::id()));
    let mut c = Command::new(exe);
    for k in CLEAR {
        c.env_remove(k);
    }
    c.arg("--dump").arg(&file).arg(shard.0.to_string()).arg(shard.1.to_string()).env("VERIF_TIER", if th { "thorough" } else { "quick" });
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let p = if out_tty || err_tty { Some(pty()?) } else { None };
    if let Some((_, sl)) = &p {
        if out_tty {
            c.stdout(sl.try_clone().unwrap());
        }
        if err_tty {
            c.stderr(sl.try_clone().unwrap());
        }
    }
    beat();
    let mut child = c.spawn().ok()?;
    loop {
        beat();
        if child.try_wait().ok()?.is_some() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    let b = std::fs::read(&file).ok();
    let _ = std::fs::remove_file(&file);
    let b = b?;
    Some(
        b.chunks_exact(32)
            .map(|c| {
                let mut a = [0; 4];
                for k in 0..4 {
                    a[k] = u64::from_le_bytes(c[8 * k..8 * k + 8].try_into().unwrap());
                }
                a
            })
            .collect(),
    )
}

/// Without escape sequences of the select-graphic-rendition kind.
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            let mut seq = String::new();
            while let Some(&d) = it.peek() {
                if d.is_ascii_digit() || d == ';' {
                    seq.push(d);
                    it.next();
                } else {
                    break;
                }
            }
            if it.peek() == Some(&'m') {
                it.next();
            } else {
                o.push('\u{1b}');
                o.push('[');
                o.push_str(&seq);
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn dump_main(file: &str, th: bool, shard: (usize, usize)) {
    // The elements' own escape sequences must not be taken for ours
    let strip_it = std::env::var_os("FORCE_COLOR").is_some();
    let mut b = vec![];
    let mut colours = 0usize;
    for (i, c) in cases(th).into_iter().enumerate() {
        if i % shard.1 != shard.0 {
            b.extend_from_slice(&[0; 32]);
            continue;
        }
        let d = texts(&c);
        for (a, q) in &d {
            for t in [a, q] {
                let own = c.disp.iter().chain(&c.dbg).flatten().any(|t| t.contains('\u{1b}'));
                if t.contains('\u{1b}') && !own {
                    colours += 1;
                }
                let h = if strip_it && !own { hash(&strip(t)) } else { hash(t) };
                b.extend_from_slice(&h.to_le_bytes());
            }
        }
    }
    std::fs::write(file, b).unwrap();
    println!("{colours}");
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    let all = cases(th);
    let own: Vec<bool> = all.iter().map(|c| c.disp.iter().chain(&c.dbg).flatten().any(|t| t.contains('\u{1b}'))).collect();
    let par = std::env::var("MCX_C20_PAR").unwrap_or_default();
    let full = std::env::var("MCX_C20_FULL").unwrap_or_default();
    let term = ("TERM", "xterm-256color");
    type Env = (&'static str, Vec<(&'static str, &'static str)>, bool, bool, bool);
    let envs: Vec<Env> = vec![
        ("default-features", vec![term], false, false, false),
        ("colour feature, output piped", vec![term, ("COLORTERM", "truecolor")], true, false, false),
        ("colour feature, NO_COLOR, terminal", vec![term, ("NO_COLOR", "1")], true, true, true),
        ("colour feature, TERM=dumb, terminal", vec![("TERM", "dumb")], true, true, true),
        ("colour feature, output piped, stderr a terminal", vec![term], true, false, true),
        ("colour feature, colours on, escapes removed", vec![("FORCE_COLOR", "1")], true, false, false),
    ];
    let mut dumps = vec![];
    let mut skipped = 0;
    for (name, env, f, out, err) in &envs {
        let d = dump(if *f { &full } else { &par }, env, *out, *err, th, cx.shard());
        if d.is_none() && (*out || *err) {
            skipped += 1; // no pseudo terminal here
            continue;
        }
        dumps.push((*name, d));
    }
    for (k, c) in all.iter().enumerate() {
        let hs: Vec<(&'static str, Option<[u64; 4]>)> = dumps
            .iter()
            .filter(|(n, _)| !(own[k] && n.contains("escapes removed")))
            .map(|(n, d)| (*n, d.as_ref().and_then(|d| d.get(k).copied())))
            .collect();
        cx.case(|| c.what.clone(), |s| check(c, &hs, s));
    }
    cx.case(|| "environments".into(), |s| {
        s.add("configurations_compared", dumps.len() as u64);
        s.add("terminal_configurations_skipped", skipped);
        for (n, d) in &dumps {
            ensure!(d.as_ref().is_some_and(|d| d.len() == all.len()), "the {n} run stopped early: formatting panicked or the build is missing");
        }
        Ok(())
    });
    cx.case(|| "i32".into(), |s| typed::<i32>(&[&[1, -20, 300], &[-4000, 0, i32::MIN]], s));
    cx.case(|| "i32 1x1".into(), |s| typed::<i32>(&[&[7]], s));
    cx.case(|| "u8".into(), |s| typed::<u8>(&[&[0, 255], &[9, 10], &[99, 100]], s));
    cx.case(|| "i128".into(), |s| typed::<i128>(&[&[i128::MIN, 0], &[i128::MAX, -1]], s));
    cx.case(|| "f64".into(), |s| typed::<f64>(&[&[0.0, -0.0, 1e300], &[f64::INFINITY, f64::MIN_POSITIVE, 1.5]], s));
    cx.case(|| "f32".into(), |s| typed::<f32>(&[&[f32::NEG_INFINITY], &[1e-7]], s));
    cx.case(|| "bool".into(), |s| typed::<bool>(&[&[true, false], &[false, false]], s));
    cx.case(|| "char".into(), |s| typed::<char>(&[&['a', '\u{e9}'], &['\u{65e5}', 'z']], s));
    cx.case(|| "String".into(), |s| typed::<String>(&[&["ab".into(), "c".into(), "".into()]], s));
    cx.case(|| "&str".into(), |s| typed::<&'static str>(&[&["x", "\u{df}\u{df}"], &["longer", "y"]], s));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--dump") {
        dump_main(&a[2], std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), (a[3].parse().unwrap(), a[4].parse().unwrap()));
        return;
    }
    run(
        Meta {
            prop: "C20",
            level: "model_checking",
            rule: "state = (shape, renderings of all elements); transition = one formatted text compared with the row/label/width oracle, the text of the other storage order, of the other feature configuration or of a failing writer",
            bounds: |t| {
                if t {
                    "all shapes 0..=6 squared x one deviating width at every place; all assignments of 4 widths up to 6 elements; 19 awkward renderings (all assignments up to 3 elements, every place beyond); 10 multi-line renderings (all assignments up to 3 elements); sizes around powers of ten up to 10^4; widths up to 70000; six build/environment configurations".into()
                } else {
                    "all shapes 0..=4 squared x one deviating width at every place; all assignments of 4 widths up to 4 elements; 19 awkward renderings (all assignments up to 2 elements, every place beyond); 10 multi-line renderings (all assignments up to 3 elements); sizes around powers of ten up to 10^3; widths up to 70000; six build/environment configurations".into()
                }
            },
            assumptions: &[
                "user Display/Debug implementations that return an error are out of scope",
                "width is counted in characters (Unicode scalar values), as stated",
                "a rendering is single-line when it has no line feed",
            ],
            stall_s: 120,
        },
        body,
    )
}
