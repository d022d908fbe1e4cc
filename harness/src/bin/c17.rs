//! C17: (a) every client program of a closed family that moves or shares a row
//! or column iterator, judged by the compiler for every (Send, Sync) class of
//! element types; (b) every interleaving of threads that own distinct lines,
//! with an ownership map from threads to addresses.
use matreex::Matrix;
use mcx::elem::*;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Mutex;

// ---- (a) client programs ---------------------------------------------------------
struct Class {
    name: &'static str,
    send: bool,
    sync: bool,
    generic: bool,
}
const fn ty(name: &'static str, send: bool, sync: bool) -> Class {
    Class { name, send, sync, generic: false }
}
const fn gen_(name: &'static str, send: bool, sync: bool) -> Class {
    Class { name, send, sync, generic: true }
}
const CLASSES: &[Class] = &[
    gen_("", false, false),
    gen_("Send", true, false),
    gen_("Sync", false, true),
    gen_("Send + Sync", true, true),
    gen_("Copy + 'static", false, false),
    ty("u32", true, true),
    ty("String", true, true),
    ty("std::sync::Mutex<std::cell::Cell<u8>>", true, true),
    ty("std::cell::Cell<u32>", true, false),
    ty("std::cell::RefCell<Vec<u8>>", true, false),
    ty("std::sync::mpsc::Receiver<u8>", true, false),
    ty("std::sync::MutexGuard<'static, u8>", false, true),
    ty("SyncOnly", false, true),
    ty("std::rc::Rc<u8>", false, false),
    ty("*mut u8", false, false),
    ty("&'static std::cell::Cell<u8>", false, false),
    ty("std::sync::Arc<std::cell::Cell<u8>>", false, false),
    ty("Box<dyn Fn()>", false, false),
    ty("Box<dyn Fn() + Send>", true, false),
];

#[derive(Clone, Copy, PartialEq)]
enum Need {
    Send,
    Sync,
    Both,
}
/// (name, body with H for the handle, what it demands of the handle)
const ACTIONS: &[(&str, &str, Need)] = &[
    ("assert Send", "fn f<X: Send>(_: X) {} f(H);", Need::Send),
    ("assert Sync", "fn f<X: Sync>(_: &X) {} f(&H);", Need::Sync),
    ("reference asserted Send", "fn f<X: Send>(_: X) {} f(&H);", Need::Sync),
    ("move into a scoped thread", "let h = H; std::thread::scope(|s| { s.spawn(move || drop(h)); });", Need::Send),
    ("share with a scoped thread", "let h = H; let r = &h; std::thread::scope(|s| { s.spawn(move || { std::mem::size_of_val(r); }); });", Need::Sync),
    ("send through a channel", "let h = H; let (tx, rx) = std::sync::mpsc::channel(); std::thread::scope(|s| { s.spawn(move || drop(rx.recv())); tx.send(h).ok(); });", Need::Send),
    ("share behind a mutex", "let h = std::sync::Mutex::new(H); let r = &h; std::thread::scope(|s| { s.spawn(move || drop(r.lock())); });", Need::Send),
    ("put into an Arc and move", "let h = std::sync::Arc::new(H); std::thread::scope(|s| { s.spawn(move || drop(h)); });", Need::Both),
    ("box as dyn Send", "let _b: Box<dyn std::any::Any + Send>; fn f<'a, X: Iterator + Send + 'a>(x: X) -> Box<dyn Iterator<Item = X::Item> + Send + 'a> { Box::new(x) } drop(f(H));", Need::Send),
    ("return from a scoped thread", "let m = Wrap(m); std::thread::scope(|s| { let h = s.spawn(move || { let m = m; let m = m.0; H }).join(); drop(h); });", Need::Send),
];

/// Handles: (name, expression over `m`, owned elements)
fn handles() -> Vec<(String, String, bool)> {
    let mut v = vec![];
    for x in ["row", "col"] {
        for (n, e) in [
            ("outer", format!("m.iter_{x}s_mut()")),
            ("outer after a step", format!("{{ let mut i = m.iter_{x}s_mut(); i.next(); i }}")),
            ("outer reversed", format!("m.iter_{x}s_mut().rev()")),
            ("outer enumerated", format!("m.iter_{x}s_mut().enumerate()")),
            ("line", format!("m.iter_{x}s_mut().next().unwrap()")),
            ("line from the back", format!("m.iter_{x}s_mut().next_back().unwrap()")),
            ("line by nth", format!("m.iter_{x}s_mut().nth(1).unwrap()")),
            ("flattened", format!("m.iter_{x}s_mut().flatten()")),
            ("single", format!("m.iter_nth_{x}_mut(0).unwrap()")),
        ] {
            v.push((format!("{n} of iter_{x}s_mut"), e, true));
        }
        for (n, e) in [
            ("outer", format!("m.iter_{x}s()")),
            ("line", format!("m.iter_{x}s().next().unwrap()")),
            ("single", format!("m.iter_nth_{x}(0).unwrap()")),
        ] {
            v.push((format!("{n} of iter_{x}s"), e, false));
        }
    }
    v
}

/// May the compiler accept?
fn sound(c: &Class, need: Need, owned: bool) -> bool {
    // a handle owning &mut T is Send iff T: Send; one owning &T iff T: Sync
    let s = if owned { c.send } else { c.sync };
    match need {
        Need::Send => s,
        Need::Sync => c.sync,
        Need::Both => s && c.sync,
    }
}

const PRELUDE: &str = "#![allow(unused, path_statements, dropping_references, private_interfaces)]\nuse matreex::Matrix;\npub struct SyncOnly(*mut u8);\nunsafe impl Sync for SyncOnly {}\npub struct Wrap<X>(X);\nunsafe impl<X> Send for Wrap<X> {}\n";

fn function(n: usize, c: &Class, action: &str, handle: &str) -> String {
    let body = action.replace('H', handle);
    if c.generic {
        let b = if c.name.is_empty() { String::new() } else { format!(": {}", c.name) };
        format!("pub fn probe_{n}<T{b}>(m: &mut Matrix<T>) {{ {body} }}\n")
    } else {
        format!("pub fn probe_{n}(m: &mut Matrix<{}>) {{ {body} }}\n", c.name)
    }
}

/// Errors as (line, code); None: the compiler could not be run.
fn compile(src: &str, tag: &str) -> Result<Vec<(usize, String)>, String> {
    let rlib = std::env::var("MCX_MATREEX_RLIB").map_err(|_| "MCX_MATREEX_RLIB is not set")?;
    let deps = PathBuf::from(&rlib).parent().unwrap().to_path_buf();
    let dir = PathBuf::from(std::env::var("MCX_ROOT").unwrap_or_else(|_| ".".into())).join("target/run").join(format!("c17-{}-{tag}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = dir.join("probe.rs");
    std::fs::write(&file, src).map_err(|e| e.to_string())?;
    beat();
    let o = Command::new("rustc")
        .args(["--edition", "2024", "--crate-type", "lib", "--crate-name", "probe", "--emit=metadata", "--error-format=json", "--cap-lints=allow"])
        .arg("-o")
        .arg(dir.join("libprobe.rmeta"))
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg("--extern")
        .arg(format!("matreex={rlib}"))
        .arg(&file)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    beat();
    let _ = std::fs::remove_dir_all(&dir);
    let mut v = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        if !l.contains("\"level\":\"error\"") {
            continue;
        }
        // the message's own level comes after its code; look at the top level only
        let code = l.split("\"code\":{\"code\":\"").nth(1).and_then(|t| t.split('"').next()).unwrap_or("").to_string();
        let lines: Vec<usize> = primary_lines(l);
        let msg = l.split("\"message\":\"").nth(1).and_then(|t| t.split("\",\"").next()).unwrap_or("");
        if msg.starts_with("aborting due to") {
            continue;
        }
        v.push((lines.first().copied().unwrap_or(0), if code.is_empty() { format!("uncoded: {msg}") } else { code }));
    }
    if !o.status.success() && v.is_empty() {
        return Err(format!("rustc failed without a diagnostic: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(v)
}
fn primary_lines(l: &str) -> Vec<usize> {
    // "is_primary":true,... "line_start":N - fields of a span are in alphabetical order of serialisation
    let mut v = vec![];
    let spans = l.split("\"spans\":[").last().map_or("", |_| l);
    for part in spans.split("\"file_name\":\"").skip(1) {
        let end = part.find("\"text\"").unwrap_or(part.len());
        let p = &part[..end];
        if p.contains("\"is_primary\":true")
            && let Some(n) = p.split("\"line_start\":").nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|t| t.parse().ok())
        {
            v.push(n);
        }
    }
    v
}

fn batch(c: &Class, a: &(&str, &str, Need), single: bool, s: &mut Stats) -> Res {
    let hs = handles();
    let mut verdict: Vec<Vec<String>> = vec![vec![]; hs.len()];
    let head = PRELUDE.lines().count();
    if single {
        for (i, h) in hs.iter().enumerate() {
            let src = format!("{PRELUDE}{}", function(i, c, a.1, &h.1));
            verdict[i] = compile(&src, &format!("{i}"))?.into_iter().map(|t| t.1).collect();
        }
    } else {
        let mut src = PRELUDE.to_string();
        for (i, h) in hs.iter().enumerate() {
            src += &function(i, c, a.1, &h.1);
        }
        for (line, code) in compile(&src, "b")? {
            if line <= head || line > head + hs.len() {
                bail!("a diagnostic {code} outside the probes (line {line})");
            }
            verdict[line - head - 1].push(code);
        }
    }
    for (i, h) in hs.iter().enumerate() {
        s.transition();
        s.state((c.name, c.generic, a.0, &h.0));
        let may = sound(c, a.2, h.2);
        let what = || format!("{} of {} with elements of {}{}", a.0, h.0, if c.generic { "generic type T: " } else { "type " }, c.name);
        let mut v = verdict[i].clone();
        if v.is_empty() != may || v.iter().any(|c| c != "E0277") {
            // decide on the probe alone
            let src = format!("{PRELUDE}{}", function(i, c, a.1, &h.1));
            v = compile(&src, "one")?.into_iter().map(|t| t.1).collect();
        }
        s.add(if v.is_empty() { "accepted" } else { "rejected" }, 1);
        if v.is_empty() {
            ensure!(may, "the compiler accepts an unsound program: {}\n{}", what(), function(i, c, a.1, &h.1));
        } else {
            s.outcome(&format!("rejected with {}", v[0]));
            // the same program must be fine for a type that is both: otherwise
            // the rejection says nothing about the element type
            ensure!(!(c.send && c.sync), "rejected although the elements are Send and Sync ({v:?}): {}", what());
            ensure!(!may || h.2 || v.iter().all(|c| c == "E0277"), "rejected for another reason ({v:?}): {}", what());
        }
    }
    Ok(())
}

/// Programs that would let two threads reach one element, or an element
/// outlive its matrix; each with a twin that must be accepted.
const ESCAPES: &[(&str, &str, &str)] = &[
    ("two outer iterators alive", "let mut a = m.iter_rows_mut(); let mut b = m.iter_rows_mut(); a.next(); b.next();", "{ let mut a = m.iter_rows_mut(); a.next(); } let mut b = m.iter_rows_mut(); b.next();"),
    ("rows and columns alive", "let mut a = m.iter_rows_mut(); let mut b = m.iter_cols_mut(); a.next(); b.next();", "{ let mut a = m.iter_rows_mut(); a.next(); } let mut b = m.iter_cols_mut(); b.next();"),
    ("a line outlives a use of the matrix", "let r = m.iter_rows_mut().next().unwrap(); m.transpose(); drop(r);", "let r = m.iter_rows_mut().next().unwrap(); drop(r); m.transpose();"),
    ("a column outlives a use of the matrix", "let r = m.iter_cols_mut().next().unwrap(); m.clear(); drop(r);", "let r = m.iter_cols_mut().next().unwrap(); drop(r); m.clear();"),
    ("an element outlives a read of the matrix", "let e = m.iter_rows_mut().next().unwrap().next().unwrap(); let n = m.size(); *e = String::new();", "let e = m.iter_rows_mut().next().unwrap().next().unwrap(); *e = String::new(); let n = m.size();"),
    ("an element outlives a write to the matrix", "let e = m.iter_cols_mut().next().unwrap().next().unwrap(); m.clear(); *e = String::new();", "let e = m.iter_cols_mut().next().unwrap().next().unwrap(); *e = String::new(); m.clear();"),
    ("clone of the outer iterator", "let a = m.iter_rows_mut(); let b = Clone::clone(&a); drop((a, b));", "let a = m.iter_rows(); drop(a);"),
    ("clone of the outer column iterator", "let a = m.iter_cols_mut(); let b = Clone::clone(&a); drop((a, b));", "let a = m.iter_cols(); drop(a);"),
    ("clone of a line", "let a = m.iter_rows_mut().next().unwrap(); let b = Clone::clone(&a); drop((a, b));", "let a = m.iter_rows_mut().next().unwrap(); drop(a);"),
    ("clone of a column", "let a = m.iter_cols_mut().next().unwrap(); let b = Clone::clone(&a); drop((a, b));", "let a = m.iter_cols_mut().next().unwrap(); drop(a);"),
    ("copy of a line", "let a = m.iter_rows_mut().next().unwrap(); let b = a; drop((a, b));", "let a = m.iter_rows_mut().next().unwrap(); let b = a; drop(b);"),
    ("copy of a column", "let a = m.iter_cols_mut().next().unwrap(); let b = a; drop((a, b));", "let a = m.iter_cols_mut().next().unwrap(); let b = a; drop(b);"),
    ("copy of the outer iterator", "let a = m.iter_cols_mut(); let b = a; drop((a, b));", "let a = m.iter_cols_mut(); let b = a; drop(b);"),
    ("a line outlives its matrix", "let r; { let mut n = m.clone(); r = n.iter_rows_mut().next().unwrap(); } drop(r);", "{ let mut n = m.clone(); let r = n.iter_rows_mut().next().unwrap(); drop(r); }"),
    ("a column outlives its matrix", "let r; { let mut n = m.clone(); r = n.iter_cols_mut().next().unwrap(); } drop(r);", "{ let mut n = m.clone(); let r = n.iter_cols_mut().next().unwrap(); drop(r); }"),
    ("an element outlives its matrix", "let r; { let mut n = m.clone(); r = n.iter_cols_mut().next().unwrap().next().unwrap(); } r.clear();", "{ let mut n = m.clone(); let r = n.iter_cols_mut().next().unwrap().next().unwrap(); r.clear(); }"),
    ("a thread outlives its matrix", "let mut n = m.clone(); std::thread::spawn(move || { let r = n.iter_rows_mut(); drop(r); }); n.clear();", "let mut n = m.clone(); std::thread::spawn(move || { let r = n.iter_rows_mut(); drop(r); });"),
    ("a detached thread takes a row", "let mut n = m.clone(); let r = n.iter_rows_mut().next().unwrap(); std::thread::spawn(move || drop(r));", "let n: &'static mut Matrix<String> = Box::leak(Box::new(m.clone())); let r = n.iter_rows_mut().next().unwrap(); std::thread::spawn(move || drop(r));"),
    ("two threads advance one row", "let mut r = m.iter_rows_mut().next().unwrap(); std::thread::scope(|s| { s.spawn(|| drop(r.next())); s.spawn(|| drop(r.next())); });", "let mut r = m.iter_rows_mut().next().unwrap(); std::thread::scope(|s| { s.spawn(|| drop(r.next())); });"),
    ("two threads advance one outer iterator", "let mut r = m.iter_cols_mut(); std::thread::scope(|s| { s.spawn(|| drop(r.next())); s.spawn(|| drop(r.next())); });", "let mut r = m.iter_cols_mut(); std::thread::scope(|s| { s.spawn(|| drop(r.next())); });"),
    ("a row through a shared reference", "let n: &Matrix<String> = m; let r = n.iter_rows_mut(); drop(r);", "let n: &mut Matrix<String> = m; let r = n.iter_rows_mut(); drop(r);"),
    ("a column through a shared reference", "let n: &Matrix<String> = m; let r = n.iter_cols_mut(); drop(r);", "let n: &mut Matrix<String> = m; let r = n.iter_cols_mut(); drop(r);"),
    ("a shorter-lived reference is written through a row", "fn f<'l>(m: &mut Matrix<&'l String>, x: &String) { for r in m.iter_rows_mut() { for e in r { *e = x; } } }", "fn f<'l>(m: &mut Matrix<&'l String>, x: &'l String) { for r in m.iter_rows_mut() { for e in r { *e = x; } } }"),
    ("a shorter-lived reference is written through a column", "fn f<'l>(m: &mut Matrix<&'l String>, x: &String) { for r in m.iter_cols_mut() { for e in r { *e = x; } } }", "fn f<'l>(m: &mut Matrix<&'l String>, x: &'l String) { for r in m.iter_cols_mut() { for e in r { *e = x; } } }"),
    ("the lifetime of a row is stretched", "fn f<'l>(m: &mut Matrix<String>) -> impl Iterator<Item = &'l mut String> + use<'l> { m.iter_rows_mut().next().unwrap() }", "fn f<'l>(m: &'l mut Matrix<String>) -> impl Iterator<Item = &'l mut String> { m.iter_rows_mut().next().unwrap() }"),
];

fn escape(k: usize, s: &mut Stats) -> Res {
    let (name, bad, good) = ESCAPES[k];
    let src = |b: &str| format!("{PRELUDE}pub fn probe(m: &mut Matrix<String>) {{ {b} }}\n");
    let v = compile(&src(good), "good")?;
    ensure!(v.is_empty(), "a sound program is rejected ({v:?}), next to: {name}\n{good}");
    let v = compile(&src(bad), "bad")?;
    ensure!(!v.is_empty(), "the compiler accepts an unsound program: {name}\n{bad}");
    s.outcome(&format!("rejected with {}", v[0].1));
    s.transitions(2);
    s.add("accepted", 1);
    s.add("rejected", 1);
    s.state(("escape", name));
    Ok(())
}

// ---- (b) interleavings -----------------------------------------------------------
/// What a thread does, one atomic step at a time.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// lines were handed out beforehand according to an assignment
    Assigned,
    /// threads take lines from the shared outer iterator: even threads from
    /// the front, odd ones from the back
    Taken,
}

struct Plan {
    o: Ord_,
    nr: usize,
    nc: usize,
    rows: bool,
    threads: usize,
    /// line -> thread
    owner: Vec<usize>,
    mode: Mode,
    bound: usize,
}

/// All runs of `f`, which reports the number of choices at each point through
/// the chooser. Depth-first with replay.
fn explore(max: u64, mut f: impl FnMut(&mut dyn FnMut(usize) -> usize) -> Res) -> Result<u64, Fail> {
    let mut prefix: Vec<usize> = vec![];
    let mut runs = 0;
    loop {
        let mut trace: Vec<(usize, usize)> = vec![];
        f(&mut |n| {
            let c = prefix.get(trace.len()).copied().unwrap_or(0);
            trace.push((c, n));
            c
        })
        .map_err(|e| Fail { msg: format!("schedule {:?}: {}", trace.iter().map(|t| t.0).collect::<Vec<_>>(), e.msg), ..e })?;
        runs += 1;
        if runs % 1024 == 0 {
            beat();
        }
        ensure!(runs <= max, "exploration cut short after {runs} runs");
        while let Some((c, n)) = trace.pop() {
            if c + 1 < n {
                trace.push((c + 1, n));
                break;
            }
        }
        if trace.is_empty() {
            return Ok(runs);
        }
        prefix = trace.into_iter().map(|t| t.0).collect();
    }
}

fn value(t: usize, line: usize, pos: usize, old: u32) -> u32 {
    mix(FN3, old, (t * 100 + line * 10 + pos) as u32 + 1)
}

struct Thread<J> {
    /// lines still to be processed, the current one last
    lines: Vec<(usize, J)>,
    pos: (usize, usize),
    open: bool,
    finished: bool,
}

fn run_plan<E: Elem>(p: &Plan, choose: &mut dyn FnMut(usize) -> usize, s: &mut Stats) -> Res {
    reset();
    let x = M::numbered(p.o, p.nr, p.nc, 0).norm::<E>();
    let mut m: Matrix<E> = x.build();
    let (lines, len) = if p.rows { (p.nr, p.nc) } else { (p.nc, p.nr) };
    let r = if p.rows { step_all::<E, _, _>(m.iter_rows_mut(), p, lines, len, choose, s) } else { step_all::<E, _, _>(m.iter_cols_mut(), p, lines, len, choose, s) };
    let done = r?;
    // the same mutations, sequentially, on the reference
    let mut y = x;
    for (t, line, pos) in done {
        let (r, c) = if p.rows { (line, pos) } else { (pos, line) };
        y.rows[r][c] = E::norm(value(t, line, pos, y.rows[r][c]));
    }
    agree(&m, &y)?;
    drop(m);
    Ok(finish()?)
}

/// Returns the mutations made, grouped by thread.
fn step_all<'a, E: Elem, I, J>(mut outer: I, p: &Plan, lines: usize, len: usize, choose: &mut dyn FnMut(usize) -> usize, s: &mut Stats) -> Result<Vec<(usize, usize, usize)>, Fail>
where
    I: ExactSizeIterator<Item = J> + DoubleEndedIterator + Send,
    J: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator + Send,
{
    let mut ths: Vec<Thread<J>> = (0..p.threads).map(|_| Thread { lines: vec![], pos: (0, len), open: false, finished: false }).collect();
    let (mut lo, mut hi) = (0, lines);
    if p.mode == Mode::Assigned {
        for i in 0..lines {
            let Some(j) = outer.next() else { bail!("line {i} missing") };
            ths[p.owner[i]].lines.push((i, j));
        }
        ensure!(outer.next().is_none(), "too many lines");
    }
    let mut owner: HashMap<usize, (usize, usize, usize)> = HashMap::new();
    let mut held: Vec<Vec<&'a mut E>> = (0..p.threads).map(|_| vec![]).collect();
    let mut done: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; p.threads];
    let mut last: Option<usize> = None;
    let mut switches = 0;
    loop {
        let mut en: Vec<usize> = (0..p.threads)
            .filter(|&t| {
                let h = &ths[t];
                !h.finished && (!h.lines.is_empty() || p.mode == Mode::Taken)
            })
            .collect();
        if en.is_empty() {
            break;
        }
        // preemption bound: keep the running thread unless budget is left
        if let Some(l) = last
            && en.contains(&l)
        {
            if switches >= p.bound {
                en = vec![l];
            } else {
                en.retain(|&t| t != l);
                en.insert(0, l);
            }
        }
        let k = if en.len() == 1 { 0 } else { choose(en.len()) };
        let t = en[k];
        if last.is_some_and(|l| l != t && en[0] == l) {
            switches += 1;
        }
        last = Some(t);
        s.transition();
        let h = &mut ths[t];
        if h.lines.is_empty() {
            // take a line from the shared iterator
            let back = t % 2 == 1;
            let j = if back { outer.next_back() } else { outer.next() };
            match j {
                Some(j) => {
                    ensure!(lo < hi, "thread {t} gets a line although all {lines} are taken");
                    let i = if back {
                        hi -= 1;
                        hi
                    } else {
                        lo += 1;
                        lo - 1
                    };
                    h.lines.push((i, j));
                }
                None => {
                    ensure!(lo == hi, "thread {t} gets no line, {} left", hi - lo);
                    h.finished = true;
                }
            }
            ensure!(outer.len() == hi - lo, "outer len() = {}, {} left", outer.len(), hi - lo);
            continue;
        }
        if !h.open {
            h.open = true;
            h.pos = (0, len);
        }
        let (i, j) = h.lines.last_mut().unwrap();
        let back = (t + h.pos.0) % 2 == 1;
        let e = if back { j.next_back() } else { j.next() };
        match e {
            None => {
                ensure!(h.pos.0 == h.pos.1, "thread {t}: line {i} ends with {} to come", h.pos.1 - h.pos.0);
                h.open = false;
                h.lines.pop();
            }
            Some(e) => {
                ensure!(h.pos.0 < h.pos.1, "thread {t}: line {i} yields too much");
                let at = if back {
                    h.pos.1 -= 1;
                    h.pos.1
                } else {
                    h.pos.0 += 1;
                    h.pos.0 - 1
                };
                if size_of::<E>() > 0 {
                    let a = e as *mut E as usize;
                    if let Some(o) = owner.insert(a, (t, *i, at)) {
                        bail!("the element of thread {t} (line {i}, position {at}) is also reachable from thread {} (line {}, position {})", o.0, o.1, o.2);
                    }
                }
                let v = value(t, *i, at, e.val());
                e.set(v);
                done[t].push((t, *i, at));
                held[t].push(e);
            }
        }
    }
    let n: usize = held.iter().map(Vec::len).sum();
    ensure!(n == lines * len, "{n} of {} elements handed out", lines * len);
    Ok(done.concat())
}

fn assignments(lines: usize, threads: usize) -> Vec<Vec<usize>> {
    // set partitions into at most `threads` blocks (threads are symmetric up
    // to their number's parity, so all assignments are kept when few)
    let mut v = vec![vec![]];
    for _ in 0..lines {
        v = v.into_iter().flat_map(|a: Vec<usize>| (0..threads).map(move |t| [a.clone(), vec![t]].concat())).collect();
    }
    v
}

fn plan<E: Elem>(p: Plan, s: &mut Stats) -> Res {
    let key = (E::NAME, p.o, p.nr, p.nc, p.rows, p.threads, p.owner.clone(), p.mode == Mode::Taken);
    let n = explore(3_000_000, |ch| run_plan::<E>(&p, ch, s))?;
    s.add("schedules", n);
    s.state(&key);
    Ok(())
}

/// The same on operating-system threads: real scoped threads that own the
/// lines of an assignment, released together.
fn threads<E: Elem>(o: Ord_, nr: usize, nc: usize, rows: bool, owner: &[usize], n: usize) -> Res {
    let x = M::numbered(o, nr, nc, 0).norm::<E>();
    let mut m: Matrix<E> = x.build();
    let len = if rows { nc } else { nr };
    let seen: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    fn go<'a, E: Elem, J: Iterator<Item = &'a mut E> + Send>(outer: impl Iterator<Item = J>, owner: &[usize], n: usize, seen: &Mutex<Vec<(usize, usize)>>) {
        let mut per: Vec<Vec<(usize, J)>> = (0..n).map(|_| vec![]).collect();
        for (i, j) in outer.enumerate() {
            per[owner[i]].push((i, j));
        }
        let gate = std::sync::Barrier::new(n);
        std::thread::scope(|sc| {
            for (t, v) in per.into_iter().enumerate() {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    let mut mine = vec![];
                    for (i, j) in v {
                        for (k, e) in j.enumerate() {
                            mine.push((e as *mut E as usize, t));
                            let v = value(t, i, k, e.val());
                            e.set(v);
                        }
                    }
                    seen.lock().unwrap().extend(mine);
                });
            }
        });
    }
    if rows {
        go(m.iter_rows_mut(), owner, n, &seen)
    } else {
        go(m.iter_cols_mut(), owner, n, &seen)
    }
    let mut v = seen.into_inner().unwrap();
    ensure!(v.len() == nr * nc, "{} of {} elements visited", v.len(), nr * nc);
    if size_of::<E>() > 0 {
        v.sort();
        ensure!(v.windows(2).all(|w| w[0].0 != w[1].0), "an element is reachable twice");
    }
    let y = M::new(o, nr, nc, |r, c| {
        let (i, k) = if rows { (r, c) } else { (c, r) };
        E::norm(value(owner[i], i, k, x.rows[r][c]))
    });
    let _ = len;
    agree(&m, &y)
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    miri(cx, "c17", "-Zmiri-tree-borrows", if th { 32 } else { 8 });
    for c in CLASSES {
        for a in ACTIONS {
            cx.case(|| format!("{} with elements {}{}", a.0, if c.generic { "T: " } else { "" }, c.name), |s| batch(c, a, th, s));
        }
    }
    for k in 0..ESCAPES.len() {
        cx.case(|| format!("escape: {}", ESCAPES[k].0), |s| escape(k, s));
    }
    // interleavings: (lines, length, threads, preemption bound)
    let inf = usize::MAX;
    let mut v: Vec<(usize, usize, usize, usize)> = vec![
        (2, 1, 2, inf), (2, 2, 2, inf), (2, 3, 2, inf), (3, 1, 2, inf), (3, 2, 2, inf), (1, 3, 2, inf), (4, 1, 2, inf),
        (1, 2, 3, inf), (2, 2, 3, inf), (3, 1, 3, inf), (3, 2, 3, 3), (4, 2, 2, 4), (4, 2, 3, 2), (5, 2, 2, 3), (5, 1, 3, 2), (3, 3, 3, 3), (0, 3, 2, inf), (3, 0, 2, inf),
    ];
    if th {
        v.extend([(3, 2, 3, 5), (4, 2, 3, 4), (5, 3, 3, 2), (4, 4, 4, 2), (6, 2, 4, 2), (3, 3, 2, inf), (4, 2, 2, inf), (2, 4, 3, inf), (3, 3, 3, 5)]);
    }
    for (l, k, n, bound) in v {
        for rows in [true, false] {
            let (nr, nc) = if rows { (l, k) } else { (k, l) };
            for o in ORDERS {
                for (x, mode) in [Mode::Assigned, Mode::Taken].into_iter().enumerate() {
                    let owners = if mode == Mode::Assigned { assignments(l, n) } else { vec![vec![]] };
                    // full exploration over every assignment, without those that
                    // only rename threads when there are many
                    let owners: Vec<Vec<usize>> = if owners.len() > 32 { owners.into_iter().filter(|a| { let mut mx = 0; a.iter().all(|&t| { let ok = t <= mx; mx = mx.max(t + 1); ok }) }).collect() } else { owners };
                    for owner in owners {
                        let p = |o2: &Vec<usize>| Plan { o, nr, nc, rows, threads: n, owner: o2.clone(), mode, bound: if x == 1 && bound == inf && l * k > 4 { 4 } else { bound } };
                        cx.case(|| format!("{n} threads, {mode:?} {owner:?}, {o:?} {nr}x{nc} rows={rows} (P4)"), |s| plan::<P4>(p(&owner), s));
                        if l * k <= 4 {
                            cx.case(|| format!("{n} threads, {mode:?} {owner:?}, {o:?} {nr}x{nc} rows={rows} (Tr24)"), |s| plan::<Tr>(p(&owner), s));
                            cx.case(|| format!("{n} threads, {mode:?} {owner:?}, {o:?} {nr}x{nc} rows={rows} (P1)"), |s| plan::<P1>(p(&owner), s));
                            cx.case(|| format!("{n} threads, {mode:?} {owner:?}, {o:?} {nr}x{nc} rows={rows} (TrZ0)"), |s| plan::<TrZ>(p(&owner), s));
                        }
                    }
                }
            }
        }
    }
    // operating-system threads
    for (l, k) in [(1, 4), (2, 3), (3, 3), (4, 2), (6, 5), (17, 33), (64, 65), (3, 300), (300, 3), (9, 1)] {
        for rows in [true, false] {
            let (nr, nc) = if rows { (l, k) } else { (k, l) };
            for o in ORDERS {
                for n in [1usize, 2, 3, 8] {
                    cx.case(|| format!("{n} real threads on {o:?} {nr}x{nc} rows={rows}"), |s| {
                        for f in 0..4usize {
                            let owner: Vec<usize> = (0..l)
                                .map(|i| match f {
                                    0 => i % n,
                                    1 => i * n / l,
                                    2 => n - 1 - i % n,
                                    _ => (i * 7 + i / 3) % n,
                                })
                                .collect();
                            reset();
                            threads::<P4>(o, nr, nc, rows, &owner, n)?;
                            threads::<P1>(o, nr, nc, rows, &owner, n)?;
                            threads::<P16>(o, nr, nc, rows, &owner, n)?;
                            s.add("real_thread_runs", 3);
                            s.transitions(3);
                            s.state(("real", o, nr, nc, rows, n, f));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

fn main() {
    run(
        Meta {
            prop: "C17",
            level: "model_checking",
            rule: "(a) state = (element class, handle, client program); transition = the compiler's verdict on it, compared with soundness: owning handles may be moved only if T: Send and shared only if T: Sync; (b) state = (shape, order, axis, assignment of lines to threads); transition = one atomic step of one thread (take a line, or next/next_back and write); every interleaving is executed on the real iterators with an ownership map from addresses to threads and the final matrix compared with the sequential one",
            bounds: |t| {
                format!(
                    "{} element classes x 24 handles x {} client programs, each compiled {}; {} escaping programs with accepted twins; 1..{} threads on up to {} lines x 4, all assignments, all interleavings of small shapes and preemption bound 2..5 for larger ones; the same assignments on real threads under Miri's data-race detector (vector clocks: the threads do not synchronise, so one run decides all interleavings of an assignment) and natively up to 64x65 and 300x3",
                    CLASSES.len(),
                    ACTIONS.len(),
                    if t { "alone" } else { "in batches, disagreements confirmed alone" },
                    ESCAPES.len(),
                    if t { 4 } else { 3 },
                    if t { 6 } else { 5 }
                )
            },
            assumptions: &["an interleaving's atomic step is one call on a line's iterator plus the write through the reference it yields; finer interleavings are covered by the disjointness of addresses and by Miri"],
            stall_s: 120,
        },
        body,
    )
}
