//! C08: every shape-taking and mapping operation over the cross product of
//! boundary sizes, element sizes and storage orders, against u128 arithmetic.
//! Calls that would really allocate gigabytes run in a forked probe whose
//! allocator reports the request and ends the process.
use matreex::shape::Shape;
use matreex::{Error, Matrix};
use mcx::alloc;
use mcx::elem::ZA;
use mcx::model::*;
use mcx::sup::*;
use mcx::{bail, ensure};
use std::ops::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const IMAX: usize = isize::MAX as usize;
const UMAX: usize = usize::MAX;

// ---- element types ----------------------------------------------------------
static FILLED: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
/// Every piece of user code that produces an element.
fn fill() {
    let n = FILLED.fetch_add(1, Relaxed) + 1;
    let l = LIMIT.load(Relaxed);
    if l != 0 && n > l {
        unsafe { _exit(43) }
    }
}

/// An N-byte element.
pub struct B<const N: usize>([u8; N]);
impl<const N: usize> Default for B<N> {
    fn default() -> Self {
        fill();
        B([7; N])
    }
}
impl<const N: usize> Clone for B<N> {
    fn clone(&self) -> Self {
        fill();
        B(self.0)
    }
}
impl<const N: usize> Add for B<N> {
    type Output = B<N>;
    fn add(self, _: B<N>) -> B<N> {
        fill();
        self
    }
}

/// A zero-sized operand whose arithmetic yields N-byte elements.
#[derive(Clone, Copy)]
pub struct Z<const N: usize>;
macro_rules! zop {
    ($($t:ident $f:ident)*) => {$(
        impl<const N: usize> $t for Z<N> {
            type Output = B<N>;
            fn $f(self, _: Z<N>) -> B<N> {
                fill();
                B([1; N])
            }
        }
    )*};
}
zop!(Add add Sub sub Mul mul Div div Rem rem);

// ---- probes ------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
enum Out {
    Err(Error),
    Ok(usize, usize, usize),
    Panic(String),
    /// the allocation of this many bytes was attempted
    Alloc(usize),
    /// user code was asked for many elements
    Filling,
    Running,
    Died(i32),
}

#[repr(C)]
struct Page {
    req: AtomicUsize,
    kind: AtomicUsize,
    a: AtomicUsize,
    b: AtomicUsize,
    c: AtomicUsize,
    max: AtomicUsize,
    len: AtomicUsize,
    text: [AtomicUsize; 64],
}
fn page() -> &'static Page {
    static P: AtomicUsize = AtomicUsize::new(0);
    let p = P.load(Relaxed);
    if p != 0 {
        return unsafe { &*(p as *const Page) };
    }
    let q = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    assert!(q as isize != -1);
    P.store(q as usize, Relaxed);
    unsafe { &*(q as *const Page) }
}

fn err_code(e: &Error) -> usize {
    match e {
        Error::SizeOverflow => 1,
        Error::SizeMismatch => 2,
        Error::CapacityOverflow => 3,
        Error::LengthInconsistent => 4,
        Error::IndexOutOfBounds => 5,
        Error::SquareMatrixRequired => 6,
        Error::ShapeNotConformable => 7,
        #[allow(unreachable_patterns)]
        _ => 8,
    }
}
fn err_of(c: usize) -> Error {
    [
        Error::SizeOverflow,
        Error::SizeMismatch,
        Error::CapacityOverflow,
        Error::LengthInconsistent,
        Error::IndexOutOfBounds,
        Error::SquareMatrixRequired,
        Error::ShapeNotConformable,
    ][c - 1]
        .clone()
}

type Got = Result<(usize, usize, usize), Error>;

/// Dimensions of a result, which must be coherent.
fn dims<T>(m: &Matrix<T>) -> (usize, usize, usize) {
    (m.nrows(), m.ncols(), m.size())
}

/// In this process.
fn inline(f: impl FnOnce() -> Got) -> (Out, usize) {
    LIMIT.store(0, Relaxed);
    alloc::take_max();
    let r = catch_unwind(AssertUnwindSafe(f));
    let max = alloc::take_max();
    let o = match r {
        Ok(Ok((a, b, c))) => Out::Ok(a, b, c),
        Ok(Err(e)) => Out::Err(e),
        Err(_) => Out::Panic(last_panic()),
    };
    (o, max)
}

/// In a forked process whose allocator refuses large requests.
fn forked(f: impl FnOnce() -> Got, patience_ms: u64) -> (Out, usize) {
    let p = page();
    for x in [&p.req, &p.kind, &p.a, &p.b, &p.c, &p.max, &p.len] {
        x.store(0, Relaxed);
    }
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            alloc::PROBE_AT.store(&p.req as *const AtomicUsize as *mut AtomicUsize, Relaxed);
            FILLED.store(0, Relaxed);
            LIMIT.store(1000, Relaxed);
            alloc::take_max();
            alloc::PROBE.store(1 << 20, Relaxed);
            let r = catch_unwind(AssertUnwindSafe(f));
            alloc::PROBE.store(0, Relaxed);
            p.max.store(alloc::take_max(), Relaxed);
            match r {
                Ok(Ok((a, b, c))) => {
                    p.a.store(a, Relaxed);
                    p.b.store(b, Relaxed);
                    p.c.store(c, Relaxed);
                    p.kind.store(100, Relaxed);
                }
                Ok(Err(e)) => p.kind.store(err_code(&e), Relaxed),
                Err(_) => {
                    let t = last_panic();
                    let t = &t.as_bytes()[..t.len().min(500)];
                    for (k, ch) in t.chunks(8).enumerate() {
                        let mut w = [0; 8];
                        w[..ch.len()].copy_from_slice(ch);
                        p.text[k].store(usize::from_le_bytes(w), Relaxed);
                    }
                    p.len.store(t.len(), Relaxed);
                    p.kind.store(200, Relaxed);
                }
            }
            _exit(0)
        }
        let t0 = std::time::Instant::now();
        let mut st = 0;
        let mut spins = 0u32;
        loop {
            if waitpid(pid, &mut st, 1) == pid {
                break;
            }
            if t0.elapsed().as_millis() as u64 > patience_ms {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
                return (Out::Running, 0);
            }
            spins += 1;
            if spins > 200 {
                std::thread::sleep(std::time::Duration::from_micros(100));
            } else {
                std::thread::yield_now();
            }
        }
        let max = p.max.load(Relaxed);
        if st & 0x7f != 0 {
            return (Out::Died(st & 0x7f), max);
        }
        let o = match (st >> 8) & 0xff {
            42 => Out::Alloc(p.req.load(Relaxed)),
            43 => Out::Filling,
            0 => match p.kind.load(Relaxed) {
                100 => Out::Ok(p.a.load(Relaxed), p.b.load(Relaxed), p.c.load(Relaxed)),
                200 => {
                    let n = p.len.load(Relaxed);
                    let mut b = vec![];
                    for w in &p.text {
                        b.extend_from_slice(&w.load(Relaxed).to_le_bytes());
                    }
                    Out::Panic(String::from_utf8_lossy(&b[..n]).into_owned())
                }
                k @ 1..=7 => Out::Err(err_of(k)),
                _ => Out::Died(-1),
            },
            c => Out::Died(c),
        };
        (o, max)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Err(u8),
    Fine { r: usize, c: usize, bytes: u128 },
}
const SO: Want = Want::Err(1);
const CO: Want = Want::Err(3);

fn want(r: usize, c: usize, size: usize) -> Want {
    let n = r as u128 * c as u128;
    if n > UMAX as u128 {
        SO
    } else if n * size as u128 > IMAX as u128 {
        CO
    } else {
        Want::Fine { r, c, bytes: n * size as u128 }
    }
}

/// Run one call and compare.
fn judge(what: &str, w: Want, s: &mut Stats, f: impl FnOnce() -> Got) -> Res {
    s.transition();
    s.state((what, format!("{w:?}")));
    match w {
        Want::Err(code) => {
            // the call must return at once; whatever it allocates is bookkeeping
            let e = err_of(code as usize);
            let (o, max) = forked(f, 30_000);
            s.outcome(&format!("{e:?}"));
            ensure!(o == Out::Err(e.clone()), "{what}: expected {e:?}, got {o:?}");
            ensure!(max < 1 << 16, "{what}: fails with {e:?} after allocating {max} bytes");
        }
        Want::Fine { r, c, bytes } => {
            let n = r * c;
            if bytes < 1 << 19 && n <= 500 {
                let (o, _) = inline(f);
                s.outcome("succeeded");
                ensure!(o == Out::Ok(r, c, n), "{what}: expected a {r}x{c} matrix, got {o:?}");
            } else {
                let (o, _) = forked(f, 400);
                match o {
                    Out::Ok(a, b, d) => {
                        s.outcome("succeeded");
                        ensure!((a, b, d) == (r, c, n), "{what}: expected {r}x{c}, got {a}x{b} with {d} elements");
                    }
                    Out::Alloc(q) => {
                        s.outcome("proceeds to allocate");
                        // what is already there need not be requested again
                        ensure!(q as u128 + 6 * bytes.div_ceil(n as u128) >= bytes && q <= IMAX, "{what}: a {r}x{c} matrix of {bytes} bytes requests {q} bytes");
                    }
                    Out::Filling => s.outcome("proceeds to fill"),
                    Out::Running => s.outcome("still working"),
                    o => bail!("{what}: a {r}x{c} matrix of {bytes} bytes is possible, got {o:?}"),
                }
            }
        }
    }
    Ok(())
}

/// As `judge`, for a call on an existing matrix that an error must leave alone.
fn still<T>(m: &Matrix<T>, d: (Ord_, usize, usize)) -> Res {
    coherent(m)?;
    ensure!(Ord_::of(m.order()) == d.0 && m.nrows() == d.1 && m.ncols() == d.2, "failed call left {}x{}", m.nrows(), m.ncols());
    Ok(())
}

// ---- alphabets -----------------------------------------------------------------
fn dedup(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v.dedup();
    v
}

/// Values where a product, or the byte size for elements of `s` bytes, crosses a limit.
fn values(s: usize, th: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 5, 6, 7, 8, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1];
    v.extend([1 << 61, 1 << 62, IMAX - 1, IMAX, IMAX + 1, IMAX + 2, UMAX - 1, UMAX]);
    v.extend([UMAX / 2, UMAX / 3, UMAX / 3 + 1, IMAX / 3, IMAX / 3 + 1]);
    if s > 0 {
        for lim in [IMAX, UMAX] {
            let q = lim / s;
            v.extend([q - 1, q, q.saturating_add(1), q.saturating_add(2)]);
            for d in [2, 3, 7] {
                v.extend([q / d, q / d + 1]);
            }
        }
    }
    if th {
        for k in [8, 15, 17, 24, 30, 33, 40, 48, 59, 60, 63] {
            v.extend([(1usize << k) - 1, 1 << k, (1usize << k) + 1]);
        }
        for k in 4..=12 {
            v.extend([UMAX / k, UMAX / k + 1, IMAX / k, IMAX / k + 1]);
        }
        v.extend([3037000499, 3037000500, 4294967295, 9, 10, 12, 100, 255, 256, 257]);
    }
    dedup(v)
}

/// Pairs whose product is `t` modulo 2^64 without being `t`.
fn wrapping_pairs(t: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for r in [3usize, 5, 7, 9, 11, 15, 255, (1 << 32) + 1, (1 << 33) - 1, UMAX, UMAX - 2, IMAX, IMAX + 2] {
        let mut inv = 1usize;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2usize.wrapping_sub(r.wrapping_mul(inv)));
        }
        let c = inv.wrapping_mul(t);
        if r as u128 * c as u128 > UMAX as u128 {
            v.push((r, c));
            v.push((c, r));
        }
    }
    for k in [1, 2, 3, 6] {
        if t % k == 0 {
            let (a, b) = (t / k, k);
            for h in [1usize << 63, 1 << 62] {
                let r = a.wrapping_add(h);
                if b.wrapping_mul(r) == t && r as u128 * b as u128 > UMAX as u128 {
                    v.push((r, b));
                    v.push((b, r));
                }
            }
        }
    }
    v.push((1 << 32, 1 << 32));
    v.push((1 << 33, 1 << 31));
    v.push((1 << 63, 2));
    v.sort();
    v.dedup();
    v
}

fn zeros<T: Copy>(r: usize, c: usize, o: Ord_, z: T) -> Matrix<T> {
    assert!(size_of::<T>() == 0);
    let n = r.checked_mul(c).unwrap();
    let mut m = Matrix::from_row(vec![z; n]);
    m.reshape((r, c)).unwrap();
    if o == Ord_::C {
        m.set_order_without_rearrangement(o.real());
        m.transpose();
    }
    m
}

/// r x c with at least one zero dimension, or small.
fn small<T: Default>(r: usize, c: usize, o: Ord_) -> Matrix<T> {
    let mut m = Matrix::with_default((r, c)).unwrap();
    m.set_order(o.real());
    m
}

// ---- per shape -------------------------------------------------------------------
const STARTS: [(Ord_, usize, usize); 6] = [(Ord_::R, 0, 0), (Ord_::R, 2, 3), (Ord_::C, 2, 3), (Ord_::C, 0, 5), (Ord_::R, 5, 0), (Ord_::C, 1, 1)];

fn shapes_of<const N: usize>(r: usize, c: usize, s: &mut Stats) -> Res {
    let w = want(r, c, N);
    judge(&format!("with_default(({r}, {c}))"), w, s, || Matrix::<B<N>>::with_default((r, c)).map(|m| dims(&m)))?;
    judge(&format!("with_value(Shape {r}x{c})"), w, s, || Matrix::<B<N>>::with_value(Shape::new(r, c), B([0; N])).map(|m| dims(&m)))?;
    judge(&format!("with_initializer([{r}, {c}])"), w, s, || {
        Matrix::<B<N>>::with_initializer([r, c], |_| {
            fill();
            B([0; N])
        })
        .map(|m| dims(&m))
    })?;
    for d in STARTS {
        judge(&format!("resize {d:?} -> ({r}, {c})"), w, s, || {
            let mut m = small::<B<N>>(d.1, d.2, d.0);
            FILLED.store(0, Relaxed);
            let e = m.resize((r, c)).map(|m| dims(m));
            if e.is_err() {
                if let Err(x) = still(&m, d) {
                    panic!("{}", x.msg);
                }
            } else if coherent(&m).is_err() || Ord_::of(m.order()) != d.0 {
                panic!("incoherent after resize");
            }
            e
        })?;
    }
    // matrix products whose result has this shape
    for o in ORDERS {
        for p in ORDERS {
            judge(&format!("{o:?}{r}x0 * {p:?}0x{c}"), w, s, || small::<MulB<N>>(r, 0, o).multiply(small::<MulB<N>>(0, c, p)).map(|m| dims(&m)))?;
        }
        judge(&format!("multiplication_like_operation {o:?}{r}x0, 0x{c}"), w, s, || {
            small::<MulB<N>>(r, 0, o)
                .multiplication_like_operation(small::<MulB<N>>(0, c, Ord_::R), |_, _| -> B<N> {
                    fill();
                    B([0; N])
                })
                .map(|m| dims(&m))
        })?;
        judge(&format!("{o:?}{r}x1 * 1x{c} of zero-sized operands"), w, s, || zeros(r, 1, o, Z::<N>).multiply(zeros(1, c, o.flip(), Z::<N>)).map(|m| dims(&m)))?;
        judge(&format!("multiplication_like_operation {o:?}{r}x1, 1x{c} of zero-sized operands"), w, s, || {
            zeros(r, 1, o, ZA)
                .multiplication_like_operation(zeros(1, c, o, ZA), |_, _| -> B<N> {
                    fill();
                    B([0; N])
                })
                .map(|m| dims(&m))
        })?;
    }
    Ok(())
}
/// An N-byte operand type for empty products.
#[derive(Clone)]
struct MulB<const N: usize>;
impl<const N: usize> Default for MulB<N> {
    fn default() -> Self {
        MulB
    }
}
impl<const N: usize> Mul for MulB<N> {
    type Output = B<N>;
    fn mul(self, _: MulB<N>) -> B<N> {
        B([0; N])
    }
}

fn reshapes(d: (Ord_, usize, usize), zst: bool, r: usize, c: usize, s: &mut Stats) -> Res {
    s.transition();
    s.state(("reshape", d, zst, r, c));
    let fits = r as u128 * c as u128 == d.1 as u128 * d.2 as u128;
    let bad = |g: &dyn std::fmt::Debug| format!("reshape {d:?} -> ({r}, {c}): got {g:?}, same size: {fits}");
    macro_rules! go {
        ($m:expr) => {{
            let mut m = $m;
            alloc::take_max();
            let g = match catch_unwind(AssertUnwindSafe(|| m.reshape((r, c)).map(|m| dims(m)))) {
                Ok(g) => g,
                Err(_) => bail!("reshape {d:?} -> ({r}, {c}) panics: {}", last_panic()),
            };
            ensure!(alloc::take_max() < 4096, "reshape allocates");
            if fits {
                ensure!(g == Ok((r, c, d.1 * d.2)), "{}", bad(&g));
                still(&m, (d.0, r, c))?;
            } else {
                ensure!(g == Err(Error::SizeMismatch), "{}", bad(&g));
                still(&m, d)?;
            }
        }};
    }
    if zst {
        go!(zeros(d.1, d.2, d.0, ZA));
    } else {
        go!(small::<u64>(d.1, d.2, d.0));
    }
    s.outcome(if fits { "reshaped" } else { "SizeMismatch" });
    Ok(())
}

fn mapping<const N: usize>(d: (Ord_, usize, usize), s: &mut Stats) -> Res {
    let (o, r, c) = d;
    let n = r * c;
    let w = if n as u128 * N as u128 > IMAX as u128 { CO } else { Want::Fine { r, c, bytes: n as u128 * N as u128 } };
    let b = || -> B<N> {
        fill();
        B([0; N])
    };
    let mk = || zeros(r, c, o, Z::<N>);
    let other = || zeros(r, c, o.flip(), Z::<N>);
    let t = |f: &str| format!("{f} of {d:?} to {N}-byte elements");
    judge(&t("map"), w, s, || mk().map(|_| b()).map(|m| dims(&m)))?;
    judge(&t("map_ref"), w, s, || mk().map_ref(|_| b()).map(|m| dims(&m)))?;
    judge(&t("par_map"), w, s, || mk().par_map(|_| b()).map(|m| dims(&m)))?;
    judge(&t("par_map_ref"), w, s, || mk().par_map_ref(|_| b()).map(|m| dims(&m)))?;
    judge(&t("scalar_operation"), w, s, || mk().scalar_operation(&1u8, |_, _| b()).map(|m| dims(&m)))?;
    judge(&t("scalar_operation_consume_self"), w, s, || mk().scalar_operation_consume_self(&1u8, |_, _| b()).map(|m| dims(&m)))?;
    for flip in [false, true] {
        let rhs = || if flip { other() } else { mk() };
        let t = |f: &str| format!("{f} of {d:?} to {N}-byte elements, orders differ: {flip}");
        judge(&t("elementwise_operation"), w, s, || mk().elementwise_operation(&rhs(), |_, _| b()).map(|m| dims(&m)))?;
        judge(&t("elementwise_operation_consume_self"), w, s, || mk().elementwise_operation_consume_self(&rhs(), |_, _| b()).map(|m| dims(&m)))?;
        macro_rules! named {
            ($($a:ident $b:ident),*) => {$(
                judge(&t(stringify!($a)), w, s, || mk().$a(&rhs()).map(|m| dims(&m)))?;
                judge(&t(stringify!($b)), w, s, || mk().$b(&rhs()).map(|m| dims(&m)))?;
            )*};
        }
        named!(
            elementwise_add elementwise_add_consume_self,
            elementwise_sub elementwise_sub_consume_self,
            elementwise_mul elementwise_mul_consume_self,
            elementwise_div elementwise_div_consume_self,
            elementwise_rem elementwise_rem_consume_self
        );
    }
    Ok(())
}

/// Mapping from real, small matrices never fails (and keeps the shape).
fn mapping_small(d: (Ord_, usize, usize), s: &mut Stats) -> Res {
    let (o, r, c) = d;
    let w = Want::Fine { r, c, bytes: (r * c) as u128 };
    let mk = || {
        let mut m = Matrix::<u8>::with_value((r, c), 1).unwrap();
        m.set_order(o.real());
        m
    };
    judge(&format!("map {d:?} to u8"), w, s, || mk().map(|x| x).map(|m| dims(&m)))?;
    judge(&format!("map {d:?} to ()"), w, s, || mk().map(|_| ()).map(|m| dims(&m)))?;
    judge(&format!("map_ref {d:?} to [u64; 4]"), w, s, || mk().map_ref(|_| [0u64; 4]).map(|m| dims(&m)))?;
    judge(&format!("par_map {d:?} to [u64; 4]"), w, s, || mk().par_map(|_| [0u64; 4]).map(|m| dims(&m)))?;
    judge(&format!("par_map_ref {d:?} to u128"), w, s, || mk().par_map_ref(|_| 0u128).map(|m| dims(&m)))?;
    judge(&format!("scalar_operation {d:?}"), w, s, || mk().scalar_operation(&1u64, |_, b| *b).map(|m| dims(&m)))?;
    judge(&format!("elementwise_operation {d:?}"), w, s, || mk().elementwise_operation(&mk(), |_, _| 0u128).map(|m| dims(&m)))?;
    Ok(())
}

fn conversions(k: usize, n: usize, s: &mut Stats) -> Res {
    // k rows of n zero-sized elements
    let w = match want(k, n, 0) {
        Want::Fine { .. } => Want::Fine { r: k, c: n, bytes: 0 },
        e => e,
    };
    let rows = || -> Vec<Vec<ZA>> { (0..k).map(|_| vec![ZA; n]).collect() };
    judge(&format!("TryFrom<Vec<Vec<_>>> {k}x{n}"), w, s, || Matrix::<ZA>::try_from(rows()).map(|m| dims(&m)))?;
    judge(&format!("TryFrom<&[Vec<_>]> {k}x{n}"), w, s, || Matrix::<ZA>::try_from(rows().as_slice()).map(|m| dims(&m)))?;
    macro_rules! arr {
        ($($k:literal)*) => {
            match k {
                $($k => judge(&format!("TryFrom<[Vec<_>; {k}]> of {n}"), w, s, || {
                    let a: [Vec<ZA>; $k] = std::array::from_fn(|_| vec![ZA; n]);
                    Matrix::<ZA>::try_from(a).map(|m| dims(&m))
                })?,)*
                _ => {}
            }
        };
    }
    arr!(1 2 3 4 5);
    Ok(())
}

/// Ragged rows are ragged before they are too many.
fn ragged(lens: Vec<usize>, s: &mut Stats) -> Res {
    if lens.iter().all(|n| *n == lens[0]) {
        return Ok(());
    }
    let w = Want::Err(4);
    let rows = || -> Vec<Vec<ZA>> { lens.iter().map(|n| vec![ZA; *n]).collect() };
    judge(&format!("TryFrom<Vec<Vec<_>>> of lengths {lens:?}"), w, s, || Matrix::<ZA>::try_from(rows()).map(|m| dims(&m)))?;
    judge(&format!("TryFrom<&[Vec<_>]> of lengths {lens:?}"), w, s, || Matrix::<ZA>::try_from(rows().as_slice()).map(|m| dims(&m)))?;
    if lens.len() == 2 {
        judge(&format!("TryFrom<[Vec<_>; 2]> of lengths {lens:?}"), w, s, || {
            let a: [Vec<ZA>; 2] = [vec![ZA; lens[0]], vec![ZA; lens[1]]];
            Matrix::<ZA>::try_from(a).map(|m| dims(&m))
        })?;
    }
    Ok(())
}

fn sizes<const N: usize>(cx: &mut Cx) {
    let th = cx.thorough;
    let v = values(N, th);
    let mut pairs: Vec<(usize, usize)> = v.iter().flat_map(|a| v.iter().map(move |b| (*a, *b))).collect();
    for t in [0usize, 1, 6, 12] {
        pairs.extend(wrapping_pairs(t));
    }
    if N > 0 {
        // byte sizes that wrap around to small numbers
        for t in [0u128, 1, 8, 48] {
            let c = ((1u128 << 64) + t).div_ceil(N as u128);
            if c <= UMAX as u128 {
                pairs.push((c as usize, 1));
                pairs.push((1, c as usize));
            }
        }
    }
    pairs.sort();
    pairs.dedup();
    for (r, c) in pairs {
        cx.case(|| format!("{N}-byte elements, shape {r}x{c}"), |s| shapes_of::<N>(r, c, s));
    }
    let mut v = v;
    if N == 0 {
        v.retain(|n| *n < 10 || *n > UMAX - 4);
    }
    for n in v {
        for o in ORDERS {
            for (r, c) in [(n, 1), (1, n)] {
                cx.case(|| format!("mapping {n} to {N}-byte elements"), |s| mapping::<N>((o, r, c), s));
            }
            for k in [2, 3] {
                if n % k == 0 && n > 3 {
                    cx.case(|| format!("mapping {n} to {N}-byte elements"), |s| mapping::<N>((o, k, n / k), s));
                }
            }
        }
    }
}

fn body(cx: &mut Cx) {
    let th = cx.thorough;
    sizes::<0>(cx);
    sizes::<1>(cx);
    sizes::<3>(cx);
    sizes::<8>(cx);
    sizes::<4096>(cx);
    if th {
        sizes::<2>(cx);
        sizes::<4>(cx);
        sizes::<7>(cx);
        sizes::<12>(cx);
        sizes::<16>(cx);
        sizes::<24>(cx);
        sizes::<255>(cx);
        sizes::<65536>(cx);
    }
    let v = dedup([values(0, th), values(8, th)].concat());
    for d in STARTS.into_iter().chain([(Ord_::R, 1, 6), (Ord_::C, 4, 3)]) {
        let mut p: Vec<(usize, usize)> = v.iter().flat_map(|a| v.iter().map(move |b| (*a, *b))).collect();
        p.extend(wrapping_pairs(d.1 * d.2));
        for a in 0..=12 {
            for b in 0..=12 {
                p.push((a, b));
            }
        }
        p.sort();
        p.dedup();
        for chunk in p.chunks(64) {
            cx.case(
                || format!("reshape {d:?} to {} shapes from {:?}", chunk.len(), chunk[0]),
                |s| chunk.iter().try_for_each(|(r, c)| reshapes(d, false, *r, *c, s)),
            );
        }
    }
    for d in [(UMAX, 1), (1, UMAX), (UMAX / 3, 3), (5, UMAX / 5), (1 << 63, 1), (1 << 32, (1 << 32) - 1), (IMAX, 2), (1 << 31, 1 << 32)] {
        for o in ORDERS {
            let mut p: Vec<(usize, usize)> = v.iter().flat_map(|a| v.iter().map(move |b| (*a, *b))).collect();
            p.extend(wrapping_pairs(d.0 * d.1));
            p.push((d.1, d.0));
            cx.case(|| format!("reshape zero-sized {o:?}{d:?}"), |s| p.iter().try_for_each(|(r, c)| reshapes((o, d.0, d.1), true, *r, *c, s)));
        }
    }
    for d in shapes(if th { 6 } else { 4 }) {
        cx.case(|| format!("mapping {d:?}"), |s| mapping_small(d, s));
    }
    let lens = [0, 1, 2, 3, 5, 100, UMAX / 5, UMAX / 5 + 1, UMAX / 4, UMAX / 4 + 1, UMAX / 3, UMAX / 3 + 1, UMAX / 2, UMAX / 2 + 1, IMAX + 1, UMAX - 1, UMAX];
    for k in 1..=5 {
        for n in lens {
            cx.case(|| format!("conversion of {k} rows of {n}"), |s| conversions(k, n, s));
        }
    }
    let few = [0, 1, 2, UMAX / 2, UMAX / 2 + 1, UMAX];
    for a in few {
        for b in few {
            cx.case(|| format!("ragged {a},{b}"), |s| ragged(vec![a, b], s));
            for c in few {
                cx.case(|| format!("ragged {a},{b},{c}"), |s| ragged(vec![a, b, c], s));
            }
        }
    }
    for r in v.clone() {
        cx.case(
            || format!("Shape::size {r}x.."),
            |s| {
                for c in &v {
                    s.transition();
                    let p = r as u128 * *c as u128;
                    let w = if p > UMAX as u128 { Err(Error::SizeOverflow) } else { Ok(p as usize) };
                    ensure!(Shape::new(r, *c).size() == w, "Shape::new({r}, {c}).size() = {:?}", Shape::new(r, *c).size());
                }
                Ok(())
            },
        );
    }
}

fn main() {
    run(
        Meta {
            prop: "C08",
            level: "model_checking",
            rule: "state = (call, expected outcome); transition = one call on the real code compared with u128 arithmetic: exact error, no large request to the allocator and an unchanged receiver when it must fail; exact shape, or a request of a sufficient and legal size, when it must succeed",
            bounds: |t| {
                if t {
                    "13 element sizes (0..65536 bytes) x all pairs of 60-130 boundary values (0, 1, limits divided by element size +-1, powers of two +-1, wrapping products); reshape from 8 small and 16 huge shapes to all pairs".into()
                } else {
                    "element sizes 0, 1, 3, 8, 4096 x all pairs of about 26-40 boundary values (0, 1, limits divided by element size +-1, powers of two +-1, wrapping products); reshape from 8 small and 16 huge shapes to all pairs".into()
                }
            },
            assumptions: &[
                "calls that would need more than 1 MiB stop at the allocator request, which is taken as success of the size checks",
                "operators (+, *, ...) panic where the named methods return an error, as documented; the infallible From conversions are outside the statement",
            ],
            stall_s: 120,
        },
        body,
    )
}
