//! Instrumented element types, the drop ledger and fault injection.
use std::fmt;
use std::ops::*;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub const DEFAULT: u32 = 0x0DEF_0001;
const MAGIC: u64 = 0x5EED_CAFE_F00D_BEEF;

// ---- user-code ticks ------------------------------------------------------
static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static FAULT_AT: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicBool = AtomicBool::new(false);
static KINDS: Mutex<[u64; 16]> = Mutex::new([0; 16]);
pub const KIND_NAMES: [&str; 16] =
    ["default", "clone", "drop", "eq", "fmt", "op", "closure", "index", "iter", "opassign", "neg", "", "", "", "", ""];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Default = 0,
    Clone,
    Drop,
    Eq,
    Fmt,
    Op,
    Closure,
    Index,
    Iter,
    OpAssign,
    Neg,
}

pub struct Injected;

/// Called at the start of (or, for drops, right after) every piece of user code.
pub fn tick(kind: Kind) {
    if !ARMED.load(Relaxed) || std::thread::panicking() {
        return; // a second panic while unwinding is an abort by definition
    }
    if kind == Kind::Closure && rayon_core::mc::active() {
        rayon_core::mc::client_point();
    }
    let c = CALLS.fetch_add(1, Relaxed) + 1;
    KINDS.lock().unwrap_or_else(|e| e.into_inner())[kind as usize] += 1;
    if c == FAULT_AT.load(Relaxed) {
        FIRED.store(true, Relaxed);
        std::panic::panic_any(Injected);
    }
}

/// Count user-code calls from now on; panic at the `k`-th one (0: never).
pub fn arm(k: u64) {
    CALLS.store(0, Relaxed);
    FAULT_AT.store(k, Relaxed);
    FIRED.store(false, Relaxed);
    *KINDS.lock().unwrap_or_else(|e| e.into_inner()) = [0; 16];
    ARMED.store(true, Relaxed);
}
/// Stop; returns (calls, fired).
pub fn disarm() -> (u64, bool) {
    ARMED.store(false, Relaxed);
    (CALLS.load(Relaxed), FIRED.load(Relaxed))
}
pub fn kinds() -> [u64; 16] {
    *KINDS.lock().unwrap_or_else(|e| e.into_inner())
}

// ---- ledger ---------------------------------------------------------------
struct Ledger {
    state: Vec<u8>,
    live: i64,
    clones: u64,
    drops: u64,
    defaults: u64,
    made: u64,
    error: Option<String>,
}
static LEDGER: Mutex<Ledger> =
    Mutex::new(Ledger { state: Vec::new(), live: 0, clones: 0, drops: 0, defaults: 0, made: 0, error: None });
static ZLIVE: AtomicI64 = AtomicI64::new(0);
static ZCLONES: AtomicU64 = AtomicU64::new(0);
static ZDROPS: AtomicU64 = AtomicU64::new(0);
static PCLONES: AtomicU64 = AtomicU64::new(0);
static PDEFAULTS: AtomicU64 = AtomicU64::new(0);
static ZUNDER: AtomicBool = AtomicBool::new(false);

fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    f(&mut LEDGER.lock().unwrap_or_else(|e| e.into_inner()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Counts {
    pub live: i64,
    pub clones: u64,
    pub drops: u64,
    pub defaults: u64,
    pub made: u64,
}

pub fn counts() -> Counts {
    let z = ZLIVE.load(Relaxed);
    ledger(|l| Counts {
        live: l.live + z,
        clones: l.clones + ZCLONES.load(Relaxed) + PCLONES.load(Relaxed),
        drops: l.drops + ZDROPS.load(Relaxed),
        defaults: l.defaults + PDEFAULTS.load(Relaxed),
        made: l.made,
    })
}

/// Forget everything: call at the start of a case.
pub fn reset() {
    ARMED.store(false, Relaxed);
    ledger(|l| {
        l.state.clear();
        l.live = 0;
        l.clones = 0;
        l.drops = 0;
        l.defaults = 0;
        l.made = 0;
        l.error = None;
    });
    ZLIVE.store(0, Relaxed);
    ZCLONES.store(0, Relaxed);
    PCLONES.store(0, Relaxed);
    PDEFAULTS.store(0, Relaxed);
    ZDROPS.store(0, Relaxed);
    ZUNDER.store(false, Relaxed);
}

/// First ledger error (double drop, use of a dead or never-created element).
pub fn error() -> Result<(), String> {
    if ZUNDER.load(Relaxed) {
        return Err("a zero-sized element was dropped more often than created".into());
    }
    ledger(|l| match &l.error {
        None => Ok(()),
        Some(e) => Err(e.clone()),
    })
}

/// No ledger error and nothing left alive.
pub fn finish() -> Result<(), String> {
    error()?;
    let n = counts().live;
    if n == 0 { Ok(()) } else { Err(format!("{n} element(s) never dropped")) }
}

fn fail(l: &mut Ledger, m: String) {
    if l.error.is_none() {
        l.error = Some(m);
    }
}

// ---- free algebra ---------------------------------------------------------
/// Injective-in-practice combination, neither commutative nor associative.
pub fn mix(op: u32, a: u32, b: u32) -> u32 {
    let mut x = (a as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (op as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_add((b as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    (x >> 31) as u32
}
pub const ADD: u32 = 1;
pub const SUB: u32 = 2;
pub const MUL: u32 = 3;
pub const DIV: u32 = 4;
pub const REM: u32 = 5;
pub const NEG: u32 = 6;
pub const FN1: u32 = 7; // map-like closures
pub const FN2: u32 = 8; // elementwise/scalar closures
pub const FN3: u32 = 9; // multiplication-like closures

pub trait Elem:
    Sized
    + Clone
    + Default
    + PartialEq
    + fmt::Debug
    + fmt::Display
    + Send
    + Sync
    + 'static
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + Neg<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
{
    const NAME: &'static str;
    const TRACKED: bool;
    fn make(v: u32) -> Self;
    fn val(&self) -> u32;
    /// Value as this type can store it.
    fn norm(v: u32) -> u32;
    /// Identity of the element object (moves keep it, clones do not), if tracked.
    fn id(&self) -> u64;
    fn set(&mut self, v: u32);
}

// ---- tracked --------------------------------------------------------------
#[repr(C)]
pub struct Tr {
    magic: u64,
    id: u64,
    val: u32,
}
impl Tr {
    fn at(id: u64, val: u32) -> Tr {
        Tr { magic: MAGIC ^ id, id, val }
    }
    fn sane(&self) -> Option<u64> {
        (self.magic == MAGIC ^ self.id).then_some(self.id)
    }
    fn ident(&self) -> u64 {
        self.id
    }
}

/// Eight bytes with drop glue: the size of a pointer or an `f64`.
#[repr(C, align(8))]
pub struct Tr8 {
    tag: u32,
    val: u32,
}
impl Tr8 {
    fn at(id: u64, val: u32) -> Tr8 {
        Tr8 { tag: id as u32 ^ 0x5EED_C0DE, val }
    }
    fn sane(&self) -> Option<u64> {
        Some(self.ident())
    }
    fn ident(&self) -> u64 {
        (self.tag ^ 0x5EED_C0DE) as u64
    }
}

/// More than a cache line, with drop glue; every word is checked.
#[repr(C)]
pub struct TrB {
    words: [u64; 9],
    id: u64,
    val: u32,
    tail: u32,
}
impl TrB {
    fn at(id: u64, val: u32) -> TrB {
        TrB { words: std::array::from_fn(|i| MAGIC.rotate_left(i as u32) ^ id), id, val, tail: !(id as u32) }
    }
    fn sane(&self) -> Option<u64> {
        let good = self.words.iter().enumerate().all(|(i, w)| *w == MAGIC.rotate_left(i as u32) ^ self.id) && self.tail == !(self.id as u32);
        good.then_some(self.id)
    }
    fn ident(&self) -> u64 {
        self.id
    }
}

macro_rules! tracked {
    ($n:ident, $s:expr) => {
        impl $n {
            fn new(v: u32) -> $n {
                ledger(|l| {
                    let id = l.state.len() as u64;
                    l.state.push(1);
                    l.live += 1;
                    l.made += 1;
                    $n::at(id, v)
                })
            }
            fn check(&self, what: &str) {
                ledger(|l| match self.sane().filter(|id| (*id as usize) < l.state.len()) {
                    None => fail(l, format!("{what} of memory that holds no element")),
                    Some(id) if l.state[id as usize] != 1 => fail(l, format!("{what} of element #{id} after it was dropped")),
                    _ => {}
                })
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                let ok = ledger(|l| {
                    l.drops += 1;
                    let Some(id) = self.sane().filter(|id| (*id as usize) < l.state.len()) else {
                        fail(l, "drop of memory that holds no element".into());
                        return false;
                    };
                    let s = &mut l.state[id as usize];
                    if *s != 1 {
                        fail(l, format!("element #{id} dropped twice"));
                        return false;
                    }
                    *s = 2;
                    l.live -= 1;
                    true
                });
                if ok {
                    tick(Kind::Drop);
                }
            }
        }
        impl Clone for $n {
            fn clone(&self) -> $n {
                self.check("clone");
                tick(Kind::Clone);
                ledger(|l| l.clones += 1);
                $n::new(self.val)
            }
        }
        impl Default for $n {
            fn default() -> $n {
                tick(Kind::Default);
                ledger(|l| l.defaults += 1);
                $n::new(DEFAULT)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &$n) -> bool {
                self.check("comparison");
                o.check("comparison");
                tick(Kind::Eq);
                self.val == o.val
            }
        }
        impl Elem for $n {
            const NAME: &'static str = $s;
            const TRACKED: bool = true;
            fn make(v: u32) -> $n {
                $n::new(v)
            }
            fn val(&self) -> u32 {
                self.check("read");
                self.val
            }
            fn norm(v: u32) -> u32 {
                v
            }
            fn id(&self) -> u64 {
                self.ident()
            }
            fn set(&mut self, v: u32) {
                self.check("write");
                self.val = v;
            }
        }
    };
}
tracked!(Tr, "Tr24");
tracked!(Tr8, "Tr8");
tracked!(TrB, "Tr88");

// ---- TrZ ------------------------------------------------------------------
pub struct TrZ(());
impl TrZ {
    fn new() -> TrZ {
        ZLIVE.fetch_add(1, Relaxed);
        TrZ(())
    }
}
impl Drop for TrZ {
    fn drop(&mut self) {
        ZDROPS.fetch_add(1, Relaxed);
        if ZLIVE.fetch_sub(1, Relaxed) <= 0 {
            ZUNDER.store(true, Relaxed);
        }
        tick(Kind::Drop);
    }
}
impl Clone for TrZ {
    fn clone(&self) -> TrZ {
        tick(Kind::Clone);
        ZCLONES.fetch_add(1, Relaxed);
        TrZ::new()
    }
}
impl Default for TrZ {
    fn default() -> TrZ {
        tick(Kind::Default);
        PDEFAULTS.fetch_add(1, Relaxed);
        TrZ::new()
    }
}
impl PartialEq for TrZ {
    fn eq(&self, _: &TrZ) -> bool {
        tick(Kind::Eq);
        true
    }
}
impl Elem for TrZ {
    const NAME: &'static str = "TrZ0";
    const TRACKED: bool = true;
    fn make(_: u32) -> TrZ {
        TrZ::new()
    }
    fn val(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
    fn id(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u32) {}
}

// ---- plain ----------------------------------------------------------------
macro_rules! plain {
    ($(#[$at:meta])? $n:ident, $t:ty, $s:expr) => {
        $(#[$at])?
        pub struct $n(pub $t);
        impl Clone for $n {
            fn clone(&self) -> Self {
                tick(Kind::Clone);
                PCLONES.fetch_add(1, Relaxed);
                $n(self.0)
            }
        }
        impl Default for $n {
            fn default() -> Self {
                tick(Kind::Default);
                PDEFAULTS.fetch_add(1, Relaxed);
                $n(DEFAULT as $t)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                tick(Kind::Eq);
                self.0 == o.0
            }
        }
        impl Elem for $n {
            const NAME: &'static str = $s;
            const TRACKED: bool = false;
            fn make(v: u32) -> Self {
                $n(v as $t)
            }
            fn val(&self) -> u32 {
                self.0 as u32
            }
            fn norm(v: u32) -> u32 {
                v as $t as u32
            }
            fn id(&self) -> u64 {
                0
            }
            fn set(&mut self, v: u32) {
                self.0 = v as $t
            }
        }
    };
}
plain!(P4, u32, "P4");
plain!(P1, u8, "P1");
plain!(P2, u16, "P2");
plain!(P16, u128, "P16");
plain!(P8, u64, "P8");
plain!(#[repr(align(64))] P64, u64, "P64");

/// Zero-sized, alignment 64, no drop glue.
#[repr(align(64))]
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct ZA;

macro_rules! binop {
    ($ty:ty, $($tr:ident $f:ident $tra:ident $fa:ident $code:expr;)*) => {$(
        impl $tr<$ty> for $ty {
            type Output = $ty;
            fn $f(self, o: $ty) -> $ty {
                tick(Kind::Op);
                <$ty>::make(mix($code, self.val(), o.val()))
            }
        }
        impl<'a> $tr<&'a $ty> for $ty {
            type Output = $ty;
            fn $f(self, o: &'a $ty) -> $ty {
                tick(Kind::Op);
                <$ty>::make(mix($code, self.val(), o.val()))
            }
        }
        impl<'a> $tr<$ty> for &'a $ty {
            type Output = $ty;
            fn $f(self, o: $ty) -> $ty {
                tick(Kind::Op);
                <$ty>::make(mix($code, self.val(), o.val()))
            }
        }
        impl<'a, 'b> $tr<&'b $ty> for &'a $ty {
            type Output = $ty;
            fn $f(self, o: &'b $ty) -> $ty {
                tick(Kind::Op);
                <$ty>::make(mix($code, self.val(), o.val()))
            }
        }
        impl $tra<$ty> for $ty {
            fn $fa(&mut self, o: $ty) {
                tick(Kind::OpAssign);
                let v = mix($code, self.val(), o.val());
                self.set(v);
            }
        }
        impl<'a> $tra<&'a $ty> for $ty {
            fn $fa(&mut self, o: &'a $ty) {
                tick(Kind::OpAssign);
                let v = mix($code, self.val(), o.val());
                self.set(v);
            }
        }
    )*};
}
macro_rules! algebra {
    ($($ty:ty)*) => {$(
        binop!($ty,
            Add add AddAssign add_assign ADD;
            Sub sub SubAssign sub_assign SUB;
            Mul mul MulAssign mul_assign MUL;
            Div div DivAssign div_assign DIV;
            Rem rem RemAssign rem_assign REM;
        );
        impl Neg for $ty {
            type Output = $ty;
            fn neg(self) -> $ty {
                tick(Kind::Neg);
                <$ty>::make(mix(NEG, self.val(), 0))
            }
        }
        impl<'a> Neg for &'a $ty {
            type Output = $ty;
            fn neg(self) -> $ty {
                tick(Kind::Neg);
                <$ty>::make(mix(NEG, self.val(), 0))
            }
        }
        impl fmt::Display for $ty {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick(Kind::Fmt);
                write!(f, "{}", self.val())
            }
        }
        impl fmt::Debug for $ty {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick(Kind::Fmt);
                write!(f, "{}", self.val())
            }
        }
    )*};
}
algebra!(Tr Tr8 TrB TrZ P4 P1 P2 P8 P16 P64);
