//! Global allocator with red zones, poisoning and refusal of absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Canary;

pub const HUGE: usize = 1 << 34;
static BROKEN: AtomicUsize = AtomicUsize::new(0);
static HUGE_REQ: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static MAX_REQ: AtomicUsize = AtomicUsize::new(0);

/// When set, a request of at least this many bytes ends the process with
/// code 42 after noting the size through this pointer (forked probes only).
pub static PROBE: AtomicUsize = AtomicUsize::new(0);
pub static PROBE_AT: std::sync::atomic::AtomicPtr<AtomicUsize> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

unsafe extern "C" {
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

// ---- allocations on pages of their own --------------------------------------
const PAGE: usize = 4096;
const PAGED_MAX: usize = 16;
struct Region {
    map: AtomicUsize,
    len: AtomicUsize,
    body: AtomicUsize,
}
static REGIONS: [Region; PAGED_MAX] = [const { Region { map: AtomicUsize::new(0), len: AtomicUsize::new(0), body: AtomicUsize::new(0) } }; PAGED_MAX];
static PAGED: AtomicUsize = AtomicUsize::new(0);
static REGIONS_USED: AtomicUsize = AtomicUsize::new(0);

/// While on, every allocation ends right before an inaccessible page (and
/// begins right after one, up to rounding).
pub fn paged<R>(f: impl FnOnce() -> R) -> R {
    PAGED.store(1, Relaxed);
    let r = f();
    PAGED.store(0, Relaxed);
    r
}

unsafe fn paged_alloc(layout: Layout) -> *mut u8 {
    let data = layout.size().next_multiple_of(PAGE);
    for r in &REGIONS {
        if r.body.load(Relaxed) == 0 {
            unsafe {
                let p = mmap(std::ptr::null_mut(), data + 2 * PAGE, 0, 0x22, -1, 0);
                if p as isize == -1 || mprotect(p.add(PAGE), data, 3) != 0 {
                    return std::ptr::null_mut();
                }
                let body = (p as usize + PAGE + data - layout.size()) / layout.align() * layout.align();
                r.map.store(p as usize, Relaxed);
                r.len.store(data, Relaxed);
                r.body.store(body, Relaxed);
                REGIONS_USED.fetch_add(1, Relaxed);
                return body as *mut u8;
            }
        }
    }
    std::ptr::null_mut()
}

fn region(body: usize) -> Option<&'static Region> {
    if REGIONS_USED.load(Relaxed) == 0 {
        return None;
    }
    REGIONS.iter().find(|r| r.body.load(Relaxed) == body)
}

/// The paged allocations alive.
pub fn regions() -> impl Iterator<Item = usize> {
    REGIONS.iter().map(|r| r.body.load(Relaxed)).filter(|&b| b != 0)
}

/// Make the paged allocation starting at `body` inaccessible, or accessible
/// again. Any access in between ends the process.
pub fn lock(body: usize, on: bool) -> bool {
    let Some(r) = region(body) else { return false };
    unsafe { mprotect((r.map.load(Relaxed) + PAGE) as *mut u8, r.len.load(Relaxed), if on { 0 } else { 3 }) == 0 }
}
#[cold]
fn probed(size: usize) -> ! {
    unsafe {
        let p = PROBE_AT.load(Relaxed);
        if !p.is_null() {
            (*p).store(size, Relaxed);
        }
        _exit(42)
    }
}

const ZONE: usize = 32;
const BYTE: u8 = 0xC3;

fn pad(layout: Layout) -> usize {
    ZONE.max(layout.align())
}

unsafe fn fill(p: *mut u8, size: usize, byte: u8) {
    unsafe {
        if size <= 1 << 16 {
            p.write_bytes(byte, size);
        } else {
            p.write_bytes(byte, 1 << 15);
            p.add(size - (1 << 15)).write_bytes(byte, 1 << 15);
        }
    }
}

unsafe impl GlobalAlloc for Canary {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        ALLOCS.fetch_add(1, Relaxed);
        MAX_REQ.fetch_max(size, Relaxed);
        let t = PROBE.load(Relaxed);
        if t != 0 && size >= t {
            probed(size);
        }
        if size >= HUGE {
            HUGE_REQ.fetch_max(size, Relaxed);
            return std::ptr::null_mut();
        }
        if PAGED.load(Relaxed) != 0 && size > 0 {
            LIVE.fetch_add(1, Relaxed);
            return unsafe { paged_alloc(layout) };
        }
        let pad = pad(layout);
        unsafe {
            let l = Layout::from_size_align_unchecked(size + 2 * pad, layout.align().max(16));
            let p = System.alloc(l);
            if p.is_null() {
                return p;
            }
            LIVE.fetch_add(1, Relaxed);
            let body = p.add(pad);
            body.sub(ZONE).write_bytes(BYTE, ZONE);
            body.add(size).write_bytes(BYTE, ZONE);
            fill(body, size, 0xA5);
            body
        }
    }
    unsafe fn dealloc(&self, body: *mut u8, layout: Layout) {
        if let Some(r) = region(body as usize) {
            LIVE.fetch_sub(1, Relaxed);
            REGIONS_USED.fetch_sub(1, Relaxed);
            r.body.store(0, Relaxed);
            unsafe { munmap(r.map.load(Relaxed) as *mut u8, r.len.load(Relaxed) + 2 * PAGE) };
            return;
        }
        let pad = pad(layout);
        let size = layout.size();
        unsafe {
            for i in 0..ZONE {
                if *body.sub(ZONE).add(i) != BYTE || *body.add(size + i) != BYTE {
                    BROKEN.fetch_add(1, Relaxed);
                    break;
                }
            }
            fill(body, size, 0xDD);
            body.sub(ZONE).write_bytes(0xDD, ZONE);
            LIVE.fetch_sub(1, Relaxed);
            let l = Layout::from_size_align_unchecked(size + 2 * pad, layout.align().max(16));
            System.dealloc(body.sub(pad), l);
        }
    }
}

/// Number of red-zone violations so far.
pub fn broken() -> usize {
    BROKEN.load(Relaxed)
}
/// Largest refused request since the last call (0: none).
pub fn take_huge() -> usize {
    HUGE_REQ.swap(0, Relaxed)
}
pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
pub fn take_max() -> usize {
    MAX_REQ.swap(0, Relaxed)
}
