//! The simulator's allocator: knows live blocks (for bit flips) and looks at blocks being freed (for secrets).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};

pub struct SimAlloc;

const N: usize = 8192;
static TRACK: AtomicBool = AtomicBool::new(false);
static SCAN: AtomicBool = AtomicBool::new(false);
static mut TABLE: [(usize, usize); N] = [(0, 0); N];
static HIGH: AtomicUsize = AtomicUsize::new(0);

static SECRETS: AtomicPtr<Words> = AtomicPtr::new(std::ptr::null_mut());
static HITS: AtomicUsize = AtomicUsize::new(0);
static mut HIT: (usize, usize) = (0, 0);
static SCANNED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    /// only blocks allocated/freed by a thread while this is set are tracked/scanned
    static LIB: Cell<bool> = const { Cell::new(false) };
}

pub fn in_lib() -> bool {
    LIB.try_with(|l| l.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if SCAN.load(Ordering::Relaxed) && !p.is_null() {
            // what the simulator left there before must not be taken for the library's
            unsafe { std::ptr::write_bytes(p, 0xee, l.size()) };
        }
        if TRACK.load(Ordering::Relaxed) && in_lib() {
            track(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(Ordering::Relaxed) {
            untrack(p as usize);
        }
        if SCAN.load(Ordering::Relaxed) && in_lib() {
            scan_freed(p, l.size());
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if TRACK.load(Ordering::Relaxed) && in_lib() {
            track(p as usize, l.size());
        }
        p
    }
    // realloc: default (alloc + copy + dealloc), so that moved-from blocks are seen
}

fn track(p: usize, n: usize) {
    // SAFETY: tracking is only enabled while one thread runs
    let t = unsafe { &mut *(&raw mut TABLE) };
    let h = HIGH.load(Ordering::Relaxed);
    for e in t[..h].iter_mut() {
        if e.0 == 0 {
            *e = (p, n);
            return;
        }
    }
    if h < N {
        t[h] = (p, n);
        HIGH.store(h + 1, Ordering::Relaxed);
    }
}
fn untrack(p: usize) {
    let t = unsafe { &mut *(&raw mut TABLE) };
    let h = HIGH.load(Ordering::Relaxed);
    for e in t[..h].iter_mut() {
        if e.0 == p {
            *e = (0, 0);
            return;
        }
    }
}

fn scan_freed(p: *mut u8, n: usize) {
    SCANNED.fetch_add(n, Ordering::Relaxed);
    let w = SECRETS.load(Ordering::Relaxed);
    if w.is_null() {
        return;
    }
    // SAFETY: `scanned` keeps the words alive; the block is still allocated (its bytes may be uninitialised)
    let (w, b) = unsafe { (&*w, std::slice::from_raw_parts(p, n)) };
    if let Some(off) = w.find_pair(b) {
        if HITS.fetch_add(1, Ordering::Relaxed) == 0 {
            unsafe { HIT = (n, off) };
        }
    }
}

/// A set of 64-bit words that are secret.
#[derive(Default)]
pub struct Words {
    v: Vec<u64>,
    bloom: Vec<u64>,
}
impl Words {
    pub fn new(mut v: Vec<u64>) -> Self {
        v.sort_unstable();
        v.dedup();
        let mut bloom = vec![0; 4096];
        for w in &v {
            let h = Self::hash(*w);
            bloom[h >> 6] |= 1 << (h & 63);
        }
        Words { v, bloom }
    }
    fn hash(w: u64) -> usize {
        (w.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 46) as usize
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn has(&self, w: u64) -> bool {
        let h = Self::hash(w);
        self.bloom[h >> 6] >> (h & 63) & 1 == 1 && self.v.binary_search(&w).is_ok()
    }
    /// first offset at which one of the words stands
    pub fn find(&self, b: &[u8]) -> Option<usize> {
        (0..(b.len() + 1).saturating_sub(8)).find(|i| self.has(u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap())))
    }
    /// first offset at which two of the words stand one after the other. A single word in a freed block may be what
    /// the compiler left in bytes it never initialised (padding, the unused half of a `None`): the stack held it before.
    pub fn find_pair(&self, b: &[u8]) -> Option<usize> {
        let at = |i: usize| self.has(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
        (0..(b.len() + 1).saturating_sub(16)).find(|i| at(*i) && at(*i + 8))
    }
    pub fn words(&self) -> &[u64] {
        &self.v
    }
}

/// While `f` runs, blocks freed inside [`library`] are searched for these words.
/// Returns the first hit (block size, offset) and how many bytes were searched.
pub fn scanned<T>(w: &Words, f: impl FnOnce() -> T) -> (T, Option<(usize, usize)>, usize) {
    HITS.store(0, Ordering::Relaxed);
    SCANNED.store(0, Ordering::Relaxed);
    SECRETS.store(w as *const Words as *mut Words, Ordering::Relaxed);
    SCAN.store(true, Ordering::Relaxed);
    let r = f();
    SCAN.store(false, Ordering::Relaxed);
    SECRETS.store(std::ptr::null_mut(), Ordering::Relaxed);
    let hit = if HITS.load(Ordering::Relaxed) > 0 { Some(unsafe { HIT }) } else { None };
    (r, hit, SCANNED.load(Ordering::Relaxed))
}
/// Run `f` as library code on this thread.
pub fn library<T>(f: impl FnOnce() -> T) -> T {
    let _g = ScanGuard(LIB.replace(true));
    f()
}

pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    HIGH.store(0, Ordering::Relaxed);
    TRACK.store(true, Ordering::Relaxed);
    LIB.set(true);
    let r = f();
    LIB.set(false);
    TRACK.store(false, Ordering::Relaxed);
    r
}

/// leave "library" mode on this thread (for simulator callbacks running inside an operation)
pub fn lib_off() -> bool {
    LIB.replace(false)
}
pub fn lib_restore(v: bool) {
    LIB.set(v)
}

struct ScanGuard(bool);
impl Drop for ScanGuard {
    fn drop(&mut self) {
        LIB.set(self.0);
    }
}

/// the tracked live blocks of at most `max` bytes
pub fn live(max: usize) -> Vec<(usize, usize)> {
    let t = unsafe { &*(&raw const TABLE) };
    t[..HIGH.load(Ordering::Relaxed)].iter().filter(|e| e.0 != 0 && e.1 <= max).copied().collect()
}

/// total live bytes and the address of live byte number `k`
pub fn live_bytes() -> usize {
    let t = unsafe { &*(&raw const TABLE) };
    t[..HIGH.load(Ordering::Relaxed)].iter().filter(|e| e.0 != 0).map(|e| e.1).sum()
}
pub fn live_addr(mut k: usize) -> Option<*mut u8> {
    let t = unsafe { &*(&raw const TABLE) };
    for e in &t[..HIGH.load(Ordering::Relaxed)] {
        if e.0 != 0 {
            if k < e.1 {
                return Some((e.0 + k) as *mut u8);
            }
            k -= e.1;
        }
    }
    None
}
