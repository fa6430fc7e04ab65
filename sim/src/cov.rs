//! Edge callbacks compiled into the code under test: coverage, and the points where the simulator may act
//! (preempt the thread, flip a bit, declare a hang).

use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};

pub const MAX_EDGES: usize = 1 << 17;
static GUARDS: AtomicU32 = AtomicU32::new(0);
static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static mut DUMMY: [u8; MAX_EDGES] = [0; MAX_EDGES];

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HANG: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTION: Cell<Option<fn()>> = const { Cell::new(None) };
}

static LOGGING: AtomicPtr<Vec<u32>> = AtomicPtr::new(std::ptr::null_mut());

/// Record the identity of every edge `f` takes (up to `max`). Only while one thread runs.
pub fn logged<T>(max: usize, f: impl FnOnce() -> T) -> (T, Vec<u32>) {
    let mut v: Vec<u32> = Vec::with_capacity(max);
    LOGGING.store(&mut v, Ordering::SeqCst);
    let r = f();
    LOGGING.store(std::ptr::null_mut(), Ordering::SeqCst);
    (r, v)
}

/// Memory shared between threads, watched while an operation is logged: where does the operation change it?
pub struct Watch {
    /// looked at after every edge
    fine: Vec<(usize, Vec<u8>)>,
    /// looked at now and then
    coarse: Vec<(usize, Vec<u8>)>,
    /// edges at or shortly before which a change was seen: (first, last)
    pub touches: Vec<(u32, u32)>,
}
static WATCH: AtomicPtr<Watch> = AtomicPtr::new(std::ptr::null_mut());
const COARSE: usize = 128;

impl Watch {
    pub fn new(coarse: &[(usize, usize)]) -> Box<Watch> {
        let read = |l: &[(usize, usize)]| l.iter().map(|&(p, n)| (p, unsafe { std::slice::from_raw_parts(p as *const u8, n) }.to_vec())).collect();
        Box::new(Watch { fine: read(statics()), coarse: read(coarse), touches: vec![] })
    }
    /// for little memory: all of it is looked at after every edge
    pub fn fine(extra: &[(usize, usize)]) -> Box<Watch> {
        let mut w = Watch::new(extra);
        let c = std::mem::take(&mut w.coarse);
        w.fine.extend(c);
        w
    }
    fn look(&mut self, at: u32) {
        let changed = |l: &mut Vec<(usize, Vec<u8>)>| {
            let mut c = false;
            for (p, old) in l.iter_mut() {
                let now = unsafe { std::slice::from_raw_parts(*p as *const u8, old.len()) };
                if now != old.as_slice() {
                    old.copy_from_slice(now);
                    c = true;
                }
            }
            c
        };
        if !self.fine.is_empty() && changed(&mut self.fine) && self.touches.len() < 4096 {
            self.touches.push((at.saturating_sub(1), at + 1));
        }
        if at as usize % COARSE == 0 && !self.coarse.is_empty() && changed(&mut self.coarse) && self.touches.len() < 4096 {
            self.touches.push((at.saturating_sub(COARSE as u32), at));
        }
    }
}

pub fn watched<T>(w: &mut Watch, f: impl FnOnce() -> T) -> T {
    WATCH.store(w, Ordering::SeqCst);
    let r = f();
    WATCH.store(std::ptr::null_mut(), Ordering::SeqCst);
    r
}

/// The library's own writable statics (from this program's symbol table).
pub fn statics() -> &'static [(usize, usize)] {
    static L: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    L.get_or_init(|| find_statics().unwrap_or_default())
}

fn find_statics() -> Option<Vec<(usize, usize)>> {
    let f = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(f.get(o..o + 2)?.try_into().ok()?));
    let u32_ = |o: usize| Some(u32::from_le_bytes(f.get(o..o + 4)?.try_into().ok()?));
    let u64_ = |o: usize| Some(u64::from_le_bytes(f.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shentsize, shnum) = (u64_(0x28)?, u16_(0x3a)? as usize, u16_(0x3c)? as usize);
    let sh = |i: usize| {
        let o = shoff + i * shentsize;
        // (type, flags, addr, offset, size, link)
        Some((u32_(o + 4)?, u64_(o + 8)?, u64_(o + 16)?, u64_(o + 24)?, u64_(o + 32)?, u32_(o + 40)? as usize))
    };
    let mut out = vec![];
    let mut here = None;
    for i in 0..shnum {
        let (ty, _, _, off, size, link) = sh(i)?;
        if ty != 2 {
            continue;
        }
        let (_, _, _, stroff, _, _) = sh(link)?;
        for o in (off..off + size).step_by(24) {
            let (name, info, shndx, val, sz) = (u32_(o)? as usize, *f.get(o + 4)?, u16_(o + 6)? as usize, u64_(o + 8)?, u64_(o + 16)?);
            let s = f.get(stroff + name..)?;
            let s = &s[..s.iter().position(|b| *b == 0)?];
            if s == b"__sanitizer_cov_trace_pc_guard" {
                here = Some(__sanitizer_cov_trace_pc_guard as *const () as usize - val);
            }
            if info & 15 != 1 || sz == 0 || sz > 1 << 16 || shndx == 0 || shndx >= shnum {
                continue;
            }
            // writable, allocated; not constants that only need relocation
            let flags = sh(shndx)?.1;
            if flags & 3 != 3 || !s.windows(8).any(|w| w == b"graviola") || s.windows(4).any(|w| w == b"gsim") {
                continue;
            }
            out.push((val, sz));
        }
    }
    let base = here?;
    Some(out.into_iter().map(|(v, n)| (v.wrapping_add(base), n)).collect())
}

#[inline(never)]
#[cold]
fn log(id: u32) {
    // SAFETY: `logged` keeps the vector alive, and only one thread runs
    let v = unsafe { &mut *LOGGING.load(Ordering::Relaxed) };
    if v.len() < v.capacity() {
        v.push(id);
    }
    let w = WATCH.load(Ordering::Relaxed);
    if !w.is_null() {
        unsafe { (*w).look(v.len() as u32) };
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || unsafe { *s } != 0 {
        return;
    }
    while s < e {
        let n = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        unsafe {
            *s = (n as usize).min(MAX_EDGES - 1) as u32;
            s = s.add(1);
        }
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = unsafe { *g } as usize;
    let m = MAP.load(Ordering::Relaxed);
    if !m.is_null() {
        unsafe {
            let p = m.add(id);
            *p = (*p).saturating_add(1);
        }
    }
    if !LOGGING.load(Ordering::Relaxed).is_null() {
        log(id as u32);
    }
    let c = COUNT.get() + 1;
    COUNT.set(c);
    if c >= NEXT.get() {
        slow(c);
    }
}

#[inline(never)]
#[cold]
fn slow(c: u64) {
    NEXT.set(HANG.get());
    if c >= HANG.get() {
        HANG.set(u64::MAX);
        NEXT.set(u64::MAX);
        crate::core::abort_run("hang", &format!("no progress after {c} edges in one operation"));
    }
    if let Some(a) = ACTION.get() {
        a();
    }
}

pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// this thread's edge count
/// count what another process executed on our behalf
pub fn add_edges(n: u64) {
    COUNT.set(COUNT.get() + n);
}

pub fn edges() -> u64 {
    COUNT.get()
}

/// call `action` at this thread's edge number `at`
pub fn set_action(at: u64, action: fn()) {
    ACTION.set(Some(action));
    NEXT.set(at.max(COUNT.get() + 1).min(HANG.get()));
}

pub fn clear_action() {
    ACTION.set(None);
    NEXT.set(HANG.get());
}

/// declare a hang when this thread executes more than `n` further edges
pub fn set_hang_budget(n: u64) {
    HANG.set(COUNT.get() + n);
    if ACTION.get().is_none() {
        NEXT.set(HANG.get());
    } else {
        NEXT.set(NEXT.get().min(HANG.get()));
    }
}

/// Shared (across fork) coverage map.
pub fn init_map() {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), MAX_EDGES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(p != libc::MAP_FAILED);
    MAP.store(p as *mut u8, Ordering::Relaxed);
}

pub fn map() -> &'static mut [u8] {
    let p = MAP.load(Ordering::Relaxed);
    unsafe {
        if p.is_null() {
            &mut *(&raw mut DUMMY)
        } else {
            std::slice::from_raw_parts_mut(p, MAX_EDGES)
        }
    }
}

/// hash of which edges ran and roughly how often
pub fn signature() -> (u64, u32) {
    let n = guards() as usize + 1;
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut hit = 0;
    for (i, &c) in map()[..n.min(MAX_EDGES)].iter().enumerate() {
        if c != 0 {
            hit += 1;
            let bucket = 8 - c.leading_zeros() as u64;
            h ^= (i as u64) << 4 | bucket;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    }
    (h, hit)
}
