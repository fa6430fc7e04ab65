//! The simulated operating-system environment: entropy, clock, futexes.
//!
//! The symbols `getrandom`, `clock_gettime` and `syscall` are defined here, in the simulator binary, so every
//! call made by the code under test (and by std and the `getrandom` crate under it) arrives here.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- raw system calls

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        core::arch::asm!("syscall", inlateout("rax") n as isize => r,
            in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

// ---------------------------------------------------------------- entropy

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// pseudo-random stream
    Good,
    /// every byte the same
    Stuck(u8),
    /// every read returns the same bytes from the start of the seeded stream
    Repeat,
    /// seeded stream with the given period in bytes
    Period(u32),
    /// every `n`th byte stuck at 0xff, otherwise random
    Comb(u8),
    /// in every read the first `front` and last `back` bytes are `byte`
    Edges { front: u8, back: u8, byte: u8 },
    /// these bytes, then the seeded stream
    Script(Vec<u8>),
    /// every read returns these bytes, from their start, cyclically
    Fixed(Vec<u8>),
    /// with the given percentage a read returns one of these values (cyclically), otherwise the seeded stream
    Mixed { vals: Vec<Vec<u8>>, pct: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the read fails with this errno
    Errno(i32),
    /// the read is interrupted this many times before it goes through
    Eintr(u8),
    /// only this many bytes are returned by this read
    Short(u8),
    /// returns zero bytes (as if at end of file)
    Zero,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EntropyPlan {
    pub seed: u32,
    pub mode: Mode,
    /// (index of the read call, fault)
    pub faults: Vec<(u32, Fault)>,
}

impl EntropyPlan {
    pub fn good(seed: u32) -> Self {
        EntropyPlan { seed, mode: Mode::Good, faults: vec![] }
    }
}

#[derive(Clone, Debug, Default)]
pub struct EntropyLog {
    /// bytes delivered, concatenated
    pub bytes: Vec<u8>,
    /// lengths requested, one per call that delivered something
    pub calls: u32,
    pub requested: Vec<u32>,
    pub errors: u32,
    pub eintrs: u32,
    pub shorts: u32,
    pub zeros: u32,
    pub exhausted: bool,
}

struct Entropy {
    rng: Rng,
    mode: Mode,
    seed: u32,
    pos: u64,
    faults: BTreeMap<u32, Fault>,
    pending_eintr: u8,
    log: EntropyLog,
    budget: u64,
}

thread_local! {
    static ENTROPY: RefCell<Option<Entropy>> = const { RefCell::new(None) };
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// Install an entropy source for this thread; returns the previous log, if any.
pub fn set_entropy(plan: &EntropyPlan, budget_bytes: u64) {
    let e = Entropy {
        rng: Rng::new(plan.seed as u64 ^ 0x656e_7472_6f70_7900),
        mode: plan.mode.clone(),
        seed: plan.seed,
        pos: 0,
        faults: plan.faults.iter().cloned().collect(),
        pending_eintr: 0,
        log: EntropyLog::default(),
        budget: budget_bytes,
    };
    ENTROPY.with(|x| *x.borrow_mut() = Some(e));
}

pub fn take_entropy() -> EntropyLog {
    ENTROPY.with(|x| x.borrow_mut().take().map(|e| e.log).unwrap_or_default())
}

/// Run `f` with the given entropy; returns what was drawn as well.
pub fn with_entropy<T>(plan: &EntropyPlan, f: impl FnOnce() -> T) -> (T, EntropyLog) {
    with_budget(plan, 1 << 22, f)
}
/// The same with a limit on the bytes the source delivers before it fails for good.
pub fn with_budget<T>(plan: &EntropyPlan, budget: u64, f: impl FnOnce() -> T) -> (T, EntropyLog) {
    let saved = ENTROPY.with(|x| x.borrow_mut().take());
    set_entropy(plan, budget);
    struct Restore(Option<Entropy>);
    impl Drop for Restore {
        fn drop(&mut self) {
            let s = self.0.take();
            ENTROPY.with(|x| *x.borrow_mut() = s);
        }
    }
    let _r = Restore(saved);
    let v = f();
    let log = take_entropy();
    (v, log)
}

/// Number of bytes delivered so far on this thread's source, and bytes from an offset.
pub fn entropy_pos() -> usize {
    ENTROPY.with(|x| x.borrow().as_ref().map(|e| e.log.bytes.len()).unwrap_or(0))
}
pub fn entropy_since(off: usize) -> Vec<u8> {
    ENTROPY.with(|x| x.borrow().as_ref().map(|e| e.log.bytes[off..].to_vec()).unwrap_or_default())
}
pub fn entropy_calls() -> u32 {
    ENTROPY.with(|x| x.borrow().as_ref().map(|e| e.log.calls).unwrap_or(0))
}
pub fn entropy_errors() -> u32 {
    ENTROPY.with(|x| {
        x.borrow().as_ref().map(|e| e.log.errors + e.log.zeros).unwrap_or(0)
    })
}
/// add a fault `k` reads from now
pub fn add_entropy_fault(k: u32, f: Fault) {
    ENTROPY.with(|x| {
        if let Some(e) = x.borrow_mut().as_mut() {
            let at = e.log.calls + k;
            e.faults.insert(at, f);
        }
    })
}
pub fn clear_entropy_faults() {
    ENTROPY.with(|x| {
        if let Some(e) = x.borrow_mut().as_mut() {
            e.faults.clear();
        }
    })
}

impl Entropy {
    fn byte_stream(&mut self, out: &mut [u8]) {
        match &self.mode {
            Mode::Good => self.rng.fill_stream(out),
            Mode::Stuck(b) => out.fill(*b),
            Mode::Repeat => {
                let mut r = Rng::new(self.seed as u64 ^ 0x7265_7065);
                r.fill(out);
            }
            Mode::Period(n) => {
                let n = (*n).max(1) as u64;
                for (i, o) in out.iter_mut().enumerate() {
                    let k = (self.pos + i as u64) % n;
                    let mut x = k ^ ((self.seed as u64) << 20);
                    *o = crate::rng::splitmix(&mut x) as u8;
                }
            }
            Mode::Comb(n) => {
                let n = (*n).max(1) as u64;
                let p = self.pos;
                self.rng.fill_stream(out);
                for (i, o) in out.iter_mut().enumerate() {
                    if (p + i as u64) % n == 0 {
                        *o = 0xff;
                    }
                }
            }
            Mode::Edges { front, back, byte } => {
                self.rng.fill_stream(out);
                let n = out.len();
                for (i, o) in out.iter_mut().enumerate() {
                    if i < *front as usize || i + *back as usize >= n {
                        *o = *byte;
                    }
                }
            }
            Mode::Fixed(s) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = if s.is_empty() { 0 } else { s[i % s.len()] };
                }
            }
            Mode::Mixed { vals, pct } => {
                let v = self.rng.usize(vals.len());
                if self.rng.below(100) < *pct as u64 && !vals.is_empty() && !vals[v].is_empty() {
                    for (i, o) in out.iter_mut().enumerate() {
                        *o = vals[v][i % vals[v].len()];
                    }
                } else {
                    self.rng.fill_stream(out)
                }
            }
            Mode::Script(s) => {
                let p = self.pos as usize;
                let have = s.len().saturating_sub(p).min(out.len());
                if have > 0 {
                    out[..have].copy_from_slice(&s[p..p + have]);
                }
                self.rng.fill_stream(&mut out[have..]);
            }
        }
        self.pos += out.len() as u64;
    }

    fn read(&mut self, out: &mut [u8]) -> isize {
        if out.is_empty() {
            return 0;
        }
        if self.pending_eintr > 0 {
            self.pending_eintr -= 1;
            self.log.eintrs += 1;
            set_errno(libc::EINTR);
            return -1;
        }
        let idx = self.log.calls;
        let fault = self.faults.remove(&idx);
        let mut n = out.len();
        match fault {
            Some(Fault::Errno(e)) => {
                self.log.calls += 1;
                self.log.errors += 1;
                set_errno(if e == libc::EINTR || e <= 0 { libc::EIO } else { e });
                return -1;
            }
            Some(Fault::Eintr(k)) => {
                if k > 0 {
                    self.pending_eintr = k - 1;
                    self.log.eintrs += 1;
                    set_errno(libc::EINTR);
                    return -1;
                }
            }
            Some(Fault::Short(k)) => {
                let k = (k as usize).max(1);
                if k < n {
                    n = k;
                    self.log.shorts += 1;
                }
            }
            Some(Fault::Zero) => {
                self.log.calls += 1;
                self.log.zeros += 1;
                return 0;
            }
            None => {}
        }
        if self.log.bytes.len() as u64 + n as u64 > self.budget {
            self.log.exhausted = true;
            set_errno(libc::EIO);
            return -1;
        }
        self.log.calls += 1;
        self.log.requested.push(n as u32);
        self.byte_stream(&mut out[..n]);
        let (bytes, o) = (&mut self.log.bytes, &out[..n]);
        bytes.extend_from_slice(o);
        n as isize
    }
}

impl Rng {
    /// byte-granular stream: the bytes do not depend on how reads were split
    fn fill_stream(&mut self, out: &mut [u8]) {
        for o in out {
            *o = (self.u64() >> 24) as u8;
        }
    }
}

const GRND_INSECURE: u32 = 4;
static HASHKEYS: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if flags & GRND_INSECURE != 0 {
        // std's hash-map keys: deterministic, not part of the entropy the library draws
        let n = HASHKEYS.fetch_add(1, Ordering::Relaxed);
        Rng::new(0x4a5b ^ n).fill(out);
        return len as isize;
    }
    let lib = crate::alloc::lib_off();
    let _ = GATE.try_with(|g| {
        if let Some(g) = g.take() {
            g.arrive();
        }
    });
    let r = ENTROPY.try_with(|x| match x.try_borrow_mut() {
        Ok(mut g) => g.as_mut().map(|e| e.read(out)),
        Err(_) => None,
    });
    crate::alloc::lib_restore(lib);
    match r {
        Ok(Some(n)) => n,
        _ => {
            // no simulated source on this thread: harness code, deterministic filler
            if len > 0 {
                UNSEEDED_READS.fetch_add(1, Ordering::Relaxed);
            }
            Rng::new(0x1234).fill(out);
            len as isize
        }
    }
}

/// Two threads in lockstep: one stops inside an operation (where it waits for entropy) until the other lets it go on.
#[derive(Default)]
pub struct Gate(std::sync::Mutex<u8>, std::sync::Condvar);
impl Gate {
    fn arrive(&self) {
        let mut g = self.0.lock().unwrap();
        *g = 1;
        self.1.notify_all();
        while *g != 2 {
            g = self.1.wait(g).unwrap();
        }
    }
    /// 1: stopped inside; 3: finished without ever waiting
    fn await_arrival(&self) -> u8 {
        let mut g = self.0.lock().unwrap();
        while *g == 0 {
            g = self.1.wait(g).unwrap();
        }
        *g
    }
    fn set(&self, v: u8) {
        *self.0.lock().unwrap() = v;
        self.1.notify_all();
    }
}
thread_local! {
    static GATE: RefCell<Option<std::sync::Arc<Gate>>> = const { RefCell::new(None) };
}
static HOLDS: std::sync::Mutex<Option<std::sync::Arc<Gate>>> = std::sync::Mutex::new(None);
/// The other thread goes on (also when library code on this one is about to block, perhaps on something the other holds).
fn let_go() {
    let g = HOLDS.try_lock().ok().and_then(|mut g| g.take());
    if let Some(g) = g {
        g.set(2);
    }
}
/// Run `f` while another thread stands inside `op`, in its first wait for entropy; whether it did.
pub fn beside<T>(seed: u32, op: impl FnOnce() + Send + 'static, f: impl FnOnce() -> T) -> (T, bool) {
    let gate = std::sync::Arc::new(Gate::default());
    let g = gate.clone();
    let h = std::thread::spawn(move || {
        GATE.with(|x| *x.borrow_mut() = Some(g.clone()));
        with_entropy(&EntropyPlan::good(seed), || {
            let _ = crate::core::catch(op);
        });
        GATE.with(|x| *x.borrow_mut() = None);
        g.set(3);
    });
    let inside = gate.await_arrival() == 1;
    if inside {
        *HOLDS.lock().unwrap() = Some(gate);
    }
    let r = f();
    let_go();
    let _ = h.join();
    (r, inside)
}

pub static UNSEEDED_READS: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- clock

static SIM_CLOCK: AtomicBool = AtomicBool::new(false);
static NOW_NS: AtomicI64 = AtomicI64::new(0);

pub const EPOCH_S: i64 = 1_700_000_000;

pub fn clock_reset() {
    NOW_NS.store(EPOCH_S * 1_000_000_000, Ordering::Relaxed);
    SIM_CLOCK.store(true, Ordering::Relaxed);
}
pub fn clock_ns() -> i64 {
    NOW_NS.load(Ordering::Relaxed)
}
pub fn clock_secs() -> i64 {
    clock_ns().div_euclid(1_000_000_000)
}
pub fn clock_set(ns: i64) {
    NOW_NS.store(ns, Ordering::Relaxed);
}
pub fn clock_advance(ns: i64) {
    NOW_NS.fetch_add(ns, Ordering::Relaxed);
}

#[unsafe(no_mangle)]
extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if SIM_CLOCK.load(Ordering::Relaxed) && clk != libc::CLOCK_THREAD_CPUTIME_ID && clk != libc::CLOCK_PROCESS_CPUTIME_ID {
        let n = clock_ns();
        unsafe {
            (*ts).tv_sec = n.div_euclid(1_000_000_000);
            (*ts).tv_nsec = n.rem_euclid(1_000_000_000);
        }
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) };
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

/// Real time, for the harness's own budgets and evidence only.
pub fn wall_s() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

// ---------------------------------------------------------------- futex and other raw syscalls made through libc

#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && crate::sched::is_sim_thread() {
        let r = unsafe { crate::sched::sim_futex(a as *const u32, b as i32, c as u32, d, f as u32) };
        if r < 0 {
            set_errno(-r as i32);
            return -1;
        }
        return r as i64;
    }
    if n == libc::SYS_futex && matches!(b as i32 & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) && crate::alloc::in_lib() {
        let lib = crate::alloc::lib_off();
        let_go();
        crate::alloc::lib_restore(lib);
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    let r = unsafe { raw_syscall(n, a, b, c, d, e, f) };
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r as i64
}

// ---------------------------------------------------------------- CPU model

pub const OPTIONAL: [&str; 7] = ["sha", "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq", "bmi2"];
pub const MANDATORY: [&str; 5] = ["aes", "pclmulqdq", "bmi1", "adx", "avx2"];

/// Deny exactly the optional features whose bit is set in `mask` (bit i = OPTIONAL[i]); bits 7.. = MANDATORY.
pub fn cpu() -> u32 {
    CPU.load(Ordering::Relaxed) as u32
}
static CPU: AtomicU64 = AtomicU64::new(0);
pub fn set_cpu(mask: u32) {
    CPU.store(mask as u64, Ordering::Relaxed);
    for (i, f) in OPTIONAL.iter().chain(MANDATORY.iter()).enumerate() {
        let k = format!("GRAVIOLA_CPU_DISABLE_{f}");
        // SAFETY: only called while no other thread reads the environment
        unsafe {
            if mask >> i & 1 == 1 {
                std::env::set_var(k, "1");
            } else {
                std::env::remove_var(k);
            }
        }
    }
}
