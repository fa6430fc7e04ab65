//! Baton scheduler: real threads, exactly one of which runs at any time. The plan decides every switch.

use crate::cov;
use crate::env::raw_syscall;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Preempt {
    /// thread and index of the operation within it
    pub t: u8,
    pub op: u16,
    /// edge number within that operation
    pub edge: u32,
    /// which other runnable thread continues (modulo their number)
    pub to: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub preempts_fired: u64,
    pub futex_blocks: u64,
    pub switch_hash: u64,
    pub edges: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Blocked(usize, u32, bool),
    TimedOut,
    Done,
}

struct Th {
    st: St,
    go: Box<AtomicU32>,
    op: u16,
    op_start: u64,
    woken: bool,
}

struct S {
    th: Vec<Th>,
    cur: usize,
    preempts: Vec<Preempt>,
    choices: Vec<u8>,
    ci: usize,
    rep: Report,
    done: AtomicU32,
}

static mut SCHED: Option<S> = None;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn is_sim_thread() -> bool {
    ME.try_with(|m| m.get() != usize::MAX).unwrap_or(false)
}

fn s() -> &'static mut S {
    // SAFETY: only the thread holding the baton (or the starter before/after) touches it
    unsafe { (*(&raw mut SCHED)).as_mut().unwrap() }
}

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(libc::SYS_futex, a.as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0) };
}
fn futex_wake(a: &AtomicU32) {
    unsafe { raw_syscall(libc::SYS_futex, a.as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 64, 0, 0, 0) };
}

fn park(me: usize) {
    let go: *const AtomicU32 = &*s().th[me].go;
    // SAFETY: boxed, lives until the run ends
    let go = unsafe { &*go };
    while go.swap(0, Ordering::Acquire) == 0 {
        futex_wait(go, 0);
    }
}
fn unpark(t: usize) {
    let go = &s().th[t].go;
    go.store(1, Ordering::Release);
    futex_wake(go);
}

fn others_runnable(me: usize) -> Vec<usize> {
    s().th.iter().enumerate().filter(|(i, t)| *i != me && t.st == St::Runnable).map(|(i, _)| i).collect()
}

fn note(from: usize, to: usize) {
    let s = s();
    let t = &s.th[from];
    let rel = cov::edges().wrapping_sub(t.op_start);
    s.rep.switch_hash = crate::rng::mix(s.rep.switch_hash, (from as u64) << 56 | (to as u64) << 48 | (t.op as u64) << 32 | (rel & 0xffff_ffff));
}

/// hand the baton to `to`; returns when it comes back to `me`
fn switch(me: usize, to: usize) {
    note(me, to);
    s().cur = to;
    unpark(to);
    park(me);
}

fn arm(me: usize) {
    let s = s();
    let th = &s.th[me];
    let rel = cov::edges() - th.op_start;
    let next = s.preempts.iter().filter(|p| p.t as usize == me && p.op == th.op && p.edge as u64 > rel).map(|p| p.edge as u64).min();
    match next {
        Some(e) => cov::set_action(th.op_start + e, on_edge),
        None => cov::clear_action(),
    }
}

fn on_edge() {
    let me = ME.get();
    if me == usize::MAX {
        return;
    }
    let rel = cov::edges() - s().th[me].op_start;
    let op = s().th[me].op;
    let to = s().preempts.iter().find(|p| p.t as usize == me && p.op == op && p.edge as u64 == rel).map(|p| p.to);
    if let Some(to) = to {
        let o = others_runnable(me);
        if !o.is_empty() {
            s().rep.preempts_fired += 1;
            switch(me, o[to as usize % o.len()]);
        }
    }
    arm(me);
}

/// Mark the start of operation `op` on the current simulated thread.
pub fn op_begin(op: u16) {
    let me = ME.get();
    if me == usize::MAX {
        return;
    }
    let th = &mut s().th[me];
    th.op = op;
    th.op_start = cov::edges();
    // an `edge` of 0 preempts before the operation starts
    let to = s().preempts.iter().find(|p| p.t as usize == me && p.op == op && p.edge == 0).map(|p| p.to);
    if let Some(to) = to {
        let o = others_runnable(me);
        if !o.is_empty() {
            s().rep.preempts_fired += 1;
            switch(me, o[to as usize % o.len()]);
        }
    }
    arm(me);
    cov::set_hang_budget(HANG);
}

pub const HANG: u64 = 1_500_000_000;

fn choose(me: usize) -> Option<usize> {
    let s = s();
    let mut o = others_runnable(me);
    if o.is_empty() {
        // a timed wait may expire only when nothing else can run
        if let Some(i) = s.th.iter().position(|t| matches!(t.st, St::Blocked(_, _, true))) {
            s.th[i].st = St::TimedOut;
            o.push(i);
        } else {
            return None;
        }
    }
    let c = s.choices.get(s.ci).copied().unwrap_or(0) as usize;
    s.ci += 1;
    Some(o[c % o.len()])
}

pub unsafe fn sim_futex(addr: *const u32, op: i32, val: u32, timeout: usize, bits: u32) -> isize {
    let me = ME.get();
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
                return -(libc::EAGAIN as isize);
            }
            s().rep.futex_blocks += 1;
            let mask = if cmd == libc::FUTEX_WAIT { u32::MAX } else { bits };
            s().th[me].st = St::Blocked(addr as usize, mask, timeout != 0);
            s().th[me].woken = false;
            match choose(me) {
                Some(n) if n == me => {}
                Some(n) => switch(me, n),
                None => crate::core::abort_run("deadlock", &format!("all threads blocked; thread {me} in operation {} was the last", s().th[me].op)),
            }
            let timed_out = s().th[me].st == St::TimedOut;
            s().th[me].st = St::Runnable;
            if timed_out {
                return -(libc::ETIMEDOUT as isize);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if cmd == libc::FUTEX_WAKE { u32::MAX } else { bits };
            let mut n = 0;
            for t in s().th.iter_mut() {
                if n >= val as isize {
                    break;
                }
                if let St::Blocked(a, m, _) = t.st {
                    if a == addr as usize && m & mask != 0 {
                        t.st = St::Runnable;
                        n += 1;
                    }
                }
            }
            n
        }
        _ => unsafe { raw_syscall(libc::SYS_futex, addr as usize, op as usize, val as usize, timeout, 0, bits as usize) },
    }
}

/// Run the thread bodies under the plan. Each body must catch its own panics.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, preempts: &[Preempt], choices: &[u8]) -> Report {
    let n = bodies.len();
    let sc = S {
        th: (0..n)
            .map(|_| Th { st: St::Runnable, go: Box::new(AtomicU32::new(0)), op: u16::MAX, op_start: 0, woken: false })
            .collect(),
        cur: 0,
        preempts: preempts.to_vec(),
        choices: choices.to_vec(),
        ci: 0,
        rep: Report::default(),
        done: AtomicU32::new(0),
    };
    unsafe { *(&raw mut SCHED) = Some(sc) };
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    park_raw(i);
                    ME.set(i);
                    b();
                    let e = cov::edges();
                    cov::clear_action();
                    let sc = s();
                    sc.rep.edges += e;
                    sc.th[i].st = St::Done;
                    let next = choose(i);
                    ME.set(usize::MAX);
                    match next {
                        Some(n) => {
                            note(i, n);
                            sc.cur = n;
                            unpark(n);
                        }
                        None => {
                            if sc.th.iter().any(|t| t.st != St::Done) {
                                crate::core::abort_run("deadlock", "remaining threads blocked forever");
                            }
                            sc.done.store(1, Ordering::Release);
                            futex_wake(&sc.done);
                        }
                    }
                })
                .unwrap(),
        );
    }
    if n > 0 {
        let c = choices.first().copied().unwrap_or(0) as usize % n;
        s().cur = c;
        unpark(c);
        for h in hs {
            let _ = h.join();
        }
    }
    let r = s().rep.clone();
    unsafe { *(&raw mut SCHED) = None };
    r
}

fn park_raw(i: usize) {
    park(i)
}
