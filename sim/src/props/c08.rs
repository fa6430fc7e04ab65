//! C08: concurrent use is indistinguishable from sequential use.
use super::prelude::*;
use crate::{alloc, cov};
use crate::ops::{self, Op, World};
use crate::sched::{self, Preempt};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pos {
    /// before the operation starts
    Start,
    /// fraction (/2^16) of the operation when it runs alone
    Frac(u16),
    /// edges from the operation's start
    Edge(u32),
    /// an edge the operation takes only a few times (straight-line code, not a hot loop): fraction of those
    Rare(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// all threads share one set of objects
    Shared,
    /// all threads share two sets, and use them in turn
    Two,
    /// every thread makes its own objects, of equal content, while the others already run
    Own,
    /// every thread makes its own objects, of different content, while the others already run
    Different,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    World { seed: u32, threads: u8, kind: Kind, cpu: u32 },
    Op { t: u8, id: u16, op: Op, ent: EntropyPlan },
    Preempt { t: u8, id: u16, at: Pos, to: u8 },
    /// `n` preemptions `gap` edges apart
    Burst { t: u8, id: u16, at: Pos, gap: u16, n: u16, to: u8 },
    /// up to `n` preemptions at edges where the operations, run alone, change memory that threads share (the library's
    /// statics, the shared objects)
    Touch { seed: u32, n: u8 },
    Choices(Vec<u8>),
}

type Res = Result<Vec<u8>, String>;

const BUILD: u16 = 0xfff0;

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch(f) {
        Ok(r) => r,
        Err((s, m)) => Err(format!("panic:{s}: {m}")),
    }
}

fn one(w: &World, op: &Op, ent: &EntropyPlan) -> Res {
    env::with_entropy(ent, || guarded(|| ops::exec(w, op))).0
}

/// variants of one kind of operation, so that two threads are likely to be inside the same code
fn similar(r: &mut Rng, op: &Op) -> Op {
    if r.chance(2, 3) {
        return op.vary(r);
    }
    for _ in 0..200 {
        let o = ops::gen_op(r);
        if o.name() == op.name() {
            return o;
        }
    }
    op.clone()
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, _tier: Tier) -> Vec<Step> {
        let threads = *r.pick(&[2u8, 2, 2, 3, 3, 4]);
        let kind = *r.pick(&[Kind::Shared, Kind::Shared, Kind::Two, Kind::Two, Kind::Own, Kind::Different]);
        let mut v = vec![Step::World { seed: r.seed(), threads, kind, cpu: if r.chance(1, 8) { gen_cpu(r) } else { 0 } }];
        let per = 1 + r.usize(4);
        let focus = if r.chance(2, 3) { Some(ops::gen_op(r)) } else { None };
        let mut id = 0;
        let mut list = vec![];
        for k in 0..per {
            for t in 0..threads {
                let op = match &focus {
                    Some(f) if r.chance(1, 6) => f.clone(),
                    Some(f) if r.chance(4, 5) => similar(r, f),
                    _ => ops::gen_op(r),
                };
                let mut ent = EntropyPlan::good(r.seed());
                if op.draws() && r.chance(1, 10) {
                    ent.faults.push((r.below(2) as u32, Fault::Errno(5)));
                }
                v.push(Step::Op { t, id, op, ent });
                list.push((t, id));
                id += 1;
            }
            let _ = k;
        }
        if matches!(kind, Kind::Own | Kind::Different) {
            for t in 0..threads {
                list.push((t, BUILD));
            }
        }
        let pos = |r: &mut Rng| match r.below(10) {
            0 => Pos::Start,
            1 => Pos::Edge(1 + r.log(2000) as u32),
            2..=5 => Pos::Rare(r.below(65536) as u16),
            _ => Pos::Frac(r.below(65536) as u16),
        };
        let n = match r.below(4) {
            0 => 1,
            1 => 2 + r.usize(3),
            _ => 4 + r.usize(12),
        };
        for _ in 0..n {
            let (t, id) = *r.pick(&list);
            let at = pos(r);
            v.push(Step::Preempt { t, id, at, to: r.below(4) as u8 });
        }
        for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
            let (t, id) = *r.pick(&list);
            let at = pos(r);
            v.push(Step::Burst { t, id, at, gap: 1 + r.log(300) as u16, n: 2 + r.log(400) as u16, to: r.below(4) as u8 });
        }
        if r.chance(2, 3) {
            v.push(Step::Touch { seed: r.seed(), n: 1 + r.log(24) as u8 });
        }
        v.push(Step::Choices(r.bytes(8)));
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let (mut seed, mut threads, mut kind, mut cpu) = (1, 2u8, Kind::Shared, 0);
        let mut per: Vec<Vec<(u16, Op, EntropyPlan)>> = vec![vec![]; 8];
        let mut choices = vec![];
        for s in steps {
            match s {
                Step::World { seed: a, threads: b, kind: c, cpu: d } => (seed, threads, kind, cpu) = (*a, (*b).clamp(1, 8), *c, *d),
                Step::Op { t, id, op, ent } => per[*t as usize % 8].push((*id, op.clone(), ent.clone())),
                Step::Choices(c) => choices = c.clone(),
                _ => {}
            }
        }
        per.truncate(threads as usize);
        env::set_cpu(cpu);
        if cpu != 0 {
            cx.fault("cpu.feature_absent");
        }
        let seed_of = move |t: usize| if kind == Kind::Different { seed.wrapping_add(t as u32) } else { seed };
        let shared: Option<Vec<Arc<World>>> = match kind {
            Kind::Shared => Some(alloc::tracked(|| Ok(vec![Arc::new(cx.call("world", || World::new(seed))?)]))?),
            Kind::Two => Some(alloc::tracked(|| Ok(vec![Arc::new(cx.call("world", || World::new(seed))?), Arc::new(cx.call("world", || World::new(seed ^ 1))?)]))?),
            _ => None,
        };
        let heap = if shared.is_some() { alloc::live(1 << 16) } else { vec![] };
        // what each operation returns when it runs alone, how long it is, and where the plan's switches fall, found
        // in a copy of the process
        type Alone = Vec<Vec<(u16, Res)>>;
        let (alone, preempts, touched): (Alone, Vec<Preempt>, u64) = aside(|| {
            cov::set_hang_budget(2 * sched::HANG);
            let mut pre = vec![];
            let mut touches: Vec<(u8, u16, u32, u32)> = vec![];
            let mut place = |t: usize, id: u16, log: &[u32]| {
                let mut rare: Vec<u32> = vec![];
                let mut ready = false;
                let mut abs = |at: &Pos| match at {
                    Pos::Start => 0,
                    Pos::Edge(e) => *e,
                    Pos::Frac(f) => (*f as u64 * log.len() as u64 / 65536) as u32 + 1,
                    Pos::Rare(f) => {
                        if !ready {
                            ready = true;
                            let mut n = vec![0u32; cov::MAX_EDGES];
                            log.iter().for_each(|&g| n[g as usize] += 1);
                            rare = (0..log.len()).filter(|&i| n[log[i] as usize] <= 6).map(|i| i as u32 + 1).collect();
                        }
                        match rare.len() {
                            0 => 1,
                            k => rare[*f as usize * k / 65536],
                        }
                    }
                };
                for s in steps {
                    match s {
                        Step::Preempt { t: a, id: b, at, to } if *a as usize == t && *b == id => pre.push(Preempt { t: *a, op: id, edge: abs(at), to: *to }),
                        Step::Burst { t: a, id: b, at, gap, n, to } if *a as usize == t && *b == id => {
                            let e = abs(at);
                            for i in 0..(*n as u32).min(600) {
                                pre.push(Preempt { t: *a, op: id, edge: e + i * *gap as u32, to: to.wrapping_add(i as u8) });
                            }
                        }
                        _ => {}
                    }
                }
            };
            let alone = per
                .iter()
                .enumerate()
                .map(|(t, l)| {
                    let ws = shared.clone().unwrap_or_else(|| {
                        let (w, log) = cov::logged(1 << 22, || World::new(seed_of(t)));
                        place(t, BUILD, &log);
                        vec![Arc::new(w)]
                    });
                    let mut o = vec![];
                    for (id, op, ent) in l {
                        let mut w = cov::Watch::new(&heap);
                        let (r, log) = cov::logged(1 << 22, || cov::watched(&mut w, || one(&ws[*id as usize % ws.len()], op, ent)));
                        touches.extend(w.touches.iter().map(|x| (t as u8, *id, x.0, x.1)));
                        place(t, *id, &log);
                        o.push((*id, r));
                    }
                    o
                })
                .collect();
            for s in steps {
                if let Step::Touch { seed, n } = s {
                    let mut r = Rng::new(*seed as u64);
                    for _ in 0..if touches.is_empty() { 0 } else { *n } {
                        let (t, op, a, b) = *r.pick(&touches);
                        let edge = a + r.below((b - a + 2) as u64) as u32;
                        pre.push(Preempt { t, op, edge, to: r.below(4) as u8 });
                    }
                }
            }
            (alone, pre, touches.len() as u64)
        })?;
        cx.faultn("sched.touch_seen", touched);
        let got: Vec<Arc<Mutex<Vec<(u16, Res)>>>> = per.iter().map(|_| Arc::new(Mutex::new(vec![]))).collect();
        let bodies: Vec<Box<dyn FnOnce() + Send>> = per
            .iter()
            .zip(&got)
            .enumerate()
            .map(|(t, (l, g))| {
                let (l, g, shared) = (l.clone(), g.clone(), shared.clone());
                let b: Box<dyn FnOnce() + Send> = Box::new(move || {
                    let ws = match shared {
                        Some(w) => w,
                        None => {
                            sched::op_begin(BUILD);
                            match catch(|| Arc::new(World::new(seed_of(t)))) {
                                Ok(w) => vec![w],
                                Err((s, m)) => {
                                    g.lock().unwrap().push((BUILD, Err(format!("panic:{s}: {m}"))));
                                    return;
                                }
                            }
                        }
                    };
                    for (id, op, ent) in &l {
                        sched::op_begin(*id);
                        let r = one(&ws[*id as usize % ws.len()], op, ent);
                        cov::clear_action();
                        g.lock().unwrap().push((*id, r));
                    }
                });
                b
            })
            .collect();
        let rep = sched::run(bodies, &preempts, &choices);
        cx.switches += rep.preempts_fired;
        cx.sched_hash = rep.switch_hash;
        cx.faultn("sched.preempt", rep.preempts_fired);
        cx.faultn("sched.blocked", rep.futex_blocks);
        for (t, l) in per.iter().enumerate() {
            let g = got[t].lock().unwrap();
            if let Some((BUILD, Err(e))) = g.first() {
                fail!("panic-concurrent", "making objects on thread {t} failed: {e}");
            }
            ensure!(g.len() == l.len(), "lost", "thread {t} finished {} of {} operations", g.len(), l.len());
            for ((id, op, _), (id2, r)) in l.iter().zip(g.iter()) {
                cx.check();
                cx.op(&op.name());
                debug_assert_eq!(id, id2);
                let want = &alone[t].iter().find(|x| x.0 == *id).unwrap().1;
                if let Err(e) = want {
                    // an operation that panics even alone is not this property's matter
                    if e.starts_with("panic:") {
                        continue;
                    }
                }
                if let Err(e) = r {
                    ensure!(!e.starts_with("panic:"), "panic-concurrent", "{} on thread {t} panicked only under concurrency: {e}", op.name());
                }
                ensure!(r == want, "differs", "{} (operation {id} on thread {t}) returned something else than when run alone: {}", op.name(), show(r, want));
                match r {
                    Ok(b) => cx.ev_bytes("op", b),
                    Err(e) => cx.ev(e),
                }
            }
        }
        Ok(())
    }
}

fn show(a: &Res, b: &Res) -> String {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            format!("{} and {} bytes, first difference at {i}", a.len(), b.len())
        }
        (a, b) => format!("{:?} instead of {:?}", a.as_ref().map(|v| v.len()), b.as_ref().map(|v| v.len())),
    }
}

pub fn def() -> Def {
    Def {
        id: "C08",
        title: "Concurrent use is indistinguishable from sequential use",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 9000,
        thorough: 60000,
        rule: "a run (2-4 threads of mixed or similar operations on shared or own objects under a seeded schedule of preemptions at control-flow edges) counts when every operation's result was compared with the result of running it alone; distinct by history hash, interleavings by the hash of all switches",
        real: &["all of graviola's public operations", "rustls-graviola provider objects, ticketer", "rustls TicketRotator locking"],
        stub: &["thread scheduler (one thread runs at a time; switches at compiled-in control-flow edges and at futex waits)", "getrandom(2)", "cpuid"],
        probes: &[],
        assumptions: &["interleavings are sequentially consistent, switching only at control-flow edges, not between the instructions of a basic block or inside inline assembly"],
    }
}
