//! C10: session tickets are confidential, authentic, rotated and available.
use super::prelude::*;
use crate::{alloc, cov};
use crate::sched::{self, Preempt};
use rustls::server::ProducesTickets;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Enc { len: u16, seed: u32, ent: EntropyPlan },
    /// `pick` among the tickets known at that moment; damaged on the way if `dmg`
    Dec { pick: u32, dmg: Vec<Dmg>, other: u32, ent: EntropyPlan },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// (re)start server `s`
    Start { s: u8, ent: EntropyPlan },
    Clock { secs: i64 },
    /// what a key depends on: a server's first key, or the one made at its `gen`th rotation
    Key { seed: u32, len: u8, gen_: u8 },
    Do { s: u8, op: TOp },
    /// several threads of one server at once
    Phase { s: u8, threads: Vec<Vec<TOp>>, cuts: Vec<(u8, u16, u32, u8)>, choices: Vec<u8>, touch: (u32, u8) },
}

const LIFE: i64 = 6 * 60 * 60;

struct Ticket {
    server: u32,
    msg: Vec<u8>,
    bytes: Vec<u8>,
}

/// One possible history of a server's keys: the generation in use, the time after which it is replaced,
/// and the generation that issued each ticket.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct State {
    cur: u32,
    until: i64,
    by: BTreeMap<usize, u32>,
}

struct Server {
    /// unique over restarts
    id: u32,
    t: Arc<dyn ProducesTickets>,
    states: BTreeSet<State>,
    /// memory it was made of when it started
    heap: Vec<(usize, usize)>,
}

struct Obs {
    out: Option<Vec<u8>>,
    log: env::EntropyLog,
    /// what was decrypted (None: an encryption of .1)
    sent: Option<Vec<u8>>,
    msg: Vec<u8>,
    panic: Option<String>,
}

fn run_op(t: &dyn ProducesTickets, op: &TOp, book: &Mutex<Vec<Ticket>>, server: u32, layer: &mut Vec<&'static str>) -> Obs {
    match op {
        TOp::Enc { len, seed, ent } => {
            let msg = expand(*seed, *len as usize);
            let (r, log) = env::with_entropy(ent, || catch(|| t.encrypt(&msg)));
            let (out, panic) = match r {
                Ok(o) => (o, None),
                Err(e) => (None, Some(e.1)),
            };
            if let Some(b) = &out {
                book.lock().unwrap().push(Ticket { server, msg: msg.clone(), bytes: b.clone() });
            }
            Obs { out, log, sent: None, msg, panic }
        }
        TOp::Dec { pick, dmg, other, ent } => {
            let b = book.lock().unwrap();
            let (mut bytes, oth) = if b.is_empty() {
                (expand(*pick, 90), vec![])
            } else {
                (b[*pick as usize % b.len()].bytes.clone(), b[*other as usize % b.len()].bytes.clone())
            };
            drop(b);
            for d in dmg {
                if d.apply(&mut bytes, &oth) {
                    layer.push(d.kind());
                }
            }
            let (r, log) = env::with_entropy(ent, || catch(|| t.decrypt(&bytes)));
            let (out, panic) = match r {
                Ok(o) => (o, None),
                Err(e) => (None, Some(e.1)),
            };
            Obs { out, log, sent: Some(bytes), msg: vec![], panic }
        }
    }
}

struct W {
    servers: BTreeMap<u8, Server>,
    next_id: u32,
    book: Arc<Mutex<Vec<Ticket>>>,
}

impl W {
    /// The server's keys at the time of an operation: one state per possibility. `sure`: some operation that met no
    /// entropy failure ran, so that a rotation that was due has happened.
    fn advance(states: &BTreeSet<State>, now: i64, sure: bool) -> BTreeSet<State> {
        let mut o = BTreeSet::new();
        for s in states {
            let rolled = State { cur: s.cur + 1, until: now + LIFE, by: s.by.clone() };
            // within two seconds of the deadline either is right
            if now > s.until + 2 {
                if !sure {
                    o.insert(s.clone());
                }
                o.insert(rolled);
            } else if now < s.until - 1 {
                o.insert(s.clone());
            } else {
                o.insert(s.clone());
                o.insert(rolled);
            }
        }
        o
    }

    fn judge(&mut self, cx: &mut Cx, s: u8, seen: &[Obs], phase: bool) -> R {
        let now = env::clock_secs();
        let book = self.book.lock().unwrap();
        let srv = self.servers.get_mut(&s).unwrap();
        let clean = |o: &Obs| o.log.errors + o.log.zeros == 0 && !o.log.exhausted;
        let mut states = Self::advance(&srv.states, now, seen.iter().any(clean));
        let before: usize = states.len();
        for o in seen {
            cx.check();
            if let Some(p) = &o.panic {
                fail!("panic", "ticketer panicked: {p}");
            }
            match &o.sent {
                None => match &o.out {
                    Some(t) => {
                        let i = book.iter().position(|k| k.bytes == *t && k.server == srv.id).unwrap();
                        // confidentiality
                        if o.msg.len() >= 12 {
                            ensure!(!t.windows(12).any(|w| o.msg.windows(12).any(|m| m == w)), "leak", "the ticket shows part of the state it protects");
                            let body = |k: &Ticket| k.bytes[40..].to_vec();
                            for k in book.iter().filter(|k| k.bytes != *t && k.msg.len() >= 12 && k.bytes.len() > 56 && k.bytes[..16] == t[..16]) {
                                let n = k.msg.len().min(o.msg.len()).min(32);
                                let (x, y) = (body(k), &t[40..]);
                                ensure!((0..n).any(|j| x[j] ^ y[j] != k.msg[j] ^ o.msg[j]), "keystream-reuse", "two tickets under one key are encrypted with the same key stream");
                                ensure!(k.bytes[16..40] != t[16..40], "nonce-reuse", "two tickets under one key share a nonce");
                            }
                        }
                        ensure!(t.len() > 56 && o.log.bytes.windows(24).any(|w| *w == t[16..40]), "nonce", "the ticket's nonce is not what the entropy source delivered for it");
                        states = states
                            .into_iter()
                            .map(|mut st| {
                                st.by.insert(i, st.cur);
                                st
                            })
                            .collect();
                        cx.ev_bytes("ticket", t);
                    }
                    None => {
                        ensure!(!clean(o), "unavailable", "no ticket was issued although nothing failed");
                        cx.probe("no_ticket");
                    }
                },
                Some(b) => {
                    let known: Vec<usize> = (0..book.len()).filter(|i| book[*i].bytes == *b).collect();
                    match &o.out {
                        Some(p) => {
                            let Some(i) = known.iter().find(|i| book[**i].server == srv.id).copied() else {
                                fail!("forged", "a ticket this server never issued was accepted ({} bytes, {})", b.len(), if known.is_empty() { "altered" } else { "another server's" });
                            };
                            ensure!(*p == book[i].msg, "wrong-state", "a ticket decrypted to other state than was sealed in it");
                            // a decryption overlapping a rotation may still see a ticket made later in the same phase
                            states.retain(|st| st.by.get(&i).is_none_or(|k| st.cur - k <= 1));
                            ensure!(!states.is_empty(), "stale", "a ticket was accepted after two later keys had been rotated in");
                            cx.ev("accepted");
                            cx.probe("accepted");
                        }
                        None => {
                            if let Some(i) = known.iter().find(|i| book[**i].server == srv.id).copied() {
                                if clean(o) && !book[i].msg.is_empty() {
                                    states.retain(|st| st.by.get(&i).is_some_and(|k| st.cur - k > 1));
                                    ensure!(!states.is_empty(), "unavailable", "an intact ticket of {} bytes was refused although its key was rotated out at most once", b.len());
                                    cx.probe("expired");
                                }
                            }
                            cx.ev("refused");
                        }
                    }
                }
            }
        }
        let _ = (before, phase);
        srv.states = states;
        Ok(())
    }
}

fn gen_ent(r: &mut Rng) -> EntropyPlan {
    let mut p = EntropyPlan::good(r.seed());
    if r.chance(1, 6) {
        let k = r.below(4) as u32;
        p.faults.push((k, match r.below(5) {
            0 | 1 | 2 => Fault::Errno(*r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSYS, libc::EPERM])),
            3 => Fault::Eintr(1 + r.below(3) as u8),
            _ => Fault::Short(r.below(20) as u8 + 1),
        }));
    }
    p
}

fn gen_top(r: &mut Rng) -> TOp {
    if r.chance(1, 2) {
        TOp::Enc { len: 1 + r.len(64, 500) as u16, seed: r.seed(), ent: gen_ent(r) }
    } else {
        TOp::Dec { pick: r.u32() >> 1, dmg: if r.chance(1, 3) { gen_damage(r) } else { vec![] }, other: r.u32() >> 1, ent: gen_ent(r) }
    }
}

/// Several threads at once, with a seeded plan of switches.
fn gen_phase(r: &mut Rng, s: u8, enc_only: bool) -> Step {
    let nt = *r.pick(&[2usize, 2, 2, 3, 4]);
    let threads: Vec<Vec<TOp>> = (0..nt)
        .map(|_| {
            let n = if enc_only { 1 } else { 1 + r.usize(3) };
            (0..n).map(|_| if enc_only { TOp::Enc { len: 1 + r.len(64, 500) as u16, seed: r.seed(), ent: EntropyPlan::good(r.seed()) } } else { gen_top(r) }).collect()
        })
        .collect();
    let mut cuts = vec![];
    for _ in 0..r.usize(8) {
        let t = r.usize(nt);
        let op = r.usize(threads[t].len());
        cuts.push((t as u8, op as u16, r.log(700) as u32, r.below(4) as u8));
    }
    if r.chance(1, 2) {
        // a run of close switches inside one operation
        let t = r.usize(nt);
        let op = r.usize(threads[t].len()) as u16;
        let (mut e, gap) = (r.log(500) as u32, 1 + r.log(40) as u32);
        for _ in 0..2 + r.usize(30) {
            cuts.push((t as u8, op, e, r.below(4) as u8));
            e += gap;
        }
    }
    let touch = if r.chance(1, if enc_only { 2 } else { 16 }) { (r.seed(), 1 + r.log(8) as u8) } else { (0, 0) };
    Step::Phase { s, threads, cuts, choices: r.bytes(6), touch }
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, _tier: Tier) -> Vec<Step> {
        let mut v = vec![Step::Start { s: 0, ent: EntropyPlan::good(r.seed()) }];
        if r.chance(1, 3) {
            v.push(Step::Start { s: 1, ent: gen_ent(r) });
        }
        if r.chance(1, 6) {
            // the first tickets of a fresh server, all at once
            v.push(gen_phase(r, 0, true));
        }
        let n = 6 + r.usize(24);
        for _ in 0..n {
            let s = if r.chance(1, 5) { 1 } else { 0 };
            v.push(match r.below(20) {
                0 if r.chance(1, 3) => Step::Start { s, ent: gen_ent(r) },
                0..=4 => Step::Clock {
                    secs: match r.below(8) {
                        0 => 1,
                        1 => -(r.log(200_000) as i64),
                        2 => LIFE + 1,
                        3 => LIFE - 5 + r.below(12) as i64,
                        4 => LIFE * (1 + r.below(4) as i64) + r.below(100) as i64,
                        5 => r.below(2 * LIFE as u64) as i64,
                        6 => LIFE + 10,
                        _ => r.log(40_000) as i64,
                    },
                },
                5..=8 => gen_phase(r, s, false),
                9 if r.chance(1, 6) => Step::Key { seed: r.seed(), len: 16 + r.below(100) as u8, gen_: r.below(4) as u8 },
                _ => Step::Do { s, op: gen_top(r) },
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut w = W { servers: BTreeMap::new(), next_id: 0, book: Arc::new(Mutex::new(vec![])) };
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Start { s, ent } => {
                    let (r, log) = alloc::tracked(|| cx.call("ticketer.new", || env::with_entropy(ent, rustls_graviola::Ticketer::new)))?;
                    let heap = alloc::live(1 << 12);
                    cx.log_entropy(&log);
                    let failed = log.errors + log.zeros > 0;
                    match r {
                        Ok(t) => {
                            ensure!(!failed, "contained", "a ticketer was made although the entropy source failed");
                            if w.servers.contains_key(s) {
                                cx.fault("process.restart");
                            }
                            let st = State { cur: 0, until: env::clock_secs() + LIFE, by: BTreeMap::new() };
                            w.next_id += 1;
                            w.servers.insert(*s, Server { id: w.next_id, t, states: [st].into(), heap });
                        }
                        Err(e) => ensure!(failed, "unavailable", "no ticketer although nothing failed: {e:?}"),
                    }
                }
                Step::Clock { secs } => {
                    // keys may now be replaced and freed; what remains is the outermost object
                    for srv in w.servers.values_mut() {
                        let at = Arc::as_ptr(&srv.t) as *const u8 as usize;
                        srv.heap.retain(|h| (h.0..h.0 + h.1).contains(&at));
                    }
                    // the wall clock stays after 1970
                    let to = (env::clock_secs() + secs).max(10);
                    env::clock_set(to * 1_000_000_000);
                    cx.fault(if *secs < 0 { "clock.back" } else if *secs > LIFE { "clock.jump" } else { "clock.advance" });
                    cx.sim_ns += (secs.unsigned_abs()) * 1_000_000_000;
                }
                Step::Key { seed, len, gen_ } => {
                    let at = env::clock_secs();
                    let drawn = expand(*seed, 256);
                    let msg = expand(seed ^ 1, 16 + *len as usize);
                    // a server whose key is made of `bytes`, and a ticket made with the same entropy every time
                    let make = |bytes: &[u8]| -> Result<(Vec<u8>, usize), String> {
                        let script = EntropyPlan { seed: 0, mode: Mode::Script(bytes.to_vec()), faults: vec![] };
                        let other = EntropyPlan::good(seed ^ 2);
                        env::clock_set(at * 1_000_000_000);
                        let (t, log) = env::with_entropy(if *gen_ == 0 { &script } else { &other }, rustls_graviola::Ticketer::new);
                        let t = t.map_err(|e| format!("{e:?}"))?;
                        let mut used = log.bytes.len();
                        let mut o = None;
                        for g in 0..=*gen_ {
                            if g > 0 {
                                env::clock_advance((LIFE + 10) * 1_000_000_000);
                            }
                            let last = g == *gen_;
                            let (x, log) = env::with_entropy(if last && *gen_ > 0 { &script } else { &other }, || t.encrypt(&msg));
                            if last && *gen_ > 0 {
                                used = log.bytes.len();
                            }
                            o = x;
                        }
                        env::clock_set(at * 1_000_000_000);
                        Ok((o.ok_or("no ticket")?, used))
                    };
                    let (base, used) = match cx.call("key", || make(&drawn))? {
                        Ok(x) => x,
                        Err(e) => fail!("unavailable", "no ticket although nothing failed: {e}"),
                    };
                    // whoever can guess a key reads all its tickets: how they are encrypted must depend on as many drawn
                    // bytes as the key is long
                    let mut matter = 0;
                    for i in 0..used.min(drawn.len()) {
                        let mut d = drawn.clone();
                        d[i] ^= 1 << (seed % 8);
                        let Ok((t, _)) = cx.call("key", || make(&d))? else { fail!("unavailable", "no ticket although nothing failed") };
                        // a byte that is itself part of the ticket is no secret
                        let shown = t.len() == base.len() && (0..16).map(|j| (t[j] ^ base[j]).count_ones()).sum::<u32>() == 1;
                        if !shown && t.len() == base.len() && t[16..40] == base[16..40] && t[40..40 + msg.len()] != base[40..40 + msg.len()] {
                            matter += 1;
                        }
                    }
                    cx.check();
                    cx.op("key");
                    cx.ev(format!("{used} drawn, {matter} matter"));
                    ensure!(matter >= 32, "guessable-key", "of the {used} random bytes drawn when a key is made (generation {gen_}), only {matter} are secret and have any influence on how tickets are encrypted under it; the key is 32 bytes");
                }
                Step::Do { s, op } => {
                    let Some(srv) = w.servers.get(s) else { continue };
                    let (t, id) = (srv.t.clone(), srv.id);
                    let mut kinds = vec![];
                    cov::set_hang_budget(sched::HANG);
                    let o = run_op(&*t, op, &w.book, id, &mut kinds);
                    cx.op(if o.sent.is_some() { "decrypt" } else { "encrypt" });
                    for k in kinds {
                        cx.fault(&format!("ticket.{k}"));
                    }
                    cx.log_entropy(&o.log);
                    w.judge(cx, *s, &[o], false)?;
                }
                Step::Phase { s, threads, cuts, choices, touch } => {
                    let Some(srv) = w.servers.get(s) else { continue };
                    let mut preempts: Vec<Preempt> = cuts.iter().map(|c| Preempt { t: c.0, op: c.1, edge: c.2, to: c.3 }).collect();
                    if touch.1 > 0 {
                        // switches where an operation, run alone in a copy of the process, changes the ticketer's memory
                        let touches = aside(|| {
                            let mut o: Vec<(u8, u16, u32, u32)> = vec![];
                            for (t, l) in threads.iter().enumerate() {
                                for (k, op) in l.iter().enumerate() {
                                    let mut wt = cov::Watch::fine(&srv.heap);
                                    cov::logged(1 << 14, || cov::watched(&mut wt, || run_op(&*srv.t, op, &w.book, srv.id, &mut vec![])));
                                    o.extend(wt.touches.iter().map(|x| (t as u8, k as u16, x.0, x.1)));
                                }
                            }
                            o
                        })?;
                        let mut r = Rng::new(touch.0 as u64);
                        for _ in 0..if touches.is_empty() { 0 } else { touch.1 } {
                            let (t, op, a, b) = *r.pick(&touches);
                            preempts.push(Preempt { t, op, edge: a + r.below((b - a + 2) as u64) as u32, to: r.below(4) as u8 });
                        }
                        cx.faultn("sched.touch_seen", touches.len() as u64);
                    }
                    let done: Arc<Mutex<Vec<Obs>>> = Arc::new(Mutex::new(vec![]));
                    let kinds = Arc::new(Mutex::new(vec![]));
                    let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
                        .iter()
                        .map(|l| {
                            let (l, t, id, book, done, kinds) = (l.clone(), srv.t.clone(), srv.id, w.book.clone(), done.clone(), kinds.clone());
                            let b: Box<dyn FnOnce() + Send> = Box::new(move || {
                                for (k, op) in l.iter().enumerate() {
                                    sched::op_begin(k as u16);
                                    let mut kd = vec![];
                                    let o = run_op(&*t, op, &book, id, &mut kd);
                                    cov::clear_action();
                                    kinds.lock().unwrap().extend(kd);
                                    done.lock().unwrap().push(o);
                                }
                            });
                            b
                        })
                        .collect();
                    let rep = sched::run(bodies, &preempts, choices);
                    cx.switches += rep.preempts_fired;
                    cx.sched_hash = crate::rng::mix(cx.sched_hash, rep.switch_hash);
                    cx.faultn("sched.preempt", rep.preempts_fired);
                    cx.faultn("sched.blocked", rep.futex_blocks);
                    for k in kinds.lock().unwrap().iter() {
                        cx.fault(&format!("ticket.{k}"));
                    }
                    let mut seen = std::mem::take(&mut *done.lock().unwrap());
                    // issues before uses: every ticket used in the phase was complete by then
                    seen.sort_by_key(|o| o.sent.is_some());
                    for o in &seen {
                        cx.log_entropy(&o.log);
                        cx.op("concurrent");
                    }
                    w.judge(cx, *s, &seen, true)?;
                }
            }
        }
        // once faults stop, every ticket is judged once more, and a fresh one works
        let ids: Vec<u8> = w.servers.keys().copied().collect();
        for s in ids {
            let (t, id) = (w.servers[&s].t.clone(), w.servers[&s].id);
            let n = w.book.lock().unwrap().len();
            let mut seen = vec![];
            for i in 0..n {
                let op = TOp::Dec { pick: i as u32, dmg: vec![], other: 0, ent: EntropyPlan::good(0x1000 + i as u32) };
                seen.push(run_op(&*t, &op, &w.book, id, &mut vec![]));
            }
            seen.push(run_op(&*t, &TOp::Enc { len: 40, seed: 77 + s as u32, ent: EntropyPlan::good(0x2000 + s as u32) }, &w.book, id, &mut vec![]));
            // one at a time: they happened in this order
            for o in seen {
                w.judge(cx, s, &[o], false)?;
            }
            let last = w.book.lock().unwrap().len() as u32 - 1;
            let o = run_op(&*t, &TOp::Dec { pick: last, dmg: vec![], other: 0, ent: EntropyPlan::good(5) }, &w.book, id, &mut vec![]);
            ensure!(o.out.is_some(), "unavailable", "a fresh ticket does not decrypt after faults stopped");
            w.judge(cx, s, &[o], false)?;
        }
        Ok(())
    }
}

pub fn def() -> Def {
    Def {
        id: "C10",
        title: "Session tickets are confidential, authentic, rotated and available",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 20000,
        thorough: 300000,
        rule: "a run (servers issuing and accepting tickets on one or several threads under seeded schedules, clock movements, restarts, entropy failures and ticket damage) counts when outcomes were judged against the set of key histories still possible; distinct by history hash",
        real: &["rustls-graviola Ticketer", "graviola XChaCha20-Poly1305", "rustls TicketRotator and its lock"],
        stub: &["clock_gettime(2)", "getrandom(2)", "thread scheduler", "ticket transport"],
        probes: &["accepted", "expired", "no_ticket"],
        assumptions: &["the wall clock stays after 1970 (rustls requires it)", "rotation is judged to the nearest two seconds", "sealed states are not empty (TLS states never are)"],
    }
}
