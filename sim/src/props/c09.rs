//! C09: results do not depend on the machine's optional CPU features.
use super::prelude::*;
use crate::isa;
use crate::machine::{Cmd, Keys, Machine, Reply, expected, split};
use crate::ops::{self, Op};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// machines of the fleet, by the features they lack; all hold the same keys
    Fleet { seed: u32, lack: Vec<u32> },
    /// the same request on every machine
    All { op: Op, ent: u32 },
    /// sealed on one machine, opened on another
    Ship { from: u8, to: u8, alg: u8, nonce: u32, aad: u32, len: u32, dmg: Vec<Dmg> },
    /// signed on one machine, verified on another
    Vouch { from: u8, to: u8, kind: u8, hash: u8, msg: u32, len: u16, ent: u32, bad: Option<u16> },
    /// keys generated on one machine are exported, loaded on another, and used there
    Move { from: u8, to: u8, kind: u8, ent: u32 },
    /// a machine whose CPU lacks mandatory features (and some optional ones) is given keys and work
    Unfit { lack: u32, seed: u32, ops: Vec<(Op, u32)> },
    /// a running process finds mandatory features gone (the library's own seam) and is given work
    Vanish { lack: u32, seed: u32, ops: Vec<(Op, u32)> },
}

fn gen_wide(r: &mut Rng) -> Op {
    // now and then more data in one call than any code path's inner loop takes
    let top = match r.below(40) {
        0 => 1 << 21,
        1..=4 => 150_000,
        5..=8 => 20_000,
        _ => 6000,
    };
    match r.below(10) {
        0 | 1 => Op::Aead { alg: r.below(4) as u8, nonce: r.seed(), aad: r.len(16, 1500.max(top / 4)) as u32, len: r.len(256, top) as u32, bad: r.chance(1, 4) },
        2 | 3 => Op::Hash { alg: r.below(3) as u8, len: r.len(128, top) as u32, seed: r.seed(), cut: if r.chance(1, 2) { 0 } else { r.log(top) as u32 } },
        4 => Op::Record { suite: r.below(9) as u8, len: r.len(256, 16384) as u16, seq: r.below(1 << 20) as u32, bad: r.chance(1, 4) },
        5 => match r.below(4) {
            0 => Op::Hmac { alg: r.below(3) as u8, len: r.len(128, top) as u32, seed: r.seed() },
            1 => Op::Sha3 { alg: r.below(2) as u8, len: r.len(136, top) as u32, seed: r.seed() },
            2 => Op::Shake { alg: r.below(2) as u8, len: r.len(136, top) as u32, out: r.len(136, top) as u32, cut: r.below(400) as u32, seed: r.seed() },
            _ => Op::ProviderHash { alg: r.below(2) as u8, len: r.len(128, top) as u32, seed: r.seed() },
        },
        _ => ops::gen_op(r),
    }
}

/// bits of `lack` a supported machine may lack: all the optional ones; BMI2 only as far as the library's seam goes,
/// for its documentation requires it
const OPTIONAL: u32 = 0x7f;
const BMI2: u32 = 1 << 6;
/// what a machine must have: the documented list
const MANDATORY: u32 = 0x1fc0;
/// the part of it the library's seam can deny
const SEAM: u32 = 0xf80;

fn gen_lack(r: &mut Rng, run: u64) -> u32 {
    match r.below(5) {
        0 => 0x7f,
        1 => 1 << r.below(7),
        2 => 0x7f & !(1 << r.below(7)),
        3 => (run % 128) as u32,
        _ => r.below(128) as u32,
    }
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        if r.chance(1, 4) {
            // machines that must not work
            let mut v = vec![];
            for _ in 0..1 + r.usize(2) {
                let lack = match r.below(4) {
                    0 | 1 => 1 << (6 + r.below(7)),
                    2 => (1 << (6 + r.below(7))) | r.below(128) as u32,
                    _ => (1 << (6 + r.below(7))) | r.below(1 << 13) as u32,
                };
                v.push(Step::Unfit { lack, seed: r.seed(), ops: (0..2 + r.usize(5)).map(|_| (gen_wide(r), r.seed())).collect() });
            }
            let lack = (1 << (7 + r.below(5))) | if r.chance(1, 3) { r.below(1 << 12) as u32 } else { 0 };
            v.push(Step::Vanish { lack, seed: r.seed(), ops: (0..3 + r.usize(10)).map(|_| (ops::gen_op(r), r.seed())).collect() });
            return v;
        }
        let mut lack = vec![0u32];
        for _ in 0..1 + r.usize(3) {
            lack.push(gen_lack(r, run));
        }
        let n = lack.len() as u64;
        let mut v = vec![Step::Fleet { seed: r.seed(), lack }];
        for _ in 0..6 + r.usize(if tier == Tier::Thorough { 40 } else { 16 }) {
            let (from, to) = (r.below(n) as u8, r.below(n) as u8);
            v.push(match r.below(9) {
                0..=4 => Step::All { op: gen_wide(r), ent: r.seed() },
                5 | 6 => Step::Ship {
                    from,
                    to,
                    alg: r.below(4) as u8,
                    nonce: r.seed(),
                    aad: r.len(16, 1500) as u32,
                    len: if r.chance(1, 100) { (1 << 20) + r.below(1 << 17) as u32 } else { r.len(256, 6000) as u32 },
                    dmg: if r.chance(1, 3) { gen_damage(r) } else { vec![] },
                },
                7 => Step::Vouch {
                    from,
                    to,
                    kind: r.below(5) as u8,
                    hash: r.below(3) as u8,
                    msg: r.seed(),
                    len: r.len(64, 2000) as u16,
                    ent: r.seed(),
                    bad: if r.chance(1, 3) { Some(r.below(65536) as u16) } else { None },
                },
                _ => Step::Move { from, to, kind: r.below(3) as u8, ent: r.seed() },
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut nodes: Vec<Machine> = vec![];
        let mut keys = Keys::default();
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Fleet { seed, lack } => {
                    nodes.clear();
                    for m in lack {
                        let m = m & OPTIONAL;
                        cx.faultn("cpu.feature_absent", m.count_ones() as u64);
                        let mut n = Machine::boot(m & BMI2, m & !BMI2, cx);
                        let (k, _) = n.must(cx, "world", &Cmd::World(*seed))?;
                        keys = serde_json::from_slice(&k.unwrap()).unwrap();
                        nodes.push(n);
                    }
                }
                Step::All { op, ent } => {
                    let mut first: Option<(u32, ops::Out, Vec<u8>)> = None;
                    for n in &mut nodes {
                        let (o, drawn) = n.must(cx, &op.name(), &Cmd::Op { op: op.clone(), ent: *ent })?;
                        cx.check();
                        match &first {
                            None => {
                                if let Some(w) = expected(&keys, op) {
                                    ensure!(o.as_ref().ok().is_some_and(|o| o.starts_with(&w)), "wrong", "{} differs from the independent implementation on a machine lacking [{}]: {op:?}", op.name(), names(n.lack));
                                }
                                if let Ok(o) = &o {
                                    cx.ev_bytes("op", o);
                                }
                                first = Some((n.lack, o, drawn));
                            }
                            Some((m0, o0, l0)) => {
                                ensure!(o == *o0, "differs", "{} gives different results on machines lacking [{}] and [{}]: {op:?}", op.name(), names(n.lack), names(*m0));
                                ensure!(drawn == *l0, "differs", "{} consumes different entropy on machines lacking [{}] and [{}]", op.name(), names(n.lack), names(*m0));
                            }
                        }
                    }
                }
                Step::Ship { from, to, alg, nonce, aad, len, dmg } => {
                    if nodes.is_empty() {
                        continue;
                    }
                    let (a, b) = (*from as usize % nodes.len(), *to as usize % nodes.len());
                    let alg = *alg % 4;
                    let n = expand(*nonce, refs::aead_nonce_len(alg));
                    let ad = expand(nonce ^ 1, *aad as usize);
                    let pt = expand(nonce ^ 2, *len as usize);
                    let w = nodes[a].must(cx, "seal", &Cmd::Seal { alg, nonce: n.clone(), aad: ad.clone(), pt: pt.clone() })?.0;
                    let mut wire = w.unwrap();
                    let (rc, rt) = refs::seal(alg, &keys.aead[alg as usize], &n, &ad, &pt);
                    ensure!(wire[..pt.len()] == rc[..] && wire[pt.len()..] == rt, "wrong", "sealed bytes (alg {alg}, {len}/{aad} bytes) differ from the independent implementation on a machine lacking [{}]", names(nodes[a].lack));
                    let intact = wire.clone();
                    let changed = !dmg.is_empty() && damage(&mut wire, dmg, &expand(nonce ^ 9, 64), "wire", cx) && wire != intact;
                    if wire.len() < 16 {
                        continue;
                    }
                    let cut = wire.len() - 16;
                    let r = nodes[b].must(cx, "open", &Cmd::Open { alg, nonce: n, aad: ad, ct: wire[..cut].to_vec(), tag: wire[cut..].to_vec() })?.0;
                    cx.check();
                    if changed {
                        ensure!(r == Err("refused".into()), "forged", "damaged data opened, or was left in the buffer, on a machine lacking [{}] (alg {alg})", names(nodes[b].lack));
                    } else {
                        ensure!(r.as_ref() == Ok(&pt), "differs", "data sealed on a machine lacking [{}] does not open on one lacking [{}] (alg {alg}, {len}/{aad} bytes)", names(nodes[a].lack), names(nodes[b].lack));
                    }
                    cx.ev_bytes("ship", &wire);
                }
                Step::Vouch { from, to, kind, hash, msg, len, ent, bad } => {
                    if nodes.is_empty() {
                        continue;
                    }
                    let (a, b) = (*from as usize % nodes.len(), *to as usize % nodes.len());
                    let m = expand(*msg, *len as usize);
                    let sig = nodes[a].must(cx, "sign", &Cmd::Sign { kind: *kind, hash: *hash, msg: m.clone(), ent: *ent })?.0;
                    let Ok(mut sig) = sig else { fail!("refused", "signing failed on a machine lacking [{}]", names(nodes[a].lack)) };
                    if let Some(p) = bad {
                        let n = sig.len();
                        sig[*p as usize % n] ^= 1 << (p >> 12 & 7);
                        cx.fault("wire.bit_flip");
                    }
                    let ok = nodes[b].must(cx, "verify", &Cmd::Verify { kind: *kind, hash: *hash, msg: m, sig: sig.clone() })?.0 == Ok(vec![1]);
                    cx.check();
                    ensure!(ok == bad.is_none(), "differs", "signature kind {kind} made on a machine lacking [{}] and altered {bad:?}: accepted {ok} on one lacking [{}]", names(nodes[a].lack), names(nodes[b].lack));
                    cx.ev_bytes("sig", &sig);
                }
                Step::Move { from, to, kind, ent } => {
                    if nodes.is_empty() {
                        continue;
                    }
                    let (a, b) = (*from as usize % nodes.len(), *to as usize % nodes.len());
                    let kind = *kind % 3;
                    let made = nodes[a].must(cx, "export", &Cmd::Export { kind, ent: *ent })?.0.unwrap();
                    let (enc, pk) = split(&made);
                    let read = nodes[b].must(cx, "reload", &Cmd::Reload { kind, enc })?.0.unwrap();
                    cx.check();
                    ensure!(made == read, "differs", "key kind {kind} generated on a machine lacking [{}] is another key on one lacking [{}]", names(nodes[a].lack), names(nodes[b].lack));
                    cx.ev_bytes("key", &pk);
                }
                Step::Unfit { lack, seed, ops } => {
                    if lack & MANDATORY == 0 {
                        continue;
                    }
                    cx.fault("cpu.mandatory_absent");
                    let mut n = Machine::boot(0, *lack, cx);
                    match n.ask(&Cmd::World(*seed)) {
                        Reply::Panic(..) => cx.probe("refused"),
                        r => {
                            let _ = n.served("making keys", r)?;
                            fail!("unfit", "keys were made on a machine lacking [{}]", names(*lack));
                        }
                    }
                    cx.check();
                    // work without keys: done right, or refused; keys: refused however often one asks
                    for (op, ent) in ops {
                        let kind = (ent % 10) as u8;
                        match n.ask(&if ent % 31 == 7 { Cmd::World(*seed) } else { Cmd::Make { kind, ent: *ent } }) {
                            Reply::Panic(..) => cx.probe("refused_again"),
                            r => {
                                let _ = n.served("making a key", r)?;
                                fail!("unfit", "an object (kind {kind}) was made and used on a machine lacking [{}]", names(*lack));
                            }
                        }
                        cx.check();
                        let Some(want) = ops::bare_ref(op) else { continue };
                        cx.op(&op.name());
                        match n.ask(&Cmd::Bare { op: op.clone(), ent: *ent }) {
                            Reply::Panic(..) => cx.probe("hash_refused"),
                            r => {
                                let (o, _) = n.served(&op.name(), r)?;
                                ensure!(o.as_ref() == Ok(&want), "unfit", "{} returned a wrong result on a machine lacking [{}]: {op:?}", op.name(), names(*lack));
                                cx.probe("hash_right");
                                cx.ev_bytes("hash", &want);
                            }
                        }
                        cx.check();
                    }
                }
                Step::Vanish { lack, seed, ops } => {
                    let missing = *lack & SEAM;
                    if missing == 0 {
                        continue;
                    }
                    let mut n = Machine::boot(0, 0, cx);
                    let _ = n.must(cx, "world", &Cmd::World(*seed))?;
                    let _ = n.must(cx, "deny", &Cmd::Deny(*lack & 0xfff))?;
                    if n.must(cx, "canary", &Cmd::Canary)?.0 == Ok(vec![0]) {
                        // the process settled what its CPU can do when it started, as it may
                        cx.probe("cpu_model_settled");
                        continue;
                    }
                    cx.fault("cpu.mandatory_vanishes");
                    for (op, ent) in ops {
                        let c = Cmd::Op { op: op.clone(), ent: *ent };
                        cx.op(&op.name());
                        let r = n.ask(&c);
                        cx.check();
                        match r {
                            Reply::Panic(..) => cx.probe("refused"),
                            r => {
                                let (o, _) = n.served(&op.name(), r)?;
                                // hashing, encoding and decoding, refusing a cut ticket, reading random bytes and the undocumented decaps_internal make no check: done right or refused
                                if matches!(op, Op::Hash { .. } | Op::SharedHash { .. } | Op::Hmac { .. } | Op::Sha3 { .. } | Op::Shake { .. } | Op::Fill { .. } | Op::ProviderHash { .. } | Op::DecapsShared { .. } | Op::Export { .. } | Op::Kdf { .. } | Op::ForkHash { .. } | Op::LoadKey { .. } | Op::OpenTicket { .. }) {
                                    let _ = n.must(cx, "deny", &Cmd::Deny(0))?;
                                    let w = n.must(cx, &op.name(), &c)?.0;
                                    let _ = n.must(cx, "deny", &Cmd::Deny(*lack & 0xfff))?;
                                    ensure!(o == w, "unfit", "{} returned a wrong result on a machine lacking the required [{}]", op.name(), names(missing));
                                    continue;
                                }
                                fail!("unfit", "{} ran ({}) on a machine lacking the required [{}]", op.name(), if o.is_ok() { "and returned a result" } else { "and returned an error" }, names(missing));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn names(m: u32) -> String {
    isa::NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| *n).collect::<Vec<_>>().join(", ")
}

pub fn def() -> Def {
    Def {
        id: "C09",
        title: "Results do not depend on the machine's optional CPU features",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 6000,
        thorough: 100000,
        rule: "a run (a fleet of machines, each a process with its own simulated CPU, doing the same, shipped or moved work; or unfit machines asked to work) counts when results were compared across machines or a refusal was judged; distinct by history hash",
        real: &["all of graviola's public operations and their CPU-dependent variants, executing natively", "rustls-graviola record layer, signers, verifiers", "the standard library's CPU feature detection"],
        stub: &["the CPU: cpuid answers and illegal-instruction traps for the features a machine lacks (BMI2 on supported machines and features vanishing from a running process: the library's GRAVIOLA_CPU_DISABLE_* seam)", "getrandom(2)"],
        probes: &["refused", "refused_again", "hash_right"],
        assumptions: &["x86_64 only; the host CPU offers every optional feature, so every subset of them can be simulated", "traps cover the instructions in the library's own functions, found by disassembling the simulator"],
    }
}
