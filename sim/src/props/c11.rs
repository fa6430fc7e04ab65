//! C11: TLS over this provider is safe and live on a faulty network.
use super::prelude::*;
use crate::tls::{Cfg, Configs, Pair, configs};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// two processes start, with this configuration and entropy
    Setup { cfg: Cfg, entropy: u32 },
    Connect,
    Write { side: u8, len: u32, seed: u32 },
    Early { len: u16 },
    /// deliver up to n bytes to a side
    Deliver { side: u8, n: u32 },
    /// deliver everything in flight, in chunks of n
    Flow { side: u8, n: u32 },
    Settle,
    Damage { side: u8, d: Vec<Dmg> },
    /// bytes recorded on an earlier connection appear on the wire
    Inject { side: u8, at: u32, n: u16 },
    Cut { side: u8 },
    KeyUpdate { side: u8 },
    Close { side: u8 },
    Clock { s: i32 },
    /// the server process restarts with the same certificate but no sessions or ticket keys
    RestartServer,
}

pub struct S;

pub fn gen_cfg(r: &mut Rng) -> Cfg {
    let other = r.below(3);
    Cfg {
        c_other: other == 1,
        s_other: other == 2,
        tls13: r.chance(3, 5),
        suite: r.below(3) as u8,
        group: r.below(4) as u8,
        hrr: r.chance(1, 4),
        cert: *r.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 5]),
        client_cert: if r.chance(1, 4) { Some(r.below(6) as u8) } else { None },
        resume: *r.pick(&[0, 0, 1, 2]),
        frag: if r.chance(1, 4) { Some(*r.pick(&[32, 64, 100, 512, 1024, 4096, 16389])) } else { None },
        early: r.chance(1, 4),
        schemes: if r.chance(1, 2) { 0 } else if r.chance(2, 3) { 1 << r.below(6) } else { r.below(64) as u8 },
        wide: if r.chance(1, 3) { 1 + r.below(3) as u8 } else { 0 },
        rpk: r.chance(1, 8),
        multi: if r.chance(1, 4) { 1 + r.below(8) as u8 } else { 0 },
        prefer: if r.chance(1, 2) { 0 } else { r.below(12) as u8 },
    }
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, _tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 3) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        v.push(Step::Setup { cfg: gen_cfg(r), entropy: r.seed() });
        let conns = 1 + r.usize(3);
        for _ in 0..conns {
            v.push(Step::Connect);
            // intensity of faults on this connection: none, network, heavy
            let hostile = r.below(3);
            let n = 4 + r.usize(22);
            let settle_first = r.chance(1, 2);
            if r.chance(1, 4) {
                v.push(Step::Early { len: r.below(3000) as u16 });
            }
            if settle_first && hostile != 2 {
                v.push(Step::Settle);
            }
            for _ in 0..n {
                let side = r.below(2) as u8;
                let bad = hostile > 0 && r.chance(1, if hostile == 1 { 10 } else { 5 });
                v.push(if bad {
                    match r.below(12) {
                        0..=8 => Step::Damage { side, d: gen_damage(r) },
                        9 | 10 => Step::Inject { side, at: r.u32() >> 1, n: 1 + r.log(3000) as u16 },
                        _ => Step::Cut { side },
                    }
                } else {
                    match r.below(18) {
                        0..=4 => Step::Write { side, len: *r.pick(&[1, 16, 100, 1000, 5000, 16384, 16385, 20000]) + r.below(20) as u32, seed: r.seed() },
                        5..=8 => Step::Deliver { side, n: 1 + r.log(20000) as u32 },
                        9..=13 => Step::Flow { side, n: *r.pick(&[1, 5, 7, 64, 536, 1460, 16384]) },
                        14 => Step::Settle,
                        15 => Step::KeyUpdate { side },
                        16 => {
                            if r.chance(1, 3) {
                                Step::Close { side }
                            } else {
                                Step::Settle
                            }
                        }
                        _ => Step::Clock { s: *r.pick(&[1, 60, 3600, 21601, 43300, -5]) },
                    }
                });
            }
            if r.chance(1, 10) {
                v.push(Step::RestartServer);
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut k: Option<(Configs, Cfg)> = None;
        let mut p: Option<Pair> = None;
        let mut history: [Vec<u8>; 2] = Default::default();
        let mut seed = 0;
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Setup { cfg, entropy } => {
                    finish(&mut p, cx)?;
                    env::set_entropy(&EntropyPlan::good(*entropy), 1 << 24);
                    seed = *entropy;
                    let c = cx.call("tls.config", || configs(cfg))?;
                    match c {
                        Ok(c) => k = Some((c, cfg.clone())),
                        Err(e) => fail!("config", "valid configuration refused: {e} {cfg:?}"),
                    }
                }
                Step::RestartServer => {
                    finish(&mut p, cx)?;
                    if let Some((c, cfg)) = &mut k {
                        let n = cx.call("tls.config", || configs(cfg))?;
                        match n {
                            Ok(n) => c.s = n.s,
                            Err(e) => fail!("config", "valid configuration refused: {e}"),
                        }
                        cx.fault("process.restart");
                    }
                }
                Step::Connect => {
                    finish(&mut p, cx)?;
                    let Some((c, _)) = &k else { continue };
                    let n = cx.call("tls.connect", || Pair::new(c))?;
                    match n {
                        Ok(n) => p = Some(n),
                        Err(e) => fail!("connect", "connection could not be created: {e}"),
                    }
                }
                Step::Clock { s } => {
                    env::clock_advance(*s as i64 * 1_000_000_000);
                    cx.fault(if *s < 0 { "clock.back" } else { "clock.jump" });
                }
                _ => {
                    let Some(q) = p.as_mut() else { continue };
                    let side = |x: &u8| *x as usize & 1;
                    match s {
                        Step::Write { side: sd, len, seed } => {
                            let d = expand(*seed | 2, (*len).min(30000) as usize);
                            cx.call("tls.write", || q.write(side(sd), &d))?;
                        }
                        Step::Early { len } => {
                            let d = expand(*len as u32 | 2, *len as usize);
                            cx.call("tls.early", || q.early(&d))?;
                        }
                        Step::Deliver { side: sd, n } => {
                            cx.call("tls.deliver", || {
                                q.flush(0);
                                q.flush(1);
                                q.deliver(side(sd), *n as usize);
                            })?;
                            cx.fault("net.fragmented");
                        }
                        Step::Flow { side: sd, n } => {
                            q.flush(0);
                            q.flush(1);
                            let sd = side(sd);
                            let n = (*n).max(1) as usize;
                            let mut c = 0;
                            while !q.wire[sd].is_empty() && c < 3000 {
                                cx.call("tls.deliver", || q.deliver(sd, n))?;
                                c += 1;
                            }
                            cx.faultn("net.fragmented", c);
                        }
                        Step::Settle => {
                            let ok = cx.call("tls.settle", || q.settle(200))?;
                            ensure!(ok, "livelock", "endpoints keep talking after 200 deliveries");
                        }
                        Step::Damage { side: sd, d } => {
                            q.flush(0);
                            q.flush(1);
                            for s in 0..2 {
                                if history[s].len() < 1 << 16 {
                                    history[s].extend(&q.wire[s]);
                                }
                            }
                            q.damage(side(sd), d, cx);
                        }
                        Step::Inject { side: sd, at, n } => {
                            q.flush(0);
                            q.flush(1);
                            let sd = side(sd);
                            if history[sd].len() < 1 << 16 {
                                let w = q.wire[sd].clone();
                                history[sd].extend(&w);
                            }
                            if history[sd].is_empty() {
                                continue;
                            }
                            let a = *at as usize % history[sd].len();
                            let e = (a + *n as usize).min(history[sd].len());
                            let bytes = history[sd][a..e].to_vec();
                            q.wire[sd].extend(bytes);
                            q.tampered[sd] = true;
                            cx.fault("net.replay");
                        }
                        Step::Cut { side: sd } => {
                            q.flush(0);
                            q.flush(1);
                            cx.call("tls.cut", || q.cut(side(sd)))?;
                            cx.fault("net.connection_cut");
                        }
                        Step::KeyUpdate { side: sd } => {
                            if k.as_ref().is_some_and(|k| k.1.tls13) {
                                cx.call("tls.key_update", || q.key_update(side(sd)))?;
                            }
                        }
                        Step::Close { side: sd } => {
                            cx.call("tls.close", || q.close(side(sd)))?;
                        }
                        _ => {}
                    }
                    safe(q, cx)?;
                }
            }
        }
        finish(&mut p, cx)?;
        // faults have stopped: a fresh connection must work, twice (the second may resume)
        if let Some((c, cfg)) = &k {
            for round in 0..2 {
                let n = cx.call("tls.connect", || Pair::new(c))?;
                let mut q = match n {
                    Ok(q) => q,
                    Err(e) => fail!("connect", "connection could not be created after faults stopped: {e}"),
                };
                let d = [expand(seed | 2, 3000 + round), expand(seed ^ 0x55 | 2, 17000 + round)];
                q.write(0, &d[0]);
                let ok = cx.call("tls.settle", || q.settle(200))?;
                ensure!(ok && q.established(), "not-live", "fresh connection {round} failed after faults stopped: {:?} {cfg:?}", q.err);
                q.write(1, &d[1]);
                cx.call("tls.settle", || q.settle(200))?;
                q.close(0);
                q.close(1);
                p = Some(q);
                let q = p.as_ref().unwrap();
                if q.c.handshake_kind() == Some(rustls::HandshakeKind::Resumed) {
                    cx.probe("resumed");
                }
                if round == 1 && cfg.resume == 0 && !cfg.s_other {
                    ensure!(
                        q.c.handshake_kind() == Some(rustls::HandshakeKind::Resumed),
                        "not-resumed",
                        "second connection with tickets was not resumed: {:?} {cfg:?}",
                        q.c.handshake_kind()
                    );
                }
                let (suite, group) = (q.c.negotiated_cipher_suite().map(|s| s.suite()), q.c.negotiated_key_exchange_group().map(|g| g.name()));
                ensure!(suite.is_some() && c.suite.is_none_or(|s| suite == Some(s)), "suite", "negotiated {suite:?} {cfg:?}");
                ensure!(c.group.is_none_or(|g| group.is_none_or(|x| x == g)), "group", "negotiated {group:?} {cfg:?}");
                if cfg.wide != 0 {
                    cx.probe("negotiated");
                }
                finish(&mut p, cx)?;
            }
        }
        env::take_entropy();
        Ok(())
    }
}

/// safety: delivered data is a prefix of what the peer sent; a clean end means everything arrived
fn safe(q: &Pair, cx: &mut Cx) -> R {
    for side in 0..2 {
        let sent = &q.sent[1 - side];
        let got = &q.got[side];
        cx.check();
        ensure!(sent.starts_with(got), "wrong-data", "side {side} delivered {} bytes that are not a prefix of the {} sent", got.len(), sent.len());
        ensure!(!q.clean_eof[side] || got.len() == sent.len(), "truncated", "side {side} saw a clean end after {} of {} bytes", got.len(), sent.len());
    }
    ensure!(q.early_sent.starts_with(&q.early_got), "wrong-early-data", "server delivered early data the client did not send");
    if !q.handshaking(0) && !q.handshaking(1) {
        let (a, b) = (q.ekm(0), q.ekm(1));
        if a.is_some() && b.is_some() {
            cx.check();
            ensure!(a == b, "ekm", "endpoints completed with different keying material");
        }
    }
    Ok(())
}

fn finish(p: &mut Option<Pair>, cx: &mut Cx) -> R {
    let Some(mut q) = p.take() else { return Ok(()) };
    let ok = cx.call("tls.settle", || q.settle(400))?;
    ensure!(ok, "livelock", "endpoints keep talking");
    safe(&q, cx)?;
    let disturbed = q.given_up || q.tampered.iter().chain(&q.cut).any(|x| *x);
    // rustls (with any provider) can fail a handshake in which it rejected early data that arrived in pieces
    let rejected_early = !q.early_sent.is_empty() && !q.c.is_early_data_accepted();
    if rejected_early {
        cx.probe("early_data_rejected");
    } else if !q.early_sent.is_empty() && !disturbed {
        ensure!(q.early_got == q.early_sent, "lost-early-data", "accepted early data: {} of {}", q.early_got.len(), q.early_sent.len());
        cx.probe("early_data_accepted");
    }
    if !disturbed && !rejected_early {
        cx.check();
        ensure!(q.established(), "handshake", "undisturbed connection failed: {:?}", q.err);
        for side in 0..2 {
            ensure!(q.got[side] == q.sent[1 - side], "lost-data", "undisturbed: side {side} got {} of {}", q.got[side].len(), q.sent[1 - side].len());
            ensure!(q.clean_eof[side] == q.closed[1 - side], "close", "undisturbed: side {side} clean end {} but peer closed {}", q.clean_eof[side], q.closed[1 - side]);
        }
        let (a, b) = (q.ekm(0), q.ekm(1));
        ensure!(a.is_some() && a == b, "ekm", "undisturbed: exported keying material differs");
        cx.probe("undisturbed_complete");
    } else {
        cx.probe(if q.err.iter().any(|e| e.is_some()) { "disturbed_error" } else { "disturbed_no_error" });
    }
    cx.ev(format!("end established={} err={:?} got={} {}", q.established(), q.err, q.got[0].len(), q.got[1].len()));
    cx.ev_bytes("ekm", &q.ekm(0).unwrap_or_default());
    Ok(())
}

pub fn def() -> Def {
    Def {
        id: "C11",
        title: "TLS over this provider is safe and live on a faulty network",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 18000,
        thorough: 60000,
        rule: "a run (configuration, one or more connections, seeded delivery, damage, cuts, replays, clock jumps, restarts) counts when at least one oracle check was made; distinct by history hash",
        real: &["rustls-graviola provider", "graviola", "rustls client and server state machines"],
        stub: &["network (simulated byte pipes)", "clock, entropy (seeded)", "independent peer: rustls ring provider"],
        probes: &["undisturbed_complete", "disturbed_error", "resumed", "early_data_accepted", "negotiated"],
        assumptions: &["rustls itself is correct"],
    }
}
