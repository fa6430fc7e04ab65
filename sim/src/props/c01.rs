//! C01: entropy-source failure is contained.
use super::prelude::*;
use crate::ops::{self, Op, Out, World};
use crate::tls::{Cfg, Configs, Pair, configs};
use graviola::signing::rsa;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    World { seed: u32 },
    /// `at`: fault position as a fraction (/2^16) of the reads the undisturbed operation makes
    /// `lead`: so many bytes of this value come first (draws that must be rejected and repeated)
    Op { op: Op, entropy: u32, faults: Vec<(u16, Fault)>, lead: (u16, u8) },
    RsaGen { size: u8, entropy: u32, faults: Vec<(u16, Fault)> },
    NewTicketer { entropy: u32, faults: Vec<(u16, Fault)> },
    /// rotation falls due during this ticket operation
    TicketRoll { entropy: u32, faults: Vec<(u16, Fault)> },
    ProviderFill { len: u16, entropy: u32, faults: Vec<(u16, Fault)> },
    LoadSign { key: u8, entropy: u32, faults: Vec<(u16, Fault)> },
    Handshake { cfg: Cfg, entropy: u32, faults: Vec<(u16, Fault)> },
}

fn gen_faults(r: &mut Rng) -> Vec<(u16, Fault)> {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    (0..n)
        .map(|_| {
            let at = match r.below(4) {
                0 => 0,
                1 => 65535,
                _ => r.below(65536) as u16,
            };
            let f = match r.below(10) {
                0..=3 => Fault::Errno(*r.pick(&[libc::EIO, libc::ENOSYS, libc::EAGAIN, libc::EPERM, libc::EFAULT, libc::EINVAL])),
                4 => Fault::Zero,
                5 | 6 => Fault::Eintr(1 + r.below(4) as u8),
                _ => Fault::Short(1 + r.below(40) as u8),
            };
            (at, f)
        })
        .collect()
}

pub struct S;

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, _tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 4) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        v.push(Step::World { seed: r.seed() });
        if run % 60 == 7 {
            v.push(Step::RsaGen { size: 0, entropy: r.seed(), faults: gen_faults(r) });
            return v;
        }
        for _ in 0..3 + r.usize(8) {
            let (entropy, faults) = (r.seed(), gen_faults(r));
            v.push(match r.below(20) {
                0 => Step::NewTicketer { entropy, faults },
                1 => Step::TicketRoll { entropy, faults },
                2 => Step::ProviderFill { len: 1 + r.below(600) as u16, entropy, faults },
                3 => Step::LoadSign { key: r.below(4) as u8, entropy, faults },
                4 | 5 => {
                    let mut cfg = super::c11::gen_cfg(r);
                    cfg.c_other = false;
                    cfg.s_other = false;
                    cfg.early = false;
                    Step::Handshake { cfg, entropy, faults }
                }
                _ => {
                    let mut op = ops::gen_op(r);
                    while !op.draws() {
                        op = ops::gen_op(r);
                    }
                    if let Op::Fill { len } = &mut op {
                        if r.chance(1, 3) {
                            *len += r.below(2000) as u16;
                        }
                    }
                    let lead = if r.chance(1, 4) { (*r.pick(&[32, 48, 64, 96, 128, 144, 192]), *r.pick(&[0xff, 0xff, 0])) } else { (0, 0) };
                    Step::Op { op, entropy, faults, lead }
                }
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut w = World::new(1);
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::World { seed } => w = cx.call("world", || World::new(*seed))?,
                Step::Op { op, entropy, faults, lead } => judge(&op.name(), *entropy, *lead, faults, cx, &|| ops::exec(&w, op))?,
                Step::RsaGen { size, entropy, faults } => {
                    let ks = match size % 3 {
                        0 => rsa::KeySize::Rsa2048,
                        1 => rsa::KeySize::Rsa3072,
                        _ => rsa::KeySize::Rsa4096,
                    };
                    judge("RsaGen", *entropy, (0, 0), faults, cx, &|| {
                        let k = rsa::SigningKey::generate(ks).map_err(|e| format!("{e:?}"))?;
                        let mut b = vec![0; 4096];
                        Ok(k.to_pkcs1_der(&mut b).map_err(|e| format!("export {e:?}"))?.to_vec())
                    })?
                }
                Step::NewTicketer { entropy, faults } => judge("NewTicketer", *entropy, (0, 0), faults, cx, &|| {
                    let t = rustls_graviola::Ticketer::new().map_err(|e| format!("{e:?}"))?;
                    t.encrypt(b"state").ok_or("no ticket".into())
                })?,
                Step::TicketRoll { entropy, faults } => {
                    // a fresh ticketer each time, so that every execution starts from the same state
                    let e0 = *entropy ^ 0x77;
                    judge("TicketRoll", *entropy, (0, 0), faults, cx, &|| {
                        let (t, _) = env::with_entropy(&EntropyPlan::good(e0), rustls_graviola::Ticketer::new);
                        let t = t.map_err(|e| format!("setup {e:?}"))?;
                        env::clock_advance(21_601_000_000_000);
                        let r = t.encrypt(b"state").ok_or("no ticket".to_string());
                        env::clock_advance(-21_601_000_000_000);
                        r
                    })?
                }
                Step::ProviderFill { len, entropy, faults } => judge("ProviderFill", *entropy, (0, 0), faults, cx, &|| {
                    let mut b = vec![0; *len as usize];
                    w.provider.secure_random.fill(&mut b).map_err(|e| format!("{e:?}"))?;
                    Ok(b)
                })?,
                Step::LoadSign { key, entropy, faults } => judge("LoadSign", *entropy, (0, 0), faults, cx, &|| {
                    ops::exec(&w, &Op::ProviderSign { key: *key % 3, msg: *entropy, scheme: *key % 3 })
                })?,
                Step::Handshake { cfg, entropy, faults } => handshake(cfg, *entropy, faults, cx)?,
            }
        }
        Ok(())
    }
}

fn resolve(faults: &[(u16, Fault)], reads: u32) -> Vec<(u32, Fault)> {
    let mut v: Vec<(u32, Fault)> = vec![];
    for (at, f) in faults {
        let k = (*at as u64 * reads as u64 / 65536) as u32;
        let k = if *at == 65535 { reads.saturating_sub(1) } else { k };
        if !v.iter().any(|x| x.0 == k) {
            v.push((k, f.clone()));
        }
    }
    v
}

fn judge(name: &str, entropy: u32, lead: (u16, u8), faults: &[(u16, Fault)], cx: &mut Cx, f: &dyn Fn() -> Out) -> R {
    let mut good = EntropyPlan::good(entropy);
    if lead.0 > 0 {
        good.mode = Mode::Script(vec![lead.1; lead.0 as usize]);
        cx.fault("entropy.unusable_draws");
    }
    let (out0, log0) = cx.call(name, || env::with_entropy(&good, f))?;
    let out0 = match out0 {
        Ok(o) => o,
        Err(e) => fail!(format!("fails-with-good-entropy:{name}"), "{name} failed with a working entropy source: {e}"),
    };
    ensure!(log0.calls > 0, format!("no-entropy:{name}"), "{name} succeeded without drawing any randomness");
    cx.ev(format!("{name} reads {}", log0.calls));
    cx.ev_bytes("out", &out0);

    let plan = EntropyPlan { seed: entropy, mode: good.mode.clone(), faults: resolve(faults, log0.calls) };
    let (out, log) = cx.call(name, || env::with_entropy(&plan, f))?;
    cx.log_entropy(&log);
    cx.check();
    if log.errors + log.zeros > 0 {
        ensure!(out.is_err(), format!("ignored-failure:{name}"), "{name} succeeded although read {:?} of the entropy source failed ({} of {} reads made)", plan.faults, log.calls, log0.calls);
        cx.probe("failure_reported");
    } else {
        ensure!(
            out.as_ref() == Ok(&out0),
            format!("visible-retry:{name}"),
            "{name}: interrupted or short reads {:?} changed the result: {}",
            plan.faults,
            match &out {
                Ok(_) => "different value".to_string(),
                Err(e) => e.clone(),
            }
        );
        ensure!(log.bytes == log0.bytes, format!("visible-retry:{name}"), "{name}: a different amount of entropy was drawn");
        cx.probe("retry_invisible");
    }
    let (out, _) = cx.call(name, || env::with_entropy(&good, f))?;
    cx.check();
    ensure!(out.as_ref() == Ok(&out0), format!("no-recovery:{name}"), "{name} after the source recovered: {:?}", out.map(|_| "different value"));
    Ok(())
}

/// Some(bytes the server sent) if the handshake completed and data went through
fn connect(k: &Configs) -> Result<usize, String> {
    let mut q = Pair::new(k)?;
    q.write(0, b"hello from the client");
    if !q.settle(200) {
        return Err("livelock".into());
    }
    if !q.established() || q.got[1] != b"hello from the client" {
        return Err(format!("{:?}", q.err));
    }
    Ok(q.sent_wire[0])
}

fn handshake(cfg: &Cfg, entropy: u32, faults: &[(u16, Fault)], cx: &mut Cx) -> R {
    let setup = EntropyPlan::good(entropy ^ 0x5e7);
    let conf = |cx: &mut Cx| -> R<Configs> {
        match cx.call("tls.config", || env::with_entropy(&setup, || configs(cfg)))?.0 {
            Ok(k) => Ok(k),
            Err(e) => fail!("config", "valid configuration refused: {e}"),
        }
    };
    // a new configuration per connection: no resumption between the executions compared
    let k = conf(cx)?;
    let good = EntropyPlan::good(entropy);
    let (r0, log0) = cx.call("Handshake", || env::with_entropy(&good, || connect(&k)))?;
    let sent0 = match r0 {
        Ok(n) => n,
        Err(e) => fail!("fails-with-good-entropy:Handshake", "handshake failed with a working entropy source: {e} {cfg:?}"),
    };
    let k = conf(cx)?;
    let plan = EntropyPlan { seed: entropy, mode: Mode::Good, faults: resolve(faults, log0.calls) };
    let (r, log) = cx.call("Handshake", || env::with_entropy(&plan, || connect(&k)))?;
    cx.log_entropy(&log);
    cx.check();
    if log.errors + log.zeros > 0 {
        if let Ok(sent) = r {
            // only the issue of a session ticket may be skipped, and then nothing takes its place
            ensure!(
                cfg.resume == 0 && sent + 24 <= sent0,
                "ignored-failure:Handshake",
                "handshake completed although read {:?} of {} of the entropy source failed (server sent {sent} bytes, {sent0} undisturbed)",
                plan.faults,
                log0.calls
            );
            cx.probe("ticket_omitted");
        } else {
            cx.probe("handshake_refused");
        }
    } else {
        ensure!(r == Ok(sent0), "visible-retry:Handshake", "interrupted or short reads {:?} changed the handshake: {r:?}", plan.faults);
    }
    let (r, _) = cx.call("Handshake", || env::with_entropy(&EntropyPlan::good(entropy ^ 9), || connect(&k)))?;
    cx.check();
    ensure!(r.is_ok(), "no-recovery:Handshake", "handshake after the source recovered: {r:?}");
    Ok(())
}

pub fn def() -> Def {
    Def {
        id: "C01",
        title: "Entropy-source failure is contained",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 8000,
        thorough: 100000,
        rule: "a run (operations with a seeded fault plan on the reads of the entropy source) counts when at least one faulted execution was judged; distinct by history hash",
        real: &["graviola", "rustls-graviola", "getrandom crate", "rustls (handshakes, ticket rotation)"],
        stub: &["getrandom(2) (seeded source with fault plan)", "clock"],
        probes: &["failure_reported", "retry_invisible", "handshake_refused", "ticket_omitted"],
        assumptions: &["the getrandom crate's linux_getrandom backend is the entropy path (no /dev/urandom fallback)"],
    }
}
