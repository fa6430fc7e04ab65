//! C02: generated elliptic-curve and ML-KEM keys are valid for any entropy.
use super::prelude::*;
use crate::ops::{Ecdsa, groups, peer_pub};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::eddsa;
use num_bigint::BigUint;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// generate key of `kind` under this entropy
    Gen { kind: u8, plan: EntropyPlan },
}

/// One draw of `len` bytes that a failing or hostile source might deliver, for a curve of that length.
pub fn edge_draw(r: &mut Rng, curve: Option<u8>, len: usize) -> Vec<u8> {
    let base = match curve {
        Some(c) => refs::order(c),
        None => (BigUint::from(1u8) << 255) - 19u8,
    };
    let max = (BigUint::from(1u8) << (8 * len)) - 1u8;
    let small = BigUint::from(r.below(40));
    let v = match r.below(14) {
        0 => BigUint::ZERO,
        1 => max,
        2 | 3 => base + small,
        4 | 5 => base - small,
        6 => small,
        7 => BigUint::from(1u8) << r.usize(8 * len),
        8 => (BigUint::from(1u8) << r.usize(8 * len)) - 1u8,
        9 => max - small,
        10 => {
            // sparse
            let mut v = BigUint::ZERO;
            for _ in 0..1 + r.usize(4) {
                v |= BigUint::from(1u8) << r.usize(8 * len);
            }
            v
        }
        11 => {
            // runs of equal bytes
            let b = r.below(256) as u8;
            let mut v = vec![b; len];
            let k = r.usize(len);
            let c = r.below(256) as u8;
            v[k..].fill(c);
            refs::big(&v)
        }
        12 => (base.clone() + BigUint::from(1u8)) / 2u8 + small,
        _ => refs::big(&r.bytes(len)),
    };
    let mut b = v.to_bytes_be();
    if b.len() > len {
        b = b[b.len() - len..].to_vec();
    }
    let mut o = vec![0; len - b.len()];
    o.extend(b);
    if curve.is_none() && r.chance(1, 2) {
        o.reverse();
    }
    o
}

pub fn benign_faults(r: &mut Rng) -> Vec<(u32, Fault)> {
    if r.chance(2, 3) {
        return vec![];
    }
    (0..1 + r.usize(3)).map(|_| (r.below(6) as u32, if r.chance(1, 2) { Fault::Eintr(1 + r.below(3) as u8) } else { Fault::Short(1 + r.below(40) as u8) })).collect()
}

fn draw_shape(kind: u8) -> (Option<u8>, usize) {
    match kind % KINDS {
        0 | 1 | 2 => (Some(0), 32),
        3 | 4 | 5 => (Some(1), 48),
        6 | 7 | 8 => (None, 32),
        9 => (None, 64),
        10 => (Some(0), 32),
        11 => (Some(1), 48),
        12 => (None, 32),
        _ => (None, 96),
    }
}
const KINDS: u8 = 14;

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, _tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 8) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        if run % 97 == 5 {
            // a long outage of in-range values
            let (c, l) = draw_shape(if r.chance(1, 2) { 0 } else { 3 });
            let bad = refs::order(c.unwrap());
            let n = *r.pick(&[1usize, 2, 3, 16, 60, 62, 63, 64, 65, 70, 300]);
            let mut s = vec![];
            for i in 0..n {
                s.extend(match i % 3 {
                    0 => refs::be(&bad, l),
                    1 => vec![0; l],
                    _ => vec![0xff; l],
                });
            }
            let k = if l == 32 { *r.pick(&[0, 1, 2, 10]) } else { *r.pick(&[3, 4, 5, 11]) };
            v.push(Step::Gen { kind: k, plan: EntropyPlan { seed: r.seed(), mode: Mode::Script(s), faults: vec![] } });
            return v;
        }
        for _ in 0..2 + r.usize(6) {
            let kind = r.below(KINDS as u64) as u8;
            let (c, l) = draw_shape(kind);
            let mode = match r.below(12) {
                0 | 1 => Mode::Good,
                2 => Mode::Stuck(*r.pick(&[0, 0xff, 1, 0x80, 0xfe, 0xaa])),
                3 => Mode::Repeat,
                4 => Mode::Period(1 + r.below(80) as u32),
                5 => Mode::Comb(1 + r.below(40) as u8),
                _ => {
                    let mut s = vec![];
                    for _ in 0..1 + r.usize(4) {
                        s.extend(edge_draw(r, c, l));
                    }
                    Mode::Script(s)
                }
            };
            v.push(Step::Gen { kind, plan: EntropyPlan { seed: r.seed(), mode, faults: benign_faults(r) } });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut seen: Vec<(u8, Vec<u8>, Vec<u8>)> = vec![];
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Gen { kind, plan } => {
                    let kind = *kind % KINDS;
                    match &plan.mode {
                        Mode::Good => {}
                        Mode::Stuck(_) => cx.fault("entropy.stuck"),
                        Mode::Repeat => cx.fault("entropy.repeat"),
                        Mode::Period(_) => cx.fault("entropy.periodic"),
                        Mode::Comb(_) | Mode::Edges { .. } => cx.fault("entropy.biased"),
                        _ => cx.fault("entropy.edge_values"),
                    }
                    let (drawn, public) = one(kind, plan, cx)?;
                    if let (Some(d), Some(p)) = (drawn, public) {
                        let class = draw_shape(kind).0.map(|c| c as u8).unwrap_or(10 + kind);
                        for (c, d2, p2) in &seen {
                            if *c == class && *d2 != d && kind != 9 && kind != 13 {
                                // clamping makes distinct X25519 draws coincide only in the clamped bits
                                let same = ((6..=7).contains(&kind) || kind == 12) && clamp(&d) == clamp(d2);
                                cx.check();
                                ensure!(same || *p2 != p, "same-key", "different draws gave the same public key (kind {kind})");
                            }
                        }
                        seen.push((class, d, p));
                    }
                }
            }
        }
        Ok(())
    }
}


fn clamp(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    if v.len() >= 32 {
        v[0] &= 248;
        v[31] &= 127;
        v[31] |= 64;
    }
    v
}

/// the private value the standard derives from the bytes drawn, or None if every draw was out of range
fn expected(c: u8, drawn: &[u8]) -> (Option<Vec<u8>>, usize) {
    let l = refs::clen(c);
    let n = refs::order(c);
    for (i, ch) in drawn.chunks(l).enumerate() {
        let v = refs::big(ch);
        if ch.len() == l && v > BigUint::ZERO && v < n {
            return (Some(ch.to_vec()), i + 1);
        }
    }
    (None, drawn.len() / l)
}

/// Generates and judges; returns the private value and public half of a key that was made.
fn one(kind: u8, plan: &EntropyPlan, cx: &mut Cx) -> R<(Option<Vec<u8>>, Option<Vec<u8>>)> {
    let e = |x: graviola::Error| format!("{x:?}");
    type Made = (Option<Vec<u8>>, Vec<u8>, Vec<u8>);
    // (private if exposed, public, proof of use)
    let name = ["p256.ephemeral", "p256.static", "ecdsa.p256", "p384.ephemeral", "p384.static", "ecdsa.p384", "x25519.ephemeral", "x25519.static", "ed25519", "mlkem768", "kx.p256", "kx.p384", "kx.x25519", "kx.hybrid"]
        [kind as usize];
    let (_, pp) = match kind {
        0..=2 | 10 => peer_pub(1, 5),
        3..=5 | 11 => peer_pub(2, 5),
        _ => peer_pub(0, 5),
    };
    let (r, log): (Result<Made, String>, _) = cx.call(name, || {
        env::with_entropy(plan, || {
            Ok(match kind {
                0 => {
                    let k = p256::PrivateKey::new_random().map_err(e)?;
                    let p = k.public_key_uncompressed().to_vec();
                    (None, p, k.diffie_hellman(&p256::PublicKey::from_x962_uncompressed(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec())
                }
                1 => {
                    let k = p256::StaticPrivateKey::new_random().map_err(e)?;
                    let d = k.diffie_hellman(&p256::PublicKey::from_x962_uncompressed(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec();
                    (Some(k.as_bytes().to_vec()), k.public_key_uncompressed().to_vec(), d)
                }
                2 | 5 => {
                    let k = Ecdsa::generate((kind == 5) as u8).map_err(e)?;
                    (Some(k.scalar()), k.public(), vec![])
                }
                3 => {
                    let k = p384::PrivateKey::new_random().map_err(e)?;
                    let p = k.public_key_uncompressed().to_vec();
                    (None, p, k.diffie_hellman(&p384::PublicKey::from_x962_uncompressed(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec())
                }
                4 => {
                    let k = p384::StaticPrivateKey::new_random().map_err(e)?;
                    let d = k.diffie_hellman(&p384::PublicKey::from_x962_uncompressed(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec();
                    (Some(k.as_bytes().to_vec()), k.public_key_uncompressed().to_vec(), d)
                }
                6 => {
                    let k = x25519::PrivateKey::new_random().map_err(e)?;
                    let p = k.public_key().as_bytes().to_vec();
                    (None, p, k.diffie_hellman(&x25519::PublicKey::try_from_slice(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec())
                }
                7 => {
                    let k = x25519::StaticPrivateKey::new_random().map_err(e)?;
                    let d = k.diffie_hellman(&x25519::PublicKey::try_from_slice(&pp).unwrap()).map_err(|x| format!("use {x:?}"))?.0.to_vec();
                    (Some(clamp(&k.as_bytes())), k.public_key().as_bytes().to_vec(), d)
                }
                8 => {
                    let k = eddsa::Ed25519SigningKey::generate().map_err(e)?;
                    (Some(k.as_seed().to_vec()), k.public_key().as_bytes().to_vec(), k.sign(b"use").to_vec())
                }
                9 => {
                    let k = mlkem768::DecapKey::generate().map_err(e)?;
                    (Some(k.as_bytes().to_vec()), k.encapsulation_key().as_bytes().to_vec(), vec![])
                }
                _ => {
                    let want = [rustls::NamedGroup::secp256r1, rustls::NamedGroup::secp384r1, rustls::NamedGroup::X25519, rustls::NamedGroup::X25519MLKEM768][kind as usize - 10];
                    let g = groups().iter().find(|g| g.name() == want).ok_or("use: group missing")?;
                    let a = g.start().map_err(|x| format!("{x:?}"))?;
                    let p = a.pub_key().to_vec();
                    let s = if kind == 13 { vec![] } else { a.complete(&pp).map_err(|x| format!("use {x:?}"))?.secret_bytes().to_vec() };
                    (None, p, s)
                }
            })
        })
    })?;
    cx.log_entropy(&log);
    cx.check();
    let drawn = &log.bytes;
    ensure!(!log.exhausted, format!("unbounded:{name}"), "{name}: gave up only when the simulated source ran dry ({} bytes)", drawn.len());
    ensure!(drawn.len() <= 48 * 1024, format!("unbounded:{name}"), "{name}: {} bytes drawn", drawn.len());
    let made = match r {
        Err(x) => {
            ensure!(!x.starts_with("use"), format!("unusable:{name}"), "{name}: generated key unusable: {x}");
            if let (Some(c), _) = draw_shape(kind) {
                let (v, _) = expected(c, drawn);
                ensure!(v.is_none() && drawn.len() >= 8 * refs::clen(c), format!("refused:{name}"), "{name}: {x} although {} bytes were drawn, valid draw {}", drawn.len(), v.is_some());
                cx.probe("refused_bad_entropy");
                cx.ev(format!("{name} refused"));
                return Ok((None, None));
            }
            fail!(format!("refused:{name}"), "{name}: {x} although the entropy source delivered {} bytes", drawn.len());
        }
        Ok(m) => m,
    };
    cx.ev_bytes(name, &made.1);
    match draw_shape(kind) {
        (Some(c), l) => {
            let (v, k) = expected(c, drawn);
            let Some(v) = v else { fail!(format!("bad-scalar:{name}"), "{name}: a key was made though no draw was in 1..n-1 ({} bytes drawn)", drawn.len()) };
            ensure!(drawn.len() == k * l, format!("not-first-draw:{name}"), "{name}: {} bytes drawn, draw {k} was the first in range", drawn.len());
            if k > 1 {
                cx.probe("redrawn");
            }
            if let Some(p) = &made.0 {
                ensure!(*p == v, format!("wrong-scalar:{name}"), "{name}: private value is not the draw");
            }
            ensure!(Some(&made.1) == refs::ec_pub(c, &v).as_ref(), format!("wrong-public:{name}"), "{name}: public key does not belong to the scalar drawn");
            if !made.2.is_empty() {
                ensure!(Some(&made.2) == refs::ecdh(c, &v, &pp).as_ref(), format!("wrong-use:{name}"), "{name}: key agreement with the generated key is wrong");
            }
            Ok((Some(v), Some(made.1)))
        }
        (None, l) => {
            ensure!(drawn.len() == l, format!("wrong-draw:{name}"), "{name}: {} bytes drawn, {l} needed", drawn.len());
            match kind {
                6 | 7 | 12 => {
                    let sk: [u8; 32] = drawn[..].try_into().unwrap();
                    if let Some(p) = &made.0 {
                        ensure!(*p == clamp(drawn), format!("wrong-scalar:{name}"), "{name}: private value is not the draw");
                    }
                    ensure!(made.1 == refs::x25519_pub(sk), format!("wrong-public:{name}"), "{name}: public key does not belong to the draw");
                    ensure!(made.2 == refs::x25519(sk, pp.try_into().unwrap()), format!("wrong-use:{name}"), "{name}: agreement with the generated key is wrong");
                }
                8 => {
                    let sk: [u8; 32] = drawn[..].try_into().unwrap();
                    ensure!(made.0.as_deref() == Some(&sk), format!("wrong-scalar:{name}"), "{name}: seed is not the draw");
                    ensure!(made.1 == refs::ed_pub(&sk), format!("wrong-public:{name}"), "{name}: public key does not belong to the seed");
                    ensure!(made.2 == refs::ed_sign(&sk, b"use"), format!("wrong-use:{name}"), "{name}: signature with the generated key is wrong");
                }
                9 => {
                    let seed: [u8; 64] = drawn[..].try_into().unwrap();
                    let (dk, ek) = refs::kem::keygen(&seed);
                    ensure!(made.1 == ek, format!("wrong-public:{name}"), "{name}: encapsulation key is not the standard's for this seed");
                    ensure!(made.0 == Some(dk.bytes()), format!("wrong-scalar:{name}"), "{name}: decapsulation key is not the standard's for this seed");
                }
                _ => {
                    // hybrid: some split of the draws into an ML-KEM seed and an X25519 key
                    let a: [u8; 64] = drawn[..64].try_into().unwrap();
                    let b: [u8; 32] = drawn[64..].try_into().unwrap();
                    let a2: [u8; 64] = drawn[32..].try_into().unwrap();
                    let b2: [u8; 32] = drawn[..32].try_into().unwrap();
                    let mk = |a: &[u8; 64], b: [u8; 32]| {
                        let mut p = refs::kem::keygen(a).1;
                        p.extend(refs::x25519_pub(b));
                        p
                    };
                    ensure!(made.1 == mk(&a, b) || made.1 == mk(&a2, b2), format!("wrong-public:{name}"), "{name}: key share does not follow from the draws");
                }
            }
            Ok((Some(drawn.clone()), Some(made.1)))
        }
    }
}

pub fn def() -> Def {
    Def {
        id: "C02",
        title: "Generated elliptic-curve and ML-KEM keys are valid for any entropy",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 20000,
        thorough: 400000,
        rule: "a run (key generations under seeded entropy modes: good, stuck, repeating, periodic, biased, scripted edge draws, plus short and interrupted reads) counts when a generation was judged; distinct by history hash",
        real: &["graviola key generation, scalar multiplication and agreement", "rustls-graviola key exchange groups"],
        stub: &["getrandom(2) (scripted source)"],
        probes: &["redrawn", "refused_bad_entropy"],
        assumptions: &["reference derivations: p256/p384, x25519-dalek, ed25519-dalek, ml-kem crates"],
    }
}
