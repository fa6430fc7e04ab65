//! C04: signature randomness is never weak.
use super::prelude::*;
use crate::ops::{self, Ecdsa, rsa_sign};
use graviola::signing::rsa;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// a new process: its entropy source behaves like this from now on
    Source { plan: EntropyPlan },
    Key { slot: u8, curve: u8, scalar: Vec<u8> },
    /// sign message `msg` (split in `parts`) with the key in the slot
    Sign { slot: u8, hash: u8, msg: u32, len: u16, parts: u8, asn1: bool, via: u8 },
    Pss { key: u8, hash: u8, msg: u32, len: u16, via: u8 },
}

pub struct S;

fn gen_mode(r: &mut Rng) -> Mode {
    match r.below(8) {
        0..=2 => Mode::Good,
        3 => Mode::Stuck(*r.pick(&[0, 0xff, 1, 0x80, 0x42])),
        4 | 5 => Mode::Repeat,
        6 => Mode::Period(1 + r.below(70) as u32),
        _ => Mode::Comb(1 + r.below(20) as u8),
    }
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 8) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        v.push(Step::Source { plan: EntropyPlan { seed: r.seed(), mode: gen_mode(r), faults: super::c02::benign_faults(r) } });
        let nk = 1 + r.usize(3);
        for k in 0..nk {
            let curve = r.below(2) as u8;
            let scalar = loop {
                let d = if r.chance(1, 2) { super::c02::edge_draw(r, Some(curve), refs::clen(curve)) } else { r.bytes(refs::clen(curve)) };
                if refs::ec_pub(curve, &d).is_some() {
                    break d;
                }
            };
            v.push(Step::Key { slot: k as u8, curve, scalar });
        }
        let msgs: Vec<(u32, u16)> = (0..1 + r.usize(3)).map(|_| (r.seed(), r.len(64, 300) as u16)).collect();
        for _ in 0..4 + r.usize(10) {
            let (msg, len) = *r.pick(&msgs);
            if r.chance(1, 10) {
                // a digest that the group order does not exceed
                let hash = r.below(2) as u8;
                if let Some(msg) = odd_message(r, hash) {
                    v.push(Step::Sign { slot: r.below(nk as u64) as u8, hash, msg, len: ODD_LEN as u16, parts: 1, asn1: r.chance(1, 2), via: r.below(3) as u8 });
                }
            }
            match r.below(16) {
                0 => v.push(Step::Source { plan: EntropyPlan { seed: r.seed(), mode: gen_mode(r), faults: super::c02::benign_faults(r) } }),
                1..=3 => v.push(Step::Pss { key: *r.pick(if tier == Tier::Thorough { &[0, 0, 1, 2, 3, 4] } else { &[0, 0, 0, 0, 1, 2] }), hash: r.below(3) as u8, msg, len, via: r.below(2) as u8 }),
                _ => v.push(Step::Sign { slot: r.below(nk as u64) as u8, hash: r.below(3) as u8, msg, len, parts: 1 + r.log(40) as u8, asn1: r.chance(1, 2), via: r.below(3) as u8 }),
            }
        }
        if r.chance(1, 20)
            && let Some(msg) = odd_message(r, 3)
        {
            // the nonce derivation must draw a second candidate
            v.push(Step::Source { plan: EntropyPlan { seed: 0, mode: Mode::Stuck(0), faults: super::c02::benign_faults(r) } });
            v.push(Step::Key { slot: 0, curve: 0, scalar: vec![0x11; 32] });
            v.push(Step::Sign { slot: 0, hash: 0, msg, len: ODD_LEN as u16, parts: 1 + r.log(40) as u8, asn1: r.chance(1, 2), via: r.below(3) as u8 });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut keys: BTreeMap<u8, (u8, Vec<u8>, Ecdsa, std::sync::Arc<dyn rustls::sign::SigningKey>)> = BTreeMap::new();
        // nonce commitment (curve, r) -> what it was used for, and with which draw
        let mut used: BTreeMap<(u8, Vec<u8>), (Vec<u8>, Vec<u8>, Vec<u8>)> = BTreeMap::new();
        env::set_entropy(&EntropyPlan::good(1), 1 << 22);
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Source { plan } => {
                    env::set_entropy(plan, 1 << 22);
                    cx.fault(match &plan.mode {
                        Mode::Good => "process.restart",
                        Mode::Stuck(_) => "entropy.stuck",
                        Mode::Repeat => "entropy.repeat",
                        Mode::Period(_) => "entropy.periodic",
                        _ => "entropy.biased",
                    });
                    cx.faultn("entropy.short_or_interrupted", plan.faults.len() as u64);
                }
                Step::Key { slot, curve, scalar } => {
                    let c = *curve % 2;
                    if refs::ec_pub(c, scalar).is_none() || scalar.len() != refs::clen(c) {
                        continue;
                    }
                    let k = match cx.call("key", || Ecdsa::from_scalar(c, scalar))? {
                        Ok(k) => k,
                        Err(e) => fail!("key", "valid private key refused: {e:?}"),
                    };
                    let mut b = [0u8; 512];
                    let der = match &k {
                        Ecdsa::P256(k) => k.to_pkcs8_der(&mut b).map(|x| x.to_vec()),
                        Ecdsa::P384(k) => k.to_pkcs8_der(&mut b).map(|x| x.to_vec()),
                    };
                    let p = cx.call("provider.load", || {
                        rustls_graviola::default_provider().key_provider.load_private_key(rustls::pki_types::PrivateKeyDer::Pkcs8(der.unwrap_or_default().into()))
                    })?;
                    let Ok(p) = p else { fail!("key", "provider refuses an exported key") };
                    keys.insert(*slot, (c, scalar.clone(), k, p));
                }
                Step::Sign { slot, hash, msg, len, parts, asn1, via } => {
                    let Some((c, d, k, p)) = keys.get(slot) else { continue };
                    let c = *c;
                    let m = expand(*msg, *len as usize);
                    // the provider offers one hash per curve
                    let h = if *via == 2 { c } else { *hash % 3 };
                    let before = env::entropy_pos();
                    let out = cx.call("ecdsa.sign", || {
                        if *via == 2 {
                            let sch = [rustls::SignatureScheme::ECDSA_NISTP256_SHA256, rustls::SignatureScheme::ECDSA_NISTP384_SHA384][c as usize];
                            let Some(s) = p.choose_scheme(&[sch]) else { return Err("no signer".to_string()) };
                            s.sign(&m).map_err(|e| format!("{e:?}"))
                        } else {
                            let mut b = [0u8; 160];
                            let step = m.len().div_ceil((*parts).max(1) as usize).max(1);
                            let pieces: Vec<&[u8]> = if m.is_empty() { vec![] } else { m.chunks(step).collect() };
                            k.sign(h, &pieces, *asn1, &mut b).map_err(|e| format!("{e:?}"))
                        }
                    })?;
                    let drawn = env::entropy_since(before);
                    cx.check();
                    let sig = match out {
                        Ok(s) => s,
                        Err(e) => fail!("sign", "signing failed with a working source: {e}"),
                    };
                    ensure!(drawn.len() >= 16, "no-fresh-randomness", "only {} random bytes were drawn for a signature", drawn.len());
                    let der = *via == 2 || *asn1;
                    let l = refs::clen(c);
                    let dg = refs::sha(h, &m);
                    let kk = refs::rfc6979_k(c, h, d, &dg, &drawn);
                    if c == 0 && refs::big(&dg[..32]) >= refs::order(0) {
                        cx.probe("digest_exceeds_order");
                    }
                    if c == 0 && m.starts_with(b"gsim\x03") && d.iter().all(|b| *b == 0x11) && drawn.iter().all(|b| *b == 0) {
                        cx.probe("nonce_candidate_rejected");
                    }
                    let want = refs::ecdsa_sign(c, d, &kk, &dg);
                    let want_out = if der { refs::der_sig(&want[..l], &want[l..]) } else { want.clone() };
                    let (r, sv) = if der {
                        match refs::der_parse_sig(&sig) {
                            Some((r, s)) => (refs::be(&r, l), refs::be(&s, l)),
                            None => fail!("encoding", "signature is not strict DER: {sig:02x?}"),
                        }
                    } else {
                        ensure!(sig.len() == 2 * l, "encoding", "fixed-length signature has {} bytes", sig.len());
                        (sig[..l].to_vec(), sig[l..].to_vec())
                    };
                    let pk = refs::ec_pub(c, d).unwrap();
                    ensure!(refs::ecdsa_verify(c, &pk, &dg, &r, &sv), "invalid", "signature does not verify (curve {c}, hash {h}, d {d:02x?})");
                    // nonce use
                    let what = (d.clone(), refs::be(&(refs::bits2int(c, &dg) % refs::order(c)), l), drawn.clone());
                    let prev = used.insert((c, r.clone()), what.clone());
                    if let Some(p) = prev {
                        cx.check();
                        ensure!(p.0 == what.0 && p.1 == what.1, "nonce-reuse", "two different messages or keys share a nonce (draws {:02x?} and {:02x?})", p.2, what.2);
                        ensure!(p.2 == what.2, "not-hedged", "same nonce for different draws {:02x?} and {:02x?}", p.2, what.2);
                        cx.probe("same_draw_same_message");
                    }
                    ensure!(sig == want_out, "nonce", "signature is not the one hedged RFC 6979 prescribes for the bytes drawn (curve {c}, hash {h}, {} drawn)", drawn.len());
                    cx.ev_bytes("sig", &sig);
                }
                Step::Pss { key, hash, msg, len, via } => {
                    let der = [ops::RSA2048, ops::RSA3072, ops::RSA4096, ops::RSA6144, ops::RSA8192][*key as usize % 5];
                    let rk = refs::RsaPriv::from_pkcs1(der).unwrap();
                    let h = *hash % 3;
                    let m = expand(*msg, *len as usize);
                    let before;
                    let out: Result<Vec<u8>, String> = if *via == 0 {
                        let k = match cx.call("rsa.load", || rsa::SigningKey::from_pkcs1_der(der))? {
                            Ok(k) => k,
                            Err(e) => fail!("key", "valid RSA key refused: {e:?}"),
                        };
                        before = env::entropy_pos();
                        let mut b = vec![0; 1024];
                        cx.call("rsa.sign_pss", || rsa_sign(&k, true, h, &m, &mut b).map(|x| x.to_vec()).map_err(|e| format!("{e:?}")))?
                    } else {
                        use rustls::SignatureScheme as Q;
                        let k = cx.call("provider.load", || {
                            rustls_graviola::default_provider().key_provider.load_private_key(rustls::pki_types::PrivateKeyDer::Pkcs1(der.to_vec().into()))
                        })?;
                        let Ok(k) = k else { fail!("key", "provider refuses a valid RSA key") };
                        let Some(s) = k.choose_scheme(&[[Q::RSA_PSS_SHA256, Q::RSA_PSS_SHA384, Q::RSA_PSS_SHA512][h as usize]]) else { fail!("key", "no PSS signer") };
                        before = env::entropy_pos();
                        cx.call("provider.sign_pss", || s.sign(&m).map_err(|e| format!("{e:?}")))?
                    };
                    let drawn = env::entropy_since(before);
                    cx.check();
                    let sig = match out {
                        Ok(s) => s,
                        Err(e) => fail!("sign", "PSS signing failed with a working source: {e}"),
                    };
                    let Some(salt) = rk.public().verify_pss(h, &m, &sig) else { fail!("invalid-pss", "PSS signature does not verify") };
                    ensure!(salt == drawn, "salt", "PSS salt is not the {} random bytes drawn for it", drawn.len());
                    ensure!(salt.len() == [32, 48, 64][h as usize], "salt-length", "PSS salt has {} bytes", salt.len());
                    cx.ev_bytes("pss", &sig);
                    cx.probe("pss");
                }
            }
        }
        env::take_entropy();
        Ok(())
    }
}

pub fn def() -> Def {
    Def {
        id: "C04",
        title: "Signature randomness is never weak",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 8000,
        thorough: 120000,
        rule: "a run (keys, messages, signatures under changing entropy modes, process restarts that repeat the source) counts when a signature was judged against the nonce model; distinct by history hash",
        real: &["graviola ECDSA and RSA-PSS signing", "rustls-graviola signers"],
        stub: &["getrandom(2) (seeded, stuck, repeating, periodic or biased)"],
        probes: &["same_draw_same_message", "pss", "digest_exceeds_order", "nonce_candidate_rejected"],
        assumptions: &["reference: RFC 6979 model over hmac/sha2, p256/p384 crates, big-integer RSA"],
    }
}
