//! C06: AEAD delivers exactly the sealed plaintext or nothing.
use super::prelude::*;
use crate::ops::AeadKey;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// a key shared by two nodes (each builds its own object)
    Key { alg: u8, seed: u32 },
    /// node A seals (or the independent implementation does)
    Seal { key: u8, nonce: u32, aad: u32, len: u32, seed: u32, peer: bool, off: u8, #[serde(default)] edge: u32 },
    /// the network delivers message `msg`, with damage to its parts, to the holder of `key`
    Deliver { msg: u8, key: u8, ct: Vec<Dmg>, tag: Vec<Dmg>, nonce: Vec<Dmg>, aad: Vec<Dmg>, mix: u8, with: u8, off: u8 },
    /// A's and B's processes restart: objects are rebuilt from the key bytes
    Restart { key: u8 },
}

pub struct S;

struct K {
    alg: u8,
    bytes: Vec<u8>,
    a: AeadKey,
    b: AeadKey,
}
struct M {
    alg: u8,
    key: Vec<u8>,
    nonce: Vec<u8>,
    aad: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
    k: usize,
}

/// lengths around everything the bulk implementations switch on
fn length(r: &mut Rng, big: bool) -> u32 {
    match r.below(20) {
        0..=8 => r.len(16, 1100) as u32,
        9..=12 => r.len(64, 4300) as u32,
        13..=15 => r.len(256, 9000) as u32,
        16 | 17 => r.len(16, 70) as u32,
        18 => r.len(4096, 70_000) as u32,
        _ => {
            if big {
                match r.below(3) {
                    0 => (1 << 20) - 64 + r.below(160) as u32,
                    1 => (4 << 20) - 128 + r.below(300) as u32,
                    _ => r.below(1 << 21) as u32,
                }
            } else {
                r.below(20_000) as u32
            }
        }
    }
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![Step::Cpu(gen_cpu(r))];
        if run % 8000 < 4 {
            // one message whose length in bits does not fit in 32 bits, per algorithm
            let alg = run as u8 % 4;
            v.push(Step::Key { alg, seed: r.seed() });
            v.push(Step::Seal { key: 0, nonce: r.seed(), aad: r.below(40) as u32, len: (1 << 29) + r.below(5000) as u32, seed: r.seed(), peer: false, off: r.below(64) as u8, edge: 0 });
            let tag = if r.chance(1, 4) { gen_damage(r) } else { vec![] };
            v.push(Step::Deliver { msg: 0, key: 255, ct: vec![], tag, nonce: vec![], aad: vec![], mix: 0, with: 0, off: r.below(64) as u8 });
            return v;
        }
        if run % 8000 == 4 {
            // associated data of the same kind
            v.push(Step::Key { alg: r.below(4) as u8, seed: r.seed() });
            v.push(Step::Seal { key: 0, nonce: r.seed(), aad: (1 << 29) + r.below(500) as u32, len: r.below(3000) as u32, seed: r.seed(), peer: false, off: 0, edge: 0 });
            return v;
        }
        let nk = 1 + r.usize(4);
        for _ in 0..nk {
            v.push(Step::Key { alg: r.below(4) as u8, seed: r.seed() });
        }
        let n = 10 + r.usize(if tier == Tier::Thorough { 60 } else { 30 });
        let mut msgs = 0;
        for _ in 0..n {
            if msgs == 0 || r.chance(2, 5) {
                let big = r.chance(1, if tier == Tier::Thorough { 12 } else { 40 });
                let len = length(r, big);
                let aad = match r.below(6) {
                    0 | 1 => r.below(40) as u32,
                    2 => 0,
                    3 | 4 => r.len(16, 600) as u32,
                    _ => r.len(256, 20_000) as u32,
                };
                v.push(Step::Seal { key: r.below(nk as u64) as u8, nonce: r.seed(), aad, len, seed: r.seed(), peer: r.chance(1, 4), off: r.below(64) as u8, edge: if len < 3000 && r.chance(1, 3) { r.seed() | 1 } else { 0 } });
                msgs += 1;
            } else if r.chance(1, 20) {
                v.push(Step::Restart { key: r.below(8) as u8 });
            } else {
                let mut d = [vec![], vec![], vec![], vec![]];
                if r.chance(3, 4) {
                    d[r.usize(4)] = gen_damage(r);
                    if r.chance(1, 8) {
                        d[r.usize(4)] = gen_damage(r);
                    }
                }
                let msg = msgs - 1 - (r.log(msgs as u64 - 1) as i64);
                let [ct, tag, nonce, aad] = d;
                let mixed = r.chance(1, 8);
                v.push(Step::Deliver {
                    msg: msg as u8,
                    key: if r.chance(1, 10) { r.below(8) as u8 } else { 255 },
                    ct,
                    tag,
                    nonce,
                    aad,
                    mix: if mixed { 1 << r.below(4) } else { 0 },
                    with: r.below(msgs as u64) as u8,
                    off: r.below(64) as u8,
                });
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut keys: Vec<K> = vec![];
        let mut msgs: Vec<M> = vec![];
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    cx.ev(format!("cpu model {m:#x}"));
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Key { alg, seed } => {
                    let alg = alg % 4;
                    let bytes = expand(*seed, refs::aead_key_len(alg));
                    let a = cx.call("aead.new", || AeadKey::new(alg, &bytes))?;
                    let b = cx.call("aead.new", || AeadKey::new(alg, &bytes))?;
                    keys.push(K { alg, bytes, a, b });
                }
                Step::Restart { key } => {
                    if keys.is_empty() {
                        continue;
                    }
                    let n = keys.len();
                    let k = &mut keys[*key as usize % n];
                    k.a = cx.call("aead.new", || AeadKey::new(k.alg, &k.bytes))?;
                    k.b = cx.call("aead.new", || AeadKey::new(k.alg, &k.bytes))?;
                    cx.fault("process.restart");
                }
                Step::Seal { key, nonce, aad, len, seed, peer, off, edge } => {
                    if keys.is_empty() {
                        continue;
                    }
                    let ki = *key as usize % keys.len();
                    let k = &keys[ki];
                    let nonce = expand(*nonce, refs::aead_nonce_len(k.alg));
                    let aad = expand(seed ^ 0x11, *aad as usize);
                    let mut pt = expand(*seed, *len as usize);
                    if *edge != 0 && refs::poly_edge(k.alg, &k.bytes, &nonce, &aad, &mut pt, &mut Rng::new(*edge as u64)) {
                        cx.probe("poly1305_extreme");
                    }
                    let (want, wtag) = refs::seal(k.alg, &k.bytes, &nonce, &aad, &pt);
                    if !*peer {
                        let mut buf = Fenced::new(&pt, *off);
                        let mut tag = [0xa5; 16];
                        cx.call_sized("aead.encrypt", aad.len() + pt.len(), || k.a.seal(&nonce, &aad, buf.slice(), &mut tag))?;
                        cx.check();
                        ensure!(buf.fence_ok(), "seal.overrun", "alg {} len {} wrote outside the buffer", k.alg, pt.len());
                        ensure!(buf.slice() == &want[..], "seal.ciphertext", "alg {} len {} aad {}: ciphertext differs from the reference", k.alg, pt.len(), aad.len());
                        ensure!(tag == wtag, "seal.tag", "alg {} len {} aad {}: tag differs from the reference", k.alg, pt.len(), aad.len());
                    }
                    cx.ev_bytes("seal", &want);
                    cx.ev(format!("seal alg {} len {} aad {}", k.alg, pt.len(), aad.len()));
                    if pt.len() >= 1 << 20 {
                        cx.probe("message_over_1MiB");
                    }
                    if pt.len() >= 1 << 29 {
                        cx.probe("message_over_512MiB");
                    }
                    msgs.push(M { alg: k.alg, key: k.bytes.clone(), nonce, aad, ct: want, tag: wtag.to_vec(), k: ki });
                }
                Step::Deliver { msg, key, ct, tag, nonce, aad, mix, with, off } => {
                    if msgs.is_empty() {
                        continue;
                    }
                    let m = &msgs[*msg as usize % msgs.len()];
                    let w = &msgs[*with as usize % msgs.len()];
                    let k = &keys[if *key == 255 { m.k } else { *key as usize % keys.len() }];
                    let (mut c, mut t, mut n, mut a) = (m.ct.clone(), m.tag.clone(), m.nonce.clone(), m.aad.clone());
                    if *mix != 0 {
                        cx.fault("net.mixed_messages");
                        if mix & 1 != 0 {
                            c = w.ct.clone();
                        }
                        if mix & 2 != 0 {
                            t = w.tag.clone();
                        }
                        if mix & 4 != 0 {
                            n = w.nonce.clone();
                        }
                        if mix & 8 != 0 {
                            a = w.aad.clone();
                        }
                    }
                    damage(&mut c, ct, &w.ct, "net", cx);
                    damage(&mut t, tag, &w.tag, "net", cx);
                    damage(&mut n, nonce, &w.nonce, "net", cx);
                    damage(&mut a, aad, &w.aad, "net", cx);
                    // nonces are fixed-size by type
                    n.resize(refs::aead_nonce_len(k.alg), 0);
                    if *key != 255 && k.bytes != m.key {
                        cx.fault("net.misdelivered");
                    }
                    // what an independent receiver makes of exactly these bytes
                    let (pt, _) = refs::seal(k.alg, &k.bytes, &n, &a, &c);
                    let (_, good) = refs::seal(k.alg, &k.bytes, &n, &a, &pt);
                    let valid = t == good;
                    let mut buf = Fenced::new(&c, *off);
                    let r = cx.call_sized("aead.decrypt", a.len() + c.len(), || k.b.open(&n, &a, buf.slice(), &t))?;
                    cx.check();
                    ensure!(buf.fence_ok(), "open.overrun", "alg {} len {} wrote outside the buffer", k.alg, c.len());
                    if valid {
                        ensure!(r.is_ok(), "open.refused", "alg {} len {} aad {}: intact message refused", k.alg, c.len(), a.len());
                        ensure!(buf.slice() == &pt[..], "open.plaintext", "alg {} len {}: wrong plaintext delivered", k.alg, c.len());
                        cx.probe("intact_opened");
                    } else {
                        ensure!(r.is_err(), "open.forged", "alg {} len {} tag len {}: altered message accepted", k.alg, c.len(), t.len());
                        ensure!(
                            buf.slice().iter().all(|b| *b == 0),
                            "open.leak",
                            "alg {} len {} tag len {}: buffer not cleared after failed open",
                            k.alg,
                            c.len(),
                            t.len()
                        );
                        cx.probe("altered_refused");
                    }
                    let _ = m.alg;
                    cx.ev(format!("deliver alg {} len {} tag {} -> {}", k.alg, c.len(), t.len(), r.is_ok()));
                }
            }
        }
        Ok(())
    }
}

pub fn def() -> Def {
    Def {
        id: "C06",
        title: "AEAD delivers exactly the sealed plaintext or nothing",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 16000,
        thorough: 60000,
        rule: "a run (seeded CPU model, keys, sealed messages, deliveries with faults) counts when it reached at least one oracle check and had a fault or more than one operation; distinct by history hash",
        real: &["graviola::aead (AES-GCM, ChaCha20-Poly1305, XChaCha20-Poly1305) incl. CPU-feature dispatch"],
        stub: &["network between the two nodes (simulated)", "independent receiver/sender: aes-gcm, chacha20poly1305 crates"],
        probes: &["intact_opened", "altered_refused", "message_over_1MiB", "message_over_512MiB", "poly1305_extreme"],
        assumptions: &["the RustCrypto AEAD crates are a correct reference"],
    }
}
