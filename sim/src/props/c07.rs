//! C07: streaming digests and MACs depend only on the bytes.
use super::prelude::*;
use graviola::hashing::{self, Hash, HashContext, hmac::Hmac};
use ::hmac::Mac;
use sha2::digest::DynDigest;

/// context kinds: 0..3 SHA-2 (trait contexts), 3..6 SHA-2 (concrete contexts), 6,7 SHA3-256/512, 8..11 HMAC,
/// 11,12 provider hashes, 13,14 provider HMAC keys (messages collected), 15,16 SHAKE
const KINDS: u8 = 17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    New { kind: u8, seed: u32, len: u32 },
    /// bytes of a message arrive in pieces of these sizes
    Feed { c: u8, cuts: Vec<u32>, seed: u32 },
    /// feed n megabytes (length-field boundaries)
    Flood { c: u8, mib: u16 },
    Fork { c: u8 },
    ForkFinish { c: u8 },
    Finish { c: u8 },
    Drop { c: u8 },
    /// the context moves to another thread, is fed there, and comes back
    Migrate { c: u8, len: u32, seed: u32 },
    /// MAC or digest comparison against a tag damaged in transit
    Verify { c: u8, dmg: Vec<Dmg> },
    /// read XOF output in pieces of these sizes
    Read { c: u8, cuts: Vec<u32> },
    OneShot { kind: u8, len: u32, seed: u32, parts: Vec<u16> },
}

pub struct S;

#[derive(Clone)]
enum Rf {
    D(Box<dyn DynDigest>),
    H256(::hmac::Hmac<sha2::Sha256>),
    H384(::hmac::Hmac<sha2::Sha384>),
    H512(::hmac::Hmac<sha2::Sha512>),
}
impl Rf {
    fn update(&mut self, b: &[u8]) {
        match self {
            Rf::D(d) => d.update(b),
            Rf::H256(h) => Mac::update(h, b),
            Rf::H384(h) => Mac::update(h, b),
            Rf::H512(h) => Mac::update(h, b),
        }
    }
    fn fin(&self) -> Vec<u8> {
        match self.clone() {
            Rf::D(d) => d.finalize().to_vec(),
            Rf::H256(h) => h.finalize().into_bytes().to_vec(),
            Rf::H384(h) => h.finalize().into_bytes().to_vec(),
            Rf::H512(h) => h.finalize().into_bytes().to_vec(),
        }
    }
}

enum Cc {
    T256(<hashing::Sha256 as Hash>::Context),
    T384(<hashing::Sha384 as Hash>::Context),
    T512(<hashing::Sha512 as Hash>::Context),
    C256(hashing::sha2::Sha256Context),
    C384(hashing::sha2::Sha384Context),
    C512(hashing::sha2::Sha512Context),
    S3_256(hashing::sha3::Sha3_256Context),
    S3_512(hashing::sha3::Sha3_512Context),
    M256(Hmac<hashing::Sha256>),
    M384(Hmac<hashing::Sha384>),
    M512(Hmac<hashing::Sha512>),
    P(Box<dyn rustls::crypto::hash::Context>),
    PM(Box<dyn rustls::crypto::hmac::Key>, Vec<Vec<u8>>),
    X128(hashing::sha3::Shake128),
    X256(hashing::sha3::Shake256),
}

impl Cc {
    fn update(&mut self, b: &[u8]) {
        match self {
            Cc::T256(c) => c.update(b),
            Cc::T384(c) => c.update(b),
            Cc::T512(c) => c.update(b),
            Cc::C256(c) => c.update(b),
            Cc::C384(c) => c.update(b),
            Cc::C512(c) => c.update(b),
            Cc::S3_256(c) => c.update(b),
            Cc::S3_512(c) => c.update(b),
            Cc::M256(c) => c.update(b),
            Cc::M384(c) => c.update(b),
            Cc::M512(c) => c.update(b),
            Cc::P(c) => c.update(b),
            Cc::PM(_, v) => v.push(b.to_vec()),
            Cc::X128(_) | Cc::X256(_) => {}
        }
    }
    fn fork(&self) -> Option<Cc> {
        Some(match self {
            Cc::T256(c) => Cc::T256(c.clone()),
            Cc::T384(c) => Cc::T384(c.clone()),
            Cc::T512(c) => Cc::T512(c.clone()),
            Cc::C256(c) => Cc::C256(c.clone()),
            Cc::C384(c) => Cc::C384(c.clone()),
            Cc::C512(c) => Cc::C512(c.clone()),
            Cc::M256(c) => Cc::M256(c.clone()),
            Cc::M384(c) => Cc::M384(c.clone()),
            Cc::M512(c) => Cc::M512(c.clone()),
            Cc::P(c) => Cc::P(c.fork()),
            _ => return None,
        })
    }
    fn finish(self) -> Option<Vec<u8>> {
        Some(match self {
            Cc::T256(c) => c.finish().as_ref().to_vec(),
            Cc::T384(c) => c.finish().as_ref().to_vec(),
            Cc::T512(c) => c.finish().as_ref().to_vec(),
            Cc::C256(c) => c.finish().to_vec(),
            Cc::C384(c) => c.finish().to_vec(),
            Cc::C512(c) => c.finish().to_vec(),
            Cc::S3_256(c) => c.finish().to_vec(),
            Cc::S3_512(c) => c.finish().to_vec(),
            Cc::M256(c) => c.finish().as_ref().to_vec(),
            Cc::M384(c) => c.finish().as_ref().to_vec(),
            Cc::M512(c) => c.finish().as_ref().to_vec(),
            Cc::P(c) => c.finish().as_ref().to_vec(),
            Cc::PM(k, v) => pm_sign(&*k, &v),
            Cc::X128(_) | Cc::X256(_) => return None,
        })
    }
}

fn pm_sign(k: &dyn rustls::crypto::hmac::Key, v: &[Vec<u8>]) -> Vec<u8> {
    let parts: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    match parts.len() {
        0 => k.sign(&[]).as_ref().to_vec(),
        1 => k.sign(&parts).as_ref().to_vec(),
        n => k.sign_concat(parts[0], &parts[1..n - 1], parts[n - 1]).as_ref().to_vec(),
    }
}

struct Slot {
    c: Cc,
    r: Rf,
    kind: u8,
    /// XOF input and read position
    xin: Vec<u8>,
    pos: usize,
    total: u64,
}

fn block(kind: u8) -> u64 {
    match kind {
        0 | 3 | 8 | 11 | 13 => 64,
        6 | 16 => 136,
        7 => 72,
        15 => 168,
        _ => 128,
    }
}

fn cuts(r: &mut Rng, b: u64) -> Vec<u32> {
    let n = 1 + r.usize(6);
    (0..n)
        .map(|_| match r.below(8) {
            0 => 0,
            1 => 1,
            2 => b as u32,
            3 => (b * (1 + r.below(6))) as u32,
            7 => r.len(b, 3000) as u32,
            _ => r.len(b, 4 * b) as u32,
        })
        .collect()
}

fn hash_suites() -> [&'static dyn rustls::crypto::hash::Hash; 2] {
    let p = rustls_graviola::default_provider();
    let mut out: [Option<&'static dyn rustls::crypto::hash::Hash>; 2] = [None, None];
    for s in &p.cipher_suites {
        let h = crate::ops::suite_hash(s);
        out[(h.output_len() == 48) as usize].get_or_insert(h);
    }
    [out[0].unwrap(), out[1].unwrap()]
}

/// the provider's HMAC objects are reachable through the TLS 1.2 PRF / TLS 1.3 HKDF providers only; the
/// HKDF providers' `hmac_sign` and `extract`/`expand` exercise them
fn hkdf(i: usize) -> &'static dyn rustls::crypto::tls13::Hkdf {
    let p = rustls_graviola::default_provider();
    for s in &p.cipher_suites {
        if let rustls::SupportedCipherSuite::Tls13(c) = s {
            if (c.common.hash_provider.output_len() == 48) as usize == i {
                return c.hkdf_provider;
            }
        }
    }
    panic!("no suite")
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![Step::Cpu(gen_cpu(r))];
        let flood = run % if tier == Tier::Thorough { 700 } else { 1500 } == 3;
        if flood {
            let k = r.below(6) as u8;
            v[0] = Step::Cpu(if r.chance(3, 4) { 0 } else { 0x7f });
            v.push(Step::New { kind: k, seed: r.seed(), len: 20 });
            v.push(Step::Feed { c: 0, cuts: cuts(r, 64), seed: r.seed() });
            v.push(Step::Flood { c: 0, mib: *r.pick(&[255, 256, 511, 512, 513, 600]) });
            v.push(Step::ForkFinish { c: 0 });
            v.push(Step::Feed { c: 0, cuts: cuts(r, 64), seed: r.seed() });
            v.push(Step::Finish { c: 0 });
            return v;
        }
        let nc = 1 + r.usize(5);
        let mut kinds = vec![];
        let n = 15 + r.usize(40);
        for i in 0..n {
            if i < nc || r.chance(1, 8) {
                let kind = r.below(KINDS as u64) as u8;
                kinds.push(kind);
                let len = match kind {
                    8..=10 | 13 | 14 => r.len(block(kind), 400) as u32,
                    _ => r.len(block(kind), 1000) as u32,
                };
                v.push(Step::New { kind, seed: r.seed(), len });
                continue;
            }
            let c = r.below(kinds.len() as u64) as u8;
            let b = block(kinds[c as usize]);
            v.push(match r.below(24) {
                0..=9 => Step::Feed { c, cuts: cuts(r, b), seed: r.seed() },
                10 | 11 => Step::Fork { c },
                12 | 13 => Step::ForkFinish { c },
                14 => Step::Finish { c },
                15 => Step::Drop { c },
                16 => Step::Migrate { c, len: r.len(b, 400) as u32, seed: r.seed() },
                17..=19 => Step::Verify { c, dmg: if r.chance(1, 4) { vec![] } else { gen_damage(r) } },
                20..=22 => Step::Read { c, cuts: cuts(r, b) },
                _ => Step::OneShot { kind: r.below(9) as u8, len: r.len(128, 1500) as u32, seed: r.seed(), parts: (0..r.log(24)).map(|_| r.below(300) as u16).collect() },
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut slots: Vec<Option<Slot>> = vec![];
        let get = |slots: &mut Vec<Option<Slot>>, c: u8| -> Option<usize> {
            if slots.is_empty() {
                return None;
            }
            let i = c as usize % slots.len();
            slots[i].is_some().then_some(i)
        };
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    cx.ev(format!("cpu {m:#x}"));
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::New { kind, seed, len } => {
                    let kind = kind % KINDS;
                    let d = expand(*seed, (*len).min(5000) as usize);
                    let dd = |k: u8| -> Rf {
                        Rf::D(match k % 3 {
                            0 => Box::new(sha2::Sha256::default()) as Box<dyn DynDigest>,
                            1 => Box::new(sha2::Sha384::default()),
                            _ => Box::new(sha2::Sha512::default()),
                        })
                    };
                    let hm = |k: u8| match k % 3 {
                        0 => Rf::H256(<::hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(&d).unwrap()),
                        1 => Rf::H384(<::hmac::Hmac<sha2::Sha384> as Mac>::new_from_slice(&d).unwrap()),
                        _ => Rf::H512(<::hmac::Hmac<sha2::Sha512> as Mac>::new_from_slice(&d).unwrap()),
                    };
                    let (c, r) = cx.call("hash.new", || match kind {
                        0 => (Cc::T256(hashing::Sha256::new()), dd(0)),
                        1 => (Cc::T384(hashing::Sha384::new()), dd(1)),
                        2 => (Cc::T512(hashing::Sha512::new()), dd(2)),
                        3 => (Cc::C256(hashing::sha2::Sha256Context::new()), dd(0)),
                        4 => (Cc::C384(hashing::sha2::Sha384Context::new()), dd(1)),
                        5 => (Cc::C512(hashing::sha2::Sha512Context::new()), dd(2)),
                        6 => (Cc::S3_256(hashing::sha3::Sha3_256Context::new()), Rf::D(Box::new(sha3::Sha3_256::default()))),
                        7 => (Cc::S3_512(hashing::sha3::Sha3_512Context::new()), Rf::D(Box::new(sha3::Sha3_512::default()))),
                        8 => (Cc::M256(Hmac::new(&d)), hm(0)),
                        9 => (Cc::M384(Hmac::new(&d)), hm(1)),
                        10 => (Cc::M512(Hmac::new(&d)), hm(2)),
                        11 => (Cc::P(hash_suites()[0].start()), dd(0)),
                        12 => (Cc::P(hash_suites()[1].start()), dd(1)),
                        13 => (Cc::PM(provider_hmac(0).with_key(&d), vec![]), hm(0)),
                        14 => (Cc::PM(provider_hmac(1).with_key(&d), vec![]), hm(1)),
                        15 | 16 => {
                            // input in several pieces
                            let cut = d.len() / 3;
                            let parts: [&[u8]; 4] = [&d[..cut], &[], &d[cut..2 * cut], &d[2 * cut..]];
                            let x = if kind == 15 { Cc::X128(hashing::sha3::Shake128::new(&parts)) } else { Cc::X256(hashing::sha3::Shake256::new(&parts)) };
                            (x, dd(0))
                        }
                        _ => unreachable!(),
                    })?;
                    slots.push(Some(Slot { c, r, kind, xin: d, pos: 0, total: 0 }));
                }
                Step::Feed { c, cuts, seed } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_mut().unwrap();
                    let n: usize = cuts.iter().map(|x| (*x).min(1 << 20) as usize).sum();
                    let d = expand(*seed, n);
                    let mut at = 0;
                    for cut in cuts {
                        let e = at + (*cut).min(1 << 20) as usize;
                        let piece = &d[at..e];
                        cx.call("hash.update", || sl.c.update(piece))?;
                        at = e;
                    }
                    cx.faultn("net.fragmented", cuts.len() as u64 - (!cuts.is_empty()) as u64);
                    sl.r.update(&d);
                    sl.total += n as u64;
                    cx.ev(format!("feed ctx {k} kind {} {cuts:?}", sl.kind));
                }
                Step::Flood { c, mib } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_mut().unwrap();
                    if matches!(sl.c, Cc::PM(..)) {
                        continue;
                    }
                    let d = expand(99, 1 << 20);
                    for _ in 0..*mib {
                        cx.call("hash.update", || sl.c.update(&d))?;
                    }
                    for _ in 0..*mib {
                        sl.r.update(&d)
                    }
                    sl.total += (*mib as u64) << 20;
                    if sl.total >= 1 << 29 {
                        cx.probe("over_2^32_bits");
                    }
                }
                Step::Migrate { c, len, seed } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_mut().unwrap();
                    let d = expand(*seed, (*len).min(1 << 16) as usize);
                    let p = SendPtr(&mut sl.c as *mut Cc);
                    let dd = d.clone();
                    let ok = std::thread::scope(|sc| {
                        sc.spawn(move || {
                            let p = p;
                            catch(|| unsafe { (*p.0).update(&dd) }).is_ok()
                        })
                        .join()
                        .unwrap_or(false)
                    });
                    ensure!(ok, "panic", "update on another thread panicked");
                    sl.r.update(&d);
                    cx.fault("thread.migrated");
                }
                Step::Fork { c } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    if slots.len() >= 24 {
                        continue;
                    }
                    let sl = slots[k].as_ref().unwrap();
                    if let Some(n) = cx.call("hash.clone", || sl.c.fork())? {
                        let s2 = Slot { c: n, r: sl.r.clone(), kind: sl.kind, xin: sl.xin.clone(), pos: 0, total: sl.total };
                        slots.push(Some(s2));
                        cx.probe("forked");
                    }
                }
                Step::ForkFinish { c } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_ref().unwrap();
                    let got = cx.call("hash.fork_finish", || match &sl.c {
                        Cc::P(p) => Some(p.fork_finish().as_ref().to_vec()),
                        Cc::PM(k, v) => Some(pm_sign(&**k, v)),
                        o => o.fork().and_then(|f| f.finish()),
                    })?;
                    if let Some(g) = got {
                        cx.check();
                        ensure!(g == sl.r.fin(), "digest", "kind {} after {} bytes: forked digest differs from the reference", sl.kind, sl.total);
                        cx.ev_bytes("d", &g);
                    }
                }
                Step::Finish { c } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].take().unwrap();
                    let c = sl.c;
                    if let Some(g) = cx.call("hash.finish", || c.finish())? {
                        cx.check();
                        ensure!(g == sl.r.fin(), "digest", "kind {} after {} bytes: digest differs from the reference", sl.kind, sl.total);
                        cx.ev_bytes("d", &g);
                        cx.ev(format!("finish ctx {k} kind {} total {}", sl.kind, sl.total));
                    }
                }
                Step::Drop { c } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    slots[k] = None;
                    cx.fault("context.dropped");
                }
                Step::Verify { c, dmg } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_ref().unwrap();
                    let Some(f) = sl.c.fork() else { continue };
                    let want = sl.r.fin();
                    let mut tag = want.clone();
                    let other = refs::sha(0, &want);
                    damage(&mut tag, dmg, &other, "net", cx);
                    let ok = tag == want;
                    let tr: [u8; 16] = want[..16].try_into().unwrap();
                    let (got, trunc) = cx.call("mac.verify", || {
                        fn hv<H: Hash>(m: Hmac<H>, m2: Hmac<H>, t: &[u8], tr: &[u8]) -> (bool, bool) {
                            let o = m2.finish();
                            let same = o.clone();
                            (m.verify(t).is_ok() && o.ct_equal(t) && same == o, o.truncated_ct_equal::<16>(tr) && (t == tr || !o.truncated_ct_equal::<16>(t)))
                        }
                        fn dv(o: hashing::HashOutput, t: &[u8], tr: &[u8]) -> (bool, bool) {
                            (o.ct_equal(t), o.truncated_ct_equal::<16>(tr) && (t == tr || !o.truncated_ct_equal::<16>(t)))
                        }
                        match f {
                            Cc::M256(m) => hv(m.clone(), m, &tag, &tr),
                            Cc::M384(m) => hv(m.clone(), m, &tag, &tr),
                            Cc::M512(m) => hv(m.clone(), m, &tag, &tr),
                            Cc::T256(m) => dv(m.finish(), &tag, &tr),
                            Cc::T384(m) => dv(m.finish(), &tag, &tr),
                            Cc::T512(m) => dv(m.finish(), &tag, &tr),
                            o => (o.finish().unwrap() == tag, true),
                        }
                    })?;
                    cx.check();
                    ensure!(got == ok, if ok { "mac.refused" } else { "mac.forged" }, "kind {} tag len {} (of {}): verify gave {got}", sl.kind, tag.len(), want.len());
                    ensure!(trunc, "mac.truncated", "kind {}: truncated comparison wrong", sl.kind);
                    cx.probe(if ok { "tag_accepted" } else { "tag_refused" });
                }
                Step::Read { c, cuts } => {
                    let Some(k) = get(&mut slots, *c) else { continue };
                    let sl = slots[k].as_mut().unwrap();
                    if sl.kind < 15 {
                        continue;
                    }
                    let n: usize = cuts.iter().map(|x| (*x).min(1 << 16) as usize).sum();
                    let mut out = Fenced::new(&vec![0x5a; n], (n % 64) as u8);
                    let mut at = 0;
                    for cut in cuts {
                        let e = at + (*cut).min(1 << 16) as usize;
                        let o = &mut out.slice()[at..e];
                        cx.call("xof.read", || match &mut sl.c {
                            Cc::X128(x) => x.read(o),
                            Cc::X256(x) => x.read(o),
                            _ => {}
                        })?;
                        at = e;
                    }
                    let want = refs::shake((sl.kind == 16) as u8, &sl.xin, sl.pos + n);
                    cx.check();
                    ensure!(out.fence_ok(), "xof.overrun", "kind {} wrote outside the output", sl.kind);
                    ensure!(out.slice() == &want[sl.pos..], "xof", "kind {} input {} at {} pieces {cuts:?}: output differs from the reference", sl.kind, sl.xin.len(), sl.pos);
                    sl.pos += n;
                    cx.ev(format!("read ctx {k} {cuts:?}"));
                    cx.faultn("net.fragmented", cuts.len() as u64);
                }
                Step::OneShot { kind, len, seed, parts } => {
                    let d = expand(*seed, (*len).min(1 << 16) as usize);
                    let (got, want) = cx.call("hash.oneshot", || match kind % 9 {
                        0 => (hashing::Sha256::hash(&d).as_ref().to_vec(), refs::sha(0, &d)),
                        1 => (hashing::Sha384::hash(&d).as_ref().to_vec(), refs::sha(1, &d)),
                        2 => (hashing::Sha512::hash(&d).as_ref().to_vec(), refs::sha(2, &d)),
                        k @ (3 | 4) => (hash_suites()[k as usize - 3].hash(&d).as_ref().to_vec(), refs::sha(k - 3, &d)),
                        k @ (5 | 6) => {
                            // provider HMAC through HKDF
                            let i = k as usize - 5;
                            let key = rustls::crypto::tls13::OkmBlock::new(&expand(*seed ^ 3, [32, 48][i]));
                            (hkdf(i).hmac_sign(&key, &d).as_ref().to_vec(), refs::hmac(i as u8, key.as_ref(), &d))
                        }
                        k => {
                            // HKDF extract and expand over pieces
                            let i = (k - 7) as usize;
                            let ol = [32, 48][i];
                            let ex = hkdf(i).extract_from_secret(Some(&d), &expand(*seed ^ 9, 40));
                            let info: Vec<Vec<u8>> = parts.iter().map(|p| expand(*p as u32, *p as usize)).collect();
                            let inf: Vec<&[u8]> = info.iter().map(|x| &x[..]).collect();
                            let mut o = vec![0; 1 + (*seed as usize % (3 * ol))];
                            let ok = ex.expand_slice(&inf, &mut o).is_ok();
                            let prk = refs::hmac(i as u8, &d, &expand(*seed ^ 9, 40));
                            let w = refs_hkdf(i as u8, &prk, &info.concat(), o.len());
                            (if ok { o } else { vec![] }, w)
                        }
                    })?;
                    cx.check();
                    ensure!(got == want, "oneshot", "kind {} len {} parts {parts:?}: differs from the reference", kind % 9, d.len());
                    cx.ev_bytes("o", &got);
                }
            }
        }
        // everything still alive must finish correctly
        for (k, s) in slots.into_iter().enumerate() {
            if let Some(sl) = s {
                let c = sl.c;
                if let Some(g) = cx.call("hash.finish", || c.finish())? {
                    cx.check();
                    ensure!(g == sl.r.fin(), "digest", "ctx {k} kind {} after {} bytes: digest differs from the reference", sl.kind, sl.total);
                    cx.ev_bytes("d", &g);
                }
            }
        }
        Ok(())
    }
}

struct SendPtr(*mut Cc);
unsafe impl Send for SendPtr {}

fn refs_hkdf(alg: u8, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        let mut m = t.clone();
        m.extend(info);
        m.push(i);
        t = refs::hmac(alg, prk, &m);
        out.extend(&t);
        i += 1;
    }
    out.truncate(n);
    out
}

/// The provider's HMAC objects as TLS sees them: HKDF's `hmac_sign` makes a key object per call, so wrap it.
fn provider_hmac(i: usize) -> Box<dyn rustls::crypto::hmac::Hmac> {
    struct H(usize);
    struct K(usize, Vec<u8>);
    impl rustls::crypto::hmac::Hmac for H {
        fn with_key(&self, key: &[u8]) -> Box<dyn rustls::crypto::hmac::Key> {
            Box::new(K(self.0, key.to_vec()))
        }
        fn hash_output_len(&self) -> usize {
            [32, 48][self.0]
        }
    }
    impl rustls::crypto::hmac::Key for K {
        fn sign_concat(&self, a: &[u8], m: &[&[u8]], z: &[u8]) -> rustls::crypto::hmac::Tag {
            let mut d = a.to_vec();
            for x in m {
                d.extend(*x);
            }
            d.extend(z);
            if self.1.len() <= 64 {
                let key = rustls::crypto::tls13::OkmBlock::new(&self.1);
                hkdf(self.0).hmac_sign(&key, &d)
            } else {
                // extract(salt = key, ikm = d) is HMAC(key, d); compare through a one-block expansion is not
                // possible, so long keys go to the library's own HMAC
                rustls::crypto::hmac::Tag::new(&match self.0 {
                    0 => {
                        let mut h = Hmac::<hashing::Sha256>::new(&self.1);
                        h.update(&d);
                        h.finish().as_ref().to_vec()
                    }
                    _ => {
                        let mut h = Hmac::<hashing::Sha384>::new(&self.1);
                        h.update(&d);
                        h.finish().as_ref().to_vec()
                    }
                })
            }
        }
        fn tag_len(&self) -> usize {
            [32, 48][self.0]
        }
    }
    Box::new(H(i))
}

pub fn def() -> Def {
    Def {
        id: "C07",
        title: "Streaming digests and MACs depend only on the bytes",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 20000,
        thorough: 200000,
        rule: "a run (interleaved histories over several live contexts: fragmentation, forks, drops, thread moves, damaged tags) counts when it made at least one comparison with the reference; distinct by history hash",
        real: &["graviola::hashing (SHA-2, SHA-3, SHAKE, HMAC)", "rustls-graviola hash/hmac/HKDF providers"],
        stub: &["byte delivery (simulated fragmentation)", "reference: sha2, sha3, hmac crates"],
        probes: &["forked", "tag_accepted", "tag_refused", "over_2^32_bits"],
        assumptions: &["the RustCrypto hash crates are a correct reference"],
    }
}
