//! C16: the TLS record layer and key schedule of the provider agree with an independent model, record by record.
use super::prelude::*;
use crate::ops::{aead_key16, suite_hash};
use crate::tls::base;
use rustls::crypto::cipher::{AeadKey, InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage};
use rustls::{ConnectionTrafficSecrets as Secrets, ContentType, Error, PeerMisbehaved, ProtocolVersion, SupportedCipherSuite};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum From {
    Us,
    Ring,
    /// a peer that is free to do what the specification allows: padding, oversized records, any explicit nonce
    Model,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seq {
    /// the sender's (receiver's) next one
    Next,
    /// the one the record was sealed under
    Same,
    Off(i8),
    At(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    Setup { suite: u8, key: u32 },
    Seal { from: From, seq: Seq, typ: u8, ver: u8, len: u32, cuts: Vec<u16>, seed: u32, pad: u16, zero: bool },
    /// hand the i-th latest record to the receiver
    Deliver { back: u8, seq: Seq, typ: Option<u8>, ver: Option<u8>, d: Vec<Dmg> },
    /// bytes of the attacker's own making
    Raw { len: u32, seed: u32, seq: u64 },
    Extract,
    Prf { suite: u8, secret: u16, label: u16, seed: u16, out: u16, data: u32 },
    Hkdf { suite: u8, how: u8, salt: Option<u16>, secret: u16, info: Vec<u16>, out: u32, data: u32 },
    Transcript { suite: u8, ops: Vec<(u8, u16)>, data: u32 },
}

fn typ(t: u8) -> ContentType {
    [ContentType::ApplicationData, ContentType::Handshake, ContentType::Alert, ContentType::ChangeCipherSpec, ContentType::Heartbeat, ContentType::from(t)]
        [(t % 8).saturating_sub(2) as usize]
}
fn ver(v: u8) -> ProtocolVersion {
    [ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_0, ProtocolVersion::TLSv1_3, ProtocolVersion::from(v as u16 * 3)][v as usize % 6]
}

/// what one direction of a connection is keyed with
struct Keys {
    id: String,
    alg: u8,
    tls13: bool,
    key: Vec<u8>,
    /// 12 bytes; for TLS 1.2 AES-GCM the first four are fixed, the rest is where the sender's explicit part starts
    iv: [u8; 12],
}

const MAX: usize = 16384;

#[derive(Debug, PartialEq)]
enum Want {
    Plain(ContentType, ProtocolVersion, Vec<u8>),
    Oversized,
    Illegal,
    Bad,
}

impl Keys {
    fn explicit(&self) -> bool {
        !self.tls13 && self.alg < 2
    }
    fn nonce(&self, seq: u64) -> [u8; 12] {
        let mut n = self.iv;
        n[4..].iter_mut().zip(seq.to_be_bytes()).for_each(|(a, b)| *a ^= b);
        n
    }
    fn aad(&self, seq: u64, t: ContentType, v: ProtocolVersion, plain: usize, wire: usize) -> Vec<u8> {
        let mut a = vec![];
        if !self.tls13 {
            a.extend(seq.to_be_bytes());
            a.push(u8::from(t));
            a.extend(u16::from(v).to_be_bytes());
            a.extend((plain as u16).to_be_bytes());
        } else {
            a.extend([23, 3, 3]);
            a.extend((wire as u16).to_be_bytes());
        }
        a
    }
    fn seal(&self, seq: u64, t: ContentType, v: ProtocolVersion, plain: &[u8], pad: usize, explicit: &[u8]) -> Vec<u8> {
        let mut pt = plain.to_vec();
        let mut nonce = self.nonce(seq);
        let mut out = vec![];
        if self.tls13 {
            pt.push(u8::from(t));
            pt.resize(pt.len() + pad, 0);
        } else if self.explicit() {
            nonce[4..].copy_from_slice(explicit);
            out.extend(explicit);
        }
        let wire = pt.len() + 16;
        let (c, tag) = refs::seal(self.alg, &self.key, &nonce, &self.aad(seq, t, v, plain.len(), wire), &pt);
        out.extend(c);
        out.extend(tag);
        out
    }
    fn open(&self, seq: u64, t: ContentType, v: ProtocolVersion, body: &[u8]) -> Want {
        let mut nonce = self.nonce(seq);
        let mut b = body;
        if self.explicit() {
            let Some((e, r)) = b.split_at_checked(8) else { return Want::Bad };
            nonce[4..].copy_from_slice(e);
            b = r;
        }
        let Some(n) = b.len().checked_sub(16) else { return Want::Bad };
        let (c, tag) = b.split_at(n);
        let aad = self.aad(seq, t, v, n, body.len());
        // encryption is an involution in both constructions
        let (pt, _) = refs::seal(self.alg, &self.key, &nonce, &aad, c);
        let (c2, tag2) = refs::seal(self.alg, &self.key, &nonce, &aad, &pt);
        if c2 != c || tag2[..] != *tag {
            return Want::Bad;
        }
        if !self.tls13 {
            return if n > MAX { Want::Oversized } else { Want::Plain(t, v, pt) };
        }
        if n > MAX + 1 {
            return Want::Oversized;
        }
        match pt.iter().rposition(|b| *b != 0) {
            None => Want::Illegal,
            Some(i) => Want::Plain(ContentType::from(pt[i]), ProtocolVersion::TLSv1_3, pt[..i].to_vec()),
        }
    }
}

struct Rec {
    from: From,
    seq: u64,
    typ: ContentType,
    ver: ProtocolVersion,
    body: Vec<u8>,
}

type Enc = Box<dyn MessageEncrypter>;
type Decr = Box<dyn MessageDecrypter>;

fn akey(k: &[u8]) -> AeadKey {
    if k.len() == 16 { aead_key16(k) } else { AeadKey::from(<[u8; 32]>::try_from(k).unwrap()) }
}

fn ciphers(s: &SupportedCipherSuite, k: &Keys) -> (Enc, Decr) {
    match s {
        SupportedCipherSuite::Tls13(c) => (c.aead_alg.encrypter(akey(&k.key), Iv::new(k.iv)), c.aead_alg.decrypter(akey(&k.key), Iv::new(k.iv))),
        SupportedCipherSuite::Tls12(c) => {
            let n = if k.explicit() { 4 } else { 12 };
            (c.aead_alg.encrypter(akey(&k.key), &k.iv[..n], &k.iv[n..]), c.aead_alg.decrypter(akey(&k.key), &k.iv[..n]))
        }
    }
}

fn twin(s: &SupportedCipherSuite, all: &[SupportedCipherSuite]) -> Option<SupportedCipherSuite> {
    all.iter().find(|x| x.suite() == s.suite()).copied()
}

fn hash_alg(s: &SupportedCipherSuite) -> u8 {
    if format!("{:?}", s.suite()).ends_with("SHA384") { 1 } else { 0 }
}

fn prf(alg: u8, secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let ls = [label, seed].concat();
    let mut a = refs::hmac(alg, secret, &ls);
    let mut out = vec![];
    while out.len() < n {
        out.extend(refs::hmac(alg, secret, &[&a[..], &ls].concat()));
        a = refs::hmac(alg, secret, &a);
    }
    out.truncate(n);
    out
}

fn hkdf_expand(alg: u8, prk: &[u8], info: &[u8], n: usize) -> Option<Vec<u8>> {
    let hl = if alg == 0 { 32 } else { 48 };
    if n > 255 * hl {
        return None;
    }
    let mut out = vec![];
    let mut t = vec![];
    let mut i = 0u8;
    while out.len() < n {
        i = i.wrapping_add(1);
        t = refs::hmac(alg, prk, &[&t[..], info, &[i]].concat());
        out.extend(&t);
    }
    out.truncate(n);
    Some(out)
}

fn gen_seq(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(4),
        1 => (1u64 << r.below(64)).wrapping_sub(r.below(3)),
        2 => u64::MAX - r.below(4),
        3 => 1 << r.below(64) | r.below(4),
        4 => 0xff << (8 * r.below(8)),
        _ => r.u64(),
    }
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, _tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 3) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        for _ in 0..1 + r.usize(2) {
            v.push(Step::Setup { suite: r.below(9) as u8, key: r.seed() });
            let hostile = r.below(3);
            for _ in 0..4 + r.usize(16) {
                match r.below(20) {
                    0..=8 => {
                        let from = *r.pick(&[From::Us, From::Us, From::Ring, From::Model, From::Model]);
                        let len = match r.below(if run % 8 == 0 { 9 } else { 60 }) {
                            0 => 16384 - r.below(3) as u32,
                            1 => 16384 + r.below(2049) as u32,
                            2 => 16384 + 1 + r.below(3) as u32,
                            3 => r.below(17000) as u32,
                            4..=6 => r.below(3) as u32,
                            _ => r.len(16, 1200) as u32,
                        };
                        let seq = if r.chance(2, 3) { Seq::Next } else { Seq::At(gen_seq(r)) };
                        let cuts = (0..*r.pick(&[0, 0, 1, 2, 5])).map(|_| r.u32() as u16).collect();
                        let pad = if r.chance(1, 3) { r.log(if run % 8 == 0 { 17000 } else { 300 }) as u16 } else { 0 };
                        v.push(Step::Seal { from, seq, typ: r.below(256) as u8, ver: r.below(256) as u8, len, cuts, seed: r.seed(), pad, zero: r.chance(1, 8) });
                        if r.chance(2, 3) {
                            v.push(Step::Deliver { back: 0, seq: Seq::Same, typ: None, ver: None, d: vec![] });
                        }
                    }
                    9..=14 => {
                        let bad = hostile > 0 && r.chance(hostile, 3);
                        v.push(Step::Deliver {
                            back: if r.chance(1, 2) { 0 } else { r.below(8) as u8 },
                            seq: match r.below(6) {
                                0 => Seq::Next,
                                1 if bad => Seq::Off(*r.pick(&[1, -1, 2, -2, 127, -128])),
                                2 if bad => Seq::At(gen_seq(r)),
                                _ => Seq::Same,
                            },
                            typ: if bad && r.chance(1, 5) { Some(r.below(256) as u8) } else { None },
                            ver: if bad && r.chance(1, 5) { Some(r.below(256) as u8) } else { None },
                            d: if bad && r.chance(2, 3) { gen_damage(r) } else { vec![] },
                        });
                    }
                    15 => v.push(Step::Raw { len: if r.chance(1, 2) { r.below(50) } else { r.below(3000) } as u32, seed: r.seed(), seq: gen_seq(r) }),
                    16 => v.push(Step::Extract),
                    17 => v.push(Step::Prf {
                        suite: r.below(6) as u8,
                        secret: r.len(64, 300) as u16,
                        label: r.below(40) as u16,
                        seed: r.len(64, 200) as u16,
                        out: r.len(32, 300) as u16,
                        data: r.seed(),
                    }),
                    18 => v.push(Step::Hkdf {
                        suite: r.below(3) as u8,
                        how: r.below(4) as u8,
                        salt: if r.chance(1, 3) { None } else { Some(r.len(64, 200) as u16) },
                        secret: r.len(64, 300) as u16,
                        info: (0..r.log(16)).map(|_| r.len(64, 150) as u16).collect(),
                        out: if r.chance(1, 10) { 255 * 32 - 2 + r.below(5000) as u32 } else { r.len(32, 400) as u32 },
                        data: r.seed(),
                    }),
                    _ => {
                        let ops = (0..1 + r.usize(8)).map(|_| (r.below(8) as u8, r.len(64, 400) as u16)).collect();
                        v.push(Step::Transcript { suite: r.below(9) as u8, ops, data: r.seed() });
                    }
                }
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        struct Conn {
            suite: SupportedCipherSuite,
            k: Keys,
            us: (Enc, Decr),
            ring: Option<(Enc, Decr)>,
            next: u64,
            expect: u64,
            recs: Vec<Rec>,
            nonces: HashMap<Vec<u8>, u64>,
        }
        let ours = base(false).cipher_suites;
        let rings = base(true).cipher_suites;
        let mut c: Option<Conn> = None;
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Setup { suite, key } => {
                    let suite = ours[*suite as usize % ours.len()];
                    let id = format!("{:?}", suite.suite());
                    let tls13 = matches!(suite, SupportedCipherSuite::Tls13(_));
                    let alg = if id.contains("CHACHA") { 2 } else { id.contains("AES_256") as u8 };
                    let m = expand(*key, 44);
                    let k = Keys { id, alg, tls13, key: m[..refs::aead_key_len(alg)].to_vec(), iv: m[32..44].try_into().unwrap() };
                    cx.check();
                    let (n, shape) = match &suite {
                        SupportedCipherSuite::Tls13(c) => (c.aead_alg.key_len(), None),
                        SupportedCipherSuite::Tls12(c) => {
                            let s = c.aead_alg.key_block_shape();
                            (s.enc_key_len, Some((s.fixed_iv_len, s.explicit_nonce_len)))
                        }
                    };
                    let want = if tls13 { None } else if alg < 2 { Some((4, 8)) } else { Some((12, 0)) };
                    ensure!(n == k.key.len() && shape == want, "shape", "{}: key length {n}, key block {shape:?}", k.id);
                    let us = cx.call("ciphers", || ciphers(&suite, &k))?;
                    let ring = twin(&suite, &rings).map(|t| ciphers(&t, &k));
                    c = Some(Conn { suite, k, us, ring, next: 0, expect: 0, recs: vec![], nonces: HashMap::new() });
                }
                Step::Seal { from, seq, typ: ty, ver: ve, len, cuts, seed, pad, zero } => {
                    let Some(c) = c.as_mut() else { continue };
                    let seq = match seq {
                        Seq::At(n) => *n,
                        _ => c.next,
                    };
                    c.next = seq.wrapping_add(1);
                    let tls13 = c.k.tls13;
                    let (t, v) = (typ(*ty), if tls13 { ProtocolVersion::TLSv1_2 } else { ver(*ve) });
                    let mut pt = expand(*seed, *len as usize);
                    if *zero {
                        let h = pt.len() / 2;
                        pt[h..].fill(0);
                    }
                    let mut at: Vec<usize> = cuts.iter().map(|x| *x as usize % (pt.len() + 1)).collect();
                    at.sort_unstable();
                    let mut chunks: Vec<&[u8]> = vec![];
                    let mut o = 0;
                    for a in at {
                        chunks.push(&pt[o..a]);
                        o = a;
                    }
                    chunks.push(&pt[o..]);
                    let body = match from {
                        From::Model => {
                            let ex = expand(*seed ^ 0x55, 8);
                            if *zero && pad % 2 == 1 && tls13 {
                                // nothing but padding
                                c.k.seal(seq, ContentType::from(0), v, &vec![0; pt.len()], *pad as usize, &ex)
                            } else {
                                c.k.seal(seq, t, v, &pt, *pad as usize, &ex)
                            }
                        }
                        _ => {
                            let e = match (from, c.ring.as_mut()) {
                                (From::Ring, Some(r)) => &mut r.0,
                                _ => &mut c.us.0,
                            };
                            let m = OutboundPlainMessage { typ: t, version: v, payload: OutboundChunks::new(&chunks) };
                            let (r, plen) = cx.call("record.seal", || (e.encrypt(m, seq), e.encrypted_payload_len(pt.len())))?;
                            let r = match r {
                                Ok(r) => r,
                                Err(e) => fail!("seal", "{} refused to seal {} bytes under sequence number {seq:#x}: {e:?}", c.k.id, pt.len()),
                            };
                            let w = r.encode();
                            if *from == From::Us {
                                cx.check();
                                let (ht, hv) = if tls13 { (ContentType::ApplicationData, ProtocolVersion::TLSv1_2) } else { (t, v) };
                                ensure!(
                                    w.len() == 5 + plen && w[0] == u8::from(ht) && w[1..3] == u16::from(hv).to_be_bytes() && w[3..5] == (plen as u16).to_be_bytes(),
                                    "header",
                                    "{}: record of {} bytes for {} bytes of payload has header {:02x?}, announced {plen}",
                                    c.k.id,
                                    w.len(),
                                    pt.len(),
                                    &w[..5.min(w.len())]
                                );
                                let got = c.k.open(seq, ht, hv, &w[5..]);
                                let fits = pt.len() <= MAX;
                                let good = match &got {
                                    Want::Plain(gt, _, p) => *gt == t && *p == pt,
                                    Want::Oversized => !fits,
                                    // an all-zero inner plaintext: type zero
                                    Want::Illegal => tls13 && u8::from(t) == 0,
                                    Want::Bad => false,
                                };
                                // content type zero is invisible under TLS 1.3 padding rules; nobody sends it
                                ensure!(good || (tls13 && u8::from(t) == 0), "seal-wrong", "{}: an independent receiver cannot open the record sealed under sequence number {seq:#x} ({} bytes, {} chunks)", c.k.id, pt.len(), chunks.len());
                                if c.k.explicit() {
                                    let n = w[5..13].to_vec();
                                    if let Some(old) = c.nonces.insert(n, seq) {
                                        ensure!(old == seq, "nonce-reuse", "{}: sequence numbers {old:#x} and {seq:#x} used the same nonce", c.k.id);
                                    }
                                }
                            }
                            w[5..].to_vec()
                        }
                    };
                    cx.op(if *from == From::Us { "seal" } else { "peer.seal" });
                    cx.ev_bytes("rec", &body);
                    c.recs.push(Rec { from: *from, seq, typ: if tls13 { ContentType::ApplicationData } else { t }, ver: v, body });
                }
                Step::Deliver { back, seq, typ: ty, ver: ve, d } => {
                    let Some(c) = c.as_mut() else { continue };
                    if c.recs.is_empty() {
                        continue;
                    }
                    let n = c.recs.len();
                    let r = &c.recs[n - 1 - *back as usize % n];
                    let seq = match seq {
                        Seq::Same => r.seq,
                        Seq::Next => c.expect,
                        Seq::Off(o) => r.seq.wrapping_add(*o as i64 as u64),
                        Seq::At(x) => *x,
                    };
                    let t = if c.k.tls13 { ContentType::ApplicationData } else { ty.map(typ).unwrap_or(r.typ) };
                    let v = ve.map(ver).unwrap_or(r.ver);
                    let mut body = r.body.clone();
                    let other = c.recs[0].body.clone();
                    damage(&mut body, d, &other, "record", cx);
                    if seq != r.seq {
                        cx.fault("record.wrong_sequence");
                    }
                    if t != r.typ || v != r.ver {
                        cx.fault("record.header_changed");
                    }
                    if *back != 0 {
                        cx.fault("record.replayed_or_late");
                    }
                    let from = r.from;
                    receive(cx, &c.k, &mut c.us.1, seq, t, v, body, from)?;
                    c.expect = seq.wrapping_add(1);
                }
                Step::Raw { len, seed, seq } => {
                    let Some(c) = c.as_mut() else { continue };
                    cx.fault("record.garbage");
                    receive(cx, &c.k, &mut c.us.1, *seq, ContentType::ApplicationData, ProtocolVersion::TLSv1_2, expand(*seed, *len as usize), From::Model)?;
                }
                Step::Extract => {
                    let Some(c) = c.as_mut() else { continue };
                    let k = &c.k;
                    let get = |s: &SupportedCipherSuite| match s {
                        SupportedCipherSuite::Tls13(a) => a.aead_alg.extract_keys(akey(&k.key), Iv::new(k.iv)),
                        SupportedCipherSuite::Tls12(a) => {
                            let n = if k.explicit() { 4 } else { 12 };
                            a.aead_alg.extract_keys(akey(&k.key), &k.iv[..n], &k.iv[n..])
                        }
                    };
                    cx.check();
                    let got = cx.call("extract", || get(&c.suite))?;
                    let flat = |s: &Secrets| match s {
                        Secrets::Aes128Gcm { key, iv } => Some((0u8, key.as_ref().to_vec(), iv.as_ref().to_vec())),
                        Secrets::Aes256Gcm { key, iv } => Some((1, key.as_ref().to_vec(), iv.as_ref().to_vec())),
                        Secrets::Chacha20Poly1305 { key, iv } => Some((2, key.as_ref().to_vec(), iv.as_ref().to_vec())),
                        _ => None,
                    };
                    let got = got.ok().as_ref().and_then(flat);
                    ensure!(got == Some((k.alg, k.key.clone(), k.iv.to_vec())), "extract", "{}: the exported traffic secrets are not those in use", k.id);
                }
                Step::Prf { suite, secret, label, seed, out, data } => {
                    let s = ours.iter().filter_map(|s| if let SupportedCipherSuite::Tls12(c) = s { Some((s, c)) } else { None }).nth(*suite as usize % 6);
                    let Some((s, t)) = s else { continue };
                    let alg = hash_alg(s);
                    let (a, b, d) = (expand(*data, *secret as usize), expand(data ^ 1, *label as usize), expand(data ^ 2, *seed as usize));
                    let mut o = vec![0; *out as usize];
                    cx.call("prf", || t.prf_provider.for_secret(&mut o, &a, &b, &d))?;
                    cx.check();
                    ensure!(o == prf(alg, &a, &b, &d, o.len()), "prf", "PRF of {:?} differs ({secret}/{label}/{seed} -> {out})", s.suite());
                    cx.ev_bytes("prf", &o);
                }
                Step::Hkdf { suite, how, salt, secret, info, out, data } => {
                    let s = ours.iter().filter_map(|s| if let SupportedCipherSuite::Tls13(c) = s { Some((s, c)) } else { None }).nth(*suite as usize % 3);
                    let Some((s, t)) = s else { continue };
                    let alg = hash_alg(s);
                    let hl = if alg == 0 { 32 } else { 48 };
                    let salt = salt.map(|n| expand(*data, n as usize));
                    let ikm = expand(data ^ 1, *secret as usize);
                    let infos: Vec<Vec<u8>> = info.iter().enumerate().map(|(i, n)| expand(data ^ (2 + i as u32), *n as usize)).collect();
                    let ir: Vec<&[u8]> = infos.iter().map(|x| &x[..]).collect();
                    let flat = infos.concat();
                    let zero = vec![0; hl];
                    let msalt = salt.clone().unwrap_or(zero.clone());
                    let h = t.hkdf_provider;
                    let ex = cx.call("hkdf", || match how % 4 {
                        0 => h.extract_from_zero_ikm(salt.as_deref()),
                        _ => h.extract_from_secret(salt.as_deref(), &ikm),
                    })?;
                    let mut prk = refs::hmac(alg, &msalt, if how % 4 == 0 { &zero } else { &ikm });
                    let mut e = ex;
                    if how % 4 == 2 {
                        // a second stage keyed by the first one's block
                        let okm = e.expand_block(&ir);
                        prk = hkdf_expand(alg, &prk, &flat, hl).unwrap();
                        cx.check();
                        ensure!(okm.as_ref() == prk, "hkdf", "HKDF block of {:?} differs", s.suite());
                        let tag = cx.call("hmac", || h.hmac_sign(&okm, &flat))?;
                        ensure!(tag.as_ref() == refs::hmac(alg, &prk, &flat), "hmac", "HMAC of {:?} differs ({} bytes)", s.suite(), flat.len());
                        e = h.expander_for_okm(&okm);
                    }
                    let mut o = vec![0; *out as usize];
                    let r = cx.call("hkdf.expand", || e.expand_slice(&ir, &mut o))?;
                    cx.check();
                    let want = hkdf_expand(alg, &prk, &flat, o.len());
                    ensure!(r.is_ok() == want.is_some(), "hkdf-length", "HKDF output of {out} bytes with {:?}: {r:?}", s.suite());
                    if let Some(w) = want {
                        ensure!(o == w, "hkdf", "HKDF of {:?} differs (salt {:?}, secret {secret}, info {info:?}, out {out})", s.suite(), salt.map(|x| x.len()));
                        cx.ev_bytes("hkdf", &o);
                    }
                }
                Step::Transcript { suite, ops, data } => {
                    let s = &ours[*suite as usize % ours.len()];
                    let alg = hash_alg(s);
                    let h = suite_hash(s);
                    let mut c = cx.call("hash.start", || h.start())?;
                    let mut m: Vec<u8> = vec![];
                    let mut kept: Vec<(Box<dyn rustls::crypto::hash::Context>, Vec<u8>)> = vec![];
                    for (j, (op, n)) in ops.iter().enumerate() {
                        let d = expand(data ^ (j as u32 + 1), *n as usize);
                        cx.check();
                        match op {
                            0..=3 => {
                                cx.call("hash.update", || c.update(&d))?;
                                m.extend(&d);
                            }
                            4 => {
                                let o = cx.call("hash.fork_finish", || c.fork_finish())?;
                                ensure!(o.as_ref() == refs::sha(alg, &m), "hash", "{:?}: the hash of a {}-byte transcript differs", s.suite(), m.len());
                            }
                            5 => kept.push((c.fork(), m.clone())),
                            6 => {
                                let o = cx.call("hash", || h.hash(&d))?;
                                ensure!(o.as_ref() == refs::sha(alg, &d), "hash", "{:?}: the hash of {} bytes differs", s.suite(), d.len());
                            }
                            _ => {
                                if let Some((k, km)) = kept.pop() {
                                    kept.push((std::mem::replace(&mut c, k), std::mem::replace(&mut m, km)));
                                }
                            }
                        }
                    }
                    kept.push((c, m));
                    for (c, m) in kept {
                        let o = cx.call("hash.finish", || c.finish())?;
                        ensure!(o.as_ref() == refs::sha(alg, &m), "hash", "{:?}: the hash of a {}-byte transcript differs", s.suite(), m.len());
                    }
                    cx.op("transcript");
                }
            }
        }
        Ok(())
    }
}

#[allow(clippy::too_many_arguments)]
fn receive(cx: &mut Cx, k: &Keys, d: &mut Decr, seq: u64, t: ContentType, v: ProtocolVersion, body: Vec<u8>, from: From) -> R {
    let want = k.open(seq, t, v, &body);
    let mut buf = body.clone();
    let got = cx.call("record.open", || d.decrypt(InboundOpaqueMessage::new(t, v, &mut buf), seq).map(|p| (p.typ, p.version, p.payload.to_vec())))?;
    cx.check();
    cx.op("open");
    let show = || format!("{} record of {} bytes under sequence number {seq:#x} (sealed by {from:?})", k.id, body.len());
    match (&want, &got) {
        (Want::Plain(a, b, p), Ok((x, y, q))) => {
            ensure!(a == x && b == y, "relabelled", "{} arrived as {x:?} {y:?} instead of {a:?} {b:?}", show());
            ensure!(p == q, "plaintext", "{} opened to other bytes", show());
            cx.probe("opened");
        }
        (Want::Plain(..), Err(e)) => fail!("refused", "intact {} refused: {e:?}", show()),
        (Want::Bad, Err(_)) => {
            cx.probe("refused");
            // what decryption left behind must not be the forged plaintext
            if body.len() >= 48 {
                let n = k.nonce(seq);
                let off = if k.explicit() { 8 } else { 0 };
                let mut nonce = n;
                if off == 8 {
                    nonce[4..].copy_from_slice(&body[..8]);
                }
                let (pt, _) = refs::seal(k.alg, &k.key, &nonce, b"", &body[off..body.len() - 16]);
                ensure!(pt.iter().all(|b| *b == 0) || buf[off..off + pt.len()] != pt[..], "unverified", "refused {} left its plaintext in the caller's buffer", show());
            }
        }
        (Want::Bad, Ok(_)) => fail!("forged", "{} accepted although it was never sealed so", show()),
        (Want::Oversized, Err(e)) => {
            cx.probe("oversized");
            ensure!(*e == Error::PeerSentOversizedRecord, "oversized-error", "oversized {} refused with {e:?}", show());
        }
        (Want::Oversized, Ok(_)) => fail!("oversized", "{} carries more than 2^14 bytes and was accepted", show()),
        (Want::Illegal, Err(e)) => {
            cx.probe("all_padding");
            ensure!(*e == Error::PeerMisbehaved(PeerMisbehaved::IllegalTlsInnerPlaintext), "padding-error", "all-padding {} refused with {e:?}", show());
        }
        (Want::Illegal, Ok(_)) => fail!("padding", "all-padding {} accepted", show()),
    }
    match &got {
        Ok((x, _, q)) => cx.ev_bytes(&format!("open {:?}", u8::from(*x)), q),
        Err(e) => cx.ev(format!("{e:?}")),
    }
    Ok(())
}

pub fn def() -> Def {
    Def {
        id: "C16",
        title: "The TLS record layer opens exactly the records sealed, in order",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 50000,
        thorough: 600000,
        rule: "a run (a connection direction, records sealed by this provider, by ring and by a model peer, deliveries with faults, key-schedule calls) counts when it reached an oracle check; distinct by history hash",
        real: &["rustls-graviola record ciphers, HMAC/HKDF/PRF glue, transcript hashes", "graviola AEAD and hashing", "rustls HkdfUsingHmac/PrfUsingHmac"],
        stub: &["network (simulated)", "peer: ring's record ciphers and a model of the record layer over RustCrypto"],
        probes: &["opened", "refused", "oversized", "all_padding"],
        assumptions: &["RustCrypto's AEADs, HMAC and hashes are correct references", "a 16-byte rustls AeadKey is made by editing the length of a 32-byte one (no public constructor)"],
    }
}
