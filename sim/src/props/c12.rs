//! C12: key agreement agrees, or fails safely, over a faulty network.
use super::c02::{benign_faults, edge_draw};
use super::prelude::*;
use crate::ops;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use num_bigint::BigUint;

/// families of agreement
/// 0 X25519, 1 P-256, 2 P-384: ephemeral object; 3..5 the same, static object; 6 ML-KEM; 7..10 provider groups
const FAMS: u8 = 11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// A starts an agreement (and publishes its share)
    Start { fam: u8, plan: EntropyPlan },
    /// A's share reaches B, who answers. B runs this library or an independent one.
    Answer { s: u8, from: u8, dmg: Vec<Dmg>, special: u32, peer: bool, plan: EntropyPlan },
    /// B's answer reaches A, who completes
    Complete { s: u8, from: u8, dmg: Vec<Dmg>, special: u32, component: bool },
    /// A reuses its static key with whatever arrives
    Again { s: u8, from: u8, dmg: Vec<Dmg>, special: u32 },
}

pub struct S;

#[derive(Clone, Copy, PartialEq, Debug)]
enum G {
    X,
    P(u8),
    Kem,
    Hybrid,
}
fn group(fam: u8) -> G {
    match fam % FAMS {
        0 | 3 => G::X,
        1 | 4 => G::P(0),
        2 | 5 => G::P(1),
        6 => G::Kem,
        f => match ops::groups()[f as usize - 7].name() {
            rustls::NamedGroup::X25519 => G::X,
            rustls::NamedGroup::secp256r1 => G::P(0),
            rustls::NamedGroup::secp384r1 => G::P(1),
            _ => G::Hybrid,
        },
    }
}

enum A {
    X(x25519::PrivateKey),
    P0(p256::PrivateKey),
    P1(p384::PrivateKey),
    XS(x25519::StaticPrivateKey),
    P0S(p256::StaticPrivateKey),
    P1S(p384::StaticPrivateKey),
    Kem(mlkem768::DecapKey),
    Prov(Box<dyn rustls::crypto::ActiveKeyExchange>),
    Gone,
}
struct Sess {
    fam: u8,
    g: G,
    a: A,
    /// A's private values, found in the entropy A drew
    x: Option<Vec<u8>>,
    kem: Option<refs::kem::Dk>,
    share: Vec<u8>,
    /// share B saw and what B derived
    seen: Vec<u8>,
    answer: Option<Vec<u8>>,
    b_secret: Vec<u8>,
}

/// Values an attacker or a broken peer could put in place of a share component.
fn special_x(r: &mut Rng) -> Vec<u8> {
    let p = (BigUint::from(1u8) << 255) - 19u8;
    let low = [
        "0", "1",
        "325606250916557431795983626356110631294008115727848805560023387167927233504",
        "39382357235489614581723060781553021112529911719440698176882885853963445705823",
    ];
    let v = match r.below(4) {
        0 | 1 => {
            let b = BigUint::parse_bytes(r.pick(&low).as_bytes(), 10).unwrap();
            match r.below(4) {
                0 => &p - 1u8,
                1 => std::cmp::min(b + &p, (BigUint::from(1u8) << 256) - 1u8),
                _ => b,
            }
        }
        2 => p + r.below(40),
        _ => BigUint::from_bytes_le(&edge_draw(r, None, 32)),
    };
    let mut o = v.to_bytes_le();
    o.resize(32, 0);
    if r.chance(1, 4) {
        o[31] |= 0x80;
    }
    o
}
pub fn field(c: u8) -> BigUint {
    let s = if c == 0 {
        "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"
    } else {
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"
    };
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
/// a point with the given x, if there is one
pub fn lift_x(c: u8, x: &BigUint) -> Option<Vec<u8>> {
    let mut v = vec![2];
    v.extend(refs::be(x, refs::clen(c)));
    if c == 0 {
        use ::p256::elliptic_curve::sec1::ToEncodedPoint;
        Some(::p256::PublicKey::from_sec1_bytes(&v).ok()?.to_encoded_point(false).as_bytes().to_vec())
    } else {
        use ::p384::elliptic_curve::sec1::ToEncodedPoint;
        Some(::p384::PublicKey::from_sec1_bytes(&v).ok()?.to_encoded_point(false).as_bytes().to_vec())
    }
}
pub fn special_p(c: u8, r: &mut Rng, honest: &[u8]) -> Vec<u8> {
    let l = refs::clen(c);
    let p = field(c);
    let small = |r: &mut Rng| loop {
        if let Some(v) = lift_x(c, &BigUint::from(r.below(200))) {
            return v;
        }
    };
    match r.below(9) {
        // a valid point with a tiny x, and the same with x written as x + p
        0 => small(r),
        1 | 2 => {
            let v = small(r);
            let x = refs::big(&v[1..1 + l]) + &p;
            let mut o = vec![4];
            o.extend(refs::be(&x, l));
            o.extend(&v[1 + l..]);
            o
        }
        // encodings of infinity and degenerate coordinates
        3 => vec![0],
        4 => {
            let mut o = vec![0; 1 + 2 * l];
            o[0] = 4;
            o
        }
        // the negated point
        5 if honest.len() == 1 + 2 * l => {
            let y = refs::big(&honest[1 + l..]) % &p;
            let mut o = honest[..1 + l].to_vec();
            o.extend(refs::be(&(&p - y), l));
            o
        }
        // compressed and hybrid forms
        6 if honest.len() == 1 + 2 * l => {
            let odd = honest[2 * l] & 1;
            let mut o = vec![2 + odd];
            o.extend(&honest[1..1 + l]);
            o
        }
        7 if honest.len() == 1 + 2 * l => {
            let odd = honest[2 * l] & 1;
            let mut o = honest.to_vec();
            o[0] = 6 + odd;
            o
        }
        // x from one point, y from another
        _ => {
            let v = small(r);
            let mut o = v[..1 + l].to_vec();
            o.extend(honest.get(1 + l..).unwrap_or(&[]));
            o
        }
    }
}
fn special_ek(r: &mut Rng, ek: &mut [u8]) {
    // one or more coefficients at or above q
    for _ in 0..1 + r.usize(2) {
        let i = match r.below(3) {
            0 => 0,
            1 => 767,
            _ => r.usize(768),
        };
        let v = if r.chance(1, 2) { 3329 + r.below(767) as u16 } else { *r.pick(&[3328u16, 3329, 3330, 4095, 0]) };
        let o = i / 2 * 3;
        if i % 2 == 0 {
            ek[o] = v as u8;
            ek[o + 1] = (ek[o + 1] & 0xf0) | (v >> 8) as u8;
        } else {
            ek[o + 1] = (ek[o + 1] & 0x0f) | (v << 4) as u8;
            ek[o + 2] = (v >> 4) as u8;
        }
    }
}
fn special(g: G, to_b: bool, seed: u32, share: &mut Vec<u8>) {
    let mut r = Rng::new(seed as u64 ^ 0x5bec1a1);
    match g {
        G::X => *share = special_x(&mut r),
        G::P(c) => *share = special_p(c, &mut r, share),
        G::Kem | G::Hybrid => {
            let pq = if to_b { 1184 } else { 1088 };
            if share.len() < pq {
                return;
            }
            if g == G::Hybrid && share.len() >= pq + 32 && r.chance(1, 2) {
                let x = special_x(&mut r);
                share[pq..pq + 32].copy_from_slice(&x);
            } else if to_b {
                special_ek(&mut r, &mut share[..pq]);
            } else {
                match r.below(4) {
                    0 => share[..pq].fill(0),
                    1 => share[..pq].fill(0xff),
                    2 => {
                        let b = r.bytes(pq);
                        share[..pq].copy_from_slice(&b)
                    }
                    _ => share[960..pq].fill(0),
                }
            }
        }
    }
}

/// what the standard prescribes for a private value and a received public one
fn dh(g: G, sk: &[u8], peer: &[u8]) -> Option<Vec<u8>> {
    match g {
        G::X => {
            let pk: [u8; 32] = peer.try_into().ok()?;
            let z = refs::x25519(sk.try_into().ok()?, pk);
            if z == [0; 32] { None } else { Some(z.to_vec()) }
        }
        G::P(c) => {
            if !refs::ec_point_valid(c, peer) {
                return None;
            }
            refs::ecdh(c, sk, peer)
        }
        _ => unreachable!(),
    }
}
fn public(g: G, sk: &[u8]) -> Option<Vec<u8>> {
    match g {
        G::X => Some(refs::x25519_pub(sk.try_into().ok()?).to_vec()),
        G::P(c) => refs::ec_pub(c, sk),
        _ => unreachable!(),
    }
}
fn sklen(g: G) -> usize {
    match g {
        G::P(c) => refs::clen(c),
        _ => 32,
    }
}
/// the private value, among the bytes drawn, whose public value was published
fn find_sk(g: G, drawn: &[u8], share: &[u8]) -> Option<Vec<u8>> {
    let l = sklen(g);
    let step = if let G::P(_) = g { l } else { 32 };
    (0..).step_by(step).take_while(|o| o + l <= drawn.len()).map(|o| &drawn[o..o + l]).find(|k| public(g, k).as_deref() == Some(share)).map(|k| k.to_vec())
}
fn find_kem(drawn: &[u8], ek: &[u8]) -> Option<refs::kem::Dk> {
    (0..).step_by(32).take_while(|o| o + 64 <= drawn.len()).find_map(|o| {
        let (dk, e) = refs::kem::keygen(drawn[o..o + 64].try_into().unwrap());
        if e == ek { Some(dk) } else { None }
    })
}
fn find_m(drawn: &[u8], ek: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    (0..).step_by(32).take_while(|o| o + 32 <= drawn.len()).find_map(|o| {
        let (ss, c) = refs::kem::encaps(ek, drawn[o..o + 32].try_into().unwrap());
        if c == ct { Some(ss) } else { None }
    })
}

fn gen_plan(r: &mut Rng, fam: u8) -> EntropyPlan {
    let mode = match (r.below(6), group(fam)) {
        (0, G::X) | (0, G::Hybrid) => Mode::Script(edge_draw(r, None, 32)),
        (0, G::P(c)) => Mode::Script(edge_draw(r, Some(c), refs::clen(c))),
        _ => Mode::Good,
    };
    EntropyPlan { seed: r.seed(), mode, faults: benign_faults(r) }
}

fn lib_err<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

type Res = Result<Vec<u8>, String>;

/// compare the library's outcome with the prescribed one
fn judge(cx: &mut Cx, what: &str, got: &Res, want: &Option<Vec<u8>>) -> R {
    cx.check();
    match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, format!("{what}.secret"), "{what}: derived a secret that differs from the standard's");
        }
        (Err(e), Some(_)) => fail!(format!("{what}.refused"), "{what}: refused a usable share ({e})"),
        (Ok(_), None) => fail!(format!("{what}.accepted"), "{what}: accepted a share that must be refused"),
        (Err(_), None) => cx.probe("refused"),
    }
    Ok(())
}

/// A's result for received bytes
fn expect_a(s: &Sess, got: &[u8]) -> Option<Vec<u8>> {
    match s.g {
        G::X | G::P(_) => dh(s.g, s.x.as_ref().unwrap(), got),
        G::Kem => {
            if got.len() != 1088 {
                return None;
            }
            Some(s.kem.as_ref().unwrap().decaps(got))
        }
        G::Hybrid => {
            if got.len() != 1088 + 32 {
                return None;
            }
            let x = dh(G::X, s.x.as_ref().unwrap(), &got[1088..])?;
            let mut o = s.kem.as_ref().unwrap().decaps(&got[..1088]);
            o.extend(x);
            Some(o)
        }
    }
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![Step::Cpu(gen_cpu(r))];
        let n = 6 + r.usize(if tier == Tier::Thorough { 40 } else { 18 });
        let mut live: Vec<(u8, u8)> = vec![]; // session, state
        let mut fams = vec![];
        for _ in 0..n {
            if live.is_empty() || r.chance(1, 3) {
                let fam = if r.chance(1, 3) && !fams.is_empty() { *r.pick(&fams) } else { r.below(FAMS as u64) as u8 };
                v.push(Step::Start { fam, plan: gen_plan(r, fam) });
                live.push((fams.len() as u8, 0));
                fams.push(fam);
                continue;
            }
            let i = r.usize(live.len());
            let s = live[i].0;
            let from = if r.chance(1, 8) { r.below(fams.len() as u64) as u8 } else { s };
            let dmg = if r.chance(2, 5) { gen_damage(r) } else { vec![] };
            let sp = if dmg.is_empty() && r.chance(1, 3) { r.seed() } else { 0 };
            if live[i].1 == 0 {
                v.push(Step::Answer { s, from, dmg, special: sp, peer: r.chance(1, 4), plan: gen_plan(r, fams[s as usize]) });
                live[i].1 = 1;
            } else {
                if r.chance(1, 2) {
                    v.push(Step::Again { s, from: r.below(fams.len() as u64) as u8, dmg: gen_damage(r), special: if r.chance(1, 2) { r.seed() } else { 0 } });
                }
                v.push(Step::Complete { s, from, dmg, special: sp, component: r.chance(1, 8) });
                live.remove(i);
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut ss: Vec<Sess> = vec![];
        for (i, st) in steps.iter().enumerate() {
            cx.step = i;
            match st {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    cx.ev(format!("cpu model {m:#x}"));
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Start { fam, plan } => {
                    let fam = fam % FAMS;
                    let g = group(fam);
                    let (res, log) = env::with_entropy(plan, || {
                        cx.call("kx.start", || -> Result<(A, Vec<u8>), String> {
                            Ok(match fam {
                                0 => {
                                    let k = x25519::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key().as_bytes().to_vec();
                                    (A::X(k), p)
                                }
                                1 => {
                                    let k = p256::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key_uncompressed().to_vec();
                                    (A::P0(k), p)
                                }
                                2 => {
                                    let k = p384::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key_uncompressed().to_vec();
                                    (A::P1(k), p)
                                }
                                3 => {
                                    let k = x25519::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key().as_bytes().to_vec();
                                    (A::XS(k), p)
                                }
                                4 => {
                                    let k = p256::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key_uncompressed().to_vec();
                                    (A::P0S(k), p)
                                }
                                5 => {
                                    let k = p384::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = k.public_key_uncompressed().to_vec();
                                    (A::P1S(k), p)
                                }
                                6 => {
                                    let k = mlkem768::DecapKey::generate().map_err(lib_err)?;
                                    let p = k.encapsulation_key().as_bytes().to_vec();
                                    (A::Kem(k), p)
                                }
                                f => {
                                    let k = ops::groups()[f as usize - 7].start().map_err(lib_err)?;
                                    let p = k.pub_key().to_vec();
                                    (A::Prov(k), p)
                                }
                            })
                        })
                    });
                    cx.log_entropy(&log);
                    let (a, share) = match res? {
                        Ok(v) => v,
                        Err(e) => fail!("start.failed", "fam {fam}: starting failed with working entropy: {e}"),
                    };
                    let drawn = &log.bytes;
                    let (mut x, mut kem) = (None, None);
                    match g {
                        G::X | G::P(_) => x = find_sk(g, drawn, &share),
                        G::Kem => kem = find_kem(drawn, &share),
                        G::Hybrid => {
                            ensure!(share.len() == 1184 + 32, "start.share", "hybrid share of {} bytes", share.len());
                            x = find_sk(G::X, drawn, &share[1184..]);
                            kem = find_kem(drawn, &share[..1184]);
                        }
                    }
                    cx.check();
                    ensure!(
                        (x.is_some() || g == G::Kem) && (kem.is_some() || !matches!(g, G::Kem | G::Hybrid)),
                        "start.share",
                        "fam {fam}: published share is not the public half of a value drawn for it"
                    );
                    cx.ev_bytes("share", &share);
                    ss.push(Sess { fam, g, a, x, kem, share, seen: vec![], answer: None, b_secret: vec![] });
                }
                Step::Answer { s, from, dmg, special: sp, peer, plan } => {
                    if ss.is_empty() {
                        continue;
                    }
                    let (n, f) = (*s as usize % ss.len(), *from as usize % ss.len());
                    let mut got = ss[f].share.clone();
                    if f != n {
                        cx.fault("net.misdelivered");
                    }
                    let other = ss[(n + 1) % ss.len()].share.clone();
                    damage(&mut got, dmg, &other, "net", cx);
                    let g = ss[n].g;
                    if *sp != 0 {
                        special(g, true, *sp, &mut got);
                        cx.fault("net.hostile_share");
                    }
                    let mut r = Rng::new(plan.seed as u64 ^ 0x99);
                    if *peer {
                        // an independent party; it answers only what the standard lets it answer
                        let (sec, ans) = match g {
                            G::X | G::P(_) => {
                                let sk = loop {
                                    let k = r.bytes(sklen(g));
                                    if public(g, &k).is_some() {
                                        break k;
                                    }
                                };
                                let Some(z) = dh(g, &sk, &got) else { continue };
                                (z, public(g, &sk).unwrap())
                            }
                            G::Kem => {
                                if !refs::kem::ek_canonical(&got) {
                                    continue;
                                }
                                refs::kem::encaps(&got, &r.arr())
                            }
                            G::Hybrid => {
                                if got.len() != 1216 || !refs::kem::ek_canonical(&got[..1184]) {
                                    continue;
                                }
                                let sk = r.bytes(32);
                                let Some(z) = dh(G::X, &sk, &got[1184..]) else { continue };
                                let (mut sec, mut ct) = refs::kem::encaps(&got[..1184], &r.arr());
                                sec.extend(z);
                                ct.extend(public(G::X, &sk).unwrap());
                                (sec, ct)
                            }
                        };
                        let s = &mut ss[n];
                        (s.seen, s.answer, s.b_secret) = (got, Some(ans), sec);
                        continue;
                    }
                    let fam = ss[n].fam;
                    let (res, log) = env::with_entropy(plan, || {
                        cx.call("kx.answer", || -> Result<(Vec<u8>, Vec<u8>), String> {
                            match fam {
                                0 => {
                                    let k = x25519::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = x25519::PublicKey::try_from_slice(&got).map_err(lib_err)?;
                                    let o = k.public_key().as_bytes().to_vec();
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), o))
                                }
                                3 => {
                                    let k = x25519::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = x25519::PublicKey::try_from_slice(&got).map_err(lib_err)?;
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), k.public_key().as_bytes().to_vec()))
                                }
                                1 => {
                                    let k = p256::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = p256::PublicKey::from_x962_uncompressed(&got).map_err(lib_err)?;
                                    let o = k.public_key_uncompressed().to_vec();
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), o))
                                }
                                4 => {
                                    let k = p256::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = p256::PublicKey::from_x962_uncompressed(&got).map_err(lib_err)?;
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), k.public_key_uncompressed().to_vec()))
                                }
                                2 => {
                                    let k = p384::PrivateKey::new_random().map_err(lib_err)?;
                                    let p = p384::PublicKey::from_x962_uncompressed(&got).map_err(lib_err)?;
                                    let o = k.public_key_uncompressed().to_vec();
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), o))
                                }
                                5 => {
                                    let k = p384::StaticPrivateKey::new_random().map_err(lib_err)?;
                                    let p = p384::PublicKey::from_x962_uncompressed(&got).map_err(lib_err)?;
                                    Ok((k.diffie_hellman(&p).map_err(lib_err)?.0.to_vec(), k.public_key_uncompressed().to_vec()))
                                }
                                6 => {
                                    let e: &[u8; 1184] = got[..].try_into().map_err(|_| "length".to_string())?;
                                    let e = mlkem768::EncapKey::from_bytes(e).map_err(lib_err)?;
                                    let (s, c) = e.encaps().map_err(lib_err)?;
                                    Ok((s.as_ref().to_vec(), c.as_ref().to_vec()))
                                }
                                f => {
                                    let c = ops::groups()[f as usize - 7].start_and_complete(&got).map_err(lib_err)?;
                                    Ok((c.secret.secret_bytes().to_vec(), c.pub_key))
                                }
                            }
                        })
                    });
                    cx.log_entropy(&log);
                    let res = res?;
                    cx.check();
                    let drawn = &log.bytes;
                    let what = format!("answer.fam{fam}");
                    // must it be refused?
                    let usable = match g {
                        G::X | G::P(_) => {
                            let mut probe = vec![0; sklen(g)];
                            probe[sklen(g) - 1] = 0x48;
                            probe[0] = 8;
                            dh(g, &probe, &got).is_some()
                        }
                        G::Kem => refs::kem::ek_canonical(&got),
                        G::Hybrid => got.len() == 1216 && refs::kem::ek_canonical(&got[..1184]) && dh(G::X, &[8; 32], &got[1184..]).is_some(),
                    };
                    match &res {
                        Err(e) => {
                            ensure!(!usable, format!("{what}.refused"), "{what}: refused a usable share ({e})");
                            cx.probe("refused");
                        }
                        Ok((sec, ans)) => {
                            ensure!(usable, format!("{what}.accepted"), "{what}: accepted a share that must be refused ({} bytes)", got.len());
                            let want = match g {
                                G::X | G::P(_) => find_sk(g, drawn, ans).and_then(|k| dh(g, &k, &got)),
                                G::Kem => find_m(drawn, &got, ans),
                                G::Hybrid => {
                                    ensure!(ans.len() == 1120, "answer.share", "hybrid answer of {} bytes", ans.len());
                                    let x = find_sk(G::X, drawn, &ans[1088..]).and_then(|k| dh(G::X, &k, &got[1184..]));
                                    find_m(drawn, &got[..1184], &ans[..1088]).zip(x).map(|(mut a, b)| {
                                        a.extend(b);
                                        a
                                    })
                                }
                            };
                            ensure!(want.is_some(), format!("{what}.share"), "{what}: the answer is not the public half of a value drawn for it");
                            ensure!(want.as_ref() == Some(sec), format!("{what}.secret"), "{what}: derived a secret that differs from the standard's");
                            let s = &mut ss[n];
                            (s.seen, s.answer, s.b_secret) = (got, Some(ans.clone()), sec.clone());
                        }
                    }
                    cx.ev(format!("answer fam {fam} -> {}", res.is_ok()));
                }
                Step::Complete { s, from, dmg, special: sp, component } => {
                    if ss.is_empty() {
                        continue;
                    }
                    let (n, f) = (*s as usize % ss.len(), *from as usize % ss.len());
                    let Some(mut got) = ss[f].answer.clone() else { continue };
                    if f != n {
                        cx.fault("net.misdelivered");
                    }
                    let other = ss[n].share.clone();
                    let mut hurt = damage(&mut got, dmg, &other, "net", cx) || f != n;
                    let g = ss[n].g;
                    if *sp != 0 {
                        special(g, false, *sp, &mut got);
                        cx.fault("net.hostile_share");
                        hurt = true;
                    }
                    let comp = *component && ss[n].fam >= 7 && g == G::Hybrid;
                    if comp {
                        // the peer chose the classical component alone
                        got = got.split_off(got.len().min(1088));
                    }
                    let fam = ss[n].fam;
                    let a = std::mem::replace(&mut ss[n].a, A::Gone);
                    if matches!(a, A::Gone) {
                        continue;
                    }
                    let res: Res = cx.call("kx.complete", || match a {
                        A::X(k) => x25519::PublicKey::try_from_slice(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::XS(k) => x25519::PublicKey::try_from_slice(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::P0(k) => p256::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::P0S(k) => p256::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::P1(k) => p384::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::P1S(k) => p384::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err),
                        A::Kem(k) => {
                            let c: [u8; 1088] = got[..].try_into().map_err(|_| "length".to_string())?;
                            Ok(k.decaps(&mlkem768::Ciphertext::from(c)).as_ref().to_vec())
                        }
                        A::Prov(k) if comp => {
                            let (grp, share) = k.hybrid_component().map(|(g, s)| (g, s.to_vec())).ok_or("no component")?;
                            if grp != rustls::NamedGroup::X25519 || share.len() != 32 {
                                return Err("component".into());
                            }
                            k.complete_hybrid_component(&got).map(|z| z.secret_bytes().to_vec()).map_err(lib_err)
                        }
                        A::Prov(k) => k.complete(&got).map(|z| z.secret_bytes().to_vec()).map_err(lib_err),
                        A::Gone => Err("gone".into()),
                    })?;
                    let want = if comp { dh(G::X, ss[n].x.as_ref().unwrap(), &got) } else { expect_a(&ss[n], &got) };
                    judge(cx, &format!("complete.fam{fam}"), &res, &want)?;
                    // both ends saw exactly what the other sent
                    if !hurt && !comp && ss[n].seen == ss[n].share {
                        ensure!(res.as_ref().ok() == Some(&ss[n].b_secret), format!("agree.fam{fam}"), "fam {fam}: the two ends disagree although nothing was altered");
                        cx.probe("agreed");
                    }
                    if hurt && matches!(g, G::Kem) && res.is_ok() {
                        cx.probe("implicit_rejection");
                    }
                    cx.ev(format!("complete fam {fam} -> {}", res.is_ok()));
                }
                Step::Again { s, from, dmg, special: sp } => {
                    if ss.is_empty() {
                        continue;
                    }
                    let (n, f) = (*s as usize % ss.len(), *from as usize % ss.len());
                    let g = ss[n].g;
                    let mut got = ss[f].answer.clone().unwrap_or_else(|| ss[f].share.clone());
                    damage(&mut got, dmg, &ss[n].share, "net", cx);
                    if *sp != 0 {
                        special(g, false, *sp, &mut got);
                        cx.fault("net.hostile_share");
                    }
                    let fam = ss[n].fam;
                    let res: Res = match &ss[n].a {
                        A::XS(k) => cx.call("kx.static", || x25519::PublicKey::try_from_slice(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err))?,
                        A::P0S(k) => cx.call("kx.static", || p256::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err))?,
                        A::P1S(k) => cx.call("kx.static", || p384::PublicKey::from_x962_uncompressed(&got).and_then(|p| k.diffie_hellman(&p)).map(|z| z.0.to_vec()).map_err(lib_err))?,
                        A::Kem(k) => {
                            let Ok(c): Result<[u8; 1088], _> = got[..].try_into() else { continue };
                            Ok(cx.call("kem.decaps", || k.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref().to_vec())?)
                        }
                        _ => continue,
                    };
                    let want = expect_a(&ss[n], &got);
                    judge(cx, &format!("static.fam{fam}"), &res, &want)?;
                    cx.ev(format!("again fam {fam} -> {}", res.is_ok()));
                }
            }
        }
        Ok(())
    }
}

pub fn def() -> Def {
    Def {
        id: "C12",
        title: "Key agreement agrees, or fails safely, over a faulty network",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 24000,
        thorough: 120000,
        rule: "a run (several interleaved agreements over a faulty network, seeded entropy and CPU model) counts when it reached at least one oracle check and had a fault or more than one operation; distinct by history hash",
        real: &["graviola::key_agreement (X25519, P-256, P-384, ML-KEM-768)", "rustls_graviola::kx groups incl. the hybrid"],
        stub: &["network (simulated)", "OS entropy (getrandom interposed)", "independent party: x25519-dalek, p256, p384, ml-kem crates"],
        probes: &["agreed", "refused", "implicit_rejection"],
        assumptions: &["the reference crates implement the standards"],
    }
}
