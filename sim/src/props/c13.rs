//! C13: stored key material survives faithfully or is refused.
use super::prelude::*;
use crate::ops::{self, Ecdsa, EcdsaV, rsa_sign, rsa_verify, valid_scalar};
use graviola::key_agreement::{p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use num_bigint::BigUint;
use rustls::SignatureScheme as SS;

/// an encoding of a key
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Enc {
    RsaPkcs1,
    RsaPkcs8,
    RsaPub,
    RsaSpki,
    Sec1(u8),
    EcPkcs8(u8),
    EcSpki(u8),
    EcRaw(u8),
    EcPub(u8),
    EdPkcs8,
    EdRaw,
    EdSpki,
    EdPub,
    X,
}
const ENCS: [Enc; 19] = [
    Enc::RsaPkcs1, Enc::RsaPkcs8, Enc::RsaPub, Enc::RsaSpki, Enc::Sec1(0), Enc::Sec1(1), Enc::EcPkcs8(0), Enc::EcPkcs8(1), Enc::EcSpki(0), Enc::EcSpki(1), Enc::EcRaw(0), Enc::EcRaw(1), Enc::EcPub(0), Enc::EcPub(1), Enc::EdPkcs8,
    Enc::EdRaw, Enc::EdSpki, Enc::EdPub, Enc::X,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Zero,
    Small(u8),
    Plus(i8),
    Negated,
    Minus1,
    ShiftUp(u16),
    ShiftDown(u16),
    Random(u32),
    Other(u8),
    AllOnes(u16),
    PlusMod(u8),
    Padded,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// export a key and write it over `file`; `crash` stops the write midway
    Save { file: u8, enc: Enc, key: u32, slack: i16, align: u8, crash: Option<Crash> },
    /// the medium decays
    Rot { file: u8, dmg: Vec<Dmg> },
    /// a well-formed file with unusual RSA numbers
    RsaCraft { file: u8, key: u32, wrap: bool, set: Vec<(u8, How)> },
    EcCraft { file: u8, curve: u8, key: u32, wrap: bool, scalar: u8, public: u8, params: u8, version: u8 },
    EdCraft { file: u8, key: u32, v2: u8, public: u8, len: i8, alg: u8 },
    Load { file: u8, enc: Enc, provider: bool, pss: bool, hash: u8, msg: u32, entropy: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crash {
    pub sector: u16,
    pub mask: u64,
    /// the file length was updated
    pub meta: bool,
}

#[derive(Clone, Debug)]
enum Key {
    Rsa(refs::RsaPriv),
    RsaPub(refs::RsaPub),
    Ec(u8, Vec<u8>),
    EcPub(u8, Vec<u8>),
    Ed([u8; 32]),
    EdPub([u8; 32]),
    X([u8; 32]),
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        match (self, o) {
            (Key::Rsa(a), Key::Rsa(b)) => comps(a) == comps(b),
            (Key::RsaPub(a), Key::RsaPub(b)) => a.n == b.n && a.e == b.e,
            (Key::Ec(c, a), Key::Ec(d, b)) => c == d && a == b,
            (Key::EcPub(c, a), Key::EcPub(d, b)) => c == d && a == b,
            (Key::Ed(a), Key::Ed(b)) | (Key::EdPub(a), Key::EdPub(b)) | (Key::X(a), Key::X(b)) => a == b,
            _ => false,
        }
    }
}
fn comps(k: &refs::RsaPriv) -> [&BigUint; 8] {
    [&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qinv]
}

const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const OID_C: [&[u8]; 2] = [&[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7], &[0x2b, 0x81, 4, 0, 0x22]];
const OID_ED: &[u8] = &[0x2b, 0x65, 0x70];

// ---------------------------------------------------------------- independent decoder

/// one element with this tag, taken off the front
fn take<'a>(b: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
    let (t, body, rest) = refs::der_next(b)?;
    if t != tag {
        return None;
    }
    *b = rest;
    Some(body)
}
fn whole(b: &[u8], tag: u8) -> Option<&[u8]> {
    let mut r = b;
    let x = take(&mut r, tag)?;
    r.is_empty().then_some(x)
}
fn alg_ok(b: &[u8], oid: &[u8], params: Option<(u8, &[u8])>) -> Option<()> {
    let mut r = b;
    if take(&mut r, 6)? != oid {
        return None;
    }
    if let Some((t, v)) = params {
        if take(&mut r, t)? != v {
            return None;
        }
    }
    r.is_empty().then_some(())
}
fn bits(b: &[u8]) -> Option<&[u8]> {
    // only whole bytes
    if *b.first()? != 0 { None } else { Some(&b[1..]) }
}
fn pkcs8<'a>(b: &'a [u8], oid: &[u8], params: Option<(u8, &[u8])>) -> Option<(&'a [u8], Option<&'a [u8]>)> {
    let mut r = whole(b, 0x30)?;
    let v = take(&mut r, 2)?;
    alg_ok(take(&mut r, 0x30)?, oid, params)?;
    let k = take(&mut r, 4)?;
    let p = if r.is_empty() { None } else { Some(bits(take(&mut r, 0x81)?)?) };
    if !r.is_empty() || v != [p.is_some() as u8] {
        return None;
    }
    Some((k, p))
}
fn spki<'a>(b: &'a [u8], oid: &[u8], params: Option<(u8, &[u8])>) -> Option<&'a [u8]> {
    let mut r = whole(b, 0x30)?;
    alg_ok(take(&mut r, 0x30)?, oid, params)?;
    let p = bits(take(&mut r, 3)?)?;
    r.is_empty().then_some(p)
}
/// the value of a private scalar in the curve's range (its length may vary, as documented)
fn scalar_of(c: u8, d: &[u8]) -> Option<Vec<u8>> {
    let x = refs::big(d);
    (x > BigUint::ZERO && x < refs::order(c)).then(|| refs::be(&x, refs::clen(c)))
}
fn sec1(c: u8, b: &[u8]) -> Option<Vec<u8>> {
    let mut r = whole(b, 0x30)?;
    if take(&mut r, 2)? != [1] {
        return None;
    }
    let d = take(&mut r, 4)?;
    if r.first() == Some(&0xa0) {
        if whole(take(&mut r, 0xa0)?, 6)? != OID_C[c as usize] {
            return None;
        }
    }
    let d = scalar_of(c, d)?;
    if !r.is_empty() {
        let p = bits(whole(take(&mut r, 0xa1)?, 3)?)?;
        if !r.is_empty() || p != refs::ec_pub(c, &d)? {
            return None;
        }
    }
    Some(d)
}
fn rsa_pub(b: &[u8]) -> Option<refs::RsaPub> {
    let mut r = whole(b, 0x30)?;
    let n = refs::der_uint(take(&mut r, 2)?)?;
    let e = refs::der_uint(take(&mut r, 2)?)?;
    (r.is_empty()).then_some(refs::RsaPub { n, e })
}
fn rsa_priv(b: &[u8]) -> Option<refs::RsaPriv> {
    let mut r = whole(b, 0x30)?;
    if take(&mut r, 2)? != [0] {
        return None;
    }
    refs::RsaPriv::from_pkcs1(b)
}
const NULL: Option<(u8, &[u8])> = Some((5, &[]));

/// what these bytes denote, if they are exactly one well-formed encoding
fn decode(enc: Enc, b: &[u8]) -> Option<Key> {
    let a32 = |b: &[u8]| -> Option<[u8; 32]> { b.try_into().ok() };
    Some(match enc {
        Enc::RsaPkcs1 => Key::Rsa(rsa_priv(b)?),
        Enc::RsaPkcs8 => Key::Rsa(rsa_priv(pkcs8(b, OID_RSA, NULL)?.0)?),
        Enc::RsaPub => Key::RsaPub(rsa_pub(b)?),
        Enc::RsaSpki => Key::RsaPub(rsa_pub(spki(b, OID_RSA, NULL)?)?),
        Enc::Sec1(c) => Key::Ec(c, sec1(c, b)?),
        Enc::EcPkcs8(c) => Key::Ec(c, sec1(c, pkcs8(b, OID_EC, Some((6, OID_C[c as usize])))?.0)?),
        Enc::EcSpki(c) => Key::EcPub(c, point(c, spki(b, OID_EC, Some((6, OID_C[c as usize])))?)?),
        Enc::EcRaw(c) => Key::Ec(c, scalar_of(c, b)?),
        Enc::EcPub(c) => Key::EcPub(c, point(c, b)?),
        Enc::EdPkcs8 => {
            let (k, p) = pkcs8(b, OID_ED, None)?;
            let s = a32(whole(k, 4)?)?;
            if p.is_some_and(|p| p != refs::ed_pub(&s)) {
                return None;
            }
            Key::Ed(s)
        }
        Enc::EdRaw => Key::Ed(a32(b)?),
        Enc::EdSpki => Key::EdPub(a32(spki(b, OID_ED, None)?)?),
        Enc::EdPub => Key::EdPub(a32(b)?),
        Enc::X => Key::X(a32(b)?),
    })
}
fn point(c: u8, p: &[u8]) -> Option<Vec<u8>> {
    (p.len() == 1 + 2 * refs::clen(c) && p[0] == 4 && refs::ec_point_valid(c, p)).then(|| p.to_vec())
}

// ---------------------------------------------------------------- the library's side

enum Loaded {
    Rsa(Box<rsa::SigningKey>),
    RsaPub(Box<rsa::VerifyingKey>),
    Ec(Ecdsa),
    EcRaw(u8, Raw),
    EcPub(u8, EcdsaV),
    Ed(eddsa::Ed25519SigningKey),
    EdPub(eddsa::Ed25519VerifyingKey),
    X(x25519::StaticPrivateKey),
}
enum Raw {
    P256(p256::StaticPrivateKey),
    P384(p384::StaticPrivateKey),
}
fn load(enc: Enc, b: &[u8]) -> Option<Loaded> {
    Some(match enc {
        Enc::RsaPkcs1 => Loaded::Rsa(Box::new(rsa::SigningKey::from_pkcs1_der(b).ok()?)),
        Enc::RsaPkcs8 => Loaded::Rsa(Box::new(rsa::SigningKey::from_pkcs8_der(b).ok()?)),
        Enc::RsaPub => Loaded::RsaPub(Box::new(rsa::VerifyingKey::from_pkcs1_der(b).ok()?)),
        Enc::RsaSpki => return None,
        Enc::Sec1(0) => Loaded::Ec(Ecdsa::P256(ecdsa::SigningKey::from_sec1_der(b).ok()?)),
        Enc::Sec1(_) => Loaded::Ec(Ecdsa::P384(ecdsa::SigningKey::from_sec1_der(b).ok()?)),
        Enc::EcPkcs8(0) => Loaded::Ec(Ecdsa::P256(ecdsa::SigningKey::from_pkcs8_der(b).ok()?)),
        Enc::EcPkcs8(_) => Loaded::Ec(Ecdsa::P384(ecdsa::SigningKey::from_pkcs8_der(b).ok()?)),
        Enc::EcSpki(_) => return None,
        Enc::EcRaw(0) => Loaded::EcRaw(0, Raw::P256(p256::StaticPrivateKey::from_bytes(b).ok()?)),
        Enc::EcRaw(_) => Loaded::EcRaw(1, Raw::P384(p384::StaticPrivateKey::from_bytes(b).ok()?)),
        Enc::EcPub(c) => Loaded::EcPub(c, EcdsaV::new(c, b).ok()?),
        Enc::EdPkcs8 => Loaded::Ed(eddsa::Ed25519SigningKey::from_pkcs8_der(b).ok()?),
        Enc::EdRaw => Loaded::Ed(eddsa::Ed25519SigningKey::from_bytes(b).ok()?),
        Enc::EdSpki => Loaded::EdPub(eddsa::Ed25519VerifyingKey::from_spki_der(b).ok()?),
        Enc::EdPub => Loaded::EdPub(eddsa::Ed25519VerifyingKey::from_bytes(b).ok()?),
        Enc::X => Loaded::X(x25519::StaticPrivateKey::try_from_slice(b).ok()?),
    })
}
/// export into this buffer; returns the used part
fn export(k: &Loaded, enc: Enc, out: &mut [u8]) -> Option<Vec<u8>> {
    fn copy(b: &[u8], _: &mut [u8]) -> Option<Vec<u8>> {
        Some(b.to_vec())
    }
    match (k, enc) {
        (Loaded::Rsa(k), Enc::RsaPkcs1) => k.to_pkcs1_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Rsa(k), Enc::RsaPkcs8) => k.to_pkcs8_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Rsa(k), Enc::RsaPub) => k.public_key().to_pkcs1_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Rsa(k), Enc::RsaSpki) => k.public_key().to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::RsaPub(k), Enc::RsaPub) => k.to_pkcs1_der(out).ok().map(|b| b.to_vec()),
        (Loaded::RsaPub(k), Enc::RsaSpki) => k.to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P256(k)), Enc::Sec1(_)) => k.to_sec1_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P384(k)), Enc::Sec1(_)) => k.to_sec1_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P256(k)), Enc::EcPkcs8(_)) => k.to_pkcs8_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P384(k)), Enc::EcPkcs8(_)) => k.to_pkcs8_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P256(k)), Enc::EcSpki(_)) => k.to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(Ecdsa::P384(k)), Enc::EcSpki(_)) => k.to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ec(k), Enc::EcRaw(_)) => copy(&k.scalar(), out),
        (Loaded::Ec(k), Enc::EcPub(_)) => copy(&k.public(), out),
        (Loaded::EcRaw(_, Raw::P256(k)), Enc::EcRaw(_)) => copy(&k.as_bytes(), out),
        (Loaded::EcRaw(_, Raw::P384(k)), Enc::EcRaw(_)) => copy(&k.as_bytes(), out),
        (Loaded::EcRaw(_, Raw::P256(k)), Enc::EcPub(_)) => copy(&k.public_key_uncompressed(), out),
        (Loaded::EcRaw(_, Raw::P384(k)), Enc::EcPub(_)) => copy(&k.public_key_uncompressed(), out),
        (Loaded::EcPub(_, EcdsaV::P256(k)), Enc::EcPub(_)) => copy(&k.public_key.as_bytes_uncompressed(), out),
        (Loaded::EcPub(_, EcdsaV::P384(k)), Enc::EcPub(_)) => copy(&k.public_key.as_bytes_uncompressed(), out),
        (Loaded::Ed(k), Enc::EdPkcs8) => k.to_pkcs8_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ed(k), Enc::EdRaw) => copy(&k.as_seed(), out),
        (Loaded::Ed(k), Enc::EdSpki) => k.public_key().to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::Ed(k), Enc::EdPub) => copy(&k.public_key().as_bytes(), out),
        (Loaded::EdPub(k), Enc::EdSpki) => k.to_spki_der(out).ok().map(|b| b.to_vec()),
        (Loaded::EdPub(k), Enc::EdPub) => copy(&k.as_bytes(), out),
        (Loaded::X(k), Enc::X) => copy(&k.as_bytes(), out),
        _ => None,
    }
}
/// encodings that take an output buffer
fn buffered(e: Enc) -> bool {
    !matches!(e, Enc::EcRaw(_) | Enc::EcPub(_) | Enc::EdRaw | Enc::EdPub | Enc::X)
}
fn public_part(k: &Key) -> Key {
    match k {
        Key::Rsa(k) => Key::RsaPub(k.public()),
        Key::Ec(c, d) => Key::EcPub(*c, refs::ec_pub(*c, d).unwrap()),
        Key::Ed(s) => Key::EdPub(refs::ed_pub(s)),
        k => k.clone(),
    }
}
fn is_public(e: Enc) -> bool {
    matches!(e, Enc::RsaPub | Enc::RsaSpki | Enc::EcSpki(_) | Enc::EcPub(_) | Enc::EdSpki | Enc::EdPub)
}
/// encodings that a key object of this kind can be exported to
fn exports(k: &Loaded) -> &'static [Enc] {
    match k {
        Loaded::Rsa(_) => &[Enc::RsaPkcs1, Enc::RsaPkcs8, Enc::RsaPub, Enc::RsaSpki],
        Loaded::RsaPub(_) => &[Enc::RsaPub, Enc::RsaSpki],
        Loaded::Ec(Ecdsa::P256(_)) => &[Enc::Sec1(0), Enc::EcPkcs8(0), Enc::EcSpki(0), Enc::EcRaw(0), Enc::EcPub(0)],
        Loaded::Ec(Ecdsa::P384(_)) => &[Enc::Sec1(1), Enc::EcPkcs8(1), Enc::EcSpki(1), Enc::EcRaw(1), Enc::EcPub(1)],
        Loaded::EcRaw(0, _) => &[Enc::EcRaw(0), Enc::EcPub(0)],
        Loaded::EcRaw(..) => &[Enc::EcRaw(1), Enc::EcPub(1)],
        Loaded::EcPub(0, _) => &[Enc::EcPub(0)],
        Loaded::EcPub(..) => &[Enc::EcPub(1)],
        Loaded::Ed(_) => &[Enc::EdPkcs8, Enc::EdRaw, Enc::EdSpki, Enc::EdPub],
        Loaded::EdPub(_) => &[Enc::EdSpki, Enc::EdPub],
        Loaded::X(_) => &[Enc::X],
    }
}

fn rsa_index(key: u32) -> usize {
    // mostly ordinary keys
    *[0, 0, 0, 5, 7, 8, 10, 12, 15, 16, 18, 1, 2].get(key as usize % 16).unwrap_or(&[3, 4, 14][key as usize % 3])
}
/// the key object and its truth
fn fresh(enc: Enc, key: u32) -> Option<(Loaded, Key)> {
    let mut r = Rng::new(key as u64 ^ 0xc13);
    Some(match enc {
        Enc::RsaPkcs1 | Enc::RsaPkcs8 | Enc::RsaPub | Enc::RsaSpki => {
            let der = super::c05::KEYS[rsa_index(key)];
            (load(Enc::RsaPkcs1, der)?, decode(Enc::RsaPkcs1, der)?)
        }
        Enc::Sec1(c) | Enc::EcPkcs8(c) | Enc::EcSpki(c) => {
            let d = special_scalar(c, &mut r);
            (Loaded::Ec(Ecdsa::from_scalar(c, &d).ok()?), Key::Ec(c, d))
        }
        Enc::EcRaw(c) | Enc::EcPub(c) => {
            let d = special_scalar(c, &mut r);
            (load(Enc::EcRaw(c), &d)?, Key::Ec(c, d))
        }
        Enc::EdPkcs8 | Enc::EdRaw | Enc::EdSpki | Enc::EdPub => {
            let s: [u8; 32] = r.arr();
            (load(Enc::EdRaw, &s)?, Key::Ed(s))
        }
        Enc::X => {
            let s: [u8; 32] = r.arr();
            (load(Enc::X, &s)?, Key::X(s))
        }
    })
}
fn special_scalar(c: u8, r: &mut Rng) -> Vec<u8> {
    let l = refs::clen(c);
    match r.below(8) {
        0 => refs::be(&BigUint::from(1 + r.below(5)), l),
        1 => refs::be(&(refs::order(c) - BigUint::from(1 + r.below(5))), l),
        2 => {
            // leading zero bytes
            let mut d = valid_scalar(c, r);
            let z = 1 + r.usize(l - 1);
            d[..z].fill(0);
            d[l - 1] |= 1;
            d
        }
        _ => valid_scalar(c, r),
    }
}

fn craft_rsa(key: u32, set: &[(u8, How)]) -> Vec<u8> {
    let k = refs::RsaPriv::from_pkcs1(super::c05::KEYS[rsa_index(key)]).unwrap();
    let orig: Vec<BigUint> = comps(&k).iter().map(|x| (*x).clone()).collect();
    let mut out: Vec<Vec<u8>> = orig.iter().map(|x| refs::der_int(&x.to_bytes_be())).collect();
    let int = |x: &BigUint| refs::der_int(&x.to_bytes_be());
    for (i, h) in set {
        let i = *i as usize % 8;
        let x = &orig[i];
        out[i] = match h {
            How::Zero => int(&BigUint::ZERO),
            How::Small(n) => int(&BigUint::from(*n)),
            How::Plus(n) => {
                let n = *n;
                int(&if n >= 0 { x + BigUint::from(n as u8) } else { x - BigUint::from(n.unsigned_abs()) })
            }
            How::Negated => {
                let mut b = x.to_bytes_be();
                if b[0] & 0x80 == 0 {
                    b[0] |= 0x80;
                }
                refs::der_tlv(2, &b)
            }
            How::Minus1 => refs::der_tlv(2, &[0xff]),
            How::ShiftUp(n) => int(&(x << (*n as usize % 600))),
            How::ShiftDown(n) => int(&(x >> (*n as usize % 1100))),
            How::Random(s) => {
                let mut b = expand(*s, x.to_bytes_be().len());
                b[0] |= 0x80;
                int(&refs::big(&b))
            }
            How::Other(j) => int(&orig[*j as usize % 8]),
            How::AllOnes(n) => int(&refs::big(&vec![0xff; 1 + *n as usize % 1100])),
            How::PlusMod(m) => {
                let one = BigUint::from(1u8);
                let md = match (i, m % 3) {
                    (5, 0) => &orig[3] - &one,
                    (6, 0) => &orig[4] - &one,
                    (5, 1) | (7, _) => orig[3].clone(),
                    (6, 1) => orig[4].clone(),
                    (1, _) => BigUint::from(1u64 << 32),
                    _ => orig[0].clone(),
                };
                int(&(x + md))
            }
            How::Padded => {
                let mut b = vec![0, 0];
                b.extend(x.to_bytes_be());
                refs::der_tlv(2, &b)
            }
            How::Empty => refs::der_tlv(2, &[]),
        };
    }
    let mut body = refs::der_int(&[0]);
    for o in out {
        body.extend(o);
    }
    refs::der_tlv(0x30, &body)
}
fn wrap8(v: u8, oid: &[u8], params: Option<Vec<u8>>, k: &[u8], p: Option<Vec<u8>>) -> Vec<u8> {
    let mut b = refs::der_int(&[v]);
    let mut a = refs::der_tlv(6, oid);
    a.extend(params.unwrap_or_default());
    b.extend(refs::der_tlv(0x30, &a));
    b.extend(refs::der_tlv(4, k));
    if let Some(p) = p {
        b.extend(refs::der_tlv(0x81, &p));
    }
    refs::der_tlv(0x30, &b)
}

/// one stored file
#[derive(Clone, Default)]
struct File {
    bytes: Vec<u8>,
    /// set while the file is a whole, undamaged encoding of this key
    intact: Option<(Enc, Key)>,
}

fn gen_how(r: &mut Rng) -> How {
    match r.below(18) {
        0 | 1 => How::Zero,
        2 | 3 => How::Small(1 + r.log(250) as u8),
        4 | 5 => How::Plus(*r.pick(&[1, -1, 2, -2, 64])),
        6 => How::Negated,
        7 => How::Minus1,
        8 => How::ShiftUp(*r.pick(&[1, 8, 63, 64, 65, 128, 512])),
        9 | 10 => How::ShiftDown(*r.pick(&[1, 8, 63, 64, 65, 128, 512, 960, 1023])),
        11 | 12 => How::Random(r.seed()),
        13 => How::Other(r.below(8) as u8),
        14 => How::AllOnes(*r.pick(&[3, 4, 7, 127, 128, 129, 255, 256, 511, 512, 1023, 1024, 1025])),
        15 => How::PlusMod(r.below(3) as u8),
        16 => How::Padded,
        _ => How::Empty,
    }
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 10) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        let big = run % if tier == Tier::Thorough { 40 } else { 200 } == 3;
        let key = |r: &mut Rng| {
            let mut k = r.seed();
            while !big && k % 16 >= 12 {
                k = r.seed();
            }
            k
        };
        let n = if big { 4 } else { 8 + r.usize(16) };
        let focus = if r.chance(1, 2) { Some(*r.pick(&ENCS)) } else { None };
        let mut encs = [ENCS[0]; 4];
        for e in encs.iter_mut() {
            *e = focus.unwrap_or(*r.pick(&ENCS));
        }
        for _ in 0..n {
            let file = r.below(4) as u8;
            let f = file as usize;
            let load = |r: &mut Rng, enc: Enc| Step::Load {
                file,
                enc: if r.chance(1, 12) { *r.pick(&ENCS) } else { enc },
                provider: r.chance(1, 4),
                pss: r.chance(1, 2),
                hash: r.below(3) as u8,
                msg: r.seed(),
                entropy: r.seed(),
            };
            match r.below(16) {
                0..=4 => {
                    if r.chance(1, 3) {
                        encs[f] = focus.unwrap_or(*r.pick(&ENCS));
                    }
                    let crash = r.chance(1, 3).then(|| Crash {
                        sector: *r.pick(&[1, 4, 16, 64, 512]),
                        mask: match r.below(3) {
                            0 => (1u64 << r.below(64)) - 1,
                            1 => r.u64() >> 1,
                            _ => (1u64 << r.log(63)) - 1,
                        } & (u64::MAX >> 1),
                        meta: r.chance(1, 2),
                    });
                    let slack = match r.below(8) {
                        0 | 1 => 0,
                        2 => -1,
                        3 => -(1 + r.log(200) as i16),
                        4 => -(1 + r.below(3000) as i16),
                        5 => 1,
                        _ => r.below(64) as i16,
                    };
                    v.push(Step::Save { file, enc: encs[f], key: key(r), slack, align: r.below(64) as u8, crash });
                    let e = encs[f];
                    v.push(load(r, e));
                }
                5..=9 => {
                    v.push(Step::Rot { file, dmg: gen_damage(r) });
                    let e = encs[f];
                    v.push(load(r, e));
                }
                10 | 11 | 12 => {
                    let wrap = r.chance(1, 3);
                    let n = *r.pick(&[0, 1, 1, 1, 1, 1, 2, 2, 3]);
                    let set = (0..n).map(|_| (r.below(8) as u8, gen_how(r))).collect();
                    encs[f] = if wrap { Enc::RsaPkcs8 } else { Enc::RsaPkcs1 };
                    v.push(Step::RsaCraft { file, key: key(r), wrap, set });
                    let e = encs[f];
                    v.push(load(r, e));
                }
                13 => {
                    let wrap = r.chance(1, 2);
                    let curve = r.below(2) as u8;
                    encs[f] = if wrap { Enc::EcPkcs8(curve) } else { Enc::Sec1(curve) };
                    let z = |r: &mut Rng, n: u64| if r.chance(1, 2) { 0 } else { r.below(n) as u8 };
                    v.push(Step::EcCraft { file, curve, key: key(r), wrap, scalar: z(r, 10), public: z(r, 9), params: z(r, 4), version: if r.chance(1, 8) { r.below(4) as u8 } else { 1 } });
                    let e = encs[f];
                    v.push(load(r, e));
                }
                14 => {
                    encs[f] = Enc::EdPkcs8;
                    v.push(Step::EdCraft { file, key: key(r), v2: r.below(3) as u8, public: r.below(6) as u8, len: *r.pick(&[0, 0, 0, 0, 1, -1, -32, 32]), alg: *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3]) });
                    let e = encs[f];
                    v.push(load(r, e));
                }
                _ => {
                    let e = encs[f];
                    v.push(load(r, e));
                }
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut disk: Vec<File> = vec![File::default(); 4];
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Save { file, enc, key, slack, align, crash } => {
                    let enc = norm(*enc);
                    let Some((k, truth)) = cx.call("make", || fresh(enc, *key))? else { fail!("refused", "a valid key was refused ({enc:?}, key {key})") };
                    let want = if is_public(enc) { public_part(&truth) } else { truth };
                    let bytes = save(cx, &k, enc, *slack, *align)?;
                    let Some(bytes) = bytes else { continue };
                    let got = decode(enc, &bytes);
                    ensure!(got.as_ref() == Some(&want), "export", "the {enc:?} encoding of a key {} to an independent decoder ({} bytes: {})", if got.is_some() { "denotes another key" } else { "is not well-formed" }, bytes.len(), hex(&bytes));
                    let f = &mut disk[*file as usize % 4];
                    match crash {
                        None => *f = File { bytes, intact: Some((enc, want)) },
                        Some(c) => {
                            let old = f.bytes.clone();
                            let s = (c.sector as usize).max(1);
                            let len = if c.meta { bytes.len() } else { old.len() };
                            let mut b = vec![0; len];
                            for (i, x) in b.iter_mut().enumerate() {
                                let done = c.mask >> ((i / s) % 63) & 1 == 1;
                                let src = if done { &bytes } else { &old };
                                *x = src.get(i).copied().unwrap_or(0);
                            }
                            cx.fault("disk.torn_write");
                            let intact = if b == bytes {
                                Some((enc, want))
                            } else if b == old {
                                f.intact.clone()
                            } else {
                                None
                            };
                            *f = File { bytes: b, intact };
                        }
                    }
                }
                Step::Rot { file, dmg } => {
                    let other = disk[(*file as usize + 1) % 4].bytes.clone();
                    let f = &mut disk[*file as usize % 4];
                    if damage(&mut f.bytes, dmg, &other, "disk", cx) {
                        f.intact = None;
                    }
                }
                Step::RsaCraft { file, key, wrap, set } => {
                    let mut b = craft_rsa(*key, set);
                    if *wrap {
                        b = wrap8(0, OID_RSA, Some(vec![5, 0]), &b, None);
                    }
                    cx.fault("disk.foreign_file");
                    let intact = set.is_empty().then(|| {
                        let e = if *wrap { Enc::RsaPkcs8 } else { Enc::RsaPkcs1 };
                        (e, decode(e, &b).unwrap())
                    });
                    disk[*file as usize % 4] = File { bytes: b, intact };
                }
                Step::EcCraft { file, curve, key, wrap, scalar, public, params, version } => {
                    let c = *curve % 2;
                    let l = refs::clen(c);
                    let mut r = Rng::new(*key as u64);
                    let d0 = valid_scalar(c, &mut r);
                    let n = refs::order(c);
                    let d = match scalar {
                        1 => vec![0; l],
                        2 => refs::be(&n, l),
                        3 => refs::be(&(&n + BigUint::from(1u8)), l),
                        4 => vec![0xff; l],
                        5 => refs::be(&(&n - BigUint::from(1u8)), l),
                        6 => d0[1..].to_vec(),
                        7 => [&[0], &d0[..]].concat(),
                        8 => vec![],
                        9 => refs::be(&BigUint::from(1u8), l),
                        _ => d0.clone(),
                    };
                    let p0 = refs::ec_pub(c, &scalar_of(c, &d).unwrap_or(d0.clone())).unwrap();
                    let mut bs = vec![0];
                    match public {
                        1 => bs.extend(refs::ec_pub(c, &valid_scalar(c, &mut r)).unwrap()),
                        2 => {
                            // the negated point: differs only in y
                            let y = super::c12::field(c) - refs::big(&p0[1 + l..]);
                            bs.extend(&p0[..1 + l]);
                            bs.extend(refs::be(&y, l));
                        }
                        4 => {
                            bs.push(2 + (p0[2 * l] & 1));
                            bs.extend(&p0[1..1 + l]);
                        }
                        5 => bs = [&[1], &p0[..]].concat(),
                        6 => bs.extend(&p0[..p0.len() - 1]),
                        7 => bs.clear(),
                        8 => {
                            bs.extend(&p0);
                            let at = 1 + r.usize(p0.len());
                            bs[at] ^= 1 << r.below(8);
                        }
                        _ => bs.extend(&p0),
                    }
                    let mut b = refs::der_int(&[*version]);
                    b.extend(refs::der_tlv(4, &d));
                    match params {
                        1 => {}
                        2 => b.extend(refs::der_tlv(0xa0, &refs::der_tlv(6, OID_C[1 - c as usize]))),
                        3 => b.extend(refs::der_tlv(0xa0, &refs::der_tlv(5, &[]))),
                        _ => b.extend(refs::der_tlv(0xa0, &refs::der_tlv(6, OID_C[c as usize]))),
                    }
                    if *public != 3 {
                        b.extend(refs::der_tlv(0xa1, &refs::der_tlv(3, &bs)));
                    }
                    let mut b = refs::der_tlv(0x30, &b);
                    let mut e = Enc::Sec1(c);
                    if *wrap {
                        e = Enc::EcPkcs8(c);
                        b = wrap8(0, OID_EC, Some(refs::der_tlv(6, OID_C[c as usize])), &b, None);
                    }
                    cx.fault("disk.foreign_file");
                    disk[*file as usize % 4] = File { intact: if d.len() == l { decode(e, &b).map(|k| (e, k)) } else { None }, bytes: b };
                }
                Step::EdCraft { file, key, v2, public, len, alg } => {
                    let mut r = Rng::new(*key as u64);
                    let s: [u8; 32] = r.arr();
                    let p = refs::ed_pub(&s);
                    let mut seed = s.to_vec();
                    seed.resize((32 + *len as i32).max(0) as usize, 0);
                    let mut bs = [&[0], &p[..]].concat();
                    match public {
                        1 => bs[1 + r.usize(32)] ^= 1 << r.below(8),
                        2 => bs[32] ^= 0x80,
                        3 => bs[0] = 1,
                        4 => {
                            bs.pop();
                        }
                        5 => bs.truncate(1),
                        _ => {}
                    }
                    let oid: &[u8] = if *alg == 1 { &[0x2b, 0x65, 0x6e] } else if *alg == 2 { OID_EC } else { OID_ED };
                    let par = (*alg == 3).then(|| vec![5, 0]);
                    // v2 0: RFC 5208, 1: RFC 5958 with public key, 2: the version does not fit the contents
                    let b = wrap8((*v2 > 0) as u8, oid, par, &refs::der_tlv(4, &seed), (*v2 == 1).then_some(bs));
                    cx.fault("disk.foreign_file");
                    disk[*file as usize % 4] = File { intact: decode(Enc::EdPkcs8, &b).map(|k| (Enc::EdPkcs8, k)), bytes: b };
                }
                Step::Load { file, enc, provider, pss, hash, msg, entropy } => {
                    let enc = norm(*enc);
                    let f = disk[*file as usize % 4].clone();
                    let m = expand(*msg, (*msg % 100) as usize);
                    if *provider {
                        provider_load(cx, &f, enc, *hash, &m, *entropy)?;
                        continue;
                    }
                    let truth = decode(enc, &f.bytes);
                    let k = cx.call(&format!("load.{enc:?}"), || load(enc, &f.bytes))?;
                    cx.check();
                    let whole = f.intact.as_ref().is_some_and(|(e, _)| *e == enc) && !matches!(enc, Enc::RsaSpki | Enc::EcSpki(_));
                    ensure!(!whole || k.is_some() || !supported(&f.intact.as_ref().unwrap().1), "refused", "an undamaged {enc:?} file is refused: {}", hex(&f.bytes));
                    let Some(k) = k else {
                        cx.probe("refused");
                        continue;
                    };
                    cx.probe(if whole { "loaded_intact" } else { "loaded_damaged" });
                    let Some(truth) = truth else { fail!("accepted", "{enc:?}: bytes that are not one well-formed, consistent encoding were accepted: {}", hex(&f.bytes)) };
                    usable(cx, &k, &truth, whole, *pss, *hash % 3, &m, *entropy)?;
                    // every export of what was loaded denotes the same key
                    for e in exports(&k) {
                        let want = if is_public(*e) { public_part(&truth) } else { truth.clone() };
                        let mut buf = vec![0xa5; 9000];
                        let out = cx.call("reexport", || export(&k, *e, &mut buf))?;
                        let Some(out) = out else { fail!("reexport", "a loaded {enc:?} key does not export as {e:?}") };
                        ensure!(decode(*e, &out) == Some(want), "reexport", "a key loaded from {enc:?} exports as {e:?} to bytes that {}: {} from {}", if decode(*e, &out).is_some() { "denote another key" } else { "are not well-formed" }, hex(&out), hex(&f.bytes));
                        cx.ev_bytes("out", &out);
                    }
                }
            }
        }
        Ok(())
    }
}

/// intact foreign RSA files are only required to load when they are ordinary keys
fn supported(k: &Key) -> bool {
    match k {
        Key::Rsa(k) => k.e.bit(0),
        _ => true,
    }
}
fn norm(e: Enc) -> Enc {
    match e {
        Enc::Sec1(c) => Enc::Sec1(c % 2),
        Enc::EcPkcs8(c) => Enc::EcPkcs8(c % 2),
        Enc::EcSpki(c) => Enc::EcSpki(c % 2),
        Enc::EcRaw(c) => Enc::EcRaw(c % 2),
        Enc::EcPub(c) => Enc::EcPub(c % 2),
        e => e,
    }
}
fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(160).map(|x| format!("{x:02x}")).collect();
    if b.len() > 160 { format!("{s}… ({} bytes)", b.len()) } else { s }
}

/// Export with a caller's buffer that is `slack` bytes longer (or shorter) than needed.
fn save(cx: &mut Cx, k: &Loaded, enc: Enc, slack: i16, align: u8) -> R<Option<Vec<u8>>> {
    let mut roomy = vec![0x5a; 9000];
    let Some(full) = cx.call(&format!("save.{enc:?}"), || export(k, enc, &mut roomy))? else { fail!("export", "{enc:?}: export into a large buffer failed") };
    if !buffered(enc) {
        return Ok(Some(full));
    }
    let size = (full.len() as i64 + slack as i64).max(0) as usize;
    let mut buf = Fenced::new(&vec![0x5a; size], align);
    let out = cx.call(&format!("save.{enc:?}"), || export(k, enc, buf.slice()))?;
    cx.check();
    ensure!(buf.fence_ok(), "overrun", "{enc:?}: export wrote outside the caller's buffer");
    if size < full.len() {
        cx.fault("disk.buffer_full");
        ensure!(out.is_none(), "truncated", "{enc:?}: a buffer of {size} bytes was accepted for an encoding of {} bytes", full.len());
        return Ok(None);
    }
    ensure!(out.as_ref() == Some(&full), "export", "{enc:?}: the encoding depends on the buffer size ({size} bytes): {:?}", out.map(|o| hex(&o)));
    Ok(out)
}

fn usable(cx: &mut Cx, k: &Loaded, truth: &Key, whole: bool, pss: bool, hash: u8, m: &[u8], entropy: u32) -> R {
    let plan = EntropyPlan::good(entropy);
    match (k, truth) {
        (Loaded::Rsa(k), Key::Rsa(t)) => {
            let p = t.public();
            let len = cx.call("modulus_len", || k.modulus_len_bytes())?;
            ensure!(len == p.len(), "public", "modulus length {len}, stored modulus has {}", p.len());
            let mut buf = vec![0; 1100];
            let r = cx.call("rsa.sign", || env::with_entropy(&plan, || rsa_sign(k, pss, hash, m, &mut buf).map(|s| s.to_vec())).0)?;
            cx.check();
            match r {
                Ok(s) => {
                    ensure!(p.verify(pss, hash, m, &s), "bad-signature", "a key loaded from stored bytes produced a signature that its public key rejects (pss {pss}, hash {hash})");
                    let own = cx.call("rsa.verify", || rsa_verify(&k.public_key(), pss, hash, m, &s))?;
                    ensure!(own.is_ok(), "bad-signature", "the loaded key's own public key rejects its signature");
                }
                Err(e) => {
                    ensure!(!whole, "refused", "an undamaged RSA key cannot sign: {e:?}");
                    cx.probe("sign_withheld");
                }
            }
        }
        (Loaded::RsaPub(k), Key::RsaPub(t)) => {
            // verification under the loaded key agrees with an independent one
            let s = expand(entropy, t.len());
            let v = cx.call("rsa.verify", || rsa_verify(k, pss, hash, m, &s))?;
            ensure!(v.is_err() || t.verify(pss, hash, m, &s), "bad-signature", "a random string verifies under a loaded key");
        }
        (Loaded::Ec(k), Key::Ec(c, d)) => {
            let asn1 = pss;
            let mut buf = vec![0; 200];
            let r = cx.call("ecdsa.sign", || env::with_entropy(&plan, || k.sign(hash, &[m], asn1, &mut buf)).0)?;
            cx.check();
            let Ok(s) = r else { fail!("refused", "a loaded ECDSA key cannot sign: {r:?}") };
            check_ec(*c, d, hash, asn1, m, &s)?;
        }
        (Loaded::EcRaw(c, k), Key::Ec(_, d)) => {
            let mut r = Rng::new(entropy as u64);
            let pd = valid_scalar(*c, &mut r);
            let pp = refs::ec_pub(*c, &pd).unwrap();
            let z = cx.call("ecdh", || match k {
                Raw::P256(k) => k.diffie_hellman(&p256::PublicKey::from_x962_uncompressed(&pp).ok()?).ok().map(|s| s.0.to_vec()),
                Raw::P384(k) => k.diffie_hellman(&p384::PublicKey::from_x962_uncompressed(&pp).ok()?).ok().map(|s| s.0.to_vec()),
            })?;
            ensure!(z.is_some() && z == refs::ecdh(*c, d, &pp), "agreement", "a loaded key derives another secret");
        }
        (Loaded::Ed(k), Key::Ed(s)) => {
            let sig = cx.call("ed25519.sign", || k.sign(m))?;
            ensure!(sig == refs::ed_sign(s, m), "bad-signature", "a loaded Ed25519 key produced a wrong signature");
        }
        (Loaded::X(k), Key::X(s)) => {
            let p = cx.call("x25519.public", || k.public_key().as_bytes())?;
            ensure!(p == refs::x25519_pub(*s), "public", "a loaded X25519 key has the wrong public key");
        }
        (Loaded::EcPub(..), Key::EcPub(..)) | (Loaded::EdPub(_), Key::EdPub(_)) => {}
        _ => unreachable!(),
    }
    Ok(())
}

fn check_ec(c: u8, d: &[u8], hash: u8, asn1: bool, m: &[u8], s: &[u8]) -> R {
    let l = refs::clen(c);
    let (r, z) = if asn1 {
        let Some((r, z)) = refs::der_parse_sig(s) else { fail!("bad-signature", "not a DER signature") };
        (refs::be(&r, l), refs::be(&z, l))
    } else {
        ensure!(s.len() == 2 * l, "bad-signature", "signature of {} bytes", s.len());
        (s[..l].to_vec(), s[l..].to_vec())
    };
    ensure!(refs::ecdsa_verify(c, &refs::ec_pub(c, d).unwrap(), &refs::sha(hash, m), &r, &z), "bad-signature", "a loaded ECDSA key produced a signature that its public key rejects");
    Ok(())
}

/// the same file through the TLS provider's key loader
fn provider_load(cx: &mut Cx, f: &File, enc: Enc, hash: u8, m: &[u8], entropy: u32) -> R {
    use rustls::pki_types::{PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
    let (der, cand): (PrivateKeyDer<'static>, &[Enc]) = match enc {
        Enc::RsaPkcs1 | Enc::RsaPub | Enc::RsaSpki => (PrivatePkcs1KeyDer::from(f.bytes.clone()).into(), &[Enc::RsaPkcs1]),
        Enc::Sec1(_) | Enc::EcRaw(_) | Enc::EcPub(_) => (PrivateSec1KeyDer::from(f.bytes.clone()).into(), &[Enc::Sec1(0), Enc::Sec1(1)]),
        _ => (PrivatePkcs8KeyDer::from(f.bytes.clone()).into(), &[Enc::RsaPkcs8, Enc::EcPkcs8(0), Enc::EcPkcs8(1), Enc::EdPkcs8]),
    };
    let p = rustls_graviola::default_provider();
    let k = cx.call("provider.load", || p.key_provider.load_private_key(der))?;
    cx.check();
    let whole = f.intact.as_ref().is_some_and(|(e, k)| cand.contains(e) && supported(k));
    let Ok(k) = k else {
        ensure!(!whole, "refused", "the provider refuses an undamaged {enc:?} file");
        cx.probe("refused");
        return Ok(());
    };
    cx.probe(if whole { "loaded_intact" } else { "loaded_damaged" });
    let Some(t) = cand.iter().find_map(|e| decode(*e, &f.bytes)) else { fail!("accepted", "the provider accepted bytes that are not one well-formed, consistent key: {}", hex(&f.bytes)) };
    let (pub_enc, schemes): (Enc, &[SS]) = match &t {
        Key::Rsa(_) => (Enc::RsaSpki, &[SS::RSA_PSS_SHA512, SS::RSA_PSS_SHA384, SS::RSA_PSS_SHA256, SS::RSA_PKCS1_SHA512, SS::RSA_PKCS1_SHA384, SS::RSA_PKCS1_SHA256]),
        Key::Ec(0, _) => (Enc::EcSpki(0), &[SS::ECDSA_NISTP256_SHA256]),
        Key::Ec(..) => (Enc::EcSpki(1), &[SS::ECDSA_NISTP384_SHA384]),
        _ => (Enc::EdSpki, &[SS::ED25519]),
    };
    let spki = cx.call("provider.public_key", || k.public_key())?;
    let Some(spki) = spki else { fail!("public", "the provider does not report the public key") };
    ensure!(decode(pub_enc, spki.as_ref()) == Some(public_part(&t)), "public", "the provider reports a public key that is not the loaded key's: {}", hex(spki.as_ref()));
    let s = schemes[hash as usize % schemes.len()];
    let Some(signer) = cx.call("provider.choose", || k.choose_scheme(&[s]))? else { fail!("refused", "{s:?} not offered by a loaded key") };
    ensure!(signer.scheme() == s, "scheme", "asked for {s:?}, got {:?}", signer.scheme());
    let (sig, _) = cx.call("provider.sign", || env::with_entropy(&EntropyPlan::good(entropy), || signer.sign(m)))?;
    cx.check();
    let sig = match sig {
        Ok(s) => s,
        Err(e) => {
            ensure!(!whole, "refused", "an undamaged key cannot sign: {e:?}");
            cx.probe("sign_withheld");
            return Ok(());
        }
    };
    match &t {
        Key::Rsa(t) => {
            let (pss, h) = match s {
                SS::RSA_PSS_SHA512 => (true, 2),
                SS::RSA_PSS_SHA384 => (true, 1),
                SS::RSA_PSS_SHA256 => (true, 0),
                SS::RSA_PKCS1_SHA512 => (false, 2),
                SS::RSA_PKCS1_SHA384 => (false, 1),
                _ => (false, 0),
            };
            ensure!(t.public().verify(pss, h, m, &sig), "bad-signature", "provider: a loaded key produced a signature that its public key rejects ({s:?})");
        }
        Key::Ec(c, d) => check_ec(*c, d, *c, true, m, &sig)?,
        Key::Ed(s) => ensure!(sig == refs::ed_sign(s, m), "bad-signature", "provider: a loaded Ed25519 key produced a wrong signature"),
        _ => {}
    }
    Ok(())
}

#[allow(unused_imports)]
use ops as _;

pub fn def() -> Def {
    Def {
        id: "C13",
        title: "Stored key material survives faithfully or is refused",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 12000,
        thorough: 200000,
        rule: "a run (a small disk of key files: exports, torn writes, decay, foreign files, loads through the library and the TLS provider, use of what was loaded) counts when an outcome was judged; distinct by history hash",
        real: &["graviola key encoding and decoding (RSA, ECDSA, Ed25519, X25519, raw scalars)", "graviola signing with loaded keys", "rustls-graviola key loader and signers"],
        stub: &["disk (in-memory files with torn and stale sectors and decay)", "getrandom(2)"],
        probes: &["refused", "loaded_intact", "loaded_damaged", "sign_withheld"],
        assumptions: &["an independent strict DER decoder in the simulator is the judge of what stored bytes denote"],
    }
}
