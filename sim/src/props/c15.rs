//! C15: signatures are accepted exactly when nothing was altered.
use super::c02::edge_draw;
use super::c05::KEYS;
use super::c12::{lift_x, special_p};
use super::prelude::*;
use crate::ops::{self, Ecdsa, EcdsaV, rsa_sign, rsa_verify};
use graviola::signing::{eddsa, rsa};
use num_bigint::BigUint;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Alg {
    Rsa { pss: bool, hash: u8 },
    Ec { curve: u8, hash: u8, asn1: bool },
    Ed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// someone signs: this library (0), an independent implementation (1), or a signer with unusual values (2)
    Sign { alg: Alg, key: u32, msg: u32, len: u32, by: u8, craft: u32 },
    /// the network delivers message, signature and key to a verifier
    Verify {
        i: u8,
        /// parts taken from item `with` instead: 1 signature, 2 message, 4 key, 8 algorithm
        mix: u8,
        with: u8,
        sig: Vec<Dmg>,
        msg: Vec<Dmg>,
        key: Vec<Dmg>,
        special: u32,
        provider: bool,
        cut: u32,
    },
}

struct Item {
    alg: Alg,
    key: Vec<u8>,
    msg: Vec<u8>,
    sig: Vec<u8>,
}

pub struct S;

const HL: [usize; 3] = [32, 48, 64];

fn rsa_pub_der(k: &refs::RsaPub) -> Vec<u8> {
    let mut b = refs::der_int(&k.n.to_bytes_be());
    b.extend(refs::der_int(&k.e.to_bytes_be()));
    refs::der_tlv(0x30, &b)
}
fn rsa_pub_parse(b: &[u8]) -> Option<refs::RsaPub> {
    let (t, body, rest) = refs::der_next(b)?;
    if t != 0x30 || !rest.is_empty() {
        return None;
    }
    let (t1, n, rest) = refs::der_next(body)?;
    let (t2, e, rest2) = refs::der_next(rest)?;
    if t1 != 2 || t2 != 2 || !rest2.is_empty() {
        return None;
    }
    let k = refs::RsaPub { n: refs::der_uint(n)?, e: refs::der_uint(e)? };
    if k.bits() < 2041 || k.bits() > 8192 || k.e == BigUint::ZERO || k.e.bits() > 32 || !k.n.bit(0) {
        return None;
    }
    Some(k)
}

/// what an independent verifier says about exactly these bytes
fn verdict(alg: Alg, key: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match alg {
        Alg::Rsa { pss, hash } => rsa_pub_parse(key).is_some_and(|k| k.verify(pss, hash, msg, sig)),
        Alg::Ec { curve, hash, asn1 } => {
            let l = refs::clen(curve);
            let (r, s) = if asn1 {
                match refs::der_parse_sig(sig) {
                    Some(v) => v,
                    None => return false,
                }
            } else {
                if sig.len() != 2 * l {
                    return false;
                }
                (refs::big(&sig[..l]), refs::big(&sig[l..]))
            };
            refs::ecdsa_verify(curve, key, &refs::sha(hash, msg), &r.to_bytes_be(), &s.to_bytes_be())
        }
        Alg::Ed => {
            let (Ok(k), Ok(s)) = (<&[u8; 32]>::try_from(key), <&[u8; 64]>::try_from(sig)) else { return false };
            // canonical y
            let mut y = *k;
            y[31] &= 0x7f;
            if BigUint::from_bytes_le(&y) >= (BigUint::from(1u8) << 255) - 19u8 {
                return false;
            }
            refs::ed_verify(k, msg, s)
        }
    }
}

fn craft_pkcs1(hash: u8, msg: &[u8], len: usize, r: &mut Rng) -> Vec<u8> {
    let h = refs::sha(hash, msg);
    let di = refs::DIGEST_INFO[hash as usize % 3];
    let build = |head: &[u8], ps: usize, sep: u8, t: &[u8], tail: &[u8]| {
        let mut v = head.to_vec();
        v.extend(vec![0xff; ps]);
        v.push(sep);
        v.extend_from_slice(t);
        v.extend_from_slice(tail);
        v
    };
    let t = [di, &h[..]].concat();
    let full = len - 3 - t.len();
    match r.below(12) {
        0 => {
            let ps = 8 + r.usize(full - 8);
            let g = r.bytes(full - ps);
            build(&[0, 1], ps, 0, &t, &g)
        }
        1 => {
            let mut v = refs::emsa_pkcs1(hash, msg, len);
            let at = match r.below(3) {
                0 => 2,
                1 => 1 + full,
                _ => 2 + r.usize(full),
            };
            v[at] = *r.pick(&[0, 0xfe, 1, 0x7f]);
            v
        }
        2 => {
            // no NULL parameters
            let mut t = di.to_vec();
            t[1] -= 2;
            t[3] -= 2;
            let oid_end = 4 + 2 + t[5] as usize;
            t.drain(oid_end..oid_end + 2);
            t.extend(&h);
            build(&[0, 1], len - 3 - t.len(), 0, &t, &[])
        }
        3 => {
            let o = (hash + 1 + r.below(2) as u8) % 3;
            let mut t = refs::DIGEST_INFO[o as usize].to_vec();
            t.extend(&h);
            build(&[0, 1], len - 3 - t.len(), 0, &t, &[])
        }
        4 => build(&[0, *r.pick(&[0, 2, 3])], full, 0, &t, &[]),
        5 => build(&[0, 1], full, *r.pick(&[1, 0xff]), &t, &[]),
        6 => build(&[0, 0, 1], full - 1, 0, &t, &[]),
        7 => {
            let mut v = refs::emsa_pkcs1(hash, msg, len);
            let i = 1 + r.usize(len - 1);
            v[i] ^= 1 << r.below(8);
            v
        }
        8 => {
            // digest length written in long form
            let l = di.len();
            let mut t = di[..l - 1].to_vec();
            t.extend([0x81, di[l - 1]]);
            t[1] += 1;
            t.extend(&h);
            build(&[0, 1], len - 3 - t.len(), 0, &t, &[])
        }
        9 => {
            // hash shortened or lengthened at the end
            let mut v = refs::emsa_pkcs1(hash, msg, len);
            let i = len - 1 - r.usize(h.len());
            v[i] ^= 1 << r.below(8);
            v
        }
        10 => {
            // no padding at all: hash only
            let mut v = vec![0; len - h.len()];
            v.extend(&h);
            v
        }
        _ => refs::emsa_pkcs1(hash, msg, len),
    }
}

fn craft_pss(hash: u8, msg: &[u8], bits: usize, r: &mut Rng) -> Vec<u8> {
    let hl = HL[hash as usize % 3];
    let em_len = (bits - 1).div_ceil(8);
    let kind = r.below(11);
    let max = em_len - hl - 2;
    let slen = if kind == 0 { *r.pick(&[0, 1, hl - 1, hl + 1, 20, 32, 48, 64, max]) } else { hl };
    let slen = slen.min(max);
    let salt = r.bytes(slen);
    let mut m = if kind == 7 { r.bytes(8) } else { vec![0; 8] };
    m.extend(refs::sha(hash, msg));
    m.extend(&salt);
    let mut h = refs::sha(hash, &m);
    let db_len = em_len - h.len() - 1;
    let mut db = vec![0u8; db_len - slen - 1];
    let ps = db.len();
    db.push(if kind == 3 { *r.pick(&[0, 2, 0x81, 0xff]) } else { 1 });
    db.extend(&salt);
    if kind == 2 && ps > 0 {
        let i = match r.below(3) {
            0 => 0,
            1 => ps - 1,
            _ => r.usize(ps),
        };
        db[i] = 1 << r.below(8);
    }
    let mask = refs::mgf1(if kind == 6 { (hash + 1) % 3 } else { hash }, &h, db_len);
    for (a, b) in db.iter_mut().zip(mask) {
        *a ^= b;
    }
    let top = 0xffu8 >> (8 * em_len - (bits - 1));
    db[0] &= top;
    if kind == 4 && top != 0xff {
        db[0] |= !top & (1 << (7 - r.below(top.leading_zeros() as u64)));
    }
    if kind == 9 {
        let i = r.usize(h.len());
        h[i] ^= 1 << r.below(8);
    }
    db.extend(h);
    db.push(if kind == 1 { *r.pick(&[0xbd, 0xcc, 0, 0x3c]) } else { 0xbc });
    if kind == 5 {
        let i = r.usize(db.len());
        db[i] ^= 1 << r.below(8);
    }
    db
}

/// A valid (or just not valid) signature with chosen internal values: (public key, r || s)
fn craft_ec(c: u8, hash: u8, msg: &[u8], r: &mut Rng) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = refs::order(c);
    let l = refs::clen(c);
    let inv = |a: &BigUint| a.modpow(&(&n - 2u32), &n);
    let e = refs::bits2int(c, &refs::sha(hash, msg)) % &n;
    let scalar = |r: &mut Rng| loop {
        let k = refs::big(&edge_draw(r, Some(c), l)) % &n;
        if k != BigUint::ZERO {
            return k;
        }
    };
    let fin = |d: BigUint, rr: BigUint, s: BigUint| {
        let p = refs::ec_pub(c, &refs::be(&d, l))?;
        let mut o = refs::be(&rr, l);
        o.extend(refs::be(&s, l));
        Some((p, o))
    };
    match r.below(6) {
        // u2 = r/s chosen
        0 | 1 => {
            let k = scalar(r);
            let rr = refs::ec_mul_x(c, &k) % &n;
            let u2 = scalar(r);
            let s = &rr * inv(&u2) % &n;
            let d = (&s * &k + &n - &e) % &n * inv(&rr) % &n;
            fin(d, rr, s)
        }
        // u1 = e/s chosen
        2 => {
            let k = scalar(r);
            let rr = refs::ec_mul_x(c, &k) % &n;
            let u1 = scalar(r);
            let s = &e * inv(&u1) % &n;
            let d = (&s * &k + &n - &e) % &n * inv(&rr) % &n;
            fin(d, rr, s)
        }
        // u1 G == u2 Q, so that the sum is a doubling
        3 => {
            let s = scalar(r);
            let u1 = &e * inv(&s) % &n;
            let rr = refs::ec_mul_x(c, &((&u1 + &u1) % &n)) % &n;
            let d = &e * inv(&rr) % &n;
            fin(d, rr, s)
        }
        // u1 G == -u2 Q, so that the sum is infinity: never valid
        4 => {
            let s = scalar(r);
            let rr = scalar(r);
            let d = (&n - &e) * inv(&rr) % &n;
            fin(d, rr, s)
        }
        // the nonce point has x >= n, so that r is x - n
        _ => {
            let (x, pt) = loop {
                let x = &n + r.below(400);
                if let Some(p) = lift_x(c, &x) {
                    break (x, p);
                }
            };
            let rr = &x - &n;
            if rr == BigUint::ZERO {
                return None;
            }
            let s = scalar(r);
            // Q = r^-1 (s R - e G)
            let (a, b) = (&s * inv(&rr) % &n, (&n - &e) * inv(&rr) % &n);
            let q = if c == 0 {
                use p256::elliptic_curve::PrimeField;
                use p256::elliptic_curve::sec1::ToEncodedPoint;
                let q = p256::PublicKey::from_sec1_bytes(&pt).ok()?.to_projective();
                let a = p256::Scalar::from_repr(*p256::FieldBytes::from_slice(&refs::be(&a, 32))).unwrap();
                let b = p256::Scalar::from_repr(*p256::FieldBytes::from_slice(&refs::be(&b, 32))).unwrap();
                (q * a + p256::ProjectivePoint::GENERATOR * b).to_affine().to_encoded_point(false).as_bytes().to_vec()
            } else {
                use p384::elliptic_curve::PrimeField;
                use p384::elliptic_curve::sec1::ToEncodedPoint;
                let q = p384::PublicKey::from_sec1_bytes(&pt).ok()?.to_projective();
                let a = p384::Scalar::from_repr(*p384::FieldBytes::from_slice(&refs::be(&a, 48))).unwrap();
                let b = p384::Scalar::from_repr(*p384::FieldBytes::from_slice(&refs::be(&b, 48))).unwrap();
                (q * a + p384::ProjectivePoint::GENERATOR * b).to_affine().to_encoded_point(false).as_bytes().to_vec()
            };
            let mut o = refs::be(&rr, l);
            o.extend(refs::be(&s, l));
            Some((q, o))
        }
    }
}

fn le32(v: &BigUint) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    b.resize(32, 0);
    b
}

/// Substitutions a malicious network would try.
fn special(alg: Alg, seed: u32, key: &mut Vec<u8>, sig: &mut Vec<u8>) {
    let mut r = Rng::new(seed as u64 ^ 0x51e5);
    match alg {
        Alg::Ec { curve, asn1, .. } => {
            let l = refs::clen(curve);
            let n = refs::order(curve);
            if r.chance(1, 5) {
                *key = special_p(curve, &mut r, key);
                return;
            }
            let Some((rr, s)) = (if asn1 { refs::der_parse_sig(sig) } else if sig.len() == 2 * l { Some((refs::big(&sig[..l]), refs::big(&sig[l..]))) } else { None }) else {
                return;
            };
            let odd = |r: &mut Rng, v: &BigUint| -> BigUint {
                match r.below(6) {
                    0 => BigUint::ZERO,
                    1 => n.clone(),
                    2 => v + &n,
                    3 => (&n - v % &n) % &n,
                    4 => &n + r.below(3),
                    _ => v.clone(),
                }
            };
            let both = r.below(3);
            let a = if both != 0 { odd(&mut r, &rr) } else { rr };
            let b = if both != 1 { odd(&mut r, &s) } else { s };
            let a = a.to_bytes_be();
            let b = b.to_bytes_be();
            if !asn1 {
                let x = refs::be(&refs::big(&a), l);
                let y = refs::be(&refs::big(&b), l);
                *sig = [x, y].concat();
                if r.chance(1, 6) {
                    // wider than the format allows
                    *sig = [refs::be(&refs::big(&a), l + 1), refs::be(&refs::big(&b), l + 1)].concat();
                }
                return;
            }
            let raw = |tag: u8, v: &[u8]| refs::der_tlv(tag, v);
            let (x, y) = (refs::der_int(&a), refs::der_int(&b));
            *sig = match r.below(12) {
                // superfluous zero, missing zero (negative), empty integer
                0 => raw(0x30, &[raw(2, &[&[0], &x[2..]].concat()), y].concat()),
                1 => raw(0x30, &[x, raw(2, &[&[0], &y[2..]].concat())].concat()),
                2 => raw(0x30, &[raw(2, &a), raw(2, &b)].concat()),
                3 => raw(0x30, &[raw(2, &[]), y].concat()),
                4 => raw(0x30, &[x, y, vec![5, 0]].concat()),
                5 => [raw(0x30, &[x, y].concat()), vec![0]].concat(),
                // long-form and indefinite lengths
                6 => {
                    let b = [x, y].concat();
                    [vec![0x30, 0x81, b.len() as u8], b].concat()
                }
                7 => {
                    let b = [x, y].concat();
                    [vec![0x30, 0x80], b, vec![0, 0]].concat()
                }
                8 => raw(0x31, &[x, y].concat()),
                9 => raw(0x30, &[raw(3, &x[2..]), y].concat()),
                // integers wider than the curve
                10 => raw(0x30, &[raw(2, &[&[1], &vec![0; 60][..], &x[2..]].concat()), y].concat()),
                _ => refs::der_sig(&a, &b),
            };
        }
        Alg::Ed => {
            let ell: BigUint = (BigUint::from(1u8) << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
            let small = ["0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"];
            let pick = |r: &mut Rng| {
                let h = *r.pick(&small);
                let mut v: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                if r.chance(1, 3) {
                    v[31] |= 0x80;
                }
                v
            };
            match r.below(9) {
                6..=8 => {
                    // R = [s]B + T under the public key T' (both of small order): the equation can hold whatever the
                    // message, so that S itself can be chosen near the ends of its range
                    use curve25519_dalek::{constants, edwards::EdwardsPoint, scalar::Scalar};
                    let t = &constants::EIGHT_TORSION;
                    let (a, b) = if r.chance(2, 3) { (0, 0) } else { (r.usize(8), r.usize(8)) };
                    let s: BigUint = match r.below(5) {
                        0 => BigUint::from(r.below(10)),
                        1 => &ell - BigUint::from(1 + r.below(10)),
                        2 => BigUint::from(r.below(1 << 40)) << r.usize(150),
                        3 => refs::big(&r.bytes(24)),
                        _ => refs::big(&r.bytes(32)) % &ell,
                    };
                    let sc = Scalar::from_bytes_mod_order(le32(&s).try_into().unwrap());
                    let point = EdwardsPoint::mul_base(&sc) + t[b];
                    *key = t[a].compress().0.to_vec();
                    let out = s + &ell * BigUint::from(r.below(3));
                    if sig.len() == 64 && out.bits() <= 256 {
                        sig.splice(..32, point.compress().0);
                        sig.splice(32.., le32(&out));
                    }
                }
                0 | 1 if sig.len() == 64 => {
                    let s: BigUint = BigUint::from_bytes_le(&sig[32..]) + &ell * BigUint::from(1 + r.below(7));
                    if s.bits() <= 256 {
                        sig.splice(32.., le32(&s));
                    }
                }
                2 if sig.len() == 64 => {
                    sig.splice(..32, pick(&mut r));
                }
                3 => *key = pick(&mut r),
                4 if sig.len() == 64 => sig[63] |= 1 << (5 + r.below(3)),
                _ if sig.len() == 64 => {
                    sig.splice(32.., le32(&[BigUint::ZERO, ell.clone(), &ell - 1u8][r.usize(3)]));
                }
                _ => {}
            }
        }
        Alg::Rsa { .. } => {
            let Some(k) = rsa_pub_parse(key) else { return };
            let l = k.len();
            let s = refs::big(sig);
            match r.below(12) {
                0 => {
                    let v = s + &k.n;
                    if v.bits() as usize <= 8 * l {
                        *sig = refs::be(&v, l);
                    }
                }
                1 => *sig = refs::be(&(s + &k.n), l + 1),
                2 => *sig = refs::be(&s, l + 1),
                3 => {
                    let b = s.to_bytes_be();
                    *sig = b;
                }
                4 => *sig = vec![0; l],
                5 => *sig = refs::be(&BigUint::from(1u8), l),
                6 => *sig = refs::be(&k.n, l),
                7 => *sig = refs::be(&(&k.n - 1u8), l),
                8 => *sig = refs::be(&((&k.n - s % &k.n) % &k.n), l),
                // other exponents and moduli
                9 => {
                    let e = [BigUint::from(1u8), BigUint::from(2u8), BigUint::ZERO, BigUint::from(3u8), &k.e + (1u64 << 32), &k.e << 1, BigUint::from(u32::MAX)][r.usize(7)].clone();
                    *key = rsa_pub_der(&refs::RsaPub { n: k.n, e });
                }
                10 => {
                    let n = [&k.n >> 64, &k.n << 64, &k.n + 1u8, &k.n >> 1024, (&k.n << 6144) | BigUint::from(1u8), BigUint::from(1u8), BigUint::ZERO][r.usize(7)].clone();
                    *key = rsa_pub_der(&refs::RsaPub { n, e: k.e });
                }
                _ => {
                    // non-minimal or negative integers
                    let n = k.n.to_bytes_be();
                    let e = k.e.to_bytes_be();
                    let n = if r.chance(1, 2) { [vec![0, 0], n].concat() } else { n };
                    let mut b = refs::der_tlv(2, &n);
                    b.extend(refs::der_tlv(2, &e));
                    *key = refs::der_tlv(0x30, &b);
                }
            }
        }
    }
}

fn lib_verify(alg: Alg, key: &[u8], msg: &[u8], sig: &[u8], cut: usize) -> bool {
    match alg {
        Alg::Rsa { pss, hash } => rsa::VerifyingKey::from_pkcs1_der(key).and_then(|k| rsa_verify(&k, pss, hash, msg, sig)).is_ok(),
        Alg::Ec { curve, hash, asn1 } => {
            // the message arrives in some number of pieces
            let mut r = Rng::new(cut as u64);
            let mut at: Vec<usize> = (0..r.log(24)).map(|_| r.usize(msg.len() + 1)).collect();
            at.sort();
            let ends = at.iter().copied().chain([msg.len()]);
            let pieces: Vec<&[u8]> = [0].into_iter().chain(at.iter().copied()).zip(ends).map(|(a, b)| &msg[a..b]).collect();
            EcdsaV::new(curve, key).and_then(|k| k.verify(hash, &pieces, sig, asn1)).is_ok()
        }
        Alg::Ed => eddsa::Ed25519VerifyingKey::from_bytes(key).and_then(|k| k.verify(sig, msg)).is_ok(),
    }
}

fn provider_alg(alg: Alg) -> Option<&'static dyn rustls::pki_types::SignatureVerificationAlgorithm> {
    use rustls::pki_types::alg_id as a;
    let (pk, sg) = match alg {
        Alg::Rsa { pss: true, hash } => (a::RSA_ENCRYPTION, [a::RSA_PSS_SHA256, a::RSA_PSS_SHA384, a::RSA_PSS_SHA512][hash as usize % 3]),
        Alg::Rsa { pss: false, hash } => (a::RSA_ENCRYPTION, [a::RSA_PKCS1_SHA256, a::RSA_PKCS1_SHA384, a::RSA_PKCS1_SHA512][hash as usize % 3]),
        Alg::Ec { asn1: false, .. } => return None,
        Alg::Ec { curve, hash, .. } => ([a::ECDSA_P256, a::ECDSA_P384][curve as usize % 2], [a::ECDSA_SHA256, a::ECDSA_SHA384, a::ECDSA_SHA512][hash as usize % 3]),
        Alg::Ed => (a::ED25519, a::ED25519),
    };
    rustls_graviola::default_provider().signature_verification_algorithms.all.iter().find(|x| x.public_key_alg_id() == pk && x.signature_alg_id() == sg).copied()
}

fn gen_alg(r: &mut Rng) -> Alg {
    match r.below(10) {
        0..=3 => Alg::Rsa { pss: r.chance(1, 2), hash: r.below(3) as u8 },
        4..=7 => Alg::Ec { curve: r.below(2) as u8, hash: r.below(3) as u8, asn1: r.chance(1, 2) },
        _ => Alg::Ed,
    }
}

impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, _run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 6) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        let big = r.chance(1, if tier == Tier::Thorough { 10 } else { 40 });
        let n = 2 + r.usize(4);
        let base = gen_alg(r);
        let kbase = if big { *r.pick(&[2u32, 3, 4, 14]) } else { *r.pick(&[0u32, 0, 0, 0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18]) } + 19 * r.below(1 << 16) as u32;
        for _ in 0..n {
            let alg = match (r.below(4), base) {
                (0, _) => gen_alg(r),
                (1, Alg::Rsa { .. }) => Alg::Rsa { pss: r.chance(1, 2), hash: r.below(3) as u8 },
                (1, Alg::Ec { curve, .. }) => Alg::Ec { curve, hash: r.below(3) as u8, asn1: r.chance(1, 2) },
                _ => base,
            };
            let key = if r.chance(2, 3) { kbase } else { *r.pick(&[0u32, 0, 1, 5, 7, 12]) + 19 * r.below(1 << 16) as u32 };
            let len = match r.below(4) {
                0 => r.below(4) as u32,
                1 => r.len(64, 600) as u32,
                2 => 32,
                _ => r.log(4000) as u32,
            };
            let odd = match alg {
                Alg::Ec { hash, .. } if r.chance(1, 8) => odd_message(r, hash),
                _ => None,
            };
            let (msg, len) = odd.map_or((r.seed(), len), |m| (m, ODD_LEN as u32));
            v.push(Step::Sign { alg, key, msg, len, by: r.below(4) as u8, craft: r.seed() });
        }
        for _ in 0..6 + r.usize(if tier == Tier::Thorough { 40 } else { 18 }) {
            let mut d = [vec![], vec![], vec![]];
            let mut sp = 0;
            match r.below(10) {
                0 => {}
                1..=3 => d[0] = gen_damage(r),
                4 => d[1] = gen_damage(r),
                5 => d[2] = gen_damage(r),
                _ => sp = r.seed(),
            }
            let [sig, msg, key] = d;
            v.push(Step::Verify {
                i: r.below(n as u64) as u8,
                mix: if r.chance(1, 6) { 1 << r.below(4) } else { 0 },
                with: r.below(n as u64) as u8,
                sig,
                msg,
                key,
                special: sp,
                provider: r.chance(1, 3),
                cut: r.log(4000) as u32,
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut items: Vec<Item> = vec![];
        for (i, st) in steps.iter().enumerate() {
            cx.step = i;
            match st {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Sign { alg, key, msg, len, by, craft } => {
                    let msg = expand(*msg, *len as usize);
                    if let Alg::Ec { curve: 0, hash, .. } = *alg
                        && refs::big(&refs::sha(hash, &msg)[..32]) >= refs::order(0)
                    {
                        cx.probe("digest_exceeds_order");
                    }
                    let mut r = Rng::new(*craft as u64 ^ 0xc4af);
                    let plan = EntropyPlan::good(*craft);
                    let (pk, sig) = match *alg {
                        Alg::Rsa { pss, hash } => {
                            let der = KEYS[*key as usize % KEYS.len()];
                            let rk = refs::RsaPriv::from_pkcs1(der).unwrap();
                            let pk = rsa_pub_der(&rk.public());
                            let bits = rk.public().bits();
                            let l = rk.public().len();
                            if *by == 0 {
                                let (s, _) = env::with_entropy(&plan, || {
                                    cx.call("rsa.sign", || -> Result<Vec<u8>, graviola::Error> {
                                        let k = rsa::SigningKey::from_pkcs1_der(der)?;
                                        let mut buf = vec![0; 1024];
                                        Ok(rsa_sign(&k, pss, hash, &msg, &mut buf)?.to_vec())
                                    })
                                });
                                match s? {
                                    Ok(s) => (pk, s),
                                    Err(e) => fail!("sign.failed", "RSA signing failed: {e:?}"),
                                }
                            } else {
                                let em = match (*by, pss) {
                                    (1, false) => refs::emsa_pkcs1(hash, &msg, l),
                                    (1, true) => refs::emsa_pss(hash, &msg, &r.bytes(HL[hash as usize]), bits),
                                    (_, false) => craft_pkcs1(hash, &msg, l, &mut r),
                                    (_, true) => craft_pss(hash, &msg, bits, &mut r),
                                };
                                let m = refs::big(&em) % &rk.n;
                                (pk, refs::be(&rk.raw(&m), l))
                            }
                        }
                        Alg::Ec { curve, hash, asn1 } => {
                            let mut kr = Rng::new(*key as u64);
                            let d = loop {
                                let d = if kr.chance(1, 3) { edge_draw(&mut kr, Some(curve), refs::clen(curve)) } else { kr.bytes(refs::clen(curve)) };
                                if refs::ec_pub(curve, &d).is_some() {
                                    break d;
                                }
                            };
                            let l = refs::clen(curve);
                            let mut pk = refs::ec_pub(curve, &d).unwrap();
                            let sig = if *by == 0 {
                                let (s, _) = env::with_entropy(&plan, || {
                                    cx.call("ecdsa.sign", || -> Result<Vec<u8>, graviola::Error> {
                                        let k = Ecdsa::from_scalar(curve, &d)?;
                                        let mut b = vec![0; 128];
                                        k.sign(hash, &[&msg], asn1, &mut b)
                                    })
                                });
                                match s? {
                                    Ok(s) => s,
                                    Err(e) => fail!("sign.failed", "ECDSA signing failed: {e:?}"),
                                }
                            } else {
                                let fixed = if *by == 1 {
                                    let dg = refs::sha(hash, &msg);
                                    let k = refs::rfc6979_k(curve, hash, &d, &dg, &r.bytes(8));
                                    refs::ecdsa_sign(curve, &d, &k, &dg)
                                } else {
                                    match craft_ec(curve, hash, &msg, &mut r) {
                                        Some((p, s)) => {
                                            pk = p;
                                            s
                                        }
                                        None => continue,
                                    }
                                };
                                if asn1 { refs::der_sig(&fixed[..l], &fixed[l..]) } else { fixed }
                            };
                            (pk, sig)
                        }
                        Alg::Ed => {
                            let seed: [u8; 32] = Rng::new(*key as u64).arr();
                            let s = if *by == 0 {
                                cx.call("ed25519.sign", || eddsa::Ed25519SigningKey::from_bytes(&seed).map(|k| k.sign(&msg)))?.map_err(|e| Fail { class: "sign.failed".into(), detail: format!("{e:?}") })?
                            } else {
                                refs::ed_sign(&seed, &msg)
                            };
                            (refs::ed_pub(&seed).to_vec(), s.to_vec())
                        }
                    };
                    if *by <= 1 {
                        cx.check();
                        ensure!(verdict(*alg, &pk, &msg, &sig), "sign.invalid", "{alg:?}: signature not accepted by the independent verifier");
                    } else if verdict(*alg, &pk, &msg, &sig) {
                        cx.probe("unusual_valid");
                    }
                    cx.ev_bytes("sign", &sig);
                    items.push(Item { alg: *alg, key: pk, msg, sig });
                }
                Step::Verify { i, mix, with, sig, msg, key, special: sp, provider, cut } => {
                    if items.is_empty() {
                        continue;
                    }
                    let it = &items[*i as usize % items.len()];
                    let w = &items[*with as usize % items.len()];
                    let pick = |b: u8| if mix & b != 0 { w } else { it };
                    let alg = pick(8).alg;
                    let (mut s, mut m, mut k) = (pick(1).sig.clone(), pick(2).msg.clone(), pick(4).key.clone());
                    if *mix != 0 {
                        cx.fault("net.mixed_messages");
                    }
                    damage(&mut s, sig, &w.sig, "net", cx);
                    damage(&mut m, msg, &w.msg, "net", cx);
                    damage(&mut k, key, &w.key, "net", cx);
                    if *sp != 0 {
                        special(alg, *sp, &mut k, &mut s);
                        cx.fault("net.hostile_substitution");
                    }
                    let want = verdict(alg, &k, &m, &s);
                    let intact_key = k == it.key && alg == it.alg;
                    let pa = if *provider { provider_alg(alg) } else { None };
                    let got = match pa {
                        Some(p) => cx.call("provider.verify", || p.verify_signature(&k, &m, &s).is_ok())?,
                        None => cx.call("verify", || lib_verify(alg, &k, &m, &s, *cut as usize))?,
                    };
                    cx.check();
                    ensure!(!got || want, "verify.accepted", "{alg:?} provider={}: accepted (key {} bytes, signature {} bytes) what an independent verifier rejects", pa.is_some(), k.len(), s.len());
                    if want && intact_key {
                        ensure!(got, "verify.refused", "{alg:?} provider={}: refused a valid signature (key {} bytes)", pa.is_some(), k.len());
                        cx.probe("intact_accepted");
                    } else if !want {
                        cx.probe("altered_refused");
                    }
                    let _ = ops::RSA2048;
                    cx.ev(format!("verify {alg:?} -> {got}"));
                }
            }
        }
        Ok(())
    }
}

pub fn def() -> Def {
    Def {
        id: "C15",
        title: "Signatures are accepted exactly when nothing was altered",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 12000,
        thorough: 120000,
        rule: "a run (signers, then deliveries to verifiers over a faulty or hostile network) counts when it reached at least one oracle check and had a fault or more than one operation; distinct by history hash",
        real: &["graviola::signing (RSA, ECDSA, Ed25519)", "rustls_graviola verification algorithms"],
        stub: &["network (simulated)", "OS entropy (getrandom interposed)", "independent signer/verifier: p256, p384, ed25519-dalek, num-bigint RSA"],
        probes: &["digest_exceeds_order", "intact_accepted", "altered_refused", "unusual_valid"],
        assumptions: &["the reference verifiers implement the standards; ECDSA's (r, n-s) counts as valid, as the standard says"],
    }
}
