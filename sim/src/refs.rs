//! Independent reference implementations (RustCrypto, dalek, num-bigint), wrapped for use as oracles.

use num_bigint::BigUint;

pub fn sha(alg: u8, d: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    match alg % 3 {
        0 => sha2::Sha256::digest(d).to_vec(),
        1 => sha2::Sha384::digest(d).to_vec(),
        _ => sha2::Sha512::digest(d).to_vec(),
    }
}
pub fn sha3(alg: u8, d: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    match alg % 2 {
        0 => sha3::Sha3_256::digest(d).to_vec(),
        _ => sha3::Sha3_512::digest(d).to_vec(),
    }
}
pub fn shake(alg: u8, d: &[u8], n: usize) -> Vec<u8> {
    use sha3::digest::{ExtendableOutput, Update, XofReader};
    let mut out = vec![0; n];
    if alg % 2 == 0 {
        let mut s = sha3::Shake128::default();
        s.update(d);
        s.finalize_xof().read(&mut out);
    } else {
        let mut s = sha3::Shake256::default();
        s.update(d);
        s.finalize_xof().read(&mut out);
    }
    out
}
pub fn hmac(alg: u8, key: &[u8], d: &[u8]) -> Vec<u8> {
    use hmac::Mac;
    macro_rules! go {
        ($h:ty) => {{
            let mut m = <hmac::Hmac<$h> as Mac>::new_from_slice(key).unwrap();
            m.update(d);
            m.finalize().into_bytes().to_vec()
        }};
    }
    match alg % 3 {
        0 => go!(sha2::Sha256),
        1 => go!(sha2::Sha384),
        _ => go!(sha2::Sha512),
    }
}

pub fn aead_key_len(alg: u8) -> usize {
    if alg % 4 == 0 { 16 } else { 32 }
}
pub fn aead_nonce_len(alg: u8) -> usize {
    if alg % 4 == 3 { 24 } else { 12 }
}

pub fn seal(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    use aes_gcm::aead::{AeadInPlace, KeyInit};
    let mut b = pt.to_vec();
    macro_rules! go {
        ($t:ty) => {{
            let c = <$t>::new_from_slice(key).unwrap();
            let t = c.encrypt_in_place_detached(aes_gcm::aead::Nonce::<$t>::from_slice(nonce), aad, &mut b).unwrap();
            t.as_slice().try_into().unwrap()
        }};
    }
    let t: [u8; 16] = match alg % 4 {
        0 => go!(aes_gcm::Aes128Gcm),
        1 => go!(aes_gcm::Aes256Gcm),
        2 => go!(chacha20poly1305::ChaCha20Poly1305),
        _ => go!(chacha20poly1305::XChaCha20Poly1305),
    };
    (b, t)
}

/// Chooses part of a ChaCha20-Poly1305 message so that the authenticator's accumulator takes
/// an extreme value: changes one or two blocks of `pt`, reports whether it could.
pub fn poly_edge(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], pt: &mut [u8], r: &mut crate::rng::Rng) -> bool {
    use chacha20::cipher::{KeyIvInit, StreamCipher};
    if alg % 4 < 2 || pt.len() < 16 {
        return false;
    }
    let mut ks = vec![0u8; 64 + pt.len()];
    if alg % 4 == 2 {
        chacha20::ChaCha20::new(key.into(), nonce.into()).apply_keystream(&mut ks);
    } else {
        chacha20::XChaCha20::new(key.into(), nonce.into()).apply_keystream(&mut ks);
    }
    let one = BigUint::from(1u8);
    let p = (&one << 130) - 5u8;
    let mut rk = ks[..16].to_vec();
    for i in [3, 7, 11, 15] {
        rk[i] &= 15;
    }
    for i in [4, 8, 12] {
        rk[i] &= 252;
    }
    let rr = BigUint::from_bytes_le(&rk);
    let s = BigUint::from_bytes_le(&ks[16..32]);
    let ri = rr.modpow(&(&p - 2u8), &p);
    let top = &one << 128;
    let full = pt.len() / 16;
    // 0: after the last block; 1: after a block; 2: before multiplying
    let kind = if pt.len() % 16 == 0 { r.below(4) } else { 1 + r.below(2) };
    let last = if kind == 1 || kind == 2 { r.usize(full) } else { full - 1 };
    for _ in 0..200 {
        // accumulate everything before the chosen block
        let mut h = BigUint::ZERO;
        let eat = |h: &mut BigUint, b: &[u8]| {
            for c in b.chunks(16) {
                let mut w = c.to_vec();
                w.resize(16, 0);
                *h = ((&*h + BigUint::from_bytes_le(&w) + &top) * &rr) % &p;
            }
        };
        eat(&mut h, aad);
        let c: Vec<u8> = pt[..16 * last].iter().zip(&ks[64..]).map(|(a, b)| a ^ b).collect();
        eat(&mut h, &c);
        let t = match r.below(6) {
            0 => BigUint::from(r.below(6)),
            1 => &p - 1u8 - r.below(6),
            2 => {
                // limbs all ones or all zeroes
                let w = [26, 32, 44, 64][r.usize(4)];
                let mut t = BigUint::ZERO;
                for i in (0..130).step_by(w) {
                    if r.chance(3, 4) {
                        t += ((&one << w) - 1u8) << i;
                    }
                }
                t % (&one << 130)
            }
            3 => (&one << r.below(130)) - r.below(2),
            // the tag wraps to nothing, or carries all the way
            4 => ((&one << 130) - &s - r.below(2)) % (&one << (128 + r.below(3))),
            _ => (&p >> r.below(3)) + r.below(3),
        };
        let c = match kind {
            0 | 3 => {
                let l = BigUint::from(aad.len()) + (BigUint::from(pt.len()) << 64) + &top;
                let t = (t % &p) * &ri % &p + &p * 2u8 - l;
                (t * &ri + &p - h) % &p
            }
            1 => ((t % &p) * &ri + &p - h) % &p,
            _ if t >= h => t - h,
            _ => continue,
        };
        if c >= top && c < &top * 2u8 {
            let mut c = (c - &top).to_bytes_le();
            c.resize(16, 0);
            for i in 0..16 {
                pt[16 * last + i] = c[i] ^ ks[64 + 16 * last + i];
            }
            return true;
        }
        if last > 0 {
            pt[16 * r.usize(last)] ^= 1 + r.below(255) as u8;
        }
    }
    false
}

// ---------------------------------------------------------------- curves

pub fn order(curve: u8) -> BigUint {
    let s = if curve == 0 {
        "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
    } else {
        "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"
    };
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn clen(curve: u8) -> usize {
    if curve == 0 { 32 } else { 48 }
}
pub fn be(n: &BigUint, len: usize) -> Vec<u8> {
    let b = n.to_bytes_be();
    let mut v = vec![0; len.saturating_sub(b.len())];
    v.extend_from_slice(&b);
    v
}
pub fn big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

/// uncompressed public key for a scalar, or None when out of range
pub fn ec_pub(curve: u8, d: &[u8]) -> Option<Vec<u8>> {
    if curve == 0 {
        use p256::elliptic_curve::sec1::ToEncodedPoint;
        let k = p256::SecretKey::from_slice(d).ok()?;
        Some(k.public_key().to_encoded_point(false).as_bytes().to_vec())
    } else {
        use p384::elliptic_curve::sec1::ToEncodedPoint;
        let k = p384::SecretKey::from_slice(d).ok()?;
        Some(k.public_key().to_encoded_point(false).as_bytes().to_vec())
    }
}
pub fn ec_point_valid(curve: u8, p: &[u8]) -> bool {
    if p.len() != 1 + 2 * clen(curve) || p[0] != 4 {
        return false;
    }
    if curve == 0 { p256::PublicKey::from_sec1_bytes(p).is_ok() } else { p384::PublicKey::from_sec1_bytes(p).is_ok() }
}
pub fn ecdh(curve: u8, d: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    if curve == 0 {
        let k = p256::SecretKey::from_slice(d).ok()?;
        let p = p256::PublicKey::from_sec1_bytes(p).ok()?;
        Some(p256::ecdh::diffie_hellman(k.to_nonzero_scalar(), p.as_affine()).raw_secret_bytes().to_vec())
    } else {
        let k = p384::SecretKey::from_slice(d).ok()?;
        let p = p384::PublicKey::from_sec1_bytes(p).ok()?;
        Some(p384::ecdh::diffie_hellman(k.to_nonzero_scalar(), p.as_affine()).raw_secret_bytes().to_vec())
    }
}

/// leftmost bits of the digest, as an integer (not reduced)
pub fn bits2int(curve: u8, digest: &[u8]) -> BigUint {
    let l = clen(curve).min(digest.len());
    big(&digest[..l])
}

fn modinv(a: &BigUint, n: &BigUint) -> BigUint {
    a.modpow(&(n - 2u32), n)
}

/// textbook ECDSA verification using the reference curve arithmetic
pub fn ecdsa_verify(curve: u8, point: &[u8], digest: &[u8], r: &[u8], s: &[u8]) -> bool {
    let n = order(curve);
    let (r, s) = (big(r), big(s));
    let zero = BigUint::from(0u32);
    if r == zero || s == zero || r >= n || s >= n || !ec_point_valid(curve, point) {
        return false;
    }
    let e = bits2int(curve, digest) % &n;
    let w = modinv(&s, &n);
    let u1 = (&e * &w) % &n;
    let u2 = (&r * &w) % &n;
    let x = if curve == 0 {
        use p256::elliptic_curve::PrimeField;
        use p256::elliptic_curve::sec1::ToEncodedPoint;
        let q = p256::PublicKey::from_sec1_bytes(point).unwrap().to_projective();
        let a = p256::Scalar::from_repr(*p256::FieldBytes::from_slice(&be(&u1, 32))).unwrap();
        let b = p256::Scalar::from_repr(*p256::FieldBytes::from_slice(&be(&u2, 32))).unwrap();
        let p = (p256::ProjectivePoint::GENERATOR * a + q * b).to_affine();
        match p.to_encoded_point(false).x() {
            Some(x) => big(x),
            None => return false,
        }
    } else {
        use p384::elliptic_curve::PrimeField;
        use p384::elliptic_curve::sec1::ToEncodedPoint;
        let q = p384::PublicKey::from_sec1_bytes(point).unwrap().to_projective();
        let a = p384::Scalar::from_repr(*p384::FieldBytes::from_slice(&be(&u1, 48))).unwrap();
        let b = p384::Scalar::from_repr(*p384::FieldBytes::from_slice(&be(&u2, 48))).unwrap();
        let p = (p384::ProjectivePoint::GENERATOR * a + q * b).to_affine();
        match p.to_encoded_point(false).x() {
            Some(x) => big(x),
            None => return false,
        }
    };
    x % &n == r
}

/// x coordinate of k*G
pub fn ec_mul_x(curve: u8, k: &BigUint) -> BigUint {
    let p = ec_pub(curve, &be(k, clen(curve))).unwrap();
    big(&p[1..1 + clen(curve)])
}

/// Hedged RFC 6979: the nonce for private key d, digest and extra random bytes. Also returns redraw count.
pub fn rfc6979_k(curve: u8, alg: u8, d: &[u8], digest: &[u8], extra: &[u8]) -> BigUint {
    let n = order(curve);
    let len = clen(curve);
    let hlen = [32, 48, 64][alg as usize % 3];
    let mut seed = be(&big(d), len);
    seed.extend(be(&(bits2int(curve, digest) % &n), len));
    seed.extend(extra);
    let mut k = vec![0u8; hlen];
    let mut v = vec![1u8; hlen];
    let cat = |v: &[u8], b: u8, s: &[u8]| {
        let mut x = v.to_vec();
        x.push(b);
        x.extend(s);
        x
    };
    k = hmac(alg, &k, &cat(&v, 0, &seed));
    v = hmac(alg, &k, &v);
    k = hmac(alg, &k, &cat(&v, 1, &seed));
    v = hmac(alg, &k, &v);
    loop {
        let mut t = vec![];
        while t.len() < len {
            v = hmac(alg, &k, &v);
            t.extend_from_slice(&v);
        }
        let c = big(&t[..len]);
        if c > BigUint::from(0u32) && c < n {
            return c;
        }
        k = hmac(alg, &k, &cat(&v, 0, &[]));
        v = hmac(alg, &k, &v);
    }
}

/// reference ECDSA signature with a given nonce: r || s
pub fn ecdsa_sign(curve: u8, d: &[u8], k: &BigUint, digest: &[u8]) -> Vec<u8> {
    let n = order(curve);
    let len = clen(curve);
    let r = ec_mul_x(curve, k) % &n;
    let e = bits2int(curve, digest) % &n;
    let s = (modinv(k, &n) * (e + &r * big(d))) % &n;
    let mut o = be(&r, len);
    o.extend(be(&s, len));
    o
}

/// strict DER for SEQUENCE { INTEGER r, INTEGER s }
pub fn der_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut body = der_int(r);
    body.extend(der_int(s));
    der_tlv(0x30, &body)
}
pub fn der_int(x: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + 1 < x.len() && x[i] == 0 {
        i += 1;
    }
    let mut v = vec![];
    if x.is_empty() || x[i] & 0x80 != 0 {
        v.push(0);
    }
    v.extend_from_slice(&x[i..]);
    der_tlv(2, &v)
}
pub fn der_tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let l = body.len();
    if l < 0x80 {
        v.push(l as u8);
    } else if l < 0x100 {
        v.extend([0x81, l as u8]);
    } else {
        v.extend([0x82, (l >> 8) as u8, l as u8]);
    }
    v.extend_from_slice(body);
    v
}
/// parse a strict DER signature; None when it is not exactly one
pub fn der_parse_sig(b: &[u8]) -> Option<(BigUint, BigUint)> {
    let (t, body, rest) = der_next(b)?;
    if t != 0x30 || !rest.is_empty() {
        return None;
    }
    let (t1, r, rest) = der_next(body)?;
    let (t2, s, rest2) = der_next(rest)?;
    if t1 != 2 || t2 != 2 || !rest2.is_empty() {
        return None;
    }
    Some((der_uint(r)?, der_uint(s)?))
}
pub fn der_uint(b: &[u8]) -> Option<BigUint> {
    if b.is_empty() || b[0] & 0x80 != 0 || (b.len() > 1 && b[0] == 0 && b[1] & 0x80 == 0) {
        return None;
    }
    Some(big(b))
}
pub fn der_next(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let t = *b.first()?;
    let l0 = *b.get(1)? as usize;
    let (l, h) = match l0 {
        0..=0x7f => (l0, 2),
        0x81 => {
            let l = *b.get(2)? as usize;
            if l < 0x80 {
                return None;
            }
            (l, 3)
        }
        0x82 => {
            let l = (*b.get(2)? as usize) << 8 | *b.get(3)? as usize;
            if l < 0x100 {
                return None;
            }
            (l, 4)
        }
        _ => return None,
    };
    if b.len() < h + l {
        return None;
    }
    Some((t, &b[h..h + l], &b[h + l..]))
}

// ---------------------------------------------------------------- 25519

pub fn x25519(sk: [u8; 32], pk: [u8; 32]) -> [u8; 32] {
    x25519_dalek::x25519(sk, pk)
}
pub fn x25519_pub(sk: [u8; 32]) -> [u8; 32] {
    x25519_dalek::x25519(sk, x25519_dalek::X25519_BASEPOINT_BYTES)
}
pub fn ed_sign(seed: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    use ed25519_dalek::Signer;
    ed25519_dalek::SigningKey::from_bytes(seed).sign(msg).to_bytes()
}
pub fn ed_pub(seed: &[u8; 32]) -> [u8; 32] {
    ed25519_dalek::SigningKey::from_bytes(seed).verifying_key().to_bytes()
}
pub fn ed_verify(pk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    use ed25519_dalek::Verifier;
    let Ok(k) = ed25519_dalek::VerifyingKey::from_bytes(pk) else { return false };
    k.verify(msg, &ed25519_dalek::Signature::from_bytes(sig)).is_ok()
}
pub fn ed_verify_strict(pk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let Ok(k) = ed25519_dalek::VerifyingKey::from_bytes(pk) else { return false };
    k.verify_strict(msg, &ed25519_dalek::Signature::from_bytes(sig)).is_ok()
}

// ---------------------------------------------------------------- ML-KEM-768

pub mod kem {
    use ml_kem::kem::{Decapsulate, DecapsulationKey, EncapsulationKey};
    use ml_kem::{B32, EncapsulateDeterministic, Encoded, EncodedSizeUser, KemCore, MlKem768, MlKem768Params};

    pub struct Dk(DecapsulationKey<MlKem768Params>);

    pub fn keygen(seed: &[u8; 64]) -> (Dk, Vec<u8>) {
        let d: B32 = B32::try_from(&seed[..32]).unwrap();
        let z: B32 = B32::try_from(&seed[32..]).unwrap();
        let (dk, ek) = MlKem768::generate_deterministic(&d, &z);
        (Dk(dk), ek.as_bytes().to_vec())
    }
    pub fn encaps(ek: &[u8], m: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
        let e = Encoded::<EncapsulationKey<MlKem768Params>>::try_from(ek).unwrap();
        let e = EncapsulationKey::<MlKem768Params>::from_bytes(&e);
        let (ct, ss) = e.encapsulate_deterministic(&B32::from(*m)).unwrap();
        (ss.to_vec(), ct.to_vec())
    }
    impl Dk {
        pub fn decaps(&self, ct: &[u8]) -> Vec<u8> {
            let c = ml_kem::Ciphertext::<MlKem768>::try_from(ct).unwrap();
            self.0.decapsulate(&c).unwrap().to_vec()
        }
        pub fn bytes(&self) -> Vec<u8> {
            self.0.as_bytes().to_vec()
        }
    }
    /// every 12-bit coefficient below q (FIPS 203 7.2 modulus check)
    pub fn ek_canonical(ek: &[u8]) -> bool {
        ek.len() == 1184
            && ek[..1152].chunks(3).all(|c| {
                let a = c[0] as u16 | (c[1] as u16 & 15) << 8;
                let b = (c[1] >> 4) as u16 | (c[2] as u16) << 4;
                a < 3329 && b < 3329
            })
    }
}

// ---------------------------------------------------------------- RSA

pub const DIGEST_INFO: [&[u8]; 3] = [
    &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
    &[0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30],
    &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
];

pub fn emsa_pkcs1(alg: u8, msg: &[u8], len: usize) -> Vec<u8> {
    let h = sha(alg, msg);
    let t = DIGEST_INFO[alg as usize % 3];
    let mut v = vec![0, 1];
    v.resize(len - t.len() - h.len() - 1, 0xff);
    v.push(0);
    v.extend_from_slice(t);
    v.extend_from_slice(&h);
    v
}

pub fn mgf1(alg: u8, seed: &[u8], n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut c = 0u32;
    while v.len() < n {
        let mut s = seed.to_vec();
        s.extend(c.to_be_bytes());
        v.extend(sha(alg, &s));
        c += 1;
    }
    v.truncate(n);
    v
}

/// EMSA-PSS-ENCODE with a given salt
pub fn emsa_pss(alg: u8, msg: &[u8], salt: &[u8], bits: usize) -> Vec<u8> {
    let em_bits = bits - 1;
    let em_len = em_bits.div_ceil(8);
    let mut m = vec![0; 8];
    m.extend(sha(alg, msg));
    m.extend_from_slice(salt);
    let h = sha(alg, &m);
    let db_len = em_len - h.len() - 1;
    let mut db = vec![0u8; db_len - salt.len() - 1];
    db.push(1);
    db.extend_from_slice(salt);
    let mask = mgf1(alg, &h, db_len);
    for (a, b) in db.iter_mut().zip(mask) {
        *a ^= b;
    }
    db[0] &= 0xff >> (8 * em_len - em_bits);
    db.extend(h);
    db.push(0xbc);
    db
}

/// EMSA-PSS-VERIFY; returns the salt
pub fn pss_verify(alg: u8, msg: &[u8], em: &[u8], bits: usize, slen: usize) -> Option<Vec<u8>> {
    let em_bits = bits - 1;
    let em_len = em_bits.div_ceil(8);
    let hl = [32, 48, 64][alg as usize % 3];
    if em.len() != em_len || em_len < hl + slen + 2 || em[em_len - 1] != 0xbc {
        return None;
    }
    let db_len = em_len - hl - 1;
    let (mdb, rest) = em.split_at(db_len);
    let h = &rest[..hl];
    let top = 0xffu8 >> (8 * em_len - em_bits);
    if mdb[0] & !top != 0 {
        return None;
    }
    let mut db: Vec<u8> = mdb.iter().zip(mgf1(alg, h, db_len)).map(|(a, b)| a ^ b).collect();
    db[0] &= top;
    let ps = db_len - slen - 1;
    if db[..ps].iter().any(|b| *b != 0) || db[ps] != 1 {
        return None;
    }
    let salt = db[ps + 1..].to_vec();
    let mut m = vec![0; 8];
    m.extend(sha(alg, msg));
    m.extend_from_slice(&salt);
    if sha(alg, &m) == h { Some(salt) } else { None }
}

#[derive(Clone, Debug)]
pub struct RsaPub {
    pub n: BigUint,
    pub e: BigUint,
}
impl RsaPub {
    pub fn bits(&self) -> usize {
        self.n.bits() as usize
    }
    pub fn len(&self) -> usize {
        self.bits().div_ceil(8)
    }
    /// s^e mod n as a full-length string; None when the signature is not a canonical representative
    pub fn open(&self, sig: &[u8]) -> Option<Vec<u8>> {
        if sig.len() != self.len() {
            return None;
        }
        let s = big(sig);
        if s >= self.n {
            return None;
        }
        Some(be(&s.modpow(&self.e, &self.n), self.len()))
    }
    pub fn verify_pkcs1(&self, alg: u8, msg: &[u8], sig: &[u8]) -> bool {
        self.open(sig).is_some_and(|m| m == emsa_pkcs1(alg, msg, self.len()))
    }
    pub fn verify_pss(&self, alg: u8, msg: &[u8], sig: &[u8]) -> Option<Vec<u8>> {
        let m = self.open(sig)?;
        let em_len = (self.bits() - 1).div_ceil(8);
        let (lead, em) = m.split_at(m.len() - em_len);
        if lead.iter().any(|b| *b != 0) {
            return None;
        }
        pss_verify(alg, msg, em, self.bits(), [32, 48, 64][alg as usize % 3])
    }
    pub fn verify(&self, pss: bool, alg: u8, msg: &[u8], sig: &[u8]) -> bool {
        if pss { self.verify_pss(alg, msg, sig).is_some() } else { self.verify_pkcs1(alg, msg, sig) }
    }
}

#[derive(Clone, Debug)]
pub struct RsaPriv {
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
    pub p: BigUint,
    pub q: BigUint,
    pub dp: BigUint,
    pub dq: BigUint,
    pub qinv: BigUint,
}
impl RsaPriv {
    pub fn from_pkcs1(der: &[u8]) -> Option<Self> {
        let (t, body, rest) = der_next(der)?;
        if t != 0x30 || !rest.is_empty() {
            return None;
        }
        let mut v = vec![];
        let mut r = body;
        while !r.is_empty() {
            let (t, x, rr) = der_next(r)?;
            if t != 2 {
                return None;
            }
            v.push(der_uint(x)?);
            r = rr;
        }
        if v.len() != 9 {
            return None;
        }
        let mut i = v.into_iter().skip(1);
        let mut nx = || i.next().unwrap();
        Some(RsaPriv { n: nx(), e: nx(), d: nx(), p: nx(), q: nx(), dp: nx(), dq: nx(), qinv: nx() })
    }
    pub fn public(&self) -> RsaPub {
        RsaPub { n: self.n.clone(), e: self.e.clone() }
    }
    /// m^d mod n by CRT
    pub fn raw(&self, m: &BigUint) -> BigUint {
        let m1 = m.modpow(&self.dp, &self.p);
        let m2 = m.modpow(&self.dq, &self.q);
        let m2p = &m2 % &self.p;
        let diff = if m1 >= m2p { &m1 - &m2p } else { &m1 + &self.p - &m2p };
        let h = (diff * &self.qinv) % &self.p;
        m2 + h * &self.q
    }
}

/// Baillie-PSW-like: many Miller-Rabin rounds with fixed bases
pub fn is_prime(n: &BigUint) -> bool {
    let one = BigUint::from(1u32);
    let two = BigUint::from(2u32);
    if *n < two {
        return false;
    }
    for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if (n % p) == BigUint::from(0u32) {
            return *n == BigUint::from(p);
        }
    }
    let n1 = n - &one;
    let s = n1.trailing_zeros().unwrap();
    let d = &n1 >> s;
    'outer: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = BigUint::from(a).modpow(&d, n);
        if x == one || x == n1 {
            continue;
        }
        for _ in 1..s {
            x = x.modpow(&two, n);
            if x == n1 {
                continue 'outer;
            }
        }
        return false;
    }
    true
}
