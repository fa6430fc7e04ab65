//! A catalogue of operations over a shared world of keys and objects; used by the scenarios that quantify over
//! "every operation" (entropy failure, threads, CPU models, register hygiene).

use crate::rng::{Rng, expand};
use crate::{env, refs};
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::{self, Hash, HashContext, hmac::Hmac};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use rustls::crypto::{CryptoProvider, SupportedKxGroup};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const RSA2048: &[u8] = include_bytes!("../keys/rsa2048.der");
pub const RSA3072: &[u8] = include_bytes!("../keys/rsa3072.der");
pub const RSA4096: &[u8] = include_bytes!("../keys/rsa4096.der");
pub const RSA6144: &[u8] = include_bytes!("../keys/rsa6144.der");
pub const RSA8192: &[u8] = include_bytes!("../keys/rsa8192.der");

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// seal, then open (with a corrupted tag when `bad`)
    Aead { alg: u8, nonce: u32, aad: u32, len: u32, bad: bool },
    Hash { alg: u8, len: u32, seed: u32, cut: u32 },
    SharedHash { alg: u8, len: u32, seed: u32 },
    Hmac { alg: u8, len: u32, seed: u32 },
    Sha3 { alg: u8, len: u32, seed: u32 },
    Shake { alg: u8, len: u32, out: u32, cut: u32, seed: u32 },
    EcdsaSign { curve: u8, hash: u8, msg: u32, asn1: bool },
    EcdsaVerify { curve: u8, hash: u8, msg: u32, bad: bool },
    RsaSign { key: u8, pss: bool, hash: u8, msg: u32 },
    RsaVerify { key: u8, pss: bool, hash: u8, msg: u32, bad: bool },
    EdSign { msg: u32 },
    EdVerify { msg: u32, bad: bool },
    /// ephemeral agreement against a fixed peer
    Agree { kind: u8, peer: u32 },
    /// static agreement with the shared key
    Static { kind: u8, peer: u32 },
    KeyGen { kind: u8 },
    MlkemRound { m: u32 },
    Encaps,
    DecapsShared { ct: u32 },
    Fill { len: u16 },
    Export { kind: u8 },
    Kx { group: u8, server: bool },
    ProviderSign { key: u8, msg: u32, scheme: u8 },
    ProviderVerify { alg: u8, msg: u32, bad: bool },
    ProviderHash { alg: u8, len: u32, seed: u32 },
    Record { suite: u8, len: u16, seq: u32, bad: bool },
    TicketRound { len: u16 },
    /// the provider's key derivation, with an expander all share
    Kdf { suite: u8, seed: u32, len: u16 },
    /// a ticket issued before the run began
    OpenTicket { t: u8, cut: u16, bad: bool },
    EncapsShared,
    /// the shared static key with a shared public key
    StaticShared { kind: u8, peer: u8 },
    /// a signer made before the run began
    SharedSigner { key: u8, msg: u32 },
    /// a hash computation begun before the run began, continued on forks of it
    ForkHash { alg: u8, len: u32, seed: u32 },
    LoadKey { kind: u8, bad: bool, msg: u32 },
}

pub type Out = Result<Vec<u8>, String>;

pub fn gen_op(r: &mut Rng) -> Op {
    match r.below(34) {
        0 | 1 => Op::Aead { alg: r.below(4) as u8, nonce: r.seed(), aad: r.len(16, 80) as u32, len: r.len(16, 700) as u32, bad: r.chance(1, 4) },
        2 => Op::Hash { alg: r.below(3) as u8, len: r.len(64, 400) as u32, seed: r.seed(), cut: r.below(200) as u32 },
        3 => Op::SharedHash { alg: r.below(3) as u8, len: r.len(64, 300) as u32, seed: r.seed() },
        4 => Op::Hmac { alg: r.below(3) as u8, len: r.len(64, 300) as u32, seed: r.seed() },
        5 => Op::Sha3 { alg: r.below(2) as u8, len: r.len(136, 400) as u32, seed: r.seed() },
        6 => Op::Shake { alg: r.below(2) as u8, len: r.len(136, 300) as u32, out: r.len(136, 400) as u32, cut: r.below(170) as u32, seed: r.seed() },
        7 | 8 => Op::EcdsaSign { curve: r.below(2) as u8, hash: r.below(3) as u8, msg: r.seed(), asn1: r.chance(1, 2) },
        9 => Op::EcdsaVerify { curve: r.below(2) as u8, hash: r.below(3) as u8, msg: r.seed(), bad: r.chance(1, 3) },
        10 | 11 => Op::RsaSign { key: r.below(2) as u8, pss: r.chance(1, 2), hash: r.below(3) as u8, msg: r.seed() },
        12 => Op::RsaVerify { key: r.below(2) as u8, pss: r.chance(1, 2), hash: r.below(3) as u8, msg: r.seed(), bad: r.chance(1, 3) },
        13 => Op::EdSign { msg: r.seed() },
        14 => Op::EdVerify { msg: r.seed(), bad: r.chance(1, 3) },
        15 => Op::Agree { kind: r.below(3) as u8, peer: r.seed() },
        16 => Op::Static { kind: r.below(3) as u8, peer: r.seed() },
        17 => Op::KeyGen { kind: r.below(5) as u8 },
        18 => {
            if r.chance(1, 2) {
                Op::MlkemRound { m: r.seed() }
            } else {
                Op::Encaps
            }
        }
        19 => Op::DecapsShared { ct: r.seed() },
        20 => Op::Fill { len: r.below(100) as u16 },
        21 => Op::Export { kind: r.below(10) as u8 },
        22 => Op::Kx { group: r.below(4) as u8, server: r.chance(1, 2) },
        23 => Op::ProviderSign { key: r.below(4) as u8, msg: r.seed(), scheme: r.below(6) as u8 },
        24..=26 => Op::ProviderVerify { alg: r.below(13) as u8, msg: r.seed(), bad: r.chance(1, 3) },
        27 => {
            if r.chance(1, 2) {
                Op::ProviderHash { alg: r.below(2) as u8, len: r.len(64, 300) as u32, seed: r.seed() }
            } else {
                Op::TicketRound { len: 1 + r.below(300) as u16 }
            }
        }
        29 => Op::Kdf { suite: r.below(9) as u8, seed: r.seed(), len: r.len(32, 200) as u16 },
        30 => Op::OpenTicket { t: r.below(4) as u8, cut: if r.chance(1, 6) { r.below(200) as u16 } else { 0 }, bad: r.chance(1, 4) },
        31 => {
            if r.chance(1, 3) {
                Op::EncapsShared
            } else {
                Op::StaticShared { kind: r.below(3) as u8, peer: r.below(2) as u8 }
            }
        }
        32 => Op::SharedSigner { key: r.below(9) as u8, msg: r.seed() },
        33 => {
            if r.chance(1, 2) {
                Op::ForkHash { alg: r.below(2) as u8, len: r.len(64, 300) as u32, seed: r.seed() }
            } else {
                Op::LoadKey { kind: r.below(12) as u8, bad: r.chance(1, 4), msg: r.seed() }
            }
        }
        _ => Op::Record { suite: r.below(9) as u8, len: r.len(64, 600) as u16, seq: r.below(1 << 20) as u32, bad: r.chance(1, 4) },
    }
}

impl Op {
    /// the same operation on another input
    pub fn vary(&self, r: &mut Rng) -> Op {
        let mut o = self.clone();
        match &mut o {
            Op::Aead { nonce, .. } => *nonce = r.seed(),
            Op::Hash { seed, .. } | Op::SharedHash { seed, .. } | Op::Hmac { seed, .. } | Op::Sha3 { seed, .. } | Op::Shake { seed, .. } | Op::ProviderHash { seed, .. } | Op::Kdf { seed, .. } | Op::ForkHash { seed, .. } => *seed = r.seed(),
            Op::EcdsaSign { msg, .. } | Op::EcdsaVerify { msg, .. } | Op::RsaSign { msg, .. } | Op::RsaVerify { msg, .. } | Op::EdSign { msg } | Op::EdVerify { msg, .. } => *msg = r.seed(),
            Op::ProviderSign { msg, .. } | Op::ProviderVerify { msg, .. } | Op::SharedSigner { msg, .. } | Op::LoadKey { msg, .. } => *msg = r.seed(),
            Op::Agree { peer, .. } | Op::Static { peer, .. } => *peer = r.seed(),
            Op::MlkemRound { m } => *m = r.seed(),
            Op::DecapsShared { ct } => *ct = r.seed(),
            Op::Record { seq, .. } => *seq = r.below(1 << 20) as u32,
            Op::TicketRound { len } => *len = 1 + r.below(300) as u16,
            Op::OpenTicket { t, .. } => *t = r.below(4) as u8,
            Op::StaticShared { peer, .. } => *peer = r.below(2) as u8,
            Op::EncapsShared | Op::KeyGen { .. } | Op::Encaps | Op::Fill { .. } | Op::Export { .. } | Op::Kx { .. } => {}
        }
        o
    }
    pub fn name(&self) -> String {
        let s = format!("{self:?}");
        s.split([' ', '{', '(']).next().unwrap().to_string()
    }
    /// whether the operation must draw entropy to succeed
    pub fn draws(&self) -> bool {
        match self {
            Op::EcdsaSign { .. } | Op::Agree { .. } | Op::KeyGen { .. } | Op::Encaps | Op::EncapsShared | Op::Kx { .. } | Op::TicketRound { .. } => true,
            // three PSS, three PKCS#1, two ECDSA, Ed25519
            Op::SharedSigner { key, .. } => matches!(key % 9, 0..=2 | 6 | 7),
            Op::Fill { len } => *len > 0,
            Op::RsaSign { pss, .. } => *pss,
            Op::ProviderSign { key, scheme, .. } => match key % 4 {
                0 => *scheme % 6 < 3,
                1 | 2 => true,
                _ => false,
            },
            _ => false,
        }
    }
}

pub enum AeadKey {
    Gcm(AesGcm),
    Cc(ChaCha20Poly1305),
    Xcc(XChaCha20Poly1305),
}

impl AeadKey {
    pub fn new(alg: u8, key: &[u8]) -> Self {
        match alg % 4 {
            0 | 1 => AeadKey::Gcm(AesGcm::new(key)),
            2 => AeadKey::Cc(ChaCha20Poly1305::new(key.try_into().unwrap())),
            _ => AeadKey::Xcc(XChaCha20Poly1305::new(key.try_into().unwrap())),
        }
    }
    pub fn seal(&self, nonce: &[u8], aad: &[u8], io: &mut [u8], tag: &mut [u8; 16]) {
        match self {
            AeadKey::Gcm(k) => k.encrypt(nonce.try_into().unwrap(), aad, io, tag),
            AeadKey::Cc(k) => k.encrypt(nonce.try_into().unwrap(), aad, io, tag),
            AeadKey::Xcc(k) => k.encrypt(nonce.try_into().unwrap(), aad, io, tag),
        }
    }
    pub fn open(&self, nonce: &[u8], aad: &[u8], io: &mut [u8], tag: &[u8]) -> Result<(), graviola::Error> {
        match self {
            AeadKey::Gcm(k) => k.decrypt(nonce.try_into().unwrap(), aad, io, tag),
            AeadKey::Cc(k) => k.decrypt(nonce.try_into().unwrap(), aad, io, tag),
            AeadKey::Xcc(k) => k.decrypt(nonce.try_into().unwrap(), aad, io, tag),
        }
    }
}

pub enum Ecdsa {
    P256(ecdsa::SigningKey<ecdsa::P256>),
    P384(ecdsa::SigningKey<ecdsa::P384>),
}
pub enum EcdsaV {
    P256(ecdsa::VerifyingKey<ecdsa::P256>),
    P384(ecdsa::VerifyingKey<ecdsa::P384>),
}

macro_rules! by_hash {
    ($alg:expr, $H:ident => $e:expr) => {
        match $alg % 3 {
            0 => {
                type $H = hashing::Sha256;
                $e
            }
            1 => {
                type $H = hashing::Sha384;
                $e
            }
            _ => {
                type $H = hashing::Sha512;
                $e
            }
        }
    };
}
#[allow(unused_imports)]
pub(crate) use by_hash;

impl Ecdsa {
    pub fn generate(curve: u8) -> Result<Self, graviola::Error> {
        Ok(if curve == 0 { Ecdsa::P256(ecdsa::SigningKey::generate()?) } else { Ecdsa::P384(ecdsa::SigningKey::generate()?) })
    }
    pub fn from_scalar(curve: u8, d: &[u8]) -> Result<Self, graviola::Error> {
        Ok(if curve == 0 {
            Ecdsa::P256(ecdsa::SigningKey { private_key: p256::StaticPrivateKey::from_bytes(d)? })
        } else {
            Ecdsa::P384(ecdsa::SigningKey { private_key: p384::StaticPrivateKey::from_bytes(d)? })
        })
    }
    pub fn scalar(&self) -> Vec<u8> {
        match self {
            Ecdsa::P256(k) => k.private_key.as_bytes().to_vec(),
            Ecdsa::P384(k) => k.private_key.as_bytes().to_vec(),
        }
    }
    pub fn public(&self) -> Vec<u8> {
        match self {
            Ecdsa::P256(k) => k.private_key.public_key_uncompressed().to_vec(),
            Ecdsa::P384(k) => k.private_key.public_key_uncompressed().to_vec(),
        }
    }
    pub fn sign(&self, hash: u8, msg: &[&[u8]], asn1: bool, out: &mut [u8]) -> Result<Vec<u8>, graviola::Error> {
        match self {
            Ecdsa::P256(k) => by_hash!(hash, H => if asn1 { k.sign_asn1::<H>(msg, out) } else { k.sign::<H>(msg, out) }).map(|s| s.to_vec()),
            Ecdsa::P384(k) => by_hash!(hash, H => if asn1 { k.sign_asn1::<H>(msg, out) } else { k.sign::<H>(msg, out) }).map(|s| s.to_vec()),
        }
    }
}
impl EcdsaV {
    pub fn new(curve: u8, p: &[u8]) -> Result<Self, graviola::Error> {
        Ok(if curve == 0 {
            EcdsaV::P256(ecdsa::VerifyingKey::from_x962_uncompressed(p)?)
        } else {
            EcdsaV::P384(ecdsa::VerifyingKey::from_x962_uncompressed(p)?)
        })
    }
    pub fn verify(&self, hash: u8, msg: &[&[u8]], sig: &[u8], asn1: bool) -> Result<(), graviola::Error> {
        match self {
            EcdsaV::P256(k) => by_hash!(hash, H => if asn1 { k.verify_asn1::<H>(msg, sig) } else { k.verify::<H>(msg, sig) }),
            EcdsaV::P384(k) => by_hash!(hash, H => if asn1 { k.verify_asn1::<H>(msg, sig) } else { k.verify::<H>(msg, sig) }),
        }
    }
}

pub fn rsa_sign<'a>(k: &rsa::SigningKey, pss: bool, hash: u8, msg: &[u8], buf: &'a mut [u8]) -> Result<&'a [u8], graviola::Error> {
    match (pss, hash % 3) {
        (false, 0) => k.sign_pkcs1_sha256(buf, msg),
        (false, 1) => k.sign_pkcs1_sha384(buf, msg),
        (false, _) => k.sign_pkcs1_sha512(buf, msg),
        (true, 0) => k.sign_pss_sha256(buf, msg),
        (true, 1) => k.sign_pss_sha384(buf, msg),
        (true, _) => k.sign_pss_sha512(buf, msg),
    }
}
pub fn rsa_verify(k: &rsa::VerifyingKey, pss: bool, hash: u8, msg: &[u8], sig: &[u8]) -> Result<(), graviola::Error> {
    match (pss, hash % 3) {
        (false, 0) => k.verify_pkcs1_sha256(sig, msg),
        (false, 1) => k.verify_pkcs1_sha384(sig, msg),
        (false, _) => k.verify_pkcs1_sha512(sig, msg),
        (true, 0) => k.verify_pss_sha256(sig, msg),
        (true, 1) => k.verify_pss_sha384(sig, msg),
        (true, _) => k.verify_pss_sha512(sig, msg),
    }
}

pub fn ghash(alg: u8, d: &[u8]) -> Vec<u8> {
    by_hash!(alg, H => H::hash(d).as_ref().to_vec())
}

/// One node's long-lived objects.
pub struct World {
    pub aead: Vec<AeadKey>,
    pub aead_keys: Vec<Vec<u8>>,
    pub rsa: Vec<rsa::SigningKey>,
    pub rsa_pub: Vec<rsa::VerifyingKey>,
    pub rsa_ref: Vec<refs::RsaPriv>,
    pub ec: Vec<Ecdsa>,
    pub ec_scalar: Vec<Vec<u8>>,
    pub ecv: Vec<EcdsaV>,
    pub ed: eddsa::Ed25519SigningKey,
    pub ed_seed: [u8; 32],
    pub edv: eddsa::Ed25519VerifyingKey,
    pub x: x25519::StaticPrivateKey,
    pub x_sk: [u8; 32],
    pub p256: p256::StaticPrivateKey,
    pub p384: p384::StaticPrivateKey,
    pub dk: mlkem768::DecapKey,
    pub dk_seed: [u8; 64],
    pub h256: hashing::sha2::Sha256Context,
    pub h384: hashing::sha2::Sha384Context,
    pub h512: hashing::sha2::Sha512Context,
    pub hprefix: Vec<u8>,
    pub mac: (Hmac<hashing::Sha256>, Hmac<hashing::Sha384>, Hmac<hashing::Sha512>),
    pub mac_key: Vec<u8>,
    pub provider: CryptoProvider,
    pub signers: Vec<Arc<dyn rustls::sign::SigningKey>>,
    pub ticketer: Arc<dyn rustls::server::ProducesTickets>,
    pub tickets: Vec<Vec<u8>>,
    pub hkdf: Vec<Box<dyn rustls::crypto::tls13::HkdfExpander>>,
    pub ek: mlkem768::EncapKey,
    pub peers: Vec<(x25519::PublicKey, p256::PublicKey, p384::PublicKey)>,
    pub boxed: Vec<Box<dyn rustls::sign::Signer>>,
    pub forks: Vec<Box<dyn rustls::crypto::hash::Context>>,
    /// (private, public) encodings of the keys above
    pub ders: Vec<(Vec<u8>, Vec<u8>)>,
}

pub fn valid_scalar(curve: u8, r: &mut Rng) -> Vec<u8> {
    loop {
        let b = r.bytes(refs::clen(curve));
        if refs::ec_pub(curve, &b).is_some() {
            return b;
        }
    }
}

impl World {
    /// A deterministic function of the seed (and of the CPU model in force).
    pub fn new(seed: u32) -> World {
        env::with_entropy(&env::EntropyPlan::good(seed), || Self::build(seed)).0
    }

    fn build(seed: u32) -> World {
        let mut r = Rng::new(seed as u64 ^ 0x776f_726c_6400);
        let aead_keys: Vec<Vec<u8>> = (0..4u8).map(|a| r.bytes(refs::aead_key_len(a))).collect();
        let aead = (0..4u8).map(|a| AeadKey::new(a, &aead_keys[a as usize])).collect();
        let k = &crate::props::c05::KEYS;
        let ders = [k[*r.pick(&[0, 0, 0, 5, 6, 7, 8, 12, 13, 15, 16, 17, 18])], k[*r.pick(&[1, 1, 9, 10, 11])]];
        let rsa: Vec<_> = ders.iter().map(|d| rsa::SigningKey::from_pkcs1_der(d).unwrap()).collect();
        let rsa_ref = ders.iter().map(|d| refs::RsaPriv::from_pkcs1(d).unwrap()).collect();
        let rsa_pub = rsa.iter().map(|k| k.public_key()).collect();
        let ec_scalar: Vec<Vec<u8>> = (0..2u8).map(|c| valid_scalar(c, &mut r)).collect();
        let ec: Vec<_> = (0..2u8).map(|c| Ecdsa::from_scalar(c, &ec_scalar[c as usize]).unwrap()).collect();
        let ecv = (0..2u8).map(|c| EcdsaV::new(c, &ec[c as usize].public()).unwrap()).collect();
        let ed_seed: [u8; 32] = r.arr();
        let ed = eddsa::Ed25519SigningKey::from_bytes(&ed_seed).unwrap();
        let edv = ed.public_key();
        let x_sk: [u8; 32] = r.arr();
        let dk_seed: [u8; 64] = r.arr();
        let hprefix = r.bytes(75);
        let mut h256 = hashing::sha2::Sha256Context::new();
        h256.update(&hprefix);
        let mut h384 = hashing::sha2::Sha384Context::new();
        h384.update(&hprefix);
        let mut h512 = hashing::sha2::Sha512Context::new();
        h512.update(&hprefix);
        let mac_key = r.bytes(40);
        let provider = rustls_graviola::default_provider();
        let load = |k: rustls::pki_types::PrivateKeyDer<'static>| provider.key_provider.load_private_key(k).unwrap();
        let pk8 = |f: &dyn Fn(&mut [u8]) -> usize| {
            let mut b = vec![0; 8192];
            let n = f(&mut b);
            b.truncate(n);
            rustls::pki_types::PrivateKeyDer::Pkcs8(b.into())
        };
        let mut signers = vec![load(rustls::pki_types::PrivateKeyDer::Pkcs1(ders[0].to_vec().into()))];
        for k in &ec {
            signers.push(match k {
                Ecdsa::P256(k) => load(pk8(&|b| k.to_pkcs8_der(b).unwrap().len())),
                Ecdsa::P384(k) => load(pk8(&|b| k.to_pkcs8_der(b).unwrap().len())),
            });
        }
        signers.push(load(pk8(&|b| ed.to_pkcs8_der(b).unwrap().len())));
        let ticketer = rustls_graviola::Ticketer::new().unwrap();
        let tickets = (0..4).map(|i| ticketer.encrypt(&r.bytes(20 + 70 * i)).unwrap()).collect();
        let hkdf = provider
            .cipher_suites
            .iter()
            .map(|s| match s {
                rustls::SupportedCipherSuite::Tls13(c) => c.hkdf_provider.extract_from_secret(Some(&hprefix[..32]), &hprefix),
                _ => tls13(&provider, 0).hkdf_provider.extract_from_zero_ikm(Some(&hprefix)),
            })
            .collect();
        use rustls::SignatureScheme as S;
        let boxed = [
            (0, S::RSA_PSS_SHA256),
            (0, S::RSA_PSS_SHA384),
            (0, S::RSA_PSS_SHA512),
            (0, S::RSA_PKCS1_SHA256),
            (0, S::RSA_PKCS1_SHA384),
            (0, S::RSA_PKCS1_SHA512),
            (1, S::ECDSA_NISTP256_SHA256),
            (2, S::ECDSA_NISTP384_SHA384),
            (3, S::ED25519),
        ]
        .map(|(i, s)| signers[i].choose_scheme(&[s]).unwrap())
        .into();
        let forks = (0..2)
            .map(|i| {
                let mut c = suite_hash(&provider.cipher_suites[i]).start();
                c.update(&hprefix);
                c
            })
            .collect();
        let peers = (0..2)
            .map(|i| {
                let p = |k| peer_pub(k, seed.wrapping_add(i)).1;
                (
                    x25519::PublicKey::try_from_slice(&p(0)).unwrap(),
                    p256::PublicKey::from_x962_uncompressed(&p(1)).unwrap(),
                    p384::PublicKey::from_x962_uncompressed(&p(2)).unwrap(),
                )
            })
            .collect();
        let der = |f: &dyn Fn(&mut [u8]) -> usize| {
            let mut b = vec![0; 8192];
            let n = f(&mut b);
            b.truncate(n);
            b
        };
        let pubs: &Vec<rsa::VerifyingKey> = &rsa_pub;
        let (Ecdsa::P256(e2), Ecdsa::P384(e3)) = (&ec[0], &ec[1]) else { unreachable!() };
        let key_ders = vec![
            (der(&|b| rsa[0].to_pkcs1_der(b).unwrap().len()), der(&|b| pubs[0].to_pkcs1_der(b).unwrap().len())),
            (der(&|b| rsa[1].to_pkcs8_der(b).unwrap().len()), der(&|b| pubs[1].to_spki_der(b).unwrap().len())),
            (der(&|b| e2.to_pkcs8_der(b).unwrap().len()), e2.private_key.public_key_uncompressed().to_vec()),
            (der(&|b| e3.to_sec1_der(b).unwrap().len()), e3.private_key.public_key_uncompressed().to_vec()),
            (der(&|b| ed.to_pkcs8_der(b).unwrap().len()), der(&|b| edv.to_spki_der(b).unwrap().len())),
        ];
        let dk = mlkem768::DecapKey::keygen_internal(&dk_seed);
        World {
            tickets,
            hkdf,
            ek: dk.encapsulation_key(),
            peers,
            boxed,
            forks,
            ders: key_ders,
            aead,
            aead_keys,
            rsa,
            rsa_pub,
            rsa_ref,
            ed,
            edv,
            ed_seed,
            x: x25519::StaticPrivateKey::from_array(&x_sk),
            x_sk,
            p256: p256::StaticPrivateKey::from_bytes(&ec_scalar[0]).unwrap(),
            p384: p384::StaticPrivateKey::from_bytes(&ec_scalar[1]).unwrap(),
            ec,
            ec_scalar,
            ecv,
            dk,
            dk_seed,
            h256,
            h384,
            h512,
            hprefix,
            mac: (Hmac::new(&mac_key), Hmac::new(&mac_key), Hmac::new(&mac_key)),
            mac_key,
            ticketer,
            provider,
            signers,
        }
    }
}

pub fn peer_pub(kind: u8, seed: u32) -> (Vec<u8>, Vec<u8>) {
    let mut r = Rng::new(seed as u64 ^ 0x7065_6572);
    match kind % 3 {
        0 => {
            let sk: [u8; 32] = r.arr();
            (sk.to_vec(), refs::x25519_pub(sk).to_vec())
        }
        k => {
            let d = valid_scalar(k - 1, &mut r);
            let p = refs::ec_pub(k - 1, &d).unwrap();
            (d, p)
        }
    }
}

fn tls13(p: &CryptoProvider, i: usize) -> &'static rustls::Tls13CipherSuite {
    p.cipher_suites.iter().filter_map(|s| s.tls13()).nth(i).unwrap()
}

fn err<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

pub fn groups() -> &'static [&'static dyn SupportedKxGroup] {
    rustls_graviola::kx::ALL_KX_GROUPS
}

/// Execute one operation.
pub fn exec(w: &World, op: &Op) -> Out {
    match op {
        Op::Aead { alg, nonce, aad, len, bad } => {
            let a = *alg as usize % 4;
            let n = expand(*nonce, refs::aead_nonce_len(*alg));
            let ad = expand(nonce ^ 1, *aad as usize);
            let mut io = expand(nonce ^ 2, *len as usize);
            let mut tag = [0; 16];
            w.aead[a].seal(&n, &ad, &mut io, &mut tag);
            let mut out = io.clone();
            out.extend(tag);
            if *bad {
                tag[(*nonce % 16) as usize] ^= 1 << (*nonce % 8);
            }
            let r = w.aead[a].open(&n, &ad, &mut io, &tag);
            out.push(r.is_ok() as u8);
            out.extend(&io);
            Ok(out)
        }
        Op::Hash { alg, len, seed, cut } => {
            let d = expand(*seed, *len as usize);
            let c = (*cut as usize).min(d.len());
            Ok(by_hash!(alg, H => {
                let mut x = H::new();
                x.update(&d[..c]);
                x.update(&d[c..]);
                x.finish().as_ref().to_vec()
            }))
        }
        Op::SharedHash { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            Ok(match alg % 3 {
                0 => {
                    let mut c = w.h256.clone();
                    c.update(&d);
                    c.finish().to_vec()
                }
                1 => {
                    let mut c = w.h384.clone();
                    c.update(&d);
                    c.finish().to_vec()
                }
                _ => {
                    let mut c = w.h512.clone();
                    c.update(&d);
                    c.finish().to_vec()
                }
            })
        }
        Op::Hmac { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            Ok(match alg % 3 {
                0 => {
                    let mut c = w.mac.0.clone();
                    c.update(&d);
                    c.finish().as_ref().to_vec()
                }
                1 => {
                    let mut c = w.mac.1.clone();
                    c.update(&d);
                    c.finish().as_ref().to_vec()
                }
                _ => {
                    let mut c = w.mac.2.clone();
                    c.update(&d);
                    c.finish().as_ref().to_vec()
                }
            })
        }
        Op::Sha3 { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            Ok(if alg % 2 == 0 {
                let mut c = hashing::sha3::Sha3_256Context::new();
                c.update(&d);
                c.finish().to_vec()
            } else {
                let mut c = hashing::sha3::Sha3_512Context::new();
                c.update(&d);
                c.finish().to_vec()
            })
        }
        Op::Shake { alg, len, out, cut, seed } => {
            let d = expand(*seed, *len as usize);
            let mut o = vec![0; *out as usize];
            let c = (*cut as usize).min(o.len());
            let (a, b) = o.split_at_mut(c);
            if alg % 2 == 0 {
                let mut x = hashing::sha3::Shake128::new(&[&d]);
                x.read(a);
                x.read(b);
            } else {
                let mut x = hashing::sha3::Shake256::new(&[&d]);
                x.read(a);
                x.read(b);
            }
            Ok(o)
        }
        Op::EcdsaSign { curve, hash, msg, asn1 } => {
            let m = expand(*msg, (*msg % 97) as usize);
            let mut b = [0u8; 128];
            w.ec[*curve as usize % 2].sign(*hash, &[&m], *asn1, &mut b).map_err(err)
        }
        Op::EcdsaVerify { curve, hash, msg, bad } => {
            let c = *curve % 2;
            let m = expand(*msg, (*msg % 97) as usize);
            let dg = refs::sha(*hash, &m);
            let k = refs::rfc6979_k(c, *hash, &w.ec_scalar[c as usize], &dg, b"");
            let mut s = refs::ecdsa_sign(c, &w.ec_scalar[c as usize], &k, &dg);
            if *bad {
                let n = s.len();
                s[*msg as usize % n] ^= 1 << (*msg % 7);
            }
            Ok(vec![w.ecv[c as usize].verify(*hash, &[&m], &s, false).is_ok() as u8])
        }
        Op::RsaSign { key, pss, hash, msg } => {
            let k = &w.rsa[*key as usize % 2];
            let m = expand(*msg, (*msg % 97) as usize);
            let mut b = vec![0u8; 1024];
            rsa_sign(k, *pss, *hash, &m, &mut b).map(|s| s.to_vec()).map_err(err)
        }
        Op::RsaVerify { key, pss, hash, msg, bad } => {
            let i = *key as usize % 2;
            let m = expand(*msg, (*msg % 97) as usize);
            let rk = &w.rsa_ref[i];
            let em = if *pss {
                refs::emsa_pss(*hash, &m, &expand(*msg, [32, 48, 64][*hash as usize % 3]), rk.n.bits() as usize)
            } else {
                refs::emsa_pkcs1(*hash, &m, rk.public().len())
            };
            let mut s = refs::be(&rk.raw(&refs::big(&em)), rk.public().len());
            if *bad {
                let n = s.len();
                s[*msg as usize % n] ^= 1 << (*msg % 7);
            }
            Ok(vec![rsa_verify(&w.rsa_pub[i], *pss, *hash, &m, &s).is_ok() as u8])
        }
        Op::EdSign { msg } => Ok(w.ed.sign(&expand(*msg, (*msg % 150) as usize)).to_vec()),
        Op::EdVerify { msg, bad } => {
            let m = expand(*msg, (*msg % 150) as usize);
            let mut s = refs::ed_sign(&w.ed_seed, &m);
            if *bad {
                s[(*msg % 64) as usize] ^= 1 << (*msg % 7);
            }
            Ok(vec![w.edv.verify(&s, &m).is_ok() as u8])
        }
        Op::Agree { kind, peer } => {
            let (_, pp) = peer_pub(*kind, *peer);
            match kind % 3 {
                0 => {
                    let k = x25519::PrivateKey::new_random().map_err(err)?;
                    let mut o = k.public_key().as_bytes().to_vec();
                    let p = x25519::PublicKey::try_from_slice(&pp).map_err(err)?;
                    o.extend(k.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
                1 => {
                    let k = p256::PrivateKey::new_random().map_err(err)?;
                    let mut o = k.public_key_uncompressed().to_vec();
                    let p = p256::PublicKey::from_x962_uncompressed(&pp).map_err(err)?;
                    o.extend(k.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
                _ => {
                    let k = p384::PrivateKey::new_random().map_err(err)?;
                    let mut o = k.public_key_uncompressed().to_vec();
                    let p = p384::PublicKey::from_x962_uncompressed(&pp).map_err(err)?;
                    o.extend(k.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
            }
        }
        Op::Static { kind, peer } => {
            let (_, pp) = peer_pub(*kind, *peer);
            match kind % 3 {
                0 => {
                    let p = x25519::PublicKey::try_from_slice(&pp).map_err(err)?;
                    let mut o = w.x.public_key().as_bytes().to_vec();
                    o.extend(w.x.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
                1 => {
                    let p = p256::PublicKey::from_x962_uncompressed(&pp).map_err(err)?;
                    let mut o = w.p256.public_key_uncompressed().to_vec();
                    o.extend(w.p256.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
                _ => {
                    let p = p384::PublicKey::from_x962_uncompressed(&pp).map_err(err)?;
                    let mut o = w.p384.public_key_uncompressed().to_vec();
                    o.extend(w.p384.diffie_hellman(&p).map_err(err)?.0);
                    Ok(o)
                }
            }
        }
        Op::KeyGen { kind } => Ok(match kind % 5 {
            0 => Ecdsa::generate(0).map_err(err)?.scalar(),
            1 => Ecdsa::generate(1).map_err(err)?.scalar(),
            2 => eddsa::Ed25519SigningKey::generate().map_err(err)?.as_seed().to_vec(),
            3 => x25519::StaticPrivateKey::new_random().map_err(err)?.as_bytes().to_vec(),
            _ => mlkem768::DecapKey::generate().map_err(err)?.as_bytes().to_vec(),
        }),
        Op::MlkemRound { m } => {
            let ek = w.dk.encapsulation_key();
            let mut o = ek.as_bytes().to_vec();
            let mm: [u8; 32] = expand(*m, 32).try_into().unwrap();
            let (_, ct) = refs::kem::encaps(&o, &mm);
            let c: [u8; 1088] = ct.try_into().unwrap();
            o.extend(w.dk.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref());
            Ok(o)
        }
        Op::Encaps => {
            let ek = w.dk.encapsulation_key();
            let (ss, ct) = ek.encaps().map_err(err)?;
            let mut o = ss.as_ref().to_vec();
            o.extend(ct.as_ref());
            Ok(o)
        }
        Op::DecapsShared { ct } => {
            let c: [u8; 1088] = expand(*ct, 1088).try_into().unwrap();
            Ok(w.dk.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref().to_vec())
        }
        Op::Fill { len } => {
            let mut b = vec![0; *len as usize];
            graviola::random::fill(&mut b).map_err(err)?;
            Ok(b)
        }
        Op::Export { kind } => {
            let mut b = vec![0; 8192];
            let n = match kind % 10 {
                0 => w.rsa[0].to_pkcs1_der(&mut b).map_err(err)?.len(),
                1 => w.rsa[1].to_pkcs8_der(&mut b).map_err(err)?.len(),
                2 => w.rsa_pub[0].to_spki_der(&mut b).map_err(err)?.len(),
                3 => w.rsa_pub[1].to_pkcs1_der(&mut b).map_err(err)?.len(),
                4 | 5 => match &w.ec[*kind as usize % 2] {
                    Ecdsa::P256(k) => k.to_pkcs8_der(&mut b).map_err(err)?.len(),
                    Ecdsa::P384(k) => k.to_pkcs8_der(&mut b).map_err(err)?.len(),
                },
                6 => match &w.ec[0] {
                    Ecdsa::P256(k) => k.to_sec1_der(&mut b).map_err(err)?.len(),
                    Ecdsa::P384(k) => k.to_sec1_der(&mut b).map_err(err)?.len(),
                },
                7 => match &w.ec[1] {
                    Ecdsa::P256(k) => k.to_spki_der(&mut b).map_err(err)?.len(),
                    Ecdsa::P384(k) => k.to_spki_der(&mut b).map_err(err)?.len(),
                },
                8 => w.ed.to_pkcs8_der(&mut b).map_err(err)?.len(),
                _ => w.edv.to_spki_der(&mut b).map_err(err)?.len(),
            };
            b.truncate(n);
            Ok(b)
        }
        Op::Kx { group, server } => {
            let g = groups()[*group as usize % groups().len()];
            let hybrid = g.name() == rustls::NamedGroup::X25519MLKEM768;
            let kind = match g.name() {
                rustls::NamedGroup::secp256r1 => 1,
                rustls::NamedGroup::secp384r1 => 2,
                _ => 0,
            };
            let (_, pp) = peer_pub(kind, 77);
            if *server {
                let share = if hybrid {
                    let mut s = w.dk.encapsulation_key().as_bytes().to_vec();
                    s.extend(&pp);
                    s
                } else {
                    pp
                };
                let c = g.start_and_complete(&share).map_err(err)?;
                let mut o = c.pub_key.clone();
                o.extend(c.secret.secret_bytes());
                Ok(o)
            } else {
                let a = g.start().map_err(err)?;
                let mut o = a.pub_key().to_vec();
                let share = if hybrid {
                    let (_, mut ct) = refs::kem::encaps(&o[..1184], &[9; 32]);
                    ct.extend(&pp);
                    ct
                } else {
                    pp
                };
                o.extend(a.complete(&share).map_err(err)?.secret_bytes());
                Ok(o)
            }
        }
        Op::ProviderSign { key, msg, scheme } => {
            use rustls::SignatureScheme as S;
            let i = *key as usize % 4;
            let sch = match i {
                0 => [S::RSA_PSS_SHA256, S::RSA_PSS_SHA384, S::RSA_PSS_SHA512, S::RSA_PKCS1_SHA256, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA512]
                    [*scheme as usize % 6],
                1 => S::ECDSA_NISTP256_SHA256,
                2 => S::ECDSA_NISTP384_SHA384,
                _ => S::ED25519,
            };
            let s = w.signers[i].choose_scheme(&[sch]).ok_or("no signer")?;
            if s.scheme() != sch {
                return Err(format!("scheme {:?}", s.scheme()));
            }
            s.sign(&expand(*msg, (*msg % 97) as usize)).map_err(err)
        }
        Op::ProviderVerify { alg, msg, bad } => {
            let algs = w.provider.signature_verification_algorithms.all;
            let i = *alg as usize % algs.len();
            let m = expand(*msg, (*msg % 97) as usize);
            let (pk, mut sig) = provider_signature(w, i, &m, *msg);
            if *bad {
                let n = sig.len();
                sig[n - 1 - *msg as usize % 24] ^= 1 << (*msg % 7);
            }
            Ok(vec![algs[i].verify_signature(&pk, &m, &sig).is_ok() as u8])
        }
        Op::ProviderHash { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            let suites = &w.provider.cipher_suites;
            let h = suite_hash(&suites[*alg as usize % 2]);
            let mut c = h.start();
            c.update(&d);
            let f = c.fork();
            let mut o = c.fork_finish().as_ref().to_vec();
            c.update(&d);
            o.extend(f.finish().as_ref());
            o.extend(c.finish().as_ref());
            o.extend(h.hash(&d).as_ref());
            Ok(o)
        }
        Op::Record { suite, len, seq, bad } => {
            let suites = &w.provider.cipher_suites;
            let s = suites[*suite as usize % suites.len()];
            record_round(&s, &expand(*seq, 44), *seq as u64, &expand(*seq ^ 5, *len as usize), *bad)
        }
        Op::TicketRound { len } => {
            let d = expand(*len as u32 + 16 * 2 + 2, *len as usize);
            let t = w.ticketer.encrypt(&d).ok_or("no ticket")?;
            let back = w.ticketer.decrypt(&t).ok_or("ticket refused")?;
            let mut o = t[16..].to_vec();
            o.extend(back);
            Ok(o)
        }
        Op::Kdf { suite, seed, len } => {
            use rustls::crypto::tls13::OkmBlock;
            let i = *suite as usize % w.hkdf.len();
            let x = expand(*seed, 100);
            let mut o = vec![0; *len as usize];
            w.hkdf[i].expand_slice(&[&x[..7], &x[7..40], &[], &x[40..]], &mut o).map_err(|_| "too long")?;
            o.extend(w.hkdf[i].expand_block(&[&x]).as_ref());
            match &w.provider.cipher_suites[i] {
                rustls::SupportedCipherSuite::Tls13(c) => {
                    let n = w.hkdf[i].hash_len();
                    let okm = OkmBlock::new(&x[..n]);
                    o.extend(c.hkdf_provider.hmac_sign(&okm, &x).as_ref());
                    o.extend(c.hkdf_provider.expander_for_okm(&okm).expand_block(&[&x[n..]]).as_ref());
                }
                rustls::SupportedCipherSuite::Tls12(c) => {
                    let mut b = vec![0; *len as usize];
                    c.prf_provider.for_secret(&mut b, &x[..48], b"master secret", &x[48..]);
                    o.extend(b);
                }
            }
            Ok(o)
        }
        Op::OpenTicket { t, cut, bad } => {
            let mut t = w.tickets[*t as usize % w.tickets.len()].clone();
            if *cut > 0 {
                t.truncate(*cut as usize);
            }
            if *bad {
                if let Some(x) = t.last_mut() {
                    *x ^= 8;
                }
            }
            Ok(match w.ticketer.decrypt(&t) {
                Some(mut v) => {
                    v.push(1);
                    v
                }
                None => vec![0],
            })
        }
        Op::EncapsShared => {
            let (ss, ct) = w.ek.clone().encaps().map_err(err)?;
            let mut o = ss.as_ref().to_vec();
            o.extend(ct.as_ref());
            o.extend(w.ek.as_bytes());
            Ok(o)
        }
        Op::StaticShared { kind, peer } => {
            let p = &w.peers[*peer as usize % w.peers.len()];
            Ok(match kind % 3 {
                0 => w.x.diffie_hellman(&p.0).map_err(err)?.0.to_vec(),
                1 => w.p256.diffie_hellman(&p.1).map_err(err)?.0.to_vec(),
                _ => w.p384.diffie_hellman(&p.2).map_err(err)?.0.to_vec(),
            })
        }
        Op::SharedSigner { key, msg } => w.boxed[*key as usize % w.boxed.len()].sign(&expand(*msg, (*msg % 97) as usize)).map_err(err),
        Op::ForkHash { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            let c = &w.forks[*alg as usize % w.forks.len()];
            let mut f = c.fork();
            f.update(&d);
            let mut o = f.finish().as_ref().to_vec();
            o.extend(c.fork_finish().as_ref());
            Ok(o)
        }
        Op::LoadKey { kind, bad, msg } => {
            let (mut sk, mut pk) = w.ders[*kind as usize % w.ders.len()].clone();
            if *bad {
                let (n, m) = (sk.len(), pk.len());
                sk[*msg as usize % n] ^= 1 << (*msg % 7);
                pk[*msg as usize % m] ^= 1 << (*msg % 7);
            }
            let mut b = vec![0; 8192];
            Ok(match kind % 5 {
                0 => {
                    let k = rsa::SigningKey::from_pkcs1_der(&sk).map_err(err)?;
                    let mut o = k.to_pkcs8_der(&mut b).map_err(err)?.to_vec();
                    o.extend(rsa::VerifyingKey::from_pkcs1_der(&pk).map_err(err)?.to_spki_der(&mut b).map_err(err)?);
                    o
                }
                1 => rsa::SigningKey::from_pkcs8_der(&sk).map_err(err)?.to_pkcs1_der(&mut b).map_err(err)?.to_vec(),
                2 => {
                    let k = ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(&sk).map_err(err)?;
                    let mut o = k.to_sec1_der(&mut b).map_err(err)?.to_vec();
                    o.push(EcdsaV::new(0, &pk).is_ok() as u8);
                    o
                }
                3 => {
                    let k = ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(&sk).map_err(err)?;
                    let mut o = k.to_pkcs8_der(&mut b).map_err(err)?.to_vec();
                    o.push(EcdsaV::new(1, &pk).is_ok() as u8);
                    o
                }
                _ => {
                    let mut o = eddsa::Ed25519SigningKey::from_pkcs8_der(&sk).map_err(err)?.as_seed().to_vec();
                    o.extend(eddsa::Ed25519VerifyingKey::from_spki_der(&pk).map_err(err)?.as_bytes());
                    o
                }
            })
        }
    }
}

/// The operations that need no key object, without a world.
pub fn bare(op: &Op) -> Option<Out> {
    Some(match op {
        Op::Hash { alg, len, seed, cut } => {
            let d = expand(*seed, *len as usize);
            let c = (*cut as usize).min(d.len());
            Ok(by_hash!(alg, H => {
                let mut x = H::new();
                x.update(&d[..c]);
                x.update(&d[c..]);
                x.finish().as_ref().to_vec()
            }))
        }
        Op::SharedHash { alg, len, seed } => Ok(ghash(*alg, &expand(*seed, *len as usize))),
        Op::Hmac { alg, len, seed } => {
            let (k, d) = (expand(seed ^ 1, *seed as usize % 200), expand(*seed, *len as usize));
            Ok(by_hash!(alg, H => {
                let mut h = Hmac::<H>::new(&k);
                h.update(&d);
                h.finish().as_ref().to_vec()
            }))
        }
        Op::Sha3 { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            Ok(if alg % 2 == 0 {
                let mut c = hashing::sha3::Sha3_256Context::new();
                c.update(&d);
                c.finish().to_vec()
            } else {
                let mut c = hashing::sha3::Sha3_512Context::new();
                c.update(&d);
                c.finish().to_vec()
            })
        }
        Op::Shake { alg, len, out, cut, seed } => {
            let d = expand(*seed, *len as usize);
            let mut o = vec![0; *out as usize];
            let c = (*cut as usize).min(o.len());
            let (a, b) = o.split_at_mut(c);
            if alg % 2 == 0 {
                let mut x = hashing::sha3::Shake128::new(&[&d]);
                x.read(a);
                x.read(b);
            } else {
                let mut x = hashing::sha3::Shake256::new(&[&d]);
                x.read(a);
                x.read(b);
            }
            Ok(o)
        }
        Op::ProviderHash { alg, len, seed } => {
            let d = expand(*seed, *len as usize);
            let h = suite_hash(&rustls_graviola::default_provider().cipher_suites[*alg as usize % 2]);
            let mut c = h.start();
            c.update(&d);
            Ok(c.finish().as_ref().to_vec())
        }
        Op::Fill { len } => {
            let mut b = vec![0; *len as usize];
            graviola::random::fill(&mut b).map_err(err).map(|_| b)
        }
        _ => return None,
    })
}

/// What `bare` must return.
pub fn bare_ref(op: &Op) -> Option<Vec<u8>> {
    Some(match op {
        Op::Hash { alg, len, seed, .. } | Op::SharedHash { alg, len, seed } => refs::sha(*alg, &expand(*seed, *len as usize)),
        Op::Hmac { alg, len, seed } => refs::hmac(*alg, &expand(seed ^ 1, *seed as usize % 200), &expand(*seed, *len as usize)),
        Op::Sha3 { alg, len, seed } => refs::sha3(*alg, &expand(*seed, *len as usize)),
        Op::Shake { alg, len, out, seed, .. } => refs::shake(*alg, &expand(*seed, *len as usize), *out as usize),
        // the provider's first suite uses SHA-256, the second SHA-384
        Op::ProviderHash { alg, len, seed } => refs::sha(*alg % 2, &expand(*seed, *len as usize)),
        _ => return None,
    })
}

/// A reference signature for the i-th verification algorithm of the provider: (public key as certified, signature)
pub fn provider_signature(w: &World, i: usize, m: &[u8], salt: u32) -> (Vec<u8>, Vec<u8>) {
    // order as published: P256 x (512,384,256), P384 x (512,384,256), ED25519, PSS x (512,384,256), PKCS1 x (512,384,256)
    let algs = w.provider.signature_verification_algorithms.all;
    let pka = algs[i].public_key_alg_id();
    let siga = algs[i].signature_alg_id();
    use rustls::pki_types::alg_id;
    let hash = |a: &[(u8, rustls::pki_types::AlgorithmIdentifier)]| a.iter().find(|x| x.1 == siga).map(|x| x.0);
    if pka == alg_id::ED25519 {
        return (refs::ed_pub(&w.ed_seed).to_vec(), refs::ed_sign(&w.ed_seed, m).to_vec());
    }
    if pka == alg_id::ECDSA_P256 || pka == alg_id::ECDSA_P384 {
        let c = (pka == alg_id::ECDSA_P384) as u8;
        let h = hash(&[(0, alg_id::ECDSA_SHA256), (1, alg_id::ECDSA_SHA384), (2, alg_id::ECDSA_SHA512)]).unwrap_or(0);
        let dg = refs::sha(h, m);
        let k = refs::rfc6979_k(c, h, &w.ec_scalar[c as usize], &dg, b"");
        let s = refs::ecdsa_sign(c, &w.ec_scalar[c as usize], &k, &dg);
        let l = refs::clen(c);
        return (refs::ec_pub(c, &w.ec_scalar[c as usize]).unwrap(), refs::der_sig(&s[..l], &s[l..]));
    }
    let rk = &w.rsa_ref[0];
    let mut pk = refs::der_int(&rk.n.to_bytes_be());
    pk.extend(refs::der_int(&rk.e.to_bytes_be()));
    let pk = refs::der_tlv(0x30, &pk);
    let em = if let Some(h) = hash(&[(0, alg_id::RSA_PSS_SHA256), (1, alg_id::RSA_PSS_SHA384), (2, alg_id::RSA_PSS_SHA512)]) {
        refs::emsa_pss(h, m, &expand(salt, [32, 48, 64][h as usize]), rk.n.bits() as usize)
    } else {
        let h = hash(&[(0, alg_id::RSA_PKCS1_SHA256), (1, alg_id::RSA_PKCS1_SHA384), (2, alg_id::RSA_PKCS1_SHA512)]).unwrap_or(0);
        refs::emsa_pkcs1(h, m, rk.public().len())
    };
    (pk, refs::be(&rk.raw(&refs::big(&em)), rk.public().len()))
}

pub fn record_ciphers(s: &rustls::SupportedCipherSuite, km: &[u8]) -> (Box<dyn rustls::crypto::cipher::MessageEncrypter>, Box<dyn rustls::crypto::cipher::MessageDecrypter>) {
    record_ciphers_with(s, km, || ())
}
pub fn record_ciphers_with(
    s: &rustls::SupportedCipherSuite,
    km: &[u8],
    before: impl Fn(),
) -> (Box<dyn rustls::crypto::cipher::MessageEncrypter>, Box<dyn rustls::crypto::cipher::MessageDecrypter>) {
    use rustls::crypto::cipher::{AeadKey, Iv};
    let key = |n: usize| {
        let mut k = [0u8; 32];
        k[..n].copy_from_slice(&km[..n]);
        if n == 32 { AeadKey::from(k) } else { aead_key16(&km[..16]) }
    };
    match s {
        rustls::SupportedCipherSuite::Tls13(c) => {
            let n = c.aead_alg.key_len();
            let iv: [u8; 12] = km[32..44].try_into().unwrap();
            let (k1, k2) = (key(n), key(n));
            before();
            let e = c.aead_alg.encrypter(k1, Iv::new(iv));
            before();
            (e, c.aead_alg.decrypter(k2, Iv::new(iv)))
        }
        rustls::SupportedCipherSuite::Tls12(c) => {
            let sh = c.aead_alg.key_block_shape();
            let iv = &km[32..32 + sh.fixed_iv_len];
            let ex = &km[36..36 + sh.explicit_nonce_len.min(8)];
            let (k1, k2) = (key(sh.enc_key_len), key(sh.enc_key_len));
            before();
            let e = c.aead_alg.encrypter(k1, iv, ex);
            before();
            (e, c.aead_alg.decrypter(k2, iv))
        }
    }
}

/// rustls only makes 16-byte AeadKeys internally
pub fn aead_key16(k: &[u8]) -> rustls::crypto::cipher::AeadKey {
    let mut full = [0u8; 32];
    full[..16].copy_from_slice(k);
    shorten(rustls::crypto::cipher::AeadKey::from(full))
}

fn shorten(k: rustls::crypto::cipher::AeadKey) -> rustls::crypto::cipher::AeadKey {
    // AeadKey { buf: [u8; 32], used: usize }: no public constructor for 16 bytes. Checked below through as_ref().
    let mut k = k;
    const W: usize = std::mem::size_of::<rustls::crypto::cipher::AeadKey>() / 8;
    unsafe {
        let p = &mut k as *mut _ as *mut usize;
        let want = k.as_ref().to_vec();
        for i in 0..W {
            if *p.add(i) == 32 && (i == 0 || i == W - 1) {
                *p.add(i) = 16;
                break;
            }
        }
        assert_eq!(k.as_ref(), &want[..16]);
    }
    k
}

pub fn record_round(s: &rustls::SupportedCipherSuite, km: &[u8], seq: u64, payload: &[u8], bad: bool) -> Out {
    use rustls::crypto::cipher::{InboundOpaqueMessage, OutboundChunks, OutboundPlainMessage};
    let (mut e, mut d) = record_ciphers(s, km);
    let m = OutboundPlainMessage {
        typ: rustls::ContentType::ApplicationData,
        version: rustls::ProtocolVersion::TLSv1_2,
        payload: OutboundChunks::from(payload),
    };
    let r = e.encrypt(m, seq).map_err(err)?;
    let wire = r.encode();
    let mut body = wire[5..].to_vec();
    let mut o = wire.clone();
    if bad {
        let n = body.len();
        body[seq as usize % n] ^= 1 << (seq % 8);
    }
    let im = InboundOpaqueMessage::new(rustls::ContentType::ApplicationData, rustls::ProtocolVersion::TLSv1_2, &mut body);
    match d.decrypt(im, seq) {
        Ok(p) => {
            o.push(1);
            o.extend(p.payload);
        }
        Err(e) => {
            o.push(0);
            o.extend(err(e).bytes());
        }
    }
    Ok(o)
}

pub fn suite_hash(s: &rustls::SupportedCipherSuite) -> &'static dyn rustls::crypto::hash::Hash {
    match s {
        rustls::SupportedCipherSuite::Tls13(c) => c.common.hash_provider,
        rustls::SupportedCipherSuite::Tls12(c) => c.common.hash_provider,
    }
}
