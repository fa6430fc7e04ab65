//! C14: secrets do not outlive their use.
use super::prelude::*;
use crate::alloc::{self, Words};
use crate::ops::{self, rsa_sign};
use crate::vregs;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa::Ed25519SigningKey, rsa};
use std::mem::MaybeUninit;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Use {
    /// which operation (meaning depends on the kind of key)
    pub what: u8,
    pub seed: u32,
    pub len: u16,
    /// 0 none, 1 the entropy source fails, 2 the output buffer is too small, 3 the CPU lacks something
    pub fault: u8,
    pub arg: u8,
    /// on another thread
    pub away: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    /// a key is made, used and dropped; `drop`: 0 in place, 1 while unwinding, 2 on another thread, 3 on the heap,
    /// 4 on the heap by the last of several holders, 5 replaced in place by another key
    /// `beside`: meanwhile another thread stands inside an operation (which one), waiting for entropy
    Life {
        kind: u8,
        seed: u32,
        how: u8,
        uses: Vec<Use>,
        drop: u8,
        #[serde(default)]
        beside: u8,
    },
    /// record protection for one connection
    Record { suite: u8, seed: u32, n: u8, bad: u8 },
    /// a ticketer through key rotations; each entry: seconds until a ticket is issued (and opened again)
    Ticketer { seed: u32, at: Vec<u32>, fail: u8 },
    /// a private key loaded into the provider, signed with and unloaded
    Signer { kind: u8, seed: u32, n: u8, fail: u8 },
    /// an RSA signature, or (`key` 255) an RSA key generation; what it leaves in freed heap blocks
    RsaWork { key: u8, pss: bool, hash: u8, msg: u32, seed: u32, fail: u8 },
    /// a key exchange started and abandoned
    Exchange { group: u8, seed: u32, fail: u8 },
}

// ---------------------------------------------------------------- snapshots

fn bytes_of<T>(t: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    let mut v = vec![0u8; n];
    // SAFETY: copies the object representation; padding bytes are whatever they are
    unsafe { std::ptr::copy_nonoverlapping(std::hint::black_box(t) as *const T as *const u8, v.as_mut_ptr(), n) };
    v
}

#[inline(never)]
fn scribble(b: u8) {
    let mut a = [0u8; 96 * 1024];
    for (i, x) in a.iter_mut().enumerate() {
        *x = b.wrapping_add((i as u8).wrapping_mul(b | 1));
    }
    std::hint::black_box(&mut a);
}

fn slot<T>(poison: u8) -> Box<MaybeUninit<T>> {
    let mut b: Box<MaybeUninit<T>> = Box::new(MaybeUninit::uninit());
    unsafe { std::ptr::write_bytes(b.as_mut_ptr() as *mut u8, poison, std::mem::size_of::<T>()) };
    b
}

fn slot_bytes<T>(b: &MaybeUninit<T>) -> Vec<u8> {
    bytes_of(b)
}

/// The words of `objs[0]` all of whose bytes depend on the key and are not found in `public`.
/// `objs[1]` and `objs[2]` hold the same key with other padding, the rest hold other keys.
fn secret_words(objs: &[Vec<u8>], public: &[Vec<u8>]) -> Vec<u64> {
    let a = &objs[0];
    let win = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    // padding may hold what frames that returned left on the stack: words of other keys' objects, the stack
    // protector's canary and addresses are not this key's
    let canary: u64;
    unsafe { std::arch::asm!("mov {}, fs:0x28", out(reg) canary) };
    let pw = Words::new(public.iter().chain(&objs[3..]).flat_map(|p| p.windows(8).map(win)).chain([canary]).collect());
    let mut dep: Vec<bool> = (0..a.len()).map(|i| objs[1][i] == a[i] && objs[2][i] == a[i] && objs[3..].iter().any(|o| o[i] != a[i])).collect();
    for i in 0..(a.len() + 1).saturating_sub(8) {
        let w = win(&a[i..i + 8]);
        if pw.has(w) || (i % 8 == 0 && w >> 32 != 0 && w >> 47 == 0) {
            dep[i..i + 8].fill(false);
        }
    }
    (0..(a.len() + 1).saturating_sub(8)).filter(|i| dep[*i..*i + 8].iter().all(|d| *d)).map(|i| win(&a[i..i + 8])).filter(|w| telling(*w)).collect()
}
/// not a word one would meet by accident
fn telling(w: u64) -> bool {
    let mut b = w.to_le_bytes();
    b.sort_unstable();
    b.windows(2).filter(|p| p[0] != p[1]).count() >= 4
}
fn windows(b: &[u8]) -> Vec<u64> {
    b.windows(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).filter(|w| telling(*w)).collect()
}

// ---------------------------------------------------------------- watching operations

struct Watch<'a> {
    words: &'a Words,
    /// words as they look broadcast over 32-bit lanes
    wide: &'a Words,
    width: vregs::Width,
    hit: Option<String>,
    looked: u64,
    log: Vec<String>,
}
impl Watch<'_> {
    /// Run an operation as library code. `regs`: it returns nothing secret, so no register may hold any of the key.
    fn op(&mut self, what: &str, regs: bool, f: &mut dyn FnMut() -> bool) {
        let mut dump = [0u8; vregs::BYTES];
        let mut r = None;
        vregs::around(self.width, &mut || r = alloc::library(|| catch(&mut *f).ok()), &mut dump);
        self.log.push(format!("{what} {r:?}"));
        // (a panic's own machinery copies whatever stood on the stack through the registers)
        if regs && r.is_some() {
            self.looked += 1;
            let at = self.words.find(&dump).or_else(|| self.wide.find(&dump));
            if let (Some(at), None) = (at, &self.hit) {
                self.hit = Some(format!("{what} ({}) returned with part of the key in {}", if r == Some(true) { "it succeeded" } else { "it failed" }, vregs::name(self.width, at)));
            }
        }
    }
}

/// (lo,lo) and (hi,hi) of every word
fn widened(w: &Words) -> Words {
    Words::new(w.words().iter().flat_map(|w| [(w & 0xffff_ffff) | w << 32, w >> 32 | (w >> 32) << 32]).filter(|w| { let b = w.to_le_bytes(); let mut c = b[..4].to_vec(); c.sort_unstable(); c.dedup(); c.len() == 4 }).collect())
}

// ---------------------------------------------------------------- kinds of key

trait Kind {
    type T: Send + Sync + 'static;
    const NAME: &'static str;
    const HOWS: u8 = 1;
    fn make(seed: u32, how: u8) -> Self::T;
    /// another key than that of `seed`, for learning the layout
    fn other(seed: u32, n: u32) -> Self::T {
        Self::make(seed ^ n, 0)
    }
    fn public(t: &Self::T) -> Vec<Vec<u8>>;
    fn act(t: &Self::T, u: &Use, w: &mut Watch);
}

macro_rules! aead {
    ($n:ident, $name:literal, $t:ty, $nonce:literal, $klen:literal, $s:ident => $new:expr) => {
        struct $n;
        impl Kind for $n {
            type T = $t;
            const NAME: &'static str = $name;
            fn make($s: u32, _how: u8) -> $t {
                $new
            }
            fn public(_: &$t) -> Vec<Vec<u8>> {
                vec![]
            }
            fn act(t: &$t, u: &Use, w: &mut Watch) {
                let n: [u8; $nonce] = expand(u.seed, $nonce).try_into().unwrap();
                let aad = expand(u.seed ^ 1, u.arg as usize);
                let mut io = expand(u.seed ^ 2, u.len as usize);
                let mut tag = [0u8; 16];
                match u.what % 4 {
                    0 => w.op("seal", true, &mut || {
                        t.encrypt(&n, &aad, &mut io, &mut tag);
                        true
                    }),
                    1 => {
                        t.encrypt(&n, &aad, &mut io, &mut tag);
                        w.op("open", true, &mut || t.decrypt(&n, &aad, &mut io, &tag).is_ok())
                    }
                    2 => {
                        t.encrypt(&n, &aad, &mut io, &mut tag);
                        tag[u.arg as usize % 16] ^= 1;
                        w.op("open.bad", true, &mut || t.decrypt(&n, &aad, &mut io, &tag).is_ok())
                    }
                    _ => w.op("open.short_tag", true, &mut || t.decrypt(&n, &aad, &mut io, &tag[..u.arg as usize % 16]).is_ok()),
                }
            }
        }
    };
}
aead!(Gcm128, "aes128gcm", AesGcm, 12, 16, s => AesGcm::new(&expand(s, 16)));
aead!(Gcm256, "aes256gcm", AesGcm, 12, 32, s => AesGcm::new(&expand(s, 32)));
aead!(ChaCha, "chacha20poly1305", ChaCha20Poly1305, 12, 32, s => ChaCha20Poly1305::new(expand(s, 32).try_into().unwrap()));
aead!(XChaCha, "xchacha20poly1305", XChaCha20Poly1305, 24, 32, s => XChaCha20Poly1305::new(expand(s, 32).try_into().unwrap()));

fn generated<T>(seed: u32, f: impl FnOnce() -> T) -> T {
    env::with_entropy(&EntropyPlan::good(seed), f).0
}

struct Rsa;
impl Kind for Rsa {
    type T = rsa::SigningKey;
    const NAME: &'static str = "rsa";
    const HOWS: u8 = 3;
    fn make(seed: u32, how: u8) -> Self::T {
        let der = super::c05::KEYS[seed as usize % super::c05::KEYS.len()];
        match how {
            0 => rsa::SigningKey::from_pkcs1_der(der).unwrap(),
            1 => {
                let mut b = vec![0; 8192];
                let k = rsa::SigningKey::from_pkcs1_der(der).unwrap();
                rsa::SigningKey::from_pkcs8_der(k.to_pkcs8_der(&mut b).unwrap()).unwrap()
            }
            _ => generated(seed, || rsa::SigningKey::generate(rsa::KeySize::Rsa2048).unwrap()),
        }
    }
    fn other(seed: u32, n: u32) -> Self::T {
        // not the largest ones
        let own = seed as usize % super::c05::KEYS.len();
        let c: Vec<usize> = [0, 5, 6, 8, 9, 10, 11].into_iter().filter(|k| *k != own).collect();
        rsa::SigningKey::from_pkcs1_der(super::c05::KEYS[c[n as usize % c.len()]]).unwrap()
    }
    fn public(t: &Self::T) -> Vec<Vec<u8>> {
        let mut b = [0u8; 2048];
        let p = t.public_key();
        vec![p.to_pkcs1_der(&mut b).unwrap().to_vec(), bytes_of(&p)]
    }
    fn act(t: &Self::T, u: &Use, w: &mut Watch) {
        let m = expand(u.seed, u.len as usize % 200);
        match u.what % 4 {
            3 => {
                let mut b = vec![0; if u.fault == 2 { u.arg as usize * 8 } else { 8192 }];
                w.op("export", false, &mut || match u.arg % 2 {
                    0 => t.to_pkcs8_der(&mut b).is_ok(),
                    _ => t.to_pkcs1_der(&mut b).is_ok(),
                })
            }
            k => {
                let mut b = vec![0; if u.fault == 2 { u.arg as usize } else { t.modulus_len_bytes() + u.arg as usize % 3 }];
                w.op("sign", true, &mut || rsa_sign(t, k != 0, u.arg, &m, &mut b).is_ok())
            }
        }
    }
}

macro_rules! ecdsa_kind {
    ($n:ident, $name:literal, $c:ty, $curve:literal, $m:ident) => {
        struct $n;
        impl Kind for $n {
            type T = ecdsa::SigningKey<$c>;
            const NAME: &'static str = $name;
            const HOWS: u8 = 4;
            fn make(seed: u32, how: u8) -> Self::T {
                let k = ecdsa::SigningKey { private_key: $m::StaticPrivateKey::from_bytes(&ops::valid_scalar($curve, &mut Rng::new(seed as u64))).unwrap() };
                let mut b = [0; 512];
                match how {
                    0 => k,
                    1 => ecdsa::SigningKey::from_pkcs8_der(k.to_pkcs8_der(&mut b).unwrap()).unwrap(),
                    2 => ecdsa::SigningKey::from_sec1_der(k.to_sec1_der(&mut b).unwrap()).unwrap(),
                    _ => generated(seed, || ecdsa::SigningKey::generate().unwrap()),
                }
            }
            fn public(t: &Self::T) -> Vec<Vec<u8>> {
                let p = t.private_key.public_key_uncompressed();
                vec![p.to_vec(), bytes_of(&$m::PublicKey::from_x962_uncompressed(&p).unwrap())]
            }
            fn act(t: &Self::T, u: &Use, w: &mut Watch) {
                let m = expand(u.seed, u.len as usize % 200);
                let mut b = vec![0; if u.fault == 2 { u.arg as usize % 104 } else { 512 }];
                match u.what % 8 {
                    6 => w.op("export", false, &mut || match u.arg % 3 {
                        0 => t.to_pkcs8_der(&mut b).is_ok(),
                        1 => t.to_sec1_der(&mut b).is_ok(),
                        _ => t.to_spki_der(&mut b).is_ok(),
                    }),
                    7 => w.op("public", true, &mut || {
                        std::hint::black_box(t.private_key.public_key_uncompressed());
                        true
                    }),
                    k => w.op("sign", true, &mut || {
                        ops::by_hash!(u.arg, H => if k % 2 == 0 { t.sign::<H>(&[&m], &mut b).is_ok() } else { t.sign_asn1::<H>(&[&m], &mut b).is_ok() })
                    }),
                }
            }
        }
    };
}
ecdsa_kind!(EcP256, "ecdsa-p256", ecdsa::P256, 0, p256);
ecdsa_kind!(EcP384, "ecdsa-p384", ecdsa::P384, 1, p384);

struct Ed;
impl Kind for Ed {
    type T = Ed25519SigningKey;
    const NAME: &'static str = "ed25519";
    const HOWS: u8 = 3;
    fn make(seed: u32, how: u8) -> Self::T {
        let k = Ed25519SigningKey::from_bytes(&expand(seed, 32)).unwrap();
        match how {
            0 => k,
            1 => Ed25519SigningKey::from_pkcs8_der(k.to_pkcs8_der(&mut [0; 512]).unwrap()).unwrap(),
            _ => generated(seed, || Ed25519SigningKey::generate().unwrap()),
        }
    }
    fn public(t: &Self::T) -> Vec<Vec<u8>> {
        let p = t.public_key();
        vec![p.as_bytes().to_vec(), bytes_of(&p)]
    }
    fn act(t: &Self::T, u: &Use, w: &mut Watch) {
        let m = expand(u.seed, u.len as usize % 300);
        match u.what % 4 {
            3 => {
                let mut b = vec![0; if u.fault == 2 { u.arg as usize % 100 } else { 512 }];
                w.op("export", false, &mut || t.to_pkcs8_der(&mut b).is_ok())
            }
            _ => w.op("sign", true, &mut || {
                std::hint::black_box(t.sign(&m));
                true
            }),
        }
    }
}

macro_rules! ecdh {
    ($n:ident, $eph:ident, $sh:ident, $name:literal, $ename:literal, $sname:literal, $m:ident, $curve:literal, $pub:ident, $out:ty, $k:ident => $pk:expr, $s:ident => $from:expr, $p:ident => $peer:expr) => {
        struct $n;
        impl Kind for $n {
            type T = $m::StaticPrivateKey;
            const NAME: &'static str = $name;
            const HOWS: u8 = 2;
            fn make($s: u32, how: u8) -> Self::T {
                if how == 0 { $from } else { generated($s, || $m::StaticPrivateKey::new_random().unwrap()) }
            }
            fn public($k: &Self::T) -> Vec<Vec<u8>> {
                let p = $pk;
                vec![p.clone(), bytes_of(&{ let $p = &p[..]; $peer.unwrap() })]
            }
            fn act(t: &Self::T, u: &Use, w: &mut Watch) {
                match u.what % 4 {
                    0 => w.op("public", true, &mut || {
                        std::hint::black_box(t.$pub());
                        true
                    }),
                    _ => {
                        let (_, mut p) = ops::peer_pub($curve, u.seed);
                        if u.arg % 4 == 0 {
                            // the point at zero, or one that is not on the curve
                            let n = p.len();
                            p[n / 2..].fill(0);
                            p[1..n / 2].fill(0);
                        }
                        let $p = &p[..];
                        if let Ok(peer) = $peer {
                            let mut out: Option<$m::SharedSecret> = None;
                            w.op("agree", true, &mut || match t.diffie_hellman(&peer) {
                                Ok(s) => {
                                    out = Some(s);
                                    true
                                }
                                Err(_) => false,
                            });
                            std::hint::black_box(&out);
                        }
                    }
                }
            }
        }
        struct $eph;
        impl Kind for $eph {
            type T = $m::PrivateKey;
            const NAME: &'static str = $ename;
            fn make(seed: u32, _how: u8) -> Self::T {
                generated(seed, || $m::PrivateKey::new_random().unwrap())
            }
            fn public($k: &Self::T) -> Vec<Vec<u8>> {
                vec![$pk]
            }
            fn act(t: &Self::T, _u: &Use, w: &mut Watch) {
                w.op("public", true, &mut || {
                    std::hint::black_box(t.$pub());
                    true
                })
            }
        }
        struct $sh;
        impl Kind for $sh {
            type T = $m::SharedSecret;
            const NAME: &'static str = $sname;
            fn make(seed: u32, _how: u8) -> Self::T {
                let (_, p) = ops::peer_pub($curve, seed);
                let $p = &p[..];
                generated(seed ^ 7, || $m::PrivateKey::new_random().unwrap().diffie_hellman(&$peer.unwrap()).unwrap())
            }
            fn public(_: &Self::T) -> Vec<Vec<u8>> {
                vec![]
            }
            fn act(_t: &Self::T, _u: &Use, _w: &mut Watch) {}
        }
    };
}
ecdh!(X25519S, X25519E, X25519Sh, "x25519", "x25519-ephemeral", "x25519-shared", x25519, 0, public_key, [u8; 32],
    k => k.public_key().as_bytes().to_vec(), s => x25519::StaticPrivateKey::try_from_slice(&expand(s, 32)).unwrap(), p => x25519::PublicKey::try_from_slice(p));
ecdh!(P256S, P256E, P256Sh, "p256", "p256-ephemeral", "p256-shared", p256, 1, public_key_uncompressed, [u8; 32],
    k => k.public_key_uncompressed().to_vec(), s => p256::StaticPrivateKey::from_bytes(&ops::valid_scalar(0, &mut Rng::new(s as u64))).unwrap(), p => p256::PublicKey::from_x962_uncompressed(p));
ecdh!(P384S, P384E, P384Sh, "p384", "p384-ephemeral", "p384-shared", p384, 2, public_key_uncompressed, [u8; 48],
    k => k.public_key_uncompressed().to_vec(), s => p384::StaticPrivateKey::from_bytes(&ops::valid_scalar(1, &mut Rng::new(s as u64))).unwrap(), p => p384::PublicKey::from_x962_uncompressed(p));

struct MlKem;
impl Kind for MlKem {
    type T = mlkem768::DecapKey;
    const NAME: &'static str = "mlkem768";
    const HOWS: u8 = 2;
    fn make(seed: u32, how: u8) -> Self::T {
        match how {
            0 => mlkem768::DecapKey::keygen_internal(&expand(seed, 64).try_into().unwrap()),
            _ => generated(seed, || mlkem768::DecapKey::generate().unwrap()),
        }
    }
    fn public(t: &Self::T) -> Vec<Vec<u8>> {
        let e = t.encapsulation_key();
        vec![e.as_bytes().to_vec(), bytes_of(&e), refs::sha3(0, &e.as_bytes())]
    }
    fn act(t: &Self::T, u: &Use, w: &mut Watch) {
        let (_, mut c) = generated(u.seed, || t.encapsulation_key().encaps().unwrap());
        if u.arg % 3 == 0 {
            let mut b = *c.as_ref();
            b[u.len as usize % 1088] ^= 1 << (u.arg % 8);
            c = b.into();
        }
        // (no entry point guards `decaps_internal`: what it leaves in registers is not judged)
        w.op("decaps", false, &mut || {
            std::hint::black_box(t.decaps_internal(&c));
            true
        });
        w.op("public", true, &mut || {
            std::hint::black_box(t.encapsulation_key().as_bytes());
            true
        });
    }
}
struct MlKemSh;
impl Kind for MlKemSh {
    type T = mlkem768::SharedSecret;
    const NAME: &'static str = "mlkem768-shared";
    const HOWS: u8 = 2;
    fn make(seed: u32, how: u8) -> Self::T {
        let k = mlkem768::DecapKey::keygen_internal(&expand(seed, 64).try_into().unwrap());
        let (s, c) = generated(seed ^ 5, || k.encapsulation_key().encaps().unwrap());
        if how == 0 { s } else { k.decaps(&c) }
    }
    fn public(_: &Self::T) -> Vec<Vec<u8>> {
        vec![]
    }
    fn act(_t: &Self::T, _u: &Use, _w: &mut Watch) {}
}

// ---------------------------------------------------------------- one life

fn learn<K: Kind>(seed: u32, how: u8) -> (Vec<u64>, usize) {
    let mut objs = vec![];
    let mut public = vec![];
    for (i, (s, p)) in [(0u32, 0u8), (0, 0x5a), (0, 0xc3), (0x11, 0), (0x22, 0), (0x33, 0)].into_iter().enumerate() {
        let mut b = slot::<K::T>(p);
        deeper(i % 3, &mut || place(&mut b, p ^ 0x3c, || if i < 3 { K::make(seed, how) } else { K::other(seed, s) }));
        objs.push(slot_bytes(&b));
        // SAFETY: written above
        unsafe {
            if i == 0 {
                public = K::public(b.assume_init_ref());
            }
            b.assume_init_drop()
        };
    }
    (secret_words(&objs, &public), objs[0].len())
}

fn acts<K: Kind>(cx: &mut Cx, t: &K::T, uses: &[Use], words: &Words, wide: &Words) -> R {
    for u in uses {
        let mut w = Watch { words, wide, width: vregs::width(), hit: None, looked: 0, log: vec![] };
        cx.op(K::NAME);
        crate::cov::set_hang_budget(crate::sched::HANG);
        let plan = EntropyPlan { seed: u.seed, mode: Mode::Good, faults: if u.fault == 1 { vec![(u.arg as u32 % 3, if u.arg % 2 == 0 { Fault::Errno(libc::EIO) } else { Fault::Zero })] } else { vec![] } };
        let cpu = env::cpu();
        let mut go = || env::with_entropy(&plan, || {
            if u.fault == 3 {
                env::set_cpu(cpu | 1 << (7 + u.arg as u32 % 5));
            }
            let r = catch(|| K::act(t, u, &mut w));
            env::set_cpu(cpu);
            r
        });
        let (r, log) = if u.away {
            cx.fault("thread.moved");
            std::thread::scope(|s| s.spawn(go).join().unwrap())
        } else {
            go()
        };
        cx.log_entropy(&log);
        match u.fault {
            2 => cx.fault("buffer.short"),
            3 => cx.fault("cpu.feature_absent"),
            _ => {}
        }
        if r.is_err() || w.log.iter().any(|l| l.ends_with("None")) {
            cx.probe("panicked");
        }
        if w.log.iter().any(|l| l.ends_with("Some(false)")) {
            cx.probe("failed");
        }
        for _ in 0..w.looked {
            cx.check();
        }
        cx.ev(format!("{} {:?}", K::NAME, w.log));
        if let Some(h) = w.hit {
            fail!("register", "{}: {h}", K::NAME);
        }
    }
    Ok(())
}

struct InPlace<T>(*mut T);
unsafe impl<T: Send> Send for InPlace<T> {}
impl<T> Drop for InPlace<T> {
    fn drop(&mut self) {
        alloc::library(|| unsafe { std::ptr::drop_in_place(self.0) })
    }
}

/// Run `f` with the stack pointer elsewhere, so that addresses left on the stack differ.
#[inline(never)]
fn deeper(n: usize, f: &mut dyn FnMut()) {
    let a = [n as u8; 1008];
    std::hint::black_box(&a);
    if n == 0 { f() } else { deeper(n - 1, f) }
    std::hint::black_box(&a);
}
/// Make an object whose padding is not what others left on the stack.
#[inline(never)]
fn place<T>(b: &mut MaybeUninit<T>, scrub: u8, f: impl FnOnce() -> T) {
    #[inline(never)]
    fn inner<T>(b: &mut MaybeUninit<T>, f: impl FnOnce() -> T) {
        b.write(f());
    }
    scribble(scrub);
    inner(b, f)
}
#[inline(never)]
unsafe fn replace<T>(p: *mut T, n: *const T) {
    alloc::library(|| unsafe { *p = std::ptr::read(n) })
}

/// What the other thread is doing.
fn other_op(n: u8, seed: u32) {
    use std::hint::black_box;
    let mut b = [0u8; 512];
    match n % 8 {
        0 => drop(black_box(EcP256::make(seed, 0).sign::<hashing::Sha256>(&[b"m"], &mut b).is_ok())),
        1 => drop(black_box(EcP384::make(seed, 0).sign_asn1::<hashing::Sha384>(&[b"m"], &mut b).is_ok())),
        2 => drop(black_box(rsa::SigningKey::from_pkcs1_der(super::c05::KEYS[0]).map(|k| rsa_sign(&k, true, 0, b"m", &mut b).is_ok()))),
        3 => drop(black_box(x25519::PrivateKey::new_random().is_ok())),
        4 => drop(black_box(p384::PrivateKey::new_random().is_ok())),
        5 => drop(black_box(mlkem768::DecapKey::generate().is_ok())),
        6 => drop(black_box(Ed25519SigningKey::generate().is_ok())),
        _ => drop(black_box(ops::groups()[seed as usize % ops::groups().len()].start().is_ok())),
    }
}
fn life<K: Kind>(cx: &mut Cx, seed: u32, how: u8, uses: &[Use], mode: u8, beside: u8) -> R {
    let how = how % K::HOWS;
    let learned = learn::<K>(seed, how);
    if beside == 0 {
        return lived::<K>(cx, seed, how, uses, mode, learned);
    }
    let (r, inside) = env::beside(seed ^ 0xbe5, move || other_op(beside - 1, seed), || lived::<K>(cx, seed, how, uses, mode, learned));
    if inside {
        cx.fault("thread.stalled_inside");
    }
    r
}
fn lived<K: Kind>(cx: &mut Cx, seed: u32, how: u8, uses: &[Use], mode: u8, (w, size): (Vec<u64>, usize)) -> R {
    let words = Words::new(w);
    let wide = widened(&words);
    if words.len() >= 4 {
        cx.probe(K::NAME);
    }
    cx.ev(format!("{} how {how} words {} size {size}", K::NAME, words.len()));
    let name = ["in place", "while unwinding", "on another thread", "on the heap", "on the heap, shared", "by replacement"][mode as usize % 6];
    let (r, hit, _) = alloc::scanned(&words, || -> R {
        match mode % 6 {
            m @ (3 | 4) => {
                if m == 3 {
                    let mut b = slot::<K::T>(0);
                    place(&mut b, 0x66, || K::make(seed, how));
                    // SAFETY: placed above
                    let b = unsafe { b.assume_init() };
                    acts::<K>(cx, &b, uses, &words, &wide)?;
                    alloc::library(|| drop(b));
                } else {
                    let mut a = Arc::<K::T>::new_uninit();
                    place(Arc::get_mut(&mut a).unwrap(), 0x66, || K::make(seed, how));
                    // SAFETY: placed above
                    let a = unsafe { a.assume_init() };
                    let c = a.clone();
                    acts::<K>(cx, &a, uses, &words, &wide)?;
                    alloc::library(|| drop(a));
                    std::thread::scope(|s| s.spawn(|| alloc::library(|| drop(c))).join().unwrap());
                }
                cx.check();
                return Ok(());
            }
            _ => {}
        }
        let mut b = slot::<K::T>(0);
        place(&mut b, 0x66, || K::make(seed, how));
        if words.len() >= 4 {
            // the slot holds what was learned, or the search below would prove nothing
            ensure!(words.find(&slot_bytes(&b)).is_some(), "learning", "{}: the object's memory does not hold the words learned", K::NAME);
        }
        // SAFETY: initialised above, dropped once below
        acts::<K>(cx, unsafe { b.assume_init_ref() }, uses, &words, &wide)?;
        let p = b.as_mut_ptr();
        match mode % 6 {
            0 => drop(InPlace(p)),
            1 => {
                cx.fault("unwind");
                let _ = catch(|| {
                    let _g = InPlace(p);
                    panic!("simulated")
                });
            }
            2 => {
                cx.fault("thread.moved");
                let g = InPlace(p);
                std::thread::scope(|s| s.spawn(move || drop({ let g = g; g })).join().unwrap());
            }
            _ => unsafe {
                let mut n = slot::<K::T>(0);
                place(&mut n, 0x77, || K::other(seed, 0x44));
                replace(p, n.as_ptr());
            },
        }
        cx.check();
        let left = slot_bytes(&b);
        if mode % 6 == 5 {
            drop(InPlace(p));
        }
        if let Some(at) = words.find(&left) {
            fail!("slot", "{} ({size} bytes) dropped {name} after {} operations still holds key material at offset {at}", K::NAME, uses.len());
        }
        Ok(())
    });
    r?;
    if let Some((n, off)) = hit {
        fail!("heap", "{} dropped {name}: a freed heap block of {n} bytes holds key material at offset {off}", K::NAME);
    }
    Ok(())
}

macro_rules! kinds {
    ($($k:ident),*) => {
        const KINDS: &[fn(&mut Cx, u32, u8, &[Use], u8, u8) -> R] = &[$(life::<$k>),*];
        #[allow(dead_code)]
        const NAMES: &[&str] = &[$($k::NAME),*];
    };
}
kinds!(Gcm128, Gcm256, ChaCha, XChaCha, Rsa, EcP256, EcP384, Ed, X25519S, P256S, P384S, X25519E, P256E, P384E, X25519Sh, P256Sh, P384Sh, MlKem, MlKemSh);
const RSA: u8 = 4;

fn heap_clean(cx: &mut Cx, what: &str, words: &Words, f: impl FnOnce(&mut Cx) -> R) -> R {
    let (r, hit, looked) = alloc::scanned(words, || f(cx));
    r?;
    cx.check();
    if looked > 0 {
        cx.probe(what.split_whitespace().next().unwrap_or(""));
    }
    if let Some((n, off)) = hit {
        fail!("heap", "{what}: a freed heap block of {n} bytes holds key material at offset {off}");
    }
    Ok(())
}

fn aead_words(key: &[u8], chacha: bool) -> Vec<u64> {
    let mut w = windows(key);
    if !chacha {
        let other = |i: u8| AesGcm::new(&key.iter().map(|b| b ^ i).collect::<Vec<_>>());
        let mut objs = vec![];
        for (n, (i, p)) in [(0u8, 0u8), (0, 0x5a), (0, 0xc3), (1, 0), (0x42, 0), (0x99, 0)].into_iter().enumerate() {
            let mut b = slot::<AesGcm>(p);
            deeper(n % 3, &mut || place(&mut b, p ^ 0x3c, || other(i)));
            objs.push(slot_bytes(&b));
            unsafe { b.assume_init_drop() };
        }
        w.extend(secret_words(&objs, &[]));
    }
    w
}

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 2) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        for _ in 0..2 + r.usize(4) {
            let seed = r.seed();
            match r.below(18) {
                16 => v.push(Step::RsaWork { key: *r.pick(&[0, 0, 0, 1, 5, 6, 7, 8, 9, 11, 12]), pss: r.chance(1, 2), hash: r.below(3) as u8, msg: r.seed(), seed, fail: r.below(6) as u8 }),
                17 if run % if tier == Tier::Thorough { 20 } else { 100 } == 9 => v.push(Step::RsaWork { key: 255, pss: false, hash: 0, msg: 0, seed, fail: 0 }),
                0 => v.push(Step::Record { suite: r.below(9) as u8, seed, n: r.below(6) as u8, bad: r.below(4) as u8 }),
                1 => v.push(Step::Ticketer { seed, at: (0..1 + r.usize(5)).map(|_| if r.chance(1, 2) { r.below(100) as u32 } else { 21_500 + r.below(30_000) as u32 }).collect(), fail: r.below(12) as u8 }),
                2 => v.push(Step::Signer { kind: r.below(4) as u8, seed, n: r.below(4) as u8, fail: r.below(6) as u8 }),
                3 => v.push(Step::Exchange { group: r.below(4) as u8, seed, fail: r.below(8) as u8 }),
                _ => {
                    let mut kind = r.below(KINDS.len() as u64) as u8;
                    if kind < 2 && r.chance(1, 3) {
                        kind = 17;
                    }
                    let mut how = r.below(8) as u8;
                    if kind == RSA {
                        how = r.below(2) as u8;
                        if run % if tier == Tier::Thorough { 50 } else { 300 } == 7 {
                            how = 2;
                        }
                    }
                    let seed = if kind == RSA && how < 2 && r.chance(9, 10) { *r.pick(&[0, 0, 5, 6, 7, 8, 9, 11]) } else { seed };
                    let uses = (0..r.usize(5))
                        .map(|_| Use {
                            what: r.below(8) as u8,
                            seed: r.seed(),
                            len: r.len(64, 700) as u16,
                            fault: if r.chance(1, 2) { 0 } else { r.below(4) as u8 },
                            arg: r.below(200) as u8,
                            away: r.chance(1, 6),
                        })
                        .collect();
                    v.push(Step::Life { kind, seed, how, uses, drop: r.below(6) as u8, beside: if r.chance(1, 5) { 1 + r.below(8) as u8 } else { 0 } });
                }
            }
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            crate::cov::set_hang_budget(crate::sched::HANG * 3);
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Life { kind, seed, how, uses, drop, beside } => KINDS[*kind as usize % KINDS.len()](cx, *seed, *how, uses, *drop, *beside)?,
                Step::Record { suite, seed, n, bad } => record(cx, *suite, *seed, *n, *bad)?,
                Step::Ticketer { seed, at, fail } => ticketer(cx, *seed, at, *fail)?,
                Step::Signer { kind, seed, n, fail } => signer(cx, *kind, *seed, *n, *fail)?,
                Step::RsaWork { key, pss, hash, msg, seed, fail } => rsa_work(cx, *key, *pss, *hash % 3, *msg, *seed, *fail)?,
                Step::Exchange { group, seed, fail } => exchange(cx, *group, *seed, *fail)?,
            }
        }
        Ok(())
    }
}

fn record(cx: &mut Cx, suite: u8, seed: u32, n: u8, bad: u8) -> R {
    use rustls::crypto::cipher::{InboundOpaqueMessage, OutboundChunks, OutboundPlainMessage};
    let all = rustls_graviola::default_provider().cipher_suites;
    let s = all[suite as usize % all.len()];
    let km = expand(seed, 64);
    let chacha = format!("{:?}", s.suite()).contains("CHACHA");
    let klen = if chacha || format!("{:?}", s.suite()).contains("256_GCM") { 32 } else { 16 };
    let words = Words::new(aead_words(&km[..klen], chacha));
    cx.op("record");
    heap_clean(cx, &format!("record protection ({:?})", s.suite()), &words, |cx| {
        let (mut e, mut d) = ops::record_ciphers_with(&s, &km, || scribble(0x21));
        for q in 0..n as u64 {
            let payload = expand(seed ^ 9, q as usize * 37 % 300);
            let m = OutboundPlainMessage { typ: rustls::ContentType::ApplicationData, version: rustls::ProtocolVersion::TLSv1_2, payload: OutboundChunks::from(&payload[..]) };
            let wire = match cx.call("record.seal", || alloc::library(|| e.encrypt(m, q)))? {
                Ok(w) => w.encode(),
                Err(e) => fail!("seal", "{e:?}"),
            };
            let mut body = wire[5..].to_vec();
            if bad as u64 == q {
                body[0] ^= 1;
                cx.fault("record.damaged");
            }
            let im = InboundOpaqueMessage::new(rustls::ContentType::ApplicationData, rustls::ProtocolVersion::TLSv1_2, &mut body);
            let r = cx.call("record.open", || alloc::library(|| d.decrypt(im, q).is_ok()))?;
            cx.ev(format!("open {r}"));
        }
        alloc::library(move || {
            drop(e);
            drop(d)
        });
        Ok(())
    })
}

fn ticketer(cx: &mut Cx, seed: u32, at: &[u32], fail: u8) -> R {
    // first pass: learn what is drawn, and which of it is published
    let plan = EntropyPlan { seed, mode: Mode::Good, faults: if (1..8).contains(&fail) { vec![(fail as u32, Fault::Errno(libc::EIO))] } else { vec![] } };
    let t0 = env::clock_ns();
    let pass = |cx: &mut Cx| -> R<Vec<Vec<u8>>> {
        env::clock_set(t0);
        let mut out = vec![];
        let t = match cx.call("ticketer.new", || alloc::library(rustls_graviola::Ticketer::new))? {
            Ok(t) => t,
            Err(_) => return Ok(out),
        };
        for d in at {
            env::clock_advance(*d as i64 * 1_000_000_000);
            if let Some(c) = cx.call("ticketer.encrypt", || alloc::library(|| t.encrypt(&expand(seed ^ 0x5a03, 40))))? {
                let back = cx.call("ticketer.decrypt", || alloc::library(|| t.decrypt(&c)))?;
                cx.ev(format!("ticket {}", back.is_some()));
                out.push(c);
            }
        }
        alloc::library(move || drop(t));
        Ok(out)
    };
    let (tickets, log) = env::with_entropy(&plan, || pass(cx));
    let tickets = tickets?;
    let public = Words::new(tickets.iter().flat_map(|t| windows(t)).collect());
    // key names and nonces that never went out are not secret either: take the 32-byte reads only
    let mut words = vec![];
    let mut o = 0;
    for n in &log.requested {
        let b = &log.bytes[o..o + *n as usize];
        o += *n as usize;
        if *n >= 32 {
            words.extend(windows(b).into_iter().filter(|w| !public.has(*w)));
        }
    }
    cx.log_entropy(&log);
    if words.is_empty() {
        return Ok(());
    }
    cx.fault("clock.jump");
    let words = Words::new(words);
    heap_clean(cx, "ticketer", &words, |cx| env::with_entropy(&plan, || pass(cx)).0.map(|_| ()))
}

fn signer(cx: &mut Cx, kind: u8, seed: u32, n: u8, fail: u8) -> R {
    use rustls::pki_types::{PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer};
    let mut b = vec![0u8; 1024];
    let leak = |b: &[u8]| -> &'static [u8] { Box::leak(b.to_vec().into_boxed_slice()) };
    let (der, words): (PrivateKeyDer<'static>, Vec<u64>) = match kind % 4 {
        0 => {
            let s = [0, 5, 6, 7, 8][seed as usize % 5];
            (PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(super::c05::KEYS[s as usize])), learn::<Rsa>(s, 0).0)
        }
        1 => (PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(leak(EcP256::make(seed, 0).to_pkcs8_der(&mut b).unwrap()))), learn::<EcP256>(seed, 0).0),
        2 => (PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(leak(EcP384::make(seed, 0).to_pkcs8_der(&mut b).unwrap()))), learn::<EcP384>(seed, 0).0),
        _ => (PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(leak(Ed::make(seed, 0).to_pkcs8_der(&mut b).unwrap()))), learn::<Ed>(seed, 0).0),
    };
    let schemes: Vec<rustls::SignatureScheme> = {
        use rustls::SignatureScheme::*;
        let mut v = vec![RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, RSA_PKCS1_SHA256, RSA_PKCS1_SHA384, RSA_PKCS1_SHA512];
        let k = seed as usize % v.len();
        v.rotate_left(k);
        v.truncate(1);
        v.extend([ECDSA_NISTP256_SHA256, ECDSA_NISTP384_SHA384, ED25519]);
        v
    };
    let words = Words::new(words);
    let provider = rustls_graviola::default_provider();
    let plan = EntropyPlan { seed, mode: Mode::Good, faults: if fail == 1 { vec![(n as u32 % 2, Fault::Errno(libc::EIO))] } else { vec![] } };
    let (r, log) = env::with_entropy(&plan, || {
        heap_clean(cx, "provider signer", &words, |cx| {
            let k = match cx.call("load", || alloc::library(|| provider.key_provider.load_private_key(der)))? {
                Ok(k) => k,
                Err(e) => fail!("load", "{e:?}"),
            };
            let sg = alloc::library(|| k.choose_scheme(&schemes));
            // the signer may outlive the key it came from
            let mut k = Some(k);
            if seed % 2 == 0 {
                alloc::library(|| k = None);
            }
            if let Some(sg) = sg {
                for i in 0..n {
                    let r = cx.call("signer.sign", || alloc::library(|| sg.sign(&expand(seed ^ 0x5a00 ^ i as u32, 50)).is_ok()))?;
                    cx.ev(format!("sign {r}"));
                }
                alloc::library(move || drop(sg));
            }
            alloc::library(move || drop(k));
            Ok(())
        })
    });
    cx.log_entropy(&log);
    r
}

/// What computing with a secret modulus leaves: everything here tells the factor.
fn residues(k: &refs::RsaPriv, m: Option<&num_bigint::BigUint>) -> Vec<u64> {
    let mut w = vec![];
    let mut add = |x: &num_bigint::BigUint| {
        w.extend(windows(&x.to_bytes_le()));
        w.extend(windows(&x.to_bytes_be()));
    };
    for x in [&k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qinv] {
        add(x);
    }
    for (p, dp) in [(&k.p, &k.dp), (&k.q, &k.dq)] {
        let r = num_bigint::BigUint::from(1u32) << (p.bits().div_ceil(64) * 64);
        let one = &r % p;
        add(&one);
        if let Some(m) = m {
            let b = m % p;
            let mut x = b.clone();
            for _ in 1..16 {
                add(&x);
                add(&(&x * &r % p));
                x = x * &b % p;
            }
            let y = b.modpow(dp, p);
            add(&y);
            add(&(y * &r % p));
        }
    }
    w
}

fn rsa_work(cx: &mut Cx, key: u8, pss: bool, hash: u8, msg: u32, seed: u32, fail: u8) -> R {
    let plan = EntropyPlan { seed, mode: Mode::Good, faults: if fail == 1 { vec![(0, Fault::Errno(libc::EIO))] } else { vec![] } };
    if key == 255 {
        let mut b = vec![0u8; 8192];
        let der = generated(seed, || rsa::SigningKey::generate(rsa::KeySize::Rsa2048).map(|k| k.to_pkcs1_der(&mut b).unwrap().to_vec()));
        let Ok(der) = der else { return Ok(()) };
        let words = Words::new(residues(&refs::RsaPriv::from_pkcs1(&der).unwrap(), None));
        return heap_clean(cx, "RSA key generation", &words, |cx| {
            let k = env::with_entropy(&plan, || cx.call("rsa.generate", || alloc::library(|| rsa::SigningKey::generate(rsa::KeySize::Rsa2048).is_ok()))).0?;
            cx.ev(format!("generated {k}"));
            Ok(())
        });
    }
    let der = super::c05::KEYS[key as usize % super::c05::KEYS.len()];
    let f = refs::RsaPriv::from_pkcs1(der).unwrap();
    let m = expand(msg, 40);
    let k = match rsa::SigningKey::from_pkcs1_der(der) {
        Ok(k) => k,
        Err(e) => fail!("load", "{e:?}"),
    };
    let mut b = vec![0u8; f.public().len()];
    let ok = env::with_entropy(&plan, || rsa_sign(&k, pss, hash, &m, &mut b).is_ok()).0;
    let em = ok.then(|| num_bigint::BigUint::from_bytes_be(&b).modpow(&f.e, &f.n));
    // nothing that is public
    let mut public = b.clone();
    public.extend(f.n.to_bytes_be());
    let public = Words::new([&public[..], &public.iter().rev().copied().collect::<Vec<_>>()].iter().flat_map(|p| windows(p)).collect());
    let words = Words::new(residues(&f, em.as_ref()).into_iter().filter(|w| !public.has(*w)).collect());
    let (r, log) = env::with_entropy(&plan, || {
        heap_clean(cx, "RSA signature", &words, |cx| {
            let r = cx.call("rsa.sign", || alloc::library(|| rsa_sign(&k, pss, hash, &m, &mut b).is_ok()))?;
            cx.ev(format!("sign {r}"));
            Ok(())
        })
    });
    cx.log_entropy(&log);
    r
}

fn exchange(cx: &mut Cx, group: u8, seed: u32, fail: u8) -> R {
    let groups = ops::groups();
    let g = groups[group as usize % groups.len()];
    let plan = EntropyPlan { seed, mode: Mode::Good, faults: if fail == 1 { vec![(seed % 2, Fault::Errno(libc::EIO))] } else { vec![] } };
    let (share, log) = env::with_entropy(&plan, || g.start().ok().map(|k| k.pub_key().to_vec()));
    cx.log_entropy(&log);
    let public = Words::new(share.iter().flat_map(|s| s.windows(8).map(|w| u64::from_le_bytes(w.try_into().unwrap()))).collect());
    let mut w = windows(&log.bytes);
    w.extend(windows(&log.bytes.iter().rev().copied().collect::<Vec<_>>()));
    // an ML-KEM key derived from some 64 bytes of what was drawn
    if share.as_ref().is_some_and(|s| s.len() > 1000) {
        let s = share.as_ref().unwrap();
        for o in (0..=log.bytes.len().saturating_sub(64)).step_by(32) {
            let k = mlkem768::DecapKey::keygen_internal(log.bytes[o..o + 64].try_into().unwrap());
            let e = k.encapsulation_key().as_bytes();
            if s.windows(e.len()).any(|w| w == e) {
                w.extend(windows(&k.as_bytes()[..1152]));
            }
        }
    }
    w.retain(|w| !public.has(*w));
    if w.is_empty() {
        return Ok(());
    }
    let words = Words::new(w);
    cx.ev(format!("{:?} words {}", g.name(), words.len()));
    if share.is_none() {
        // nothing was built; what was freed on the way must be clean
        let (r, hit, _) = alloc::scanned(&words, || env::with_entropy(&plan, || cx.call("kx.start", || alloc::library(|| g.start().is_ok()))).0);
        r?;
        cx.check();
        if let Some((n, off)) = hit {
            fail!("heap", "key exchange {:?} that failed to start: a freed heap block of {n} bytes holds key material at offset {off}", g.name());
        }
        return Ok(());
    }
    cx.fault("exchange.abandoned");
    heap_clean(cx, &format!("key exchange {:?} started and abandoned", g.name()), &words, |cx| {
        let k = env::with_entropy(&plan, || cx.call("kx.start", || alloc::library(|| g.start()))).0?;
        alloc::library(move || drop(k));
        Ok(())
    })
}

pub fn def() -> Def {
    Def {
        id: "C14",
        title: "Secrets do not outlive their use",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 16000,
        thorough: 200000,
        rule: "a run (lives of keys with failed, interrupted and panicking operations, ended in different ways) counts when the memory or registers left behind were searched; distinct by history hash",
        real: &["graviola key objects, their operations and Drop implementations", "rustls-graviola record ciphers, ticketer, signers, key exchanges"],
        stub: &["heap allocator (wrapped: freed blocks are searched)", "getrandom(2)", "clock", "CPU feature detection"],
        probes: &[
            "failed", "panicked", "RSA", "record", "ticketer", "provider", "key", "aes128gcm", "aes256gcm", "chacha20poly1305", "xchacha20poly1305", "rsa", "ecdsa-p256", "ecdsa-p384", "ed25519", "x25519", "p256", "p384",
            "x25519-ephemeral", "p256-ephemeral", "p384-ephemeral", "x25519-shared", "p256-shared", "p384-shared", "mlkem768", "mlkem768-shared",
        ],
        assumptions: &[
            "key material is recognised by words that depend on the key, are the same whatever was in memory before, and do not occur in the public key",
            "stack frames that returned, and places a value was moved out of, are not judged (the language gives no control over them)",
            "hash and HMAC contexts are not key objects",
        ],
    }
}
