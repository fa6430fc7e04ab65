import sys; sys.path.insert(0,'/tmp/w')
from mk import *
G='graviola/src/'; RG='rustls-graviola/src/'
only=set(sys.argv[1:])
_b=bug
def bug(id,*a,**k):
    if not only or id in only: _b(id,*a,**k)
RND='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
unsafe extern "C" { fn __errno_location() -> *mut i32; }
// stands in for the kernel's entropy source
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    match answer(N.fetch_add(1, SeqCst)) {
        Some(b) => { unsafe { std::ptr::write_bytes(buf, b, len) }; len as isize }
        None => { unsafe { *__errno_location() = 5 }; -1 }
    }
}
'''
bug('c10-bound-race','C10',[(RG+'ticketer.rs','''        self.maximum_ciphertext_len
            .fetch_max(res.len(), Ordering::SeqCst);
''','''        // usually unchanged: do not write to a shared cache line for nothing
        if res.len() > self.maximum_ciphertext_len.load(Ordering::SeqCst) {
            self.maximum_ciphertext_len
                .store(res.len(), Ordering::SeqCst);
        }
''')],r'''
use std::sync::Barrier;
fn main() {
    let sizes = [100usize, 200, 300, 400, 500, 600];
    for _ in 0..4000 {
        let t = rustls_graviola::Ticketer::new().unwrap();
        let go = Barrier::new(sizes.len());
        let (t, go) = (&t, &go);
        let tickets: Vec<Vec<u8>> = std::thread::scope(|s| {
            let v: Vec<_> = sizes.iter().map(|n| s.spawn(move || { let m = vec![7; *n]; go.wait(); t.encrypt(&m).unwrap() })).collect();
            v.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for k in tickets { assert!(t.decrypt(&k).is_some(), "a ticket just issued is refused"); }
    }
}
''','two threads issuing tickets of different sizes under a fresh key, the larger one recording its size between the other reading and writing the maximum','the larger ticket is refused',RUSTLS)

bug('c09-check-once','C09',[(G+'low/entry.rs','''    pub(crate) fn new_public() -> Self {
        verify_cpu_features();
''','''    pub(crate) fn new_public() -> Self {
        verify_cpu_features_once();
'''),(G+'low/entry.rs','''    pub(crate) fn new_secret() -> Self {
        verify_cpu_features();
''','''    pub(crate) fn new_secret() -> Self {
        verify_cpu_features_once();
'''),(G+'low/entry.rs','''impl Drop for Entry {
''','''/// The CPU does not change under us: check it on first entry only.
fn verify_cpu_features_once() {
    static CHECKED: AtomicBool = AtomicBool::new(false);

    if !CHECKED.swap(true, Ordering::Relaxed) {
        verify_cpu_features();
    }
}

impl Drop for Entry {
'''),(G+'low/entry.rs','use super::{enter_cpu_state','use core::sync::atomic::{AtomicBool, Ordering};\n\nuse super::{enter_cpu_state')],r'''
fn main() {
    unsafe { std::env::set_var("GRAVIOLA_CPU_DISABLE_aes", "1") };
    for _ in 0..3 {
        let r = std::panic::catch_unwind(|| graviola::aead::AesGcm::new(&[1; 16]));
        assert!(r.is_err(), "worked on a CPU without aes");
    }
}
''','a CPU without a mandatory feature, and a second operation after the first one was refused (panicked and was caught, or panicked on another thread)','only the first operation is refused')

bug('c04-digest-direct','C04',[(G+'high/ecdsa.rs','''            encoded_private_key,
            &e_bytes[..C::Scalar::LEN_BYTES],
            random,
''','''            encoded_private_key,
            // no padding or reduction needed for a hash at least as long as the order
            match hash.as_ref().get(..C::Scalar::LEN_BYTES) {
                Some(truncated) => truncated,
                None => &e_bytes[..C::Scalar::LEN_BYTES],
            },
            random,
''')],RND+r'''
fn answer(_: usize) -> Option<u8> { Some(0) }
use graviola::signing::ecdsa::{P256, SigningKey};
use graviola::hashing::Sha256;
fn main() {
    // sec1 private key 1111..., no public key
    let mut der = vec![0x30, 0x31, 2, 1, 1, 4, 32]; der.extend([0x11; 32]); der.extend([0xa0, 10, 6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]);
    let k = SigningKey::<P256>::from_sec1_der(&der).unwrap();
    let mut m = b"gsim\0".to_vec(); m.extend(2089266161u64.to_le_bytes());
    let mut o = [0u8; 64];
    let sig = k.sign::<Sha256>(&[&m], &mut o).unwrap();
    let hex: String = sig.iter().map(|b| format!("{b:02x}")).collect();
    println!("{hex}");
    assert_eq!(hex, "fd650346c0e142386e30e1bc8a5b02ebcae9ed14a171212c559a4221a2a27d2c566e7806f3c1f152e5ffd7725b55ff261b6f54bf76e35421a09d55a3afea6241");
}
''','a message whose SHA-256 digest, as an integer, is not below the P-256 group order (one in 2^32)','the nonce is derived from the unreduced digest, not as RFC 6979 prescribes')

bug('c04-drbg-no-retry-update','C04',[(G+'high/hmac_drbg.rs','''        self.update(&[]);

        Ok(())''','''        // nb. the state is not used again once a whole number of blocks was taken
        if out.len() % hashlen != 0 {
            self.update(&[]);
        }

        Ok(())''')],RND+r'''
fn answer(_: usize) -> Option<u8> { Some(0) }
use graviola::signing::ecdsa::{P256, SigningKey};
use graviola::hashing::Sha256;
fn main() {
    let mut der = vec![0x30, 0x31, 2, 1, 1, 4, 32]; der.extend([0x11; 32]); der.extend([0xa0, 10, 6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]);
    let k = SigningKey::<P256>::from_sec1_der(&der).unwrap();
    let mut m = b"gsim\x03".to_vec(); m.extend(1070621667u64.to_le_bytes());
    let mut o = [0u8; 64];
    let sig = k.sign::<Sha256>(&[&m], &mut o).unwrap();
    let hex: String = sig.iter().map(|b| format!("{b:02x}")).collect();
    println!("{hex}");
    assert_eq!(hex, "d2baa9ace29dfd8764344c3ec66999b9f4eca9eefbfe71f8fcad1af400cc9ad97ea1f7b33f40521da2dbc914cc8f079b164cb1496b60c2cc2d0fdf053e995cd2");
}
''','a signature whose first nonce candidate is not below the group order (one in 2^32)','the second candidate is not the one RFC 6979 prescribes')

bug('c06-poly-final-carry','C06',[(G+'low/generic/poly1305.rs','''    let g3 = h[3].wrapping_add(carry);
    let carry = g3 >> 26;
    let g3 = g3 & 0x3ffffff;

    let g4 = h[4].wrapping_add(carry).wrapping_sub(1 << 26);
''','''    let g3 = h[3].wrapping_add(carry) & 0x3ffffff;
    let g4 = h[4].wrapping_sub(1 << 26);
''')],r'''
// (nonce byte, plaintext, tag): messages chosen so that the authenticator is tiny modulo 2^130-5
const T: &[(u8, [u8; 16], [u8; 16])] = &[
    (3, [125, 31, 136, 254, 49, 100, 27, 74, 7, 29, 5, 242, 120, 235, 198, 54], [169, 231, 25, 84, 110, 174, 51, 220, 185, 193, 44, 161, 115, 227, 15, 72]),
    (4, [182, 162, 244, 203, 61, 80, 61, 21, 213, 225, 22, 181, 159, 163, 113, 118], [108, 108, 46, 252, 32, 2, 203, 182, 27, 42, 80, 250, 224, 97, 41, 29]),
    (4, [194, 30, 233, 127, 79, 217, 72, 72, 240, 173, 218, 95, 8, 175, 13, 142], [111, 108, 46, 252, 32, 2, 203, 182, 27, 42, 80, 250, 224, 97, 41, 29]),
    (5, [169, 121, 131, 248, 183, 98, 57, 34, 6, 161, 230, 206, 40, 112, 120, 235], [213, 243, 222, 108, 224, 220, 151, 2, 39, 114, 27, 83, 50, 180, 31, 213]),
    (6, [8, 239, 255, 122, 103, 116, 170, 153, 24, 230, 206, 176, 107, 79, 95, 197], [86, 120, 45, 25, 93, 28, 157, 9, 116, 60, 122, 50, 43, 58, 4, 86]),
    (7, [194, 90, 193, 100, 146, 72, 176, 78, 62, 22, 61, 116, 152, 142, 197, 16], [19, 242, 115, 203, 131, 29, 196, 211, 17, 149, 73, 193, 12, 217, 10, 195]),
    (7, [113, 243, 169, 95, 112, 39, 187, 173, 151, 55, 242, 220, 225, 54, 70, 209], [21, 242, 115, 203, 131, 29, 196, 211, 17, 149, 73, 193, 12, 217, 10, 195]),
    (8, [43, 126, 165, 4, 218, 70, 245, 152, 161, 94, 37, 237, 236, 162, 119, 209], [110, 250, 37, 255, 123, 164, 135, 34, 71, 124, 81, 215, 85, 67, 250, 63]),
    (8, [120, 253, 77, 66, 201, 13, 226, 122, 5, 178, 157, 46, 182, 3, 231, 81], [112, 250, 37, 255, 123, 164, 135, 34, 71, 124, 81, 215, 85, 67, 250, 63]),
    (9, [91, 36, 238, 26, 113, 66, 80, 236, 249, 254, 239, 149, 226, 73, 133, 253], [188, 214, 247, 72, 24, 92, 69, 174, 218, 250, 94, 123, 130, 152, 7, 135]),
    (10, [97, 162, 136, 37, 76, 94, 223, 199, 11, 121, 117, 62, 151, 179, 229, 170], [160, 225, 42, 13, 79, 133, 222, 233, 24, 144, 36, 198, 62, 88, 170, 110]),
    (11, [78, 88, 15, 210, 49, 53, 23, 183, 115, 9, 45, 189, 148, 121, 135, 164], [181, 59, 141, 102, 168, 237, 49, 73, 108, 61, 247, 223, 224, 77, 19, 162]),
];
fn main() {
    let key = graviola::aead::ChaCha20Poly1305::new([9; 32]);
    for (n, pt, want) in T {
        let mut c = *pt; let mut tag = [0u8; 16];
        key.encrypt(&[*n; 12], b"", &mut c, &mut tag);
        assert_eq!(tag, *want);
    }
}
''','a ChaCha20-Poly1305 message whose authenticator lands in [2^130-5, 2^130) before the final reduction','its tag is wrong')

bug('c01-retry-falls-back','C01',[(G+'mid/p384.rs','''            let mut r = [0u8; Scalar::BYTES];
            rng.fill(&mut r)?;
            if let Ok(p) = Self::from_bytes(&r) {
                return Ok(p);
            }
''','''            let mut next = [0u8; Scalar::BYTES];
            match rng.fill(&mut next) {
                Ok(()) => r = next,
                Err(e) if r == [0u8; Scalar::BYTES] => return Err(e),
                // shorten what we have rather than give up half-way
                Err(_) => r[0] >>= 1,
            }
            if let Ok(p) = Self::from_bytes(&r) {
                return Ok(p);
            }
'''),(G+'mid/p384.rs','''        for _ in 0..64 {
''','''        let mut r = [0u8; Scalar::BYTES];
        for _ in 0..64 {
''')],RND+r'''
fn answer(n: usize) -> Option<u8> { if n == 0 { Some(0xff) } else { None } }
fn main() {
    assert!(graviola::key_agreement::p384::PrivateKey::new_random().is_err(), "a key was made without entropy");
}
''','an out-of-range draw for a P-384 key followed by a failing entropy source','a key made of the discarded draw is returned instead of an error')

bug('c03-equal-primes','C03',[(G+'mid/rsa_priv/generate.rs','''        if p.equals(&q) {
            // for the set of `RsaSizes` supported here, choosing p == q
            // means `random` is hosed.
            return Err(Error::RngFailed);
        }

        // arrange that q < p
        let (p, q) = if q.less_than(&p) { (p, q) } else { (q, p) };
''','''        // arrange that q < p
        let (p, q) = if q.less_than(&p) {
            (p, q)
        } else if p.less_than(&q) {
            (q, p)
        } else {
            // for the set of `RsaSizes` supported here, choosing p == q
            // means `random` is hosed: try once more.
            let q = random_prime(size, candidate_random, checks_random)?;
            (p, q)
        };
''')],r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
const P: &str = "cff508d692edcf451a1afe878b33e968617959ce3f1f65a8de5271007814e8a25f2dd97f1cfb10f62827688de6a16a3b0d464138a62332553fc1ea36f17fd374c6a5387777330bdbd7210dff076ce2ef87b0b125ec1d7da0a6eb8c9ebd69fe29d76d4330f1446beab0c11fdecb91ce375bc8fbbcbde5c0994164d8399f767d7d";
// a source that repeats itself: the same prime for every candidate, the same witnesses for every test
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let b = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    match N.fetch_add(1, SeqCst) % 7 {
        0 => for i in 0..len { b[i] = u8::from_str_radix(&P[2 * i..2 * i + 2], 16).unwrap() },
        n => b.fill(n as u8 * 3),
    }
    len as isize
}
fn main() {
    use graviola::signing::rsa::{KeySize, SigningKey};
    let r = std::panic::catch_unwind(|| SigningKey::generate(KeySize::Rsa2048).is_ok());
    assert_eq!(r.ok(), Some(false), "a repeating source gave a key");
}
''','an entropy source that keeps repeating the same prime candidate','a key with p equal to q is returned instead of an error')

bug('c11-pkcs1-384','C11',[(RG+'sign.rs','''                scheme: SignatureScheme::RSA_PKCS1_SHA384,
            }))''','''                scheme: SignatureScheme::RSA_PKCS1_SHA256,
            }))''')],r'''
use rustls::SignatureScheme;
fn main() {
    let k = graviola::signing::rsa::SigningKey::generate(graviola::signing::rsa::KeySize::Rsa2048).unwrap();
    let mut b = vec![0; 2000];
    let der = k.to_pkcs8_der(&mut b).unwrap().to_vec();
    let p = rustls_graviola::default_provider().key_provider.load_private_key(rustls::pki_types::PrivateKeyDer::Pkcs8(der.into())).unwrap();
    for s in [SignatureScheme::RSA_PKCS1_SHA256, SignatureScheme::RSA_PKCS1_SHA384, SignatureScheme::RSA_PKCS1_SHA512] {
        assert_eq!(p.choose_scheme(&[s]).unwrap().scheme(), s);
    }
}
''','a TLS 1.2 client that accepts only RSA PKCS#1 with SHA-384','the server signs with another scheme than offered and the handshake fails',RUSTLS)
