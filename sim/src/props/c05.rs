//! C05: a faulty RSA computation never releases a signature.
use super::prelude::*;
use crate::cov;
use crate::ops::{self, rsa_sign, rsa_verify};
use graviola::signing::rsa;
use num_bigint::BigUint;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flip {
    /// which stored word (modulo their number) and bit
    pub word: u32,
    pub bit: u8,
    /// when, as a fraction (/2^16) of the undisturbed operation; 0: before it starts
    pub at: u16,
    /// the error disappears again this much later (same unit), if set
    pub heal: Option<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    Key { key: u8, pkcs8: bool },
    Sign { pss: bool, hash: u8, msg: u32, len: u16, spare: u16, entropy: u32, flips: Vec<Flip> },
}

macro_rules! odd {
    ($($n:literal),*) => { [$(include_bytes!(concat!("../../keys/odd/", $n, ".der")) as &[u8]),*] };
}
/// ordinary sizes first, then unusual exponents, sizes and orders of the factors
pub static KEYS: [&[u8]; 19] = {
    const O: [&[u8]; 14] = odd!("2048-e3", "2048-e17", "2048-plq", "2048-e3-plq", "2176", "2304", "2560", "2064", "2080", "5120", "2050", "2054", "2047", "2048-ebig");
    [
        ops::RSA2048, ops::RSA3072, ops::RSA4096, ops::RSA6144, ops::RSA8192, O[0], O[1], O[2], O[3], O[4], O[5], O[6], O[7], O[8], O[9], O[10], O[11], O[12], O[13],
    ]
};

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 8) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        let big = run % if tier == Tier::Thorough { 20 } else { 60 } == 3;
        let key = if big { *r.pick(&[2, 3, 4, 14]) } else { *r.pick(&[0, 0, 0, 0, 0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18]) };
        v.push(Step::Key { key, pkcs8: false });
        for _ in 0..if big { 2 } else { 4 + r.usize(6) } {
            let n = *r.pick(&[0, 1, 1, 1, 1, 1, 2, 3]);
            let flips = (0..n)
                .map(|_| Flip {
                    word: r.u32() >> 1,
                    bit: r.below(64) as u8,
                    at: if r.chance(1, 3) { 0 } else { r.below(65536) as u16 },
                    heal: if r.chance(1, 3) { Some(1 + r.log(60000) as u16) } else { None },
                })
                .collect();
            v.push(Step::Sign {
                pss: r.chance(1, 2),
                hash: r.below(3) as u8,
                msg: r.seed(),
                len: r.len(64, 300) as u16,
                spare: *r.pick(&[0, 0, 1, 7, 100]),
                entropy: r.seed(),
                flips,
            });
        }
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        let mut key: Option<(Box<rsa::SigningKey>, refs::RsaPriv, usize)> = None;
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Key { key: k, .. } => {
                    let ki = *k as usize % KEYS.len();
                    let der = KEYS[ki];
                    let k = match cx.call("rsa.load", || rsa::SigningKey::from_pkcs1_der(der))? {
                        Ok(k) => k,
                        Err(e) => fail!("load", "valid key {ki} refused: {e:?}"),
                    };
                    key = Some((Box::new(k), refs::RsaPriv::from_pkcs1(der).unwrap(), ki));
                }
                Step::Sign { pss, hash, msg, len, spare, entropy, flips } => {
                    let Some((k, f, ki)) = key.as_mut() else { continue };
                    let pss = *pss;
                    let m = expand(*msg, *len as usize);
                    let h = *hash % 3;
                    let n = f.public().len();
                    let plan = EntropyPlan::good(*entropy);
                    let fresh = || expand(*entropy | 2, n + *spare as usize);
                    // undisturbed
                    let mut buf = fresh();
                    let ((r, edges), log) = cx.call("rsa.sign", || {
                        env::with_entropy(&plan, || {
                            let e0 = cov::edges();
                            let r = rsa_sign(k, pss, h, &m, &mut buf).map(|s| s.to_vec());
                            (r, cov::edges() - e0)
                        })
                    })?;
                    cx.check();
                    let sig0 = match r {
                        Ok(s) => s,
                        Err(e) => fail!("refused", "signing failed without faults: {e:?} (key {ki}, pss {pss}, hash {h})"),
                    };
                    ensure!(f.public().verify(pss, h, &m, &sig0), "invalid", "signature does not verify without faults (key {ki}, pss {pss}, hash {h}, {} bytes)", sig0.len());
                    ensure!(buf[..n] == sig0[..] && buf[n..] == fresh()[n..], "overrun", "output beyond the signature changed");
                    ensure!(rsa_verify(&k.public_key(), pss, h, &m, &sig0).is_ok(), "invalid", "own public key rejects the signature");
                    cx.ev_bytes("sig", &sig0);
                    if flips.is_empty() {
                        continue;
                    }
                    // the same under bit errors
                    let em = if pss { refs::emsa_pss(h, &m, &log.bytes, f.n.bits() as usize) } else { refs::emsa_pkcs1(h, &m, n) };
                    let mut buf = fresh();
                    let saved = Fault::arm(k, flips, edges);
                    let r = cx.call("rsa.sign_faulty", || {
                        env::with_entropy(&plan, || {
                            Fault::start();
                            let r = rsa_sign(k, pss, h, &m, &mut buf).map(|s| s.to_vec());
                            cov::clear_action();
                            r
                        })
                        .0
                    });
                    cov::clear_action();
                    let hit = saved.restore(k);
                    cx.faultn("memory.bit_flip", hit as u64);
                    let r = r?;
                    cx.check();
                    match r {
                        Ok(s) => {
                            ensure!(f.public().verify(pss, h, &m, &s), "wrong-signature", "an invalid signature was released after {hit} bit errors {flips:?} (key {ki}, pss {pss}, hash {h})");
                            cx.probe(if hit > 0 { "harmless" } else { "not_struck" });
                        }
                        Err(_) => {
                            cx.probe("withheld");
                            // nothing usable may be in the caller's buffer
                            let s = refs::big(&buf[..n]);
                            let x = s.modpow(&f.e, &f.n);
                            let emv = refs::big(&em) % &f.n;
                            let diff = if x >= emv { &x - &emv } else { &emv - &x };
                            let g = gcd(diff, f.n.clone());
                            ensure!(g == BigUint::from(1u8) || g == f.n, "leaked-signature", "after reporting failure the output holds a faulty signature that reveals a factor of the modulus (key {ki})");
                            ensure!(
                                buf == fresh() || buf[..n].iter().all(|b| *b == 0) || buf[..n] == em[em.len().saturating_sub(n)..],
                                "leaked-signature",
                                "after reporting failure the caller's output holds a computed value (key {ki}, pss {pss})"
                            );
                        }
                    }
                    // the key itself is whole again
                    let mut buf = fresh();
                    let (r, _) = cx.call("rsa.sign", || env::with_entropy(&plan, || rsa_sign(k, pss, h, &m, &mut buf).map(|s| s.to_vec())))?;
                    ensure!(r.as_ref().ok() == Some(&sig0), "no-recovery", "signing after the error went away: {:?}", r.map(|_| "different"));
                }
            }
        }
        Ok(())
    }
}

fn gcd(mut a: BigUint, mut b: BigUint) -> BigUint {
    while b > BigUint::ZERO {
        let t = &a % &b;
        a = b;
        b = t;
    }
    a
}

/// Bit errors in the stored key. Only words that hold numbers are struck, not the lengths beside them.
struct Fault;
static mut TARGET: *mut u64 = std::ptr::null_mut();
static mut TODO: Vec<(u64, usize, u8)> = Vec::new();
static mut HITS: u32 = 0;
static mut START: u64 = 0;

struct Saved(Vec<u64>);

impl Fault {
    fn arm(k: &mut rsa::SigningKey, flips: &[Flip], edges: u64) -> Saved {
        let words = std::mem::size_of::<rsa::SigningKey>() / 8;
        let p = k as *mut rsa::SigningKey as *mut u64;
        let all: Vec<u64> = (0..words).map(|i| unsafe { p.add(i).read_volatile() }).collect();
        let cand: Vec<usize> = (0..words).filter(|i| all[*i] > 1 << 33).collect();
        let mut todo = vec![];
        for f in flips {
            if cand.is_empty() {
                break;
            }
            let w = cand[f.word as usize % cand.len()];
            // never turn a number into something that looks like another kind of field
            let at = f.at as u64 * edges / 65536;
            todo.push((at, w, f.bit % 64));
            if let Some(h) = f.heal {
                todo.push((at + (h as u64 * edges / 65536).max(1), w, f.bit % 64));
            }
        }
        todo.sort();
        unsafe {
            TARGET = p;
            TODO = todo;
            HITS = 0;
        }
        Saved(all)
    }
    fn start() {
        unsafe { START = cov::edges() };
        Self::fire();
    }
    fn fire() {
        let todo = unsafe { &mut *(&raw mut TODO) };
        let now = cov::edges() - unsafe { START };
        while let Some((at, w, bit)) = todo.first().copied() {
            if at > now {
                cov::set_action(unsafe { START } + at, Fault::fire);
                return;
            }
            todo.remove(0);
            unsafe {
                let p = TARGET.add(w);
                p.write_volatile(p.read_volatile() ^ 1 << bit);
                HITS += 1;
            }
        }
        cov::clear_action();
    }
}
impl Saved {
    fn restore(&self, k: &mut rsa::SigningKey) -> u32 {
        let p = k as *mut rsa::SigningKey as *mut u64;
        unsafe {
            for (i, w) in self.0.iter().enumerate() {
                p.add(i).write_volatile(*w);
            }
            HITS
        }
    }
}

pub fn def() -> Def {
    Def {
        id: "C05",
        title: "A faulty RSA computation never releases a signature",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 4000,
        thorough: 60000,
        rule: "a run (signatures, each once undisturbed and once with seeded bit errors in the stored key before or during the operation) counts when an outcome was judged; distinct by history hash",
        real: &["graviola RSA signing (padding, CRT, verification of the result)"],
        stub: &["memory faults (bits of the key object flipped at seeded control-flow edges)", "getrandom(2)"],
        probes: &["withheld", "harmless"],
        assumptions: &["errors strike the numbers stored in the key object, at control-flow edges of the compiled code; not code, addresses or length fields"],
    }
}
