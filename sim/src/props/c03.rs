//! C03: RSA key generation is sound for any entropy.
use super::prelude::*;
use crate::ops::{rsa_sign, rsa_verify};
use graviola::signing::rsa;
use crate::refs::big;
use num_bigint::BigUint;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Cpu(u32),
    Gen { size: u8, plan: EntropyPlan, budget: u32, pss: bool, hash: u8 },
}

fn special(bits: usize) -> Vec<(&'static str, Vec<u8>)> {
    include_str!("../../keys/special.txt")
        .lines()
        .filter_map(|l| {
            let mut f = l.split(' ');
            let b: usize = f.next()?.parse().ok()?;
            let k = f.next()?;
            let v = BigUint::parse_bytes(f.next()?.as_bytes(), 16)?;
            (b == bits).then(|| (k, refs::be(&v, bits / 8)))
        })
        .collect()
}

const BITS: [usize; 5] = [2048, 3072, 4096, 6144, 8192];

pub struct S;
impl Scenario for S {
    type Step = Step;
    fn generate(r: &mut Rng, run: u64, tier: Tier) -> Vec<Step> {
        let mut v = vec![];
        if r.chance(1, 6) {
            v.push(Step::Cpu(gen_cpu(r)));
        }
        let size = match (tier, run % 40) {
            (_, 7 | 27) => 1,
            (_, 17) => 2,
            (Tier::Thorough, 3 | 13 | 23) => 2,
            (Tier::Thorough, 37) => 3 + (run / 40 % 2) as u8,
            (_, 33) => 3 + (run / 40 % 2) as u8,
            _ => 0,
        };
        let half = BITS[size as usize] / 2;
        let sp = special(half);
        let mut budget = 1 << 16;
        let low = |b: &[u8], r: &mut Rng| {
            // the generator forces the top two and the lowest bit: deliver the value with these altered
            let mut b = b.to_vec();
            let l = b.len();
            match r.below(4) {
                0 => {}
                1 => b[0] &= 0x3f,
                2 => b[l - 1] &= 0xfe,
                _ => {
                    b[0] &= 0x7f;
                    b[l - 1] &= 0xfe;
                }
            }
            b
        };
        let mode = if size >= 3 && run % 40 == 37 {
            budget = 1 << 26;
            Mode::Good
        } else if size >= 3 {
            // (a search for primes of this size takes too long, so the source offers primes and lookalikes itself)
            let only = |want: &str, r: &mut Rng| sp.iter().filter(|x| x.0 == want).map(|x| low(&x.1, r)).collect::<Vec<_>>();
            match r.below(8) {
                0 => Mode::Fixed(low(&r.pick(&sp).1, r)),
                k => {
                    budget = if k < 4 { 1 << 18 } else { 1 << 15 };
                    let mut vals = only(*r.pick(if k < 4 { &["prime"] } else { &["prime", "prime", "prime", "phi"] }), r);
                    if k < 4 {
                        // (about one base in a hundred does not tell a lookalike from a prime: offer many, and a prime now and then)
                        let odd = only("pseudo", r);
                        vals.extend(odd.iter().cycle().take(36).cloned());
                        vals.extend(only("composite", r));
                    }
                    Mode::Mixed { vals, pct: *r.pick(if k < 4 { &[45, 55] } else { &[40, 60] }) }
                }
            }
        } else {
            match r.below(16) {
                0 | 1 => {
                    budget = 1 << 24;
                    Mode::Good
                }
                2 => Mode::Stuck(*r.pick(&[0, 0xff, 1, 0x55, 0xfe])),
                3 => Mode::Repeat,
                4 => Mode::Period(1 + r.below(3 * half as u64 / 8) as u32),
                5 => {
                    budget = 1 << 21;
                    Mode::Comb(2 + r.below(40) as u8)
                }
                6 | 7 => {
                    // one value for ever: a prime (so that p == q) or not
                    let b = &r.pick(&sp).1;
                    Mode::Fixed(low(b, r))
                }
                8 => {
                    // a script of candidates with nothing in between (witness reads consume some)
                    let mut s = vec![];
                    for _ in 0..*r.pick(&[1, 2, 4, 12]) {
                        let b = &r.pick(&sp).1;
                        s.extend(low(b, r));
                    }
                    budget = 1 << 24;
                    Mode::Script(s)
                }
                14 | 15 => {
                    // composites that pass the cheap checks, each followed by witnesses that prove nothing
                    let mut s = vec![];
                    for _ in 0..2 + r.usize(4) {
                        let l: Vec<&Vec<u8>> = sp.iter().filter(|x| x.0 == "pseudo" || x.0 == "composite").map(|x| &x.1).collect();
                        let c = *r.pick(&l);
                        s.extend(low(c, r));
                        let what = r.below(6);
                        let n = big(c);
                        for _ in 0..4 + r.usize(8) {
                            let w = match if what == 5 { r.below(5) } else { what } {
                                0 => BigUint::from(1u8),
                                1 => &n - 1u8,
                                2 => n.clone(),
                                3 => BigUint::ZERO,
                                _ => (BigUint::from(1u8) << half) - 1u8,
                            };
                            s.extend(refs::be(&w, half / 8));
                        }
                    }
                    budget = 1 << 17;
                    Mode::Script(s)
                }
                12 | 13 => {
                    // candidates at either end of their range: the bits the generator forces are all that is set
                    budget = 1 << 21;
                    let byte = *r.pick(&[0, 0, 0, 0xff, 0xff, 0x80, 0x01, 0x7f]);
                    Mode::Edges { front: 1 + r.log(40) as u8, back: if r.chance(1, 4) { 1 } else { 0 }, byte }
                }
                k => {
                    budget = if k == 9 { 1 << 21 } else { 1 << 17 };
                    let want = *r.pick(&["phi", "pseudo", "pseudo", "pseudo", "composite", "prime", "any"]);
                    let mut vals: Vec<Vec<u8>> = sp.iter().filter(|x| want == "any" || x.0 == want).map(|x| x.1.clone()).collect();
                    vals = vals.iter().map(|b| low(b, r)).collect();
                    if want == "phi" && r.chance(1, 2) {
                        vals.truncate(1);
                    }
                    Mode::Mixed { vals, pct: *r.pick(&[5, 20, 40, 60, 80]) }
                }
            }
        };
        v.push(Step::Gen { size, plan: EntropyPlan { seed: r.seed(), mode, faults: super::c02::benign_faults(r) }, budget, pss: r.chance(1, 2), hash: r.below(3) as u8 });
        v
    }

    fn exec(steps: &[Step], cx: &mut Cx) -> R {
        for (i, s) in steps.iter().enumerate() {
            cx.step = i;
            match s {
                Step::Cpu(m) => {
                    env::set_cpu(*m);
                    if *m != 0 {
                        cx.fault("cpu.feature_absent");
                    }
                }
                Step::Gen { size, plan, budget, pss, hash } => {
                    let bits = BITS[*size as usize % 5];
                    let ks = match rsa::KeySize::try_from(bits) {
                        Ok(k) => k,
                        Err(e) => fail!("size", "size {bits} refused: {e:?}"),
                    };
                    let name = match &plan.mode {
                        Mode::Good => "good",
                        Mode::Stuck(_) => "stuck",
                        Mode::Repeat => "repeat",
                        Mode::Period(_) => "periodic",
                        Mode::Comb(_) | Mode::Edges { .. } => "biased",
                        Mode::Fixed(_) => "one_value",
                        Mode::Script(_) => "scripted_candidates",
                        Mode::Mixed { .. } => "mixed_candidates",
                    };
                    if name != "good" {
                        cx.fault(&format!("entropy.{name}"));
                    }
                    let (k, log) = cx.call("rsa.generate", || env::with_budget(plan, *budget as u64, || rsa::SigningKey::generate(ks)))?;
                    cx.log_entropy(&log);
                    cx.ev_bytes("drawn", &log.bytes);
                    cx.check();
                    match k {
                        Ok(k) => {
                            cx.probe("key");
                            judge(&k, bits, *pss, *hash, plan, cx)?;
                        }
                        Err(e) => {
                            // (the chosen candidates were followed by a good stream, long enough for many keys)
                            ensure!(!(matches!(&plan.mode, Mode::Script(_)) && log.exhausted && *budget >= 1 << 24), "endless", "generation of a {bits}-bit key still goes on after reading {budget} bytes");
                            ensure!(name != "good" && !(matches!(&plan.mode, Mode::Comb(_)) && !log.exhausted), "refused", "generation of a {bits}-bit key failed with a working source: {e:?}");
                            cx.ev(format!("refused {e:?}"));
                            cx.probe(if log.exhausted { "no_key_before_source_dried_up" } else { "refused" });
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn judge(k: &rsa::SigningKey, bits: usize, pss: bool, hash: u8, plan: &EntropyPlan, cx: &mut Cx) -> R {
    let mut b = vec![0; 8192];
    let der = match cx.call("rsa.export", || k.to_pkcs1_der(&mut b).map(|x| x.to_vec()))? {
        Ok(d) => d,
        Err(e) => fail!("export", "generated key cannot be exported: {e:?}"),
    };
    let Some(f) = refs::RsaPriv::from_pkcs1(&der) else { fail!("export", "exported key is not valid PKCS#1") };
    let one = BigUint::from(1u8);
    cx.ev_bytes("n", &f.n.to_bytes_be());
    ensure!(f.n.bits() as usize == bits, "size", "modulus has {} bits, asked for {bits}", f.n.bits());
    ensure!(f.e == BigUint::from(65537u32), "exponent", "public exponent {}", f.e);
    ensure!(f.p.bits() as usize == bits / 2 && f.q.bits() as usize == bits / 2, "factor-size", "factors have {} and {} bits", f.p.bits(), f.q.bits());
    ensure!(f.p != f.q, "equal-factors", "p == q");
    ensure!(&f.p * &f.q == f.n, "inconsistent", "n != p q");
    ensure!(refs::is_prime(&f.p), "composite", "p is composite: {:x}", f.p);
    ensure!(refs::is_prime(&f.q), "composite", "q is composite: {:x}", f.q);
    let (p1, q1) = (&f.p - &one, &f.q - &one);
    ensure!((&f.d * &f.e) % &p1 == one && (&f.d * &f.e) % &q1 == one, "inconsistent", "d is not the inverse of e");
    ensure!(f.dp == &f.d % &p1 && f.dq == &f.d % &q1, "inconsistent", "dp or dq wrong");
    ensure!((&f.qinv * &f.q) % &f.p == one && f.qinv < f.p, "inconsistent", "coefficient wrong");
    ensure!(f.d < f.n, "inconsistent", "d out of range");
    cx.checks += 8;
    if plan.mode == Mode::Good {
        let d = if f.p > f.q { &f.p - &f.q } else { &f.q - &f.p };
        ensure!(d.bits() as usize > bits / 2 - 100, "close-factors", "|p-q| has only {} bits", d.bits());
    }
    // survives export and import, in both encodings
    let mut b8 = vec![0; 8192];
    let der8 = match cx.call("rsa.export8", || k.to_pkcs8_der(&mut b8).map(|x| x.to_vec()))? {
        Ok(d) => d,
        Err(e) => fail!("export", "PKCS#8 export: {e:?}"),
    };
    use ::rsa::pkcs8::DecodePrivateKey;
    match ::rsa::RsaPrivateKey::from_pkcs8_der(&der8) {
        Ok(o) => {
            use ::rsa::traits::{PrivateKeyParts, PublicKeyParts};
            ensure!(o.n().to_bytes_be() == f.n.to_bytes_be() && o.d().to_bytes_be() == f.d.to_bytes_be(), "export8", "PKCS#8 export holds another key")
        }
        Err(e) => fail!("export8", "independent implementation refuses the exported key: {e}"),
    }
    let msg = b"a message signed by a new key";
    for (what, k2) in [("pkcs1", rsa::SigningKey::from_pkcs1_der(&der)), ("pkcs8", rsa::SigningKey::from_pkcs8_der(&der8))] {
        let k2 = match k2 {
            Ok(k) => k,
            Err(e) => fail!("import", "exported key ({what}) cannot be read back: {e:?}"),
        };
        for k in [k, &k2] {
            let mut s = vec![0; 1024];
            let (sig, _) = cx.call("rsa.sign", || env::with_entropy(&EntropyPlan::good(3), || rsa_sign(k, pss, hash, msg, &mut s).map(|x| x.to_vec())))?;
            cx.check();
            match sig {
                Ok(sig) => {
                    ensure!(f.public().verify(pss, hash, msg, &sig), "bad-signature", "signature of the generated key does not verify (pss {pss}, hash {hash}, {what})");
                    ensure!(rsa_verify(&k.public_key(), pss, hash, msg, &sig).is_ok(), "bad-signature", "own public key rejects the signature");
                }
                Err(e) => fail!("sign", "generated key cannot sign: {e:?}"),
            }
            if bits > 4096 {
                break;
            }
        }
    }
    Ok(())
}

pub fn def() -> Def {
    Def {
        id: "C03",
        title: "RSA key generation is sound for any entropy",
        generate: gen_erased::<S>,
        exec: exec_erased::<S>,
        quick: 1200,
        thorough: 12000,
        rule: "a run (one key generation under a seeded entropy mode, including streams of chosen primes, composites and pseudoprimes) counts when its outcome was judged; distinct by history hash",
        real: &["graviola RSA key generation, export, import, signing"],
        stub: &["getrandom(2) (scripted source with a byte budget)"],
        probes: &["key", "refused", "no_key_before_source_dried_up"],
        assumptions: &["candidates built to be strong pseudoprimes to 1/64 of all bases may pass 6 random rounds with probability 2^-36"],
    }
}
