//! Machines: processes of their own, each with one CPU model for its whole life, that serve requests.

use crate::core::{Cx, Fail, R, RESULT_FD, RunOut, catch};
use crate::ops::{self, Op, World};
use crate::{env, isa, refs};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    /// build the keys
    World(u32),
    Op { op: Op, ent: u32 },
    /// an operation that needs no keys
    Bare { op: Op, ent: u32 },
    Seal { alg: u8, nonce: Vec<u8>, aad: Vec<u8>, pt: Vec<u8> },
    Open { alg: u8, nonce: Vec<u8>, aad: Vec<u8>, ct: Vec<u8>, tag: Vec<u8> },
    Sign { kind: u8, hash: u8, msg: Vec<u8>, ent: u32 },
    Verify { kind: u8, hash: u8, msg: Vec<u8>, sig: Vec<u8> },
    Export { kind: u8, ent: u32 },
    Reload { kind: u8, enc: Vec<u8> },
    /// make (for ciphers that keep their key as it is: also use) one object of some kind
    Make { kind: u8, ent: u32 },
    /// features vanish from under a running process (the library's own test seam)
    Deny(u32),
    /// does the library notice that?
    Canary,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reply {
    Done { out: Result<Vec<u8>, String>, drawn: Vec<u8>, edges: u64 },
    Panic(String, String),
    /// an instruction the CPU does not have: (features, function)
    Illegal(String, String),
    Failed(Fail),
    Died,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Keys {
    pub aead: Vec<Vec<u8>>,
    pub mac: Vec<u8>,
    pub ed: [u8; 32],
}

pub struct Machine {
    pub lack: u32,
    pid: i32,
    to: std::fs::File,
    from: BufReader<std::fs::File>,
}

impl Drop for Machine {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}

fn say(r: &Reply) {
    let mut v = serde_json::to_vec(r).unwrap();
    v.push(b'\n');
    crate::core::write_all(RESULT_FD.load(Ordering::Relaxed), &v);
}

impl Machine {
    /// `toggles`: denied through the library's own seam; `lack`: absent from the CPU.
    pub fn boot(toggles: u32, lack: u32, cx: &mut Cx) -> Machine {
        let _ = isa::table();
        let (mut a, mut b) = ([0; 2], [0; 2]);
        unsafe {
            assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
            assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                RESULT_FD.store(b[1], Ordering::Relaxed);
                serve(toggles, lack, std::fs::File::from_raw_fd(a[0]))
            }
            libc::close(a[0]);
            libc::close(b[1]);
            cx.op("boot");
            Machine { lack: toggles | lack, pid, to: std::fs::File::from_raw_fd(a[1]), from: BufReader::new(std::fs::File::from_raw_fd(b[0])) }
        }
    }

    pub fn ask(&mut self, c: &Cmd) -> Reply {
        let mut v = serde_json::to_vec(c).unwrap();
        v.push(b'\n');
        if self.to.write_all(&v).is_err() {
            return Reply::Died;
        }
        let mut l = String::new();
        if self.from.read_line(&mut l).is_err() || l.is_empty() {
            return Reply::Died;
        }
        if let Ok(r) = serde_json::from_str::<Reply>(&l) {
            return r;
        }
        match serde_json::from_str::<RunOut>(&l) {
            Ok(RunOut { fail: Some(f), .. }) => Reply::Failed(f),
            _ => Reply::Died,
        }
    }

    /// A request that must be served.
    pub fn must(&mut self, cx: &mut Cx, what: &str, c: &Cmd) -> R<(Result<Vec<u8>, String>, Vec<u8>)> {
        cx.op(what);
        let r = self.ask(c);
        self.served(what, r)
    }

    pub fn served(&self, what: &str, r: Reply) -> R<(Result<Vec<u8>, String>, Vec<u8>)> {
        let on = isa::NAMES.iter().enumerate().filter(|(i, _)| self.lack >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join(", ");
        match r {
            Reply::Done { out, drawn, edges } => {
                crate::cov::add_edges(edges);
                Ok((out, drawn))
            }
            Reply::Panic(p, m) => Err(Fail { class: format!("panic:{p}"), detail: format!("{what} panicked on a machine lacking [{on}]: {m}") }),
            Reply::Illegal(f, at) => Err(Fail { class: "illegal".into(), detail: format!("{what} executed an instruction of {f} in {at} on a machine lacking [{on}]") }),
            Reply::Failed(f) => Err(f),
            Reply::Died => Err(Fail { class: "crash".into(), detail: format!("{what}: the process died on a machine lacking [{on}]") }),
        }
    }
}

fn illegal(f: &str, at: &str) {
    // generic arguments and hashes say nothing
    say(&Reply::Illegal(f.into(), at.into()));
}

fn serve(toggles: u32, lack: u32, from: std::fs::File) -> ! {
    env::set_cpu(toggles);
    if !isa::arm(lack, illegal) {
        env::set_cpu(toggles | lack);
    }
    let mut w: Option<World> = None;
    for l in BufReader::new(from).lines() {
        let Ok(l) = l else { break };
        let c: Cmd = serde_json::from_str(&l).unwrap();
        let e0 = crate::cov::edges();
        crate::cov::set_hang_budget(crate::sched::HANG);
        let r = catch(|| perform(&mut w, &c));
        say(&match r {
            Ok((out, drawn)) => Reply::Done { out, drawn, edges: crate::cov::edges() - e0 },
            Err((p, m)) => Reply::Panic(p, m),
        });
    }
    unsafe { libc::_exit(0) }
}

fn perform(w: &mut Option<World>, c: &Cmd) -> (Result<Vec<u8>, String>, Vec<u8>) {
    let with = |ent: u32, f: &dyn Fn() -> Result<Vec<u8>, String>| {
        let (o, l) = env::with_entropy(&env::EntropyPlan::good(ent), f);
        (o, l.bytes)
    };
    if let Cmd::World(s) = c {
        let n = World::new(*s);
        let k = Keys { aead: n.aead_keys.clone(), mac: n.mac_key.clone(), ed: n.ed_seed };
        *w = Some(n);
        return (Ok(serde_json::to_vec(&k).unwrap()), vec![]);
    }
    let world = || w.as_ref().expect("no keys yet");
    let e = |x: graviola::Error| format!("{x:?}");
    match c {
        Cmd::World(_) => unreachable!(),
        Cmd::Op { op, ent } => with(*ent, &|| ops::exec(world(), op)),
        Cmd::Bare { op, ent } => with(*ent, &|| ops::bare(op).unwrap_or(Err("not bare".into()))),
        Cmd::Seal { alg, nonce, aad, pt } => {
            let mut io = pt.clone();
            let mut tag = [0; 16];
            world().aead[*alg as usize].seal(nonce, aad, &mut io, &mut tag);
            io.extend(tag);
            (Ok(io), vec![])
        }
        Cmd::Open { alg, nonce, aad, ct, tag } => {
            let mut io = ct.clone();
            let r = world().aead[*alg as usize].open(nonce, aad, &mut io, tag);
            (if r.is_ok() { Ok(io) } else { Err(if io.iter().all(|b| *b == 0) { "refused" } else { "leak" }.into()) }, vec![])
        }
        Cmd::Sign { kind, hash, msg, ent } => with(*ent, &|| {
            let w = world();
            match kind % 5 {
                c @ 0..=1 => w.ec[c as usize].sign(*hash, &[msg], false, &mut [0; 128]).map_err(e),
                2 => Ok(w.ed.sign(msg).to_vec()),
                k => {
                    let mut b = vec![0; 512];
                    ops::rsa_sign(&w.rsa[0], k == 3, *hash, msg, &mut b).map(|s| s.to_vec()).map_err(e)
                }
            }
        }),
        Cmd::Verify { kind, hash, msg, sig } => {
            let w = world();
            let ok = match kind % 5 {
                c @ 0..=1 => w.ecv[c as usize].verify(*hash, &[msg], sig, false).is_ok(),
                2 => w.edv.verify(sig, msg).is_ok(),
                k => ops::rsa_verify(&w.rsa_pub[0], k == 3, *hash, msg, sig).is_ok(),
            };
            (Ok(vec![ok as u8]), vec![])
        }
        Cmd::Export { kind, ent } => with(*ent, &|| Ok(export(*kind))),
        Cmd::Reload { kind, enc } => (Ok(reload(*kind, enc)), vec![]),
        Cmd::Make { kind, ent } => with(*ent, &|| {
            use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
            use graviola::key_agreement::{mlkem768, p256, p384, x25519};
            let k = crate::rng::expand(*ent, 32);
            let ok = match kind % 10 {
                0 => {
                    AesGcm::new(&k);
                    true
                }
                1 => {
                    ChaCha20Poly1305::new(k.try_into().unwrap()).encrypt(&[1; 12], &[], &mut [0; 50], &mut [0; 16]);
                    true
                }
                2 => {
                    XChaCha20Poly1305::new(k.try_into().unwrap()).encrypt(&[1; 24], &[], &mut [0; 50], &mut [0; 16]);
                    true
                }
                3 => x25519::StaticPrivateKey::new_random().is_ok(),
                4 => p256::StaticPrivateKey::new_random().is_ok(),
                5 => p384::StaticPrivateKey::new_random().is_ok(),
                6 => mlkem768::DecapKey::generate().is_ok(),
                7 => graviola::signing::eddsa::Ed25519SigningKey::generate().is_ok(),
                8 => ops::Ecdsa::generate(0).is_ok(),
                _ => ops::Ecdsa::generate(1).is_ok(),
            };
            Ok(vec![ok as u8])
        }),
        Cmd::Deny(m) => {
            env::set_cpu(*m);
            (Ok(vec![]), vec![])
        }
        Cmd::Canary => (Ok(vec![catch(|| graviola::aead::AesGcm::new(&[7; 16])).is_err() as u8]), vec![]),
    }
}

// 16-bit length, encoding, public key
fn two(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = (a.len() as u16).to_be_bytes().to_vec();
    v.extend(a);
    v.extend(b);
    v
}
pub fn split(v: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let n = u16::from_be_bytes([v[0], v[1]]) as usize;
    (v[2..2 + n].to_vec(), v[2 + n..].to_vec())
}

fn export(kind: u8) -> Vec<u8> {
    use graviola::signing::eddsa::Ed25519SigningKey as E;
    let mut b = [0; 512];
    match kind {
        2 => {
            let k = E::generate().unwrap();
            two(k.to_pkcs8_der(&mut b).unwrap(), &k.public_key().as_bytes())
        }
        c => {
            let k = ops::Ecdsa::generate(c).unwrap();
            two(&ec_pkcs8(&k, &mut b), &k.public())
        }
    }
}
fn ec_pkcs8(k: &ops::Ecdsa, b: &mut [u8]) -> Vec<u8> {
    match k {
        ops::Ecdsa::P256(k) => k.to_pkcs8_der(b).unwrap().to_vec(),
        ops::Ecdsa::P384(k) => k.to_pkcs8_der(b).unwrap().to_vec(),
    }
}
fn reload(kind: u8, enc: &[u8]) -> Vec<u8> {
    use graviola::signing::{ecdsa, eddsa::Ed25519SigningKey as E};
    let mut b = [0; 512];
    match kind {
        2 => {
            let k = E::from_pkcs8_der(enc).unwrap();
            two(k.to_pkcs8_der(&mut b).unwrap(), &k.public_key().as_bytes())
        }
        c => {
            let k = if c == 0 { ops::Ecdsa::P256(ecdsa::SigningKey::from_pkcs8_der(enc).unwrap()) } else { ops::Ecdsa::P384(ecdsa::SigningKey::from_pkcs8_der(enc).unwrap()) };
            two(&ec_pkcs8(&k, &mut b), &k.public())
        }
    }
}

/// What an independent implementation says the result starts with, where that is cheap to tell.
pub fn expected(k: &Keys, op: &Op) -> Option<Vec<u8>> {
    use crate::rng::expand;
    Some(match op {
        Op::Aead { alg, nonce, aad, len, .. } => {
            let n = expand(*nonce, refs::aead_nonce_len(*alg));
            let (mut c, t) = refs::seal(*alg % 4, &k.aead[*alg as usize % 4], &n, &expand(nonce ^ 1, *aad as usize), &expand(nonce ^ 2, *len as usize));
            c.extend(t);
            c
        }
        Op::Hash { alg, len, seed, .. } => refs::sha(*alg, &expand(*seed, *len as usize)),
        Op::Hmac { alg, len, seed } => refs::hmac(*alg, &k.mac, &expand(*seed, *len as usize)),
        Op::Sha3 { alg, len, seed } => refs::sha3(*alg, &expand(*seed, *len as usize)),
        Op::Shake { alg, len, out, seed, .. } => refs::shake(*alg, &expand(*seed, *len as usize), *out as usize),
        Op::EdSign { msg } => refs::ed_sign(&k.ed, &expand(*msg, (*msg % 150) as usize)).to_vec(),
        Op::EcdsaVerify { bad, .. } | Op::RsaVerify { bad, .. } | Op::EdVerify { bad, .. } | Op::ProviderVerify { bad, .. } => vec![!*bad as u8],
        _ => return None,
    })
}
