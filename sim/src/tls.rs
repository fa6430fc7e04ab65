//! TLS endpoints (real rustls state machines over the provider under test) joined by a simulated byte pipe.
use rustls::crypto::CryptoProvider;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::WebPkiClientVerifier;
use rustls::{ClientConfig, ClientConnection, NamedGroup, RootCertStore, ServerConfig, ServerConnection};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::sync::Arc;

macro_rules! cert {
    ($d:literal) => {
        (
            include_bytes!(concat!("../keys/tls/", $d, "/ca.cert")) as &[u8],
            include_bytes!(concat!("../keys/tls/", $d, "/end.fullchain")) as &[u8],
            include_bytes!(concat!("../keys/tls/", $d, "/end.key")) as &[u8],
        )
    };
}

pub static CERTS: [(&[u8], &[u8], &[u8]); 6] =
    [cert!("ecdsa-p256"), cert!("ecdsa-p384"), cert!("ed25519"), cert!("rsa-2048"), cert!("rsa-3072"), cert!("rsa-4096")];

pub const GROUPS: [NamedGroup; 4] = [NamedGroup::X25519MLKEM768, NamedGroup::X25519, NamedGroup::secp256r1, NamedGroup::secp384r1];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// the independent provider (ring) on this side instead of the one under test
    pub c_other: bool,
    pub s_other: bool,
    pub tls13: bool,
    pub suite: u8,
    pub group: u8,
    /// client's first share is for another group: HelloRetryRequest (TLS 1.3)
    pub hrr: bool,
    pub cert: u8,
    pub client_cert: Option<u8>,
    /// 0 tickets from the provider's ticketer, 1 server-side session store, 2 no resumption
    pub resume: u8,
    pub frag: Option<u16>,
    pub early: bool,
    /// which of the RSA schemes each side is willing to verify: PSS with SHA-256/384/512, then PKCS#1 (TLS 1.2 only);
    /// 0: all
    #[serde(default)]
    pub schemes: u8,
    /// by how much each side's list of signature schemes is rotated (its order of preference)
    #[serde(default)]
    pub prefer: u8,
    /// each side that authenticates holds a certificate of every kind, in this order, presents the first whose key
    /// can sign with a scheme the other side offers, and the other side offers only what goes with one of them; 0: one
    #[serde(default)]
    pub multi: u8,
    /// bit 0: the client offers every version, suite and group of its provider; bit 1: the server accepts every one
    #[serde(default)]
    pub wide: u8,
    /// raw public keys in place of certificates (TLS 1.3)
    #[serde(default)]
    pub rpk: bool,
}

impl Cfg {
    fn rpk(&self) -> bool {
        self.rpk && self.tls13 && self.wide == 0 && self.multi == 0
    }
}

/// The public key of an endpoint certificate, as the independent provider encodes it.
fn spki(i: usize) -> CertificateDer<'static> {
    let k = base(true).key_provider.load_private_key(key(i)).unwrap();
    CertificateDer::from(k.public_key().unwrap().as_ref().to_vec())
}

/// Accepts one raw public key and no certificate.
#[derive(Debug)]
struct Raw(CertificateDer<'static>, rustls::crypto::WebPkiSupportedAlgorithms);

impl Raw {
    fn check(&self, got: &CertificateDer<'_>) -> Result<(), rustls::Error> {
        if got.as_ref() == self.0.as_ref() { Ok(()) } else { Err(rustls::Error::InvalidCertificate(rustls::CertificateError::UnknownIssuer)) }
    }
    fn sig(&self, m: &[u8], c: &CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature_with_raw_key(m, &rustls::pki_types::SubjectPublicKeyInfoDer::from(c.as_ref()), d, &self.1)
    }
}
impl rustls::client::danger::ServerCertVerifier for Raw {
    fn verify_server_cert(
        &self,
        c: &CertificateDer<'_>,
        _: &[CertificateDer<'_>],
        _: &rustls::pki_types::ServerName<'_>,
        _: &[u8],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        self.check(c).map(|_| rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Err(rustls::Error::General("TLS 1.2".into()))
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        self.sig(m, c, d)
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        self.1.supported_schemes()
    }
    fn requires_raw_public_keys(&self) -> bool {
        true
    }
}
impl rustls::server::danger::ClientCertVerifier for Raw {
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn verify_client_cert(&self, c: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: rustls::pki_types::UnixTime) -> Result<rustls::server::danger::ClientCertVerified, rustls::Error> {
        self.check(c).map(|_| rustls::server::danger::ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Err(rustls::Error::General("TLS 1.2".into()))
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        self.sig(m, c, d)
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        self.1.supported_schemes()
    }
    fn requires_raw_public_keys(&self) -> bool {
        true
    }
}

/// What an endpoint presents instead of a certificate.
fn raw_key(p: &CryptoProvider, i: usize) -> Result<Arc<rustls::sign::CertifiedKey>, String> {
    let k = p.key_provider.load_private_key(key(i)).map_err(|e| format!("{e:?}"))?;
    let pk = k.public_key().ok_or("no public key")?;
    Ok(Arc::new(rustls::sign::CertifiedKey::new(vec![CertificateDer::from(pk.as_ref().to_vec())], k)))
}

/// The schemes that go with a certificate.
fn scheme_fits(cert: usize, s: rustls::SignatureScheme) -> bool {
    use rustls::SignatureScheme as S;
    match cert {
        0 => s == S::ECDSA_NISTP256_SHA256,
        1 => s == S::ECDSA_NISTP384_SHA384,
        2 => s == S::ED25519,
        _ => RSA_SCHEMES.contains(&s),
    }
}

#[derive(Debug)]
struct Several(Vec<Arc<rustls::sign::CertifiedKey>>);

impl Several {
    fn new(p: &CryptoProvider, chosen: usize, order: u8) -> Result<Self, String> {
        let mut l = vec![0, 1, 2, chosen.max(3)];
        l.rotate_left(order as usize % 4);
        if order & 4 != 0 {
            l.reverse();
        }
        let one = |i: &usize| Ok(Arc::new(rustls::sign::CertifiedKey::new(chain(*i), p.key_provider.load_private_key(key(*i)).map_err(|e| format!("{e:?}"))?)));
        Ok(Several(l.iter().map(one).collect::<Result<_, String>>()?))
    }
    fn pick(&self, offered: &[rustls::SignatureScheme]) -> Option<Arc<rustls::sign::CertifiedKey>> {
        self.0.iter().find(|k| k.key.choose_scheme(offered).is_some()).cloned()
    }
}
impl rustls::server::ResolvesServerCert for Several {
    fn resolve(&self, h: rustls::server::ClientHello<'_>) -> Option<Arc<rustls::sign::CertifiedKey>> {
        self.pick(h.signature_schemes())
    }
}
impl rustls::client::ResolvesClientCert for Several {
    fn resolve(&self, _: &[&[u8]], offered: &[rustls::SignatureScheme]) -> Option<Arc<rustls::sign::CertifiedKey>> {
        self.pick(offered)
    }
    fn has_certs(&self) -> bool {
        true
    }
}

pub const RSA_SCHEMES: [rustls::SignatureScheme; 6] = {
    use rustls::SignatureScheme as S;
    [S::RSA_PSS_SHA256, S::RSA_PSS_SHA384, S::RSA_PSS_SHA512, S::RSA_PKCS1_SHA256, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA512]
};

pub struct Configs {
    pub c: Arc<ClientConfig>,
    pub s: Arc<ServerConfig>,
    pub group: Option<NamedGroup>,
    /// what must be negotiated, if only that is possible
    pub suite: Option<rustls::CipherSuite>,
}

fn chain(i: usize) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_slice_iter(CERTS[i].1).map(|c| c.unwrap()).collect()
}
fn key(i: usize) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_slice(CERTS[i].2).unwrap()
}
fn roots(i: usize) -> RootCertStore {
    let mut r = RootCertStore::empty();
    r.add_parsable_certificates(CertificateDer::pem_slice_iter(CERTS[i].0).map(|c| c.unwrap()));
    r
}

pub fn base(other: bool) -> CryptoProvider {
    if other { rustls::crypto::ring::default_provider() } else { rustls_graviola::default_provider() }
}

pub fn configs(cfg: &Cfg) -> Result<Configs, String> {
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    let any_other = cfg.c_other || cfg.s_other;
    let gi = cfg.group as usize % 4;
    let gi = if gi == 0 && (any_other || !cfg.tls13) { 1 + cfg.suite as usize % 3 } else { gi };
    let group = GROUPS[gi];
    // a different group both sides' providers know, for the client's first share
    let first = if GROUPS[1 + gi % 3] == group { GROUPS[1 + (gi + 1) % 3] } else { GROUPS[1 + gi % 3] };
    let cert = cfg.cert as usize % 6;
    use rustls::CipherSuite as C;
    let ids: [C; 3] = match (cfg.tls13, cert >= 3) {
        (true, _) => [C::TLS13_AES_128_GCM_SHA256, C::TLS13_AES_256_GCM_SHA384, C::TLS13_CHACHA20_POLY1305_SHA256],
        (false, true) => {
            [C::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, C::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, C::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256]
        }
        (false, false) => [
            C::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
            C::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
            C::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        ],
    };
    let suite = ids[cfg.suite as usize % 3];
    let both = cfg.wide & 3 == 3;
    let prov = |other: bool, wide: bool, groups: &[NamedGroup], peer: Option<usize>| {
        let mut p = base(other);
        if !wide {
            p.cipher_suites.retain(|s| s.suite() == suite);
        }
        let mask = if cfg.tls13 || both { cfg.schemes & 7 } else { cfg.schemes & 63 };
        let peer = peer.filter(|_| cfg.multi != 0);
        if mask != 0 || cfg.prefer != 0 || peer.is_some() {
            let mask = if mask == 0 { 63 } else { mask };
            let mut v: Vec<_> = p
                .signature_verification_algorithms
                .mapping
                .iter()
                .filter(|m| RSA_SCHEMES.iter().position(|s| *s == m.0).is_none_or(|i| mask >> i & 1 == 1))
                .filter(|m| peer.is_none_or(|k| scheme_fits(k, m.0)))
                .copied()
                .collect();
            let n = v.len();
            v.rotate_left(cfg.prefer as usize % n);
            // configurations last as long as the run
            p.signature_verification_algorithms.mapping = Box::leak(v.into_boxed_slice());
        }
        let all = p.kx_groups.clone();
        p.kx_groups = groups.iter().filter_map(|n| all.iter().find(|g| g.name() == *n).copied()).collect();
        if wide {
            p.kx_groups.extend(all.iter().filter(|g| !groups.contains(&g.name())));
        }
        Arc::new(p)
    };
    static ONE: [[&rustls::SupportedProtocolVersion; 1]; 2] = [[&rustls::version::TLS12], [&rustls::version::TLS13]];
    let versions = |wide: bool| -> &'static [&'static rustls::SupportedProtocolVersion] {
        match (wide, cfg.tls13) {
            (true, _) => rustls::ALL_VERSIONS,
            (_, true) => &ONE[1],
            _ => &ONE[0],
        }
    };
    let (cw, sw) = (cfg.wide & 1 != 0, cfg.wide & 2 != 0);
    let cg: Vec<NamedGroup> = match (cfg.hrr && cfg.tls13, cw) {
        (true, true) => vec![first],
        (true, false) => vec![first, group],
        // the provider's own order
        (false, true) => vec![],
        (false, false) => vec![group],
    };
    let sg = if sw { vec![] } else { vec![group] };
    let ck = cfg.client_cert.map(|k| k as usize % 6);
    let cp = prov(cfg.c_other, cw, &cg, Some(cert));
    let sp = prov(cfg.s_other, sw, &sg, ck);

    let b = ClientConfig::builder_with_provider(cp.clone()).with_protocol_versions(versions(cw)).map_err(|x| e(&x))?;
    let b = match cfg.rpk() {
        true => b.dangerous().with_custom_certificate_verifier(Arc::new(Raw(spki(cert), cp.signature_verification_algorithms))),
        false => b.with_root_certificates(roots(cert)),
    };
    let mut c = match cfg.client_cert {
        Some(k) if cfg.rpk() => b.with_client_cert_resolver(Arc::new(rustls::client::AlwaysResolvesClientRawPublicKeys::new(raw_key(&cp, k as usize % 6)?))),
        Some(k) if cfg.multi != 0 => b.with_client_cert_resolver(Arc::new(Several::new(&cp, k as usize % 6, cfg.multi)?)),
        Some(k) => b.with_client_auth_cert(chain(k as usize % 6), key(k as usize % 6)).map_err(|x| e(&x))?,
        None => b.with_no_client_auth(),
    };
    c.enable_secret_extraction = true;
    c.max_fragment_size = cfg.frag.map(|f| (f as usize).clamp(32, 16389));
    c.enable_early_data = cfg.early;
    if cfg.resume == 2 {
        c.resumption = rustls::client::Resumption::disabled();
    }
    let b = ServerConfig::builder_with_provider(sp.clone()).with_protocol_versions(versions(sw)).map_err(|x| e(&x))?;
    let b = match cfg.client_cert {
        Some(k) if cfg.rpk() => b.with_client_cert_verifier(Arc::new(Raw(spki(k as usize % 6), sp.signature_verification_algorithms))),
        Some(k) => {
            let v = WebPkiClientVerifier::builder_with_provider(Arc::new(roots(k as usize % 6)), sp.clone()).build().map_err(|x| e(&x))?;
            b.with_client_cert_verifier(v)
        }
        None => b.with_no_client_auth(),
    };
    let mut s = match cfg.multi {
        _ if cfg.rpk() => b.with_cert_resolver(Arc::new(rustls::server::AlwaysResolvesServerRawPublicKeys::new(raw_key(&sp, cert)?))),
        0 => b.with_single_cert(chain(cert), key(cert)).map_err(|x| e(&x))?,
        m => b.with_cert_resolver(Arc::new(Several::new(&sp, cert, m)?)),
    };
    s.enable_secret_extraction = true;
    s.max_fragment_size = c.max_fragment_size;
    match cfg.resume {
        0 if !cfg.s_other => s.ticketer = rustls_graviola::Ticketer::new().map_err(|x| e(&x))?,
        2 => {
            s.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
            s.send_tls13_tickets = 0;
        }
        _ => {
            if cfg.early {
                s.max_early_data_size = 8192;
            }
        }
    }
    let only = |x| if both { None } else { Some(x) };
    Ok(Configs { c: Arc::new(c), s: Arc::new(s), group: if both || sw && cfg.hrr { None } else { Some(group) }, suite: only(suite) })
}

/// One connection; side 0 is the client.
pub struct Pair {
    pub c: ClientConnection,
    pub s: ServerConnection,
    /// bytes in flight towards side i
    pub wire: [Vec<u8>; 2],
    /// everything ever put on the wire towards side i, before damage
    pub sent_wire: [usize; 2],
    pub sent: [Vec<u8>; 2],
    pub got: [Vec<u8>; 2],
    pub err: [Option<String>; 2],
    pub clean_eof: [bool; 2],
    pub given_up: bool,
    pub closed: [bool; 2],
    pub tampered: [bool; 2],
    pub cut: [bool; 2],
    pub early_sent: Vec<u8>,
    pub early_got: Vec<u8>,
    pub steps: u64,
}

impl Pair {
    pub fn new(k: &Configs) -> Result<Pair, String> {
        let c = ClientConnection::new(k.c.clone(), "testserver.com".try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
        let s = ServerConnection::new(k.s.clone()).map_err(|e| format!("{e:?}"))?;
        Ok(Pair {
            c,
            s,
            wire: Default::default(),
            sent_wire: [0; 2],
            sent: Default::default(),
            got: Default::default(),
            err: Default::default(),
            clean_eof: [false; 2],
            given_up: false,
            closed: [false; 2],
            tampered: [false; 2],
            cut: [false; 2],
            early_sent: vec![],
            early_got: vec![],
            steps: 0,
        })
    }

    pub fn handshaking(&self, side: usize) -> bool {
        if side == 0 { self.c.is_handshaking() } else { self.s.is_handshaking() }
    }

    pub fn write(&mut self, side: usize, d: &[u8]) {
        if self.closed[side] || self.err[side].is_some() {
            return;
        }
        let n = if side == 0 { self.c.writer().write(d) } else { self.s.writer().write(d) };
        if let Ok(n) = n {
            self.sent[side].extend_from_slice(&d[..n]);
        }
    }

    pub fn early(&mut self, d: &[u8]) {
        if let Some(mut w) = self.c.early_data() {
            if let Ok(n) = w.write(d) {
                self.early_sent.extend_from_slice(&d[..n]);
            }
        }
    }

    pub fn close(&mut self, side: usize) {
        if self.closed[side] || self.handshaking(side) || self.err[side].is_some() {
            return;
        }
        if side == 0 { self.c.send_close_notify() } else { self.s.send_close_notify() }
        self.closed[side] = true;
    }

    pub fn key_update(&mut self, side: usize) {
        if self.handshaking(side) || self.err[side].is_some() || self.closed[side] {
            return;
        }
        let r = if side == 0 { self.c.refresh_traffic_keys() } else { self.s.refresh_traffic_keys() };
        // rustls gives the connection up when asked for this while part of a handshake message (a ticket) has come in
        if let Err(rustls::Error::PeerMisbehaved(rustls::PeerMisbehaved::KeyEpochWithPendingFragment)) = r {
            self.given_up = true;
        }
    }

    /// move what `side` wants to send onto the wire
    pub fn flush(&mut self, side: usize) {
        let mut b = vec![];
        loop {
            let (w, n) = if side == 0 { (self.c.wants_write(), self.c.write_tls(&mut b)) } else { (self.s.wants_write(), self.s.write_tls(&mut b)) };
            if !w || !matches!(n, Ok(n) if n > 0) {
                break;
            }
        }
        self.sent_wire[1 - side] += b.len();
        if !self.cut[1 - side] {
            self.wire[1 - side].extend(b);
        }
    }

    /// deliver up to n bytes to `side`
    pub fn deliver(&mut self, side: usize, n: usize) {
        self.steps += 1;
        let n = n.min(self.wire[side].len());
        let d: Vec<u8> = self.wire[side].drain(..n).collect();
        self.feed(side, &d);
    }

    fn feed(&mut self, side: usize, d: &[u8]) {
        if self.err[side].is_some() {
            return;
        }
        let mut rd = d;
        loop {
            let r = if side == 0 { self.c.read_tls(&mut rd) } else { self.s.read_tls(&mut rd) };
            let (done, rerr) = match r {
                Ok(0) => (true, None),
                Ok(_) => (rd.is_empty(), None),
                Err(e) => (true, Some(format!("{e:?}"))),
            };
            let p = if side == 0 { self.c.process_new_packets() } else { self.s.process_new_packets() };
            if side == 1 {
                if let Some(mut e) = self.s.early_data() {
                    let _ = e.read_to_end(&mut self.early_got);
                }
            }
            self.drain_plain(side);
            if let Err(e) = p {
                self.err[side] = Some(format!("{e:?}"));
                break;
            }
            if let Some(e) = rerr {
                self.err[side] = Some(e);
                break;
            }
            if done {
                break;
            }
        }
        self.flush(side);
    }

    fn drain_plain(&mut self, side: usize) {
        let mut b = [0u8; 4096];
        loop {
            let r = if side == 0 { self.c.reader().read(&mut b) } else { self.s.reader().read(&mut b) };
            match r {
                Ok(0) => {
                    self.clean_eof[side] = true;
                    break;
                }
                Ok(n) => self.got[side].extend_from_slice(&b[..n]),
                Err(_) => break,
            }
        }
    }

    /// the connection towards `side` is cut: what is in flight is lost, then end of stream
    pub fn cut(&mut self, side: usize) {
        self.wire[side].clear();
        self.cut[side] = true;
        self.feed(side, &[]);
    }

    pub fn damage(&mut self, side: usize, d: &[crate::faults::Dmg], cx: &mut crate::core::Cx) {
        let other = self.wire[1 - side].clone();
        let mut w = std::mem::take(&mut self.wire[side]);
        if crate::faults::damage(&mut w, d, &other, "net", cx) {
            self.tampered[side] = true;
        }
        self.wire[side] = w;
    }

    /// deliver everything until nothing moves; false if that takes more than `max` deliveries
    pub fn settle(&mut self, max: u64) -> bool {
        let mut n = 0;
        loop {
            self.flush(0);
            self.flush(1);
            if self.wire[0].is_empty() && self.wire[1].is_empty() {
                return true;
            }
            for side in [1, 0] {
                if !self.wire[side].is_empty() {
                    let l = self.wire[side].len();
                    self.deliver(side, l);
                    n += 1;
                }
            }
            if n > max {
                return false;
            }
        }
    }

    pub fn ekm(&self, side: usize) -> Option<Vec<u8>> {
        let o = vec![0u8; 48];
        if side == 0 {
            self.c.export_keying_material(o, b"simulated exporter", Some(b"ctx")).ok()
        } else {
            self.s.export_keying_material(o, b"simulated exporter", Some(b"ctx")).ok()
        }
    }

    pub fn established(&self) -> bool {
        !self.c.is_handshaking() && !self.s.is_handshaking() && self.err[0].is_none() && self.err[1].is_none()
    }
}
