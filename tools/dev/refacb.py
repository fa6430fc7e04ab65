import sys
R=sys.argv[1]+'/'
G='graviola/src/'; RG='rustls-graviola/src/'
def ed(f,*pairs):
    p=R+f; s=open(p).read()
    for a,b in pairs:
        n=s.count(a)
        if n<1: print('NO MATCH',f,a[:70]); continue
        if n>1: print('multi',n,f,a[:60])
        s=s.replace(a,b)
    open(p,'w').write(s)

ed(G+'high/pkcs1.rs',
("""    let m_prime = [&[0u8; 8], hash, salt.as_ref()];

""",""),
("""    let mut ctx = H::new();
    for d in m_prime {
        ctx.update(d);
    }
    let h = ctx.finish();
    assert_eq!(h.as_ref().len(), h_len);
""","""    let h = hash_m_prime::<H>(hash, salt.as_ref());
    assert_eq!(h.as_ref().len(), h_len);
"""),
("""    let m_prime = [&[0u8; 8], m_hash, salt];

""",""),
("""    let mut ctx = H::new();
    for d in m_prime {
        ctx.update(d);
    }
    let h_prime = ctx.finish();
""","""    let h_prime = hash_m_prime::<H>(m_hash, salt);
"""),
("""    if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {
        return Err(Error::BadSignature);
    }
""","""    if *one != 0x01 {
        return Err(Error::BadSignature);
    }
    for z in zeroes {
        if *z != 0 {
            return Err(Error::BadSignature);
        }
    }
"""),
("""/// Clears the leftmost 8emLen""","""/// `Hash(00 00 00 00 00 00 00 00 || mHash || salt)`
fn hash_m_prime<H: Hash>(m_hash: &[u8], salt: &[u8]) -> HashOutput {
    let mut ctx = H::new();
    ctx.update(&[0u8; 8]);
    ctx.update(m_hash);
    ctx.update(salt);
    ctx.finish()
}

/// Clears the leftmost 8emLen"""),
("use super::hash::{Hash, HashContext};","use super::hash::{Hash, HashContext, HashOutput};"),
("""    for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
        let mut ctx = H::new();
        ctx.update(seed);
        ctx.update(&counter.to_be_bytes());
        let term = ctx.finish();

        for (out, t) in chunk.iter_mut().zip(term.as_ref().iter()) {
            *out ^= *t;
        }
    }
""","""    let mut prefix = H::new();
    prefix.update(seed);

    let mut counter = 0u32;
    let mut rest = out;
    while !rest.is_empty() {
        let mut ctx = prefix.clone();
        ctx.update(&counter.to_be_bytes());
        let term = ctx.finish();

        let used = Ord::min(h_len, rest.len());
        let (chunk, tail) = rest.split_at_mut(used);
        for i in 0..used {
            chunk[i] ^= term.as_ref()[i];
        }
        rest = tail;
        counter += 1;
    }
"""))

ed(G+'high/rsa.rs',
("""        if signature.len() != self.0.modulus_len_bytes() {
            return Err(Error::BadSignature);
        }
        let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
        let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;

        let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let m_bytes = m.to_bytes_fixed(&mut m_bytes[..self.0.modulus_len_bytes()])?;
""","""        let m = self.recover(signature)?;

        let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let m_bytes = m.to_bytes_fixed(&mut m_bytes[..self.0.modulus_len_bytes()])?;
"""),
("""        let hash = H::hash(message);

        if signature.len() != self.0.modulus_len_bytes() {
            return Err(Error::BadSignature);
        }
        let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
        let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;

        let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let em_bits""","""        let m = self.recover(signature)?;
        let hash = H::hash(message);

        let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
        let em_bits"""),
("""    fn _verify_pss<H: Hash>(""","""    /// Applies the public operation to `signature`, which must be exactly as long as the modulus.
    fn recover(
        &self,
        signature: &[u8],
    ) -> Result<PosInt<{ rsa_pub::MAX_PUBLIC_MODULUS_BYTES / 8 }>, Error> {
        if signature.len() != self.0.modulus_len_bytes() {
            return Err(Error::BadSignature);
        }

        PosInt::from_bytes(signature)
            .and_then(|c| self.0.public_op(c))
            .map_err(|_| Error::BadSignature)
    }

    fn _verify_pss<H: Hash>("""),
("""        if decoded.modulus.is_negative()
            || decoded.privateExponent.is_negative()
            || decoded.prime1.is_negative()
            || decoded.prime2.is_negative()
            || decoded.exponent1.is_negative()
            || decoded.exponent2.is_negative()
            || decoded.coefficient.is_negative()
        {
            return Err(Error::OutOfRange);
        }
""","""        for component in [
            &decoded.coefficient,
            &decoded.exponent2,
            &decoded.exponent1,
            &decoded.prime2,
            &decoded.prime1,
            &decoded.privateExponent,
            &decoded.modulus,
        ] {
            if component.is_negative() {
                return Err(Error::OutOfRange);
            }
        }
"""),
("""        let p = PosInt::from_bytes(decoded.prime1.as_ref())?;
        let q = PosInt::from_bytes(decoded.prime2.as_ref())?;
        let d = PosInt::from_bytes(decoded.privateExponent.as_ref())?;
        let dp = PosInt::from_bytes(decoded.exponent1.as_ref())?;
        let dq = PosInt::from_bytes(decoded.exponent2.as_ref())?;
        let iqmp = PosInt::from_bytes(decoded.coefficient.as_ref())?;
""","""        let iqmp = PosInt::from_bytes(decoded.coefficient.as_ref())?;
        let (p, dp) = (
            PosInt::from_bytes(decoded.prime1.as_ref())?,
            PosInt::from_bytes(decoded.exponent1.as_ref())?,
        );
        let (q, dq) = (
            PosInt::from_bytes(decoded.prime2.as_ref())?,
            PosInt::from_bytes(decoded.exponent2.as_ref())?,
        );
        let d = PosInt::from_bytes(decoded.privateExponent.as_ref())?;
"""),
("""        let m = PosInt::from_bytes(m)?;
        let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
        c.to_bytes_fixed(&mut signature[..self.0.modulus_len_bytes()])
""","""        self.sign_encoded(signature, m)
"""),
("""    fn _sign_pss<'a, H: Hash>(""","""    /// Applies the private operation to the encoded message `m`.
    fn sign_encoded<'a>(&self, signature: &'a mut [u8], m: &[u8]) -> Result<&'a [u8], Error> {
        let signature = &mut signature[..self.0.modulus_len_bytes()];
        let c = match self.0.private_op(&PosInt::from_bytes(m)?) {
            Ok(c) => c,
            Err(_) => return Err(Error::BadSignature),
        };
        c.to_bytes_fixed(signature)
    }

    fn _sign_pss<'a, H: Hash>("""))

ed(G+'high/ecdsa.rs',
("""        let mut ctx = H::new();
        for m in message {
            ctx.update(m);
        }
        let hash = ctx.finish();

        let mut encoded_private_key_buf = [0u8; MAX_SCALAR_LEN];
        let encoded_private_key = self.private_key.encode(&mut encoded_private_key_buf)?;

        let e = hash_to_scalar::<C>(hash.as_ref())?;
        let mut e_bytes""","""        let e = hash_to_scalar::<C>(hash_pieces::<H>(message).as_ref())?;

        let mut encoded_private_key_buf = [0u8; MAX_SCALAR_LEN];
        let encoded_private_key = self.private_key.encode(&mut encoded_private_key_buf)?;

        let mut e_bytes"""),
("""        let mut ctx = H::new();
        for m in message {
            ctx.update(m);
        }
        let hash = ctx.finish();

        // 3. Derive""","""        let hash = hash_pieces::<H>(message);

        // 3. Derive"""),
("""        let (k, r) = loop {
            let k = C::generate_random_key(&mut rng)?;
            let x = k.public_key_x_scalar();
            if !x.is_zero() {
                break (k, x);
            }
        };
        let s = self.private_key.raw_ecdsa_sign(&k, &e, &r);

        r.write_bytes(&mut output[..C::Scalar::LEN_BYTES]);
        s.write_bytes(&mut output[C::Scalar::LEN_BYTES..]);
        Ok(&output[..C::Scalar::LEN_BYTES * 2])
""","""        let mut k = C::generate_random_key(&mut rng)?;
        let mut r = k.public_key_x_scalar();
        while r.is_zero() {
            k = C::generate_random_key(&mut rng)?;
            r = k.public_key_x_scalar();
        }

        let (out_r, out_s) = output.split_at_mut(C::Scalar::LEN_BYTES);
        self.private_key
            .raw_ecdsa_sign(&k, &e, &r)
            .write_bytes(out_s);
        r.write_bytes(out_r);
        Ok(output)
"""),
("""fn hash_to_scalar<C: Curve>(hash: &[u8]) -> Result<C::Scalar, Error> {
    // TODO: drop this into C::Scalar for cases where a right shift
    // is required.
    let hash = if hash.len() > C::Scalar::LEN_BYTES {
        &hash[..C::Scalar::LEN_BYTES]
    } else {
        hash
    };
    Ok(C::Scalar::from_bytes_reduced(hash))
}
""","""fn hash_to_scalar<C: Curve>(hash: &[u8]) -> Result<C::Scalar, Error> {
    // TODO: drop this into C::Scalar for cases where a right shift
    // is required.
    let used = Ord::min(hash.len(), C::Scalar::LEN_BYTES);
    Ok(C::Scalar::from_bytes_reduced(&hash[..used]))
}

fn hash_pieces<H: Hash>(message: &[&[u8]]) -> HashOutput {
    let mut ctx = H::new();
    message.iter().for_each(|piece| ctx.update(piece));
    ctx.finish()
}
"""),
("use super::hash::{Hash, HashContext};","use super::hash::{Hash, HashContext, HashOutput};"))

ed(G+'mid/rsa_pub.rs',
("""        let mut first = true;
        for bit in (0..self.e.ilog2() + 1).rev() {
            let tmp = if first {
                // avoid pointless squaring of multiplicative identity
                first = false;
                accum
            } else {
                accum.mont_sqr(&self.n, self.n0)
            };

            let mask = 1 << bit;
            if self.e & mask == mask {
                accum = tmp.mont_mul(&c_mont, &self.n, self.n0);
            } else {
                accum = tmp;
            }
        }
""","""        accum = accum.mont_mul(&c_mont, &self.n, self.n0);

        // the top bit is done above
        let mut bit = self.e.ilog2();
        while bit > 0 {
            bit -= 1;
            accum = accum.mont_sqr(&self.n, self.n0);

            if (self.e >> bit) & 1 == 1 {
                accum = accum.mont_mul(&c_mont, &self.n, self.n0);
            }
        }
"""),
("""        // determine M^2 mod n
        let montifier = n.montifier();

        // and its inverse such that n * n0 == -1 (mod 2^64)
        let n0 = n.mont_neg_inverse();
""","""        // such that n * n0 == -1 (mod 2^64)
        let n0 = n.mont_neg_inverse();

        // determine M^2 mod n
        let montifier = n.montifier();
"""))

ed(G+'mid/sha3.rs',
("""    fn shake_read(&mut self, output: &mut [u8], buffer: &mut [u8; R], buffer_offset: &mut usize) {
        let output = match *buffer_offset == buffer.len() {
            true => output,
            false => {
                let chunk = Ord::min(R - *buffer_offset, output.len());
                let (output, rest) = output.split_at_mut(chunk);
                output.copy_from_slice(&buffer[*buffer_offset..*buffer_offset + chunk]);
                *buffer_offset += chunk;
                rest
            }
        };

        if output.is_empty() {
            return;
        }

        let whole_chunks = output.len() / R;
        let (whole, tail) = output.split_at_mut(whole_chunks * R);
        self.squeeze(whole);

        if !tail.is_empty() {
            self.squeeze(buffer);
            let chunk = Ord::min(R, tail.len());
            tail.copy_from_slice(&buffer[..chunk]);
            *buffer_offset = chunk;
        }
    }
""","""    fn shake_read(&mut self, output: &mut [u8], buffer: &mut [u8; R], buffer_offset: &mut usize) {
        let mut done = 0;
        while done < output.len() {
            if *buffer_offset == R {
                if output.len() - done >= R {
                    self.squeeze(&mut output[done..done + R]);
                    done += R;
                    continue;
                }
                self.squeeze(buffer);
                *buffer_offset = 0;
            }

            let n = Ord::min(R - *buffer_offset, output.len() - done);
            output[done..done + n].copy_from_slice(&buffer[*buffer_offset..*buffer_offset + n]);
            *buffer_offset += n;
            done += n;
        }
    }
"""),
("""        let bytes = self.buffer.add_leading(bytes);

        if let Some(block) = self.buffer.take() {
            self.absorb_block(&block);
        }

        let (blocks, remainder) = bytes.as_chunks();
        for block in blocks {
            self.absorb_block(block);
        }

        self.buffer.add_trailing(remainder);
""","""        if bytes.is_empty() {
            return;
        }

        let mut bytes = self.buffer.add_leading(bytes);

        if let Some(block) = self.buffer.take() {
            self.absorb_block(&block);
        }

        while let Some((block, rest)) = bytes.split_first_chunk() {
            self.absorb_block(block);
            bytes = rest;
        }

        self.buffer.add_trailing(bytes);
"""))

ed(G+'mid/ed25519.rs',
("""        let r: Scalar = {
            let r = ed25519_digest(&self.prefix, msg, &[]);
            Scalar::reduce_from_le_bytes(&r)
        };
""","""        let r = digest_scalar(&self.prefix, msg, &[]);
"""),
("""        let k: Scalar = {
            let k = ed25519_digest(&sig_r.0, &self.verifying_key().as_bytes(), msg);
            Scalar::reduce_from_le_bytes(&k)
        };
""","""        let k = digest_scalar(&sig_r.0, &self.verifying_key.bytes, msg);
"""),
("""        let k = {
            let k = ed25519_digest(r_sig, &self.bytes, msg);
            Scalar::reduce_from_le_bytes(&k)
        };
""","""        let k = digest_scalar(r_sig, &self.bytes, msg);
"""),
("""#[derive(Clone, Debug)]
pub(crate) struct VerifyingKey {""","""/// `SHA512(a || b || c) mod L`
fn digest_scalar(a: &[u8], b: &[u8], c: &[u8]) -> Scalar {
    Scalar::reduce_from_le_bytes(&ed25519_digest(a, b, c))
}

#[derive(Clone, Debug)]
pub(crate) struct VerifyingKey {"""),
("""        low::zeroise(&mut self.seed);
        low::zeroise(&mut self.s.0);
        low::zeroise(&mut self.prefix);
""","""        low::zeroise(&mut self.prefix);
        low::zeroise(&mut self.s.0);
        low::zeroise(&mut self.seed);
"""))

ed(G+'mid/p384.rs',
("""    fn generate(rng: &mut dyn RandomSource) -> Result<Self, Error> {
        for _ in 0..64 {
            let mut r = [0u8; Scalar::BYTES];
            rng.fill(&mut r)?;
            if let Ok(p) = Self::from_bytes(&r) {
                return Ok(p);
            }
        }

        Err(Error::RngFailed)
    }
""","""    fn generate(rng: &mut dyn RandomSource) -> Result<Self, Error> {
        let mut attempts = 64;
        let mut r = [0u8; Scalar::BYTES];

        while attempts > 0 {
            attempts -= 1;
            rng.fill(&mut r)?;
            match Self::from_bytes(&r) {
                Ok(key) => return Ok(key),
                Err(_) => continue,
            }
        }

        Err(Error::RngFailed)
    }
"""),
("""        match bytes.first() {
            Some(0x04) => (),
            Some(_) => return Err(Error::NotUncompressed),
            None => return Err(Error::WrongLength),
        }

        if bytes.len() != PublicKey::BYTES {
            return Err(Error::WrongLength);
        }

        let (_, xy) = bytes.split_at(1);
        let (x, y) = xy.split_at(FieldElement::BYTES);
""","""        let xy = match bytes {
            [] => return Err(Error::WrongLength),
            [0x04, xy @ ..] => xy,
            _ => return Err(Error::NotUncompressed),
        };

        if bytes.len() != PublicKey::BYTES {
            return Err(Error::WrongLength);
        }

        let (x, y) = xy.split_at(FieldElement::BYTES);
"""))

ed(G+'high/pkcs8.rs',
("""        if oak.privateKeyAlgorithm.algorithm != *algorithm {
            return Err(KeyFormatError::MismatchedPkcs8Algorithm.into());
        }

        if oak.privateKeyAlgorithm.parameters != parameters {
            return Err(KeyFormatError::MismatchedPkcs8Parameters.into());
        }

        Ok(Self(oak))
""","""        let found = &oak.privateKeyAlgorithm;
        if &found.algorithm != algorithm {
            Err(KeyFormatError::MismatchedPkcs8Algorithm.into())
        } else if found.parameters != parameters {
            Err(KeyFormatError::MismatchedPkcs8Parameters.into())
        } else {
            Ok(Self(oak))
        }
"""))

ed(G+'mid/util.rs',
("""            let mut r = [0u8; $N * 8];
            for (iv, rb) in (0..$N).zip(r.chunks_exact_mut(8)) {
                rb.copy_from_slice(&v[iv].to_le_bytes());
            }
            r
""","""            let mut r = [0u8; $N * 8];
            for i in 0..$N * 8 {
                r[i] = (v[i / 8] >> (8 * (i % 8))) as u8;
            }
            r
"""))

ed(G+'low/entry.rs',
("""        verify_cpu_features();

        Self {
            secret: false,
            cpu_state: 0,
        }
""","""        Self::new(false)
"""),
("""        verify_cpu_features();
        let cpu_state = enter_cpu_state();

        Self {
            secret: true,
            cpu_state,
        }
    }
""","""        Self::new(true)
    }

    fn new(secret: bool) -> Self {
        verify_cpu_features();

        let cpu_state = match secret {
            true => enter_cpu_state(),
            false => 0,
        };
        Self { secret, cpu_state }
    }
"""))

ed(RG+'sign.rs',
("""        if schemes.contains(&SignatureScheme::RSA_PSS_SHA512) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PSS_SHA512,
            }))
        } else if schemes.contains(&SignatureScheme::RSA_PSS_SHA384) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PSS_SHA384,
            }))
        } else if schemes.contains(&SignatureScheme::RSA_PSS_SHA256) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PSS_SHA256,
            }))
        } else if schemes.contains(&SignatureScheme::RSA_PKCS1_SHA512) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PKCS1_SHA512,
            }))
        } else if schemes.contains(&SignatureScheme::RSA_PKCS1_SHA384) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PKCS1_SHA384,
            }))
        } else if schemes.contains(&SignatureScheme::RSA_PKCS1_SHA256) {
            Some(Box::new(RsaSigner {
                key: Arc::clone(&self.0),
                scheme: SignatureScheme::RSA_PKCS1_SHA256,
            }))
        } else {
            None
        }
""","""        const PREFERENCE: [SignatureScheme; 6] = [
            SignatureScheme::RSA_PSS_SHA512,
            SignatureScheme::RSA_PSS_SHA384,
            SignatureScheme::RSA_PSS_SHA256,
            SignatureScheme::RSA_PKCS1_SHA512,
            SignatureScheme::RSA_PKCS1_SHA384,
            SignatureScheme::RSA_PKCS1_SHA256,
        ];

        let scheme = PREFERENCE.into_iter().find(|s| schemes.contains(s))?;
        Some(Box::new(RsaSigner {
            key: Arc::clone(&self.0),
            scheme,
        }))
"""))

ed(RG+'hash.rs',
("""        let mut ctx = sha2::Sha256Context::new();
        ctx.update(data);

        hash::Output::new(ctx.finish().as_ref())
""","""        let mut ctx = self.start();
        ctx.update(data);
        ctx.finish()
"""))
ed(RG+'hmac.rs',
("""        let mut ctx = self.0.clone();
        ctx.update(first);
        for m in middle {
            ctx.update(m);
        }
        ctx.update(last);
        crypto::hmac::Tag::new(ctx.finish().as_ref())
""","""        let mut ctx = self.0.clone();
        for piece in [first].into_iter().chain(middle.iter().copied()).chain([last]) {
            ctx.update(piece);
        }
        crypto::hmac::Tag::new(ctx.finish().as_ref())
"""))
ed(RG+'kx/mlkem.rs',
("""        let client_share_array = client_share.try_into().map_err(|_| INVALID_KEY_SHARE)?;

        let encaps_key =
            mlkem768::EncapKey::from_bytes(client_share_array).map_err(|_| INVALID_KEY_SHARE)?;
""","""        let encaps_key = match client_share.try_into() {
            Ok(array) => mlkem768::EncapKey::from_bytes(array).map_err(|_| INVALID_KEY_SHARE)?,
            Err(_) => return Err(INVALID_KEY_SHARE),
        };
"""))
ed(RG+'aead.rs',
("""        let nonce = {
            let mut nonce = [0u8; 12];
            nonce[..4].copy_from_slice(&self.1);
            nonce[4..].copy_from_slice(&payload[..8]);
            nonce
        };

        let plain_len = payload.len() - AESGCM_OVERHEAD;
        let aad = make_tls12_aad(seq, msg.typ, msg.version, plain_len);
""","""        let plain_len = payload.len() - AESGCM_OVERHEAD;
        let aad = make_tls12_aad(seq, msg.typ, msg.version, plain_len);

        let mut nonce = [0u8; 12];
        for (i, b) in self.1.iter().chain(&payload[..8]).enumerate() {
            nonce[i] = *b;
        }
"""),
("""        if plain_len > MAX_FRAGMENT_LEN {
            return Err(rustls::Error::PeerSentOversizedRecord);
        }

        Ok(msg.into_plain_message_range(
            AESGCM_EXPLICIT_NONCE_LEN..AESGCM_EXPLICIT_NONCE_LEN + plain_len,
        ))
""","""        match plain_len {
            0..=MAX_FRAGMENT_LEN => Ok(msg.into_plain_message_range(
                AESGCM_EXPLICIT_NONCE_LEN..AESGCM_EXPLICIT_NONCE_LEN + plain_len,
            )),
            _ => Err(rustls::Error::PeerSentOversizedRecord),
        }
"""))
