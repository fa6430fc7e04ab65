import re,subprocess,sys
R='/tmp/w/refac/'
def ed(f,*pairs):
    p=R+f; s=open(p).read()
    for o,n in pairs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n,1)
    open(p,'w').write(s)
subprocess.run(['git','-C',R,'checkout','-q','--','.'])
# R1 gcm: a helper for the tag, shared
ed('graviola/src/mid/aes_gcm.rs',
('''        let mut ghash = Ghash::new(&self.gh);

        let counter = self.nonce_to_y0(nonce);

        let mut e_y0 = counter;
        self.key.encrypt_block(&mut e_y0);

        // give low-level code opportunity to stitch gf128 and aes
        // computations. see low::generic::aes_gcm for model version.
        aes_gcm::encrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);

        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&((aad.len() * 8) as u64).to_be_bytes());
        lengths[8..].copy_from_slice(&((cipher_inout.len() * 8) as u64).to_be_bytes());
        ghash.add(&lengths);

        let final_xi = ghash.into_bytes();

        for ((out, x), e) in tag_out.iter_mut().zip(final_xi.iter()).zip(e_y0.iter()) {
            *out = *x ^ *e;
        }
''','''        let counter = self.nonce_to_y0(nonce);
        let mut ghash = Ghash::new(&self.gh);
        aes_gcm::encrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);
        let tag = self.compute_tag(ghash, counter, aad.len(), cipher_inout.len());
        tag_out.copy_from_slice(&tag);
'''),
('''        let mut ghash = Ghash::new(&self.gh);

        let counter = self.nonce_to_y0(nonce);

        let mut e_y0 = counter;
        self.key.encrypt_block(&mut e_y0);

        aes_gcm::decrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);

        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&((aad.len() * 8) as u64).to_be_bytes());
        lengths[8..].copy_from_slice(&((cipher_inout.len() * 8) as u64).to_be_bytes());
        ghash.add(&lengths);

        let mut actual_tag = ghash.into_bytes();
        for (out, e) in actual_tag.iter_mut().zip(e_y0.iter()) {
            *out ^= *e;
        }

        if ct_equal(&actual_tag, tag) {
            Ok(())
        } else {
            // avoid unauthenticated plaintext leak
            cipher_inout.fill(0x00);
            Err(Error::DecryptFailed)
        }
    }
''','''        let counter = self.nonce_to_y0(nonce);
        let mut ghash = Ghash::new(&self.gh);
        aes_gcm::decrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);
        let actual_tag = self.compute_tag(ghash, counter, aad.len(), cipher_inout.len());

        if !ct_equal(&actual_tag, tag) {
            // avoid unauthenticated plaintext leak
            for b in cipher_inout.iter_mut() {
                *b = 0;
            }
            return Err(Error::DecryptFailed);
        }
        Ok(())
    }

    fn compute_tag(
        &self,
        mut ghash: Ghash<'_>,
        mut e_y0: [u8; 16],
        aad_len: usize,
        cipher_len: usize,
    ) -> [u8; 16] {
        let aad_bits = (aad_len as u64) << 3;
        let cipher_bits = (cipher_len as u64) << 3;
        let lengths = ((aad_bits as u128) << 64 | cipher_bits as u128).to_be_bytes();
        ghash.add(&lengths);
        self.key.encrypt_block(&mut e_y0);
        let mut tag = ghash.into_bytes();
        for i in 0..16 {
            tag[i] ^= e_y0[i];
        }
        tag
    }
'''))
# R2 chacha: split the cipher in two functions
for f,n in (('chacha20poly1305.rs','ChaCha20'),('xchacha20poly1305.rs','XChaCha20')):
    ed('graviola/src/mid/'+f,
('''        let mut poly = Poly1305::new(&polykey);

        fn pad(poly: &mut Poly1305, len: usize) {
            let pad_buf = [0u8; 16];
            let pad_len = 16 - (len & 0xf);
            if pad_len != 16 {
                poly.add_bytes(&pad_buf[..pad_len]);
            }
        }
''','''        let mut poly = Poly1305::new(&polykey);
'''),
('''        poly.add_bytes(aad);
        pad(&mut poly, aad.len());

        if encrypt {
            chacha.cipher(cipher_inout);
            poly.add_bytes(cipher_inout);
        } else {
            poly.add_bytes(cipher_inout);
            chacha.cipher(cipher_inout);
        }
        pad(&mut poly, cipher_inout.len());

        poly.add_bytes(&(aad.len() as u64).to_le_bytes());
        poly.add_bytes(&(cipher_inout.len() as u64).to_le_bytes());

        tag_out.copy_from_slice(&poly.finish());
    }
}
''','''        add_padded(&mut poly, aad);

        if !encrypt {
            add_padded(&mut poly, cipher_inout);
        }
        chacha.cipher(cipher_inout);
        if encrypt {
            add_padded(&mut poly, cipher_inout);
        }

        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
        lengths[8..].copy_from_slice(&(cipher_inout.len() as u64).to_le_bytes());
        poly.add_bytes(&lengths);

        *tag_out = poly.finish();
    }
}

fn add_padded(poly: &mut Poly1305, bytes: &[u8]) {
    poly.add_bytes(bytes);
    let over = bytes.len() % 16;
    if over > 0 {
        poly.add_bytes(&[0u8; 16][over..]);
    }
}
'''))
# R3 rsa private op: q first, helper
ed('graviola/src/mid/rsa_priv.rs',
('''        let cmp = c.reduce(&self.p, &self.p_montifier);
        let m_1 = cmp.mod_exp(&self.dp, &self.p, &self.p_montifier, self.p0);
        let cmq = c.reduce(&self.q, &self.q_montifier);
        let m_2 = cmq.mod_exp(&self.dq, &self.q, &self.q_montifier, self.q0);
''','''        let m_2 = Self::half_op(c, &self.dq, &self.q, &self.q_montifier, self.q0);
        let m_1 = Self::half_op(c, &self.dp, &self.p, &self.p_montifier, self.p0);
'''),
('''        let c2 = self.public.public_op(m.clone())?;
        if c2.equals(c) {
            Ok(m)
        } else {
            Err(Error::DecryptFailed)
        }
    }
''','''        match self.public.public_op(m.clone()) {
            Ok(c2) if c2.equals(c) => Ok(m),
            Ok(_) => Err(Error::DecryptFailed),
            Err(err) => Err(err),
        }
    }

    fn half_op(
        c: &RsaPosIntModN,
        exponent: &SecretRsaPosIntModP,
        prime: &SecretRsaPosIntModP,
        montifier: &SecretRsaPosIntModP,
        inv: u64,
    ) -> RsaPosIntModP {
        c.reduce(prime, montifier)
            .mod_exp(exponent, prime, montifier, inv)
    }
'''),
('''        low::zeroise_value(&mut self.p0);
        low::zeroise_value(&mut self.q0);
''','''        for word in [&mut self.q0, &mut self.p0] {
            low::zeroise_value(word);
        }
'''))
# R4 generate
ed('graviola/src/mid/rsa_priv/generate.rs',
('''        match random_prime_one(size, candidate_random, checks_random) {
            Ok(Some(candidate)) => return Ok(candidate),
            Ok(None) => continue,
            Err(err) => return Err(err),
        }
''','''        if let Some(candidate) = random_prime_one(size, candidate_random, checks_random)? {
            return Ok(candidate);
        }
'''),
('''    let mut iter = 1..=size.miller_rabin_rounds();
    loop {
''','''    let w_bytes = w_len.div_ceil(8);
    let mut remaining = size.miller_rabin_rounds() + 1;
    while remaining > 0 {
'''),
('''        let w_bytes = w_len.div_ceil(8);
        rng.fill''','''        rng.fill'''),
('''        // 4.7. Continue
        if iter.next().is_none() {
            // 5. Return PROBABLY PRIME.
            return Ok(true);
        }
    }
}
''','''        // 4.7. Continue
        remaining -= 1;
    }
    Ok(true)
}
'''),
('''    if is_prime(&candidate, size, checks_random)? {
        // this is the one we'll use, so it becomes sensitive on return.
        zeroise(&mut buffer[..bytes]);

        Ok(Some(candidate))
    } else {
        Ok(None)
    }
''','''    let accepted = is_prime(&candidate, size, checks_random)?;
    zeroise(&mut buffer);
    Ok(accepted.then_some(candidate))
'''),
('''        let iqmp = q.mod_inverse(&p);
        let dp = d.reduce_even(&p_1);
        let dq = d.reduce_even(&q_1);
''','''        let dq = d.reduce_even(&q_1);
        let dp = d.reduce_even(&p_1);
        let iqmp = q.mod_inverse(&p);
'''))
# R6 mlkem reorder
ed('graviola/src/mid/mlkem768.rs',
('''        // 5. m' <- K-PKE.Decrypt(dkPKE, c)
        let m_prime = self.kpke_decrypt(c);
''','''        // 7. first: it depends on nothing else
        let mut k_bar = SharedSecret([0u8; 32]);
        sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);

        // 5. m' <- K-PKE.Decrypt(dkPKE, c)
        let m_prime = self.kpke_decrypt(c);
'''),
('''        // 7. K‾ <- J(z || c)
        let mut k_bar = SharedSecret([0u8; 32]);
        sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);

''',''))
# R7 sha2 update
s=open(R+'graviola/src/mid/sha2.rs').read()
o='''        let bytes = self.blockwise.add_leading(bytes);

        if let Some(block) = self.blockwise.take() {
            self.update_blocks(&block);
        }

        let (whole_blocks, remainder) = {
            let whole_len = bytes.len() - (bytes.len() & (Self::BLOCK_SZ - 1));
            (&bytes[..whole_len], &bytes[whole_len..])
        };

        self.update_blocks(whole_blocks);

        self.blockwise.add_trailing(remainder);
'''
n='''        let rest = self.blockwise.add_leading(bytes);
        match self.blockwise.take() {
            Some(block) => self.update_blocks(&block),
            None => {}
        }

        let mut blocks = rest.chunks_exact(Self::BLOCK_SZ);
        for block in &mut blocks {
            self.update_blocks(block);
        }
        self.blockwise.add_trailing(blocks.remainder());
'''
assert s.count(o)==2
s=s.replace(o,n); open(R+'graviola/src/mid/sha2.rs','w').write(s)
# R8 hmac: outer first, helper
ed('graviola/src/high/hmac.rs',('''        // compute inner
        for byte in key_block.iter_mut() {
            *byte ^= 0x36;
        }
        let mut inner = H::new();
        inner.update(&key_block);

        // and outer
        for byte in key_block.iter_mut() {
            *byte ^= 0x5c ^ 0x36;
        }
        let mut outer = H::new();
        outer.update(&key_block);
''','''        key_block.iter_mut().for_each(|b| *b ^= 0x5c);
        let mut outer = H::new();
        outer.update(&key_block);

        key_block.iter_mut().for_each(|b| *b ^= 0x5c ^ 0x36);
        let mut inner = H::new();
        inner.update(&key_block);
'''),('''        let got = self.finish();
        match got.ct_equal(expected_tag) {
            true => Ok(()),
            false => Err(Error::BadSignature),
        }
''','''        if self.finish().ct_equal(expected_tag) {
            return Ok(());
        }
        Err(Error::BadSignature)
'''))
ed('graviola/src/high/hmac_drbg.rs',('''        self.k = ctx.finish();

        // 2. V = HMAC (K, V).
        let mut ctx = Hmac::<H>::new(self.k.as_ref());
        ctx.update(self.v.as_ref());
        self.v = ctx.finish();
''','''        self.k = ctx.finish();

        // 2. V = HMAC (K, V).
        self.generate_block();
'''))
# R9 ticketer
ed('rustls-graviola/src/ticketer.rs',('''        random::fill(&mut key).map_err(|_| GetRandomFailed)?;
        random::fill(&mut key_name).map_err(|_| GetRandomFailed)?;
''','''        random::fill(&mut key_name).map_err(|_| GetRandomFailed)?;
        random::fill(&mut key).map_err(|_| GetRandomFailed)?;
'''),
('''        let mut tag = [0u8; 16];
        let mut res =
            Vec::with_capacity(self.key_name.len() + nonce.len() + message.len() + tag.len());
        res.extend(&self.key_name);
        res.extend(&nonce);
        res.extend(message);

        self.key.encrypt(
            &nonce,
            &self.key_name,
            &mut res[self.key_name.len() + nonce.len()..],
            &mut tag,
        );
        res.extend(tag);
''','''        let mut tag = [0u8; 16];
        let mut cipher = message.to_vec();
        self.key
            .encrypt(&nonce, &self.key_name, &mut cipher, &mut tag);
        let res = [&self.key_name[..], &nonce[..], &cipher[..], &tag[..]].concat();
'''),
('''        let plain_len = ciphertext
            .len()
            .saturating_sub(self.key_name.len() + 24 + 16);

        if plain_len == 0 {
            return None;
        }

        let (alleged_key_name, rest) = ciphertext.split_at(self.key_name.len());

        // nb. key_name is public data
        if alleged_key_name != self.key_name {
            return None;
        }

        let (nonce, rest) = rest.split_at(24);
        let nonce = nonce.try_into().unwrap();
        let (plain, alleged_tag) = rest.split_at(plain_len);
        let mut plain = plain.to_vec();

        self.key
            .decrypt(&nonce, alleged_key_name, &mut plain, alleged_tag)
            .ok()?;
        Some(plain)
''','''        let rest = ciphertext.strip_prefix(&self.key_name[..])?;
        if rest.len() <= 24 + 16 {
            return None;
        }
        let (nonce, rest) = rest.split_at(24);
        let (cipher, tag) = rest.split_at(rest.len() - 16);

        let mut plain = cipher.to_vec();
        match self
            .key
            .decrypt(nonce.try_into().unwrap(), &self.key_name, &mut plain, tag)
        {
            Ok(()) => Some(plain),
            Err(_) => None,
        }
'''))
# R10 aead: tls13 chacha order
ed('rustls-graviola/src/aead.rs',('''        let payload = &mut m.payload;
        let nonce = Nonce::new(&self.1, seq);
        let aad = make_tls13_aad(payload.len());
        if payload.len() < CHACHAPOLY1305_OVERHEAD {
            return Err(rustls::Error::DecryptError);
        }
        let cipher_len = payload.len() - CHACHAPOLY1305_OVERHEAD;
        let (payload, tag) = payload.split_at_mut(cipher_len);
''','''        let total = m.payload.len();
        let cipher_len = match total.checked_sub(CHACHAPOLY1305_OVERHEAD) {
            Some(len) => len,
            None => return Err(rustls::Error::DecryptError),
        };
        let aad = make_tls13_aad(total);
        let nonce = Nonce::new(&self.1, seq);
        let (payload, tag) = m.payload.split_at_mut(cipher_len);
'''))
# R11 hybrid order
ed('rustls-graviola/src/kx/hybrid.rs',('''        let classical = self.classical.start()?;
        let post_quantum = self.post_quantum.start()?;
''','''        let post_quantum = self.post_quantum.start()?;
        let classical = self.classical.start()?;
'''),('''        let cl = self.classical.start_and_complete(classical_share)?;
        let pq = self.post_quantum.start_and_complete(post_quantum_share)?;
''','''        let pq = self.post_quantum.start_and_complete(post_quantum_share)?;
        let cl = self.classical.start_and_complete(classical_share)?;
'''),('''        let cl = self.classical.complete(classical_share)?;
        let pq = self.post_quantum.complete(post_quantum_share)?;
''','''        let pq = self.post_quantum.complete(post_quantum_share)?;
        let cl = self.classical.complete(classical_share)?;
'''))
# R14 rng
ed('graviola/src/mid/rng.rs',('''        getrandom::fill(out).map_err(|_| Error::RngFailed)
''','''        match getrandom::fill(out) {
            Ok(()) => Ok(()),
            Err(_) => Err(Error::RngFailed),
        }
'''))
# R15
ed('graviola/src/mid/p256.rs',('''        for _ in 0..64 {
            let mut r = [0u8; Scalar::BYTES];
            rng.fill(&mut r)?;
            if let Ok(p) = Self::from_bytes(&r) {
                return Ok(p);
            }
        }

        Err(Error::RngFailed)
''','''        let mut r = [0u8; Scalar::BYTES];
        let mut tries = 0;
        while tries < 64 {
            tries += 1;
            rng.fill(&mut r)?;
            match Self::from_bytes(&r) {
                Ok(p) => return Ok(p),
                Err(_) => continue,
            }
        }
        Err(Error::RngFailed)
'''))
# R5 ecdsa order of draws vs hashing: draw after nothing
ed('graviola/src/mid/x25519.rs',('''        if low::ct::into_public(low::bignum_eq(&res, &ZERO)) {
            Err(Error::NotOnCurve)
        } else {
            Ok(SharedSecret(util::u64x4_to_little_endian(&res)))
        }
''','''        let at_infinity = low::ct::into_public(low::bignum_eq(&res, &ZERO));
        match at_infinity {
            false => Ok(SharedSecret(util::u64x4_to_little_endian(&res))),
            true => Err(Error::NotOnCurve),
        }
'''))
open('/verif/controls/refactor-a.diff','w').write(subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout)
