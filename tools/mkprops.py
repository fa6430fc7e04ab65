#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Entropy-source failure is contained",
 "When the operating system's entropy source fails at any point of any operation that needs randomness (key generation, ECDSA and RSA-PSS signing, ML-KEM key generation and encapsulation, random fill, TLS key-exchange start, ticket creation, TLS handshakes), that operation reports an error and yields no key, signature, ciphertext, ticket or handshake built without the requested randomness. It never panics, and a retried or short read of the entropy source is invisible in the result. After the source recovers the same operation succeeds.",
 ["fault_sequences","histories","configurations"],
 "every operation consuming randomness, every position in its sequence of entropy reads at which the source fails, is interrupted or returns short, and every history of failures and recoveries",
 "The repository's tests run with a working entropy source; a handful use an in-process stub for one draw. No test makes the system source fail at the k-th read of a real operation or inside a handshake.",
 ["graviola/src/mid/rng.rs","graviola/src/mid/p256.rs","graviola/src/mid/p384.rs","graviola/src/mid/x25519.rs","graviola/src/mid/mlkem768.rs","graviola/src/mid/rsa_priv/generate.rs","graviola/src/high/ecdsa.rs","graviola/src/high/pkcs1.rs","graviola/src/high/ed25519.rs","rustls-graviola/src/ticketer.rs","rustls-graviola/src/kx.rs","rustls-graviola/src/lib.rs"],
 [("SystemRandom::fill maps source errors to Error::RngFailed","graviola/src/mid/rng.rs"),("? propagation at each draw","all callers of RandomSource::fill"),("GetRandomFailed mapping","rustls-graviola/src/{kx,sign,ticketer,lib}.rs")],
 observe=["return values of public functions","rustls connection errors"])

p("C02","Generated elliptic-curve and ML-KEM keys are valid for any entropy",
 "For every byte stream the entropy source delivers, including stuck, repeating, all-zero, all-one and out-of-range output, generating a P-256, P-384, X25519, Ed25519 or ML-KEM-768 key either returns a usable key or reports an error after a bounded number of reads. A returned key is exactly the one its standard derives from the bytes drawn for it (P-curve private scalars lie in 1..n-1 with out-of-range draws discarded and redrawn, never reduced), its public half is the standard function of its private half, and two keys from different draws differ.",
 ["fault_sequences","inputs","histories"],
 "every entropy stream, including degenerate ones, and every sequence of key generations over it",
 "With real entropy an out-of-range draw has probability about 2^-32 (P-256) or less, so the rejection, redraw and give-up paths are only reached by one or two hand-written stub values.",
 ["graviola/src/mid/p256.rs","graviola/src/mid/p384.rs","graviola/src/mid/x25519.rs","graviola/src/mid/mlkem768.rs","graviola/src/high/ed25519.rs","graviola/src/high/ecdsa.rs"],
 [("bounded rejection sampling of scalars","graviola/src/mid/p256.rs, p384.rs: new_random/generate"),("FIPS 203 keygen from d,z","graviola/src/mid/mlkem768.rs"),("RFC 8032 / RFC 7748 clamping","graviola/src/mid/ed25519.rs, x25519.rs")],
 observe=["exported private and public key bytes","entropy reads made"])

p("C03","RSA key generation is sound for any entropy",
 "For every byte stream the entropy source delivers, RSA key generation either reports an error or returns a key of exactly the requested size with public exponent 65537, whose two factors are distinct primes of half the modulus length and whose exponents and coefficient are consistent. A returned key survives export and re-import, and its signatures verify under its public key with an independent implementation. Degenerate streams (stuck, repeating, equal candidates for both primes) never yield a key with equal or composite factors.",
 ["fault_sequences","inputs","histories"],
 "every entropy stream over a whole key generation, including stuck bytes, replayed candidates and adversarial primality witnesses",
 "Tests generate a few keys from real entropy, where equal primes, unsuitable candidates next to range bounds and bad witnesses never occur.",
 ["graviola/src/mid/rsa_priv/generate.rs","graviola/src/mid/rsa_priv.rs","graviola/src/high/rsa.rs","graviola/src/low/posint.rs"],
 [("candidate shaping and trial division, Miller-Rabin with random witnesses","graviola/src/mid/rsa_priv/generate.rs"),("p==q detection and e/phi coprimality retry","graviola/src/mid/rsa_priv/generate.rs")],
 observe=["exported PKCS#1/PKCS#8 encodings","signatures"])

p("C04","Signature randomness is never weak",
 "An ECDSA signature always uses the nonce that hedged RFC 6979 prescribes for the private key, the message hash and the random bytes drawn for that signature, so that even when the entropy source is stuck or repeats, two different messages (or keys) never share a nonce, while with working entropy the same message signed twice uses different nonces. RSA-PSS signatures carry a salt of hash length that is exactly the fresh random bytes drawn for that signature. Every such signature verifies under an independent implementation.",
 ["fault_sequences","histories","inputs"],
 "every history of signing operations across keys, curves, hashes and messages, under every behaviour of the entropy source",
 "Tests check the RFC 6979 vectors without random input and sign-then-verify with real entropy; neither sees nonce reuse under a repeating source or a salt or hedge that is not taken from the source.",
 ["graviola/src/high/ecdsa.rs","graviola/src/high/hmac_drbg.rs","graviola/src/high/pkcs1.rs","graviola/src/high/rsa.rs","rustls-graviola/src/sign.rs"],
 [("HMAC_DRBG seeded from key, hash and personalisation","graviola/src/high/ecdsa.rs, hmac_drbg.rs"),("PSS salt draw","graviola/src/high/pkcs1.rs: encode_pss_sig")],
 observe=["signature bytes against a reference model fed the same entropy bytes"])

p("C05","A faulty RSA computation never releases a signature",
 "Whatever bit errors strike the private key's stored values, before or while an RSA signing operation runs, signing either returns a signature that is valid under the true public key or reports an error; a wrong signature value is never placed in the caller's output. Without faults, signing always succeeds and the signature is exactly as long as the modulus and valid under an independent implementation, for every modulus size from 2048 to 8192 bits (two factors of equal length, in either order), public exponent, padding and hash.",
 ["fault_sequences","crash_points","configurations"],
 "every bit flip in stored private values, before or at any point during the operation, persisting or transient, for every key size 2048..8192, padding and hash",
 "The check that follows the private operation never fires in normal runs; unit tests cannot flip memory in the middle of an exponentiation.",
 ["graviola/src/mid/rsa_priv.rs","graviola/src/mid/rsa_pub.rs","graviola/src/high/rsa.rs","graviola/src/low/posint.rs"],
 [("public operation re-checks the CRT result before release","graviola/src/mid/rsa_priv.rs: private_op")],
 observe=["return value and output buffer of each sign function"])

p("C06","AEAD delivers exactly the sealed plaintext or nothing",
 "For AES-GCM (128/256), ChaCha20-Poly1305 and XChaCha20-Poly1305, a message sealed on one node opens on another to exactly the original plaintext when ciphertext, tag, nonce and associated data arrive intact, and the bytes on the wire equal those of an independent implementation. If any of them was corrupted, truncated, extended, swapped or replayed against another message's nonce or associated data, opening fails and the caller's buffer afterwards holds no plaintext (it is all zeroes).",
 ["inputs","fault_sequences","configurations"],
 "every key, nonce, associated data and plaintext length (empty up to many blocks), every channel or storage fault on any component, and every supported CPU configuration of sender and receiver",
 "Vector tests cover fixed lengths and a few modified tags on the CPU they run on; they do not cover every bit position, cross-message splices, wrong-length tags or post-failure buffer contents.",
 ["graviola/src/mid/aes_gcm.rs","graviola/src/mid/chacha20poly1305.rs","graviola/src/mid/xchacha20poly1305.rs","graviola/src/low/x86_64/aes_gcm.rs","graviola/src/low/x86_64/ghash.rs","graviola/src/low/x86_64/chacha20.rs","graviola/src/low/generic/poly1305.rs","graviola/src/low/generic/ct_equal.rs"],
 [("tag comparison before release","mid/*: decrypt"),("zeroise buffer on failure","mid/*: decrypt"),("CPU-dispatched bulk paths","low/x86_64/aes_gcm.rs")],
 observe=["decrypt result and buffer"])

p("C07","Streaming digests and MACs depend only on the bytes",
 "For SHA-256/384/512, SHA3-256/512, SHAKE128/256 and HMAC (and the hash and HMAC objects the rustls provider exposes, including forked ones), the result depends only on the concatenation of the bytes fed in, not on how delivery split them, on how output was read in pieces, or on other contexts advancing in between. A cloned or forked context continues independently of its original, whether the original is advanced, finished or dropped. Results equal an independent implementation, and MAC verification accepts exactly the full correct tag.",
 ["histories","schedules","inputs"],
 "every partition of the input into updates (including empty ones and block-boundary splits), every partition of extendable output into reads, every interleaving of many contexts, every clone, fork or drop point, every CPU configuration",
 "Tests use fixed vectors with a few chunkings; buffer-carry bugs need particular combinations of buffered length, update length and clone point.",
 ["graviola/src/mid/sha2.rs","graviola/src/mid/sha3.rs","graviola/src/high/hash.rs","graviola/src/high/hmac.rs","graviola/src/low/generic/blockwise.rs","graviola/src/low/x86_64/sha512.rs","graviola/src/low/x86_64/sha256.rs","rustls-graviola/src/hash.rs","rustls-graviola/src/hmac.rs"],
 [("block buffering","graviola/src/low/generic/blockwise.rs"),("multi-block compress dispatch","low/x86_64/sha256_mux.rs, sha512_mux.rs"),("squeeze position","graviola/src/mid/sha3.rs")],
 observe=["digest, MAC and XOF output"])

p("C08","Concurrent use is indistinguishable from sequential use",
 "When several threads use the library at once, sharing keys, verifiers, hash and AEAD objects, provider objects or tickets, every operation returns what it would have returned had it run alone with the same entropy bytes, under every interleaving of the threads. No operation observes another's intermediate data, deadlocks, panics, or fails because of concurrency.",
 ["schedules","histories"],
 "every interleaving, at basic-block granularity, of several threads issuing mixed operations on shared and private objects",
 "The tests are single-threaded per object; a race needs a particular preemption point inside an operation.",
 ["graviola/src/low/entry.rs","graviola/src/low/x86_64/cpu.rs","graviola/src/mid/","graviola/src/high/","rustls-graviola/src/ticketer.rs","rustls-graviola/src/sign.rs"],
 [("operations keep all working state on their own stack or heap","whole crate"),("atomics only in ticketer","rustls-graviola/src/ticketer.rs")],
 state=[("maximum_ciphertext_len","largest ticket issued","rustls-graviola/src/ticketer.rs")],
 observe=["return values under controlled schedules"])

p("C09","Results do not depend on the machine's optional CPU features",
 "Nodes whose CPUs offer any supported combination of optional features (SHA extensions, AVX-512/VAES/VPCLMULQDQ groups) compute identical results for every operation given identical inputs and entropy, and interoperate: data sealed, hashed, signed or exported on one is accepted and reproduced on any other. A CPU that lacks a mandatory feature is refused by every operation on keys (encryption, signing, verification, agreement, generation) by panicking before any computation; hashing, random fill and encoding either refuse or stay correct. No wrong result is ever produced.",
 ["configurations","inputs","histories"],
 "every subset of optional CPU features per node, every operation, input length and history of work moving between nodes",
 "The test suite runs on one CPU, so alternative code paths run only where a dedicated test toggles them.",
 ["graviola/src/low/x86_64/cpu.rs","graviola/src/low/x86_64/aes_gcm.rs","graviola/src/low/x86_64/ghash.rs","graviola/src/low/x86_64/sha256_mux.rs","graviola/src/low/x86_64/sha512_mux.rs","graviola/src/low/entry.rs"],
 [("feature tokens select an implementation at run time","graviola/src/low/x86_64/cpu.rs"),("mandatory-feature assertion at every entry","graviola/src/low/entry.rs")],
 observe=["outputs compared across simulated nodes and with independent implementations"])

p("C10","Session tickets are confidential, authentic, rotated and available",
 "A ticket issued by the provider's ticketer decrypts, on the ticketer that issued it, to exactly the original state for as long as its key has been rotated out at most once (key lifetime 6 hours), and never once two later keys have been rotated in; a ticket that was altered, truncated, extended or issued by another ticketer never decrypts. This holds under every interleaving of concurrent encryptions and decryptions, every clock movement, and every entropy failure: a failure makes that call return nothing and later calls work. No two tickets share a nonce under one key unless the entropy source itself repeated, and tickets reveal no plaintext.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of ticket encryptions and decryptions on several threads, every sequence of clock advances and jumps across rotation boundaries, every entropy failure point, every ticket corruption and length mix",
 "The one existing test round-trips tickets on one thread at real time; rotation, races on the largest-ticket bound and entropy failure during rotation are never exercised.",
 ["rustls-graviola/src/ticketer.rs"],
 [("XChaCha20-Poly1305 with key name as associated data","rustls-graviola/src/ticketer.rs"),("monotonic maximum length, raised before the ticket is returned","rustls-graviola/src/ticketer.rs"),("rustls TicketRotator with 6 h lifetime","rustls-graviola/src/ticketer.rs")],
 state=[("maximum_ciphertext_len","largest ticket issued under this key","rustls-graviola/src/ticketer.rs"),("key_name","public key identifier","rustls-graviola/src/ticketer.rs")],
 observe=["ProducesTickets::encrypt/decrypt results"])

p("C11","TLS over this provider is safe and live on a faulty network",
 "Clients and servers using the provider, talking to each other or to an independent provider, over TLS 1.2 and 1.3 with every supported suite, key-exchange group and certificate type, complete the handshake and deliver every byte sent, in order, within a bounded number of network steps whenever the network only delays, fragments or coalesces data. Whatever the network does to the bytes (corrupt, drop, duplicate, reorder, truncate, cut the connection), an endpoint only ever delivers a prefix of what its peer sent and reports an error rather than wrong data; endpoints that complete agree on exported keying material. After faults stop, a fresh connection (with or without resumption) succeeds.",
 ["fault_sequences","histories","configurations"],
 "every fragmentation and delay schedule, every byte-level network fault at any point of handshake or data, every combination of protocol version, suite, group, certificate key and peer provider, with resumption, session-cache loss, clock jumps and entropy failures",
 "The pair tests run each suite once over a perfect in-memory or loopback pipe with one chunking and no faults.",
 ["rustls-graviola/src/aead.rs","rustls-graviola/src/kx.rs","rustls-graviola/src/kx/hybrid.rs","rustls-graviola/src/sign.rs","rustls-graviola/src/verify.rs","rustls-graviola/src/suites.rs","rustls-graviola/src/hash.rs","rustls-graviola/src/hmac.rs","rustls-graviola/src/lib.rs"],
 [("record protection","rustls-graviola/src/aead.rs"),("key exchange","rustls-graviola/src/kx.rs"),("authentication","rustls-graviola/src/sign.rs, verify.rs")],
 observe=["plaintext delivered at each end","handshake outcome","exported keying material"])

p("C12","Key agreement agrees, or fails safely, over a faulty network",
 "Two parties using X25519, P-256, P-384, ML-KEM-768 or the TLS hybrid X25519MLKEM768 derive identical secrets, equal to what an independent implementation derives, whenever their public messages arrive intact. If a public key, ciphertext or key share is corrupted, truncated, extended, swapped or replayed, the receiver either reports an error or derives exactly what the standard prescribes for the value it received, so never the honest secret unless that value still denotes the same point (up to its sign and the top bit X25519 ignores); points off the curve or with coordinates not reduced modulo the field prime, non-canonical encapsulation keys, wrong lengths and all-zero X25519 results are errors, and a corrupted ML-KEM ciphertext of the right length always decapsulates without error to the standard's implicit-rejection secret.",
 ["fault_sequences","inputs","histories"],
 "every key pair, every single- or multi-bit corruption, truncation, extension, swap or replay of every public message, in any interleaving of concurrent agreements",
 "Tests use honest pairs and a list of fixed bad vectors; they do not cover corruption at every position or the implicit-rejection value for arbitrary ciphertexts.",
 ["graviola/src/mid/x25519.rs","graviola/src/mid/p256.rs","graviola/src/mid/p384.rs","graviola/src/mid/mlkem768.rs","rustls-graviola/src/kx.rs","rustls-graviola/src/kx/hybrid.rs"],
 [("on-curve validation","graviola/src/mid/p256.rs, p384.rs"),("all-zero check","graviola/src/mid/x25519.rs"),("FO re-encryption and implicit rejection","graviola/src/mid/mlkem768.rs: decaps"),("share split and length check","rustls-graviola/src/kx/hybrid.rs")],
 observe=["shared secrets and errors"])

p("C13","Stored key material survives faithfully or is refused",
 "A private or public key exported in any supported encoding (PKCS#1, PKCS#8, SEC1, SPKI, raw) and later read back decodes to the same key, in this library and in an independent one. If the stored bytes were damaged (bit rot, torn or short write, mixed old and new blocks, trailing garbage), loading and using the result never panics or hangs: loading reports an error or yields exactly the key that the stored bytes, read as one whole DER encoding, denote, and a key so obtained never produces a signature that its own public key rejects; bytes that are truncated, extended, or whose embedded public key (SEC1, Ed25519 PKCS#8) contradicts the private key are refused. An export buffer that is too small yields an error, never a truncated encoding.",
 ["crash_points","fault_sequences","inputs"],
 "every key type, size and encoding, every crash point of the write (torn or short), every bit flip or block mix of the stored bytes, every output buffer size",
 "Round-trip tests read back perfect bytes, and malformed-key tests are a fixed list; damage at an arbitrary byte of a structurally rich encoding is not covered.",
 ["graviola/src/high/rsa.rs","graviola/src/high/ecdsa.rs","graviola/src/high/ed25519.rs","graviola/src/high/pkcs8.rs","graviola/src/high/asn1.rs","graviola/src/high/asn1/pkix.rs","graviola/src/mid/rsa_priv.rs","graviola/src/low/posint.rs","rustls-graviola/src/sign.rs"],
 [("DER decoder length and canonical checks","graviola/src/high/asn1.rs"),("embedded public key cross-check","graviola/src/high/ecdsa.rs, ed25519.rs"),("range checks on components","graviola/src/mid/rsa_priv.rs, rsa_pub.rs")],
 observe=["decode results, re-encoded bytes, signatures"])

p("C14","Secrets do not outlive their use",
 "When a private or symmetric key object (RSA, ECDSA, Ed25519, X25519, P-256, P-384, ML-KEM-768 decapsulation key, AES-GCM, ChaCha20-Poly1305, XChaCha20-Poly1305) or a shared secret is dropped, its memory no longer holds the secret or anything derived from it that is not public, whatever happened before (successful, failed or panicking operations, entropy failures, moves between threads) and however it is dropped. The same goes for heap memory the library and the TLS provider free: record ciphers, ticketers through their key rotations, loaded signing keys and abandoned key exchanges leave no key material in freed blocks. When a call that used a key returns something that is not secret (a signature, a ciphertext, a public key, an error), no vector register still holds key material.",
 ["fault_sequences","histories","configurations"],
 "every key type, every history of operations and failures before the drop, every CPU configuration",
 "Existing zeroing tests check freshly built keys dropped with no operation, no failure and no look at freed heap blocks or registers.",
 ["graviola/src/low/generic/zeroise.rs","graviola/src/low/entry.rs","graviola/src/low/x86_64/cpu.rs","graviola/src/low/posint.rs","graviola/src/low/x86_64/aes.rs","graviola/src/low/x86_64/ghash.rs","graviola/src/mid/"],
 [("Drop implementations calling zeroise","mid/*, high/*, low/posint.rs"),("register clearing on leaving a secret entry point","graviola/src/low/entry.rs, low/x86_64/cpu.rs")],
 observe=["memory of dropped objects, freed heap blocks, vector registers at return"])

p("C15","Signatures are accepted exactly when nothing was altered",
 "A signature made by this library or an independent one (RSA PKCS#1 and PSS with SHA-256/384/512, ECDSA P-256/P-384 in fixed and ASN.1 form, Ed25519) verifies here when message, signature and public key arrive intact. If message, signature or public key was corrupted, truncated, extended, swapped or replayed with another message or key in transit, verification reports failure without panicking; in particular out-of-range or zero scalars, non-canonical encodings and wrong lengths never verify. The algorithms the provider exposes to TLS and certificate verification give the same verdicts.",
 ["fault_sequences","inputs","histories"],
 "every key, message, hash and padding, and every corruption, truncation, extension, splice or replay of message, signature or key in transit",
 "Wycheproof and CAVP vectors cover a fixed set of bad signatures per algorithm; they do not cover damage at every position or splices between messages of one history.",
 ["graviola/src/high/rsa.rs","graviola/src/high/pkcs1.rs","graviola/src/high/ecdsa.rs","graviola/src/high/ed25519.rs","graviola/src/mid/ed25519.rs","graviola/src/mid/p256.rs","graviola/src/mid/p384.rs","rustls-graviola/src/verify.rs"],
 [("range checks on r, s and S","high/ecdsa.rs, mid/ed25519.rs"),("full padding comparison","high/rsa.rs, pkcs1.rs"),("length checks","all verify functions")],
 observe=["verify results"])

p("C16","The TLS record layer opens exactly the records sealed, in order",
 "For every TLS 1.2 and 1.3 suite of the provider and every sequence number, a record sealed by one side opens on the other side (or on an independent implementation, in both directions) to the same type and payload, and consecutive records never reuse a nonce. A record that is corrupted, truncated, replayed, reordered, or opened under a different sequence number, content type or protocol version is rejected with an error and without panicking, whatever its length, and so is an authentic record carrying more than 2^14 bytes. Exported traffic secrets equal the keys actually used. The key schedule (TLS 1.2 PRF, HKDF, transcript hashes, including forked ones) gives what its standards define for every input length and call history.",
 ["fault_sequences","histories","inputs"],
 "every suite, key, payload length and fragmentation, every sequence number up to 2^64-1, every record-level fault",
 "Tests send a few records from sequence number zero over a perfect pipe.",
 ["rustls-graviola/src/aead.rs","rustls-graviola/src/suites.rs","rustls-graviola/src/hmac.rs"],
 [("nonce from IV and sequence number","rustls-graviola/src/aead.rs"),("associated data from header and sequence number","rustls-graviola/src/aead.rs"),("minimum length checks","rustls-graviola/src/aead.rs")],
 observe=["MessageEncrypter/MessageDecrypter results"])

# ---- stated, not claimed (see MANIFEST not_applicable)
p("N01","Secret-dependent timing is absent",
 "Operations on secrets execute an instruction and memory-access trace independent of secret values (except RSA key generation, documented as not side-channel safe).",
 ["inputs","programs"],"every pair of secrets and every operation",
 "Functional tests do not observe instruction or address traces.",
 ["graviola/src/low/","graviola/src/low/ct.rs"],[("constant-time selection and comparison","graviola/src/low/")])
p("N02","Each primitive equals its mathematical specification on all inputs",
 "Every hash, cipher, group operation, big-integer routine and signature verification computes exactly the function its standard defines, for all inputs.",
 ["inputs"],"all inputs of each pure function",
 "Vectors sample the input space.",
 ["graviola/src/low/","graviola/src/mid/"],[("s2n-bignum assembly, intrinsics code","graviola/src/low/")])
p("N03","The DER decoder accepts exactly the specified language",
 "The ASN.1 decoder and encoder accept and emit exactly the DER language of the supported types, on all byte strings.",
 ["inputs"],"all byte strings","Unit tests list examples.",
 ["graviola/src/high/asn1.rs"],[("typed parser","graviola/src/high/asn1.rs")])
p("N04","The aarch64 back end behaves like the x86_64 one",
 "Every operation gives the same results on aarch64 as on x86_64.",
 ["configurations","inputs"],"both architectures, all inputs","Tests run on one architecture.",
 ["graviola/src/low/aarch64/"],[("architecture dispatch","graviola/src/low/mod.rs")])
p("N05","Inline assembly is memory-safe",
 "No inline-assembly or intrinsics block reads or writes outside the buffers its wrapper was given or clobbers undeclared registers, for all inputs.",
 ["inputs","programs"],"all inputs of every low-level wrapper","Tests would need to observe every access.",
 ["graviola/src/low/x86_64/","graviola/src/low/inline_assembly_safety.rs"],[("documented assembly contract","graviola/src/low/inline_assembly_safety.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
