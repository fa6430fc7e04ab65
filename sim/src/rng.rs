//! The one PRNG of the simulator. Every choice in a run derives from one 64-bit seed.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }

    /// small seeds keep replay files readable
    pub fn seed(&mut self) -> u32 {
        self.u32()
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }

    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }

    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }

    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }

    /// log-uniform in 0..=max
    pub fn log(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lo = 1u64 << (b - 1);
        self.range(lo, hi.min(max))
    }

    /// A length biased towards multiples of `block` (+-2), small values, and occasionally `max`.
    pub fn len(&mut self, block: u64, max: u64) -> usize {
        let v = match self.below(10) {
            0 => self.below(4),
            1..=4 => {
                let k = if self.chance(1, 2) {
                    self.below(10)
                } else {
                    self.below(max / block + 1)
                };
                let d = self.below(5) as i64 - 2;
                ((k * block) as i64 + d).max(0) as u64
            }
            5 | 6 => self.log(max),
            7 => self.below(300.min(max + 1)),
            _ => self.below(max + 1),
        };
        v.min(max) as usize
    }
}

/// Messages found by search whose SHA-256 (kind 0) or SHA-384 (kind 1) digest, as ECDSA truncates it for
/// P-256, is not below the group order; and (kind 3) messages for which the nonce derivation for the
/// P-256 key 0x1111.. with sixteen zero random bytes rejects its first candidate.
const ODD: &[(u8, u64)] = &[(0, 2089266161), (0, 9898528212), (0, 13683504477), (1, 499278550), (1, 1317330412), (3, 1070621667)];
pub const ODD_LEN: usize = 13;
const ODD_SEED: u32 = 0xfff0_0000;

/// the seed of a odd message of this kind
pub fn odd_message(r: &mut Rng, kind: u8) -> Option<u32> {
    let v: Vec<usize> = (0..ODD.len()).filter(|i| ODD[*i].0 == kind).collect();
    if v.is_empty() { None } else { Some(ODD_SEED + *r.pick(&v) as u32) }
}

/// Deterministic message bytes for a seed.
pub fn expand(seed: u32, n: usize) -> Vec<u8> {
    if n == ODD_LEN
        && let Some((kind, count)) = ODD.get(seed.wrapping_sub(ODD_SEED) as usize)
    {
        let mut v = b"gsim".to_vec();
        v.push(*kind);
        v.extend(count.to_le_bytes());
        return v;
    }
    // a few degenerate contents are reachable by design
    match seed % 16 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => Rng::new(seed as u64 ^ 0x6d73_6765).bytes(n),
    }
}

pub fn expand_arr<const N: usize>(seed: u32) -> [u8; N] {
    expand(seed, N).try_into().unwrap()
}
