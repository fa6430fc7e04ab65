//! Damage that a network or a disk does to a byte string.
use crate::core::Cx;
use crate::rng::{Rng, expand};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dmg {
    Flip { at: u32, bit: u8 },
    Set { at: u32, to: u8 },
    /// keep only a prefix, dropping n bytes
    Trunc { n: u32 },
    /// drop n bytes at the front
    Behead { n: u32 },
    Extend { n: u16, seed: u32 },
    /// lose n bytes in the middle
    Lose { at: u32, n: u16 },
    /// deliver n bytes twice
    Dup { at: u32, n: u16 },
    Zero { at: u32, n: u16 },
    Ones { at: u32, n: u16 },
    /// everything from `at` comes from another message (torn write, stale block)
    Splice { at: u32 },
    /// exchange two ranges
    Swap { a: u32, b: u32, n: u16 },
    Replace { seed: u32 },
}

fn pos(at: u32, len: usize) -> usize {
    // the last 64 values address the end of the string
    const TOP: u32 = (1 << 31) - 1;
    if len == 0 {
        0
    } else if at <= TOP && at > TOP - 64 {
        len - 1 - (TOP - at) as usize % len
    } else {
        at as usize % len
    }
}

impl Dmg {
    pub fn kind(&self) -> &'static str {
        match self {
            Dmg::Flip { .. } => "bit_flip",
            Dmg::Set { .. } => "byte_corrupt",
            Dmg::Trunc { .. } | Dmg::Behead { .. } => "truncate",
            Dmg::Extend { .. } => "extend",
            Dmg::Lose { .. } => "lost_bytes",
            Dmg::Dup { .. } => "duplicate_bytes",
            Dmg::Zero { .. } | Dmg::Ones { .. } => "blanked_block",
            Dmg::Splice { .. } => "splice",
            Dmg::Swap { .. } => "reorder",
            Dmg::Replace { .. } => "replace",
        }
    }

    /// Returns whether the bytes changed.
    pub fn apply(&self, b: &mut Vec<u8>, other: &[u8]) -> bool {
        let old = b.clone();
        let l = b.len();
        match self {
            Dmg::Flip { at, bit } => {
                if l > 0 {
                    b[pos(*at, l)] ^= 1 << (bit % 8);
                }
            }
            Dmg::Set { at, to } => {
                if l > 0 {
                    b[pos(*at, l)] = *to;
                }
            }
            Dmg::Trunc { n } => b.truncate(l.saturating_sub(*n as usize)),
            Dmg::Behead { n } => {
                b.drain(..(*n as usize).min(l));
            }
            Dmg::Extend { n, seed } => b.extend(expand(*seed, *n as usize)),
            Dmg::Lose { at, n } => {
                let p = pos(*at, l);
                b.drain(p..(p + *n as usize).min(l));
            }
            Dmg::Dup { at, n } => {
                let p = pos(*at, l);
                let c = b[p..(p + *n as usize).min(l)].to_vec();
                b.splice(p..p, c);
            }
            Dmg::Zero { at, n } => {
                let p = pos(*at, l);
                b[p..(p + *n as usize).min(l)].fill(0);
            }
            Dmg::Ones { at, n } => {
                let p = pos(*at, l);
                b[p..(p + *n as usize).min(l)].fill(0xff);
            }
            Dmg::Splice { at } => {
                let p = pos(*at, l.max(1));
                b.truncate(p);
                if other.len() > p {
                    b.extend_from_slice(&other[p..]);
                }
            }
            Dmg::Swap { a, b: q, n } => {
                if l > 0 {
                    let (x, y) = (pos(*a, l), pos(*q, l));
                    for i in 0..*n as usize {
                        if x + i < l && y + i < l {
                            b.swap(x + i, y + i);
                        }
                    }
                }
            }
            Dmg::Replace { seed } => *b = expand(*seed, l),
        }
        *b != old
    }

    pub fn generate(r: &mut Rng) -> Dmg {
        // positions near the start, near the end, or anywhere
        let at = |r: &mut Rng| match r.below(4) {
            0 => r.below(8) as u32,
            1 => (1u32 << 31) - 1 - r.below(64) as u32,
            _ => r.below(1 << 31) as u32,
        };
        match r.below(22) {
            0..=8 => Dmg::Flip { at: at(r), bit: r.below(8) as u8 },
            9 => Dmg::Set { at: at(r), to: *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x30, 0x02]) },
            10 | 11 => Dmg::Trunc { n: 1 + r.log(64) as u32 },
            12 => Dmg::Behead { n: 1 + r.log(20) as u32 },
            13 | 14 => Dmg::Extend { n: 1 + r.log(40) as u16, seed: r.seed() },
            15 => Dmg::Lose { at: at(r), n: 1 + r.log(20) as u16 },
            16 => Dmg::Dup { at: at(r), n: 1 + r.log(20) as u16 },
            17 => Dmg::Zero { at: at(r), n: 1 + r.log(64) as u16 },
            18 => Dmg::Ones { at: at(r), n: 1 + r.log(64) as u16 },
            19 => Dmg::Splice { at: at(r) },
            20 => Dmg::Swap { a: at(r), b: at(r), n: 1 + r.log(20) as u16 },
            _ => Dmg::Replace { seed: r.seed() },
        }
    }
}

/// Apply a list of damage; counts the kinds that took effect. Returns whether anything changed in the end.
pub fn damage(b: &mut Vec<u8>, ds: &[Dmg], other: &[u8], layer: &str, cx: &mut Cx) -> bool {
    let old = b.clone();
    for d in ds {
        if d.apply(b, other) {
            cx.fault(&format!("{layer}.{}", d.kind()));
        }
    }
    *b != old
}

pub fn gen_damage(r: &mut Rng) -> Vec<Dmg> {
    let n = if r.chance(1, 5) { 2 } else { 1 };
    (0..n).map(|_| Dmg::generate(r)).collect()
}

/// CPU model for a run: usually everything the host offers, otherwise a random subset of the optional features.
pub fn gen_cpu(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 0,
        1 => 0x7f,
        2 => 1 << r.below(7),
        _ => r.below(128) as u32,
    }
}
