use crate::core::Def;

pub mod prelude {
    pub use crate::core::{aside, Cx, Def, Fail, R, Scenario, Tier, catch, exec_erased, gen_erased};
    pub use crate::env::{self, EntropyPlan, Fault, Mode};
    pub use crate::faults::{Dmg, damage, gen_cpu, gen_damage};
    pub use crate::rng::{ODD_LEN, Rng, expand, odd_message};
    pub use crate::{ensure, fail, refs};
    pub use serde::{Deserialize, Serialize};

    /// A caller's buffer at a chosen misalignment with guard bytes on both sides.
    pub struct Fenced {
        v: Vec<u8>,
        lo: usize,
        len: usize,
    }
    impl Fenced {
        pub fn new(data: &[u8], off: u8) -> Self {
            let lo = 64 + off as usize % 64;
            let mut v = vec![0xc3; lo + data.len() + 64];
            v[lo..lo + data.len()].copy_from_slice(data);
            Fenced { v, lo, len: data.len() }
        }
        pub fn slice(&mut self) -> &mut [u8] {
            &mut self.v[self.lo..self.lo + self.len]
        }
        pub fn fence_ok(&self) -> bool {
            self.v[..self.lo].iter().chain(&self.v[self.lo + self.len..]).all(|b| *b == 0xc3)
        }
    }
}

macro_rules! props {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Def> {
            vec![$($m::def()),*]
        }
    };
}
props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16);
