//! Looking at the vector registers a call left behind.

use std::arch::{asm, global_asm};

global_asm!(
    ".globl gsim_vclear512",
    "gsim_vclear512:",
    ".irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31",
    "vpxorq zmm\\i, zmm\\i, zmm\\i",
    ".endr",
    "ret",
    ".globl gsim_vdump512",
    "gsim_vdump512:",
    ".irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31",
    "vmovdqu64 [rdi + 64 * \\i], zmm\\i",
    ".endr",
    "ret",
    ".globl gsim_vclear256",
    "gsim_vclear256:",
    "vzeroall",
    "ret",
    ".globl gsim_vdump256",
    "gsim_vdump256:",
    ".irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15",
    "vmovdqu [rdi + 32 * \\i], ymm\\i",
    ".endr",
    "ret",
);

#[derive(Clone, Copy, PartialEq)]
pub enum Width {
    W256,
    W512,
}
pub fn width() -> Width {
    if std::arch::is_x86_feature_detected!("avx512f") { Width::W512 } else { Width::W256 }
}

pub const BYTES: usize = 32 * 64;

/// Clear the vector registers, call `f`, and store what they hold when it returns.
#[inline(never)]
pub fn around(w: Width, f: &mut dyn FnMut(), out: &mut [u8; BYTES]) {
    out.fill(0);
    unsafe {
        match w {
            Width::W512 => asm!("call gsim_vclear512", clobber_abi("sysv64")),
            Width::W256 => asm!("call gsim_vclear256", clobber_abi("sysv64")),
        }
        f();
        match w {
            Width::W512 => asm!("call gsim_vdump512", in("rdi") out.as_mut_ptr(), clobber_abi("sysv64")),
            Width::W256 => asm!("call gsim_vdump256", in("rdi") out.as_mut_ptr(), clobber_abi("sysv64")),
        }
    }
}

/// name of the register at an offset of the dump
pub fn name(w: Width, off: usize) -> String {
    match w {
        Width::W512 => format!("zmm{}", off / 64),
        Width::W256 => format!("ymm{}", off / 32),
    }
}
