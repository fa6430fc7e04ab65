//! The simulated CPU: which instructions exist and what `cpuid` says.
//!
//! A table of the places where the library under test uses optional instructions is made from the simulator's
//! own binary (`gsim isa`, run after each build). A machine whose CPU lacks a feature has each of its instructions
//! replaced by a trap, as a real CPU would raise #UD there, and the standard library's feature detection
//! (its `cpuid` instructions, its cache emptied) answers for that CPU.

use std::io::Write;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

pub const NAMES: [&str; 13] = ["sha", "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq", "bmi2", "aes", "pclmulqdq", "bmi1", "adx", "avx2", "avx"];
fn bit(n: &str) -> u32 {
    1 << NAMES.iter().position(|x| *x == n).unwrap()
}

fn exe() -> std::path::PathBuf {
    std::fs::read_link("/proc/self/exe").unwrap()
}
fn table_path() -> std::path::PathBuf {
    let mut p = exe().into_os_string();
    p.push(".isa");
    p.into()
}
fn stamp() -> String {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(exe()).unwrap();
    format!("exe {} {}.{}", m.len(), m.mtime(), m.mtime_nsec())
}

/// features an instruction needs, from its encoding and its text
fn classify(bytes: &str, mn: &str, args: &str) -> u32 {
    let first = bytes.split(' ').next().unwrap_or("");
    let evex = first == "62";
    let vex = first == "c4" || first == "c5";
    let ymm = args.contains("ymm");
    let zmm = args.contains("zmm");
    let mut m = 0;
    match mn {
        "mulx" | "rorx" | "sarx" | "shlx" | "shrx" | "bzhi" | "pdep" | "pext" => return bit("bmi2"),
        "andn" | "bextr" | "blsi" | "blsmsk" | "blsr" => return bit("bmi1"),
        "adcx" | "adox" => return bit("adx"),
        _ => {}
    }
    if mn.starts_with("sha256") || mn.starts_with("sha1") {
        return bit("sha");
    }
    if mn.starts_with("aes") {
        return bit("aes");
    }
    if mn.starts_with("pclmul") {
        return bit("pclmulqdq");
    }
    if vex && mn.starts_with('k') {
        return bit(if mn.ends_with('d') || mn.ends_with('q') { "avx512bw" } else { "avx512f" });
    }
    if !mn.starts_with('v') || !(evex || vex) {
        return 0;
    }
    if evex {
        m |= bit("avx512f");
        if !zmm {
            m |= bit("avx512vl");
        }
        const BW: [&str; 22] = [
            "vpshufb", "vpaddb", "vpaddw", "vpsubb", "vpsubw", "vmovdqu8", "vmovdqu16", "vpslldq", "vpsrldq", "vpalignr", "vpunpcklbw", "vpunpckhbw", "vpunpcklwd", "vpunpckhwd", "vpbroadcastb", "vpbroadcastw",
            "vpsllw", "vpsrlw", "vpmullw", "vpmovb2m", "vpmovm2b", "vpblendmb",
        ];
        if BW.contains(&mn) {
            m |= bit("avx512bw");
        }
    } else {
        m |= bit("avx");
    }
    if mn.starts_with("vaes") {
        m |= bit(if ymm || zmm { "vaes" } else { "aes" });
    } else if mn.starts_with("vpclmul") {
        m |= bit(if ymm || zmm { "vpclmulqdq" } else { "pclmulqdq" });
    } else if vex {
        let int256 = ymm && mn.starts_with("vp") && !mn.starts_with("vpermilp") && mn != "vperm2f128" && mn != "vptest";
        let lanes = ["vbroadcasti", "vextracti", "vinserti", "vpblendd", "vpbroadcast", "vpsllv", "vpsrlv", "vpsrav", "vpgather", "vpmaskmov", "vpermd", "vpermq", "vperm2i"];
        if int256 || lanes.iter().any(|l| mn.starts_with(l)) {
            m |= bit("avx2");
        }
    }
    m
}

/// Make the table for this binary, unless it is there already.
pub fn prepare() -> Result<(), String> {
    let st = stamp();
    if std::fs::read_to_string(table_path()).is_ok_and(|t| t.lines().next() == Some(&st) && t.ends_with("end\n")) {
        return Ok(());
    }
    let run = |c: &str, a: &[&str]| {
        let o = std::process::Command::new(c).args(a).arg(exe()).stderr(std::process::Stdio::null()).output().map_err(|e| format!("{c}: {e}"))?;
        if !o.status.success() {
            return Err(format!("{c} failed"));
        }
        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let mut out = st + "\n";
    for l in run("nm", &["-C"])?.lines() {
        if l.ends_with(" std_detect::detect::cache::CACHE") {
            out += &format!("cache {}\n", l.split(' ').next().unwrap());
        }
    }
    let dis = run("objdump", &["-d", "-C", "-w"])?;
    let (mut lib, mut det, mut named) = (false, false, false);
    let mut name = "";
    for l in dis.lines() {
        if l.ends_with(">:") {
            name = l.split_once('<').map(|x| &x.1[..x.1.len() - 2]).unwrap_or("");
            lib = name.contains("graviola");
            det = name.starts_with("std_detect::");
            named = false;
            continue;
        }
        if !(lib || det) {
            continue;
        }
        let mut f = l.split('\t');
        let (Some(a), Some(b), Some(i)) = (f.next(), f.next(), f.next()) else { continue };
        let addr = a.trim().trim_end_matches(':');
        let (mn, args) = i.split_once(' ').unwrap_or((i, ""));
        if det {
            if mn.trim() == "cpuid" {
                out += &format!("c {addr}\n");
            }
            continue;
        }
        let args = args.split('#').next().unwrap();
        let m = classify(b.trim(), mn.trim(), args);
        if m != 0 {
            if !named {
                out += &format!("f {name}\n");
                named = true;
            }
            out += &format!("s {addr} {m:x}\n");
        }
    }
    out += "end\n";
    let tmp = table_path().with_extension(format!("isa.{}", std::process::id()));
    std::fs::File::create(&tmp).and_then(|mut f| f.write_all(out.as_bytes())).map_err(|e| e.to_string())?;
    std::fs::rename(&tmp, table_path()).map_err(|e| e.to_string())
}

pub struct Table {
    base: usize,
    cache: Option<usize>,
    cpuid: Vec<usize>,
    /// (address, features, index of function)
    sites: Vec<(usize, u32, u32)>,
    funcs: Vec<String>,
}

pub fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        prepare().expect("table of optional instructions");
        let text = std::fs::read_to_string(table_path()).unwrap();
        let mut t = Table { base: base(), cache: None, cpuid: vec![], sites: vec![], funcs: vec![] };
        let hex = |s: &str| usize::from_str_radix(s, 16).unwrap();
        for l in text.lines() {
            match l.split_once(' ') {
                Some(("cache", a)) => t.cache = Some(hex(a)),
                Some(("c", a)) => t.cpuid.push(hex(a)),
                Some(("f", n)) => t.funcs.push(n.to_string()),
                Some(("s", r)) => {
                    let (a, m) = r.split_once(' ').unwrap();
                    t.sites.push((hex(a), hex(m) as u32, t.funcs.len() as u32 - 1));
                }
                _ => {}
            }
        }
        t.sites.sort();
        t
    })
}

fn base() -> usize {
    extern "C" fn cb(i: *mut libc::dl_phdr_info, _: usize, d: *mut libc::c_void) -> i32 {
        unsafe { *(d as *mut usize) = (*i).dlpi_addr as usize };
        1 // the first one is the program itself
    }
    let mut b = 0usize;
    unsafe { libc::dl_iterate_phdr(Some(cb), &mut b as *mut _ as *mut _) };
    b
}

/// How many places of the library need each feature.
pub fn counts() -> Vec<(&'static str, usize)> {
    let t = table();
    NAMES.iter().enumerate().map(|(i, n)| (*n, t.sites.iter().filter(|s| s.1 >> i & 1 == 1).count())).collect()
}

static LACK: AtomicU64 = AtomicU64::new(0);
static REPORT: AtomicU64 = AtomicU64::new(0);

/// From here on this process runs on a CPU that lacks `lack`; `report` is told the features and the function when
/// the library executes an instruction this CPU does not have, and the process ends.
/// False if this toolchain's feature detection could not be found in the binary.
pub fn arm(lack: u32, report: fn(&str, &str)) -> bool {
    let t = table();
    let Some(cache) = t.cache else { return false };
    if t.cpuid.is_empty() {
        return false;
    }
    LACK.store(lack as u64, Ordering::SeqCst);
    REPORT.store(report as usize as u64, Ordering::SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        let at: Vec<usize> = t.sites.iter().filter(|s| s.1 & lack != 0).map(|s| s.0).chain(t.cpuid.iter().copied()).map(|a| a + t.base).collect();
        let mut pages: Vec<usize> = at.iter().map(|a| a & !4095).collect();
        pages.sort();
        pages.dedup();
        // as few ranges as possible
        let mut i = 0;
        let mut ranges = vec![];
        while i < pages.len() {
            let mut j = i;
            while j + 1 < pages.len() && pages[j + 1] - pages[j] <= 1 << 16 {
                j += 1;
            }
            ranges.push((pages[i], pages[j] + 4096 - pages[i]));
            i = j + 1;
        }
        for (p, n) in &ranges {
            assert_eq!(libc::mprotect(*p as *mut _, *n, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC), 0, "mprotect");
        }
        for a in at {
            *(a as *mut u8) = 0xcc;
        }
        for (p, n) in &ranges {
            libc::mprotect(*p as *mut _, *n, libc::PROT_READ | libc::PROT_EXEC);
        }
        std::ptr::write_bytes((cache + t.base) as *mut u8, 0, 24);
    }
    true
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let t = table();
    let lack = LACK.load(Ordering::SeqCst) as u32;
    unsafe {
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize] as usize;
        let at = rip - 1 - t.base;
        if t.cpuid.contains(&at) {
            let (leaf, sub) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
            let mut r = std::arch::x86_64::__cpuid_count(leaf, sub);
            let no = |n: &str| lack & bit(n) != 0;
            let mut clear = |reg: u8, b: u32, n: &str| {
                if no(n) {
                    match reg {
                        0 => r.ebx &= !(1 << b),
                        _ => r.ecx &= !(1 << b),
                    }
                }
            };
            if leaf == 1 {
                clear(1, 1, "pclmulqdq");
                clear(1, 25, "aes");
                clear(1, 28, "avx");
            } else if leaf == 7 && sub == 0 {
                for (b, n) in [(3, "bmi1"), (5, "avx2"), (8, "bmi2"), (16, "avx512f"), (19, "adx"), (29, "sha"), (30, "avx512bw"), (31, "avx512vl")] {
                    clear(0, b, n);
                }
                clear(1, 9, "vaes");
                clear(1, 10, "vpclmulqdq");
            }
            g[libc::REG_RAX as usize] = r.eax as i64;
            g[libc::REG_RBX as usize] = r.ebx as i64;
            g[libc::REG_RCX as usize] = r.ecx as i64;
            g[libc::REG_RDX as usize] = r.edx as i64;
            g[libc::REG_RIP as usize] = rip as i64 + 1;
            return;
        }
        let f: fn(&str, &str) = std::mem::transmute(REPORT.load(Ordering::SeqCst) as usize);
        match t.sites.binary_search_by_key(&at, |s| s.0) {
            Ok(i) => {
                let (_, m, n) = t.sites[i];
                let names: Vec<&str> = NAMES.iter().enumerate().filter(|(k, _)| (m & lack) >> k & 1 == 1).map(|x| *x.1).collect();
                f(&names.join("+"), &t.funcs[n as usize]);
            }
            Err(_) => f("?", "breakpoint"),
        }
        libc::_exit(0)
    }
}
