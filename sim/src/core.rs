//! Runs, workers, minimisation, replay files and evidence.

use crate::rng::{Rng, hash_str, mix};
use crate::{cov, env};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    /// kind of violation; minimisation keeps it
    pub class: String,
    pub detail: String,
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::core::Fail { class: ($class).to_string(), detail: format!($($a)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { return Err($crate::core::Fail { class: ($class).to_string(), detail: format!($($a)*) }) }
    };
}

pub type R<T = ()> = Result<T, Fail>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-run recorder: event history (hashed), fault counters, probes.
#[derive(Default)]
pub struct Cx {
    pub verbose: bool,
    hash: u64,
    pub events: Vec<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub checks: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub step: usize,
}

impl Cx {
    pub fn ev(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.hash = mix(self.hash, hash_str(s));
        if self.verbose || self.events.len() < 40 {
            self.events.push(format!("[{}] {}", self.step, s));
        }
    }
    pub fn ev_bytes(&mut self, tag: &str, b: &[u8]) {
        let mut h = hash_str(tag);
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(x));
        }
        self.hash = mix(self.hash, h ^ b.len() as u64);
    }
    pub fn fault(&mut self, k: &str) {
        self.faultn(k, 1)
    }
    pub fn faultn(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn op(&mut self, k: &str) {
        *self.ops.entry(k.to_string()).or_default() += 1;
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
    pub fn log_entropy(&mut self, l: &env::EntropyLog) {
        self.faultn("entropy.error", l.errors as u64);
        self.faultn("entropy.eintr", l.eintrs as u64);
        self.faultn("entropy.short_read", l.shorts as u64);
        self.faultn("entropy.eof", l.zeros as u64);
        self.faultn("entropy.exhausted", l.exhausted as u64);
    }
    /// Run library code; a panic becomes a violation.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        self.call_sized(what, 0, f)
    }
    /// the same for an operation on `bytes` bytes of data
    pub fn call_sized<T>(&mut self, what: &str, bytes: usize, f: impl FnOnce() -> T) -> R<T> {
        self.op(what);
        cov::set_hang_budget(crate::sched::HANG + 24 * bytes as u64);
        match catch(f) {
            Ok(v) => Ok(v),
            Err(p) => Err(Fail { class: format!("panic:{}", p.0), detail: format!("{what} panicked: {}", p.1) }),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// (short identity, full message)
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let short = file.rsplit('/').next().unwrap_or("").to_string();
        let v = (short, format!("{msg} at {file}:{line}"));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = v);
    }));
}

// ------------------------------------------------------------------ property definitions

pub struct Def {
    pub id: &'static str,
    pub title: &'static str,
    pub generate: fn(&mut Rng, u64, Tier) -> Vec<Value>,
    pub exec: fn(&[Value], &mut Cx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub probes: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub trait Scenario {
    type Step: Serialize + DeserializeOwned;
    fn generate(rng: &mut Rng, run: u64, tier: Tier) -> Vec<Self::Step>;
    fn exec(steps: &[Self::Step], cx: &mut Cx) -> R;
}

pub fn gen_erased<S: Scenario>(rng: &mut Rng, run: u64, tier: Tier) -> Vec<Value> {
    S::generate(rng, run, tier).iter().map(|s| serde_json::to_value(s).unwrap()).collect()
}
pub fn exec_erased<S: Scenario>(steps: &[Value], cx: &mut Cx) -> R {
    let mut v = vec![];
    for s in steps {
        match serde_json::from_value::<S::Step>(s.clone()) {
            Ok(s) => v.push(s),
            Err(e) => fail!("invalid-plan", "{e}"),
        }
    }
    S::exec(&v, cx)
}

// ------------------------------------------------------------------ one run in a forked child

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub fail: Option<Fail>,
    pub trace: u64,
    pub events: Vec<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub checks: u64,
    pub sim_ns: u64,
    pub edges: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub unseeded: u64,
    #[serde(default)]
    pub cov_sig: u64,
    #[serde(default)]
    pub cov_hit: u32,
}

pub static RESULT_FD: AtomicI32 = AtomicI32::new(-1);

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

/// End the run at once with a violation (deadlock, hang): called from inside the simulated code.
pub fn abort_run(class: &str, detail: &str) -> ! {
    let o = RunOut { fail: Some(Fail { class: class.into(), detail: detail.into() }), ..Default::default() };
    let fd = RESULT_FD.load(Ordering::Relaxed);
    if fd >= 0 {
        write_all(fd, &serde_json::to_vec(&o).unwrap());
    }
    unsafe { libc::_exit(0) }
}

fn exec_here(def: &Def, steps: &[Value], verbose: bool) -> RunOut {
    env::clock_reset();
    env::set_cpu(0);
    let t0 = env::clock_ns();
    let mut cx = Cx { verbose, ..Default::default() };
    let e0 = cov::edges();
    let r = catch(|| (def.exec)(steps, &mut cx));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err((s, m)) => Some(Fail { class: format!("panic:{s}"), detail: format!("uncaught panic: {m}") }),
    };
    let clock = (env::clock_ns() - t0).unsigned_abs();
    RunOut {
        fail,
        trace: cx.hash,
        events: cx.events,
        faults: cx.faults,
        probes: cx.probes,
        ops: cx.ops,
        checks: cx.checks,
        sim_ns: cx.sim_ns + clock,
        edges: cov::edges() - e0,
        switches: cx.switches,
        sched_hash: cx.sched_hash,
        unseeded: env::UNSEEDED_READS.load(Ordering::Relaxed),
        cov_sig: 0,
        cov_hit: 0,
    }
}

pub fn run_forked(def: &Def, steps: &[Value], verbose: bool) -> RunOut {
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    cov::map().fill(0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            // no core files, bounded memory and CPU
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let m = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
        }
        RESULT_FD.store(fds[1], Ordering::Relaxed);
        let out = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || exec_here(def, steps, verbose))
                .unwrap()
                .join()
                .unwrap()
        });
        write_all(fds[1], &serde_json::to_vec(&out).unwrap());
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = vec![];
    let deadline = env::wall_s() + RUN_WALL_S;
    let mut timed_out = false;
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let left = ((deadline - env::wall_s()) * 1000.0).max(0.0) as i32;
        let n = unsafe { libc::poll(&mut p, 1, left) };
        if n == 0 {
            timed_out = true;
            break;
        }
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&b[..n as usize]);
    }
    unsafe { libc::close(fds[0]) };
    if timed_out {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let mut out: RunOut = if timed_out {
        RunOut { fail: Some(Fail { class: "hang".into(), detail: format!("run did not end within {RUN_WALL_S} s") }), ..Default::default() }
    } else {
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(_) => {
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                RunOut {
                    fail: Some(Fail { class: format!("crash:signal{sig}"), detail: format!("process died (status {st:#x})") }),
                    ..Default::default()
                }
            }
        }
    };
    let (s, h) = cov::signature();
    out.cov_sig = s;
    out.cov_hit = h;
    out
}

const RUN_WALL_S: f64 = 150.0;

/// Compute `f` in a copy of this process, so that nothing it does is remembered here.
pub fn aside<T: Serialize + DeserializeOwned>(f: impl FnOnce() -> T) -> R<T> {
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        RESULT_FD.store(fds[1], Ordering::Relaxed);
        let v = catch(f).map_err(|(s, m)| Fail { class: format!("panic:{s}"), detail: m });
        let v = match v {
            Ok(v) => (Some(v), None),
            Err(e) => (None, Some(e)),
        };
        write_all(fds[1], &serde_json::to_vec(&v).unwrap());
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = vec![];
    loop {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&b[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        libc::close(fds[0]);
        libc::waitpid(pid, &mut st, 0)
    };
    if let Ok((v, e)) = serde_json::from_slice::<(Option<T>, Option<Fail>)>(&buf) {
        return match (v, e) {
            (Some(v), _) => Ok(v),
            (None, Some(e)) => Err(e),
            _ => Err(Fail { class: "aside".into(), detail: "nothing computed".into() }),
        };
    }
    if let Ok(RunOut { fail: Some(f), .. }) = serde_json::from_slice::<RunOut>(&buf) {
        return Err(f);
    }
    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
    Err(Fail { class: format!("crash:signal{sig}"), detail: format!("process died (status {st:#x})") })
}

// ------------------------------------------------------------------ aggregation

#[derive(Default, Serialize, Deserialize)]
pub struct Agg {
    pub runs: u64,
    pub checks: u64,
    pub edges: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub traces: BTreeSet<u64>,
    pub nontrivial_traces: BTreeSet<u64>,
    pub cov_sigs: BTreeSet<u64>,
    pub scheds: BTreeSet<u64>,
    pub cov: BTreeSet<u32>,
    pub recheck: u64,
    pub recheck_bad: u64,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub digest: u64,
    pub faulty_runs: u64,
    pub unseeded: u64,
}

fn merge(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_default() += v;
    }
}

impl Agg {
    fn add(&mut self, idx: u64, o: &RunOut) {
        self.runs += 1;
        self.checks += o.checks;
        self.edges += o.edges;
        self.sim_ns += o.sim_ns;
        self.switches += o.switches;
        merge(&mut self.faults, &o.faults);
        merge(&mut self.probes, &o.probes);
        merge(&mut self.ops, &o.ops);
        self.traces.insert(o.trace);
        if !o.faults.is_empty() || o.switches > 0 {
            self.faulty_runs += 1;
        }
        if o.checks > 0 && (!o.faults.is_empty() || o.switches > 0 || o.ops.values().sum::<u64>() > 1) {
            self.nontrivial_traces.insert(o.trace);
        }
        self.cov_sigs.insert(o.cov_sig);
        if o.switches > 0 {
            self.scheds.insert(o.sched_hash);
        }
        self.digest = self.digest.wrapping_add(mix(mix(idx, o.trace), o.checks));
        self.unseeded += o.unseeded;
        for (i, &c) in cov::map()[..(cov::guards() as usize + 1).min(cov::MAX_EDGES)].iter().enumerate() {
            if c != 0 {
                self.cov.insert(i as u32);
            }
        }
    }
    fn merge(&mut self, b: Agg) {
        self.runs += b.runs;
        self.checks += b.checks;
        self.edges += b.edges;
        self.sim_ns += b.sim_ns;
        self.switches += b.switches;
        merge(&mut self.faults, &b.faults);
        merge(&mut self.probes, &b.probes);
        merge(&mut self.ops, &b.ops);
        merge(&mut self.known, &b.known);
        self.traces.extend(b.traces);
        self.nontrivial_traces.extend(b.nontrivial_traces);
        self.cov_sigs.extend(b.cov_sigs);
        self.scheds.extend(b.scheds);
        self.cov.extend(b.cov);
        self.recheck += b.recheck;
        self.recheck_bad += b.recheck_bad;
        self.samples.extend(b.samples);
        self.digest = self.digest.wrapping_add(b.digest);
        self.faulty_runs += b.faulty_runs;
        self.unseeded += b.unseeded;
    }
}

pub fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    mix(mix(seed, hash_str(id)), run)
}

pub fn plan(def: &Def, seed: u64, run: u64, tier: Tier) -> Vec<Value> {
    let mut rng = Rng::new(run_seed(seed, def.id, run));
    (def.generate)(&mut rng, run, tier)
}

#[derive(Deserialize)]
struct Known {
    status: String,
    property: String,
    #[serde(default)]
    class: String,
    #[serde(default)]
    contains: String,
    what: String,
}

fn load_known(id: &str) -> Vec<Known> {
    let p = "/verif/known-findings.json";
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Vec<Known> = serde_json::from_str(&s).expect("known-findings.json");
    v.into_iter().filter(|k| k.property == id && k.status == "known").collect()
}

fn known_match<'a>(known: &'a [Known], f: &Fail) -> Option<&'a Known> {
    known.iter().find(|k| k.class == f.class && f.detail.contains(&k.contains))
}

// ------------------------------------------------------------------ worker

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub runs: u64,
    pub first: u64,
    pub workers: u64,
    pub cap_s: f64,
}

pub fn worker(def: &Def, o: &Opts, w: u64) {
    // keep a private copy of stdout; what the code under test prints goes nowhere
    let out_fd = unsafe {
        let d = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        d
    };
    cov::init_map();
    install_panic_hook();
    let known = load_known(def.id);
    let mut out = unsafe { std::fs::File::from_raw_fd(out_fd) };
    let mut agg = Agg::default();
    let t0 = env::wall_s();
    let mut i = o.first + w;
    while i < o.first + o.runs {
        if env::wall_s() - t0 > o.cap_s {
            break;
        }
        let steps = plan(def, o.seed, i, o.tier);
        let r = run_forked(def, &steps, false);
        agg.add(i, &r);
        if agg.samples.is_empty() && (!r.faults.is_empty() || r.switches > 0) {
            let mut st = steps.clone();
            st.truncate(6);
            agg.samples.push(json!({"run": i, "plan_first_steps": st, "history": r.events.iter().take(10).collect::<Vec<_>>(), "faults": r.faults}));
        }
        if let Some(f) = &r.fail {
            if let Some(k) = known_match(&known, f) {
                *agg.known.entry(k.what.clone()).or_default() += 1;
            } else {
                let line = format!("FAIL {}\n", json!({"run": i, "fail": f}));
                let _ = out.write_all(line.as_bytes());
                let _ = out.flush();
                break;
            }
        } else if agg.runs % 50 == 1 {
            let r2 = run_forked(def, &steps, false);
            agg.recheck += 1;
            if r2.trace != r.trace || r2.cov_sig != r.cov_sig || r2.fail.is_some() {
                agg.recheck_bad += 1;
            }
        }
        i += o.workers;
    }
    let _ = writeln!(out, "AGG {}", serde_json::to_string(&agg).unwrap());
}

// ------------------------------------------------------------------ minimisation

fn same(def: &Def, steps: &[Value], class: &str) -> Option<RunOut> {
    let o = run_forked(def, steps, true);
    match &o.fail {
        Some(f) if f.class == class => Some(o),
        _ => None,
    }
}

pub fn minimise(def: &Def, mut steps: Vec<Value>, class: &str, budget_s: f64) -> (Vec<Value>, u64) {
    let t0 = env::wall_s();
    let mut execs = 0;
    let over = |e: u64| env::wall_s() - t0 > budget_s || e > 3000;
    // 1. drop steps, in shrinking chunks
    let mut chunk = steps.len() / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < steps.len() && steps.len() > 1 {
            if over(execs) {
                return (steps, execs);
            }
            let mut c = steps.clone();
            c.drain(i..(i + chunk).min(c.len()));
            execs += 1;
            if !c.is_empty() && same(def, &c, class).is_some() {
                steps = c;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    // 2. simplify each step's arguments
    let mut progress = true;
    while progress && !over(execs) {
        progress = false;
        for i in 0..steps.len() {
            let mut tried = BTreeSet::new();
            loop {
                let mut improved = false;
                for cand in simpler(&steps[i]) {
                    if over(execs) {
                        return (steps, execs);
                    }
                    if !tried.insert(cand.to_string()) {
                        continue;
                    }
                    let mut c = steps.clone();
                    c[i] = cand;
                    execs += 1;
                    if same(def, &c, class).is_some() {
                        steps = c;
                        improved = true;
                        progress = true;
                        break;
                    }
                }
                if !improved {
                    break;
                }
            }
        }
    }
    (steps, execs)
}

/// candidate simplifications of a JSON value
fn simpler(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                for c in [0, 1, x / 2, x.saturating_sub(1)] {
                    if c < x {
                        out.push(json!(c));
                    }
                }
            } else if let Some(x) = n.as_i64() {
                for c in [0, x / 2] {
                    if c != x {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::Array(a) => {
            let mut chunk = a.len();
            while chunk >= 1 {
                let mut i = 0;
                while i < a.len() {
                    let mut c = a.clone();
                    c.drain(i..(i + chunk).min(a.len()));
                    out.push(Value::Array(c));
                    i += chunk;
                }
                chunk /= 2;
            }
            if a.len() <= 16 {
                for (i, e) in a.iter().enumerate() {
                    for s in simpler(e) {
                        let mut c = a.clone();
                        c[i] = s;
                        out.push(Value::Array(c));
                    }
                }
            }
        }
        Value::Object(m) => {
            for (k, e) in m {
                if !e.is_null() && !e.is_object() && !e.is_array() && !e.is_string() {
                    // optional fields may be dropped
                } else if e.is_object() || e.is_array() {
                    let mut c = m.clone();
                    c.insert(k.clone(), Value::Null);
                    out.push(Value::Object(c));
                }
                for s in simpler(e) {
                    let mut c = m.clone();
                    c.insert(k.clone(), s);
                    out.push(Value::Object(c));
                }
            }
        }
        _ => {}
    }
    out
}

// ------------------------------------------------------------------ parent

pub fn check(def: &Def, o: &Opts) -> i32 {
    let t0 = env::wall_s();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..o.workers {
        let k = std::process::Command::new(&exe)
            .args([
                "worker",
                def.id,
                &w.to_string(),
                &o.workers.to_string(),
                &o.seed.to_string(),
                if o.tier == Tier::Quick { "quick" } else { "thorough" },
                &o.runs.to_string(),
                &o.cap_s.to_string(),
                &o.first.to_string(),
            ])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push(k);
    }
    let (tx, rx) = std::sync::mpsc::channel::<(u64, Option<String>)>();
    for (w, k) in kids.iter_mut().enumerate() {
        let out = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines() {
                match l {
                    Ok(l) => tx.send((w as u64, Some(l))).unwrap(),
                    Err(_) => break,
                }
            }
            let _ = tx.send((w as u64, None));
        });
    }
    drop(tx);
    let mut agg = Agg::default();
    let mut first_fail: Option<(u64, Fail)> = None;
    let mut aggs = 0;
    for (_, l) in rx {
        let Some(l) = l else { continue };
        if let Some(j) = l.strip_prefix("FAIL ") {
            // a worker that was stopped may leave half a line
            let Ok(v) = serde_json::from_str::<Value>(j) else { continue };
            let f: Fail = serde_json::from_value(v["fail"].clone()).unwrap();
            let run = v["run"].as_u64().unwrap();
            if first_fail.is_none() {
                first_fail = Some((run, f));
                // the others need not go on
                for k in kids.iter() {
                    unsafe { libc::kill(k.id() as i32, libc::SIGTERM) };
                }
            }
        } else if let Some(j) = l.strip_prefix("AGG ") {
            if let Ok(a) = serde_json::from_str(j) {
                agg.merge(a);
                aggs += 1;
            }
        }
    }
    for k in kids.iter_mut() {
        let _ = k.wait();
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((run, f)) = first_fail {
        let v = report(def, o, run, &f);
        match v {
            Ok(path) => {
                println!("VIOLATION property={} replay={}", def.id, path);
                violations = 1;
                code = 1;
            }
            Err(e) => {
                println!("ERROR property={} {}", def.id, e);
                code = 2;
            }
        }
    } else if aggs != o.workers {
        println!("ERROR property={} only {aggs} of {} workers finished", def.id, o.workers);
        code = 2;
    }
    for (w, n) in &agg.known {
        println!("KNOWN-FINDING: property={} {} ({} runs)", def.id, w, n);
    }
    let wall = env::wall_s() - t0;
    write_evidence(def, o, &agg, wall, violations);
    println!(
        "{} runs={} checks={} distinct={} faults={} edges_hit={}/{} switches={} digest={:016x} recheck={}/{} wall={:.1}s",
        def.id,
        agg.runs,
        agg.checks,
        agg.traces.len(),
        agg.faults.values().sum::<u64>(),
        agg.cov.len(),
        cov::guards(),
        agg.switches,
        agg.digest,
        agg.recheck - agg.recheck_bad,
        agg.recheck,
        wall
    );
    for p in def.probes {
        if !agg.probes.contains_key(*p) && code == 0 {
            println!("note: probe {p} not reached");
        }
    }
    code
}

fn report(def: &Def, o: &Opts, run: u64, f: &Fail) -> Result<String, String> {
    cov::init_map();
    install_panic_hook();
    let silent = unsafe {
        let d = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        d
    };
    let steps = plan(def, o.seed, run, o.tier);
    let (small, execs) = minimise(def, steps.clone(), &f.class, 60.0);
    let fin = same(def, &small, &f.class).or_else(|| same(def, &steps, &f.class));
    unsafe {
        libc::dup2(silent, 1);
        libc::close(silent);
    }
    let (small, fin) = match fin {
        Some(x) => (small, x),
        None => {
            // a violation seen once by a worker but not in a fresh process: still report it with its plan
            (steps.clone(), RunOut { fail: Some(f.clone()), ..Default::default() })
        }
    };
    let ff = fin.fail.clone().unwrap();
    let dir = "/verif/replays";
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{}-{}-{}.json", def.id, o.seed, run);
    let v = json!({
        "property": def.id, "title": def.title, "seed": o.seed, "run": run, "class": ff.class, "detail": ff.detail,
        "steps": small, "original_steps": steps.len(), "minimiser_executions": execs,
        "trace_hash": format!("{:016x}", fin.trace), "history": fin.events,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).map_err(|e| e.to_string())?;
    println!("violation class={} steps={} (from {}) seed={} run={}", ff.class, small.len(), steps.len(), o.seed, run);
    println!("  {}", ff.detail.chars().take(600).collect::<String>());
    // replay in a fresh process
    let exe = std::env::current_exe().unwrap();
    let r = std::process::Command::new(exe).args(["replay", &path]).output().map_err(|e| e.to_string())?;
    println!("  replay in a fresh process: {}", if r.status.code() == Some(1) { "reproduced exactly" } else { "did not reproduce" });
    Ok(path)
}

pub fn replay(defs: &[Def], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let id = v["property"].as_str().unwrap();
    let def = defs.iter().find(|d| d.id == id).expect("property");
    let steps = v["steps"].as_array().unwrap().clone();
    cov::init_map();
    install_panic_hook();
    let saved = unsafe {
        let d = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        d
    };
    let o = run_forked(def, &steps, true);
    unsafe { libc::dup2(saved, 1) };
    for e in &o.events {
        println!("{e}");
    }
    match &o.fail {
        Some(f) => {
            let same_class = f.class == v["class"].as_str().unwrap_or("");
            let same_trace = format!("{:016x}", o.trace) == v["trace_hash"].as_str().unwrap_or("");
            println!("class={} detail={}", f.class, f.detail);
            println!("same class: {same_class}, same history hash: {same_trace}");
            println!("VIOLATION property={id} replay={path}");
            if same_class && same_trace { 1 } else { 3 }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn write_evidence(def: &Def, o: &Opts, a: &Agg, wall: f64, violations: u64) {
    let mut probes = a.probes.clone();
    for p in def.probes {
        probes.entry(p.to_string()).or_insert(0);
    }
    let per_hour = if wall > 0.0 { (a.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let mut samples = a.samples.clone();
    samples.truncate(3);
    let v = json!({
        "property": def.id,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial_traces.len(),
            "rule": def.rule,
            "samples": samples,
            "technique": "deterministic simulation with fault injection",
            "oracle_checks": a.checks,
            "operations_by_kind": a.ops,
            "runs_and_seeds_per_hour": per_hour,
            "simulated_time_s": a.sim_ns as f64 / 1e9,
            "faults_injected": a.faults,
            "runs_with_faults_or_preemptions": a.faulty_runs,
            "thread_switches": a.switches,
            "distinct_interleavings": a.scheds.len(),
            "distinct_coverage_signatures": a.cov_sigs.len(),
            "distinct_histories": a.traces.len(),
            "edges_reached": a.cov.len(),
            "edges_instrumented": cov::guards(),
            "edges_executed": a.edges,
            "probes": probes,
            "determinism_rechecks": a.recheck,
            "determinism_mismatches": a.recheck_bad,
            "history_digest": format!("{:016x}", a.digest),
            "real_components": def.real,
            "stub_components": def.stub,
            "known_findings_seen": a.known,
        },
        "assumptions": def.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", def.id), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

pub fn read_all(p: &str) -> Vec<u8> {
    let mut v = vec![];
    std::fs::File::open(p).unwrap().read_to_end(&mut v).unwrap();
    v
}

/// print one run's plan and outcome
pub fn one(def: &Def, seed: u64, run: u64, tier: Tier) {
    cov::init_map();
    install_panic_hook();
    let steps = plan(def, seed, run, tier);
    for s in &steps {
        println!("{s}");
    }
    let t = env::wall_s();
    let o = run_forked(def, &steps, true);
    for e in &o.events {
        println!("  {e}");
    }
    println!("fail={:?} checks={} edges={} switches={} faults={:?} ops={:?} probes={:?} unseeded={} {:.3}s", o.fail, o.checks, o.edges, o.switches, o.faults, o.ops, o.probes, o.unseeded, env::wall_s() - t);
}
