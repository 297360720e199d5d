//! Case runner: executes randomly generated cases of a property on all cores, watches for
//! violations (oracle failures, unexpected library panics, hangs, crashes), shrinks by seed search,
//! writes the replay and evidence files.

use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// An oracle failure. `sig` is a stable, short identifier of what failed.
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

pub fn vio(sig: impl Into<String>, msg: impl Into<String>) -> ! {
    panic::panic_any(Violation { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !$cond { $crate::run::vio($sig, format!($($fmt)+)) }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            $crate::run::vio($sig, format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b))
        }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn normalise(msg: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let short = loc
            .rsplit_once("/repo/")
            .map(|(_, s)| s.to_string())
            .unwrap_or_else(|| match loc.find("library/") {
                Some(i) => loc[i..].to_string(),
                None => loc.clone(),
            });
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((format!("{short}:{line}"), msg)));
    }));
}

/// Runs `f`, returning `Err(description)` if the code under test panicked. Oracle violations pass through.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Violation>() {
                panic::resume_unwind(p)
            }
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            Err(format!("{loc}: {msg}"))
        }
    }
}

/// Runs library code that must not panic on this (valid) input.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch(f) {
        Ok(v) => v,
        Err(e) => vio(format!("panic:{what}"), format!("{what} panicked: {e}")),
    }
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<&'static str, u64>,
}

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    /// Size hint, 1..=100.
    pub size: usize,
    pub tier_thorough: bool,
    pub obs: Obs,
    pub fp: u64,
    nontrivial: bool,
    pub logging: bool,
    pub log: Vec<String>,
    pub params: Params,
}

#[derive(Clone, Copy, Default)]
pub struct Params {
    pub a: u64,
}

impl Case {
    pub fn new(seed: u64, size: usize, logging: bool, thorough: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            seed,
            size,
            tier_thorough: thorough,
            obs: Obs::default(),
            fp: 0,
            nontrivial: false,
            logging,
            log: vec![],
            params: Params::default(),
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.obs.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.obs.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Mix a value into the case fingerprint.
    pub fn feed(&mut self, x: u64) {
        self.fp = mix(self.fp ^ x);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

pub type CaseFn = fn(&mut Case);

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Largest size hint.
    pub max_size: usize,
    pub f: CaseFn,
}

pub struct Check {
    pub prop: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: &'static [Suite],
}

/// Set by checks that only watch for crashes (memory errors): oracle failures and panics of the
/// workloads belong to other properties and are ignored.
pub static CRASH_ONLY: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LEAN: Cell<u64> = const { Cell::new(0) };
}
/// The interpreter is some thousand times slower: there, only every seventh comparison with the model is made.
pub fn lean_skip() -> bool {
    cfg!(miri)
        && LEAN.with(|l| {
            l.set(l.get() + 1);
            mix(l.get()) % 7 != 0
        })
}

pub fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn root() -> std::path::PathBuf {
    std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

fn run_case(s: &Suite, case: &mut Case) -> Option<Violation> {
    LEAN.with(|l| l.set(case.seed));
    LAST_PANIC.with(|l| l.borrow_mut().take());
    let r = panic::catch_unwind(AssertUnwindSafe(|| (s.f)(case)));
    match r {
        Ok(()) => None,
        Err(_) if CRASH_ONLY.load(Ordering::Relaxed) => {
            *case.obs.counters.entry("cases_ended_by_panic").or_insert(0) += 1;
            None
        }
        Err(p) => Some(match p.downcast::<Violation>() {
            Ok(v) => *v,
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).to_string();
                Violation {
                    sig: format!("panic@{file}: {}", normalise(&msg)),
                    msg: format!("panicked at {loc}: {msg}"),
                }
            }
        }),
    }
}

fn case_seed(seed: u64, suite: usize, idx: u64) -> u64 {
    mix(mix(seed.wrapping_mul(0x1000193) ^ (suite as u64) << 48) ^ idx)
}

fn case_size(cs: u64, max: usize) -> usize {
    let r = mix(cs ^ 0x5151) as usize;
    // Mostly small cases, a tail of large ones.
    let m = match r % 8 {
        0..=3 => max / 4,
        4..=6 => max / 2,
        _ => max,
    }
    .max(1);
    1 + (mix(cs ^ 0xABCD) as usize) % m
}

fn known_sigs(prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, " | ");
                let (p, sig, desc) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p.trim() == format!("property={prop}") {
                    if let Some(sig) = sig.trim().strip_prefix("sig=") {
                        out.push((sig.to_string(), desc.trim().to_string()));
                    }
                }
            }
        }
    }
    out
}

#[derive(Clone)]
struct Found {
    suite: usize,
    seed: u64,
    size: usize,
    v: Violation,
    log: Vec<String>,
}

fn replay_path(prop: &str, f: &Found, suite: &str) -> std::path::PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{prop}-{suite}-{:016x}.json", f.seed))
}

/// The text, or its beginning where it is long.
pub fn shortened(s: &str, max: usize) -> String {
    if s.len() <= max {
        return s.to_string();
    }
    let mut n = max;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{} ... ({} bytes in all)", &s[..n], s.len())
}

fn write_replay(check: &Check, f: &Found, thorough: bool) -> std::path::PathBuf {
    let s = check.suites[f.suite].name;
    let p = replay_path(check.prop, f, s);
    let v = json!({
        "property": check.prop, "suite": s, "case_seed": f.seed.to_string(), "size": f.size,
        "tier": if thorough {"thorough"} else {"quick"},
        "profile": if cfg!(debug_assertions) {"vp"} else {"vprel"},
        "signature": f.v.sig, "message": f.v.msg, "trace": f.log,
        "replay": format!("bash /verif/check.sh {} --replay {}", check.prop, p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn relog(s: &Suite, suite: usize, seed: u64, size: usize, thorough: bool, sig: &str) -> Option<Found> {
    for _ in 0..4 {
        let mut c = Case::new(seed, size, true, thorough);
        if let Some(v) = run_case(s, &mut c) {
            if v.sig == sig {
                return Some(Found { suite, seed, size, v, log: c.log });
            }
        }
    }
    None
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    /// per worker: start time in ms since t0 (0 = idle), suite, seed, size
    slots: Vec<[AtomicU64; 4]>,
    found: Mutex<Vec<Found>>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    totals: Mutex<(BTreeMap<&'static str, u64>, HashSet<u64>, u64, BTreeMap<&'static str, u64>)>,
}

pub fn main_(check: &'static Check) {
    if cfg!(miri) {
        return interpreted(check);
    }
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    if args.iter().any(|a| a == "--worker") {
        std::process::exit(worker(check, &args));
    }
    // Supervisor: run the worker as a child, so that crashes of the code under test are observed.
    let exe = std::env::current_exe().unwrap();
    let cur = root().join("target").join(format!("cur-{}-{}", check.prop, std::process::id()));
    let _ = std::fs::create_dir_all(cur.parent().unwrap());
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("--worker").args(&args[1..]).env("VP_CUR", &cur);
    let st = cmd.status().unwrap();
    let code = st.code();
    let mut exit = match code {
        Some(c) => c,
        None => 2,
    };
    if let Some(sig) = st.signal() {
        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig)
            && get("--one").is_none()
            && get("--replay").is_none()
        {
            // Which of the running cases crashed?
            let data = std::fs::read(&cur).unwrap_or_default();
            let mut found = None;
            let mut any = None;
            for ch in data.chunks(32).filter(|c| c.len() == 32) {
                let w = |i: usize| u64::from_le_bytes(ch[i * 8..i * 8 + 8].try_into().unwrap());
                let (suite, seed, size) = (w(1) as usize, w(2), w(3) as usize);
                if size == 0 {
                    continue;
                }
                let f = Found {
                    suite,
                    seed,
                    size,
                    v: Violation { sig: "crash".into(), msg: format!("process ended by signal {sig} (memory error, abort or exhausted memory/stack)") },
                    log: vec![],
                };
                let st = std::process::Command::new(&exe)
                    .args(["--worker", "--one", &format!("{suite},{seed},{size}")])
                    .env("VP_CUR", &cur)
                    .args(&args[1..])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                any = Some(f.clone());
                if st.map(|s| s.signal().is_some()).unwrap_or(false) {
                    found = Some(f);
                    break;
                }
            }
            if let Some(f) = found.or(any) {
                let thorough = tier_thorough(&args);
                let p = write_replay(check, &f, thorough);
                println!("VIOLATION property={} replay={}", check.prop, p.display());
                println!("  {}: {}", f.v.sig, f.v.msg);
                write_evidence(
                    check,
                    thorough,
                    env_u64("VERIF_SEED", 1),
                    json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule,
                           "samples": [format!("suite {} seed {} size {}", f.suite, f.seed, f.size)]}),
                    0.0,
                    1,
                    check.assumptions,
                );
                exit = 1;
            }
        } else if sig != libc::SIGKILL && sig != libc::SIGTERM && (get("--replay").is_some()) {
            println!("crash reproduced: signal {sig}");
            exit = 1;
        }
    }
    let _ = std::fs::remove_file(&cur);
    std::process::exit(exit);
}

fn tier_thorough(args: &[String]) -> bool {
    let t = args
        .iter()
        .position(|a| a == "--tier")
        .and_then(|i| args.get(i + 1).cloned())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    t == "thorough"
}

pub fn write_evidence(prop: &Check, thorough: bool, seed: u64, coverage: Value, wall: f64, violations: u64, assumptions: &[&str]) {
    // The second, release-mode pass of a check leaves its part elsewhere, to be merged.
    let dir = std::env::var("VP_EVIDENCE_DIR").map(Into::into).unwrap_or_else(|_| root().join("evidence"));
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": prop.prop,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{}.json", prop.prop)), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// Under Miri: one thread, small cases, each announced before it runs, until the time is over.
/// Undefined behaviour ends the interpreter; whoever started it reads the last announcement.
fn interpreted(check: &'static Check) {
    install_hook();
    let t0 = Instant::now();
    let (shard, shards) = (env_u64("VP_SHARD", 0), env_u64("VP_SHARDS", 1));
    let secs = env_u64("VP_MIRI_SECS", 20);
    let seed = env_u64("VERIF_SEED", 1);
    if let Ok(o) = std::env::var("VP_ONE") {
        let v: Vec<&str> = o.split(',').collect();
        let s = check.suites.iter().find(|s| s.name == v[0]).expect("unknown suite");
        println!("@ {o}");
        let mut c = Case::new(v[1].parse().unwrap(), v[2].parse().unwrap(), false, false);
        let _ = run_case(s, &mut c);
        return println!("DONE");
    }
    let only = std::env::var("VP_ONLY").ok();
    let mut per: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut fps = HashSet::new();
    let mut ctr: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut n = 0u64;
    'all: loop {
        // Each round visits every suite once, the shards in different orders.
        for j in 0..check.suites.len() {
            // borrowed workloads in every sixth round only
            if check.suites[j].name.contains('/') && mix(j as u64 ^ (n * shards + shard) << 20) % 6 != 0 {
                continue;
            }
            if t0.elapsed() > Duration::from_secs(secs) {
                break 'all;
            }
            let si = j;
            let s = &check.suites[si];
            if only.as_ref().is_some_and(|o| *o != s.name) {
                continue;
            }
            let k = n * shards + shard;
            let cs = case_seed(seed, si, k);
            let size = case_size(cs, s.max_size.min(3));
            println!("@ {},{cs},{size}", s.name);
            let t = Instant::now();
            let mut c = Case::new(cs, size, false, false);
            let r = run_case(s, &mut c);
            if let Some(v) = r {
                println!("! {}", v.sig);
            }
            let e = per.entry(s.name).or_insert((0, 0));
            e.0 += 1;
            e.1 += t.elapsed().as_millis() as u64;
            if c.nontrivial {
                fps.insert(mix(c.fp ^ si as u64));
            }
            for (k, v) in c.obs.counters {
                *ctr.entry(k).or_insert(0) += v;
            }
        }
        n += 1;
    }
    for (s, (n, ms)) in &per {
        println!("SUITE {s} {n} {ms}");
    }
    for (k, v) in &ctr {
        println!("COUNT {k} {v}");
    }
    println!("DONE {} {}", per.values().map(|x| x.0).sum::<u64>(), fps.len());
}

fn worker(check: &'static Check, args: &[String]) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let thorough = tier_thorough(args);
    let seed = env_u64("VERIF_SEED", 1);
    let all = args.iter().any(|a| a == "--all");
    let only = get("--suite");
    // AddressSanitizer reserves a huge range of addresses.
    if std::env::var("VP_NO_RLIMIT").is_err() { unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    } }
    install_hook();
    let limit_ms = env_u64("VP_CASE_LIMIT_MS", 90_000);

    if let Some(o) = get("--one") {
        let v: Vec<u64> = o.split(',').map(|x| x.parse().unwrap()).collect();
        let s = &check.suites[v[0] as usize];
        let mut c = Case::new(v[1], v[2] as usize, args.iter().any(|a| a == "--log"), thorough);
        let r = on_big_stack(s, &mut c);
        for l in &c.log {
            println!("  {l}");
        }
        if let Some(v) = r {
            println!("{}: {}", v.sig, v.msg);
            return 1;
        }
        println!("ok");
        return 0;
    }
    if let Some(f) = get("--replay") {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let si = check.suites.iter().position(|s| j["suite"] == s.name).expect("unknown suite");
        let th = j["tier"] == "thorough";
        let cs: u64 = j["case_seed"].as_str().unwrap().parse().unwrap();
        let mut c = Case::new(cs, j["size"].as_u64().unwrap() as usize, true, th);
        let r = on_big_stack(&check.suites[si], &mut c);
        for l in &c.log {
            println!("  {l}");
        }
        return match r {
            Some(v) => {
                println!("VIOLATION property={} replay={}", check.prop, f);
                println!("  {}: {}", v.sig, v.msg);
                1
            }
            None => {
                println!("no violation on replay");
                0
            }
        };
    }

    let t0 = Instant::now();
    let nthreads = env_u64("VP_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16)) as usize;
    let budget = Duration::from_secs(env_u64("VP_BUDGET_S", if thorough { 3000 } else { 400 }));
    let scale = env_u64("VP_SCALE", 100);
    let known = known_sigs(check.prop);
    let plan: Vec<(usize, u64)> = check
        .suites
        .iter()
        .enumerate()
        .filter(|(_, s)| only.as_deref().is_none_or(|o| o == s.name))
        .map(|(i, s)| (i, ((if thorough { s.thorough } else { s.quick }) * scale / 100).max(1)))
        .collect();
    let total: u64 = plan.iter().map(|p| p.1).sum();
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        slots: (0..nthreads).map(|_| Default::default()).collect(),
        found: Mutex::new(vec![]),
        known_hits: Mutex::new(BTreeMap::new()),
        totals: Mutex::new(Default::default()),
    });
    let cur = std::env::var("VP_CUR").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).ok());
    let cur = Arc::new(cur);
    let plan = Arc::new(plan);
    let done = Arc::new(AtomicUsize::new(0));
    let known = Arc::new(known);
    for t in 0..nthreads {
        let (sh, plan, cur, done, known) = (sh.clone(), plan.clone(), cur.clone(), done.clone(), known.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut ctr: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut per: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut fps: HashSet<u64> = HashSet::new();
                let mut n = 0u64;
                loop {
                    if sh.stop.load(Ordering::Relaxed) || t0.elapsed() > budget {
                        break;
                    }
                    let i = sh.next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    // Interleave the suites proportionally.
                    let mut k = i;
                    let mut si = 0;
                    for (s, c) in plan.iter() {
                        if k < *c {
                            si = *s;
                            break;
                        }
                        k -= *c;
                    }
                    let s = &check.suites[si];
                    let cs = case_seed(seed, si, k);
                    let size = case_size(cs, s.max_size);
                    let slot = &sh.slots[t];
                    slot[1].store(si as u64, Ordering::Relaxed);
                    slot[2].store(cs, Ordering::Relaxed);
                    slot[3].store(size as u64, Ordering::Relaxed);
                    slot[0].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Release);
                    if let Some(f) = cur.as_ref() {
                        let mut b = [0u8; 32];
                        for (j, w) in [1u64, si as u64, cs, size as u64].iter().enumerate() {
                            b[j * 8..j * 8 + 8].copy_from_slice(&w.to_le_bytes());
                        }
                        let _ = f.write_all_at(&b, (t * 32) as u64);
                    }
                    let mut c = Case::new(cs, size, false, thorough);
                    let r = run_case(s, &mut c);
                    slot[0].store(0, Ordering::Release);
                    n += 1;
                    *per.entry(s.name).or_insert(0) += 1;
                    for (k, v) in &c.obs.counters {
                        let e = ctr.entry(k).or_insert(0);
                        if k.starts_with("max_") {
                            *e = (*e).max(*v)
                        } else {
                            *e += v
                        }
                    }
                    if c.nontrivial && fps.len() < 2_000_000 {
                        fps.insert(mix(c.fp ^ si as u64));
                    }
                    if let Some(v) = r {
                        if known.iter().any(|(k, _)| *k == v.sig) {
                            *sh.known_hits.lock().unwrap().entry(v.sig.clone()).or_insert(0) += 1;
                        } else {
                            let mut fs = sh.found.lock().unwrap();
                            match fs.iter_mut().find(|f| f.v.sig == v.sig) {
                                Some(f) => {
                                    if f.size > size {
                                        *f = Found { suite: si, seed: cs, size, v, log: vec![] };
                                    }
                                }
                                None => fs.push(Found { suite: si, seed: cs, size, v, log: vec![] }),
                            }
                            if !all {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                let mut tot = sh.totals.lock().unwrap();
                for (k, v) in ctr {
                    let e = tot.0.entry(k).or_insert(0);
                    if k.starts_with("max_") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
                tot.1.extend(fps);
                tot.2 += n;
                for (k, v) in per {
                    *tot.3.entry(k).or_insert(0) += v;
                }
                drop(tot);
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // Watchdog.
    let mut hung: Option<Found> = None;
    while done.load(Ordering::SeqCst) < nthreads {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for slot in &sh.slots {
            let st = slot[0].load(Ordering::Acquire);
            if st != 0 && now > st + limit_ms {
                hung = Some(Found {
                    suite: slot[1].load(Ordering::Relaxed) as usize,
                    seed: slot[2].load(Ordering::Relaxed),
                    size: slot[3].load(Ordering::Relaxed) as usize,
                    v: Violation { sig: "hang".into(), msg: format!("an operation did not finish within {limit_ms} ms") },
                    log: vec![],
                });
            }
        }
        if hung.is_some() {
            break;
        }
        if sh.stop.load(Ordering::Relaxed) {
            // A violation was found: do not wait for other (possibly stuck) cases for long.
            let t = Instant::now();
            while done.load(Ordering::SeqCst) < nthreads && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_millis(20));
            }
            break;
        }
    }

    let mut found = sh.found.lock().unwrap().clone();
    if let Some(h) = hung {
        found.push(h);
    }
    // Shrink: look for a smaller case with the same signature, then record its trace.
    for f in found.iter_mut() {
        if f.v.sig == "hang" {
            continue;
        }
        let s = check.suites[f.suite];
        let target = f.clone();
        let th = thorough;
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut best = relog(&s, target.suite, target.seed, target.size, th, &target.v.sig);
                let _ = tx.send(best.clone());
                let t = Instant::now();
                let mut k = 0u64;
                while t.elapsed() < Duration::from_millis(1500) {
                    let cs = mix(target.seed ^ k.wrapping_mul(7919));
                    let size = 1 + (k as usize % 12);
                    k += 1;
                    let mut c = Case::new(cs, size, true, th);
                    if let Some(v) = run_case(&s, &mut c) {
                        if v.sig == target.v.sig && best.as_ref().is_none_or(|b| c.log.len() < b.log.len()) {
                            best = Some(Found { suite: target.suite, seed: cs, size, v, log: c.log });
                        }
                    }
                }
                let _ = tx.send(best);
            })
            .unwrap();
        for _ in 0..2 {
            if let Ok(Some(b)) = rx.recv_timeout(Duration::from_secs(12)) {
                *f = b;
            }
        }
    }

    let (counters, distinct, evals, per) = {
        let t = sh.totals.lock().unwrap();
        (t.0.clone(), t.1.len(), t.2, t.3.clone())
    };
    // Sample traces, written out from actual cases of this run.
    let mut samples = vec![];
    if found.is_empty() {
        for (si, n) in plan.iter() {
            let s = check.suites[*si];
            let k = (0..*n).find(|k| case_size(case_seed(seed, *si, *k), s.max_size) >= s.max_size / 5).unwrap_or(0);
            let cs = case_seed(seed, *si, k);
            let size = case_size(cs, s.max_size);
            let mut c = Case::new(cs, size, true, thorough);
            let _ = on_big_stack(&s, &mut c);
            let more = c.log.len().saturating_sub(25);
            c.log.truncate(25);
            // A huge case would make the evidence file as large as itself.
            for l in c.log.iter_mut() {
                *l = shortened(l, 1500);
            }
            samples.push(json!({"suite": s.name, "case_seed": cs.to_string(), "size": size, "trace": c.log, "further_steps": more}));
        }
    } else {
        for f in &found {
            samples.push(json!({"suite": check.suites[f.suite].name, "case_seed": f.seed.to_string(), "signature": f.v.sig}));
        }
    }
    let hits = sh.known_hits.lock().unwrap().clone();
    let cov = json!({
        "evaluations": evals.max(1),
        "distinct_nontrivial": distinct,
        "rule": check.rule,
        "samples": samples,
        "planned_cases": total,
        "cases_per_suite": per,
        "observed": counters,
        "known_finding_hits": hits,
        "threads": nthreads,
    });
    write_evidence(check, thorough, seed, cov, t0.elapsed().as_secs_f64(), found.len() as u64, check.assumptions);
    for (sig, desc) in known.iter() {
        if hits.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {} [{}; seen {} times]", check.prop, desc, sig, hits[sig]);
        }
    }
    let mut rc = 0;
    for f in &found {
        let p = write_replay(check, f, thorough);
        println!("VIOLATION property={} replay={}", check.prop, p.display());
        println!("  {}: {}", f.v.sig, shortened(&f.v.msg, 8000));
        if all {
            for l in f.log.iter().rev().take(if args.iter().any(|a| a == "-v") { 60 } else { 0 }).rev() {
                println!("      {l}");
            }
        }
        rc = 1;
    }
    let _ = std::io::stdout().flush();
    if rc == 0 {
        println!("{}: ok, {} cases ({} distinct non-trivial) in {:.1} s", check.prop, evals, distinct, t0.elapsed().as_secs_f64());
    }
    // Threads may still be stuck in a hanging case.
    let _ = std::io::stdout().flush();
    rc
}

fn on_big_stack(s: &Suite, c: &mut Case) -> Option<Violation> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || run_case(s, c))
            .unwrap()
            .join()
            .unwrap()
    })
}
