//! Shared machinery of the checks: exhaustive, parallel, deterministic enumeration of finite spaces of cases,
//! a supervisor which survives aborts/hangs of the code under test, replay files, known findings and evidence.



pub mod alloc;
pub mod explore;
pub mod fsmap;
pub mod inv;
pub mod mapbuild;
pub mod maptool;
pub mod memtree;
pub mod ogg;
pub mod treeval;
pub mod vertex;
pub mod refser;
pub mod util;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

pub const THREADS: usize = 8;
const SLOTS: usize = THREADS;
const MAX_REPORTED: usize = 25;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// Where /verif is (the harness never looks at its own path for anything else).
pub fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn scratch_root() -> PathBuf {
    let p = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("/dev/shm/mc.{}", std::process::id())));
    let _ = std::fs::create_dir_all(&p);
    p
}

/// What one case recorded.
#[derive(Default)]
pub struct Cx {
    fails: Vec<(String, String)>,
    states: Vec<u64>,
    transitions: u64,
    validated: u64,
    pub verbose: bool,
    notes: Vec<String>,
}

impl Cx {
    /// The property is violated; `sub` identifies what within the case, `msg` explains.
    pub fn fail(&mut self, sub: impl Into<String>, msg: impl Into<String>) {
        if self.fails.len() < 64 {
            self.fails.push((sub.into(), msg.into()));
        }
    }
    /// Check equality, reporting both sides.
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sub: &str, got: T, expected: T) -> bool {
        if got == expected { true } else {
            let (g, e) = (format!("{got:?}"), format!("{expected:?}"));
            self.fail(sub, format!("got {} expected {}", clip(&g), clip(&e)));
            false
        }
    }
    pub fn check(&mut self, ok: bool, sub: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok { let m = msg(); self.fail(sub, m); }
        ok
    }
    /// A (hash of a) distinct state or input visited.
    pub fn state<H: std::hash::Hash>(&mut self, h: H) {
        self.states.push(hash_of(&h));
    }
    /// One operation of the implementation executed.
    pub fn step(&mut self) { self.transitions += 1; }
    pub fn steps(&mut self, n: u64) { self.transitions += n; }
    /// One execution compared against the reference/oracle.
    pub fn validated(&mut self) { self.validated += 1; }
    pub fn validated_n(&mut self, n: u64) { self.validated += n; }
    pub fn note(&mut self, s: impl FnOnce() -> String) { if self.verbose { let s = s(); self.notes.push(s); } }
    pub fn failed(&self) -> bool { !self.fails.is_empty() }
}

pub fn clip(s: &str) -> String {
    if s.len() > 400 { let mut e = 400; while !s.is_char_boundary(e) { e -= 1; } format!("{}…", &s[..e]) } else { s.to_string() }
}

pub fn hash_of<H: std::hash::Hash + ?Sized>(h: &H) -> u64 {
    use std::hash::Hasher;
    struct Fx(u64);
    impl Hasher for Fx {
        fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x }
        fn write(&mut self, bytes: &[u8]) {
            for c in bytes.chunks(8) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                self.write_u64(u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
            }
        }
        fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
        fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    }
    let mut f = Fx(0x9E3779B97F4A7C15);
    h.hash(&mut f);
    f.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

/// Run something, turning a panic into an `Err` with message and location.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let text = format!("panicked at {loc}: {}", clip(&msg));
        if !QUIET.with(|q| q.get()) { eprintln!("{text}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

#[derive(Clone, Debug)]
struct Known { family: String, key: String, what: String }

struct Shared { ptr: *mut u64 }
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
// slot layout: [family id, case index + 1 (0 = idle), start time in ms]
impl Shared {
    fn open(path: &str) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { ptr: p as *mut u64 }
    }
    fn cell(&self, slot: usize, i: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(slot * 4 + i) as *const AtomicU64) }
    }
    fn set(&self, slot: usize, family: u64, idx: u64) {
        self.cell(slot, 0).store(family, Ordering::SeqCst);
        self.cell(slot, 2).store(now_ms(), Ordering::SeqCst);
        self.cell(slot, 1).store(idx, Ordering::SeqCst);
    }
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    shared: Option<Shared>,
    replay: Option<(String, String)>,     // family, key
    replay_idx: Option<(u64, u64)>,
    only: Option<String>,
    family_no: u64,
    known: Vec<Known>,
    known_hit: Vec<bool>,
    violations: Vec<(String, String, String)>,
    per_family: BTreeMap<String, Value>,
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: u64,
    validated: u64,
    cases: u64,
    samples: Vec<Value>,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, Value>,
    pub exhaustive: bool,
    replay_ran: bool,
    skip: HashSet<(u64, u64)>,
}

impl Check {
    /// Start a check. In the supervising process this never returns.
    pub fn new(id: &str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        if args.iter().any(|a| a == "--internal") {
            // Internal helper mode is handled by the caller before `new`.
        }
        let tier = match (args.iter().any(|a| a == "thorough"), args.iter().any(|a| a == "quick"), std::env::var("VERIF_TIER").as_deref()) {
            (true, _, _) => Tier::Thorough, (_, true, _) => Tier::Quick,
            (_, _, Ok("thorough")) => Tier::Thorough, _ => Tier::Quick };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
        let worker = arg("--worker");
        let replay_file = arg("--replay");
        let replay_idx = arg("--replay-idx").and_then(|a| { let (f, i) = a.split_once(':')?; Some((f.parse().ok()?, i.parse().ok()?)) });
        let mut replay = None;
        if let Some(f) = &replay_file {
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("replay json");
            replay = Some((v["family"].as_str().unwrap().to_string(), v["key"].as_str().unwrap().to_string()));
        }
        if let (Some(f), Some(k)) = (arg("--family"), arg("--key")) { replay = Some((f, k)); }
        if worker.is_none() && replay.is_none() && replay_idx.is_none() {
            supervise(id, tier);
        }
        install_hook();
        unsafe {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let gb: u64 = 1 << 30;
            let lim = libc::rlimit { rlim_cur: 20 * gb, rlim_max: 20 * gb };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let known = load_known(id);
        let skip = std::env::var("MC_SKIP").unwrap_or_default().split(',').filter_map(|s| { let (f, i) = s.split_once(':')?; Some((f.parse().ok()?, i.parse().ok()?)) }).collect();
        Check {
            id: id.into(), tier, seed, start: Instant::now(), shared: worker.map(|w| Shared::open(&w)), replay, replay_idx, only: arg("--only"),
            family_no: 0, known_hit: vec![false; known.len()], known, violations: vec![], per_family: BTreeMap::new(),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(), transitions: 0, validated: 0, cases: 0, samples: vec![],
            assumptions: vec![], extra: BTreeMap::new(), exhaustive: true, replay_ran: false, skip,
        }
    }

    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.quick() { quick } else { thorough } }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    pub fn is_replay(&self) -> bool { self.replay.is_some() || self.replay_idx.is_some() }

    /// Exhaustively run `n` cases of a family. `key(i)` names case i (stable across runs), `f(i, cx)` runs it.
    pub fn family(&mut self, name: &str, n: usize, key: impl Fn(usize) -> String + Sync, f: impl Fn(usize, &mut Cx) + Sync) {
        let fam = self.family_no;
        self.family_no += 1;
        if let Some(o) = &self.only { if o != name { return } }
        if let Some((rf, ri)) = self.replay_idx {
            if rf == fam {
                self.replay_ran = true;
                self.replay_case(name, ri as usize, &key, &f);
            }
            return;
        }
        if let Some((rfam, rkey)) = self.replay.clone() {
            if rfam == name {
                let base = rkey.split(" :: ").next().unwrap().to_string();
                for i in 0..n {
                    if key(i) == base { self.replay_ran = true; self.replay_case(name, i, &key, &f); return }
                }
            }
            return;
        }
        let started = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let chunk = (n / (THREADS * 64)).clamp(1, 256);
        let results: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
        let totals = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
        let new_states = AtomicU64::new(0);
        let known = &self.known;
        let known_hit: Mutex<Vec<bool>> = Mutex::new(self.known_hit.clone());
        let skip = &self.skip;
        let shared = self.shared.as_ref();
        let states = &self.states;
        let unlisted = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..THREADS.min(n.max(1)) {
                let (next, stop, results, totals, known_hit, key, f, new_states, unlisted) = (&next, &stop, &results, &totals, &known_hit, &key, &f, &new_states, &unlisted);
                std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || {
                    QUIET.with(|q| q.set(true));
                    SLOT.with(|s| s.set(t));
                    loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= n || stop.load(Ordering::Relaxed) { break }
                        for i in from..(from + chunk).min(n) {
                            if skip.contains(&(fam, i as u64)) { continue }
                            let mut cx = Cx::default();
                            if let Some(sh) = shared { sh.set(t, fam, i as u64 + 1); }
                            if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i, &mut cx))) {
                                drop(e);
                                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
                                cx.fail("panic", m);
                            }
                            if let Some(sh) = shared { sh.cell(t, 1).store(0, Ordering::SeqCst); }
                            totals[0].fetch_add(1, Ordering::Relaxed);
                            totals[1].fetch_add(cx.transitions, Ordering::Relaxed);
                            totals[2].fetch_add(cx.validated, Ordering::Relaxed);
                            let mut ns = 0;
                            if cx.states.is_empty() {
                                let h = hash_of(&(fam, i as u64));
                                if states[(h & 63) as usize].lock().unwrap().insert(h) { ns += 1 }
                            }
                            for h in cx.states.drain(..) {
                                let h = hash_of(&(fam, h));
                                if states[(h & 63) as usize].lock().unwrap().insert(h) { ns += 1 }
                            }
                            new_states.fetch_add(ns, Ordering::Relaxed);
                            for (sub, msg) in cx.fails {
                                let full = if sub.is_empty() { key(i) } else { format!("{} :: {}", key(i), sub) };
                                if let Some(k) = known.iter().position(|k| k.family == name && k.key == full) {
                                    known_hit.lock().unwrap()[k] = true;
                                    continue;
                                }
                                if unlisted.fetch_add(1, Ordering::Relaxed) > 200 { stop.store(true, Ordering::Relaxed); }
                                results.lock().unwrap().push((i, full, msg));
                            }
                        }
                    }
                }).unwrap();
            }
        });
        self.known_hit = known_hit.into_inner().unwrap();
        let mut r = results.into_inner().unwrap();
        r.sort();
        let failed = r.len();
        for (_, k, m) in r {
            self.violations.push((name.to_string(), k, m));
        }
        let (c, tr, va) = (totals[0].load(Ordering::Relaxed), totals[1].load(Ordering::Relaxed), totals[2].load(Ordering::Relaxed));
        self.cases += c;
        self.transitions += tr;
        self.validated += va;
        if n > 0 {
            for i in [0, n / 2] { if self.samples.len() < 40 { self.samples.push(json!(format!("{name}: {}", clip(&key(i))))); } }
        }
        self.per_family.insert(name.into(), json!({"cases": c, "states": new_states.load(Ordering::Relaxed), "transitions": tr, "validated": va, "failures": failed, "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0}));
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("[{}] {name}: cases {c} states {} transitions {tr} validated {va} failures {failed} in {:.2}s", self.id, new_states.load(Ordering::Relaxed), started.elapsed().as_secs_f64());
        }
    }

    /// A family over a list of items which describe themselves.
    pub fn items<T: Sync>(&mut self, name: &str, items: &[T], key: impl Fn(&T) -> String + Sync, f: impl Fn(&T, &mut Cx) + Sync) {
        self.family(name, items.len(), |i| key(&items[i]), |i, cx| f(&items[i], cx));
    }

    fn replay_case(&mut self, name: &str, i: usize, key: &(impl Fn(usize) -> String + Sync), f: &(impl Fn(usize, &mut Cx) + Sync)) {
        let k = key(i);
        if self.replay_idx.is_some() { println!("CASE\t{name}\t{k}"); let _ = std::io::stdout().flush(); }
        let (fails, notes) = std::thread::scope(|s| std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, || {
            QUIET.with(|q| q.set(false));
            let mut cx = Cx { verbose: true, ..Default::default() };
            if catch_unwind(AssertUnwindSafe(|| f(i, &mut cx))).is_err() {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                cx.fail("panic", m);
            }
            (cx.fails, cx.notes)
        }).unwrap().join().unwrap());
        for n in notes { println!("  {n}"); }
        for (sub, msg) in fails {
            let full = if sub.is_empty() { k.clone() } else { format!("{k} :: {sub}") };
            self.violations.push((name.into(), full, msg));
        }
    }

    /// Finish: print the verdict, write the evidence, exit.
    pub fn finish(mut self) -> ! {
        if self.is_replay() {
            if !self.replay_ran { println!("replay: no such case"); std::process::exit(2); }
            for (f, k, m) in &self.violations { println!("FAILS {f} | {k} | {m}"); }
            if self.violations.is_empty() { println!("replay: holds"); std::process::exit(0) }
            println!("VIOLATION property={} replay=replayed", self.id);
            std::process::exit(1);
        }
        for (i, k) in self.known.iter().enumerate() {
            if self.known_hit[i] {
                println!("KNOWN-FINDING: property={} {} [{} | {}]", self.id, k.what, k.family, k.key);
            }
        }
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        report_violations(&self.id, &self.violations);
        let mut coverage = serde_json::Map::new();
        coverage.insert("states".into(), json!(states));
        coverage.insert("transitions".into(), json!(self.transitions));
        coverage.insert("traces_validated_against_impl".into(), json!(self.validated));
        coverage.insert("cases".into(), json!(self.cases));
        coverage.insert("samples".into(), Value::Array(std::mem::take(&mut self.samples)));
        coverage.insert("exhaustive".into(), json!(self.exhaustive && self.only.is_none() && self.skip.is_empty()));
        coverage.insert("families".into(), json!(self.per_family));
        coverage.insert("known_findings_seen".into(), json!(self.known_hit.iter().filter(|h| **h).count()));
        for (k, v) in &self.extra { coverage.insert(k.clone(), v.clone()); }
        let ev = json!({
            "property": self.id, "tier": if self.quick() { "quick" } else { "thorough" }, "seed": self.seed, "level": "model_checking",
            "coverage": coverage, "assumptions": self.assumptions, "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations.len(),
        });
        write_evidence(&self.id, &ev);
        println!("{}: {} cases, {states} states, {} transitions, {} validated, {} violations, {:.1}s", self.id, self.cases, self.transitions, self.validated, self.violations.len(), self.start.elapsed().as_secs_f64());
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

fn write_evidence(id: &str, ev: &Value) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap() + "\n").expect("evidence");
}

fn report_violations(id: &str, violations: &[(String, String, String)]) {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    for (n, (f, k, m)) in violations.iter().enumerate() {
        if n >= MAX_REPORTED { println!("... and {} more violations", violations.len() - n); break }
        let path = dir.join(format!("{id}-{n}.json"));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "family": f, "key": k, "message": m})).unwrap());
        println!("VIOLATION property={id} replay={}", path.display());
        println!("    {f} | {k} | {m}");
    }
}

fn load_known(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines().filter(|l| l.trim_start().starts_with('{')).filter_map(|l| {
        let v: Value = serde_json::from_str(l).expect("known_findings.txt");
        if v["property"] != id || v["fixed"].is_string() { return None }
        Some(Known { family: v["family"].as_str()?.into(), key: v["key"].as_str()?.into(), what: v["what"].as_str()?.into() })
    }).collect()
}

/// Run the worker, watch it, and turn aborts and hangs into violations with the case which caused them.
fn supervise(id: &str, tier: Tier) -> ! {
    let scratch = scratch_root();
    std::env::set_var("MC_SCRATCH", &scratch);
    let slots = scratch.join("slots");
    let slots_s = slots.to_str().unwrap().to_string();
    let shared = Shared::open(&slots_s);
    let exe = std::env::current_exe().unwrap();
    let extra: Vec<String> = std::env::args().skip(1).collect();
    let mut skip: Vec<String> = vec![];
    let mut deaths: Vec<(String, String, String)> = vec![];
    let hang_ms: u64 = std::env::var("MC_HANG_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == Tier::Quick { 100_000 } else { 400_000 });
    let known = load_known(id);
    let started = Instant::now();
    let code = loop {
        for s in 0..SLOTS { shared.cell(s, 1).store(0, Ordering::SeqCst); }
        let mut child = std::process::Command::new(&exe).args(&extra).arg("--worker").arg(&slots_s).env("MC_SKIP", skip.join(",")).spawn().expect("spawn worker");
        let mut hung = false;
        let status = loop {
            if let Some(st) = child.try_wait().unwrap() { break st }
            std::thread::sleep(Duration::from_millis(10));
            let now = now_ms();
            if (0..SLOTS).any(|s| shared.cell(s, 1).load(Ordering::SeqCst) != 0 && now.saturating_sub(shared.cell(s, 2).load(Ordering::SeqCst)) > hang_ms) {
                hung = true;
                let _ = child.kill();
                break child.wait().unwrap();
            }
        };
        if let (Some(c), false) = (status.code(), hung) { break c }
        // Died: find out which of the in-flight cases does it.
        let now = now_ms();
        let inflight: Vec<(u64, u64, u64)> = (0..SLOTS).map(|s| (shared.cell(s, 0).load(Ordering::SeqCst), shared.cell(s, 1).load(Ordering::SeqCst), now.saturating_sub(shared.cell(s, 2).load(Ordering::SeqCst)))).filter(|x| x.1 != 0).collect();
        let mut found = 0;
        let runs: Vec<_> = inflight.into_iter().map(|(f, i, _)| {
            let mut c = std::process::Command::new(&exe);
            c.arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg("--replay-idx").arg(format!("{f}:{}", i - 1)).env("MC_SCRATCH", scratch.join(format!("r{i}"))).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
            (f, i, c.spawn().unwrap())
        }).collect();
        for (f, i, mut c) in runs {
            let t0 = Instant::now();
            let mut timed_out = false;
            while c.try_wait().unwrap().is_none() {
                if t0.elapsed().as_millis() as u64 > hang_ms { let _ = c.kill(); timed_out = true; break }
                std::thread::sleep(Duration::from_millis(10));
            }
            let out = c.wait_with_output().unwrap();
            let sig = out.status.signal();
            if !timed_out && sig.is_none() { continue }
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let (fam, key) = text.lines().find_map(|l| { let mut p = l.strip_prefix("CASE\t")?.splitn(2, '\t'); Some((p.next()?.to_string(), p.next()?.to_string())) }).unwrap_or((format!("family#{f}"), format!("case#{}", i - 1)));
            let why = if timed_out { "does not terminate".to_string() } else { format!("process killed by signal {}: {}", sig.unwrap(), clip(String::from_utf8_lossy(&out.stderr).trim())) };
            let sub = if timed_out { "hang" } else { "abort" };
            let full = format!("{key} :: {sub}");
            found += 1;
            skip.push(format!("{f}:{}", i - 1));
            if let Some(k) = known.iter().find(|k| k.family == fam && k.key == full) {
                println!("KNOWN-FINDING: property={id} {} [{} | {}]", k.what, k.family, k.key);
            } else {
                deaths.push((fam, full, why));
            }
        }
        if found == 0 {
            eprintln!("{id}: the worker died ({status:?}) and no in-flight case reproduces it");
            break 3;
        }
        if !deaths.is_empty() { break 1 }
    };
    if !deaths.is_empty() {
        report_violations(id, &deaths);
        write_evidence(id, &json!({"property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": 1, "level": "model_checking",
            "coverage": {"states": deaths.len(), "transitions": 0, "traces_validated_against_impl": 0, "samples": deaths.iter().map(|d| json!(d.1)).collect::<Vec<_>>(), "explanation": "the run was cut short by a case which aborts or hangs the process"},
            "assumptions": [], "wall_s": started.elapsed().as_secs_f64(), "violations": deaths.len()}));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code)
}

/// All vectors over `alphabet` of length 0..=max, shortest first.
pub fn words<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for a in alphabet {
                let mut w = out[i].clone();
                w.push(a.clone());
                out.push(w);
            }
        }
        from = to;
    }
    out
}

/// Decode `i` as a mixed-radix number.
pub fn digits(mut i: usize, radices: &[usize]) -> Vec<usize> {
    radices.iter().map(|r| { let d = i % r; i /= r; d }).collect()
}

/// A scratch directory of this case's thread, emptied.
pub fn case_dir(tag: &str) -> PathBuf {
    let slot = SLOT.with(|s| s.get());
    let p = scratch_root().join(format!("w{slot}-{tag}"));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub fn slot() -> usize { SLOT.with(|s| s.get()) }
