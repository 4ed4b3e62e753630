//! The controlled scheduler and the choice recorder.
use ::std::cell::Cell;
use ::std::collections::HashSet;
use ::std::collections::HashMap;
use ::std::fs::File;
use ::std::io::Write;
use ::std::string::{String, ToString};
use ::std::sync::atomic::{AtomicBool, Ordering};
use ::std::sync::{Arc, Condvar, Mutex, OnceLock};
use ::std::vec::Vec;
use ::std::{eprintln, format};

pub const EXIT_CRASH: i32 = 77;
pub const EXIT_DIVERGED: i32 = 96;
pub const EXIT_LIVELOCK: i32 = 98;
pub const EXIT_DEADLOCK: i32 = 99;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Start,
    Lock(usize),
    TryLock(usize),
    Unlock(usize),
    Read(usize),
    Write(usize),
    Atomic(usize),
    Spawn,
    Join(usize),
    /// Wait until the token (condition variable ticket) has been granted
    Wait(usize),
    Yield,
    Fs,
}

struct Thread {
    pending: Op,
    finished: bool,
    go: bool,
    cv: Arc<Condvar>,
}

struct State {
    threads: Vec<Thread>,
    current: usize,
    held: HashMap<usize, usize>,
    readers: HashMap<usize, usize>,
    granted: HashSet<usize>,
    next_ticket: usize,
    names: HashMap<usize, usize>,
    tried: HashSet<usize>,
    prefix: Vec<u32>,
    position: usize,
    trace: File,
    steps: usize,
    limit: usize,
}

pub struct Runtime {
    state: Mutex<State>,
    fault_root: Option<String>,
    fault_ops: Vec<String>,
    fault_kinds: Vec<String>,
    schedule: bool,
}

::std::thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}

static RUNTIME: OnceLock<Option<Runtime>> = OnceLock::new();
static DEAD: AtomicBool = AtomicBool::new(false);

pub fn active() -> Option<&'static Runtime> {
    if DEAD.load(Ordering::Relaxed) {
        return None;
    }
    RUNTIME.get_or_init(|| {
        let path = ::std::env::var("MC_TRACE").ok()?;
        let trace = ::std::fs::OpenOptions::new().create(true).append(true).open(path).expect("MC_TRACE cannot be opened");
        let prefix = ::std::env::var("MC_PREFIX").unwrap_or_default();
        let list = |name: &str| -> Vec<String> {
            ::std::env::var(name).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
        };
        Some(Runtime {
            state: Mutex::new(State {
                threads: ::std::vec![Thread { pending: Op::Start, finished: false, go: true, cv: Arc::new(Condvar::new()) }],
                current: 0,
                held: HashMap::new(),
                readers: HashMap::new(),
                granted: HashSet::new(),
                next_ticket: 1,
                names: HashMap::new(),
                tried: HashSet::new(),
                prefix: prefix.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("bad MC_PREFIX")).collect(),
                position: 0,
                trace,
                steps: 0,
                limit: ::std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20000)
            }),
            fault_root: ::std::env::var("MC_FAULT_ROOT").ok(),
            fault_ops: list("MC_FAULT_OPS"),
            fault_kinds: list("MC_FAULT_KINDS"),
            schedule: ::std::env::var("MC_NOSCHED").is_err(),
        })
    }).as_ref()
}

fn die(state: &mut State, code: i32, why: &str) -> ! {
    let _ = state.trace.write_all(format!("X {why}\n").as_bytes());
    DEAD.store(true, Ordering::Relaxed);
    // Skip destructors and other threads entirely.
    extern "C" { fn _exit(code: i32) -> !; }
    unsafe { _exit(code) }
}

impl State {
    fn enabled(&self, op: Op) -> bool {
        match op {
            Op::Lock(m) | Op::Write(m) => !self.held.contains_key(&m) && self.readers.get(&m).copied().unwrap_or(0) == 0,
            Op::Read(m) => !self.held.contains_key(&m),
            Op::Join(t) => self.threads[t].finished,
            Op::Wait(t) => self.granted.contains(&t),
            _ => true
        }
    }

    fn decide(&mut self, options: usize, note: &str) -> usize {
        let chosen = if self.position < self.prefix.len() {
            let c = self.prefix[self.position] as usize;
            if c >= options {
                die(self, EXIT_DIVERGED, &format!("diverged: choice {c} of {options} at {}", self.position));
            }
            c
        }
        else {
            0
        };
        self.position += 1;
        let line = format!("C {options} {chosen} {note}\n");
        let _ = self.trace.write_all(line.as_bytes());
        chosen
    }

    fn name(&mut self, what: usize) -> usize {
        let n = self.names.len();
        *self.names.entry(what).or_insert(n)
    }

    fn describe(&mut self, op: Op) -> String {
        match op {
            Op::Lock(m) => format!("lock:{}", self.name(m)),
            Op::TryLock(m) => format!("trylock:{}", self.name(m)),
            Op::Unlock(m) => format!("unlock:{}", self.name(m)),
            Op::Read(m) => format!("read:{}", self.name(m)),
            Op::Write(m) => format!("write:{}", self.name(m)),
            Op::Atomic(m) => format!("atomic:{}", self.name(m)),
            Op::Join(t) => format!("join:{t}"),
            Op::Wait(t) => format!("wait:{t}"),
            Op::Start => "start".to_string(),
            Op::Spawn => "spawn".to_string(),
            Op::Yield => "yield".to_string(),
            Op::Fs => "fs".to_string(),
        }
    }
}

impl Runtime {
    /// Pick who runs next.  The calling thread has published its pending operation (or finished).
    fn dispatch(&self, mut state: ::std::sync::MutexGuard<'_, State>, me: usize) {
        state.steps += 1;
        if state.steps > state.limit {
            die(&mut state, EXIT_LIVELOCK, "livelock: step limit reached");
        }

        let mut options: Vec<usize> = Vec::new();
        let mine = !state.threads[me].finished && state.enabled(state.threads[me].pending);
        if mine {
            options.push(me);
        }
        for t in 0..state.threads.len() {
            if t != me && !state.threads[t].finished && state.enabled(state.threads[t].pending) {
                options.push(t);
            }
        }
        if options.is_empty() {
            if state.threads.iter().all(|t| t.finished) {
                return;
            }
            let blocked: Vec<String> = (0..state.threads.len())
                .filter(|t| !state.threads[*t].finished)
                .collect::<Vec<usize>>()
                .into_iter()
                .map(|t| { let p = state.threads[t].pending; format!("t{t}={}", state.describe(p)) })
                .collect();
            let text = format!("deadlock: {}", blocked.join(" "));
            die(&mut state, EXIT_DEADLOCK, &text);
        }

        let next = if options.len() > 1 && self.schedule {
            let op = state.threads[me].pending;
            let note = if state.threads[me].finished { "end".to_string() } else { state.describe(op) };
            let others: Vec<String> = options.clone().into_iter().map(|t| { let p = state.threads[t].pending; format!("t{t}={}", state.describe(p)) }).collect();
            let note = format!("{} t{me} {note} | {}", if mine { "P" } else { "F" }, others.join(" "));
            options[state.decide(options.len(), &note)]
        }
        else {
            options[0]
        };

        // Take effect.
        state.current = next;
        match state.threads[next].pending {
            Op::Lock(m) | Op::Write(m) => { state.held.insert(m, next); },
            Op::Read(m) => { *state.readers.entry(m).or_insert(0) += 1; },
            Op::Wait(t) => { state.granted.remove(&t); },
            _ => ()
        }

        if next == me {
            return;
        }

        state.threads[next].go = true;
        let cv = state.threads[next].cv.clone();
        cv.notify_one();
        if state.threads[me].finished {
            return;
        }
        let my_cv = state.threads[me].cv.clone();
        while !state.threads[me].go || state.current != me {
            state = my_cv.wait(state).unwrap();
        }
        state.threads[me].go = false;
    }

    pub fn point(&self, op: Op) {
        let me = TID.with(|t| t.get());
        let mut state = self.state.lock().unwrap();
        state.threads[me].pending = op;
        state.threads[me].go = false;
        self.dispatch(state, me);
    }

    pub fn try_lock(&self, m: usize) -> bool {
        self.point(Op::TryLock(m));
        let me = TID.with(|t| t.get());
        let mut state = self.state.lock().unwrap();
        state.tried.insert(m);
        if state.held.contains_key(&m) || state.readers.get(&m).copied().unwrap_or(0) != 0 {
            false
        }
        else {
            state.held.insert(m, me);
            true
        }
    }

    /// Release; the scheduling point is before the release.
    pub fn unlock(&self, m: usize) {
        self.point(Op::Unlock(m));
        self.state.lock().unwrap().held.remove(&m);
    }

    pub fn unlock_quiet(&self, m: usize) {
        self.state.lock().unwrap().held.remove(&m);
    }

    pub fn unlock_read(&self, m: usize) {
        self.point(Op::Unlock(m));
        let mut state = self.state.lock().unwrap();
        if let Some(n) = state.readers.get_mut(&m) {
            *n = n.saturating_sub(1);
        }
    }

    pub fn ticket(&self) -> usize {
        let mut state = self.state.lock().unwrap();
        let t = state.next_ticket;
        state.next_ticket += 1;
        t
    }

    pub fn grant(&self, ticket: usize) {
        self.state.lock().unwrap().granted.insert(ticket);
    }

    pub fn register(&self) -> usize {
        let mut state = self.state.lock().unwrap();
        let id = state.threads.len();
        state.threads.push(Thread { pending: Op::Start, finished: false, go: false, cv: Arc::new(Condvar::new()) });
        id
    }

    pub fn enter(&self, id: usize) {
        TID.with(|t| t.set(id));
        let mut state = self.state.lock().unwrap();
        let cv = state.threads[id].cv.clone();
        while !state.threads[id].go || state.current != id {
            state = cv.wait(state).unwrap();
        }
        state.threads[id].go = false;
    }

    pub fn leave(&self, id: usize) {
        let mut state = self.state.lock().unwrap();
        state.threads[id].finished = true;
        self.dispatch(state, id);
    }

    pub fn is_finished(&self, id: usize) -> bool {
        self.point(Op::Yield);
        self.state.lock().unwrap().threads[id].finished
    }

    /// Record a file-system action, and decide on its outcome if faults are enumerated for it.
    pub fn fs(&self, what: &str, path: &::std::path::Path, torn: bool) -> Fault {
        if self.schedule {
            self.point(Op::Fs);
        }
        let shown = path.display().to_string();
        let mut state = self.state.lock().unwrap();
        let inside = self.fault_root.as_ref().is_some_and(|r| shown.starts_with(r.as_str()));
        let line = format!("A {what} {shown}\n");
        let _ = state.trace.write_all(line.as_bytes());
        if !inside || !self.fault_ops.iter().any(|o| o == what || o == "all") {
            return Fault::None;
        }
        let mut kinds: Vec<Fault> = ::std::vec![Fault::None];
        for k in &self.fault_kinds {
            match k.as_str() {
                "error" => kinds.push(Fault::Error),
                "before" => kinds.push(Fault::CrashBefore),
                "after" => kinds.push(Fault::CrashAfter),
                "torn" => if torn {
                    kinds.push(Fault::TornEmpty);
                    kinds.push(Fault::TornHalf);
                    kinds.push(Fault::TornMost);
                },
                "tornerror" => if torn {
                    kinds.push(Fault::TornError);
                },
                k => { eprintln!("bad fault kind {k}"); }
            }
        }
        let note = format!("fault {what} {shown}");
        kinds[state.decide(kinds.len(), &note)]
    }

    pub fn crash(&self) -> ! {
        let mut state = self.state.lock().unwrap();
        die(&mut state, EXIT_CRASH, "crash")
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Error,
    CrashBefore,
    CrashAfter,
    TornEmpty,
    TornHalf,
    TornMost,
    TornError,
}

pub fn set_tid(id: usize) {
    TID.with(|t| t.set(id));
}

/// Hash seeds: `HashMap`'s random keys come from here, so that runs are repeatable and the seed
/// itself can be enumerated.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = SEED.get_or_init(|| ::std::env::var("MC_HASHSEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0u64));
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8 };
    }
    len as isize
}
static SEED: OnceLock<u64> = OnceLock::new();

/// The product is built with `panic = "abort"`: a panic anywhere ends the process.
extern "C" fn install() {
    ::std::panic::set_hook(::std::boxed::Box::new(|info| {
        eprintln!("MC-PANIC {info}");
        if let Some(rt) = active() {
            if let Ok(mut state) = rt.state.try_lock() {
                let text = info.to_string().replace('\n', " ");
                let _ = state.trace.write_all(format!("X panic: {text}\n").as_bytes());
            }
        }
        ::std::process::abort();
    }));
}

#[used]
#[link_section = ".init_array"]
static INSTALL: extern "C" fn() = install;
