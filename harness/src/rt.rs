//! Process monitors and the case runner.
use crate::gen::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- allocator

/// allocator that counts what the current thread allocates
pub struct Counting;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
}

/// one allocation bigger than this is refused (a monitored case never needs it)
static LIMIT: AtomicUsize = AtomicUsize::new(2 << 30);

fn note(add: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + add as u64));
    let _ = LARGEST.try_with(|t| t.set(t.get().max(add as u64)));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + add as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            fatal("allocation", l.size() as u64);
        }
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            fatal("allocation", l.size() as u64);
        }
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(Ordering::Relaxed) {
            fatal("allocation", n as u64);
        }
        if n > l.size() {
            note(n - l.size());
        } else {
            let _ = LIVE.try_with(|c| c.set(c.get() - (l.size() - n) as i64));
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Mem {
    pub total: u64,
    pub peak: u64,
    pub largest: u64,
}

/// what f allocates (on this thread): everything, live peak, and largest single request
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Mem) {
    let t0 = TOTAL.with(|t| t.get());
    let l0 = LIVE.with(|t| t.get());
    PEAK.with(|p| p.set(l0));
    LARGEST.with(|p| p.set(0));
    let r = f();
    let m = Mem {
        total: TOTAL.with(|t| t.get()) - t0,
        peak: (PEAK.with(|t| t.get()) - l0).max(0) as u64,
        largest: LARGEST.with(|t| t.get()),
    };
    (r, m)
}

pub fn set_alloc_limit(n: usize) {
    LIMIT.store(n, Ordering::Relaxed)
}

// ------------------------------------------------- fatal signals and watchdog

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(t: u64, clk: *mut i32) -> i32;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

thread_local! {
    static CASE: Cell<(u32, u64)> = const { Cell::new((u32::MAX, 0)) };
}

fn put(s: &[u8]) {
    unsafe {
        write(1, s.as_ptr() as *const std::ffi::c_void, s.len());
    }
}

fn putn(mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    put(&b[i..]);
}

static SELF_CPU: AtomicU64 = AtomicU64::new(0);

/// async-signal-safe report of a fatal event in the case this thread is running
fn fatal(what: &str, n: u64) -> ! {
    let (p, i) = CASE.try_with(|c| c.get()).unwrap_or((u32::MAX, 0));
    put(b"\nFATAL ");
    put(what.as_bytes());
    put(b" value=");
    putn(n);
    put(b" phase=");
    putn(p as u64);
    put(b" idx=");
    putn(i);
    put(b"\n");
    unsafe { _exit(70) }
}

extern "C" fn on_signal(sig: i32) {
    fatal(
        match sig {
            11 | 7 => "memory-fault-or-stack-overflow",
            6 => "abort",
            4 => "illegal-instruction",
            8 => "arithmetic-fault",
            _ => "signal",
        },
        sig as u64,
    )
}

pub fn install_signals() {
    for s in [4, 6, 7, 8, 11] {
        let a = SigAction {
            handler: on_signal as extern "C" fn(i32) as usize,
            mask: [0; 16],
            flags: 0x0800_0000, // SA_ONSTACK
            restorer: 0,
        };
        unsafe {
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

fn thread_cpu(clk: i32) -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clk, &mut ts) != 0 {
            return 0;
        }
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

/// CPU nanoseconds of the calling thread
pub fn my_cpu() -> u64 {
    thread_cpu(3)
}

struct Slot {
    clk: i32,
    phase: AtomicU64,
    idx: AtomicU64,
    start: AtomicU64,
}
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(Vec::new());
/// CPU seconds a single case may burn
pub static CASE_CPU_S: AtomicU64 = AtomicU64::new(60);

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let lim = CASE_CPU_S.load(Ordering::Relaxed) * 1_000_000_000;
        for s in SLOTS.lock().unwrap().iter() {
            let st = s.start.load(Ordering::SeqCst);
            if st == 0 {
                continue;
            }
            let now = thread_cpu(s.clk);
            if now > st && now - st > lim && s.start.load(Ordering::SeqCst) == st {
                CASE.with(|c| c.set((s.phase.load(Ordering::SeqCst) as u32, s.idx.load(Ordering::SeqCst))));
                fatal("hang-cpu-seconds", lim / 1_000_000_000);
            }
        }
    });
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LASTPANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        LASTPANIC.with(|l| *l.borrow_mut() = s);
    }));
}

/// run f, turning a panic into an error
pub fn nopanic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LASTPANIC.with(|l| l.borrow().clone()))
}

// ------------------------------------------------------------------- runner

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub distinct_extra: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Cx<'a> {
    pub g: Rng,
    pub phase: usize,
    pub idx: u64,
    pub thorough: bool,
    st: &'a mut Stats,
    pub input: Vec<u8>,
    sampled: bool,
}

impl<'a> Cx<'a> {
    /// the crate was observed on one more input; `nontrivial` says if it counts as such
    pub fn seen(&mut self, key: u64, nontrivial: bool) {
        self.st.evals += 1;
        if nontrivial {
            if self.st.distinct.len() < 1_500_000 {
                self.st.distinct.insert(key);
            }
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8], nontrivial: bool) {
        self.seen(crate::gen::hash_bytes(b), nontrivial)
    }
    /// remember the input of the case for the report
    pub fn input(&mut self, b: &[u8]) {
        self.input.clear();
        self.input.extend_from_slice(b);
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.st.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.st.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n)
    }
    /// keep this case as a sample (a few per phase)
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.sampled && (self.idx % 997 == 3 || self.idx < 2) && self.st.samples.len() < 3 {
            self.sampled = true;
            self.st.samples.push(f())
        }
    }
}

pub type CaseFn = fn(&mut Cx) -> Result<(), String>;

pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// the cases do not depend on the seed (enumerations): the second build need not repeat... they still run
    pub seeded: bool,
}

pub fn ph(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Phase {
    Phase {
        name,
        quick,
        thorough,
        f,
        seeded: true,
    }
}

pub struct Failure {
    pub phase: usize,
    pub idx: u64,
    pub msg: String,
    pub input: Vec<u8>,
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub scale: f64,
    pub phase: Option<String>,
    pub idx: Option<u64>,
    pub threads: usize,
    /// run the cases of a phase from the last one to the first one
    pub reverse: bool,
    /// at most so many cases of each phase, spread over the phase
    pub cap: u64,
    /// phases left out
    pub skip: Vec<String>,
    /// say which case is running
    pub trace: bool,
    /// leave fatal signals to somebody else
    pub no_signals: bool,
}

pub fn args() -> Args {
    let mut a = Args {
        seed: 1,
        thorough: false,
        out: String::new(),
        scale: 1.0,
        phase: None,
        idx: None,
        threads: 8,
        reverse: false,
        cap: u64::MAX,
        skip: vec![],
        trace: false,
        no_signals: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("argument value");
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--out" => a.out = v(),
            "--scale" => a.scale = v().parse().unwrap(),
            "--phase" => a.phase = Some(v()),
            "--idx" => a.idx = Some(v().parse().unwrap()),
            "--cap" => a.cap = v().parse().unwrap(),
            "--skip" => a.skip = v().split(',').map(|s| s.to_string()).collect(),
            "--no-signals" => a.no_signals = true,
            "--trace" => a.trace = true,
            "--reverse" => a.reverse = true,
            "--threads" => a.threads = v().parse().unwrap(),
            _ => {
                eprintln!("unknown argument {}", k);
                std::process::exit(2)
            }
        }
    }
    a
}

/// what a helper thread works on, for reports of fatal events
pub fn set_case(phase: usize, idx: u64) {
    CASE.with(|c| c.set((phase as u32, idx)));
}

fn run_case(p: usize, f: CaseFn, seed: u64, idx: u64, thorough: bool, st: &mut Stats, slot: Option<&Slot>) -> Result<(), (String, Vec<u8>)> {
    CASE.with(|c| c.set((p as u32, idx)));
    if let Some(s) = slot {
        s.phase.store(p as u64, Ordering::SeqCst);
        s.idx.store(idx, Ordering::SeqCst);
        s.start.store(thread_cpu(s.clk).max(1), Ordering::SeqCst);
    }
    let mut cx = Cx {
        g: Rng::new(seed, p as u64 + 1, idx),
        phase: p,
        idx,
        thorough,
        st,
        input: Vec::new(),
        sampled: false,
    };
    let r = nopanic(|| f(&mut cx));
    let input = std::mem::take(&mut cx.input);
    if let Some(s) = slot {
        let t = thread_cpu(s.clk).saturating_sub(s.start.load(Ordering::SeqCst)) / 1_000_000;
        if t > 20 {
            cx.max("max milliseconds of a case", t);
        }
        s.start.store(0, Ordering::SeqCst);
    }
    CASE.with(|c| c.set((u32::MAX, 0)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err((m, input)),
        Err(m) => Err((format!("panic: {}", m), input)),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// run the phases of a property and write what was observed; exit 0 or 1
pub fn run(phases: &[Phase]) {
    let a = args();
    let _ = SELF_CPU.load(Ordering::Relaxed);
    install_panic_hook();
    // (not known to Miri)
    if !cfg!(miri) && !a.no_signals {
        install_signals();
        watchdog();
    }
    if let (Some(pn), Some(idx)) = (&a.phase, a.idx) {
        // replay one case
        let p = phases.iter().position(|p| p.name == pn || format!("{}", pn) == p.name).or_else(|| pn.parse().ok()).expect("phase");
        let seed = a.seed;
        let thorough = a.thorough;
        let f = phases[p].f;
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut st = Stats::default();
                run_case(p, f, seed, idx, thorough, &mut st, None)
            })
            .unwrap();
        match h.join().unwrap() {
            Ok(()) => {
                println!("replay: phase {} case {} holds", phases[p].name, idx);
                std::process::exit(0)
            }
            Err((m, i)) => {
                println!("replay: phase {} case {} FAILS: {}\n  input: {}", phases[p].name, idx, m, crate::hex(&i));
                std::process::exit(1)
            }
        }
    }
    let fails: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let stop = AtomicBool::new(false);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let mut perphase: Vec<(String, u64, u64)> = Vec::new();
    for (pi, p) in phases.iter().enumerate() {
        if let Some(only) = &a.phase {
            if only != p.name {
                continue;
            }
        }
        if a.skip.iter().any(|s| s == p.name) {
            continue;
        }
        let base = if a.thorough { p.thorough } else { p.quick };
        let all = if p.seeded { ((base as f64) * a.scale).ceil() as u64 } else { base };
        let n = all.min(a.cap);
        let stride = all / n.max(1);
        let next = AtomicU64::new(0);
        let chunk = (n / 400).clamp(1, 4096);
        let before: u64 = merged.lock().unwrap().evals;
        std::thread::scope(|s| {
            for _ in 0..a.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut clk = 0;
                        if !cfg!(miri) {
                            unsafe {
                                pthread_getcpuclockid(pthread_self(), &mut clk);
                            }
                        }
                        let slot: &'static Slot = Box::leak(Box::new(Slot {
                            clk,
                            phase: AtomicU64::new(0),
                            idx: AtomicU64::new(0),
                            start: AtomicU64::new(0),
                        }));
                        SLOTS.lock().unwrap().push(slot);
                        let mut st = Stats::default();
                        'o: loop {
                            let b = next.fetch_add(chunk, Ordering::SeqCst);
                            if b >= n {
                                break;
                            }
                            for i in b..(b + chunk).min(n) {
                                let i = if a.reverse { n - 1 - i } else { i };
                                let idx = i * stride + if stride > 1 { Rng::new(a.seed, 99, i).u64() % stride } else { 0 };
                                if a.trace {
                                    println!("case {} {}", pi, idx)
                                }
                                if stop.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                if let Err((msg, input)) = run_case(pi, p.f, a.seed, idx, a.thorough, &mut st, Some(slot)) {
                                    let mut f = fails.lock().unwrap();
                                    f.push(Failure { phase: pi, idx, msg, input });
                                    if f.len() >= 8 {
                                        stop.store(true, Ordering::SeqCst)
                                    }
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evals += st.evals;
                        if m.distinct.len() < 6_000_000 {
                            m.distinct.extend(st.distinct.iter());
                        }
                        for (k, v) in st.counters {
                            let e = m.counters.entry(k.clone()).or_insert(0);
                            if k.starts_with("max ") {
                                *e = (*e).max(v)
                            } else {
                                *e += v
                            }
                        }
                        for x in st.samples {
                            if m.samples.iter().filter(|y| y.starts_with(p.name)).count() < 2 {
                                m.samples.push(format!("{}: {}", p.name, x))
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let evals = merged.lock().unwrap().evals - before;
        perphase.push((p.name.to_string(), n, evals));
    }
    let m = merged.into_inner().unwrap();
    let mut f = fails.into_inner().unwrap();
    f.sort_by_key(|x| (x.phase, x.idx));
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\": {}, \"distinct\": {},", m.evals, m.distinct.len() as u64 + m.distinct_extra));
    o.push_str(" \"phases\": {");
    o.push_str(&perphase.iter().map(|(n, c, e)| format!("{}: {{\"cases\": {}, \"evaluations\": {}}}", jstr(n), c, e)).collect::<Vec<_>>().join(", "));
    o.push_str("}, \"counters\": {");
    o.push_str(&m.counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("}, \"samples\": [");
    o.push_str(&m.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    o.push_str("], \"failures\": [");
    o.push_str(
        &f.iter()
            .map(|f| format!("{{\"phase\": {}, \"idx\": {}, \"msg\": {}, \"input\": {}}}", jstr(phases[f.phase].name), f.idx, jstr(&f.msg), jstr(&crate::hex(&f.input))))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("]}\n");
    if !a.out.is_empty() {
        std::fs::write(&a.out, &o).expect("write results");
    } else {
        println!("RESULT {}", o.trim());
    }
    let _ = std::io::stdout().flush();
    // ends by returning: leaks are looked for then
    if !f.is_empty() {
        std::process::exit(1)
    }
}

/// the cases of another phase, with some lengths, counts or depths big
#[macro_export]
macro_rules! big {
    ($name:expr, $quick:expr, $thorough:expr, $f:expr) => {
        $crate::rt::ph($name, $quick, $thorough, |cx| {
            cx.g.big = 1 + cx.g.below(3) as u32;
            $f(cx)
        })
    };
}
