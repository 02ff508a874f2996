//! Runner: cases in parallel, panic capture, hang watchdog, crash reports, shrinking, evidence.

use crate::tape::{mix, Tape};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

/// What a case tells about itself.
#[derive(Default)]
pub struct Cx {
    pub verbose: bool,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub transcript: Option<String>,
}

impl Cx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l);
        }
    }
}

#[macro_export]
macro_rules! note {
    ($cx:expr, $($arg:tt)*) => { if $cx.verbose { let s = format!($($arg)*); $cx.notes.push(s); } };
}

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

pub struct Prop {
    pub case: fn(&mut Tape, &mut Cx) -> CaseResult,
    pub rule: &'static str,
    /// Cases per configuration in the quick tier (for the 64-bit build).
    pub quick: u64,
    /// Exhaustive or fixed part, run once before the random cases.
    pub fixed: Option<fn(&mut Cx, &mut u64) -> CaseResult>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

const MAX_THREADS: usize = 64;
static CURRENT: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(u64::MAX) }; MAX_THREADS];
static STARTED_CPU: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static PTHREAD: [AtomicUsize; MAX_THREADS] = [const { AtomicUsize::new(0) }; MAX_THREADS];

/// Run and catch a panic; Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// The call must panic.
pub fn must_panic<T>(what: &str, f: impl FnOnce() -> T) -> CaseResult {
    match catch(|| {
        f();
    }) {
        Err(m) if m.contains("attempt to") && m.contains("overflow") => {
            Err(format!("{what}: panicked by arithmetic overflow inside the library ({m})"))
        }
        Err(_) => Ok(()),
        Ok(()) => Err(format!("{what}: did not panic")),
    }
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run one tape.
pub fn run_tape(prop: &Prop, tape: &mut Tape, cx: &mut Cx) -> CaseResult {
    match catch(|| (prop.case)(tape, cx)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    }
}

fn thread_cpu_ms(pt: usize) -> Option<u64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pt as libc::pthread_t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
    }
}

extern "C" fn on_crash(sig: libc::c_int) {
    // Only async-signal-safe calls.
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let case = if slot < MAX_THREADS { CURRENT[slot].load(SeqCst) } else { u64::MAX };
    let mut buf = *b"\nCRASH signal=000 case=00000000000000000000\n";
    let mut s = sig;
    for i in (0..3).rev() {
        buf[14 + i] = b'0' + (s % 10) as u8;
        s /= 10;
    }
    let mut c = case;
    for i in (0..20).rev() {
        buf[23 + i] = b'0' + (c % 10) as u8;
        c /= 10;
    }
    unsafe {
        libc::write(1, buf.as_ptr() as *const _, buf.len());
        libc::_exit(70);
    }
}

/// Which worker runs the case; threads started by a case adopt it, so that a crash names the case.
#[allow(dead_code)]
pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}
#[allow(dead_code)]
pub fn adopt_slot(slot: usize) {
    SLOT.with(|s| s.set(slot));
}

/// Reports the current case as one that does not finish, and ends the process.
#[allow(dead_code)]
pub fn give_up_hanging() -> ! {
    let slot = SLOT.with(|s| s.get());
    let case = if slot < MAX_THREADS { CURRENT[slot].load(SeqCst) } else { 0 };
    println!("\nHANG case={case}");
    std::process::exit(71);
}

pub fn install_crash_handler() {
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub fn limit_memory(mb: u64) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: (mb << 20) as libc::rlim_t, rlim_max: (mb << 20) as libc::rlim_t };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

pub fn case_seed(seed: u64, config: &str, case: u64) -> u64 {
    let mut h = mix(seed, 0x1b16);
    for b in config.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, case)
}

/// Keep reducing while the case still fails. Any failure counts: it is the same check.
pub fn shrink(prop: &Prop, tape: Vec<u64>, first: String, budget: Duration) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut msg = first;
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        let mut t = Tape::replay(cand);
        let mut cx = Cx::default();
        if let Err(m) = run_tape(prop, &mut t, &mut cx) {
            // strictly simpler, by length then lexicographic order of the numbers drawn
            let mut used = t.used;
            while used.last() == Some(&0) {
                used.pop();
            }
            if (used.len(), &used) < (best.len(), best) {
                *best = used;
                *msg = m;
                return true;
            }
        }
        false
    };
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        // delete blocks
        let mut size = best.len().next_power_of_two().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                if attempt(c, &mut best, &mut msg) {
                    progress = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero, then shrink single numbers
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt(c, &mut best, &mut msg) {
                    progress = true;
                } else {
                    let mut step = best.get(i).copied().unwrap_or(0) / 2;
                    while step > 0 && start.elapsed() < budget {
                        let Some(&cur) = best.get(i) else { break };
                        if cur > step {
                            let mut c = best.clone();
                            c[i] = cur - step;
                            if attempt(c, &mut best, &mut msg) {
                                progress = true;
                                continue;
                            }
                        }
                        step /= 2;
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}

pub fn describe(prop: &Prop, tape: &[u64]) -> (Vec<String>, CaseResult) {
    let mut t = Tape::replay(tape.to_vec());
    let mut cx = Cx { verbose: true, ..Cx::default() };
    let r = run_tape(prop, &mut t, &mut cx);
    (cx.notes, r)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub id: String,
    pub config: String,
    pub seed: u64,
    pub cases: u64,
    pub first_case: u64,
    pub secs: f64,
    pub threads: usize,
    pub hang_ms: u64,
    pub shrink_secs: f64,
    /// Write "case hash" of every transcript to this file.
    pub transcripts: Option<String>,
    /// Write the tape of each case here before it runs (coverage-guided cases cannot be named by a number).
    pub tape_file: Option<String>,
}

pub fn text_hash(s: &str) -> u64 {
    let mut h = s.len() as u64;
    for c in s.as_bytes().chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(b));
    }
    h
}

/// One tape per input line; answers with the numbers used and the transcript, for the driver that
/// compares configurations.
pub fn serve(prop: &Prop) {
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let mut tape = match line.strip_prefix("case ") {
            Some(rest) => {
                let mut it = rest.split(' ');
                let seed: u64 = it.next().unwrap().parse().unwrap();
                Tape::random(case_seed(seed, "", it.next().unwrap().parse().unwrap()))
            }
            None => Tape::replay(line.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
        };
        let mut cx = Cx::default();
        let r = run_tape(prop, &mut tape, &mut cx);
        let text = match r {
            Ok(()) => cx.transcript.unwrap_or_default(),
            Err(m) => format!("FAILED {m}"),
        };
        let nums: Vec<String> = tape.used.iter().map(|x| x.to_string()).collect();
        println!("{{\"used\":[{}],\"text\":{}}}", nums.join(","), json_str(&text));
        std::io::stdout().flush().unwrap();
    }
}

#[derive(Default)]
struct Shared {
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    hashes: Vec<(u64, u64)>,
    failure: Option<(u64, Vec<u64>, String)>,
}

/// Runs the property and prints one JSON object on the last line. Returns the exit code.
pub fn run(prop: &'static Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let next = AtomicU64::new(o.first_case);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(Shared::default());
    let mut fixed_evals = 0;

    // The guided configurations leave it to the others.
    if let (Some(f), true) = (prop.fixed, o.first_case == 0 && !cfg!(guided)) {
        let mut cx = Cx::default();
        let r = match catch(|| f(&mut cx, &mut fixed_evals)) {
            Ok(r) => r,
            Err(m) => Err(format!("unexpected panic: {m}")),
        };
        if let Err(m) = r {
            println!(
                "{{\"config\":{},\"failure\":{{\"message\":{},\"fixed\":true,\"tape\":[],\"notes\":[]}}}}",
                json_str(&o.config),
                json_str(&m)
            );
            return 1;
        }
        let mut sh = shared.lock().unwrap();
        for l in cx.labels {
            *sh.labels.entry(l).or_default() += 1;
        }
    }

    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for slot in 0..o.threads {
            let (next, done, stop, shared) = (&next, &done, &stop, &shared);
            handles.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|x| x.set(slot));
                        PTHREAD[slot].store(unsafe { libc::pthread_self() } as usize, SeqCst);
                        let mut local = Shared::default();
                        #[cfg(guided)]
                        let mut engine = crate::guided::Engine::new(case_seed(o.seed, &o.config, slot as u64), o.tape_file.as_ref());
                        while !stop.load(SeqCst) {
                            let case = next.fetch_add(1, SeqCst);
                            if case >= o.first_case + o.cases || start.elapsed().as_secs_f64() > o.secs {
                                break;
                            }
                            let pt = PTHREAD[slot].load(SeqCst);
                            STARTED_CPU[slot].store(thread_cpu_ms(pt).unwrap_or(0), SeqCst);
                            CURRENT[slot].store(case, SeqCst);
                            let config = if o.transcripts.is_some() { "" } else { &o.config };
                            #[cfg(not(guided))]
                            let mut tape = Tape::random(case_seed(o.seed, config, case));
                            #[cfg(guided)]
                            let mut tape = {
                                let _ = config;
                                Tape::replay(engine.next())
                            };
                            let mut cx = Cx::default();
                            #[cfg(guided)]
                            engine.start();
                            let r = run_tape(prop, &mut tape, &mut cx);
                            #[cfg(guided)]
                            engine.finish(&tape.used);
                            CURRENT[slot].store(u64::MAX, SeqCst);
                            done.fetch_add(1, SeqCst);
                            if let Err(m) = r {
                                stop.store(true, SeqCst);
                                let mut sh = shared.lock().unwrap();
                                // the lowest case number, for determinism
                                if sh.failure.as_ref().map_or(true, |f| case < f.0) {
                                    sh.failure = Some((case, tape.used, m));
                                }
                                break;
                            }
                            if o.transcripts.is_some() {
                                local.hashes.push((case, text_hash(cx.transcript.as_deref().unwrap_or(""))));
                            }
                            for l in &cx.labels {
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if cx.nontrivial {
                                let mut h = 0;
                                for &x in &tape.used {
                                    h = mix(h, x);
                                }
                                if local.distinct.len() < 4_000_000 {
                                    local.distinct.insert(h);
                                }
                                if local.samples.len() < 2 && case % 7 == 3 {
                                    let (notes, _) = describe(prop, &tape.used);
                                    local.samples.push(notes.join("; "));
                                }
                            }
                        }
                        #[cfg(guided)]
                        {
                            local.samples.truncate(1);
                            local.samples.push(format!("{} of {} edge counters reached, {} tapes kept", engine.edges(), engine.counters(), engine.corpus_len()));
                        }
                        let mut sh = shared.lock().unwrap();
                        sh.distinct.extend(local.distinct);
                        sh.hashes.extend(local.hashes);
                        for (k, v) in local.labels {
                            *sh.labels.entry(k).or_default() += v;
                        }
                        sh.samples.extend(local.samples);
                        PTHREAD[slot].store(0, SeqCst);
                    })
                    .unwrap(),
            );
        }
        // Watchdog: CPU time of the case, so a loaded machine is not a hang.
        while handles.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            for slot in 0..o.threads {
                let case = CURRENT[slot].load(SeqCst);
                let pt = PTHREAD[slot].load(SeqCst);
                if case == u64::MAX || pt == 0 {
                    continue;
                }
                if let Some(now) = thread_cpu_ms(pt) {
                    if now > STARTED_CPU[slot].load(SeqCst) + o.hang_ms && CURRENT[slot].load(SeqCst) == case {
                        println!("\nHANG case={case}");
                        std::io::stdout().flush().unwrap();
                        unsafe { libc::_exit(71) };
                    }
                }
            }
        }
    });

    let mut sh = shared.into_inner().unwrap();
    if let Some(path) = &o.transcripts {
        sh.hashes.sort();
        let lines: Vec<String> = sh.hashes.iter().map(|(c, h)| format!("{c} {h:016x}\n")).collect();
        std::fs::write(path, lines.concat()).expect("transcript file");
    }
    let mut failure = String::new();
    let mut code = 0;
    if let Some((case, tape, m)) = sh.failure.take() {
        code = 1;
        // Shrinking must not be defeated by a hang or crash of its own: report what there is first.
        let (notes, _) = describe(prop, &tape);
        let ns: Vec<String> = notes.iter().map(|x| json_str(&x.chars().take(2000).collect::<String>())).collect();
        let nums: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        println!(
            "PREFAIL {{\"case\":{case},\"message\":{},\"tape\":[{}],\"notes\":[{}]}}",
            json_str(&m),
            nums.join(","),
            ns.join(",")
        );
        std::io::stdout().flush().unwrap();
        unsafe { libc::alarm(o.shrink_secs as u32 * 3 + 20) };
        let (best, msg) = shrink(prop, tape, m, Duration::from_secs_f64(o.shrink_secs));
        let (notes, _) = describe(prop, &best);
        let nums: Vec<String> = best.iter().map(|x| x.to_string()).collect();
        let ns: Vec<String> = notes.iter().map(|x| json_str(x)).collect();
        failure = format!(
            ",\"failure\":{{\"case\":{case},\"message\":{},\"tape\":[{}],\"notes\":[{}]}}",
            json_str(&msg),
            nums.join(","),
            ns.join(",")
        );
    }
    sh.samples.sort_by_key(|s| s.len());
    sh.samples.truncate(3);
    let labels: Vec<String> = sh.labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
    let samples: Vec<String> = sh.samples.iter().map(|x| json_str(&x.chars().take(1500).collect::<String>())).collect();
    println!(
        "{{\"config\":{},\"evaluations\":{},\"fixed_evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"labels\":{{{}}},\"samples\":[{}],\"wall_s\":{:.2}{}}}",
        json_str(&o.config),
        done.load(SeqCst) + fixed_evals,
        fixed_evals,
        sh.distinct.len(),
        json_str(prop.rule),
        labels.join(","),
        samples.join(","),
        start.elapsed().as_secs_f64(),
        failure
    );
    code
}
