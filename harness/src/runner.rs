//! Runs the cases of one property, watches them, and reports what was observed.
//!
//! Every case is a deterministic function of (seed, property, case index), so a
//! replay needs nothing but those three. Verdicts are three-valued: a case
//! either held, or was refuted (`Fail`), or the harness itself failed
//! (panic outside library code), which is reported as an error and never as a
//! violation.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::OpenOptions;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::rng::Rng;

#[derive(Debug, Clone)]
pub struct Fail(pub String);

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::runner::Fail(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::runner::Fail(format!($($a)*))); } };
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

/// Run code of the library under test. A panic in here counts against the
/// library, a panic anywhere else counts against the harness.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            // keep the flag up while unwinding so the panic hook has been served
            IN_LIB.with(|c| c.set(c.get() - 1));
        }
    }
    IN_LIB.with(|c| c.set(c.get() + 1));
    let _g = Guard;
    f()
}

/// Temporarily leave library code (for callbacks into the harness).
pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get() > 0)
}

/// Run something on a helper thread: a panic in library code becomes a
/// violation, one in the harness goes on as an error.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, Fail>) -> Result<R, Fail> {
    IN_LIB.with(|c| c.set(0));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            IN_LIB.with(|c| c.set(0));
            match LAST_PANIC.with(|l| l.borrow_mut().take()) {
                Some((true, m)) => Err(Fail(format!("panic in library code: {m}"))),
                _ => std::panic::resume_unwind(e),
            }
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub small: bool,
    pub index: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub fp: u64,
    /// Set by the case when the library was exercised beyond the trivial.
    pub nontrivial: bool,
    pub desc: String,
    pub want_desc: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// Record the largest value seen (the key starts with `max_`).
    pub fn max(&mut self, k: &'static str, n: u64) {
        assert!(k.starts_with("max_"));
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Mix an observed value into the fingerprint of this execution.
    pub fn see(&mut self, v: u64) {
        let mut h = self.fp ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
        self.fp = h;
    }
    pub fn see_f(&mut self, v: f64) {
        self.see(v.to_bits())
    }
    pub fn see_str(&mut self, s: &str) {
        for c in s.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.see(u64::from_le_bytes(b));
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    seed: u64,
    start: u64,
    count: u64,
    threads: usize,
    max_secs: f64,
    hang_cpu: f64,
    thorough: bool,
    small: bool,
    progress: Option<String>,
    out: Option<String>,
}

fn args() -> Args {
    let mut a = Args {
        seed: 1,
        start: 0,
        count: 1000,
        threads: 8,
        max_secs: 600.0,
        hang_cpu: 60.0,
        thorough: false,
        small: false,
        progress: None,
        out: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--start" => a.start = v().parse().unwrap(),
            "--count" => a.count = v().parse().unwrap(),
            "--threads" => a.threads = v().parse().unwrap(),
            "--max-secs" => a.max_secs = v().parse().unwrap(),
            "--hang-cpu" => a.hang_cpu = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--small" => a.small = true,
            "--progress" => a.progress = Some(v()),
            "--out" => a.out = Some(v()),
            "--only" => {
                a.start = v().parse().unwrap();
                a.count = 1;
                a.threads = 1;
            }
            other => panic!("unknown argument {other}"),
        }
    }
    a
}

fn tag(prop: &str) -> u64 {
    prop.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

/// CPU time used by one of our own threads, in seconds.
fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    let ns: f64 = s.split_whitespace().next()?.parse().ok()?;
    Some(ns / 1e9)
}

/// CPU time used by the process so far, ended threads included, in seconds.
fn process_cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split_whitespace().collect();
    // user and system time, the 14th and 15th fields, in hundredths
    let t = |i: usize| rest.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Whether all threads but the calling one are asleep (and none is waiting for
/// a processor or a disk).
fn all_asleep(me: u64) -> bool {
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return false };
    dir.flatten().all(|e| {
        let Some(tid) = e.file_name().to_str().and_then(|s| s.parse::<u64>().ok()) else { return false };
        let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
        // the state follows the name in parentheses
        tid == me || s.rsplit(") ").next().is_some_and(|s| s.starts_with('S'))
    })
}

fn my_tid() -> u64 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

/// How one case ended.
pub enum Outcome {
    Held,
    Violated(String),
    HarnessError(String),
}

pub fn run_one(prop: &str, seed: u64, index: u64, ctx: &mut Ctx, case: fn(&mut Ctx) -> Res) -> Outcome {
    ctx.rng = Rng::new(seed ^ tag(prop), index);
    ctx.index = index;
    ctx.fp = 0x1234;
    ctx.nontrivial = false;
    ctx.desc.clear();
    crate::num::reset_far();
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    IN_LIB.with(|c| c.set(0));
    match catch_unwind(AssertUnwindSafe(|| case(ctx))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Fail(m))) => Outcome::Violated(match crate::num::offset() {
            0 => m,
            n => format!("{m} (all coordinates moved by {n})"),
        }),
        Err(_) => {
            IN_LIB.with(|c| c.set(0));
            match LAST_PANIC.with(|l| l.borrow_mut().take()) {
                Some((true, m)) => Outcome::Violated(format!("panic in library code: {m}")),
                Some((false, m)) => Outcome::HarnessError(format!("panic in harness: {m}")),
                None => Outcome::HarnessError("panic of unknown origin".into()),
            }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let lib = IN_LIB.with(|c| c.get() > 0);
        let msg = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((lib, msg)));
    }));
}

pub fn main(prop: &'static str, case: fn(&mut Ctx) -> Res) {
    let a = args();
    install_hook();
    let begin = Instant::now();
    let next = AtomicU64::new(a.start);
    let end = a.start + a.count;
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    struct Total {
        evals: u64,
        fps: HashSet<u64>,
        counters: BTreeMap<&'static str, u64>,
        samples: Vec<(u64, String)>,
        bad: Vec<(u64, bool, String, String)>,
    }
    let total = Mutex::new(Total {
        evals: 0,
        fps: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        bad: vec![],
    });
    let progress = a.progress.as_ref().map(|p| {
        OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(p)
            .expect("progress file")
    });
    let slots: Vec<AtomicU64> = (0..a.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let tids: Vec<AtomicU64> = (0..a.threads).map(|_| AtomicU64::new(0)).collect();
    let live = AtomicU64::new(a.threads as u64);

    std::thread::scope(|s| {
        for w in 0..a.threads {
            let (next, stop, capped, total, progress, slots, tids, live, a) = (
                &next, &stop, &capped, &total, &progress, &slots, &tids, &live, &a,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    if !cfg!(miri) {
                        tids[w].store(my_tid(), Ordering::SeqCst);
                    }
                    let mut ctx = Ctx {
                        rng: Rng::new(0, 0),
                        thorough: a.thorough,
                        small: a.small,
                        index: 0,
                        counters: BTreeMap::new(),
                        fp: 0,
                        nontrivial: false,
                        desc: String::new(),
                        want_desc: false,
                    };
                    let mut fps = HashSet::new();
                    let mut evals = 0;
                    let mut samples = vec![];
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if begin.elapsed().as_secs_f64() > a.max_secs {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= end {
                            break;
                        }
                        slots[w].store(i, Ordering::SeqCst);
                        if let Some(f) = progress {
                            let _ = f.write_at(format!("{i:>20}\n").as_bytes(), (w * 21) as u64);
                        }
                        ctx.want_desc = i < a.start + 3 || a.count == 1;
                        let out = run_one(prop, a.seed, i, &mut ctx, case);
                        evals += 1;
                        if ctx.nontrivial {
                            fps.insert(ctx.fp);
                        }
                        if ctx.want_desc && !ctx.desc.is_empty() {
                            samples.push((i, ctx.desc.clone()));
                        }
                        match out {
                            Outcome::Held => {}
                            Outcome::Violated(m) => {
                                stop.store(true, Ordering::Relaxed);
                                // run it again with the description switched on
                                ctx.want_desc = true;
                                let _ = run_one(prop, a.seed, i, &mut ctx, case);
                                let d = ctx.desc.clone();
                                total.lock().unwrap().bad.push((i, true, m, d));
                                break;
                            }
                            Outcome::HarnessError(m) => {
                                stop.store(true, Ordering::Relaxed);
                                total.lock().unwrap().bad.push((i, false, m, ctx.desc.clone()));
                                break;
                            }
                        }
                    }
                    slots[w].store(u64::MAX, Ordering::SeqCst);
                    let mut t = total.lock().unwrap();
                    t.evals += evals;
                    t.fps.extend(fps);
                    t.samples.extend(samples);
                    for (k, v) in ctx.counters {
                        let e = t.counters.entry(k).or_insert(0);
                        *e = if k.starts_with("max_") { (*e).max(v) } else { *e + v };
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        if !cfg!(miri) {
            // Watchdog: a case that burns far more CPU than any case needs is
            // reported by index; the driver decides by replaying it alone.
            let mut since: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); a.threads];
            let me = my_tid();
            // what all of them are at, since how much CPU of the process, and
            // for how long without a thread that runs
            let mut all: (Vec<u64>, f64) = (vec![], 0.0);
            let mut asleep: Option<(Instant, u64)> = None;
            let mut tick = 0u64;
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                tick += 1;
                let now: Vec<u64> = slots.iter().map(|s| s.load(Ordering::SeqCst)).collect();
                let first = now.iter().copied().min().unwrap();
                if now != all.0 {
                    all = (now, process_cpu());
                    asleep = None;
                } else if first != u64::MAX {
                    // Nothing ends: all blocked, or helper threads that run on
                    if !all_asleep(me) {
                        asleep = None;
                    } else if asleep.is_none() {
                        asleep = Some((Instant::now(), tick));
                    }
                    if asleep.is_some_and(|(t, n)| t.elapsed().as_secs() > 30 && tick - n > 600) {
                        println!("BLOCKED case={first}");
                        std::process::exit(3);
                    }
                    if tick % 50 == 0 && process_cpu() - all.1 > a.hang_cpu * a.threads as f64 {
                        println!("HANG case={first}");
                        std::process::exit(3);
                    }
                }
                for w in 0..a.threads {
                    let i = slots[w].load(Ordering::SeqCst);
                    if i == u64::MAX {
                        continue;
                    }
                    let Some(cpu) = thread_cpu(tids[w].load(Ordering::SeqCst)) else {
                        continue;
                    };
                    if since[w].0 != i {
                        since[w] = (i, cpu);
                    } else if cpu - since[w].1 > a.hang_cpu {
                        println!("HANG case={i}");
                        std::process::exit(3);
                    }
                }
            }
        }
    });

    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    t.bad.sort();
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"capped\":{},\"wall_s\":{:.3},",
        json_str(prop),
        a.seed,
        t.evals,
        t.fps.len(),
        capped.load(Ordering::Relaxed),
        begin.elapsed().as_secs_f64()
    ));
    o.push_str("\"counters\":{");
    o.push_str(
        &t.counters
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"samples\":[");
    o.push_str(
        &t.samples
            .iter()
            .take(3)
            .map(|(i, d)| {
                let d: String = d.chars().take(1500).collect();
                json_str(&format!("case {i}: {d}"))
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"bad\":[");
    o.push_str(
        &t.bad
            .iter()
            .map(|(i, v, m, d)| {
                format!(
                    "{{\"case\":{i},\"violation\":{v},\"message\":{},\"description\":{}}}",
                    json_str(m),
                    json_str(d)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}");
    match &a.out {
        Some(p) => {
            std::fs::File::create(p)
                .and_then(|mut f| f.write_all(o.as_bytes()))
                .expect("write result");
        }
        None => println!("{o}"),
    }
    if t.bad.iter().any(|b| b.1) {
        std::process::exit(1);
    }
    if !t.bad.is_empty() {
        std::process::exit(2);
    }
}
