//! Runtime-monitoring kit: seeded workloads on many threads, observation counters,
//! three-valued verdicts (held / violated / inconclusive), panic attribution, a CPU-time
//! watchdog, crash isolation in a child process, replay files and evidence records.
//! Nothing here depends on the code under test.

pub mod num;
pub mod rng;

use rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug)]
pub enum Fail {
    /// The property is broken; `key` identifies the failing input for known findings.
    Violation { key: String, msg: String },
    /// The monitor could not decide this case (a harness fault); never a violation.
    Undecided(String),
}

pub type R = Result<(), Fail>;

pub fn violation<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation { key: String::new(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::violation(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: BTreeMap<&'static str, HashSet<u64>>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub maxima: BTreeMap<&'static str, f64>,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.distinct {
            self.distinct.entry(k).or_default().extend(v);
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(v);
            *e = e.max(v);
        }
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub tier: Tier,
    /// Running number of this case within its monitor (enumerating monitors use it)
    pub index: u64,
    pub obs: &'a mut Obs,
    input: String,
    want_sample: bool,
    counted: bool,
}

impl Case<'_> {
    /// Counts an observed event.
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.obs.counters.entry(what).or_default() += n;
    }
    pub fn saw(&mut self, what: &'static str) {
        self.count(what, 1);
    }
    /// Remembers a distinct state under a label.
    pub fn distinct(&mut self, what: &'static str, h: u64) {
        let s = self.obs.distinct.entry(what).or_default();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
    /// Marks this case non-trivial, with the fingerprint that makes it distinct.
    pub fn nontrivial(&mut self, h: u64) {
        if !self.counted && self.obs.nontrivial.len() < 2_000_000 {
            self.counted = true;
            self.obs.nontrivial.insert(h);
        }
    }
    /// Tracks the largest value of a measured error or size.
    pub fn max(&mut self, what: &'static str, v: f64) {
        let e = self.obs.maxima.entry(what).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// Describes the input, for replay files and samples. Cheap when not needed.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample || REPLAYING.load(SeqCst) == 1 {
            let mut s = f();
            if s.len() > 4000 {
                let mut n = 4000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.input = s;
        }
    }
}

static REPLAYING: AtomicUsize = AtomicUsize::new(0);
static CRASH_ONLY: AtomicUsize = AtomicUsize::new(0);

/// Leaves wrong answers and panics to the properties they break: only a process that dies
/// (a sanitizer's report, a signal) or a call without end is a violation from here on.
pub fn crash_only() {
    CRASH_ONLY.store(1, SeqCst);
}

pub struct Monitor {
    pub name: &'static str,
    pub quick: u64,
    /// Cap for enumerating monitors: the whole space, never repeated
    pub space: Option<u64>,
    pub f: fn(&mut Case) -> R,
}

pub fn mon(name: &'static str, quick: u64, f: fn(&mut Case) -> R) -> Monitor {
    Monitor { name, quick, space: None, f }
}

/// A monitor over a finite space of `n` cases, all run in both tiers.
pub fn all(name: &'static str, n: u64, f: fn(&mut Case) -> R) -> Monitor {
    Monitor { name, quick: n, space: Some(n), f }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub monitors: Vec<Monitor>,
    /// Observations without which a quiet run decides nothing
    pub require: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
}

// ---- panic attribution -------------------------------------------------------------

#[derive(Clone, Debug)]
struct Panicked {
    msg: String,
    place: String,
    library: bool,
}

thread_local! {
    static LAST: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

fn is_library(file: &str) -> bool {
    file.contains("/build/core/") || file.contains("/build/full/")
}

fn is_harness(file: &str) -> bool {
    file.starts_with("src/") || file.starts_with("./src/") || file.contains("/harness/")
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let mut place = format!("{file}:{line}");
        let library = if is_library(&file) {
            true
        } else if is_harness(&file) {
            false
        } else {
            // Raised inside a dependency: charge it to whichever of library and harness
            // is innermost on the stack.
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let mut lib = true;
            for l in bt.lines().map(str::trim).filter(|l| l.starts_with("at ")) {
                let f = &l[3..];
                if f.contains("/kit/src/lib.rs") {
                    continue;
                }
                if is_library(f) {
                    place = format!("{place} via {f}");
                    break;
                }
                if is_harness(f) {
                    lib = false;
                    place = format!("{place} via {f}");
                    break;
                }
            }
            lib
        };
        LAST.with(|l| *l.borrow_mut() = Some(Panicked { msg, place, library }));
    }));
}

/// Runs library code that is allowed to refuse by panicking (documented panics).
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).map(|p| p.msg).unwrap_or_default()
    })
}

fn run_case(m: &Monitor, seed: u64, index: u64, tier: Tier, obs: &mut Obs, sample: bool) -> (R, String) {
    let mut case = Case { rng: Rng::new(seed), tier, index, obs, input: String::new(), want_sample: sample, counted: false };
    let r = catch_unwind(AssertUnwindSafe(|| (m.f)(&mut case)));
    let input = std::mem::take(&mut case.input);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let p = LAST.with(|l| l.borrow_mut().take());
            match p {
                Some(p) if p.library => violation(format!("library panicked at {}: {}", p.place, p.msg)),
                Some(p) => Err(Fail::Undecided(format!("harness panicked at {}: {}", p.place, p.msg))),
                None => Err(Fail::Undecided("panic without a location".into())),
            }
        }
    };
    let r = match r {
        Err(Fail::Violation { .. }) if CRASH_ONLY.load(SeqCst) == 1 => {
            *obs.counters.entry("cases left to other properties").or_default() += 1;
            Ok(())
        }
        r => r,
    };
    if sample && !input.is_empty() {
        obs.samples.push((index, format!("{}[{}]: {}", m.name, index, input)));
    }
    (r, input)
}

fn case_seed(seed: u64, m: &Monitor, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(m.name)).wrapping_add(index))
}

// ---- running -------------------------------------------------------------------------

struct Found {
    monitor: &'static str,
    index: u64,
    seed: u64,
    key: String,
    msg: String,
}

struct Opts {
    id: String,
    tier: Tier,
    seed: u64,
    dir: PathBuf,
}

fn replay_file(o: &Opts, f: &Found, input: &str) -> PathBuf {
    let d = std::env::var("MON_REPLAYS").map(PathBuf::from).unwrap_or_else(|_| o.dir.clone()).join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}-{}-{:016x}.json", o.id, f.monitor, f.seed));
    let v = json!({"property": o.id, "monitor": f.monitor, "index": f.index, "case_seed": format!("{:016x}", f.seed),
        "tier": tier_name(o.tier), "seed": o.seed, "key": f.key, "message": f.msg, "input": input, "build": std::env::var("MON_BUILD").ok()});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
    p
}

fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick { "quick" } else { "thorough" }
}

fn known(dir: &Path, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(dir.join("known_findings.jsonl")).unwrap_or_default();
    text.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "known")
        .map(|v| (v["key"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

struct Slot {
    busy: AtomicU64, // 0 idle, else case number + 1
    monitor: AtomicUsize,
    index: AtomicU64,
    tid: AtomicU64,
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

const CASE_CPU_S: u64 = 60;

fn work(p: &'static Property, o: Arc<Opts>) -> i32 {
    install_hook();
    let start = Instant::now();
    let factor: f64 = std::env::var("MON_FACTOR").ok().and_then(|v| v.parse().ok()).unwrap_or(8.0);
    let budget = match o.tier {
        Tier::Quick => Duration::from_secs(std::env::var("MON_QUICK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(240)),
        Tier::Thorough => Duration::from_secs(std::env::var("MON_THOROUGH_S").ok().and_then(|v| v.parse().ok()).unwrap_or(300)),
    };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let progress = std::env::var("MON_PROGRESS").ok().and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok());
    let progress = Arc::new(progress);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot { busy: AtomicU64::new(0), monitor: AtomicUsize::new(0), index: AtomicU64::new(0), tid: AtomicU64::new(0) })
            .collect(),
    );
    let found: Arc<Mutex<Vec<Found>>> = Arc::default();
    let undecided: Arc<Mutex<Vec<String>>> = Arc::default();
    let total = Arc::new(Mutex::new(Obs::default()));
    let evals = Arc::new(AtomicU64::new(0));
    let per: Arc<Vec<AtomicU64>> = Arc::new(p.monitors.iter().map(|_| AtomicU64::new(0)).collect());
    let cut = Arc::new(AtomicUsize::new(0));

    // CPU-time watchdog: a case that burns CASE_CPU_S of its own CPU time never finishes.
    {
        let (slots, o, found) = (slots.clone(), o.clone(), found.clone());
        std::thread::spawn(move || {
            let mut first: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (k, s) in slots.iter().enumerate() {
                    let b = s.busy.load(SeqCst);
                    if b == 0 {
                        continue;
                    }
                    let Some(t) = thread_cpu_ticks(s.tid.load(SeqCst)) else { continue };
                    if first[k].0 != b {
                        first[k] = (b, t);
                    } else if t - first[k].1 > CASE_CPU_S * 100 {
                        let m = &p.monitors[s.monitor.load(SeqCst)];
                        let i = s.index.load(SeqCst);
                        let f = Found { monitor: m.name, index: i, seed: case_seed(o.seed, m, i), key: "no-end".into(),
                            msg: format!("used more than {CASE_CPU_S} s of CPU time without finishing") };
                        let path = replay_file(&o, &f, "");
                        println!("VIOLATION property={} replay={}", o.id, path.display());
                        eprintln!("{}[{}]: {}", f.monitor, f.index, f.msg);
                        found.lock().unwrap().push(f);
                        evidence(p, &o, &Obs::default(), 0, &[], 1, 0.0, false);
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let serial = Arc::new(AtomicU64::new(1));
    for (mi, m) in p.monitors.iter().enumerate() {
        if let Ok(only) = std::env::var("MON_ONLY") {
            if only != m.name {
                continue;
            }
        }
        let n = match (o.tier, m.space) {
            (_, Some(n)) => n,
            (Tier::Quick, None) => ((m.quick as f64 * factor) as u64).max(1),
            (Tier::Thorough, None) => m.quick * 40,
        };
        // Cheap monitors go on past their base count: up to 30 times it, while there is time
        let share = match o.tier {
            Tier::Quick => Duration::from_secs_f64(std::env::var("MON_FILL_S").ok().and_then(|v| v.parse().ok()).unwrap_or(2.0)),
            Tier::Thorough => budget,
        };
        let fill = Instant::now() + share.mul_f64(1.0 / p.monitors.len() as f64);
        let most = match o.tier {
            _ if m.space.is_some() || factor < 1.0 => n,
            Tier::Quick => n * 30,
            Tier::Thorough => n * 10_000,
        };
        let next = Arc::new(AtomicU64::new(0));
        // The thorough budget is shared over the monitors in order.
        let deadline = start + budget.mul_f64((mi + 1) as f64 / p.monitors.len() as f64);
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (next, slots, found, undecided, total, o, evals, per, cut, progress, serial) = (
                    next.clone(), slots.clone(), found.clone(), undecided.clone(), total.clone(), o.clone(),
                    evals.clone(), per.clone(), cut.clone(), progress.clone(), serial.clone(),
                );
                let m = &p.monitors[mi];
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let tid = std::fs::read_link("/proc/thread-self")
                            .ok()
                            .and_then(|p| p.file_name().and_then(|n| n.to_string_lossy().parse().ok()))
                            .unwrap_or(0);
                        slots[t].tid.store(tid, SeqCst);
                        let mut obs = Obs::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= most || i >= n && Instant::now() > fill {
                                break;
                            }
                            if found.lock().unwrap().len() >= 4 || undecided.lock().unwrap().len() >= 20 {
                                break;
                            }
                            if Instant::now() > deadline {
                                cut.store(1, SeqCst);
                                break;
                            }
                            let seed = case_seed(o.seed, m, i);
                            slots[t].monitor.store(mi, SeqCst);
                            slots[t].index.store(i, SeqCst);
                            slots[t].busy.store(serial.fetch_add(1, SeqCst), SeqCst);
                            if let Some(f) = progress.as_ref() {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(mi as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_all_at(&b, t as u64 * 16);
                            }
                            let (r, _) = run_case(m, seed, i, o.tier, &mut obs, i < 2);
                            slots[t].busy.store(0, SeqCst);
                            evals.fetch_add(1, SeqCst);
                            per[mi].fetch_add(1, SeqCst);
                            match r {
                                Ok(()) => {}
                                Err(Fail::Violation { key, msg }) => {
                                    found.lock().unwrap().push(Found { monitor: m.name, index: i, seed, key, msg })
                                }
                                Err(Fail::Undecided(why)) => {
                                    undecided.lock().unwrap().push(format!("{}[{}]: {}", m.name, i, why))
                                }
                            }
                        }
                        if let Some(f) = progress.as_ref() {
                            let _ = f.write_all_at(&[0u8; 16], t as u64 * 16);
                        }
                        total.lock().unwrap().merge(obs);
                    })
                    .expect("spawn")
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
    }

    let kn = known(&o.dir, &o.id);
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| (f.monitor, f.index));
    let mut bad = 0;
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    for f in &found {
        if let Some((_, what)) = kn.iter().find(|(k, _)| !k.is_empty() && *k == f.key) {
            known_hit.insert(f.key.clone(), what.clone());
            continue;
        }
        bad += 1;
        // run it once more to describe the input
        REPLAYING.store(1, SeqCst);
        let m = p.monitors.iter().find(|m| m.name == f.monitor).unwrap();
        let (_, input) = run_case(m, f.seed, f.index, o.tier, &mut Obs::default(), true);
        REPLAYING.store(0, SeqCst);
        let path = replay_file(&o, f, &input);
        println!("{}[{}]: {}", f.monitor, f.index, f.msg);
        println!("VIOLATION property={} replay={}", o.id, path.display());
    }
    for (_, what) in &known_hit {
        println!("KNOWN-FINDING: property={} {}", o.id, what);
    }
    let total = std::mem::take(&mut *total.lock().unwrap());
    let mut und = std::mem::take(&mut *undecided.lock().unwrap());
    if bad == 0 && std::env::var("MON_ONLY").is_err() {
        for (k, min) in &p.require {
            let min = if factor < 1.0 { 1 } else { (*min / 4).max(1) };
            let got = total.counters.get(k).copied().unwrap_or(0)
                + total.distinct.get(k).map(|s| s.len() as u64).unwrap_or(0);
            if got < min {
                und.push(format!("observed {k} only {got} times, fewer than the {min} that a verdict needs"));
            }
        }
    }
    let n = evals.load(SeqCst);
    let per: Vec<(&str, u64)> = p.monitors.iter().zip(per.iter()).map(|(m, c)| (m.name, c.load(SeqCst))).collect();
    evidence(p, &o, &total, n, &per, bad, start.elapsed().as_secs_f64(), cut.load(SeqCst) == 1);
    for u in &und {
        println!("UNDECIDED property={} {}", o.id, u);
    }
    println!(
        "property={} tier={} seed={} cases={} nontrivial={} violations={} undecided={} wall={:.1}s",
        o.id, tier_name(o.tier), o.seed, n, total.nontrivial.len(), bad, und.len(), start.elapsed().as_secs_f64()
    );
    if bad > 0 {
        1
    } else if !und.is_empty() {
        2
    } else {
        0
    }
}

fn evidence(p: &Property, o: &Opts, t: &Obs, n: u64, per: &[(&str, u64)], bad: usize, wall: f64, cut: bool) {
    let mut samples: Vec<_> = t.samples.clone();
    samples.sort();
    let mut chosen: Vec<String> = Vec::new();
    for m in &p.monitors {
        if let Some((_, s)) = samples.iter().find(|(_, s)| s.starts_with(&format!("{}[", m.name))) {
            let mut s = s.clone();
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            chosen.push(s);
        }
    }
    let distinct: BTreeMap<_, _> = t.distinct.iter().map(|(k, v)| (*k, v.len())).collect();
    let v = json!({
        "property": o.id,
        "tier": tier_name(o.tier),
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": p.rule,
            "samples": chosen,
            "cases_per_monitor": per.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "observed_events": t.counters,
            "distinct_states": distinct,
            "largest_observed": t.maxima,
            "stopped_by_time_budget": cut,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": bad,
    });
    let d = o.dir.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if std::fs::write(d.join(format!("{}.json", o.id)), serde_json::to_string_pretty(&v).unwrap() + "\n").is_err() {
        eprintln!("cannot write the evidence file");
    }
}

/// Entry point of every monitor binary:
///   BIN run ID | BIN replay FILE | BIN list
/// VERIF_SEED, VERIF_TIER and MON_DIR (the /verif directory) come from the environment.
pub fn main(props: Vec<Property>) -> ! {
    let props: &'static Vec<Property> = Box::leak(Box::new(props));
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let dir = PathBuf::from(env("MON_DIR").unwrap_or_else(|| "/verif".into()));
    let tier = if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |id: &str| -> &'static Property {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id} here");
            std::process::exit(3)
        })
    };
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for p in props {
                println!("{} {}", p.id, p.monitors.iter().map(|m| m.name).collect::<Vec<_>>().join(" "));
            }
            std::process::exit(0)
        }
        Some("work") => {
            let id = &args[2];
            std::process::exit(work(find(id), Arc::new(Opts { id: id.clone(), tier, seed, dir })))
        }
        Some("one") => {
            // one ID MONITOR INDEX SEED: a single case, used to find the case that crashed
            install_hook();
            let p = find(&args[2]);
            let m = p.monitors.iter().find(|m| m.name == args[3]).expect("monitor");
            let (r, _) = run_case(m, u64::from_str_radix(&args[5], 16).unwrap(), args[4].parse().unwrap(), tier, &mut Obs::default(), false);
            std::process::exit(match r { Ok(()) => 0, Err(Fail::Violation { .. }) => 1, Err(_) => 2 })
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            install_hook();
            REPLAYING.store(1, SeqCst);
            let id = v["property"].as_str().unwrap();
            let p = find(id);
            let m = p.monitors.iter().find(|m| v["monitor"] == m.name).expect("monitor");
            let seed = u64::from_str_radix(v["case_seed"].as_str().unwrap(), 16).unwrap();
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let (r, input) = run_case(m, seed, v["index"].as_u64().unwrap_or(0), tier, &mut Obs::default(), true);
            println!("input: {input}");
            match r {
                Ok(()) => {
                    println!("held");
                    std::process::exit(0)
                }
                Err(Fail::Violation { msg, .. }) => {
                    println!("{msg}\nVIOLATION property={id} replay={}", args[2]);
                    std::process::exit(1)
                }
                Err(Fail::Undecided(why)) => {
                    println!("undecided: {why}");
                    std::process::exit(2)
                }
            }
        }
        Some("run") => {
            let id = args[2].clone();
            let p = find(&id);
            let o = Opts { id: id.clone(), tier, seed, dir };
            let prog = o.dir.join("build").join(format!("progress-{}-{}", id, std::process::id()));
            let _ = std::fs::write(&prog, vec![0u8; 16 * 64]);
            let exe = std::env::current_exe().expect("exe");
            // A memory bound on the child turns runaway allocation into an observed abort.
            let st = Command::new("sh")
                .args(["-c", "ulimit -v ${MON_VMEM:-16000000}; exec \"$0\" work \"$1\""])
                .arg(&exe)
                .arg(&id)
                .env("MON_PROGRESS", &prog)
                .stdin(Stdio::null())
                .status();
            let slots = std::fs::read(&prog).unwrap_or_default();
            let _ = std::fs::remove_file(&prog);
            let st = st.expect("spawn");
            let Some(sig) = st.signal() else { std::process::exit(st.code().unwrap_or(2)) };
            eprintln!("worker ended by signal {sig}");
            let mut code = 2;
            if [4, 6, 7, 8, 11].contains(&sig) {
                for c in slots.chunks(16) {
                    let mi = u64::from_le_bytes(c[..8].try_into().unwrap());
                    let i = u64::from_le_bytes(c[8..].try_into().unwrap());
                    if mi == 0 {
                        continue;
                    }
                    let m = &p.monitors[mi as usize - 1];
                    let s = case_seed(seed, m, i);
                    let r = Command::new("sh")
                        .args(["-c", "ulimit -v ${MON_VMEM:-16000000}; exec \"$0\" one \"$1\" \"$2\" \"$3\" \"$4\""])
                        .arg(&exe)
                        .args([&id, m.name, &i.to_string(), &format!("{s:016x}")])
                        .stdin(Stdio::null())
                        .status();
                    if let Some(sig) = r.ok().and_then(|r| r.signal()).filter(|s| [4, 6, 7, 8, 11].contains(s)) {
                        let f = Found { monitor: m.name, index: i, seed: s, key: format!("signal-{sig}"), msg: format!("the process died of signal {sig}") };
                        let path = replay_file(&o, &f, "");
                        println!("{}[{}]: {}", f.monitor, f.index, f.msg);
                        println!("VIOLATION property={} replay={}", o.id, path.display());
                        evidence(p, &o, &Obs::default(), 0, &[], 1, 0.0, false);
                        code = 1;
                        break;
                    }
                }
            }
            if code == 2 {
                println!("UNDECIDED property={id} worker ended by signal {sig}, which no single case reproduces");
            }
            std::process::exit(code)
        }
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            std::process::exit(3)
        }
    }
}
