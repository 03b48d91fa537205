//! The monitor runtime: runs probes case by case, watches each case (oracle result, unexpected
//! panics, hangs), counts what was observed and reports violations.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        OnceLock,
    },
    time::Duration,
};

use crate::{
    rng::{hash_str, mix, Rng},
    sys,
};

/// The result of one case: `Err` is a violation with an explanation
pub type R = Result<(), String>;

pub struct Case {
    pub rng: Rng,
    /// The index of this case within its probe (exhaustive probes decode it)
    pub idx: u64,
    /// The total number of cases of this probe in this run
    pub verbose: bool,
    pub log: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    sigs: Vec<u64>,
    answers: Vec<u64>,
    pub thorough: bool,
}

/// Whether cases have to be small (interpreters are thousands of times slower).  What a case does is the same in
/// every build and on every machine, apart from this
pub fn small() -> bool {
    static SMALL: OnceLock<bool> = OnceLock::new();
    *SMALL.get_or_init(|| cfg!(miri) || std::env::var_os("BFMON_SMALL").is_some())
}

impl Case {
    /// Log something about this case.  Only evaluated when a case is being described.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.log.len() < 400 {
            let s = f();
            self.log.push(s);
        }
    }
    /// Count an observed event
    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    /// Record an answer which has to be the same in every build and on every machine
    pub fn answer(&mut self, h: u64) {
        self.answers.push(h);
    }
    /// Record that this case observed something non-trivial, with a signature which identifies it
    pub fn sig(&mut self, h: u64) {
        self.sigs.push(h);
    }
}

#[derive(Clone, Copy)]
pub struct Probe {
    pub name: &'static str,
    /// Number of cases in a quick run
    pub quick: u64,
    /// Number of cases in a thorough run (`u64::MAX`: until the time is used up)
    pub thorough: u64,
    /// If true, cases are decoded from the index, so are only run by shard 0 and never more than
    /// `quick`/`thorough` times
    pub exhaustive: bool,
    pub f: fn(&mut Case) -> R,
}

pub const fn random(name: &'static str, quick: u64, f: fn(&mut Case) -> R) -> Probe {
    Probe { name, quick, thorough: u64::MAX, exhaustive: false, f }
}
pub const fn exhaustive(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case) -> R) -> Probe {
    Probe { name, quick, thorough, exhaustive: true, f }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".to_owned());
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        // Panics which can't unwind are about to abort the process, so say why
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("NONUNWINDING PANIC: {}{}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

/// Run something which may panic, returning the panic's message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Violation {
    pub probe: &'static str,
    pub idx: u64,
    pub msg: String,
    pub log: Vec<String>,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub shard: u64,
    pub thorough: bool,
    pub budget: f64,
    pub out: Option<String>,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub hang_s: u64,
    /// Run the workload only for the sake of the instrument it runs under: nothing is judged
    pub mem: bool,
    /// Run only a sample of the cases of exhaustive probes
    pub sample: bool,
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub evaluations: u64,
    pub per_probe: Vec<(&'static str, u64, bool)>,
    pub counts: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub sig_total: u64,
    /// The answers of each case, in a line
    pub answers: String,
}

// What the watchdog looks at
static CASE_STARTED_MS: AtomicU64 = AtomicU64::new(0);
static CASE_PROBE: AtomicU64 = AtomicU64::new(0);
static CASE_IDX: AtomicU64 = AtomicU64::new(0);

const MAX_SIGS: usize = 1_000_000;

fn run_case(p: &Probe, o: &Opts, idx: u64, verbose: bool) -> (Case, R) {
    // Exhaustive probes don't depend on the shard
    let shard = if p.exhaustive { 0 } else { o.shard };
    // ... except when only a sample of the cases can be run
    let idx = if p.exhaustive && o.sample { mix(idx ^ mix(o.shard ^ o.seed << 20)) % p.quick } else { idx };
    let seed = mix(o.seed) ^ mix(hash_str(&o.prop) ^ hash_str(p.name)) ^ mix(idx.wrapping_mul(31)) ^ mix(shard + 77);
    let mut c = Case {
        rng: Rng::new(seed),
        idx,
        verbose,
        log: vec![],
        counts: BTreeMap::new(),
        sigs: vec![],
        answers: vec![],
        thorough: o.thorough,
    };
    let r = match guard(|| (p.f)(&mut c)) {
        Ok(r) => r,
        Err(panic_msg) => Err(format!("unexpected panic: {}", panic_msg)),
    };
    let r = match r {
        Err(_) if o.mem => Ok(c.count("results not judged")),
        r => r,
    };
    (c, r)
}

fn elapsed_ms(start: f64) -> u64 {
    ((sys::now() - start) * 1000.0) as u64
}

pub fn run(probes: &[Probe], o: &Opts, state_file: Option<&sys::State>) -> Outcome {
    let start = sys::now();
    let mut out = Outcome {
        violations: vec![],
        evaluations: 0,
        per_probe: vec![],
        counts: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: vec![],
        sig_total: 0,
        answers: String::new(),
    };

    let names: Vec<&'static str> = probes.iter().map(|p| p.name).collect();
    let hang = o.hang_s;
    let prop = o.prop.clone();
    if hang > 0 && !cfg!(target_family = "wasm") {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = CASE_STARTED_MS.load(Ordering::SeqCst);
            if s != 0 && elapsed_ms(start) > s + hang * 1000 {
                println!(
                    "HANG {} {} {}",
                    prop,
                    names[CASE_PROBE.load(Ordering::SeqCst) as usize],
                    CASE_IDX.load(Ordering::SeqCst)
                );
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
        });
    }

    let one = |pi: usize, idx: u64, verbose: bool| -> (Case, R) {
        CASE_PROBE.store(pi as u64, Ordering::SeqCst);
        CASE_IDX.store(idx, Ordering::SeqCst);
        CASE_STARTED_MS.store((elapsed_ms(start)).max(1), Ordering::SeqCst);
        if let Some(f) = state_file {
            f.set(pi, idx);
        }
        let r = run_case(&probes[pi], o, idx, verbose);
        CASE_STARTED_MS.store(0, Ordering::SeqCst);
        r
    };

    if let Some((name, idx)) = &o.only {
        let pi = probes.iter().position(|p| p.name == *name).expect("no such probe");
        let (c, r) = one(pi, *idx, true);
        for l in &c.log {
            sys::print(&format!("  {}", l));
        }
        out.evaluations = 1;
        if let Err(msg) = r {
            out.violations.push(Violation { probe: probes[pi].name, idx: *idx, msg, log: c.log });
        }
        return out;
    }

    let limits: Vec<u64> = probes
        .iter()
        .map(|p| match (p.exhaustive, o.thorough) {
            (true, false) => p.quick,
            (true, true) => p.thorough,
            (false, true) => p.thorough,
            (false, false) => ((p.quick as f64 * o.scale) as u64).max(1),
        })
        .collect();
    let mut done = vec![0u64; probes.len()];
    // Exhaustive probes are run by shards 0 and 1 only (one shard of each build profile)
    let active: Vec<bool> = probes.iter().map(|p| !p.exhaustive || o.sample || o.shard < 2).collect();
    let mut samples_of = vec![0; probes.len()];
    let trace = sys::env("BFMON_TRACE");
    'outer: loop {
        let mut progressed = false;
        for pi in 0..probes.len() {
            if !active[pi] {
                continue;
            }
            if trace {
                eprintln!("{:8.2}s {} (done {})", (sys::now() - start), probes[pi].name, done[pi]);
            }
            // Every probe gets an equal slice of time in each round (and at least one case)
            let slice_start = sys::now();
            while done[pi] < limits[pi] {
                let idx = done[pi];
                let verbose = !cfg!(miri) && samples_of[pi] < 2;
                let (c, r) = one(pi, idx, verbose);
                done[pi] += 1;
                progressed = true;
                out.evaluations += 1;
                for (k, v) in c.counts {
                    *out.counts.entry(k).or_insert(0) += v;
                }
                if !c.answers.is_empty() {
                    let _ = write!(out.answers, "{} {}", probes[pi].name, idx);
                    for a in &c.answers {
                        let _ = write!(out.answers, " {:x}", a);
                    }
                    out.answers.push('\n');
                }
                out.sig_total += c.sigs.len() as u64;
                for s in c.sigs {
                    if out.sigs.len() < MAX_SIGS {
                        out.sigs.insert(mix(s ^ hash_str(probes[pi].name)));
                    }
                }
                if verbose && !c.log.is_empty() && r.is_ok() {
                    samples_of[pi] += 1;
                    let mut l = c.log;
                    l.truncate(6);
                    let s: String = l.join("; ").chars().take(400).collect();
                    out.samples.push(format!("{}#{}: {}", probes[pi].name, idx, s));
                }
                if let Err(msg) = r {
                    let (c, _) = one(pi, idx, true);
                    out.violations.push(Violation { probe: probes[pi].name, idx, msg, log: c.log });
                    if out.violations.len() >= if cfg!(miri) { 1 } else { 5 } {
                        break 'outer;
                    }
                }
                if (sys::now() - start) > o.budget {
                    break 'outer;
                }
                if sys::now() - slice_start > 0.25 {
                    break;
                }
            }
        }
        if !progressed {
            break;
        }
    }
    out.per_probe = probes
        .iter()
        .enumerate()
        .map(|(i, p)| (p.name, done[i], p.exhaustive && done[i] == limits[i]))
        .collect();
    out
}

/// Equality oracle
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

#[macro_export]
macro_rules! ensure {
    ($a:expr, $($arg:tt)*) => {{
        if !$a {
            return Err(format!($($arg)*));
        }
    }};
}
