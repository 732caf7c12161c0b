//! Runner: workload scheduling, panics, hang watchdog, verdicts, evidence.
use chrono::NaiveDate;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for x in [stream, idx] {
            r.0 = r.u64() ^ x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        }
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// integer in a..=b
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) {
            1.0
        } else {
            -1.0
        }
    }
    /// log-uniform in [a,b], a > 0
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.uni(a.ln(), b.ln())).exp()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- hashing of inputs
pub trait Feed {
    fn feed(&self, h: &mut u64);
}
fn mix(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    *h ^= *h >> 29;
}
macro_rules! feed_int { ($($t:ty),*) => { $(impl Feed for $t { fn feed(&self, h: &mut u64) { mix(h, *self as u64) } })* } }
feed_int!(i32, i64, u32, u64, usize, bool, u8);
impl Feed for f64 {
    fn feed(&self, h: &mut u64) {
        mix(h, self.to_bits())
    }
}
impl Feed for str {
    fn feed(&self, h: &mut u64) {
        for b in self.bytes() {
            mix(h, b as u64)
        }
    }
}
impl Feed for String {
    fn feed(&self, h: &mut u64) {
        self.as_str().feed(h)
    }
}
impl Feed for NaiveDate {
    fn feed(&self, h: &mut u64) {
        mix(h, crate::cal::dayno(*self) as u64)
    }
}
impl<T: Feed + ?Sized> Feed for &T {
    fn feed(&self, h: &mut u64) {
        (*self).feed(h)
    }
}
impl<T: Feed> Feed for Vec<T> {
    fn feed(&self, h: &mut u64) {
        mix(h, self.len() as u64);
        for x in self {
            x.feed(h)
        }
    }
}
impl<T: Feed> Feed for Option<T> {
    fn feed(&self, h: &mut u64) {
        mix(h, self.is_some() as u64);
        if let Some(x) = self {
            x.feed(h)
        }
    }
}
impl<A: Feed, B: Feed> Feed for (A, B) {
    fn feed(&self, h: &mut u64) {
        self.0.feed(h);
        self.1.feed(h);
    }
}
impl<A: Feed, B: Feed, C: Feed> Feed for (A, B, C) {
    fn feed(&self, h: &mut u64) {
        self.0.feed(h);
        self.1.feed(h);
        self.2.feed(h);
    }
}
impl<A: Feed, B: Feed, C: Feed, D: Feed> Feed for (A, B, C, D) {
    fn feed(&self, h: &mut u64) {
        self.0.feed(h);
        self.1.feed(h);
        self.2.feed(h);
        self.3.feed(h);
    }
}
impl<T: Feed> Feed for BTreeSet<T> {
    fn feed(&self, h: &mut u64) {
        for x in self {
            x.feed(h)
        }
    }
}
impl<K: Feed, V: Feed> Feed for BTreeMap<K, V> {
    fn feed(&self, h: &mut u64) {
        for (k, v) in self {
            k.feed(h);
            v.feed(h);
        }
    }
}
impl<K: Feed, V: Feed> Feed for HashMap<K, V> {
    fn feed(&self, h: &mut u64) {
        let mut acc = 0u64;
        for (k, v) in self {
            let mut g = 7;
            k.feed(&mut g);
            v.feed(&mut g);
            acc = acc.wrapping_add(g);
        }
        mix(h, acc);
    }
}

// ---------------------------------------------------------------- a case
#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type Res = Result<(), Viol>;

pub struct Cx {
    pub rng: Rng,
    /// index within the structured part, or None in the random part
    pub fixed: Option<u64>,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub text: Vec<String>,
    pub sig: u64,
    pub trivial: bool,
    pub checks: u64,
    pub tags: HashMap<&'static str, u64>,
    pub known: Vec<(&'static str, String)>,
}

impl Cx {
    /// Declare an input of the case: hashed for distinctness, printed when replayed.
    pub fn inp<T: Feed + Debug>(&mut self, name: &str, v: T) {
        v.feed(&mut self.sig);
        if self.verbose {
            self.text.push(format!("{name} = {v:?}"));
        }
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
    pub fn close(&mut self, what: impl std::fmt::Display, got: f64, want: f64, tol: f64) -> Res {
        self.checks += 1;
        // also false when got is NaN
        if (got - want).abs() <= tol || got == want {
            Ok(())
        } else {
            Err(Viol(format!("{what}: got {got:?}, expected {want:?} (tolerance {tol:e})")))
        }
    }
    /// relative closeness with a scale
    pub fn rel(&mut self, what: impl std::fmt::Display, got: f64, want: f64, rel: f64) -> Res {
        self.close(what, got, want, rel * want.abs() + 1e-290)
    }
    pub fn that(&mut self, what: impl std::fmt::Display, ok: bool) -> Res {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            Err(Viol(what.to_string()))
        }
    }
    pub fn that_with(&mut self, ok: bool, what: impl FnOnce() -> String) -> Res {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            Err(Viol(what()))
        }
    }
    pub fn same<T: PartialEq + Debug>(&mut self, what: impl std::fmt::Display, got: T, want: T) -> Res {
        self.checks += 1;
        if got == want {
            Ok(())
        } else {
            Err(Viol(format!("{what}: got {got:?}, expected {want:?}")))
        }
    }
    /// A listed deviation was observed: suppressed only if the known-findings file names it.
    pub fn known(&mut self, sig: &'static str, msg: String) {
        self.known.push((sig, msg));
    }
}

thread_local! {
    static IN_LIB: RefCell<u32> = const { RefCell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Run library code: a panic there is a result the monitor judges, not a harness failure.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|x| *x.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| *x.borrow_mut() -= 1);
    r.map_err(|_| LAST.with(|x| x.borrow().clone()))
}
#[macro_export]
macro_rules! lib {
    ($what:expr, $e:expr) => {
        $crate::core::guarded(|| $e)
            .map_err(|p| $crate::core::Viol(format!("{} panicked: {}", $what, p)))?
    };
}
pub fn install_hook() {
    let dflt = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_LIB.with(|x| *x.borrow()) > 0 {
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let l = i.location().map(|l| l.to_string()).unwrap_or_default();
            LAST.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
        } else {
            dflt(i);
        }
    }));
}

// ---------------------------------------------------------------- a property
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of structured (enumerated) cases: (quick, thorough)
    pub fixed: (u64, u64),
    /// number of random cases: (quick, thorough)
    pub random: (u64, u64),
    /// coverage points the workload must have reached for the run to count
    pub need: &'static [&'static str],
    pub case: fn(&mut Cx) -> Res,
    pub assumptions: &'static [&'static str],
}

fn stream(id: &str) -> u64 {
    let mut h = 0x1234_5678;
    id.feed(&mut h);
    h
}

pub struct CaseRun {
    pub cx: Cx,
    pub res: Result<Res, String>, // outer Err: harness panic
}
/// case numbering: 0..fixed are structured, then random
pub fn run_case(p: &Prop, seed: u64, thorough: bool, idx: u64, verbose: bool) -> CaseRun {
    let nf = if thorough { p.fixed.1 } else { p.fixed.0 };
    let mut cx = Cx {
        rng: Rng::new(seed, stream(p.id), idx),
        fixed: if idx < nf { Some(idx) } else { None },
        idx,
        thorough,
        verbose,
        text: vec![],
        sig: 0x51_7c_c1,
        trivial: false,
        checks: 0,
        tags: HashMap::new(),
        known: vec![],
    };
    let res = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut cx)))
        .map_err(|_| "harness panic".to_string());
    CaseRun { cx, res }
}

// ---------------------------------------------------------------- per-thread CPU clocks
#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
}
pub fn cpu_of(clock: i32) -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(clock, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
pub fn my_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok()))
        .unwrap_or(0.0)
        * 4096.0
        / 1e9
}

/// CPU seconds a single case may use before it counts as not returning (typical: < 1 ms).
pub const HANG_CPU_S: f64 = 30.0;
const MEM_GB: f64 = 12.0;

pub struct Tally {
    pub evaluations: u64,
    pub checks: u64,
    pub distinct: HashSet<u64>,
    pub trivial: u64,
    pub tags: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, (u64, u64, String)>, // sig -> count, first idx, msg
    pub viol: Option<(u64, String)>,
    pub broken: Option<(u64, String)>,
}

impl Tally {
    fn new() -> Tally {
        Tally {
            evaluations: 0,
            checks: 0,
            distinct: HashSet::new(),
            trivial: 0,
            tags: BTreeMap::new(),
            known: BTreeMap::new(),
            viol: None,
            broken: None,
        }
    }
}

pub fn write_replay(id: &str, seed: u64, thorough: bool, idx: u64, msg: &str, inputs: &[String]) -> String {
    let dir = format!("{VERIF}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-s{seed}-{}-{idx}.json", if thorough { "t" } else { "q" });
    let v = serde_json::json!({
        "property": id, "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "case": idx,
        "violation": msg, "inputs": inputs,
        "replay_cmd": format!("/verif/check.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path
}
pub fn violation(id: &str, path: &str, msg: &str, inputs: &[String]) {
    println!("property {id} is violated: {msg}");
    for i in inputs {
        println!("  {}", i.chars().take(600).collect::<String>());
    }
    println!("VIOLATION property={id} replay={path}");
}

struct Slot {
    case: AtomicU64, // idx + 1, 0 = idle
    cpu0: AtomicU64, // CPU time (us) at the start of the case
    clock: AtomicI32,
}

pub fn known_listed(id: &str, sig: &str) -> bool {
    let t = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
    t.lines().any(|l| l.starts_with(&format!("finding: property={id} id={sig} ")))
}

pub fn run(p: &'static Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let nf = if thorough { p.fixed.1 } else { p.fixed.0 };
    let nr = if thorough { p.random.1 } else { p.random.0 };
    let total = nf + nr;
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot { case: AtomicU64::new(0), cpu0: AtomicU64::new(0), clock: AtomicI32::new(0) })
            .collect(),
    );
    let tally = Arc::new(Mutex::new(Tally::new()));
    let done = Arc::new(AtomicU64::new(0));
    let chunk = (total / (threads as u64 * 16)).clamp(1, 4096);
    for w in 0..threads {
        let (next, stop, slots, tally, done) =
            (next.clone(), stop.clone(), slots.clone(), tally.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let ck = my_clock();
                slots[w].clock.store(ck, SeqCst);
                let mut loc = Tally::new();
                'outer: loop {
                    let a = next.fetch_add(chunk, SeqCst);
                    if a >= total {
                        break;
                    }
                    for idx in a..(a + chunk).min(total) {
                        if stop.load(Relaxed) {
                            break 'outer;
                        }
                        slots[w].cpu0.store((cpu_of(ck) * 1e6) as u64, SeqCst);
                        slots[w].case.store(idx + 1, SeqCst);
                        let r = run_case(p, seed, thorough, idx, false);
                        slots[w].case.store(0, SeqCst);
                        loc.evaluations += 1;
                        loc.checks += r.cx.checks;
                        if r.cx.trivial {
                            loc.trivial += 1;
                        } else if loc.distinct.len() < 4_000_000 {
                            loc.distinct.insert(r.cx.sig);
                        }
                        for (t, n) in r.cx.tags {
                            *loc.tags.entry(t).or_insert(0) += n;
                        }
                        for (s, m) in r.cx.known {
                            let e = loc.known.entry(s).or_insert((0, idx, m));
                            e.0 += 1;
                        }
                        match r.res {
                            Ok(Ok(())) => (),
                            Ok(Err(v)) => {
                                loc.viol = Some((idx, v.0));
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                            Err(e) => {
                                loc.broken = Some((idx, e));
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                        }
                    }
                }
                let mut t = tally.lock().unwrap();
                t.evaluations += loc.evaluations;
                t.checks += loc.checks;
                t.trivial += loc.trivial;
                t.distinct.extend(loc.distinct);
                for (k, v) in loc.tags {
                    *t.tags.entry(k).or_insert(0) += v;
                }
                for (k, v) in loc.known {
                    let e = t.known.entry(k).or_insert((0, v.1, v.2.clone()));
                    e.0 += v.0;
                    if v.1 < e.1 {
                        e.1 = v.1;
                        e.2 = v.2;
                    }
                }
                if let Some(v) = loc.viol {
                    if t.viol.as_ref().map_or(true, |o| v.0 < o.0) {
                        t.viol = Some(v);
                    }
                }
                if loc.broken.is_some() {
                    t.broken = loc.broken;
                }
                drop(t);
                done.fetch_add(1, SeqCst);
            })
            .expect("spawn");
    }
    // watchdog: CPU time of the worker, so that a loaded machine cannot cause an alarm
    let wall_cap = if thorough { 4 * 3600 } else { 800 };
    let mut stuck: Option<(u64, String)> = None;
    while done.load(SeqCst) < threads as u64 {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let c = s.case.load(SeqCst);
            if c == 0 {
                continue;
            }
            let used = cpu_of(s.clock.load(SeqCst)) - s.cpu0.load(SeqCst) as f64 * 1e-6;
            if used > HANG_CPU_S && s.case.load(SeqCst) == c {
                stuck = Some((c - 1, format!("a call did not return within {HANG_CPU_S} CPU seconds (a case normally takes well under a millisecond)")));
            }
        }
        if rss_gb() > MEM_GB {
            let c = slots.iter().map(|s| s.case.load(SeqCst)).find(|c| *c > 0).unwrap_or(1);
            stuck = Some((c - 1, format!("memory grew beyond {MEM_GB} GB while running a case")));
        }
        if stuck.is_some() {
            break;
        }
        if t0.elapsed().as_secs() > wall_cap {
            println!("INCONCLUSIVE property={} wall-clock cap of {wall_cap} s reached", p.id);
            return 3;
        }
    }
    if let Some((idx, msg)) = stuck {
        let path = write_replay(p.id, seed, thorough, idx, &msg, &[]);
        violation(p.id, &path, &msg, &[format!("case {idx} (replaying it does not return)")]);
        evidence(p, seed, thorough, &None, t0, 1, &[]);
        return 1;
    }
    let t = std::mem::replace(&mut *tally.lock().unwrap(), Tally::new());
    if let Some((idx, m)) = &t.broken {
        println!("INCONCLUSIVE property={} harness failure in case {idx}: {m}", p.id);
        return 3;
    }
    // samples: some cases of this run, written out
    let mut samples = vec![];
    for idx in [0, nf / 2, nf, nf + nr / 3, nf + nr.saturating_sub(1)] {
        if idx < total && samples.len() < 4 && t.viol.is_none() {
            let r = run_case(p, seed, thorough, idx, true);
            let s: String = r.cx.text.join("; ").chars().take(500).collect();
            samples.push(serde_json::json!({"case": idx, "input": s, "comparisons": r.cx.checks}));
        }
    }
    let mut code = 0;
    if let Some((idx, msg)) = &t.viol {
        let r = run_case(p, seed, thorough, *idx, true);
        samples.push(serde_json::json!({"case": idx, "violation": msg, "input": r.cx.text.join("; ").chars().take(2000).collect::<String>()}));
        let path = write_replay(p.id, seed, thorough, *idx, msg, &r.cx.text);
        violation(p.id, &path, msg, &r.cx.text);
        code = 1;
    }
    for (sig, (n, idx, msg)) in &t.known {
        if known_listed(p.id, sig) {
            println!("KNOWN-FINDING: property={} id={sig} {msg} ({n} cases of this run, first {idx})", p.id);
        } else if code == 0 {
            let r = run_case(p, seed, thorough, *idx, true);
            let path = write_replay(p.id, seed, thorough, *idx, msg, &r.cx.text);
            violation(p.id, &path, msg, &r.cx.text);
            code = 1;
        }
    }
    if code == 0 {
        let missing: Vec<_> = p.need.iter().filter(|n| !t.tags.contains_key(**n)).collect();
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={} coverage points never reached: {missing:?}", p.id);
            return 3;
        }
        println!(
            "HELD property={} on {} executions ({} distinct non-trivial, {} oracle comparisons), seed {seed}, {:.1}s",
            p.id,
            t.evaluations,
            t.distinct.len(),
            t.checks,
            t0.elapsed().as_secs_f64()
        );
    }
    evidence(p, seed, thorough, &Some(t), t0, code, &samples);
    code
}

fn evidence(p: &Prop, seed: u64, thorough: bool, t: &Option<Tally>, t0: Instant, code: i32, samples: &[serde_json::Value]) {
    let mut cov = serde_json::json!({ "rule": p.rule, "samples": samples });
    if let Some(t) = t {
        cov["evaluations"] = t.evaluations.into();
        cov["distinct_nontrivial"] = (t.distinct.len() as u64).into();
        cov["oracle_comparisons"] = t.checks.into();
        cov["trivial_cases"] = t.trivial.into();
        cov["coverage_points"] = serde_json::json!(t.tags);
        cov["known_findings_seen"] = serde_json::json!(t.known.iter().map(|(k, v)| (k.to_string(), v.0)).collect::<BTreeMap<_, _>>());
    } else {
        cov["evaluations"] = 0.into();
        cov["distinct_nontrivial"] = 0.into();
    }
    write_evidence(p.id, seed, thorough, cov, p.assumptions, t0, code);
}
pub fn write_evidence(id: &str, seed: u64, thorough: bool, cov: serde_json::Value, assumptions: &[&str], t0: Instant, code: i32) {
    let v = serde_json::json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": "exploration", "coverage": cov, "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if code == 1 {1} else {0},
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{id}.json"), serde_json::to_string_pretty(&v).unwrap() + "\n")
        .expect("write evidence");
}

pub fn replay(p: &Prop, seed: u64, thorough: bool, idx: u64) -> i32 {
    let r = run_case(p, seed, thorough, idx, true);
    for t in &r.cx.text {
        println!("  {t}");
    }
    for (s, m) in &r.cx.known {
        println!("known-finding signature {s}: {m}");
    }
    match r.res {
        Ok(Ok(())) => {
            println!("case {idx} of {} holds on the current tree", p.id);
            0
        }
        Ok(Err(v)) => {
            println!("case {idx} of {} is violated: {}", p.id, v.0);
            1
        }
        Err(e) => {
            println!("harness failure: {e}");
            3
        }
    }
}
