//! C34: results depend only on the arguments. Runs a list of calls in fresh processes, in different
//! orders, on many threads, with racing first use, under ThreadSanitizer and Miri, and compares.
#![allow(dead_code)]
#[path = "../cal.rs"]
mod cal;
#[path = "../calls.rs"]
mod calls;
#[path = "../core.rs"]
mod core;
#[path = "../gen.rs"]
mod gen;
#[path = "../model.rs"]
mod model;

use calls::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::core::{install_hook, violation, write_evidence, Rng, VERIF};

type Call = (usize, u64, u64);

/// the list of calls: full, or a small one for the slow monitors
fn list(small: bool, thorough: bool) -> Vec<Call> {
    let mut v = vec![];
    for (i, f) in FAMS.iter().enumerate() {
        let (g, n) = match (small, f.cost) {
            (true, 0) => (2, 3),
            (true, _) => (2, 2),
            (_, 0) => (if thorough { 120 } else { 24 }, 24),
            (_, 1) => (if thorough { 60 } else { 16 }, 12),
            (_, _) => (if thorough { 30 } else { 10 }, 12),
        };
        for k in 0..g {
            for m in 0..n {
                v.push((i, k, m));
            }
        }
    }
    v
}
fn order(l: &[Call], seed: u64, perm: u64) -> Vec<u32> {
    let mut v: Vec<u32> = (0..l.len() as u32).collect();
    match perm {
        0 => (),
        1 => v.reverse(),
        2 => v.sort_by_key(|&i| (l[i as usize].2, l[i as usize].1)), // one family after the other, call by call
        3 => v.sort_by_key(|&i| (l[i as usize].0, l[i as usize].1, u64::MAX - l[i as usize].2)), // variants first
        4 => v.sort_by_key(|&i| (l[i as usize].0, u64::MAX - l[i as usize].1, l[i as usize].2)),
        // the base arguments before (5) or after (6) every variant of them
        5 | 6 => {
            let mut base = 0;
            let mut w = Vec::with_capacity(2 * v.len());
            for i in v {
                if l[i as usize].2 == 0 {
                    base = i;
                }
                w.extend(if perm == 5 { [base, i] } else { [i, base] });
            }
            v = w;
        }
        // every call twice running
        7 => v = v.into_iter().flat_map(|i| [i, i]).collect(),
        _ => Rng::new(seed, 0xC34, perm).shuffle(&mut v),
    }
    v
}
/// one function called very many times: beyond any 16 bit counter for the cheap ones
fn hammer(l: &[Call], fam: usize) -> Vec<u32> {
    let own: Vec<u32> = (0..l.len() as u32).filter(|i| l[*i as usize].0 == fam).collect();
    let n = [70_000, 6_000, 2_500, 1_200][FAMS[fam].cost as usize];
    (0..n).map(|k| own[k * 7 % own.len()]).collect()
}

// ---------------------------------------------------------------- reference file
fn write_ref(path: &str, seed: u64, l: &[Call]) {
    let mut body: Vec<u8> = vec![];
    let mut head: Vec<u8> = vec![];
    let base = 8 * (l.len() as u64 + 1);
    for c in l {
        head.extend((base + body.len() as u64).to_le_bytes());
        let x = call(seed, c.0, c.1, c.2);
        body.extend((x.nums.len() as u64).to_le_bytes());
        for n in &x.nums {
            body.extend(n.to_bits().to_le_bytes());
        }
        body.extend(x.text.as_bytes());
    }
    head.extend((base + body.len() as u64).to_le_bytes());
    head.extend(body);
    std::fs::write(path, head).expect("write reference");
}
fn read_one(f: &std::fs::File, i: u32) -> Out {
    let mut h = [0u8; 16];
    f.read_exact_at(&mut h, 8 * i as u64).expect("reference");
    let a = u64::from_le_bytes(h[..8].try_into().unwrap());
    let b = u64::from_le_bytes(h[8..].try_into().unwrap());
    let mut v = vec![0u8; (b - a) as usize];
    f.read_exact_at(&mut v, a).expect("reference");
    let n = u64::from_le_bytes(v[..8].try_into().unwrap()) as usize;
    Out {
        nums: (0..n).map(|k| f64::from_bits(u64::from_le_bytes(v[8 + 8 * k..16 + 8 * k].try_into().unwrap()))).collect(),
        text: String::from_utf8(v[8 + 8 * n..].to_vec()).unwrap(),
    }
}
fn diff(seed: u64, c: Call, got: &Out, want: &Out, wher: &str) -> Option<String> {
    got.same(want).err().map(|e| format!("{}(group {}, variant {}, seed {seed}) {wher}: {e}", FAMS[c.0].name, c.1, c.2))
}

// ---------------------------------------------------------------- child modes
struct Gate {
    ready: AtomicUsize,
    go: AtomicBool,
}
fn spin(n: u64) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}
struct Job {
    todo: Vec<u32>,
    delay: u64,
    noise: bool,
    salt: u64,
}
/// Start all jobs together; returns per thread the results and the time span of its first call.
fn concurrent(seed: u64, l: &Arc<Vec<Call>>, jobs: Vec<Job>, check: Option<Arc<std::fs::File>>) -> (Vec<String>, Vec<Vec<(u32, Out)>>, Vec<(Instant, Instant)>, BTreeSet<(u32, u32)>, u64) {
    let t = jobs.len();
    let gate = Arc::new(Gate { ready: AtomicUsize::new(0), go: AtomicBool::new(false) });
    let now: Arc<Vec<AtomicU32>> = Arc::new((0..t).map(|_| AtomicU32::new(u32::MAX)).collect());
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(w, j)| {
            let (gate, l, now, check) = (gate.clone(), l.clone(), now.clone(), check.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut r = Rng::new(seed, 0xB00, j.salt);
                    let (mut bad, mut outs, mut pairs) = (vec![], vec![], BTreeSet::new());
                    let mut first = None;
                    let mut n = 0u64;
                    gate.ready.fetch_add(1, Relaxed);
                    while !gate.go.load(Relaxed) {
                        std::thread::yield_now();
                    }
                    spin(j.delay);
                    for i in j.todo {
                        let c = l[i as usize];
                        now[w].store(c.0 as u32, Relaxed);
                        for (k, o) in now.iter().enumerate() {
                            let o = o.load(Relaxed);
                            if k != w && o != u32::MAX {
                                pairs.insert((o.min(c.0 as u32), o.max(c.0 as u32)));
                            }
                        }
                        let a = Instant::now();
                        let x = call(seed, c.0, c.1, c.2);
                        let b = Instant::now();
                        now[w].store(u32::MAX, Relaxed);
                        n += 1;
                        if first.is_none() {
                            first = Some((a, b));
                        }
                        match &check {
                            Some(f) => {
                                if let Some(d) = diff(seed, c, &x, &read_one(f, i), &format!("in thread {w} of {t}")) {
                                    bad.push(d);
                                    if bad.len() > 4 {
                                        break;
                                    }
                                }
                            }
                            None => outs.push((i, x)),
                        }
                        if j.noise {
                            match r.below(6) {
                                0 => std::thread::yield_now(),
                                1 => spin(r.u64() % 400),
                                _ => (),
                            }
                        }
                    }
                    (bad, outs, first, pairs, n)
                })
                .expect("spawn")
        })
        .collect();
    while gate.ready.load(Relaxed) < t {
        std::thread::yield_now();
    }
    gate.go.store(true, Relaxed);
    let (mut bad, mut outs, mut spans, mut pairs, mut n) = (vec![], vec![], vec![], BTreeSet::new(), 0);
    for h in hs {
        match h.join() {
            Ok((b, o, f, p, k)) => {
                bad.extend(b);
                outs.push(o);
                spans.extend(f);
                pairs.extend(p);
                n += k;
            }
            Err(_) => bad.push("a thread of the harness failed".into()),
        }
    }
    (bad, outs, spans, pairs, n)
}
fn overlaps(s: &[(Instant, Instant)]) -> bool {
    s.iter().enumerate().any(|(i, a)| s[..i].iter().any(|b| a.0 < b.1 && b.0 < a.1))
}
fn lazy_ids(l: &[Call]) -> Vec<u32> {
    (0..l.len() as u32).filter(|i| FAMS[l[*i as usize].0].lazy).collect()
}
fn race_jobs(seed: u64, l: &[Call], k: u64, max_t: usize, per: usize) -> Vec<Job> {
    let mut r = Rng::new(seed, 0x4ACE, k);
    let lz = lazy_ids(l);
    let t = 2 + r.below(max_t - 1);
    // sometimes all threads start with the same function
    let same = r.chance(0.3).then(|| r.pick(&lz));
    (0..t)
        .map(|w| Job {
            todo: (0..per).map(|q| if q == 0 { same.unwrap_or_else(|| r.pick(&lz)) } else { r.below(l.len()) as u32 }).collect(),
            delay: if r.chance(0.5) { 0 } else { r.u64() % 3000 },
            noise: true,
            salt: k * 64 + w as u64,
        })
        .collect()
}
/// argv: mode REF seed small thorough params...
fn child(a: &[String]) -> i32 {
    let (mode, rf) = (a[0].as_str(), a[1].as_str());
    let p = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, small, thorough) = (p(2), p(3) == 1, p(4) == 1);
    let l = Arc::new(list(small, thorough));
    let mut bad: Vec<String> = vec![];
    let mut n = 0u64;
    let mut pairs = BTreeSet::new();
    let mut overlap = false;
    let open = || Arc::new(std::fs::File::open(rf).expect("reference"));
    match mode {
        "ref" => {
            write_ref(rf, seed, &l);
            n = l.len() as u64;
        }
        "seq" => {
            let f = open();
            for pass in 0..p(6) {
                for i in order(&l, seed, p(5) + pass * 1000) {
                    let c = l[i as usize];
                    n += 1;
                    if let Some(d) = diff(seed, c, &call(seed, c.0, c.1, c.2), &read_one(&f, i), &format!("in call order {}, pass {pass}", p(5))) {
                        bad.push(d);
                        if bad.len() > 4 {
                            break;
                        }
                    }
                }
            }
        }
        "hammer" => {
            let f = open();
            let fam = p(5) as usize;
            let mut want: BTreeMap<u32, Out> = BTreeMap::new();
            let plain = hammer(&l, fam);
            for i in &plain {
                want.entry(*i).or_insert_with(|| read_one(&f, *i));
            }
            // afterwards runs of calls that all fail, all succeed or are all the same, so that
            // anything counted in a row gets its row
            let fails = |i: &u32| want[i].text.contains("None") || want[i].text.contains("panicked") || want[i].nums.iter().any(|x| !x.is_finite());
            let (no, yes): (Vec<u32>, Vec<u32>) = want.keys().partition(|i| fails(i));
            let mut r = Rng::new(seed, 0x4A3, fam as u64);
            let mut runs = vec![];
            while runs.len() < plain.len() / 3 {
                let m = if r.chance(0.1) { 1 + r.below(300) } else { 1 + r.below(12) };
                let one = r.pick(&plain);
                let kind = r.below(3);
                for _ in 0..m {
                    runs.push(match kind {
                        0 if !no.is_empty() => r.pick(&no),
                        1 if !yes.is_empty() => r.pick(&yes),
                        _ => one,
                    });
                }
            }
            for (k, i) in plain.into_iter().chain(runs).enumerate() {
                let c = l[i as usize];
                n += 1;
                let w = &want[&i];
                if let Some(d) = diff(seed, c, &call(seed, c.0, c.1, c.2), w, &format!("as call number {k} of this function")) {
                    bad.push(d);
                    break;
                }
            }
        }
        // one or two functions on many threads at full rate, nothing else between the calls
        "storm" => {
            let f = open();
            let fams = [p(5) as usize, p(7) as usize];
            let own: Vec<Vec<(u32, Out)>> = fams.iter().map(|x| (0..l.len() as u32).filter(|i| l[*i as usize].0 == *x).map(|i| (i, read_one(&f, i))).collect()).collect();
            let own = Arc::new(own);
            let go = Arc::new(AtomicUsize::new(0));
            let threads = p(6) as usize;
            let hs: Vec<_> = (0..threads)
                .map(|w| {
                    let (l, own, go) = (l.clone(), own.clone(), go.clone());
                    std::thread::spawn(move || {
                        let which = w % 2;
                        let o = &own[which];
                        let k = [20_000, 2_500, 500, 250][FAMS[fams[which]].cost as usize];
                        let mut r = Rng::new(seed, 0x5701, w as u64);
                        go.fetch_add(1, SeqCst);
                        while go.load(Relaxed) < threads {
                            std::hint::spin_loop();
                        }
                        for n in 0..k {
                            let (i, want) = &o[r.below(o.len())];
                            let c = l[*i as usize];
                            if let Some(d) = diff(seed, c, &call(seed, c.0, c.1, c.2), want, &format!("as call number {n} of thread {w}, others calling it too")) {
                                return (n + 1, Some(d));
                            }
                        }
                        (k, None)
                    })
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok((k, d)) => {
                        n += k as u64;
                        bad.extend(d);
                    }
                    Err(_) => bad.push("a thread of the harness failed".into()),
                }
            }
            overlap = true;
        }
        "solo" => {
            let i = p(5) as u32;
            let c = l[i as usize];
            n = 1;
            bad.extend(diff(seed, c, &call(seed, c.0, c.1, c.2), &read_one(&open(), i), "alone in a new process"));
        }
        "par" => {
            let t = p(6);
            let part = l.len() / (t as usize / 4).max(1);
            let jobs = (0..t).map(|w| Job { todo: order(&l, seed, 100 + p(5) * 64 + w).into_iter().take(part).collect(), delay: 0, noise: w % 2 == 1, salt: p(5) * 64 + w }).collect();
            let r = concurrent(seed, &l, jobs, Some(open()));
            (bad, overlap, pairs, n) = (r.0, overlaps(&r.2), r.3, r.4);
        }
        "race" => {
            let r = concurrent(seed, &l, race_jobs(seed, &l, p(5), 8, 6), Some(open()));
            (bad, overlap, pairs, n) = (r.0, overlaps(&r.2), r.3, r.4);
        }
        // no reference: compare with a sequential run afterwards (Miri)
        "mini" => {
            let jobs = race_jobs(seed, &l, p(5), 3, 2);
            let r = concurrent(seed, &l, jobs, None);
            (overlap, pairs, n) = (overlaps(&r.2), r.3, r.4);
            for (i, x) in r.1.iter().flatten() {
                let c = l[*i as usize];
                bad.extend(diff(seed, c, x, &call(seed, c.0, c.1, c.2), "racing with other first calls"));
            }
        }
        _ => return 4,
    }
    for b in bad.iter().take(5) {
        println!("DIFF {b}");
    }
    println!("STAT calls={n} overlap={} pairs={}", overlap as u8, pairs.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(","));
    println!("DONE");
    0
}

// ---------------------------------------------------------------- driver
struct Found {
    msg: String,
    cmd: Vec<String>,
    exe: String,
}
#[derive(Default)]
struct Stats {
    procs: BTreeMap<String, u64>,
    calls: u64,
    overlap: BTreeMap<String, u64>,
    pairs: BTreeSet<String>,
    deadlock_samples: u64,
}
/// CPU time of a process in clock ticks, and whether every one of its threads sleeps
fn threads_of(pid: u32) -> Option<(u64, bool)> {
    let (mut cpu, mut all) = (0, true);
    let mut any = false;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(e.ok()?.path().join("stat")).ok()?;
        let f: Vec<&str> = s.rsplit_once(") ")?.1.split(' ').collect();
        all &= f[0] == "S";
        cpu += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        any = true;
    }
    any.then_some((cpu, all))
}
enum End {
    Fine,
    Violated(String),
    Unclear(String),
}
/// Run one child; judge how it ended. No verdict depends on how long it took by the clock.
fn watch(exe: &str, args: &[String], env: &[(&str, &str)], dir: &str, tag: u64, st: &Mutex<Stats>) -> End {
    let (op, ep) = (format!("{dir}/o{tag}"), format!("{dir}/e{tag}"));
    let mk = |p: &str| std::fs::File::create(p).expect("scratch file");
    let mut cmd = Command::new(exe);
    cmd.args(args).stdin(Stdio::null()).stdout(mk(&op)).stderr(mk(&ep)).process_group(0);
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return End::Unclear(format!("cannot start {exe}: {e}")),
    };
    let mut still = 0;
    let mut last = u64::MAX;
    let mut n = 0u64;
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break s;
        }
        // quick polls first, since most children take milliseconds
        std::thread::sleep(Duration::from_millis(if n < 50 { 2 } else { 50 }));
        n += 1;
        if n > 50 {
            if let Some((cpu, asleep)) = threads_of(ch.id()) {
                still = if asleep && cpu == last { still + 1 } else { 0 };
                last = cpu;
                st.lock().unwrap().deadlock_samples += 1;
                if still >= 200 || cpu > 90_000 {
                    let m = if still >= 200 {
                        "deadlock: every thread of the process sleeps and none makes progress".to_string()
                    } else {
                        "a process did not finish its calls within 900 CPU seconds".to_string()
                    };
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Violated(m);
                }
            }
        }
    };
    let (o, e) = (std::fs::read_to_string(&op).unwrap_or_default(), String::from_utf8_lossy(&std::fs::read(&ep).unwrap_or_default()).into_owned());
    let _ = std::fs::remove_file(&op);
    let _ = std::fs::remove_file(&ep);
    if let Some(k) = e.find("WARNING: ThreadSanitizer") {
        return End::Violated(format!("ThreadSanitizer: {}", e[k..].chars().take(1800).collect::<String>()));
    }
    if let Some(d) = o.lines().find(|l| l.starts_with("DIFF ")) {
        return End::Violated(d[5..].to_string());
    }
    if !o.contains("DONE") || !status.success() {
        let t: String = e.chars().take(600).collect();
        return match status.signal() {
            Some(9) => End::Unclear("a child was killed from outside (memory?)".into()),
            Some(s) => End::Violated(format!("the process died of signal {s}: {t}")),
            None => End::Unclear(format!("a child ended with {status}: {t}")),
        };
    }
    let mut s = st.lock().unwrap();
    for l in o.lines().filter(|l| l.starts_with("STAT ")) {
        for kv in l[5..].split(' ') {
            if let Some((k, v)) = kv.split_once('=') {
                match k {
                    "calls" => s.calls += v.parse::<u64>().unwrap_or(0),
                    "overlap" => *s.overlap.entry(args[0].clone()).or_insert(0) += v.parse::<u64>().unwrap_or(0),
                    _ => s.pairs.extend(v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string())),
                }
            }
        }
    }
    End::Fine
}
struct Task {
    label: &'static str,
    exe: String,
    args: Vec<String>,
    env: Vec<(&'static str, &'static str)>,
}
fn run_tasks(tasks: Vec<Task>, width: usize, dir: &str, st: &Arc<Mutex<Stats>>, found: &Arc<Mutex<Option<Found>>>, unclear: &Arc<Mutex<Option<String>>>) {
    let tasks = Arc::new(tasks);
    let next = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..width)
        .map(|_| {
            let (tasks, next, st, found, unclear, dir) = (tasks.clone(), next.clone(), st.clone(), found.clone(), unclear.clone(), dir.to_string());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= tasks.len() || found.lock().unwrap().is_some() || unclear.lock().unwrap().is_some() {
                    break;
                }
                let t = &tasks[i];
                let tag = (t.label.len() as u64) << 32 | i as u64;
                match watch(&t.exe, &t.args, &t.env, &dir, tag, &st) {
                    End::Fine => *st.lock().unwrap().procs.entry(t.label.to_string()).or_insert(0) += 1,
                    End::Violated(m) => {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(Found { msg: m, cmd: t.args.clone(), exe: t.exe.clone() });
                        }
                    }
                    End::Unclear(m) => *unclear.lock().unwrap() = Some(m),
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
}
const TSAN_ENV: &[(&str, &str)] = &[("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 second_deadlock_stack=1")];

fn drive(seed: u64, thorough: bool, tsan: Option<String>, miri_log: Option<String>) -> i32 {
    let t0 = Instant::now();
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let dir = std::env::temp_dir().join(format!("conc.{}", std::process::id())).to_string_lossy().into_owned();
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let l = list(false, thorough);
    let th = if thorough { "1" } else { "0" };
    let arg = |mode: &str, small: bool, more: &[u64]| -> Vec<String> {
        let mut v = vec![mode.to_string(), format!("{dir}/{}", if small { "small" } else { "full" }), seed.to_string(), (small as u8).to_string(), th.to_string()];
        v.extend(more.iter().map(|x| x.to_string()));
        v
    };
    let plain = |label: &'static str, args: Vec<String>| Task { label, exe: me.clone(), args, env: vec![] };
    let st = Arc::new(Mutex::new(Stats::default()));
    let (found, unclear) = (Arc::new(Mutex::new(None)), Arc::new(Mutex::new(None)));
    let go = |t: Vec<Task>, w: usize| run_tasks(t, w, &dir, &st, &found, &unclear);
    go(vec![plain("reference", arg("ref", false, &[])), plain("reference, short list", arg("ref", true, &[]))], 2);
    let k = if thorough { 12 } else { 1 };
    let mut r = Rng::new(seed, 0x50, 0);
    let mut t = vec![];
    t.push(plain("sequential, many passes", arg("seq", false, &[9, if thorough { 40 } else { 6 }])));
    for p in 0..20 * k {
        t.push(plain("sequential in another order", arg("seq", false, &[p, 1])));
    }
    let envs: [&[(&str, &str)]; 6] = [
        &[("TZ", "Asia/Kolkata"), ("LANG", "de_DE.UTF-8"), ("LC_NUMERIC", "fr_FR.UTF-8")],
        &[("TZ", "America/New_York"), ("RUST_BACKTRACE", "1"), ("LC_ALL", "de_DE.UTF-8"), ("LANGUAGE", "de")],
        &[("HOME", "/nonexistent"), ("LC_ALL", "C"), ("USER", "nobody"), ("SHELL", "/bin/false")],
        &[("COLUMNS", "5"), ("LINES", "1"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("CI", "1")],
        &[("COLUMNS", "300"), ("TERM", "xterm-256color"), ("DEBUG", "1"), ("VERBOSE", "1"), ("RUST_LOG", "trace"), ("RUST_TEST_THREADS", "1")],
        &[("TMP", "/nonexistent"), ("PATH", ""), ("PWD", "/"), ("RAYON_NUM_THREADS", "1"), ("PRECISION", "2"), ("CURRENCY", "EUR")],
    ];
    for (p, e) in envs.into_iter().enumerate() {
        let mut x = plain("in another environment", arg("seq", false, &[p as u64 % 2, 1]));
        x.env = e.to_vec();
        t.push(x);
    }
    go(t, 8);
    go((0..FAMS.len() as u64).map(|i| plain("one function very many times", arg("hammer", false, &[i]))).collect(), 8);
    let mut t = vec![];
    if thorough {
        for i in 0..l.len() as u64 {
            t.push(plain("one call in a new process", arg("solo", false, &[i])));
        }
    } else {
        for _ in 0..2500 {
            t.push(plain("one call in a new process", arg("solo", false, &[r.below(l.len()) as u64])));
        }
    }
    go(t, 8);
    go((0..8 * k).map(|i| plain("all calls on many threads", arg("par", false, &[i, [2, 4, 8, 16, 3, 8, 12, 32][i as usize % 8]]))).collect(), 2);
    go((0..4000 * k).map(|i| plain("racing first use", arg("race", false, &[i]))).collect(), 4);
    let n = FAMS.len() as u64;
    let mut t: Vec<Task> = (0..n * if thorough { 6 } else { 1 }).map(|i| plain("one function on many threads at full rate", arg("storm", false, &[i % n, 8, i % n]))).collect();
    t.extend((0..40 * k).map(|_| plain("two functions on many threads at full rate", arg("storm", false, &[r.below(n as usize) as u64, 8, r.below(n as usize) as u64]))));
    go(t, 1);
    if let Some(x) = &tsan {
        // this build is by another compiler: it has a reference of its own
        let ts = |label: &'static str, mut args: Vec<String>| {
            args[1] = format!("{dir}/tsan");
            Task { label, exe: x.clone(), args, env: TSAN_ENV.to_vec() }
        };
        go(vec![ts("ThreadSanitizer: reference", arg("ref", true, &[]))], 1);
        let mut t: Vec<Task> = (0..4 * k).map(|i| ts("ThreadSanitizer: all calls on many threads", arg("par", true, &[i, [2, 4, 8, 6][i as usize % 4]]))).collect();
        t.extend((0..100 * k).map(|i| ts("ThreadSanitizer: racing first use", arg("race", true, &[i]))));
        go(t, 4);
    }
    let mut miri = 0u64;
    if let Some(p) = &miri_log {
        let s = std::fs::read_to_string(p).unwrap_or_default();
        miri = s.lines().filter(|l| l.starts_with("DONE")).count() as u64;
        let mut f = found.lock().unwrap();
        let mut u = unclear.lock().unwrap();
        if f.is_none() {
            if let Some(k) = ["error: Undefined Behavior", "error: the evaluated program deadlocked", "error: a deadlock", "error: deadlock"].iter().filter_map(|x| s.find(x)).min() {
                *f = Some(Found { msg: format!("Miri: {}", s[k..].chars().take(1800).collect::<String>()), cmd: vec!["miri".into()], exe: String::new() });
            } else if let Some(d) = s.lines().find(|l| l.starts_with("DIFF ")) {
                *f = Some(Found { msg: format!("under Miri: {}", &d[5..]), cmd: vec!["miri".into()], exe: String::new() });
            } else if s.lines().any(|l| l.starts_with("error")) || miri == 0 {
                *u = Some(format!("Miri gave no answer: {}", s.chars().rev().take(800).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let s = st.lock().unwrap();
    let f = found.lock().unwrap();
    let mut code = 0;
    let total: u64 = s.procs.values().sum();
    let mut samples = vec![];
    for i in [0usize, l.len() / 3, l.len() / 2, l.len() - 1] {
        let c = l[i];
        let x = call(seed, c.0, c.1, c.2);
        samples.push(serde_json::json!({"call": FAMS[c.0].name, "group": c.1, "variant": c.2, "result": format!("{:?} {}", x.nums.iter().take(6).collect::<Vec<_>>(), x.text.chars().take(80).collect::<String>())}));
    }
    let mut fails: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    for c in list(true, false) {
        let e = fails.entry(FAMS[c.0].name).or_insert((0, 0));
        e.0 += 1;
        e.1 += (call(seed, c.0, c.1, c.2).text == "panicked;") as u64;
    }
    let always: Vec<_> = fails.iter().filter(|x| x.1 .0 == x.1 .1).map(|x| *x.0).collect();
    let fails: u64 = fails.values().map(|x| x.1).sum();
    if let Some(f) = &*f {
        let d = format!("{VERIF}/replays");
        let _ = std::fs::create_dir_all(&d);
        let path = format!("{d}/C34-s{seed}-{}.json", if thorough { "t" } else { "q" });
        let v = serde_json::json!({"property": "C34", "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "violation": f.msg,
            "mode": f.cmd, "monitor": f.exe, "replay_cmd": format!("/verif/check.sh replay {path}"), "conc": true});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
        let short: Vec<String> = f.cmd.iter().enumerate().filter(|(i, _)| *i != 1).map(|x| x.1.clone()).collect();
        violation("C34", &path, &f.msg, &[format!("workload {short:?}")]);
        samples.push(serde_json::json!({"violation": f.msg}));
        code = 1;
    } else if let Some(u) = &*unclear.lock().unwrap() {
        println!("INCONCLUSIVE property=C34 {u}");
        return 3;
    } else if s.overlap.get("race").copied().unwrap_or(0) == 0 {
        println!("INCONCLUSIVE property=C34 no racing first use was observed to overlap");
        return 3;
    } else {
        println!(
            "HELD property=C34 on {} calls in {total} processes, {} pairs of functions seen running at once, {} overlapping first uses, Miri schedules {miri}, seed {seed}, {:.1}s",
            s.calls,
            s.pairs.len(),
            s.overlap.get("race").copied().unwrap_or(0),
            t0.elapsed().as_secs_f64()
        );
    }
    let cov = serde_json::json!({
        "rule": "Distinct = calls of the list with different arguments (family, group, variant) or different processes; every call made in a different order, thread or process than the reference is compared with the reference result of a fresh process.",
        "evaluations": s.calls, "distinct_nontrivial": (l.len() as u64).max(1), "samples": samples,
        "functions": FAMS.len(), "failing_calls_in_short_list": fails, "functions_failing_on_the_whole_short_list": always, "calls_in_list": l.len(), "processes": s.procs,
        "pairs_of_functions_seen_running_at_once": s.pairs.len(), "processes_with_overlapping_first_calls": s.overlap,
        "deadlock_watch_samples": s.deadlock_samples, "thread_sanitizer": tsan.is_some(), "miri_schedules": miri,
    });
    write_evidence("C34", seed, thorough, cov, &[
        "results are compared bit by bit (NaN by class, zeros of either sign equal), texts exactly",
        "schedules are those the operating system, added delays, ThreadSanitizer's slowdown and Miri's random scheduler produce",
    ], t0, code);
    code
}
fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    println!("recorded: {}", v["violation"].as_str().unwrap_or(""));
    let mut cmd: Vec<String> = v["mode"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let exe = v["monitor"].as_str().unwrap().to_string();
    if cmd.len() < 5 || !std::path::Path::new(&exe).exists() {
        println!("run the whole check again for this one");
        return 4;
    }
    let dir = std::env::temp_dir().join(format!("conc.{}", std::process::id())).to_string_lossy().into_owned();
    std::fs::create_dir_all(&dir).unwrap();
    let st = Mutex::new(Stats::default());
    cmd[1] = format!("{dir}/ref");
    let mut rc = cmd.clone();
    rc[0] = "ref".into();
    rc.truncate(5);
    watch(&exe, &rc, &[], &dir, 1, &st);
    let mut code = 0;
    for i in 0..50 {
        match watch(&exe, &cmd, TSAN_ENV, &dir, 2, &st) {
            End::Violated(m) => {
                println!("attempt {i}: {m}");
                code = 1;
                break;
            }
            End::Unclear(m) => {
                println!("attempt {i}: {m}");
                code = 3;
                break;
            }
            End::Fine => (),
        }
    }
    if code == 0 {
        println!("50 attempts without a violation");
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let opt = |k: usize| a.get(k).filter(|s| !s.is_empty() && *s != "-").cloned();
    let code = match a[0].as_str() {
        "drive" => drive(seed, thorough, opt(1), opt(2)),
        "replay" => replay(&a[1]),
        _ => child(&a),
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
