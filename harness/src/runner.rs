//! Drives a property: generation, evaluation on all cores, shrinking, replay files, evidence.
use crate::case::*;
use crate::num::BudgetExceeded;
use crate::rng::{mix, mix2, Rng};
use crate::run::Order;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Seconds after which a single evaluation (milliseconds, as a rule) counts as endless
pub const HANG: u64 = 60;

/// What a thread gets by default: the library is not expected to recurse over its input
pub const STACK: usize = if cfg!(verif_asan) { 16 << 20 } else { 2 << 20 };

pub fn threads() -> usize { std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8)) }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64 }
pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }

/// Evaluate, turning a panic that escapes the library into a failure.
pub fn eval(prop: &dyn Prop, case: &Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| prop.eval(case))) {
        Ok(v) => v,
        Err(e) => {
            crate::num::stop();
            if e.is::<BudgetExceeded>() { return Verdict::Fail("the call does not terminate (operation budget exhausted)".into()); }
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
            Verdict::Fail(format!("panic: {s}"))
        }
    }
}

pub fn case_at(prop: &dyn Prop, base: u64, thorough: bool, i: u64) -> Case {
    let h: u64 = prop.id().bytes().fold(7, |h, b| mix2(h, b as u64));
    let mut rng = Rng::new(mix2(mix2(base, h), i));
    prop.gen(&mut rng, i, thorough)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub skipped: BTreeMap<String, u64>,
    pub samples: Vec<(u64, Value)>,
    pub fail: Option<(u64, Case, String)>,
    pub max_vertices: usize,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes { *self.classes.entry(k).or_default() += v; }
        for (k, v) in o.skipped { *self.skipped.entry(k).or_default() += v; }
        self.samples.extend(o.samples);
        self.max_vertices = self.max_vertices.max(o.max_vertices);
        if let Some(f) = o.fail { if self.fail.as_ref().map_or(true, |g| f.0 < g.0) { self.fail = Some(f); } }
    }
}

fn task_id() -> u64 { std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0) }
/// Processor time of a thread of this process, in hundredths of seconds
fn task_time(task: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{task}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let at = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    at(11) + at(12)
}

/// Evaluate cases i = first, first+stride, ... < count
pub fn explore(prop: &dyn Prop, base: u64, thorough: bool, first: u64, stride: u64, count: u64, progress: Option<&std::path::Path>) -> Stats {
    prop.cases(thorough); // tables which are set up once belong to no case
    let next = AtomicU64::new(0);
    let total = if count > first { (count - first).div_ceil(stride) } else { 0 };
    let best_fail = AtomicU64::new(u64::MAX);
    let out = Mutex::new(Stats::default());
    let progress = progress.map(|p| std::fs::File::create(p).expect("progress file"));
    // a case that never ends without performing counted operations: leave its number behind and give up
    let nthreads = threads();
    // (judged by the processor time of its thread, so that a busy machine changes nothing)
    let beat: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let task: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let t0 = std::time::Instant::now();
    let chunk = (total / 64).clamp(1, 16);
    let deadline = if thorough { 700 } else { 240 };
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, best_fail, out, progress, beat, task, done) = (&next, &best_fail, &out, &progress, &beat, &task, &done);
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                task[t].store(task_id(), Ordering::Relaxed);
                let mut st = Stats::default();
                loop {
                    let start = next.fetch_add(chunk, Ordering::Relaxed);
                    if start >= total || t0.elapsed().as_secs() > deadline { break; }
                    for k in start..(start + chunk).min(total) {
                        let i = first + k * stride;
                        if i > best_fail.load(Ordering::Relaxed) { continue; }
                        beat[t].store(i + 1, Ordering::Relaxed);
                        if let Some(f) = progress { let _ = f.write_all_at(&(i + 1).to_le_bytes(), 8 * t as u64); }
                        let case = case_at(prop, base, thorough, i);
                        let v = eval(prop, &case);
                        st.evaluations += 1;
                        match v {
                            Verdict::Pass(nt, labels) => {
                                *st.classes.entry(format!("family:{}", case.fam)).or_default() += 1;
                                for l in labels { *st.classes.entry(l.to_string()).or_default() += 1; }
                                st.max_vertices = st.max_vertices.max(case.n());
                                if nt && st.nontrivial.insert(case.digest()) && (i / stride) % 1009 < 2 && st.samples.len() < 3 { st.samples.push((i, case.brief())); }
                            }
                            Verdict::Skip(why) => { *st.skipped.entry(why.to_string()).or_default() += 1; }
                            Verdict::Fail(msg) => {
                                best_fail.fetch_min(i, Ordering::Relaxed);
                                if st.fail.as_ref().map_or(true, |f| i < f.0) { st.fail = Some((i, case, msg)); }
                            }
                        }
                    }
                }
                beat[t].store(0, Ordering::Relaxed);
                out.lock().unwrap().merge(st);
                done.fetch_add(1, Ordering::Relaxed);
            }).expect("spawn");
        }
        let (beat, task, done) = (&beat, &task, &done);
        std::thread::Builder::new().spawn_scoped(s, move || {
            // the case seen last, since when, and the processor time its thread had used by then
            let mut seen: Vec<(u64, std::time::Instant, u64)> = vec![(0, t0, 0); nthreads];
            while done.load(Ordering::Relaxed) < nthreads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for t in 0..nthreads {
                    let b = beat[t].load(Ordering::Relaxed);
                    if b == 0 || b != seen[t].0 { seen[t] = (b, std::time::Instant::now(), 0); continue; }
                    let waited = seen[t].1.elapsed().as_secs();
                    if waited < 2 { continue; }
                    let used = task_time(task[t].load(Ordering::Relaxed));
                    if seen[t].2 == 0 { seen[t].2 = used + 1; continue; }
                    // hardly any at all: it waits for something
                    let used = used + 1 - seen[t].2;
                    if used > HANG * 100 || waited > HANG && used < waited * 5 || waited > HANG * 6 { std::process::exit(4); }
                }
            }
        }).expect("spawn");
    });
    let mut st = out.into_inner().unwrap();
    st.samples.sort_by_key(|s| s.0);
    st.samples.truncate(5);
    st
}

/// Some(message) if the case is in the domain and violates the property
pub type Oracle<'a> = &'a dyn Fn(&Case) -> Option<String>;

/// Fails with the case's own order or one of a few others
fn fails_some_order(fails: Oracle, c: &mut Case, tries: u64, over: &dyn Fn() -> bool) -> Option<String> {
    if let Some(m) = fails(c) { return Some(m); }
    for k in 0..tries {
        if over() { break; }
        let o = c.order;
        c.order = Order { seed: mix(k + 1) >> 40, bias: [0, 0, 128, 256][k as usize % 4] };
        if let Some(m) = fails(c) { return Some(m); }
        c.order = o;
    }
    None
}

/// Greedy shrinking: fewer sets, polygons and vertices, smaller coordinates and parameters, plainer order.
pub fn shrink(fails: Oracle, mut c: Case, mut msg: String, seconds: u64) -> (Case, String, u64) {
    let t0 = std::time::Instant::now();
    let mut steps = 0;
    let over = |s: u64| t0.elapsed().as_secs() >= s;
    loop {
        let before = steps;
        macro_rules! attempt { ($new:expr, $tries:expr) => {{ let mut d: Case = $new; if d != c { if let Some(m) = fails_some_order(fails, &mut d, $tries, &|| over(seconds)) { c = d; msg = m; steps += 1; true } else { false } } else { false } }} }
        // drop extra sets
        let mut i = 0;
        while i < c.more.len() && !over(seconds) { let mut d = c.clone(); d.more.remove(i); if !attempt!(d, 4) { i += 1; } }
        // drop polygons, largest chunks first
        let mut chunk = c.set.len() / 2;
        while chunk >= 1 && !over(seconds) {
            let mut i = 0;
            while i + chunk <= c.set.len() && c.set.len() > chunk && !over(seconds) { let mut d = c.clone(); d.set.drain(i..i + chunk); if !attempt!(d, 8) { i += chunk; } }
            chunk /= 2;
        }
        // drop vertices
        for p in 0..c.set.len() {
            let mut chunk = c.set.get(p).map_or(0, |q| q.len() / 2);
            while chunk >= 1 && !over(seconds) {
                let mut i = 0;
                while p < c.set.len() && i + chunk <= c.set[p].len() && !over(seconds) { let mut d = c.clone(); d.set[p].drain(i..i + chunk); if !attempt!(d, if c.n() > 60 { 3 } else { 12 }) { i += chunk; } }
                chunk /= 2;
            }
        }
        for m in 0..c.more.len() { for p in 0..c.more[m].len() { let mut i = 0; while p < c.more[m].len() && i < c.more[m][p].len() && !over(seconds) { let mut d = c.clone(); d.more[m][p].remove(i); if !attempt!(d, 4) { i += 1; } } } }
        // simplify the frame
        if c.off != (0, 0) { let mut d = c.clone(); d.off = (0, 0); attempt!(d, 4); }
        if c.exp != 0 { let mut d = c.clone(); d.exp = 0; attempt!(d, 4); }
        // coordinates: rank compression, halving, moving towards zero
        if !over(seconds) {
            let mut d = c.clone();
            let mut xs: Vec<i64> = d.set.iter().flatten().map(|v| v.0).collect(); xs.sort(); xs.dedup();
            let mut ys: Vec<i64> = d.set.iter().flatten().map(|v| v.1).collect(); ys.sort(); ys.dedup();
            for v in d.set.iter_mut().flatten() { v.0 = xs.binary_search(&v.0).unwrap() as i64; v.1 = ys.binary_search(&v.1).unwrap() as i64; }
            attempt!(d, 8);
            let mut d = c.clone();
            for v in d.set.iter_mut().flatten() { v.0 = v.0.div_euclid(2); v.1 = v.1.div_euclid(2); }
            attempt!(d, 8);
            if c.n() <= 40 {
                let (mx, my) = (c.set.iter().flatten().map(|v| v.0).min().unwrap_or(0), c.set.iter().flatten().map(|v| v.1).min().unwrap_or(0));
                let mut d = c.clone();
                for v in d.set.iter_mut().flatten() { v.0 -= mx; v.1 -= my; }
                attempt!(d, 8);
                for p in 0..c.set.len() { for i in 0..c.set[p].len() { for axis in 0..2 { for step in [2i64, 0] {
                    if over(seconds) { break; }
                    let mut d = c.clone();
                    let v = &mut d.set[p][i];
                    let x = if axis == 0 { &mut v.0 } else { &mut v.1 };
                    *x = if step == 2 { *x / 2 } else { *x - x.signum() };
                    attempt!(d, 2);
                } } } }
            }
        }
        // parameters
        let mut i = c.p.len();
        while i > 0 && !over(seconds) { i -= 1; let mut d = c.clone(); d.p.remove(i); attempt!(d, 2); }
        for i in 0..c.p.len() { for v in [0, c.p[i] / 2, c.p[i].saturating_sub(1)] { if v < c.p[i] && !over(seconds) { let mut d = c.clone(); d.p[i] = v; attempt!(d, 2); } } }
        if steps == before || over(seconds) { break; }
    }
    // a plain order, if one does
    for (seed, bias) in [(0, 256), (0, 0), (1, 0), (2, 0), (3, 0)] {
        if over(seconds + 10) || seconds == 0 || c.order.bias == bias && c.order.seed == seed { break; }
        let mut d = c.clone();
        d.order = Order { seed, bias };
        if let Some(m) = fails(&d) { c = d; msg = m; break; }
    }
    (c, msg, steps)
}

pub fn write_replay(prop: &str, case: &Case, msg: &str, how: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{:016x}.json", case.digest()));
    let v = json!({ "property": prop, "build": how, "what": msg, "case": case.json(), "replay_with": format!("bash {}/run.sh --replay {}", root().display(), path.display()) });
    let mut f = std::fs::File::create(&path).expect("replay file");
    let _ = writeln!(f, "{}", serde_json::to_string_pretty(&v).unwrap());
    path
}

/// Known findings: lines `finding property=<id> digest=<hex of the minimal case> <text>` suppress exactly that case.
pub fn known_findings(prop: &str) -> Vec<(u64, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            let mut it = l.split_whitespace();
            if it.next() == Some("finding:") && it.next() == Some(&format!("property={prop}")) {
                if let Some(d) = it.next().and_then(|d| d.strip_prefix("digest=")).and_then(|d| u64::from_str_radix(d, 16).ok()) { v.push((d, it.collect::<Vec<_>>().join(" "))); }
            }
        }
    }
    v
}
