//! The command line of each harness binary.
use crate::case::*;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

type Props = fn() -> Vec<Box<dyn Prop>>;
static PROPS: std::sync::OnceLock<Props> = std::sync::OnceLock::new();

fn find(id: &str) -> Box<dyn Prop> {
    PROPS.get().unwrap()().into_iter().find(|p| p.id() == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); exit(2) })
}

/// Domain and oracle of one property, in this process
fn oracle<'a>(p: &'a dyn Prop) -> impl Fn(&Case) -> Option<String> + 'a {
    move |c| if !p.in_domain(c) { None } else { match eval(p, c) { Verdict::Fail(m) => Some(m), _ => None } }
}

/// Worker: explore a share of the cases, write the result as JSON
fn worker(id: &str, thorough: bool, dir: &Path) -> ! {
    limit_memory(20 << 30);
    let p = find(id);
    let share = p.checked_share();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| p.cases(thorough));
    // the checked build explores other cases than the release build
    let (first, count) = if BUILD == "checked" { (1 << 40, (1 << 40) + total / share.max(1)) } else { (0, total) };
    let st = explore(&*p, seed(), thorough, first, 1, count, Some(&dir.join("progress")));
    let mut digests = Vec::with_capacity(st.nontrivial.len() * 8);
    for d in &st.nontrivial { digests.extend_from_slice(&d.to_le_bytes()); }
    std::fs::write(dir.join("digests"), digests).expect("digests");
    let fail = st.fail.map(|(i, c, m)| {
        let (s, sm, steps) = shrink(&oracle(&*p), c.clone(), m.clone(), p.shrink_seconds());
        json!({ "index": i, "case": s.json(), "what": sm, "unshrunk": c.brief(), "first_message": m, "shrink_steps": steps })
    });
    p.cleanup();
    let v = json!({ "evaluations": st.evaluations, "classes": st.classes, "skipped": st.skipped, "samples": st.samples.iter().map(|s| &s.1).collect::<Vec<_>>(), "max_vertices": st.max_vertices, "fail": fail });
    std::fs::write(dir.join("result.json"), v.to_string()).expect("result");
    exit(0)
}

/// Evaluate one case from stdin: exit 0 held, 1 violated
fn one(id: &str) -> ! {
    limit_memory(6 << 30);
    let p = find(id);
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let c = Case::from_json(&serde_json::from_str::<Value>(&s).expect("json")).expect("case");
    if !p.in_domain(&c) { exit(0); }
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || { let v = eval(&*p, &c); p.cleanup(); v }).unwrap().join().unwrap();
    match h { Verdict::Fail(m) => { println!("{m}"); exit(1) } _ => exit(0) }
}

/// Evaluate a case in a process of its own: Some(what happened) if it violates the property, kills the process or does not end
fn outside(bin: &str, id: &str, c: &Case, seconds: u64) -> Option<String> {
    use std::io::Write;
    let mut ch = Command::new(bin).args(["one", id]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    ch.stdin.take().unwrap().write_all(c.json().to_string().as_bytes()).ok()?;
    let t0 = std::time::Instant::now();
    let mut idle = (t0, 0, 0u32, 0u32);
    loop {
        if let Some(st) = ch.try_wait().ok()? {
            let mut s = String::new();
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            return match (st.code(), st.signal()) { (Some(1), _) => Some(s.trim().to_string()), (_, Some(s @ (4 | 6 | 7 | 8 | 11))) => Some(format!("the process died from signal {s}")), _ => None };
        }
        // every thread asleep for 10 s, hardly any processor time used: they wait for one another
        let (ticks, running) = activity(ch.id());
        if ticks > idle.1 + 3 || ticks < idle.1 { idle = (std::time::Instant::now(), ticks, 0, 0); }
        idle.2 += 1;
        idle.3 += running as u32;
        if idle.0.elapsed().as_secs() >= 10 {
            if idle.3 * 20 <= idle.2 { let _ = ch.kill(); let _ = ch.wait(); return Some("the call never returns: all threads are blocked".into()); }
            idle = (std::time::Instant::now(), ticks, 0, 0);
        }
        // processor time, not wall-clock time: a busy machine is no violation
        if t0.elapsed().as_secs() >= seconds && cpu_seconds(ch.id()).map_or(t0.elapsed().as_secs() > 10 * seconds, |s| s >= seconds) { let _ = ch.kill(); let _ = ch.wait(); return Some(format!("the call does not return (stopped after {seconds} s of processor time)")); }
        std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_millis() < 100 { 1 } else { 20 }));
    }
}

/// User time of a process so far
fn cpu_seconds(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    s.rsplit(')').next()?.split_whitespace().nth(11)?.parse::<u64>().ok().map(|t| t / 100)
}

/// Processor time (ticks) of a process, and whether any of its threads runs or could run
fn activity(pid: u32) -> (u64, bool) {
    let (mut ticks, mut running) = (0, false);
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        if f.len() > 12 { running |= f[0] != "S"; ticks += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0); }
    }
    (ticks, running)
}

/// Runaway allocation ends in an abort of this process rather than of the machine
fn limit_memory(bytes: u64) {
    // AddressSanitizer reserves more than that
    if cfg!(verif_asan) { return; }
    extern "C" { fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32; }
    unsafe { setrlimit(9 /* RLIMIT_AS */, &[bytes, bytes]); }
}

fn bin_of(build: &str) -> String {
    if build == BUILD { return std::env::current_exe().unwrap().display().to_string(); }
    std::env::var(format!("VERIF_BIN_{}", build.to_uppercase())).unwrap_or_else(|_| { eprintln!("no {build} binary"); exit(2) })
}

fn check(id: &str) -> ! {
    let t0 = std::time::Instant::now();
    let p = find(id);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut builds = vec!["release"];
    if p.checked_share() > 0 { builds.push("checked"); }
    let (mut evals, mut classes, mut skipped, mut samples) = (0, serde_json::Map::new(), serde_json::Map::new(), Vec::new());
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut max_vertices = 0;
    let mut failure: Option<(&str, Case, String)> = None;
    for b in &builds {
        let dir = std::env::temp_dir().join(format!("tri-verif-{}-{id}-{b}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch");
        let st = Command::new(bin_of(b)).args(["worker", id, if thorough { "thorough" } else { "quick" }]).arg(&dir).status().expect("worker");
        let res = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        match (st.code(), res) {
            (Some(0), Some(r)) => {
                evals += r["evaluations"].as_u64().unwrap();
                for (m, k) in [(&mut classes, "classes"), (&mut skipped, "skipped")] { for (k, v) in r[k].as_object().unwrap() { let e = m.entry(k.clone()).or_insert(json!(0)); *e = json!(e.as_u64().unwrap() + v.as_u64().unwrap()); } }
                samples.extend(r["samples"].as_array().unwrap().iter().cloned());
                max_vertices = max_vertices.max(r["max_vertices"].as_u64().unwrap());
                for d in std::fs::read(dir.join("digests")).unwrap().chunks(8) { distinct.insert(u64::from_le_bytes(d.try_into().unwrap())); }
                if let Some(c) = Case::from_json(&r["fail"]["case"]) { failure = Some((b, c, r["fail"]["what"].as_str().unwrap_or("?").to_string())); }
            }
            (code, _) if code == Some(4) || matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11)) => {
                // the worker died or hangs: find the case among those in flight
                let pr = std::fs::read(dir.join("progress")).unwrap_or_default();
                let bin = bin_of(b);
                for ch in pr.chunks(8).filter(|c| c.len() == 8) {
                    let i = u64::from_le_bytes(ch.try_into().unwrap());
                    if i == 0 { continue; }
                    let c = if *b == BUILD { case_at(&*p, seed(), thorough, i - 1) } else {
                        let o = Command::new(&bin).args(["case", id, if thorough { "thorough" } else { "quick" }, &(i - 1).to_string()]).output().expect("case");
                        match serde_json::from_slice::<Value>(&o.stdout).ok().and_then(|v| Case::from_json(&v)) { Some(c) => c, None => continue }
                    };
                    if let Some(m) = outside(&bin, id, &c, HANG * 2 / 3) {
                        let f = |c: &Case| if p.in_domain(c) { outside(&bin, id, c, 10) } else { None };
                        let (c, m, _) = shrink(&f, c, m, 90);
                        failure = Some((b, c, m));
                        break;
                    }
                }
                if failure.is_none() { eprintln!("worker died ({st}) but no case reproduces it"); exit(3) }
            }
            _ => { eprintln!("worker gave no answer: {st}"); exit(3) }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if failure.is_some() { break; }
    }
    // known findings: still there, or gone
    let known = known_findings(id);
    for (d, text) in &known { println!("KNOWN-FINDING: property={id} {text} (case {d:016x})"); }
    if let Some((_, c, _)) = &failure { if known.iter().any(|k| k.0 == c.digest()) { failure = None; } }
    finish(id, p.level(), p.rule(), p.assumptions(), thorough, evals, distinct.len() as u64, samples, json!({ "classes": classes, "skipped": skipped, "max_vertices": max_vertices, "builds": builds }), t0.elapsed().as_secs_f64(), failure)
}

#[allow(clippy::too_many_arguments)]
pub fn finish(id: &str, level: &str, rule: &str, assumptions: Vec<&str>, thorough: bool, evals: u64, distinct: u64, samples: Vec<Value>, extra: Value, wall: f64, failure: Option<(&str, Case, String)>) -> ! {
    let mut cov = json!({ "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples.into_iter().take(6).collect::<Vec<_>>() });
    for (k, v) in extra.as_object().unwrap() { cov[k] = v.clone(); }
    let ev = json!({ "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed(), "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": failure.is_some() as u64 });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    match failure {
        Some((b, c, m)) => {
            let path = write_replay(id, &c, &m, b);
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={}", path.display());
            exit(1)
        }
        None => { println!("{id}: held on {evals} cases ({distinct} distinct non-trivial) in {wall:.1} s"); exit(0) }
    }
}

/// Re-evaluate a replay file: exit 1 if it still fails
fn replay(path: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let (id, b) = (v["property"].as_str().unwrap(), v["build"].as_str().unwrap());
    let c = Case::from_json(&v["case"]).expect("case");
    let Some(m) = outside(&bin_of(b), id, &c, HANG) else { println!("{id}: the case holds"); exit(0) };
    println!("{id}: {m}");
    println!("VIOLATION property={id} replay={path}");
    exit(1)
}

pub fn main(props: Props) {
    let _ = PROPS.set(props);
    crate::run::silence_panics();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[1..] {
        ["check", id] => check(id),
        ["worker", id, tier, dir] => worker(id, tier == "thorough", &PathBuf::from(dir)),
        ["case", id, tier, i] => { let p = find(id); println!("{}", case_at(&*p, seed(), tier == "thorough", i.parse().unwrap()).json()); }
        ["one", id] => one(id),
        ["replay", path] => replay(path),
        ["list"] => for p in props() { println!("{}", p.id()); },
        _ => { eprintln!("usage: tri-verif check|replay|list"); exit(2) }
    }
}
