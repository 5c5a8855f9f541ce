//! C08: protocol between the library and a builder, with an error injected at every call
use tri_verif::case::*;
use tri_verif::gen;
#[path = "../out.rs"] #[allow(dead_code)] mod out;
use out::*;
use tri_verif::rng::{mix, Rng};
use tri_verif::run::*;
use std::error::Error;
use triangulate::{PolygonList, TriangulationError};

/// Check one run against the protocol. `fail_at` = usize::MAX: no injected error.
fn protocol(flat: &P, list: bool, ev: &[Ev], res: &Result<u64, TriangulationError<Inj>>, fail_at: usize, id: u64) -> Result<(), String> {
    let me = flat as *const _ as usize;
    // split off the terminal event
    let body: Vec<&Ev> = ev.iter().filter(|e| !matches!(e, Ev::Build | Ev::Fail(_))).collect();
    let builds = ev.iter().filter(|e| matches!(e, Ev::Build)).count();
    let fails: Vec<&FailArg> = ev.iter().filter_map(|e| if let Ev::Fail(a) = e { Some(a) } else { None }).collect();
    for (i, e) in body.iter().enumerate() {
        let ok = match e {
            Ev::Init(p, _) => { if *p != me { return Err("initialised with another polygon list".into()); } i == 0 && !list }
            Ev::ListInit(p) => { if *p != me { return Err("initialised with another polygon list".into()); } i == 0 && list }
            Ev::New(_) | Ev::Ext(_) => i > 0 && !list,
            Ev::Tri(_) => i > 0 && list,
            _ => false,
        };
        if !ok { return Err(format!("unexpected call {e:?} as number {i}")); }
    }
    if ev.iter().position(|e| matches!(e, Ev::Build | Ev::Fail(_))).is_some_and(|p| p + 1 != ev.len()) { return Err(format!("calls after the end: {:?}", &ev[ev.len().saturating_sub(3)..])); }
    if builds > 1 || fails.len() > 1 { return Err("ended more than once".into()); }
    let hit = fail_at != usize::MAX && ev.len() > fail_at && !matches!(ev[fail_at], Ev::Fail(_));
    if hit {
        // the injected error was returned by call number fail_at
        match res {
            Err(TriangulationError::FanBuilder(e)) => {
                if e.id != id { return Err("a different builder error came back".into()); }
            }
            Err(e) => return Err(format!("the builder's error came back as something else: {}", match e { TriangulationError::NoVertices => "NoVertices", TriangulationError::TrapezoidationError(_) => "TrapezoidationError", _ => "InternalError" })),
            Ok(_) => return Err("the builder's error was lost".into()),
        }
        let e = res.as_ref().err().unwrap();
        if e.to_string() != format!("injected {id}") { return Err(format!("display text is '{e}'")); }
        if e.source().map(|s| s.to_string()) != Some(format!("cause {id}")) { return Err(format!("source is {:?}", e.source().map(|s| s.to_string()))); }
        let initial = fail_at == 0;
        let at_build = matches!(ev[fail_at], Ev::Build);
        if initial || at_build {
            if ev.len() != fail_at + 1 { return Err(format!("calls after the failed {}: {:?}", if at_build { "build" } else { "initialisation" }, &ev[fail_at + 1..])); }
        } else {
            if ev.len() != fail_at + 2 { return Err(format!("{} calls instead of one fail() after the error", ev.len() - fail_at - 1)); }
            if fails != [&FailArg::Injected(id)] { return Err(format!("fail() was told {:?}", fails)); }
        }
        return Ok(());
    }
    match res {
        Ok(v) => {
            if *v != id { return Err("the returned value is not the builder's output".into()); }
            if builds != 1 || body.is_empty() { return Err("success without build()".into()); }
        }
        Err(e) => {
            if builds != 0 { return Err("build() was called but an error came back".into()); }
            let want = !body.is_empty();
            if want != (fails.len() == 1) { return Err(format!("{} calls of fail() after an error {} initialisation", fails.len(), if want { "after" } else { "before" })); }
            let class = match e { TriangulationError::NoVertices => Bad::NoVertices, TriangulationError::TrapezoidationError(triangulate::TrapezoidationError::NotEnoughVertices(n)) => Bad::NotEnough(*n), TriangulationError::FanBuilder(_) => return Err("a builder error out of nowhere".into()), _ => Bad::Internal };
            if let Some(FailArg::Other(b, text)) = fails.first() {
                if *b != class { return Err(format!("fail() was told {b:?}, the caller {class:?}")); }
                if *text != message(e) { return Err(format!("fail() was told '{text}', the caller '{}'", message(e))); }
            }
            if let Some(FailArg::Injected(_)) = fails.first() { return Err("fail() was told a builder error out of nowhere".into()); }
        }
    }
    Ok(())
}

pub struct C08;
impl Prop for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> &'static str { "valid and invalid sets x insertion order x custom builder (fans or list, CCW or CW, reversed 0-3 times) that records every call; one run without fault, then one run with an error injected at each call in turn (initialise, every new_fan/extend_fan/add_triangle, build; all calls if at most 48, else 48 spread over them). Oracle: protocol automaton over the recorded calls, identity/display/source of the returned error. Non-trivial: at least 3 injected faults hit." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 30_000_000 } else { 2_000_000 } }
    fn in_domain(&self, _: &Case) -> bool { true }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let (fam, set) = match rng.below(5) {
            _ if rng.chance(1, 15000) => { let (f, mut s) = gen::large(rng); if rng.chance(1, 3) { gen::spoil(rng, &mut s); } (f, s) }
            0 => { let mv = *rng.pick(&[60, 120]); gen::any_set(rng, mv) }
            1 | 2 => gen::any_set(rng, 16),
            3 => { let n = 5 + rng.below(30); ("long-fan", gen::convex(rng, n)) }
            _ => ("wild", gen::wild(rng, 24)),
        };
        let mut c = Case::new(fam, set, gen::order(rng));
        c.p = vec![rng.below(4) as u64, rng.below(4) as u64, rng.below(2) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let flat = P::new(c);
        let (cfg, rev) = (c.param(0) as usize % 4, c.param(1) as usize % 4);
        let n = flat.verts.len() * 8;
        let trap = match guarded(n, c.order, || flat.trapezoidize()).0 { Ok(t) => Some(t), Err(b) if b.crash() => return Verdict::Skip("no answer"), Err(_) => None };
        let src = match &trap { Some(t) if c.param(2) == 0 => Src::Trap(t), _ => Src::Direct(&flat) };
        let mut run = |fail_at: usize, id: u64| guarded(n, c.order, || -> Result<_, Bad> { Ok(logged(src, cfg, rev, fail_at, id)) }).0;
        let (ev, r) = match run(usize::MAX, 5) { Ok(x) => x, Err(_) => return Verdict::Skip("no answer") };
        if let Err(m) = protocol(&flat, cfg >= 2, &ev, &r, usize::MAX, 5) { return Verdict::Fail(format!("without fault: {m}")); }
        let calls = ev.iter().filter(|e| !matches!(e, Ev::Fail(_))).count();
        let points: Vec<usize> = if calls <= 48 { (0..calls).collect() } else { let mut v: Vec<usize> = (0..if calls > 3000 { 20 } else { 48 }).map(|k| match k { 0..=7 => k, 8..=15 => calls - 1 - (k - 8), _ => mix(c.order.seed ^ k as u64) as usize % calls }).collect(); v.sort(); v.dedup(); v };
        let mut hits = 0;
        for k in points {
            let id = 1000 + k as u64;
            let (ev, r) = match run(k, id) { Ok(x) => x, Err(b) => return Verdict::Fail(format!("error at call {k}: {b:?}")) };
            if let Err(m) = protocol(&flat, cfg >= 2, &ev, &r, k, id) { return Verdict::Fail(format!("error at call {k} of {calls}: {m}")); }
            if ev.len() > k { hits += 1; }
        }
        let mut l = vec![["fans CCW", "fans CW", "list CCW", "list CW"][cfg], match &r { Ok(_) => "fault-free run succeeds", Err(_) if calls > 0 => "fault-free run fails after initialisation", _ => "fault-free run fails before initialisation" }];
        if calls <= 48 { l.push("every call faulted"); }
        Verdict::Pass(hits >= 3, l)
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C08)]) }
