//! C17: calls do not influence one another, whether on other threads, nested in one another, failed or abandoned
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
#[path = "../out.rs"] #[allow(dead_code)] mod out;
use out::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};
use tri_verif::num::{self, BudgetExceeded};
use tri_verif::rng::{mix2, Rng};
use tri_verif::run::*;
use tri_verif::runner::STACK;
use triangulate::{PolygonList, Trapezoidation};

// ---- is a type Sync / Send? An inherent method whose bounds hold wins over one of a trait. ----
struct Probe<T>(PhantomData<T>);
trait Otherwise { fn sync(&self) -> bool { false } fn send(&self) -> bool { false } }
impl<T> Otherwise for Probe<T> {}
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
fn shareable() -> bool { let p = Probe::<Trapezoidation<'static, P>>(PhantomData); p.sync() && p.send() }
/// Lets this file compile (and say so) when Trapezoidation stops being shareable
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

// ---- one thread runs at a time, and changes only inside the callbacks the library makes: coordinate operations, vertex and index accesses, builder calls ----
struct Sched { st: Mutex<(usize, Vec<bool>, Rng)>, cv: Vec<Condvar>, switches: AtomicU64, free: AtomicBool }
impl Sched {
    fn new(k: usize, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let first = rng.below(k);
        Sched { st: Mutex::new((first, vec![true; k], rng)), cv: (0..k).map(|_| Condvar::new()).collect(), switches: AtomicU64::new(0), free: AtomicBool::new(false) }
    }
    fn wait(&self, me: usize, mut st: std::sync::MutexGuard<'_, (usize, Vec<bool>, Rng)>) {
        let t0 = Instant::now();
        while st.0 != me && !self.free.load(Ordering::Relaxed) {
            st = self.cv[me].wait_timeout(st, Duration::from_millis(200)).unwrap().0;
            // the thread whose turn it is waits for one that has to wait for it: let all of them run
            if t0.elapsed() > Duration::from_secs(3) { self.free.store(true, Ordering::Relaxed); for c in &self.cv { c.notify_all(); } }
        }
    }
    fn begin(&self, me: usize) { self.wait(me, self.st.lock().unwrap()); }
    fn pass(&self, me: usize) {
        if self.free.load(Ordering::Relaxed) { return; }
        let mut st = self.st.lock().unwrap();
        let alive: Vec<usize> = (0..st.1.len()).filter(|t| st.1[*t]).collect();
        let next = *st.2.pick(&alive);
        if next == me { return; }
        st.0 = next;
        self.switches.fetch_add(1, Ordering::Relaxed);
        self.cv[next].notify_all();
        self.wait(me, st);
    }
    fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.1[me] = false;
        let alive: Vec<usize> = (0..st.1.len()).filter(|t| st.1[*t]).collect();
        if !alive.is_empty() { let n = *st.2.pick(&alive); st.0 = n; self.cv[n].notify_all(); }
    }
}

struct Abandoned;

struct Env<'a, 'p> {
    flats: &'p [P], regions: &'a [Region], traps: &'a [Trapezoidation<'p, P>], base: &'a [Vec<[u32; 3]>], broken: &'p [(P, Bad)],
    sched: &'a Sched, bias: u32, grain: usize, nest: u32,
    nested: AtomicU64, abandoned: AtomicU64, failed: AtomicU64,
}

impl<'a, 'p> Env<'a, 'p> {
    /// Run library code; at random moments other threads run, other calls are made, or (if `leave`) the call is unwound
    fn during<R>(&self, me: usize, rng: &mut Rng, depth: usize, n: usize, leave: bool, f: impl FnOnce() -> Result<R, Bad>) -> Result<R, Bad> {
        rand::verif_seed(rng.u64(), self.bias);
        let limit = budget(n);
        let mut hrng = Rng::new(rng.u64());
        let mut hooks = 0;
        let leave_at = if leave { rng.below(12) } else { usize::MAX };
        let inner: Cell<Option<String>> = Cell::new(None);
        let inner_ref = &inner;
        let pause = move |r: &mut Rng, hooks: usize| if hooks > 60 { limit } else { 1 + r.below(2 * self.grain) as u64 };
        let first = pause(&mut hrng, 0);
        let hook: Box<dyn FnMut() -> u64 + '_> = Box::new(move || {
            if num::ticks() > limit { panic::panic_any(BudgetExceeded); }
            if hooks == leave_at { panic::panic_any(Abandoned); }
            hooks += 1;
            if depth < 2 && hrng.chance(self.nest, 64) {
                self.nested.fetch_add(1, Ordering::Relaxed);
                if let Err(m) = self.call(me, &mut hrng, depth + 1) { inner_ref.set(Some(format!("nested call: {m}"))); }
            } else { self.sched.pass(me); }
            pause(&mut hrng, hooks)
        });
        // dropped below, before anything it borrows
        num::set_hook(first, unsafe { std::mem::transmute::<Box<dyn FnMut() -> u64 + '_>, Box<dyn FnMut() -> u64>>(hook) });
        let r = panic::catch_unwind(AssertUnwindSafe(f));
        num::drop_hook();
        if let Some(m) = inner.take() { return Err(Bad::Panic(m)); }
        match r {
            Ok(r) => r,
            Err(e) if e.is::<Abandoned>() => { self.abandoned.fetch_add(1, Ordering::Relaxed); Err(Bad::Panic("abandoned".into())) }
            Err(e) if e.is::<BudgetExceeded>() => Err(Bad::Budget),
            Err(e) => Err(Bad::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()))),
        }
    }

    fn whole(&self, i: usize, fans: &[Vec<u32>]) -> Result<(), String> { judge(&self.regions[i], &expand(fans), true).map(|_| ()) }

    /// One call of a random kind, judged
    fn call(&self, me: usize, rng: &mut Rng, depth: usize) -> Result<(), String> {
        let i = rng.below(self.flats.len());
        let flat = &self.flats[i];
        let n = flat.verts.len();
        let leave = rng.chance(1, 6);
        let left = |b: &Bad| leave && *b == Bad::Panic("abandoned".into());
        let kind = rng.below(16);
        match kind {
            // from scratch
            0..=3 => match self.during(me, rng, depth, n, leave, || Ok(flat.triangulate(RecFormat::<false>)?)) {
                Ok(f) => self.whole(i, &f).map_err(|m| format!("triangulate: {m}")),
                Err(b) if left(&b) => Ok(()),
                Err(b) => Err(format!("triangulate: {b:?}")),
            },
            4 | 5 => {
                let t = match self.during(me, rng, depth, n, leave, || Ok(flat.trapezoidize()?)) { Ok(t) => t, Err(b) if left(&b) => return Ok(()), Err(b) => return Err(format!("trapezoidize: {b:?}")) };
                for _ in 0..2 {
                    match self.during(me, rng, depth, n, leave, || Ok(t.triangulate(RecFormat::<false>)?)) {
                        Ok(f) => self.whole(i, &f).map_err(|m| format!("own trapezoidation: {m}"))?,
                        Err(b) if left(&b) => {}
                        Err(b) => return Err(format!("own trapezoidation: {b:?}")),
                    }
                }
                Ok(())
            }
            // the shared trapezoidation in any format
            6..=11 => {
                let (k, rev, how) = (rng.below(KINDS), rng.below(3), rng.below(3));
                match self.during(me, rng, depth, n, leave, || { let (a, r) = Any::new(k, &vec![]).run(Src::Trap(&self.traps[i]), rev, how, u32::MAX); r.map(|_| a.unwrap()) }) {
                    Ok(a) => {
                        let t = triangles(k, &a.read(), u32::MAX).and_then(|t| exact_copies(k, flat, &t).map(|_| t)).map_err(|m| format!("shared trapezoidation, {}: {m}", KIND_NAMES[k]))?;
                        if normal(&t, rev == 1) != self.base[i] { return Err(format!("shared trapezoidation, {}: other triangles than when used alone", KIND_NAMES[k])); }
                        Ok(())
                    }
                    Err(b) if left(&b) => Ok(()),
                    Err(b) => Err(format!("shared trapezoidation, {}: {b:?}", KIND_NAMES[k])),
                }
            }
            // failing ones
            12 | 13 => {
                let (cfg, rev) = (rng.below(4), rng.below(2));
                let fail_at = rng.below(n + 2);
                let direct = rng.chance(1, 2);
                self.failed.fetch_add(1, Ordering::Relaxed);
                match self.during(me, rng, depth, n, leave, || { let s = if direct { Src::Direct(flat) } else { Src::Trap(&self.traps[i]) }; Ok(logged(s, cfg, rev, fail_at, 7)) }) {
                    Ok((ev, Ok(_))) => {
                        let mut t = event_triangles(&ev);
                        if (cfg % 2 == 1) ^ (rev == 1) { for t in &mut t { t.swap(1, 2); } }
                        judge(&self.regions[i], &as_indices(&t), true).map(|_| ()).map_err(|m| format!("custom builder: {m}"))
                    }
                    Ok((ev, Err(e))) => match Bad::from(e) { Bad::Builder if ev.len() > fail_at => Ok(()), b => Err(format!("custom builder failing at call {fail_at}: {b:?}")) },
                    Err(b) if left(&b) => Ok(()),
                    Err(b) => Err(format!("custom builder: {b:?}")),
                }
            }
            _ => {
                let (p, want) = &self.broken[rng.below(self.broken.len())];
                self.failed.fetch_add(1, Ordering::Relaxed);
                match self.during(me, rng, depth, 64, false, || Ok(p.triangulate(RecFormat::<false>)?)) {
                    Err(b) if b == *want => Ok(()),
                    Err(b) => Err(format!("broken input: {b:?} instead of {want:?}")),
                    Ok(_) => Err("broken input: triangulated".into()),
                }
            }
        }
    }
}

pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str { "C17" }
    fn rule(&self) -> &'static str { "1-4 threads, each with a history of 1-4 calls (triangulate from scratch, trapezoidize and triangulate twice, a trapezoidation shared by all threads in any of 14 formats, failing builders, broken input) over 1-3 valid sets; some threads first make up to 300 failing or abandoned calls. A cooperative scheduler decides at random callbacks of the library (coordinate operation, vertex or index access, builder call) which thread goes on, makes nested calls (two levels deep), or unwinds the call by a panic. Oracle: every completed call gives what it gives alone (exact tiling; for the shared trapezoidation the same triangles), every failing one its error; Trapezoidation is Send and Sync. Non-trivial: at least 4 switches between threads, a nested or an abandoned call." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 1_000_000 } else { 50_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let mv = *rng.pick(&[8, 12, 12, 24, 40, 100]);
        let (fam, set) = if rng.chance(1, 1000) { gen::any_set(rng, 400) } else { gen::any_set(rng, mv) };
        let mut c = Case::new(fam, set, gen::order(rng));
        for _ in 0..rng.below(3) { c.more.push(gen::any_set(rng, mv).1); }
        let threads = *rng.pick(&[1, 2, 2, 3, 4]);
        let before = if rng.chance(1, 12) { 1 + rng.below(300) } else { 0 };
        c.p = vec![rng.u64() >> 40, threads, 1 + rng.below(4) as u64, *rng.pick(&[2, 8, 40, 200]), *rng.pick(&[0, 2, 8]), before as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        if !shareable() { return Verdict::Fail("a Trapezoidation can no longer be shared between threads (it is not Send and Sync)".into()); }
        let sets: Vec<&Set> = std::iter::once(&c.set).chain(&c.more).collect();
        let flats: Vec<P> = sets.iter().map(|s| P::of(c, s)).collect();
        let regions: Vec<Region> = sets.iter().map(|s| Region::new(s)).collect();
        // used alone
        let (mut traps, mut base) = (Vec::new(), Vec::new());
        for (i, f) in flats.iter().enumerate() {
            let n = f.verts.len();
            let t = match guarded(n, Order { seed: c.order.seed.wrapping_add(i as u64), bias: c.order.bias }, || f.trapezoidize()).0 { Ok(t) => t, Err(b) => return Verdict::Fail(format!("trapezoidize alone: {b:?}")) };
            match guarded(n, c.order, || t.triangulate(RecFormat::<false>)).0 {
                Ok(fans) => { let t: Vec<[Item; 3]> = expand(&fans).iter().map(|t| t.map(|i| (i as u32, 0, 0))).collect(); base.push(normal(&t, false)); }
                Err(b) => return Verdict::Fail(format!("triangulate alone: {b:?}")),
            }
            traps.push(t);
        }
        let mut broken: Vec<(P, Bad)> = Vec::new();
        for k in 1..3 {
            let mut s = c.set.clone();
            let x = s.iter().flatten().map(|v| v.0).max().unwrap_or(0);
            let two = vec![(x + 1, 0), (x + 1, 1)];
            s.insert(k - 1, two[..k].to_vec());
            broken.push((P::of(c, &s), Bad::NotEnough(k)));
        }
        broken.push((P::of(c, &vec![]), Bad::NoVertices));
        let seed = c.param(0);
        let threads = (c.param(1) as usize).clamp(1, 4);
        let calls = c.param(2).clamp(1, 4);
        let sched = Sched::new(threads, mix2(seed, 1));
        let env = Share(Env { flats: &flats, regions: &regions, traps: &traps, base: &base, broken: &broken, sched: &sched, bias: c.order.bias, grain: c.param(3).max(1) as usize, nest: c.param(4) as u32, nested: AtomicU64::new(0), abandoned: AtomicU64::new(0), failed: AtomicU64::new(0) });
        let fault: Mutex<Option<String>> = Mutex::new(None);
        let before = c.param(5).min(400);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (env, fault) = (&env, &fault);
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                    let env: &Env = { let e: &Share<Env> = env; &e.0 };
                    let mut rng = Rng::new(mix2(seed, 2 + t as u64));
                    env.sched.begin(t);
                    let r = panic::catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                        if t == 0 {
                            for k in 0..before {
                                // failing or abandoned calls only, of one kind or alternating
                                let (p, n) = (&env.flats[0], env.flats[0].verts.len());
                                let b = match (seed + k * (seed & 1)) % 4 {
                                    0 => { let (p, want) = &env.broken[k as usize % env.broken.len()]; guarded(64, Order { seed: k, bias: 0 }, || -> Result<_, Bad> { Ok(p.triangulate(RecFormat::<false>)?) }).0.err().filter(|b| b != want) }
                                    1 => guarded(n, Order { seed: k, bias: 0 }, || -> Result<_, Bad> { Ok(logged(Src::Direct(p), k as usize % 4, 0, k as usize % 3, k)) }).0.err(),
                                    2 => guarded(n, Order { seed: k, bias: 0 }, || -> Result<_, Bad> { Ok(logged(Src::Trap(&env.traps[0]), k as usize % 4, 0, k as usize % 3, k)) }).0.err(),
                                    _ => { let r = cut_short(k, || { let _ = p.triangulate(RecFormat::<false>); }); if r { None } else { Some(Bad::Panic("?".into())) } }
                                };
                                if let Some(b) = b { return Err(format!("failing call {k}: {b:?}")); }
                            }
                        }
                        for k in 0..calls { env.call(t, &mut rng, 0).map_err(|m| format!("thread {t}, call {k}: {m}"))?; }
                        Ok(())
                    })).unwrap_or_else(|_| Err("the harness panicked".into()));
                    num::drop_hook();
                    if let Err(m) = r { let mut f = fault.lock().unwrap(); if f.is_none() { *f = Some(m); } }
                    env.sched.finish(t);
                }).expect("spawn");
            }
        });
        if let Some(m) = fault.into_inner().unwrap() { return Verdict::Fail(m); }
        let mut l = vec![["1 thread", "2 threads", "3 threads", "4 threads"][threads - 1]];
        let (sw, ne, ab) = (sched.switches.load(Ordering::Relaxed), env.0.nested.load(Ordering::Relaxed), env.0.abandoned.load(Ordering::Relaxed));
        l.push(match sw { 0 => "no switch", 1..=15 => "1-15 switches", 16..=127 => "16-127 switches", _ => ">= 128 switches" });
        if ne > 0 { l.push("nested calls"); }
        if ab > 0 { l.push("abandoned calls"); }
        if env.0.failed.load(Ordering::Relaxed) > 0 { l.push("failed calls"); }
        if before > 0 { l.push("failures first"); }
        if sched.free.load(Ordering::Relaxed) { l.push("scheduler gave up"); }
        Verdict::Pass(sw >= 4 || ne > 0 || ab > 0, l)
    }
}

/// Runs f, unwinding it after k counted operations; false if another panic came first
fn cut_short(k: u64, f: impl FnOnce()) -> bool {
    num::start(1 + k % 97);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    num::stop();
    match r { Ok(()) => true, Err(e) => e.is::<BudgetExceeded>() }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C17)]) }
