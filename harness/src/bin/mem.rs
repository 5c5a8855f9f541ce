//! C18: calls give back their memory
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use tri_verif::case::*;
use tri_verif::gen;
#[path = "../out.rs"] #[allow(dead_code)] mod out;
use out::*;
use tri_verif::geom::is_valid;
use tri_verif::num::{self, BudgetExceeded};
use tri_verif::rng::Rng;
use tri_verif::run::*;
use triangulate::PolygonList;

thread_local!(static BYTES: Cell<i64> = const { Cell::new(0) });
thread_local!(static BLOCKS: Cell<i64> = const { Cell::new(0) });
fn add(bytes: i64, blocks: i64) { let _ = BYTES.try_with(|b| b.set(b.get() + bytes)); let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks)); }
struct Meter;
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64, 1); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64), -1); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64, 0); System.realloc(p, l, n) }
}
#[global_allocator]
static METER: Meter = Meter;
fn live() -> (i64, i64) { (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get())) }

const WHAT: [&str; 5] = ["triangulated from scratch", "trapezoidation triangulated", "failing builder", "broken input", "abandoned"];

/// Calls of one kind, with everything they return dropped; says whether the call succeeded
fn call(c: &Case, flat: &P, kind: usize) -> bool {
    let n = flat.verts.len();
    let (fmt, rev, how) = (c.param(1) as usize % KINDS, c.param(2) as usize % 3, c.param(3) as usize % 3);
    match kind {
        0 | 3 => guarded(n * 8, c.order, || { let (_, r) = Any::new(fmt, &vec![]).run(Src::Direct(flat), rev, how, u32::MAX); r }).0.is_ok(),
        1 => {
            let Ok(t) = guarded(n, c.order, || flat.trapezoidize()).0 else { return false };
            (0..2).all(|_| guarded(n, c.order, || { let (_, r) = Any::new(fmt, &vec![]).run(Src::Trap(&t), rev, how, u32::MAX); r }).0.is_ok())
        }
        2 => {
            let fail_at = c.param(4) as usize % (n + 3);
            guarded(n, c.order, || -> Result<bool, Bad> { Ok(logged(Src::Direct(flat), fmt % 4, rev % 2, fail_at, 5).1.is_ok()) }).0.unwrap_or(false)
        }
        _ => {
            rand::verif_seed(c.order.seed, c.order.bias);
            num::start(1 + c.param(4));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let (_, r) = Any::new(fmt, &vec![]).run(Src::Direct(flat), rev, how, u32::MAX); r.is_ok() }));
            num::stop();
            match r { Ok(ok) => ok, Err(e) => { assert!(e.is::<BudgetExceeded>()); false } }
        }
    }
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> &'static str { "one call (from scratch, trapezoidize plus two triangulations, failing builder, broken input, unwound by a panic after a random number of operations; any of 14 formats, by value or reference, reversals) repeated 48 times with the same arguments and insertion order, everything it returns dropped. Oracle: a counting allocator (per thread, bytes and blocks) shows after the 48th call what it showed after the 6th; growth must show twice. Non-trivial: a set of more than 3 vertices." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 6_000_000 } else { 250_000 } }
    fn in_domain(&self, c: &Case) -> bool { c.param(0) == 3 || is_valid(&c.set) }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let kind = rng.below(5);
        let mv = *rng.pick(&[8, 12, 24, 24, 80, 200]);
        let (fam, set) = if kind == 3 { ("wild", gen::wild(rng, mv)) } else if rng.chance(1, 4000) { loop { let r = gen::large(rng); if r.1.iter().map(|p| p.len()).sum::<usize>() < 20000 { break r; } } } else { gen::any_set(rng, mv) };
        let mut c = Case::new(fam, set, gen::order(rng));
        let n = c.n();
        c.p = vec![kind as u64, rng.below(KINDS) as u64, rng.below(3) as u64, rng.below(3) as u64, rng.below(if kind == 4 { 40 * n + 40 } else { n + 3 }) as u64];
        if kind == 3 && rng.chance(1, 6) { let k = rng.below(3); let at = rng.below(c.set.len() + 1); c.set.insert(at, (0..k).map(|i| (i as i64, 1)).collect()); }
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let kind = c.param(0) as usize % 5;
        let flat = P::new(c);
        let mut ok = false;
        let mut grows = None;
        // what is set up once, whenever that may be, does not show a second time
        for _ in 0..2 {
            for _ in 0..6 { ok = call(c, &flat, kind); }
            let before = live();
            for _ in 6..48 { ok = call(c, &flat, kind); }
            let after = live();
            if after == before { grows = None; break; }
            grows = Some((after.0 - before.0, after.1 - before.1));
        }
        if let Some((bytes, blocks)) = grows { return Verdict::Fail(format!("{}: 42 further calls change the memory in use by {bytes} bytes and {blocks} blocks", WHAT[kind])); }
        Verdict::Pass(c.n() > 3, vec![WHAT[kind], if ok { "succeeded" } else { "failed" }])
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C18)]) }
