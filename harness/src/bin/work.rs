//! C12: growth of the work per vertex. Built with LLVM's SanitizerCoverage: every executed basic block of the library, of
//! the code it instantiates from the standard library and of the vertex accessors counts as one unit of work; on top of that
//! bytes which are allocated, moved, copied or filled count as 1/16 each. The measure is deterministic and independent of the
//! machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::rng::{mix2, Rng};
use tri_verif::num::Cf;
use tri_verif::run::*;

static BYTES: AtomicU64 = AtomicU64::new(0);
struct Meter;
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64 / 4, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BYTES.fetch_add(n as u64 / 4, Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static METER: Meter = Meter;

#[cfg(all(verif_work, target_arch = "x86_64"))]
mod bytes {
    use super::*;
    use std::arch::asm;
    // these replace the C library's versions for the whole program, so that moving n bytes costs n
    #[no_mangle] pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { BYTES.fetch_add(n as u64, Relaxed); asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags)); d }
    #[no_mangle] pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as u64, Relaxed);
        if (d as usize).wrapping_sub(s as usize) >= n { asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags)); }
        else { asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack)); }
        d
    }
    #[no_mangle] pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { BYTES.fetch_add(n as u64, Relaxed); asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags)); d }
}

// Called at the start of every basic block (SanitizerCoverage); not Rust code, as that would be instrumented in turn.
#[cfg(all(verif_work, target_arch = "x86_64"))]
std::arch::global_asm!(".globl __sanitizer_cov_trace_pc", ".type __sanitizer_cov_trace_pc,@function", "__sanitizer_cov_trace_pc:", "inc qword ptr [rip + VERIF_BLOCKS]", "ret");
#[no_mangle]
static VERIF_BLOCKS: AtomicU64 = AtomicU64::new(0);
#[cfg(verif_work)]
fn counters() -> u64 { VERIF_BLOCKS.load(Relaxed) }
#[cfg(not(verif_work))]
fn counters() -> u64 { eprintln!("not built for measuring work"); std::process::exit(2) }

fn total() -> u64 { counters().wrapping_add(BYTES.load(Relaxed) / 16) }

const FAMILIES: [&str; 11] = ["convex", "star", "spiky star", "comb", "full-height comb", "monotone", "one-sided monotone", "spiral", "zigzag corridor", "mesh boundary", "bow"];

/// A simple polygon with about n vertices, simple by construction
fn shape(rng: &mut Rng, fam: usize, n: usize) -> Vec<[f64; 2]> {
    let ints = |s: Vec<Vec<(i64, i64)>>| -> Vec<[f64; 2]> { s.into_iter().max_by_key(|p| p.len()).unwrap().into_iter().map(|v| [v.0 as f64, v.1 as f64]).collect() };
    match fam {
        0 => { let o = rng.below(1000) as f64 / 1000.0; (0..n).map(|i| { let a = (i as f64 + o) / n as f64 * std::f64::consts::TAU; [1e6 * a.cos(), 3e5 * a.sin()] }).collect() }
        1 => ints(gen::star(rng, n, 1 << 24)),
        2 => (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; let r = if i % 2 == 0 { 1.0 } else { 100.0 } + (rng.below(1000) as f64) / 1000.0; [r * a.cos(), r * a.sin()] }).collect(),
        3 => ints(gen::comb(rng, n * 2 / 5, 1000)),
        4 => { // teeth from bottom to top: every horizontal line meets all of them
            let mut p: Vec<[f64; 2]> = (0..n - 2).map(|i| [i as f64, if i % 2 == 0 { rng.below(100) as f64 } else { 1e6 + rng.below(1 << 20) as f64 }]).collect();
            p.push([n as f64, -5.0]); p.push([-1.0, -7.0]); p
        }
        5 => { ints(gen::monotone(rng, n, 300, 3, false)) }
        6 => { ints(gen::monotone(rng, n, 300, 3, true)) }
        7 => ints(gen::spiral(rng, n / 2)),
        8 => { // a corridor that folds up and down n/2 times
            let k = n / 2;
            let at = |i: usize, d: f64| { let x = i as f64 * 10.0; let up = i % 2 == 1; [x, if up { 5000.0 + d } else { d }] };
            let mut p: Vec<[f64; 2]> = (0..k).map(|i| at(i, 0.0)).collect();
            for i in (0..k).rev() { let mut v = at(i, 0.0); v[1] += 3.0 + (rng.below(100) as f64) / 100.0; p.push(v); }
            p
        }
        9 => { let w = ((n as f64 * 6.0).sqrt() as usize).max(4); ints(gen::mesh(rng, w, w, 64, 12, 128, w)) }
        _ => { // two nested arcs: long thin crescent with all vertices at similar x
            let k = n / 2;
            let t = |i: usize| i as f64 / k as f64 * 3.0;
            let mut p: Vec<[f64; 2]> = (0..k).map(|i| [100.0 * t(i).cos(), 100.0 * t(i).sin()]).collect();
            for i in (0..k).rev() { p.push([99.0 * t(i).cos() + 0.2, 99.0 * t(i).sin()]); }
            p
        }
    }
}

fn measure(rng: &mut Rng, fam: usize, n: usize, orders: usize, turn: u64) -> Option<(usize, f64, f64)> {
    let mut p = shape(rng, fam, n);
    let k = rng.below(p.len());
    p.rotate_left(k);
    if rng.chance(1, 2) { p.reverse(); }
    for v in &mut p { if turn & 1 != 0 { v[0] = -v[0]; } if turn & 2 != 0 { v[1] = -v[1]; } if turn & 4 != 0 { v.swap(0, 1); } }
    let n = p.len();
    let l = Flat { verts: p.into_iter().enumerate().map(|(i, v)| Pv { c: [Cf(v[0]), Cf(v[1])], id: i as u32 }).collect(), elems: (0..n as u32).map(Some).collect() };
    let (mut work, mut ops, mut done) = (0.0, 0.0, 0);
    for _ in 0..orders {
        let seed = rng.u64();
        let before = total();
        let (r, ticks) = fans::<f64, false>(&l, Order { seed, bias: 0 });
        let w = total().wrapping_sub(before);
        // success is judged by other properties
        if r.is_ok() { work += w as f64; ops += ticks as f64; done += 1; }
    }
    let k = done as f64 * n as f64;
    if done == 0 { None } else { Some((n, work / k, ops / k)) }
}

/// Largest accepted growth of the mean work, and of the mean coordinate operations, per vertex for a size ratio r
/// (see DESIGN.md for the calibration)
fn limits(r: f64) -> [f64; 2] { [1.06 + 0.05 * r.log2(), 1.07 + 0.05 * r.log2()] }

/// The first limit which a new measurement exceeds: which earlier one, which measure, growth and limit
fn excess(seen: &[[f64; 3]], b: &[f64; 3]) -> Option<([f64; 3], usize, f64, f64)> {
    seen.iter().find_map(|a| (0..2).find_map(|k| { let (g, l) = (b[k + 1] / a[k + 1], limits(b[0] / a[0])[k]); (g > l).then_some((*a, k, g, l)) }))
}

fn ladder(fam: usize, seed: u64, thorough: bool) {
    // sizes ascending; at each size the same four of the eight reflections and transpositions, several orders each
    let sizes: &[(usize, usize)] = if thorough { &[(1000, 16), (4000, 8), (16000, 4), (64000, 2), (256000, 1)] } else { &[(1000, 12), (4000, 6), (16000, 3), (64000, 1)] };
    let mut seen: Vec<[f64; 3]> = Vec::new();
    for (n, orders) in sizes {
        let (mut w, mut o, mut size, mut k) = (0.0, 0.0, 0.0, 0);
        for s in 0..4u64 {
            let mut rng = Rng::new(mix2(mix2(seed, fam as u64), mix2(*n as u64, s)));
            if let Some((n, x, y)) = measure(&mut rng, fam, *n, *orders, [seed & 3, seed & 3 | 4, !seed & 3, !seed & 3 | 4][s as usize]) { w += x; o += y; size += n as f64; k += 1; }
        }
        if k == 0 { continue; }
        let new = [size / k as f64, w / k as f64, o / k as f64];
        println!("{} {} {}", new[0], new[1], new[2]);
        // no need for larger sizes once a limit is exceeded
        if excess(&seen, &new).is_some() { return; }
        seen.push(new);
    }
}

pub struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn rule(&self) -> &'static str { "one case = one shape family (convex, stars, combs, monotone, spiral, folded corridor, mesh boundary, crescent) x a seed for shapes, presentations (start vertex, orientation, reflection, transposition) and insertion orders; sizes 1,000/4,000/16,000/64,000 (thorough: and 256,000) vertices, several shapes and orders per size; work = executed basic blocks (LLVM SanitizerCoverage) plus bytes allocated or moved / 16; coordinate operations = accesses, comparisons and arithmetic on coordinates. Oracle: the means of both per vertex grow at most by the stated factor per doubling between any two sizes. Non-trivial: all sizes measured." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 11 * 6 } else { 11 * 3 } }
    fn in_domain(&self, c: &Case) -> bool { c.p.len() == 3 && (c.p[0] as usize) < FAMILIES.len() }
    fn gen(&self, rng: &mut Rng, i: u64, thorough: bool) -> Case {
        let f = i % FAMILIES.len() as u64;
        let mut c = Case::new(FAMILIES[f as usize], vec![], Order { seed: 0, bias: 0 });
        c.p = vec![f, rng.u64() >> 32, thorough as u64];
        c
    }
    // a case is a family and a seed: nothing to make smaller
    fn shrink_seconds(&self) -> u64 { 0 }
    fn assumptions(&self) -> Vec<&'static str> { vec!["expectations are estimated by means over sampled shapes and insertion orders; the limit leaves a wide margin over the observed spread"] }
    fn eval(&self, c: &Case) -> Verdict {
        let o = Command::new(std::env::current_exe().unwrap()).args(["ladder", &c.p[0].to_string(), &c.p[1].to_string(), &c.p[2].to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).output().expect("ladder");
        let m: Vec<[f64; 3]> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect::<Vec<f64>>().try_into().ok()).collect();
        if std::env::var("VERIF_SHOW").is_ok() { eprintln!("{} {:?}", c.fam, m); }
        for (i, b) in m.iter().enumerate() { if let Some((a, k, g, l)) = excess(&m[..i], b) {
            return Verdict::Fail(format!("{}: {:.0} {} per vertex at {:.0} vertices, {:.0} at {:.0}: grows by {g:.2} (accepted: {l:.2})", c.fam, a[k + 1], ["units of work", "coordinate operations"][k], a[0], b[k + 1], b[0]));
        } }
        Verdict::Pass(m.len() >= 3, vec![])
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "ladder" { return ladder(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "1"); }
    tri_verif::driver::main(|| vec![Box::new(C12)])
}
