//! C13 arbitrary input, C14 full-precision coordinates
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
use tri_verif::num::{self, Cf};
use tri_verif::rng::Rng;
use tri_verif::run::*;
use num_traits::Float;

pub struct C13;
const SPECIAL: [f64; 12] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e300, -1e300, f64::MIN_POSITIVE, 5e-324, -0.0, 1e17, 3.0000000000000004];
impl C13 {
    fn flat<T: Float + std::fmt::Debug>(&self, c: &Case) -> Flat<T> {
        let mut f = Flat::<T>::new(c);
        let n = f.verts.len();
        if n > 0 { for s in c.p.iter().skip(2) { let (i, axis, k) = ((*s >> 8) as usize % n, (*s >> 4 & 1) as usize, (*s & 15) as usize % SPECIAL.len()); f.verts[i].c[axis] = Cf(T::from(SPECIAL[k]).unwrap_or(T::nan())); } }
        f
    }
}
impl Prop for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn rule(&self) -> &'static str { "arbitrary polygon sets: random points on tiny/large grids, overlaid sets, valid sets with vertices swapped, moved, duplicated, re-ordered, spiked, repeated polygons, groups of 0-2 vertices, f32 and f64, up to 6 coordinates replaced by NaN, infinities, extreme or denormal values x insertion order x CCW/CW; release build and (1/4 as many) a build with std's unsafe-precondition checks, where a panic is tolerated but an abort is not. Oracle: returns within 8000n + 2560n^2 counted operations, no panic (release), every index delivered to the builder exists. Non-trivial: breaks the documented preconditions." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 40_000_000 } else { 2_400_000 } }
    fn checked_share(&self) -> u64 { 4 }
    fn in_domain(&self, _: &Case) -> bool { true }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let mv = *rng.pick(&[8, 12, 24, 24, 40, 80, 200]);
        let mut set = if rng.chance(1, 8000) && !cfg!(debug_assertions) { let mut s = gen::large(rng).1; gen::spoil(rng, &mut s); s } else { gen::wild(rng, mv) };
        if rng.chance(1, 20) { let k = rng.below(3); let at = rng.below(set.len() + 1); set.insert(at, (0..k).map(|i| (i as i64, 1)).collect()); }
        let mut c = Case::new("wild", set, gen::order(rng));
        c.exp = if rng.chance(1, 10) { rng.range(-1000, 900) as i32 } else { 0 };
        c.p = vec![rng.below(2) as u64, rng.below(4) as u64];
        if rng.chance(1, 4) { for _ in 0..1 + rng.below(6) { c.p.push(rng.u64() >> 40); } }
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let n = c.n();
        let run = |ccw: bool| match (c.param(1) == 1, ccw) {
            (true, true) => { let f = self.flat::<f32>(c); guarded(n * 8, c.order, || triangulate::PolygonList::triangulate(&f, RecFormat::<false>)).0 }
            (true, false) => { let f = self.flat::<f32>(c); guarded(n * 8, c.order, || triangulate::PolygonList::triangulate(&f, RecFormat::<true>)).0 }
            (false, true) => { let f = self.flat::<f64>(c); guarded(n * 8, c.order, || triangulate::PolygonList::triangulate(&f, RecFormat::<false>)).0 }
            (false, false) => { let f = self.flat::<f64>(c); guarded(n * 8, c.order, || triangulate::PolygonList::triangulate(&f, RecFormat::<true>)).0 }
        };
        let r = run(c.param(0) == 0);
        let invalid = c.p.len() > 2 || c.exp.abs() > 200 || !is_valid(&c.set);
        let mut l = vec![if invalid { "invalid input" } else { "valid input" }];
        match r {
            Ok(f) => {
                if let Some(i) = f.iter().flatten().find(|i| **i as usize >= n) { return Verdict::Fail(format!("index {i} does not exist (n = {n})")); }
                if f.iter().any(|f| f.len() < 3) { return Verdict::Fail("a fan with fewer than three vertices".into()); }
                l.push("returned triangles");
            }
            Err(Bad::Panic(m)) => { if !cfg!(debug_assertions) { return Verdict::Fail(format!("panic: {m}")); } l.push("panic (tolerated in the checked build)"); }
            Err(Bad::Budget) => return Verdict::Fail(format!("no answer within {} operations (n = {n})", budget(n * 8))),
            Err(b) => l.push(b.class()),
        }
        if c.p.len() > 2 { l.push("special values"); }
        Verdict::Pass(invalid, l)
    }
}

/// Exact value of the float as integer multiple of 2^-k: coordinates for C14 are generated as integers m with |m| < 2^53 (2^24), scaled by 2^exp,
/// so that the library sees full mantissas while the oracle stays in exact integers.
pub struct C14;
impl C14 {
    /// relative error bound (in units of the last place of one) that the generator keeps away from
    fn ok(set: &Set, bits: u32) -> bool {
        let v: Vec<Pt> = set.iter().flatten().copied().collect();
        let eps = 1i128 << (bits - 4);
        for i in 0..v.len() { for j in i + 1..v.len() { for k in j + 1..v.len() {
            let (a, b, d) = (v[i], v[j], v[k]);
            let cr = cross(a, b, d).abs();
            // each difference and product is rounded once or twice: 16 ulps of the larger product, over every choice of base point
            let p1 = (a.0 - b.0).abs().max((a.0 - d.0).abs()).max((b.0 - d.0).abs()) as i128;
            let p2 = (a.1 - b.1).abs().max((a.1 - d.1).abs()).max((b.1 - d.1).abs()) as i128;
            if cr <= p1 * p2 / eps + 1 { return false; }
        } } }
        true
    }
}
impl Prop for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> &'static str { "valid sets spread over the full f64 (53 bit) or f32 (24 bit) mantissa range and perturbed at random in all bits, magnitude 2^-300..2^300, with every vertex triple at least 16 ulps (of the product of extents) from collinear, x insertion order; the products inside the library round. Oracle: exact i128 2-chain tiling on the given coordinates, both windings. Non-trivial: more than one triangle." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 100_000_000 } else { 6_000_000 } }
    fn in_domain(&self, c: &Case) -> bool { is_valid(&c.set) && c.n() <= 170 && C14::ok(&c.set, if c.param(0) == 1 { 24 } else { 53 }) && c.off == (0, 0) && c.set.iter().flatten().all(|v| v.0.abs().max(v.1.abs()) < 1 << (if c.param(0) == 1 { 24 } else { 53 })) }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        for _ in 0..60 {
            let single = rng.chance(1, 3);
            let bits: i64 = if single { 24 } else { 53 };
            let big = rng.chance(1, 400);
            let mv = if big { 90 } else { *rng.pick(&[6, 10, 16, 24]) };
            let (_, mut set) = gen::any_set(rng, mv);
            let n: usize = set.iter().map(|p| p.len()).sum();
            if n > if big { 170 } else { 50 } { continue; }
            let m = set.iter().flatten().map(|v| v.0.abs().max(v.1.abs())).max().unwrap().max(1);
            if m >= 1 << (bits - 4) { continue; }
            let lim = (1i64 << bits) - 1;
            let top = |set: &Set| set.iter().flatten().map(|v| v.0.abs().max(v.1.abs())).max().unwrap().max(1);
            let jitter = |set: &mut Set, rng: &mut Rng, sx: i64, sy: i64| for v in set.iter_mut().flatten() { let (jx, jy) = ((sx / 3).max(1), (sy / 3).max(1)); *v = (v.0 * sx + rng.range(-jx, jx), v.1 * sy + rng.range(-jy, jy)); };
            let style = match rng.below(3) {
                0 => {
                    // all bits in use, sometimes one axis much narrower than the other
                    let scale = lim / m / 2;
                    let (sx, sy) = (scale >> rng.below(8), scale >> rng.below(8));
                    jitter(&mut set, rng, sx, sy);
                    "spread"
                }
                1 => {
                    // small extents far from the origin
                    let scale = (lim / m / 8) >> rng.below(bits as usize - 8);
                    if scale < 1 { continue; }
                    jitter(&mut set, rng, scale, scale);
                    let d = lim - top(&set) - 1;
                    let off = (*rng.pick(&[-d, 0, d, d / 3]), *rng.pick(&[-d, d, d / 2]));
                    for v in set.iter_mut().flatten() { v.0 += off.0; v.1 += off.1; }
                    "far"
                }
                _ => {
                    // strong shear: every triple is close to collinear
                    let s = 1 << rng.below(5);
                    jitter(&mut set, rng, s, s);
                    let t = top(&set) * 2;
                    if t > lim / 8 { continue; }
                    let hi = (lim / t) >> rng.below(bits as usize / 2);
                    if hi < 1 { continue; }
                    let k = rng.range(1, hi);
                    let swap = rng.chance(1, 2);
                    for v in set.iter_mut().flatten() { v.0 += k * v.1; if swap { *v = (v.1, v.0); } }
                    "sheared"
                }
            };
            let fam = style;
            let mut c = Case::new(fam, set, gen::order(rng));
            c.p = vec![single as u64, rng.below(2) as u64];
            c.exp = if single { rng.range(-60, 30) as i32 } else { rng.range(-300, 300) as i32 };
            if self.in_domain(&c) { return c; }
        }
        Case::new("tiny", vec![vec![(0, 0), (1000, 7), (13, 1000)]], gen::order(rng))
    }
    fn eval(&self, c: &Case) -> Verdict {
        let ccw = c.param(1) == 0;
        let r = match (c.param(0) == 1, ccw) {
            (true, true) => fans::<f32, false>(&Flat::new(c), c.order).0, (true, false) => fans::<f32, true>(&Flat::new(c), c.order).0,
            (false, true) => fans::<f64, false>(&Flat::new(c), c.order).0, (false, false) => fans::<f64, true>(&Flat::new(c), c.order).0,
        };
        num::stop();
        let f = match r { Ok(f) => f, Err(b) => return Verdict::Fail(format!("triangulation failed: {b:?}")) };
        let t = expand(&f);
        match judge(&Region::new(&c.set), &t, ccw) { Err(m) => Verdict::Fail(m), Ok(_) => Verdict::Pass(t.len() > 1, vec![if c.param(0) == 1 { "f32" } else { "f64" }]) }
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C13), Box::new(C14)]) }
