//! C01 exact tiling, C02 success and termination, C03 conformity
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
use tri_verif::num::Cf;
use tri_verif::rng::Rng;
use tri_verif::run::*;
use triangulate::{formats, ListFormat, PolygonList};

fn labels(case: &Case, region: &Region, f: &[Vec<u32>]) -> Vec<&'static str> {
    let mut l = Vec::new();
    if region.depth.iter().any(|d| *d == 1) { l.push("has-hole"); }
    if region.depth.iter().any(|d| *d >= 2) { l.push("has-island-in-hole"); }
    if region.depth.iter().filter(|d| **d == 0).count() > 1 { l.push("several-outer"); }
    let n = case.n();
    l.push(match n { 0..=8 => "n<=8", 9..=32 => "n 9-32", 33..=128 => "n 33-128", 129..=1024 => "n 129-1024", _ => "n>1024" });
    if case.set.iter().any(|p| (0..p.len()).any(|i| p[i].1 == p[(i + 1) % p.len()].1)) { l.push("horizontal-edge"); }
    if case.set.iter().any(|p| (0..p.len()).any(|i| cross(p[i], p[(i + 1) % p.len()], p[(i + 2) % p.len()]) == 0)) { l.push("collinear-run"); }
    if f.iter().any(|f| f.len() > 16) { l.push("fan>16"); }
    if (201..=256).contains(&case.order.bias) { l.push("nearly-sequential-order"); }
    if case.exp != 0 { l.push("scaled"); }
    if case.off != (0, 0) { l.push("translated"); }
    l
}

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> &'static str { "valid polygon sets by construction (boundaries of random mesh/grid regions, stars, monotone polygons, combs, spirals, 2-opt polygons on tiny grids, side-by-side and nested compositions; random symmetry, orientation, start vertex, polygon order, collinear insertions, translation, power-of-two scale, f32 or f64) x random insertion order; before these, exhaustively, every simple polygon (up to the start vertex) of some small grids with every insertion order; oracle: exact integer 2-chain comparison of the triangles with the even-odd region. Non-trivial: more than one triangle." }
    fn cases(&self, thorough: bool) -> u64 { gen::Exhaustive::get(thorough).total + if thorough { 60_000_000 } else { 2_500_000 } }
    fn gen(&self, rng: &mut Rng, i: u64, thorough: bool) -> Case {
        if let Some(c) = gen::Exhaustive::get(thorough).case(i) { return c; }
        let (fam, set) = gen::sized(rng);
        let mut c = Case::new(fam, set, gen::order(rng));
        let single = rng.chance(1, 4) && gen::place(rng, &mut c, true);
        if !single { gen::place(rng, &mut c, false); }
        // coordinate type; entry point
        c.p = vec![single as u64, rng.below(4) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let f = if c.param(0) == 1 {
            if c.param(1) == 1 {
                let l = nested(c, &c.set, |v: [f32; 2], _| [Cf(v[0]), Cf(v[1])]);
                guarded(c.n(), c.order, || l.triangulate(formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format())).0.map(|t| from_pairs(&c.set, t))
            } else { fans::<f32, false>(&Flat::new(c), c.order).0 }
        } else if c.param(1) == 1 {
            let l = nested(c, &c.set, |v: [f64; 2], _| [Cf(v[0]), Cf(v[1])]);
            guarded(c.n(), c.order, || l.triangulate(formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format())).0.map(|t| from_pairs(&c.set, t))
        } else { fans::<f64, false>(&Flat::new(c), c.order).0 };
        let f = match f { Ok(f) => f, Err(b) => return Verdict::Fail(format!("triangulation of a valid set failed: {b:?}")) };
        let region = Region::new(&c.set);
        let tris = expand(&f);
        if let Err(m) = judge(&region, &tris, true) { return Verdict::Fail(m); }
        Verdict::Pass(tris.len() > 1, labels(c, &region, &f))
    }
}

pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> &'static str { "as C01, in a release build and (smaller sets) in a build with debug assertions, overflow checks and std precondition checks; operations on coordinates, indices and builder calls are counted and bounded by 2000n + 40n^2. Oracle: trapezoidize and triangulate both return Ok. Non-trivial: at least 4 vertices." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 60_000_000 } else { 3_000_000 } }
    fn checked_share(&self) -> u64 { 6 }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let (fam, set) = if cfg!(debug_assertions) { if rng.chance(1, 150) { let mv = *rng.pick(&[300, 300, 700, 1500]); gen::any_set(rng, mv) } else { let mv = *rng.pick(&[12, 24, 24, 48, 90]); gen::any_set(rng, mv) } } else { gen::sized(rng) };
        let mut c = Case::new(fam, set, gen::order(rng));
        if rng.chance(1, 4) { gen::place(rng, &mut c, false); }
        c.p = vec![rng.below(8) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let flat = Flat::<f64>::new(c);
        // more work than a few large inputs need is reported with the number of operations
        let r = match c.param(0) {
            0 => guarded(c.n(), c.order, || flat.trapezoidize().map(|_| Vec::new())),
            1 => guarded(c.n(), c.order, || flat.triangulate(RecFormat::<true>)),
            _ => fans::<f64, false>(&flat, c.order),
        };
        match r.0 {
            Ok(f) => Verdict::Pass(c.n() > 3, if cfg!(debug_assertions) { vec!["checked-build"] } else { let region = Region::new(&c.set); labels(c, &region, &f) }),
            Err(b) => Verdict::Fail(format!("a valid set was not triangulated: {b:?} after {} operations", r.1)),
        }
    }
}

pub struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str { "valid sets as C01 with more collinear runs x random insertion order, and exhaustively the polygons and orders of small grids as in C01 (winding alternating); oracle: directed edges of the triangles cancel pairwise except for exactly the polygon edges (region on the left), each directed edge occurs once, corners are distinct input vertices, every vertex is used, count = n + 2*holes - 2*outer. Non-trivial: at least two triangles share an edge." }
    fn cases(&self, thorough: bool) -> u64 { gen::Exhaustive::get(thorough).total + if thorough { 60_000_000 } else { 2_500_000 } }
    fn gen(&self, rng: &mut Rng, i: u64, thorough: bool) -> Case {
        if let Some(mut c) = gen::Exhaustive::get(thorough).case(i) { c.p = vec![i & 1]; return c; }
        let (fam, mut set) = gen::sized(rng);
        if rng.chance(1, 3) { gen::add_collinear(rng, &mut set, 1, 2); }
        let mut c = Case::new(fam, set, gen::order(rng));
        c.p = vec![rng.below(2) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let flat = Flat::<f64>::new(c);
        let ccw = c.param(0) == 0;
        let r = if ccw { fans::<f64, false>(&flat, c.order) } else { fans::<f64, true>(&flat, c.order) }.0;
        let f = match r { Ok(f) => f, Err(b) => return Verdict::Fail(format!("triangulation of a valid set failed: {b:?}")) };
        let region = Region::new(&c.set);
        let tris = expand(&f);
        if let Some(t) = tris.iter().find(|t| t.iter().any(|i| *i >= region.verts.len())) { return Verdict::Fail(format!("triangle {t:?} has an index outside the input")); }
        if let Some(t) = tris.iter().find(|t| t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) { return Verdict::Fail(format!("triangle {t:?} repeats a vertex")); }
        let t = tiling(&region, &tris, ccw);
        if !t.conforming { return Verdict::Fail(format!("the sides of the {} triangles do not match each other and the polygon edges", tris.len())); }
        let mut seen = std::collections::HashSet::with_capacity(tris.len() * 3);
        for t in &tris { for k in 0..3 { let e = (t[k], t[(k + 1) % 3]); if !seen.insert(e) { return Verdict::Fail(format!("side {e:?} occurs twice in the same direction")); } } }
        if t.unused_vertices > 0 { return Verdict::Fail(format!("{} vertices are not used", t.unused_vertices)); }
        if tris.len() != region.expected_triangles() { return Verdict::Fail(format!("{} triangles instead of {}", tris.len(), region.expected_triangles())); }
        let mut l = labels(c, &region, &f);
        if t.degenerate > 0 { l.push("zero-area-triangle"); }
        Verdict::Pass(tris.len() > 1, l)
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C01), Box::new(C02), Box::new(C03)]) }
