//! C09: separators, empty and small groups
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
use tri_verif::num::{Cf, Ci};
use tri_verif::rng::{mix, Rng};
use tri_verif::run::*;
use triangulate::{formats, ListFormat, PolygonList};
type P = Flat<f64>;

/// Preconditions hold apart from groups of fewer than three vertices
fn otherwise_valid(set: &Set) -> bool {
    let big: Set = set.iter().filter(|p| p.len() >= 3).cloned().collect();
    if !is_valid(&big) { return false; }
    let small: Vec<(Pt, Pt)> = set.iter().filter(|p| p.len() == 1 || p.len() == 2).map(|p| (p[0], *p.last().unwrap())).collect();
    for (i, s) in small.iter().enumerate() {
        if set.iter().any(|p| p.len() == 2 && p[0] == p[1]) { return false; }
        if big.iter().any(|p| (0..p.len()).any(|k| segments_touch(s.0, s.1, p[k], p[(k + 1) % p.len()]))) { return false; }
        if small[..i].iter().any(|t| segments_touch(s.0, s.1, t.0, t.1)) { return false; }
    }
    true
}

/// The sizes of the groups (the first ones, where there are many)
fn sizes(set: &Set) -> Vec<usize> { set.iter().map(|p| p.len()).take(100).collect() }

pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn rule(&self) -> &'static str { "sequences of 0-8 groups of 0, 1, 2 or more vertices (otherwise valid, small groups inside or outside other polygons) at any position, as custom polygon list with 0-3 extra separators before, between and after the groups, or as nested vectors, direct or index-substituted, x insertion order, via trapezoidize or triangulate with fan and list formats. Oracle: classification by the group sizes; if none is small the triangles tile the region exactly. Non-trivial: an empty or small group or an extra separator is present." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 100_000_000 } else { 6_000_000 } }
    fn in_domain(&self, c: &Case) -> bool { otherwise_valid(&c.set) }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        // beyond internal size limits, once in a while
        let big = rng.chance(1, 8000);
        for _ in 0..50 {
            let mut set: Set = match rng.below(6) { _ if big => { let n = *rng.pick(&[300, 1100, 2100, 4200, 8300, 16500, 20000]) + rng.below(64); if rng.chance(1, 2) { gen::convex(rng, n) } else { gen::monotone(rng, n, 1000, 2, false) } } 0 => vec![], 1 => gen::any_set(rng, 60).1, _ => gen::any_set(rng, 16).1 };
            let mode = rng.below(3);
            // more groups than 8 or 16 bits count, most of them empty
            if big && rng.chance(1, 2) {
                set = gen::any_set(rng, 60).1;
                let k = *rng.pick(&[124, 252, 508, 1020, 32764, 65532]);
                let at: Vec<(usize, usize)> = (0..rng.below(3)).map(|_| (rng.below(set.len() + 1), k + rng.below(8))).collect();
                for (at, k) in at { set.splice(at..at, vec![vec![]; k]); }
            }
            for _ in 0..rng.below(4) { let at = rng.below(set.len() + 1); set.insert(at, vec![]); }
            if mode == 0 {
                for _ in 0..1 + rng.below(2) {
                    let k = 1 + rng.below(2);
                    let r = if rng.chance(1, 2) { 12 } else { 4000 };
                    let at = rng.below(set.len() + 1);
                    let p: Vec<Pt> = (0..k).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect();
                    set.insert(at, p);
                }
            }
            let mut c = Case::new("groups", set, gen::order(rng));
            c.p = vec![rng.below(6) as u64, if rng.chance(1, 4) { 0 } else { rng.u64() >> 40 }, rng.below(4) as u64];
            if self.in_domain(&c) { return c; }
        }
        Case::new("groups", vec![], gen::order(rng))
    }
    fn eval(&self, c: &Case) -> Verdict {
        let n = c.n();
        let work = n + c.set.len();
        let rep = c.param(0);
        let trapezoidize = c.param(2) == 1;
        let mut seps = false;
        let r: Result<Option<Vec<[usize; 3]>>, Bad> = if rep < 3 {
            let mut flat = P::new(c);
            flat.elems.clear();
            let mut id = 0;
            let h = c.param(1);
            let extra = |k: usize| if h == 0 { 0 } else { (mix(h ^ k as u64) % 4) as usize };
            for (k, p) in c.set.iter().enumerate() {
                // one separator is needed between groups, none at the start
                let s = extra(k) + (k > 0) as usize;
                if s > (k > 0) as usize { seps = true; }
                for _ in 0..s { flat.elems.push(None); }
                for _ in p { flat.elems.push(Some(id)); id += 1; }
            }
            for _ in 0..extra(99) { flat.elems.push(None); seps = true; }
            if trapezoidize { guarded(work, c.order, || flat.trapezoidize().map(|_| None)).0 }
            else if rep == 2 { guarded(work, c.order, || flat.triangulate(formats::IndexedListFormat::new(Vec::<[Ci; 3]>::new()).into_fan_format()).map(|t| Some(t.iter().map(|t| [t[0].0 as usize, t[1].0 as usize, t[2].0 as usize]).collect()))).0 }
            else { guarded(work, c.order, || flat.triangulate(RecFormat::<false>).map(|f| Some(expand(&f)))).0 }
        } else {
            let l = nested(c, &c.set, |v: [f64; 2], _| [Cf(v[0]), Cf(v[1])]);
            let conv = |t: Vec<[[usize; 2]; 3]>| Some(expand(&from_pairs(&c.set, t)));
            if rep == 5 {
                let l = l.index_with::<usize, u32>();
                if trapezoidize { guarded(work, c.order, || l.trapezoidize().map(|_| None)).0 } else { guarded(work, c.order, || l.triangulate(formats::IndexedListFormat::new(Vec::<[[u32; 2]; 3]>::new()).into_fan_format()).map(|t| conv(t.iter().map(|t| t.map(|i| i.map(|x| x as usize))).collect()))).0 }
            } else if trapezoidize { guarded(work, c.order, || PolygonList::trapezoidize(&l).map(|_| None)).0 }
            else { guarded(work, c.order, || PolygonList::triangulate(&l, formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format()).map(conv)).0 }
        };
        let small: Vec<usize> = c.set.iter().map(|p| p.len()).filter(|k| *k == 1 || *k == 2).collect();
        let empty = c.set.iter().any(|p| p.is_empty());
        let nt = seps || empty || !small.is_empty() || n == 0;
        let mut l = Vec::new();
        if seps { l.push("extra separators"); }
        if empty { l.push("empty polygon"); }
        if !small.is_empty() {
            l.push("small polygon");
            return match r { Err(Bad::NotEnough(k)) if small.contains(&k) => Verdict::Pass(nt, l), r => Verdict::Fail(format!("groups of {:?} vertices: {}", sizes(&c.set), match r { Ok(_) => "success".into(), Err(b) => format!("{b:?}") })) };
        }
        if n == 0 {
            if trapezoidize { return Verdict::Pass(false, vec!["no vertices, trapezoidize"]); }
            l.push("no vertices");
            return match r { Err(Bad::NoVertices) => Verdict::Pass(nt, l), r => Verdict::Fail(format!("no vertices: {}", match r { Ok(_) => "success".into(), Err(b) => format!("{b:?}") })) };
        }
        match r {
            Err(b) => Verdict::Fail(format!("groups of {:?} vertices: {b:?}", sizes(&c.set))),
            Ok(None) => Verdict::Pass(nt, l),
            Ok(Some(t)) => {
                let flat: Set = c.set.iter().filter(|p| !p.is_empty()).cloned().collect();
                match judge(&Region::new(&flat), &t, true) { Err(m) => Verdict::Fail(m), Ok(_) => Verdict::Pass(nt, l) }
            }
        }
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C09)]) }
