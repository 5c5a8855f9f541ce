//! C10: representations of the same input
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use tri_verif::case::*;
use tri_verif::exact::Q;
use tri_verif::gen;
use tri_verif::geom::*;
use tri_verif::num::Cf;
use tri_verif::rng::Rng;
use tri_verif::run::*;
use triangulate::{formats, ListFormat, Polygon, PolygonElement, PolygonList, Vertex};

/// Laws of one list and a triangulation of it; returns the triangles as flat indices
fn list_case<'p, L: PolygonList<'p>>(l: &'p L, set: &Set, c: &Case, pair: impl Fn(L::Index) -> Option<[usize; 2]>, val: impl Fn(&L::Vertex) -> [f64; 2]) -> Result<Vec<[usize; 3]>, String> where L::Vertex: Clone {
    let n: usize = set.iter().map(|p| p.len()).sum();
    if l.vertex_count() != n { return Err(format!("vertex_count() is {} instead of {n}", l.vertex_count())); }
    // index iteration: groups in order
    let mut groups: Vec<Vec<[usize; 2]>> = vec![vec![]];
    for e in l.iter_indices() {
        match e.into() {
            PolygonElement::NewPolygon => if !groups.last().unwrap().is_empty() { groups.push(vec![]) },
            PolygonElement::ContinuePolygon(i) => {
                let Some([p, v]) = pair(i.clone()) else { return Err("an index which cannot be converted back".into()) };
                if p >= set.len() || v >= set[p].len() { return Err(format!("iteration yields [{p}, {v}]")); }
                let got = val(l.get_vertex(i));
                if got != [set[p][v].0 as f64, set[p][v].1 as f64] { return Err(format!("get_vertex([{p}, {v}]) is {got:?}")); }
                groups.last_mut().unwrap().push([p, v]);
            }
        }
    }
    if groups.last().unwrap().is_empty() { groups.pop(); }
    let want: Vec<Vec<[usize; 2]>> = set.iter().enumerate().filter(|(_, q)| !q.is_empty()).map(|(p, q)| (0..q.len()).map(|v| [p, v]).collect()).collect();
    if groups != want { return Err(format!("iteration yields groups {:?} instead of {:?}", groups.iter().map(|g| g.len()).collect::<Vec<_>>(), set.iter().map(|g| g.len()).collect::<Vec<_>>())); }
    if c.param(2) == 1 { return Ok(Vec::new()); }
    let (r, _) = guarded(n, c.order, || l.triangulate(formats::IndexedListFormat::new(Vec::<[L::Index; 3]>::new()).into_fan_format()));
    let t = r.map_err(|b| format!("{b:?}"))?;
    let mut start = vec![0];
    for p in set { start.push(start.last().unwrap() + p.len()); }
    let mut out = Vec::new();
    for t in t {
        let mut k = [0; 3];
        for (i, x) in t.into_iter().enumerate() {
            match pair(x) { Some([p, v]) if p < set.len() && v < set[p].len() => k[i] = start[p] + v, o => return Err(format!("output index {o:?} does not exist")) }
        }
        out.push(k);
    }
    // the same as vertices
    let (r, _) = guarded(n, c.order, || l.triangulate(formats::DeindexedListFormat::new(Vec::<[L::Vertex; 3]>::new()).into_fan_format()));
    let d = r.map_err(|b| format!("deindexed: {b:?}"))?;
    let pos: std::collections::HashMap<[u64; 2], usize> = set.iter().flatten().enumerate().map(|(i, v)| ([(v.0 as f64).to_bits(), (v.1 as f64).to_bits()], i)).collect();
    let mut dt = Vec::new();
    for t in &d { let mut k = [0; 3]; for i in 0..3 { let [x, y] = val(&t[i]); match pos.get(&[(x + 0.0).to_bits(), (y + 0.0).to_bits()]) { Some(p) => k[i] = *p, None => return Err(format!("output vertex ({x}, {y}) does not exist")) } } dt.push(k); }
    judge(&Region::new(set), &dt, true).map_err(|m| format!("deindexed: {m}"))?;
    Ok(out)
}

/// The library must refuse by panicking
fn must_panic<'p, L: PolygonList<'p>>(l: &'p L, c: &Case) -> Result<(), String> {
    if c.param(2) == 1 { return Ok(()); }
    let r = catch_unwind(AssertUnwindSafe(|| { rand::verif_seed(c.order.seed, c.order.bias); let mut out: Vec<[L::Index; 3]> = Vec::new(); l.triangulate(formats::IndexedListFormat::new(&mut out).into_fan_format()).is_ok() }));
    match r { Err(_) => Ok(()), Ok(ok) => Err(format!("an index type which cannot hold all indices was accepted ({})", if ok { "success" } else { "error" })) }
}

pub const REPS: usize = 26;
pub const REP_NAMES: [&str; REPS] = ["Vec<Vec>", "Vec<Box<[]>>", "Box<[Vec]>", "&[Vec]", "Vec<&[]>", "&[&[]]", "Rc<[Vec]>", "Vec<Rc<[]>>", "Arc<[Box<[]>]>", "u8 list", "u16 list", "u32 list", "u64 list", "i8 list", "i32 list", "u128 list", "u32 then u16 list",
    "&[] list with u16", "single Vec", "single Box<[]>", "single &[]", "single Rc<[]>", "single with u8", "single with u16", "single with i8", "single with i64"];

/// The other vertex types, in three representations
fn few<V: Vertex + Clone + Debug>(c: &Case, rep: usize, mk: impl Fn(Pt) -> V, val: impl Fn(&V) -> [f64; 2] + Copy) -> Result<Option<Vec<[usize; 3]>>, String> {
    let set = &c.set;
    let vv = || -> Vec<Vec<V>> { set.iter().map(|p| p.iter().map(|v| mk(*v)).collect()).collect() };
    match rep {
        0 => list_case(&vv(), set, c, Some, val).map(Some),
        10 => { let l = PolygonList::index_with::<usize, u16>(vv()); if set.iter().map(|p| p.len()).max().unwrap_or(0).max(set.len()) <= 65536 { list_case(&l, set, c, |i: [u16; 2]| Some([i[0] as usize, i[1] as usize]), val).map(Some) } else { must_panic(&l, c).map(|_| None) } }
        _ => { let l: Vec<V> = set[0].iter().map(|v| mk(*v)).collect(); list_case(Polygon::as_polygon_list(&l), set, c, |i: usize| Some([0, i]), val).map(Some) }
    }
}

fn representations(c: &Case, rep: usize) -> Result<Option<Vec<[usize; 3]>>, String> {
    type V = [f64; 2];
    let mk = |v: Pt| [v.0 as f64, v.1 as f64];
    let val = |v: &V| *v;
    let set = &c.set;
    let vv = || -> Vec<Vec<V>> { set.iter().map(|p| p.iter().map(|v| mk(*v)).collect()).collect() };
    let plain = |i: [usize; 2]| Some(i);
    let (most, count) = (set.iter().map(|p| p.len()).max().unwrap_or(0), set.len());
    let fits = |cap: usize| most.max(count) <= cap;
    macro_rules! narrow { ($l:expr, $t:ty, $cap:expr) => {{ let l = $l; if fits($cap) { list_case(&l, set, c, |i: [$t; 2]| Some([usize::try_from(i[0]).ok()?, usize::try_from(i[1]).ok()?]), val).map(Some) } else { must_panic(&l, c).map(|_| None) } }} }
    let single = || -> Vec<V> { set[0].iter().map(|v| mk(*v)).collect() };
    let lone = |i: usize| Some([0, i]);
    macro_rules! lone { ($t:ty, $cap:expr) => {{ let l = Polygon::index_with::<$t>(single()); if fits($cap) { list_case(&l, set, c, |i: $t| Some([0, usize::try_from(i).ok()?]), val).map(Some) } else { must_panic(&l, c).map(|_| None) } }} }
    macro_rules! polygon { ($l:expr) => {{
        let l = $l;
        if Polygon::vertex_count(&l) != most { return Err("Polygon::vertex_count".into()); }
        if Polygon::iter_indices(&l).collect::<Vec<usize>>() != (0..most).collect::<Vec<_>>() { return Err("Polygon::iter_indices".into()); }
        for (i, v) in set[0].iter().enumerate() { if val(Polygon::get_vertex(&l, i)) != [v.0 as f64, v.1 as f64] { return Err(format!("Polygon::get_vertex({i})")); } }
        if c.param(2) == 1 { return list_case(Polygon::as_polygon_list(&l), set, c, lone, val).map(Some); }
        let t = guarded(most, c.order, || Polygon::triangulate(&l, formats::IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format())).0.map_err(|b| format!("{b:?}"))?;
        judge(&Region::new(set), &t, true).map_err(|m| format!("Polygon::triangulate: {m}"))?;
        let trap = guarded(most, c.order, || Polygon::trapezoidize(&l)).0.map_err(|b| format!("{b:?}"))?;
        let t = guarded(most, c.order, || trap.triangulate(formats::IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format())).0.map_err(|b| format!("{b:?}"))?;
        judge(&Region::new(set), &t, true).map_err(|m| format!("Polygon::trapezoidize: {m}"))?;
        list_case(Polygon::as_polygon_list(&l), set, c, lone, val).map(Some)
    }} }
    match rep {
        0 => list_case(&vv(), set, c, plain, val).map(Some),
        1 => { let l: Vec<Box<[V]>> = vv().into_iter().map(|p| p.into_boxed_slice()).collect(); list_case(&l, set, c, plain, val).map(Some) }
        2 => list_case(&vv().into_boxed_slice(), set, c, plain, val).map(Some),
        3 => { let v = vv(); let l: &[Vec<V>] = &v; list_case(&l, set, c, plain, val).map(Some) }
        4 => { let v = vv(); let l: Vec<&[V]> = v.iter().map(|p| &p[..]).collect(); list_case(&l, set, c, plain, val).map(Some) }
        5 => { let v = vv(); let w: Vec<&[V]> = v.iter().map(|p| &p[..]).collect(); let l: &[&[V]] = &w; list_case(&l, set, c, plain, val).map(Some) }
        6 => { let l: Rc<[Vec<V>]> = vv().into(); list_case(&l, set, c, plain, val).map(Some) }
        7 => { let l: Vec<Rc<[V]>> = vv().into_iter().map(|p| p.into()).collect(); list_case(&l, set, c, plain, val).map(Some) }
        8 => { let l: Arc<[Box<[V]>]> = vv().into_iter().map(|p| p.into_boxed_slice()).collect(); list_case(&l, set, c, plain, val).map(Some) }
        9 => narrow!(PolygonList::index_with::<usize, u8>(vv()), u8, 256),
        10 => narrow!(PolygonList::index_with::<usize, u16>(vv()), u16, 65536),
        11 => narrow!(PolygonList::index_with::<usize, u32>(vv()), u32, usize::MAX),
        12 => narrow!(PolygonList::index_with::<usize, u64>(vv()), u64, usize::MAX),
        13 => narrow!(PolygonList::index_with::<usize, i8>(vv()), i8, 128),
        14 => narrow!(PolygonList::index_with::<usize, i32>(vv()), i32, usize::MAX),
        15 => narrow!(PolygonList::index_with::<usize, u128>(vv()), u128, usize::MAX),
        16 => narrow!(PolygonList::index_with::<u32, u16>(PolygonList::index_with::<usize, u32>(vv())), u16, 65536),
        17 => { let v = vv(); let l: &[Vec<V>] = &v; narrow!(PolygonList::index_with::<usize, u16>(l), u16, 65536) }
        18 => polygon!(single()),
        19 => polygon!(single().into_boxed_slice()),
        20 => { let v = single(); let s: &[V] = &v; polygon!(s) }
        21 => { let l: Rc<[V]> = single().into(); polygon!(l) }
        22 => lone!(u8, 256),
        23 => lone!(u16, 65536),
        24 => lone!(i8, 128),
        _ => lone!(i64, usize::MAX),
    }
}

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn rule(&self) -> &'static str { "valid set x insertion order x 26 representations with [f64;2] (owned, boxed, borrowed, reference-counted nested slices; single polygons through Polygon, as_polygon_list; index types u8..u128, i8..i64, chained substitution), three of them also with [f32;2], (f32,f32), (f64,f64), a user struct and exact rationals; sizes around 128, 256 vertices and polygons included. Oracle: vertex_count, index iteration and get_vertex agree with the data; output indices converted back, and deindexed output, tile the region exactly; an index type that is too narrow panics. Non-trivial: more than one triangle, or refusal of a narrow index." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 6_000_000 } else { 350_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let few = rng.chance(1, 3);
        let rep = if few { *rng.pick(&[0, 10, 18]) } else { rng.below(REPS) };
        let narrow = matches!(rep, 9 | 13 | 22 | 24);
        let (fam, set) = if rng.chance(1, 200) && matches!(rep, 10 | 16 | 17 | 23) {
            // wider than 16 bits
            let n = 65536 - 2 + rng.below(4);
            ("wide", (gen::convex(rng, n), 0).0)
        } else if !narrow && rep < 18 && rng.chance(1, 4000) {
            // more polygons than 16 bits count
            let mut s: Set = (0..*rng.pick(&[300i64, 5000, 65536 + 70])).map(|i| { let (x, y) = (i % 256 * 3, i / 256 * 4); vec![(x, y), (x + 2, y), (x + 1, y + 2)] }).collect();
            // in the order of the list each lookup would pass all earlier polygons
            for i in (1..s.len()).rev() { let j = rng.below(i + 1); s.swap(i, j); }
            ("many", s)
        } else if narrow && rng.chance(1, 4) {
            let near = *rng.pick(&[126i64, 127, 128, 129, 254, 255, 256, 257, 300]) as usize;
            if rep < 18 && rng.chance(1, 3) { ("many", (0..near).map(|i| { let x = i as i64 * 3; vec![(x, 0), (x + 2, 0), (x + 1, 2)] }).collect()) }
            else { let n = near.max(3); let mut s = gen::monotone(rng, n, 50, 2, false); gen::present(rng, &mut s); ("boundary", s) }
        } else { let mv = *rng.pick(&[12, 16, 24, 40, 100]); gen::any_set(rng, mv) };
        let mut c = Case::new(fam, set, gen::order(rng));
        let wide = c.set.iter().flatten().any(|v| v.0.abs() > 2048 || v.1.abs() > 2048);
        if rep >= 18 { c.set.truncate(1); }
        // any groups at all, including empty ones and too small ones: the data laws only
        let data = fam != "wide" && rng.chance(1, 4);
        if data {
            if rep >= 18 { if rng.chance(1, 4) { let k = rng.below(3); c.set = vec![(0..k).map(|i| (i as i64, 5)).collect()]; } }
            else {
                if rng.chance(1, 6) { c.set.clear(); }
                for _ in 0..rng.below(5) { let (k, any) = (rng.below(3), rng.below(c.set.len() + 1)); let at = *rng.pick(&[0, c.set.len(), any]); c.set.insert(at, (0..k).map(|i| (at as i64, 7 + i as i64)).collect()); }
            }
        }
        c.p = vec![rep as u64, if !few { 2 } else if wide { 3 + rng.below(3) as u64 } else { [0, 1, 3, 4, 5][rng.below(5)] }, data as u64];
        c
    }
    fn in_domain(&self, c: &Case) -> bool {
        (c.n() > 10000 && (c.set.len() == 1 && c.fam == "wide" || c.fam == "many" && c.param(2) == 0 && c.param(0) < 18)) || (c.param(2) == 1 || is_valid(&c.set) && !c.set.is_empty()) && (c.param(0) < 18 || c.set.len() == 1) && (c.param(1) == 2 || [0, 10, 18].contains(&c.param(0))) && (c.param(1) > 1 || c.set.iter().flatten().all(|v| v.0.abs() <= 2048 && v.1.abs() <= 2048)) && c.exp == 0 && c.off == (0, 0)
    }
    fn eval(&self, c: &Case) -> Verdict {
        let rep = (c.param(0) as usize).min(REPS - 1);
        if !self.in_domain(c) { return Verdict::Skip("generated outside the domain"); }
        // with counted operations first, so that an endless loop ends
        if c.n() < 5000 && c.param(2) == 0 { if let Err(b) = fans::<f64, false>(&Flat::new(c), c.order).0 { return Verdict::Fail(format!("triangulation of a valid set failed: {b:?}")); } }
        let r = match c.param(1) {
            0 => few(c, rep, |v| [v.0 as f32, v.1 as f32], |v| [v[0] as f64, v[1] as f64]),
            1 => few(c, rep, |v| (v.0 as f32, v.1 as f32), |v| [v.0 as f64, v.1 as f64]),
            2 => representations(c, rep),
            3 => few(c, rep, |v| (v.0 as f64, v.1 as f64), |v| [v.0, v.1]),
            4 => few(c, rep, |v| Pv { c: [Cf(v.0 as f64), Cf(v.1 as f64)], id: 9 }, |v| [v.c[0].0, v.c[1].0]),
            _ => few(c, rep, |v| [Q::int(v.0), Q::int(v.1)], |v| [v[0].f64(), v[1].f64()]),
        };
        let l = vec![REP_NAMES[rep], ["[f32;2]", "(f32,f32)", "[f64;2]", "(f64,f64)", "user vertex", "exact rationals"][c.param(1).min(5) as usize]];
        match r {
            Err(m) => Verdict::Fail(format!("{}, {}: {m}", l[0], l[1])),
            Ok(None) => Verdict::Pass(true, vec![l[0], l[1], "narrow index refused"]),
            Ok(Some(_)) if c.param(2) == 1 => { let mut l = l; l.push("data laws"); let odd = c.set.iter().any(|p| p.len() < 3); if odd { l.push("with empty or small groups"); } Verdict::Pass(odd || c.n() > 3, l) }
            Ok(Some(t)) => match judge(&Region::new(&c.set), &t, true) { Err(m) => Verdict::Fail(format!("{}, {}: {m}", l[0], l[1])), Ok(_) => Verdict::Pass(t.len() > 1, l) },
        }
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C10)]) }
