//! C19: safe user code, however it misbehaves, cannot make the library access memory which is not its own. Built with
//! AddressSanitizer and the checks of the standard library's unsafe functions; either ends the process when it fires.
#![cfg_attr(not(verif_asan), allow(dead_code, unused))]
use std::cell::Cell;
use std::{error, fmt, panic};
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::num::{self, Cf};
use tri_verif::rng::{mix, Rng};
use tri_verif::run::*;
use triangulate::{formats::*, Fan, FanBuilder, FanFormat, Fans, List, ListBuilder, ListFormat, Polygon, PolygonElement, PolygonList, Trapezoidation, TriangleWinding, TriangulationError, Vertex};

#[cfg(verif_asan)]
use num::lies::{self, lie};
#[cfg(not(verif_asan))]
mod lies { pub fn set(_: u32, _: u32, _: u64) {} pub const VALUES: u32 = 1; pub const VERTICES: u32 = 8; pub const ITERATION: u32 = 16; pub const COUNT: u32 = 32; pub const INDEX_EQ: u32 = 64; pub const LENGTHS: u32 = 128; pub const ERRORS: u32 = 256; }
#[cfg(not(verif_asan))]
fn lie(_: u32) -> Option<u64> { eprintln!("not built for this"); std::process::exit(2) }

/// Index on the heap, filled with a pattern: dropped twice, used uninitialised or after being dropped shows
struct Hi(Box<[u32; 3]>);
impl Hi {
    fn new(i: u32) -> Self { Hi(Box::new([i, !i, i ^ 0x5555])) }
    fn get(&self) -> usize { let [a, b, c] = *self.0; if a != !b || c != a ^ 0x5555 { eprintln!("an index is not one of the list's"); std::process::abort() } a as usize }
}
impl Clone for Hi { fn clone(&self) -> Self { num::tick(); Hi::new(self.get() as u32) } }
impl PartialEq for Hi { fn eq(&self, o: &Self) -> bool { num::tick(); if let Some(r) = lie(lies::INDEX_EQ) { return r & 1 == 0; } self.get() == o.get() } }
impl Eq for Hi {}
impl Drop for Hi { fn drop(&mut self) { self.get(); } }

/// Vertex on the heap
#[derive(Clone)]
struct Hv { c: Box<[f64; 2]>, id: Hi, reads: Cell<u32> }
impl Hv {
    fn coord(&self, axis: usize) -> Cf<f64> {
        num::tick();
        self.reads.set(self.reads.get().wrapping_add(1));
        self.id.get();
        if let Some(r) = lie(lies::VALUES) { return Cf(match r % 8 { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => self.c[1 - axis], 4 => -self.c[axis], _ => self.c[axis] + ((r >> 8) % 7) as f64 - 3.0 }); }
        Cf(self.c[axis])
    }
}
impl Vertex for Hv { type Coordinate = Cf<f64>; fn x(&self) -> Cf<f64> { self.coord(0) } fn y(&self) -> Cf<f64> { self.coord(1) } }

struct Odd { verts: Vec<Hv>, elems: Vec<Option<u32>> }
struct OddIter { left: Vec<Option<u32>> }
impl Iterator for OddIter { type Item = PolygonElement<Hi>; fn next(&mut self) -> Option<PolygonElement<Hi>> { num::tick(); self.left.pop().map(|e| e.map(Hi::new).into()) } }
impl<'p> PolygonList<'p> for Odd {
    type Vertex = Hv;
    type Index = Hi;
    type IntoItem = PolygonElement<Hi>;
    type Iter<'i> = OddIter where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { match lie(lies::COUNT) { Some(r) => r as usize % (4 * self.verts.len() + 3), None => self.verts.len() } }
    fn iter_indices<'i>(&'i self) -> OddIter where Self: 'i, 'p: 'i {
        let mut left: Vec<_> = self.elems.iter().rev().copied().collect();
        if let Some(r) = lie(lies::ITERATION) {
            let mut rng = Rng::new(r);
            for _ in 0..1 + rng.below(4) {
                let (n, at) = (left.len(), rng.below(left.len() + 1));
                match rng.below(5) {
                    0 => left.truncate(at),
                    1 => left.insert(at, None),
                    2 => left.insert(at, Some(rng.below(self.verts.len()) as u32)),
                    3 => { let k = rng.below(n + 1); left.rotate_left(k) }
                    _ => { let mut more = left.clone(); left.append(&mut more) }
                }
            }
        }
        OddIter { left }
    }
    fn get_vertex<'a>(&'a self, i: Hi) -> &'a Hv where 'p: 'a { num::tick(); let i = i.get(); if let Some(r) = lie(lies::VERTICES) { return &self.verts[r as usize % self.verts.len()]; } &self.verts[i] }
}

/// Collections which say wrong lengths
struct Lf<F>(Vec<F>);
fn len_of(n: usize) -> usize { match lie(lies::LENGTHS) { Some(r) => match r % 4 { 0 => 0, 1 => usize::MAX, 2 => n.wrapping_sub(1), _ => (r >> 8) as usize % (2 * n + 2) }, None => n } }
impl<F> Fans for Lf<F> { type Fan = F; fn len(&self) -> usize { len_of(self.0.len()) } fn truncate(&mut self, len: usize) { self.0.truncate(len) } fn push(&mut self, f: F) { num::tick(); self.0.push(f) } }
impl<V> List<V> for Lf<[V; 3]> { fn push(&mut self, a: V, b: V, c: V) { num::tick(); self.0.push([a, b, c]) } fn len(&self) -> usize { len_of(self.0.len()) } fn truncate(&mut self, len: usize) { self.0.truncate(len) } }
struct Lfan<V>(Vec<V>);
impl<V> Fan<V> for Lfan<V> { fn new(a: V, b: V, c: V) -> Self { num::tick(); Lfan(vec![a, b, c]) } fn push(&mut self, v: V) { num::tick(); self.0.push(v) } }

/// A builder which fails now and then, with an error on the heap
#[derive(Debug)]
struct He(Box<String>);
impl fmt::Display for He { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl error::Error for He {}
fn fails() -> Result<(), He> { num::tick(); match lie(lies::ERRORS) { Some(r) => Err(He(Box::new(format!("refused {r}")))), None => Ok(()) } }
struct Own<'p> { got: Vec<Hi>, list: Option<&'p Odd>, text: Box<String> }
impl<'p> Own<'p> { fn new() -> Self { Own { got: vec![], list: None, text: Box::new("builder".into()) } } fn touch(&self) { if let Some(l) = self.list { for i in &self.got { l.verts[i.get()].id.get(); } } assert_eq!(*self.text, "builder"); } }
impl<'p> FanFormat<'p, Odd> for Own<'p> {
    type Builder = Own<'p>;
    fn initialize(mut self, l: &'p Odd, a: Hi, b: Hi, c: Hi) -> Result<Own<'p>, He> { fails()?; self.list = Some(l); self.got.extend([a, b, c]); Ok(self) }
}
impl<'p> FanBuilder<'p, Odd> for Own<'p> {
    type Output = Vec<Hi>;
    type Error = He;
    const WINDING: TriangleWinding = TriangleWinding::Clockwise;
    fn new_fan(&mut self, a: Hi, b: Hi, c: Hi) -> Result<(), He> { self.got.extend([a, b, c]); fails() }
    fn extend_fan(&mut self, a: Hi) -> Result<(), He> { fails()?; self.got.push(a); Ok(()) }
    fn build(self) -> Result<Vec<Hi>, He> { self.touch(); fails()?; Ok(self.got) }
    fn fail(self, e: &TriangulationError<He>) { self.touch(); assert!(!e.to_string().is_empty()); num::tick(); }
}
struct OwnList<'p>(Own<'p>);
impl<'p> ListFormat<'p, Odd> for OwnList<'p> {
    type Builder = OwnList<'p>;
    fn initialize(mut self, l: &'p Odd) -> Result<Self, He> { fails()?; self.0.list = Some(l); Ok(self) }
}
impl<'p> ListBuilder<'p, Odd> for OwnList<'p> {
    type Output = Vec<Hi>;
    type Error = He;
    fn add_triangle(&mut self, a: Hi, b: Hi, c: Hi) -> Result<(), He> { self.0.got.extend([a, b, c]); fails() }
    fn build(self) -> Result<Vec<Hi>, He> { self.0.touch(); fails()?; Ok(self.0.got) }
    fn fail(self, e: &TriangulationError<He>) { self.0.touch(); assert!(!e.to_string().is_empty()); num::tick(); }
}

/// Reads everything that is left of a value
trait Touch { fn touch(&self); }
impl Touch for Hi { fn touch(&self) { self.get(); } }
impl Touch for Hv { fn touch(&self) { self.id.get(); std::hint::black_box(self.c[0] + self.c[1]); } }
impl<T: Touch> Touch for Vec<T> { fn touch(&self) { self.iter().for_each(T::touch) } }
impl<T: Touch> Touch for [T; 3] { fn touch(&self) { self.iter().for_each(T::touch) } }
impl<T: Touch> Touch for (T, T, T) { fn touch(&self) { self.0.touch(); self.1.touch(); self.2.touch(); } }
impl<T: Touch> Touch for Lf<T> { fn touch(&self) { self.0.touch() } }
impl<T: Touch> Touch for Lfan<T> { fn touch(&self) { self.0.touch() } }
impl<T: Touch + ?Sized> Touch for &mut T { fn touch(&self) { (**self).touch() } }

#[derive(Default)]
struct Tally { ok: bool, err: bool, panicked: bool }
fn quietly(t: &mut Tally, limit: u64, f: impl FnOnce() -> bool) {
    num::start(limit);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    num::stop();
    match r { Ok(true) => t.ok = true, Ok(false) => t.err = true, Err(_) => t.panicked = true }
}

fn run<'p, F: FanFormat<'p, Odd>>(l: &'p Odd, trap: Option<&Trapezoidation<'p, Odd>>, f: F, rev: u64) -> bool where <F::Builder as FanBuilder<'p, Odd>>::Output: Touch {
    let r = match (trap, rev % 3) {
        (Some(t), 0) => t.triangulate(f), (Some(t), 1) => t.triangulate(f.reverse_winding()), (Some(t), _) => t.triangulate(f.reverse_winding().reverse_winding()),
        (None, 0) => l.triangulate(f), (None, 1) => l.triangulate(f.reverse_winding()), (None, _) => l.triangulate(f.reverse_winding().reverse_winding()),
    };
    match r { Ok(o) => { o.touch(); true } Err(e) => { let _ = std::error::Error::source(&e).map(|s| s.to_string()); !e.to_string().is_empty() && false } }
}

const FORMATS: u64 = 20;
fn one<'p>(t: &mut Tally, limit: u64, l: &'p Odd, trap: Option<&Trapezoidation<'p, Odd>>, fmt: u64, rev: u64) {
    let i = |k: u32| Hi::new(k % l.verts.len() as u32);
    let v = |k: usize| l.verts[k % l.verts.len()].clone();
    macro_rules! into { ($mk:expr, $f:expr) => { {
        let mut c = $mk;
        quietly(t, limit, || run(l, trap, $f(&mut c), rev));
        c.touch();
        quietly(t, limit, || run(l, trap, $f(&mut c), rev));
        c.touch();
    } } }
    match fmt % FORMATS {
        0 => quietly(t, limit, || run(l, trap, IndexedFanFormat::new(vec![vec![i(0), i(1), i(2)]]), rev)),
        1 => into!(vec![vec![i(0), i(1), i(2)]], |c| IndexedFanFormat::new(c)),
        2 => into!(Vec::<Vec<Hv>>::new(), |c| DeindexedFanFormat::new(c)),
        3 => into!(vec![i(0), i(1), i(2)], |c| DelimitedFanFormat::new(c, Hi::new(rev as u32 >> 2))),
        4 => into!(vec![i(0), i(1), i(2)], |c| IndexedListFormat::new(c).into_fan_format()),
        5 => into!(vec![[i(0), i(1), i(2)]], |c| IndexedListFormat::new(c).into_fan_format()),
        6 => into!(vec![(i(0), i(1), i(2))], |c| IndexedListFormat::new(c).into_fan_format()),
        7 => into!(vec![v(0), v(1), v(2)], |c| DeindexedListFormat::new(c).into_fan_format()),
        8 => into!(vec![[v(0), v(1), v(2)]], |c| DeindexedListFormat::new(c).into_fan_format()),
        9 => into!(vec![(v(0), v(1), v(2))], |c| DeindexedListFormat::new(c).into_fan_format()),
        10 => into!(Lf(vec![Lfan(vec![i(0), i(1), i(2)])]), |c| IndexedFanFormat::new(c)),
        11 => into!(Lf(Vec::<Lfan<Hv>>::new()), |c| DeindexedFanFormat::new(c)),
        12 => into!(Lf(vec![i(0), i(1), i(2)]), |c| DelimitedFanFormat::new(c, Hi::new(u32::MAX))),
        13 => into!(Lf(vec![[i(0), i(1), i(2)]]), |c| IndexedListFormat::new(c).into_fan_format()),
        14 => into!(Lf(vec![[v(0), v(1), v(2)]]), |c| DeindexedListFormat::new(c).into_fan_format()),
        15 => quietly(t, limit, || run(l, trap, DeindexedListFormat::new(Vec::<[Hv; 3]>::new()).into_fan_format(), rev)),
        // a list of whole triangles is expected, but a flat one may hold any number
        16 => into!(vec![i(0), i(1)], |c| IndexedListFormat::new(c).into_fan_format()),
        17 => quietly(t, limit, || run(l, trap, OwnList(Own::new()).into_fan_format(), rev)),
        _ => quietly(t, limit, || run(l, trap, Own::new(), rev)),
    }
}

/// The rest of the public interface, with arguments out of range
fn direct(c: &Case, rng: &mut Rng, t: &mut Tally) -> Result<(), String> {
    let polys: Vec<Vec<[f64; 2]>> = nested(c, &c.set, |v: [f64; 2], _| v);
    let far = |rng: &mut Rng, n: usize| match rng.below(4) { 0 => n, 1 => n + rng.below(5), 2 => usize::MAX - rng.below(3), _ => rng.below(n + 1) };
    for _ in 0..8 {
        let p = far(rng, polys.len());
        let n = polys.get(p).map_or(1, |p| p.len());
        let i = far(rng, n);
        let exists = p < polys.len() && i < n;
        let flat = &polys[rng.below(polys.len())];
        let k = far(rng, flat.len());
        macro_rules! answers { ($what:expr, $e:expr, $exists:expr, $is:expr) => { match panic::catch_unwind(panic::AssertUnwindSafe(|| *$e)) {
            Ok(v) => { t.ok = true; if !$exists { return Err(format!("{} has no such vertex but gives {v:?}", $what)); } if v[0].to_bits() != $is[0].to_bits() { return Err(format!("{}: another vertex", $what)); } }
            Err(_) => { t.panicked = true; if $exists { return Err(format!("{} panics for an index of its own", $what)); } }
        } } }
        let it = if exists { polys[p][i] } else { [0.0; 2] };
        answers!("Vec<Vec<_>>", PolygonList::get_vertex(&polys, [p, i]), exists, it);
        let slices: Vec<&[[f64; 2]]> = polys.iter().map(|p| &p[..]).collect();
        answers!("[&[_]]", PolygonList::get_vertex(&&slices[..], [p, i]), exists, it);
        let boxes: Box<[Box<[[f64; 2]]>]> = polys.iter().map(|p| p.clone().into_boxed_slice()).collect();
        answers!("Box<[Box<[_]>]>", PolygonList::get_vertex(&boxes, [p, i]), exists, it);
        let ft = flat.get(k).copied().unwrap_or([0.0; 2]);
        answers!("Vec<_>", Polygon::get_vertex(flat, k), k < flat.len(), ft);
        answers!("a single polygon", PolygonList::get_vertex(flat.as_polygon_list(), k), k < flat.len(), ft);
        answers!("&[_]", Polygon::get_vertex(&&flat[..], k), k < flat.len(), ft);
        if let Ok(k) = u16::try_from(k) { let x = (&flat[..]).index_with::<u16>(); answers!("index_with", PolygonList::get_vertex(&x, k), (k as usize) < flat.len(), ft); }
        if let (Ok(p), Ok(i)) = (u32::try_from(p), u32::try_from(i)) { let x = PolygonList::index_with::<usize, u32>(&polys[..]); answers!("index_with pairs", PolygonList::get_vertex(&x, [p, i]), exists, it); }
    }
    // containers of heap values
    let mut flat: Vec<Hi> = (0..rng.below(8) as u32).map(Hi::new).collect();
    let mut arrays: Vec<[Hi; 3]> = vec![];
    let mut tuples: Vec<(Hi, Hi, Hi)> = vec![];
    let mut fans: Vec<Vec<Hi>> = vec![];
    for k in 0..12 {
        let cut = match rng.below(4) { 0 => usize::MAX / (1 + rng.below(4)), _ => rng.below(7) };
        let h = |d: u32| Hi::new(k * 3 + d);
        match rng.below(3) {
            0 => { <Vec<Hi> as List<Hi>>::truncate(&mut flat, cut); <Vec<[Hi; 3]> as List<Hi>>::truncate(&mut arrays, cut); <&mut Vec<(Hi, Hi, Hi)> as List<Hi>>::truncate(&mut &mut tuples, cut); Fans::truncate(&mut fans, cut); }
            1 => { List::push(&mut flat, h(0), h(1), h(2)); List::push(&mut &mut arrays, h(0), h(1), h(2)); List::push(&mut tuples, h(0), h(1), h(2)); Fans::push(&mut fans, Fan::new(h(0), h(1), h(2))); }
            _ => if let Some(f) = fans.last_mut() { Fan::push(f, h(0)); }
        }
        flat.touch(); arrays.touch(); tuples.touch(); fans.touch();
    }
    // a mapping abandoned halfway
    let stop = rng.below(8);
    let seen = Cell::new(0);
    let f = |h: Hi| { seen.set(seen.get() + 1); if seen.get() == stop { panic!("stop") } Hi::new(h.get() as u32 + 1) };
    macro_rules! abandon { ($e:expr) => { match panic::catch_unwind(panic::AssertUnwindSafe(|| $e)) { Ok(_) => t.ok = true, Err(_) => t.panicked = true } } }
    let h = Hi::new;
    match rng.below(4) {
        0 => abandon!(triangulate::Mappable::map([h(1), h(2), h(3), h(4), h(5)], f)[0].touch()),
        1 => abandon!(<(Hi, Hi, Hi) as triangulate::Mappable<Hi>>::map((h(1), h(2), h(3)), f).touch()),
        2 => abandon!(<Vec<Hi> as triangulate::Mappable<Hi>>::map((0..7).map(h).collect(), f).touch()),
        _ => abandon!({ let (a, b) = <(Hi, Hi) as triangulate::Mappable<Hi>>::map((h(1), h(2)), f); a.touch(); b.touch() }),
    }
    Ok(())
}

pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str { "C19" }
    fn rule(&self) -> &'static str { "valid and broken sets in a user-defined list with indices, vertices and errors on the heap, whose answers are wrong at a random rate: coordinates that change, inconsistent comparisons and arithmetic, other vertices, other iterations, wrong counts, indices that equal others, containers with wrong lengths, builders that fail; the call unwound by a panic at a random operation in a third of the cases; 20 formats, 0-2 reversals, direct or with several triangulations of one trapezoidation. Also vertex access out of range on the built-in representations, containers cut anywhere, mappings abandoned halfway. Oracle: AddressSanitizer and the standard library's unsafe-precondition checks (both end the process), a pattern in every heap value, access out of range panics. Panics, errors and any output are fine. Non-trivial: an error, a panic, or a wrong answer was possible." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 12_000_000 } else { 500_000 } }
    fn in_domain(&self, c: &Case) -> bool { c.n() > 0 && c.p.len() == 6 && c.set.iter().all(|p| !p.is_empty()) }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let mv = *rng.pick(&[6, 8, 12, 24, 24, 80, 200]);
        loop {
            let (fam, set) = if rng.chance(1, 3) { ("wild", gen::wild(rng, mv)) } else { gen::any_set(rng, mv) };
            let mut c = Case::new(fam, set, gen::order(rng));
            let kinds = if rng.chance(1, 8) { 0 } else if rng.chance(1, 2) { 1u64 << rng.below(9) } else { rng.u64() >> 55 };
            let one_in = *rng.pick(&[1, 2, 8, 8, 32, 32, 128, 128, 512, 4096]);
            let n = c.n();
            let limit = if rng.chance(1, 3) { 1 + rng.below(60 * n + 60) as u64 } else { 0 };
            c.p = vec![rng.below(9) as u64, kinds, one_in, limit, rng.below(FORMATS as usize) as u64, rng.u64() >> 40];
            if self.in_domain(&c) { return c; }
        }
    }
    fn eval(&self, c: &Case) -> Verdict {
        let n = c.n() as u64;
        let mut t = Tally::default();
        let mut rng = Rng::new(mix(c.param(5) ^ c.order.seed));
        rand::verif_seed(c.order.seed, c.order.bias);
        let mut labels = vec![];
        if c.param(0) == 0 {
            labels.push("direct");
            lies::set(0, 1, 0);
            if let Err(m) = direct(c, &mut rng, &mut t) { return Verdict::Fail(m); }
        } else {
            let mut verts = vec![];
            let mut elems = vec![];
            for p in nested(c, &c.set, |v: [f64; 2], id| (v, id)) { for (v, id) in p { elems.push(Some(id)); verts.push(Hv { c: Box::new(v), id: Hi::new(id), reads: Cell::new(0) }); } elems.push(None); }
            let l = Odd { verts, elems };
            let limit = if c.param(3) == 0 { 200 * n + 4 * n * n + 1000 } else { c.param(3) };
            lies::set(c.param(1) as u32, c.param(2) as u32, mix(c.param(5)));
            if c.param(0) % 2 == 0 {
                labels.push("trapezoidation kept");
                let trap = Cell::new(None);
                quietly(&mut t, limit, || match l.trapezoidize() { Ok(x) => { trap.set(Some(x)); true } Err(e) => { let _ = e.to_string(); false } });
                if let Some(x) = trap.take() { for k in 0..3 { one(&mut t, limit, &l, Some(&x), c.param(4) + k * 7, c.param(5) >> k); } }
            } else {
                labels.push("in one step");
                one(&mut t, limit, &l, None, c.param(4), c.param(5));
            }
            lies::set(0, 1, 0);
            l.verts.touch();
            for (k, name) in ["values", "comparisons", "arithmetic", "vertices", "iteration", "count", "index equality", "lengths", "builder errors"].iter().enumerate() { if c.param(1) >> k & 1 == 1 { labels.push(name); } }
        }
        if t.ok { labels.push("output"); }
        if t.err { labels.push("error"); }
        if t.panicked { labels.push("panic"); }
        Verdict::Pass(t.err || t.panicked || c.param(1) != 0, labels)
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C19)]) }
