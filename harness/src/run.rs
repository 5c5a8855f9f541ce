//! Drive the library on one case with the counting types and a recording fan builder.
use crate::case::Case;
use crate::geom::{tiling, Region, Set, Tiling};
use crate::num::{self, BudgetExceeded, Cf, Ci};
use crate::rng::{mix, mix2};
use num_traits::Float;
use std::{error, fmt, panic};
use triangulate::{FanBuilder, FanFormat, PolygonElement, PolygonList, TrapezoidationError, TriangleWinding, TriangulationError, Vertex};

/// The random choices handed to the library: a seed, and how sequential the shuffle is (0..=256)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Order { pub seed: u64, pub bias: u32 }

pub fn silence_panics() { panic::set_hook(Box::new(|_| {})); }

/// User-defined vertex: counting coordinates and an identity the library knows nothing about
#[derive(Clone, Copy, Debug)]
pub struct Pv<T> { pub c: [Cf<T>; 2], pub id: u32 }
impl<T: Float + fmt::Debug> Vertex for Pv<T> {
    type Coordinate = Cf<T>;
    fn x(&self) -> Cf<T> { self.c[0] }
    fn y(&self) -> Cf<T> { self.c[1] }
}

pub fn coord<T: Float>(case: &Case, x: i64, off: i64) -> T { T::from(x + off).unwrap() * T::from(2.0f64.powi(case.exp)).unwrap() }

pub fn nested<T: Float, V>(case: &Case, set: &Set, f: impl Fn([T; 2], u32) -> V) -> Vec<Vec<V>> {
    let mut id = 0;
    // zero has two representations: in a quarter of the cases either is used at random
    let signs = mix(case.order.seed ^ 0x5a) % 4 == 0;
    let zero = |c: T, id: u32, axis: u64| if signs && c == T::zero() && mix2(case.order.seed, (id as u64) << 1 | axis) & 1 == 1 { -T::zero() } else { c };
    set.iter().map(|p| p.iter().map(|v| { id += 1; f([zero(coord(case, v.0, case.off.0), id, 0), zero(coord(case, v.1, case.off.1), id, 1)], id - 1) }).collect()).collect()
}

/// A polygon list over a flat vertex array with an explicit element sequence (None = NewPolygon).
pub struct Flat<T> {
    pub verts: Vec<Pv<T>>,
    pub elems: Vec<Option<u32>>,
}

impl<T: Float + fmt::Debug> Flat<T> {
    pub fn of(case: &Case, set: &Set) -> Self {
        let mut verts = Vec::new();
        let mut elems = Vec::new();
        for p in nested(case, set, |c: [T; 2], id| Pv { c: [Cf(c[0]), Cf(c[1])], id }) {
            for v in p { elems.push(Some(v.id)); verts.push(v); }
            elems.push(None);
        }
        Flat { verts, elems }
    }
    pub fn new(case: &Case) -> Self { Self::of(case, &case.set) }
}

pub struct FlatIter<'i>(std::slice::Iter<'i, Option<u32>>);
impl<'i> Iterator for FlatIter<'i> {
    type Item = PolygonElement<Ci>;
    fn next(&mut self) -> Option<Self::Item> { num::tick(); self.0.next().map(|e| e.map(Ci).into()) }
}

impl<'p, T: Float + fmt::Debug + 'p> PolygonList<'p> for Flat<T> {
    type Vertex = Pv<T>;
    type Index = Ci;
    type IntoItem = PolygonElement<Ci>;
    type Iter<'i> = FlatIter<'i> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.verts.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { FlatIter(self.elems.iter()) }
    fn get_vertex<'a>(&'a self, i: Ci) -> &'a Pv<T> where 'p: 'a { num::tick(); &self.verts[i.0 as usize] }
}

#[derive(Debug)]
pub enum NoError {}
impl fmt::Display for NoError { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl error::Error for NoError {}

pub struct Rec<const CW: bool> { fans: Vec<Vec<u32>> }
pub struct RecFormat<const CW: bool>;
impl<'p, P: PolygonList<'p, Index = Ci> + ?Sized, const CW: bool> FanFormat<'p, P> for RecFormat<CW> {
    type Builder = Rec<CW>;
    fn initialize(self, _: &'p P, a: Ci, b: Ci, c: Ci) -> Result<Rec<CW>, NoError> { Ok(Rec { fans: vec![vec![a.0, b.0, c.0]] }) }
}
impl<'p, P: PolygonList<'p, Index = Ci> + ?Sized, const CW: bool> FanBuilder<'p, P> for Rec<CW> {
    type Output = Vec<Vec<u32>>;
    type Error = NoError;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: Ci, b: Ci, c: Ci) -> Result<(), NoError> { num::tick(); self.fans.push(vec![a.0, b.0, c.0]); Ok(()) }
    fn extend_fan(&mut self, a: Ci) -> Result<(), NoError> { num::tick(); self.fans.last_mut().unwrap().push(a.0); Ok(()) }
    fn build(self) -> Result<Self::Output, NoError> { Ok(self.fans) }
    fn fail(self, _: &TriangulationError<NoError>) {}
}

/// How a call failed
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    NotEnough(usize),
    NoVertices,
    Internal,
    Builder,
    Panic(String),
    /// the operation budget ran out
    Budget,
}

impl Bad {
    pub fn class(&self) -> &'static str {
        match self { Bad::NotEnough(_) => "not-enough-vertices", Bad::NoVertices => "no-vertices", Bad::Internal => "internal-error", Bad::Builder => "builder-error", Bad::Panic(_) => "panic", Bad::Budget => "does-not-terminate" }
    }
    pub fn crash(&self) -> bool { matches!(self, Bad::Panic(_) | Bad::Budget) }
}

/// An error must say what it is: anything else counts as a defect of its own
fn says(e: &dyn error::Error, what: impl fmt::Display) -> Option<Bad> {
    let (text, what) = (e.to_string(), what.to_string());
    (text.is_empty() || !text.contains(&what)).then(|| Bad::Panic(format!("the text of the error is '{text}', without '{what}'")))
}

impl From<TrapezoidationError> for Bad {
    fn from(e: TrapezoidationError) -> Bad {
        match &e {
            TrapezoidationError::NotEnoughVertices(n) => says(&e, n).unwrap_or(Bad::NotEnough(*n)),
            TrapezoidationError::InternalError(i) => says(&e, &i.msg).unwrap_or(Bad::Internal),
            _ => Bad::Internal,
        }
    }
}

impl<E: error::Error> From<TriangulationError<E>> for Bad {
    fn from(e: TriangulationError<E>) -> Bad {
        match e {
            TriangulationError::TrapezoidationError(i) => { let text = i.to_string(); let e: TriangulationError<E> = TriangulationError::TrapezoidationError(i); if e.to_string() != text { return Bad::Panic(format!("the text of the error is '{e}' instead of '{text}'")); } let TriangulationError::TrapezoidationError(i) = e else { unreachable!() }; i.into() }
            TriangulationError::NoVertices => if e.to_string().is_empty() { Bad::Panic("the error has no text".into()) } else { Bad::NoVertices },
            TriangulationError::FanBuilder(_) => Bad::Builder,
            TriangulationError::InternalError(ref i) => { let t = i.to_string(); if e.to_string() != t || !t.contains(&i.msg) { Bad::Panic(format!("the text of the error is '{e}' instead of '{t}'")) } else { Bad::Internal } }
            _ => Bad::Internal,
        }
    }
}

pub fn expand<I: Copy + TryInto<usize>>(fans: &[Vec<I>]) -> Vec<[usize; 3]> {
    let u = |x: I| x.try_into().ok().unwrap();
    let mut t = Vec::new();
    for f in fans { for k in 2..f.len() { t.push([u(f[0]), u(f[k - 1]), u(f[k])]); } }
    t
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> Bad {
    if e.is::<BudgetExceeded>() { Bad::Budget }
    else if let Some(s) = e.downcast_ref::<String>() { Bad::Panic(s.clone()) }
    else if let Some(s) = e.downcast_ref::<&str>() { Bad::Panic(s.to_string()) }
    else { Bad::Panic("?".into()) }
}

/// A generous operation budget: quadratic in the input, at least ten times what any run on a valid set was seen to need.
pub fn budget(n: usize) -> u64 { let n = n as u64 + 16; 2000 * n + 40 * n * n }

/// Run a piece of library code with a given insertion order, an operation budget and panics caught.
pub fn guarded<R, B: Into<Bad>>(n: usize, order: Order, f: impl FnOnce() -> Result<R, B>) -> (Result<R, Bad>, u64) {
    rand::verif_seed(order.seed, order.bias);
    num::start(budget(n));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    let ticks = num::stop();
    (match r { Ok(Ok(f)) => Ok(f), Ok(Err(e)) => Err(e.into()), Err(e) => Err(panic_text(e)) }, ticks)
}

impl From<std::convert::Infallible> for Bad { fn from(e: std::convert::Infallible) -> Bad { match e {} } }

/// Triangulate a case in one step; returns the fans and the operations used
pub fn fans<T: Float + fmt::Debug, const CW: bool>(flat: &Flat<T>, order: Order) -> (Result<Vec<Vec<u32>>, Bad>, u64) {
    guarded(flat.verts.len(), order, || flat.triangulate(RecFormat::<CW>))
}

/// The tiling oracle with its own error text
pub fn judge(region: &Region, tris: &[[usize; 3]], ccw: bool) -> Result<Tiling, String> {
    if let Some(t) = tris.iter().find(|t| t.iter().any(|i| *i >= region.verts.len())) { return Err(format!("triangle {t:?} has an index outside the input")); }
    let t = tiling(region, tris, ccw);
    let wrong = if ccw { t.clockwise } else { t.counterclockwise };
    if wrong > 0 { return Err(format!("{wrong} of {} triangles have the wrong orientation", tris.len())); }
    if !t.covers { return Err(format!("{} triangles do not tile the region (area {} of {})", tris.len(), t.area2.abs(), region.area2)); }
    Ok(t)
}

/// [polygon, vertex] pairs to flat indices (one fan per triangle)
pub fn from_pairs(set: &Set, t: Vec<[[usize; 2]; 3]>) -> Vec<Vec<u32>> {
    let mut start = Vec::new();
    let mut s = 0;
    for p in set { start.push(s); s += p.len(); }
    t.iter().map(|t| t.iter().map(|[p, v]| if *p < set.len() && *v < set[*p].len() { (start[*p] + v) as u32 } else { u32::MAX }).collect()).collect()
}
