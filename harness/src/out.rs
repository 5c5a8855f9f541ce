//! Every built-in output format x container x way of passing it, behind one function.
use tri_verif::num::Ci;
use tri_verif::run::{Bad, Flat, Pv};
use std::collections::VecDeque;
use triangulate::{formats, Fan, FanBuilder, FanFormat, Fans, List, ListFormat, PolygonList, Trapezoidation, TriangulationError};

pub type P = Flat<f64>;
/// One output item: index or vertex id, and the coordinates of a vertex
pub type Item = (u32, u64, u64);

/// Number of format/container combinations
pub const KINDS: usize = 14;
pub const KIND_NAMES: [&str; KINDS] = ["indexed fans Vec<Vec>", "deindexed fans Vec<Vec>", "delimited Vec", "indexed list Vec", "indexed list Vec<[;3]>", "indexed list Vec<(,,)>", "deindexed list Vec", "deindexed list Vec<[;3]>", "deindexed list Vec<(,,)>",
    "indexed fans custom", "deindexed fans custom", "delimited custom", "indexed list custom", "deindexed list custom"];
pub fn is_delimited(kind: usize) -> bool { kind == 2 || kind == 11 }
pub fn is_deindexed(kind: usize) -> bool { matches!(kind, 1 | 6 | 7 | 8 | 10 | 13) }
pub fn is_list(kind: usize) -> bool { matches!(kind, 3..=8 | 12 | 13) }

/// Contents of a collection: groups (fans, triangles), or one group for the flat ones
pub type Content = Vec<Vec<Item>>;

/// User-defined containers: own storage, own order of fields, nothing of Vec's behaviour
#[derive(Debug, Default)]
pub struct MyFans<F> { pub kept: VecDeque<F>, pub pushes: usize }
impl<F> Fans for MyFans<F> {
    type Fan = F;
    fn len(&self) -> usize { self.kept.len() }
    fn truncate(&mut self, len: usize) { while self.kept.len() > len { self.kept.pop_back(); } }
    fn push(&mut self, fan: F) { self.pushes += 1; self.kept.push_back(fan); }
}
#[derive(Debug)]
pub struct MyFan<V> { pub rim: Vec<V>, pub centre: V }
impl<V> Fan<V> for MyFan<V> {
    fn new(v0: V, v1: V, v2: V) -> Self { MyFan { centre: v0, rim: vec![v1, v2] } }
    fn push(&mut self, v: V) { self.rim.push(v); }
}
#[derive(Debug)]
pub struct MyList<V> { pub a: Vec<V>, pub b: Vec<V>, pub c: Vec<V> }
impl<V> List<V> for MyList<V> {
    fn push(&mut self, v0: V, v1: V, v2: V) { self.a.push(v0); self.b.push(v1); self.c.push(v2); }
    fn len(&self) -> usize { self.c.len() }
    fn truncate(&mut self, len: usize) { self.a.truncate(len); self.b.truncate(len); self.c.truncate(len); }
}

/// An element that can be built from and turned into an Item
pub trait El: Sized { fn of(i: Item) -> Self; fn item(&self) -> Item; }
impl El for Ci { fn of(i: Item) -> Self { Ci(i.0) } fn item(&self) -> Item { (self.0, 0, 0) } }
impl El for Pv<f64> {
    fn of(i: Item) -> Self { Pv { c: [tri_verif::num::Cf(f64::from_bits(i.1)), tri_verif::num::Cf(f64::from_bits(i.2))], id: i.0 } }
    fn item(&self) -> Item { (self.id, self.c[0].0.to_bits(), self.c[1].0.to_bits()) }
}

/// A collection that can be filled from and read back into Content
pub trait Coll: Sized { fn fill(c: &Content) -> Self; fn read(&self) -> Content; }
impl<E: El> Coll for Vec<Vec<E>> {
    fn fill(c: &Content) -> Self { c.iter().map(|f| f.iter().map(|i| E::of(*i)).collect()).collect() }
    fn read(&self) -> Content { self.iter().map(|f| f.iter().map(|e| e.item()).collect()).collect() }
}
impl Coll for Vec<Ci> {
    fn fill(c: &Content) -> Self { c.iter().flatten().map(|i| Ci::of(*i)).collect() }
    fn read(&self) -> Content { vec![self.iter().map(|e| e.item()).collect()] }
}
impl Coll for Vec<Pv<f64>> {
    fn fill(c: &Content) -> Self { c.iter().flatten().map(|i| Pv::of(*i)).collect() }
    fn read(&self) -> Content { vec![self.iter().map(|e| e.item()).collect()] }
}
impl<E: El> Coll for Vec<[E; 3]> {
    fn fill(c: &Content) -> Self { c.iter().flat_map(|f| f.chunks_exact(3)).map(|t| [E::of(t[0]), E::of(t[1]), E::of(t[2])]).collect() }
    fn read(&self) -> Content { self.iter().map(|t| t.iter().map(|e| e.item()).collect()).collect() }
}
impl<E: El> Coll for Vec<(E, E, E)> {
    fn fill(c: &Content) -> Self { c.iter().flat_map(|f| f.chunks_exact(3)).map(|t| (E::of(t[0]), E::of(t[1]), E::of(t[2]))).collect() }
    fn read(&self) -> Content { self.iter().map(|t| vec![t.0.item(), t.1.item(), t.2.item()]).collect() }
}
impl<E: El> Coll for MyFans<MyFan<E>> {
    fn fill(c: &Content) -> Self { MyFans { kept: c.iter().map(|f| MyFan { centre: E::of(f[0]), rim: f[1..].iter().map(|i| E::of(*i)).collect() }).collect(), pushes: 0 } }
    fn read(&self) -> Content { self.kept.iter().map(|f| std::iter::once(f.centre.item()).chain(f.rim.iter().map(|e| e.item())).collect()).collect() }
}
impl Coll for MyFans<Ci> {
    fn fill(c: &Content) -> Self { MyFans { kept: c.iter().flatten().map(|i| Ci::of(*i)).collect(), pushes: 0 } }
    fn read(&self) -> Content { vec![self.kept.iter().map(|e| e.item()).collect()] }
}
impl<E: El> Coll for MyList<E> {
    fn fill(c: &Content) -> Self {
        let mut l = MyList { a: vec![], b: vec![], c: vec![] };
        for t in c.iter().flat_map(|f| f.chunks_exact(3)) { l.a.push(E::of(t[0])); l.b.push(E::of(t[1])); l.c.push(E::of(t[2])); }
        l
    }
    fn read(&self) -> Content {
        // columns of different length would be a broken triangle: show it
        (0..self.a.len().max(self.b.len()).max(self.c.len())).map(|i| [self.a.get(i), self.b.get(i), self.c.get(i)].iter().flatten().map(|e| e.item()).collect()).collect()
    }
}

/// Where the triangles come from
#[derive(Clone, Copy)]
pub enum Src<'a, 'p> { Trap(&'a Trapezoidation<'p, P>), Direct(&'p P) }

pub fn go<'p, F: FanFormat<'p, P>>(src: Src<'_, 'p>, f: F, rev: usize) -> Result<<F::Builder as FanBuilder<'p, P>>::Output, TriangulationError<<F::Builder as FanBuilder<'p, P>>::Error>> {
    match (src, rev) {
        (Src::Trap(t), 0) => t.triangulate(f),
        (Src::Trap(t), 1) => t.triangulate(f.reverse_winding()),
        (Src::Trap(t), 2) => t.triangulate(f.reverse_winding().reverse_winding()),
        (Src::Trap(t), _) => t.triangulate(f.reverse_winding().reverse_winding().reverse_winding()),
        (Src::Direct(p), 0) => p.triangulate(f),
        (Src::Direct(p), 1) => p.triangulate(f.reverse_winding()),
        (Src::Direct(p), 2) => p.triangulate(f.reverse_winding().reverse_winding()),
        (Src::Direct(p), _) => p.triangulate(f.reverse_winding().reverse_winding().reverse_winding()),
    }
}

#[derive(Debug)]
pub struct Outcome {
    /// on success: is the returned value the collection that was passed?
    pub res: Result<bool, Bad>,
    /// contents after the call, when the caller still has the collection
    pub after: Option<Content>,
}

/// A collection that lives on over several triangulations
pub enum Any {
    K0(Vec<Vec<Ci>>), K1(Vec<Vec<Pv<f64>>>), K2(Vec<Ci>), K3(Vec<Ci>), K4(Vec<[Ci; 3]>), K5(Vec<(Ci, Ci, Ci)>), K6(Vec<Pv<f64>>), K7(Vec<[Pv<f64>; 3]>), K8(Vec<(Pv<f64>, Pv<f64>, Pv<f64>)>),
    K9(MyFans<MyFan<Ci>>), K10(MyFans<MyFan<Pv<f64>>>), K11(MyFans<Ci>), K12(MyList<Ci>), K13(MyList<Pv<f64>>),
}

macro_rules! each { ($any:expr, $c:ident => $e:expr) => { match $any { Any::K0($c) => $e, Any::K1($c) => $e, Any::K2($c) => $e, Any::K3($c) => $e, Any::K4($c) => $e, Any::K5($c) => $e, Any::K6($c) => $e, Any::K7($c) => $e, Any::K8($c) => $e, Any::K9($c) => $e, Any::K10($c) => $e, Any::K11($c) => $e, Any::K12($c) => $e, Any::K13($c) => $e } } }

impl Any {
    pub fn new(kind: usize, c: &Content) -> Any {
        match kind {
            0 => Any::K0(Coll::fill(c)), 1 => Any::K1(Coll::fill(c)), 2 => Any::K2(Coll::fill(c)), 3 => Any::K3(Coll::fill(c)), 4 => Any::K4(Coll::fill(c)), 5 => Any::K5(Coll::fill(c)), 6 => Any::K6(Coll::fill(c)),
            7 => Any::K7(Coll::fill(c)), 8 => Any::K8(Coll::fill(c)), 9 => Any::K9(Coll::fill(c)), 10 => Any::K10(Coll::fill(c)), 11 => Any::K11(Coll::fill(c)), 12 => Any::K12(Coll::fill(c)), _ => Any::K13(Coll::fill(c)),
        }
    }
    pub fn read(&self) -> Content { each!(self, c => c.read()) }

    /// Triangulate into this collection. how: 0 = by value, 1 = &mut, 2 = &mut &mut
    pub fn run<'p>(self, src: Src<'_, 'p>, rev: usize, how: usize, delim: u32) -> (Option<Any>, Result<bool, Bad>) {
        macro_rules! drive { ($variant:path, $c:ident, $f:ident => $mk:expr) => {{
            let mut $c = $c;
            let addr = &$c as *const _ as usize;
            match how {
                0 => { let $f = $c; match go(src, $mk, rev) { Ok(c) => (Some($variant(c)), Ok(true)), Err(e) => (None, Err(e.into())) } }
                1 => { let r = { let $f = &mut $c; go(src, $mk, rev).map(|o| o as *const _ as usize == addr).map_err(Into::into) }; (Some($variant($c)), r) }
                _ => { let r = { let mut r = &mut $c; let $f = &mut r; go(src, $mk, rev).map(|o| &**o as *const _ as usize == addr).map_err(Into::into) }; (Some($variant($c)), r) }
            }
        }} }
        match self {
            Any::K0(c) => drive!(Any::K0, c, f => formats::IndexedFanFormat::new(f)),
            Any::K1(c) => drive!(Any::K1, c, f => formats::DeindexedFanFormat::new(f)),
            Any::K2(c) => drive!(Any::K2, c, f => formats::DelimitedFanFormat::new(f, Ci(delim))),
            Any::K3(c) => drive!(Any::K3, c, f => formats::IndexedListFormat::new(f).into_fan_format()),
            Any::K4(c) => drive!(Any::K4, c, f => formats::IndexedListFormat::new(f).into_fan_format()),
            Any::K5(c) => drive!(Any::K5, c, f => formats::IndexedListFormat::new(f).into_fan_format()),
            Any::K6(c) => drive!(Any::K6, c, f => formats::DeindexedListFormat::new(f).into_fan_format()),
            Any::K7(c) => drive!(Any::K7, c, f => formats::DeindexedListFormat::new(f).into_fan_format()),
            Any::K8(c) => drive!(Any::K8, c, f => formats::DeindexedListFormat::new(f).into_fan_format()),
            Any::K9(c) => drive!(Any::K9, c, f => formats::IndexedFanFormat::new(f)),
            Any::K10(c) => drive!(Any::K10, c, f => formats::DeindexedFanFormat::new(f)),
            Any::K11(c) => drive!(Any::K11, c, f => formats::DelimitedFanFormat::new(f, Ci(delim))),
            Any::K12(c) => drive!(Any::K12, c, f => formats::IndexedListFormat::new(f).into_fan_format()),
            Any::K13(c) => drive!(Any::K13, c, f => formats::DeindexedListFormat::new(f).into_fan_format()),
        }
    }
}

/// The triangles in (part of) a content. Err: it is not a sequence of whole fans / triangles.
pub fn triangles(kind: usize, content: &Content, delim: u32) -> Result<Vec<[Item; 3]>, String> {
    let mut t = Vec::new();
    let mut fan = |f: &[Item]| -> Result<(), String> {
        if f.len() < 3 { return Err(format!("a fan with {} vertices", f.len())); }
        for k in 2..f.len() { t.push([f[0], f[k - 1], f[k]]); }
        Ok(())
    };
    match kind {
        2 | 11 => { let all: Vec<Item> = content.concat(); if !all.is_empty() { for f in all.split(|i| i.0 == delim) { fan(f)?; } } }
        0 | 1 | 9 | 10 => for f in content { fan(f)?; },
        3 | 6 => { let all: Vec<Item> = content.concat(); if all.len() % 3 != 0 { return Err(format!("{} vertices are not whole triangles", all.len())); } for c in all.chunks(3) { fan(c)?; } }
        _ => for c in content { if c.len() != 3 { return Err(format!("a triangle with {} corners", c.len())); } fan(c)?; },
    }
    Ok(t)
}

/// Initial content: `k` groups (of 1-6 members) with marker ids the input never has
pub fn marker_content(kind: usize, k: usize, delim: u32, salt: u64) -> Content {
    let mut c: Content = Vec::new();
    for g in 0..k {
        // what a collection already holds need not be whole fans; a delimited collection of one index is not empty either
        let n = if is_list(kind) { 3 } else { [3, 4, 5, 6, 1, 2, 3, 1][((salt >> (g % 32)) & 7) as usize] };
        let f: Vec<Item> = (0..n).map(|i| { let id = 3_000_000_000u32 + (g * 16 + i) as u32; if is_deindexed(kind) { (id, (id as f64 * 0.5).to_bits(), (-(id as f64)).to_bits()) } else { (id, 0, 0) } }).collect();
        if is_delimited(kind) && g > 0 { c.push(vec![(delim, 0, 0)]); }
        c.push(f);
    }
    c
}

/// Corners rotated so that the smallest id comes first; reversed triangles are flipped first
pub fn normal(t: &[[Item; 3]], flip: bool) -> Vec<[u32; 3]> {
    let mut v: Vec<[u32; 3]> = t.iter().map(|t| {
        let mut a = [t[0].0, t[1].0, t[2].0];
        if flip { a.swap(1, 2); }
        let k = (0..3).min_by_key(|k| a[*k]).unwrap();
        a.rotate_left(k);
        a
    }).collect();
    v.sort_unstable();
    v
}

pub fn as_indices(t: &[[Item; 3]]) -> Vec<[usize; 3]> { t.iter().map(|t| [t[0].0 as usize, t[1].0 as usize, t[2].0 as usize]).collect() }

/// Deindexed items must be bit-exact copies of the vertex with that id
pub fn exact_copies(kind: usize, flat: &P, t: &[[Item; 3]]) -> Result<(), String> {
    for i in t.iter().flatten() {
        let Some(v) = flat.verts.get(i.0 as usize) else { return Err(format!("unknown vertex {}", i.0)) };
        if is_deindexed(kind) && v.item() != *i { return Err(format!("vertex {} was altered", i.0)); }
    }
    Ok(())
}

pub fn flatten(c: &Content) -> Vec<Item> { c.concat() }

/// What `after` has beyond `before`. Err: the earlier content is not intact.
pub fn suffix(kind: usize, before: &Content, after: &Content) -> Result<Content, String> {
    if matches!(kind, 2 | 3 | 6 | 11) {
        let (b, a) = (before.concat(), after.concat());
        if a.len() < b.len() || a[..b.len()] != b[..] { return Err("the earlier content of the collection was changed".into()); }
        Ok(vec![a[b.len()..].to_vec()])
    } else {
        let b: Content = if is_list(kind) { before.concat().chunks(3).map(|c| c.to_vec()).collect() } else { before.clone() };
        if after.len() < b.len() || after[..b.len()] != b[..] { return Err("the earlier content of the collection was changed".into()); }
        Ok(after[b.len()..].to_vec())
    }
}

/// Same content (ignoring how flat collections are grouped)
pub fn same(kind: usize, a: &Content, b: &Content) -> bool {
    if matches!(kind, 2 | 3 | 6 | 11) || is_list(kind) { a.concat() == b.concat() } else { a == b }
}

// ---- recording builders with an injected error ----
use std::cell::RefCell;
use std::rc::Rc;
use std::{error, fmt};
use triangulate::{ListBuilder, TriangleWinding};

#[derive(Debug, Clone, PartialEq)]
pub enum Ev { Init(usize, [u32; 3]), New([u32; 3]), Ext(u32), ListInit(usize), Tri([u32; 3]), Build, Fail(FailArg) }
/// What fail() was told
#[derive(Debug, Clone, PartialEq)]
pub enum FailArg { Injected(u64), Other(Bad, String) }

/// What an internal error says (the backtrace aside)
pub fn message<E: error::Error>(e: &TriangulationError<E>) -> String {
    match e { TriangulationError::InternalError(i) => i.msg.clone(), TriangulationError::TrapezoidationError(triangulate::TrapezoidationError::InternalError(i)) => i.msg.clone(), _ => String::new() }
}

#[derive(Debug)]
pub struct Cause(u64);
impl fmt::Display for Cause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "cause {}", self.0) } }
impl error::Error for Cause {}
#[derive(Debug)]
pub struct Inj { pub id: u64, cause: Cause }
impl fmt::Display for Inj { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "injected {}", self.id) } }
impl error::Error for Inj { fn source(&self) -> Option<&(dyn error::Error + 'static)> { Some(&self.cause) } }

pub struct LogFmt<const CW: bool> { pub log: Rc<RefCell<Vec<Ev>>>, pub fail_at: usize, pub id: u64 }
impl<const CW: bool> LogFmt<CW> {
    pub fn new(fail_at: usize, id: u64) -> (Self, Rc<RefCell<Vec<Ev>>>) { let log = Rc::new(RefCell::new(Vec::new())); (LogFmt { log: log.clone(), fail_at, id }, log) }
    fn call(&self, e: Ev) -> Result<(), Inj> {
        tri_verif::num::tick();
        let n = self.log.borrow().len();
        self.log.borrow_mut().push(e);
        if n == self.fail_at { Err(Inj { id: self.id, cause: Cause(self.id) }) } else { Ok(()) }
    }
    fn failed(&self, e: &TriangulationError<Inj>) {
        let other = |b: Bad| FailArg::Other(b, message(e));
        let a = match e {
            TriangulationError::FanBuilder(i) => FailArg::Injected(i.id),
            TriangulationError::NoVertices => other(Bad::NoVertices),
            TriangulationError::TrapezoidationError(triangulate::TrapezoidationError::NotEnoughVertices(n)) => other(Bad::NotEnough(*n)),
            _ => other(Bad::Internal),
        };
        self.log.borrow_mut().push(Ev::Fail(a));
    }
}
impl<'p, const CW: bool> FanFormat<'p, P> for LogFmt<CW> {
    type Builder = Self;
    fn initialize(self, p: &'p P, a: Ci, b: Ci, c: Ci) -> Result<Self, Inj> { self.call(Ev::Init(p as *const _ as usize, [a.0, b.0, c.0]))?; Ok(self) }
}
impl<'p, const CW: bool> FanBuilder<'p, P> for LogFmt<CW> {
    type Output = u64;
    type Error = Inj;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: Ci, b: Ci, c: Ci) -> Result<(), Inj> { self.call(Ev::New([a.0, b.0, c.0])) }
    fn extend_fan(&mut self, a: Ci) -> Result<(), Inj> { self.call(Ev::Ext(a.0)) }
    fn build(self) -> Result<u64, Inj> { self.call(Ev::Build)?; Ok(self.id) }
    fn fail(self, e: &TriangulationError<Inj>) { self.failed(e) }
}
/// The same as a list
pub struct LogList<const CW: bool>(pub LogFmt<CW>);
impl<'p, const CW: bool> ListFormat<'p, P> for LogList<CW> {
    type Builder = Self;
    fn initialize(self, p: &'p P) -> Result<Self, Inj> { self.0.call(Ev::ListInit(p as *const _ as usize))?; Ok(self) }
}
impl<'p, const CW: bool> ListBuilder<'p, P> for LogList<CW> {
    type Output = u64;
    type Error = Inj;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn add_triangle(&mut self, a: Ci, b: Ci, c: Ci) -> Result<(), Inj> { self.0.call(Ev::Tri([a.0, b.0, c.0])) }
    fn build(self) -> Result<u64, Inj> { self.0.call(Ev::Build)?; Ok(self.0.id) }
    fn fail(self, e: &TriangulationError<Inj>) { self.0.failed(e) }
}

/// One logged run. cfg: 0 fan CCW, 1 fan CW, 2 list CCW, 3 list CW
pub fn logged<'p>(src: Src<'_, 'p>, cfg: usize, rev: usize, fail_at: usize, id: u64) -> (Vec<Ev>, Result<u64, TriangulationError<Inj>>) {
    macro_rules! run { ($cw:literal, $f:ident => $mk:expr) => {{ let ($f, log) = LogFmt::<$cw>::new(fail_at, id); let r = go(src, $mk, rev); let ev = log.borrow().clone(); (ev, r) }} }
    match cfg { 0 => run!(false, f => f), 1 => run!(true, f => f), 2 => run!(false, f => LogList(f).into_fan_format()), _ => run!(true, f => LogList(f).into_fan_format()) }
}

pub fn event_triangles(ev: &[Ev]) -> Vec<[Item; 3]> {
    let mut t: Vec<[Item; 3]> = Vec::new();
    let mut fan: Vec<u32> = Vec::new();
    let i = |x: u32| (x, 0, 0);
    for e in ev {
        match e {
            Ev::Init(_, a) | Ev::New(a) => { fan = a.to_vec(); t.push([i(a[0]), i(a[1]), i(a[2])]); }
            Ev::Ext(v) => { t.push([i(fan[0]), i(*fan.last().unwrap()), i(*v)]); fan.push(*v); }
            Ev::Tri(a) => t.push([i(a[0]), i(a[1]), i(a[2])]),
            _ => {}
        }
    }
    t
}
