//! C15: the collections and mappings by themselves, against plain models
use tri_verif::case::*;
use tri_verif::rng::{mix, Rng};
use tri_verif::run::Order;
use std::cell::RefCell;
use triangulate::{Fan, Fans, List, PolygonElement, TriangleWinding};

trait Read { fn flat(&self) -> Vec<u32>; }
impl Read for Vec<u32> { fn flat(&self) -> Vec<u32> { self.clone() } }
impl Read for Vec<[u32; 3]> { fn flat(&self) -> Vec<u32> { self.concat() } }
impl Read for Vec<(u32, u32, u32)> { fn flat(&self) -> Vec<u32> { self.iter().flat_map(|t| [t.0, t.1, t.2]).collect() } }

/// ops: low 3 bits select; model: vector of triangles
fn list<V: Clone, L: List<V>>(l: &mut L, v: impl Fn(u32) -> V, read: impl Fn(&L) -> Vec<[u32; 3]>, start: usize, ops: &[u64]) -> Result<usize, String> {
    let mut model: Vec<[u32; 3]> = Vec::new();
    let mut next = 0;
    let mut push = |l: &mut L, model: &mut Vec<[u32; 3]>| { let t = [next, next + 1, next + 2]; next += 3; l.push(v(t[0]), v(t[1]), v(t[2])); model.push(t); };
    for _ in 0..start { push(l, &mut model); }
    let mut cuts = 0;
    for (i, op) in ops.iter().enumerate() {
        match op & 7 {
            0..=3 => push(l, &mut model),
            4 | 5 => { let k = (op >> 3) as usize % (model.len() + 2); l.truncate(k); if k < model.len() { cuts += 1; } model.truncate(k); }
            6 => { let k = usize::MAX / (1 + (op >> 3) as usize % 5); l.truncate(k); }
            _ => { let k = model.len(); l.truncate(k); }
        }
        if l.len() != model.len() { return Err(format!("op {i}: len() is {} instead of {}", l.len(), model.len())); }
        if l.is_empty() != model.is_empty() { return Err(format!("op {i}: is_empty() is {}", l.is_empty())); }
        if read(l) != model { return Err(format!("op {i}: content is {:?} instead of {:?}", read(l), model)); }
    }
    Ok(cuts)
}

fn threes(f: Vec<u32>) -> Vec<[u32; 3]> { if f.len() % 3 != 0 { vec![[u32::MAX; 3]] } else { f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect() } }

fn fans<FS: Fans>(l: &mut FS, mk: impl Fn(u32, u64) -> FS::Fan, read: impl Fn(&FS) -> Vec<Vec<u32>>, ops: &[u64]) -> Result<usize, String> {
    let mut model: Vec<Vec<u32>> = Vec::new();
    let mut cuts = 0;
    for (i, op) in ops.iter().enumerate() {
        match op & 7 {
            0..=3 => { let b = i as u32 * 100; let x = (op >> 3) % 5; l.push(mk(b, x)); model.push((0..3 + x as u32).map(|k| b + k).collect()); }
            4 | 5 => { let k = (op >> 3) as usize % (model.len() + 2); l.truncate(k); if k < model.len() { cuts += 1; } model.truncate(k); }
            6 => l.truncate(usize::MAX),
            _ => { let k = model.len(); l.truncate(k); }
        }
        if l.len() != model.len() { return Err(format!("op {i}: len() is {} instead of {}", l.len(), model.len())); }
        if l.is_empty() != model.is_empty() { return Err(format!("op {i}: is_empty() is {}", l.is_empty())); }
        if read(l) != model { return Err(format!("op {i}: content is {:?} instead of {:?}", read(l), model)); }
    }
    Ok(cuts)
}

fn indices<FS: Fans<Fan = u32>>(l: &mut FS, model: &mut Vec<u32>, ops: &[u64]) -> Result<usize, String> {
    let mut cuts = 0;
    for (i, op) in ops.iter().enumerate() {
        let n = Vec::<u32>::len(model);
        if op & 7 < 5 { l.push(i as u32); Vec::<u32>::push(model, i as u32); } else { let k = (op >> 3) as usize % (n + 2); if k < n { cuts += 1; } l.truncate(k); Vec::<u32>::truncate(model, k); }
        let n = Vec::<u32>::len(model);
        if l.len() != n || l.is_empty() != (n == 0) { return Err(format!("op {i}: len() is {} instead of {n}", l.len())); }
    }
    Ok(cuts)
}

fn fan(b: u32, x: u64) -> Vec<u32> { let mut f = <Vec<u32> as Fan<u32>>::new(b, b + 1, b + 2); for k in 0..x as u32 { Fan::push(&mut f, b + 3 + k); } f }

/// map: every member once, in order, shape kept
fn mapping(seed: u64) -> Result<(), String> {
    let seen = RefCell::new(Vec::new());
    let f = |x: u32| -> String { seen.borrow_mut().push(x); format!("<{x}>") };
    let v: Vec<u32> = (0..6).map(|k| mix(seed ^ k) as u32).collect();
    let s = |k: &[u32]| -> Vec<String> { k.iter().map(|x| format!("<{x}>")).collect() };
    let check = |what: &str, got: Vec<String>, of: &[u32]| -> Result<(), String> {
        let called = std::mem::take(&mut *seen.borrow_mut());
        if called != of { return Err(format!("{what}: called with {called:?} for {of:?}")); }
        if got != s(of) { return Err(format!("{what}: {got:?} for {of:?}")); }
        Ok(())
    };
    let one = <u32 as triangulate::Mappable<u32>>::map(v[0], f); check("value", vec![one], &v[..1])?;
    let a: [String; 1] = <[u32; 1] as triangulate::Mappable<u32>>::map([v[0]], f); check("array of 1", a.to_vec(), &v[..1])?;
    let a: [String; 2] = <[u32; 2] as triangulate::Mappable<u32>>::map([v[0], v[1]], f); check("array of 2", a.to_vec(), &v[..2])?;
    let a: [String; 3] = <[u32; 3] as triangulate::Mappable<u32>>::map([v[0], v[1], v[2]], f); check("array of 3", a.to_vec(), &v[..3])?;
    let a: [String; 6] = <[u32; 6] as triangulate::Mappable<u32>>::map([v[0], v[1], v[2], v[3], v[4], v[5]], f); check("array of 6", a.to_vec(), &v)?;
    let a: [String; 0] = <[u32; 0] as triangulate::Mappable<u32>>::map([], f); check("array of 0", a.to_vec(), &[])?;
    let (x, y) = <(u32, u32) as triangulate::Mappable<u32>>::map((v[0], v[1]), f); check("pair", vec![x, y], &v[..2])?;
    let (x, y, z) = <(u32, u32, u32) as triangulate::Mappable<u32>>::map((v[0], v[1], v[2]), f); check("triple", vec![x, y, z], &v[..3])?;
    let n = (seed % 7) as usize;
    let w: Vec<u32> = (0..n).map(|k| mix(seed ^ (k as u64) << 9) as u32).collect();
    let m: Vec<String> = <Vec<u32> as triangulate::Mappable<u32>>::map(w.clone(), f); check("vector", m, &w)?;
    // the mapping to another type and back is the identity
    let back: [u32; 3] = triangulate::Mappable::<u64>::map(triangulate::Mappable::<u32>::map([v[0], v[1], v[2]], |x| x as u64), |x| x as u32);
    if back[..] != v[..3] { return Err("round trip through u64".into()); }
    Ok(())
}

fn small_laws(x: u32) -> Result<(), String> {
    use TriangleWinding::*;
    if Clockwise.reverse() != Counterclockwise || Counterclockwise.reverse() != Clockwise { return Err("TriangleWinding::reverse".into()); }
    for w in [Clockwise, Counterclockwise] { if w.reverse().reverse() != w { return Err("reverse is no involution".into()); } }
    match PolygonElement::<u32>::from(x) { PolygonElement::ContinuePolygon(y) if x == y => {} e => return Err(format!("From<index>: {e:?}")) }
    match PolygonElement::<u32>::from(Some(x)) { PolygonElement::ContinuePolygon(y) if x == y => {} e => return Err(format!("From<Some>: {e:?}")) }
    match PolygonElement::<u32>::from(None) { PolygonElement::NewPolygon => {} e => return Err(format!("From<None>: {e:?}")) }
    Ok(())
}

pub struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn rule(&self) -> &'static str { "history of up to 40 push/truncate operations (truncate to any length, the current length, lengths up to usize::MAX) on each List/Fans implementation (flat Vec, Vec of arrays, Vec of tuples, flat Vec of array-valued vertices, Vec of fans, Vec of delimited indices, each directly, through &mut and through &mut &mut) against a vector-of-triangles/fans model compared after every operation; random values through every Mappable implementation with a recording function; all winding and PolygonElement conversions. Non-trivial: at least one truncation that removes something." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 150_000_000 } else { 8_000_000 } }
    fn in_domain(&self, _: &Case) -> bool { true }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let mut c = Case::new("history", vec![], Order { seed: 0, bias: 0 });
        c.p = vec![rng.below(18) as u64, rng.u64() >> 40];
        for _ in 0..1 + rng.below(40) { c.p.push(rng.u64() >> 54); }
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let ops = c.p.get(2..).unwrap_or(&[]);
        let names = ["Vec<V>", "Vec<[V;3]>", "Vec<(V,V,V)>", "Vec<[T;3]> of vertices", "fans Vec<Vec<V>>", "delimited Vec<V>"];
        let (k, through) = (c.param(0) as usize % 6, c.param(0) as usize / 6 % 3);
        let r = match k {
            0 => { let mut l: Vec<u32> = Vec::new(); match through { 0 => list::<u32, _>(&mut l, |x| x, |l| threes(l.flat()), 0, ops), 1 => { let mut r = &mut l; list::<u32, _>(&mut r, |x| x, |l| threes((**l).flat()), 2, ops) } _ => { let mut r = &mut l; let mut r = &mut r; list::<u32, _>(&mut r, |x| x, |l| threes((***l).flat()), 1, ops) } } }
            1 => { let mut l: Vec<[u32; 3]> = Vec::new(); match through { 0 => list::<u32, _>(&mut l, |x| x, |l| threes(l.flat()), 0, ops), 1 => { let mut r = &mut l; list::<u32, _>(&mut r, |x| x, |l| threes((**l).flat()), 2, ops) } _ => { let mut r = &mut l; let mut r = &mut r; list::<u32, _>(&mut r, |x| x, |l| threes((***l).flat()), 1, ops) } } }
            2 => { let mut l: Vec<(u32, u32, u32)> = Vec::new(); match through { 0 => list::<u32, _>(&mut l, |x| x, |l| threes(l.flat()), 0, ops), 1 => { let mut r = &mut l; list::<u32, _>(&mut r, |x| x, |l| threes((**l).flat()), 2, ops) } _ => { let mut r = &mut l; let mut r = &mut r; list::<u32, _>(&mut r, |x| x, |l| threes((***l).flat()), 1, ops) } } }
            3 => { let mut l: Vec<[u32; 3]> = Vec::new(); let v = |x: u32| [x, x ^ 7, !x]; let rd = |l: &Vec<[u32; 3]>| if l.iter().any(|e| *e != v(e[0])) { vec![[7; 3]] } else { threes(l.iter().map(|e| e[0]).collect()) };
                match through { 0 => list::<[u32; 3], _>(&mut l, v, |l| rd(l), 0, ops), 1 => { let mut r = &mut l; list::<[u32; 3], _>(&mut r, v, |l| rd(l), 2, ops) } _ => { let mut r = &mut l; let mut r = &mut r; list::<[u32; 3], _>(&mut r, v, |l| rd(l), 1, ops) } } }
            4 => { let mut l: Vec<Vec<u32>> = Vec::new(); match through { 0 => fans(&mut l, fan, |l| l.clone(), ops), 1 => { let mut r = &mut l; fans(&mut r, fan, |l| (**l).clone(), ops) } _ => { let mut r = &mut l; let mut r = &mut r; fans(&mut r, fan, |l| (***l).clone(), ops) } } }
            _ => {
                // one index per element: len counts indices
                let mut l: Vec<u32> = Vec::new();
                let mut model: Vec<u32> = Vec::new();
                let r = match through { 0 => indices(&mut l, &mut model, ops), 1 => { let mut r = &mut l; indices(&mut r, &mut model, ops) } _ => { let mut r = &mut l; let mut r = &mut r; indices(&mut r, &mut model, ops) } };
                if r.is_ok() && l != model { Err(format!("content is {l:?} instead of {model:?}")) } else { r }
            }
        };
        let cuts = match r { Ok(c) => c, Err(m) => return Verdict::Fail(format!("{}{}: {m}", "&mut ".repeat(through), names[k])) };
        if let Err(m) = mapping(c.param(1)).and_then(|_| small_laws(c.param(1) as u32)) { return Verdict::Fail(m); }
        Verdict::Pass(cuts > 0, vec![names[k], ["direct", "through &mut", "through &mut &mut"][through]])
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C15)]) }
