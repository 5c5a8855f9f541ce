//! Exact integer geometry: validity of inputs and the tiling oracle.
use std::collections::HashMap;

pub type Pt = (i64, i64);
pub type Set = Vec<Vec<Pt>>;

pub fn cross(a: Pt, b: Pt, c: Pt) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}

pub fn sgn(x: i128) -> i32 { x.signum() as i32 }

/// p lies on the closed segment ab
pub fn on_segment(a: Pt, b: Pt, p: Pt) -> bool {
    p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) && cross(a, b, p) == 0
}

/// The closed segments ab and cd share a point
pub fn segments_touch(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    if a.0.max(b.0) < c.0.min(d.0) || c.0.max(d.0) < a.0.min(b.0) || a.1.max(b.1) < c.1.min(d.1) || c.1.max(d.1) < a.1.min(b.1) {
        return false;
    }
    let (s1, s2) = (sgn(cross(a, b, c)), sgn(cross(a, b, d)));
    let (s3, s4) = (sgn(cross(c, d, a)), sgn(cross(c, d, b)));
    if s1 * s2 < 0 && s3 * s4 < 0 { return true; }
    (s1 == 0 && on_segment(a, b, c)) || (s2 == 0 && on_segment(a, b, d)) || (s3 == 0 && on_segment(c, d, a)) || (s4 == 0 && on_segment(c, d, b))
}

/// The documented preconditions, exactly: >= 3 vertices per polygon, all vertices distinct, no two edges share a
/// point except adjacent edges of one polygon at their common vertex (so no vertex touches a foreign edge either).
pub fn is_valid(set: &Set) -> bool {
    let mut edges: Vec<(Pt, Pt, usize, usize, usize)> = Vec::new();
    for (pi, p) in set.iter().enumerate() {
        if p.len() < 3 { return false; }
        for i in 0..p.len() {
            edges.push((p[i], p[(i + 1) % p.len()], pi, i, p.len()));
        }
    }
    // sort by min x, sweep with an active prefix
    edges.sort_by_key(|e| e.0 .0.min(e.1 .0));
    let mut active: Vec<usize> = Vec::new();
    for k in 0..edges.len() {
        let (a, b, pi, i, n) = edges[k];
        if a == b { return false; }
        let x = a.0.min(b.0);
        active.retain(|&j| edges[j].0 .0.max(edges[j].1 .0) >= x);
        for &j in &active {
            let (c, d, pj, jj, _) = edges[j];
            if pi == pj && ((i + 1) % n == jj || (jj + 1) % n == i) {
                // adjacent: sharing exactly the common vertex
                if n == 3 {
                    if cross(a, b, if c == b || c == a { d } else { c }) == 0 { return false; }
                } else {
                    let (s, o1, o2) = if b == c { (b, a, d) } else if a == d { (a, b, c) } else { return false };
                    if cross(o1, s, o2) == 0 {
                        let dot = (o1.0 - s.0) as i128 * (o2.0 - s.0) as i128 + (o1.1 - s.1) as i128 * (o2.1 - s.1) as i128;
                        if dot >= 0 { return false; }
                    }
                }
            } else if segments_touch(a, b, c, d) {
                return false;
            }
        }
        active.push(k);
    }
    true
}

pub fn area2(p: &[Pt]) -> i128 {
    let mut s = 0i128;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        s += a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128;
    }
    s
}

/// Strict containment for a point not on the boundary (even-odd ray cast)
pub fn contains(p: &[Pt], q: Pt) -> bool {
    let mut inside = false;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a.1 > q.1) != (b.1 > q.1) {
            let c = cross(a, b, q);
            if (b.1 > a.1) == (c > 0) { inside = !inside; }
        }
    }
    inside
}

/// Nesting depth of every polygon (number of other polygons which contain it)
pub fn depths(set: &Set) -> Vec<usize> {
    let bbox: Vec<_> = set.iter().map(|p| {
        let (mut x0, mut y0, mut x1, mut y1) = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
        for &(x, y) in p { x0 = x0.min(x); x1 = x1.max(x); y0 = y0.min(y); y1 = y1.max(y); }
        (x0, y0, x1, y1)
    }).collect();
    // candidates by cells of a grid, so that very many polygons do not have to be compared with one another
    let k: i64 = if set.len() < 200 { 1 } else { ((set.len() as f64).sqrt() as i64).min(400) };
    let all = bbox.iter().fold((i64::MAX, i64::MAX, i64::MIN, i64::MIN), |a, b| (a.0.min(b.0), a.1.min(b.1), a.2.max(b.2), a.3.max(b.3)));
    let cell = |v: i64, lo: i64, hi: i64| ((v as i128 - lo as i128) * k as i128 / (hi as i128 - lo as i128 + 1).max(1)) as i64;
    let mut cells: Vec<Vec<usize>> = vec![vec![]; (k * k) as usize];
    let mut wide = Vec::new();
    for (j, b) in bbox.iter().enumerate() {
        if set[j].is_empty() { continue; }
        let (x0, x1, y0, y1) = (cell(b.0, all.0, all.2), cell(b.2, all.0, all.2), cell(b.1, all.1, all.3), cell(b.3, all.1, all.3));
        if (x1 - x0 + 1) * (y1 - y0 + 1) > 64 { wide.push(j); continue; }
        for y in y0..=y1 { for x in x0..=x1 { cells[(y * k + x) as usize].push(j); } }
    }
    set.iter().enumerate().map(|(i, p)| {
        let q = p[0];
        let c = &cells[(cell(q.1, all.1, all.3) * k + cell(q.0, all.0, all.2)) as usize];
        c.iter().chain(&wide).filter(|&&j| {
            let b = bbox[j];
            j != i && q.0 > b.0 && q.0 < b.2 && q.1 > b.1 && q.1 < b.3 && contains(&set[j], q)
        }).count()
    }).collect()
}

/// The even-odd region's boundary, as directed edges with the region on the left.
pub struct Region {
    /// flattened vertices
    pub verts: Vec<Pt>,
    /// start of every polygon in `verts`
    pub start: Vec<usize>,
    /// directed boundary edges
    pub boundary: Vec<(usize, usize)>,
    pub area2: i128,
    pub depth: Vec<usize>,
}

impl Region {
    pub fn new(set: &Set) -> Self {
        let depth = depths(set);
        let mut verts = Vec::new();
        let mut start = Vec::new();
        let mut boundary = Vec::new();
        let mut total = 0i128;
        for (p, d) in set.iter().zip(&depth) {
            let s = verts.len();
            start.push(s);
            verts.extend_from_slice(p);
            let a = area2(p);
            let want_ccw = d % 2 == 0;
            total += if want_ccw { a.abs() } else { -a.abs() };
            let forward = (a > 0) == want_ccw;
            for i in 0..p.len() {
                let (u, v) = (s + i, s + (i + 1) % p.len());
                boundary.push(if forward { (u, v) } else { (v, u) });
            }
        }
        Region { verts, start, boundary, area2: total, depth }
    }
    pub fn flat(&self, poly: usize, i: usize) -> usize { self.start[poly] + i }

    /// The number of triangles of a conforming triangulation of the region.
    pub fn expected_triangles(&self) -> usize {
        let outer = self.depth.iter().filter(|d| **d % 2 == 0).count();
        let holes = self.depth.len() - outer;
        self.verts.len() + 2 * holes - 2 * outer
    }
}

#[derive(Debug, Clone, Default)]
pub struct Tiling {
    /// triangles with zero area
    pub degenerate: usize,
    /// triangles with negative (clockwise) orientation
    pub clockwise: usize,
    pub counterclockwise: usize,
    /// the boundary of the triangles' sum is the region's boundary, edge for edge (no T-junctions)
    pub conforming: bool,
    /// ditto after splitting edges at the input vertices which lie on them
    pub covers: bool,
    pub area2: i128,
    pub unused_vertices: usize,
}

/// Decide exactly whether counterclockwise triangles tile the region: as 2-chains, sum of the triangles == region iff
/// their boundaries agree; as all non-degenerate triangles are positively oriented, every point of the region outside the edges is then
/// covered exactly once, every other point never.
pub fn tiling(region: &Region, tris: &[[usize; 3]], expect_ccw: bool) -> Tiling {
    let mut t = Tiling::default();
    let mut chain: HashMap<(usize, usize), i64> = HashMap::with_capacity(tris.len() * 2);
    let mut add = |u: usize, v: usize, k: i64| {
        if u < v { *chain.entry((u, v)).or_insert(0) += k } else { *chain.entry((v, u)).or_insert(0) -= k }
    };
    let mut used = vec![false; region.verts.len()];
    for tri in tris {
        let [a, b, c] = *tri;
        let cr = cross(region.verts[a], region.verts[b], region.verts[c]);
        t.area2 += cr;
        if cr == 0 { t.degenerate += 1 } else if cr > 0 { t.counterclockwise += 1 } else { t.clockwise += 1 }
        used[a] = true; used[b] = true; used[c] = true;
        let k = if expect_ccw { 1 } else { -1 };
        add(a, b, k); add(b, c, k); add(c, a, k);
    }
    t.unused_vertices = used.iter().filter(|u| !**u).count();
    for &(u, v) in &region.boundary { add(u, v, -1); }
    let mut residual: Vec<((usize, usize), i64)> = chain.into_iter().filter(|(e, k)| *k != 0 && e.0 != e.1).collect();
    t.conforming = residual.is_empty();
    t.covers = t.conforming;
    if !t.conforming {
        residual.sort();
        // split the residual edges at all vertices which lie on them
        let mut order: Vec<usize> = (0..region.verts.len()).collect();
        order.sort_by_key(|i| region.verts[*i]);
        let xs: Vec<i64> = order.iter().map(|i| region.verts[*i].0).collect();
        let mut fine: HashMap<(usize, usize), i64> = HashMap::new();
        for ((u, v), k) in residual {
            let (a, b) = (region.verts[u], region.verts[v]);
            let lo = xs.partition_point(|x| *x < a.0.min(b.0));
            let hi = xs.partition_point(|x| *x <= a.0.max(b.0));
            let mut on: Vec<usize> = order[lo..hi].iter().copied().filter(|w| *w != u && *w != v && on_segment(a, b, region.verts[*w])).collect();
            let du = |w: &usize| { let p = region.verts[*w]; (p.0 - a.0).unsigned_abs().max((p.1 - a.1).unsigned_abs()) };
            on.sort_by_key(du);
            on.push(v);
            let mut prev = u;
            for w in on {
                if prev < w { *fine.entry((prev, w)).or_insert(0) += k } else { *fine.entry((w, prev)).or_insert(0) -= k }
                prev = w;
            }
        }
        t.covers = fine.values().all(|k| *k == 0);
    }
    t
}
