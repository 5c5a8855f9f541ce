//! Constructive generators of valid polygon sets (integer coordinates; validity by construction, re-checked exactly).
use crate::geom::*;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

/// Drop / insert collinear vertices, flip, rotate, permute: presentation choices that must not matter.
pub fn present(rng: &mut Rng, set: &mut Set) {
    // dihedral symmetry
    let sym = rng.below(8);
    for p in set.iter_mut() {
        for v in p.iter_mut() {
            if sym & 1 != 0 { v.0 = -v.0; }
            if sym & 2 != 0 { v.1 = -v.1; }
            if sym & 4 != 0 { *v = (v.1, v.0); }
        }
        if rng.chance(1, 2) { p.reverse(); }
        let k = rng.below(p.len());
        p.rotate_left(k);
    }
    rng.shuffle(set);
}

pub fn drop_collinear(set: &mut Set) {
    for p in set.iter_mut() {
        let mut i = 0;
        while i < p.len() && p.len() > 3 {
            let n = p.len();
            if cross(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) == 0 { p.remove(i); } else { i += 1; }
        }
    }
}

/// Insert vertices on the interior of edges (integer points only)
pub fn add_collinear(rng: &mut Rng, set: &mut Set, num: u32, den: u32) {
    fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
    for p in set.iter_mut() {
        let mut q = Vec::with_capacity(p.len() * 2);
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            q.push(a);
            let g = gcd((b.0 - a.0).abs(), (b.1 - a.1).abs());
            if g > 1 && rng.chance(num, den) {
                let k = rng.range(1, g - 1);
                q.push((a.0 + (b.0 - a.0) / g * k, a.1 + (b.1 - a.1) / g * k));
            }
        }
        *p = q;
    }
}

/// Remove vertices at random while the set stays valid: gives long edges and irregular shapes.
pub fn decimate(rng: &mut Rng, set: &mut Set, attempts: usize) {
    for _ in 0..attempts {
        let pi = rng.below(set.len());
        let n = set[pi].len();
        if n <= 3 { continue; }
        let i = rng.below(n);
        let (a, b, c) = (set[pi][(i + n - 1) % n], set[pi][i], set[pi][(i + 1) % n]);
        let s = sgn(cross(a, b, c));
        let (x0, x1) = (a.0.min(b.0).min(c.0), a.0.max(b.0).max(c.0));
        let (y0, y1) = (a.1.min(b.1).min(c.1), a.1.max(b.1).max(c.1));
        let clear = s == 0 || set.iter().all(|p| p.iter().all(|&v| {
            v == a || v == b || v == c || v.0 < x0 || v.0 > x1 || v.1 < y0 || v.1 > y1 || {
                let (s1, s2, s3) = (sgn(cross(a, b, v)) * s, sgn(cross(b, c, v)) * s, sgn(cross(c, a, v)) * s);
                s1 < 0 || s2 < 0 || s3 < 0
            }
        }));
        // removing the vertex may fold the polygon onto itself: keep it non-degenerate
        if clear {
            let d = set[pi][(i + n - 2) % n];
            let e = set[pi][(i + 2) % n];
            let bad = |p: Pt, q: Pt, r: Pt| cross(p, q, r) == 0 && {
                let dot = (p.0 - q.0) as i128 * (r.0 - q.0) as i128 + (p.1 - q.1) as i128 * (r.1 - q.1) as i128;
                dot >= 0
            };
            if n == 4 && cross(a, c, d) == 0 { continue; }
            if bad(d, a, c) || bad(a, c, e) { continue; }
            set[pi].remove(i);
        }
    }
}

/// Boundary loops of a random subset of a jittered triangle mesh: arbitrary even-odd regions with holes and islands.
/// jitter < s/4 keeps the mesh valid. skew shears the result.
pub fn mesh(rng: &mut Rng, w: usize, h: usize, s: i64, jitter: i64, density: u32, blobs: usize) -> Set {
    let idx = |i: usize, j: usize| j * (w + 1) + i;
    let mut pts = Vec::with_capacity((w + 1) * (h + 1));
    for j in 0..=h {
        for i in 0..=w {
            let (dx, dy) = if jitter > 0 { (rng.range(-jitter, jitter), rng.range(-jitter, jitter)) } else { (0, 0) };
            pts.push((i as i64 * s + dx, j as i64 * s + dy));
        }
    }
    let mut tris: Vec<[usize; 3]> = Vec::new();
    let mut cellof: Vec<(usize, usize)> = Vec::new();
    let whole_cells = jitter == 0 && rng.chance(1, 2);
    for j in 0..h {
        for i in 0..w {
            let (a, b, c, d) = (idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1));
            if rng.chance(1, 2) { tris.push([a, b, d]); tris.push([b, c, d]); } else { tris.push([a, b, c]); tris.push([a, c, d]); }
            cellof.push((i, j)); cellof.push((i, j));
        }
    }
    let mut sel: Vec<bool> = vec![false; tris.len()];
    if blobs == 0 {
        let mut last = false;
        for k in 0..tris.len() {
            sel[k] = if whole_cells && k % 2 == 1 { last } else { rng.chance(density, 100) };
            last = sel[k];
        }
    } else {
        // smooth field: union / difference of discs
        for k in 0..blobs {
            let (cx, cy) = (rng.below(w) as i64, rng.below(h) as i64);
            let m = w.min(h).max(2) as i64;
            let r = rng.range(1, (m / 2).max(1));
            let on = k == 0 || rng.chance(60, 100);
            for (t, &(i, j)) in cellof.iter().enumerate() {
                let (dx, dy) = (i as i64 - cx, j as i64 - cy);
                if dx * dx + dy * dy <= r * r { sel[t] = on; }
            }
        }
        for k in 0..tris.len() { if rng.chance(density.min(100 - density), 400) { sel[k] = !sel[k]; } }
    }
    let mut around: Vec<Vec<usize>> = vec![Vec::new(); pts.len()];
    for (k, t) in tris.iter().enumerate() { for &v in t { around[v].push(k); } }
    // remove pinch vertices
    let outdeg = |sel: &Vec<bool>, v: usize| -> usize {
        // boundary edges leaving v: count transitions around v by directed edge cancellation
        let mut es: Vec<(usize, bool)> = Vec::with_capacity(12);
        for &k in &around[v] {
            if sel[k] {
                let t = tris[k];
                let p = t.iter().position(|x| *x == v).unwrap();
                es.push((t[(p + 1) % 3], true));
                es.push((t[(p + 2) % 3], false));
            }
        }
        es.iter().filter(|(w, out)| *out && !es.contains(&(*w, false))).count()
    };
    let mut queue: Vec<usize> = (0..pts.len()).collect();
    let mut grow = 3;
    while !queue.is_empty() {
        let mut next = HashSet::new();
        rng.shuffle(&mut queue);
        for &v in &queue {
            if outdeg(&sel, v) > 1 {
                let on = grow > 0 && rng.chance(1, 2);
                for &k in &around[v] {
                    if sel[k] != on {
                        sel[k] = on;
                        for &u in &tris[k] { next.insert(u); }
                    }
                }
            }
        }
        grow -= if grow > 0 { 1 } else { 0 };
        queue = next.into_iter().collect();
        queue.sort();
    }
    let mut out: HashMap<usize, usize> = HashMap::new();
    let mut edges: HashSet<(usize, usize)> = HashSet::new();
    for (k, t) in tris.iter().enumerate() {
        if sel[k] { for e in 0..3 { edges.insert((t[e], t[(e + 1) % 3])); } }
    }
    let mut starts = Vec::new();
    for &(u, v) in &edges { if !edges.contains(&(v, u)) { out.insert(u, v); starts.push(u); } }
    starts.sort();
    let mut seen = HashSet::new();
    let mut set = Vec::new();
    for s in starts {
        if seen.contains(&s) { continue; }
        let mut p = Vec::new();
        let mut v = s;
        loop {
            seen.insert(v);
            p.push(pts[v]);
            v = out[&v];
            if v == s { break; }
        }
        set.push(p);
    }
    set
}

/// Star-shaped around the origin: distinct directions, arbitrary radii (spiky when `spread` is large)
pub fn star(rng: &mut Rng, n: usize, rmax: i64) -> Set {
    let mut dirs: Vec<Pt> = Vec::new();
    let mut tries = 0;
    let mut seen = HashSet::new();
    fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
    while dirs.len() < n && tries < n * 20 + 100 {
        tries += 1;
        let v = (rng.range(-rmax, rmax), rng.range(-rmax, rmax));
        if v == (0, 0) { continue; }
        let g = gcd(v.0.abs(), v.1.abs());
        if seen.insert((v.0 / g, v.1 / g)) { dirs.push(v); }
    }
    let half = |v: &Pt| if v.1 > 0 || (v.1 == 0 && v.0 > 0) { 0 } else { 1 };
    dirs.sort_by(|a, b| half(a).cmp(&half(b)).then_with(|| 0.cmp(&sgn(cross((0, 0), *a, *b)))));
    vec![dirs]
}

/// y-monotone polygon from two x-disjoint chains; with ties in y on request
pub fn monotone(rng: &mut Rng, n: usize, width: i64, step: i64, one_sided: bool) -> Set {
    let mut left = Vec::new();
    let mut right = Vec::new();
    let mut y = 0i64;
    let bottom = (0, 0);
    for _ in 0..n.saturating_sub(2).max(1) {
        y += rng.range(if step > 1 { 0 } else { 1 }, step);
        let is_left = if one_sided { true } else { rng.chance(1, 2) };
        let x = rng.range(1, width.max(2));
        let chain: &mut Vec<Pt> = if is_left { &mut left } else { &mut right };
        let x = if is_left { -x } else { x };
        let floor = chain.last().map(|v| v.1).unwrap_or(0);
        let yy = y.max(floor + 1);
        chain.push((x, yy));
        y = y.max(yy);
    }
    let top = (0, y + rng.range(1, step.max(1)));
    let mut p = vec![bottom];
    p.extend(right);
    p.push(top);
    p.extend(left.into_iter().rev());
    vec![p]
}

/// A y-monotone polygon with one long jittered chain on a curved base line (bulging in, out or both by turns), and one or two long edges opposite.
/// Triangulating it backtracks over long runs of reflex vertices, and starts over on long remaining chains.
pub fn valley(rng: &mut Rng, n: usize) -> Set {
    let n = n.max(3) as i64;
    let curve = *rng.pick(&[-4i64, -1, 0, 1, 4]);
    let jitter = *rng.pick(&[0i64, 1, 1, 2, 8]);
    let rare = *rng.pick(&[1u32, 2, 4, 20, 100]);
    let period = if rng.chance(1, 2) { n } else { rng.range(3, n.max(4)) };
    let step = *rng.pick(&[1i64, 1, 2, 5]);
    let mut p: Vec<Pt> = Vec::new();
    let mut y = 0;
    for i in 0..n {
        let k = i % period;
        let mut x = curve * k.min(2000) * (period - k).min(2000) / if period > 2000 { 2 } else { 1 };
        if jitter > 0 && rng.chance(1, rare) { x += rng.range(-jitter, jitter); }
        p.push((x, y));
        y += rng.range(1, step);
    }
    // opposite side, beyond everything on the chain
    let r = p.iter().map(|v| v.0).max().unwrap() + rng.range(1, 50);
    let (b, t) = (p[0].1, p[p.len() - 1].1);
    // an apex may cut the chain (the validity check tells): for the sizes that get one only
    match rng.below(if n > 5000 { 2 } else { 3 }) {
        2 => p.push((r * 2 + 1 + t, rng.range(b, t))),
        1 => { p.push((r, t + rng.range(0, 3))); p.push((r, b - rng.range(0, 3))); }
        _ => { p.push((r + rng.range(0, 3), t + rng.range(1, 3))); p.push((r + rng.range(0, 3), b - rng.range(1, 3))); }
    }
    if rng.chance(1, 2) { for v in &mut p { v.0 = -v.0; } }
    if rng.chance(1, 2) { for v in &mut p { v.1 = -v.1; } }
    vec![p]
}

/// A comb / zigzag with teeth whose tips share y-coordinates often
pub fn comb(rng: &mut Rng, teeth: usize, levels: i64) -> Set {
    let mut p = Vec::new();
    let base = -rng.range(1, 5);
    p.push((0, base));
    for t in 0..teeth {
        let x = t as i64 * 4;
        let lo = rng.range(0, levels);
        let hi = lo + rng.range(1, levels);
        if t > 0 { p.push((x, lo)); }
        p.push((x + 2, hi));
        if rng.chance(1, 2) { p.push((x + 3, hi)); }
    }
    p.push((teeth as i64 * 4, base));
    p.reverse();
    vec![p]
}

/// Rectangular spiral corridor
pub fn spiral(rng: &mut Rng, turns: usize) -> Set {
    let mut a = Vec::new();
    let mut b = Vec::new();
    let (mut x, mut y) = (0i64, 0i64);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut len = 4i64;
    let jit = rng.range(0, 1);
    for t in 0..turns {
        let d = dirs[t % 4];
        // left offset and right offset corner points
        let e = dirs[(t + 3) % 4];
        a.push((x * 4, y * 4));
        // offset diagonal to the outside of the turn
        b.push((x * 4 + (-d.0 + e.0), y * 4 + (-d.1 + e.1) ));
        x += d.0 * len; y += d.1 * len;
        if t % 2 == 1 { len += 2 + rng.range(0, jit); }
    }
    let d = dirs[(turns + 3) % 4];
    let e = dirs[(turns + 2) % 4];
    a.push((x * 4, y * 4));
    b.push((x * 4 + e.0, y * 4 + e.1 ));
    let _ = d;
    b.reverse();
    a.extend(b);
    vec![a]
}

/// A random simple polygon on a tiny grid: random distinct points, 2-opt untangled
pub fn tiny(rng: &mut Rng, n: usize, w: i64, h: i64) -> Option<Set> {
    let mut pts: Vec<Pt> = (0..w * h).map(|k| (k % w, k / w)).collect();
    if pts.len() < n { return None; }
    rng.shuffle(&mut pts);
    pts.truncate(n);
    for _ in 0..200 {
        let n = pts.len();
        let mut bad = Vec::new();
        for i in 0..n {
            for j in i + 1..n {
                let (a, b, c, d) = (pts[i], pts[(i + 1) % n], pts[j], pts[(j + 1) % n]);
                if j == i + 1 || (i == 0 && j == n - 1) { continue; }
                if segments_touch(a, b, c, d) { bad.push((i, j)); }
            }
        }
        if bad.is_empty() { break; }
        let &(i, j) = rng.pick(&bad);
        pts[i + 1..=j].reverse();
        if rng.chance(1, 8) { let k = rng.below(n); let l = rng.below(n); pts.swap(k, l); }
    }
    let s = vec![pts];
    if is_valid(&s) { Some(s) } else { None }
}

/// All simple polygons with 3 to n vertices on a w x h grid: every start at the smallest vertex, both orientations
pub fn grid_polygons(w: i64, h: i64, n: usize) -> Vec<Vec<Pt>> {
    fn folds(a: Pt, b: Pt, c: Pt) -> bool { cross(a, b, c) == 0 && (a.0 - b.0) * (c.0 - b.0) + (a.1 - b.1) * (c.1 - b.1) >= 0 }
    fn extend(path: &mut Vec<Pt>, pts: &[Pt], n: usize, out: &mut Vec<Vec<Pt>>) {
        let k = path.len();
        if k >= 3 && is_valid(&vec![path.clone()]) { out.push(path.clone()); }
        if k == n { return; }
        for &p in pts {
            if p <= path[0] || path.contains(&p) { continue; }
            let q = path[k - 1];
            if k >= 2 && folds(path[k - 2], q, p) { continue; }
            if (0..k.saturating_sub(2)).any(|i| segments_touch(q, p, path[i], path[i + 1])) { continue; }
            path.push(p);
            extend(path, pts, n, out);
            path.pop();
        }
    }
    let pts: Vec<Pt> = (0..w * h).map(|k| (k % w, k / w)).collect();
    let mut out = Vec::new();
    for &p in &pts { extend(&mut vec![p], &pts, n, &mut out); }
    out
}

/// Every simple polygon of some small grids with every insertion order
pub struct Exhaustive { polys: Vec<(Vec<Pt>, u64, &'static str)>, pub total: u64 }
impl Exhaustive {
    pub fn get(thorough: bool) -> &'static Exhaustive {
        static E: [std::sync::OnceLock<Exhaustive>; 2] = [std::sync::OnceLock::new(), std::sync::OnceLock::new()];
        E[thorough as usize].get_or_init(|| {
            let mut e = Exhaustive { polys: Vec::new(), total: 0 };
            let parts: &[(i64, i64, usize, &str)] = if thorough { &[(3, 3, 9, "all polygons on a 3x3 grid, all orders"), (4, 3, 6, "all polygons with up to 6 vertices on a 4x3 grid, all orders"), (4, 4, 5, "all polygons with up to 5 vertices on a 4x4 grid, all orders")] }
                else { &[(3, 3, 7, "all polygons with up to 7 vertices on a 3x3 grid, all orders"), (4, 3, 5, "all polygons with up to 5 vertices on a 4x3 grid, all orders"), (4, 4, 4, "all polygons with up to 4 vertices on a 4x4 grid, all orders")] };
            for (w, h, n, name) in parts { for p in grid_polygons(*w, *h, *n) {
                let orders = (1..=p.len() as u64).product::<u64>();
                e.polys.push((p, e.total, *name));
                e.total += orders;
            } }
            e
        })
    }
    pub fn case(&self, i: u64) -> Option<crate::case::Case> {
        if i >= self.total { return None; }
        let k = self.polys.partition_point(|p| p.1 <= i) - 1;
        let (p, first, name) = &self.polys[k];
        Some(crate::case::Case::new(name, vec![p.clone()], crate::run::Order { seed: i - first, bias: 1024 + p.len() as u32 }))
    }
}

fn bbox(set: &Set) -> (i64, i64, i64, i64) {
    let (mut x0, mut y0, mut x1, mut y1) = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
    for &(x, y) in set.iter().flatten() { x0 = x0.min(x); x1 = x1.max(x); y0 = y0.min(y); y1 = y1.max(y); }
    (x0, y0, x1, y1)
}

fn shift(set: &mut Set, dx: i64, dy: i64) { for v in set.iter_mut().flatten() { v.0 += dx; v.1 += dy; } }

/// Wrap a set in k nested frames (rectangles or jittered octagons)
pub fn frame(rng: &mut Rng, set: &mut Set, k: usize) {
    for _ in 0..k {
        let (x0, y0, x1, y1) = bbox(set);
        let m = |r: &mut Rng| r.range(1, 4);
        let f = if rng.chance(1, 2) {
            vec![(x0 - m(rng), y0 - m(rng)), (x1 + m(rng), y0 - m(rng)), (x1 + m(rng), y1 + m(rng)), (x0 - m(rng), y1 + m(rng))]
        } else {
            let a = rng.range(1, 3);
            vec![(x0, y0 - a - m(rng)), (x1, y0 - a - m(rng)), (x1 + a + m(rng), y0), (x1 + a + m(rng), y1), (x1, y1 + a + m(rng)), (x0, y1 + a + m(rng)), (x0 - a - m(rng), y1), (x0 - a - m(rng), y0)]
        };
        set.push(f);
    }
    set.retain(|p| p.len() >= 3);
}

/// Place sets next to each other
pub fn side_by_side(rng: &mut Rng, a: &mut Set, mut b: Set) {
    let (_, ay0, ax1, ay1) = bbox(a);
    let (bx0, by0, _, by1) = bbox(&b);
    let dy = match rng.below(3) { 0 => ay0 - by0, 1 => ay1 - by1, _ => rng.range(ay0 - by1, ay1 - by0) };
    shift(&mut b, ax1 - bx0 + rng.range(1, 4), dy);
    a.append(&mut b);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sizes { pub max_vertices: usize }

/// One random valid set. The family name is returned for classification.
pub fn any_set(rng: &mut Rng, max_vertices: usize) -> (&'static str, Set) {
    for _ in 0..100 {
        let fam = rng.below(13);
        let mv = max_vertices.max(8);
        // log-uniform size
        let target = { let f = rng.f64(); (3.0 * (mv as f64 / 3.0).powf(f)) as usize }.max(3);
        let (name, mut set): (&'static str, Set) = match fam {
            0 | 1 | 2 => {
                let cells = (target as f64 * rng.f64() * 1.2 + 2.0) as usize;
                let w = (1 + rng.below(cells.min(40) * 2)).min(cells).max(1);
                let h = (cells / w).max(1);
                let s = *rng.pick(&[1i64, 2, 8, 16, 64, 1024]);
                let jitter = if s < 8 || rng.chance(1, 4) { 0 } else { rng.range(1, (s - 1) / 4) };
                let density = *rng.pick(&[30, 50, 50, 65, 80, 95]);
                let blobs = if rng.chance(1, 2) { 0 } else { 1 + rng.below(6) };
                let mut s = mesh(rng, w, h, s, jitter, density, blobs);
                if s.is_empty() { continue; }
                if rng.chance(1, 2) { drop_collinear(&mut s); }
                if rng.chance(1, 2) {
                    let n: usize = s.iter().map(|p| p.len()).sum();
                    let att = if n > 3000 { 0 } else { rng.below(n * 2 + 1) };
                    decimate(rng, &mut s, att);
                    (if jitter > 0 { "mesh-decimated" } else { "grid-decimated" }, s)
                } else { (if jitter > 0 { "mesh" } else { "grid" }, s) }
            }
            3 | 4 => { let r = *rng.pick(&[3i64, 10, 100, 5000, 1 << 20]); ("star", star(rng, target.max(3), r)) }
            5 => { let st = *rng.pick(&[1i64, 2, 3, 50]); let w = *rng.pick(&[2i64, 5, 1000]); let os = rng.chance(1, 3); ("monotone", monotone(rng, target, w, st, os)) }
            6 => { let l = *rng.pick(&[1i64, 2, 3, 100]); let t = (target / 2).max(1); ("comb", comb(rng, t, l)) }
            7 => ("spiral", spiral(rng, (target / 2).clamp(2, 200))),
            8 | 9 => {
                let n = target.clamp(3, 14);
                let (w, h) = (rng.range(2, 7), rng.range(2, 7));
                match tiny(rng, n, w, h) { Some(s) => ("tiny", s), None => continue }
            }
            12 => ("valley", valley(rng, target)),
            10 => {
                let (_, mut a) = any_set(rng, mv / 2);
                let (_, b) = any_set(rng, mv / 2);
                side_by_side(rng, &mut a, b);
                ("composite", a)
            }
            _ => {
                let (_, mut a) = any_set(rng, mv / 2);
                let k = if rng.chance(1, 16) { 5 + rng.below(mv / 6 + 1) } else { 1 + rng.below(4) };
                frame(rng, &mut a, k);
                if rng.chance(1, 2) { let (_, b) = any_set(rng, mv / 2); side_by_side(rng, &mut a, b); if rng.chance(1, 2) { frame(rng, &mut a, 1); } }
                ("nested", a)
            }
        };
        if rng.chance(1, 6) { add_collinear(rng, &mut set, 1, 3); }
        if rng.chance(1, 8) {
            // shear keeps validity and makes slopes unusual
            let k = rng.range(-3, 3);
            for v in set.iter_mut().flatten() { v.0 += k * v.1; }
        }
        present(rng, &mut set);
        let n: usize = set.iter().map(|p| p.len()).sum();
        if n == 0 || n > max_vertices * 2 || set.iter().flatten().any(|v| v.0.abs() > 1 << 25 || v.1.abs() > 1 << 25) { continue; }
        if !is_valid(&set) { continue; }
        return (name, set);
    }
    ("tiny", vec![vec![(0, 0), (1, 0), (0, 1)]])
}

pub fn order(rng: &mut Rng) -> crate::run::Order { crate::run::Order { seed: rng.u64() >> 16, bias: *rng.pick(&[0, 0, 0, 0, 0, 128, 230, 256]) } }

/// Sizes: mostly small (many shapes per second), a tail of large ones
pub fn sized(rng: &mut Rng) -> (&'static str, Set) {
    if rng.chance(1, 8000) { let n = *rng.pick(&[9000, 17000, 33500, 66500]); let n = n + rng.below(n / 8); return huge(rng, n); }
    let mv = match rng.below(1000) { 0..=549 => 24, 550..=799 => 80, 800..=954 => 300, 955..=994 => 1200, _ => 5000 };
    any_set(rng, mv)
}

/// Larger than what most cases have: hundreds to some ten thousand vertices
pub fn large(rng: &mut Rng) -> (&'static str, Set) {
    match rng.below(8) {
        0..=4 => { let mv = *rng.pick(&[300, 700, 1200]); any_set(rng, mv) }
        5 | 6 => { let n = *rng.pick(&[1500, 3000, 4500]); let n = n + rng.below(n / 8); loop { let r = huge(rng, n); if is_valid(&r.1) { return r; } } }
        _ => { let n = *rng.pick(&[9000, 17000, 33500, 66500]); let n = n + rng.below(n / 8); huge(rng, n) }
    }
}

/// Random translation and power-of-two scale which keep f64 (or f32, if `single`) arithmetic exact. Returns false if the set is too wide for f32.
pub fn place(rng: &mut Rng, case: &mut crate::case::Case, single: bool) -> bool {
    let (x0, y0, x1, y1) = bbox(&case.set);
    if single {
        if x1 - x0 > 4096 || y1 - y0 > 4096 { return false; }
        let lim = 1i64 << 24;
        case.off = match rng.below(3) { 0 => (-x0, -y0), 1 => (rng.range(-2048, 2048) - x0, rng.range(-2048, 2048) - y0), _ => (rng.range(-lim, lim - 4096) - x0, rng.range(-lim, lim - 4096) - y0) };
        case.exp = if rng.chance(1, 2) { 0 } else { rng.range(-50, 50) as i32 };
    } else {
        let lim = 1i64 << 51;
        case.off = match rng.below(4) { 0 | 1 => (0, 0), 2 => (rng.range(-1 << 20, 1 << 20), rng.range(-1 << 20, 1 << 20)), _ => (rng.range(-lim, lim), rng.range(-lim, lim)) };
        case.exp = match rng.below(4) { 0 | 1 => 0, 2 => rng.range(-60, 60) as i32, _ => rng.range(-380, 380) as i32 };
    }
    true
}

/// Convex polygon: points on a parabola pair (all turns strict), n >= 3
pub fn convex(rng: &mut Rng, n: usize) -> Set {
    let n = n.max(3) as i64;
    let k = rng.range(1, n - 2);
    let mut p: Vec<Pt> = (0..=k).map(|i| (i * 3 * (n + 1), i * i - k * i)).collect();
    // upper chain, right to left, between the two ends
    let w = k * 3 * (n + 1);
    let m = n - 1 - k;
    for j in 1..=m { let x = w - j * w / (m + 1); p.push((x, 1 + j * (m + 1 - j))); }
    let s = vec![p];
    s
}

/// A set that probably breaks the preconditions: every way of doing so, combined at random
pub fn wild(rng: &mut Rng, max_vertices: usize) -> Set {
    let mut set: Set = match rng.below(4) {
        0 => {
            let (w, h) = (rng.range(1, 8), rng.range(1, 8));
            (0..1 + rng.below(3)).map(|_| (0..3 + rng.below(max_vertices / 2)).map(|_| (rng.range(0, w), rng.range(0, h))).collect()).collect()
        }
        1 => { let r = *rng.pick(&[20i64, 1000, 1 << 20]); (0..1 + rng.below(3)).map(|_| (0..3 + rng.below(max_vertices / 2)).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect()).collect() }
        2 => { let mut a = any_set(rng, max_vertices / 2).1; let b = any_set(rng, max_vertices / 2).1; a.extend(b); a }
        _ => any_set(rng, max_vertices).1,
    };
    spoil(rng, &mut set);
    set
}

/// Up to three local changes which may break the preconditions
pub fn spoil(rng: &mut Rng, set: &mut Set) {
    for _ in 0..rng.below(4) {
        let pi = rng.below(set.len());
        if set[pi].is_empty() { continue; }
        let n = set[pi].len();
        let (i, j) = (rng.below(n), rng.below(n));
        match rng.below(10) {
            0 => set[pi].swap(i, j),
            1 => { let v = set[pi][j]; set[pi][i] = v; }
            2 => { let v = set[pi][i]; set[pi].insert(j, v); }
            3 => { set[pi][i].0 += rng.range(-3, 3); set[pi][i].1 += rng.range(-3, 3); }
            4 => { let y = set[pi][j].1; set[pi][i].1 = y; }
            5 => { let qi = rng.below(set.len()); if !set[qi].is_empty() { let k = rng.below(set[qi].len()); let v = set[qi][k]; set[pi][i] = v; } }
            6 => { let p = set[pi].clone(); set.push(p); }
            7 => { let v = set[pi][i]; set[pi].insert(i, (v.0 + rng.range(-9, 9), v.1)); }
            8 => { let (a, b) = (i.min(j), i.max(j)); set[pi][a..=b].reverse(); }
            _ => { let a = set[pi][i]; let b = set[pi][(i + 1) % n]; set[pi].insert(i + 1, ((a.0 + b.0) / 2, (a.1 + b.1) / 2)); }
        }
    }
}

/// Sets beyond every plausible internal size limit; valid by construction
pub fn huge(rng: &mut Rng, n: usize) -> (&'static str, Set) {
    let mut set = match rng.below(7) {
        5 => valley(rng, n),
        0 => star(rng, n, 1 << 24),
        1 => { let one = rng.chance(1, 2); monotone(rng, n, 1000, 2, one) }
        2 => comb(rng, n * 2 / 5, 1000),
        // many polygons: triangles in rows, some of them with a hole
        3 => {
            let (w, mut s) = (1 + rng.below(200) as i64, Vec::new());
            let mut k = 0;
            let mut left = n as i64;
            while left > 0 {
                let (x, y) = (k % w * 12, k / w * 12 + rng.range(0, 1));
                s.push(vec![(x, y), (x + 10, y), (x + 4 + rng.range(0, 3), y + 10)]);
                left -= 3;
                if rng.chance(1, 3) { s.push(vec![(x + 4, y + 1), (x + 6, y + 1), (x + 5, y + 3)]); left -= 3; }
                k += 1;
            }
            s
        }
        // deep nesting; the work grows with depth, so shallower than the others
        4 => { let mut s = vec![vec![(0, 0), (3, 0), (0, 3)]]; let k = n / 40; frame(rng, &mut s, k); s }
        _ => convex(rng, n),
    };
    present(rng, &mut set);
    ("huge", set)
}
