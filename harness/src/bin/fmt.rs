//! C04 winding, C05 agreement of formats, C06 appending, C07 rollback, C11 reuse
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
#[path = "../out.rs"] #[allow(dead_code)] mod out;
use out::*;
use tri_verif::rng::{mix, Rng};
use tri_verif::run::*;
use triangulate::PolygonList;

fn small(rng: &mut Rng) -> (&'static str, Set) { let mv = *rng.pick(&[12, 16, 24, 24, 40, 80, 200, 600]); gen::any_set(rng, mv) }
/// sets with long fans
fn fanny(rng: &mut Rng) -> (&'static str, Set) {
    if rng.chance(1, 1500) { return gen::large(rng); }
    if rng.chance(1, 4) {
        let n = 8 + rng.below(60);
        let mut s = if rng.chance(1, 2) { gen::convex(rng, n) } else { gen::monotone(rng, n, 1000, 3, true) };
        gen::present(rng, &mut s);
        if is_valid(&s) { return ("long-fan", s); }
    }
    small(rng)
}

/// How much a collection holds to begin with: little as a rule, beyond 16 bits once in a while
fn groups(rng: &mut Rng, one_in: u32) -> u64 { if rng.chance(1, one_in) { *rng.pick(&[90, 260, 22000, 70000]) } else { rng.below(6) as u64 } }

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn rule(&self) -> &'static str { "valid set (incl. convex and one-sided polygons with long fans) x insertion order x one of 14 built-in format/container combinations or a custom CCW/CW fan/list builder x reversed 0-3 times x by value/&mut/&mut &mut; oracle: exact orientation of every triangle and exact tiling with the expected orientation. Non-trivial: more than one triangle." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 60_000_000 } else { 3_000_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let (fam, set) = fanny(rng);
        let mut c = Case::new(fam, set, gen::order(rng));
        c.p = vec![rng.below(3) as u64, rng.below(4) as u64, rng.below(KINDS + 12) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let flat = P::new(c);
        let (how, rev, kind) = (c.param(0) as usize, c.param(1) as usize, c.param(2) as usize);
        let mut l = Vec::new();
        let (tris, cw) = if kind < KINDS {
            l.push(KIND_NAMES[kind]);
            let r = guarded(c.n(), c.order, || -> Result<Any, Bad> { let (a, r) = Any::new(kind, &vec![]).run(Src::Direct(&flat), rev, how, u32::MAX); r.map(|_| a.unwrap()) }).0;
            let a = match r { Ok(a) => a, Err(b) => return Verdict::Fail(format!("triangulation of a valid set failed: {b:?}")) };
            (match triangles(kind, &a.read(), u32::MAX) { Ok(t) => t, Err(m) => return Verdict::Fail(format!("{}: {m}", KIND_NAMES[kind])) }, false)
        } else {
            let cfg = (kind - KINDS) % 4;
            l.push(["custom CCW fans", "custom CW fans", "custom CCW list", "custom CW list"][cfg]);
            let r = guarded(c.n(), c.order, || { let (ev, r) = logged(Src::Direct(&flat), cfg, rev, usize::MAX, 0); r.map(|_| ev) }).0;
            (match r { Ok(ev) => event_triangles(&ev), Err(b) => return Verdict::Fail(format!("triangulation of a valid set failed: {b:?}")) }, cfg % 2 == 1)
        };
        let cw = cw ^ (rev % 2 == 1);
        l.push(["direct", "reversed", "reversed twice", "reversed 3 times"][rev.min(3)]);
        let region = Region::new(&c.set);
        match judge(&region, &as_indices(&tris), !cw) {
            Err(m) => Verdict::Fail(format!("format {kind}, reversed {rev} times: {m}")),
            Ok(_) => Verdict::Pass(tris.len() > 1, l),
        }
    }
}

pub struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn rule(&self) -> &'static str { "valid set x insertion order; one trapezoidation written through all 14 format/container combinations (reversal 0-2 and way of passing drawn per combination), vertices carry an identity and bit-exact coordinates, delimiter drawn among non-indices. Oracle: all decode to one multiset of rotation-normalised triangles (flipped where reversed), which tiles the region; vertex copies are bit-exact. Non-trivial: more than one triangle." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 16_000_000 } else { 900_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let (fam, set) = fanny(rng);
        let mut c = Case::new(fam, set, gen::order(rng));
        c.p = vec![rng.u64() >> 40, rng.below(3) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let flat = P::new(c);
        let delim = match c.param(1) { 0 => u32::MAX, 1 => c.n() as u32, _ => 1_000_000 };
        let trap = match guarded(c.n(), c.order, || flat.trapezoidize()).0 { Ok(t) => t, Err(b) => return Verdict::Fail(format!("{b:?}")) };
        let mut base: Option<Vec<[u32; 3]>> = None;
        let mut longest = 0;
        for kind in 0..KINDS {
            let h = mix(c.param(0) ^ (kind as u64) << 32);
            let (rev, how) = if c.param(0) == 0 { (0, 0) } else { ((h % 3) as usize, ((h >> 8) % 3) as usize) };
            let r = guarded(c.n(), c.order, || -> Result<Any, Bad> { let (a, r) = Any::new(kind, &vec![]).run(Src::Trap(&trap), rev, how, delim); r.map(|_| a.unwrap()) }).0;
            let a = match r { Ok(a) => a, Err(b) => return Verdict::Fail(format!("{}: {b:?}", KIND_NAMES[kind])) };
            let content = a.read();
            if kind == 0 { longest = content.iter().map(|f| f.len()).max().unwrap_or(0); }
            let t = match triangles(kind, &content, delim).and_then(|t| exact_copies(kind, &flat, &t).map(|_| t)) { Ok(t) => t, Err(m) => return Verdict::Fail(format!("{}: {m}", KIND_NAMES[kind])) };
            let n = normal(&t, rev % 2 == 1);
            match &base {
                None => {
                    if let Err(m) = judge(&Region::new(&c.set), &as_indices(&t), rev % 2 == 0) { return Verdict::Fail(format!("{}: {m}", KIND_NAMES[kind])); }
                    base = Some(n);
                }
                Some(b) => if *b != n { return Verdict::Fail(format!("{} (reversed {rev} times) has other triangles than {}: {:?} / {:?}", KIND_NAMES[kind], KIND_NAMES[0], n, b)); }
            }
        }
        Verdict::Pass(base.unwrap().len() > 1, vec![match longest { 0..=3 => "fans of one triangle", 4..=8 => "fan 4-8", 9..=16 => "fan 9-16", _ => "fan > 16" }])
    }
}

pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn rule(&self) -> &'static str { "history of 1-4 triangulations of valid sets (own insertion order, reversal and way of passing each) into one collection of any of the 14 format/container combinations, starting from 0-5 groups of marker content (1-6 indices or vertices each, whole triangles in lists); model: concatenation. Oracle: earlier content bit-identical, the appended part (after one delimiter if there was content) decodes to the same triangles as the same trapezoidation written to an empty collection, the returned value is the caller's collection. Non-trivial: initial content or more than one triangulation." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 40_000_000 } else { 2_400_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let mv = *rng.pick(&[12, 12, 24, 60]);
        let (fam, set) = if rng.chance(1, 3000) { gen::large(rng) } else { gen::any_set(rng, mv) };
        let mut c = Case::new(fam, set, gen::order(rng));
        for _ in 0..rng.below(4) { c.more.push(gen::any_set(rng, mv).1); }
        c.p = vec![rng.below(KINDS) as u64, groups(rng, 3000), rng.u64() >> 40, rng.below(2) as u64];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let kind = (c.param(0) as usize).min(KINDS - 1);
        let delim = if c.param(3) == 0 { u32::MAX } else { 2_999_999_999 };
        let init = marker_content(kind, c.param(1) as usize, delim, c.param(2));
        let mut coll = Any::new(kind, &init);
        let mut before = coll.read();
        for (k, set) in std::iter::once(&c.set).chain(&c.more).enumerate() {
            let flat = P::of(c, set);
            let h = mix(c.param(2) ^ (k as u64) << 40);
            let (rev, how) = if c.param(2) == 0 { (0, 1) } else { ((h % 3) as usize, ((h >> 8) % 3) as usize) };
            let order = Order { seed: c.order.seed.wrapping_add(k as u64 * 77), bias: c.order.bias };
            let n = flat.verts.len();
            let trap = match guarded(n, order, || flat.trapezoidize()).0 { Ok(t) => t, Err(b) => return Verdict::Fail(format!("{b:?}")) };
            let fresh = guarded(n, order, || -> Result<Any, Bad> { let (a, r) = Any::new(kind, &vec![]).run(Src::Trap(&trap), rev, how, delim); r.map(|_| a.unwrap()) }).0;
            let fresh = match fresh { Ok(a) => a.read(), Err(b) => return Verdict::Fail(format!("{b:?}")) };
            let r = guarded(n, order, || -> Result<_, Bad> { Ok(coll.run(Src::Trap(&trap), rev, how, delim)) }).0;
            let (a, r) = match r { Ok(x) => x, Err(b) => return Verdict::Fail(format!("{b:?}")) };
            match r { Err(b) => return Verdict::Fail(format!("{b:?}")), Ok(false) => return Verdict::Fail("the returned output is not the caller's collection".into()), Ok(true) => {} }
            coll = a.unwrap();
            let after = coll.read();
            let had = !before.concat().is_empty();
            let check = || -> Result<(), String> {
                let mut s = suffix(kind, &before, &after)?;
                if is_delimited(kind) && had {
                    if s[0].first().map(|i| i.0) != Some(delim) { return Err("no delimiter after the earlier content".into()); }
                    s[0].remove(0);
                }
                let (t, f) = (triangles(kind, &s, delim)?, triangles(kind, &fresh, delim)?);
                exact_copies(kind, &flat, &t)?;
                if normal(&t, false) != normal(&f, false) { return Err(format!("appended {:?}, an empty collection gets {:?}", normal(&t, false), normal(&f, false))); }
                Ok(())
            };
            if let Err(m) = check() { return Verdict::Fail(format!("{}, step {k}: {m}", KIND_NAMES[kind])); }
            before = after;
        }
        Verdict::Pass(c.param(1) > 0 || !c.more.is_empty(), vec![KIND_NAMES[kind], if c.param(1) > 0 { "with initial content" } else { "initially empty" }, ["1 step", "2 steps", "3 steps", "4 steps"][c.more.len().min(3)]])
    }
}

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn rule(&self) -> &'static str { "history of 1-4 triangulations into one collection (14 format/container combinations, by &mut or &mut &mut, 0-5 groups of marker content), of valid and invalid sets: crossing/overlapping/duplicate/spiked polygons, polygons of 1-2 vertices anywhere, no vertices, delimiter equal to an arbitrary index. Oracle: after an error the collection is bit-identical to before, after a success its earlier content is. Non-trivial: some call failed although at least one triangle is delivered (measured with a recording builder under the same insertion order) - an inconsistency found half-way or a delimiter clash." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 15_000_000 } else { 1_000_000 } }
    fn in_domain(&self, _: &Case) -> bool { true }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        let kind = if rng.chance(1, 3) { *rng.pick(&[2, 11]) } else { rng.below(KINDS) };
        let one = |rng: &mut Rng| -> Set {
            match rng.below(8) {
                0 => vec![vec![]; rng.below(3)],
                1 => { let mut s = gen::any_set(rng, 16).1; let k = 1 + rng.below(2); let at = rng.below(s.len() + 1); s.insert(at, (0..k).map(|i| (1000 + i as i64, 77)).collect()); s }
                2 if rng.chance(1, 300) => { let mut s = gen::large(rng).1; if rng.chance(3, 4) { gen::spoil(rng, &mut s); } s }
                2 => gen::any_set(rng, 40).1,
                _ => gen::wild(rng, 24),
            }
        };
        let set = one(rng);
        let mut c = Case::new("failing", set, gen::order(rng));
        for _ in 0..rng.below(4) { let s = one(rng); c.more.push(s); }
        let n = c.n();
        c.p = vec![kind as u64, groups(rng, 300), rng.u64() >> 40, if is_delimited(kind) { rng.below(if n > 200 { n } else { 20 }) as u64 } else { 0 }];
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let kind = (c.param(0) as usize).min(KINDS - 1);
        // small numbers clash with indices of most inputs
        let delim = match c.param(3) { 0 => u32::MAX, d => d as u32 - 1 };
        let init = marker_content(kind, c.param(1) as usize, delim, c.param(2));
        let mut coll = Any::new(kind, &init);
        let mut before = coll.read();
        let mut labels = vec![KIND_NAMES[kind]];
        let mut nontrivial = false;
        for (k, set) in std::iter::once(&c.set).chain(&c.more).enumerate() {
            let flat = P::of(c, set);
            let h = mix(c.param(2) ^ (k as u64) << 40);
            let (rev, how) = if c.param(2) == 0 { (0, 1) } else { ((h % 3) as usize, 1 + ((h >> 8) % 2) as usize) };
            let order = Order { seed: c.order.seed.wrapping_add(k as u64 * 77), bias: c.order.bias };
            let n = flat.verts.len();
            // how far does a recording builder get?
            let delivered = match guarded(n * 8, order, || -> Result<_, Bad> { let (ev, r) = logged(Src::Direct(&flat), 0, rev, usize::MAX, 0); Ok((ev.iter().filter(|e| matches!(e, Ev::Init(..) | Ev::New(_) | Ev::Ext(_))).count(), r.is_ok())) }).0 {
                Ok((d, ok)) => if ok && !is_delimited(kind) { 0 } else { d },
                // crashes and hangs on invalid input are another property's business
                Err(_) => return Verdict::Skip("no answer"),
            };
            let r = guarded(n * 8, order, || -> Result<_, Bad> { Ok(coll.run(Src::Direct(&flat), rev, how, delim)) }).0;
            let (a, r) = match r { Ok(x) => x, Err(_) => return Verdict::Skip("no answer") };
            coll = a.unwrap();
            let after = coll.read();
            match r {
                Ok(_) => { labels.push("step ok"); if let Err(m) = suffix(kind, &before, &after) { return Verdict::Fail(format!("{}, step {k}: {m}", KIND_NAMES[kind])); } }
                Err(b) => {
                    labels.push(b.class());
                    if delivered > 0 { nontrivial = true; labels.push("failed after output began"); }
                    if !same(kind, &before, &after) { return Verdict::Fail(format!("{}, step {k}: {} left {} items where there were {}", KIND_NAMES[kind], b.class(), after.concat().len(), before.concat().len())); }
                }
            }
            before = after;
        }
        Verdict::Pass(nontrivial, labels)
    }
}

pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn rule(&self) -> &'static str { "1-3 trapezoidations of valid sets alive together and a history of 2-14 operations on them: triangulate with any of 14 format/container combinations or custom CCW/CW fan/list builders, reversed 0-3 times, with or without an injected builder error, or rebuild one of them. Oracle: every success yields the triangles of the first success on that trapezoidation, which tile its region. Non-trivial: at least two successful calls on one trapezoidation of more than one triangle." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 25_000_000 } else { 1_600_000 } }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        // many calls on small trapezoidations once in a while, and few on large ones
        let many = match rng.below(400_000) { 0..=1 => 66_500, 2..=201 => 150 + rng.below(500), _ => 0 };
        let mv = if many > 1000 { 3 } else if many > 0 { 6 } else { *rng.pick(&[12, 24, 24, 60, 150]) };
        let (fam, set) = if many == 0 && rng.chance(1, 4000) { gen::large(rng) } else { gen::any_set(rng, mv) };
        let mut c = Case::new(fam, set, gen::order(rng));
        for _ in 0..rng.below(3) { c.more.push(gen::any_set(rng, mv).1); }
        // without rebuilding, where there are many
        c.p = (0..many + 2 + rng.below(13)).map(|_| (rng.u64() >> 34) & if many > 0 { !(1 << 12) } else { !0 }).collect();
        c
    }
    fn eval(&self, c: &Case) -> Verdict {
        let sets: Vec<&Set> = std::iter::once(&c.set).chain(&c.more).collect();
        let flats: Vec<P> = sets.iter().map(|s| P::of(c, s)).collect();
        let build = |i: usize, k: u64| guarded(flats[i].verts.len(), Order { seed: c.order.seed.wrapping_add(k * 77 + i as u64), bias: c.order.bias }, || flats[i].trapezoidize()).0;
        let mut traps = Vec::new();
        for i in 0..flats.len() { match build(i, 0) { Ok(t) => traps.push(t), Err(b) => return Verdict::Fail(format!("{b:?}")) } }
        let mut base: Vec<Option<Vec<[u32; 3]>>> = vec![None; flats.len()];
        let mut successes = vec![0; flats.len()];
        let mut labels = Vec::new();
        let mut twice = false;
        for (k, code) in c.p.iter().enumerate() {
            let i = (code & 3) as usize % flats.len();
            let n = flats[i].verts.len();
            let rev = (code >> 2 & 3) as usize;
            let what = (code >> 4) as usize % (KINDS + 12);
            let fault = (code >> 10) & 3;
            if code >> 12 & 15 == 15 {
                match build(i, k as u64 + 1) { Ok(t) => { traps[i] = t; base[i] = None; successes[i] = 0; labels.push("rebuilt"); } Err(b) => return Verdict::Fail(format!("{b:?}")) }
                continue;
            }
            let got: Option<Vec<[Item; 3]>> = if what < KINDS {
                let delim = if fault == 1 && is_delimited(what) { (code >> 16) as u32 % n as u32 } else { u32::MAX };
                let r = guarded(n, c.order, || -> Result<_, Bad> { Ok(Any::new(what, &vec![]).run(Src::Trap(&traps[i]), rev, (code >> 9 & 1) as usize, delim)) }).0;
                match r {
                    Err(b) => return Verdict::Fail(format!("step {k}: {b:?}")),
                    Ok((_, Err(Bad::Builder))) if delim != u32::MAX => { labels.push("delimiter clash"); None }
                    Ok((_, Err(b))) => return Verdict::Fail(format!("step {k}: {b:?}")),
                    Ok((a, Ok(_))) => match triangles(what, &a.unwrap().read(), delim) { Ok(t) => Some(t), Err(m) => return Verdict::Fail(format!("step {k}: {m}")) },
                }
            } else {
                let cfg = (what - KINDS) % 4;
                let fail_at = if fault == 1 { (code >> 16) as usize % (n + 3) } else { usize::MAX };
                match guarded(n, c.order, || -> Result<_, Bad> { Ok(logged(Src::Trap(&traps[i]), cfg, rev, fail_at, k as u64)) }).0 {
                    Err(b) => return Verdict::Fail(format!("step {k}: {b:?}")),
                    Ok((ev, Ok(_))) => {
                        let mut t = event_triangles(&ev);
                        if cfg % 2 == 1 { for t in &mut t { t.swap(1, 2); } }
                        Some(t)
                    }
                    Ok((_, Err(e))) => { if fail_at == usize::MAX { return Verdict::Fail(format!("step {k}: {:?}", Bad::from(e))); } labels.push("builder failure"); None }
                }
            };
            if let Some(t) = got {
                let t = normal(&t, rev % 2 == 1);
                match &base[i] {
                    None => {
                        let tris: Vec<[usize; 3]> = t.iter().map(|t| [t[0] as usize, t[1] as usize, t[2] as usize]).collect();
                        if let Err(m) = judge(&Region::new(sets[i]), &tris, true) { return Verdict::Fail(format!("step {k}: {m}")); }
                        base[i] = Some(t);
                    }
                    Some(b) => if *b != t { return Verdict::Fail(format!("step {k}: the trapezoidation now yields {t:?} instead of {b:?}")); }
                }
                successes[i] += 1;
                if successes[i] > 1 && base[i].as_ref().unwrap().len() > 1 { twice = true; }
            }
        }
        Verdict::Pass(twice, labels)
    }
}

fn main() { tri_verif::driver::main(|| vec![Box::new(C04), Box::new(C05), Box::new(C06), Box::new(C07), Box::new(C11)]) }
