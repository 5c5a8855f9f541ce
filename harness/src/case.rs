//! A generated case: everything a property check needs, as one value that can be shrunk, written out and replayed.
use crate::geom::{Pt, Set};
use crate::run::Order;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    /// polygons on an integer grid
    pub set: Set,
    /// translation, in grid units
    pub off: Pt,
    /// grid unit is 2^exp
    pub exp: i32,
    /// the random choices of the library
    pub order: Order,
    /// further choices, meaning depends on the property
    pub p: Vec<u64>,
    /// further polygon sets (histories over several inputs)
    pub more: Vec<Set>,
    /// generator family, for classification only
    pub fam: String,
}

impl Case {
    pub fn new(fam: &str, set: Set, order: Order) -> Self { Case { set, off: (0, 0), exp: 0, order, p: Vec::new(), more: Vec::new(), fam: fam.to_string() } }
    pub fn param(&self, i: usize) -> u64 { self.p.get(i).copied().unwrap_or(0) }
    pub fn n(&self) -> usize { self.set.iter().map(|p| p.len()).sum() }
    pub fn digest(&self) -> u64 {
        use crate::rng::mix2;
        let mut h = mix2(self.exp as u64, self.off.0 as u64 ^ (self.off.1 as u64).rotate_left(32));
        for s in std::iter::once(&self.set).chain(&self.more) {
            h = mix2(h, s.len() as u64);
            for p in s { h = mix2(h, p.len() as u64); for v in p { h = mix2(h, (v.0 as u64).rotate_left(20) ^ v.1 as u64); } }
        }
        for x in &self.p { h = mix2(h, *x); }
        mix2(h, self.order.seed ^ self.order.bias as u64)
    }
    pub fn json(&self) -> Value {
        json!({ "polygons": self.set, "offset": [self.off.0, self.off.1], "exp2": self.exp, "order_seed": self.order.seed.to_string(), "order_bias": self.order.bias,
            "params": self.p.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "more": self.more, "family": self.fam })
    }
    pub fn from_json(v: &Value) -> Option<Self> {
        let set = |v: &Value| -> Option<Set> {
            v.as_array()?.iter().map(|p| p.as_array()?.iter().map(|q| { let q = q.as_array()?; Some((q[0].as_i64()?, q[1].as_i64()?)) }).collect()).collect()
        };
        Some(Case {
            set: set(&v["polygons"])?, off: (v["offset"][0].as_i64()?, v["offset"][1].as_i64()?), exp: v["exp2"].as_i64()? as i32,
            order: Order { seed: v["order_seed"].as_str()?.parse().ok()?, bias: v["order_bias"].as_u64()? as u32 },
            p: v["params"].as_array()?.iter().map(|x| x.as_str()?.parse().ok()).collect::<Option<_>>()?,
            more: v["more"].as_array()?.iter().map(set).collect::<Option<_>>()?,
            fam: v["family"].as_str()?.to_string(),
        })
    }
    /// Compact form for evidence samples
    pub fn brief(&self) -> Value {
        let n = self.n();
        if n <= 40 { self.json() } else {
            json!({ "polygons_sizes": self.set.iter().map(|p| p.len()).take(40).collect::<Vec<_>>(), "first_vertices": self.set[0].iter().take(8).collect::<Vec<_>>(), "vertices": n,
                "offset": [self.off.0, self.off.1], "exp2": self.exp, "order_seed": self.order.seed.to_string(), "order_bias": self.order.bias,
                "params": self.p.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "family": self.fam })
        }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// held; non-trivial by the property's rule or not; classification labels
    Pass(bool, Vec<&'static str>),
    /// outside the property's domain (counted)
    Skip(&'static str),
    Fail(String),
}

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    /// number of cases
    fn cases(&self, thorough: bool) -> u64;
    fn gen(&self, rng: &mut crate::rng::Rng, index: u64, thorough: bool) -> Case;
    fn eval(&self, case: &Case) -> Verdict;
    /// The case is within the domain of the property (used while shrinking)
    fn in_domain(&self, case: &Case) -> bool { crate::geom::is_valid(&case.set) && case.more.iter().all(crate::geom::is_valid) }
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    /// also run in the build with debug assertions (fraction of the cases: 1/this), 0 = no
    fn checked_share(&self) -> u64 { 0 }
    fn level(&self) -> &'static str { "exploration" }
    /// time for making a failing case smaller
    fn shrink_seconds(&self) -> u64 { 60 }
    /// remove what the evaluations left behind
    fn cleanup(&self) {}
}
