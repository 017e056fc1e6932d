//! The operations of the collections as calls on a few registers. Points in callbacks and source
//! iterators are marked with `poke`, so that they can be made to fail.
use crate::{callbacks::*, elem::*, hist::*, ledger::{poke, CALLBACK, SOURCE}, radix::*, *};
use smallvec::{Array, SmallVec};
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::{
    radix_tree::AbstractRadixTree,
    AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet,
};

/// register i to be changed with the help of register j, which is left alone; a copy of i if they are the same
pub fn with_two<T: Clone, R>(v: &mut [T], i: usize, j: usize, f: impl FnOnce(&mut T, &T) -> R) -> R {
    if i == j {
        let b = v[i].clone();
        f(&mut v[i], &b)
    } else if i < j {
        let (x, y) = v.split_at_mut(j);
        f(&mut x[i], &y[0])
    } else {
        let (x, y) = v.split_at_mut(i);
        f(&mut y[0], &x[j])
    }
}
fn source<T>(v: Vec<T>) -> impl Iterator<Item = T> { v.into_iter().inspect(|_| poke(SOURCE)) }

// ------------------------------------------------------------ sets
pub struct SetWorld<A: Array>(pub Vec<VecSet<A>>);
impl<A: Array> SetWorld<A> where A::Item: Elem {
    pub fn new() -> Box<Self> { Box::new(SetWorld((0..3).map(|_| VecSet::empty()).collect())) }
    pub fn run(&mut self, op: &Op) -> Vec<i64> {
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let sets = &mut self.0;
        let mk = |x: i64| A::Item::mk(x);
        match op.o.as_str() {
            "new" => sets[i] = VecSet::empty(),
            "single" => sets[i] = VecSet::single(mk(op.x)),
            "collect" => sets[i] = source(mks::<A::Item>(&op.xs)).collect(),
            "fromvec" => sets[i] = VecSet::from(mks::<A::Item>(&op.xs)),
            "frombtree" => sets[i] = VecSet::from({ let mut b = BTreeSet::new(); for x in mks::<A::Item>(&op.xs) { if !b.contains(&x) { b.insert(x); } } b }),
            "insert" => return vec![sets[i].insert(mk(op.x)) as i64],
            "remove" => return vec![sets[i].remove(&mk(op.x)) as i64],
            "retain" => { let m = op.x; sets[i].retain(|e| { poke(CALLBACK); m >> (key(e.code()) % 4) & 1 == 1 }) }
            "extend" => sets[i].extend(source(mks::<A::Item>(&op.xs))),
            "clone" => sets[i] = sets[j].clone(),
            "shrink" => sets[i].shrink_to_fit(),
            "roundtrip" => {
                let s = std::mem::replace(&mut sets[i], VecSet::empty());
                sets[i] = match op.x % 5 {
                    0 => VecSet::from(Vec::from(s)),
                    1 => s.into_iter().collect(),
                    2 => VecSet::from(s.into_inner().into_vec()),
                    3 => { let sv: SmallVec<A> = s.into(); sv.into_iter().rev().collect() }
                    _ => VecSet::from(s.into_iter().collect::<BTreeSet<_>>()),
                }
            }
            "uo" => { let b = sets[j].clone(); sets[i] |= b }
            "io" => { let b = sets[j].clone(); sets[i] &= b }
            "do" => { let b = sets[j].clone(); sets[i] -= b }
            "xo" => { let b = sets[j].clone(); sets[i] ^= b }
            "ur" | "ir" | "dr" | "xr" | "uw" | "iw" | "dw" | "xw" => {
                with_two(sets, i, j, |a, b| match op.o.as_str() {
                    "ur" => *a |= b,
                    "ir" => *a &= b,
                    "dr" => *a -= b,
                    "xr" => *a ^= b,
                    "uw" => a.union_with(b),
                    "iw" => a.intersection_with(b),
                    "dw" => a.difference_with(b),
                    _ => a.xor_with(b),
                })
            }
            "u3" => sets[op.k - 1] = &sets[i] | &sets[j],
            "i3" => sets[op.k - 1] = &sets[i] & &sets[j],
            "d3" => sets[op.k - 1] = &sets[i] - &sets[j],
            "x3" => sets[op.k - 1] = &sets[i] ^ &sets[j],
            "query" => return op.xs.iter().map(|x| sets[i].contains(&mk(*x)) as i64).collect(),
            "relate" => return vec![
                sets[i].is_subset(&sets[j]) as i64,
                sets[i].is_superset(&sets[j]) as i64,
                sets[i].is_disjoint(&sets[j]) as i64,
                (sets[i] == sets[j]) as i64,
            ],
            o => panic!("unknown op {o}"),
        }
        vec![]
    }
}
impl<A: Array> World for SetWorld<A> where A::Item: Elem {
    fn name(&self) -> String { format!("{}x{}", A::Item::NAME, A::size()) }
    fn reset(&mut self, _: i64) { self.0 = (0..3).map(|_| VecSet::empty()).collect() }
    fn step(&mut self, op: &Op) -> Seen {
        let r = Raw(codes(|| self.run(op)).js());
        let all: Vec<Vec<i64>> = self.0.iter().map(|s| codes(|| s.iter().map(|x| x.code()).collect())).collect();
        let m: Vec<Vec<i64>> = self.0.iter().map(|s| vec![
            s.len() as i64,
            s.is_empty() as i64,
            AbstractVecSet::is_empty(s) as i64,
            s.as_ref().len() as i64,
        ]).collect();
        Seen { all: Raw(all.js()), m: Raw(m.js()), r }
    }
}
/// with a universe from here on, collections are built with several hundred elements
pub const VAST: usize = 1000;
pub fn set_op(r: &mut Rng, universe: i64, tags: i64) -> Op {
    let code = |r: &mut Rng| { let k = r.below(universe as usize) as i64; mkc(k, if tags == 0 { 0 } else { r.below(tags as usize) as i64 }) };
    let (i, j, k) = (r.range(1, 3), r.range(1, 3), r.range(1, 3));
    let mut op = Op { i, j, k, ..Default::default() };
    let list = |r: &mut Rng| {
        let n = if universe >= VAST as i64 && r.chance(3, 4) { r.range(200, 800) } else { match r.below(4) { 0 => r.below(4), 1 => r.range(2, 9), 2 => r.range(4, 20), _ => r.range(0, (universe as usize).min(60)) } };
        (0..n).map(|_| code(r)).collect::<Vec<_>>()
    };
    op.o = match r.below(100) {
        0..=1 => { op.x = r.below(2) as i64; "new" }
        2..=3 => { op.x = code(r); "single" }
        4..=8 => { op.xs = list(r); "collect" }
        9..=11 => { op.xs = list(r); "fromvec" }
        12..=13 => { op.xs = list(r); "frombtree" }
        14..=31 => { op.x = code(r); "insert" }
        32..=42 => { op.x = code(r); "remove" }
        43..=47 => { op.x = r.below(16) as i64; "retain" }
        48..=53 => { op.xs = list(r); "extend" }
        54..=56 => "clone",
        57..=59 => "shrink",
        60..=62 => { op.x = r.below(5) as i64; "roundtrip" }
        63..=84 => ["uo", "io", "do", "xo", "ur", "ir", "dr", "xr", "uw", "iw", "dw", "xw", "u3", "i3", "d3", "x3", "uo", "ur", "uw", "u3", "xo", "x3"][r.below(22)],
        85..=92 => { op.xs = (0..r.range(1, 8)).map(|_| code(r)).collect(); "query" }
        _ => "relate",
    }.to_string();
    op
}


// ------------------------------------------------------------ maps
pub type Pairs = Vec<(i64, i64)>;
pub fn kk<K: Elem>(k: &K) -> i64 { key(k.code()) }
pub fn mk<K: Elem>(k: i64) -> K { K::mk(mkc(k, 0)) }
pub fn mkp<K: Elem, V: Val>(ps: &[(i64, i64)]) -> Vec<(K, V)> { ps.iter().map(|(k, v)| (mk(*k), V::mv(*v))).collect() }
pub fn pairs<K: Elem, V: Val>(s: &[(K, V)]) -> Pairs { s.iter().map(|(k, v)| (kk(k), v.v())).collect() }
pub fn gp(f: impl FnOnce() -> Pairs) -> Pairs { guard(f).unwrap_or_else(|_| vec![(-1, -1)]) }

pub struct MapWorld<K: Elem, V: Val, A: Array<Item = (K, V)>>(pub Vec<VecMap<A>>, std::marker::PhantomData<(K, V)>);
impl<K: Elem, V: Val, A: Array<Item = (K, V)>> MapWorld<K, V, A> {
    pub fn new() -> Box<Self> { Box::new(MapWorld((0..3).map(|_| VecMap::empty()).collect(), Default::default())) }
    pub fn run(&mut self, op: &Op) -> Vec<i64> {
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let maps = &mut self.0;
        let m = op.m;
        let calls = Calls::default();
        let other = |maps: &Vec<VecMap<A>>| maps[j].clone();
        match op.o.as_str() {
            "new" => maps[i] = match op.x { 0 => VecMap::empty(), _ => VecMap::default() },
            "single" => maps[i] = VecMap::single((mk(op.ps[0].0), V::mv(op.ps[0].1))),
            "collect" => maps[i] = source(mkp(&op.ps)).collect(),
            "frombtree" => maps[i] = VecMap::from(mkp(&op.ps).into_iter().collect::<BTreeMap<K, V>>()),
            "insert" => return maps[i].insert(mk(op.ps[0].0), V::mv(op.ps[0].1)).map(|v| v.v()).into_iter().collect(),
            "mutate" => {
                let k: K = mk(op.ps[0].0);
                return match maps[i].get_mut(&k) { Some(v) => { let old = v.v(); *v = V::mv(op.ps[0].1); vec![old] } None => vec![] };
            }
            "retain" => maps[i].retain(|(k, v)| { poke(CALLBACK); keep(m, kk(k), v.v()) }),
            "extend" => maps[i].extend(source(mkp::<K, V>(&op.ps))),
            "merge" => { let b = other(maps); maps[i].merge_with(b) }
            "combine" => { let b = other(maps); maps[i].combine_with(b, |v, w| { poke(CALLBACK); V::mv(combine_value(m, v.v(), w.v())) }) }
            "mapvalues" => maps[op.k - 1] = maps[i].clone().map_values(|v: V| { poke(CALLBACK); V::mv(map_value(m, v.v())) }),
            "clone" => maps[i] = maps[j].clone(),
            "roundtrip" => {
                let s = std::mem::replace(&mut maps[i], VecMap::empty());
                maps[i] = match op.x % 4 {
                    0 => s.into_iter().collect(),
                    1 => s.into_inner().into_iter().rev().collect(),
                    2 => { let sv: SmallVec<A> = s.into(); sv.into_iter().collect::<BTreeMap<K, V>>().into() }
                    _ => s.into_iter().collect::<BTreeMap<K, V>>().into_iter().collect(),
                }
            }
            "query" => return op.xs.iter().map(|x| { let k: K = mk(*x); maps[i].get(&k).map(|v| v.v()).unwrap_or(-1) }).collect(),
            "oj" => maps[op.k - 1] = maps[i].outer_join(&maps[j], |a| outer_ref::<K, V, V>(&calls, m, a).map(V::mv)),
            "lj" => maps[op.k - 1] = maps[i].left_join(&maps[j], |k, v, w: Option<&V>| calls.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(V::mv)),
            "rj" => maps[op.k - 1] = maps[i].right_join(&maps[j], |k, v, w: &V| calls.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(V::mv)),
            "ij" => maps[op.k - 1] = maps[i].inner_join(&maps[j], |k, v, w: &V| calls.join(m, kk(k), Some(v.v()), Some(w.v())).map(V::mv)),
            "ow" => with_two(maps, i, j, |a, b| a.outer_join_with(b, |a| outer_own::<K, V, V>(&calls, m, a).map(V::mv))),
            "lw" => with_two(maps, i, j, |a, b| a.left_join_with(b, |k, v, w: Option<&V>| calls.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(V::mv))),
            "rw" => with_two(maps, i, j, |a, b| a.right_join_with(b, |k, v, w: &V| calls.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(V::mv))),
            "iw" => with_two(maps, i, j, |a, b| a.inner_join_with(b, |k, v, w: &V| calls.join(m, kk(k), Some(v.v()), Some(w.v())).map(V::mv))),
            o => panic!("unknown op {o}"),
        }
        vec![]
    }
}
pub fn outer_ref<K: Elem, V: Val, Q: Val>(c: &Calls, m: i64, a: OuterJoinArg<&K, &V, &Q>) -> Option<i64> {
    match a {
        OuterJoinArg::Left(k, v) => c.join(m, kk(k), Some(v.v()), None),
        OuterJoinArg::Right(k, w) => c.join(m, kk(k), None, Some(w.v())),
        OuterJoinArg::Both(k, v, w) => c.join(m, kk(k), Some(v.v()), Some(w.v())),
    }
}
pub fn outer_own<K: Elem, V: Val, Q: Val>(c: &Calls, m: i64, a: OuterJoinArg<&K, V, &Q>) -> Option<i64> {
    match a {
        OuterJoinArg::Left(k, v) => c.join(m, kk(k), Some(v.v()), None),
        OuterJoinArg::Right(k, w) => c.join(m, kk(k), None, Some(w.v())),
        OuterJoinArg::Both(k, v, w) => c.join(m, kk(k), Some(v.v()), Some(w.v())),
    }
}
impl<K: Elem, V: Val, A: Array<Item = (K, V)>> World for MapWorld<K, V, A> {
    fn name(&self) -> String { format!("{}/{}x{}", K::NAME, V::VNAME, A::size()) }
    fn reset(&mut self, _: i64) { self.0 = (0..3).map(|_| VecMap::empty()).collect() }
    fn step(&mut self, op: &Op) -> Seen {
        let r = Raw(codes(|| self.run(op)).js());
        let all: Vec<Pairs> = self.0.iter().map(|s| gp(|| pairs(s.as_ref()))).collect();
        let m: Vec<Vec<i64>> = self.0.iter().map(|s| vec![
            s.len() as i64,
            s.is_empty() as i64,
            AbstractVecMap::is_empty(s) as i64,
        ]).collect();
        Seen { all: Raw(all.js()), m: Raw(m.js()), r }
    }
}
pub fn map_op(r: &mut Rng, universe: usize) -> Op {
    let mut op = Op { i: r.range(1, 3), j: r.range(1, 3), k: r.range(1, 3), ..Default::default() };
    let pair = |r: &mut Rng| (r.below(universe) as i64, r.below(89) as i64);
    let list = |r: &mut Rng| {
        let n = if universe >= VAST && r.chance(3, 4) { r.range(200, 800) } else { match r.below(4) { 0 => r.below(4), 1 => r.range(2, 9), 2 => r.range(4, 20), _ => r.range(0, universe.min(60)) } };
        (0..n).map(|_| pair(r)).collect::<Vec<_>>()
    };
    op.m = match r.below(5) { 0 => 0, 1 => 4095, _ => r.below(4096) as i64 };
    op.o = match r.below(100) {
        0..=1 => { op.x = r.below(2) as i64; "new" }
        2..=3 => { op.ps = vec![pair(r)]; "single" }
        4..=10 => { op.ps = list(r); "collect" }
        11..=13 => { op.ps = list(r); "frombtree" }
        14..=31 => { op.ps = vec![pair(r)]; "insert" }
        32..=40 => { op.ps = vec![pair(r)]; "mutate" }
        41..=46 => { op.m = r.below(32) as i64; "retain" }
        47..=52 => { op.ps = list(r); "extend" }
        53..=58 => "merge",
        59..=64 => { op.m = r.below(50) as i64; "combine" }
        65..=67 => { op.m = r.below(50) as i64; "mapvalues" }
        68..=70 => "clone",
        71..=73 => { op.x = r.below(4) as i64; "roundtrip" }
        74..=82 => { op.xs = (0..r.range(1, 8)).map(|_| r.below(universe) as i64).collect(); "query" }
        _ => ["oj", "lj", "rj", "ij", "ow", "lw", "rw", "iw"][r.below(8)],
    }.to_string();
    op
}

// ------------------------------------------------------------ radix trees
/// operations of a tree with a borrowed operand of the same value type, in place
pub fn in_place<T: Flavour, B: AbstractRadixTree<T::K, T::V, Materialized = T>>(o: &str, t: &mut T, b: &B, m: i64, c: &Calls) {
    let set = |v: &mut T::V, r: Option<i64>| match r { Some(x) => { *v = T::V::mv(x); true } None => false };
    match o {
        "unionw" => t.union_with(b),
        "interw" => t.intersection_with(b),
        "diffw" => t.difference_with(b),
        "outerw" => t.outer_combine_with(b, |v, w| { let r = c.pair(m, v.v(), Some(w.v())); set(v, r) }),
        "innerw" => t.inner_combine_with(b, |v, w| { let r = c.pair(m, v.v(), Some(w.v())); set(v, r) }),
        "leftw" => t.left_combine_with(b, |v, w| { let r = c.pair(m, v.v(), Some(w.v())); set(v, r) }),
        "rmp" => t.remove_prefix_with(b, |w| { poke(CALLBACK); accepts(m, w.v()) }),
        "rtp" => t.retain_prefix_with(b, |w| { poke(CALLBACK); accepts(m, w.v()) }),
        o => panic!("unknown op {o}"),
    }
}
pub fn producing<T: Flavour, A: AbstractRadixTree<T::K, T::V, Materialized = T>, B: AbstractRadixTree<T::K, T::V, Materialized = T>>(o: &str, a: &A, b: &B, m: i64, c: &Calls) -> T {
    let out = |r: Option<i64>| r.map(T::V::mv);
    match o {
        "outer" => a.outer_combine(b, |v, w| out(c.pair(m, v.v(), Some(w.v())))),
        "inner" => a.inner_combine(b, |v, w: &T::V| out(c.pair(m, v.v(), Some(w.v())))),
        "left" => a.left_combine(b, |v, w: Option<&T::V>| out(c.pair(m, v.v(), w.map(|w| w.v())))),
        o => panic!("unknown op {o}"),
    }
}
pub const IN_PLACE: &[&str] = &["unionw", "interw", "diffw", "outerw", "innerw", "leftw", "rmp", "rtp"];
pub const PRODUCING: &[&str] = &["outer", "inner", "left"];

pub struct TreeWorld<T: Flavour> { pub t: Vec<T>, archived: bool, reload: bool }
impl<T: Flavour> TreeWorld<T> {
    pub fn new(n: usize, archived: bool, reload: bool) -> Box<Self> { Box::new(TreeWorld { t: (0..n).map(|_| T::empty()).collect(), archived, reload }) }
    pub fn run(&mut self, op: &Op) -> Raw {
        let none = Raw("[]".into());
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let calls = Calls::default();
        let (m, x) = (op.m, ks::<T::K>(&op.xs));
        let t = &mut self.t;
        match op.o.as_str() {
            "new" => t[i] = if op.x == 0 { T::empty() } else { T::default() },
            "leaf" => t[i] = T::leaf(T::V::mv(m)),
            "single" => t[i] = T::single(&x, T::V::mv(m)),
            "collect" => t[i] = make(&op.es, if op.x == 0 { 0 } else { 1 }),
            "insert" => t[i].insert(&x, T::V::mv(m)),
            "filter" => t[op.k - 1] = t[i].filter_prefix(&x),
            "prepend" => t[i].prepend(&x),
            "clone" => t[i] = t[j].clone(),
            "reload" => t[i] = t[i].reload(op.x),
            "query" => {
                let q = |e: &Entry| {
                    let k = ks::<T::K>(&e.0);
                    let g = t[i].get(&k).map(|v| v.v()).unwrap_or(-1);
                    if (g >= 0) != t[i].contains_key(&k) { -7 } else { g }
                };
                return Raw(op.es.iter().map(q).collect::<Vec<i64>>().js());
            }
            "scan" => {
                let r: Vec<Entry> = t[i].scan_prefix(&x).map(|(k, v)| (kc(k.as_ref()), v.v())).collect();
                return Raw(r.js());
            }
            "rel" => {
                let b = t[j].clone();
                let r = if self.archived { b.with_other(|b| rel(&t[i], b)) } else { rel(&t[i], &b) };
                return Raw(r.js());
            }
            "union" | "inter" | "diff" => {
                let (a, b) = (&t[i], &t[j]);
                let r = match op.o.as_str() { "union" => a.union(b), "inter" => a.intersection(b), _ => a.difference(b) };
                t[op.k - 1] = r;
            }
            o if IN_PLACE.contains(&o) => {
                let archived = self.archived;
                with_two(t, i, j, |t, b| if archived { b.with_other(|b| in_place(o, t, b, m, &calls)) } else { in_place(o, t, b, m, &calls) });
                return Raw(calls.sorted().js());
            }
            o => {
                let r = if self.archived { t[j].with_other(|b| producing(o, &t[i], b, m, &calls)) } else { producing(o, &t[i], &t[j], m, &calls) };
                t[op.k - 1] = r;
                return Raw(calls.sorted().js());
            }
        }
        none
    }
}
/// [subset, superset, disjoint, intersects]
pub fn rel<K: Kc, V: Val + Send + Sync + rkyv::Archive, U: Val + Send + Sync + rkyv::Archive>(a: &impl AbstractRadixTree<K, V>, b: &impl AbstractRadixTree<K, U>) -> Vec<i64> {
    vec![truth(|| a.is_subset(b)), truth(|| a.is_superset(b)), truth(|| a.is_disjoint(b)), truth(|| a.intersects(b))]
}
pub fn safe(f: impl FnOnce() -> Raw) -> Raw { guard(f).unwrap_or(Raw("\"panic\"".into())) }
impl<T: Flavour> World for TreeWorld<T> {
    fn name(&self) -> String { format!("{}{}{}", T::flavour(), if self.archived { " with archived operands" } else { "" }, if self.reload { " reloaded each step" } else { "" }) }
    fn reset(&mut self, _: i64) { for t in self.t.iter_mut() { *t = T::empty() } }
    fn step(&mut self, op: &Op) -> Seen {
        let r = safe(|| self.run(op));
        if self.reload { for t in self.t.iter_mut() { if let Ok(n) = guard(|| t.reload(op.x)) { *t = n } } }
        let all: Vec<Raw> = self.t.iter().map(|t| safe(|| shaped(t))).collect();
        let m: Vec<Raw> = self.t.iter().map(|t| safe(|| {
            let mut d = iterated(t);
            if !self.reload { d.add(consumed(t.clone()), "consumed") }
            Raw(format!("[{},{},{}]", d.js(), vals(t).js(), t.is_empty() as i64))
        })).collect();
        Seen { all: Raw(all.js()), m: Raw(m.js()), r }
    }
}
// ------------------------------------------------------------ keys
/// letters beyond those of a byte; for key types that have them
pub const LETTERS: i64 = 400;
pub fn letters(name: &str) -> bool { name.contains("<i64,") || name.contains("<char,") }
/// more children at one place than a byte counts
pub fn broad() -> Vocab { Vocab { words: (0..LETTERS).map(|x| vec![x]).collect(), max: 1 } }
/// more levels than a byte counts
pub fn skyscraper(r: &mut Rng) -> Vocab { let n = r.range(320, 400); tower_of(r, n as i64) }
/// a vocabulary of key parts: single letters, or words that share beginnings
pub struct Vocab { pub words: Vec<Key>, pub max: usize }
pub fn vocab(r: &mut Rng) -> Vocab {
    if r.chance(1, 40) { return tower(r) }
    match r.below(8) {
        6 if r.chance(1, 6) => Vocab { words: (0..256).map(|x| vec![x]).collect(), max: 1 }, // as wide as bytes can make them
        6 => Vocab { words: (0..120).map(|x| vec![x]).collect(), max: 2 }, // wide nodes
        7 => Vocab { words: vec![vec![0], vec![1], vec![0, 1]], max: 12 }, // deep trees
        0 => Vocab { words: (0..2).map(|x| vec![x]).collect(), max: 4 },
        1 => Vocab { words: (0..3).map(|x| vec![x]).collect(), max: 3 },
        2 => Vocab { words: (0..40).map(|x| vec![x]).collect(), max: 2 },
        3 => { // long shared beginnings, around and beyond the inline size of a fragment
            let l = r.range(5, 18);
            let w: Key = (0..l as i64).map(|i| i % 4).collect();
            let mut v = vec![w.clone(), vec![7], vec![3]];
            let mut x = w.clone(); *x.last_mut().unwrap() = 9; v.push(x);
            let mut x = w.clone(); x[l / 2] = 8; v.push(x);
            v.push(w[..l / 2].to_vec());
            Vocab { words: v, max: 3 }
        }
        4 => Vocab { words: vec![vec![1, 1], vec![1, 2], vec![1], vec![2, 1, 1], vec![2]], max: 3 },
        _ => { let n = r.range(2, 6) as i64; Vocab { words: (0..n).map(|x| vec![x, (x * 7) % 5]).chain((0..n).map(|x| vec![x])).collect(), max: 3 } }
    }
}
/// all beginnings of one long key, with a few side branches: one node below the other, many levels
pub fn tower(r: &mut Rng) -> Vocab { let n = r.range(40, 90); tower_of(r, n as i64) }
pub fn tower_of(r: &mut Rng, levels: i64) -> Vocab {
    let letter = |i: i64| i * i % 5;
    let mut v: Vec<Key> = (0..levels).map(|l| (0..l).map(letter).collect()).collect();
    for _ in 0..r.below(6) { let mut k = r.pick(&v).clone(); k.push(6); v.push(k) }
    Vocab { words: v, max: 0 }
}
impl Vocab {
    pub fn key(&self, r: &mut Rng) -> Key {
        if self.max == 0 { return r.pick(&self.words).clone() }
        let n = match r.below(8) { 0 => 0, 1 => 1, _ => r.range(1, self.max) };
        (0..n).flat_map(|_| r.pick(&self.words).clone()).collect()
    }
    /// a key related to those present: equal, cut, extended or altered
    pub fn near(&self, r: &mut Rng, present: &[Entry]) -> Key {
        if present.is_empty() || r.chance(1, 4) { return self.key(r) }
        let mut k = r.pick(present).0.clone();
        match r.below(5) {
            0 => {}
            1 => k.truncate(r.below(k.len() + 1)),
            2 if self.max == 0 => k.push(6),
            2 => k.extend(self.key(r)),
            3 => { let l = k.len(); if l > 0 { k[r.below(l)] = r.below(6) as i64 } }
            _ => { k.pop(); }
        }
        k
    }
    pub fn entries(&self, r: &mut Rng, n: usize) -> Vec<Entry> {
        // most of a tower, so that it has about as many levels
        if self.max == 0 && n > 2 && r.chance(2, 3) {
            let p = r.range(7, 12);
            let mut e: Vec<Entry> = self.words.iter().filter(|_| r.chance(p.min(11), 11)).map(|k| (k.clone(), k.len() as i64 % 89)).collect();
            r.shuffle(&mut e);
            return e;
        }
        if self.words.len() > 200 && n > 2 {
            // under one letter or none, all there are or nearly so, in one order or another
            let stem: Key = (0..r.below(3)).map(|_| r.below(256) as i64).collect();
            let p = if r.chance(1, 2) { 100 } else { r.range(90, 100) };
            let mut e: Vec<Entry> = vec![];
            for k in &self.words { if r.chance(p, 100) { e.push((stem.iter().chain(k).cloned().collect(), r.below(64) as i64)) } }
            if r.chance(1, 2) { r.shuffle(&mut e) }
            return e;
        }
        (0..n).map(|_| (self.key(r), r.below(89) as i64)).collect()
    }
}
pub fn mask(r: &mut Rng) -> i64 { match r.below(5) { 0 => 0, 1 => 255, _ => r.below(256) as i64 } }

pub fn tree_op(r: &mut Rng, v: &Vocab, regs: usize, seen: &mut Vec<Entry>, snapshots: bool) -> Op {
    let mut op = Op { i: r.range(1, regs), j: r.range(1, regs), k: r.range(1, regs), m: r.below(89) as i64, x: r.below(4) as i64, ..Default::default() };
    if r.chance(1, 3) && !seen.is_empty() { op.xs = v.near(r, seen) } else { op.xs = v.key(r) }
    let c = if snapshots && r.chance(1, 3) { 40 } else { r.below(100) };
    op.o = match c {
        0 => "new",
        1 => { if r.chance(1, 2) { op.xs = vec![] } "leaf" }
        2..=3 => "single",
        4..=9 => { let n = if r.chance(1, 12) { r.range(30, 70) } else { r.below(14) }; op.es = v.entries(r, n); "collect" }
        10..=31 => { seen.push((op.xs.clone(), op.m)); "insert" }
        32..=35 => { op.xs = v.near(r, seen); "filter" }
        36..=38 => { op.xs.truncate(4); "prepend" }
        39..=44 => "clone",
        45..=47 => "reload",
        48..=56 => { op.es = (0..r.range(1, 8)).map(|_| (v.near(r, seen), 0)).collect(); "query" }
        57..=62 => { op.xs = v.near(r, seen); "scan" }
        63..=66 => "rel",
        67..=71 => *r.pick(&["union", "inter", "diff"]),
        72..=90 => { op.m = mask(r); *r.pick(IN_PLACE) }
        _ => { op.m = mask(r); *r.pick(PRODUCING) }
    }.to_string();
    if !["collect", "query"].contains(&op.o.as_str()) { op.es.clear() }
    if op.o == "collect" { seen.extend(op.es.iter().cloned()) }
    if seen.len() > 40 { let n = seen.len() - 20; seen.drain(..n); }
    op
}
