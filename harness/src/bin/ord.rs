//! Equality, order and hashing (C08) of collections with given contents, built in different ways.
use smallvec::Array;
use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet},
    hash::{Hash, Hasher},
};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, VecMap, VecSet};
use vh::{elem::*, gen::*, *};

#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct>, n: u64 }
impl Rec { fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.n += 1; self.m.entry(k).or_default().add(v, from) } }

const MODES: usize = 6;
fn set<A: Array>(c: &[i64], mode: usize) -> VecSet<A> where A::Item: Elem {
    let v: Vec<A::Item> = mks(c);
    match mode {
        0 => v.into_iter().collect(),
        1 => { let mut w = Vec::with_capacity(v.len() + 33); w.extend(v); w.into() }
        2 => { let mut s = VecSet::empty(); for x in v.into_iter().rev() { s.insert(x); } s }
        3 => { // grown, then cut down
            let mut s: VecSet<A> = VecSet::empty();
            for k in 200..220 { s.insert(A::Item::mk(mkc(k, 0))); }
            for x in v { s.insert(x); }
            let keep: BTreeSet<i64> = c.iter().map(|c| key(*c)).collect();
            s.retain(|x| keep.contains(&key(x.code())));
            s
        }
        4 => { // halves united
            let (mut p, mut q): (VecSet<A>, VecSet<A>) = (VecSet::empty(), VecSet::empty());
            for (i, x) in v.into_iter().enumerate() { if i % 2 == 0 { p.insert(x); } else { q.insert(x); } }
            &p | &q
        }
        _ => { let mut s: VecSet<A> = v.into_iter().collect(); s.shrink_to_fit(); let t = s.clone(); drop(s); t }
    }
}
fn map<K: Elem, V: Val, A: Array<Item = (K, V)>>(ps: &[(i64, i64)], mode: usize) -> VecMap<A> {
    let v: Vec<(K, V)> = ps.iter().map(|(k, v)| (K::mk(mkc(*k, 0)), V::mv(*v))).collect();
    match mode {
        0 => v.into_iter().collect(),
        1 => v.into_iter().collect::<BTreeMap<K, V>>().into(),
        2 => { let mut s = VecMap::empty(); for (k, v) in v.into_iter().rev() { s.insert(k, v); } s }
        3 => {
            let mut s: VecMap<A> = VecMap::empty();
            for k in 200..220 { s.insert(K::mk(mkc(k, 0)), V::mv(1)); }
            for (k, v) in v { s.insert(k, v); }
            let keep: BTreeSet<i64> = ps.iter().map(|p| p.0).collect();
            s.retain(|x| keep.contains(&key(x.0.code())));
            s
        }
        4 => { let mut s: VecMap<A> = v.iter().cloned().map(|(k, _)| (k, V::mv(77))).collect(); s.merge_with::<A>(v.into_iter().collect()); s }
        _ => { let s: VecMap<A> = v.into_iter().collect(); let t = s.clone(); drop(s); t }
    }
}
fn h<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn eqs<T: Eq + Clone + Hash>(rec: &mut Rec, x: &T, y: &T, t: &str) {
    rec.add("eq", truth(|| x == y), t);
    rec.add("eq", truth(|| y == x), t);
    rec.add("eq", truth(|| !(x != y)), t);
    rec.add("hash", truth(|| h(x) == h(y)), t);
    rec.add("cl", truth(|| { let c = x.clone(); c == *x && *x == c && h(&c) == h(x) }), t);
}
fn ords<T: Ord + Clone>(rec: &mut Rec, x: &T, y: &T, t: &str) {
    rec.add("cmp", num(|| x.cmp(y) as i64), t);
    rec.add("cmp", num(|| y.cmp(x).reverse() as i64), t);
    rec.add("cmp", num(|| x.partial_cmp(y).map(|c| c as i64).unwrap_or(7)), t);
    rec.add("cmp", num(|| match (x < y, x <= y, x > y, x >= y) {
        (true, true, false, false) => -1, (false, true, false, true) => 0, (false, false, true, true) => 1, _ => 8 }), t);
    rec.add("cmp", num(|| match x.clone().max(y.clone()).cmp(x) { Ordering::Equal => if x.cmp(y) == Ordering::Equal { 0 } else { 1 }, _ => -1 }), t);
}
/// sets of two, ordered by inclusion: some cannot be compared (7)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Incl(u8);
impl PartialOrd for Incl {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self.0 & o.0 == self.0, self.0 & o.0 == o.0) { (true, true) => Some(Ordering::Equal), (true, false) => Some(Ordering::Less), (false, true) => Some(Ordering::Greater), _ => None }
    }
}
impl Val for Incl { const VNAME: &'static str = "inclusion"; fn mv(v: i64) -> Self { Incl(v as u8) } fn v(&self) -> i64 { self.0 as i64 } }
fn pords<T: PartialOrd>(rec: &mut Rec, x: &T, y: &T, t: &str) {
    let n = |c: Option<Ordering>| c.map(|c| c as i64).unwrap_or(7);
    rec.add("pcmp", num(|| n(x.partial_cmp(y))), t);
    rec.add("pcmp", num(|| n(y.partial_cmp(x).map(|c| c.reverse()))), t);
    rec.add("pcmp", num(|| match (x < y, x <= y, x > y, x >= y) {
        (true, true, false, false) => -1, (false, true, false, true) => 0, (false, false, true, true) => 1, (false, false, false, false) => 7, _ => 8 }), t);
}
fn partial<K: Elem, A: Array<Item = (K, Incl)>>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], (ma, mb): (usize, usize)) {
    let t = format!("map {}/inclusionx{}", K::NAME, A::size());
    let (x, y) = (map::<K, Incl, A>(a, ma), map::<K, Incl, A>(b, mb));
    eqs(rec, &x, &y, &t);
    pords(rec, &x, &y, &t);
    let (x, y): (VecSet<A>, VecSet<A>) = (x.into(), y.into());
    rec.add("eq", truth(|| x == y), &t);
    pords(rec, &x, &y, &format!("{t} as a set of pairs"));
}
fn tpartial<K: Elem, A: Array<Item = (K, Incl)>>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], (da, db): (i64, i64), (ma, mb): (usize, usize)) {
    let t = format!("total map {}/inclusionx{}", K::NAME, A::size());
    let (x, y) = (TotalVecMap::new(map::<K, Incl, A>(a, ma), Incl::mv(da)), TotalVecMap::new(map::<K, Incl, A>(b, mb), Incl::mv(db)));
    eqs(rec, &x, &y, &t);
    pords(rec, &x, &y, &t);
}
fn sets<A: Array>(rec: &mut Rec, a: &[i64], b: &[i64], (ma, mb): (usize, usize)) where A::Item: Elem {
    if !fits::<A::Item>(a) || !fits::<A::Item>(b) { return }
    let t = format!("set {}x{}", A::Item::NAME, A::size());
    let (x, y) = (set::<A>(a, ma), set::<A>(b, mb));
    eqs(rec, &x, &y, &t);
    ords(rec, &x, &y, &t);
}
fn tsets<A: Array>(rec: &mut Rec, a: &[i64], b: &[i64], (na, nb): (bool, bool), (ma, mb): (usize, usize)) where A::Item: Elem {
    let t = format!("total set {}x{}", A::Item::NAME, A::size());
    let mk = |c: &[i64], n: bool, m| { let s = TotalVecSet::from(set::<A>(c, m)); if n { !s } else { s } };
    eqs(rec, &mk(a, na, ma), &mk(b, nb, mb), &t);
}
fn maps<K: Elem, V: Val + Ord + Hash, A: Array<Item = (K, V)>>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], (ma, mb): (usize, usize)) {
    let t = format!("map {}/{}x{}", K::NAME, V::VNAME, A::size());
    let (x, y) = (map::<K, V, A>(a, ma), map::<K, V, A>(b, mb));
    eqs(rec, &x, &y, &t);
    ords(rec, &x, &y, &t);
}
fn tmaps<K: Elem, V: Val + Ord + Hash, A: Array<Item = (K, V)>>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], (da, db): (i64, i64), (ma, mb): (usize, usize)) {
    let t = format!("total map {}/{}x{}", K::NAME, V::VNAME, A::size());
    let (x, y) = (TotalVecMap::new(map::<K, V, A>(a, ma), V::mv(da)), TotalVecMap::new(map::<K, V, A>(b, mb), V::mv(db)));
    eqs(rec, &x, &y, &t);
    ords(rec, &x, &y, &t);
}
fn save(o: &mut Out, note: &mut String, mut l: Obj, rec: &Rec) {
    o.evals += rec.n;
    for (k, d) in &rec.m {
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn main() {
    let a = args();
    let mut o = Out::new(&a, "order");
    let mut note = String::new();
    let mut set_case = |o: &mut Out, x: &[i64], y: &[i64], m: (usize, usize)| {
        let head = Obj::new().f("t", "set").f("a", x).f("b", y);
        o.begin(&head.clone().f("modes", m).end());
        let mut rec = Rec::default();
        sets::<[Tk; 2]>(&mut rec, x, y, m);
        sets::<[Bx; 8]>(&mut rec, x, y, (m.1, m.0));
        sets::<[St; 0]>(&mut rec, x, y, m);
        sets::<[i64; 4]>(&mut rec, x, y, m);
        save(o, &mut note, head, &rec);
        o.stat("set_pairs", 1);
        for s in 0..4 {
            let (na, nb) = (s & 1 == 1, s & 2 == 2);
            let mut rec = Rec::default();
            tsets::<[Tk; 2]>(&mut rec, x, y, (na, nb), m);
            tsets::<[Bx; 8]>(&mut rec, x, y, (na, nb), (m.1, m.0));
            save(o, &mut note, Obj::new().f("t", "tset").f("a", x).f("b", y).f("na", na as i64).f("nb", nb as i64), &rec);
        }
    };
    let n = if a.thorough { 6 } else { 4 };
    let subs = subsets(n);
    for (p, x) in subs.iter().enumerate() { for (q, y) in subs.iter().enumerate() {
        let m = (p * 5 + q) % (MODES * MODES);
        set_case(&mut o, &with_tag(x, 1), &with_tag(y, 2), (m % MODES, m / MODES));
    } }
    let c = if a.thorough { 20000 } else { 2500 };
    for i in 0..c {
        let mut r = Rng::new(a.seed, 141_000 + i);
        let vast = i % 80 == 33;
        let max = if vast { 1200 } else { [10, 30, 100, 400, 4000][r.below(5)] };
        let (x, mut y) = if vast { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        if r.chance(1, 4) { y = x.clone(); if r.chance(1, 2) { y.truncate(x.len() / 2) } }
        let (ta, tb) = *r.pick(&[(1, 2), (0, 0), (3, 3)]);
        set_case(&mut o, &with_tag(&x, ta), &with_tag(&y, tb), (r.below(MODES), r.below(MODES)));
    }
    let mut map_case = |o: &mut Out, x: &[(i64, i64)], y: &[(i64, i64)], d: (i64, i64), m: (usize, usize)| {
        let head = Obj::new().f("t", "map").f("a", x).f("b", y);
        o.begin(&head.clone().f("modes", m).f("d", d).end());
        let mut rec = Rec::default();
        maps::<i64, i64, [(i64, i64); 2]>(&mut rec, x, y, m);
        maps::<Bx, String, [(Bx, String); 0]>(&mut rec, x, y, m);
        maps::<Tk, u8, [(Tk, u8); 8]>(&mut rec, x, y, (m.1, m.0));
        partial::<i64, [(i64, Incl); 2]>(&mut rec, x, y, m);
        partial::<Bx, [(Bx, Incl); 4]>(&mut rec, x, y, m);
        save(o, &mut note, head, &rec);
        let mut rec = Rec::default();
        tpartial::<Tk, [(Tk, Incl); 2]>(&mut rec, x, y, d, m);
        tmaps::<i64, i64, [(i64, i64); 2]>(&mut rec, x, y, d, m);
        tmaps::<Bx, String, [(Bx, String); 4]>(&mut rec, x, y, d, m);
        save(o, &mut note, Obj::new().f("t", "tmap").f("a", x).f("b", y).f("da", d.0).f("db", d.1), &rec);
        o.stat("map_pairs", 1);
    };
    // all maps over two keys and three values
    let mut all: Vec<Vec<(i64, i64)>> = vec![];
    for p in -1..3 { for q in -1..3 { all.push([(0, p), (1, q)].into_iter().filter(|x| x.1 >= 0).collect()) } }
    for (p, x) in all.iter().enumerate() { for (q, y) in all.iter().enumerate() {
        for d in 0..4 { let m = (p * 5 + q + d) % (MODES * MODES); map_case(&mut o, x, y, ((d & 1) as i64, (d >> 1) as i64), (m % MODES, m / MODES)) }
    } }
    for i in 0..c {
        let mut r = Rng::new(a.seed, 151_000 + i);
        let vast = i % 80 == 33;
        let max = if vast { 1200 } else { [10, 30, 100, 400, 4000][r.below(5)] };
        let (x, y) = if vast { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let vals = |r: &mut Rng, ks: &[i64]| ks.iter().map(|k| (*k, r.below(4) as i64)).collect::<Vec<_>>();
        let (px, mut py) = (vals(&mut r, &x), vals(&mut r, &y));
        if r.chance(1, 3) { // differing in one value, or not at all
            py = px.clone();
            if r.chance(2, 3) && !py.is_empty() { let q = r.below(py.len()); py[q].1 = r.below(4) as i64 }
        }
        map_case(&mut o, &px, &py, (r.below(4) as i64, r.below(4) as i64), (r.below(MODES), r.below(MODES)));
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}
