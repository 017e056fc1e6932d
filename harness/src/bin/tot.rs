//! Sets with negation (C09, C10) and total maps (C11, C12): histories and pairs.
use num_traits::{Bounded, One, Zero};
use smallvec::Array;
use std::{cmp::Ordering, collections::{BTreeMap, BTreeSet}};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, VecMap, VecSet};
use vh::{callbacks::*, elem::*, gen::*, hist::*, num::*, *};

fn mk<K: Elem>(k: i64) -> K { K::mk(mkc(k, 0)) }
/// the keys 0..n and some that are never named
fn probes<K: Elem>(n: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (0..=n).collect();
    v.extend(if K::NAME == "u8" { vec![n + 3, 254, 255] } else { vec![n + 3, 3000, 4095] });
    v
}

// ------------------------------------------------------------ sets with negation
struct WS<A: Array>(i64, Vec<TotalVecSet<A>>);
fn members<A: Array>(n: i64, s: &TotalVecSet<A>) -> Vec<i64> where A::Item: Elem {
    codes(|| probes::<A::Item>(n).iter().map(|k| s.contains(&mk(*k)) as i64).collect())
}
impl<A: Array> WS<A> where A::Item: Elem {
    fn new() -> Box<Self> { Box::new(WS(0, vec![])) }
    fn run(&mut self, op: &Op) -> Vec<i64> {
        let (i, j, k) = (op.i - 1, op.j.max(1) - 1, op.k.max(1) - 1);
        let s = &mut self.1;
        match op.o.as_str() {
            "const" => s[i] = match (op.m % 3, op.x) {
                (0, 0) => TotalVecSet::empty(), (0, _) => TotalVecSet::all(),
                (1, x) => TotalVecSet::constant(x == 1), (_, x) => (x == 1).into() },
            "fromset" => s[i] = TotalVecSet::from(op.xs.iter().map(|k| mk(*k)).collect::<VecSet<A>>()),
            "insert" => s[i].insert(mk(op.x)),
            "remove" => s[i].remove(&mk(op.x)),
            "not" => { let a = std::mem::replace(&mut s[i], TotalVecSet::empty()); s[i] = !a }
            "not3" => s[k] = !&s[i],
            "clone" => s[i] = s[j].clone(),
            "shrink" => s[i].shrink_to_fit(),
            "u" => { let b = s[j].clone(); s[i] |= b }
            "i" => { let b = s[j].clone(); s[i] &= b }
            "d" => { let b = s[j].clone(); s[i] -= b }
            "x" => { let b = s[j].clone(); s[i] ^= b }
            "u3" => s[k] = &s[i] | &s[j],
            "i3" => s[k] = &s[i] & &s[j],
            "d3" => s[k] = &s[i] - &s[j],
            "x3" => s[k] = &s[i] ^ &s[j],
            "relate" => return vec![s[i].is_subset(&s[j]) as i64, s[i].is_superset(&s[j]) as i64, s[i].is_disjoint(&s[j]) as i64, (s[i] == s[j]) as i64],
            o => panic!("unknown op {o}"),
        }
        vec![]
    }
}
impl<A: Array> World for WS<A> where A::Item: Elem {
    fn name(&self) -> String { format!("{}x{}", A::Item::NAME, A::size()) }
    fn reset(&mut self, x: i64) { self.0 = x; self.1 = (0..3).map(|_| TotalVecSet::empty()).collect() }
    fn step(&mut self, op: &Op) -> Seen {
        let r = Raw(codes(|| self.run(op)).js());
        // the number of probes is the same for all element types
        let all: Vec<Vec<i64>> = self.1.iter().map(|s| members(self.0, s)).collect();
        let m: Vec<Vec<i64>> = self.1.iter().map(|s| {
            let mut v = vec![s.is_empty() as i64, s.is_all() as i64];
            v.extend(self.1.iter().map(|t| if (s == t) == (t != s) { -1 } else { (s == t) as i64 }));
            v
        }).collect();
        Seen { all: Raw(all.js()), m: Raw(m.js()), r }
    }
}
fn set_worlds() -> Vec<Box<dyn World>> {
    vec![WS::<[i64; 2]>::new(), WS::<[Tk; 0]>::new(), WS::<[Bx; 4]>::new(), WS::<[String; 16]>::new(), WS::<[u8; 1]>::new()]
}
/// how many elements to build something from
fn many(r: &mut Rng, n: usize) -> usize { if n > 100 && r.chance(3, 4) { r.range(n / 2, 4 * n) } else { r.range(0, n.min(30)) } }
fn random_set_op(r: &mut Rng, n: usize) -> Op {
    let mut op = Op { i: r.range(1, 3), j: r.range(1, 3), k: r.range(1, 3), ..Default::default() };
    op.m = r.below(3) as i64;
    op.o = match r.below(100) {
        0..=3 => { op.x = r.below(2) as i64; "const" }
        4..=11 => { op.xs = (0..many(r, n)).map(|_| r.below(n) as i64).collect(); "fromset" }
        12..=26 => { op.x = r.below(n) as i64; "insert" }
        27..=41 => { op.x = r.below(n) as i64; "remove" }
        42..=50 => "not",
        51..=54 => "not3",
        55..=57 => "clone",
        58..=59 => "shrink",
        60..=89 => ["u", "i", "d", "x", "u3", "i3", "d3", "x3"][r.below(8)],
        _ => "relate",
    }.to_string();
    op
}

// ------------------------------------------------------------ total maps
struct WT<K, V, A: Array>(i64, Vec<TotalVecMap<V, A>>, std::marker::PhantomData<K>);
type Entries = (Vec<(i64, i64)>, Vec<i64>);
fn show<K: Elem, V: Val, A: Array<Item = (K, V)>>(n: i64, t: &TotalVecMap<V, A>) -> Entries {
    guard(|| (
        t.non_default_mappings().as_ref().iter().map(|(k, v)| (key(k.code()), v.v())).collect::<Vec<_>>(),
        probes::<K>(n).iter().map(|k| { let k: K = mk(*k); t[&k].v() }).collect::<Vec<_>>(),
    )).unwrap_or_else(|_| (vec![(-1, -1)], vec![]))
}
trait Number: Val + Ord + Zero + One + Bounded + Default + std::hash::Hash
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Div<Output = Self> + std::ops::Neg<Output = Self> {}
impl Number for Num {}
impl Number for Num8 {}
impl Number for NumB {}
fn vmap<K: Elem, V: Val, A: Array<Item = (K, V)>>(ps: &[(i64, i64)]) -> VecMap<A> { ps.iter().map(|(k, v)| (mk(*k), V::mv(*v))).collect() }
fn apply<K: Elem, V: Number, A: Array<Item = (K, V)>>(o: &str, m: i64, a: &TotalVecMap<V, A>, b: &TotalVecMap<V, A>) -> TotalVecMap<V, A> {
    match o {
        "add" => a.clone() + b.clone(),
        "sub" => a.clone() - b.clone(),
        "mul" => a.clone() * b.clone(),
        "div" => a.clone() / b.clone(),
        "sup" => a.supremum(b),
        "inf" => a.infimum(b),
        _ => a.combine_ref(b, |v, w| V::mv(combine_value(m, v.v(), w.v()))),
    }
}
impl<K: Elem, V: Number, A: Array<Item = (K, V)>> WT<K, V, A> {
    fn new() -> Box<Self> { Box::new(WT(0, vec![], Default::default())) }
    fn run(&mut self, op: &Op) -> Vec<i64> {
        let (i, j, k) = (op.i - 1, op.j.max(1) - 1, op.k.max(1) - 1);
        let t = &mut self.1;
        match op.o.as_str() {
            "const" => t[i] = if op.m % 2 == 0 { TotalVecMap::constant(V::mv(op.x)) } else { V::mv(op.x).into() },
            "zero" => t[i] = if op.m % 2 == 0 { Zero::zero() } else { Default::default() },
            "one" => t[i] = One::one(),
            "minv" => t[i] = Bounded::min_value(),
            "maxv" => t[i] = Bounded::max_value(),
            "new" => t[i] = TotalVecMap::new(vmap(&op.ps), V::mv(op.x)),
            "neg" => { let a = t[i].clone(); t[i] = -a }
            "mapvalues" => t[k] = t[i].map_values(|v| V::mv(map_value(op.m, v.v()))),
            "squash" => t[k] = t[i].map_values(|v| V::mv(v.v() % 3)),
            "clone" => t[i] = t[j].clone(),
            o => { let r = apply(o, op.m, &t[i], &t[j]); t[k] = r }
        }
        vec![]
    }
}
impl<K: Elem, V: Number, A: Array<Item = (K, V)>> World for WT<K, V, A> {
    fn name(&self) -> String { format!("{}/{}x{}", K::NAME, V::VNAME, A::size()) }
    fn reset(&mut self, x: i64) { self.0 = x; self.1 = (0..3).map(|_| Zero::zero()).collect() }
    fn step(&mut self, op: &Op) -> Seen {
        let r = Raw(codes(|| self.run(op)).js());
        let all: Vec<Entries> = self.1.iter().map(|s| show(self.0, s)).collect();
        let m: Vec<Vec<i64>> = self.1.iter().map(|s| {
            let mut v = vec![s.is_zero() as i64, s.is_one() as i64];
            v.extend(self.1.iter().map(|t| if (s == t) == (t != s) { -1 } else { (s == t) as i64 }));
            v
        }).collect();
        Seen { all: Raw(all.js()), m: Raw(m.js()), r }
    }
}
fn map_worlds() -> Vec<Box<dyn World>> {
    vec![WT::<i64, Num, [(i64, Num); 1]>::new(), WT::<Tk, Num, [(Tk, Num); 0]>::new(), WT::<String, NumB, [(String, NumB); 4]>::new(), WT::<u8, Num8, [(u8, Num8); 16]>::new()]
}
/// values from a small range, so that they often coincide with a default
fn small(r: &mut Rng) -> i64 { match r.below(4) { 0 => r.below(97) as i64, 1 => [0, 1, 96][r.below(3)], _ => r.below(3) as i64 } }
fn random_map_op(r: &mut Rng, n: usize) -> Op {
    let mut op = Op { i: r.range(1, 3), j: r.range(1, 3), k: r.range(1, 3), ..Default::default() };
    op.m = r.below(60) as i64;
    op.o = match r.below(100) {
        0..=4 => { op.x = small(r); "const" }
        5 => "zero", 6 => "one", 7 => "minv", 8 => "maxv",
        9..=34 if n > 100 => { // large maps: all values differ from the default, but for a few
            op.x = small(r);
            let d = op.x;
            op.ps = (0..many(r, n)).map(|_| (r.below(n) as i64, (d + 1 + r.below(96) as i64) % 97)).collect();
            for _ in 0..r.below(4) { let k = if r.chance(1, 2) { n - 1 - r.below(n / 2) } else { r.below(n) }; op.ps.push((k as i64, d)) }
            "new"
        }
        9..=34 => { op.x = small(r); op.ps = (0..many(r, n)).map(|_| (r.below(n) as i64, small(r))).collect(); "new" }
        35..=38 => "neg",
        39..=43 => "mapvalues",
        44..=50 => "squash",
        51..=54 => "clone",
        _ => ["add", "sub", "mul", "div", "sup", "inf", "combine"][r.below(7)],
    }.to_string();
    op
}

fn history(a: &Args, sets: bool) {
    let mut o = Out::new(a, &a.what);
    let mut ws = if sets { set_worlds() } else { map_worlds() };
    let mut notes = Notes::default();
    for ops in scripts(a) {
        let mut u: Vec<_> = ws.iter_mut().collect();
        run_history(&mut o, &mut u, 6, &ops, &mut notes);
        o.stat("spec_behaviours", 1);
    }
    let count = if a.thorough { 8000 } else { 800 };
    for h in 0..count {
        let mut r = Rng::new(a.seed, if sets { 3000 } else { 53_000 } + h);
        // a few with more elements than a byte counts
        let n = if h % 40 == 17 { 700 } else if h % 20 == 7 { 240 } else { [2, 4, 6, 10, 20, 40][r.below(6)] };
        let len = r.range(10, if n > 100 { 20 } else { 50 });
        let ops: Vec<Op> = (0..len).map(|_| if sets { random_set_op(&mut r, n) } else { random_map_op(&mut r, n) }).collect();
        let mut u: Vec<_> = ws.iter_mut().filter(|w| n < 250 || !w.name().starts_with("u8")).collect();
        run_history(&mut o, &mut u, n as i64, &ops, &mut notes);
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ pairs
#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct>, n: u64 }
impl Rec { fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.n += 1; self.m.entry(k).or_default().add(v, from) } }

/// different ways to the same set
fn tset<A: Array>(ks: &[i64], neg: bool, mode: usize) -> TotalVecSet<A> where A::Item: Elem {
    let of = |ks: &[i64]| TotalVecSet::from(ks.iter().map(|k| mk(*k)).collect::<VecSet<A>>());
    let mut s = match mode {
        0 => of(ks),
        1 => { let mut s = TotalVecSet::empty(); for k in ks.iter().rev() { s.insert(mk(*k)) } s }
        2 => { // grown, then cut down
            let mut s = TotalVecSet::empty();
            for k in 200..220 { s.insert(mk(k)) }
            for k in ks { s.insert(mk(*k)) }
            for k in 200..220 { if !ks.contains(&k) { s.remove(&mk(k)) } }
            s
        }
        _ => { let mut s = TotalVecSet::all(); for k in ks { s.remove(&mk(*k)) } return if neg { s } else { !s } }
    };
    if neg { s = !s }
    s
}
fn set_pair<A: Array>(rec: &mut Rec, rel: bool, n: i64, (a, na): (&[i64], bool), (b, nb): (&[i64], bool), (ma, mb): (usize, usize)) where A::Item: Elem {
    let t = format!("{}x{}", A::Item::NAME, A::size());
    let x = || tset::<A>(a, na, ma);
    let (p, q) = (x(), tset::<A>(b, nb, mb));
    let same = (a, na) == (b, nb);
    if rel {
        if same {
            rec.add("sub", truth(|| p.is_subset(&p)), &format!("{t} itself"));
            rec.add("sup", truth(|| p.is_superset(&p)), &format!("{t} itself"));
            rec.add("dis", truth(|| p.is_disjoint(&p)), &format!("{t} itself"));
            #[allow(clippy::eq_op)]
            rec.add("eq", truth(|| p == p), &format!("{t} itself"));
        }
        rec.add("sub", truth(|| p.is_subset(&q)), &t);
        rec.add("sup", truth(|| p.is_superset(&q)), &t);
        rec.add("dis", truth(|| p.is_disjoint(&q)), &t);
        rec.add("eq", truth(|| p == q), &t);
        rec.add("eq", truth(|| !(p != q)), &format!("{t} !="));
    } else {
        macro_rules! f { ($f:literal, $n:expr, $e:expr) => { rec.add($f, codes(|| members(n, &$e)), &format!("{t} {}", $n)); }; }
        f!("u", "&a|&b", &p | &q);
        f!("i", "&a&&b", &p & &q);
        f!("d", "&a-&b", &p - &q);
        f!("x", "&a^&b", &p ^ &q);
        f!("u", "a|=b", { let mut z = x(); z |= q.clone(); z });
        f!("i", "a&=b", { let mut z = x(); z &= q.clone(); z });
        f!("d", "a-=b", { let mut z = x(); z -= q.clone(); z });
        f!("x", "a^=b", { let mut z = x(); z ^= q.clone(); z });
        if same {
            f!("u", "&a|&a", &p | &p);
            f!("i", "&a&&a", &p & &p);
            f!("d", "&a-&a", &p - &p);
            f!("x", "&a^&a", &p ^ &p);
        }
        f!("u", "!(!a & !b)", !(&!&p & &!&q));
        f!("i", "!(!a | !b)", !(&!&p | &!&q));
        f!("d", "a & !b", &p & &!&q);
        f!("no", "!&a", !&p);
        f!("no", "!a", !x());
        f!("no", "all - a", &TotalVecSet::<A>::all() - &p);
        f!("no", "all ^ a", &TotalVecSet::<A>::constant(true) ^ &p);
        rec.add("em", truth(|| p.is_empty()), &t);
        rec.add("al", truth(|| p.is_all()), &t);
        rec.add("em", truth(|| (&p - &p).is_empty() && p.is_empty()), &t);
    }
    rec.add("ao", members(n, &p), &t);
    rec.add("bo", members(n, &q), &t);
}
fn save(o: &mut Out, note: &mut String, mut l: Obj, rec: &Rec) {
    o.evals += rec.n;
    for (k, d) in &rec.m {
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn set_pairs(a: &Args, rel: bool) {
    let mut o = Out::new(a, &a.what);
    let mut note = String::new();
    let mut go = |o: &mut Out, n: i64, x: &[i64], na: bool, y: &[i64], nb: bool, m: (usize, usize), rich: bool| {
        let head = Obj::new().f("n", n).f("a", x).f("b", y).f("na", na as i64).f("nb", nb as i64);
        o.begin(&head.clone().f("modes", m).end());
        let mut rec = Rec::default();
        set_pair::<[i64; 2]>(&mut rec, rel, n, (x, na), (y, nb), m);
        set_pair::<[Bx; 8]>(&mut rec, rel, n, (x, na), (y, nb), (m.1, m.0));
        if rich { set_pair::<[String; 0]>(&mut rec, rel, n, (x, na), (y, nb), m) }
        save(o, &mut note, head, &rec);
    };
    let n = if a.thorough { 5 } else { 4 };
    let subs = subsets(n);
    for (p, x) in subs.iter().enumerate() {
        for (q, y) in subs.iter().enumerate() {
            for s in 0..4 {
                let m = (p * 7 + q * 3 + s) % 16;
                go(&mut o, n as i64, x, s & 1 == 1, y, s & 2 == 2, (m % 4, m / 4), s == 0);
                o.stat("exhaustive_pairs", 1);
            }
        }
    }
    let c = if a.thorough { 30000 } else { 4000 };
    for i in 0..c {
        let mut r = Rng::new(a.seed, 111_000 + i);
        let max = if i % 20 == 7 { 1499 } else { 63 };
        let (x, y) = if max > 63 { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let (p, q) = (r.chance(1, 2), r.chance(1, 2));
        go(&mut o, max + 1, &x, p, &y, q, (r.below(4), r.below(4)), i % 4 == 0);
        if max > 63 { // with the other signs as well
            go(&mut o, max + 1, &y, q, &x, p, (r.below(4), r.below(4)), false);
            for (p, q) in [(!p, q), (p, !q), (!p, !q)] { go(&mut o, max + 1, &x, p, &y, q, (r.below(4), r.below(4)), false) }
        }
        o.stat("random_pairs", 1);
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}

fn map_pair<K: Elem, V: Number, A: Array<Item = (K, V)>>(rec: &mut Rec, n: i64, (a, da): (&[(i64, i64)], i64), (b, db): (&[(i64, i64)], i64), m: i64) {
    let t = format!("{}/{}x{}", K::NAME, V::VNAME, A::size());
    let x: TotalVecMap<V, A> = TotalVecMap::new(vmap(a), V::mv(da));
    let y: TotalVecMap<V, A> = TotalVecMap::new(vmap(b), V::mv(db));
    for o in ["add", "sub", "mul", "div", "sup", "inf", "combine"] {
        rec.add(o, guard(|| show(n, &apply(o, m, &x, &y))).unwrap_or_default(), &t);
    }
    if (a, da) == (b, db) {
        for o in ["add", "sub", "mul", "div", "sup", "inf", "combine"] {
            rec.add(o, guard(|| show(n, &apply(o, m, &x, &x))).unwrap_or_default(), &format!("{t} itself"));
        }
    }
    rec.add("sup", show(n, &y.supremum(&x)), &format!("{t} flipped"));
    rec.add("inf", show(n, &y.infimum(&x)), &format!("{t} flipped"));
    rec.add("neg", show(n, &-x.clone()), &t);
    rec.add("mv", show(n, &x.map_values::<V, _, A>(|v| V::mv(map_value(m, v.v())))), &t);
    rec.add("eq", truth(|| x == y), &t);
    rec.add("eq", truth(|| !(y != x)), &t);
    rec.add("zo", codes(|| vec![x.is_zero() as i64, x.is_one() as i64]), &t);
    rec.add("zo", codes(|| { let z = x.clone() + TotalVecMap::zero(); vec![z.is_zero() as i64, z.is_one() as i64] }), &format!("{t} 0 added"));
    for (o, c) in [("c0", TotalVecMap::<V, A>::zero()), ("c0", TotalVecMap::default()), ("c1", One::one()), ("cl", Bounded::min_value()), ("ch", Bounded::max_value())] {
        rec.add(o, show(n, &c), &t);
    }
    rec.add("ao", show(n, &x), &t);
    rec.add("bo", show(n, &y), &t);
}
fn ord_matrix<K: Elem, V: Number, A: Array<Item = (K, V)>>(fs: &[(Vec<(i64, i64)>, i64)]) -> Vec<Vec<i64>> {
    let ms: Vec<TotalVecMap<V, A>> = fs.iter().map(|(ps, d)| TotalVecMap::new(vmap(ps), V::mv(*d))).collect();
    ms.iter().map(|x| ms.iter().map(|y| num(|| {
        let c = x.cmp(y);
        let agree = x.partial_cmp(y) == Some(c) && (x < y) == (c == Ordering::Less) && (x <= y) == (c != Ordering::Greater)
            && (x > y) == (c == Ordering::Greater) && (x >= y) == (c != Ordering::Less);
        if agree { c as i64 } else { 9 }
    })).collect()).collect()
}
fn map_pairs(a: &Args) {
    let mut o = Out::new(a, &a.what);
    let mut note = String::new();
    let mut go = |o: &mut Out, n: i64, x: &[(i64, i64)], dx: i64, y: &[(i64, i64)], dy: i64, m: i64| {
        let head = Obj::new().f("n", n).f("a", x).f("b", y).f("da", dx).f("db", dy).f("m", m);
        o.begin(&head.clone().end());
        let mut rec = Rec::default();
        map_pair::<i64, Num, [(i64, Num); 1]>(&mut rec, n, (x, dx), (y, dy), m);
        map_pair::<String, NumB, [(String, NumB); 4]>(&mut rec, n, (x, dx), (y, dy), m);
        save(o, &mut note, head, &rec);
    };
    // all maps on two keys with three values
    let mut fs = vec![];
    for v0 in 0..3 { for v1 in 0..3 { for d in 0..3 { fs.push((vec![(0, v0), (1, v1)], d)) } } }
    for (x, dx) in &fs { for (y, dy) in &fs { go(&mut o, 2, x, *dx, y, *dy, dx * 3 + dy); o.stat("exhaustive_pairs", 1) } }
    let c = if a.thorough { 30000 } else { 3000 };
    for i in 0..c {
        let mut r = Rng::new(a.seed, 121_000 + i);
        let max = if i % 30 == 7 { 1099 } else { 31 };
        let (x, y) = if max > 31 { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let vals = |r: &mut Rng, ks: &[i64]| ks.iter().map(|k| (*k, small(r))).collect::<Vec<_>>();
        let (px, dx, mut py, mut dy) = (vals(&mut r, &x), small(&mut r), vals(&mut r, &y), small(&mut r));
        match r.below(5) { // nearly the same function
            0 => { py = px.clone(); dy = dx }
            1 => { py = px.clone(); py.retain(|p| p.1 != dx); if let Some(p) = py.last_mut() { p.1 = dx } dy = dx }
            2 => { py = px.clone(); py.retain(|p| p.1 != dx); if r.chance(1, 2) { dy = dx } }
            _ => {}
        }
        go(&mut o, max + 1, &px, dx, &py, dy, r.below(60) as i64);
        o.stat("random_pairs", 1);
    }
    let c = if a.thorough { 400 } else { 60 };
    for i in 0..=c {
        let mut r = Rng::new(a.seed, 131_000 + i);
        let list: Vec<(Vec<(i64, i64)>, i64)> = if i == 0 { fs.clone() } else {
            let base: Vec<(i64, i64)> = (0..r.range(0, 6)).map(|k| (k as i64, small(&mut r))).collect();
            (0..10).map(|_| {
                let mut p = base.clone();
                for _ in 0..r.below(3) { if !p.is_empty() { let q = r.below(p.len()); match r.below(3) { 0 => { p.remove(q); } 1 => p[q].1 = small(&mut r), _ => {} } } }
                (p, small(&mut r))
            }).collect()
        };
        let m1 = ord_matrix::<i64, Num, [(i64, Num); 2]>(&list);
        let m2 = ord_matrix::<String, NumB, [(String, NumB); 0]>(&list);
        let m: Vec<Vec<i64>> = m1.iter().zip(&m2).map(|(a, b)| a.iter().zip(b).map(|(a, b)| if a == b { *a } else { 9 }).collect()).collect();
        o.evals += 2 * (list.len() * list.len()) as u64;
        o.line(&Obj::new().f("n", 8).f("fs", &list).f("ord", &m).end());
        o.stat("order_matrices", 1);
    }
    let _: BTreeSet<i64> = BTreeSet::new();
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "sets" => history(&a, true),
        "maps" => history(&a, false),
        "setop" => set_pairs(&a, false),
        "setrel" => set_pairs(&a, true),
        "map" => map_pairs(&a),
        w => panic!("unknown {w}"),
    }
}
