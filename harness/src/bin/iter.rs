//! Iteration, conversions and sorted-iterator combinations (C27).
use smallvec::{Array, SmallVec};
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::{vecmap, vecset, AbstractVecMap, AbstractVecSet, SortedIterator, SortedPairIterator, VecMap, VecSet};
use vh::{arch::Arch, elem::*, gen::*, *};

type Steps = Vec<Vec<i64>>;
/// every step of a full walk, and three more calls: [lower bound, upper bound or -1, item or -1]
fn walk<I: Iterator>(mut it: I, code: impl Fn(I::Item) -> i64) -> Steps {
    let mut res = vec![];
    let mut extra = 0;
    while extra < 3 && res.len() < 10_000 {
        let (lo, hi) = it.size_hint();
        let x = it.next();
        if x.is_none() { extra += 1 }
        res.push(vec![lo as i64, hi.map(|h| h as i64).unwrap_or(-1), x.map(&code).unwrap_or(-1)]);
    }
    res
}
/// the other ways to advance: nth along a list of distances; then how many are left, and the last one
fn jumps<I: Iterator>(mk: impl Fn() -> I, ks: &[i64], code: impl Fn(I::Item) -> i64) -> Steps {
    let mut res = vec![];
    for cut in 0..=ks.len() {
        let mut it = mk();
        let mut row = vec![];
        for k in &ks[..cut] { row.push(it.nth(*k as usize).map(&code).unwrap_or(-1)) }
        row.push(it.size_hint().0 as i64);
        let mut it2 = mk();
        for k in &ks[..cut] { it2.nth(*k as usize); }
        row.push(it.last().map(&code).unwrap_or(-1));
        row.push(it2.count() as i64);
        res.push(row);
    }
    res
}
/// everything else an iterator can be asked, after the same jumps: each of these may have an implementation of its own
fn asks<I: Iterator>(mk: impl Fn() -> I, ks: &[i64], code: impl Fn(I::Item) -> i64 + Copy) -> Steps where I::Item: Ord {
    let mut res = vec![];
    for cut in 0..=ks.len() {
        let at = || { let mut it = mk(); for k in &ks[..cut] { it.nth(*k as usize); } it };
        let one = |x: Option<I::Item>| x.map(code).unwrap_or(-1);
        let mut row = vec![one(at().min()), one(at().max()), one(at().min_by(|a, b| a.cmp(b))), one(at().max_by(|a, b| a.cmp(b)))];
        row.push(one(at().reduce(|a, _| a)));
        row.push(one(at().reduce(|_, b| b)));
        row.push(at().is_sorted() as i64);
        row.push(at().cmp(at()) as i64);
        row.push(at().eq(at()) as i64);
        row.push(at().any(|x| code(x) < 0) as i64);
        row.push(at().all(|x| code(x) >= 0) as i64);
        // stopped in the third place, then one more; found in the second place, then one more
        let mut it = at();
        let r = it.try_fold(0, |n, x| if n == 2 { Err(code(x)) } else { Ok(n + 1) });
        row.extend([match r { Ok(n) => -1 - n, Err(c) => c }, one(it.next()), it.size_hint().0 as i64]);
        let mut it = at();
        let mut n = 0;
        row.extend([one(it.find(|_| { n += 1; n == 2 })), one(it.next()), it.size_hint().0 as i64]);
        let mut it = at();
        row.extend([it.position(|x| code(x) < 0).map(|p| p as i64).unwrap_or(-1), one(it.next())]);
        res.push(row);
        res.push(at().step_by(2).map(code).collect());
        let mut all = vec![];
        at().for_each(|x| all.push(code(x)));
        res.push(all);
        let (p, q): (Vec<I::Item>, Vec<I::Item>) = at().partition(|x| { let _ = x; true });
        res.push(p.into_iter().map(code).chain(q.into_iter().map(|_| -3)).collect());
        let mut all = vec![];
        let mut it = at();
        while let Some(x) = it.by_ref().take(3).map(code).reduce(|a, b| { all.push(a); b }) { all.push(x) }
        res.push(all);
    }
    res
}
fn folded<I: Iterator>(it: I, code: impl Fn(I::Item) -> i64) -> Vec<i64> {
    it.fold(vec![], |mut v, x| { v.push(code(x)); v })
}
fn steps(f: impl FnOnce() -> Steps) -> Steps { guard(f).unwrap_or_else(|_| vec![vec![-2]]) }

#[derive(Default)]
struct Seen { walk: Distinct, jump: Distinct, ask: Distinct, conv: Distinct, u: Distinct, i: Distinct, d: Distinct, x: Distinct, oj: Distinct, lj: Distinct, rj: Distinct, ij: Distinct }

fn make<A: Array>(codes: &[i64], how: usize) -> VecSet<A> where A::Item: Elem {
    let v: Vec<A::Item> = mks(codes);
    match how % 4 {
        0 => v.into_iter().collect(),
        1 => { let mut w = Vec::with_capacity(v.len() + 40); w.extend(v); VecSet::from(w) }
        2 => { let mut s = VecSet::empty(); for x in v.into_iter().rev() { s.insert(x); } s }
        _ => { let mut s: VecSet<A> = v.into_iter().collect(); s.extend(mks::<A::Item>(&(0..25).map(|i| mkc(230 + i % 25, 0)).collect::<Vec<_>>())); let keep: BTreeSet<i64> = codes.iter().map(|c| key(*c)).collect(); s.retain(|x| keep.contains(&key(x.code()))); s }
    }
}
fn set<A: Array>(s: &mut Seen, a: &[i64], b: &[i64], ks: &[i64], how: usize) where A::Item: Elem + Default {
    if !fits::<A::Item>(a) || !fits::<A::Item>(b) { return }
    let n = format!("{}x{} built {how}", A::Item::NAME, A::size());
    let c = |x: A::Item| x.code();
    let rc = |x: &A::Item| x.code();
    let m = || make::<A>(a, how);
    let x = m();
    s.walk.add(steps(|| walk(x.iter(), rc)), &format!("{n} iter"));
    s.walk.add(steps(|| walk(AbstractVecSet::iter(&x), rc)), &format!("{n} abstract iter"));
    s.walk.add(steps(|| walk((&x).into_iter(), rc)), &format!("{n} by reference"));
    s.walk.add(steps(|| walk(m().into_iter(), c)), &format!("{n} by value"));
    s.jump.add(steps(|| jumps(|| x.iter(), ks, rc)), &format!("{n} iter"));
    s.ask.add(steps(|| asks(|| x.iter(), ks, rc)), &format!("{n} iter"));
    s.jump.add(steps(|| jumps(|| m().into_iter(), ks, c)), &format!("{n} by value"));
    s.ask.add(steps(|| asks(|| m().into_iter(), ks, c)), &format!("{n} by value"));
    s.conv.add(codes(|| folded(x.iter(), rc)), &format!("{n} fold"));
    s.conv.add(codes(|| folded(m().into_iter(), c)), &format!("{n} fold by value"));
    s.conv.add(codes(|| cds(&Vec::from(m()))), &format!("{n} vec"));
    s.conv.add(codes(|| cds(&SmallVec::<A>::from(m()))), &format!("{n} smallvec"));
    s.conv.add(codes(|| cds(&m().into_inner())), &format!("{n} into_inner"));
    s.conv.add(codes(|| cds(AsRef::<[A::Item]>::as_ref(&x))), &format!("{n} as_ref"));
    s.conv.add(codes(|| cds(AbstractVecSet::as_slice(&x))), &format!("{n} as_slice"));
    s.conv.add(codes(|| cds(&m().into_iter().collect::<BTreeSet<_>>())), &format!("{n} btree"));
    s.conv.add(codes(|| cds(&VecSet::<A>::from(m().into_iter().collect::<BTreeSet<_>>()))), &format!("{n} from btree"));
    s.conv.add(codes(|| cds(&VecSet::<[A::Item; 3]>::from(Vec::from(m())))), &format!("{n} to vec and back"));
    s.conv.add(codes(|| cds(&m().into_iter().collect::<VecSet<[A::Item; 2]>>())), &format!("{n} other capacity"));
    s.conv.add(codes(|| cds(&m().clone())), &format!("{n} clone"));
    if a.len() == 3 {
        let v = mks::<A::Item>(a);
        s.conv.add(codes(|| cds(&{ let r: VecSet<[A::Item; 4]> = vecset! { v[1].clone(), v[0].clone(), v[2].clone() }; r })), &format!("{n} macro"));
    }
    if a.len() == 1 { s.conv.add(codes(|| cds(&VecSet::<A>::single(A::Item::mk(a[0])))), &format!("{n} single")) }
    if a.is_empty() {
        s.conv.add(codes(|| cds(&VecSet::<A>::empty())), &format!("{n} empty"));
        s.conv.add(codes(|| cds(&{ let r: VecSet<[A::Item; 4]> = vecset! {}; r })), &format!("{n} macro"));
    }
    // two collections through the sorted iterators
    let y = make::<A>(b, how / 2 + 1);
    let y2 = make::<[A::Item; 7]>(b, how + 1);
    let k = |v: Vec<i64>| v.into_iter().map(key).collect::<Vec<_>>();
    s.u.add(k(codes(|| x.iter().union(y.iter()).map(rc).collect())), &n);
    s.i.add(k(codes(|| x.iter().intersection(y2.iter()).map(rc).collect())), &n);
    s.d.add(k(codes(|| x.iter().difference(y.iter()).map(rc).collect())), &n);
    s.x.add(k(codes(|| x.iter().symmetric_difference(y.iter()).map(rc).collect())), &n);
    let my = || make::<A>(b, how);
    s.u.add(k(codes(|| m().into_iter().union(my().into_iter()).map(c).collect())), &n);
    s.i.add(k(codes(|| m().into_iter().intersection(my().into_iter()).map(c).collect())), &n);
    s.d.add(k(codes(|| m().into_iter().difference(my().into_iter()).map(c).collect())), &n);
    s.x.add(k(codes(|| m().into_iter().symmetric_difference(my().into_iter()).map(c).collect())), &n);
    s.u.add(k(codes(|| x.iter().union((&y).into_iter()).cloned().collect::<VecSet<A>>().iter().map(rc).collect())), &n);
}
fn archived(s: &mut Seen, a: &[i64], b: &[i64], ks: &[i64], how: usize) {
    let x = Arch::new(&make::<[Tk; 2]>(a, how));
    let y = Arch::new(&make::<[Tk; 4]>(b, how));
    let (x, y) = (x.get(), y.get());
    let rc = |x: &Tk| x.code();
    s.walk.add(steps(|| walk(x.iter(), rc)), "archived set");
    s.jump.add(steps(|| jumps(|| x.iter(), ks, rc)), "archived set");
    s.ask.add(steps(|| asks(|| x.iter(), ks, rc)), "archived set");
    s.conv.add(codes(|| cds(x.as_slice())), "archived set");
    let k = |v: Vec<i64>| v.into_iter().map(key).collect::<Vec<_>>();
    let z = make::<[Tk; 8]>(b, how + 1);
    s.u.add(k(codes(|| x.iter().union(y.iter()).map(rc).collect())), "archived");
    s.i.add(k(codes(|| x.iter().intersection(z.iter()).map(rc).collect())), "archived");
    s.d.add(k(codes(|| x.iter().difference(y.iter()).map(rc).collect())), "archived");
    s.x.add(k(codes(|| z.iter().symmetric_difference(x.iter()).map(rc).collect())), "archived");
}

type P<K> = (K, i64);
/// the value under a key is the code of that key
fn mkmap<K: Elem, A: Array<Item = P<K>>>(xs: &[i64], how: usize) -> VecMap<A> {
    let ps = |xs: &[i64]| xs.iter().map(|c| (K::mk(*c), *c)).collect::<Vec<_>>();
    match how % 4 {
        0 => ps(xs).into_iter().collect(),
        1 => { let mut m = VecMap::empty(); for (k, v) in ps(xs).into_iter().rev() { m.insert(k, v); } m }
        2 => VecMap::from(ps(xs).into_iter().collect::<BTreeMap<_, _>>()),
        _ => { let mut m: VecMap<A> = ps(xs).into_iter().chain((0..25).map(|i| (K::mk(mkc(230 + i, 0)), -5))).collect(); m.retain(|e| e.1 >= 0); m }
    }
}
fn pc<K: Elem>(k: &K, v: i64) -> i64 { if key(k.code()) == key(v) { v } else { -9 } }
fn map<K: Elem + Default, A: Array<Item = P<K>>>(s: &mut Seen, a: &[i64], b: &[i64], ks: &[i64], how: usize) {
    if !fits::<K>(a) || !fits::<K>(b) { return }
    let n = format!("map {}x{} built {how}", K::NAME, A::size());
    let c = |x: P<K>| pc(&x.0, x.1);
    let rc = |x: &P<K>| pc(&x.0, x.1);
    let m = || mkmap::<K, A>(a, how);
    let x = m();
    s.walk.add(steps(|| walk(x.iter(), rc)), &format!("{n} iter"));
    s.walk.add(steps(|| walk((&x).into_iter(), rc)), &format!("{n} by reference"));
    s.walk.add(steps(|| walk(m().into_iter(), c)), &format!("{n} by value"));
    s.jump.add(steps(|| jumps(|| x.iter(), ks, rc)), &format!("{n} iter"));
    s.ask.add(steps(|| asks(|| x.iter(), ks, rc)), &format!("{n} iter"));
    s.jump.add(steps(|| jumps(|| m().into_iter(), ks, c)), &format!("{n} by value"));
    s.ask.add(steps(|| asks(|| m().into_iter(), ks, c)), &format!("{n} by value"));
    s.conv.add(codes(|| folded(x.iter(), rc)), &format!("{n} fold"));
    s.conv.add(codes(|| folded(m().into_iter(), c)), &format!("{n} fold by value"));
    s.conv.add(codes(|| SmallVec::<A>::from(m()).iter().map(rc).collect()), &format!("{n} smallvec"));
    s.conv.add(codes(|| m().into_inner().iter().map(rc).collect()), &format!("{n} into_inner"));
    s.conv.add(codes(|| AsRef::<[A::Item]>::as_ref(&x).iter().map(rc).collect()), &format!("{n} as_ref"));
    s.conv.add(codes(|| AbstractVecMap::as_slice(&x).iter().map(rc).collect()), &format!("{n} as_slice"));
    s.conv.add(codes(|| m().into_iter().collect::<BTreeMap<_, _>>().into_iter().map(c).collect()), &format!("{n} btree"));
    s.conv.add(codes(|| VecMap::<A>::from(m().into_iter().collect::<BTreeMap<_, _>>()).iter().map(rc).collect()), &format!("{n} from btree"));
    s.conv.add(codes(|| VecSet::<A>::from(m()).iter().map(rc).collect()), &format!("{n} as a set of pairs"));
    s.conv.add(codes(|| m().into_iter().collect::<VecMap<[P<K>; 2]>>().iter().map(rc).collect()), &format!("{n} other capacity"));
    s.conv.add(codes(|| m().clone().iter().map(rc).collect()), &format!("{n} clone"));
    s.conv.add(codes(|| m().map_values::<i64, A, _>(|v| v).iter().map(rc).collect()), &format!("{n} map_values"));
    s.conv.add(codes(|| m().map_values::<String, [(K, String); 3], _>(|v| v.to_string()).iter().map(|x| pc(&x.0, x.1.parse().unwrap())).collect()), &format!("{n} map_values"));
    s.conv.add(codes(|| m().into_iter().map_values(|v| v).map(c).collect()), &format!("{n} sorted map_values"));
    s.conv.add(codes(|| m().into_iter().keys().union(VecSet::<[K; 2]>::empty().into_iter()).zip(m().into_iter()).map(|(k, p)| pc(&k, p.1)).collect()), &format!("{n} keys"));
    if a.len() == 2 {
        s.conv.add(codes(|| { let r: VecMap<[P<K>; 4]> = vecmap! { K::mk(a[1]) => a[1], K::mk(a[0]) => a[0] }; r.iter().map(rc).collect() }), &format!("{n} macro"));
    }
    if a.len() == 1 { s.conv.add(codes(|| VecMap::<A>::single((K::mk(a[0]), a[0])).iter().map(rc).collect()), &format!("{n} single")) }
    if a.is_empty() { s.conv.add(codes(|| VecMap::<A>::default().iter().map(rc).collect()), &format!("{n} default")) }
    let my = || mkmap::<K, A>(b, how + 1);
    let o = |v: Option<i64>| v.unwrap_or(-1);
    let rows = |f: &dyn Fn() -> Steps| steps(f);
    s.ij.add(rows(&|| m().into_iter().join(my().into_iter()).map(|(k, (v, w))| vec![key(k.code()), v, w]).collect()), &n);
    s.lj.add(rows(&|| m().into_iter().left_join(my().into_iter()).map(|(k, (v, w))| vec![key(k.code()), v, o(w)]).collect()), &n);
    s.rj.add(rows(&|| m().into_iter().right_join(my().into_iter()).map(|(k, (v, w))| vec![key(k.code()), o(v), w]).collect()), &n);
    s.oj.add(rows(&|| m().into_iter().outer_join(my().into_iter()).map(|(k, (v, w))| vec![key(k.code()), o(v), o(w)]).collect()), &n);
}
fn archived_map(s: &mut Seen, a: &[i64], ks: &[i64], how: usize) {
    // pairs are archived as tuples of archived parts
    let x = Arch::new(&mkmap::<Tk, [P<Tk>; 2]>(a, how));
    let x = x.get();
    let rc = |x: &P<Tk>| pc(&x.0, x.1);
    s.walk.add(steps(|| walk(x.iter(), rc)), "archived map");
    s.jump.add(steps(|| jumps(|| x.iter(), ks, rc)), "archived map");
    s.ask.add(steps(|| asks(|| x.iter(), ks, rc)), "archived map");
    s.conv.add(codes(|| x.as_slice().iter().map(rc).collect()), "archived map");
}

fn case(o: &mut Out, notes: &mut hist::Notes, a: &[i64], b: &[i64], ks: &[i64], how: usize) {
    o.begin(&Obj::new().f("a", a).f("b", b).f("ks", ks).f("how", how).end());
    let mut s = Seen::default();
    set::<[Tk2; 2]>(&mut s, a, b, ks, how);
    set::<[Bx2; 3]>(&mut s, a, b, ks, how + 1);
    set::<[Tk2; 0]>(&mut s, a, b, ks, how + 2);
    set::<[i64; 4]>(&mut s, a, b, ks, how + 3);
    set::<[u8; 16]>(&mut s, a, b, ks, how);
    set::<[String; 1]>(&mut s, a, b, ks, how + 1);
    archived(&mut s, a, b, ks, how);
    map::<Tk2, [P<Tk2>; 2]>(&mut s, a, b, ks, how);
    map::<Bx2, [P<Bx2>; 4]>(&mut s, a, b, ks, how + 1);
    map::<i64, [P<i64>; 0]>(&mut s, a, b, ks, how + 2);
    map::<String, [P<String>; 8]>(&mut s, a, b, ks, how + 3);
    archived_map(&mut s, a, ks, how);
    let all = [("walk", &s.walk), ("jump", &s.jump), ("ask", &s.ask), ("conv", &s.conv), ("u", &s.u), ("i", &s.i), ("d", &s.d), ("x", &s.x), ("oj", &s.oj), ("lj", &s.lj), ("rj", &s.rj), ("ij", &s.ij)];
    let mut l = Obj::new().f("a", a).f("b", b).f("ks", ks);
    for (k, d) in all { l = l.f(k, d); o.evals += d.n }
    o.line(&l.end());
    for (_, d) in all { notes.add(o.lines, d) }
}

/// the macros and `single` need default values
macro_rules! with_default {
    ($n:ident, $t:ty, $name:literal) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $n($t);
        impl Default for $n { fn default() -> Self { $n(<$t>::mk(0)) } }
        impl Elem for $n {
            const TAGGED: bool = true;
            const NAME: &'static str = $name;
            fn mk(c: i64) -> Self { $n(<$t>::mk(c)) }
            fn code(&self) -> i64 { self.0.code() }
        }
    };
}
with_default!(Tk2, Tk, "pod");
with_default!(Bx2, Bx, "box");

/// A long walk: 0, 1, 2, .. n - 1 in order. At each of the positions: what the iterator says is left, the next item,
/// and from there the last one and how many there are; then the place up to which a plain walk and a fold kept counting.
fn long<I: Iterator>(mk: impl Fn() -> I, at: &[usize], code: impl Fn(I::Item) -> i64) -> Vec<Vec<i64>> {
    let mut res = vec![];
    let one = |x: Option<I::Item>| x.map(&code).unwrap_or(-1);
    for p in at {
        let mut it = mk();
        for _ in 0..*p { it.next(); }
        let (lo, hi) = it.size_hint();
        let mut far = mk();
        let x = if *p > 0 { one(far.nth(*p - 1)) } else { -1 };
        let left = far.size_hint().0 as i64;
        res.push(vec![lo as i64, hi.map(|h| h as i64).unwrap_or(-1), one(it.next()), x, left, one(far.last()), it.count() as i64]);
    }
    let mut n = 0;
    for x in mk() { if code(x) == n { n += 1 } }
    let m = mk().fold(0, |m, x| if code(x) == m { m + 1 } else { m });
    res.push(vec![n, m, mk().collect::<Vec<_>>().len() as i64]);
    res
}
fn long_case(o: &mut Out, notes: &mut hist::Notes, n: usize, at: &[usize]) {
    o.begin(&Obj::new().f("n", n).f("at", at.iter().map(|p| *p as i64).collect::<Vec<_>>()).end());
    let x: VecSet<[i64; 2]> = (0..n as i64).collect();
    let m: VecMap<[(i64, i64); 2]> = (0..n as i64).map(|k| (k, k)).collect();
    let (ax, am) = (Arch::new(&x), Arch::new(&m));
    let (ax, am) = (ax.get(), am.get());
    let mut d = Distinct::default();
    let pair = |p: &(i64, i64)| if p.0 == p.1 { p.0 } else { -9 };
    d.add(steps(|| long(|| x.iter(), at, |i| *i)), "set");
    d.add(steps(|| long(|| (&x).into_iter(), at, |i| *i)), "set by reference");
    d.add(steps(|| long(|| x.clone().into_iter(), at, |i| i)), "set by value");
    d.add(steps(|| long(|| ax.iter(), at, |i| *i)), "archived set");
    d.add(steps(|| long(|| m.iter(), at, pair)), "map");
    d.add(steps(|| long(|| (&m).into_iter(), at, pair)), "map by reference");
    d.add(steps(|| long(|| m.clone().into_iter(), at, |p| pair(&p))), "map by value");
    d.add(steps(|| long(|| am.iter(), at, pair)), "archived map");
    o.evals += d.n;
    o.line(&Obj::new().f("n", n).f("at", at.iter().map(|p| *p as i64).collect::<Vec<_>>()).f("long", &d).end());
    notes.add(o.lines, &d);
}

fn main() {
    let a = args();
    let mut o = Out::new(&a, "walks");
    let mut notes = hist::Notes::default();
    let n = if a.thorough { 6 } else { 4 };
    for x in subsets(n) {
        for (i, y) in subsets(n).into_iter().enumerate() {
            case(&mut o, &mut notes, &with_tag(&x, 0), &with_tag(&y, 0), &[(i % 3) as i64, (i / 3 % 2) as i64, (i % 4) as i64], i);
            o.stat("exhaustive", 1);
        }
    }
    let n = if a.thorough { 12000 } else { 1500 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 27_000_000 + c);
        let (x, y) = key_pair(&mut r, 220);
        let ks: Vec<i64> = (0..r.below(5)).map(|_| { let top = r.range(1, 12); r.below(top) as i64 }).collect();
        let (ta, tb) = if r.chance(1, 2) { (0, 0) } else { (3, 5) };
        case(&mut o, &mut notes, &with_tag(&x, ta), &with_tag(&y, tb), &ks, r.below(8));
        o.stat("random", 1);
    }
    let mut sizes = vec![1, 255, 256, 1000, 4097, 20_000];
    if a.thorough { sizes.extend([65_535, 65_536, 70_000, 300_000]) }
    for n in sizes {
        let mut at = vec![0, 1, n / 3, n / 2, n - n / 7, n - 1, n];
        at.dedup();
        long_case(&mut o, &mut notes, n, &at);
        o.stat("long", 1);
    }
    notes.save(&a);
    o.finish();
}
