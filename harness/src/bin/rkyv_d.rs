//! Archives: answers and round trips (C22), validated access (C23).
use rkyv::{
    de::deserializers::SharedDeserializeMap, string::ArchivedString, validation::validators::DefaultValidator, AlignedVec, Archive,
    Deserialize, Infallible,
};
use bytecheck::CheckBytes;
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::radix_tree::TValue;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};
use vh::{arch::*, callbacks::*, elem::*, gen::*, hist::Notes, radix::*, worlds::*, *};

#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct> }
impl Rec {
    fn add(&mut self, k: &'static str, from: &str, f: impl FnOnce() -> Raw) {
        let v = guard(f).unwrap_or(Raw("\"panic\"".into()));
        self.m.entry(k).or_default().add(v, from)
    }
    fn emit(self, o: &mut Out, head: Obj, notes: &mut Notes) {
        let mut l = head;
        for (k, d) in &self.m { o.evals += d.n; l = l.f(k, d); }
        o.line(&l.end());
        for d in self.m.values() { notes.add(o.lines, d) }
    }
}
fn j(x: impl ToJ) -> Raw { Raw(x.js()) }

/// validated access
fn checked<'a, T: Archive>(b: &'a [u8]) -> Option<&'a T::Archived> where T::Archived: CheckBytes<DefaultValidator<'a>> { rkyv::check_archived_root::<T>(b).ok() }

// ------------------------------------------------------------ answers: sets (C22)
fn set_answers<T: Ord>(rec: &mut Rec, x: &impl AbstractVecSet<T>, y: &impl AbstractVecSet<T>, q: &[T], code: impl Fn(&T) -> i64 + Copy, n: &str) {
    rec.add("it", n, || j(x.iter().map(code).collect::<Vec<_>>()));
    rec.add("it", n, || j(x.as_slice().iter().map(code).collect::<Vec<_>>()));
    rec.add("has", n, || j(q.iter().map(|v| x.contains(v) as i64).collect::<Vec<_>>()));
    rec.add("emp", n, || j(x.is_empty() as i64));
    rec.add("rel", n, || j(vec![x.is_subset(y) as i64, x.is_superset(y) as i64, x.is_disjoint(y) as i64]));
    rec.add("rev", n, || j(vec![y.is_subset(x) as i64, y.is_superset(x) as i64, y.is_disjoint(x) as i64]));
}
fn set_ops<E: Elem, C: Array<Item = E>>(rec: &mut Rec, x: &impl AbstractVecSet<E>, y: &impl AbstractVecSet<E>, n: &str) {
    rec.add("u", n, || j(cds(&x.union::<C>(y))));
    rec.add("i", n, || j(cds(&x.intersection::<C>(y))));
    rec.add("d", n, || j(cds(&x.difference::<C>(y))));
    rec.add("x", n, || j(cds(&x.symmetric_difference::<C>(y))));
}
fn pod_set<E, A, C>(rec: &mut Rec, a: &[i64], b: &[i64], q: &[i64])
where
    E: Elem + Archive<Archived = E> + rkyv::Serialize<Ser>,
    A: Array<Item = E>,
    C: Array<Item = E>,
    for<'x> E: CheckBytes<DefaultValidator<'x>>,
    [E]: rkyv::DeserializeUnsized<[E], Infallible> + rkyv::DeserializeUnsized<[E], SharedDeserializeMap>,
{
    if !fits::<E>(a) || !fits::<E>(b) || !fits::<E>(q) { return }
    let n = format!("{}x{}", E::NAME, A::size());
    let x: VecSet<A> = mks::<E>(a).into_iter().collect();
    let y: VecSet<C> = mks::<E>(b).into_iter().collect();
    let q = mks::<E>(q);
    let (ax, ay) = (Arch::new(&x), Arch::new(&y));
    let code = |e: &E| e.code();
    set_answers(rec, &x, &y, &q, code, &n);
    set_answers(rec, ax.get(), &y, &q, code, &format!("{n} archived"));
    set_answers(rec, ax.get(), ay.get(), &q, code, &format!("{n} both archived"));
    set_answers(rec, &x, ay.get(), &q, code, &format!("{n} other archived"));
    rec.add("ok", &n, || j(checked::<VecSet<A>>(&ax.bytes).is_some() as i64));
    if let Some(v) = checked::<VecSet<A>>(&ax.bytes) {
        set_answers(rec, v, ay.get(), &q, code, &format!("{n} validated"));
        set_ops::<E, C>(rec, v, &y, &format!("{n} validated"));
    }
    set_ops::<E, A>(rec, ax.get(), ay.get(), &n);
    set_ops::<E, A>(rec, &x, ay.get(), &n);
    for how in 0..2 {
        let back: VecSet<A> = match how {
            0 => ax.get().deserialize(&mut Infallible).unwrap(),
            _ => ax.get().deserialize(&mut SharedDeserializeMap::new()).unwrap(),
        };
        let n = format!("{n} back {how}");
        set_answers(rec, &back, &y, &q, code, &n);
        rec.add("eq", &n, || j((back == x && x == back && back.len() == x.len()) as i64));
        let mut z = back.clone();
        z |= &y;
        rec.add("u", &n, || j(cds(&z)));
        let mut z = back;
        z -= y.clone();
        rec.add("d", &n, || j(cds(&z)));
        // another capacity
        let other: VecSet<[E; 5]> = ax.get().deserialize(&mut Infallible).unwrap();
        rec.add("it", &n, || j(cds(&other)));
    }
}
fn string_set<A: Array<Item = String>>(rec: &mut Rec, a: &[i64], b: &[i64], q: &[i64]) {
    if !fits::<String>(a) || !fits::<String>(b) || !fits::<String>(q) { return }
    let n = format!("stringx{}", A::size());
    let x: VecSet<A> = mks::<String>(a).into_iter().collect();
    let y: VecSet<A> = mks::<String>(b).into_iter().collect();
    let (ax, ay) = (Arch::new(&x), Arch::new(&y));
    let qs: VecSet<A> = mks::<String>(q).into_iter().collect();
    let aq = Arch::new(&qs);
    let code = |s: &ArchivedString| s.to_string().code();
    let n2 = format!("{n} archived");
    rec.add("it", &n2, || j(ax.get().iter().map(code).collect::<Vec<_>>()));
    rec.add("has", &n2, || j(aq.get().iter().map(|v| ax.get().contains(v) as i64).collect::<Vec<_>>()));
    rec.add("emp", &n2, || j(ax.get().is_empty() as i64));
    rec.add("rel", &n2, || j(vec![ax.get().is_subset(ay.get()) as i64, ax.get().is_superset(ay.get()) as i64, ax.get().is_disjoint(ay.get()) as i64]));
    let back: VecSet<A> = ax.get().deserialize(&mut Infallible).unwrap();
    set_answers(rec, &back, &y, &mks::<String>(q), |s: &String| s.code(), &format!("{n} back"));
    rec.add("eq", &n, || j((back == x) as i64));
}

// ------------------------------------------------------------ answers: maps (C22)
fn map_answers<K: Elem, V: Val>(rec: &mut Rec, x: &impl AbstractVecMap<K, V>, y: &impl AbstractVecMap<K, V>, q: &[i64], m: i64, n: &str) {
    rec.add("it", n, || j(pairs(&x.iter().cloned().collect::<Vec<_>>())));
    rec.add("it", n, || j(pairs(x.as_slice())));
    rec.add("get", n, || j(q.iter().map(|k| x.get(&mk::<K>(*k)).map(|v| v.v()).unwrap_or(-1)).collect::<Vec<_>>()));
    rec.add("emp", n, || j(x.is_empty() as i64));
    let c = Calls::default();
    rec.add("oj", n, || j(pairs(x.outer_join::<V, V, _, [(K, V); 4]>(y, |a| outer_ref(&c, m, a).map(V::mv)).as_ref())));
    rec.add("lj", n, || j(pairs(x.left_join::<V, V, _, [(K, V); 4]>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(V::mv)).as_ref())));
    rec.add("rj", n, || j(pairs(x.right_join::<V, V, _, [(K, V); 4]>(y, |k, v, w| c.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(V::mv)).as_ref())));
    rec.add("ij", n, || j(pairs(x.inner_join::<V, V, _, [(K, V); 4]>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), Some(w.v())).map(V::mv)).as_ref())));
}
fn pod_map<K, V, A>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], q: &[i64], m: i64)
where
    K: Elem + Archive<Archived = K> + rkyv::Serialize<Ser>,
    V: Val + PartialEq + Archive<Archived = V> + rkyv::Serialize<Ser>,
    A: Array<Item = (K, V)>,
    for<'x> K: CheckBytes<DefaultValidator<'x>>,
    for<'x> V: CheckBytes<DefaultValidator<'x>>,
    for<'x> (K, V): CheckBytes<DefaultValidator<'x>>,
    [(K, V)]: rkyv::DeserializeUnsized<[(K, V)], Infallible> + rkyv::DeserializeUnsized<[(K, V)], SharedDeserializeMap>,
{
    let n = format!("{},{}x{}", K::NAME, V::VNAME, A::size());
    let x: VecMap<A> = mkp::<K, V>(a).into_iter().collect();
    let y: VecMap<A> = mkp::<K, V>(b).into_iter().collect();
    let (ax, ay) = (Arch::new(&x), Arch::new(&y));
    map_answers(rec, &x, &y, q, m, &n);
    map_answers(rec, ax.get(), &y, q, m, &format!("{n} archived"));
    map_answers(rec, ax.get(), ay.get(), q, m, &format!("{n} both archived"));
    map_answers(rec, &x, ay.get(), q, m, &format!("{n} other archived"));
    rec.add("ok", &n, || j(checked::<VecMap<A>>(&ax.bytes).is_some() as i64));
    if let Some(v) = checked::<VecMap<A>>(&ax.bytes) { map_answers(rec, v, ay.get(), q, m, &format!("{n} validated")) }
    for how in 0..2 {
        let back: VecMap<A> = match how {
            0 => ax.get().deserialize(&mut Infallible).unwrap(),
            _ => ax.get().deserialize(&mut SharedDeserializeMap::new()).unwrap(),
        };
        let n = format!("{n} back {how}");
        map_answers(rec, &back, ay.get(), q, m, &n);
        rec.add("eq", &n, || j((back == x && x == back) as i64));
        let c = Calls::default();
        let mut z = back;
        z.outer_join_with(ay.get(), |a| outer_own(&c, m, a).map(V::mv));
        rec.add("oj", &n, || j(pairs(z.as_ref())));
    }
}

// ------------------------------------------------------------ answers: trees (C22)
trait Checks: Flavour { fn check(_: &[u8]) -> Option<Option<&Self::Other>> { None } }
macro_rules! checks {
    ($($t:ty),*) => { $(impl Checks for $t { fn check(b: &[u8]) -> Option<Option<&Self::Other>> { Some(checked::<$t>(b)) } })* };
}
checks!(RadixTree<u8, i64>, ArcRadixTree<u8, i64>, RadixTree<i64, u8>, ArcRadixTree<u32, u8>, ArcRadixTree<char, i64>);
impl Checks for LazyRadixTree<'static, u8, i64> {}
impl Checks for LazyRadixTree<'static, char, i64> {}

fn tree_answers<K: Kc, V: Vv, T: AbstractRadixTree<K, V>, U: AbstractRadixTree<K, V>>(rec: &mut Rec, x: &T, y: &U, q: &[Key], p: &[i64], n: &str) {
    rec.add("shape", n, || shaped(x));
    for v in iterated(x).vals { rec.add("it", n, || Raw(v)) }
    rec.add("vals", n, || j(vals(x)));
    rec.add("get", n, || j(q.iter().map(|k| x.get(&ks::<K>(k)).map(|v| v.v()).unwrap_or(-1)).collect::<Vec<_>>()));
    rec.add("get", n, || j(q.iter().map(|k| if x.contains_key(&ks::<K>(k)) { x.get(&ks::<K>(k)).unwrap().v() } else { -1 }).collect::<Vec<_>>()));
    rec.add("emp", n, || j(x.is_empty() as i64));
    rec.add("scan", n, || j(x.scan_prefix(&ks::<K>(p)).map(|(k, v)| (kc(k.as_ref()), v.v())).collect::<Vec<Entry>>()));
    rec.add("rel", n, || j(vec![x.is_subset(y) as i64, x.is_superset(y) as i64, x.is_disjoint(y) as i64, x.intersects(y) as i64]));
    rec.add("inner", n, || shaped(&x.inner_combine(y, |v, w| { if rdeclines(5, v.v(), w.v()) { None } else { Some(V::mv(rvalue(5, v.v(), w.v()))) } })));
    rec.add("left", n, || shaped(&x.left_combine(y, |v, w: Option<&V>| { let w = w.map(|w| w.v()).unwrap_or(NONE); if rdeclines(5, v.v(), w) { None } else { Some(V::mv(rvalue(5, v.v(), w))) } })));
}
/// builds a tree in which, for the flavours that can, subtrees are shared
fn shared<T: Flavour>(es: &[Entry], at: &[i64]) -> T {
    let base = by_insert::<T>(es);
    let mut t = T::empty();
    for c in at {
        let mut b = base.clone();
        b.prepend(&ks::<T::K>(&[*c]));
        t.outer_combine_with(&b, |_, _| true);
    }
    t
}
struct TreeCase<'a> { a: &'a [Entry], base: &'a [Entry], at: &'a [i64], b: &'a [Entry], q: &'a [Key], p: &'a [i64], k: &'a [i64], v: i64, how: usize }
fn tree<T: Checks>(rec: &mut Rec, c: &TreeCase) where T::V: Vv, T::Other: AbstractRadixTree<T::K, T::V>, T: Archive<Archived = T::Other> + rkyv::Serialize<Ser> {
    let n = T::flavour();
    let x: T = if c.at.is_empty() { make(c.a, c.how) } else { shared(c.base, c.at) };
    let y: T = make(c.b, c.how + 1);
    let n = format!("{n} built {}", c.how);
    tree_answers(rec, &x, &y, c.q, c.p, &n);
    let (ax, ay) = (Arch::new(&x), Arch::new(&y));
    tree_answers(rec, ax.get(), &y, c.q, c.p, &format!("{n} archived"));
    tree_answers(rec, ax.get(), ay.get(), c.q, c.p, &format!("{n} both archived"));
    tree_answers(rec, &x, ay.get(), c.q, c.p, &format!("{n} other archived"));
    for (z, w) in [(&ax, "a"), (&ay, "b")] {
        match T::check(&z.bytes) {
            None => {}
            Some(r) => {
                rec.add("ok", &format!("{n} {w}"), || j(r.is_some() as i64));
                if let (Some(v), "a") = (r, w) { tree_answers(rec, v, &y, c.q, c.p, &format!("{n} validated")) }
            }
        }
    }
    for how in 0..2 {
        let back = x.reload(how);
        let n = format!("{n} back {how}");
        tree_answers(rec, &back, ay.get(), c.q, c.p, &n);
        // change one branch only, and cut one away
        let mut z = back.clone();
        rec.add("put", &n, || { z.insert(&ks::<T::K>(c.k), T::V::mv(c.v)); shaped(&z) });
        let mut z = back.clone();
        let gone: T = by_insert(&[(c.k.to_vec(), 1)]);
        rec.add("cut", &n, || { z.remove_prefix_with(&gone, |_| true); shaped(&z) });
        let mut z = back.clone();
        rec.add("diff", &n, || { z.difference_with(&y); shaped(&z) });
        rec.add("shape", &n, || shaped(&back));
        // and once more through an archive
        rec.add("shape", &n, || shaped(&back.reload(how + 1)));
        let again = Arch::new(&back);
        rec.add("shape", &n, || shaped(again.get()));
    }
    rec.add("inter", &n, || shaped(&x.intersection(ay.get())));
    rec.add("diff", &n, || shaped(&x.difference(ay.get())));
    rec.add("union", &n, || { let mut z = x.clone(); z.union_with(&y.reload(0)); shaped(&z) });
}
fn key_of(r: &mut Rng, w: usize) -> Key {
    let n = match r.below(12) { 0 => 0, 1..=3 => 1, 4..=6 => 2, 7..=9 => 3, 10 => 5, _ => r.range(14, 20) };
    let c = if n > 10 { 0 } else { r.below(w) as i64 };
    (0..n).map(|i| if n > 10 && i + 2 < n { c } else { r.below(w) as i64 }).collect()
}
fn entries(r: &mut Rng, n: usize, w: usize) -> Vec<Entry> {
    let mut m = BTreeMap::new();
    for _ in 0..n { m.insert(key_of(r, w), r.below(8) as i64); }
    let mut v: Vec<Entry> = m.into_iter().collect();
    r.shuffle(&mut v);
    v
}
// ------------------------------------------------------------ several collections in one archive (C22)
#[derive(Archive, rkyv::Serialize, Deserialize)]
#[archive_attr(derive(bytecheck::CheckBytes))]
struct Three<X, Y, Z> { x: X, y: Y, z: Z }
type Spot<'a, X> = (&'a dyn Fn(&X) -> Raw, &'a dyn Fn(&<X as Archive>::Archived) -> Raw);
/// the parts of an archive of several collections, looked at with and without validation and after reading it back
fn three<X, Y, Z>(rec: &mut Rec, v: Three<X, Y, Z>, f: Spot<X>, g: Spot<Y>, h: Spot<Z>, n: &str, second: &'static str)
where
    X: Archive + rkyv::Serialize<Ser>, Y: Archive + rkyv::Serialize<Ser>, Z: Archive + rkyv::Serialize<Ser>,
    X::Archived: Deserialize<X, SharedDeserializeMap>, Y::Archived: Deserialize<Y, SharedDeserializeMap>, Z::Archived: Deserialize<Z, SharedDeserializeMap>,
    for<'x> X::Archived: CheckBytes<DefaultValidator<'x>>, for<'x> Y::Archived: CheckBytes<DefaultValidator<'x>>, for<'x> Z::Archived: CheckBytes<DefaultValidator<'x>>,
{
    let a = Arch::new(&v);
    rec.add("ok", n, || j(checked::<Three<X, Y, Z>>(&a.bytes).is_some() as i64));
    for t in [Some(a.get()), checked::<Three<X, Y, Z>>(&a.bytes)].into_iter().flatten() {
        rec.add("x", n, || f.1(&t.x));
        rec.add(second, n, || g.1(&t.y));
        rec.add("z", n, || h.1(&t.z));
    }
    let back: Result<Three<X, Y, Z>, _> = a.get().deserialize(&mut SharedDeserializeMap::default());
    rec.add("read", n, || j(back.is_ok() as i64));
    if let Ok(b) = &back {
        rec.add("x", n, || f.0(&b.x));
        rec.add(second, n, || g.0(&b.y));
        rec.add("z", n, || h.0(&b.z));
    }
    // what was read back keeps nothing of the archive
    drop(v);
    drop(a);
    if let Ok(b) = &back { rec.add("x", n, || f.0(&b.x)); rec.add(second, n, || g.0(&b.y)) }
}
fn spot<T: Flavour<V: Vv> + Archive<Archived = T::Other>>() -> (impl Fn(&T) -> Raw, impl Fn(&T::Other) -> Raw) { (|t: &T| shaped(t), |t: &T::Other| shaped(t)) }
#[derive(Clone, Archive, rkyv::Serialize, Deserialize)]
#[archive_attr(derive(bytecheck::CheckBytes))]
struct Sub(ArcRadixTree<u32, u8>);
impl std::fmt::Debug for Sub { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("sub") } }
fn several(rec: &mut Rec, a: &[Entry], b: &[Entry], s: &[i64], how: usize) {
    type A = ArcRadixTree<u8, i64>;
    type B = ArcRadixTree<u32, u8>;
    type C = ArcRadixTree<char, i64>;
    type R = RadixTree<u8, i64>;
    type W = RadixTree<i64, u8>;
    type S = VecSet<[Tk; 2]>;
    let (fa, fb, fc, fr, fw) = (spot::<A>(), spot::<B>(), spot::<C>(), spot::<R>(), spot::<W>());
    let set = || -> S { mks::<Tk>(s).into_iter().collect() };
    let hs: Spot<S> = (&|x| j(cds(x)), &|x| j(x.iter().map(|v| v.code()).collect::<Vec<_>>()));
    let mk = |x: &[Entry]| -> A { make(x, how) };
    three(rec, Three { x: mk(a), y: make::<B>(b, how), z: set() }, (&fa.0, &fa.1), (&fb.0, &fb.1), hs, "arc<u8,i64> and arc<u32,u8>", "y");
    three(rec, Three { x: make::<B>(a, how), y: mk(b), z: set() }, (&fb.0, &fb.1), (&fa.0, &fa.1), hs, "arc<u32,u8> and arc<u8,i64>", "y");
    three(rec, Three { x: make::<C>(a, how), y: make::<B>(b, how), z: set() }, (&fc.0, &fc.1), (&fb.0, &fb.1), hs, "arc<char,i64> and arc<u32,u8>", "y");
    three(rec, Three { x: mk(a), y: make::<R>(b, how), z: set() }, (&fa.0, &fa.1), (&fr.0, &fr.1), hs, "arc and flat", "y");
    three(rec, Three { x: make::<W>(a, how), y: make::<R>(b, how), z: set() }, (&fw.0, &fw.1), (&fr.0, &fr.1), hs, "flat<i64,u8> and flat<u8,i64>", "y");
    // of one type, the second made from the first by changes: they share what they have in common
    let x = mk(a);
    let mut y = x.clone();
    for (k, v) in b { y.insert(&ks::<u8>(k), *v); }
    three(rec, Three { x, y, z: set() }, (&fa.0, &fa.1), (&fa.0, &fa.1), hs, "arc and its snapshot", "w");
    // trees whose values are trees
    type Out2 = ArcRadixTree<u8, Sub>;
    let (bx, by) = (make::<B>(a, how), make::<B>(b, how + 1));
    let mut t = Out2::empty();
    for (i, (k, _)) in a.iter().enumerate() { t.insert(&ks::<u8>(k), Sub(if i % 2 == 0 { bx.clone() } else { by.clone() })); }
    let keys: BTreeMap<Vec<i64>, usize> = a.iter().enumerate().map(|(i, e)| (e.0.clone(), i)).collect();
    fn look<T: AbstractRadixTree<u8, V>, V: TValue>(rec: &mut Rec, t: &T, keys: &BTreeMap<Vec<i64>, usize>, of: impl Fn(&V) -> Raw, n: &str) {
        rec.add("keys", n, || j(t.iter().map(|(k, _)| kc::<u8>(k.as_ref())).collect::<Vec<_>>()));
        for (k, v) in t.iter() {
            let i = keys.get(&kc::<u8>(k.as_ref())).copied().unwrap_or(0);
            rec.add(if i % 2 == 0 { "x" } else { "y" }, n, || of(v));
            rec.add(if i % 2 == 0 { "x" } else { "y" }, n, || of(t.get(k.as_ref()).unwrap()));
        }
    }
    let ar = Arch::new(&t);
    look(rec, &t, &keys, |v| shaped(&v.0), "a tree of trees");
    rec.add("ok", "a tree of trees", || j(checked::<Out2>(&ar.bytes).is_some() as i64));
    let back: Out2 = ar.get().deserialize(&mut SharedDeserializeMap::default()).unwrap();
    drop(t);
    drop(ar);
    look(rec, &back, &keys, |v| shaped(&v.0), "a tree of trees, read back");
}
fn answers(a: &Args) {
    let mut o = Out::new(a, "answers");
    let mut notes = Notes::default();
    let n = if a.thorough { 60000 } else { 6000 };
    for i in 0..n {
        let mut r = Rng::new(a.seed, 220_000 + i);
        match i % 4 {
            0 => {
                let (mut x, y) = key_pair(&mut r, 250);
                if i % 120 == 4 { let p = r.range(1, 9); x = (0..r.range(200, 900) as i64).filter(|_| r.chance(p, 10)).collect() }
                let tag = r.chance(2, 3);
                let (x, y) = (with_tag(&x, 0), with_tag(&y, if tag { 1 } else { 0 }));
                let q: Vec<i64> = [0, 1, 250].into_iter().chain(x.iter().map(|c| key(*c))).chain(y.iter().map(|c| key(*c)).take(5)).map(|k| mkc(k, 0)).collect::<BTreeSet<_>>().into_iter().collect();
                let head = Obj::new().f("kind", "set").f("a", &x).f("b", &y).f("q", &q);
                o.begin(&head.clone().end());
                let mut rec = Rec::default();
                pod_set::<Tk, [Tk; 2], [Tk; 4]>(&mut rec, &x, &y, &q);
                pod_set::<Tk, [Tk; 16], [Tk; 1]>(&mut rec, &x, &y, &q);
                pod_set::<i64, [i64; 0], [i64; 8]>(&mut rec, &x, &y, &q);
                pod_set::<u8, [u8; 4], [u8; 2]>(&mut rec, &x, &y, &q);
                string_set::<[String; 2]>(&mut rec, &x, &y, &q);
                rec.emit(&mut o, head, &mut notes);
            }
            1 => {
                let (mut x, y) = key_pair(&mut r, 250);
                if i % 120 == 5 { let p = r.range(7, 10); x = (0..if i % 240 == 5 { 700 } else { 251 }).filter(|_| r.chance(p, 10)).collect() }
                let x: Vec<(i64, i64)> = x.into_iter().map(|k| (k, r.below(96) as i64)).collect();
                let y: Vec<(i64, i64)> = y.into_iter().map(|k| (k, r.below(96) as i64)).collect();
                let q: Vec<i64> = [0, 1, 250].into_iter().chain(x.iter().map(|c| c.0)).chain(y.iter().map(|c| c.0).take(5)).collect();
                let m = r.below(4096) as i64;
                let head = Obj::new().f("kind", "map").f("a", &x).f("b", &y).f("q", &q).f("m", m);
                o.begin(&head.clone().end());
                let mut rec = Rec::default();
                pod_map::<Tk, i64, [(Tk, i64); 2]>(&mut rec, &x, &y, &q, m);
                pod_map::<i64, u8, [(i64, u8); 0]>(&mut rec, &x, &y, &q, m);
                if q.iter().all(|k| *k < 256) { pod_map::<u8, i64, [(u8, i64); 16]>(&mut rec, &x, &y, &q, m) }
                rec.emit(&mut o, head, &mut notes);
            }
            _ if i % 16 == 3 => {
                let w = r.range(2, 5);
                let n = [0, 1, 2, 3, 5, 8, 14, 25][r.below(8)];
                let (a, b) = (entries(&mut r, n, w), if r.chance(1, 8) { vec![] } else { entries(&mut r, n, w) });
                let s = with_tag(&key_pair(&mut r, 250).0, 0);
                let head = Obj::new().f("kind", "several").f("a", &a).f("b", &b).f("s", &s);
                o.begin(&head.clone().end());
                let mut rec = Rec::default();
                several(&mut rec, &a, &b, &s, r.below(BUILDS));
                for k in ["x", "y", "w", "keys"] { rec.m.entry(k).or_default(); }
                rec.emit(&mut o, head, &mut notes);
            }
            _ => {
                let w = r.range(2, 5);
                let n = [0, 1, 2, 3, 5, 8, 14, 25][r.below(8)];
                let (mut a, mut base, mut at) = (vec![], vec![], vec![]);
                let big = i % 40 == 22;
                // more levels, or more children at one place, than a byte counts
                let (taller, broader) = (i % 320 == 62, i % 320 == 222);
                if big { // one node below the other, or many next to each other
                    // (or below one of few, each of them with or without an entry of its own)
                    let few = |h: i64| Vocab { words: (0..130).flat_map(|x| (0..h).map(move |h| if x == h { vec![h] } else { vec![h, x] })).collect(), max: 1 };
                    let v = if taller { skyscraper(&mut r) } else if broader { broad() } else { match r.below(4) { 0 | 1 => tower(&mut r), 2 => Vocab { words: (0..130).map(|x| vec![x]).collect(), max: 2 }, _ => few(r.range(1, 4) as i64) } };
                    let n = r.range(60, 260);
                    a = v.entries(&mut r, n).into_iter().map(|(k, v)| (k, v % 8)).collect::<BTreeMap<_, _>>().into_iter().collect();
                    r.shuffle(&mut a);
                } else if i % 4 == 2 { a = entries(&mut r, n, w) } else {
                    base = entries(&mut r, n.min(8), w);
                    at = (0..r.range(1, 4)).map(|c| c as i64).collect();
                    for c in &at { for (k, v) in &base { let mut k2 = vec![*c]; k2.extend(k); a.push((k2, *v)) } }
                }
                let mut b = entries(&mut r, n, w);
                if big || r.chance(1, 3) { b = a.iter().filter(|_| r.chance(2, 3)).cloned().collect() }
                let mut q: Vec<Key> = (0..6).map(|_| key_of(&mut r, w)).collect();
                q.extend(a.iter().take(6).map(|e| e.0.clone()));
                q.extend(a.iter().take(3).filter(|e| e.0.len() > 0).map(|e| e.0[..e.0.len() - 1].to_vec()));
                let p = if a.is_empty() || r.chance(1, 3) { key_of(&mut r, w) } else { let k = &a[r.below(a.len())].0; k[..r.range(0, k.len())].to_vec() };
                let k = if a.is_empty() || r.chance(1, 4) { key_of(&mut r, w) } else { let mut k = a[r.below(a.len())].0.clone(); if r.chance(1, 2) { k.push(r.below(w) as i64) } k };
                let v = r.below(8) as i64;
                let head = Obj::new().f("kind", "tree").f("a", &a).f("b", &b).f("q", &q).f("p", &p).f("k", &k).f("v", v);
                o.begin(&head.clone().end());
                let c = TreeCase { a: &a, base: &base, at: &at, b: &b, q: &q, p: &p, k: &k, v, how: r.below(BUILDS) };
                let mut rec = Rec::default();
                if broader {
                    tree::<RadixTree<i64, u8>>(&mut rec, &c);
                    tree::<ArcRadixTree<char, i64>>(&mut rec, &c);
                    tree::<LazyRadixTree<'static, char, i64>>(&mut rec, &c);
                    rec.emit(&mut o, head, &mut notes);
                    continue;
                }
                tree::<RadixTree<u8, i64>>(&mut rec, &c);
                tree::<ArcRadixTree<u8, i64>>(&mut rec, &c);
                tree::<LazyRadixTree<'static, u8, i64>>(&mut rec, &c);
                match i % 3 {
                    0 => tree::<RadixTree<i64, u8>>(&mut rec, &c),
                    1 => tree::<ArcRadixTree<u32, u8>>(&mut rec, &c),
                    _ => { tree::<ArcRadixTree<char, i64>>(&mut rec, &c); tree::<LazyRadixTree<'static, char, i64>>(&mut rec, &c) }
                }
                rec.emit(&mut o, head, &mut notes);
            }
        }
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ validated access (C23)
/// a place for bytes right before, or right after, memory that must not be touched
struct Fence { base: *mut u8, pages: usize }
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
impl Fence {
    fn new(pages: usize) -> Self {
        unsafe {
            let p = mmap(std::ptr::null_mut(), (pages + 2) * PAGE, 3, 0x22, -1, 0);
            assert!(!p.is_null() && p as isize != -1);
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add((pages + 1) * PAGE), PAGE, 0), 0);
            Fence { base: p, pages }
        }
    }
    fn put(&mut self, b: &[u8], at_end: bool) -> &'static [u8] {
        assert!(b.len() <= self.pages * PAGE);
        unsafe {
            let start = if at_end { self.base.add((self.pages + 1) * PAGE - b.len()) } else { self.base.add(PAGE) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), start, b.len());
            std::slice::from_raw_parts(start, b.len())
        }
    }
}

/// values as they lie in memory, valid or not; a number no valid value has stands for anything odd
trait Bits: Copy + 'static { const N: &'static str; const TOP: i64; fn bits(&self) -> i64; fn of(i: i64) -> Self; }
impl Bits for u8 { const N: &'static str = "u8"; const TOP: i64 = 255; fn bits(&self) -> i64 { *self as i64 } fn of(i: i64) -> u8 { i as u8 } }
impl Bits for u16 { const N: &'static str = "u16"; const TOP: i64 = 65535; fn bits(&self) -> i64 { *self as i64 } fn of(i: i64) -> u16 { i as u16 * 257 } }
impl Bits for bool {
    const N: &'static str = "bool";
    const TOP: i64 = 1;
    fn bits(&self) -> i64 { unsafe { (self as *const bool as *const u8).read_volatile() as i64 } }
    fn of(i: i64) -> bool { i % 2 == 1 }
}
impl Bits for char {
    const N: &'static str = "char";
    const TOP: i64 = 0x10FFFF;
    fn bits(&self) -> i64 {
        let x = unsafe { (self as *const char as *const u32).read_volatile() };
        if x > 0x10FFFF || (0xD800..0xE000).contains(&x) { 0x110000 } else { x as i64 }
    }
    fn of(i: i64) -> char { char::from_u32(65 + 0x1000 * i as u32).unwrap() }
}
impl Bits for (u8, u16) { const N: &'static str = "pair"; const TOP: i64 = 255 * 65536 + 65535; fn bits(&self) -> i64 { self.0 as i64 * 65536 + self.1 as i64 } fn of(i: i64) -> Self { ((i / 3) as u8, (i % 3) as u16) } }
/// what a view says about itself after validation: null, or a record
type Says = Option<Obj>;
const MANY: usize = 3000;

fn say_set<T: Bits + Ord>(x: &impl AbstractVecSet<T>) -> Obj {
    let it: Vec<T> = x.iter().copied().collect();
    Obj::new().f("it", it.iter().map(|v| v.bits()).collect::<Vec<_>>()).f("has", it.iter().map(|v| x.contains(v) as i64).collect::<Vec<_>>())
        .f("emp", x.is_empty() as i64).f("n", x.as_slice().len()).f("sub", x.is_subset(x) as i64).f("dis", x.is_disjoint(x) as i64)
        .f("uni", x.union::<[T; 2]>(x).iter().map(|v| v.bits()).collect::<Vec<_>>())
}
fn say_map<K: Bits + Ord, V: Bits>(x: &impl AbstractVecMap<K, V>) -> Obj {
    let it: Vec<(K, V)> = x.iter().copied().collect();
    Obj::new().f("it", it.iter().map(|v| (v.0.bits(), v.1.bits())).collect::<Vec<_>>())
        .f("get", it.iter().map(|v| x.get(&v.0).map(|v| v.bits()).unwrap_or(-1)).collect::<Vec<_>>())
        .f("emp", x.is_empty() as i64).f("n", x.as_slice().len())
}
/// the tree as it is stored; false if it is too deep to be made of so many bytes or too large to look at
fn stored<K: Bits + vec_collections::radix_tree::TKey, V: Bits + vec_collections::radix_tree::TValue, T: AbstractRadixTree<K, V>>(t: &T, depth: usize, budget: &mut usize, out: &mut String) -> i64 {
    if depth == 0 { return 2 }
    if *budget == 0 { return 1 }
    *budget -= 1;
    out.push('[');
    t.prefix().iter().map(|c| c.bits()).collect::<Vec<_>>().j(out);
    out.push_str(&format!(",{},[", t.value().map(|v| v.bits()).unwrap_or(-1)));
    for (i, c) in t.children().iter().enumerate() {
        if i > 0 { out.push(',') }
        let r = stored(c, depth - 1, budget, out);
        if r > 0 { return r }
    }
    out.push_str("]]");
    0
}
fn say_tree<K: Bits + vec_collections::radix_tree::TKey, V: Bits + vec_collections::radix_tree::TValue, T: AbstractRadixTree<K, V>>(x: &T, len: usize) -> Says {
    let mut s = String::new();
    // a path is never longer than there are bytes
    match stored(x, len + 2, &mut 400, &mut s) {
        1 => {
            // too much to record: at least it ends
            if depth(x, len + 2, &mut 20_000) { return Some(Obj::new().f("deep", 1)) }
            return None;
        }
        2 => return Some(Obj::new().f("deep", 1)),
        _ => {}
    }
    let it: Vec<(Vec<K>, i64)> = x.iter().take(MANY).map(|(k, v)| (k.as_ref().to_vec(), v.bits())).collect();
    let key = |k: &[K]| k.iter().map(|c| c.bits()).collect::<Vec<_>>();
    let get: Vec<i64> = it.iter().map(|(k, _)| x.get(k).map(|v| v.bits()).unwrap_or(-1)).collect();
    let has: Vec<i64> = it.iter().map(|(k, _)| x.contains_key(k) as i64).collect();
    let mut less = vec![];
    for (k, _) in it.iter().take(4) { for n in 0..k.len().min(4) { less.push((key(&k[..n]), x.get(&k[..n]).map(|v| v.bits()).unwrap_or(-1))) } }
    let scan: Vec<(Vec<i64>, Vec<(Vec<i64>, i64)>)> = it.iter().step_by(2).take(3)
        .map(|(k, _)| { let p = &k[..k.len() / 2]; (key(p), x.scan_prefix(p).take(MANY).map(|(k, v)| (key(k.as_ref()), v.bits())).collect()) }).collect();
    Some(Obj::new().f("deep", 0).f("tree", Raw(s)).f("it", it.iter().map(|(k, v)| (key(k), *v)).collect::<Vec<_>>()).f("get", get).f("has", has).f("less", less).f("scan", scan)
        .f("vals", x.values().take(MANY).map(|v| v.bits()).collect::<Vec<_>>()).f("emp", x.is_empty() as i64)
        .f("sub", x.is_subset(x) as i64).f("met", x.intersects(x) as i64))
}
fn depth<K: vec_collections::radix_tree::TKey, V: vec_collections::radix_tree::TValue, T: AbstractRadixTree<K, V>>(t: &T, left: usize, budget: &mut usize) -> bool {
    if left == 0 { return true }
    if *budget == 0 { return false }
    *budget -= 1;
    t.children().iter().any(|c| depth(c, left - 1, budget))
}

/// one kind of archive: how to read it, whatever it holds
struct Kind { name: String, top: (i64, i64), read: Box<dyn Fn(&'static [u8]) -> Option<Says>>, seeds: Vec<AlignedVec> }
fn archived_list<T: Archive + rkyv::Serialize<Ser>>(v: Vec<T>) -> AlignedVec where Vec<T>: rkyv::Serialize<Ser> { Arch::new(&v).bytes }
fn lists(r: &mut Rng) -> Vec<Vec<i64>> {
    let mut res: Vec<Vec<i64>> = vec![vec![], vec![0], vec![1, 2], vec![2, 1], vec![1, 1], vec![0, 1, 2, 3, 4], vec![0, 2, 1, 3], vec![1, 2, 3, 3], vec![0, 0, 1, 2], vec![1, 2, 3, 0], vec![3, 1, 2, 4]];
    for _ in 0..12 {
        let mut v = sequence(r, 40);
        v.truncate(40);
        if r.chance(1, 2) { v.sort(); v.dedup(); if v.len() > 2 && r.chance(2, 3) { let i = r.below(v.len() - 1); if r.chance(1, 2) { v.swap(i, i + 1) } else { v[i] = v[i + 1] } } }
        res.push(v);
    }
    res
}
fn set_kind<T>(r: &mut Rng) -> Kind where T: Bits + Ord + Archive<Archived = T> + rkyv::Serialize<Ser>, for<'x> T: CheckBytes<DefaultValidator<'x>> {
    Kind {
        name: format!("set<{}>", T::N),
        top: (T::TOP, 0),
        read: Box::new(|b| checked::<VecSet<[T; 2]>>(b).map(|x| Some(say_set(x)))),
        seeds: lists(r).into_iter().map(|v| archived_list(v.into_iter().map(T::of).collect::<Vec<T>>())).collect(),
    }
}
fn map_kind<K, V>(r: &mut Rng) -> Kind
where
    K: Bits + Ord + Archive<Archived = K> + rkyv::Serialize<Ser>,
    V: Bits + Archive<Archived = V> + rkyv::Serialize<Ser>,
    for<'x> K: CheckBytes<DefaultValidator<'x>>,
    for<'x> V: CheckBytes<DefaultValidator<'x>>,
    for<'x> (K, V): CheckBytes<DefaultValidator<'x>>,
{
    Kind {
        name: format!("map<{},{}>", K::N, V::N),
        top: (K::TOP, V::TOP),
        read: Box::new(|b| checked::<VecMap<[(K, V); 2]>>(b).map(|x| Some(say_map(x)))),
        seeds: lists(r).into_iter().map(|v| archived_list(v.into_iter().enumerate().map(|(i, k)| (K::of(k), V::of(i as i64))).collect::<Vec<_>>())).collect(),
    }
}
fn tree_shapes(r: &mut Rng) -> Vec<Vec<Entry>> {
    let e = |s: &[(&[i64], i64)]| s.iter().map(|(k, v)| (k.to_vec(), *v)).collect::<Vec<Entry>>();
    let mut res = vec![
        e(&[]), e(&[(&[], 1)]), e(&[(&[1, 2], 1)]), e(&[(&[], 0), (&[1], 1)]), e(&[(&[1, 1], 1), (&[1, 2], 0)]),
        e(&[(&[1], 1), (&[2], 2), (&[3], 3)]), e(&[(&[1], 1), (&[1, 1], 2), (&[1, 1, 1], 3)]),
        e(&[(&[1, 1, 1], 1), (&[1, 1, 2], 0), (&[2, 1], 1), (&[2, 2], 1), (&[2, 2, 0], 4)]),
    ];
    for _ in 0..4 { let n = r.range(2, 9); res.push(entries(r, n, 4)) }
    res
}
fn large_shapes(r: &mut Rng) -> Vec<Vec<Entry>> {
    let wide = |n: i64, h: &[i64]| (0..n).map(|x| { let mut k = h.to_vec(); k.push(2 * x); (k, x % 2) }).collect::<Vec<Entry>>();
    let mut res = vec![(0..250).map(|x| (vec![x], x % 2)).collect(), wide(20, &[]), wide(70, &[1]), wide(60, &[]).into_iter().chain(wide(40, &[200, 3])).collect()];
    let mut t = tower(r);
    t.words.truncate(40);
    res.push(t.words.into_iter().map(|k| (k, 1)).collect());
    res
}
macro_rules! tree_kind {
    ($r:expr, $n:expr, $t:ident, $k:ty, $v:ty, large) => {{
        let mut k = tree_kind!($r, $n, $t, $k, $v);
        k.seeds = large_shapes($r).into_iter().map(|es| {
            let mut t = $t::<$k, $v>::empty();
            for (k, v) in es { t.insert(&k.iter().map(|c| <$k as Bits>::of(*c)).collect::<Vec<_>>(), <$v as Bits>::of(v)) }
            Arch::new(&t).bytes
        }).collect();
        k
    }};
    ($r:expr, $n:expr, $t:ident, $k:ty, $v:ty) => {{
        fn put(t: &mut $t<$k, $v>, k: &[i64], v: i64) { t.insert(&k.iter().map(|c| <$k as Bits>::of(*c)).collect::<Vec<_>>(), <$v as Bits>::of(v)) }
        let mut seeds: Vec<AlignedVec> = tree_shapes($r).into_iter().map(|es| {
            let mut t = $t::<$k, $v>::empty();
            for (k, v) in es { put(&mut t, &k, v) }
            Arch::new(&t).bytes
        }).collect();
        // with shared parts, where the flavour can
        for es in tree_shapes($r).into_iter().skip(2).take(4) {
            let mut base = $t::<$k, $v>::empty();
            for (k, v) in es { put(&mut base, &k, v) }
            let mut t = $t::<$k, $v>::empty();
            for c in 1..3i64 { let mut b = base.clone(); b.prepend(&[<$k as Bits>::of(c)]); t.outer_combine_with(&b, |_, _| true); }
            seeds.push(Arch::new(&t).bytes);
        }
        Kind {
            name: format!("{}<{},{}>", $n, <$k>::N, <$v>::N),
            top: (<$k>::TOP, <$v>::TOP),
            read: Box::new(|b| checked::<$t<$k, $v>>(b).map(|x| say_tree::<$k, $v, _>(x, b.len()))),
            seeds,
        }
    }};
}
fn kinds(r: &mut Rng) -> Vec<Kind> {
    vec![
        set_kind::<u8>(r), set_kind::<u16>(r), set_kind::<char>(r), set_kind::<(u8, u16)>(r),
        map_kind::<u8, bool>(r), map_kind::<u16, u8>(r), map_kind::<char, u8>(r), map_kind::<(u8, u16), u8>(r),
        tree_kind!(r, "flat", RadixTree, u8, u8), tree_kind!(r, "flat", RadixTree, char, bool), tree_kind!(r, "flat", RadixTree, u16, u16),
        tree_kind!(r, "arc", ArcRadixTree, u8, u8), tree_kind!(r, "arc", ArcRadixTree, char, bool), tree_kind!(r, "arc", ArcRadixTree, u16, u16),
    ]
}
fn large(r: &mut Rng) -> Vec<Kind> {
    vec![tree_kind!(r, "flat", RadixTree, u8, bool, large), tree_kind!(r, "arc", ArcRadixTree, u8, bool, large), tree_kind!(r, "arc", ArcRadixTree, u16, u8, large)]
}
struct Prober<'a> { o: &'a mut Out, fence: Fence, seen: BTreeSet<u64>, cap: usize }
fn hash(s: &str) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
impl<'a> Prober<'a> {
    fn probe(&mut self, k: &Kind, b: &[u8], how: &str, s: Option<&[i64]>) {
        // the case on record, should reading it end the process
        if b.len() < 3000 { self.o.begin(&Obj::new().f("kind", k.name.as_str()).f("how", how).f("bytes", b.iter().map(|x| *x as i64).collect::<Vec<_>>()).end()) }
        for end in [true, false] {
            let b = self.fence.put(b, end);
            let r = guard(|| (k.read)(b));
            self.o.evals += 1;
            let what = match &r {
                Err(e) => Obj::new().f("ok", -1i64).f("why", e.as_str()),
                Ok(None) => { self.o.stat("rejected", 1); if s.is_none() { continue } Obj::new().f("ok", 0) }
                Ok(Some(None)) => { self.o.stat("too_large", 1); continue }
                Ok(Some(Some(d))) => { self.o.stat("accepted", 1); Obj::new().f("ok", 1).f("view", d) }
            };
            let key = hash(&format!("{s:?}{}", what.clone().end()));
            let line = Obj::new().f("kind", k.name.split('<').next().unwrap()).f("of", k.name.as_str()).f("top", k.top).f("how", how).f("s", Raw(s.map(|s| s.js()).unwrap_or("[]".into()))).f("raw", s.is_some() as i64)
                .f("res", what).end();
            if self.seen.len() >= self.cap { self.o.stat("only_probed", 1) } else if self.seen.insert(key) { self.o.line(&line) }
        }
    }
}
fn valid(a: &Args) {
    let mut o = Out::new(a, "valid");
    let mut r = Rng::new(a.seed, 230_000);
    // lists in any order, exactly those that are increasing are sets or keys of maps
    {
        let mut p = Prober { o: &mut o, fence: Fence::new(16), seen: Default::default(), cap: usize::MAX };
        let all: Vec<Vec<i64>> = (0..6usize).flat_map(|n| { let t = 4usize.pow(n as u32); (0..t).map(move |mut c| (0..n).map(|_| { let x = c % 4; c /= 4; x as i64 }).collect::<Vec<_>>()) }).collect();
        let mut more = vec![];
        for _ in 0..if a.thorough { 5000 } else { 400 } { more.extend(lists(&mut r).into_iter().skip(11)) }
        // long ones, with one place out of order
        for i in 0..if a.thorough { 600 } else { 90 } {
            let p = r.range(2, 11);
            let mut v: Vec<i64> = (0..211).filter(|_| r.chance(p, 11)).collect();
            if i % 3 > 0 && v.len() > 2 { let i = r.below(v.len() - 1); if r.chance(1, 2) { v.swap(i, i + 1) } else { v[i] = v[i + 1] } }
            more.push(v);
        }
        // of more elements than a byte counts, for types that have so many
        for i in 0..if a.thorough { 300 } else { 40 } {
            let p = r.range(6, 11);
            let mut v: Vec<i64> = (0..r.range(300, 700) as i64).filter(|_| r.chance(p, 11)).collect();
            if i % 3 > 0 { let i = if r.chance(1, 2) { v.len() - 2 - r.below(9) } else { r.below(v.len() - 1) }; if r.chance(1, 2) { v.swap(i, i + 1) } else { v[i] = v[i + 1] } }
            more.push(v);
        }
        let ks = kinds(&mut Rng::new(a.seed, 1));
        fn on<T: Bits + Archive + rkyv::Serialize<Ser>>(p: &mut Prober, k: &Kind, s: &[i64]) {
            let b = archived_list(s.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
            let codes: Vec<i64> = s.iter().map(|x| T::of(*x).bits()).collect();
            p.probe(k, &b, "list", Some(&codes));
        }
        fn onm<T: Bits + Archive + rkyv::Serialize<Ser>, V: Bits + Archive + rkyv::Serialize<Ser>>(p: &mut Prober, k: &Kind, s: &[i64]) {
            let b = archived_list(s.iter().enumerate().map(|(i, x)| (T::of(*x), V::of(i as i64))).collect::<Vec<_>>());
            let codes: Vec<i64> = s.iter().map(|x| T::of(*x).bits()).collect();
            p.probe(k, &b, "list", Some(&codes));
        }
        for (i, s) in all.iter().chain(more.iter()).enumerate() {
            let low = s.iter().all(|x| *x < 256);
            if low { on::<u8>(&mut p, &ks[0], s); onm::<u8, bool>(&mut p, &ks[4], s) }
            if i % 4 == 0 || i > all.len() {
                if low {
                    on::<u16>(&mut p, &ks[1], s);
                    on::<char>(&mut p, &ks[2], s);
                    onm::<u16, u8>(&mut p, &ks[5], s);
                    onm::<char, u8>(&mut p, &ks[6], s);
                }
                on::<(u8, u16)>(&mut p, &ks[3], s);
                onm::<(u8, u16), u8>(&mut p, &ks[7], s);
            }
        }
    }
    // large trees, wide or deep, any byte a little off
    for k in large(&mut r) {
        let mut p = Prober { o: &mut o, fence: Fence::new(32), seen: Default::default(), cap: 0 };
        for (si, s) in k.seeds.iter().enumerate() {
            p.cap = p.seen.len() + if a.thorough { 1000 } else { 80 };
            let b = s.as_slice();
            p.probe(&k, b, "intact", None);
            let mut at: Vec<usize> = (0..b.len()).collect();
            r.shuffle(&mut at);
            if !a.thorough { at.truncate(4000) }
            for i in at {
                for d in [1u8, 2, 255] {
                    let mut c = b.to_vec();
                    c[i] = c[i].wrapping_add(d);
                    p.probe(&k, &c, &format!("byte {i} of large tree {si} plus {d}"), None);
                }
            }
        }
    }
    // damaged archives
    for round in 0..if a.thorough { 3 } else { 1 } {
        let ks = kinds(&mut r);
        for k in &ks {
            let mut p = Prober { o: &mut o, fence: Fence::new(8), seen: Default::default(), cap: if a.thorough { 30_000 } else { 12_000 } };
            for (si, s) in k.seeds.iter().enumerate() {
                let b = s.as_slice();
                p.probe(k, b, "intact", None);
                if b.len() <= if a.thorough { 400 } else { 200 } {
                    // every byte, some or all values
                    for i in 0..b.len() {
                        let mut c = b.to_vec();
                        for v in 0..256usize {
                            if !a.thorough && v > 20 && v < 240 && v % 16 != si % 16 { continue }
                            c[i] = v as u8;
                            p.probe(k, &c, &format!("byte {i} of seed {si}"), None);
                        }
                    }
                    // every offset made to point at every place
                    for step in [4, 2, 1] {
                        if step < 4 && b.len() > 80 { continue }
                        for i in (0..b.len().saturating_sub(3)).step_by(4) {
                            for t in (0..b.len()).step_by(step) {
                                let mut c = b.to_vec();
                                c[i..i + 4].copy_from_slice(&((t as i32) - (i as i32)).to_le_bytes());
                                p.probe(k, &c, &format!("offset {i} to {t} of seed {si}"), None);
                            }
                        }
                    }
                    // every length
                    for n in 0..b.len() { p.probe(k, &b[n..], "cut", None); p.probe(k, &b[..n], "cut", None) }
                }
                for _ in 0..if a.thorough { 10_000 } else { 1500 } {
                    let mut c = b.to_vec();
                    if c.is_empty() { continue }
                    for _ in 0..r.range(1, 4) {
                        let n = c.len();
                        match r.below(8) {
                            0 => { let i = r.below(n); c[i] ^= 1 << r.below(8) }
                            1 => { let i = r.below(n); c[i] = r.next() as u8 }
                            2 if n >= 8 => { let i = 4 * r.below(n / 4); let t = 4 * r.below(n / 4); c[i..i + 4].copy_from_slice(&(t as i32 - i as i32).to_le_bytes()) }
                            3 if n >= 8 => { let (i, t) = (4 * r.below(n / 4), 4 * r.below(n / 4)); let w: [u8; 4] = c[t..t + 4].try_into().unwrap(); c[i..i + 4].copy_from_slice(&w) }
                            4 if n >= 8 => { let i = 4 * r.below(n / 4); let d = r.range(0, 16) as i32 - 8; let w = i32::from_le_bytes(c[i..i + 4].try_into().unwrap()).wrapping_add(d); c[i..i + 4].copy_from_slice(&w.to_le_bytes()) }
                            5 if n >= 8 => { let i = 4 * r.below(n / 4); c[i..i + 4].copy_from_slice(&(r.below(6) as u32).to_le_bytes()) }
                            6 => { let k = 4 * r.range(0, 4).min(n / 4); if r.chance(1, 2) { c.drain(..k); } else { c.truncate(n - k) } if c.is_empty() { break } }
                            _ => { let i = r.below(n); let l = r.range(0, 8).min(n - i); for x in &mut c[i..i + l] { *x = if r.0 & 64 == 0 { 0 } else { 255 } } }
                        }
                    }
                    p.probe(k, &c, "damaged", None);
                }
            }
            for _ in 0..if a.thorough { 20_000 } else { 1000 } {
                let n = 4 * r.range(0, 24);
                let small = r.chance(1, 2);
                let c: Vec<u8> = (0..n).map(|_| if small { r.below(5) as u8 } else { r.next() as u8 }).collect();
                p.probe(k, &c, "noise", None);
            }
        }
        if round > 0 { tick() }
    }
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "answers" => answers(&a),
        "valid" => valid(&a),
        w => panic!("unknown {w}"),
    }
}
