//! Radix trees of all flavours behind one interface, with integer views of keys and values.
use crate::{arch::*, elem::{Txt, Val}, ledger::L, *};
use rkyv::{Archive, Deserialize, Serialize};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

pub type Key = Vec<i64>;
pub type Entry = (Key, i64);

/// key components: own their archived form, as the library demands
pub trait Kc: std::fmt::Debug + Ord + Copy + Archive<Archived = Self> + Serialize<Ser> + Deserialize<Self, rkyv::Infallible> + Deserialize<Self, rkyv::de::deserializers::SharedDeserializeMap> + Send + Sync + 'static {
    const KN: &'static str;
    /// how many components stand for one letter: the first tells which, the others count
    const STRETCH: usize = 1;
    fn mkc(i: i64) -> Self;
    fn c(self) -> i64;
}
impl Kc for u8 { const KN: &'static str = "u8"; fn mkc(i: i64) -> u8 { i as u8 } fn c(self) -> i64 { self as i64 } }
impl Kc for u32 { const KN: &'static str = "u32"; fn mkc(i: i64) -> u32 { i as u32 * 0x0101_0001 } fn c(self) -> i64 { (self / 0x0101_0001) as i64 } }
impl Kc for i64 { const KN: &'static str = "i64"; fn mkc(i: i64) -> i64 { (i - 3) << 54 } fn c(self) -> i64 { (self >> 54) + 3 } }
impl Kc for char { const KN: &'static str = "char"; fn mkc(i: i64) -> char { let x = 97 + 400 * i as u32; char::from_u32(if x < 0xD800 { x } else { x + 0x800 }).unwrap() } fn c(self) -> i64 { let x = self as i64; (if x < 0xD800 { x } else { x - 0x800 } - 97) / 400 } }
impl Kc for u16 { const KN: &'static str = "50 u16"; const STRETCH: usize = 50; fn mkc(i: i64) -> u16 { i as u16 * 77 } fn c(self) -> i64 { (self / 77) as i64 } }
impl Kc for i32 { const KN: &'static str = "130 i32"; const STRETCH: usize = 130; fn mkc(i: i64) -> i32 { (i as i32 - 3) << 20 } fn c(self) -> i64 { (self >> 20) as i64 + 3 } }
pub fn ks<K: Kc>(k: &[i64]) -> Vec<K> { k.iter().flat_map(|x| (0..K::STRETCH).map(move |i| K::mkc(if i == 0 { *x } else { i as i64 % 90 }))).collect() }
pub fn kc<K: Kc>(k: &[K]) -> Key {
    if K::STRETCH == 1 { return k.iter().map(|x| x.c()).collect() }
    let whole = k.len() % K::STRETCH == 0 && k.iter().enumerate().all(|(i, x)| i % K::STRETCH == 0 || x.c() == (i % K::STRETCH) as i64 % 90);
    // a torn letter is no letter
    if whole { k.iter().step_by(K::STRETCH).map(|x| x.c()).collect() } else { vec![-1, k.len() as i64] }
}

/// values that can live in any flavour and in archives
pub trait Vv: Val + Send + Sync + Archive<Archived = Self> + Serialize<Ser> + Deserialize<Self, rkyv::Infallible> + Deserialize<Self, rkyv::de::deserializers::SharedDeserializeMap> {}
impl<T: Val + Send + Sync + Archive<Archived = T> + Serialize<Ser> + Deserialize<T, rkyv::Infallible> + Deserialize<T, rkyv::de::deserializers::SharedDeserializeMap>> Vv for T {}

/// one flavour of tree
pub trait Flavour: Sized + Clone + 'static + AbstractRadixTreeMut<Self::K, Self::V, Materialized = Self> {
    type K: Kc;
    type V: Val + Send + Sync + Archive;
    /// an operand of another kind that holds the same entries: the archived form, where there is one
    type Other: AbstractRadixTree<Self::K, Self::V, Materialized = Self>;
    fn flavour() -> String;
    fn from_flat(t: RadixTree<Self::K, Self::V>) -> Self;
    /// the same tree by way of an archive
    fn reload(&self, how: i64) -> Self;
    fn with_other<R>(&self, f: impl FnOnce(&Self::Other) -> R) -> R;
}
/// a copy of the bytes that lives forever
pub fn leak(b: &rkyv::AlignedVec) -> &'static rkyv::AlignedVec {
    let mut v = rkyv::AlignedVec::with_capacity(b.len());
    v.extend_from_slice(b);
    Box::leak(Box::new(v))
}
impl<K: Kc, V: Vv> Flavour for RadixTree<K, V> {
    type K = K;
    type V = V;
    type Other = <RadixTree<K, V> as Archive>::Archived;
    fn flavour() -> String { format!("flat<{},{}>", K::KN, V::VNAME) }
    fn from_flat(t: RadixTree<K, V>) -> Self { t }
    fn reload(&self, _: i64) -> Self {
        let a = Arch::new(self);
        a.get().deserialize(&mut rkyv::Infallible).unwrap()
    }
    fn with_other<R>(&self, f: impl FnOnce(&Self::Other) -> R) -> R { let a = Arch::new(self); f(a.get()) }
}
impl<K: Kc, V: Vv> Flavour for ArcRadixTree<K, V> {
    type K = K;
    type V = V;
    type Other = <ArcRadixTree<K, V> as Archive>::Archived;
    fn flavour() -> String { format!("arc<{},{}>", K::KN, V::VNAME) }
    fn from_flat(t: RadixTree<K, V>) -> Self { t.into() }
    fn reload(&self, how: i64) -> Self {
        let a = Arch::new(self);
        if how % 2 == 0 { ArcRadixTree::from(a.get()) }
        else { a.get().deserialize(&mut rkyv::de::deserializers::SharedDeserializeMap::new()).unwrap() }
    }
    fn with_other<R>(&self, f: impl FnOnce(&Self::Other) -> R) -> R { let a = Arch::new(self); f(a.get()) }
}
impl<K: Kc, V: Vv> Flavour for LazyRadixTree<'static, K, V> {
    type K = K;
    type V = V;
    type Other = <LazyRadixTree<'static, K, V> as Archive>::Archived;
    fn flavour() -> String { format!("lazy<{},{}>", K::KN, V::VNAME) }
    fn from_flat(t: RadixTree<K, V>) -> Self { t.into() }
    fn reload(&self, _: i64) -> Self {
        let b = leak(&Arch::new(self).bytes);
        let r: &'static <LazyRadixTree<'static, K, V> as Archive>::Archived = unsafe { rkyv::archived_root::<LazyRadixTree<'static, K, V>>(b) };
        LazyRadixTree::from(r)
    }
    fn with_other<R>(&self, f: impl FnOnce(&Self::Other) -> R) -> R { let a = Arch::new(self); f(a.get()) }
}
/// flavours with values that have no usable archived form
macro_rules! plain_flavour {
    ($t:ty, $k:ty, $v:ty, $n:expr) => {
        impl Flavour for $t {
            type K = $k;
            type V = $v;
            type Other = $t;
            fn flavour() -> String { $n.into() }
            fn from_flat(t: RadixTree<$k, $v>) -> Self { t.into() }
            fn reload(&self, _: i64) -> Self { self.clone() }
            fn with_other<R>(&self, f: impl FnOnce(&Self) -> R) -> R { f(&self.clone()) }
        }
    };
}

plain_flavour!(RadixTree<u8, Txt>, u8, Txt, "flat<u8,text>");
plain_flavour!(ArcRadixTree<u8, Txt>, u8, Txt, "arc<u8,text>");
plain_flavour!(RadixTree<u8, L>, u8, L, "flat<u8,ledger>");
plain_flavour!(ArcRadixTree<u8, L>, u8, L, "arc<u8,ledger>");

pub fn flat<K: Kc, V: Val + Send + Sync + Archive>(es: &[Entry]) -> RadixTree<K, V> {
    es.iter().map(|(k, v)| (ks::<K>(k), V::mv(*v))).collect()
}
pub fn by_insert<T: Flavour>(es: &[Entry]) -> T {
    let mut t = T::empty();
    for (k, v) in es { t.insert(&ks::<T::K>(k), T::V::mv(*v)) }
    t
}
pub const BUILDS: usize = 6;
pub fn make<T: Flavour>(es: &[Entry], how: usize) -> T {
    match how % BUILDS {
        0 => T::from_flat(flat(es)),
        1 => by_insert(es),
        2 => by_insert::<T>(es).reload(0),
        3 => { // by union of halves
            let h = es.len() / 2;
            let mut a = by_insert::<T>(&es[h..]);
            a.outer_combine_with(&by_insert::<T>(&es[..h]), |_, _| true);
            a
        }
        4 => { // grown and cut down again
            let mut t = by_insert::<T>(es);
            let extra: Vec<Entry> = [vec![], vec![0], vec![0, 0], vec![1], vec![1, 2, 3], vec![9, 9]].into_iter().filter(|k| !es.iter().any(|e| e.0 == *k)).map(|k| (k, 5)).collect();
            for (k, v) in &extra { t.insert(&ks::<T::K>(k), T::V::mv(*v)) }
            t.difference_with(&by_insert::<T>(&extra));
            t
        }
        _ => T::from_flat(flat(es)).reload(1),
    }
}

/// the structure as [prefix, value or -1, children]
pub fn shape<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T, out: &mut String) {
    out.push('[');
    kc(t.prefix()).j(out);
    out.push_str(&format!(",{},[", t.value().map(|v| v.v()).unwrap_or(-1)));
    for (i, c) in t.children().iter().enumerate() {
        if i > 0 { out.push(',') }
        shape(c, out);
    }
    out.push_str("]]");
}
pub fn shaped<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T) -> Raw {
    let mut s = String::new();
    if levels(t) > DEEP {
        s.push_str("[\"deep\",[");
        deep(t, &mut s);
        s.push_str("]]");
    } else { shape(t, &mut s) }
    Raw(s)
}
/// trees of more levels are recorded node by node, for readers of nested data give up there
const DEEP: usize = 100;
fn levels<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T) -> usize {
    1 + t.children().iter().map(|c| levels(c)).max().unwrap_or(0)
}
fn deep<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T, out: &mut String) {
    if out.ends_with(']') { out.push(',') }
    out.push('[');
    kc(t.prefix()).j(out);
    out.push_str(&format!(",{},{}]", t.value().map(|v| v.v()).unwrap_or(-1), t.children().len()));
    for c in t.children() { deep(c, out) }
}
/// the iteration, with the keys looked at at once, only at the end, or from a clone
pub fn iterated<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T) -> Distinct {
    let mut d = Distinct::default();
    d.add(t.iter().map(|(k, v)| (kc(k.as_ref()), v.v())).collect::<Vec<Entry>>(), "at once");
    let held: Vec<_> = t.iter().collect();
    d.add(held.iter().map(|(k, v)| (kc(k), v.v())).collect::<Vec<Entry>>(), "held");
    // by many at once
    let held: Vec<_> = t.iter().flat_map(|(k, v)| [(k.clone(), v), (k.clone(), v), (k.clone(), v), (k, v)]).collect();
    d.add(held.iter().step_by(4).map(|(k, v)| (kc(k), v.v())).collect::<Vec<Entry>>(), "held by many");
    if held.chunks(4).any(|x| x.iter().any(|y| y.0.as_ref() != x[0].0.as_ref())) { d.add(vec![(vec![-1], -1)], "held by many") }
    let mut some = vec![];
    let mut res: Vec<Entry> = vec![];
    for (i, (k, v)) in t.iter().enumerate() {
        res.push((kc(k.as_ref()), v.v()));
        if i % 2 == 0 { some.push((i, k.clone())) }
    }
    for (i, k) in some { res[i].0 = kc(std::borrow::Borrow::<[K]>::borrow(&k)) }
    d.add(res, "every other held");
    d.add(t.scan_prefix(&[]).map(|(k, v)| (kc(k.as_ref()), v.v())).collect::<Vec<Entry>>(), "scan of the empty prefix");
    let mut es: Vec<Entry> = vec![];
    t.iter().for_each(|(k, v)| es.push((kc(k.as_ref()), v.v())));
    d.add(es, "for_each");
    let n = t.iter().count();
    let mut it = t.iter();
    let es: Vec<Entry> = (0..n).filter_map(|_| it.nth(0).map(|(k, v)| (kc(k.as_ref()), v.v()))).chain(t.iter().skip(n).map(|(k, v)| (kc(k.as_ref()), v.v()))).collect();
    d.add(es, "nth");
    // in two parts, the second from where the first stopped, and again nothing
    let mut it = t.iter();
    let mut es: Vec<Entry> = it.by_ref().take(n / 2).map(|(k, v)| (kc(k.as_ref()), v.v())).collect();
    let last = it.fold(None, |_, (k, v)| { es.push((kc(k.as_ref()), v.v())); Some(v.v()) });
    if last.or(es.last().map(|e| e.1)) != t.iter().last().map(|(_, v)| v.v()) { es.push((vec![-1], -1)) }
    d.add(es, "in parts");
    d
}
/// consuming iteration
pub fn consumed<T: Flavour>(t: T) -> Vec<Entry> where T: 'static {
    t.into_iter().map(|(k, v)| (kc(k.as_ref()), v.v())).collect()
}
pub fn vals<K: Kc, V: Val + Send + Sync + Archive, T: AbstractRadixTree<K, V>>(t: &T) -> Vec<i64> {
    let v: Vec<i64> = t.values().map(|v| v.v()).collect();
    let mut it = t.values();
    let w: Vec<i64> = (0..v.len()).filter_map(|_| it.nth(0)).map(|v| v.v()).collect();
    let same = v == w && it.next().is_none() && t.values().count() == v.len() && t.values().last().map(|x| x.v()) == v.last().copied()
        && t.values().fold(0i64, |a, x| (a * 31 + x.v()) % 10007) == v.iter().fold(0i64, |a, x| (a * 31 + x) % 10007);
    if same { v } else { vec![-1] }
}
