//! Serialising and deserialising (C21): round trips, well-formed data in any order, and malformed data.
use serde::{de::{value, DeserializeOwned, MapAccess, Visitor}, Deserialize, Deserializer, Serialize};
use smallvec::Array;
use std::{alloc::{GlobalAlloc, Layout, System}, fmt::Debug, marker::PhantomData};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, VecMap, VecSet};
use vh::{gen::*, *};

/// no collection in here needs much memory: whoever asks for a lot has believed the input
struct Modest;
unsafe impl GlobalAlloc for Modest {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 1 << 27 { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > 1 << 27 { std::ptr::null_mut() } else { System.realloc(p, l, n) } }
}
#[global_allocator]
static ALLOC: Modest = Modest;

// ------------------------------------------------------------ what the data says, by serde alone
#[derive(Clone, Debug)]
struct Pairs<K, V>(Vec<(K, V)>);
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for P<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a map") }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<Self::Value, M::Error> {
                let mut v = vec![];
                while let Some(e) = m.next_entry()? { v.push(e) }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(P(PhantomData))
    }
}

// ------------------------------------------------------------ outcomes
/// contents of a collection or of data: [ok, [[key, value]..], flag], with keys and values by rank
#[derive(Clone, Debug)]
struct Seen<K, V> { es: Vec<(K, V)>, d: Option<V>, neg: bool }
#[derive(Clone, Debug)]
enum Res<K, V> { Ok(Seen<K, V>), Err, Panic }
struct Rank<'a, K, V>(Vec<&'a K>, Vec<&'a V>);
impl<'a, K: Ord, V: Ord> Rank<'a, K, V> {
    fn new(all: &'a [Res<K, V>]) -> Self {
        let (mut ks, mut vs) = (vec![], vec![]);
        for r in all { if let Res::Ok(s) = r { for (k, v) in &s.es { ks.push(k); vs.push(v) } vs.extend(&s.d) } }
        ks.sort(); ks.dedup(); vs.sort(); vs.dedup();
        Rank(ks, vs)
    }
    fn show(&self, r: &Res<K, V>) -> Raw {
        match r {
            Res::Ok(s) => {
                let es: Vec<(i64, i64)> = s.es.iter().map(|(k, v)| (self.0.binary_search(&k).unwrap() as i64, self.1.binary_search(&v).unwrap() as i64)).collect();
                let d = s.d.as_ref().map(|d| self.1.binary_search(&d).unwrap() as i64).unwrap_or(s.neg as i64);
                Raw((1i64, es, d).js())
            }
            Res::Err => Raw("[0,[],0]".into()),
            Res::Panic => Raw("[-1,[],0]".into()),
        }
    }
}
fn outcome<K, V, C, E>(f: impl FnOnce() -> Result<C, E>, see: impl FnOnce(&C) -> Seen<K, V>) -> Res<K, V> {
    match guard(|| f().map(|c| see(&c))) { Ok(Ok(s)) => Res::Ok(s), Ok(Err(_)) => Res::Err, Err(_) => Res::Panic }
}
trait Coll: Serialize + DeserializeOwned + PartialEq {
    type K: Ord + Clone + Debug;
    type V: Ord + Clone + Debug;
    type Plain: DeserializeOwned;
    const KIND: &'static str;
    fn see(&self) -> Seen<Self::K, Self::V>;
    fn plain(p: Self::Plain) -> Seen<Self::K, Self::V>;
}
trait Part: Ord + Clone + Debug + Serialize + DeserializeOwned + 'static {}
impl<T: Ord + Clone + Debug + Serialize + DeserializeOwned + 'static> Part for T {}
fn els<T>(v: Vec<T>) -> Vec<(T, ())> { v.into_iter().map(|x| (x, ())).collect() }
impl<A: Array> Coll for VecSet<A> where A::Item: Part {
    type K = A::Item; type V = (); type Plain = Vec<A::Item>;
    const KIND: &'static str = "set";
    fn see(&self) -> Seen<A::Item, ()> { Seen { es: els(self.iter().cloned().collect()), d: None, neg: false } }
    fn plain(p: Vec<A::Item>) -> Seen<A::Item, ()> { Seen { es: els(p), d: None, neg: false } }
}
impl<K: Part, V: Part, A: Array<Item = (K, V)>> Coll for VecMap<A> {
    type K = K; type V = V; type Plain = Pairs<K, V>;
    const KIND: &'static str = "map";
    fn see(&self) -> Seen<K, V> { Seen { es: self.iter().cloned().collect(), d: None, neg: false } }
    fn plain(p: Pairs<K, V>) -> Seen<K, V> { Seen { es: p.0, d: None, neg: false } }
}
impl<A: Array> Coll for TotalVecSet<A> where A::Item: Part {
    type K = A::Item; type V = (); type Plain = (Vec<A::Item>, bool);
    const KIND: &'static str = "tset";
    fn see(&self) -> Seen<A::Item, ()> {
        // what it holds can only be asked for
        let text = serde_json::to_string(self).unwrap();
        let (es, _): (Vec<A::Item>, bool) = serde_json::from_str(&text).unwrap();
        let neg = match es.first() { Some(e) => !self.contains(e), None => self.is_all() };
        assert!(es.iter().all(|e| self.contains(e) != neg));
        Seen { es: els(es), d: None, neg }
    }
    fn plain(p: (Vec<A::Item>, bool)) -> Seen<A::Item, ()> { Seen { es: els(p.0), d: None, neg: p.1 } }
}
impl<K: Part, V: Part + Default, A: Array<Item = (K, V)>> Coll for TotalVecMap<V, A> {
    type K = K; type V = V; type Plain = (Pairs<K, V>, V);
    const KIND: &'static str = "tmap";
    fn see(&self) -> Seen<K, V> {
        let (_, d): (Pairs<K, V>, V) = serde_json::from_str(&serde_json::to_string(self).unwrap()).unwrap();
        Seen { es: self.non_default_mappings().iter().cloned().collect(), d: Some(d), neg: false }
    }
    fn plain(p: (Pairs<K, V>, V)) -> Seen<K, V> { Seen { es: p.0 .0, d: Some(p.1), neg: false } }
}

// ------------------------------------------------------------ records
fn record<K: Ord, V: Ord>(o: &mut Out, kind: &str, t: &str, expect: Res<K, V>, outs: Vec<(Res<K, V>, i64)>) {
    let (rs, eqs): (Vec<_>, Vec<_>) = outs.into_iter().unzip();
    let mut all = vec![expect];
    all.extend(rs);
    let rank = Rank::new(&all);
    let mut d = Distinct::default();
    for (r, e) in all[1..].iter().zip(&eqs) { d.add((rank.show(r), *e), "") }
    o.evals += d.n;
    o.stat(t, 1);
    o.line(&Obj::new().f("kind", kind).f("t", t).f("ref", rank.show(&all[0])).f("outs", &d).end());
}
#[derive(Clone, Copy, PartialEq)]
enum Fmt { Json, Cbor }
/// data of unknown quality, read as the collection (in several capacities) and as plain data
macro_rules! read {
    ($o:expr, $t:expr, $f:expr, $bytes:expr, $first:ty $(, $more:ty)*) => {{
        let b: &[u8] = $bytes;
        $o.begin(&format!("{} {} from {:?} {:02x?} {:?}", $t, <$first as Coll>::KIND, $f == Fmt::Json, &b[..b.len().min(80)], String::from_utf8_lossy(&b[..b.len().min(80)])));
        let expect: Res<<$first as Coll>::K, <$first as Coll>::V> = match guard(|| de::<<$first as Coll>::Plain>($f, b)) {
            Ok(Ok(p)) => Res::Ok(<$first as Coll>::plain(p)),
            _ => Res::Err,
        };
        let mut outs = vec![(outcome(|| de::<$first>($f, b), |c| c.see()), 1)];
        $(outs.push((outcome(|| de::<$more>($f, b), |c| c.see()), 1));)*
        record($o, <$first as Coll>::KIND, $t, expect, outs);
    }};
}
fn de<T: DeserializeOwned>(f: Fmt, b: &[u8]) -> Result<T, String> {
    match f { Fmt::Json => serde_json::from_slice(b).map_err(|e| e.to_string()), Fmt::Cbor => serde_cbor::from_slice(b).map_err(|e| e.to_string()) }
}
fn all_formats<C: Coll>(c: &C) -> Vec<(String, Vec<u8>)> {
    vec![
        ("json".into(), serde_json::to_vec(c).unwrap()),
        ("pretty".into(), serde_json::to_vec_pretty(c).unwrap()),
        ("cbor".into(), serde_cbor::to_vec(c).unwrap()),
        ("packed".into(), serde_cbor::ser::to_vec_packed(c).unwrap()),
    ]
}
fn back<C: Coll, D: Coll<K = C::K, V = C::V>>(o: &mut Out, c: &C, same: impl Fn(&D) -> bool) {
    o.begin(&format!("round trip {}", serde_json::to_string(c).unwrap()));
    let mut outs = vec![];
    for (n, b) in all_formats(c) {
        let f = if n == "json" || n == "pretty" { Fmt::Json } else { Fmt::Cbor };
        let mut eq = 0;
        let r = outcome(|| de::<D>(f, &b), |d| { eq = same(d) as i64; d.see() });
        outs.push((r, eq));
        // what was written, read by somebody who knows nothing of the collection
        outs.push((outcome(|| de::<C::Plain>(f, &b).map(C::plain), |s| Seen { es: s.es.clone(), d: s.d.clone(), neg: s.neg }), 1));
    }
    let mut eq = 0;
    let r = outcome(|| serde_json::to_value(c).and_then(serde_json::from_value::<D>), |d| { eq = same(d) as i64; d.see() });
    outs.push((r, eq));
    record(o, C::KIND, "round", Res::Ok(c.see()), outs);
}

// ------------------------------------------------------------ cases
fn word(k: i64) -> String { if k == 0 { String::new() } else { format!("w{k:03}") } }
fn rounds(o: &mut Out, ks: &[i64], r: &mut Rng) {
    let d = r.below(3) as u8;
    let val = |k: i64| (k % 5) as u8;
    let s: VecSet<[u8; 4]> = ks.iter().map(|k| *k as u8).collect();
    back::<_, VecSet<[u8; 4]>>(o, &s, |x| *x == s);
    back::<_, VecSet<[u8; 0]>>(o, &s, |x| x.as_ref() == s.as_ref());
    let s: VecSet<[String; 1]> = ks.iter().map(|k| word(*k)).collect();
    back::<_, VecSet<[String; 8]>>(o, &s, |x| x.as_ref() == s.as_ref());
    let s: VecSet<[VecSet<[u16; 2]>; 2]> = ks.iter().map(|k| (0..k % 4).map(|i| (k / 4 + i) as u16).collect()).collect();
    back::<_, VecSet<[VecSet<[u16; 2]>; 2]>>(o, &s, |x| *x == s);
    let m: VecMap<[(u8, u8); 2]> = ks.iter().map(|k| (*k as u8, val(*k))).collect();
    back::<_, VecMap<[(u8, u8); 2]>>(o, &m, |x| *x == m);
    back::<_, VecMap<[(u8, u8); 9]>>(o, &m, |x| x.as_ref() == m.as_ref());
    let m: VecMap<[(String, VecSet<[u8; 2]>); 2]> = ks.iter().map(|k| (word(*k), (0..k % 4).map(|x| x as u8).collect())).collect();
    back::<_, VecMap<[(String, VecSet<[u8; 2]>); 2]>>(o, &m, |x| *x == m);
    let t = TotalVecSet::<[u8; 4]>::from(ks.iter().map(|k| *k as u8).collect::<VecSet<[u8; 4]>>());
    let t = if r.chance(1, 2) { !t } else { t };
    back::<_, TotalVecSet<[u8; 4]>>(o, &t, |x| *x == t);
    let m: VecMap<[(u8, u8); 2]> = ks.iter().map(|k| (*k as u8, val(*k))).collect();
    let t = TotalVecMap::<u8, [(u8, u8); 2]>::new(m, d);
    back::<_, TotalVecMap<u8, [(u8, u8); 2]>>(o, &t, |x| *x == t);
}
/// thousands of elements, more than anybody trusts an announcement for
fn many(o: &mut Out, r: &mut Rng, n: usize) {
    let step = r.range(1, 3) as u32;
    let ks: Vec<u32> = (0..n as u32).map(|i| i * step + 5).collect();
    let d = r.below(3) as u16;
    let val = |k: u32| (k % 7) as u16;
    let s: VecSet<[u32; 4]> = ks.iter().copied().collect();
    back::<_, VecSet<[u32; 2]>>(o, &s, |x| x.as_ref() == s.as_ref());
    let t = if r.chance(1, 2) { TotalVecSet::from(s.clone()) } else { !TotalVecSet::from(s.clone()) };
    back::<_, TotalVecSet<[u32; 4]>>(o, &t, |x| *x == t);
    let m: VecMap<[(u32, u16); 4]> = ks.iter().map(|k| (*k, val(*k))).collect();
    back::<_, VecMap<[(u32, u16); 8]>>(o, &m, |x| x.as_ref() == m.as_ref());
    let t = TotalVecMap::<u16, [(u32, u16); 4]>::new(m, d);
    back::<_, TotalVecMap<u16, [(u32, u16); 4]>>(o, &t, |x| *x == t);
    // in any order, with repetitions
    let mut ks = ks;
    for _ in 0..n / 4 { let k = *r.pick(&ks); ks.push(k) }
    r.shuffle(&mut ks);
    let ks: Vec<i64> = ks.iter().map(|k| *k as i64).collect();
    let vs: Vec<i64> = ks.iter().map(|_| r.below(4) as i64).collect();
    let ind = r.chance(1, 2);
    let x = doc(&ks, &vs, d as i64, ks.len() as u64, false, ind);
    for (f, seq, map, tset, tmap) in [
        (Fmt::Json, x.seq_json.as_bytes(), x.map_json.as_bytes(), x.tset_json.as_bytes(), x.tmap_json.as_bytes()),
        (Fmt::Cbor, &x.seq[..], &x.map[..], &x.tset[..], &x.tmap[..]),
    ] {
        read!(o, "many", f, seq, VecSet<[u32; 4]>, VecSet<[u32; 0]>);
        read!(o, "many", f, map, VecMap<[(u32, u16); 2]>);
        read!(o, "many", f, tset, TotalVecSet<[u32; 4]>);
        read!(o, "many", f, tmap, TotalVecMap<u16, [(u32, u16); 2]>);
    }
}
/// cbor heads
fn head(major: u8, n: u64, wide: bool) -> Vec<u8> {
    let m = major << 5;
    if wide { let mut v = vec![m | 27]; v.extend(n.to_be_bytes()); v }
    else if n < 24 { vec![m | n as u8] } else if n < 256 { vec![m | 24, n as u8] }
    else if n < 65536 { let mut v = vec![m | 25]; v.extend((n as u16).to_be_bytes()); v }
    else { let mut v = vec![m | 26]; v.extend((n as u32).to_be_bytes()); v }
}
struct Doc { seq_json: String, map_json: String, tset_json: String, tmap_json: String, seq: Vec<u8>, map: Vec<u8>, tset: Vec<u8>, tmap: Vec<u8> }
fn doc(ks: &[i64], vs: &[i64], flag: i64, announced: u64, wide: bool, indefinite: bool) -> Doc {
    let seq_json = format!("[{}]", ks.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
    let map_json = format!("{{{}}}", ks.iter().zip(vs).map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let body = |major: u8, items: Vec<u8>| { if indefinite { let mut b = vec![major << 5 | 31]; b.extend(items); b.push(0xff); b } else { let mut b = head(major, announced, wide); b.extend(items); b } };
    let seq = body(4, ks.iter().flat_map(|k| head(0, *k as u64, false)).collect());
    let map = body(5, ks.iter().zip(vs).flat_map(|(k, v)| { let mut b = head(0, *k as u64, false); b.extend(head(0, *v as u64, false)); b }).collect());
    let mut tset = vec![0x82]; tset.extend(&seq); tset.push(if flag % 2 == 1 { 0xf5 } else { 0xf4 });
    let mut tmap = vec![0x82]; tmap.extend(&map); tmap.extend(head(0, flag as u64, false));
    Doc {
        tset_json: format!("[{},{}]", seq_json, flag % 2 == 1), tmap_json: format!("[{},{}]", map_json, flag),
        seq_json, map_json, seq, map, tset, tmap,
    }
}
fn both(o: &mut Out, t: &str, d: &Doc) {
    for (f, seq, map, tset, tmap) in [
        (Fmt::Json, d.seq_json.as_bytes(), d.map_json.as_bytes(), d.tset_json.as_bytes(), d.tmap_json.as_bytes()),
        (Fmt::Cbor, &d.seq[..], &d.map[..], &d.tset[..], &d.tmap[..]),
    ] { docs(o, t, f, seq, map, tset, tmap) }
}
fn docs(o: &mut Out, t: &str, f: Fmt, seq: &[u8], map: &[u8], tset: &[u8], tmap: &[u8]) {
    set_from(o, t, f, seq);
    map_from(o, t, f, map);
    tset_from(o, t, f, tset);
    tmap_from(o, t, f, tmap);
}
fn set_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, VecSet<[u8; 4]>, VecSet<[u8; 0]>, VecSet<[u8; 32]>) }
fn wide_set_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, VecSet<[[u64; 16]; 1]>, VecSet<[[u64; 16]; 8]>) }
fn map_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, VecMap<[(u8, i16); 2]>, VecMap<[(u8, i16); 16]>) }
fn tset_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, TotalVecSet<[u8; 4]>, TotalVecSet<[u8; 1]>) }
fn tmap_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, TotalVecMap<i16, [(u8, i16); 2]>, TotalVecMap<i16, [(u8, i16); 8]>) }
fn str_set_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, VecSet<[String; 2]>, VecSet<[String; 5]>) }
fn str_map_from(o: &mut Out, t: &str, f: Fmt, b: &[u8]) { read!(o, t, f, b, VecMap<[(String, Option<bool>); 2]>, VecMap<[(String, Option<bool>); 5]>) }
fn any(o: &mut Out, t: &str, f: Fmt, b: &[u8]) {
    docs(o, t, f, b, b, b, b);
    str_set_from(o, t, f, b);
    str_map_from(o, t, f, b);
    wide_set_from(o, t, f, b);
}

/// iterators that lie about their length
struct Liar(std::vec::IntoIter<u8>, usize);
impl Iterator for Liar { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { (self.1, Some(self.1)) } }
struct PairLiar(std::vec::IntoIter<(u8, i16)>, usize);
impl Iterator for PairLiar { type Item = (u8, i16); fn next(&mut self) -> Option<(u8, i16)> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { (self.1, Some(self.1)) } }
fn liars(o: &mut Out, ks: &[i64], hint: usize) {
    let k: Vec<u8> = ks.iter().map(|k| *k as u8).collect();
    let p: Vec<(u8, i16)> = k.iter().enumerate().map(|(i, k)| (*k, i as i16)).collect();
    o.begin(&format!("liar {hint} {k:?}"));
    type E = value::Error;
    let outs = vec![
        (outcome(|| VecSet::<[u8; 4]>::deserialize(value::SeqDeserializer::<_, E>::new(Liar(k.clone().into_iter(), hint))), |c| c.see()), 1),
        (outcome(|| VecSet::<[u8; 0]>::deserialize(value::SeqDeserializer::<_, E>::new(Liar(k.clone().into_iter(), hint))), |c| c.see()), 1),
    ];
    record(o, "set", "liar", Res::Ok(Seen { es: els(k.clone()), d: None, neg: false }), outs);
    let outs = vec![
        (outcome(|| VecMap::<[(u8, i16); 4]>::deserialize(value::MapDeserializer::<_, E>::new(PairLiar(p.clone().into_iter(), hint))), |c| c.see()), 1),
    ];
    record(o, "map", "liar", Res::Ok(Seen { es: p, d: None, neg: false }), outs);
}

fn main() {
    let a = args();
    let mut o = Out::new(&a, "serde");
    let mut r = Rng::new(a.seed, 21_000_000);
    let x = if a.thorough { 12 } else { 1 };
    for s in subsets(if a.thorough { 8 } else { 6 }) { rounds(&mut o, &s, &mut r) }
    for _ in 0..120 * x {
        let n = *r.pick(&[1, 3, 8, 16, 17, 33, 80, 200]);
        let ks = random_keys(&mut r, n, 250);
        rounds(&mut o, &ks, &mut r);
    }
    for n in [900, 2000, 4000, 4200, 5000] { many(&mut o, &mut r, n) }
    for _ in 1..x { let n = r.range(300, 9000); many(&mut o, &mut r, n) }
    // well-formed data in any order, honestly announced or of indefinite length
    for c in 0..700 * x {
        let mut ks = sequence(&mut r, [3, 10, 40, 250][c % 4]);
        ks.truncate(if c % 5 == 0 { 200 } else { 40 });
        if c < 40 { ks = (0..c % 4).map(|i| ((c / 4) >> i & 1) as i64).collect() }
        let vs: Vec<i64> = ks.iter().map(|_| r.below(4) as i64).collect();
        let ind = r.chance(1, 3);
        let wide = r.chance(1, 4);
        let d = doc(&ks, &vs, r.below(4) as i64, ks.len() as u64, wide, ind);
        both(&mut o, "data", &d);
        let words: Vec<String> = ks.iter().map(|k| word(*k)).collect();
        str_set_from(&mut o, "data", Fmt::Json, serde_json::to_string(&words).unwrap().as_bytes());
        str_set_from(&mut o, "data", Fmt::Cbor, &serde_cbor::to_vec(&words).unwrap());
        let m = format!("{{{}}}", words.iter().zip(&vs).map(|(k, v)| format!("\"{k}\":{}", ["null", "true", "false", " true "][*v as usize])).collect::<Vec<_>>().join(" , "));
        str_map_from(&mut o, "data", Fmt::Json, m.as_bytes());
        let h = *r.pick(&[0usize, 1, ks.len(), ks.len() + 1, 4095, 4096, 4097, 100_000, 1 << 31, 1 << 40, usize::MAX / 64, usize::MAX / 2, usize::MAX]);
        liars(&mut o, &ks, h);
    }
    // absurd announcements
    for n in [1u64, 2, 100, 5000, 65_535, 1 << 24, 1 << 30, 1 << 32, 1 << 40, 1 << 58, 1 << 60, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX] {
        for len in 0..4i64 {
            for wide in [false, true] {
                if !wide && n >= 1 << 32 { continue }
                let ks: Vec<i64> = (0..len).map(|i| 9 - i).collect();
                let d = doc(&ks, &ks, 1, n, wide, false);
                both(&mut o, "absurd", &d);
                wide_set_from(&mut o, "absurd", Fmt::Cbor, &d.seq);
                str_set_from(&mut o, "absurd", Fmt::Cbor, &d.seq);
                str_map_from(&mut o, "absurd", Fmt::Cbor, &d.map);
            }
        }
    }
    // truncated, altered, mistyped, random
    let types = ["null", "true", "1", "-1", "1.5", "\"x\"", "[]", "{}", "[1]", "{\"1\":1}", "[[1,2],true]", "[[1,2]]", "[[1],true,1]", "[{\"1\":2},3]", "[{\"1\":2}]", "{\"1\":null}", "[1,null]", "[300]", "[-1]", "[1,\"2\"]", "[1 2]", "[1,]", "{\"300\":1}", "{\"x\":1}", "{\"1\":1,}", "[[1,1]]", "", " ", "nul", "[1]]", "{\"1\":1,\"1\":2}", "[\"a\",\"a\"]", "[[3,1],0]", "[[3,1],null]", "[{\"3\":1,\"2\":0},0]"];
    for t in types {
        any(&mut o, "typed", Fmt::Json, t.as_bytes());
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(t) { any(&mut o, "typed", Fmt::Cbor, &serde_cbor::to_vec(&v).unwrap()) }
    }
    for c in 0..60 * x {
        let n = r.range(0, 7);
        let ks = random_keys(&mut r, n, 250);
        let d = doc(&ks, &ks, (c % 3) as i64, ks.len() as u64, c % 5 == 0, c % 4 == 0);
        for (f, b) in [(Fmt::Json, d.seq_json.as_bytes()), (Fmt::Json, d.map_json.as_bytes()), (Fmt::Json, d.tmap_json.as_bytes()), (Fmt::Cbor, &d.seq[..]), (Fmt::Cbor, &d.map[..]), (Fmt::Cbor, &d.tset[..]), (Fmt::Cbor, &d.tmap[..])] {
            let cut = r.below(b.len() + 1);
            docs(&mut o, "cut", f, &b[..cut], &b[..cut], &b[..cut], &b[..cut]);
            let mut m = b.to_vec();
            for _ in 0..r.range(1, 3) {
                if m.is_empty() { break }
                let i = r.below(m.len());
                match r.below(4) {
                    0 => m[i] ^= 1 << r.below(8),
                    1 => m[i] = r.below(256) as u8,
                    2 => { m.remove(i); }
                    _ => m.insert(i, *r.pick(b"[]{},:\"019truenl \x9b\xbf\xff\x00\x80\xa0\x18\x1b")),
                }
            }
            docs(&mut o, "altered", f, &m, &m, &m, &m);
        }
        let n = r.range(0, 24);
        let m: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        any(&mut o, "random", if c % 4 == 0 { Fmt::Json } else { Fmt::Cbor }, &m);
    }
    o.finish();
}
