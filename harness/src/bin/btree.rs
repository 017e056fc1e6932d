//! Ordered maps of the standard library: joins and lookups through the common interface (C26).
use std::collections::BTreeMap;
use vec_collections::{btree_map::{AbstractBTreeMap, InPlaceRelationalOps}, OuterJoinArg};
use vh::{arch::Arch, callbacks::*, elem::*, gen::*, *};

type Pairs = Vec<(i64, i64)>;
fn kk<K: Elem>(k: &K) -> i64 { key(k.code()) }
fn mk<K: Elem>(k: i64) -> K { K::mk(mkc(k, 0)) }
fn gp(f: impl FnOnce() -> Pairs) -> Pairs { guard(f).unwrap_or_else(|_| vec![(-1, -1)]) }
fn map<K: Elem, V: Val>(ps: &[(i64, i64)]) -> BTreeMap<K, V> { ps.iter().map(|(k, v)| (mk(*k), V::mv(*v))).collect() }
fn listed<K: Elem, V: Val>(m: &impl AbstractBTreeMap<K, V>) -> Pairs { m.iter().map(|(k, v)| (kk(k), v.v())).collect() }
fn of<K: Elem, V: Val>(m: &BTreeMap<K, V>) -> Pairs { m.iter().map(|(k, v)| (kk(k), v.v())).collect() }

#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct> }
impl Rec {
    fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.m.entry(k).or_default().add(v, from) }
    fn join(&mut self, k: &'static str, from: &str, f: impl FnOnce(&Calls) -> Pairs) {
        let c = Calls::default();
        let r = gp(|| f(&c));
        self.add(k, (c.sorted(), r), from);
    }
}
fn outer_arg<K: Elem, V: Val, W: Val>(c: &Calls, m: i64, a: OuterJoinArg<&K, &V, &W>) -> Option<i64> {
    match a {
        OuterJoinArg::Left(k, v) => c.join(m, kk(k), Some(v.v()), None),
        OuterJoinArg::Right(k, w) => c.join(m, kk(k), None, Some(w.v())),
        OuterJoinArg::Both(k, v, w) => c.join(m, kk(k), Some(v.v()), Some(w.v())),
    }
}
fn producing<K: Elem, V: Val, W: Val, R: Val>(rec: &mut Rec, x: &impl AbstractBTreeMap<K, V>, y: &impl AbstractBTreeMap<K, W>, asked: &[i64], m: i64, from: &str) {
    rec.join("oj", from, |c| of(&x.outer_join::<W, R, _>(y, |a| outer_arg(c, m, a).map(R::mv))));
    rec.join("lj", from, |c| of(&x.left_join::<W, R, _>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(R::mv))));
    rec.join("rj", from, |c| of(&x.right_join::<W, R, _>(y, |k, v, w| c.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(R::mv))));
    rec.join("ij", from, |c| of(&x.inner_join::<W, R, _, ()>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), Some(w.v())).map(R::mv))));
    rec.add("ao", gp(|| listed(x)), from);
    rec.add("bo", gp(|| listed(y)), from);
    rec.add("ga", codes(|| asked.iter().map(|k| x.get(&mk::<K>(*k)).map(|v| v.v()).unwrap_or(-1)).collect()), from);
    rec.add("gb", codes(|| asked.iter().map(|k| y.get(&mk::<K>(*k)).map(|v| v.v()).unwrap_or(-1)).collect()), from);
}
fn in_place<K: Elem, V: Val, W: Val>(rec: &mut Rec, a: &[(i64, i64)], y: &impl AbstractBTreeMap<K, W>, m: i64, from: &str) {
    let set = |v: &mut V, r: Option<i64>| match r { Some(x) => { *v = V::mv(x); true } None => false };
    rec.join("iw", from, |c| { let mut t: BTreeMap<K, V> = map(a); t.inner_join_with(y, |k, v, w| { let r = c.join(m, kk(k), Some(v.v()), Some(w.v())); set(v, r) }); of(&t) });
    rec.join("lw", from, |c| { let mut t: BTreeMap<K, V> = map(a); t.left_join_with(y, |k, v, w| { let r = c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())); set(v, r) }); of(&t) });
    rec.join("rw", from, |c| {
        let mut t: BTreeMap<K, V> = map(a);
        t.right_join_with(y, |k, v, w| { let r = c.join(m, kk(k), v.as_ref().map(|v| v.v()), Some(w.v())); match v { Some(v) => set(v, r), None => r.is_some() } });
        of(&t)
    });
    rec.join("ow", from, |c| {
        let mut t: BTreeMap<K, V> = map(a);
        t.outer_join_with(y, |k, v, w| { let r = c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())); set(v, r) }, |k, w| c.join(m, kk(k), None, Some(w.v())).map(V::mv));
        of(&t)
    });
    rec.add("bo", gp(|| listed(y)), from);
}
fn typed<K: Elem>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], asked: &[i64], m: i64, rich: bool)
where K: rkyv::Archive<Archived = K> + rkyv::Serialize<vh::arch::Ser> {
    let (x, y): (BTreeMap<K, i64>, BTreeMap<K, u8>) = (map(a), map(b));
    let (xa, ya) = (Arch::new(&x), Arch::new(&y));
    let (xr, yr) = (xa.get(), ya.get());
    let n = K::NAME;
    producing::<K, i64, u8, String>(rec, &x, &y, asked, m, &format!("{n} owned/owned"));
    producing::<K, i64, u8, i64>(rec, &x, yr, asked, m, &format!("{n} owned/archived"));
    if a == b {
        producing::<K, i64, i64, i64>(rec, &x, &x, asked, m, &format!("{n} itself"));
        producing::<K, i64, i64, u8>(rec, xr, xr, asked, m, &format!("{n} archived, itself"));
    }
    if rich {
        producing::<K, i64, u8, Box<i64>>(rec, xr, &y, asked, m, &format!("{n} archived/owned"));
        producing::<K, i64, u8, u8>(rec, xr, yr, asked, m, &format!("{n} archived/archived"));
    }
    in_place::<K, Box<i64>, u8>(rec, a, &y, m, &format!("{n} in place owned"));
    in_place::<K, String, u8>(rec, a, yr, m, &format!("{n} in place archived"));
}
fn case(o: &mut Out, note: &mut String, r: &mut Rng, a: &[(i64, i64)], b: &[(i64, i64)], m: i64, rich: bool) {
    let mut asked: Vec<i64> = (0..r.range(0, 6)).map(|_| r.below(30) as i64).collect();
    for p in a.iter().chain(b) { if r.chance(1, 3) { asked.push(p.0); asked.push(p.0 + 1) } }
    let head = Obj::new().f("a", a).f("b", b).f("m", m).f("q", &asked);
    o.begin(&head.clone().end());
    let mut rec = Rec::default();
    typed::<Tk>(&mut rec, a, b, &asked, m, rich);
    if rich { typed::<i64>(&mut rec, a, b, &asked, m, false) }
    let mut l = head;
    for (k, d) in &rec.m {
        o.evals += d.n;
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn main() {
    let a = args();
    let mut o = Out::new(&a, "joins");
    let mut note = String::new();
    let mask = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => 4095, 2 => 0xF << (4 * r.below(3)), 3 => 4095 ^ (0xF << (4 * r.below(3))), _ => r.below(4096) as i64 };
    let vals = |r: &mut Rng, ks: &[i64]| ks.iter().map(|k| (*k, r.below(89) as i64)).collect::<Pairs>();
    let subs = subsets(if a.thorough { 6 } else { 5 });
    for (p, x) in subs.iter().enumerate() {
        for (q, y) in subs.iter().enumerate() {
            let mut r = Rng::new(a.seed, (p * 1000 + q) as u64);
            let (va, mut vb) = (vals(&mut r, x), vals(&mut r, y));
            if p == q { vb = va.clone() }
            let m = mask(&mut r);
            case(&mut o, &mut note, &mut r, &va, &vb, m, q % 3 == 0);
            o.stat("exhaustive_pairs", 1);
        }
    }
    for c in 0..if a.thorough { 30000 } else { 4000 } {
        let mut r = Rng::new(a.seed, 77_000 + c);
        let vast = c % 80 == 33;
        let max = if vast { 1200 } else { [10, 30, 100, 400, 4000][r.below(5)] };
        let (x, y) = if vast { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let (va, mut vb) = (vals(&mut r, &x), vals(&mut r, &y));
        if r.chance(1, 12) { vb = va.clone() }
        let m = mask(&mut r);
        case(&mut o, &mut note, &mut r, &va, &vb, m, c % 2 == 0);
        o.stat("random_pairs", 1);
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}
