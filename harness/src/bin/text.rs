//! What the Debug output of collections says (C31): the numbers in it, in order, and whether it is marked as a complement.
use smallvec::Array;
use std::{collections::BTreeMap, fmt::Debug};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, VecMap, VecSet};
use vh::{gen::*, *};

#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct>, n: u64 }
impl Rec { fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.n += 1; self.m.entry(k).or_default().add(v, from) } }

/// 1 if marked as a complement, then all numbers
fn said(text: &str) -> Vec<i64> {
    let mut res = vec![text.trim_start().starts_with('!') as i64];
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        if b[i] == b'-' { i += 1 }
        let d = i;
        while i < b.len() && b[i].is_ascii_digit() { i += 1 }
        if i > d { res.push(text[s..i].parse().unwrap()) } else { i = s + 1 }
    }
    res
}
fn show<T: Debug>(rec: &mut Rec, x: &T, from: &str) {
    for (how, f) in [("{:?}", (|x| format!("{x:?}")) as fn(&T) -> String), ("{:#?}", |x| format!("{x:#?}")),
        // flags are for the elements, if for anybody
        ("{:7?}", |x| format!("{x:7?}")), ("{:<3?}", |x| format!("{x:<3?}")), ("{:08?}", |x| format!("{x:08?}")), ("{:+?}", |x| format!("{x:+?}")),
        ("{:.0?}", |x| format!("{x:.0?}")), ("{:.2?}", |x| format!("{x:.2?}")), ("{:#12.5?}", |x| format!("{x:#12.5?}")), ("to a broken writer first", |x| {
        // a writer that fails half way must not make Debug panic, nor later output differ
        struct Half(usize);
        impl std::fmt::Write for Half { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { Err(std::fmt::Error) } else { self.0 -= s.len(); Ok(()) } } }
        let _ = std::fmt::write(&mut Half(3), format_args!("{x:?}"));
        format!("{x:?}")
    })] {
        rec.add("n", guard(|| said(&f(x))).unwrap_or(vec![9]), &format!("{from} {how}"));
    }
}
trait El: Ord + Clone + Debug + 'static { fn of(k: i64) -> Self; const N: &'static str; }
impl El for i64 { fn of(k: i64) -> i64 { k } const N: &'static str = "i64"; }
impl El for String { fn of(k: i64) -> String { // lexicographic order is that of the numbers
    if k < 0 { panic!() } format!("{:05}", k) } const N: &'static str = "String"; }
impl El for Box<i32> { fn of(k: i64) -> Self { Box::new(k as i32) } const N: &'static str = "Box"; }
impl El for VecSet<[i64; 1]> { fn of(k: i64) -> Self { Some(k).into_iter().collect() } const N: &'static str = "VecSet"; }

fn sets<T: El, A: Array<Item = T>>(rec: &mut Rec, ks: &[i64], neg: Option<bool>) {
    let from = format!("{}x{}", T::N, A::size());
    let s: VecSet<A> = ks.iter().rev().map(|k| T::of(*k)).collect();
    match neg { None => show(rec, &s, &from), Some(n) => { let t = TotalVecSet::from(s); show(rec, &if n { !t } else { t }, &from) } }
}
fn maps<T: El, U: El, A: Array<Item = (T, U)>>(rec: &mut Rec, ps: &[(i64, i64)], d: Option<i64>) {
    let from = format!("{}/{}x{}", T::N, U::N, A::size());
    let s: VecMap<A> = ps.iter().rev().map(|(k, v)| (T::of(*k), U::of(*v))).collect();
    match d { None => show(rec, &s, &from), Some(d) => show(rec, &TotalVecMap::new(s, U::of(d)), &from) }
}
fn save(o: &mut Out, note: &mut String, mut l: Obj, rec: &Rec) {
    o.evals += rec.n;
    for (k, d) in &rec.m {
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn main() {
    let a = args();
    let mut o = Out::new(&a, "text");
    let mut note = String::new();
    let n = if a.thorough { 20000 } else { 1500 };
    for i in 0..n {
        let mut r = Rng::new(a.seed, 310_000 + i);
        let max = [4, 10, 40, 400, 9000][r.below(5)];
        let (mut ks, _) = key_pair(&mut r, max);
        ks.truncate(60);
        if i % 30 == 11 { // large ones
            let p = r.range(1, 9);
            ks = (0..[130, 300, 700, 1500][r.below(4)]).filter(|_| r.chance(p, 10)).collect();
        }
        let low = if r.chance(1, 3) { max as i64 / 2 } else { 0 };
        let ks: Vec<i64> = ks.iter().map(|k| k - low).collect();
        let natural = low == 0;
        for neg in [None, Some(false), Some(true)] {
            let head = Obj::new().f("t", "set").f("a", &ks).f("neg", (neg == Some(true)) as i64);
            o.begin(&head.clone().end());
            let mut rec = Rec::default();
            sets::<i64, [i64; 2]>(&mut rec, &ks, neg);
            sets::<Box<i32>, [Box<i32>; 8]>(&mut rec, &ks, neg);
            sets::<VecSet<[i64; 1]>, [VecSet<[i64; 1]>; 0]>(&mut rec, &ks, neg);
            if natural { sets::<String, [String; 4]>(&mut rec, &ks, neg) }
            save(&mut o, &mut note, head, &rec);
            o.stat("sets", 1);
        }
        let ps: Vec<(i64, i64)> = ks.iter().map(|k| (*k, r.below(4) as i64)).collect();
        for d in [None, Some(r.below(5) as i64)] {
            // entries equal to the default are not stored by every constructor: keep to others
            let qs: Vec<(i64, i64)> = ps.iter().copied().filter(|p| Some(p.1) != d).collect();
            let head = Obj::new().f("t", "map").f("a", &qs).f("d", d.iter().copied().collect::<Vec<i64>>()).f("neg", 0);
            o.begin(&head.clone().end());
            let mut rec = Rec::default();
            maps::<i64, i64, [(i64, i64); 2]>(&mut rec, &qs, d);
            maps::<Box<i32>, String, [(Box<i32>, String); 0]>(&mut rec, &qs, d);
            if natural { maps::<String, i64, [(String, i64); 8]>(&mut rec, &qs, d) }
            save(&mut o, &mut note, head, &rec);
            o.stat("maps", 1);
        }
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}
