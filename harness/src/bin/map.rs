//! Vector maps: histories (C06) and joins of pairs (C07).
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::{AbstractVecMap, VecMap, VecSet};
use vh::{arch::Arch, callbacks::*, elem::*, gen::*, hist::*, worlds::*, *};

const MODES: usize = 5;
fn build<K: Elem, V: Val, A: Array<Item = (K, V)>>(ps: &[(i64, i64)], mode: usize) -> VecMap<A> {
    let v = mkp::<K, V>(ps);
    match mode {
        0 => v.into_iter().collect(),
        1 => v.into_iter().collect::<BTreeMap<_, _>>().into(),
        2 => { let mut m = VecMap::<A>::default(); for (k, v) in v.into_iter().rev() { m.insert(k, v); } m }
        3 => { // grown, then cut down
            let mut m = VecMap::<A>::empty();
            for i in 0..20 { m.insert(mk(200 + i), V::mv(1)); }
            for (k, v) in v { m.insert(k, v); }
            let keep: BTreeSet<i64> = ps.iter().map(|p| p.0).collect();
            m.retain(|(k, _)| keep.contains(&kk(k)));
            m
        }
        _ => { let mut m = VecMap::<A>::empty(); m.extend(v); m }
    }
}

// ------------------------------------------------------------ histories
fn worlds() -> Vec<Box<dyn World>> {
    vec![
        MapWorld::<Tk, i64, [(Tk, i64); 2]>::new(), MapWorld::<i64, i64, [(i64, i64); 0]>::new(), MapWorld::<i64, i64, [(i64, i64); 16]>::new(),
        MapWorld::<String, Box<i64>, [(String, Box<i64>); 1]>::new(), MapWorld::<Bx, String, [(Bx, String); 4]>::new(),
        MapWorld::<Big, u8, [(Big, u8); 3]>::new(), MapWorld::<i64, i64, [(i64, i64); 1]>::new(), MapWorld::<u8, u8, [(u8, u8); 8]>::new(),
    ]
}
fn history(a: &Args) {
    let mut o = Out::new(a, "history");
    let mut ws = worlds();
    let mut notes = Notes::default();
    for ops in scripts(a) {
        let mut u: Vec<_> = ws.iter_mut().collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
        o.stat("spec_behaviours", 1);
    }
    let n = if a.thorough { 12000 } else { 1200 };
    for h in 0..n {
        let mut r = Rng::new(a.seed, 2000 + h);
        // some with more elements than a byte counts, in every map from the start
        let vast = h % 40 == 17;
        let universe = if h % 100 == 41 { 300 } else if vast { r.range(VAST, 2000) } else { [3, 5, 8, 12, 20, 40, 120, 250, 600][r.below(9)] };
        let len = if vast { r.range(8, 16) } else { r.range(10, 60) };
        let mut ops: Vec<Op> = (0..len).map(|_| map_op(&mut r, universe)).collect();
        if vast {
            for i in 1..=3 {
                let ps = (0..r.range(300, 700)).map(|_| (r.below(universe) as i64, r.below(89) as i64)).collect();
                ops.insert(0, Op { o: ["collect", "frombtree"][r.below(2)].into(), i, ps, ..Default::default() });
            }
            o.stat("vast_histories", 1);
        }
        if vast || h % 40 == 29 { // one change after the other next to what is there, mostly near the ends
            let n = if vast { r.range(257, 600) } else { r.range(12, 256.min(universe * 2 / 3 + 12)) };
            let mut ks: Vec<i64> = (0..n).map(|_| r.below(universe) as i64).collect();
            ks.sort();
            ks.dedup();
            let i = r.range(1, 3);
            let mut near = vec![Op { o: "collect".into(), i, ps: ks.iter().map(|k| (*k, r.below(89) as i64)).collect(), ..Default::default() }];
            for _ in 0..30 {
                let k = beside(&mut r, &ks, universe as i64 - 1);
                let o = if r.chance(2, 3) { "insert" } else { "mutate" };
                if o == "insert" { if let Err(j) = ks.binary_search(&k) { ks.insert(j, k) } }
                near.push(Op { o: o.into(), i, ps: vec![(k, r.below(89) as i64)], ..Default::default() });
            }
            near.append(&mut ops);
            ops = near;
            o.stat("edge_histories", 1);
        }
        if h % 100 == 41 { // grows over and shrinks below 256 elements one by one
            let mut ks: Vec<i64> = (0..300).collect();
            r.shuffle(&mut ks);
            let (n, m) = (r.range(240, 255), r.range(3, 20));
            let one = |k: i64, o: &str, r: &mut Rng| Op { o: o.into(), i: 1, ps: vec![(k, r.below(89) as i64)], ..Default::default() };
            let first = ks[..n].iter().map(|k| (*k, r.below(89) as i64)).collect();
            ops = vec![Op { o: "collect".into(), i: 1, ps: first, ..Default::default() }];
            for k in &ks[n..n + m] { ops.push(one(*k, "insert", &mut r)) }
            r.shuffle(&mut ks[..n + m]);
            for k in &ks[..m + 2] { ops.push(one(*k, "mutate", &mut r)) }
            o.stat("grown_histories", 1);
        }
        let mut u: Vec<_> = ws.iter_mut().filter(|w| !(w.name().starts_with("u8") && universe > 256)).collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ joins of pairs
#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct> }
impl Rec {
    fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.m.entry(k).or_default().add(v, from) }
    fn join(&mut self, k: &'static str, from: &str, f: impl FnOnce(&Calls) -> Pairs) {
        let c = Calls::default();
        let r = gp(|| f(&c));
        self.add(k, (c.sorted(), r), from);
    }
}
/// producing joins of anything map-like, into capacity and value type of C
fn producing<K: Elem, V: Val, Q: Val, R: Val, C: Array<Item = (K, R)>>(rec: &mut Rec, x: &impl AbstractVecMap<K, V>, y: &impl AbstractVecMap<K, Q>, m: i64, from: &str) {
    rec.join("oj", from, |c| pairs(x.outer_join::<Q, R, _, C>(y, |a| outer_ref(c, m, a).map(R::mv)).as_ref()));
    rec.join("lj", from, |c| pairs(x.left_join::<Q, R, _, C>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(R::mv)).as_ref()));
    rec.join("rj", from, |c| pairs(x.right_join::<Q, R, _, C>(y, |k, v, w| c.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(R::mv)).as_ref()));
    rec.join("ij", from, |c| pairs(x.inner_join::<Q, R, _, C>(y, |k, v, w| c.join(m, kk(k), Some(v.v()), Some(w.v())).map(R::mv)).as_ref()));
    rec.add("ao", pairs(x.as_slice()), from);
    rec.add("bo", pairs(y.as_slice()), from);
}
fn in_place<K: Elem, V: Val, Q: Val, A: Array<Item = (K, V)>>(rec: &mut Rec, a: &[(i64, i64)], mode: usize, y: &impl AbstractVecMap<K, Q>, m: i64, from: &str) {
    rec.join("oj", from, |c| { let mut z: VecMap<A> = build(a, mode); z.outer_join_with(y, |a| outer_own(c, m, a).map(V::mv)); pairs(z.as_ref()) });
    rec.join("lj", from, |c| { let mut z: VecMap<A> = build(a, mode); z.left_join_with(y, |k, v, w| c.join(m, kk(k), Some(v.v()), w.map(|w| w.v())).map(V::mv)); pairs(z.as_ref()) });
    rec.join("rj", from, |c| { let mut z: VecMap<A> = build(a, mode); z.right_join_with(y, |k, v, w| c.join(m, kk(k), v.map(|v| v.v()), Some(w.v())).map(V::mv)); pairs(z.as_ref()) });
    rec.join("ij", from, |c| { let mut z: VecMap<A> = build(a, mode); z.inner_join_with(y, |k, v, w| c.join(m, kk(k), Some(v.v()), Some(w.v())).map(V::mv)); pairs(z.as_ref()) });
    rec.add("bo", pairs(y.as_slice()), from);
}
fn one_pair<K: Elem>(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], m: i64, (ma, mb): (usize, usize), rich: bool)
where K: rkyv::Archive<Archived = K> + rkyv::Serialize<vh::arch::Ser> {
    let n = K::NAME;
    let av: Arch<VecMap<[(K, i64); 2]>> = Arch::new(&build(a, 0));
    let bv: Arch<VecMap<[(K, i64); 4]>> = Arch::new(&build(b, 0));
    let (aa, ba) = (av.get(), bv.get());
    let xs: VecMap<[(K, i64); 2]> = build(a, ma);
    let ys: VecMap<[(K, u8); 8]> = build(b, mb);
    producing::<K, i64, u8, i64, [(K, i64); 1]>(rec, &xs, &ys, m, &format!("{n} [2]/[8] -> [1]"));
    producing::<K, i64, i64, String, [(K, String); 4]>(rec, &xs, ba, m, &format!("{n} set/archived -> string"));
    producing::<K, i64, u8, u8, [(K, u8); 16]>(rec, aa, &ys, m, &format!("{n} archived/set"));
    if a == b {
        producing::<K, i64, i64, i64, [(K, i64); 1]>(rec, &xs, &xs, m, &format!("{n} itself"));
        producing::<K, i64, i64, u8, [(K, u8); 8]>(rec, aa, aa, m, &format!("{n} archived, itself"));
    }
    if rich {
        producing::<K, i64, i64, i64, [(K, i64); 0]>(rec, aa, ba, m, &format!("{n} archived/archived"));
        in_place::<K, i64, u8, [(K, i64); 16]>(rec, a, mb, &ys, m, &format!("{n} in place [16]"));
        in_place::<K, i64, i64, [(K, i64); 0]>(rec, a, ma, ba, m, &format!("{n} in place [0] archived"));
    }
    in_place::<K, i64, u8, [(K, i64); 2]>(rec, a, ma, &ys, m, &format!("{n} in place [2]"));
    in_place::<K, i64, i64, [(K, i64); 4]>(rec, a, ma, ba, m, &format!("{n} in place [4] archived"));
}
fn one_pair_heap(rec: &mut Rec, a: &[(i64, i64)], b: &[(i64, i64)], m: i64, (ma, mb): (usize, usize)) {
    let xs: VecMap<[(Bx, String); 1]> = build(a, ma);
    let ys: VecMap<[(Bx, Box<i64>); 3]> = build(b, mb);
    producing::<Bx, String, Box<i64>, Box<i64>, [(Bx, Box<i64>); 4]>(rec, &xs, &ys, m, "box");
    in_place::<Bx, String, Box<i64>, [(Bx, String); 4]>(rec, a, ma, &ys, m, "box in place");
}
fn pair_case(o: &mut Out, note: &mut String, a: &[(i64, i64)], b: &[(i64, i64)], m: i64, modes: (usize, usize), rich: bool) {
    let head = Obj::new().f("a", a).f("b", b).f("m", m);
    o.begin(&head.clone().f("modes", modes).end());
    let mut rec = Rec::default();
    one_pair::<Tk>(&mut rec, a, b, m, modes, rich);
    if rich { one_pair_heap(&mut rec, a, b, m, modes); one_pair::<i64>(&mut rec, a, b, m, (modes.1, modes.0), false) }
    let mut l = head;
    for (k, d) in &rec.m {
        o.evals += d.n;
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn joins(a: &Args) {
    let mut o = Out::new(a, "joins");
    let mut note = String::new();
    let mask = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => 4095, 2 => 0xF << (4 * r.below(3)), 3 => 4095 ^ (0xF << (4 * r.below(3))), _ => r.below(4096) as i64 };
    let n = if a.thorough { 6 } else { 4 };
    let subs = subsets(n);
    for (p, x) in subs.iter().enumerate() {
        for (q, y) in subs.iter().enumerate() {
            for c in 0..3 {
                let mut r = Rng::new(a.seed, (p * 1000 + q * 3 + c) as u64);
                let vals = |r: &mut Rng, ks: &[i64]| ks.iter().map(|k| (*k, r.below(89) as i64)).collect::<Pairs>();
                let (va, mut vb) = (vals(&mut r, x), vals(&mut r, y));
                if p == q && c == 0 { vb = va.clone() }
                let m = mask(&mut r);
                pair_case(&mut o, &mut note, &va, &vb, m, (r.below(MODES), r.below(MODES)), c == 0);
                o.stat("exhaustive_pairs", 1);
            }
        }
    }
    let n = if a.thorough { 40000 } else { 6000 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 99_000 + c);
        let vast = c % 40 == 33;
        let max = if vast { 1200 } else { [10, 30, 100, 400, 4000][r.below(5)] };
        let (x, y) = if vast { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let va: Pairs = x.iter().map(|k| (*k, r.below(89) as i64)).collect();
        let mut vb: Pairs = y.iter().map(|k| (*k, r.below(89) as i64)).collect();
        if r.chance(1, 12) { vb = va.clone() }
        let m = mask(&mut r);
        pair_case(&mut o, &mut note, &va, &vb, m, (r.below(MODES), r.below(MODES)), c % 2 == 0);
        o.stat("random_pairs", 1);
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    let _: Option<VecSet<[(i64, i64); 1]>> = None;
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "history" => history(&a),
        "joins" => joins(&a),
        w => panic!("unknown {w}"),
    }
}
