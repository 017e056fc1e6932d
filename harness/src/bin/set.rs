//! Vector sets: histories (C01), algebra and relations on pairs (C02, C03).
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::{AbstractVecSet, VecSet};
use vh::{arch::Arch, elem::*, gen::*, hist::*, worlds::{set_op, SetWorld as W, VAST}, *};

// ------------------------------------------------------------ building
/// the ways a set with given contents can come into being; they differ in where and how tightly it is stored
const MODES: usize = 5;
fn build<A: Array>(codes: &[i64], mode: usize) -> VecSet<A> where A::Item: Elem {
    let v: Vec<A::Item> = mks(codes);
    match mode {
        0 => v.into_iter().collect(),
        1 => { let mut v = v; v.shrink_to_fit(); VecSet::from(v) }
        2 => { let mut w = Vec::with_capacity(v.len() + 40); w.extend(v); VecSet::from(w) }
        3 => { let mut s = VecSet::empty(); for x in v.into_iter().rev() { s.insert(x); } s }
        _ => { // grown, then cut down
            let mut s: VecSet<A> = VecSet::empty();
            let extra: Vec<i64> = (0..20).map(|i| mkc(200 + i, 0)).collect();
            for x in mks::<A::Item>(&extra) { s.insert(x); }
            for x in v { s.insert(x); }
            let keep: BTreeSet<i64> = codes.iter().map(|c| key(*c)).collect();
            s.retain(|x| keep.contains(&key(x.code())));
            s
        }
    }
}
fn out<A: Array>(s: &VecSet<A>) -> Vec<i64> where A::Item: Elem { cds(s.as_ref()) }

// ------------------------------------------------------------ histories
fn worlds() -> Vec<Box<dyn World>> {
    vec![
        W::<[Tk; 2]>::new(), W::<[Tk; 0]>::new(), W::<[Tk; 16]>::new(),
        W::<[Bx; 3]>::new(), W::<[St; 1]>::new(), W::<[Big; 4]>::new(),
        W::<[i64; 1]>::new(), W::<[i64; 8]>::new(), W::<[String; 4]>::new(), W::<[u8; 4]>::new(),
    ]
}

fn history(a: &Args) {
    let mut o = Out::new(a, "history");
    let mut ws = worlds();
    let mut notes = Notes::default();
    let usable = |w: &Box<dyn World>, tagged: bool, universe: i64| {
        let n = w.name();
        let plain = ["i64x", "Stringx", "u8x"].iter().any(|p| n.starts_with(p));
        !(tagged && plain) && !(n.starts_with("u8x") && universe > 256)
    };
    // behaviours generated from the specification
    for ops in scripts(a) {
        let mut u: Vec<_> = ws.iter_mut().filter(|w| usable(w, true, 10)).collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
        o.stat("spec_behaviours", 1);
    }
    let n = if a.thorough { 12000 } else { 1200 };
    for h in 0..n {
        let mut r = Rng::new(a.seed, 1000 + h);
        // some with more elements than a byte counts, in every set from the start
        let vast = h % 40 == 17;
        let universe = if h % 100 == 41 { 300 } else if vast { r.range(VAST, 3000) as i64 } else { [3, 5, 8, 12, 20, 40, 120, 250, 600][r.below(9)] };
        let tagged = if vast { h % 80 == 17 } else { h % 2 == 0 };
        let tags = if tagged { 8 } else { 0 };
        let len = if vast { r.range(8, 16) } else { r.range(10, 60) };
        let mut ops: Vec<Op> = (0..len).map(|_| set_op(&mut r, universe, tags)).collect();
        if vast {
            for i in 1..=3 {
                let xs = (0..r.range(300, 900)).map(|_| mkc(r.below(universe as usize) as i64, r.below(tags.max(1) as usize) as i64)).collect();
                ops.insert(0, Op { o: ["collect", "fromvec", "frombtree"][r.below(3)].into(), i, xs, ..Default::default() });
            }
            o.stat("vast_histories", 1);
        }
        if vast || h % 40 == 29 { // one change after the other next to what is there, mostly near the ends
            let n = if vast { r.range(257, 600) } else { r.range(12, 256.min(universe as usize * 2 / 3 + 12)) };
            let mut ks: Vec<i64> = (0..n).map(|_| r.below(universe as usize) as i64).collect();
            ks.sort();
            ks.dedup();
            let t = if tags > 0 { h as i64 % tags } else { 0 };
            let i = r.range(1, 3);
            let mut near = vec![Op { o: "collect".into(), i, xs: ks.iter().map(|k| mkc(*k, t)).collect(), ..Default::default() }];
            for _ in 0..30 {
                let k = beside(&mut r, &ks, universe - 1);
                let o = if r.chance(2, 3) { "insert" } else { "remove" };
                match ks.binary_search(&k) { Ok(j) if o == "remove" => { ks.remove(j); } Err(j) if o == "insert" => ks.insert(j, k), _ => {} }
                near.push(Op { o: o.into(), i, x: mkc(k, r.below(tags.max(1) as usize) as i64), ..Default::default() });
            }
            near.append(&mut ops);
            ops = near;
            o.stat("edge_histories", 1);
        }
        if h % 100 == 41 { // grows over and shrinks below 256 elements one by one
            let mut ks: Vec<i64> = (0..300).collect();
            r.shuffle(&mut ks);
            let (n, m) = (r.range(240, 255), r.range(3, 20));
            let one = |k: i64, o: &str, r: &mut Rng| Op { o: o.into(), i: 1, x: mkc(k, r.below(tags.max(1) as usize) as i64), ..Default::default() };
            let first = ks[..n].iter().map(|k| mkc(*k, r.below(tags.max(1) as usize) as i64)).collect();
            ops = vec![Op { o: "collect".into(), i: 1, xs: first, ..Default::default() }];
            for k in &ks[n..n + m] { ops.push(one(*k, "insert", &mut r)) }
            r.shuffle(&mut ks[..n + m]);
            for k in &ks[..m + 2] { ops.push(one(*k, "remove", &mut r)) }
            o.stat("grown_histories", 1);
        }
        let mut u: Vec<_> = ws.iter_mut().filter(|w| usable(w, tagged, universe)).collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ pairs
#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct> }
impl Rec {
    fn add(&mut self, k: &'static str, v: impl ToJ, from: &str) { self.m.entry(k).or_default().add(v, from) }
    fn evals(&self) -> u64 { self.m.values().map(|d| d.n).sum() }
}
type Modes = (usize, usize);

macro_rules! form {
    ($rec:expr, $f:literal, $n:expr, $res:expr) => { $rec.add($f, codes(|| $res), $n) };
}

/// every form of the four operations on owned sets with capacities A and B
fn algebra_owned<A: Array, B: Array<Item = A::Item>>(rec: &mut Rec, a: &[i64], b: &[i64], (ma, mb): Modes, from: &str) where A::Item: Elem {
    let x: VecSet<A> = build(a, ma);
    let y: VecSet<B> = build(b, mb);
    form!(rec, "u", &format!("{from} &a|&b"), out(&(&x | &y)));
    form!(rec, "i", &format!("{from} &a&&b"), out(&(&x & &y)));
    form!(rec, "d", &format!("{from} &a-&b"), out(&(&x - &y)));
    form!(rec, "x", &format!("{from} &a^&b"), out(&(&x ^ &y)));
    // into the capacity of the other operand
    form!(rec, "u", &format!("{from} union::<B>"), out(&AbstractVecSet::union::<B>(&x, &y)));
    form!(rec, "i", &format!("{from} intersection::<B>"), out(&AbstractVecSet::intersection::<B>(&x, &y)));
    form!(rec, "d", &format!("{from} difference::<B>"), out(&AbstractVecSet::difference::<B>(&x, &y)));
    form!(rec, "x", &format!("{from} symmetric_difference::<B>"), out(&AbstractVecSet::symmetric_difference::<B>(&x, &y)));
    // in place, borrowed and owned
    form!(rec, "u", &format!("{from} a|=&b"), { let mut z: VecSet<A> = build(a, ma); z |= &y; out(&z) });
    form!(rec, "i", &format!("{from} a&=&b"), { let mut z: VecSet<A> = build(a, ma); z &= &y; out(&z) });
    form!(rec, "d", &format!("{from} a-=&b"), { let mut z: VecSet<A> = build(a, ma); z -= &y; out(&z) });
    form!(rec, "x", &format!("{from} a^=&b"), { let mut z: VecSet<A> = build(a, ma); z ^= &y; out(&z) });
    form!(rec, "u", &format!("{from} a|=b"), { let mut z: VecSet<A> = build(a, ma); z |= build::<B>(b, mb); out(&z) });
    form!(rec, "i", &format!("{from} a&=b"), { let mut z: VecSet<A> = build(a, ma); z &= build::<B>(b, mb); out(&z) });
    form!(rec, "d", &format!("{from} a-=b"), { let mut z: VecSet<A> = build(a, ma); z -= build::<B>(b, mb); out(&z) });
    form!(rec, "x", &format!("{from} a^=b"), { let mut z: VecSet<A> = build(a, ma); z ^= build::<B>(b, mb); out(&z) });
    form!(rec, "u", &format!("{from} extend"), { let mut z: VecSet<A> = build(a, ma); z.extend(mks::<A::Item>(b)); out(&z) });
    rec.add("ao", out(&x), from);
    rec.add("bo", out(&y), from);
}
/// forms that take any set-like operand
fn algebra_with<A: Array>(rec: &mut Rec, a: &[i64], b: &[i64], ma: usize, y: &impl AbstractVecSet<A::Item>, from: &str) where A::Item: Elem {
    let x: VecSet<A> = build(a, ma);
    form!(rec, "u", &format!("{from} a.union(b)"), out(&x.union(y)));
    form!(rec, "i", &format!("{from} a.intersection(b)"), out(&x.intersection(y)));
    form!(rec, "d", &format!("{from} a.difference(b)"), out(&x.difference(y)));
    form!(rec, "x", &format!("{from} a.symmetric_difference(b)"), out(&x.symmetric_difference(y)));
    form!(rec, "u", &format!("{from} union_with"), { let mut z: VecSet<A> = build(a, ma); z.union_with(y); out(&z) });
    form!(rec, "i", &format!("{from} intersection_with"), { let mut z: VecSet<A> = build(a, ma); z.intersection_with(y); out(&z) });
    form!(rec, "d", &format!("{from} difference_with"), { let mut z: VecSet<A> = build(a, ma); z.difference_with(y); out(&z) });
    form!(rec, "x", &format!("{from} xor_with"), { let mut z: VecSet<A> = build(a, ma); z.xor_with(y); out(&z) });
    let _ = b;
    rec.add("ao", out(&x), from);
    rec.add("bo", cds(y.as_slice()), from);
}
/// the trait's own operations, with any set-like receiver
fn algebra_dyn<C: Array>(rec: &mut Rec, x: &impl AbstractVecSet<C::Item>, y: &impl AbstractVecSet<C::Item>, from: &str) where C::Item: Elem {
    form!(rec, "u", &format!("{from} .union"), out(&x.union::<C>(y)));
    form!(rec, "i", &format!("{from} .intersection"), out(&x.intersection::<C>(y)));
    form!(rec, "d", &format!("{from} .difference"), out(&x.difference::<C>(y)));
    form!(rec, "x", &format!("{from} .symmetric_difference"), out(&x.symmetric_difference::<C>(y)));
    rec.add("ao", cds(x.as_slice()), from);
    rec.add("bo", cds(y.as_slice()), from);
}
fn relations<T: Elem>(rec: &mut Rec, x: &impl AbstractVecSet<T>, y: &impl AbstractVecSet<T>, from: &str) {
    rec.add("sub", truth(|| x.is_subset(y)), from);
    rec.add("sup", truth(|| x.is_superset(y)), from);
    rec.add("dis", truth(|| x.is_disjoint(y)), from);
    rec.add("ao", cds(x.as_slice()), from);
    rec.add("bo", cds(y.as_slice()), from);
}

fn one_pair<T: Elem>(rec: &mut Rec, what: &str, a: &[i64], b: &[i64], m: Modes, all_caps: bool)
where T: rkyv::Archive<Archived = T> + rkyv::Serialize<vh::arch::Ser> {
    let n = T::NAME;
    let av: Arch<VecSet<[T; 2]>> = Arch::new(&build(a, 0));
    let bv: Arch<VecSet<[T; 4]>> = Arch::new(&build(b, 0));
    let (aa, ba) = (av.get(), bv.get());
    let xs: VecSet<[T; 2]> = build(a, m.0);
    let xl: VecSet<[T; 16]> = build(a, m.0);
    let ys: VecSet<[T; 2]> = build(b, m.1);
    let yl: VecSet<[T; 8]> = build(b, m.1);
    if what == "algebra" {
        algebra_owned::<[T; 2], [T; 8]>(rec, a, b, m, &format!("{n}[2/8]"));
        algebra_owned::<[T; 16], [T; 2]>(rec, a, b, m, &format!("{n}[16/2]"));
        if all_caps { algebra_owned::<[T; 0], [T; 4]>(rec, a, b, m, &format!("{n}[0/4]")) }
        algebra_with::<[T; 2]>(rec, a, b, m.0, &yl, &format!("{n}[2] set"));
        algebra_with::<[T; 2]>(rec, a, b, m.0, ba, &format!("{n}[2] archived"));
        algebra_with::<[T; 16]>(rec, a, b, m.0, ba, &format!("{n}[16] archived"));
        algebra_dyn::<[T; 4]>(rec, aa, ba, &format!("{n} archived/archived"));
        algebra_dyn::<[T; 4]>(rec, aa, &ys, &format!("{n} archived/set"));
        algebra_dyn::<[T; 4]>(rec, &xl, ba, &format!("{n} set/archived"));
        if a == b { // with one and the same
            algebra_with::<[T; 2]>(rec, a, b, m.0, &xs, &format!("{n}[2] itself"));
            algebra_dyn::<[T; 4]>(rec, aa, aa, &format!("{n} archived/itself"));
            algebra_dyn::<[T; 4]>(rec, &xl, &xl, &format!("{n} set/itself"));
            form!(rec, "u", &format!("{n} &a|&a"), out(&(&xs | &xs)));
            form!(rec, "i", &format!("{n} &a&&a"), out(&(&xs & &xs)));
            form!(rec, "d", &format!("{n} &a-&a"), out(&(&xs - &xs)));
            form!(rec, "x", &format!("{n} &a^&a"), out(&(&xs ^ &xs)));
        }
    } else {
        if a == b {
            relations(rec, &xs, &xs, &format!("{n}[2] itself"));
            relations(rec, &xl, &xl, &format!("{n}[16] itself"));
            relations(rec, aa, aa, &format!("{n} archived itself"));
        }
        relations(rec, &xs, &yl, &format!("{n}[2/8]"));
        relations(rec, &xl, &ys, &format!("{n}[16/2]"));
        relations(rec, &xs, ba, &format!("{n}[2] archived"));
        relations(rec, aa, &yl, &format!("{n} archived/set"));
        relations(rec, aa, ba, &format!("{n} archived/archived"));
    }
}
fn one_pair_heap<T: Elem>(rec: &mut Rec, what: &str, a: &[i64], b: &[i64], m: Modes) {
    let n = T::NAME;
    if what == "algebra" {
        algebra_owned::<[T; 1], [T; 4]>(rec, a, b, m, &format!("{n}[1/4]"));
        algebra_with::<[T; 4]>(rec, a, b, m.0, &build::<[T; 1]>(b, m.1), &format!("{n}[4] set"));
    } else {
        relations(rec, &build::<[T; 1]>(a, m.0), &build::<[T; 4]>(b, m.1), &format!("{n}[1/4]"));
    }
}

fn pair_case(o: &mut Out, note: &mut String, what: &str, a: &[i64], b: &[i64], m: Modes, rich: bool) {
    let head = Obj::new().f("a", a).f("b", b);
    o.begin(&head.clone().f("modes", (m.0, m.1)).end());
    let mut rec = Rec::default();
    one_pair::<Tk>(&mut rec, what, a, b, m, rich);
    if fits::<()>(a) && fits::<()>(b) { one_pair::<()>(&mut rec, what, a, b, m, true) }
    if rich { one_pair_heap::<Bx>(&mut rec, what, a, b, m) }
    if rich && untagged(a) && untagged(b) { one_pair::<i64>(&mut rec, what, a, b, (m.1, m.0), false) }
    o.evals += rec.evals();
    let mut l = head;
    for (k, d) in &rec.m {
        l = l.f(k, d);
        if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
    }
    o.line(&l.end());
}
fn pairs(a: &Args) {
    let what = a.what.as_str();
    let mut o = Out::new(a, what);
    let mut note = String::new();
    // all pairs of subsets of a small universe; equal elements are told apart by their tag
    let n = if a.thorough { 7 } else { 5 };
    let subs = subsets(n);
    for (p, x) in subs.iter().enumerate() {
        for (q, y) in subs.iter().enumerate() {
            let m = (p + q) % (MODES * MODES);
            pair_case(&mut o, &mut note, what, &with_tag(x, 1), &with_tag(y, 2), (m % MODES, m / MODES), (p + q) % 4 == 0);
            o.stat("exhaustive_pairs", 1);
        }
    }
    // of elements without a size there is just one
    for p in 0..4 * MODES * MODES {
        let m = p / 4;
        pair_case(&mut o, &mut note, what, &with_tag(&subsets(1)[p % 2], 0), &with_tag(&subsets(1)[p / 2 % 2], 0), (m % MODES, m / MODES), false);
    }
    let n = if a.thorough { 60000 } else { 8000 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 77_000 + c);
        let vast = c % 20 == 13;
        let max = if vast { 1200 } else { [10, 30, 100, 400, 4000][r.below(5)] };
        let (x, y) = if vast { lopsided_pair(&mut r, max) } else { key_pair(&mut r, max) };
        let (ta, tb) = *r.pick(&[(1, 2), (1, 2), (0, 0), (3, 3)]);
        let m = (r.below(MODES), r.below(MODES));
        // mode 4 uses the keys 200..220 for padding
        pair_case(&mut o, &mut note, what, &with_tag(&x, ta), &with_tag(&y, tb), m, c % 2 == 0);
        if vast { pair_case(&mut o, &mut note, what, &with_tag(&y, tb), &with_tag(&x, ta), m, false) }
        o.stat("random_pairs", 1);
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "history" => history(&a),
        "algebra" | "relations" => pairs(&a),
        w => panic!("unknown {w}"),
    }
}
