//! Who owns which value, over histories (C24) and when user code fails (C25).
use smallvec::Array;
use std::collections::BTreeMap;
use vec_collections::{
    radix_tree::{ArcRadixTree, RadixTree},
    total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, btree_map::InPlaceRelationalOps, VecMap, VecSet,
};
use vh::{callbacks::*, elem::*, hist::*, ledger::*, radix::*, worlds::*, *};

const REGS: usize = 3;

trait Own {
    fn name(&self) -> String;
    /// which semantics apply
    fn kind(&self) -> &'static str;
    /// may several registers hold the same value?
    fn shared(&self) -> bool { false }
    fn run(&mut self, op: &Op);
    /// the ids in each register, and its contents
    fn own(&self) -> Vec<Vec<i64>>;
    fn all(&self) -> Raw;
    fn clear(&mut self);
    fn discard(&mut self, i: usize);
    fn start(&mut self) {}
    fn op(&self, r: &mut Rng, universe: usize, v: &Vocab, seen: &mut Vec<Entry>) -> Op;
    /// operations that put something into a register
    fn fill(&self, r: &mut Rng, i: usize, universe: usize, v: &Vocab) -> Vec<Op>;
}
/// universes from which collections of dozens of elements are made
const LARGE: usize = 70;
const HUGE: usize = 200;
/// .. and of more than a byte counts
const TOWN: usize = 600;
const COMBINING: &[&str] = &["union", "inter", "diff", "unionw", "interw", "diffw", "outerw", "outer", "inner", "left", "leftw", "innerw", "rmp", "rtp"];
fn list(r: &mut Rng, u: usize) -> Vec<i64> {
    let n = if u >= TOWN { r.range(330, 500) } else if u >= HUGE { r.range(60, 100) } else if u >= LARGE && r.chance(3, 4) { r.range(20, 60) } else { match r.below(4) { 0 => r.below(4), 1 => r.range(1, 6), _ => r.range(2, 14) } };
    // sometimes all within one stretch, so that operands lie next to each other and runs are taken from one side
    let (f, t) = if u >= LARGE && u < HUGE && r.chance(1, 2) { let f = r.below(u - 20); (f, r.range(f + 10, u)) } else { (0, u) };
    (0..n).map(|_| mkc(r.range(f, t - 1) as i64, r.below(4) as i64)).collect()
}
fn plist(r: &mut Rng, u: usize) -> Vec<(i64, i64)> { list(r, u).iter().map(|c| (key(*c), r.below(89) as i64)).collect() }
fn fill_codes(r: &mut Rng, i: usize, u: usize) -> Vec<Op> {
    let mut v = vec![Op { o: "collect".into(), i, xs: list(r, u), ps: plist(r, u), ..Default::default() }];
    if r.chance(1, 2) { v.push(Op { o: "insert".into(), i, x: mkc(r.below(u) as i64, 5), ps: vec![(r.below(u) as i64, 7)], ..Default::default() }) }
    if r.chance(1, 4) { v.push(Op { o: "retain".into(), i, x: r.below(16) as i64, m: r.below(32) as i64, ..Default::default() }) }
    v
}
/// takes n items from a consuming iterator, keeps them past its end
fn drain<I: Iterator>(mut it: I, n: i64) { let v: Vec<I::Item> = it.by_ref().take(n as usize).collect(); drop(it); drop(v); }

// ------------------------------------------------------------ sets and maps
impl<A: Array<Item = L>> Own for SetWorld<A> {
    fn name(&self) -> String { format!("set x{}", A::size()) }
    fn kind(&self) -> &'static str { "set" }
    fn run(&mut self, op: &Op) {
        if op.o == "drain" { return drain(std::mem::replace(&mut self.0[op.i - 1], VecSet::empty()).into_iter(), op.x) }
        SetWorld::run(self, op);
    }
    fn own(&self) -> Vec<Vec<i64>> { self.0.iter().map(|s| s.iter().map(|x| x.id()).collect()).collect() }
    fn all(&self) -> Raw { Raw(self.0.iter().map(|s| cds(s.as_ref())).collect::<Vec<_>>().js()) }
    fn clear(&mut self) { for s in self.0.iter_mut() { *s = VecSet::empty() } }
    fn discard(&mut self, i: usize) { self.0[i] = VecSet::empty() }
    fn op(&self, r: &mut Rng, u: usize, _: &Vocab, _: &mut Vec<Entry>) -> Op {
        if r.chance(1, 14) { return Op { o: "drain".into(), i: r.range(1, REGS), x: r.below(9) as i64, ..Default::default() } }
        set_op(r, u as i64, 4)
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, _: &Vocab) -> Vec<Op> { fill_codes(r, i, u) }
}
impl<A: Array<Item = (L, L)>> Own for MapWorld<L, L, A> {
    fn name(&self) -> String { format!("map x{}", A::size()) }
    fn kind(&self) -> &'static str { "map" }
    fn run(&mut self, op: &Op) {
        if op.o == "drain" { return drain(std::mem::replace(&mut self.0[op.i - 1], VecMap::empty()).into_iter(), op.x) }
        MapWorld::run(self, op);
    }
    fn own(&self) -> Vec<Vec<i64>> { self.0.iter().map(|s| s.as_ref().iter().flat_map(|(k, v)| [k.id(), v.id()]).collect()).collect() }
    fn all(&self) -> Raw { Raw(self.0.iter().map(|s| pairs(s.as_ref())).collect::<Vec<_>>().js()) }
    fn clear(&mut self) { for s in self.0.iter_mut() { *s = VecMap::empty() } }
    fn discard(&mut self, i: usize) { self.0[i] = VecMap::empty() }
    fn op(&self, r: &mut Rng, u: usize, _: &Vocab, _: &mut Vec<Entry>) -> Op {
        if r.chance(1, 14) { return Op { o: "drain".into(), i: r.range(1, REGS), x: r.below(9) as i64, ..Default::default() } }
        map_op(r, u)
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, _: &Vocab) -> Vec<Op> { fill_codes(r, i, u) }
}

// ------------------------------------------------------------ sets with negation and total maps
fn ids_in(s: &str) -> Vec<i64> {
    s.split('#').skip(1).map(|t| t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).collect()
}
struct TS<A: Array>(Vec<TotalVecSet<A>>);
impl<A: Array<Item = L>> Own for TS<A> {
    fn name(&self) -> String { format!("set with negation x{}", A::size()) }
    fn kind(&self) -> &'static str { "tset" }
    fn run(&mut self, op: &Op) {
        let (i, j, k) = (op.i - 1, op.j.max(1) - 1, op.k.max(1) - 1);
        let s = &mut self.0;
        match op.o.as_str() {
            "const" => s[i] = TotalVecSet::constant(op.x % 2 == 1),
            "collect" => s[i] = TotalVecSet::from(op.xs.iter().map(|c| { poke(SOURCE); L::mk(*c) }).collect::<VecSet<A>>()),
            "insert" => s[i].insert(L::mk(op.x)),
            "remove" => s[i].remove(&L::mk(op.x)),
            "not" => { let a = std::mem::replace(&mut s[i], TotalVecSet::empty()); s[i] = !a }
            "not3" => s[k] = !&s[i],
            "clone" => s[i] = s[j].clone(),
            "shrink" => s[i].shrink_to_fit(),
            "u" => { let b = s[j].clone(); s[i] |= b }
            "i" => { let b = s[j].clone(); s[i] &= b }
            "d" => { let b = s[j].clone(); s[i] -= b }
            "x" => { let b = s[j].clone(); s[i] ^= b }
            "u3" => s[k] = &s[i] | &s[j],
            "i3" => s[k] = &s[i] & &s[j],
            "d3" => s[k] = &s[i] - &s[j],
            "x3" => s[k] = &s[i] ^ &s[j],
            "relate" => { s[i].is_subset(&s[j]); s[i].is_superset(&s[j]); s[i].is_disjoint(&s[j]); let _ = s[i] == s[j]; }
            o => panic!("unknown op {o}"),
        }
    }
    fn own(&self) -> Vec<Vec<i64>> { self.0.iter().map(|s| ids_in(&format!("{s:?}"))).collect() }
    fn all(&self) -> Raw { Raw("[]".into()) }
    fn clear(&mut self) { for s in self.0.iter_mut() { *s = TotalVecSet::empty() } }
    fn discard(&mut self, i: usize) { self.0[i] = TotalVecSet::empty() }
    fn op(&self, r: &mut Rng, u: usize, _: &Vocab, _: &mut Vec<Entry>) -> Op {
        let mut op = Op { i: r.range(1, REGS), j: r.range(1, REGS), k: r.range(1, REGS), x: mkc(r.below(u) as i64, r.below(4) as i64), ..Default::default() };
        op.o = match r.below(12) {
            0 => "const",
            1..=2 => { op.xs = list(r, u); "collect" }
            3..=4 => "insert",
            5 => "remove",
            6 => *r.pick(&["not", "not3"]),
            7 => *r.pick(&["clone", "shrink", "relate"]),
            _ => *r.pick(&["u", "i", "d", "x", "u3", "i3", "d3", "x3"]),
        }.into();
        op
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, _: &Vocab) -> Vec<Op> {
        let mut v = vec![Op { o: "collect".into(), i, xs: list(r, u), ..Default::default() }];
        if r.chance(1, 2) { v.push(Op { o: "not".into(), i, ..Default::default() }) }
        v
    }
}
struct TM<A: Array>(Vec<TotalVecMap<L, A>>);
impl<A: Array<Item = (L, L)>> Own for TM<A> {
    fn name(&self) -> String { format!("total map x{}", A::size()) }
    fn kind(&self) -> &'static str { "tmap" }
    fn run(&mut self, op: &Op) {
        let (i, j, k) = (op.i - 1, op.j.max(1) - 1, op.k.max(1) - 1);
        let t = &mut self.0;
        match op.o.as_str() {
            "const" => t[i] = TotalVecMap::constant(L::mv(op.x % 5)),
            "collect" => t[i] = TotalVecMap::new(op.ps.iter().map(|(k, v)| { poke(SOURCE); (mk(*k), L::mv(*v % 5)) }).collect::<VecMap<A>>(), L::mv(op.x % 5)),
            "mapvalues" => t[k] = t[i].map_values(|v| { poke(CALLBACK); L::mv(map_value(op.m, v.v()) % 5) }),
            "clone" => t[i] = t[j].clone(),
            "sup" => t[k] = t[i].supremum(&t[j]),
            "inf" => t[k] = t[i].infimum(&t[j]),
            "combine" => t[k] = t[i].combine_ref(&t[j], |v, w| { poke(CALLBACK); L::mv(combine_value(op.m, v.v(), w.v()) % 5) }),
            "query" => for x in &op.xs { let k = L::mk(*x); t[i][&k].v(); },
            "relate" => { let _ = t[i] == t[j]; let _ = t[i].cmp(&t[j]); }
            o => panic!("unknown op {o}"),
        }
    }
    fn own(&self) -> Vec<Vec<i64>> { self.0.iter().map(|s| ids_in(&format!("{s:?}"))).collect() }
    fn all(&self) -> Raw { Raw("[]".into()) }
    fn clear(&mut self) { self.0.clear() }
    fn discard(&mut self, i: usize) { self.0[i] = TotalVecMap::constant(L::mv(0)) }
    fn start(&mut self) { self.0 = (0..REGS).map(|_| TotalVecMap::constant(L::mv(0))).collect() }
    fn op(&self, r: &mut Rng, u: usize, _: &Vocab, _: &mut Vec<Entry>) -> Op {
        let mut op = Op { i: r.range(1, REGS), j: r.range(1, REGS), k: r.range(1, REGS), x: r.below(9) as i64, m: r.below(50) as i64, ..Default::default() };
        op.o = match r.below(10) {
            0 => "const",
            1..=2 => { op.ps = plist(r, u); "collect" }
            3 => "clone",
            4 => "mapvalues",
            5 => { op.xs = list(r, u); "query" }
            6 => "relate",
            _ => *r.pick(&["sup", "inf", "combine"]),
        }.into();
        op
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, _: &Vocab) -> Vec<Op> {
        vec![Op { o: "collect".into(), i, ps: plist(r, u), x: r.below(5) as i64, ..Default::default() }]
    }
}

// ------------------------------------------------------------ standard ordered maps
struct BM(Vec<BTreeMap<L, L>>);
impl Own for BM {
    fn name(&self) -> String { "standard map".into() }
    fn kind(&self) -> &'static str { "bmap" }
    fn run(&mut self, op: &Op) {
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let m = op.m;
        let c = Calls::default();
        let t = &mut self.0;
        let join = |k: &L, v: Option<i64>, w: Option<i64>| c.join(m, kk(k), v, w);
        // the values are changed in place, so a callback that keeps a value writes to it
        let put = |v: &mut L, r: Option<i64>| match r { Some(x) => { *v = L::mv(x); true } None => false };
        match op.o.as_str() {
            "collect" => t[i] = op.ps.iter().map(|(k, v)| { poke(SOURCE); (mk(*k), L::mv(*v)) }).collect(),
            "ow" => with_two(t, i, j, |a, b| a.outer_join_with(b,
                |k: &L, v: &mut L, w: Option<&L>| { let r = join(k, Some(v.v()), w.map(|w| w.v())); put(v, r) },
                |k: &L, w: &L| join(k, None, Some(w.v())).map(L::mv))),
            "lw" => with_two(t, i, j, |a, b| a.left_join_with(b, |k: &L, v: &mut L, w: Option<&L>| { let r = join(k, Some(v.v()), w.map(|w| w.v())); put(v, r) })),
            "iw" => with_two(t, i, j, |a, b| a.inner_join_with(b, |k: &L, v: &mut L, w: &L| { let r = join(k, Some(v.v()), Some(w.v())); put(v, r) })),
            o => panic!("unknown op {o}"),
        }
    }
    fn own(&self) -> Vec<Vec<i64>> { self.0.iter().map(|s| s.iter().flat_map(|(k, v)| [k.id(), v.id()]).collect()).collect() }
    fn all(&self) -> Raw { Raw("[]".into()) }
    fn clear(&mut self) { for s in self.0.iter_mut() { s.clear() } }
    fn discard(&mut self, i: usize) { self.0[i].clear() }
    fn op(&self, r: &mut Rng, u: usize, _: &Vocab, _: &mut Vec<Entry>) -> Op {
        let mut op = Op { i: r.range(1, REGS), j: r.range(1, REGS), m: r.below(4096) as i64, ..Default::default() };
        op.o = match r.below(6) { 0..=1 => { op.ps = plist(r, u); "collect" } _ => *r.pick(&["ow", "lw", "iw"]) }.into();
        op
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, _: &Vocab) -> Vec<Op> { vec![Op { o: "collect".into(), i, ps: plist(r, u), ..Default::default() }] }
}

// ------------------------------------------------------------ radix trees
impl<T: Flavour<K = u8, V = L>> Own for TreeWorld<T> {
    fn name(&self) -> String { T::flavour() }
    fn kind(&self) -> &'static str { "tree" }
    fn shared(&self) -> bool { !T::flavour().starts_with("flat") }
    fn run(&mut self, op: &Op) {
        if op.o == "drain" {
            // what the iterator yields is only looked at while it lives
            let t = std::mem::replace(&mut self.t[op.i - 1], T::empty());
            let mut it = t.into_iter();
            for _ in 0..op.x { if let Some((_, v)) = it.next() { v.v(); } }
            return;
        }
        TreeWorld::run(self, op);
    }
    fn own(&self) -> Vec<Vec<i64>> { self.t.iter().map(|s| s.iter().map(|(_, v)| v.id()).collect()).collect() }
    fn all(&self) -> Raw { Raw(self.t.iter().map(|s| s.iter().map(|(k, v)| (kc(k.as_ref()), v.v())).collect::<Vec<_>>()).collect::<Vec<_>>().js()) }
    fn clear(&mut self) { for t in self.t.iter_mut() { *t = T::empty() } }
    fn discard(&mut self, i: usize) { self.t[i] = T::empty() }
    fn op(&self, r: &mut Rng, _: usize, v: &Vocab, seen: &mut Vec<Entry>) -> Op {
        if r.chance(1, 14) { return Op { o: "drain".into(), i: r.range(1, REGS), x: r.below(9) as i64, ..Default::default() } }
        tree_op(r, v, REGS, seen, false)
    }
    fn fill(&self, r: &mut Rng, i: usize, u: usize, v: &Vocab) -> Vec<Op> {
        let n = if u >= LARGE { r.range(12, 40) } else { r.range(1, 9) };
        vec![Op { o: "collect".into(), i, es: v.entries(r, n), x: r.below(2) as i64, ..Default::default() }]
    }
}

fn worlds() -> Vec<Box<dyn Own>> {
    vec![
        SetWorld::<[L; 0]>::new(), SetWorld::<[L; 2]>::new(), SetWorld::<[L; 4]>::new(), SetWorld::<[L; 16]>::new(),
        MapWorld::<L, L, [(L, L); 0]>::new(), MapWorld::<L, L, [(L, L); 2]>::new(), MapWorld::<L, L, [(L, L); 8]>::new(),
        Box::new(TS::<[L; 2]>((0..REGS).map(|_| TotalVecSet::empty()).collect())),
        Box::new(TS::<[L; 8]>((0..REGS).map(|_| TotalVecSet::empty()).collect())),
        Box::new(TM::<[(L, L); 1]>(vec![])),
        Box::new(TM::<[(L, L); 8]>(vec![])),
        Box::new(BM((0..REGS).map(|_| BTreeMap::new()).collect())),
        TreeWorld::<RadixTree<u8, L>>::new(REGS, false, false),
        TreeWorld::<ArcRadixTree<u8, L>>::new(REGS, false, false),
    ]
}

// ------------------------------------------------------------ recording
fn step(o: &mut Out, w: &mut Box<dyn Own>, op: &Op, fault: (i64, i64)) -> bool {
    o.begin(&op.obj().f("w", w.name()).f("fault", vec![fault.0, fault.1]).end());
    arm(fault.0, fault.1);
    let p = guard(|| if op.o == "discard" { w.discard(op.i - 1) } else { w.run(op) }).is_err();
    let fired = disarm();
    let ev = take();
    let own = peek(|| w.own());
    let all = peek(|| w.all());
    // looking must not change anything
    let after: Vec<i64> = take().into_iter().filter(|x| x % 4 != USED).collect();
    let mut ev = ev;
    ev.extend(after);
    o.line(&op.obj().f("fault", if fired { fault.0 } else { 0 }).f("p", p as usize).f("ev", ev).f("own", own).f("all", all).end());
    o.evals += 1;
    fired
}
fn reset(o: &mut Out, w: &mut Box<dyn Own>) {
    w.clear();
    restart();
    let init = if w.kind() == "tmap" { // total maps have no empty value: start from constants
        w.start();
        take()
    } else { vec![] };
    let own = peek(|| w.own());
    o.line(&Op { o: "reset".into(), ..Default::default() }.obj().f("kind", w.kind()).f("w", w.name()).f("shared", w.shared() as usize).f("ev", init).f("own", own).end());
}
fn end(o: &mut Out, w: &mut Box<dyn Own>) {
    o.begin(&format!("dropping everything: {}", w.name()));
    w.clear();
    let ev = take();
    o.line(&Op { o: "end".into(), ..Default::default() }.obj().f("fault", 0usize).f("p", 0usize).f("ev", ev).f("own", Raw("[[],[],[]]".into())).f("all", Raw("[[],[],[]]".into())).end());
}

/// keys that all begin the same, in a few ways which may go apart early
fn families(r: &mut Rng) -> Vec<Vocab> {
    let stem: Key = (0..r.below(4)).map(|_| r.below(3) as i64).collect();
    let apart = r.below(3) as i64;
    (0..3).map(|f| {
        let stem: Key = stem.iter().cloned().chain((0..apart).map(|p| (f * (p + 1)) % 3)).collect();
        Vocab { words: (0..r.range(6, 40) as i64).map(|x| stem.iter().cloned().chain([x]).collect()).collect(), max: 1 }
    }).collect()
}
fn histories(a: &Args) {
    let mut o = Out::new(a, "ledger");
    let mut ws = worlds();
    let n = if a.thorough { 14000 } else { 2100 };
    for h in 0..n {
        let mut r = Rng::new(a.seed, 50_000 + h);
        let w = &mut ws[h as usize % 14];
        // now and then large collections, and trees whose keys all begin the same, each in one of a few ways
        let large = h / 14 % 4 == 3;
        let town = h / 14 % 30 == 27 && w.kind() != "tree";
        let universe = if town { TOWN } else if large { LARGE } else { *r.pick(&[3, 6, 12, 24, 40]) };
        let vs: Vec<Vocab> = if large { families(&mut r) } else { vec![vocab(&mut r)] };
        let mut seen = vec![];
        reset(&mut o, w);
        for s in 0..r.range(8, if town { 12 } else if large { 20 } else { 40 }) {
            let v = &vs[r.below(vs.len())];
            let ops = if large && (s < 2 || r.chance(1, 8)) { let i = r.range(1, REGS); w.fill(&mut r, i, universe, v) } else { vec![w.op(&mut r, universe, v, &mut seen)] };
            let ops = if large && w.kind() == "tree" && r.chance(2, 3) { // two trees that have something in them
                let mut op = w.op(&mut r, universe, v, &mut seen);
                while !COMBINING.contains(&op.o.as_str()) { op = w.op(&mut r, universe, v, &mut seen) }
                if op.i == op.j && r.chance(4, 5) { op.j = op.i % REGS + 1 }
                let own = peek(|| w.own());
                let mut ops = vec![];
                for x in [op.i, op.j] { if own[x - 1].len() < 5 { let v = &vs[r.below(vs.len())]; ops.extend(w.fill(&mut r, x, universe, v)) } }
                ops.push(op);
                ops
            } else { ops };
            for op in ops { step(&mut o, w, &op, (0, 0)); }
        }
        end(&mut o, w);
        o.stat("histories", 1);
    }
    o.finish();
}
/// the operations of sets and maps, by world
fn every(a: &Args) -> Vec<(usize, String)> {
    let ws = worlds();
    let mut r = Rng::new(a.seed, 59_999);
    let v = vocab(&mut r);
    let mut all = vec![];
    for w in if a.thorough { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { vec![1, 5, 7, 9, 11] } {
        let mut names: Vec<String> = (0..3000).map(|_| ws[w].op(&mut r, LARGE, &v, &mut vec![]).o).collect();
        names.sort();
        names.dedup();
        names.retain(|n| !(ws[w].kind() == "bmap" && n == "collect"));
        all.extend(names.into_iter().map(|n| (w, n)));
    }
    all
}
fn faults(a: &Args) {
    let mut o = Out::new(a, "faults");
    let mut ws = worlds();
    let (n, more) = if a.thorough { (7000, 900) } else { (840, 90) };
    let every = every(a);
    for c in 0..n + more + every.len() as u64 {
        let mut r = Rng::new(a.seed, 60_000 + c);
        // the rest is large trees being combined, and every single operation on large collections
        let one = if c >= n + more { Some(&every[(c - n - more) as usize]) } else { None };
        let w = &mut ws[match one { Some((w, _)) => *w, None if c < n => c as usize % 14, None => 12 + usize::from(c % 3 == 0) }];
        let large = c >= n || c / 14 % 4 == 3;
        let universe = match one { Some(_) if c % 8 == 1 => TOWN, Some(_) if c % 3 > 0 => HUGE, _ if large => LARGE + 10, _ => *r.pick(&[4, 8, 14, 24]) };
        let v = if large { Vocab { words: (0..60).map(|x| vec![x]).collect(), max: r.range(1, 2) } } else { vocab(&mut r) };
        let mut seen = vec![];
        let mut build = vec![];
        let blocks = large && r.chance(2, 3);
        for i in 1..=REGS {
            // contents that lie next to each other more than among each other, so that runs are taken from one side
            let (from, to) = if blocks { let f = r.below(40); (f, r.range(f + 1, 60)) } else { (0, 60) };
            let w1 = Vocab { words: (from as i64..to as i64).map(|x| vec![x]).collect(), max: v.max };
            if i < 3 || r.chance(1, 2) { build.extend(w.fill(&mut r, i, universe, if large { &w1 } else { &v })) }
        }
        for op in &build { seen.extend(op.es.iter().cloned()) }
        let mut op = w.op(&mut r, universe, &v, &mut seen);
        for _ in 0..3 { if ["new", "query", "shrink", "const", "single"].contains(&op.o.as_str()) { op = w.op(&mut r, universe, &v, &mut seen) } }
        // building a standard map is not this library's doing
        while w.kind() == "bmap" && op.o == "collect" { op = w.op(&mut r, universe, &v, &mut seen) }
        // a large tree is for combining: much of what a tree can do concerns one key
        if let Some((_, name)) = one { while op.o != *name { op = w.op(&mut r, universe, &v, &mut seen) } }
        while one.is_none() && c >= n && !COMBINING.contains(&op.o.as_str()) { op = w.op(&mut r, universe, &v, &mut seen) }
        if r.chance(3, 4) { op.i = 1; op.j = 2; op.k = r.range(1, 3) }
        let follow: Vec<Op> = (0..3).map(|_| w.op(&mut r, universe, &v, &mut seen)).collect();
        for &kind in KINDS {
            // the standard library's bulk building leaks when a comparison fails
            if kind == COMPARE && ["roundtrip", "frombtree"].contains(&op.o.as_str()) { continue }
            let mut at = 1;
            for tries in 0.. {
                reset(&mut o, w);
                for b in &build { step(&mut o, w, b, (0, 0)); }
                let fired = step(&mut o, w, &op, (kind, at));
                if fired {
                    o.stat(&format!("faults_{}", ["", "compare", "clone", "source", "callback"][kind as usize]), 1);
                    // a collection whose comparisons failed is given up
                    if kind == COMPARE { for i in 1..=REGS { step(&mut o, w, &Op { o: "discard".into(), i, ..Default::default() }, (0, 0)); } }
                    for f in &follow { step(&mut o, w, f, (0, 0)); }
                }
                end(&mut o, w);
                if !fired { break }
                // in very large ones, some at the start and some anywhere
                at += if tries < 12 && !large { 1 } else if universe >= TOWN && tries > 2 { r.range(20, 150) as i64 } else { r.range(1, 9) as i64 };
                if tries > if universe >= TOWN { 6 } else if large { 12 } else { 30 } { break }
            }
        }
    }
    o.finish();
}
/// what a consuming iterator of a tree yields is claimed to be valid for ever: is it, once the iterator is gone?
fn held<T: Flavour<K = u8, V = L>>(a: &Args, what: &str) {
    let mut o = Out::new(a, what);
    let mut w: Box<dyn Own> = TreeWorld::<T>::new(REGS, false, false);
    for c in 0..20 {
        let mut r = Rng::new(a.seed, 70_000 + c);
        let v = vocab(&mut r);
        reset(&mut o, &mut w);
        let op = Op { o: "held".into(), i: 1, es: v.entries(&mut r, 1 + c as usize % 5), x: r.below(5) as i64, ..Default::default() };
        o.begin(&op.obj().f("w", w.name()).end());
        let t: T = make(&op.es, 0);
        let mut it = t.into_iter();
        let mut kept: Vec<(i64, &'static L)> = vec![];
        for _ in 0..=op.x { if let Some((_, v)) = it.next() { kept.push((v.id(), v)) } }
        drop(it);
        // still in our hands; not looked at
        for (id, _) in &kept { hold(*id) }
        o.line(&op.obj().f("fault", 0usize).f("p", 0usize).f("ev", take()).f("own", Raw("[[],[],[]]".into())).f("all", Raw("[[],[],[]]".into())).end());
        end(&mut o, &mut w);
    }
    o.finish();
}
fn main() {
    let a = args();
    match a.what.as_str() {
        "ledger" => histories(&a),
        "faults" => faults(&a),
        "held-flat" => held::<RadixTree<u8, L>>(&a, "held-flat"),
        "held-shared" => held::<ArcRadixTree<u8, L>>(&a, "held-shared"),
        w => panic!("unknown {w}"),
    }
}
