//! How many comparisons operations make (C28), and what memory they and their results use (C29).
use smallvec::Array;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, UnsafeCell},
    cmp::Ordering,
    marker::PhantomData,
};
use vec_collections::{radix_tree::{AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree}, total_vec_map::{TotalVecMap, TotalVecMap1}, total_vec_set::{TotalVecSet, TotalVecSet2}, AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecMap1, VecSet, VecSet2};
use vh::{arch::Arch, elem::*, hist::*, worlds::*, *};

// ------------------------------------------------------------ counting allocations
struct Counting;
struct Blocks(UnsafeCell<[(usize, usize); 256]>);
unsafe impl Sync for Blocks {}
static BLOCKS: Blocks = Blocks(UnsafeCell::new([(0, 0); 256]));
thread_local! {
    // are allocations noted, and how many were there
    static NOTING: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static MINE: Cell<bool> = const { Cell::new(false) };
}
fn note(p: usize, n: usize) {
    if !NOTING.try_with(|x| x.get()).unwrap_or(false) { return }
    ALLOCS.with(|a| a.set(a.get() + 1));
    // only the driver's own thread ever notes
    let b = unsafe { &mut *BLOCKS.0.get() };
    if let Some(x) = b.iter_mut().find(|x| x.0 == 0) { *x = (p, n) }
}
fn forget(p: usize) {
    if !MINE.try_with(|x| x.get()).unwrap_or(false) { return }
    let b = unsafe { &mut *BLOCKS.0.get() };
    if let Some(x) = b.iter_mut().find(|x| x.0 == p) { *x = (0, 0) }
}
/// size of the noted block at this address
fn block(p: usize) -> usize { unsafe { (*BLOCKS.0.get()).iter().find(|x| x.0 == p && p != 0).map(|x| x.1).unwrap_or(0) } }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); note(p as usize, l.size()); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { forget(p as usize); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // a block that is only known because it was noted stays known
        let known = MINE.try_with(|x| x.get()).unwrap_or(false) && block(p as usize) > 0;
        forget(p as usize);
        let q = System.realloc(p, l, n);
        if known && !NOTING.with(|x| x.get()) { NOTING.with(|x| x.set(true)); note(q as usize, n); NOTING.with(|x| x.set(false)); } else { note(q as usize, n) }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;
fn noting<R>(f: impl FnOnce() -> R) -> R { NOTING.with(|x| x.set(true)); let r = f(); NOTING.with(|x| x.set(false)); r }
/// the number of allocations f makes
fn allocs<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let before = ALLOCS.with(|a| a.get());
    let r = noting(f);
    (ALLOCS.with(|a| a.get()) - before, r)
}

// ------------------------------------------------------------ counting comparisons
thread_local! { static CMPS: Cell<u64> = const { Cell::new(0) }; }
fn cmps<R>(f: impl FnOnce() -> R) -> u64 {
    let before = CMPS.with(|c| c.get());
    let r = f();
    drop(r);
    CMPS.with(|c| c.get()) - before
}
#[derive(Clone, Copy, Debug)]
struct Cnt(u32);
fn tick() { CMPS.with(|c| c.set(c.get() + 1)) }
impl PartialEq for Cnt { fn eq(&self, o: &Cnt) -> bool { tick(); self.0 == o.0 } }
impl Eq for Cnt {}
impl PartialOrd for Cnt { fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cnt { fn cmp(&self, o: &Cnt) -> Ordering { tick(); self.0.cmp(&o.0) } }
vh::self_archived!(Cnt);

/// runs of consecutive elements: 1 only on the left, 2 only on the right, 3 on both sides
type Blks = Vec<(i64, i64)>;
fn expand(b: &Blks) -> (Vec<u32>, Vec<u32>) {
    let (mut x, mut y, mut k) = (vec![], vec![], 0);
    for (kind, n) in b {
        for _ in 0..*n {
            k += 2;
            if kind & 1 != 0 { x.push(k) }
            if kind & 2 != 0 { y.push(k) }
        }
    }
    (x, y)
}
fn blocks(r: &mut Rng, big: usize) -> Blks {
    let size = |r: &mut Rng| -> i64 { match r.below(5) { 0 => 1, 1 => r.range(1, 4) as i64, 2 => r.range(1, 20) as i64, 3 => r.range(1, big / 2) as i64, _ => r.range(1, big) as i64 } };
    match r.below(10) {
        0 => vec![],
        1 => vec![(r.range(1, 3) as i64, size(r))],
        2 => { let a = 1 + r.below(2) as i64; vec![(a, size(r)), (3 - a, size(r))] }
        3 => { let a = 1 + r.below(2) as i64; vec![(a, size(r)), (3 - a, size(r)), (a, size(r))] }
        4 => { let n = r.range(1, big / 4); (0..n).map(|i| (1 + (i % 2) as i64, 1)).collect() } // taking turns
        5 => { let n = r.range(1, big / 4); (0..n).map(|_| (r.range(1, 3) as i64, 1)).collect() }
        6 => { // a few within many
            let many = 1 + r.below(2) as i64;
            let few = r.range(1, 4);
            let mut v = vec![];
            for _ in 0..few { v.push((many, size(r))); v.push((if r.chance(1, 3) { 3 } else { 3 - many }, 1)) }
            v.push((many, size(r)));
            v
        }
        7 => { let n = r.range(2, 40); let m = r.range(1, 4) as i64; (0..n).map(|i| (if m == 4 { 3 } else { 1 + (i as i64 % 2) }, m)).collect() }
        _ => { let n = r.range(1, 20); (0..n).map(|_| (r.range(1, 3) as i64, r.range(1, 9) as i64)).collect() }
    }
}
fn set<A: Array<Item = Cnt>>(x: &[u32]) -> VecSet<A> { x.iter().map(|k| Cnt(*k)).collect() }
fn map<A: Array<Item = (Cnt, i64)>>(x: &[u32]) -> VecMap<A> { x.iter().map(|k| (Cnt(*k), *k as i64 + 1)).collect() }
fn combos<A: Array<Item = Cnt>, B: Array<Item = (Cnt, i64)>>(o: &mut Out, b: &Blks) {
    let (x, y) = expand(b);
    let (s, t): (VecSet<A>, VecSet<A>) = (set(&x), set(&y));
    let mut log = |op: &str, n: u64| {
        o.line(&Obj::new().f("o", op).f("cap", A::size()).f("blocks", b).f("size", 0usize).f("cmp", n).end());
        o.evals += 1;
    };
    log("union", cmps(|| &s | &t));
    log("intersection", cmps(|| &s & &t));
    log("difference", cmps(|| &s - &t));
    log("symmetric difference", cmps(|| &s ^ &t));
    log("union in place", cmps(|| { let mut a = s.clone(); a |= &t; a }));
    log("intersection in place", cmps(|| { let mut a = s.clone(); a &= &t; a }));
    log("difference in place", cmps(|| { let mut a = s.clone(); a -= &t; a }));
    log("symmetric difference in place", cmps(|| { let mut a = s.clone(); a ^= &t; a }));
    log("union in place, owned", cmps(|| { let mut a = s.clone(); a |= t.clone(); a }));
    log("intersection in place, owned", cmps(|| { let mut a = s.clone(); a &= t.clone(); a }));
    log("difference in place, owned", cmps(|| { let mut a = s.clone(); a -= t.clone(); a }));
    log("symmetric difference in place, owned", cmps(|| { let mut a = s.clone(); a ^= t.clone(); a }));
    log("union with", cmps(|| { let mut a = s.clone(); a.union_with(&t); a }));
    log("intersection with", cmps(|| { let mut a = s.clone(); a.intersection_with(&t); a }));
    log("difference with", cmps(|| { let mut a = s.clone(); a.difference_with(&t); a }));
    log("xor with", cmps(|| { let mut a = s.clone(); a.xor_with(&t); a }));
    log("disjoint", cmps(|| s.is_disjoint(&t)));
    log("subset", cmps(|| s.is_subset(&t)));
    log("superset", cmps(|| s.is_superset(&t)));
    log("equal", cmps(|| s == t));
    log("compare", cmps(|| s.cmp(&t)));
    log("extend", cmps(|| { let mut a = s.clone(); a.extend(t.clone()); a }));
    let (m, n): (VecMap<B>, VecMap<B>) = (map(&x), map(&y));
    log("outer join", cmps(|| { let r: VecMap<B> = m.outer_join(&n, |a: OuterJoinArg<&Cnt, &i64, &i64>| match a { OuterJoinArg::Left(_, v) => Some(*v), OuterJoinArg::Right(_, v) => Some(*v), OuterJoinArg::Both(_, v, _) => Some(*v) }); r }));
    log("left join", cmps(|| { let r: VecMap<B> = m.left_join(&n, |_, v, _: Option<&i64>| Some(*v)); r }));
    log("right join", cmps(|| { let r: VecMap<B> = m.right_join(&n, |_, _: Option<&i64>, w| Some(*w)); r }));
    log("inner join", cmps(|| { let r: VecMap<B> = m.inner_join(&n, |_, v, _: &i64| Some(*v)); r }));
    log("outer join with", cmps(|| { let mut r = m.clone(); r.outer_join_with(&n, |a| match a { OuterJoinArg::Left(_, v) => Some(v), OuterJoinArg::Right(_, v) => Some(*v), OuterJoinArg::Both(_, v, _) => Some(v) }); r }));
    log("left join with", cmps(|| { let mut r = m.clone(); r.left_join_with(&n, |_, v, _: Option<&i64>| Some(v)); r }));
    log("right join with", cmps(|| { let mut r = m.clone(); r.right_join_with(&n, |_, _, w: &i64| Some(*w)); r }));
    log("inner join with", cmps(|| { let mut r = m.clone(); r.inner_join_with(&n, |_, v, _: &i64| Some(v)); r }));
    log("merge", cmps(|| { let mut r = m.clone(); r.merge_with(n.clone()); r }));
    log("combine", cmps(|| { let mut r = m.clone(); r.combine_with(n.clone(), |a, _| a); r }));
    log("map extend", cmps(|| { let mut r = m.clone(); r.extend(n.clone()); r }));
    for negs in 0..4 {
        let mk = |s: &VecSet<A>, neg: bool| { let t = TotalVecSet::from(s.clone()); if neg { !t } else { t } };
        let (a, b) = (mk(&s, negs & 1 != 0), mk(&t, negs & 2 != 0));
        log("negatable |", cmps(|| &a | &b));
        log("negatable &", cmps(|| &a & &b));
        log("negatable -", cmps(|| &a - &b));
        log("negatable ^", cmps(|| &a ^ &b));
        log("negatable |=", cmps(|| { let mut a = a.clone(); a |= b.clone(); a }));
        log("negatable &=", cmps(|| { let mut a = a.clone(); a &= b.clone(); a }));
        log("negatable -=", cmps(|| { let mut a = a.clone(); a -= b.clone(); a }));
        log("negatable ^=", cmps(|| { let mut a = a.clone(); a ^= b.clone(); a }));
        log("negatable disjoint", cmps(|| a.is_disjoint(&b)));
        log("negatable subset", cmps(|| a.is_subset(&b)));
        log("negatable superset", cmps(|| a.is_superset(&b)));
    }
    let (p, q): (TotalVecMap<i64, B>, TotalVecMap<i64, B>) = (TotalVecMap::new(m.clone(), 0), TotalVecMap::new(n.clone(), 0));
    log("supremum", cmps(|| p.supremum(&q)));
    log("infimum", cmps(|| p.infimum(&q)));
    log("total combine", cmps(|| p.combine_ref(&q, |a, b| a + b)));
    // archived operands
    let (sa, ta) = (Arch::new(&s), Arch::new(&t));
    let (sa, ta) = (sa.get(), ta.get());
    log("archived union", cmps(|| sa.union::<A>(ta)));
    log("archived intersection", cmps(|| AbstractVecSet::intersection::<A>(&s, ta)));
    log("archived difference", cmps(|| sa.difference::<A>(&t)));
    log("archived symmetric difference", cmps(|| sa.symmetric_difference::<A>(ta)));
    log("archived disjoint", cmps(|| sa.is_disjoint(ta)));
    log("archived subset", cmps(|| s.is_subset(ta)));
    log("archived superset", cmps(|| sa.is_superset(&t)));
    log("archived union with", cmps(|| { let mut a = s.clone(); a.union_with(ta); a }));
    log("archived xor with", cmps(|| { let mut a = s.clone(); a.xor_with(ta); a }));
}
/// the children of a node of a radix tree are merged in the same way
fn trees<T: AbstractRadixTreeMut<Cnt, i64, Materialized = T>>(o: &mut Out, b: &Blks) {
    let (x, y) = expand(b);
    let mk = |x: &[u32], below: &[u32]| {
        let mut t = T::empty();
        for k in x { t.insert(&below.iter().chain([k]).map(|k| Cnt(*k)).collect::<Vec<_>>(), *k as i64) }
        t
    };
    for below in [&[][..], &[7]] {
        let (s, t) = (mk(&x, below), mk(&y, below));
        let mut log = |op: &str, n: u64| {
            o.line(&Obj::new().f("o", op).f("cap", 0usize).f("blocks", b).f("size", 0usize).f("cmp", n).end());
            o.evals += 1;
        };
        log("tree union", cmps(|| s.union(&t)));
        log("tree intersection", cmps(|| s.intersection(&t)));
        log("tree difference", cmps(|| s.difference(&t)));
        log("tree union with", cmps(|| { let mut a = s.clone(); a.union_with(&t); a }));
        log("tree intersection with", cmps(|| { let mut a = s.clone(); a.intersection_with(&t); a }));
        log("tree difference with", cmps(|| { let mut a = s.clone(); a.difference_with(&t); a }));
        log("tree left combine with", cmps(|| { let mut a = s.clone(); a.left_combine_with(&t, |_, _: &i64| true); a }));
        log("tree retain prefix", cmps(|| { let mut a = s.clone(); a.retain_prefix_with(&t, |_: &i64| true); a }));
        log("tree remove prefix", cmps(|| { let mut a = s.clone(); a.remove_prefix_with(&t, |_: &i64| true); a }));
        log("tree subset", cmps(|| s.is_subset(&t)));
        log("tree superset", cmps(|| s.is_superset(&t)));
        log("tree disjoint", cmps(|| s.is_disjoint(&t)));
        log("tree intersects", cmps(|| s.intersects(&t)));
    }
}
fn tree_lookups<T: AbstractRadixTreeMut<Cnt, i64, Materialized = T>>(o: &mut Out, n: usize, r: &mut Rng) {
    let mut s = T::empty();
    for k in 1..=n as u32 { s.insert(&[Cnt(2 * k)], 5) }
    let mut keys = vec![0, 1, 2, 3, n as u32, 2 * n as u32, 2 * n as u32 + 1];
    keys.extend((0..6).map(|_| r.below(2 * n + 2) as u32));
    let mut dearest = |op: &str, f: &mut dyn FnMut(T, &[Cnt])| {
        let c = keys.iter().map(|k| { let k = [Cnt(*k)]; let t = s.clone(); cmps(|| f(t, &k)) }).max().unwrap();
        o.line(&Obj::new().f("o", op).f("cap", 0usize).f("blocks", Raw("[]".into())).f("size", n).f("cmp", c).end());
        o.evals += 1;
    };
    dearest("lookup: tree get", &mut |t, k| { t.get(k); });
    dearest("lookup: tree contains", &mut |t, k| { t.contains_key(k); });
    dearest("lookup: tree scan", &mut |t, k| { t.scan_prefix(k).next(); });
}
fn lookups<A: Array<Item = Cnt>, B: Array<Item = (Cnt, i64)>>(o: &mut Out, n: usize, r: &mut Rng) {
    let x: Vec<u32> = (1..=n as u32).map(|k| 2 * k).collect();
    let (s, m): (VecSet<A>, VecMap<B>) = (set(&x), map(&x));
    let t = TotalVecSet::from(s.clone());
    let u = TotalVecMap::new(m.clone(), 0);
    let nt = !t.clone();
    let sa = Arch::new(&s);
    let sa = sa.get();
    let mut m2 = m.clone();
    let mut keys = vec![0, 1, 2, 3, n as u32, 2 * n as u32 - (n > 0) as u32, 2 * n as u32, 2 * n as u32 + 1];
    keys.extend((0..6).map(|_| r.below(2 * n + 2) as u32));
    let mut log = |op: &str, c: u64| {
        o.line(&Obj::new().f("o", op).f("cap", A::size()).f("blocks", Raw("[]".into())).f("size", n).f("cmp", c).end());
        o.evals += 1;
    };
    // the dearest over the keys asked for
    let dearest = |f: &mut dyn FnMut(&Cnt)| keys.iter().map(|k| { let k = Cnt(*k); cmps(|| f(&k)) }).max().unwrap();
    log("lookup: contains", dearest(&mut |k| { s.contains(k); }));
    log("lookup: abstract contains", dearest(&mut |k| { AbstractVecSet::contains(&s, k); }));
    log("lookup: get", dearest(&mut |k| { m.get(k); }));
    log("lookup: get_mut", dearest(&mut |k| { m2.get_mut(k); }));
    log("lookup: negatable", dearest(&mut |k| { t.contains(k); }));
    log("lookup: total", dearest(&mut |k| { let _ = u[k]; }));
    log("lookup: negated", dearest(&mut |k| { nt.contains(k); }));
    log("lookup: archived contains", dearest(&mut |k| { sa.contains(k); }));
    // each change starts from the full collection
    let grow = |f: &mut dyn FnMut(&Cnt) -> u64| keys.iter().map(|k| f(&Cnt(*k))).max().unwrap();
    log("change: insert", grow(&mut |k| { let mut s = s.clone(); cmps(|| s.insert(*k)) }));
    log("change: remove", grow(&mut |k| { let mut s = s.clone(); cmps(|| s.remove(k)) }));
    log("change: map insert", grow(&mut |k| { let mut m = m.clone(); cmps(|| m.insert(*k, 3)) }));
    log("change: negatable insert", grow(&mut |k| { let mut t = t.clone(); cmps(|| t.insert(*k)) }));
    log("change: negatable remove", grow(&mut |k| { let mut t = t.clone(); cmps(|| t.remove(k)) }));
    log("change: negated insert", grow(&mut |k| { let mut t = nt.clone(); cmps(|| t.insert(*k)) }));
    log("change: negated remove", grow(&mut |k| { let mut t = nt.clone(); cmps(|| t.remove(k)) }));
    log("sorted: set", cmps(|| set::<A>(&x)));
    log("sorted: map", cmps(|| map::<B>(&x)));
    log("sorted: from vec", cmps(|| { let v: Vec<Cnt> = x.iter().map(|k| Cnt(*k)).collect(); VecSet::<A>::from(v) }));
    // each element given twice or thrice in a row is still sorted
    let twice: Vec<u32> = x.iter().flat_map(|k| [*k, *k]).collect();
    log("sorted: set, twice", cmps(|| set::<A>(&twice)));
    log("sorted: map, twice", cmps(|| map::<B>(&twice)));
    log("sorted: extend empty", cmps(|| { let mut s = VecSet::<A>::empty(); s.extend(x.iter().map(|k| Cnt(*k))); s }));
}
fn compare(a: &Args) {
    let mut o = Out::new(a, "compare");
    let n = if a.thorough { 1500 } else { 160 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 80_000 + c);
        let big = *r.pick(&[20, 60, 200, 1000]);
        let b = blocks(&mut r, big);
        match c % 3 {
            0 => combos::<[Cnt; 0], [(Cnt, i64); 0]>(&mut o, &b),
            1 => combos::<[Cnt; 4], [(Cnt, i64); 2]>(&mut o, &b),
            _ => combos::<[Cnt; 32], [(Cnt, i64); 16]>(&mut o, &b),
        }
        if big <= 200 {
            match c % 3 {
                0 => trees::<RadixTree<Cnt, i64>>(&mut o, &b),
                1 => trees::<ArcRadixTree<Cnt, i64>>(&mut o, &b),
                _ => trees::<LazyRadixTree<Cnt, i64>>(&mut o, &b),
            }
        }
    }
    let mut r = Rng::new(a.seed, 81_000);
    let mut sizes: Vec<usize> = (0..40).collect();
    sizes.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4000]);
    if a.thorough { sizes.extend([10_000, 65_535, 65_536, 65_537, 100_000]); sizes.extend(40..300) }
    for n in sizes {
        lookups::<[Cnt; 0], [(Cnt, i64); 0]>(&mut o, n, &mut r);
        lookups::<[Cnt; 16], [(Cnt, i64); 8]>(&mut o, n, &mut r);
        if n <= 1024 {
            tree_lookups::<RadixTree<Cnt, i64>>(&mut o, n, &mut r);
            tree_lookups::<ArcRadixTree<Cnt, i64>>(&mut o, n, &mut r);
        }
    }
    o.finish();
}

// ------------------------------------------------------------ memory
/// [elements, lives on the heap, room in elements if so]
fn place<T, S>(s: &S, xs: &[T]) -> (usize, usize, usize) {
    let (lo, p) = (s as *const S as usize, xs.as_ptr() as usize);
    let inline = p >= lo && p <= lo + std::mem::size_of::<S>() || (xs.is_empty() && block(p) == 0);
    let b = block(p);
    (xs.len(), !inline as usize, if inline { 0 } else { b / std::mem::size_of::<T>() })
}
fn line(o: &mut Out, op: &Op, cap: usize, kind: &str, al: u64, at: Vec<(usize, usize, usize)>) {
    o.line(&Obj::new().f("o", op.o.as_str()).f("i", op.i).f("j", op.j).f("k", op.k).f("given", op.xs.len().max(op.ps.len())).f("kind", kind).f("cap", cap).f("allocs", al).f("at", at).end());
    o.evals += 1;
}
const REDUCE: &[&str] = &["io", "ir", "iw", "do", "dr", "dw", "retain", "remove"];
fn set_history<A: Array<Item = i64>>(o: &mut Out, r: &mut Rng) { set_history_of::<A>(PhantomData, A::size(), o, r) }
/// cap: how many elements such sets promise to hold without allocating
fn set_history_of<A: Array<Item = i64>>(_: PhantomData<VecSet<A>>, cap: usize, o: &mut Out, r: &mut Rng) {
    let mut w = SetWorld::<A>::new();
    // often no more elements than fit
    let large = r.chance(1, 8);
    let universe = match r.below(4) { _ if large => 900, 0 => cap.max(1), 1 => cap + 1, 2 => 2 * cap + 3, _ => 40 } as i64;
    let at = |w: &SetWorld<A>| w.0.iter().map(|s| place(s, s.as_ref())).collect::<Vec<_>>();
    line(o, &Op { o: "reset".into(), ..Default::default() }, cap, "set", 0, at(&w));
    for _ in 0..r.range(8, 30) {
        let mut op = set_op(r, universe, 0);
        if r.chance(1, 3) { op.o = r.pick(REDUCE).to_string(); op.x = if op.o == "retain" { r.below(16) as i64 } else { mkc(r.below(universe as usize) as i64, 0) } }
        if r.chance(1, 12) { op.o = "shrink".into() }
        if large && r.chance(1, 3) { op.o = "collect".into(); op.xs = (0..r.range(50, 800)).map(|_| mkc(r.below(900) as i64, 0)).collect() }
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let mut b = w.0[j].clone();
        o.begin(&op.obj().f("cap", cap).end());
        let al = match op.o.as_str() {
            "io" => allocs(|| w.0[i] &= std::mem::replace(&mut b, VecSet::empty())).0,
            "do" => allocs(|| w.0[i] -= std::mem::replace(&mut b, VecSet::empty())).0,
            "ir" => allocs(|| w.0[i] &= &b).0,
            "dr" => allocs(|| w.0[i] -= &b).0,
            "iw" => allocs(|| w.0[i].intersection_with(&b)).0,
            "dw" => allocs(|| w.0[i].difference_with(&b)).0,
            "retain" => { let m = op.x; allocs(|| w.0[i].retain(|e| m >> (key(e.code()) % 4) & 1 == 1)).0 }
            "remove" => { let x = i64::mk(op.x); allocs(|| w.0[i].remove(&x)).0 }
            _ => { noting(|| w.run(&op)); 0 }
        };
        line(o, &op, cap, "set", al, at(&w));
    }
}
fn map_history<A: Array<Item = (i64, i64)>>(o: &mut Out, r: &mut Rng) { map_history_of::<A>(PhantomData, A::size(), o, r) }
fn map_history_of<A: Array<Item = (i64, i64)>>(_: PhantomData<VecMap<A>>, cap: usize, o: &mut Out, r: &mut Rng) {
    let mut w = MapWorld::<i64, i64, A>::new();
    let large = r.chance(1, 8);
    let universe = match r.below(4) { _ if large => 900, 0 => cap.max(1), 1 => cap + 1, 2 => 2 * cap + 3, _ => 40 };
    let at = |w: &MapWorld<i64, i64, A>| w.0.iter().map(|s| place(s, s.as_ref())).collect::<Vec<_>>();
    line(o, &Op { o: "reset".into(), ..Default::default() }, cap, "map", 0, at(&w));
    for _ in 0..r.range(8, 30) {
        let mut op = map_op(r, universe);
        if r.chance(1, 3) { op.o = r.pick(&["retain", "iw", "lw", "rw"]).to_string(); op.m = r.below(32) as i64 }
        if large && r.chance(1, 3) { op.o = "collect".into(); op.ps = (0..r.range(50, 800)).map(|_| (r.below(900) as i64, 1)).collect() }
        let (i, j) = (op.i - 1, op.j.max(1) - 1);
        let b = w.0[j].clone();
        o.begin(&op.obj().f("cap", cap).end());
        let m = op.m;
        let al = match op.o.as_str() {
            "retain" => allocs(|| w.0[i].retain(|(k, v)| vh::callbacks::keep(m, key(k.code()), *v))).0,
            "iw" => allocs(|| w.0[i].inner_join_with(&b, |k, v, _: &i64| if (k.code() + m) % 3 == 0 { None } else { Some(v) })).0,
            // of the map itself, with whatever room it has
            "mapvalues" => {
                noting(|| {
                    let x = std::mem::replace(&mut w.0[i], VecMap::empty());
                    let keep = x.clone();
                    w.0[op.k - 1] = x.map_values(|v| vh::callbacks::map_value(m, v));
                    if op.k - 1 != i { w.0[i] = keep }
                });
                0
            }
            "lw" => allocs(|| w.0[i].left_join_with(&b, |k, v, _: Option<&i64>| if (k.code() + m) % 3 == 0 { None } else { Some(v) })).0,
            _ => { noting(|| w.run(&op)); 0 }
        };
        line(o, &op, cap, "map", al, at(&w));
    }
}
fn elements_of<A: Array>(_: PhantomData<TotalVecSet<A>>) -> PhantomData<VecSet<A>> { PhantomData }
fn entries_of<V, A: Array>(_: PhantomData<TotalVecMap<V, A>>) -> PhantomData<VecMap<A>> { PhantomData }
fn storage(a: &Args) {
    MINE.with(|m| m.set(true));
    let mut o = Out::new(a, "storage");
    let n = if a.thorough { 13000 } else { 1300 };
    for h in 0..n {
        let mut r = Rng::new(a.seed, 90_000 + h);
        match h % 13 {
            // the names the crate gives to collections for 2 elements or 1 entry
            9 => set_history_of(PhantomData::<VecSet2<i64>>, 2, &mut o, &mut r),
            10 => map_history_of(PhantomData::<VecMap1<i64, i64>>, 1, &mut o, &mut r),
            11 => set_history_of(elements_of(PhantomData::<TotalVecSet2<i64>>), 2, &mut o, &mut r),
            12 => map_history_of(entries_of(PhantomData::<TotalVecMap1<i64, i64>>), 1, &mut o, &mut r),
            0 => set_history::<[i64; 0]>(&mut o, &mut r),
            1 => set_history::<[i64; 2]>(&mut o, &mut r),
            2 => set_history::<[i64; 4]>(&mut o, &mut r),
            3 => set_history::<[i64; 8]>(&mut o, &mut r),
            4 => set_history::<[i64; 16]>(&mut o, &mut r),
            5 => map_history::<[(i64, i64); 0]>(&mut o, &mut r),
            6 => map_history::<[(i64, i64); 2]>(&mut o, &mut r),
            7 => map_history::<[(i64, i64); 8]>(&mut o, &mut r),
            _ => map_history::<[(i64, i64); 16]>(&mut o, &mut r),
        }
        o.stat("histories", 1);
    }
    o.finish();
}
fn main() {
    let a = args();
    match a.what.as_str() {
        "compare" => compare(&a),
        "storage" => storage(&a),
        w => panic!("unknown {w}"),
    }
}
