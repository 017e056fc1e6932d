//! Building in bulk (C04) and the storage it needs (C05).
use smallvec::Array;
use std::{alloc::{GlobalAlloc, Layout, System}, cell::Cell, collections::{BTreeMap, BTreeSet}};
use vec_collections::{VecMap, VecSet};
use vh::{elem::*, gen::*, *};

/// iterators that report their length exactly, not at all, or too low
struct Hinted<I>(I, u8);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 { 0 => (lo, hi), 1 => (0, None), 2 => (lo / 2, hi.map(|h| h * 3 + 7)), _ => (lo.min(1), hi) }
    }
}
fn out<A: Array>(s: &VecSet<A>) -> Vec<i64> where A::Item: Elem { cds(s.as_ref()) }

fn sets<A: Array>(d: &mut Distinct, xs: &[i64]) where A::Item: Elem {
    if !fits::<A::Item>(xs) { return }
    let n = format!("{}x{}", A::Item::NAME, A::size());
    for h in 0..4u8 {
        d.add(codes(|| out(&Hinted(mks::<A::Item>(xs).into_iter(), h).collect::<VecSet<A>>())), &format!("{n} collect hint {h}"));
    }
    d.add(codes(|| out(&VecSet::<A>::from(mks::<A::Item>(xs)))), &format!("{n} from vec"));
    d.add(codes(|| { let mut v = Vec::with_capacity(xs.len() * 2 + 5); v.extend(mks::<A::Item>(xs)); out(&VecSet::<A>::from(v)) }), &format!("{n} from roomy vec"));
    d.add(codes(|| { let mut s = VecSet::<A>::empty(); s.extend(mks::<A::Item>(xs)); out(&s) }), &format!("{n} extend empty"));
    d.add(codes(|| {
        let mut b = BTreeSet::new();
        for x in mks::<A::Item>(xs) { if !b.contains(&x) { b.insert(x); } }
        out(&VecSet::<A>::from(b))
    }), &format!("{n} from btree set"));
}
fn set_extend<A: Array>(d: &mut Distinct, have: &[i64], xs: &[i64]) where A::Item: Elem {
    let n = format!("{}x{}", A::Item::NAME, A::size());
    for h in 0..2u8 {
        for grown in [false, true] {
            d.add(codes(|| {
                let mut s: VecSet<A> = if grown {
                    let mut v = Vec::with_capacity(have.len() + 70);
                    v.extend(mks::<A::Item>(have));
                    VecSet::from(v)
                } else { mks::<A::Item>(have).into_iter().collect() };
                s.extend(Hinted(mks::<A::Item>(xs).into_iter(), h));
                out(&s)
            }), &n);
        }
    }
}
type Pairs = Vec<(i64, i64)>;
fn mout<K: Elem, A: Array<Item = (K, i64)>>(m: &VecMap<A>) -> Pairs { m.as_ref().iter().map(|(k, v)| (key(k.code()), *v)).collect() }
fn gp(f: impl FnOnce() -> Pairs) -> Pairs { guard(f).unwrap_or_else(|_| vec![(-1, -1)]) }
fn mkp<K: Elem>(xs: &[i64], base: i64) -> Vec<(K, i64)> { xs.iter().enumerate().map(|(i, c)| (K::mk(*c), base + i as i64)).collect() }

/// values are positions in the sequence
fn maps<K: Elem, A: Array<Item = (K, i64)>>(d: &mut Distinct, xs: &[i64]) {
    if !fits::<K>(xs) { return }
    let n = format!("map {}x{}", K::NAME, A::size());
    for h in 0..4u8 {
        d.add(gp(|| mout(&Hinted(mkp::<K>(xs, 1).into_iter(), h).collect::<VecMap<A>>())), &format!("{n} collect hint {h}"));
    }
    d.add(gp(|| { let mut s = VecMap::<A>::empty(); s.extend(mkp::<K>(xs, 1)); mout(&s) }), &format!("{n} extend empty"));
    d.add(gp(|| { let mut s = VecMap::<A>::empty(); for (k, v) in mkp::<K>(xs, 1) { s.insert(k, v); } mout(&s) }), &format!("{n} one by one"));
    d.add(gp(|| { let b: BTreeMap<K, i64> = mkp::<K>(xs, 1).into_iter().collect(); mout(&VecMap::<A>::from(b)) }), &format!("{n} from btree map"));
}
fn map_extend<K: Elem, A: Array<Item = (K, i64)>>(d: &mut Distinct, have: &[i64], xs: &[i64]) {
    let n = format!("map {}x{}", K::NAME, A::size());
    for h in 0..2u8 {
        d.add(gp(|| {
            let mut s: VecMap<A> = mkp::<K>(have, -1000).into_iter().collect();
            s.extend(Hinted(mkp::<K>(xs, 1).into_iter(), h));
            mout(&s)
        }), &n);
    }
}

fn build_case(o: &mut Out, notes: &mut hist::Notes, xs: &[i64], have: &[i64]) {
    o.begin(&Obj::new().f("xs", xs).f("have", have).end());
    let (mut s, mut e, mut m, mut me) = (Distinct::default(), Distinct::default(), Distinct::default(), Distinct::default());
    sets::<[Tk; 2]>(&mut s, xs);
    sets::<[Tk; 16]>(&mut s, xs);
    sets::<[Bx; 3]>(&mut s, xs);
    sets::<[i64; 4]>(&mut s, xs);
    sets::<[(); 0]>(&mut s, xs);
    sets::<[(); 3]>(&mut s, xs);
    maps::<(), [((), i64); 1]>(&mut m, xs);
    set_extend::<[Tk; 2]>(&mut e, have, xs);
    set_extend::<[Bx; 8]>(&mut e, have, xs);
    maps::<Tk, [(Tk, i64); 1]>(&mut m, xs);
    maps::<Bx, [(Bx, i64); 8]>(&mut m, xs);
    maps::<i64, [(i64, i64); 2]>(&mut m, xs);
    map_extend::<Tk, [(Tk, i64); 2]>(&mut me, have, xs);
    map_extend::<Bx, [(Bx, i64); 1]>(&mut me, have, xs);
    o.evals += s.n + e.n + m.n + me.n;
    o.line(&Obj::new().f("xs", xs).f("have", have).f("s", &s).f("e", &e).f("m", &m).f("me", &me).end());
    for d in [&s, &e, &m, &me] { notes.add(o.lines, d) }
}

fn builds(a: &Args) {
    let mut o = Out::new(a, "build");
    let mut notes = hist::Notes::default();
    // all short sequences over two or three keys, every position with its own tag
    let alpha: Vec<(usize, usize)> = if a.thorough { vec![(2, 8), (3, 7), (4, 5)] } else { vec![(2, 6), (3, 5)] };
    for (k, max) in alpha {
        for len in 0..=max {
            for n in 0..k.pow(len as u32) {
                let mut v = n;
                let xs: Vec<i64> = (0..len).map(|p| { let d = v % k; v /= k; mkc(d as i64, (p % 8) as i64) }).collect();
                build_case(&mut o, &mut notes, &xs, if n % 2 == 0 { &[9] } else { &[12, 23] });
                o.stat("exhaustive", 1);
            }
        }
    }
    // always the same element, which then need not take any room
    for len in [1, 2, 3, 7, 8, 9, 31, 32, 33, 100, 1000] {
        build_case(&mut o, &mut notes, &vec![0; len], &[9]);
        o.stat("same", 1);
    }
    let n = if a.thorough { 40000 } else { 4000 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 5_000_000 + c);
        let max = [3, 10, 40, 300][r.below(4)];
        let ks = sequence(&mut r, max);
        let tagged = r.chance(3, 4);
        let xs: Vec<i64> = ks.iter().map(|k| mkc(*k, if tagged { r.below(8) as i64 } else { 0 })).collect();
        let nh = r.below(30);
        let have = with_tag(&random_keys(&mut r, nh, max), 5);
        build_case(&mut o, &mut notes, &xs, &have);
        o.stat("random", 1);
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ storage
/// bytes on the heap, of this thread
struct Weighing;
thread_local! { static HELD: Cell<i64> = const { Cell::new(0) }; static PEAK: Cell<i64> = const { Cell::new(0) }; }
fn weigh(n: i64) {
    let _ = HELD.try_with(|h| { h.set(h.get() + n); let h = h.get(); let _ = PEAK.try_with(|p| p.set(p.get().max(h))); });
}
unsafe impl GlobalAlloc for Weighing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { weigh(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { weigh(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { weigh(n as i64); let q = System.realloc(p, l, n); weigh(-(l.size() as i64)); q }
}
#[global_allocator]
static ALLOC: Weighing = Weighing;
/// the heap a build needs at its worst moment and the heap its result keeps, in elements; no bookkeeping in between
fn weight<T, R>(f: impl FnOnce() -> R) -> (i64, i64) {
    let start = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let (peak, kept) = (PEAK.with(|p| p.get()) - start, HELD.with(|h| h.get()) - start);
    drop(r);
    let size = std::mem::size_of::<T>() as i64;
    ((peak + size - 1) / size, (kept + size - 1) / size)
}

thread_local! { static LIVE: Cell<i64> = Cell::new(0); }
struct Cnt(i64);
impl Cnt { fn new(k: i64) -> Self { LIVE.with(|l| l.set(l.get() + 1)); Cnt(k) } }
impl Drop for Cnt { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl PartialEq for Cnt { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Cnt {}
impl PartialOrd for Cnt { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Cnt { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
/// an element that is laborious to move
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Big(Cnt, [u64; 20]);
impl Big { fn of(c: Cnt) -> Self { Big(c, [0; 20]) } }
fn live() -> i64 { LIVE.with(|l| l.get()) }

/// checkpoints: [elements handed out, elements alive when the next one is asked for]
fn measure<R>(n: usize, at: &[usize], key: impl Fn(usize) -> i64, kind: u8, hint: u8, f: impl FnOnce(&mut dyn Iterator<Item = Cnt>) -> R, len: impl FnOnce(&R) -> usize) -> (Vec<(i64, i64)>, i64, i64, i64) {
    let mut pts: Vec<(i64, i64)> = vec![];
    let start = live();
    let mut worst: BTreeMap<usize, i64> = BTreeMap::new();
    let (res_len, after) = {
        let mut i = 0usize;
        let inner = std::iter::from_fn(|| {
            let l = live() - start;
            // the worst moment in every stretch between two checkpoints, and the checkpoints themselves
            let w = worst.entry(i).or_insert(l);
            *w = (*w).max(l);
            if i == n { return None }
            i += 1;
            Some(Cnt::new(key(i - 1)))
        });
        let mut it = Hinted(inner, hint);
        let r = f(&mut it);
        drop(it);
        let _ = kind;
        (len(&r) as i64, live() - start)
    };
    // keep the checkpoints and, between two of them, the position with the largest number alive
    let mut prev = 0usize;
    for &c in at.iter().chain(std::iter::once(&n)) {
        if c > n { break }
        let w = (prev..=c).filter_map(|p| worst.get(&p).map(|l| (*l, p))).max_by_key(|(l, p)| (*l, usize::MAX - *p));
        if let Some((l, p)) = w { pts.push((p as i64, l)) }
        if let Some(l) = worst.get(&c) { pts.push((c as i64, *l)) }
        prev = c;
    }
    (pts, res_len, after, live() - start)
}
fn storage(a: &Args) {
    let mut o = Out::new(a, "storage");
    let mut case = |o: &mut Out, head: Obj, n: usize, at: &[usize], key: &dyn Fn(usize) -> i64, hint: u8| {
        o.begin(&head.clone().end());
        let mut runs = vec![];
        for kind in 0..8u8 {
            let r = guard(|| match kind {
                0 => measure(n, at, key, kind, hint, |it| it.collect::<VecSet<[Cnt; 2]>>(), |s| s.len()),
                1 => measure(n, at, key, kind, hint, |it| it.collect::<VecSet<[Cnt; 16]>>(), |s| s.len()),
                2 => measure(n, at, key, kind, hint, |it| it.collect::<VecSet<[Cnt; 0]>>(), |s| s.len()),
                3 => measure(n, at, key, kind, hint, |it| it.map(|k| (k, 0u8)).collect::<VecMap<[(Cnt, u8); 1]>>(), |s| s.len()),
                4 => measure(n, at, key, kind, hint, |it| it.map(|k| (k, 0u8)).collect::<VecMap<[(Cnt, u8); 16]>>(), |s| s.len()),
                5 => measure(n, at, key, kind, hint, |it| it.map(Big::of).collect::<VecSet<[Big; 2]>>(), |s| s.len()),
                6 => measure(n, at, key, kind, hint, |it| it.map(|k| (k, [0u8; 200])).collect::<VecMap<[(Cnt, [u8; 200]); 1]>>(), |s| s.len()),
                _ => measure(n, at, key, kind, hint, |it| { let mut s = VecSet::<[Cnt; 4]>::empty(); s.extend(it); s }, |s| s.len()),
            });
            let (pts, len, after, end) = r.unwrap_or((vec![(-1, -1)], -1, -1, -1));
            // once more, from an iterator that knows its length (hint 0) or not
            let it = || Hinted((0..n).map(|i| Cnt::new(key(i))), hint);
            let (peak, kept) = guard(|| match kind {
                0 => weight::<Cnt, _>(|| it().collect::<VecSet<[Cnt; 2]>>()),
                1 => weight::<Cnt, _>(|| it().collect::<VecSet<[Cnt; 16]>>()),
                2 => weight::<Cnt, _>(|| it().collect::<VecSet<[Cnt; 0]>>()),
                3 => weight::<(Cnt, u8), _>(|| it().map(|k| (k, 0u8)).collect::<VecMap<[(Cnt, u8); 1]>>()),
                4 => weight::<(Cnt, u8), _>(|| it().map(|k| (k, 0u8)).collect::<VecMap<[(Cnt, u8); 16]>>()),
                5 => weight::<Big, _>(|| it().map(Big::of).collect::<VecSet<[Big; 2]>>()),
                6 => weight::<(Cnt, [u8; 200]), _>(|| it().map(|k| (k, [0u8; 200])).collect::<VecMap<[(Cnt, [u8; 200]); 1]>>()),
                _ => weight::<Cnt, _>(|| { let mut s = VecSet::<[Cnt; 4]>::empty(); s.extend(it()); s }),
            }).unwrap_or((-1, -1));
            runs.push(Raw(Obj::new().f("kind", kind as i64).f("pts", pts).f("len", len).f("after", after).f("end", end).f("peak", peak).f("kept", kept).end()));
            o.evals += 1;
        }
        o.line(&head.f("runs", runs).end());
    };
    let n = if a.thorough { 6000 } else { 900 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 9_000_000 + c);
        let max = [3, 10, 40, 300][r.below(4)];
        let xs = sequence(&mut r, max);
        let at: Vec<usize> = (0..6).map(|p| xs.len() * p / 6).collect();
        case(&mut o, Obj::new().f("t", "list").f("xs", &xs).f("n", xs.len()), xs.len(), &at, &|i| xs[i], (c % 4) as u8);
    }
    // long periodic streams: the i-th key is (i * step) mod d
    for (c, (d, step)) in [(1usize, 1usize), (2, 1), (5, 2), (5, 4), (8, 3), (16, 15), (17, 5), (40, 39), (63, 62), (100, 1), (100, 99), (100, 37), (257, 100), (500, 499)].iter().enumerate() {
        let n = if a.thorough { 200_000 } else { 20_000 };
        let at: Vec<usize> = vec![10, 50, 100, 500, 1000, 5000, n / 2];
        case(&mut o, Obj::new().f("t", "periodic").f("d", *d).f("step", *step).f("n", n), n, &at, &|i| ((i * step) % d) as i64, (c % 4) as u8);
    }
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "build" => builds(&a),
        "storage" => storage(&a),
        w => panic!("unknown {w}"),
    }
}
