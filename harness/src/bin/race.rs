//! Radix trees that share nodes, queried and changed by several threads at the same time without any
//! synchronisation between them but that of the trees themselves (C18, C19). Meant to be built with the
//! thread sanitizer, which ends the process when two accesses to the same memory are unordered.
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vh::{arch::*, radix::{Entry, Key}, *};

type L = LazyRadixTree<'static, u8, u64>;
type A = ArcRadixTree<u8, String>;
fn kb(k: &[i64]) -> Vec<u8> { k.iter().map(|x| *x as u8).collect() }
fn kc(k: &[u8]) -> Key { k.iter().map(|x| *x as i64).collect() }
trait Val: Clone + Send { fn of(c: i64) -> Self; fn code(&self) -> i64; }
impl Val for u64 { fn of(c: i64) -> Self { c as u64 } fn code(&self) -> i64 { *self as i64 } }
impl Val for String { fn of(c: i64) -> Self { format!("{c:0>30}") } fn code(&self) -> i64 { self.parse().unwrap_or(-2) } }

#[derive(Clone, Debug)]
struct Q { q: &'static str, k: Key, n: usize, es: Vec<Entry> }
macro_rules! world {
    ($name:ident, $t:ty, $v:ty) => {
        mod $name {
            use super::*;
            pub fn ask(t: &$t, q: &Q) -> Raw {
                let k = kb(&q.k);
                let code = |v: &$v| v.code();
                match q.q {
                    "get" => Raw(t.get(&k).map(code).unwrap_or(-1).js()),
                    "has" => Raw((t.contains_key(&k) as i64).js()),
                    "empty" => Raw((t.is_empty() as i64).js()),
                    "iter" => Raw(t.iter().take(q.n).map(|(k, v)| (kc(&k), code(v))).collect::<Vec<Entry>>().js()),
                    "vals" => Raw(t.values().take(q.n).map(code).collect::<Vec<i64>>().js()),
                    "scan" => Raw(t.scan_prefix(&k).take(q.n).map(|(k, v)| (kc(&k), code(v))).collect::<Vec<Entry>>().js()),
                    "filter" => {
                        let f = t.filter_prefix(&k);
                        Raw((kc(f.prefix()), f.value().map(code).unwrap_or(-1)).js())
                    }
                    "rel" => {
                        let o: RadixTree<u8, ()> = q.es.iter().map(|e| (kb(&e.0), ())).collect();
                        Raw(vec![t.is_subset(&o) as i64, o.is_subset(t) as i64, t.is_disjoint(&o) as i64, t.intersects(&o) as i64].js())
                    }
                    q => panic!("unknown query {q}"),
                }
            }
            pub fn change(t: &mut $t, q: &Q) {
                match q.q {
                    "insert" => t.insert(&kb(&q.k), <$v>::of(q.n as i64)),
                    "diff" => { let o: RadixTree<u8, ()> = q.es.iter().map(|e| (kb(&e.0), ())).collect(); t.difference_with(&o) }
                    "union" => {
                        let o: $t = q.es.iter().map(|e| (kb(&e.0), <$v>::of(e.1))).collect::<RadixTree<u8, $v>>().into();
                        t.union_with(&o)
                    }
                    _ => unreachable!(),
                }
            }
            pub fn all(t: &$t) -> Vec<Entry> { t.iter().map(|(k, v)| (kc(&k), v.code())).collect() }
            pub fn work(mut t: $t, qs: &[Q]) -> (Vec<Raw>, Vec<Entry>) {
                let mut rs = vec![];
                for q in qs {
                    if q.q == "snap" {
                        // change a clone, which must not be seen here
                        let mut s = t.clone();
                        s.insert(&kb(&q.k), <$v>::of(7));
                        if q.n % 2 == 0 { std::mem::swap(&mut s, &mut t); std::mem::swap(&mut s, &mut t) }
                        rs.push(Raw("0".into()));
                    } else if CHANGES.contains(&q.q) {
                        change(&mut t, q);
                        rs.push(Raw("0".into()));
                    } else {
                        rs.push(ask(&t, q));
                    }
                }
                let f = all(&t);
                (rs, f)
            }
        }
    };
}
world!(lazy, L, u64);
world!(arc, A, String);
const CHANGES: &[&str] = &["insert", "diff", "union"];

fn random_key(r: &mut Rng, letters: usize, max: usize) -> Key { (0..r.below(max + 1)).map(|_| r.below(letters) as i64).collect() }
fn entries(r: &mut Rng) -> (Vec<Entry>, usize, usize) {
    let (letters, max) = [(2, 4), (3, 3), (4, 3), (2, 6)][r.below(4)];
    let mut ks: Vec<Key> = (0..r.range(2, 14)).map(|_| random_key(r, letters, max)).collect();
    ks.sort();
    ks.dedup();
    (ks.into_iter().enumerate().map(|(i, k)| (k, i as i64)).collect(), letters, max)
}
fn near(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Key {
    if r.chance(1, 5) { return random_key(r, letters, max) }
    let mut k = r.pick(es).0.clone();
    match r.below(6) { 0 => { k.pop(); } 1 => k.push(r.below(letters) as i64), _ => {} }
    k
}
fn some(r: &mut Rng, es: &[Entry]) -> Vec<Entry> { let p = r.range(1, 9); es.iter().filter(|_| r.chance(p, 10)).cloned().collect() }
fn plan(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Vec<Q> {
    (0..r.range(1, 4)).map(|_| {
        let q = *r.pick(&["get", "get", "has", "iter", "vals", "scan", "filter", "rel", "insert", "insert", "diff", "union", "snap", "snap"]);
        let n = if CHANGES.contains(&q) { r.range(50, 90) } else { [2, 5, 100][r.below(3)] };
        let list = if ["rel", "diff", "union"].contains(&q) { some(r, es).into_iter().map(|e| (e.0, e.1 + 30)).collect() } else { vec![] };
        Q { q, k: near(r, es, letters, max), n, es: list }
    }).collect()
}
fn line(o: &mut Out, es: &[Entry], plans: &[Vec<Q>], done: &[(Vec<Raw>, Vec<Entry>)]) {
    let ts: Vec<Raw> = plans.iter().zip(done).map(|(p, (rs, f))| {
        let qs: Vec<Raw> = p.iter().zip(rs).map(|(q, r)| Raw(Obj::new().f("q", q.q).f("k", &q.k).f("n", q.n).f("es", &q.es).f("r", r).end())).collect();
        Raw(Obj::new().f("qs", qs).f("final", f).end())
    }).collect();
    o.evals += plans.iter().map(|p| p.len() as u64).sum::<u64>();
    o.line(&Obj::new().f("es", es).f("ts", ts).end());
}
macro_rules! history {
    ($name:ident, $w:ident, $open:expr) => {
        fn $name(o: &mut Out, a: &Args, c: u64) {
            let mut r = Rng::new(a.seed, 18_500_000 + c);
            let (es, letters, max) = entries(&mut r);
            let first = $open(&es);
            // some of it was visited before the clones are made
            for _ in 0..r.below(3) { let _ = $w::ask(&first, &Q { q: *r.pick(&["get", "filter", "vals"]), k: near(&mut r, &es, letters, max), n: 2, es: vec![] }); }
            let n = r.range(2, 4);
            let plans: Vec<Vec<Q>> = (0..n).map(|_| plan(&mut r, &es, letters, max)).collect();
            o.begin(&format!("history {c} of {}: threads doing {plans:?} on {es:?}", stringify!($w)));
            let mut handles: Vec<_> = (1..n).map(|_| first.clone()).collect();
            handles.push(first);
            let done: Vec<_> = std::thread::scope(|s| {
                let js: Vec<_> = handles.into_iter().zip(&plans).map(|(t, p)| s.spawn(move || $w::work(t, p))).collect();
                js.into_iter().map(|j| j.join()).collect()
            });
            let done: Vec<_> = done.into_iter().map(|d| d.unwrap_or_else(|_| (plans[0].iter().map(|_| Raw("\"panic\"".into())).collect(), vec![]))).collect();
            line(o, &es, &plans, &done);
        }
    };
}
history!(lazy_history, lazy, |es: &[Entry]| {
    let tree: L = es.iter().map(|(k, v)| (kb(k), *v as u64)).collect::<RadixTree<u8, u64>>().into();
    let bytes = radix::leak(&Arch::new(&tree).bytes);
    let archived: &'static <L as rkyv::Archive>::Archived = unsafe { rkyv::archived_root::<L>(bytes) };
    L::from(archived)
});
history!(arc_history, arc, |es: &[Entry]| -> A { es.iter().map(|(k, v)| (kb(k), String::of(*v))).collect::<RadixTree<u8, String>>().into() });

fn main() {
    let a = args();
    if a.what.is_empty() { return }
    let lazy = a.what == "lazy";
    let mut o = Out::new(&a, if lazy { "lazy" } else { "arc" });
    let n = if a.thorough { 20000 } else { 2500 };
    for c in 0..n { if lazy { lazy_history(&mut o, &a, c) } else { arc_history(&mut o, &a, c) } }
    o.finish();
}
