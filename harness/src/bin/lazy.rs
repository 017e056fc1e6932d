//! Lazily loaded radix trees, queried from several threads (C19), also when cloning a value panics (C25).
use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering::SeqCst}, Barrier, Mutex};
use std::cell::{Cell, RefCell};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, LazyRadixTree, RadixTree};
use vh::{arch::*, radix::{Entry, Key}, *};

// ------------------------------------------------------------ values that notice being cloned and dropped
static ALIVE: Mutex<Vec<bool>> = Mutex::new(Vec::new());
static BUSY: Mutex<Vec<i64>> = Mutex::new(Vec::new());
static SLOW: AtomicBool = AtomicBool::new(false);
static CLONES: AtomicU64 = AtomicU64::new(0);
static TWICE: AtomicU64 = AtomicU64::new(0);
thread_local! { static EVENTS: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) }; }
// which clone of this thread, counted from now, panics (0: none does)
thread_local! { static BOMB: Cell<i64> = const { Cell::new(0) }; }
fn tick() {
    let n = BOMB.with(|b| b.get());
    if n > 0 {
        BOMB.with(|b| b.set(n - 1));
        if n == 1 { FIRED.with(|f| f.set(true)); panic!("clone") }
    }
}
thread_local! { static FIRED: Cell<bool> = const { Cell::new(false) }; }
fn born() -> u64 { let mut a = ALIVE.lock().unwrap(); a.push(true); a.len() as u64 - 1 }
fn alive(s: u64) -> bool { ALIVE.lock().unwrap().get(s as usize).copied().unwrap_or(false) }

#[derive(Debug)]
struct Lv { code: i64, serial: u64 }
impl Lv { fn new(code: i64) -> Self { Lv { code, serial: born() } } }
impl Clone for Lv {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, SeqCst);
        tick();
        EVENTS.with(|e| e.borrow_mut().push(self.code));
        if SLOW.load(SeqCst) {
            // stay here long enough for another thread to come along
            BUSY.lock().unwrap().push(self.code);
            let t = std::time::Instant::now();
            while t.elapsed().as_micros() < 300 {
                if BUSY.lock().unwrap().iter().filter(|c| **c == self.code).count() > 1 { break }
                std::thread::yield_now();
            }
            let mut b = BUSY.lock().unwrap();
            let p = b.iter().position(|c| *c == self.code).unwrap();
            b.swap_remove(p);
        }
        Lv { code: self.code, serial: born() }
    }
}
impl Drop for Lv {
    fn drop(&mut self) {
        if let Ok(mut a) = ALIVE.lock() {
            match a.get_mut(self.serial as usize) {
                Some(x) if *x => *x = false,
                _ => { TWICE.fetch_add(1, SeqCst); }
            }
        }
    }
}
self_archived!(Lv);
type T = LazyRadixTree<'static, u8, Lv>;
fn kb(k: &[i64]) -> Vec<u8> { k.iter().map(|x| *x as u8).collect() }
fn kc(k: &[u8]) -> Key { k.iter().map(|x| *x as i64).collect() }

// ------------------------------------------------------------ queries
#[derive(Clone, Debug)]
struct Q { q: &'static str, k: Key, n: usize, es: Vec<Entry>, bomb: i64 }
fn ask<'a>(t: &'a T, q: &Q, held: &mut Vec<(&'a Lv, i64, u64)>) -> Raw {
    let k = kb(&q.k);
    let mut hold = |v: &'a Lv| { held.push((v, v.code, v.serial)); v.code };
    match q.q {
        "get" => Raw(t.get(&k).map(&mut hold).unwrap_or(-1).js()),
        "has" => Raw((t.contains_key(&k) as i64).js()),
        "empty" => Raw((t.is_empty() as i64).js()),
        "iter" => Raw(t.iter().take(q.n).map(|(k, v)| (kc(&k), hold(v))).collect::<Vec<Entry>>().js()),
        "vals" => Raw(t.values().take(q.n).map(&mut hold).collect::<Vec<i64>>().js()),
        "scan" => {
            let mut r: Vec<Entry> = vec![];
            for (k, v) in t.scan_prefix(&k).take(q.n) { r.push((kc(&k), v.code)) }
            Raw(r.js())
        }
        "filter" => {
            let f = t.filter_prefix(&k);
            Raw((kc(f.prefix()), f.value().map(|v| v.code).unwrap_or(-1)).js())
        }
        "rel" => {
            let o: RadixTree<u8, ()> = q.es.iter().map(|e| (kb(&e.0), ())).collect();
            Raw(vec![t.is_subset(&o) as i64, o.is_subset(t) as i64, t.is_disjoint(&o) as i64, t.intersects(&o) as i64].js())
        }
        "arcs" => { // values in the child lists that are loaded, and how many were cloned to tell
            let n = EVENTS.with(|e| e.borrow().len());
            let mut arcs = std::collections::BTreeMap::new();
            t.all_arcs(&mut arcs);
            let mut r: Vec<i64> = arcs.values().flat_map(|l| l.iter().filter_map(|c| c.value().map(|v| v.code))).collect();
            r.sort();
            Raw((r, EVENTS.with(|e| e.borrow().len()) - n).js())
        }
        q => panic!("unknown query {q}"),
    }
}
fn change(t: &mut T, q: &Q) {
    match q.q {
        "insert" => t.insert(&kb(&q.k), Lv::new(q.n as i64)),
        "diff" => { let o: RadixTree<u8, ()> = q.es.iter().map(|e| (kb(&e.0), ())).collect(); t.difference_with(&o) }
        "union" => { let o: T = q.es.iter().map(|e| (kb(&e.0), Lv::new(e.1))).collect::<RadixTree<u8, Lv>>().into(); t.union_with(&o) }
        _ => unreachable!(),
    }
}
const CHANGES: &[&str] = &["insert", "diff", "union"];

struct Done { t: T, rs: Vec<Raw>, ev: Vec<i64>, held: Vec<Vec<i64>>, spoilt: bool }
/// runs f with the bomb of the query armed; a panic is told apart from others by whether the bomb went off
fn armed<R>(q: &Q, f: impl FnOnce() -> R) -> Result<R, String> {
    FIRED.with(|f| f.set(false));
    BOMB.with(|b| b.set(q.bomb));
    let r = guard(f);
    BOMB.with(|b| b.set(0));
    r.map_err(|e| if FIRED.with(|f| f.get()) { "clone".into() } else { e })
}
/// what one thread does: its queries in order, holding on to every reference until everybody is done
fn work(mut t: T, qs: &[Q], bar: &Barrier) -> Result<Done, String> {
    EVENTS.with(|e| e.borrow_mut().clear());
    bar.wait();
    let mut rs = vec![];
    let mut held = vec![];
    let mut i = 0;
    let mut bad = None;
    let mut spoilt = false;
    while i < qs.len() && CHANGES.contains(&qs[i].q) {
        match armed(&qs[i], || change(&mut t, &qs[i])) {
            Err(e) if e == "clone" => { spoilt = true; rs.push(Raw("\"clone\"".into())) }
            Err(e) => { bad = Some(e); rs.push(Raw("0".into())) }
            _ => rs.push(Raw("0".into())),
        }
        i += 1;
    }
    {
        let mut refs = vec![];
        // what is left of a tree of which a change was interrupted must at least be intact
        if spoilt { if let Err(e) = guard(|| ask(&t, &Q { q: "iter", k: vec![], n: 1000, es: vec![], bomb: 0 }, &mut refs)) { bad = Some(e) } }
        for q in &qs[i..] { rs.push(armed(q, || ask(&t, q, &mut refs)).unwrap_or_else(|e| Raw(if e == "clone" { "\"clone\"" } else { "\"panic\"" }.into()))) }
        bar.wait();
        let ev: Vec<i64> = EVENTS.with(|e| e.borrow().clone());
        for (v, code, serial) in refs { held.push(vec![code, if alive(serial) && v.serial == serial { v.code } else { -1 }]) }
        if let Some(e) = bad { return Err(e) }
        return Ok(Done { ev, rs, held, t, spoilt });
    }
}

// ------------------------------------------------------------ histories
fn random_key(r: &mut Rng, letters: usize, max: usize) -> Key { (0..r.below(max + 1)).map(|_| r.below(letters) as i64).collect() }
fn entries(r: &mut Rng) -> (Vec<Entry>, usize, usize) {
    let (letters, max) = [(2, 5), (3, 4), (4, 3), (6, 3), (2, 8)][r.below(5)];
    let n = r.range(1, 18);
    let mut ks: Vec<Key> = vec![];
    let head = if r.chance(1, 4) { random_key(r, letters, 4) } else { vec![] };
    for _ in 0..n {
        let mut k = head.clone();
        k.extend(random_key(r, letters, max));
        if r.chance(1, 2) { for i in head.len()..k.len() { ks.push(k[..i].to_vec()) } }
        ks.push(k);
    }
    ks.sort();
    ks.dedup();
    if ks.len() > 30 { while ks.len() > 30 { let i = r.below(ks.len()); ks.remove(i); } }
    (ks.into_iter().enumerate().map(|(i, k)| (k, i as i64)).collect(), letters, max)
}
fn near(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Key {
    if r.chance(1, 5) || es.is_empty() { return random_key(r, letters, max) }
    let mut k = r.pick(es).0.clone();
    match r.below(5) { 0 => { k.pop(); } 1 => k.push(r.below(letters) as i64), 2 => { let c = r.below(k.len() + 1); k.truncate(c) } _ => {} }
    k
}
fn some(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Vec<Entry> {
    let p = r.range(1, 9);
    let mut v: Vec<Entry> = es.iter().filter(|_| r.chance(p, 10)).cloned().collect();
    if r.chance(1, 3) { let k = random_key(r, letters, max); if !v.iter().any(|e| e.0 == k) { v.push((k, 1)) } }
    v
}
fn query(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Q {
    let q = *r.pick(&["get", "get", "get", "has", "empty", "iter", "vals", "scan", "filter", "rel"]);
    let n = match r.below(3) { 0 => r.range(1, 4), 1 => r.range(1, 12), _ => 100 };
    Q { q, k: near(r, es, letters, max), n, es: if q == "rel" { some(r, es, letters, max) } else { vec![] }, bomb: 0 }
}
fn mutation(r: &mut Rng, es: &[Entry], letters: usize, max: usize) -> Q {
    let q = *r.pick(CHANGES);
    Q { q, k: near(r, es, letters, max), n: r.range(100, 200), es: if q == "insert" { vec![] } else { some(r, es, letters, max).into_iter().map(|e| (e.0, e.1 + 50)).collect() }, bomb: 0 }
}
fn qj(q: &Q, r: &Raw) -> Raw { Raw(Obj::new().f("q", q.q).f("k", &q.k).f("n", q.n).f("es", &q.es).f("r", r).f("b", q.bomb).f("p", (r.0 == "\"clone\"") as usize).end()) }
fn keys_of(ev: &[i64], es: &[Entry], top: &[u8]) -> Vec<Key> {
    // the value of the top node belongs to the handle and may be cloned freely
    ev.iter().filter_map(|c| es.get(*c as usize).map(|e| e.0.clone())).filter(|k| *k != kc(top)).collect()
}

fn history(o: &mut Out, a: &Args, c: u64) {
    let mut r = Rng::new(a.seed, 19_000_000 + c);
    let shaken = a.what == "shaken";
    let twice = TWICE.load(SeqCst);
    let (es, letters, max) = entries(&mut r);
    let tree: T = es.iter().map(|(k, v)| (kb(k), Lv::new(*v))).collect::<RadixTree<u8, Lv>>().into();
    let bytes = radix::leak(&Arch::new(&tree).bytes);
    drop(tree);
    // the values in the archive stay
    let start = ALIVE.lock().unwrap().len();
    let archived: &'static <T as rkyv::Archive>::Archived = unsafe { rkyv::archived_root::<T>(bytes) };
    EVENTS.with(|e| e.borrow_mut().clear());
    let mut hs: Vec<Option<T>> = (0..4).map(|_| None).collect();
    hs[0] = Some(T::from(archived));
    let top: Vec<u8> = hs[0].as_ref().unwrap().prefix().to_vec();
    let ev = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    o.begin(&format!("{{\"history\":{c}}}"));
    o.line(&Obj::new().f("o", "open").f("h", 1usize).f("g", 0usize).f("es", &es).f("top", kc(&top)).f("ev", keys_of(&ev, &es, &top)).f("ts", Vec::<Raw>::new()).end());
    let steps = r.range(3, 9);
    for _ in 0..steps {
        let have: Vec<usize> = (0..4).filter(|i| hs[*i].is_some()).collect();
        match r.below(10) {
            0..=1 => {
                let (i, j) = (*r.pick(&have), r.below(4));
                EVENTS.with(|e| e.borrow_mut().clear());
                let t = hs[i].clone();
                let ev = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
                hs[j] = t;
                o.line(&Obj::new().f("o", "clone").f("h", i + 1).f("g", j + 1).f("es", Vec::<Raw>::new()).f("top", kc(&top)).f("ev", keys_of(&ev, &es, &top)).f("ts", Vec::<Raw>::new()).end());
            }
            2 if have.len() > 1 => {
                let i = *r.pick(&have);
                hs[i] = None;
                o.line(&Obj::new().f("o", "drop").f("h", i + 1).f("g", 0usize).f("es", Vec::<Raw>::new()).f("top", kc(&top)).f("ev", Vec::<Raw>::new()).f("ts", Vec::<Raw>::new()).end());
            }
            _ => {
                // some handles, a thread each; often all of them after the same thing
                let mut used: Vec<usize> = have.clone();
                if a.what == "arcs" || r.chance(1, 3) { r.shuffle(&mut used); used.truncate(1) }
                let same = r.chance(1, 2);
                let first: Vec<Q> = (0..r.range(1, 3)).map(|_| query(&mut r, &es, letters, max)).collect();
                let arcs = r.chance(if a.what == "arcs" { 8 } else { 3 }, 10);
                let plans: Vec<Vec<Q>> = used.iter().enumerate().map(|(n, _)| {
                    let mut qs = if same { first.clone() } else { (0..r.range(1, 4)).map(|_| query(&mut r, &es, letters, max)).collect() };
                    if n > 0 && r.chance(1, 8) { qs.insert(0, mutation(&mut r, &es, letters, max)) }
                    if a.what == "arcs" { qs.retain(|q| q.q != "filter") }
                    if shaken {
                        qs.retain(|q| !CHANGES.contains(&q.q));
                        // panics at the first clones matter most: what is loaded first is near the top
                        if r.chance(1, 8) {
                            let mut q = mutation(&mut r, &es, letters, max);
                            q.bomb = r.range(1, 6) as i64;
                            qs = vec![q];
                        } else {
                            for q in qs.iter_mut() { if r.chance(1, 2) { q.bomb = r.range(1, 6) as i64 } }
                            // asked again, it answers
                            let again: Vec<Q> = qs.iter().cloned().map(|mut q| { if r.chance(4, 5) { q.bomb = 0 } q }).collect();
                            qs.extend(again);
                        }
                    }
                    if arcs && !shaken { qs.push(Q { q: "arcs", k: vec![], n: 0, es: vec![], bomb: 0 }) }
                    qs
                }).collect();
                o.begin(&format!("history {c}: threads doing {plans:?}"));
                let bar = Barrier::new(used.len());
                SLOW.store(used.len() > 1, SeqCst);
                let moved: Vec<T> = used.iter().map(|i| hs[*i].take().unwrap()).collect();
                let done: Vec<Result<Done, String>> = std::thread::scope(|s| {
                    let js: Vec<_> = moved.into_iter().zip(&plans).map(|(t, p)| { let bar = &bar; s.spawn(move || work(t, p, bar)) }).collect();
                    js.into_iter().map(|j| j.join().unwrap_or_else(|_| Err("panic".into()))).collect()
                });
                SLOW.store(false, SeqCst);
                let mut ts = vec![];
                let mut dead = vec![];
                let mut spoilt = vec![];
                for ((i, p), d) in used.iter().zip(&plans).zip(done) {
                    match d {
                        Ok(d) => {
                            let qs: Vec<Raw> = p.iter().zip(&d.rs).map(|(q, r)| qj(q, r)).collect();
                            o.evals += qs.len() as u64;
                            ts.push(Raw(Obj::new().f("h", *i + 1).f("qs", qs).f("ev", keys_of(&d.ev, &es, &top)).f("held", &d.held).f("ok", 1usize).end()));
                            for q in p { if q.bomb > 0 { o.stat("queries that might panic", 1) } }
                            o.stat("queries that panicked", d.rs.iter().filter(|r| r.0 == "\"clone\"").count() as u64);
                            hs[*i] = Some(d.t);
                            if d.spoilt { spoilt.push(*i) }
                        }
                        Err(_) => {
                            let qs: Vec<Raw> = p.iter().map(|q| qj(q, &Raw("\"panic\"".into()))).collect();
                            ts.push(Raw(Obj::new().f("h", *i + 1).f("qs", qs).f("ev", Vec::<Raw>::new()).f("held", Vec::<Raw>::new()).f("ok", 0usize).end()));
                            dead.push(*i);
                        }
                    }
                }
                o.stat(&format!("phases with {} threads", used.len()), 1);
                o.line(&Obj::new().f("o", "par").f("h", 0usize).f("g", 0usize).f("es", Vec::<Raw>::new()).f("top", kc(&top)).f("ev", Vec::<Raw>::new()).f("ts", ts).end());
                if !dead.is_empty() { return }
                for i in spoilt {
                    hs[i] = None;
                    o.line(&Obj::new().f("o", "drop").f("h", i + 1).f("g", 0usize).f("es", Vec::<Raw>::new()).f("top", kc(&top)).f("ev", Vec::<Raw>::new()).f("ts", Vec::<Raw>::new()).end());
                }
                if hs.iter().all(|h| h.is_none()) { break }
            }
        }
    }
    drop(hs);
    if shaken {
        let left = ALIVE.lock().unwrap()[start..].iter().filter(|x| **x).count();
        let twice = TWICE.load(SeqCst) - twice;
        o.line(&Obj::new().f("o", "end").f("h", left).f("g", twice).f("es", Vec::<Raw>::new()).f("top", kc(&top)).f("ev", Vec::<Raw>::new()).f("ts", Vec::<Raw>::new()).end());
    }
}

fn main() {
    let a = args();
    let mut o = Out::new(&a, &a.what);
    let n = if a.thorough { 12000 } else { 1500 };
    for c in 0..n { history(&mut o, &a, c) }
    o.stat("value clones", CLONES.load(SeqCst));
    o.finish();
}
