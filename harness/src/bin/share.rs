//! Trees that share child lists: which lists a change copies, which lists a tree reports, and what is
//! written when a tree is saved again to a file that holds most of it already (C30).
use rkyv::{
    de::{SharedDeserializeRegistry, SharedPointer},
    ser::{serializers::{AllocScratch, CompositeSerializer, FallbackScratch, HeapScratch, WriteSerializer, SharedSerializeMapError}, Serializer, SharedSerializeRegistry},
    AlignedVec, Archive, Deserialize, Fallible,
};
use std::{cell::{Cell, RefCell}, collections::{BTreeMap, HashMap}, sync::Arc};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vh::{radix::{Entry, Key}, *};

// ------------------------------------------------------------ values that notice being cloned, written and read
thread_local! {
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static WROTE: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    static READ: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}
#[derive(Debug)]
struct Cv(u64);
impl Clone for Cv { fn clone(&self) -> Self { CLONES.with(|c| c.set(c.get() + 1)); Cv(self.0) } }
impl Archive for Cv {
    type Archived = Cv;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Cv) { out.write(Cv(self.0)) }
}
impl<S: Fallible + ?Sized> rkyv::Serialize<S> for Cv {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> { WROTE.with(|w| w.borrow_mut().push(self.0 as i64)); Ok(()) }
}
impl<D: Fallible + ?Sized> Deserialize<Cv, D> for Cv {
    fn deserialize(&self, _: &mut D) -> Result<Cv, D::Error> { READ.with(|w| w.borrow_mut().push(self.0 as i64)); Ok(Cv(self.0)) }
}
fn wrote() -> Vec<i64> { WROTE.with(|w| std::mem::take(&mut *w.borrow_mut())) }
fn read() -> Vec<i64> { READ.with(|w| std::mem::take(&mut *w.borrow_mut())) }

// ------------------------------------------------------------ what has been written where, and what was read from where
#[derive(Default)]
struct Written(HashMap<*const u8, usize>);
impl Fallible for Written { type Error = SharedSerializeMapError; }
impl SharedSerializeRegistry for Written {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<usize> { self.0.get(&p).copied() }
    fn add_shared_ptr(&mut self, p: *const u8, pos: usize) -> Result<(), Self::Error> {
        match self.0.insert(p, pos) { None => Ok(()), Some(_) => Err(SharedSerializeMapError::DuplicateSharedPointer(p)) }
    }
}
#[derive(Default)]
struct Loaded(HashMap<*const u8, Box<dyn SharedPointer>>);
impl Fallible for Loaded { type Error = std::convert::Infallible; }
impl SharedDeserializeRegistry for Loaded {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> { self.0.get(&p).map(|x| x.as_ref()) }
    fn add_shared_ptr(&mut self, p: *const u8, s: Box<dyn SharedPointer>) -> Result<(), Self::Error> { self.0.insert(p, s); Ok(()) }
}
type FileSer<'a> = CompositeSerializer<WriteSerializer<&'a mut AlignedVec>, FallbackScratch<HeapScratch<256>, AllocScratch>, Written>;

// ------------------------------------------------------------ the two flavours
fn kb(k: &[i64]) -> Vec<u8> { k.iter().map(|x| *x as u8).collect() }
fn kc(k: &[u8]) -> Key { k.iter().map(|x| *x as i64).collect() }
type Arcs<T> = BTreeMap<usize, Arc<Vec<T>>>;
type A = ArcRadixTree<u8, Cv>;
type Z = LazyRadixTree<'static, u8, Cv>;
trait Tree: Sized + Clone + Send + AbstractRadixTreeMut<u8, Cv, Materialized = Self> + From<RadixTree<u8, Cv>> + for<'x> rkyv::Serialize<FileSer<'x>> {
    const LOADS: bool;
    fn arcs(&self, into: &mut Arcs<Self>);
    fn entries(bytes: &[u8], root: usize) -> Vec<Entry>;
    /// several roots of one file, with what they share loaded once
    fn load(bytes: &[u8], roots: &[usize]) -> (Vec<Self>, Written);
}
fn list<T: AbstractRadixTree<u8, Cv>>(t: &T) -> Vec<Entry> { t.iter().map(|(k, v)| (kc(&k), v.0 as i64)).collect() }
impl Tree for A {
    const LOADS: bool = true;
    fn arcs(&self, into: &mut Arcs<Self>) { self.all_arcs(into) }
    fn entries(b: &[u8], root: usize) -> Vec<Entry> { list(unsafe { rkyv::archived_value::<A>(b, root) }) }
    fn load(b: &[u8], roots: &[usize]) -> (Vec<Self>, Written) {
        let mut d = Loaded::default();
        let ts = roots.iter().map(|p| unsafe { rkyv::archived_value::<A>(b, *p) }.deserialize(&mut d).unwrap()).collect();
        let base = b.as_ptr() as usize;
        (ts, Written(d.0.iter().map(|(p, s)| (s.data_address() as *const u8, *p as usize - base)).collect()))
    }
}
impl Tree for Z {
    const LOADS: bool = false;
    fn arcs(&self, into: &mut Arcs<Self>) { self.all_arcs(into) }
    fn entries(b: &[u8], root: usize) -> Vec<Entry> { list(unsafe { rkyv::archived_value::<Z>(b, root) }) }
    fn load(_: &[u8], _: &[usize]) -> (Vec<Self>, Written) { unreachable!() }
}

// ------------------------------------------------------------ which list is which
#[derive(Default)]
struct Names(HashMap<usize, i64>);
impl Names {
    /// a number for a list with something in it, 0 for an empty one
    fn of<T>(&mut self, l: &[T]) -> i64 {
        if l.is_empty() { return 0 }
        let n = self.0.len() as i64 + 1;
        *self.0.entry(l.as_ptr() as usize).or_insert(n)
    }
}
fn val<T: AbstractRadixTree<u8, Cv>>(t: &T) -> i64 { t.value().map(|v| v.0 as i64).unwrap_or(-1) }
fn show<T: AbstractRadixTree<u8, Cv>>(t: &T, ns: &mut Names, out: &mut String) {
    out.push('[');
    kc(t.prefix()).j(out);
    out.push_str(&format!(",{},{},[", val(t), ns.of(t.children())));
    for (i, c) in t.children().iter().enumerate() {
        if i > 0 { out.push(',') }
        show(c, ns, out);
    }
    out.push_str("]]");
}
fn shown<T: AbstractRadixTree<u8, Cv>>(t: &T, ns: &mut Names) -> Raw { let mut s = String::new(); show(t, ns, &mut s); Raw(s) }
fn lists<T: AbstractRadixTree<u8, Cv>>(m: &Arcs<T>, ns: &mut Names) -> Vec<Raw> {
    m.values().filter(|l| !l.is_empty()).map(|l| {
        let id = ns.of(l);
        let nodes: Vec<(Key, (i64, i64))> = l.iter().map(|n| (kc(n.prefix()), (val(n), ns.of(n.children())))).collect();
        Raw((id, Raw(nodes.js())).js())
    }).collect()
}

/// lists handed over by a thread that is done
struct Over<T>(T);
unsafe impl<T> Send for Over<T> {}
/// the different answers several threads got, and how many values were cloned for that
fn crowd<T: Tree>(hs: Vec<T>, k: &[u8]) -> (Vec<Arcs<T>>, u64) {
    let done: Vec<Over<(Vec<Arcs<T>>, u64)>> = std::thread::scope(|s| {
        let ts: Vec<_> = hs.into_iter().enumerate().map(|(n, mut t)| s.spawn(move || {
            CLONES.with(|c| c.set(0));
            let mut all: Vec<Arcs<T>> = vec![];
            if n % 3 == 2 {
                for x in 0..30 { let u = t.clone(); t.insert(k, Cv(x)); t = u }
                return Over((all, 0));
            }
            for _ in 0..150 {
                let mut m = Arcs::new();
                t.arcs(&mut m);
                if !all.iter().any(|a| a.keys().eq(m.keys())) { all.push(m) }
            }
            Over((all, CLONES.with(|c| c.get())))
        })).collect();
        ts.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let mut all: Vec<Arcs<T>> = vec![];
    let mut cl = 0;
    for Over((ms, c)) in done {
        cl += c;
        for m in ms { if !all.iter().any(|a| a.keys().eq(m.keys())) { all.push(m) } }
    }
    (all, cl)
}

const N: usize = 4;
fn random_key(r: &mut Rng, letters: usize, max: usize) -> Key { (0..r.below(max + 1)).map(|_| r.below(letters) as i64).collect() }
struct World<T> { ts: Vec<T>, held: Arcs<T>, reg: Written, file: AlignedVec, roots: Vec<usize>, lines: Vec<u64>, ns: Names }
impl<T: Tree> World<T> {
    fn save(&mut self, i: usize) {
        let from = self.file.len();
        let mut part = AlignedVec::new();
        let mut s: FileSer = CompositeSerializer::new(WriteSerializer::with_pos(&mut part, from), Default::default(), std::mem::take(&mut self.reg));
        let pos = s.serialize_value(&self.ts[i]).unwrap();
        let (_, _, reg) = s.into_components();
        self.reg = reg;
        self.file.extend_from_slice(&part);
        self.roots.push(pos);
        self.ts[i].arcs(&mut self.held);
    }
}
fn history<T: Tree>(o: &mut Out, a: &Args, c: u64, name: &str) {
    let mut r = Rng::new(a.seed, 30_000_000 + c);
    let wide = c % 14 == 5;
    let (letters, max) = if wide { (60, 2) } else { [(2, 4), (3, 3), (4, 3), (2, 7), (5, 2)][r.below(5)] };
    let mut w = World::<T> { ts: (0..N).map(|_| T::empty()).collect(), held: Default::default(), reg: Default::default(), file: Default::default(), roots: vec![], lines: vec![], ns: Default::default() };
    let steps = if wide { r.range(6, 12) } else { r.range(6, 22) };
    let mut es: Vec<Entry> = vec![];
    let mut done: Vec<String> = vec![];
    for step in 0..steps {
        let op = if step == 0 { "new" } else {
            *r.pick(&["new", "clone", "clone", "clone", "insert", "insert", "insert", "diff", "union", "inter", "prepend", "removep", "retp", "filterp", "drop", "hold", "release", "save", "save", "save", "vacuum", "load", "loadall", "pair", "pair", "crowd"])
        };
        let (i, j) = (r.below(N), r.below(N));
        // releasing what is held makes it wrong to go on writing to the same file
        if op == "release" && !w.roots.is_empty() { continue }
        if ["load", "loadall"].contains(&op) && (!T::LOADS || w.roots.is_empty()) { continue }
        if op == "pair" && !T::LOADS { continue }
        if op == "new" {
            let mut ks: Vec<Key> = (0..if wide { r.range(40, 90) } else { r.range(0, 14) }).map(|_| random_key(&mut r, letters, max)).collect();
            // most of them next to each other
            if wide { let (h, p) = (r.below(letters) as i64, r.range(2, 9)); for k in &mut ks { if r.chance(p, 9) && !k.is_empty() { *k = if r.chance(1, 2) { vec![k[0]] } else { vec![h, k[0]] } } } }
            ks.sort();
            ks.dedup();
            es = ks.into_iter().map(|k| (k, r.below(90) as i64)).collect();
        }
        let have: Vec<Entry> = list(&w.ts[i]);
        let mut k = if have.is_empty() || r.chance(1, 4) { random_key(&mut r, letters, max) } else { r.pick(&have).0.clone() };
        match r.below(5) { 0 => { k.pop(); } 1 => k.push(r.below(letters) as i64), 2 => { let n = r.below(k.len() + 1); k.truncate(n) } _ => {} }
        if op != "new" {
            let p = r.range(1, 8);
            es = have.iter().filter(|_| r.chance(p, 16)).cloned().collect();
            if r.chance(1, 2) { es.push((k.clone(), 0)) }
            es.sort();
            es.dedup_by(|a, b| a.0 == b.0);
            for e in &mut es { e.1 = r.below(90) as i64 }
            if op == "prepend" { k.truncate(2) }
        }
        done.push(format!("{op} {i} {j} {k:?} {es:?}"));
        o.begin(&format!("history {c} of {name}: {}", done.join("; ")));
        let other = || -> T { es.iter().map(|e| (kb(&e.0), Cv(e.1 as u64))).collect::<RadixTree<u8, Cv>>().into() };
        let keys = || -> RadixTree<u8, ()> { es.iter().map(|e| (kb(&e.0), ())).collect() };
        let x = r.below(90) as u64;
        let (mut wr, mut rd, mut two, mut arcs, mut at, mut told) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        let mut t = if op == "new" { other() } else { T::empty() };
        let that = if op == "union" { other() } else { T::empty() };
        CLONES.with(|c| c.set(0));
        wrote();
        read();
        let mut cl = None;
        match op {
            "new" => std::mem::swap(&mut w.ts[i], &mut t),
            "clone" => if i != j { let n = w.ts[i].clone(); w.ts[j] = n },
            "insert" => w.ts[i].insert(&kb(&k), Cv(x)),
            "diff" => w.ts[i].difference_with(&keys()),
            "union" => w.ts[i].union_with(&that),
            "inter" => w.ts[i].intersection_with(&keys()),
            "prepend" => w.ts[i].prepend(&kb(&k)),
            "removep" => w.ts[i].remove_prefix_with(&keys(), |_| true),
            "retp" => w.ts[i].retain_prefix_with(&keys(), |_| true),
            "filterp" => { let n = w.ts[i].filter_prefix(&kb(&k)); w.ts[j] = n }
            "drop" => w.ts[i] = T::empty(),
            "hold" => {
                let mut m = Arcs::new();
                w.ts[i].arcs(&mut m);
                cl = Some(CLONES.with(|c| c.get()));
                arcs = lists(&m, &mut w.ns);
                w.held.extend(m);
            }
            // several threads with a handle each, some asking for the lists and some changing what is theirs
            "crowd" => {
                let hs: Vec<T> = (0..6).map(|_| w.ts[i].clone()).collect();
                let (all, made) = crowd(hs, &kb(&k));
                cl = Some(made);
                told = all.iter().map(|m| Raw(lists(m, &mut w.ns).js())).collect::<Vec<_>>();
                told.dedup_by(|a, b| a.0 == b.0);
            }
            "release" => w.held.clear(),
            "save" => { w.save(i); wr = wrote() }
            "vacuum" => {
                w.file = AlignedVec::new();
                w.reg = Written::default();
                w.held.clear();
                w.roots.clear();
                w.lines.clear();
                w.save(i);
                wr = wrote();
            }
            "load" => {
                let (mut ts, reg) = T::load(&w.file, &w.roots[w.roots.len() - 1..]);
                rd = read();
                w.ts[i] = ts.pop().unwrap();
                w.reg = reg;
                w.held.clear();
                w.ts[i].arcs(&mut w.held);
            }
            "loadall" => {
                let n = w.lines.len();
                let of = |l: u64| w.roots.len() - n + w.lines.iter().position(|x| *x == l).unwrap();
                if n > 0 {
                    at = vec![w.lines[r.below(n)], w.lines[r.below(n)]];
                    let ps: Vec<usize> = at.iter().map(|l| w.roots[of(*l)]).collect();
                    let (ts, _) = T::load(&w.file, &ps);
                    rd = read();
                    let mut ns = Names::default();
                    two = ts.iter().map(|t| shown(t, &mut ns)).collect();
                }
            }
            "pair" => {
                let mut bytes = AlignedVec::new();
                let mut s: FileSer = CompositeSerializer::new(WriteSerializer::new(&mut bytes), Default::default(), Written::default());
                let ps = vec![s.serialize_value(&w.ts[i]).unwrap(), s.serialize_value(&w.ts[j]).unwrap()];
                drop(s);
                wr = wrote();
                let (ts, _) = T::load(&bytes, &ps);
                rd = read();
                let mut ns = Names::default();
                two = ts.iter().map(|t| shown(t, &mut ns)).collect();
            }
            _ => unreachable!(),
        }
        let cl = cl.unwrap_or(CLONES.with(|c| c.get()));
        drop((t, that));
        let roots: Vec<Vec<Entry>> = if ["save", "load", "vacuum"].contains(&op) { w.roots.iter().map(|p| T::entries(&w.file, *p)).collect() } else { vec![] };
        let held = lists(&w.held, &mut w.ns);
        let all: Vec<Raw> = w.ts.iter().map(|t| shown(t, &mut w.ns)).collect();
        o.evals += 1;
        o.line(&Obj::new().f("o", op).f("first", (step == 0) as i64).f("i", i + 1).f("j", j + 1).f("k", &k).f("x", x as i64).f("es", &es).f("cl", cl as i64)
            .f("wr", wr).f("rd", rd).f("at", at).f("two", two).f("arcs", arcs).f("told", told).f("roots", roots).f("held", held).f("all", all).end());
        if op == "save" || op == "vacuum" { w.lines.push(o.lines) }
        if op == "load" { w.lines.clear() }
        o.stat(op, 1);
    }
}

fn main() {
    let a = args();
    let mut o = Out::new(&a, "share");
    let n = if a.thorough { 12000 } else { 1400 };
    for c in 0..n { if c % 3 == 2 { history::<Z>(&mut o, &a, c, "lazy") } else { history::<A>(&mut o, &a, c, "arc") } }
    o.finish();
}
