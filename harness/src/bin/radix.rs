//! Radix trees: histories (C13, C14, C18) and single operations on pairs (C15, C16, C17).
use std::collections::BTreeMap;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vh::{callbacks::*, elem::*, gen::key_pair, hist::*, radix::*, worlds::{TreeWorld as W, *}, *};

fn worlds(regs: usize) -> Vec<Box<dyn World>> {
    vec![
        W::<RadixTree<u8, i64>>::new(regs, false, false),
        W::<ArcRadixTree<u8, i64>>::new(regs, false, false),
        W::<LazyRadixTree<'static, u8, i64>>::new(regs, false, false),
        W::<LazyRadixTree<'static, i64, u8>>::new(regs, false, true),
        W::<ArcRadixTree<u32, u8>>::new(regs, true, false),
        W::<RadixTree<i64, u8>>::new(regs, true, false),
        W::<ArcRadixTree<u8, Txt>>::new(regs, false, false),
        W::<LazyRadixTree<'static, char, i64>>::new(regs, true, false),
        W::<ArcRadixTree<char, i64>>::new(regs, false, true),
        W::<RadixTree<u8, Txt>>::new(regs, false, false),
        W::<RadixTree<u16, u8>>::new(regs, false, false),
        W::<ArcRadixTree<i32, i64>>::new(regs, true, false),
        W::<LazyRadixTree<'static, u16, i64>>::new(regs, false, true),
    ]
}

fn history(a: &Args, snapshots: bool) {
    let mut o = Out::new(a, if snapshots { "snapshots" } else { "history" });
    let regs = if snapshots { 5 } else { 3 };
    let mut ws = worlds(regs);
    if snapshots { ws.retain(|w| !w.name().starts_with("flat<i64")) }
    let mut notes = Notes::default();
    for ops in scripts(a) {
        let mut u: Vec<_> = ws.iter_mut().collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
        o.stat("spec_behaviours", 1);
    }
    let n = if a.thorough { 5000 } else if snapshots { 250 } else { 500 };
    for h in 0..n {
        let mut r = Rng::new(a.seed, 7000 + h + if snapshots { 1 << 30 } else { 0 });
        // a few with more children at one place, or more levels, than a byte counts
        let (wide, deep) = (h % 50 == 23, h % 100 == 37);
        let v = if wide { broad() } else if deep { skyscraper(&mut r) } else { vocab(&mut r) };
        let len = if wide || deep { r.range(6, 12) } else { r.range(8, 40) };
        let mut seen = vec![];
        let mut ops: Vec<Op> = (0..len).map(|_| tree_op(&mut r, &v, regs, &mut seen, snapshots)).filter(|op| op.o != "prepend" || op.xs.len() < 5).collect();
        if wide || deep {
            for i in 1..=2 { ops.insert(0, Op { o: "collect".into(), i, es: v.entries(&mut r, 40), x: i as i64, ..Default::default() }) }
            o.stat(if wide { "wide_histories" } else { "deep_histories" }, 1);
        }
        let mut u: Vec<_> = ws.iter_mut().filter(|w| if wide { letters(&w.name()) } else { !deep || !w.name().contains(' ') || letters(&w.name()) }).collect();
        run_history(&mut o, &mut u, 0, &ops, &mut notes);
    }
    notes.save(a);
    o.finish();
}

// ------------------------------------------------------------ pairs
#[derive(Default)]
struct Rec { m: BTreeMap<&'static str, Distinct> }
impl Rec {
    fn add(&mut self, k: &'static str, v: Raw, from: &str) { self.m.entry(k).or_default().add(v, from) }
    fn emit(self, o: &mut Out, head: Obj, note: &mut String) {
        let mut l = head;
        for (k, d) in &self.m {
            o.evals += d.n;
            l = l.f(k, d);
            if d.vals.len() > 1 { note.push_str(&format!("{}: {k}: {}\n", o.lines + 1, d.note())) }
        }
        o.line(&l.end());
    }
}
fn with_calls(c: &Calls, r: Raw) -> Raw { Raw(format!("[{},{}]", c.sorted().js(), r.0)) }

/// f is run with every kind of tree holding es
trait OnTree<K: Kc, V: Val + Send + Sync + rkyv::Archive> { fn on<T: AbstractRadixTree<K, V>>(&mut self, t: &T, name: &str); }
fn kinds<K: Kc, V: Vv>(es: &[Entry], how: usize, f: &mut impl OnTree<K, V>) {
    let a: RadixTree<K, V> = make(es, how);
    f.on(&a, "flat");
    a.with_other(|t| f.on(t, "archived flat"));
    let b: ArcRadixTree<K, V> = make(es, how + 1);
    f.on(&b, "arc");
    b.with_other(|t| f.on(t, "archived arc"));
    let c: LazyRadixTree<'static, K, V> = make(es, how + 2);
    f.on(&c, "lazy");
    let c: LazyRadixTree<'static, K, V> = make::<LazyRadixTree<K, V>>(es, how + 3).reload(0);
    f.on(&c, "lazy from archive");
    c.with_other(|t| f.on(t, "archived lazy"));
}

/// a tree that holds the entries bs, made from a snapshot of the tree x, which holds the entries as_: they share what is the same
fn derived<T: Flavour>(x: &T, as_: &[Entry], bs: &[Entry]) -> T {
    let mut y = x.clone();
    let gone: Vec<Entry> = as_.iter().filter(|e| !bs.iter().any(|f| f.0 == e.0)).cloned().collect();
    if gone.len() > 0 { y.difference_with(&make::<T>(&gone, 1)) }
    for e in bs.iter().filter(|e| !as_.contains(e)) { y.insert(&ks::<T::K>(&e.0), T::V::mv(e.1)) }
    y
}

// ---- combination (C16)
struct Combine<'a, A> { a: &'a A, rec: &'a mut Rec, m: i64, name: String }
/// the combinations that accept any kind of right operand
impl<'a, K: Kc, V: Vv, W: Vv, T: Flavour<K = K, V = V>> OnTree<K, W> for Combine<'a, (T, Vec<Entry>)> {
    fn on<B: AbstractRadixTree<K, W>>(&mut self, b: &B, name: &str) {
        let n = format!("{} / {name}", self.name);
        let m = self.m;
        let a = &self.a.0;
        let out = |r: Option<i64>| r.map(V::mv);
        let set = |v: &mut V, r: Option<i64>| match r { Some(x) => { *v = V::mv(x); true } None => false };
        let c = Calls::default();
        let r = safe(|| shaped(&a.inner_combine(b, |v, w: &W| out(c.pair(m, v.v(), Some(w.v()))))));
        self.rec.add("inner", with_calls(&c, r), &n);
        let c = Calls::default();
        let r = safe(|| shaped(&a.left_combine(b, |v, w: Option<&W>| out(c.pair(m, v.v(), w.map(|w| w.v()))))));
        self.rec.add("left", with_calls(&c, r), &n);
        let c = Calls::default();
        let r = safe(|| { let mut t = a.clone(); t.inner_combine_with(b, |v, w: &W| { let r = c.pair(m, v.v(), Some(w.v())); set(v, r) }); shaped(&t) });
        self.rec.add("inner", with_calls(&c, r), &format!("{n} in place"));
        let c = Calls::default();
        let r = safe(|| { let mut t = a.clone(); t.left_combine_with(b, |v, w: &W| { let r = c.pair(m, v.v(), Some(w.v())); set(v, r) }); shaped(&t) });
        self.rec.add("leftw", with_calls(&c, r), &n);
        self.rec.add("inter", safe(|| shaped(&a.intersection(b))), &n);
        self.rec.add("inter", safe(|| { let mut t = a.clone(); t.intersection_with(b); shaped(&t) }), &format!("{n} in place"));
        self.rec.add("diff", safe(|| shaped(&a.difference(b))), &n);
        self.rec.add("diff", safe(|| { let mut t = a.clone(); t.difference_with(b); shaped(&t) }), &format!("{n} in place"));
        self.rec.add("ao", safe(|| shaped(a)), &n);
        self.rec.add("bo", safe(|| shaped(b)), &n);
    }
}
/// an archived left operand
fn archived_left<T: Flavour, W: Vv>(a: &T, b: &[Entry], how: usize, rec: &mut Rec, m: i64) where T::V: Vv {
    a.with_other(|x| {
        let mut c = CombineArchivedRef { a: x, rec, m, name: format!("archived {}", T::flavour()), _p: std::marker::PhantomData::<(T::V, W)> };
        kinds::<T::K, W>(b, how, &mut c);
    })
}
struct CombineArchivedRef<'a, T, P> { a: &'a T, rec: &'a mut Rec, m: i64, name: String, _p: std::marker::PhantomData<P> }
impl<'a, K: Kc, V: Vv, W: Vv, T: AbstractRadixTree<K, V>> OnTree<K, W> for CombineArchivedRef<'a, T, (V, W)> {
    fn on<B: AbstractRadixTree<K, W>>(&mut self, b: &B, name: &str) {
        let n = format!("{} / {name}", self.name);
        let m = self.m;
        let a = self.a;
        let out = |r: Option<i64>| r.map(V::mv);
        let c = Calls::default();
        let r = safe(|| shaped(&a.inner_combine(b, |v, w: &W| out(c.pair(m, v.v(), Some(w.v()))))));
        self.rec.add("inner", with_calls(&c, r), &n);
        let c = Calls::default();
        let r = safe(|| shaped(&a.left_combine(b, |v, w: Option<&W>| out(c.pair(m, v.v(), w.map(|w| w.v()))))));
        self.rec.add("left", with_calls(&c, r), &n);
    }
}
/// outer combination and union: both sides of one flavour, owned or archived
fn outers<T: Flavour>(a: &[Entry], b: &[Entry], how: usize, rec: &mut Rec, m: i64) where T::V: Vv {
    let n = T::flavour();
    let x: T = make(a, how);
    let y: T = if how % 3 == 0 { make(b, how + 2) } else { derived(&x, a, b) };
    let mut one = |name: &str, f: &mut dyn FnMut(&Calls) -> Raw, k: &'static str| {
        let c = Calls::default();
        let r = safe(|| f(&c));
        rec.add(k, if k == "outer" { with_calls(&c, r) } else { r }, &format!("{n} {name}"));
    };
    one("owned", &mut |c| shaped(&producing::<T, _, _>("outer", &x, &y, m, c)), "outer");
    one("/ archived", &mut |c| y.with_other(|y| shaped(&producing::<T, _, _>("outer", &x, y, m, c))), "outer");
    one("archived /", &mut |c| x.with_other(|x| shaped(&producing::<T, _, _>("outer", x, &y, m, c))), "outer");
    one("archived / archived", &mut |c| x.with_other(|x| y.with_other(|y| shaped(&producing::<T, _, _>("outer", x, y, m, c)))), "outer");
    one("in place", &mut |c| { let mut t = x.clone(); in_place("outerw", &mut t, &y, m, c); shaped(&t) }, "outer");
    one("in place / archived", &mut |c| { let mut t = x.clone(); y.with_other(|y| in_place("outerw", &mut t, y, m, c)); shaped(&t) }, "outer");
    one("owned", &mut |_| shaped(&x.union(&y)), "union");
    one("/ archived", &mut |_| y.with_other(|y| shaped(&x.union(y))), "union");
    one("in place", &mut |_| { let mut t = x.clone(); t.union_with(&y); shaped(&t) }, "union");
    one("in place / archived", &mut |_| { let mut t = x.clone(); y.with_other(|y| t.union_with(y)); shaped(&t) }, "union");
    let same = { let (mut a, mut b) = (a.to_vec(), b.to_vec()); a.sort(); b.sort(); a == b };
    if same {
        one("itself", &mut |c| shaped(&producing::<T, _, _>("outer", &x, &x, m, c)), "outer");
        one("itself", &mut |_| shaped(&x.union(&x)), "union");
        one("archived, itself", &mut |c| x.with_other(|x| shaped(&producing::<T, _, _>("outer", x, x, m, c))), "outer");
    }
    one("left", &mut |_| shaped(&x), "ao");
    one("right", &mut |_| shaped(&y), "bo");
    let l = (x, vec![]);
    Combine { a: &l, rec, m, name: n.clone() }.on(&y, "same flavour");
    if same { Combine { a: &l, rec, m, name: n.clone() }.on(&l.0, "itself") }
}
/// letters that only some key types have; keys that become too long when stretched
fn broad_or_tall(a: &[Entry], b: &[Entry]) -> (bool, bool) {
    let all = || a.iter().chain(b);
    (all().any(|e| e.0.iter().any(|x| *x > 255)), all().any(|e| e.0.len() > 150))
}
fn combine_case(o: &mut Out, note: &mut String, a: &[Entry], b: &[Entry], m: i64, how: usize, rich: bool) {
    let head = Obj::new().f("a", a).f("b", b).f("m", m);
    o.begin(&head.clone().f("how", how).end());
    let mut rec = Rec::default();
    let (broad, tall) = broad_or_tall(a, b);
    macro_rules! left { ($k:ty, $t:ty, $w:ty) => {{
        let l: ($t, Vec<Entry>) = (make(a, how), vec![]);
        kinds::<$k, $w>(b, how + 1, &mut Combine { a: &l, rec: &mut rec, m, name: <$t>::flavour() });
        if rich { archived_left::<$t, $w>(&l.0, b, how, &mut rec, m) }
    }} }
    if broad {
        outers::<RadixTree<i64, i64>>(a, b, how, &mut rec, m);
        outers::<ArcRadixTree<char, u8>>(a, b, how + 1, &mut rec, m);
        outers::<LazyRadixTree<'static, char, i64>>(a, b, how + 2, &mut rec, m);
        left!(i64, ArcRadixTree<i64, u8>, i64);
        return rec.emit(o, head, note);
    }
    outers::<RadixTree<u8, i64>>(a, b, how, &mut rec, m);
    if rich || how % 2 == 0 { outers::<ArcRadixTree<char, u8>>(a, b, how + 1, &mut rec, m); }
    if rich || how % 2 == 1 { outers::<LazyRadixTree<'static, u8, i64>>(a, b, how + 2, &mut rec, m); }
    if !tall && (rich || how % 5 == 1) { outers::<ArcRadixTree<i32, u8>>(a, b, how, &mut rec, m); }
    let turn = if rich { 3 } else { how % 3 };
    if turn == 0 || turn == 3 { left!(u8, RadixTree<u8, i64>, u8) }
    if turn == 1 || turn == 3 { left!(u8, ArcRadixTree<u8, u8>, i64) }
    if turn == 2 || turn == 3 { left!(u8, LazyRadixTree<'static, u8, i64>, u8) }
    if rich && !tall {
        let l: (RadixTree<u16, i64>, Vec<Entry>) = (make(a, how), vec![]);
        kinds::<u16, u8>(b, how + 1, &mut Combine { a: &l, rec: &mut rec, m, name: "stretched".into() });
    }
    rec.emit(o, head, note);
}

// ---- relations (C17)
struct Rel1<'a> { b: &'a [Entry], how: usize, rec: &'a mut Rec }
struct Rel2<'a, T> { a: &'a T, an: String, rec: &'a mut Rec, turned: bool }
impl<'a, K: Kc, V: Vv, T: AbstractRadixTree<K, V>> OnTree<K, u8> for Rel2<'a, (&'a T, std::marker::PhantomData<V>)> {
    fn on<B: AbstractRadixTree<K, u8>>(&mut self, b: &B, name: &str) {
        let n = format!("{} / {name}", self.an);
        self.rec.add("rel", Raw(rel(self.a.0, b).js()), &n);
        if self.turned {
            let r = rel(b, self.a.0);
            self.rec.add("rel", Raw(vec![r[1], r[0], r[2], r[3]].js()), &format!("{n} turned around"));
        }
        self.rec.add("self", Raw(rel(b, b).js()), name);
        self.rec.add("ao", safe(|| shaped(self.a.0)), &n);
        self.rec.add("bo", safe(|| shaped(b)), &n);
    }
}
impl<'a, K: Kc> OnTree<K, i64> for Rel1<'a> {
    fn on<A: AbstractRadixTree<K, i64>>(&mut self, a: &A, name: &str) {
        let p = (a, std::marker::PhantomData::<i64>);
        kinds::<K, u8>(self.b, self.how, &mut Rel2 { a: &p, an: name.into(), rec: self.rec, turned: true });
    }
}
fn rel_case(o: &mut Out, note: &mut String, a: &[Entry], b: &[Entry], how: usize, rich: bool) {
    let head = Obj::new().f("a", a).f("b", b).f("m", 0i64);
    o.begin(&head.clone().f("how", how).end());
    let mut rec = Rec::default();
    let (broad, tall) = broad_or_tall(a, b);
    macro_rules! shared { ($t:ty) => {{
        let l: $t = make(a, how);
        let r = derived(&l, a, b);
        let n = format!("{} / derived", <$t>::flavour());
        rec.add("rel", Raw(rel(&l, &r).js()), &n);
        let q = rel(&r, &l);
        rec.add("rel", Raw(vec![q[1], q[0], q[2], q[3]].js()), &format!("{n} turned around"));
        rec.add("ao", safe(|| shaped(&l)), &n);
        rec.add("bo", safe(|| shaped(&r)), &n);
    }} }
    if broad {
        kinds::<char, i64>(a, how, &mut Rel1 { b, how, rec: &mut rec });
        shared!(ArcRadixTree<i64, i64>);
        shared!(LazyRadixTree<'static, char, i64>);
        return rec.emit(o, head, note);
    }
    if rich {
        kinds::<u8, i64>(a, how, &mut Rel1 { b, how, rec: &mut rec });
        if !tall { kinds::<u16, i64>(a, how + 1, &mut Rel1 { b, how: how + 2, rec: &mut rec }) }
    } else {
        macro_rules! one { ($t:ty) => {{ let l: $t = make(a, how); let p = (&l, std::marker::PhantomData::<i64>); kinds::<u8, u8>(b, how, &mut Rel2 { a: &p, an: <$t>::flavour(), rec: &mut rec, turned: how % 2 == 0 }); }} }
        match how % 3 { 0 => one!(RadixTree<u8, i64>), 1 => one!(ArcRadixTree<u8, i64>), _ => one!(LazyRadixTree<'static, u8, i64>) }
    }
    if rich || how % 2 == 0 { shared!(ArcRadixTree<u8, i64>) }
    if rich || how % 2 == 1 { shared!(LazyRadixTree<'static, u8, i64>) }
    rec.emit(o, head, note);
}

// ---- prefixes (C15)
struct Pre<'a, T> { a: &'a T, rec: &'a mut Rec, m: i64, an: String }
impl<'a, K: Kc, T: Flavour<K = K>> OnTree<K, u8> for Pre<'a, T> {
    fn on<B: AbstractRadixTree<K, u8>>(&mut self, b: &B, name: &str) {
        let n = format!("{} / {name}", self.an);
        let m = self.m;
        self.rec.add("rm", safe(|| { let mut t = self.a.clone(); t.remove_prefix_with(b, |w| accepts(m, w.v())); shaped(&t) }), &n);
        self.rec.add("rt", safe(|| { let mut t = self.a.clone(); t.retain_prefix_with(b, |w| accepts(m, w.v())); shaped(&t) }), &n);
        self.rec.add("ao", safe(|| shaped(self.a)), &n);
        self.rec.add("bo", safe(|| shaped(b)), &n);
    }
}
struct Scan<'a> { p: &'a [i64], rec: &'a mut Rec }
impl<'a, K: Kc, V: Vv> OnTree<K, V> for Scan<'a> {
    fn on<T: AbstractRadixTree<K, V>>(&mut self, t: &T, name: &str) {
        let p = ks::<K>(self.p);
        let scan = |now: bool| Raw(guard(|| {
            if now { t.scan_prefix(&p).map(|(k, v)| (kc(k.as_ref()), v.v())).collect::<Vec<Entry>>().js() }
            else { let h: Vec<_> = t.scan_prefix(&p).collect(); h.iter().map(|(k, v)| (kc(k), v.v())).collect::<Vec<Entry>>().js() }
        }).unwrap_or("\"panic\"".into()));
        // copies without the first elements of what all keys begin with
        let l = t.prefix().len() / K::STRETCH;
        let ns: std::collections::BTreeSet<usize> = [0, l / 2, l.saturating_sub(1)].into_iter().filter(|n| *n < l).collect();
        self.rec.add("short", Raw(ns.iter().map(|n| (*n as i64, safe(|| shaped(&t.materialize_shortened(*n * K::STRETCH))))).collect::<Vec<_>>().js()), name);
        self.rec.add("scan", scan(true), name);
        self.rec.add("scan", scan(false), name);
        self.rec.add("ao", safe(|| shaped(t)), name);
    }
}
fn prefix_case(o: &mut Out, note: &mut String, a: &[Entry], b: &[Entry], p: &Key, m: i64, how: usize, rich: bool) {
    let head = Obj::new().f("a", a).f("b", b).f("p", p).f("m", m);
    o.begin(&head.clone().f("how", how).end());
    let mut rec = Rec::default();
    let (broad, tall) = broad_or_tall(a, b);
    macro_rules! one { ($t:ty) => {{
        let t: $t = make(a, how);
        kinds::<_, u8>(b, how + 1, &mut Pre { a: &t, rec: &mut rec, m, an: <$t>::flavour() });
        let d = derived(&t, a, b);
        rec.add("rm", safe(|| { let mut t = t.clone(); t.remove_prefix_with(&d, |w| accepts(m, w.v())); shaped(&t) }), "derived");
        rec.add("rt", safe(|| { let mut t = t.clone(); t.retain_prefix_with(&d, |w| accepts(m, w.v())); shaped(&t) }), "derived");
        rec.add("bo", safe(|| shaped(&d)), "derived");
        if a.len() == b.len() && a.iter().all(|e| b.contains(e)) {
            rec.add("rm", safe(|| { let mut u = t.clone(); u.remove_prefix_with(&t, |w| accepts(m, w.v())); shaped(&u) }), "itself");
            rec.add("rt", safe(|| { let mut u = t.clone(); u.retain_prefix_with(&t, |w| accepts(m, w.v())); shaped(&u) }), "itself");
        }
        let pk = ks(p);
        rec.add("filter", safe(|| shaped(&t.filter_prefix(&pk))), &<$t>::flavour());
        rec.add("prepend", safe(|| { let mut t = t.clone(); t.prepend(&pk); shaped(&t) }), &<$t>::flavour());
        rec.add("ao", safe(|| shaped(&t)), &<$t>::flavour());
    }} }
    if broad || p.iter().any(|x| *x > 255) {
        kinds::<char, i64>(a, how, &mut Scan { p, rec: &mut rec });
        one!(RadixTree<i64, i64>);
        one!(ArcRadixTree<char, u8>);
        one!(LazyRadixTree<'static, i64, i64>);
        return rec.emit(o, head, note);
    }
    kinds::<u8, i64>(a, how, &mut Scan { p, rec: &mut rec });
    if rich && !tall { kinds::<char, u8>(a, how + 1, &mut Scan { p, rec: &mut rec }); kinds::<i32, i64>(a, how, &mut Scan { p, rec: &mut rec }) }
    let turn = if rich { 3 } else { how % 3 };
    if turn == 0 || turn == 3 { one!(RadixTree<u8, i64>) }
    if turn == 1 || turn == 3 { one!(ArcRadixTree<u32, u8>) }
    if turn == 2 || turn == 3 { one!(LazyRadixTree<'static, u8, i64>) }
    if !tall && (turn == 3 || how % 7 == 1) { one!(ArcRadixTree<u16, i64>) }
    rec.emit(o, head, note);
}

fn small_keys(depth: usize, letters: i64) -> Vec<Key> {
    let mut all = vec![vec![]];
    let mut last: Vec<Key> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|k| (0..letters).map(move |l| { let mut k = k.clone(); k.push(l); k })).collect();
        all.extend(last.iter().cloned());
    }
    all
}
fn pairs(a: &Args, what: &str) {
    let mut o = Out::new(a, what);
    let mut note = String::new();
    let mut case = |o: &mut Out, r: &mut Rng, x: &[Entry], y: &[Entry], p: &Key, rich: bool| {
        let how = r.below(30);
        match what {
            "combine" => combine_case(o, &mut note, x, y, mask(r), how, rich),
            "relations" => rel_case(o, &mut note, x, y, how, rich),
            _ => prefix_case(o, &mut note, x, y, p, mask(r) & 15, how, rich),
        }
    };
    // every pair of sets of short keys over two letters
    let ks = small_keys(2, 2);
    let n = 1usize << ks.len();
    let vals = |r: &mut Rng, m: usize| -> Vec<Entry> {
        let mut v: Vec<Entry> = ks.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, k)| (k.clone(), r.below(89) as i64)).collect();
        r.shuffle(&mut v);
        v
    };
    let step = if a.thorough { 1 } else { 3 };
    let mut c = 0;
    for x in 0..n {
        for y in 0..n {
            c += 1;
            if (c + x) % step != 0 { continue }
            let mut r = Rng::new(a.seed, c as u64);
            let (va, vb) = (vals(&mut r, x), vals(&mut r, y));
            let p = ks[r.below(ks.len())].clone();
            case(&mut o, &mut r, &va, &vb, &p, c % 11 == 0);
            o.stat("small_pairs", 1);
        }
    }
    let n = if a.thorough { 30000 } else { 3000 };
    for c in 0..n {
        let mut r = Rng::new(a.seed, 500_000 + c);
        // a few with more children at one place, or more levels, than a byte counts
        let (broad, deep) = (c % 150 == 77, c % 300 == 177);
        let v = if deep { skyscraper(&mut r) } else { vocab(&mut r) };
        if broad { o.stat("broad_pairs", 1) }
        if deep { o.stat("deep_pairs", 1) }
        let size = |r: &mut Rng| match r.below(6) { _ if r.chance(1, 40) => r.range(35, 90), 0 => r.below(3), 1..=3 => r.range(1, 10), 4 => r.range(8, 20), _ => r.range(15, 30) };
        let n = if deep { 40 } else { size(&mut r) };
        let mut x = v.entries(&mut r, n);
        x.sort();
        x.dedup_by(|p, q| p.0 == q.0);
        let mut y: Vec<Entry> = match r.below(8) {
            6 => x.clone(),
            7 => { // x with little changed
                let mut y: Vec<Entry> = x.iter().filter(|_| r.chance(9, 10)).cloned().collect();
                let inner: Vec<usize> = (0..x.len()).filter(|i| x.iter().any(|e| e.0.len() > x[*i].0.len() && e.0.starts_with(&x[*i].0))).collect();
                let bared = !inner.is_empty() && r.chance(1, 2);
                if bared { y = x.clone(); y.remove(*r.pick(&inner)); } // all but one that has others below it
                let n = if bared { 0 } else { r.below(3) };
                for _ in 0..n { y.insert(0, (v.near(&mut r, &x), r.below(89) as i64)) }
                y
            }
            0 | 1 => { let n = size(&mut r); v.entries(&mut r, n) }
            2 => x.iter().filter(|_| r.chance(2, 3)).map(|e| (e.0.clone(), (e.1 * 3) % 89)).collect(),
            3 => x.iter().map(|e| (e.0.clone(), (e.1 + 4) % 89)).chain(v.entries(&mut r.clone(), 3)).collect(),
            4 => { let n = size(&mut r); (0..n).map(|_| (v.near(&mut r, &x), r.below(89) as i64)).collect() }
            _ => { // all below one key of x
                let p = v.near(&mut r, &x);
                v.entries(&mut r, 6).into_iter().map(|(k, w)| (p.iter().cloned().chain(k).collect(), w)).collect()
            }
        };
        y.sort();
        y.dedup_by(|p, q| p.0 == q.0);
        let p = v.near(&mut r, &x);
        if broad || !deep && r.chance(1, 9) { // many children at one place, in ranges that overlap in all sorts of ways
            let all: i64 = if broad { LETTERS } else if r.chance(1, 6) { 256 } else { 134 };
            let (mut hx, mut hy) = key_pair(&mut r, all - 1);
            // all of them, or none but what lies on the way
            if r.chance(if broad { 4 } else { 1 }, 5) { let p = r.range(8, 10); hx = (0..all).filter(|_| r.chance(p, 10)).collect() }
            if broad && r.chance(1, 2) { let p = r.range(7, 10); hy = (0..all).filter(|_| r.chance(p, 10)).collect() }
            let mut bare = r.chance(1, 5);
            let one = r.chance(1, 5);
            if one { hy = vec![r.below(all as usize) as i64]; bare = false }
            let stem: Key = (0..r.below(3)).map(|_| r.below(130) as i64).collect();
            let mut grow = |hs: &[i64]| -> Vec<Entry> {
                let tail = r.below(4);
                let mut es: Vec<Entry> = vec![];
                for h in hs {
                    let mut k = stem.clone();
                    k.push(*h);
                    if tail == 3 || tail == 2 && r.chance(1, 3) || tail == 1 && r.chance(1, 9) { k.push(r.below(3) as i64) }
                    es.push((k, r.below(89) as i64));
                }
                if r.chance(1, 4) { es.push((stem.clone(), 7)) }
                es
            };
            x = grow(&hx);
            y = grow(&hy);
            if one && r.chance(2, 3) { // with more below
                let k: Key = stem.iter().chain(&hy).cloned().collect();
                let (p, q) = (r.below(4), r.range(1, 3));
                for tail in small_keys(2, 3) {
                    if r.chance(p, 4) { x.push((k.iter().chain(&tail).cloned().collect(), r.below(89) as i64)) }
                    if r.chance(q, 4) { y.push((k.iter().chain(&tail).cloned().collect(), r.below(89) as i64)) }
                }
                for z in [&mut x, &mut y] { z.sort(); z.dedup_by(|p, q| p.0 == q.0) }
            }
            if !one && !bare && !x.is_empty() && r.chance(1, 3) { // one with a little more than the other, at the ends or anywhere
                x.sort();
                y = x.clone();
                for _ in 0..r.range(1, 4) {
                    let i = match r.below(4) { 0 => 0, 1 | 2 => x.len() - 1, _ => r.below(x.len()) };
                    let mut k = x[i].0.clone();
                    match if k.is_empty() { 3 } else { r.below(4) } {
                        0 => { k.pop(); }
                        1 => { let n = k.len() - 1; k[n] = (k[n] + 1) % 134 }
                        2 => { k.pop(); k.push(r.below(3) as i64) }
                        _ => k.push(r.below(4) as i64),
                    }
                    y.push((k, r.below(89) as i64));
                }
                if r.chance(1, 4) { let n = x.len(); y.remove(*r.pick(&[0, n / 2, n - 1])); }
                y.sort();
                y.dedup_by(|p, q| p.0 == q.0);
            }
            if bare {
                y.clear();
                for n in 0..=stem.len() {
                    if r.chance(2, 3) { y.push((stem[..n].to_vec(), r.below(89) as i64)) }
                }
            }
            o.stat("wide_pairs", 1);
        }
        let mut p = p;
        if c % 75 == 33 { // all below, or on the way to, the end of a fragment longer than a byte counts
            let stem: Key = (0..r.range(257, 420)).map(|_| r.below(3) as i64).collect();
            let (m, n) = (r.range(1, 4), r.range(1, 4));
            (x, y) = (vec![], vec![]);
            for tail in small_keys(2, 2) {
                let k: Key = stem.iter().chain(&tail).cloned().collect();
                if r.chance(m, 4) || tail.is_empty() && r.chance(1, 2) { x.push((k.clone(), r.below(89) as i64)) }
                if r.chance(n, 4) { y.push((k, r.below(89) as i64)) }
            }
            for z in [&mut x, &mut y] {
                if r.chance(1, 3) { z.push((stem[..r.below(stem.len())].to_vec(), 5)) }
                if r.chance(1, 6) { let mut k = stem.clone(); let i = r.below(k.len()); k[i] = 3; z.push((k, 6)) }
            }
            if r.chance(1, 3) { // all but one
                y = x.clone();
                if y.len() > 1 { let i = if r.chance(1, 2) { 0 } else { r.below(y.len()) }; y.remove(i); }
            }
            p = match r.below(3) { 0 => stem.clone(), 1 => stem[..r.range(200, 257)].to_vec(), _ => stem.iter().cloned().chain([r.below(2) as i64]).collect() };
            o.stat("long_pairs", 1);
        }
        r.shuffle(&mut x);
        r.shuffle(&mut y);
        if r.chance(1, 3) { std::mem::swap(&mut x, &mut y) }
        case(&mut o, &mut r, &x, &y, &p, c % 5 == 0);
        o.stat("random_pairs", 1);
    }
    std::fs::write(a.dir.join("notes.json"), note).unwrap();
    o.finish();
}

fn main() {
    let a = args();
    match a.what.as_str() {
        "history" => history(&a, false),
        "snapshots" => history(&a, true),
        w @ ("combine" | "relations" | "prefixes") => pairs(&a, w),
        w => panic!("unknown {w}"),
    }
}
