//! Values whose births, uses and deaths are written down, and faults that fire in user code.
//! An event is id*4 + kind; ids count from 1 within a history.
use crate::elem::{mkc, Elem, Val};
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    hash::{Hash, Hasher},
};

pub const BORN: i64 = 0;
pub const DROPPED: i64 = 1;
pub const USED: i64 = 2;
/// a reference to it is still in the hands of the user
pub const HELD: i64 = 3;

/// the kinds of user code that can fail
pub const COMPARE: i64 = 1;
pub const CLONE: i64 = 2;
pub const SOURCE: i64 = 3;
pub const CALLBACK: i64 = 4;
pub const KINDS: &[i64] = &[COMPARE, CLONE, SOURCE, CALLBACK];

thread_local! {
    static EVENTS: RefCell<Vec<i64>> = RefCell::new(vec![]);
    static NEXT: Cell<i64> = Cell::new(1);
    static QUIET: Cell<bool> = Cell::new(false);
    // the kind that fails, after how many more calls, whether it did
    static FAULT: Cell<(i64, i64, bool)> = Cell::new((0, 0, false));
    static CALLS: Cell<u64> = Cell::new(0);
}
fn event(id: i64, kind: i64) {
    if kind == USED && QUIET.with(|q| q.get()) { return }
    EVENTS.try_with(|e| {
        let mut e = e.borrow_mut();
        let x = id * 4 + kind;
        // a use that follows one of the same value with no birth or death in between says nothing new
        if kind == USED {
            for y in e.iter().rev() {
                if y % 4 == BORN || y % 4 == DROPPED { break }
                if *y == x { return }
            }
        }
        e.push(x);
    }).ok();
}
/// a point in user code that may fail
pub fn poke(kind: i64) {
    CALLS.with(|c| c.set(c.get() + 1));
    let (k, n, fired) = FAULT.with(|f| f.get());
    if k == kind && n > 0 {
        FAULT.with(|f| f.set((k, n - 1, n == 1 || fired)));
        if n == 1 { panic!("injected") }
    }
}
/// the n-th call of the given kind from now on fails
pub fn arm(kind: i64, n: i64) { FAULT.with(|f| f.set((kind, n, false))) }
/// no more failures; did it fire?
pub fn disarm() -> bool { let f = FAULT.with(|f| f.get().2); arm(0, 0); f }
pub fn calls() -> u64 { CALLS.with(|c| c.get()) }
/// forget everything
pub fn restart() { EVENTS.with(|e| e.borrow_mut().clear()); NEXT.with(|n| n.set(1)); arm(0, 0) }
pub fn take() -> Vec<i64> { EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut())) }
pub fn hold(id: i64) { event(id, HELD) }
/// looking at values without noting it
pub fn peek<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(true));
    let r = f();
    QUIET.with(|q| q.set(false));
    r
}

const MAGIC: u32 = 0x5AFE_C0DE;
pub struct L { magic: u32, key: i32, tag: i32, id: u32 }
impl L {
    fn new(key: i32, tag: i32) -> L {
        let id = NEXT.with(|n| { let i = n.get(); n.set(i + 1); i });
        event(id, BORN);
        L { magic: MAGIC, key, tag, id: id as u32 }
    }
    /// 0, which never lived, if this is not one of ours
    pub fn id(&self) -> i64 { if self.magic == MAGIC { self.id as i64 } else { 0 } }
    fn used(&self) { event(self.id(), USED) }
}
impl Drop for L { fn drop(&mut self) { event(self.id(), DROPPED) } }
impl Clone for L {
    fn clone(&self) -> L { self.used(); poke(CLONE); L::new(self.key, self.tag) }
}
impl PartialEq for L { fn eq(&self, o: &L) -> bool { self.used(); o.used(); poke(COMPARE); self.key == o.key } }
impl Eq for L {}
impl PartialOrd for L { fn partial_cmp(&self, o: &L) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for L { fn cmp(&self, o: &L) -> Ordering { self.used(); o.used(); poke(COMPARE); self.key.cmp(&o.key) } }
impl Hash for L { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h) } }
impl std::fmt::Debug for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "#{}", self.id()) } }
impl Elem for L {
    const TAGGED: bool = true;
    const NAME: &'static str = "ledger";
    fn mk(c: i64) -> L { L::new((c >> 3) as i32, (c & 7) as i32) }
    fn code(&self) -> i64 { self.used(); mkc(self.key as i64, self.tag as i64) }
}
impl Val for L {
    const VNAME: &'static str = "ledger";
    fn mv(v: i64) -> L { L::new(v as i32, 0) }
    fn v(&self) -> i64 { self.used(); self.key as i64 }
}
/// values have no archived form of use
impl rkyv::Archive for L {
    type Archived = ();
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), _: *mut ()) {}
}
