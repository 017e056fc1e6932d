//! Element types. A code is key*8+tag; only the key takes part in the order.
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait Elem: Ord + Clone + Debug + Hash + 'static {
    /// false: the type cannot carry a tag, only codes with tag 0 are representable
    const TAGGED: bool;
    const NAME: &'static str;
    fn mk(code: i64) -> Self;
    fn code(&self) -> i64;
}
pub fn key(c: i64) -> i64 { c >> 3 }
pub fn tag(c: i64) -> i64 { c & 7 }
pub fn mkc(k: i64, t: i64) -> i64 { k * 8 + t }

macro_rules! by_key {
    ($t:ty) => {
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.k() == o.k() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.k().cmp(&o.k()) } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.k().hash(h) } }
    };
}

/// plain old data that is its own archived form, so an archived operand has the same element type
#[macro_export]
macro_rules! self_archived {
    ($t:ty) => {
        impl rkyv::Archive for $t {
            type Archived = $t;
            type Resolver = ();
            unsafe fn resolve(&self, _: usize, _: (), out: *mut $t) { out.write(self.clone()) }
        }
        impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for $t {
            fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) }
        }
        impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<$t, D> for $t {
            fn deserialize(&self, _: &mut D) -> Result<$t, D::Error> { Ok(self.clone()) }
        }
        impl<C: ?Sized> bytecheck::CheckBytes<C> for $t {
            type Error = std::convert::Infallible;
            unsafe fn check_bytes<'a>(v: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> { Ok(&*v) }
        }
    };
}
/// small plain-old-data element
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Tk { key: u32, tag: u32 }
impl Tk { fn k(&self) -> u32 { self.key } }
by_key!(Tk);
self_archived!(Tk);
impl Elem for Tk {
    const TAGGED: bool = true;
    const NAME: &'static str = "pod";
    fn mk(c: i64) -> Self { Tk { key: key(c) as u32, tag: tag(c) as u32 } }
    fn code(&self) -> i64 { mkc(self.key as i64, self.tag as i64) }
}
/// heap allocated element
#[derive(Clone, Debug)]
pub struct Bx(Box<(i64, u8)>);
impl Bx { fn k(&self) -> i64 { self.0 .0 } }
by_key!(Bx);
impl Elem for Bx {
    const TAGGED: bool = true;
    const NAME: &'static str = "box";
    fn mk(c: i64) -> Self { Bx(Box::new((key(c) - 1000, tag(c) as u8))) }
    fn code(&self) -> i64 { mkc(self.0 .0 + 1000, self.0 .1 as i64) }
}
/// string keyed element
#[derive(Clone, Debug)]
pub struct St(String, u8);
impl St { fn k(&self) -> &str { &self.0 } }
by_key!(St);
impl Elem for St {
    const TAGGED: bool = true;
    const NAME: &'static str = "string";
    fn mk(c: i64) -> Self { St(format!("{:05}", key(c)), tag(c) as u8) }
    fn code(&self) -> i64 { mkc(self.0.parse::<i64>().unwrap_or(-9), self.1 as i64) }
}
/// large element
#[derive(Clone, Copy, Debug)]
pub struct Big { pad: [u64; 5], key: u16, tag: u8 }
impl Big { fn k(&self) -> u16 { self.key } }
by_key!(Big);
impl Elem for Big {
    const TAGGED: bool = true;
    const NAME: &'static str = "big";
    fn mk(c: i64) -> Self { let k = key(c) as u16; Big { pad: [k as u64 * 3 + 1; 5], key: k, tag: tag(c) as u8 } }
    fn code(&self) -> i64 {
        if self.pad != [self.key as u64 * 3 + 1; 5] { return -7 }
        mkc(self.key as i64, self.tag as i64)
    }
}
/// primitive, spread over the whole range of the type: key 0 is the minimum
impl Elem for i64 {
    const TAGGED: bool = false;
    const NAME: &'static str = "i64";
    fn mk(c: i64) -> Self { (key(c) - 2048).wrapping_mul(1 << 52) + (key(c) == 4095) as i64 * ((1 << 52) - 1) }
    fn code(&self) -> i64 { mkc((*self >> 52) + 2048, 0) }
}
impl Elem for u8 {
    const TAGGED: bool = false;
    const NAME: &'static str = "u8";
    fn mk(c: i64) -> Self { key(c) as u8 }
    fn code(&self) -> i64 { mkc(*self as i64, 0) }
}
impl Elem for String {
    const TAGGED: bool = false;
    const NAME: &'static str = "String";
    fn mk(c: i64) -> Self { if key(c) == 0 { String::new() } else { format!("{:05}", key(c)) } }
    fn code(&self) -> i64 { mkc(if self.is_empty() { 0 } else { self.parse::<i64>().unwrap_or(-9) }, 0) }
}
/// takes no room at all: there is one element, and any number of them fits anywhere
impl Elem for () {
    const TAGGED: bool = false;
    const NAME: &'static str = "unit";
    fn mk(_: i64) -> Self {}
    fn code(&self) -> i64 { 0 }
}
pub fn untagged(xs: &[i64]) -> bool { xs.iter().all(|c| tag(*c) == 0) }
pub fn fits<T: Elem>(xs: &[i64]) -> bool {
    (T::TAGGED || untagged(xs)) && (T::NAME != "u8" || xs.iter().all(|c| key(*c) < 256)) && (T::NAME != "unit" || xs.iter().all(|c| *c == 0))
}
pub fn mks<T: Elem>(xs: &[i64]) -> Vec<T> { xs.iter().map(|c| T::mk(*c)).collect() }
pub fn cds<'a, T: Elem>(xs: impl IntoIterator<Item = &'a T>) -> Vec<i64> { xs.into_iter().map(|x| x.code()).collect() }

/// values of maps
pub trait Val: Clone + Debug + 'static {
    const VNAME: &'static str;
    fn mv(v: i64) -> Self;
    fn v(&self) -> i64;
}
impl Val for i64 { const VNAME: &'static str = "i64"; fn mv(v: i64) -> Self { v } fn v(&self) -> i64 { *self } }
impl Val for u8 { const VNAME: &'static str = "u8"; fn mv(v: i64) -> Self { v as u8 } fn v(&self) -> i64 { *self as i64 } }
impl Val for Box<i64> { const VNAME: &'static str = "box"; fn mv(v: i64) -> Self { Box::new(v) } fn v(&self) -> i64 { **self } }
impl Val for String { const VNAME: &'static str = "string"; fn mv(v: i64) -> Self { format!("value {v:04}") } fn v(&self) -> i64 { self[6..].parse().unwrap_or(-9) } }
/// a heap value whose archived form is of no use
#[derive(Clone, Debug)]
pub struct Txt(pub String);
impl Val for Txt { const VNAME: &'static str = "text"; fn mv(v: i64) -> Self { Txt(String::mv(v)) } fn v(&self) -> i64 { self.0.v() } }
impl rkyv::Archive for Txt {
    type Archived = ();
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), _: *mut ()) {}
}
