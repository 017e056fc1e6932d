//! Value types with the arithmetic of TotalSem.tla (numbers below 97).
use crate::elem::Val;
use num_traits::{Bounded, One, Zero};
use std::ops::{Add, Div, Mul, Neg, Sub};

macro_rules! number {
    ($t:ident, $inner:ty, $name:literal, $mk:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $t(pub $inner);
        impl Val for $t {
            const VNAME: &'static str = $name;
            fn mv(v: i64) -> Self { $t($mk(v)) }
            #[allow(clippy::clone_on_copy)]
            fn v(&self) -> i64 { i64::from(self.0.clone()) }
        }
        impl Add for $t { type Output = Self; fn add(self, o: Self) -> Self { Self::mv((self.v() + o.v()) % 97) } }
        impl Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { Self::mv((self.v() + 97 - o.v()) % 97) } }
        impl Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { Self::mv((self.v() * o.v()) % 97) } }
        impl Div for $t { type Output = Self; fn div(self, o: Self) -> Self { Self::mv(if o.v() == 0 { 0 } else { self.v() / o.v() }) } }
        impl Neg for $t { type Output = Self; fn neg(self) -> Self { Self::mv((97 - self.v()) % 97) } }
        impl Zero for $t { fn zero() -> Self { Self::mv(0) } fn is_zero(&self) -> bool { self.v() == 0 } }
        impl One for $t { fn one() -> Self { Self::mv(1) } fn is_one(&self) -> bool { self.v() == 1 } }
        impl Bounded for $t { fn min_value() -> Self { Self::mv(0) } fn max_value() -> Self { Self::mv(96) } }
        impl Default for $t { fn default() -> Self { Self::mv(0) } }
    };
}
number!(Num, i64, "num", |v| v);
number!(Num8, u8, "num8", |v| v as u8);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Heap(Box<i64>);
impl From<Heap> for i64 { fn from(h: Heap) -> i64 { *h.0 } }
number!(NumB, Heap, "numbox", |v| Heap(Box::new(v)));
