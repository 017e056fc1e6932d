//! The callback families of MapSem.tla: functions given by a number, with their calls recorded.
use crate::ledger::{poke, CALLBACK};
use std::cell::RefCell;

pub fn bit(m: i64, b: i64) -> bool { m >> b & 1 == 1 }
pub fn value(kind: i64, k: i64, v: i64, w: i64) -> i64 { (7 * k + 3 * v + 5 * w + kind + 1) % 97 }
pub fn outcome(m: i64, kind: i64, k: i64, v: i64, w: i64) -> Option<i64> {
    if bit(m, kind * 4 + k % 4) { None } else { Some(value(kind, k, v, w)) }
}
pub fn keep(m: i64, k: i64, v: i64) -> bool { bit(m, k % 4) && (v % 3 != 0 || bit(m, 4)) }
pub fn combine_value(m: i64, v: i64, w: i64) -> i64 { (2 * v + 3 * w + m) % 97 }
pub fn map_value(m: i64, v: i64) -> i64 { (v * 2 + m) % 89 }

/// [key, kind, left or -1, right or -1]
pub type Call = Vec<i64>;
#[derive(Default)]
pub struct Calls(pub RefCell<Vec<Call>>);
impl Calls {
    pub fn join(&self, m: i64, k: i64, v: Option<i64>, w: Option<i64>) -> Option<i64> {
        poke(CALLBACK);
        let kind = match (v, w) { (Some(_), None) => 0, (None, Some(_)) => 1, _ => 2 };
        self.0.borrow_mut().push(vec![k, kind, v.unwrap_or(-1), w.unwrap_or(-1)]);
        outcome(m, kind, k, v.unwrap_or(0), w.unwrap_or(0))
    }
    pub fn sorted(&self) -> Vec<Call> { let mut c = self.0.borrow().clone(); c.sort(); c }
}

// the callbacks of RadixSem.tla: they see values only
pub const NONE: i64 = 97;
pub fn rdeclines(m: i64, v: i64, w: i64) -> bool { bit(m, (v + 2 * w) % 8) }
pub fn rvalue(m: i64, v: i64, w: i64) -> i64 { (3 * v + 5 * w + m + 1) % 97 }
pub fn accepts(m: i64, w: i64) -> bool { bit(m, w % 4) }
impl Calls {
    pub fn pair(&self, m: i64, v: i64, w: Option<i64>) -> Option<i64> {
        poke(CALLBACK);
        let w = w.unwrap_or(NONE);
        self.0.borrow_mut().push(vec![v, w]);
        if rdeclines(m, v, w) { None } else { Some(rvalue(m, v, w)) }
    }
}
