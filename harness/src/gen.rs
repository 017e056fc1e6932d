//! Generators of operands: sizes and interleavings that matter to the merge algorithms.
use crate::elem::{mkc};
use crate::Rng;

/// strictly increasing key lists, as pairs, covering many relative positions
pub fn key_pair(r: &mut Rng, max_key: i64) -> (Vec<i64>, Vec<i64>) {
    const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 33];
    const BIG: &[usize] = &[40, 64, 65, 100, 150];
    // more elements than a byte counts, where the keys allow it
    const HUGE: &[usize] = &[255, 257, 300, 400, 520, 700];
    let size = |r: &mut Rng| if max_key >= 1000 && r.chance(if max_key < 4000 { 15 } else { 1 }, 20) { *r.pick(HUGE) } else if r.chance(1, 12) { *r.pick(BIG) } else { *r.pick(SIZES) };
    let n = size(r);
    let a = random_keys(r, n, max_key);
    let b = match r.below(14) {
        0 => { let n = size(r); random_keys(r, n, max_key) }
        1 => a.clone(),
        2 => { // a without one element
            let mut b = a.clone();
            if !b.is_empty() { let i = edge_index(r, b.len()); b.remove(i); }
            b
        }
        3 => { // a with one more
            let mut b = a.clone();
            let k = r.range(0, max_key as usize) as i64;
            if let Err(i) = b.binary_search(&k) { b.insert(i, k) }
            b
        }
        4 => { // a with one element moved to a neighbour
            let mut b = a.clone();
            if !b.is_empty() {
                let i = edge_index(r, b.len());
                let k = b.remove(i) + if r.chance(1, 2) { 1 } else { -1 };
                if k >= 0 && k <= max_key { if let Err(i) = b.binary_search(&k) { b.insert(i, k) } }
            }
            b
        }
        5 => { // all below or above
            let n = size(r);
            let lo = a.first().copied().unwrap_or(max_key / 2);
            let hi = a.last().copied().unwrap_or(max_key / 2);
            let mut v = if r.chance(1, 2) { random_keys(r, n, (lo - 1).max(0)) } else {
                let w = (max_key - hi - 1).max(0);
                random_keys(r, n, w).iter().map(|x| x + hi + 1).collect() };
            v.retain(|x| *x >= 0 && *x <= max_key);
            v
        }
        6 => { // inside one gap of a
            if a.len() >= 2 {
                let i = r.below(a.len() - 1);
                (a[i] + 1..a[i + 1]).filter(|_| r.chance(2, 3)).collect()
            } else { vec![max_key / 2] }
        }
        7 => { // a subset of a
            if r.chance(1, 3) && !a.is_empty() { // a few of them, or of their neighbours, far apart
                let mut b: Vec<i64> = (0..r.range(1, 6)).map(|_| a[edge_index(r, a.len())] + if r.chance(1, 5) { 1 } else { 0 }).filter(|x| *x <= max_key).collect();
                b.sort();
                b.dedup();
                b
            } else {
                let p = r.range(1, 9);
                a.iter().copied().filter(|_| r.chance(p, 10)).collect()
            }
        }
        8 => { // a superset of a
            let n = size(r);
            let mut b = random_keys(r, n, max_key);
            b.extend(&a);
            b.sort();
            b.dedup();
            b
        }
        9 => { // one element
            let k = if !a.is_empty() && r.chance(1, 2) { a[edge_index(r, a.len())] } else { r.range(0, max_key as usize) as i64 };
            vec![k]
        }
        10 => { // interleaved neighbours
            let mut b: Vec<i64> = a.iter().map(|x| x + 1).filter(|x| *x <= max_key).collect();
            if r.chance(1, 2) { b.retain(|x| !a.contains(x)) }
            b
        }
        11 | 12 => { // ranges that touch: the last few elements of one are the first of the other, or nearly
            let n = size(r);
            let k = r.range(0, 3).min(a.len());
            let mut b: Vec<i64> = a[a.len() - k..].to_vec();
            if r.chance(1, 4) && !b.is_empty() { let i = r.below(b.len()); b.remove(i); }
            let hi = a.last().copied().unwrap_or(0);
            let w = (max_key - hi - 1).max(0);
            b.extend(random_keys(r, n, w).iter().map(|x| x + hi + 1));
            b
        }
        _ => { // blocks taken from a and not from a
            let n = size(r);
            let other = random_keys(r, n, max_key);
            let mut b = vec![];
            let mut on = r.chance(1, 2);
            for (i, x) in a.iter().enumerate() {
                if i % 5 == 0 { on = r.chance(1, 2) }
                if on { b.push(*x) }
            }
            b.extend(other.iter().filter(|x| **x % 16 < 5));
            b.sort();
            b.dedup();
            b
        }
    };
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}
fn edge_index(r: &mut Rng, n: usize) -> usize {
    match r.below(6) { 0 => 0, 1 => n - 1, 2 => n / 2, 3 => (n - 1).min(1), 4 => n.saturating_sub(2), _ => r.below(n) }
}
/// one of the keys (in order), or a neighbour, mostly near the ends
pub fn beside(r: &mut Rng, ks: &[i64], max_key: i64) -> i64 {
    if ks.is_empty() { return r.range(0, max_key as usize) as i64 }
    (ks[edge_index(r, ks.len())] + [0, 0, 1, -1, 2][r.below(5)]).clamp(0, max_key)
}
/// a few of the keys, or their neighbours
pub fn few_of(r: &mut Rng, ks: &[i64], max_key: i64) -> Vec<i64> {
    let how = if ks.is_empty() { 3 } else { r.below(4) };
    if how < 2 { // all there, or all but one
        let mut v: Vec<i64> = (0..r.range(2, 8)).map(|_| ks[if r.chance(2, 3) { r.below(ks.len()) } else { edge_index(r, ks.len()) }]).collect();
        if r.chance(3, 4) { let i = r.below(v.len()); v[i] = (v[i] + 1).min(max_key); while ks.binary_search(&v[i]).is_ok() && v[i] < max_key { v[i] += 1 } }
        v.sort();
        v.dedup();
        return v;
    }
    if how == 2 { return vec![ks[match r.below(3) { 0 => 0, 1 => ks.len() - 1, _ => edge_index(r, ks.len()) }]] }
    let mut v: Vec<i64> = (0..r.range(1, 6)).map(|_| beside(r, ks, max_key)).collect();
    v.sort();
    v.dedup();
    v
}
/// a large and a small one in half of the cases
pub fn lopsided_pair(r: &mut Rng, max_key: i64) -> (Vec<i64>, Vec<i64>) {
    let (x, y) = key_pair(r, max_key);
    if r.chance(1, 2) { return (x, y) }
    let y = few_of(r, &x, max_key);
    if r.chance(1, 2) { (x, y) } else { (y, x) }
}
pub fn random_keys(r: &mut Rng, n: usize, max_key: i64) -> Vec<i64> {
    if max_key <= 0 || n == 0 { return vec![] }
    let span = match r.below(3) { 0 => (n as i64 * 2).min(max_key), 1 => (n as i64 + 2).min(max_key), _ => max_key };
    let base = r.range(0, (max_key - span) as usize) as i64;
    let mut v: Vec<i64> = (0..n).map(|_| base + r.range(0, span as usize) as i64).collect();
    v.sort();
    v.dedup();
    v
}
pub fn with_tag(ks: &[i64], t: i64) -> Vec<i64> { ks.iter().map(|k| mkc(*k, t)).collect() }

/// all subsets of 0..n as increasing key lists
pub fn subsets(n: usize) -> Vec<Vec<i64>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).map(|i| i as i64).collect()).collect()
}

/// sequences for bulk building: many shapes of order and repetition
pub fn sequence(r: &mut Rng, max_key: i64) -> Vec<i64> {
    let n = match r.below(10) {
        0 => r.below(4),
        1..=3 => r.range(0, 20),
        4..=6 => r.range(14, 40),
        7..=8 => r.range(30, 90),
        _ => r.range(60, 220),
    };
    let distinct = match r.below(7) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(2, 12), 3 => n.max(1), 4 => r.range(n / 3, n * 4 / 5), 5 => n * 3 / 4, _ => (max_key as usize).min(n * 2 + 1) };
    let distinct = distinct.min(max_key as usize).max(1);
    let mut s: Vec<i64> = match r.below(8) {
        0 => (0..n).map(|i| (i % distinct) as i64).collect(),
        1 => (0..n).map(|i| (i * distinct / n.max(1)) as i64).collect(),
        2 => (0..n).rev().map(|i| (i % distinct) as i64).collect(),
        3 => { // sawtooth: runs that restart
            let p = r.range(2, 20);
            (0..n).map(|i| ((i % p) * (1 + i / 40)) as i64 % distinct as i64).collect()
        }
        4 => { // sorted with a few strays
            let mut v: Vec<i64> = (0..n).map(|i| (i * distinct / n.max(1)) as i64).collect();
            for _ in 0..r.range(1, 4) { if !v.is_empty() { let i = r.below(v.len()); v[i] = r.below(distinct) as i64 } }
            v
        }
        5 => { // sorted prefix then noise
            let c = r.range(0, n);
            (0..n).map(|i| if i < c { (i * distinct / n.max(1)) as i64 } else { r.below(distinct) as i64 }).collect()
        }
        _ => (0..n).map(|_| r.below(distinct) as i64).collect(),
    };
    if r.chance(1, 6) { for x in s.iter_mut() { *x = max_key - *x } }
    s
}
