//! Shared pieces of the conformance drivers: deterministic randomness, element types with an
//! order that ignores a tag (so representatives can be told apart), the ndjson trace writer,
//! and containment of panics, crashes and hangs of the code under test.
use std::{
    cell::RefCell,
    fmt::Write as _,
    fs::File,
    io::{BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering},
};

pub mod arch;
pub mod callbacks;
pub mod elem;
pub mod gen;
pub mod hist;
pub mod ledger;
pub mod num;
pub mod radix;
pub mod worlds;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

// ---------------------------------------------------------------- json text

pub trait ToJ {
    fn j(&self, out: &mut String);
    fn js(&self) -> String {
        let mut s = String::new();
        self.j(&mut s);
        s
    }
}
impl ToJ for i64 { fn j(&self, o: &mut String) { write!(o, "{}", self).unwrap() } }
impl ToJ for i32 { fn j(&self, o: &mut String) { write!(o, "{}", self).unwrap() } }
impl ToJ for u64 { fn j(&self, o: &mut String) { write!(o, "{}", self).unwrap() } }
impl ToJ for usize { fn j(&self, o: &mut String) { write!(o, "{}", self).unwrap() } }
impl ToJ for bool { fn j(&self, o: &mut String) { o.push_str(if *self { "true" } else { "false" }) } }
impl ToJ for str { fn j(&self, o: &mut String) { write!(o, "{:?}", self).unwrap() } }
impl ToJ for String { fn j(&self, o: &mut String) { self.as_str().j(o) } }
impl<T: ToJ + ?Sized> ToJ for &T { fn j(&self, o: &mut String) { (**self).j(o) } }
impl<T: ToJ> ToJ for [T] {
    fn j(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 { o.push(',') }
            x.j(o);
        }
        o.push(']');
    }
}
impl<T: ToJ> ToJ for Vec<T> { fn j(&self, o: &mut String) { self.as_slice().j(o) } }
impl<A: ToJ, B: ToJ> ToJ for (A, B) {
    fn j(&self, o: &mut String) { o.push('['); self.0.j(o); o.push(','); self.1.j(o); o.push(']') }
}
impl<A: ToJ, B: ToJ, C: ToJ> ToJ for (A, B, C) {
    fn j(&self, o: &mut String) { o.push('['); self.0.j(o); o.push(','); self.1.j(o); o.push(','); self.2.j(o); o.push(']') }
}
/// raw json text
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Raw(pub String);
impl ToJ for Raw { fn j(&self, o: &mut String) { o.push_str(&self.0) } }

#[derive(Clone)]
pub struct Obj(String);
impl Obj {
    pub fn new() -> Self { Obj("{".into()) }
    pub fn f(mut self, k: &str, v: impl ToJ) -> Self {
        if self.0.len() > 1 { self.0.push(',') }
        k.j(&mut self.0);
        self.0.push(':');
        v.j(&mut self.0);
        self
    }
    pub fn end(mut self) -> String { self.0.push('}'); self.0 }
}
impl Default for Obj { fn default() -> Self { Self::new() } }
impl ToJ for Obj { fn j(&self, o: &mut String) { o.push_str(&self.0); o.push('}') } }

/// the distinct outcomes observed for one and the same question over many variants
#[derive(Default, Clone, Debug)]
pub struct Distinct { pub vals: Vec<String>, pub from: Vec<String>, pub n: u64 }
impl Distinct {
    pub fn add(&mut self, v: impl ToJ, from: &str) {
        self.n += 1;
        let s = v.js();
        if !self.vals.contains(&s) {
            self.vals.push(s);
            self.from.push(from.to_string());
        }
    }
    pub fn merge(&mut self, o: &Distinct) {
        for (v, f) in o.vals.iter().zip(o.from.iter()) {
            self.add(Raw(v.clone()), f);
        }
    }
}
impl ToJ for Distinct {
    fn j(&self, o: &mut String) { o.push('['); o.push_str(&self.vals.join(",")); o.push(']') }
}
impl Distinct {
    /// only needed when variants disagree: which variant produced which outcome
    pub fn note(&self) -> String {
        if self.vals.len() > 1 { self.from.join(" | ") } else { String::new() }
    }
}

// ---------------------------------------------------------------- run context

pub struct Args {
    pub dir: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub what: String,
    pub replay: Option<PathBuf>,
    pub extra: Vec<String>,
}
pub fn args() -> Args {
    let mut a = Args { dir: ".".into(), seed: 1, thorough: false, what: String::new(), replay: None, extra: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--dir" => a.dir = it.next().unwrap().into(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--thorough" => a.thorough = true,
            "--what" => a.what = it.next().unwrap(),
            "--replay" => a.replay = Some(it.next().unwrap().into()),
            _ => a.extra.push(x),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    a
}

static TICK: AtomicU64 = AtomicU64::new(0);

/// ndjson writer. `begin` notes the case about to run, so that a crash or a hang can be attributed.
pub struct Out {
    w: BufWriter<File>,
    cur: File,
    dir: PathBuf,
    pub lines: u64,
    pub evals: u64,
    stats: std::collections::BTreeMap<String, u64>,
}
impl Out {
    pub fn new(a: &Args, name: &str) -> Self {
        std::fs::create_dir_all(&a.dir).unwrap();
        let w = BufWriter::with_capacity(1 << 20, File::create(a.dir.join(format!("{name}.ndjson"))).unwrap());
        let cur = File::create(a.dir.join("current.json")).unwrap();
        let dir = a.dir.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut idle = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let t = TICK.load(Ordering::Relaxed);
                if t == last { idle += 1 } else { idle = 0; last = t }
                if idle >= 90 {
                    std::fs::write(dir.join("hang"), "no progress for 90 s").ok();
                    std::process::exit(97);
                }
            }
        });
        Out { w, cur, dir: a.dir.clone(), lines: 0, evals: 0, stats: Default::default() }
    }
    pub fn begin(&mut self, case: &str) {
        use std::os::unix::fs::FileExt;
        TICK.fetch_add(1, Ordering::Relaxed);
        let b = case.as_bytes();
        let mut buf = Vec::with_capacity(b.len() + 2);
        buf.extend_from_slice(b);
        buf.extend_from_slice(b"\n\n");
        self.cur.write_all_at(&buf, 0).unwrap();
    }
    pub fn line(&mut self, s: &str) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn stat(&mut self, k: &str, n: u64) { *self.stats.entry(k.to_string()).or_default() += n }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        let mut o = Obj::new().f("lines", self.lines).f("evals", self.evals);
        for (k, v) in &self.stats { o = o.f(k, *v) }
        std::fs::write(self.dir.join("stats.json"), o.end()).unwrap();
        std::fs::remove_file(self.dir.join("current.json")).ok();
    }
}
pub fn tick() { TICK.fetch_add(1, Ordering::Relaxed); }

// ---------------------------------------------------------------- containment

/// panics of the code under test are data
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}
/// result of a computation that yields a list of codes; a panic shows up as [-1]
pub fn codes(f: impl FnOnce() -> Vec<i64>) -> Vec<i64> { guard(f).unwrap_or_else(|_| vec![-1]) }
/// a boolean answer as 0/1, a panic as -1
pub fn truth(f: impl FnOnce() -> bool) -> i64 { guard(f).map(|b| b as i64).unwrap_or(-1) }
pub fn num(f: impl FnOnce() -> i64) -> i64 { guard(f).unwrap_or(-1) }

thread_local! {
    pub static SCRATCH: RefCell<String> = RefCell::new(String::new());
}
