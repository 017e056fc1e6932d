//! Histories: the same calls run in several worlds (element types, capacities, flavours), each call
//! logged with the distinct outcomes over all worlds.
use crate::*;

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub o: String,
    pub i: usize,
    pub j: usize,
    pub k: usize,
    pub x: i64,
    pub m: i64,
    pub xs: Vec<i64>,
    pub ps: Vec<(i64, i64)>,
    pub es: Vec<(Vec<i64>, i64)>,
}
impl Op {
    pub fn obj(&self) -> Obj {
        Obj::new().f("o", self.o.as_str()).f("i", self.i).f("j", self.j).f("k", self.k).f("x", self.x).f("m", self.m)
            .f("xs", &self.xs).f("ps", &self.ps).f("es", &self.es)
    }
    pub fn parse(e: &serde_json::Value) -> Op {
        let ints = |v: &serde_json::Value| -> Vec<i64> { v.as_array().map(|v| v.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() };
        Op {
            o: e["o"].as_str().unwrap().into(),
            i: e["i"].as_u64().unwrap_or(0) as usize,
            j: e["j"].as_u64().unwrap_or(0) as usize,
            k: e["k"].as_u64().unwrap_or(0) as usize,
            x: e["x"].as_i64().unwrap_or(0),
            m: e["m"].as_i64().unwrap_or(0),
            xs: ints(&e["xs"]),
            ps: e["ps"].as_array().map(|v| v.iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect()).unwrap_or_default(),
            es: e["es"].as_array().map(|v| v.iter().map(|p| (ints(&p[0]), p[1].as_i64().unwrap())).collect()).unwrap_or_default(),
        }
    }
}
/// scripts given on the command line as script=FILE: one json array of operations per line
pub fn scripts(a: &Args) -> Vec<Vec<Op>> {
    let mut res = vec![];
    for s in &a.extra {
        if let Some(p) = s.strip_prefix("script=") {
            for line in std::fs::read_to_string(p).unwrap().lines() {
                let v: serde_json::Value = serde_json::from_str(line).unwrap();
                res.push(v.as_array().unwrap().iter().map(Op::parse).collect());
            }
        }
    }
    res
}

#[derive(Clone)]
pub struct Seen { pub all: Raw, pub m: Raw, pub r: Raw }

pub trait World {
    fn name(&self) -> String;
    /// x is a parameter of the history (such as the size of its universe)
    fn reset(&mut self, x: i64);
    fn step(&mut self, op: &Op) -> Seen;
}

#[derive(Default)]
pub struct Notes(String);
impl Notes {
    pub fn add(&mut self, line: u64, d: &Distinct) {
        if d.vals.len() > 1 { self.0.push_str(&format!("{}: {}\n", line, d.note())) }
    }
    pub fn save(&self, a: &Args) { std::fs::write(a.dir.join("notes.json"), &self.0).unwrap() }
}

pub fn run_history(out: &mut Out, ws: &mut [&mut Box<dyn World>], x: i64, ops: &[Op], notes: &mut Notes) {
    for w in ws.iter_mut() { w.reset(x) }
    out.line(&Op { o: "reset".into(), x, ..Default::default() }.obj().f("all", Raw("[]".into())).f("m2", Raw("[]".into())).f("r", Raw("[]".into())).end());
    for op in ops {
        out.begin(&op.obj().end());
        let (mut all, mut m, mut r) = (Distinct::default(), Distinct::default(), Distinct::default());
        for w in ws.iter_mut() {
            let s = w.step(op);
            let n = w.name();
            all.add(s.all, &n);
            m.add(s.m, &n);
            r.add(s.r, &n);
            out.evals += 1;
        }
        out.stat(&format!("op_{}", op.o), 1);
        out.line(&op.obj().f("all", &all).f("m2", &m).f("r", &r).end());
        for d in [&all, &m, &r] { notes.add(out.lines, d) }
    }
    out.stat("histories", 1);
}
