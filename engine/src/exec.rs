//! Path-forking symbolic executor for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(Ex), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Frame { f: u32, block: u32, ip: u32, regs: Vec<Val>, ret: Option<u32>, mark: usize, normal: Option<u32> }

#[derive(Clone, Copy, Debug)]
pub enum Dec { B(bool), V(u128, bool), O(u64) }
pub type Tr = (u64, Dec);
pub type Model = Rc<FxMap<u32, u128>>;

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<Ex>,
    known: FxMap<Ex, bool>,
    fix: FxMap<Ex, u128>,
    objsel: FxMap<Ex, u64>,
    model: Model,
    trail: Vec<Tr>,
    replay: VecDeque<Tr>,
    steps: u64,
    errno: u64,
    used: BTreeMap<u32, (Ex, u16)>,
    obs: Vec<Val>,
    seed: Option<u64>,
}

pub enum Halt { Fork(Ex), ForkVal(Ex), Done, Kill, Panic(String), Fail(u32), Err(String) }
type H<T> = Result<T, Halt>;

#[derive(Clone, Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub forks: u64, pub instrs: u64, pub queries: u64, pub sat: u64, pub unsat: u64, pub stime: f64, pub max_q: f64, pub fallback: u64,
    pub cache_hits: u64, pub checks: BTreeMap<u32, u64>, pub reach: BTreeMap<u32, u64>, pub viol: Vec<Viol>, pub wit: Vec<(Vec<(u32, u16, u128)>, Vec<u64>)>, pub errors: Vec<String>,
    pub fns: std::collections::BTreeSet<u32>, pub asserts: u64, pub nodes: u64, pub max_trail: usize, pub fork_sites: BTreeMap<(u32, u32, u32), u64>,
}
#[derive(Clone)]
pub struct Viol { pub kind: String, pub model: Vec<(u32, u16, u128)> }

pub struct Opts { pub entry: u32, pub params: Vec<u64>, pub threads: usize, pub time: f64, pub first_ms: u64, pub timeout_ms: u64, pub max_viol: usize, pub max_steps: u64, pub trace: bool, pub dump: Option<String>, pub profile: bool, pub mem_mb: u64, pub abs: bool, pub ints: bool, pub big: u64, pub fpfacts: bool, pub tables: bool }

pub struct Shared {
    pub queue: Mutex<Vec<Vec<Tr>>>, pub cv: Condvar, pub idle: AtomicUsize, pub stop: AtomicBool, pub nviol: AtomicUsize, pub stats: Mutex<Stats>, pub timed_out: AtomicBool,
    pub qlen: AtomicUsize,
}

pub struct Worker {
    d: Dag, solver: Solver, m: Arc<Module>, globals: Arc<Vec<(Vec<u8>, bool)>>, o: Arc<Opts>, sh: Arc<Shared>, st: Stats,
    cache: FxMap<Vec<Ex>, Option<Rc<Vec<(u32, u128)>>>>,
    recent: Vec<Model>,
    t0: Instant,
}

fn er<T>(r: Result<T, String>) -> H<T> { r.map_err(|e| Halt::Panic(format!("memory error: {}", e))) }

impl Worker {
    pub fn new(m: Arc<Module>, globals: Arc<Vec<(Vec<u8>, bool)>>, o: Arc<Opts>, sh: Arc<Shared>, t0: Instant) -> Worker {
        let mut solver = Solver::new(&["z3-new", "-in", "-smt2"], o.first_ms, o.timeout_ms);
        solver.dump = o.dump.clone(); solver.ints = o.ints;
        let mut d = Dag::new(); d.abs = o.abs; d.fpfacts = o.fpfacts; d.tables = o.tables;
        Worker { d, solver, m, globals, o, sh, st: Stats::default(), cache: Default::default(), recent: vec![], t0 }
    }
    fn initial(&mut self, trail: Vec<Tr>) -> State {
        let mut mem = Mem::new(self.globals.clone());
        let errno = mem.malloc(8);
        let f = &self.m.funcs[self.o.entry as usize];
        let fr = Frame { f: self.o.entry, block: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], ret: None, mark: 0, normal: None };
        self.st.fns.insert(self.o.entry);
        // a run on given pseudo-random inputs, to compare the encoding with the native code
        let (seed, trail) = match trail.first() { Some(&(u64::MAX, Dec::O(s))) => (Some(s), vec![]), _ => (None, trail) };
        State { seed, frames: vec![Rc::new(fr)], mem, pc: vec![], known: Default::default(), fix: Default::default(), objsel: Default::default(), model: Rc::new(Default::default()),
            trail: vec![], replay: trail.into(), steps: 0, errno, used: BTreeMap::new(), obs: vec![] }
    }
    /// Drop the expression DAG and solver between jobs when they have grown large.
    fn maybe_reset(&mut self) {
        if self.d.nodes.len() > 6_000_000 {
            self.st.nodes += self.d.nodes.len() as u64;
            self.d = Dag::new(); self.d.abs = self.o.abs; self.d.fpfacts = self.o.fpfacts; self.d.tables = self.o.tables; self.cache.clear(); self.recent.clear();
            let (q, s, u, t, mx, fb) = (self.solver.queries, self.solver.sat, self.solver.unsat, self.solver.time, self.solver.max_time, self.solver.fallback);
            let mut solver = Solver::new(&["z3-new", "-in", "-smt2"], self.o.first_ms, self.o.timeout_ms);
            solver.queries = q; solver.sat = s; solver.unsat = u; solver.time = t; solver.max_time = mx; solver.fallback = fb; solver.dump = self.o.dump.clone(); solver.ints = self.o.ints;
            self.solver = solver;
        }
    }

    pub fn work(mut self) {
        let sh = self.sh.clone();
        let mut stack: Vec<State> = vec![];
        'outer: loop {
            if sh.stop.load(Ordering::Relaxed) { break; }
            let st = if let Some(s) = stack.pop() { s } else {
                self.maybe_reset();
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if let Some(t) = q.pop() { sh.qlen.store(q.len(), Ordering::Relaxed); drop(q); break self.initial(t); }
                    if sh.stop.load(Ordering::Relaxed) { break 'outer; }
                    let n = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if n == self.o.threads { sh.stop.store(true, Ordering::SeqCst); sh.cv.notify_all(); break 'outer; }
                    q = sh.cv.wait(q).unwrap();
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            if self.d.nodes.len() > 6_000_000 && self.d.nodes.len() < 1 << 31 {
                // give the states back as trails and start over with an empty DAG
                let mut q = sh.queue.lock().unwrap();
                for s in stack.drain(..) { q.push(self.full_trail(&s)); }
                q.push(self.full_trail(&st));
                sh.qlen.store(q.len(), Ordering::Relaxed);
                drop(q); sh.cv.notify_all();
                continue;
            }
            self.run(st, &mut stack);
        }
        sh.cv.notify_all();
        self.st.queries = self.solver.queries; self.st.sat = self.solver.sat; self.st.unsat = self.solver.unsat; self.st.stime = self.solver.time; self.st.max_q = self.solver.max_time; self.st.fallback = self.solver.fallback;
        self.st.nodes += self.d.nodes.len() as u64;
        let mut g = sh.stats.lock().unwrap();
        let s = &self.st;
        g.paths += s.paths; g.killed += s.killed; g.forks += s.forks; g.instrs += s.instrs; g.queries += s.queries; g.sat += s.sat; g.unsat += s.unsat; g.stime += s.stime; g.max_q = g.max_q.max(s.max_q); g.fallback += s.fallback;
        g.cache_hits += s.cache_hits; g.asserts += s.asserts; g.nodes += s.nodes; g.max_trail = g.max_trail.max(s.max_trail);
        for (k, v) in &s.checks { *g.checks.entry(*k).or_insert(0) += v; }
        for (k, v) in &s.reach { *g.reach.entry(*k).or_insert(0) += v; }
        for (k, v) in &s.fork_sites { *g.fork_sites.entry(*k).or_insert(0) += v; }
        g.viol.extend(s.viol.iter().cloned()); g.wit.extend(s.wit.iter().cloned()); g.errors.extend(s.errors.iter().cloned()); g.fns.extend(s.fns.iter());
    }
    fn full_trail(&self, s: &State) -> Vec<Tr> { let mut t = s.trail.clone(); t.extend(s.replay.iter()); t }

    fn run(&mut self, mut st: State, stack: &mut Vec<State>) {
        let m = self.m.clone();
        let mut ctr = 0u32;
        loop {
            ctr += 1;
            if ctr & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.o.time { self.sh.timed_out.store(true, Ordering::SeqCst); self.sh.stop.store(true, Ordering::SeqCst); return; }
            self.st.instrs += 1;
            if st.steps > self.o.max_steps { self.fatal(format!("path longer than {} instructions", self.o.max_steps)); return; }
            match self.step(&m, &mut st) {
                Ok(()) => { st.steps += 1; }
                Err(Halt::Done) => { self.st.paths += 1; self.witness(&st); self.st.max_trail = self.st.max_trail.max(st.trail.len()); return; }
                Err(Halt::Kill) => { self.st.killed += 1; return; }
                Err(Halt::Err(e)) => { let w = self.whereami(&st); self.fatal(format!("{} at {}", e, w)); return; }
                Err(Halt::Panic(_)) | Err(Halt::Fail(_)) if !st.replay.is_empty() && matches!(self.end_replay(&mut st), Err(Halt::Kill)) => { self.st.killed += 1; return; }
                Err(Halt::Panic(e)) => { self.violation(&mut st, format!("panic: {}", e)); return; }
                Err(Halt::Fail(id)) => { self.violation(&mut st, format!("check {}", id)); return; }
                Err(Halt::Fork(e)) => {
                    let r = self.fork(&mut st, e, None, stack);
                    if let Err(h) = r { match h { Halt::Err(e) => { let w = self.whereami(&st); self.fatal(format!("{} at {}", e, w)); return; } _ => return } }
                    if self.t0.elapsed().as_secs_f64() > self.o.time { self.sh.timed_out.store(true, Ordering::SeqCst); self.sh.stop.store(true, Ordering::SeqCst); }
                    if self.sh.stop.load(Ordering::Relaxed) { return; }
                }
                Err(Halt::ForkVal(e)) => {
                    // the model is only kept up to date outside the trail
                    let had = !st.replay.is_empty();
                    while st.replay.front().map_or(false, |d| d.0 < st.steps) { st.replay.pop_front(); }
                    if had && !st.replay.front().map_or(false, |x| x.0 == st.steps) {
                        match self.end_replay(&mut st) { Ok(()) => {} Err(Halt::Err(e)) => { let w = self.whereami(&st); self.fatal(format!("{} at {}", e, w)); return; } Err(_) => return }
                    }
                    let (v, c) = if let Some((n, Dec::V(v, _))) = st.replay.front().copied().filter(|x| x.0 == st.steps) { let _ = n; let k = self.d.konst(v, self.d.w(e)); (v, self.d.cmp(Op::Eq, e, k)) }
                        else { let v = self.d.eval(e, &st.model); let k = self.d.konst(v, self.d.w(e)); (v, self.d.cmp(Op::Eq, e, k)) };
                    if c == 1 { st.fix.insert(e, v); continue; }
                    let r = self.fork(&mut st, c, Some((e, v)), stack);
                    if let Err(h) = r { match h { Halt::Err(e) => { let w = self.whereami(&st); self.fatal(format!("{} at {}", e, w)); return; } _ => return } }
                    if self.sh.stop.load(Ordering::Relaxed) { return; }
                }
            }
        }
    }
    fn whereami(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| format!("{}:{}:{}", self.m.funcs[f.f as usize].name, self.m.funcs[f.f as usize].blocks[f.block as usize].name, f.ip)).collect::<Vec<_>>().join(" < ")
    }
    fn fatal(&mut self, e: String) {
        self.st.errors.push(e);
        if self.st.errors.len() >= 3 { self.sh.stop.store(true, Ordering::SeqCst); }
    }
    fn model_of(&self, st: &State) -> Vec<(u32, u16, u128)> {
        st.used.iter().map(|(&id, &(e, w))| { let k = self.d.key(e); (id, w, if k.op == Op::Const { k.k } else { st.model.get(&(k.k as u32)).copied().unwrap_or(0) }) }).collect()
    }
    /// Concrete inputs of some completed paths, with the values the harness observed, for validation against the native code.
    fn witness(&mut self, st: &State) {
        let n = self.st.paths;
        if (!n.is_power_of_two() && st.seed.is_none()) || self.st.wit.len() >= 8 || !st.replay.is_empty() { return; }
        let mut st = st.clone();
        if self.d.abs && st.seed.is_none() { return; }
        let st = &st;
        let obs = st.obs.iter().map(|v| match v { Val::C(c) => *c as u64, Val::S(e) => self.d.eval(*e, &st.model) as u64, _ => 0 }).collect();
        let m = self.model_of(st);
        self.st.wit.push((m, obs));
    }
    /// A model of the whole path with the definitions of abstracted terms.
    fn exact(&mut self, st: &State, ms: &[(u16, u64)]) -> Result<Option<Model>, String> {
        let base: Vec<Ex> = st.pc.clone();
        let mut vs: Vec<u32> = vec![];
        for (_, &(e, _)) in st.used.iter() { vs.extend(self.d.vars(e).iter()); }
        for &c in &base { vs.extend(self.d.vars(c).iter()); }
        for v in st.obs.iter() { if let Val::S(e) = v { vs.extend(self.d.vars(*e).iter()); } }
        vs.sort(); vs.dedup();
        self.d.definitions(&vs);
        for &(bits, t) in ms {
            let q = &base;
            let mut vs: Vec<u32> = vec![]; for &c in q { vs.extend(self.d.vars(c).iter()); } vs.sort(); vs.dedup();
            let mut all = vs.clone(); let mut i = 0;
            while i < all.len() { if let Some(x) = self.d.abs_def.get(&all[i]) { let e = x.1; for &v in self.d.vars(e).iter() { if !all.contains(&v) { all.push(v); } } } i += 1; }
            let vs: Vec<u32> = all.into_iter().filter(|v| !self.d.abs_def.contains_key(v)).collect();
            match self.solver.exact(&self.d, q, &vs, t, bits) {
                Ans::Unsat => if bits == 0 { return Ok(None) },
                Ans::Unknown(_) => {}
                Ans::Sat(m) => {
                    let mm: FxMap<u32, u128> = m.iter().copied().filter(|x| !self.d.abs_def.contains_key(&x.0)).collect();
                    for &c in q { if self.d.eval(c, &mm) != 1 { return Err("solver model does not satisfy a constraint".into()); } }
                    return Ok(Some(Rc::new(mm)));
                }
            }
        }
        Err("solver unknown".into())
    }
    fn violation(&mut self, st: &mut State, kind: String) {
        if !st.replay.is_empty() { self.fatal(format!("violation during replay of a trail: {}", kind)); return; }
        if self.d.abs && st.seed.is_none() {
            match self.exact(st, &[(0, 4000), (3, 4000), (5, 5000), (8, 8000), (0, 25000), (12, 8000)]) {
                Ok(None) => { self.st.killed += 1; if std::env::var("SXDBG").is_ok() { eprintln!("refuted: {}", kind); } return; }
                Ok(Some(m)) => st.model = m,
                Err(e) => { let w = self.whereami(st); self.fatal(format!("possible violation ({}) not confirmed: {} at {}", kind, e, w)); return; }
            }
        }
        let kind = if kind.starts_with("panic: ") || self.o.trace { format!("{} @ {}", kind, self.whereami(st)) } else { kind };
        let out = self.model_of(st);
        self.st.viol.push(Viol { kind, model: out });
        if self.sh.nviol.fetch_add(1, Ordering::SeqCst) + 1 >= self.o.max_viol { self.sh.stop.store(true, Ordering::SeqCst); }
    }

    fn learn(&mut self, st: &mut State, e: Ex, v: bool) {
        if e <= 1 { return; }
        if st.known.insert(e, v) == Some(v) { return; }
        let k = self.d.key(e);
        match (k.op, v) {
            (Op::Not, _) => self.learn(st, k.a, !v),
            (Op::And, true) if k.w == 1 => { self.learn(st, k.a, true); self.learn(st, k.b, true); }
            (Op::Or, false) if k.w == 1 => { self.learn(st, k.a, false); self.learn(st, k.b, false); }
            (Op::Ult, true) => {
                let x = self.d.cmp(Op::Eq, k.a, k.b); self.set(st, x, false);
                let x = self.d.cmp(Op::Ule, k.a, k.b); self.set(st, x, true);
                let x = self.d.cmp(Op::Ult, k.b, k.a); self.set(st, x, false);
                let x = self.d.cmp(Op::Ule, k.b, k.a); self.set(st, x, false);
            }
            (Op::Ule, false) => { let x = self.d.cmp(Op::Ult, k.b, k.a); self.learn(st, x, true); }
            (Op::Ult, false) => { let x = self.d.cmp(Op::Ule, k.b, k.a); self.set(st, x, true); }
            (Op::Ule, true) => { let x = self.d.cmp(Op::Ult, k.b, k.a); self.set(st, x, false);
                let x = self.d.cmp(Op::Eq, k.a, k.b);
                if let Some(false) = st.known.get(&x) { let y = self.d.cmp(Op::Ult, k.a, k.b); self.learn(st, y, true); } }
            (Op::Slt, true) => {
                let x = self.d.cmp(Op::Eq, k.a, k.b); self.set(st, x, false);
                let x = self.d.cmp(Op::Sle, k.a, k.b); self.set(st, x, true);
                let x = self.d.cmp(Op::Slt, k.b, k.a); self.set(st, x, false);
                let x = self.d.cmp(Op::Sle, k.b, k.a); self.set(st, x, false);
            }
            (Op::Sle, false) => { let x = self.d.cmp(Op::Slt, k.b, k.a); self.learn(st, x, true); }
            (Op::Slt, false) => { let x = self.d.cmp(Op::Sle, k.b, k.a); self.set(st, x, true); }
            (Op::Sle, true) => { let x = self.d.cmp(Op::Slt, k.b, k.a); self.set(st, x, false);
                let x = self.d.cmp(Op::Eq, k.a, k.b);
                if let Some(false) = st.known.get(&x) { let y = self.d.cmp(Op::Slt, k.a, k.b); self.learn(st, y, true); } }
            (Op::Eq, false) => {
                for (p, q) in [(k.a, k.b), (k.b, k.a)] {
                    let x = self.d.cmp(Op::Ule, p, q); if x > 1 { if let Some(true) = st.known.get(&x) { let y = self.d.cmp(Op::Ult, p, q); self.learn(st, y, true); } }
                }
            }
            (Op::Eq, true) => {
                if let Some(c) = self.d.as_const(k.b) { st.fix.insert(k.a, c); self.subst_regs(st, k.a, c); }
                else if let Some(c) = self.d.as_const(k.a) { st.fix.insert(k.b, c); self.subst_regs(st, k.b, c); }
                else {
                    for (p, q) in [(k.a, k.b), (k.b, k.a)] {
                        let x = self.d.cmp(Op::Ult, p, q); self.set(st, x, false);
                        let x = self.d.cmp(Op::Ule, p, q); self.set(st, x, true);
                    }
                }
            }
            _ => {}
        }
        if k.op == Op::Var { st.fix.insert(e, v as u128); }
    }
    fn set(&mut self, st: &mut State, e: Ex, v: bool) { if e > 1 { st.known.insert(e, v); let n = self.d.not(e); if n > 1 { st.known.insert(n, !v); } } }
    fn subst_regs(&mut self, st: &mut State, e: Ex, c: u128) {
        if let Some(f) = st.frames.last_mut() { let f = Rc::make_mut(f); for r in f.regs.iter_mut() { if let Val::S(x) = r { if *x == e { *r = Val::C(c); } } } }
    }
    fn assert(&mut self, st: &mut State, e: Ex) {
        if e == 1 { return; }
        let k = self.d.key(e);
        if k.op == Op::And && k.w == 1 { self.assert(st, k.a); self.assert(st, k.b); return; }
        if st.known.get(&e) == Some(&true) { return; }
        st.pc.push(e);
        self.learn(st, e, true);
    }

    /// Is pc /\ e satisfiable?  Returns the model on success.
    fn sat(&mut self, st: &State, e: Ex) -> H<Option<Model>> {
        if e == 0 { return Ok(None); }
        if self.d.eval(e, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        self.sat_query(st, &[e], false)
    }
    fn sat_query(&mut self, st: &State, extra: &[Ex], all: bool) -> H<Option<Model>> {
        let mut slice: Vec<Ex> = extra.to_vec();
        if all { slice.extend(st.pc.iter()); }
        else {
            let mut need: FxSet<u32> = Default::default();
            for &e in extra { for &v in self.d.vars(e).iter() { need.insert(v); } }
            let mut rest: Vec<Ex> = st.pc.clone();
            let mut facts: FxSet<u32> = Default::default();
            loop {
                let mut ch = false;
                if self.d.abs {
                    let todo: Vec<u32> = need.iter().copied().filter(|v| !facts.contains(v) && self.d.abs_def.contains_key(v)).collect();
                    for v in todo {
                        facts.insert(v);
                        for f in self.d.abs_def[&v].2.clone() { slice.push(f); for &u in self.d.vars(f).iter() { if need.insert(u) { ch = true; } } }
                    }
                }
                let mut keep = vec![];
                for &c in &rest {
                    let vs = self.d.vars(c);
                    if vs.iter().any(|v| need.contains(v)) { for &v in vs.iter() { if need.insert(v) { ch = true; } } slice.push(c); } else { keep.push(c); }
                }
                rest = keep;
                if !ch { break; }
            }
        }
        if self.d.abs {
            let mut facts: FxSet<u32> = Default::default();
            let mut i = 0;
            while i < slice.len() {
                for &v in self.d.vars(slice[i]).iter() { if facts.insert(v) { if let Some(x) = self.d.abs_def.get(&v) { slice.extend(x.2.iter()); } } }
                i += 1;
            }
        }
        slice.sort(); slice.dedup();
        let ans = if let Some(r) = self.cache.get(&slice) { self.st.cache_hits += 1; r.clone() } else {
            let mut vs: Vec<u32> = vec![]; for &c in &slice { vs.extend(self.d.vars(c).iter()); } vs.sort(); vs.dedup();
            // models found before often do
            let mut hit = None;
            for i in (0..self.recent.len()).rev() {
                let m = self.recent[i].clone();
                if extra.iter().all(|&c| self.d.eval(c, &m) == 1) && slice.iter().all(|&c| self.d.eval(c, &m) == 1) { hit = Some(m); break; }
            }
            if let Some(m) = hit {
                self.st.cache_hits += 1;
                let r: Vec<(u32, u128)> = vs.iter().filter_map(|&v| m.get(&v).map(|&x| (v, x)).or_else(|| if self.d.abs_def.contains_key(&v) { None } else { Some((v, 0)) })).collect();
                let mut n = (*st.model).clone();
                for &v in &vs { n.remove(&v); }
                for (k, v) in r { n.insert(k, v); }
                // abstracted terms the model left to their definitions
                for &v in &vs { if !n.contains_key(&v) { if let Some(x) = self.d.abs_def.get(&v) { let x = x.0; let val = self.d.eval(x, &m); n.insert(v, val); } } }
                return Ok(Some(Rc::new(n)));
            }
            let r = match self.solver.check(&self.d, &slice, &vs) {
                Ans::Unsat => None,
                Ans::Sat(m) => {
                    // the model is not trusted: it must satisfy the slice under our own evaluator
                    let mm: FxMap<u32, u128> = m.iter().copied().collect();
                    for &c in &slice { if self.d.eval(c, &mm) != 1 { return Err(Halt::Err(format!("solver model does not satisfy constraint n{}", c))); } }
                    if self.recent.len() >= 24 { self.recent.remove(0); }
                    self.recent.push(Rc::new(mm));
                    Some(Rc::new(m))
                }
                Ans::Unknown(x) => return Err(Halt::Err(format!("solver unknown: {}", x))),
            };
            self.cache.insert(slice, r.clone());
            r
        };
        Ok(ans.map(|m| { let mut n = (*st.model).clone(); for &(k, v) in m.iter() { n.insert(k, v); } Rc::new(n) }))
    }

    fn fork(&mut self, st: &mut State, e: Ex, val: Option<(Ex, u128)>, stack: &mut Vec<State>) -> H<()> {
        let dec = |b: bool| match val { None => Dec::B(b), Some((_, v)) => Dec::V(v, b) };
        let apply = |w: &mut Worker, s: &mut State, b: bool| {
            if b { w.assert(s, e); if let Some((x, v)) = val { s.fix.insert(x, v); w.subst_regs(s, x, v); } }
            else { let n = w.d.not(e); w.assert(s, n); w.learn(s, e, false); }
            s.trail.push((s.steps, dec(b)));
        };
        // decisions of the trail that this run resolved without asking are skipped
        let had = !st.replay.is_empty();
        while st.replay.front().map_or(false, |d| d.0 < st.steps) { st.replay.pop_front(); }
        if had && st.replay.is_empty() { self.end_replay(st)?; }
        if let Some(&(n, d)) = st.replay.front() {
            if n == st.steps {
                st.replay.pop_front();
                let b = match (d, val) { (Dec::B(b), None) => b, (Dec::V(v, b), Some((_, v2))) if v == v2 => b, _ => return Err(Halt::Err(format!("trail mismatch {:?} {:?}", d, val))) };
                apply(self, st, b);
                if st.replay.is_empty() { self.end_replay(st)?; }
                return Ok(());
            }
            // not asked in the original run: it must be implied
            let ne = self.d.not(e);
            let can_t = self.sat_query(st, &[e], false)?.is_some(); let can_f = self.sat_query(st, &[ne], false)?.is_some();
            if !can_t && !can_f { return Err(Halt::Kill); }
            // both: the rest of the trail rules out what does not belong to it
            if can_t && can_f { let mut s2 = st.clone(); apply(self, &mut s2, false); stack.push(s2); }
            apply(self, st, can_t);
            return Ok(());
        }
        let cur = self.d.eval(e, &st.model) == 1;
        let ne = self.d.not(e);
        let other = if cur { ne } else { e };
        match self.sat(st, other)? {
            None => {
                // implied: remember it without growing the path condition
                if cur { self.learn(st, e, true); if let Some((x, v)) = val { st.fix.insert(x, v); self.subst_regs(st, x, v); } } else { self.learn(st, e, false); let n = self.d.not(e); self.learn(st, n, true); }
                st.trail.push((st.steps, dec(cur)));
            }
            Some(m2) => {
                self.st.forks += 1;
                if self.o.profile { let f = st.frames.last().unwrap(); *self.st.fork_sites.entry((f.f, f.block, f.ip)).or_insert(0) += 1; }
                let mut s2 = st.clone();
                s2.model = m2;
                apply(self, &mut s2, !cur);
                apply(self, st, cur);
                stack.push(s2);
                let idle = self.sh.idle.load(Ordering::Relaxed);
                if idle > 0 && self.sh.qlen.load(Ordering::Relaxed) < idle {
                    let s = stack.remove(0);
                    let t = self.full_trail(&s);
                    let mut q = self.sh.queue.lock().unwrap();
                    q.push(t); self.sh.qlen.store(q.len(), Ordering::Relaxed);
                    drop(q); self.sh.cv.notify_one();
                }
            }
        }
        Ok(())
    }
    fn end_replay(&mut self, st: &mut State) -> H<()> {
        match self.sat_query(st, &[], true)? { Some(m) => { st.model = m; Ok(()) } None => Err(Halt::Kill) }
    }

    /// Rewrite an expression using facts of the path.
    fn reduce(&mut self, st: &State, e: Ex, memo: &mut FxMap<Ex, Ex>) -> Ex {
        if let Some(&r) = memo.get(&e) { return r; }
        let k = self.d.key(e);
        if k.op == Op::Const { return e; }
        let r = if let Some(&v) = st.fix.get(&e) { self.d.konst(v, k.w) }
        else if k.w == 1 && st.known.contains_key(&e) { st.known[&e] as Ex }
        else if k.op == Op::Var { e }
        else {
            let (c, n) = self.d.children(e);
            let a = self.reduce(st, c[0], memo);
            if k.op == Op::Ite && a <= 1 { let r = if a == 1 { self.reduce(st, c[1], memo) } else { self.reduce(st, c[2], memo) }; memo.insert(e, r); return r; }
            if k.w == 1 && k.op == Op::And && a == 0 { 0 } else if k.w == 1 && k.op == Op::Or && a == 1 { 1 } else {
                let b = if n > 1 { self.reduce(st, c[1], memo) } else { 0 };
                let cc = if n > 2 { self.reduce(st, c[2], memo) } else { 0 };
                if a == c[0] && (n < 2 || b == c[1]) && (n < 3 || cc == c[2]) { e } else {
                    let r = self.d.rebuild(k, a, b, cc);
                    if r != e && self.d.w(r) == 1 { st.known.get(&r).map(|&b| b as Ex).unwrap_or(r) } else { r }
                }
            }
        };
        memo.insert(e, r);
        r
    }
    fn decide(&mut self, st: &mut State, e: Ex) -> H<bool> {
        if e <= 1 { return Ok(e == 1); }
        if let Some(&b) = st.known.get(&e) { return Ok(b); }
        let n = self.d.not(e);
        if let Some(&b) = st.known.get(&n) { return Ok(!b); }
        let r = self.reduce(st, e, &mut Default::default());
        if r <= 1 { st.known.insert(e, r == 1); return Ok(r == 1); }
        Err(Halt::Fork(r))
    }
    fn value(&mut self, st: &mut State, v: &Val) -> H<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if let Some(&c) = st.fix.get(e) { return Ok(c); }
                let r = self.reduce(st, *e, &mut Default::default());
                if let Some(c) = self.d.as_const(r) { st.fix.insert(*e, c); return Ok(c); }
                if let Some(&c) = st.fix.get(&r) { return Ok(c); }
                self.split_ites(st, r)?;
                Err(Halt::ForkVal(r))
            }
            Val::A(_) => Err(Halt::Err("aggregate as scalar".into())),
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> Ex { match v { Val::C(c) => self.d.konst(*c, w), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }
    fn mk(&self, e: Ex) -> Val { match self.d.as_const(e) { Some(c) => Val::C(c), None => Val::S(e) } }

    fn cv(c: &Cv) -> Val { match c { Cv::Int(v) => Val::C(*v), Cv::Undef => Val::C(0), Cv::Agg(a) => Val::A(Rc::new(a.iter().map(Self::cv).collect())) } }
    fn undef(ty: &Ty) -> Val { if ty.is_agg() { Val::A(Rc::new(ty.elems().iter().map(Self::undef).collect())) } else { Val::C(0) } }
    fn val(&self, st: &State, o: &Opd, ty: &Ty) -> Val {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::Agg(a) => Val::A(Rc::new(a.iter().map(Self::cv).collect())),
            Opd::Undef => Self::undef(ty),
        }
    }
    fn put(&self, st: &mut State, r: u32, v: Val) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v; }
    fn next(&self, st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }
    fn jump(&mut self, m: &Module, st: &mut State, to: u32) {
        let fi = st.frames.last().unwrap().f; let from = st.frames.last().unwrap().block;
        let b = &m.funcs[fi as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, t, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                vals.push((*d, self.val(st, o, t)));
            }
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.block = to; fr.ip = 0;
    }

    fn bin1(&mut self, op: BinOp, w: u16, fl: bool, a: &Val, b: &Val) -> H<Val> {
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
            BinOp::FAdd => Op::FAdd, BinOp::FSub => Op::FSub, BinOp::FMul => Op::FMul, BinOp::FDiv => Op::FDiv, BinOp::FRem => {
                if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C((f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128)); }
                return Err(Halt::Err("symbolic frem".into())) } };
        let _ = fl;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if fl && w == 32 { let (p, q) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32)); return Ok(Val::C(match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, _ => p / q }.to_bits() as u128)); }
            return Ok(Val::C(apply(o, w, w, *x, *y, 0, 0)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if fl && w == 32 {
            // one double operation rounded again is the float operation
            let (p, q) = (self.d.fp(Op::FFrom32, 64, x, x, 0), self.d.fp(Op::FFrom32, 64, y, y, 0));
            let r = self.d.fp(o, 64, p, q, 0); let r = self.d.fp(Op::FTo32, 32, r, r, 0); return Ok(self.mk(r));
        }
        let e = if fl { self.d.fp(o, w, x, y, 0) } else { self.d.bin(o, x, y) };
        Ok(self.mk(e))
    }
    fn icmp1(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        let (o, sw, neg) = match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C(apply(o, 1, w, *x, *y, 0, 0) ^ neg as u128); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut e = self.d.cmp(o, x, y);
        if neg { e = self.d.not(e); }
        self.mk(e)
    }
    fn ite_val(&mut self, c: Ex, t: &Ty, a: &Val, b: &Val) -> Val {
        if t.is_agg() {
            let ts = t.elems();
            if let (Val::A(x), Val::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); return Val::A(Rc::new(ts.iter().enumerate().map(|(i, t)| self.ite_val(c, t, &x[i], &y[i])).collect())); }
            panic!("agg select");
        }
        let w = t.w();
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.d.ite(c, x, y); self.mk(e)
    }
    fn flatten(&mut self, t: &Ty, v: &Val) -> Val {
        if let (Ty::Vec(_, et), Val::A(xs)) = (t, v) {
            let w = et.w(); let xs = xs.clone();
            if xs.iter().all(|x| matches!(x, Val::C(_))) { let mut r = 0u128; for (i, x) in xs.iter().enumerate() { if let Val::C(c) = x { r |= c << (i * w as usize); } } return Val::C(r); }
            let mut acc = self.ex(&xs[0], w);
            for x in xs.iter().skip(1) { let h = self.ex(x, w); acc = self.d.concat(h, acc); }
            return self.mk(acc);
        }
        v.clone()
    }
    fn unflatten(&mut self, t: &Ty, v: Val) -> Val {
        if let Ty::Vec(n, et) = t {
            let w = et.w();
            return Val::A(Rc::new((0..*n as u16).map(|i| match &v { Val::C(c) => Val::C((c >> (i * w)) & mask(w)), Val::S(e) => { let x = self.d.extract(*e, i * w, w); self.mk(x) } _ => panic!() }).collect()));
        }
        v
    }
    fn cast1(&mut self, c: Cast, f: &Ty, t: &Ty, v: &Val) -> H<Val> {
        let (fw, tw) = (f.w(), t.w());
        Ok(match c {
            Cast::Trunc => match v { Val::C(x) => Val::C(x & mask(tw)), Val::S(e) => { let r = self.d.extract(*e, 0, tw); self.mk(r) } _ => panic!() },
            Cast::ZExt => match v { Val::C(_) => v.clone(), Val::S(e) => { let r = self.d.zext(*e, tw); self.mk(r) } _ => panic!() },
            Cast::SExt => match v { Val::C(x) => Val::C(sext(*x, fw) as u128 & mask(tw)), Val::S(e) => { let r = self.d.sext(*e, tw); self.mk(r) } _ => panic!() },
            Cast::PtrToInt | Cast::IntToPtr => { if tw < fw { return self.cast1(Cast::Trunc, &Ty::Int(fw), &Ty::Int(tw), v); } if tw > fw { return self.cast1(Cast::ZExt, &Ty::Int(fw), &Ty::Int(tw), v); } v.clone() }
            Cast::BitCast => v.clone(),
            Cast::UiToFp | Cast::SiToFp => {
                let o = if c == Cast::UiToFp { Op::UiToF } else { Op::SiToF };
                if tw == 32 { if fw <= 32 { let d = self.cast1(c, f, &Ty::F64, v)?; return self.cast1(Cast::FpTrunc, &Ty::F64, t, &d); } match v { Val::C(x) => Val::C((if c == Cast::UiToFp { *x as f32 } else { sext(*x, fw) as f32 }).to_bits() as u128), _ => return Err(Halt::Err("symbolic f32".into())) } }
                else { match v { Val::C(x) => Val::C(apply(o, 64, fw, *x, 0, 0, 0)), Val::S(e) => { let r = self.d.fp(o, 64, *e, *e, 0); self.mk(r) } _ => panic!() } }
            }
            Cast::FpToUi | Cast::FpToSi => {
                if fw == 32 { let d = self.cast1(Cast::FpExt, f, &Ty::F64, v)?; return self.cast1(c, &Ty::F64, t, &d); }
                let o = if c == Cast::FpToUi { Op::FToUiSat } else { Op::FToSiSat };
                match v { Val::C(x) => Val::C(apply(o, tw, 64, *x, 0, 0, 0)), Val::S(e) => { let r = self.d.fp(o, tw, *e, *e, 0); self.mk(r) } _ => panic!() }
            }
            Cast::FpExt => match v { Val::C(x) => Val::C((f32::from_bits(*x as u32) as f64).to_bits() as u128), Val::S(e) => { let r = self.d.fp(Op::FFrom32, 64, *e, *e, 0); self.mk(r) } _ => panic!() },
            Cast::FpTrunc => match v { Val::C(x) => Val::C((f64::from_bits(*x as u64) as f32).to_bits() as u128), Val::S(e) => { let r = self.d.fp(Op::FTo32, 32, *e, *e, 0); self.mk(r) } _ => panic!() },
        })
    }
    fn fcmp1(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> H<Val> {
        if p == "true" { return Ok(Val::C(1)); }
        if p == "false" { return Ok(Val::C(0)); }
        let (a, b) = if w == 32 { (self.cast1(Cast::FpExt, &Ty::F32, &Ty::F64, a)?, self.cast1(Cast::FpExt, &Ty::F32, &Ty::F64, b)?) } else { (a.clone(), b.clone()) };
        let (x, y) = (self.ex(&a, 64), self.ex(&b, 64));
        let nx = self.d.fp(Op::FIsNan, 1, x, x, 0); let ny = self.d.fp(Op::FIsNan, 1, y, y, 0);
        let uno = self.d.or(nx, ny);
        let base = match &p[1..] { "eq" => self.d.fp(Op::FEq, 1, x, y, 0), "lt" => self.d.fp(Op::FLt, 1, x, y, 0), "le" => self.d.fp(Op::FLe, 1, x, y, 0), "gt" => self.d.fp(Op::FLt, 1, y, x, 0), "ge" => self.d.fp(Op::FLe, 1, y, x, 0),
            "ne" => { let e = self.d.fp(Op::FEq, 1, x, y, 0); let ne = self.d.not(e); let o = self.d.not(uno); self.d.and(ne, o) }
            "rd" => self.d.not(uno), "no" => uno, _ => return Err(Halt::Err(format!("fcmp {}", p))) };
        let r = if p == "ord" || p == "uno" { base } else if p.starts_with('u') { self.d.or(base, uno) } else { base };
        Ok(self.mk(r))
    }

    fn load_at(&mut self, st: &State, addr: u64, ty: &Ty) -> H<Val> {
        if let Ty::Vec(n, et) = ty {
            if et.bits() % 8 != 0 { // bit vector: load as integer
                let w = ty.bits() as u16; let v = self.load_at(st, addr, &Ty::Int(w))?; return Ok(self.unflatten(ty, v));
            }
            let s = et.size(); let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load_at(st, addr + i * s, et)?); } return Ok(Val::A(Rc::new(v)));
        }
        if ty.is_agg() {
            let n = ty.elems().len(); let mut v = vec![];
            for i in 0..n { let (o, t) = ty.field_off(i); v.push(self.load_at(st, addr + o, t)?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let n = ty.store_size(); let w = ty.w();
        if n > 16 { return Err(Halt::Err("wide integer load".into())); }
        Ok(match er(st.mem.load(&mut self.d, addr, n))? {
            Ok(c) => Val::C(c & mask(w)),
            Err(e) => { let e = if (n * 8) as u16 > w { self.d.extract(e, 0, w) } else { e };
                if let Some(&c) = st.fix.get(&e) { return Ok(Val::C(c)); }
                self.mk(e) }
        })
    }
    /// Case-split on the selections an address or index is made of.
    fn split_ites(&mut self, st: &mut State, e: Ex) -> H<()> {
        let mut stk = vec![e]; let mut n = 0;
        while let Some(x) = stk.pop() {
            n += 1; if n > 64 { return Ok(()); }
            let k = self.d.key(x);
            match k.op {
                Op::Ite => { self.decide(st, k.a)?; return Ok(()); }
                Op::ZExt | Op::SExt if self.d.w(k.a) == 1 => { self.decide(st, k.a)?; return Ok(()); }
                Op::Add | Op::Sub | Op::Mul | Op::Concat | Op::ZExt | Op::SExt | Op::Extract | Op::Shl | Op::LShr | Op::AShr => { let (c, m) = self.d.children(x); for i in 0..m { stk.push(c[i]); } }
                _ => {}
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, a: &Val, ty: &Ty) -> H<Val> {
        match a {
            Val::C(c) => self.load_at(st, *c as u64, ty),
            Val::S(e0) => {
                let e = self.reduce(st, *e0, &mut Default::default());
                if let Some(c) = self.d.as_const(e) { return self.load_at(st, c as u64, ty); }
                if let Some(&c) = st.fix.get(&e) { return self.load_at(st, c as u64, ty); }
                self.split_ites(st, e)?;
                if ty.is_agg() { let c = self.value(st, a)?; return self.load_at(st, c as u64, ty); }
                let n = ty.store_size();
                let base = match self.objsel(st, e)? { b => b };
                let size = match st.mem.size_of(base) { Some(s) if s >= n => s, _ => { let c = self.value(st, a)?; return self.load_at(st, c as u64, ty); } };
                let be = self.d.konst(base as u128, 64);
                let off = self.d.bin(Op::Sub, e, be);
                let lim = self.d.konst((size - n) as u128, 64);
                let inb = self.d.cmp(Op::Ule, off, lim);
                if !self.decide(st, inb)? { let c = self.value(st, a)?; return self.load_at(st, c as u64, ty); }
                let nd = &self.d.nodes[off as usize];
                let (lo, hi) = (nd.ulo.min((size - n) as u128) as u64, nd.uhi.min((size - n) as u128) as u64);
                let stride = 1u64 << self.d.tz(off).min(12);
                let lo = (lo + stride - 1) / stride * stride;
                if hi < lo || (hi - lo) / stride >= 600 { let c = self.value(st, a)?; return self.load_at(st, c as u64, ty); }
                let w = ty.w();
                let mut runs: Vec<(u64, Ex)> = vec![];
                let mut o = lo;
                while o <= hi { let v = self.load_at(st, base + o, ty)?; let x = self.ex(&v, w); if runs.last().map(|r| r.1) != Some(x) { runs.push((o, x)); } o += stride; }
                let mut res = runs.last().unwrap().1;
                for i in (0..runs.len() - 1).rev() { let b = self.d.konst(runs[i + 1].0 as u128, 64); let c = self.d.cmp(Op::Ult, off, b); res = self.d.ite(c, runs[i].1, res); }
                Ok(self.mk(res))
            }
            _ => Err(Halt::Err("load address".into())),
        }
    }
    fn objsel(&mut self, st: &mut State, e: Ex) -> H<u64> {
        if let Some(&b) = st.objsel.get(&e) { return Ok(b); }
        let from_trail = !st.replay.is_empty();
        while st.replay.front().map_or(false, |d| d.0 < st.steps) { st.replay.pop_front(); }
        let b = if let Some(&(n, d)) = st.replay.front() {
            match d {
                Dec::O(b) if n == st.steps => { st.replay.pop_front(); b }
                // not asked in the original run: any choice will do, the offset is decided below
                _ => match self.sat_query(st, &[], true)? { Some(m) => (self.d.eval(e, &m) as u64) & !0xffff_ffff, None => return Err(Halt::Kill) },
            }
        } else { (self.d.eval(e, &st.model) as u64) & !0xffff_ffff };
        st.objsel.insert(e, b);
        st.trail.push((st.steps, Dec::O(b)));
        if from_trail && st.replay.is_empty() { self.end_replay(st)?; }
        Ok(b)
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> H<()> {
        if let Ty::Vec(n, et) = ty {
            if et.bits() % 8 != 0 { let f = self.flatten(ty, v); return self.store_at(st, addr, &Ty::Int(ty.bits() as u16), &f); }
            if let Val::A(xs) = v { let s = et.size(); for i in 0..*n as u64 { self.store_at(st, addr + i * s, et, &xs[i as usize])?; } }
            return Ok(());
        }
        if ty.is_agg() {
            if let Val::A(xs) = v { for (i, x) in xs.iter().enumerate() { let (o, t) = ty.field_off(i); self.store_at(st, addr + o, t, x)?; } }
            return Ok(());
        }
        let n = ty.store_size(); let w = ty.w();
        let x = match v { Val::C(c) => Ok(*c & mask(w)), Val::S(e) => { let e = if (n * 8) as u16 > w { self.d.zext(*e, (n * 8) as u16) } else { *e }; match self.d.as_const(e) { Some(c) => Ok(c), None => Err(e) } } _ => panic!() };
        er(st.mem.store(&mut self.d, addr, n, x))
    }

    fn step(&mut self, m: &Module, st: &mut State) -> H<()> {
        let (fi, bi, ip) = { let f = st.frames.last().unwrap(); (f.f, f.block, f.ip) };
        let inst = &m.funcs[fi as usize].blocks[bi as usize].insts[ip as usize];
        match inst {
            Inst::Nop => {}
            Inst::Bin(d, op, t, a, b) => {
                let (x, y) = (self.val(st, a, t), self.val(st, b, t));
                let fl = matches!(t, Ty::F64 | Ty::F32);
                let r = if let Ty::Vec(n, et) = t {
                    let (Val::A(xs), Val::A(ys)) = (&x, &y) else { panic!() };
                    let mut o = vec![]; for i in 0..*n as usize { o.push(self.bin1(*op, et.w(), matches!(**et, Ty::F64 | Ty::F32), &xs[i], &ys[i])?); }
                    Val::A(Rc::new(o))
                } else { self.bin1(*op, t.w(), fl, &x, &y)? };
                self.put(st, *d, r);
            }
            Inst::Icmp(d, p, t, a, b) => {
                let (x, y) = (self.val(st, a, t), self.val(st, b, t));
                let r = if let Ty::Vec(n, et) = t {
                    let (Val::A(xs), Val::A(ys)) = (&x, &y) else { panic!() };
                    let mut o = vec![]; for i in 0..*n as usize { o.push(self.icmp1(*p, et.w(), &xs[i], &ys[i])); }
                    Val::A(Rc::new(o))
                } else { self.icmp1(*p, t.w(), &x, &y) };
                self.put(st, *d, r);
            }
            Inst::Fcmp(d, p, t, a, b) => { let (x, y) = (self.val(st, a, t), self.val(st, b, t)); let r = self.fcmp1(p, t.w(), &x, &y)?; self.put(st, *d, r); }
            Inst::FNeg(d, t, a) => {
                let x = self.val(st, a, t); let w = t.w(); let k = Val::C(1u128 << (w - 1));
                let r = self.bin1(BinOp::Xor, w, false, &x, &k)?; self.put(st, *d, r);
            }
            Inst::Select(d, t, c, vc, a, b) => {
                let (x, y) = (self.val(st, a, t), self.val(st, b, t));
                let r = if *vc {
                    let cv = match c { Opd::Agg(a) => Val::A(Rc::new(a.iter().map(Self::cv).collect())), o => self.val(st, o, &Ty::Int(1)) };
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) else { panic!() };
                    let Ty::Vec(n, et) = t else { panic!() };
                    let mut o = vec![]; for i in 0..*n as usize { let ce = self.ex(&cs[i], 1); o.push(self.ite_val(ce, et, &xs[i], &ys[i])); }
                    Val::A(Rc::new(o))
                } else {
                    match self.val(st, c, &Ty::Int(1)) { Val::C(c) => if c != 0 { x } else { y },
                        Val::S(e) => {
                            match st.known.get(&e) { Some(true) => x, Some(false) => y, None => {
                                // selecting between pointers to different objects is decided by forking
                                if *t == Ty::Ptr { if let (Val::C(p), Val::C(q)) = (&x, &y) { if (*p >> 32) != (*q >> 32) { let b = self.decide(st, e)?; let r = if b { x } else { y }; self.put(st, *d, r); self.next(st); return Ok(()); } } }
                                self.ite_val(e, t, &x, &y) } }
                        }
                        _ => panic!() }
                };
                self.put(st, *d, r);
            }
            Inst::Cast(d, c, f, a, t) => {
                let x = self.val(st, a, f);
                let r = match (f, t) {
                    (_, _) if *c == Cast::BitCast => { let v = self.flatten(f, &x); self.unflatten(t, v) }
                    (Ty::Vec(n, fe), Ty::Vec(_, te)) => { let Val::A(xs) = &x else { panic!() }; let mut o = vec![]; for i in 0..*n as usize { o.push(self.cast1(*c, fe, te, &xs[i])?); } Val::A(Rc::new(o)) }
                    _ => self.cast1(*c, f, t, &x)?,
                };
                self.put(st, *d, r);
            }
            Inst::Load(d, t, a) => { let a = self.val(st, a, &Ty::Ptr); let r = self.load(st, &a, t)?; self.put(st, *d, r); }
            Inst::Store(t, v, a) => { let a = self.val(st, a, &Ty::Ptr); let addr = self.value(st, &a)? as u64; let v = self.val(st, v, t); self.store_at(st, addr, t, &v)?; }
            Inst::Gep(d, base, off, dynx) => {
                let b = self.val(st, base, &Ty::Ptr);
                let r = if dynx.is_empty() {
                    match b { Val::C(c) => Val::C((c as u64).wrapping_add(*off) as u128), Val::S(e) => { let k = self.d.konst(*off as u128, 64); let x = self.d.bin(Op::Add, e, k); self.mk(x) } _ => panic!() }
                } else {
                    let mut conc = *off; let mut symb: Option<Ex> = None;
                    match b { Val::C(c) => conc = conc.wrapping_add(c as u64), Val::S(e) => symb = Some(e), _ => panic!() }
                    for (ix, w, sc) in dynx {
                        match self.val(st, ix, &Ty::Int(*w)) {
                            Val::C(c) => conc = conc.wrapping_add((sext(c, *w) as u64).wrapping_mul(*sc)),
                            Val::S(e) => {
                                let e = if *w < 64 { self.d.sext(e, 64) } else { e };
                                let k = self.d.konst(*sc as u128, 64); let p = self.d.bin(Op::Mul, e, k);
                                symb = Some(match symb { None => p, Some(s) => self.d.bin(Op::Add, s, p) });
                            }
                            _ => panic!(),
                        }
                    }
                    match symb { None => Val::C(conc as u128), Some(s) => { let k = self.d.konst(conc as u128, 64); let x = self.d.bin(Op::Add, s, k); self.mk(x) } }
                };
                self.put(st, *d, r);
            }
            Inst::Alloca(d, n) => { let a = st.mem.alloca(*n); self.put(st, *d, Val::C(a as u128)); }
            Inst::Br(l) => { self.jump(m, st, *l); return Ok(()); }
            Inst::CondBr(c, x, y) => {
                let b = match self.val(st, c, &Ty::Int(1)) { Val::C(c) => c != 0, Val::S(e) => self.decide(st, e)?, _ => panic!() };
                self.jump(m, st, if b { *x } else { *y }); return Ok(());
            }
            Inst::Switch(w, v, def, cs) => {
                let v = self.val(st, v, &Ty::Int(*w));
                let to = match v {
                    Val::C(c) => cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                    Val::S(e) => {
                        // decide target by target, so that equal targets are not split
                        let mut targets: Vec<u32> = vec![]; for c in cs { if c.1 != *def && !targets.contains(&c.1) { targets.push(c.1); } }
                        let mut res = None;
                        for t in targets {
                            let mut cond = 0;
                            for c in cs.iter().filter(|c| c.1 == t) { let k = self.d.konst(c.0, *w); let q = self.d.cmp(Op::Eq, e, k); cond = self.d.or(cond, q); }
                            if self.decide(st, cond)? { res = Some(t); break; }
                        }
                        res.unwrap_or(*def)
                    }
                    _ => panic!(),
                };
                self.jump(m, st, to); return Ok(());
            }
            Inst::Ret(t, v) => {
                let v = v.as_ref().map(|o| self.val(st, o, t));
                let fr = st.frames.pop().unwrap();
                st.mem.stack_pop(fr.mark);
                if st.frames.is_empty() {
                    if !st.replay.is_empty() && st.replay.iter().any(|d| d.0 > st.steps) { return Err(Halt::Err("trail not consumed".into())); }
                    return Err(Halt::Done);
                }
                if let (Some(r), Some(v)) = (fr.ret, v) { self.put(st, r, v); }
                if let Some(n) = fr.normal { self.jump(m, st, n); } else { self.next(st); }
                return Ok(());
            }
            Inst::Unreachable => return Err(Halt::Err("reached unreachable".into())),
            Inst::LandingPad => return Err(Halt::Err("landing pad".into())),
            Inst::ExtractValue(d, a, ix, _) => {
                let mut v = self.val(st, a, &Ty::Void);
                for &i in ix { let n = if let Val::A(xs) = &v { xs[i as usize].clone() } else { panic!("extractvalue") }; v = n; }
                self.put(st, *d, v);
            }
            Inst::InsertValue(d, t, a, v, ix) => {
                let a = self.val(st, a, t);
                let mut et = t.clone(); for &i in ix { let n = et.field_off(i as usize).1.clone(); et = n; }
                let v = self.val(st, v, &et);
                fn ins(a: &Val, ix: &[u32], v: Val) -> Val { if ix.is_empty() { return v; } if let Val::A(xs) = a { let mut n = (**xs).clone(); n[ix[0] as usize] = ins(&xs[ix[0] as usize], &ix[1..], v); Val::A(Rc::new(n)) } else { panic!("insertvalue") } }
                let r = ins(&a, ix, v); self.put(st, *d, r);
            }
            Inst::ExtractElement(d, t, a, i) => {
                let a = self.val(st, a, t); let iv = self.val(st, i, &Ty::Int(64)); let i = self.value(st, &iv)? as usize;
                let r = if let Val::A(xs) = &a { xs[i].clone() } else { panic!() }; self.put(st, *d, r);
            }
            Inst::InsertElement(d, t, a, v, i) => {
                let a = self.val(st, a, t); let iv = self.val(st, i, &Ty::Int(64)); let i = self.value(st, &iv)? as usize;
                let v = self.val(st, v, &Ty::Int(8));
                let r = if let Val::A(xs) = &a { let mut n = (**xs).clone(); n[i] = v; Val::A(Rc::new(n)) } else { panic!() }; self.put(st, *d, r);
            }
            Inst::Shuffle(d, t, a, b, mask) => {
                let (x, y) = (self.val(st, a, t), self.val(st, b, t));
                let (Val::A(x), Val::A(y)) = (x, y) else { panic!() };
                let r = mask.iter().map(|m| match m { None => Val::C(0), Some(i) => { let i = *i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } } }).collect();
                self.put(st, *d, Val::A(Rc::new(r)));
            }
            Inst::AtomicRmw(d, o, t, a, v) => {
                let a = self.val(st, a, &Ty::Ptr); let addr = self.value(st, &a)? as u64;
                let old = self.load_at(st, addr, t)?; let v = self.val(st, v, t);
                let w = t.w();
                let new = match o.as_str() { "xchg" => v, "add" => self.bin1(BinOp::Add, w, false, &old, &v)?, "sub" => self.bin1(BinOp::Sub, w, false, &old, &v)?, "and" => self.bin1(BinOp::And, w, false, &old, &v)?, "or" => self.bin1(BinOp::Or, w, false, &old, &v)?, "xor" => self.bin1(BinOp::Xor, w, false, &old, &v)?,
                    "umax" => { let c = self.icmp1(Pred::Ugt, w, &old, &v); let c = self.ex(&c, 1); self.ite_val(c, t, &old, &v) }
                    _ => return Err(Halt::Err(format!("atomicrmw {}", o))) };
                self.store_at(st, addr, t, &new)?; self.put(st, *d, old);
            }
            Inst::CmpXchg(d, t, a, c, n) => {
                let a = self.val(st, a, &Ty::Ptr); let addr = self.value(st, &a)? as u64;
                let old = self.load_at(st, addr, t)?; let c = self.val(st, c, t); let n = self.val(st, n, t);
                let eq = self.icmp1(Pred::Eq, t.w(), &old, &c);
                let b = match eq { Val::C(x) => x != 0, Val::S(e) => self.decide(st, e)?, _ => panic!() };
                if b { self.store_at(st, addr, t, &n)?; }
                self.put(st, *d, Val::A(Rc::new(vec![old, Val::C(b as u128)])));
            }
            Inst::Freeze(d, t, a) => { let v = self.val(st, a, t); self.put(st, *d, v); }
            Inst::Unsupported(s) => return Err(Halt::Err(format!("unsupported instruction: {}", s.trim()))),
            Inst::Call(d, callee, rt, args, normal) => return self.call(m, st, *d, callee, rt, args, *normal),
        }
        self.next(st);
        Ok(())
    }

    fn call(&mut self, m: &Module, st: &mut State, d: Option<u32>, callee: &Callee, rt: &Ty, args: &[(Ty, Opd)], normal: Option<u32>) -> H<()> {
        let fi = match callee {
            Callee::Fn(f) => *f,
            Callee::Reg(o) => {
                let v = self.val(st, o, &Ty::Ptr); let a = self.value(st, &v)? as u64;
                let id = a >> 32; if id < FN_BASE || a & 0xffff_ffff != 0 { return Err(Halt::Err(format!("indirect call to {:#x}", a))); }
                (id - FN_BASE) as u32
            }
            Callee::Asm(s) => {
                if rt.is_agg() || s.contains("cpuid") { if let Some(d) = d { self.put(st, d, Self::undef(rt)); } }
                else if let Some(d) = d { // optimisation barrier: identity on its operand, if any
                    let v = if let Some((t, o)) = args.first() { self.val(st, o, t) } else { Self::undef(rt) }; self.put(st, d, v);
                }
                self.finish(m, st, normal); return Ok(());
            }
        };
        let f = &m.funcs[fi as usize];
        if f.defined {
            let vals: Vec<Val> = args.iter().map(|(t, o)| self.val(st, o, t)).collect();
            let mut regs = vec![Val::C(0); f.nregs as usize];
            for (i, (_, r)) in f.params.iter().enumerate() { regs[*r as usize] = vals[i].clone(); }
            if self.st.fns.insert(fi) {}
            if st.frames.len() > 2000 { return Err(Halt::Err("recursion too deep".into())); }
            st.frames.push(Rc::new(Frame { f: fi, block: 0, ip: 0, regs, ret: d, mark: st.mem.stack_len(), normal }));
            return Ok(());
        }
        let vals: Vec<Val> = args.iter().map(|(t, o)| self.val(st, o, t)).collect();
        let r = self.builtin(st, &f.name, rt, args, &vals)?;
        if let (Some(d), Some(v)) = (d, r) { self.put(st, d, v); }
        self.finish(m, st, normal);
        Ok(())
    }
    fn finish(&mut self, m: &Module, st: &mut State, normal: Option<u32>) { if let Some(n) = normal { self.jump(m, st, n); } else { self.next(st); } }

    fn lanes(&mut self, rt: &Ty, v: &[Val], f: &mut dyn FnMut(&mut Worker, u16, Vec<Val>) -> H<Val>) -> H<Val> {
        if let Ty::Vec(n, et) = rt {
            let mut o = vec![];
            for i in 0..*n as usize { let a = v.iter().map(|x| if let Val::A(xs) = x { xs[i].clone() } else { x.clone() }).collect(); o.push(f(self, et.w(), a)?); }
            Ok(Val::A(Rc::new(o)))
        } else { f(self, rt.w(), v.to_vec()) }
    }

    fn builtin(&mut self, st: &mut State, name: &str, rt: &Ty, args: &[(Ty, Opd)], v: &[Val]) -> H<Option<Val>> {
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, rt, args, v); }
        macro_rules! conc { ($i:expr) => { self.value(st, &v[$i])? as u64 } }
        match name {
            "sym_bits" => {
                let id = conc!(0) as u32; let w = conc!(1) as u16;
                let e = match st.seed {
                    None => self.d.var(id, w),
                    Some(s) => {
                        let mix = |x: u64| { let x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); let x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) };
                        let r = mix(s.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(mix(id as u64 + 1)));
                        // some runs on small numbers, some on large ones
                        let bits = match s % 4 { 0 => 3, 1 => 6, 2 => 12, _ => 64 };
                        let v = if bits < 64 { r & ((1u64 << bits) - 1) } else { r };
                        self.d.konst(v as u128, w)
                    }
                };
                st.used.insert(id, (e, w));
                let z = if w < 64 { self.d.zext(e, 64) } else { e };
                return Ok(Some(self.mk(z)));
            }
            "sym_assume" => {
                let e = self.ex(&v[0], args[0].0.w()); let e = self.tobool(e);
                let e = self.reduce(st, e, &mut Default::default());
                if e == 1 { return Ok(None); }
                if e == 0 { return Err(Halt::Kill); }
                if st.replay.is_empty() {
                    match self.sat(st, e)? { None => return Err(Halt::Kill), Some(md) => st.model = md }
                }
                self.assert(st, e);
                return Ok(None);
            }
            "sym_check" => {
                let id = conc!(1) as u32;
                let e = self.ex(&v[0], args[0].0.w()); let e = self.tobool(e);
                let e = self.reduce(st, e, &mut Default::default());
                if st.replay.is_empty() { *self.st.checks.entry(id).or_insert(0) += 1; self.st.asserts += 1; }
                if e == 1 { return Ok(None); }
                if e == 0 { return Err(Halt::Fail(id)); }
                if st.replay.is_empty() {
                    let n = self.d.not(e);
                    if let Some(md) = self.sat(st, n)? {
                        let mut s2 = st.clone(); s2.model = md;
                        if self.d.abs { self.assert(&mut s2, n); }
                        self.violation(&mut s2, format!("check {}", id));
                        match self.sat(st, e)? { None => return Err(Halt::Kill), Some(md) => st.model = md }
                        self.assert(st, e);
                    } else { self.learn(st, e, true); }
                } else { self.assert(st, e); }
                return Ok(None);
            }
            "sym_cant" => { let e = self.ex(&v[0], args[0].0.w()); let e = self.tobool(e); let e = self.reduce(st, e, &mut Default::default()); return Ok(Some(Val::C((e == 0) as u128))); }
            "sym_obs" => { st.obs.push(v[0].clone()); return Ok(None); }
            "sym_reach" => { let id = conc!(0) as u32; if st.replay.is_empty() { *self.st.reach.entry(id).or_insert(0) += 1; } return Ok(None); }
            "sym_concretize" => { let x = self.value(st, &v[0])?; return Ok(Some(Val::C(x))); }
            "sym_fork" => { let e = self.ex(&v[0], args[0].0.w()); let e = self.tobool(e); let b = self.decide(st, e)?; return Ok(Some(Val::C(b as u128))); }
            "sym_ite" => {
                let e = self.ex(&v[0], args[0].0.w()); let e = self.tobool(e);
                let (x, y) = (self.ex(&v[1], 64), self.ex(&v[2], 64)); let r = self.d.ite(e, x, y); return Ok(Some(self.mk(r)));
            }
            "cfg_param" => { let i = conc!(0) as usize; return Ok(Some(Val::C(*self.o.params.get(i).unwrap_or(&0) as u128))); }
            "sym_print" => { if st.replay.is_empty() && self.o.trace { match &v[0] { Val::C(c) => eprintln!("print {}", c), Val::S(e) => { let x = self.d.eval(*e, &st.model); eprintln!("print sym n{} ~ {}", e, x) } _ => {} } } return Ok(None); }
            _ => {}
        }
        if name.contains("4core9panicking") || name.contains("capacity_overflow") || name.contains("handle_alloc_error") || name == "abort" || name.contains("rust_panic") || name.contains("panic_fmt") || name.contains("process5abort") {
            let mut loc = String::new();
            for x in v.iter() { if let Val::C(a) = x {
                if let Some(b) = st.mem.bytes(*a as u64, 24) {
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap()); let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    if n > 0 && n < 300 { if let Some(s) = st.mem.bytes(p, n) { if let Ok(s) = String::from_utf8(s) { if s.ends_with(".rs") { loc = format!("{}:{}", s, u32::from_le_bytes(b[16..20].try_into().unwrap())); } } } }
                }
            } }
            return Err(Halt::Panic(format!("{} {}", name, loc)));
        }
        let oom = |n: u64| n > 1 << 31;
        Ok(Some(match name {
            // a message: its text is not modelled
            x if x.contains("12format_inner") => { let p = conc!(0); for (i, c) in [0u128, 1, 0].iter().enumerate() { self.store_at(st, p + 8 * i as u64, &Ty::Ptr, &Val::C(*c))?; } return Ok(None); }
            // allocations whose size depends on the input: small ones case by case, large ones as one case
            "malloc" | "calloc" if self.o.big > 0 && matches!(v[0], Val::S(_)) && (name == "malloc" || matches!(v[1], Val::C(1))) => {
                let e = self.ex(&v[0], 64);
                let k = self.d.konst(self.o.big as u128, 64); let small = self.d.cmp(Op::Ule, e, k);
                if self.decide(st, small)? { let n = conc!(0); return Ok(Some(Val::C(st.mem.malloc(n) as u128))); }
                let k = self.d.konst(1 << 33, 64); let some = self.d.cmp(Op::Ule, e, k);
                if !self.decide(st, some)? { return Ok(Some(Val::C(0))); }
                Val::C(st.mem.malloc(1 << 14) as u128)
            }
            "malloc" => { let n = conc!(0); if oom(n) { return Ok(Some(Val::C(0))); } Val::C(st.mem.malloc(n) as u128) }
            "calloc" => { let n = conc!(0).saturating_mul(conc!(1)); if oom(n) { return Ok(Some(Val::C(0))); } Val::C(st.mem.malloc(n) as u128) }
            "posix_memalign" => { let p = conc!(0); let n = conc!(2); if oom(n) { return Ok(Some(Val::C(12))); } let a = st.mem.malloc(n); self.store_at(st, p, &Ty::Ptr, &Val::C(a as u128))?; Val::C(0) }
            "aligned_alloc" => { let n = conc!(1); if oom(n) { return Ok(Some(Val::C(0))); } Val::C(st.mem.malloc(n) as u128) }
            "realloc" => {
                let p = conc!(0); let n = conc!(1); if oom(n) { return Ok(Some(Val::C(0))); }
                let a = st.mem.malloc(n);
                if p != 0 { let os = st.mem.size_of(p).ok_or(Halt::Panic("memory error: realloc of unknown".into()))?; er(st.mem.copy(&mut self.d, a, p, os.min(n)))?; er(st.mem.free(p))?; }
                Val::C(a as u128)
            }
            "free" => { let p = conc!(0); er(st.mem.free(p))?; return Ok(None); }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (conc!(0), conc!(1), conc!(2));
                let w = rt.w();
                let mut res = self.d.konst(0, w);
                for i in (0..n).rev() {
                    let (a, b) = (self.load_at(st, p + i, &Ty::Int(8))?, self.load_at(st, q + i, &Ty::Int(8))?);
                    let (a, b) = (self.ex(&a, 8), self.ex(&b, 8));
                    let eq = self.d.cmp(Op::Eq, a, b);
                    let (x, y) = (self.d.zext(a, w), self.d.zext(b, w)); let df = self.d.bin(Op::Sub, x, y);
                    let df = if name == "bcmp" { self.d.konst(1, w) } else { df };
                    res = self.d.ite(eq, res, df);
                }
                self.mk(res)
            }
            "strlen" => { let p = conc!(0); let mut i = 0; loop { let b = self.load_at(st, p + i, &Ty::Int(8))?; let b = self.value(st, &b)?; if b == 0 { break; } i += 1; } Val::C(i as u128) }
            "memchr" | "memrchr" => {
                let (p, c, n) = (conc!(0), conc!(1) as u8, conc!(2));
                let mut r = 0; let kc = self.d.konst(c as u128, 8);
                let ord: Vec<u64> = if name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
                for i in ord { let b = self.load_at(st, p + i, &Ty::Int(8))?; let e = self.ex(&b, 8); let q = self.d.cmp(Op::Eq, e, kc); if self.decide(st, q)? { r = p + i; break; } }
                Val::C(r as u128)
            }
            "getenv" => Val::C(0),
            "write" => { v[2].clone() }
            "writev" => return Err(Halt::Err("writev".into())),
            "getrandom" => { let n = conc!(1); let p = conc!(0); er(st.mem.set(&mut self.d, p, n, Ok(0x5a)))?; Val::C(n as u128) }
            "__errno_location" => Val::C(st.errno as u128),
            "syscall" => Val::C(mask(64)),
            "gettid" | "sched_yield" | "pthread_self" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" => Val::C(0),
            "pthread_key_create" => { let p = conc!(0); self.store_at(st, p, &Ty::Int(32), &Val::C(1))?; Val::C(0) }
            "__cxa_thread_atexit_impl" => Val::C(0),
            "floor" | "ceil" | "trunc" | "round" | "rint" => { let k = match name { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 3, _ => 4 }; let e = self.ex(&v[0], 64); let r = self.d.fp(Op::FRound, 64, e, e, k); self.mk(r) }
            _ => {
                if name.contains("8hash_one") || (name.contains("DefaultHasher") || name.contains("SipHasher")) && name.contains("6finish") { Val::C(mask(64)) }
                else { return Err(Halt::Err(format!("call of external function {}", name))) }
            }
        }))
    }
    fn tobool(&mut self, e: Ex) -> Ex { let w = self.d.w(e); if w == 1 { e } else { let z = self.d.konst(0, w); let q = self.d.cmp(Op::Eq, e, z); self.d.not(q) } }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, args: &[(Ty, Opd)], v: &[Val]) -> H<Option<Val>> {
        macro_rules! conc { ($i:expr) => { self.value(st, &v[$i])? as u64 } }
        let base = n.split('.').next().unwrap();
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || base == "assume" || base == "dbg" || base == "prefetch" || n.starts_with("x86.sse2.pause") || n.starts_with("invariant") || n == "donothing" || n.starts_with("fake.use") { return Ok(if *rt == Ty::Void { None } else { Some(Self::undef(rt)) }); }
        if n.starts_with("memcpy") || n.starts_with("memmove") { let (a, b, c) = (conc!(0), conc!(1), conc!(2)); er(st.mem.copy(&mut self.d, a, b, c))?; return Ok(None); }
        if n.starts_with("memset") { let (a, c) = (conc!(0), conc!(2)); let b = match &v[1] { Val::C(c) => Ok(*c as u8), Val::S(e) => Err(*e), _ => panic!() }; er(st.mem.set(&mut self.d, a, c, b))?; return Ok(None); }
        if n == "trap" || n.starts_with("ubsantrap") || n == "debugtrap" { return Err(Halt::Panic("trap".into())); }
        if n.starts_with("threadlocal.address") || base == "expect" || n.starts_with("launder") || n.starts_with("strip") { return Ok(Some(v[0].clone())); }
        if n.starts_with("load.relative") {
            let p = conc!(0); let o = conc!(1); let x = self.load_at(st, p.wrapping_add(o), &Ty::Int(32))?; let x = self.value(st, &x)?;
            return Ok(Some(Val::C(p.wrapping_add(sext(x, 32) as u64) as u128)));
        }
        if n.starts_with("is.constant") { return Ok(Some(Val::C(0))); }
        if n.starts_with("objectsize") { return Ok(Some(Val::C(mask(64)))); }
        if n.starts_with("ptrmask") { let (x, y) = (self.ex(&v[0], 64), self.ex(&v[1], 64)); let r = self.d.bin(Op::And, x, y); return Ok(Some(self.mk(r))); }
        // overflow arithmetic
        for (p, op, sg) in [("uadd", Op::Add, false), ("sadd", Op::Add, true), ("usub", Op::Sub, false), ("ssub", Op::Sub, true), ("umul", Op::Mul, false), ("smul", Op::Mul, true)] {
            if !n.starts_with(p) { continue; }
            if n[p.len()..].starts_with(".with.overflow") {
                let w = args[0].0.w();
                let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let r = self.d.bin(op, a, b);
                let ov = if sg && self.d.no_soverflow(op, a, b) || !sg && self.d.no_uoverflow(op, a, b) { 0 }
                    else if let (Some(x), Some(y)) = (self.d.as_const(a), self.d.as_const(b)) {
                        let rr = self.d.as_const(r).unwrap();
                        (if sg { let (x, y) = (sext(x, w), sext(y, w)); let q = match op { Op::Add => x.checked_add(y), Op::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; q != Some(sext(rr, w)) }
                        else { let q = match op { Op::Add => x.checked_add(y), Op::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; q != Some(rr) }) as Ex
                    }
                    else if !sg && op == Op::Add { self.d.cmp(Op::Ult, r, a) }
                    else if !sg && op == Op::Sub { self.d.cmp(Op::Ult, a, b) }
                    else {
                        let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                        if w2 > 128 {
                            // 128-bit: sign reasoning for add/sub, unsupported for mul
                            if op == Op::Mul { return Err(Halt::Err("symbolic 128-bit multiplication overflow".into())); }
                            let z = self.d.konst(0, w);
                            let sa = self.d.cmp(Op::Slt, a, z); let sb = self.d.cmp(Op::Slt, b, z); let sr = self.d.cmp(Op::Slt, r, z);
                            let same = { let x = self.d.bin(Op::Xor, sa, sb); if op == Op::Add { self.d.not(x) } else { x } };
                            let dr = self.d.bin(Op::Xor, sa, sr); self.d.and(same, dr)
                        } else {
                            let (x, y) = if sg { (self.d.sext(a, w2), self.d.sext(b, w2)) } else { (self.d.zext(a, w2), self.d.zext(b, w2)) };
                            let rw = self.d.bin(op, x, y);
                            let re = if sg { self.d.sext(r, w2) } else { self.d.zext(r, w2) };
                            let q = self.d.cmp(Op::Eq, rw, re); self.d.not(q)
                        }
                    };
                return Ok(Some(Val::A(Rc::new(vec![self.mk(r), self.mk(ov)]))));
            }
            if n[p.len()..].starts_with(".sat") {
                let r = self.lanes(rt, v, &mut |s, w, a| {
                    let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w));
                    let r = s.d.bin(op, x, y);
                    let e = match (op, sg) {
                        (Op::Add, false) => { let o = s.d.cmp(Op::Ult, r, x); let mx = s.d.konst(mask(w), w); s.d.ite(o, mx, r) }
                        (Op::Sub, false) => { let o = s.d.cmp(Op::Ult, x, y); let z = s.d.konst(0, w); s.d.ite(o, z, r) }
                        _ => return Err(Halt::Err("signed saturating".into())),
                    };
                    Ok(s.mk(e))
                })?;
                return Ok(Some(r));
            }
        }
        let r = match base {
            "umin" | "umax" | "smin" | "smax" => self.lanes(rt, v, &mut |s, w, a| {
                let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w));
                let c = s.d.cmp(if base.starts_with('u') { Op::Ule } else { Op::Sle }, x, y);
                let e = if base.ends_with("min") { s.d.ite(c, x, y) } else { s.d.ite(c, y, x) }; Ok(s.mk(e))
            })?,
            "abs" => self.lanes(rt, &v[..1], &mut |s, w, a| { let x = s.ex(&a[0], w); let z = s.d.konst(0, w); let c = s.d.cmp(Op::Slt, x, z); let ng = s.d.bin(Op::Sub, z, x); let e = s.d.ite(c, ng, x); Ok(s.mk(e)) })?,
            "ucmp" | "scmp" => {
                let w = args[0].0.w(); let rw = rt.w();
                let (x, y) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let o = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.d.cmp(o, x, y); let eq = self.d.cmp(Op::Eq, x, y);
                let (m1, z, p1) = (self.d.konst(mask(rw), rw), self.d.konst(0, rw), self.d.konst(1, rw));
                let t = self.d.ite(eq, z, p1); let e = self.d.ite(lt, m1, t); self.mk(e)
            }
            "fshl" | "fshr" => self.lanes(rt, v, &mut |s, w, a| {
                let sh = match &a[2] { Val::C(c) => (*c % w as u128) as u16, _ => return Err(Halt::Err("symbolic funnel shift".into())) };
                let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w));
                if sh == 0 { return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() }); }
                let l = if base == "fshl" { sh } else { w - sh };
                let hi = s.d.extract(x, 0, w - l); let lo = s.d.extract(y, w - l, l);
                let e = s.d.concat(hi, lo); Ok(s.mk(e))
            })?,
            "bswap" => self.lanes(rt, v, &mut |s, w, a| { let x = s.ex(&a[0], w); let mut acc = s.d.extract(x, w - 8, 8); let mut i = w - 8; while i > 0 { i -= 8; let h = s.d.extract(x, i, 8); acc = s.d.concat(h, acc); } Ok(s.mk(acc)) })?,
            "bitreverse" => self.lanes(rt, v, &mut |s, w, a| { let x = s.ex(&a[0], w); let mut acc = s.d.extract(x, w - 1, 1); let mut i = w - 1; while i > 0 { i -= 1; let h = s.d.extract(x, i, 1); acc = s.d.concat(h, acc); } Ok(s.mk(acc)) })?,
            "ctpop" => self.lanes(rt, v, &mut |s, w, a| { let x = s.ex(&a[0], w); let mut acc = s.d.konst(0, w); for i in 0..w { let b = s.d.extract(x, i, 1); let z = s.d.zext(b, w); acc = s.d.bin(Op::Add, acc, z); } Ok(s.mk(acc)) })?,
            "cttz" => self.lanes(rt, &v[..1], &mut |s, w, a| { let x = s.ex(&a[0], w); let mut acc = s.d.konst(w as u128, w); for i in (0..w).rev() { let b = s.d.extract(x, i, 1); let k = s.d.konst(i as u128, w); acc = s.d.ite(b, k, acc); } Ok(s.mk(acc)) })?,
            "ctlz" => self.lanes(rt, &v[..1], &mut |s, w, a| { let x = s.ex(&a[0], w); let mut acc = s.d.konst(w as u128, w); for i in 0..w { let b = s.d.extract(x, i, 1); let k = s.d.konst((w - 1 - i) as u128, w); acc = s.d.ite(b, k, acc); } Ok(s.mk(acc)) })?,
            "fptoui" | "fptosi" => { // .sat
                let x = if args[0].0 == Ty::F32 { self.cast1(Cast::FpExt, &Ty::F32, &Ty::F64, &v[0])? } else if args[0].0 == Ty::F64 { v[0].clone() } else { return Err(Halt::Err("fpto*.sat on a vector".into())) };
                let e = self.ex(&x, 64); let r = self.d.fp(if base == "fptoui" { Op::FToUiSat } else { Op::FToSiSat }, rt.w(), e, e, 0); self.mk(r)
            }
            "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                if *rt != Ty::F64 { return Err(Halt::Err("f32 rounding".into())); }
                let k = match base { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 3, _ => 4 }; let e = self.ex(&v[0], 64); let r = self.d.fp(Op::FRound, 64, e, e, k); self.mk(r)
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" if *rt == Ty::F64 => {
                let (x, y) = (self.ex(&v[0], 64), self.ex(&v[1], 64));
                let (nx, ny) = (self.d.fp(Op::FIsNan, 1, x, x, 0), self.d.fp(Op::FIsNan, 1, y, y, 0));
                let c = if base.starts_with("min") { self.d.fp(Op::FLt, 1, x, y, 0) } else { self.d.fp(Op::FLt, 1, y, x, 0) };
                let r = self.d.ite(c, x, y); let r = self.d.ite(ny, x, r); let r = self.d.ite(nx, y, r); self.mk(r)
            }
            "fabs" => { let w = rt.w(); let k = Val::C(mask(w - 1)); self.bin1(BinOp::And, w, false, &v[0], &k)? }
            "vector" if n.starts_with("vector.reduce.") => {
                let op = n.split('.').nth(2).unwrap();
                let Ty::Vec(_, et) = &args[0].0 else { panic!() }; let w = et.w();
                let Val::A(xs) = &v[0] else { panic!() };
                let mut acc = xs[0].clone();
                for x in xs.iter().skip(1) {
                    acc = match op { "or" => self.bin1(BinOp::Or, w, false, &acc, x)?, "and" => self.bin1(BinOp::And, w, false, &acc, x)?, "xor" => self.bin1(BinOp::Xor, w, false, &acc, x)?, "add" => self.bin1(BinOp::Add, w, false, &acc, x)?, "mul" => self.bin1(BinOp::Mul, w, false, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => { let nm = format!("{}.x", op); self.intrinsic(st, &nm, et, &[], &[acc, x.clone()])?.unwrap() }
                        _ => return Err(Halt::Err(format!("reduce {}", n))) };
                }
                acc
            }
            _ => return Err(Halt::Err(format!("intrinsic llvm.{}", n))),
        };
        Ok(Some(r))
    }
}
