//! Symbolic interpreter for the parsed IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x0100_0000;
pub const STACK_BASE: u64 = 0x7000_0000;
const MAX_DEPTH: usize = 4000;

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub block: u32,
    pub pc: usize,
    pub regs: Vec<Val>,
    pub mem: Obj,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

/// one side of a branch on the way to where the sides meet
#[derive(Clone)]
struct Side { block: u32, from: u32, merged: bool, regs: Vec<Val>, stores: Vec<(u64, u64, TyId, Val)> }

impl Side {
    fn op(&self, o: &Op) -> Val { match *o { Op::R(r) => self.regs[r as usize].clone(), Op::K(ref v) => v.clone() } }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Heap,
    pub globals: Rc<HashMap<u32, Obj>>,
    pub cons: Rc<Vec<E>>,
    pub multi: Rc<HashSet<u32>>,
    pub dom: Rc<HashMap<u32, [u64; 4]>>,
    pub model: Rc<HashMap<u32, u128>>,
    pub inputs: Vec<(u8, E)>,
    pub obs: Vec<E>,
    pub goals: BTreeSet<u64>,
    pub steps: u64,
    pub forks: u32,
    pub concretized: u32,
    pub mode: u32,
}

pub enum Stop {
    Done,
    Infeasible,
    Violation(String, u64, String),
    Unsupported(String),
    Token(String),
    /// the instruction has to be executed again (a copy was forked)
    Inconclusive(String),
}

pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum TokKind { Int(bool), Float, Hex }

#[derive(Clone, Debug)]
pub enum Model {
    None,
    Sym(&'static str),
    Alloc, AllocZeroed, Dealloc, Realloc, AllocShim,
    Malloc, Calloc, Free, ReallocC, PosixMemalign,
    Memcmp, Strlen, Memchr,
    Panic(u32),
    Abort,
    FmtFloat,
    FmtInt(u32, bool),
    FmtHex(u32),
    IntFormatInto(u32, bool),
    IntToString(u32, bool),
    ParseF64,
    ParseInt(u32, bool),
    RandomKeys,
    HashWrite,
    HashFinish,
    Print,
    Asm,
    Zero,
    Llvm(&'static str, u32),
}

pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub inputs: Vec<(u8, u64)>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(u8, u64)>,
    pub obs: Vec<u64>,
    pub goals: Vec<u64>,
}

pub struct Opts {
    pub tier: u32,
    pub seed: u64,
    pub time_s: f64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_viol: usize,
    /// 0: symbolic number texts; 1 to 8: numbers are picked from constants; from 10: most inputs are
    /// constants, from 20 all numbers
    pub mode: u32,
    pub samples: usize,
    pub trace: bool,
    pub shard: (u64, u64),
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub z: Z3,
    pub opts: Opts,
    gobjs: HashMap<u32, Rc<Obj>>,
    models: HashMap<u32, Model>,
    fn_cache: HashMap<u32, Option<&'static Func>>,
    pub work: Vec<State>,
    tokens: HashMap<(E, TokKind, u32), Vec<E>>,
    tok_map: HashMap<Vec<E>, (E, TokKind)>,
    tok_first: HashMap<E, Vec<E>>,
    tok_vars: HashSet<u32>,
    qcache: HashMap<Vec<E>, Option<HashMap<u32, u128>>>,
    pub qhits: u64,
    pub dom_decided: u64,
    confirmed: HashSet<E>,
    pub merged: u64,
    orders: HashMap<u32, Rc<Vec<u32>>>,
    pub executed: BTreeSet<u32>,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub goals: BTreeMap<u64, u64>,
    pub expect: u64,
    pub violations: Vec<Violation>,
    pub inconclusive: BTreeMap<String, u64>,
    pub token_broken: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub sym_branches: u64,
    pub start: std::time::Instant,
    rng: u64,
    pub max_cons: usize,
    in_memo: HashMap<String, E>,
    pub assert_ids: BTreeMap<u64, u64>,
    pub shard_count: u64,
    num_memo: HashMap<u64, u64>,
}

fn num_chars() -> [u64; 4] {
    let mut d = [0u64; 4];
    for c in b"0123456789." { d[*c as usize / 64] |= 1 << (*c % 64); }
    d
}
fn digit_chars() -> [u64; 4] {
    let mut d = [0u64; 4];
    for c in b"0123456789" { d[*c as usize / 64] |= 1 << (*c % 64); }
    d
}
fn hex_chars() -> [u64; 4] {
    let mut d = [0u64; 4];
    for c in b"0123456789ABCDEF" { d[*c as usize / 64] |= 1 << (*c % 64); }
    d
}

/// numbers used when texts of numbers are inspected by the code under test
pub const NASTY_F: [f64; 8] = [1.5, -2.123456789012345, 0.0, 1000000.125, 0.30000000000000004, -0.00000000125, 12345.678901234, 7.0];
pub const NASTY_I: [i64; 8] = [3, -7, 0, 1000000000000, 1, 42, -123456, 255];

impl Engine {
    pub fn new(m: Module, opts: Opts, timeout_ms: u32) -> Engine {
        let seed = opts.seed;
        Engine {
            m, p: Pool::new(), z: Z3::new(timeout_ms, seed as u32), opts,
            gobjs: HashMap::new(), models: HashMap::new(), fn_cache: HashMap::new(), work: vec![],
            tokens: HashMap::new(), tok_map: HashMap::new(), tok_first: HashMap::new(), tok_vars: HashSet::new(), qcache: HashMap::new(), qhits: 0, dom_decided: 0, confirmed: HashSet::new(), merged: 0, orders: HashMap::new(),
            executed: BTreeSet::new(), paths: 0, infeasible: 0, forks: 0, steps: 0, asserts: 0, asserts_trivial: 0, asserts_solver: 0,
            goals: BTreeMap::new(), expect: 0, violations: vec![], inconclusive: BTreeMap::new(), token_broken: BTreeMap::new(),
            samples: vec![], sym_branches: 0, start: std::time::Instant::now(), rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            max_cons: 0, in_memo: HashMap::new(), assert_ids: BTreeMap::new(), shard_count: 0, num_memo: HashMap::new(),
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn get_func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.fn_cache.get(&id) { return *f; }
        let f = self.m.func(id).map(|rc| unsafe { &*Rc::into_raw(rc) });
        self.fn_cache.insert(id, f);
        f
    }

    pub fn initial(&mut self, fid: u32) -> State {
        let mut st = State {
            frames: vec![], heap: Heap::default(), globals: Rc::new(HashMap::new()), cons: Rc::new(vec![]), multi: Rc::new(HashSet::new()),
            dom: Rc::new(HashMap::new()), model: Rc::new(HashMap::new()), inputs: vec![], obs: vec![], goals: BTreeSet::new(), steps: 0, forks: 0, concretized: 0, mode: self.opts.mode,
        };
        let f = self.get_func(fid).expect("harness body");
        self.executed.insert(fid);
        self.push_frame(&mut st, f, vec![], None, None);
        st
    }

    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() { regs[f.params[i] as usize] = a; }
        }
        st.frames.push(Rc::new(Frame { func: f, block: 0, pc: 0, regs, mem: Obj::new(f.frame_size as usize), dst, normal }));
    }

    // ---------------------------------------------------------------- run

    pub fn run(&mut self, fid: u32) {
        let st = self.initial(fid);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.opts.time_s {
                *self.inconclusive.entry("time budget exhausted".into()).or_insert(0) += 1;
                break;
            }
            if self.paths >= self.opts.max_paths {
                *self.inconclusive.entry("path budget exhausted".into()).or_insert(0) += 1;
                break;
            }
            match self.exec(&mut st) {
                Stop::Done => self.finish(&mut st),
                Stop::Infeasible => { self.infeasible += 1; }
                Stop::Violation(kind, id, msg) => {
                    self.paths += 1;
                    self.record_violation(&st, kind, id, msg);
                }
                Stop::Unsupported(msg) => {
                    let s = self.stack(&st);
                    *self.inconclusive.entry(format!("unsupported: {} at {}", msg, s.into_iter().take(4).collect::<Vec<_>>().join(" < "))).or_insert(0) += 1;
                    self.paths += 1;
                }
                Stop::Token(msg) => {
                    let s = self.stack(&st);
                    *self.token_broken.entry(format!("{} at {}", msg, s.into_iter().take(4).collect::<Vec<_>>().join(" < "))).or_insert(0) += 1;
                    self.paths += 1;
                }
                Stop::Inconclusive(msg) => {
                    *self.inconclusive.entry(msg).or_insert(0) += 1;
                    self.paths += 1;
                }
            }
            if self.violations.len() >= self.opts.max_viol { break; }
            if self.inconclusive.len() + self.token_broken.len() > 10 { break; }
        }
    }

    fn inputs_of(&mut self, st: &State) -> Vec<(u8, u64)> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|&(k, e)| (k, self.p.eval(e, &st.model, &mut memo) as u64)).collect()
    }

    fn record_violation(&mut self, st: &State, kind: String, id: u64, msg: String) {
        let inputs = self.inputs_of(st);
        let stack = self.stack(st);
        self.violations.push(Violation { kind, id, msg, inputs, stack });
    }

    fn finish(&mut self, st: &mut State) {
        self.paths += 1;
        for g in &st.goals { *self.goals.entry(*g).or_insert(0) += 1; }
        let take = self.samples.len() < self.opts.samples;
        let slot = if take { None } else { let r = self.rand() % self.paths; if (r as usize) < self.opts.samples { Some(r as usize) } else { None } };
        if take || slot.is_some() {
            // the model has to satisfy the whole path condition
            let mut memo = HashMap::new();
            for &c in st.cons.iter() {
                if self.p.eval(c, &st.model, &mut memo) != 1 {
                    *self.inconclusive.entry("internal: cached model violates the path condition".into()).or_insert(0) += 1;
                    return;
                }
            }
            let inputs = self.inputs_of(st);
            let mut memo = HashMap::new();
            let obs = st.obs.iter().map(|&e| self.p.eval(e, &st.model, &mut memo) as u64).collect();
            let s = Sample { inputs, obs, goals: st.goals.iter().cloned().collect() };
            match slot { None => self.samples.push(s), Some(i) => self.samples[i] = s }
        }
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| short_name(&self.m.funcs[f.func.id as usize].name)).collect()
    }

    fn exec(&mut self, st: &mut State) -> Stop {
        let t0 = st.steps;
        let mut check = st.steps + 2_000_000;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => { self.steps += st.steps - t0; return s; }
            }
            if st.steps > check {
                check = st.steps + 2_000_000;
                if st.steps > self.opts.max_steps { self.steps += st.steps - t0; return Stop::Inconclusive(format!("step budget exhausted in {}", self.stack(st).into_iter().take(6).collect::<Vec<_>>().join(" < "))); }
                if self.start.elapsed().as_secs_f64() > self.opts.time_s { self.steps += st.steps - t0; return Stop::Inconclusive("time budget exhausted".into()); }
            }
        }
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn op(fr: &Frame, o: &Op) -> Val {
        match *o { Op::R(r) => fr.regs[r as usize].clone(), Op::K(ref v) => v.clone() }
    }

    pub fn ex(&mut self, v: &Val, w: u32) -> E {
        match *v {
            Val::C(c) => self.p.k(c as u128, w),
            Val::W(ref c) => self.p.k(**c, w),
            Val::E(e) => { debug_assert_eq!(self.p.w(e), w); e }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn val(&self, e: E) -> Val {
        match self.p.n(e) {
            N::K(v) => if self.p.w(e) > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) },
            _ => Val::E(e),
        }
    }
    fn kval(v: u128, w: u32) -> Val { let v = v & mask(w); if w > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) } }
    fn conc(v: &Val) -> Option<u128> { match *v { Val::C(c) => Some(c as u128), Val::W(ref c) => Some(**c), _ => None } }

    fn elem(&self, ty: TyId) -> Option<(u64, TyId)> { if let Ty::Vector(n, e) = *self.m.t(ty) { Some((n, e)) } else { None } }

    fn lanes(v: &Val) -> Rc<Vec<Val>> { match v { Val::A(a) => a.clone(), _ => panic!("not a vector") } }

    // ---------------------------------------------------------------- solver

    fn slice(&self, st: &State, seed: &[u32]) -> Vec<E> {
        let mut vars: HashSet<u32> = seed.iter().cloned().collect();
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let s = &self.p.info[c as usize].supp;
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(c);
                    for v in s.iter() { if vars.insert(*v) { changed = true; } }
                }
            }
            if !changed { break; }
        }
        out
    }

    /// is the path condition with `c` satisfiable?
    fn query(&mut self, st: &State, c: E) -> R<Option<HashMap<u32, u128>>> {
        let supp = self.p.info[c as usize].supp.clone();
        let mut cons = self.slice(st, &supp);
        cons.push(c);
        cons.sort();
        cons.dedup();
        if let Some(r) = self.qcache.get(&cons) { self.qhits += 1; return Ok(r.clone()); }
        if self.max_cons < cons.len() { self.max_cons = cons.len(); }
        let r = match self.z.check(&self.p, &cons) {
            Answer::Sat(m) => Some(m),
            Answer::Unsat => None,
            Answer::Unknown(why) => {
                if self.opts.trace { for &c in &cons { eprintln!("  unknown cons: {}", self.show(c, 6)); } }
                return Err(Stop::Inconclusive(format!("solver: {}", why)));
            }
        };
        if self.opts.trace && self.z.last > 1.0 { for &c in &cons { eprintln!("  slow {:.1}s: {}", self.z.last, self.show(c, 8)); } }
        self.qcache.insert(cons, r.clone());
        Ok(r)
    }

    fn dom_of(&self, st: &State, v: u32) -> [u64; 4] {
        match st.dom.get(&v) { Some(d) => *d, None => self.p.vars[v as usize].dom.unwrap_or([u64::MAX; 4]) }
    }

    fn add_cons(&mut self, st: &mut State, c: E, m: Option<HashMap<u32, u128>>) {
        if self.p.konst(c).is_some() { return; }
        Rc::make_mut(&mut st.cons).push(c);
        if let Some(v) = self.p.single_byte(c) {
            let t = self.p.truth(c, v);
            let d = self.dom_of(st, v);
            let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            Rc::make_mut(&mut st.dom).insert(v, nd);
            if m.is_none() {
                let cur = *st.model.get(&v).unwrap_or(&self.p.vars[v as usize].init) as usize;
                if nd[cur / 64] >> (cur % 64) & 1 == 0 {
                    for x in 0..256 { if nd[x / 64] >> (x % 64) & 1 == 1 { Rc::make_mut(&mut st.model).insert(v, x as u128); break; } }
                }
            }
        } else {
            let supp = self.p.info[c as usize].supp.clone();
            for &v in supp.iter() { if self.p.vars[v as usize].w == 8 && !st.multi.contains(&v) { Rc::make_mut(&mut st.multi).insert(v); } }
        }
        if let Some(m) = m {
            let sm = Rc::make_mut(&mut st.model);
            for (k, v) in m { sm.insert(k, v); }
        }
    }

    fn model_eval(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.p.eval(e, &st.model, &mut memo)
    }

    /// the solver confirms the table of a condition over one byte, once per condition
    fn confirm(&mut self, c: E, v: u32, t: [u64; 4]) -> R<()> {
        if !self.confirmed.insert(c) { return Ok(()); }
        match self.z.check_table(&self.p, c, v, t) {
            crate::z3::Answer::Unsat => Ok(()),
            crate::z3::Answer::Sat(_) => Err(Stop::Inconclusive("solver: a condition over one byte differs from its table".into())),
            crate::z3::Answer::Unknown(why) => Err(Stop::Inconclusive(format!("solver: {}", why))),
        }
    }

    /// Feasible outcomes of a condition: (can be true with model, can be false with model).
    /// A `None` model inside means the cached model (or the byte domain) already serves.
    fn decide(&mut self, st: &State, c: E) -> R<(Option<Option<HashMap<u32, u128>>>, Option<Option<HashMap<u32, u128>>>)> {
        if let Some(k) = self.p.konst(c) { return Ok(if k == 1 { (Some(None), None) } else { (None, Some(None)) }); }
        if let Some(v) = self.p.single_byte(c) {
            let t = self.p.truth(c, v);
            self.confirm(c, v, t)?;
            let d = self.dom_of(st, v);
            let any_t = (0..4).any(|i| d[i] & t[i] != 0);
            let any_f = (0..4).any(|i| d[i] & !t[i] != 0);
            if !any_f { self.dom_decided += 1; return Ok((Some(None), None)); }
            if !any_t { self.dom_decided += 1; return Ok((None, Some(None))); }
            if !st.multi.contains(&v) { self.dom_decided += 1; return Ok((Some(None), Some(None))); }
        }
        let cur = self.model_eval(st, c) == 1;
        let n = self.p.not(c);
        let other = if cur { n } else { c };
        let r = self.query(st, other)?;
        let o = r.map(Some);
        // when the variable is a byte with a non trivial context the cached model serves the current side
        Ok(if cur { (Some(None), o) } else { (o, Some(None)) })
    }

    /// fork on a condition; returns the value taken by `st`, pushing the other side
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> { Ok(self.branch_or(st, c, None)?.unwrap()) }

    /// the same; nothing if the sides meet again and the state was taken there
    fn branch_or(&mut self, st: &mut State, c: E, sides: Option<(u32, u32)>) -> R<Option<bool>> {
        self.sym_branches += 1;
        let (t, f) = self.decide(st, c)?;
        match (t, f) {
            (Some(_), None) => Ok(Some(true)),
            (None, Some(_)) => Ok(Some(false)),
            (Some(mt), Some(mf)) => {
                if let Some((x, y)) = sides { if self.meet(st, c, x, y) { return Ok(None); } }
                self.forks += 1;
                let n = self.p.not(c);
                let mut other = st.clone();
                other.forks += 1;
                self.add_cons(&mut other, n, mf);
                // the copy re-executes the current instruction, whose condition is now decided
                self.work.push(other);
                self.add_cons(st, c, mt);
                st.forks += 1;
                Ok(Some(true))
            }
            (None, None) => Err(Stop::Infeasible),
        }
    }

    /// force an expression to a single value, forking over the others
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.p.konst(e) { return Ok(k); }
        let v = self.model_eval(st, e);
        let w = self.p.w(e);
        let k = self.p.k(v, w);
        let c = self.p.eq(e, k);
        st.concretized += 1;
        if st.concretized > 3000 { return Err(Stop::Unsupported("too many values for a concretised expression".into())); }
        if self.opts.trace { eprintln!("concretize {} = {} in {:?}", self.show(e, 4), v, self.stack(st).into_iter().take(3).collect::<Vec<_>>()); }
        // prefer the model's value
        let (t, f) = self.decide(st, c)?;
        match (t, f) {
            (Some(_), None) => {}
            (Some(mt), Some(mf)) => {
                self.forks += 1;
                let n = self.p.not(c);
                let mut other = st.clone();
                self.add_cons(&mut other, n, mf);
                self.work.push(other);
                self.add_cons(st, c, mt);
            }
            _ => return Err(Stop::Infeasible),
        }
        Ok(v)
    }

    fn cz(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match *v {
            Val::C(c) => Ok(c),
            Val::E(e) => Ok(self.concretize(st, e)? as u64),
            Val::W(ref w) => Ok(**w as u64),
            Val::A(_) => Err(Stop::Unsupported("aggregate as integer".into())),
        }
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        let d = depth - 1;
        match self.p.n(e) {
            N::K(v) => format!("{}", v),
            N::Var(v) => format!("{}#{}", self.p.vars[v as usize].name, v),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            N::Eq(a, b) => format!("(= {} {})", self.show(a, d), self.show(b, d)),
            N::Ult(a, b) => format!("(u< {} {})", self.show(a, d), self.show(b, d)),
            N::Ule(a, b) => format!("(u<= {} {})", self.show(a, d), self.show(b, d)),
            N::Slt(a, b) => format!("(s< {} {})", self.show(a, d), self.show(b, d)),
            N::Sle(a, b) => format!("(s<= {} {})", self.show(a, d), self.show(b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::ZExt(a) => format!("(zext {})", self.show(a, d)),
            N::SExt(a) => format!("(sext {})", self.show(a, d)),
            N::Extract(a, l) => format!("(extract {}+{} {})", l, self.p.w(e), self.show(a, d)),
            N::Concat(a, b) => format!("(concat {} {})", self.show(a, d), self.show(b, d)),
            N::FBin(o, a, b) => format!("(f{:?} {} {})", o, self.show(a, d), self.show(b, d)),
            N::FEq(a, b) => format!("(f= {} {})", self.show(a, d), self.show(b, d)),
            N::FLt(a, b) => format!("(f< {} {})", self.show(a, d), self.show(b, d)),
            N::FLe(a, b) => format!("(f<= {} {})", self.show(a, d), self.show(b, d)),
            N::Grid(k, s) => format!("(grid {} /2^{})", self.show(k, d), s),
            n => format!("{:?}", n),
        }
    }

    // ---------------------------------------------------------------- memory

    fn materialize(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.gobjs.get(&g) { return o.clone(); }
        let o = if self.m.globals[g as usize].external {
            Obj::new(64)
        } else {
            let (ty, c, _) = self.m.global_init(g);
            let mut buf = vec![0u8; self.m.size_of(ty) as usize];
            self.lay(ty, &c, &mut buf, 0);
            Obj::from(buf)
        };
        let o = Rc::new(o);
        self.gobjs.insert(g, o.clone());
        o
    }

    fn lay(&self, ty: TyId, c: &Cst, buf: &mut [u8], off: usize) {
        match c {
            Cst::Zero => {}
            Cst::Str(s) => buf[off..off + s.len()].copy_from_slice(s),
            Cst::V(v) => self.lay_val(ty, v, buf, off),
            Cst::Agg(v) => for (i, (t, x)) in v.iter().enumerate() {
                let (_, o) = self.m.field(ty, i as u64);
                self.lay(*t, x, buf, off + o as usize);
            },
        }
    }
    fn lay_val(&self, ty: TyId, v: &Val, buf: &mut [u8], off: usize) {
        let n = self.m.size_of(ty) as usize;
        match v {
            Val::C(c) => { let b = c.to_le_bytes(); for i in 0..n { buf[off + i] = if i < 8 { b[i] } else { 0 }; } }
            Val::W(c) => { let b = c.to_le_bytes(); for i in 0..n.min(16) { buf[off + i] = b[i]; } }
            Val::A(a) => for (i, x) in a.iter().enumerate() { let (t, o) = self.m.field(ty, i as u64); self.lay_val(t, x, buf, off + o as usize); },
            Val::E(_) => unreachable!(),
        }
    }

    fn with_obj<T>(&mut self, st: &State, addr: u64, n: usize, f: impl FnOnce(&Obj, usize) -> T) -> R<T> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        if id >= STACK_BASE {
            let d = (id - STACK_BASE) as usize;
            if d < st.frames.len() {
                let o = &st.frames[d].mem;
                if off + n <= o.len() { return Ok(f(o, off)); }
            }
        } else if id >= HEAP_BASE && id < FUNC_BASE {
            if let Some(o) = st.heap.get(id - HEAP_BASE) {
                if off + n <= o.len() { return Ok(f(o, off)); }
            }
        } else if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = (id - GLOBAL_BASE) as u32;
            if g as usize >= self.m.globals.len() {
                if n == 0 { return Ok(f(&Obj::new(0), 0)); }
                return Err(Stop::Violation("memory".into(), 0, format!("invalid read of {} bytes at {:#x}", n, addr)));
            }
            if let Some(o) = st.globals.get(&g) {
                if off + n <= o.len() { return Ok(f(o, off)); }
            } else {
                let o = self.materialize(g);
                if off + n <= o.len() { return Ok(f(&o, off)); }
            }
        }
        if n == 0 { return Ok(f(&Obj::new(0), 0)); }
        Err(Stop::Violation("memory".into(), 0, format!("invalid read of {} bytes at {:#x}", n, addr)))
    }

    fn with_obj_mut<T>(&mut self, st: &mut State, addr: u64, n: usize, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        if id >= STACK_BASE {
            let d = (id - STACK_BASE) as usize;
            if d < st.frames.len() {
                let o = &mut Rc::make_mut(&mut st.frames[d]).mem;
                if off + n <= o.len() { return Ok(f(o, off)); }
            }
        } else if id >= HEAP_BASE && id < FUNC_BASE {
            if let Some(o) = st.heap.get_mut(id - HEAP_BASE) {
                if off + n <= o.len() { return Ok(f(o, off)); }
            }
        } else if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = (id - GLOBAL_BASE) as u32;
            if g as usize >= self.m.globals.len() { return Err(Stop::Violation("memory".into(), 0, format!("invalid write of {} bytes at {:#x}", n, addr))); }
            if !st.globals.contains_key(&g) {
                let o = self.materialize(g);
                Rc::make_mut(&mut st.globals).insert(g, (*o).clone());
            }
            let o = Rc::make_mut(&mut st.globals).get_mut(&g).unwrap();
            if off + n <= o.len() { return Ok(f(o, off)); }
        }
        if n == 0 { return Ok(f(&mut Obj::new(0), 0)); }
        Err(Stop::Violation("memory".into(), 0, format!("invalid write of {} bytes at {:#x}", n, addr)))
    }

    /// byte expression from an overlay entry or concrete byte
    fn byte_e(&mut self, b: u8, s: u64) -> E {
        if s == 0 { return self.p.k(b as u128, 8); }
        let e = (s >> 8) as E;
        let i = (s & 0xff) as u32;
        let w = self.p.w(e);
        if w == 8 { return e; }
        if w < 8 { return self.p.zext(e, 8); }
        if i * 8 + 8 <= w { return self.p.extract(e, i * 8, 8); }
        // top partial byte
        let x = self.p.extract(e, i * 8, w - i * 8);
        self.p.zext(x, 8)
    }

    fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<(Vec<u8>, Vec<u64>)> {
        self.with_obj(st, addr, n, |o, off| {
            let d = o.data[off..off + n].to_vec();
            let s = match o.sym { Some(ref s) => s[off..off + n].to_vec(), None => vec![0; n] };
            (d, s)
        })
    }

    pub fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        enum L { C(u64), W(u128), S(Vec<u8>, Vec<u64>) }
        let l = self.with_obj(st, addr, n, |o, off| {
            if o.is_conc(off, n) {
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    L::C(u64::from_le_bytes(b))
                } else {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    L::W(u128::from_le_bytes(b))
                }
            } else {
                L::S(o.data[off..off + n].to_vec(), o.sym.as_ref().unwrap()[off..off + n].to_vec())
            }
        })?;
        match l {
            L::C(c) => Ok(Val::C(if w >= 64 { c } else { c & ((1u64 << w) - 1) })),
            L::W(c) => Ok(Val::W(Rc::new(c & mask(w)))),
            L::S(d, s) => {
                let e0 = (s[0] >> 8) as E;
                if s[0] != 0 && s[0] & 0xff == 0 && self.p.w(e0) == w && s.iter().enumerate().all(|(i, &x)| x >> 8 == e0 as u64 && (x & 0xff) == i as u64) {
                    return Ok(self.val(e0));
                }
                let mut acc: Option<E> = None;
                for i in (0..n).rev() {
                    let b = self.byte_e(d[i], s[i]);
                    acc = Some(match acc { None => b, Some(a) => self.p.concat(a, b) });
                }
                let mut e = acc.unwrap();
                if (n as u32) * 8 != w { e = self.p.extract(e, 0, w); }
                Ok(self.val(e))
            }
        }
    }

    pub fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match *v {
            Val::C(c) => self.with_obj_mut(st, addr, n, |o, off| {
                let b = (c as u128).to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                o.clear_sym(off, n);
            }),
            Val::W(ref c) => { let b = c.to_le_bytes(); self.with_obj_mut(st, addr, n, |o, off| {
                o.data[off..off + n].copy_from_slice(&b[..n]);
                o.clear_sym(off, n);
            }) }
            Val::E(e) => {
                // widths that are not a whole number of bytes are stored zero extended
                let e = if w % 8 != 0 { self.p.zext(e, (n * 8) as u32) } else { e };
                self.with_obj_mut(st, addr, n, |o, off| {
                    let s = o.sym_mut();
                    for i in 0..n { s[off + i] = (e as u64) << 8 | i as u64; }
                    for i in 0..n { o.data[off + i] = 0; }
                })
            }
            Val::A(_) => Err(Stop::Unsupported("store of aggregate as int".into())),
        }
    }

    pub fn load(&mut self, st: &State, addr: u64, ty: TyId) -> R<Val> {
        match self.m.t(ty).clone() {
            Ty::Int(w) => self.load_int(st, addr, w),
            Ty::F64 | Ty::Ptr => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Half => self.load_int(st, addr, 16),
            Ty::Array(n, e) => {
                let sz = self.m.size_of(e);
                let mut v = vec![];
                for i in 0..n { v.push(self.load(st, addr + i * sz, e)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let b = self.m.bits_of(e);
                if b % 8 != 0 {
                    let x = self.load_int(st, addr, (n * b) as u32)?;
                    return self.bits_to_vec(x, n, b as u32);
                }
                let mut v = vec![];
                for i in 0..n { v.push(self.load(st, addr + i * (b / 8), e)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() { let (_, o) = self.m.field(ty, i as u64); v.push(self.load(st, addr + o, *f)?); }
                Ok(Val::A(Rc::new(v)))
            }
            t => Err(Stop::Unsupported(format!("load of {:?}", t))),
        }
    }

    pub fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        match self.m.t(ty).clone() {
            Ty::Int(w) => self.store_int(st, addr, w, v),
            Ty::F64 | Ty::Ptr => self.store_int(st, addr, 64, v),
            Ty::F32 => self.store_int(st, addr, 32, v),
            Ty::Half => self.store_int(st, addr, 16, v),
            Ty::Array(_, e) => {
                let sz = self.m.size_of(e);
                for (i, x) in Self::lanes(v).iter().enumerate() { self.store(st, addr + i as u64 * sz, e, x)?; }
                Ok(())
            }
            Ty::Vector(n, e) => {
                let b = self.m.bits_of(e);
                if b % 8 != 0 {
                    let x = self.vec_to_bits(v, b as u32);
                    return self.store_int(st, addr, (n * b) as u32, &x);
                }
                for (i, x) in Self::lanes(v).iter().enumerate() { self.store(st, addr + i as u64 * (b / 8), e, x)?; }
                Ok(())
            }
            Ty::Struct(_, _) => {
                let l = Self::lanes(v);
                for (i, x) in l.iter().enumerate() { let (t, o) = self.m.field(ty, i as u64); self.store(st, addr + o, t, x)?; }
                Ok(())
            }
            t => Err(Stop::Unsupported(format!("store of {:?}", t))),
        }
    }

    fn bits_to_vec(&mut self, x: Val, n: u64, b: u32) -> R<Val> {
        let w = n as u32 * b;
        if let Some(c) = Self::conc(&x) {
            if w <= 128 { return Ok(Val::A(Rc::new((0..n).map(|i| Self::kval(c >> (i as u32 * b), b)).collect()))); }
        }
        let e = self.ex(&x, w);
        let mut v = vec![];
        for i in 0..n as u32 { let y = self.p.extract(e, i * b, b); v.push(self.val(y)); }
        Ok(Val::A(Rc::new(v)))
    }
    fn vec_to_bits(&mut self, v: &Val, b: u32) -> Val {
        let l = Self::lanes(v);
        let w = l.len() as u32 * b;
        if l.iter().all(|x| Self::conc(x).is_some()) && w <= 128 {
            let mut r = 0u128;
            for (i, x) in l.iter().enumerate() { r |= (Self::conc(x).unwrap() & mask(b)) << (i as u32 * b); }
            return Self::kval(r, w);
        }
        let mut acc: Option<E> = None;
        for x in l.iter().rev() {
            let e = self.ex(x, b);
            acc = Some(match acc { None => e, Some(a) => self.p.concat(a, e) });
        }
        self.val(acc.unwrap())
    }

    /// load through a symbolic address: table lookup when it depends on one byte variable
    fn load_sym(&mut self, st: &mut State, a: E, ty: TyId) -> R<Val> {
        let scalar = matches!(self.m.t(ty), Ty::Int(_) | Ty::F64);
        if scalar {
            let w = self.m.bits_of(ty) as u32;
            // enumerate the values of the address if it has a small range inside one object
            let cands: Option<Vec<u64>> = if let Some(v) = self.p.single_byte(a) {
                let d = self.dom_of(st, v);
                let mut model = HashMap::new();
                let mut out = BTreeSet::new();
                for x in 0..256usize {
                    if d[x / 64] >> (x % 64) & 1 == 1 {
                        model.insert(v, x as u128);
                        let mut memo = HashMap::new();
                        out.insert(self.p.eval(a, &model, &mut memo) as u64);
                    }
                }
                Some(out.into_iter().collect())
            } else {
                let i = &self.p.info[a as usize];
                let step = self.m.size_of(ty) as u128;
                if i.hi - i.lo <= 256 * step { let (lo, hi) = (i.lo, i.hi); Some((0..).map(|k| lo + k * step).take_while(|x| *x <= hi).map(|x| x as u64).collect()) } else { None }
            };
            if let Some(c) = cands {
                // group addresses by loaded value
                let mut groups: Vec<(Val, Vec<u64>)> = vec![];
                let mut ok = true;
                for &x in &c {
                    match self.load(st, x, ty) {
                        Ok(v) => {
                            let k = match v { Val::C(k) => Some(k), _ => None };
                            match groups.iter_mut().find(|g| match (&g.0, k) { (Val::C(a), Some(b)) => *a == b, _ => false }) {
                                Some(g) => g.1.push(x),
                                None => groups.push((v, vec![x])),
                            }
                        }
                        Err(_) => { ok = false; break; }
                    }
                }
                if ok && !groups.is_empty() {
                    groups.sort_by_key(|g| g.1.len());
                    let last = groups.pop().unwrap();
                    let mut acc = self.ex(&last.0, w);
                    for (v, xs) in groups {
                        let mut cond = self.p.fls();
                        for x in xs { let k = self.p.k(x as u128, 64); let c = self.p.eq(a, k); cond = self.p.or(cond, c); }
                        let e = self.ex(&v, w);
                        acc = self.p.ite(cond, e, acc);
                    }
                    return Ok(self.val(acc));
                }
            }
        }
        let x = self.concretize(st, a)? as u64;
        self.load(st, x, ty)
    }

    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        if dst >> 32 == src >> 32 {
            let so = (src & 0xffff_ffff) as usize;
            return self.with_obj_mut(st, dst, n, |o, off| {
                if so + n <= o.len() { o.copy_within(off, so, n); true } else { false }
            }).and_then(|ok| if ok { Ok(()) } else { Err(Stop::Violation("memory".into(), 0, "invalid copy".into())) });
        }
        let (d, s) = self.with_obj(st, src, n, |o, off| {
            let d = o.data[off..off + n].to_vec();
            let s = if o.is_conc(off, n) { None } else { Some(o.sym.as_ref().unwrap()[off..off + n].to_vec()) };
            (d, s)
        })?;
        self.with_obj_mut(st, dst, n, |o, off| {
            o.data[off..off + n].copy_from_slice(&d);
            match s { None => o.clear_sym(off, n), Some(s) => o.sym_mut()[off..off + n].copy_from_slice(&s) }
        })
    }

    pub fn heap_alloc(&mut self, st: &mut State, o: Obj) -> u64 { (HEAP_BASE + st.heap.alloc(o)) << 32 }

    // ---------------------------------------------------------------- step

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let b = &fr.func.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                for (l, v) in &ph.inc { if *l == from { let x = Self::op(fr, v); fr.regs[ph.dst as usize] = x; break; } }
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    let mut x = Val::C(0);
                    for (l, v) in &ph.inc { if *l == from { x = Self::op(fr, v); break; } }
                    vals.push(x);
                }
                for (ph, x) in b.phis.iter().zip(vals) { fr.regs[ph.dst as usize] = x; }
            }
        }
        fr.block = to;
        fr.pc = 0;
    }

    #[inline]
    fn set(st: &mut State, dst: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[dst as usize] = v;
        fr.pc += 1;
    }

    /// target of a block that only computes and stores doubles
    fn straight(&self, b: &Block) -> Option<u32> {
        if !b.phis.is_empty() || b.insts.len() > 24 { return None; }
        let to = match b.insts.last() { Some(Inst::Br(to)) => *to, _ => return None };
        for i in &b.insts[..b.insts.len() - 1] {
            match i {
                Inst::Load { ty, .. } => if !matches!(self.m.t(*ty), Ty::F64 | Ty::Ptr) { return None; },
                Inst::Store { ty, .. } => if !matches!(self.m.t(*ty), Ty::F64 | Ty::Ptr) { return None; },
                Inst::Gep { .. } | Inst::FNeg { .. } => {}
                Inst::FBin { op, .. } => if *op == FBinOp::Rem { return None; },
                _ => return None,
            }
        }
        Some(to)
    }

    /// stores made by a straight block, by address
    fn stores_of(&mut self, st: &State, b: &'static Block) -> Option<Vec<(u64, Val)>> {
        let mut fr: Frame = (**st.frames.last().unwrap()).clone();
        let mut out: Vec<(u64, Val)> = vec![];
        for i in &b.insts[..b.insts.len() - 1] {
            match i {
                Inst::Load { ty, dst, p } => {
                    let a = match Self::op(&fr, p) { Val::C(a) => a, _ => return None };
                    let v = match out.iter().rev().find(|x| x.0 < a + 8 && a < x.0 + 8) {
                        Some(x) if x.0 == a => x.1.clone(),
                        Some(_) => return None,
                        None => self.load(st, a, *ty).ok()?,
                    };
                    fr.regs[*dst as usize] = v;
                }
                Inst::Store { v, p, .. } => {
                    let a = match Self::op(&fr, p) { Val::C(a) => a, _ => return None };
                    if out.iter().any(|x| x.0 != a && x.0 < a + 8 && a < x.0 + 8) { return None; }
                    let v = Self::op(&fr, v);
                    out.retain(|x| x.0 != a);
                    out.push((a, v));
                }
                Inst::Gep { dst, base, off, idx } => {
                    let mut k = match Self::op(&fr, base) { Val::C(b) => b.wrapping_add(*off), _ => return None };
                    for (o, w, sc) in idx { match Self::op(&fr, o) { Val::C(c) => k = k.wrapping_add(sext64(c, *w).wrapping_mul(*sc)), _ => return None } }
                    fr.regs[*dst as usize] = Val::C(k);
                }
                Inst::FBin { op, ty, dst, a, b } => {
                    let (x, y) = (Self::op(&fr, a), Self::op(&fr, b));
                    fr.regs[*dst as usize] = self.fbin(*op, *ty, &x, &y).ok()?;
                }
                Inst::FNeg { ty, dst, a } => {
                    if !matches!(self.m.t(*ty), Ty::F64) { return None; }
                    fr.regs[*dst as usize] = match Self::op(&fr, a) { Val::C(c) => Val::C(c ^ 1 << 63), Val::E(e) => { let r = self.p.fneg(e); self.val(r) } _ => return None };
                }
                _ => return None,
            }
        }
        Some(out)
    }

    /// `if` whose sides only set doubles: both sides at once, the values chosen by the condition
    fn merge(&mut self, st: &mut State, e: E, t: u32, f: u32) -> Option<u32> {
        let func: &'static Func = st.frames.last().unwrap().func;
        let (bt, bf) = (&func.blocks[t as usize], &func.blocks[f as usize]);
        let (jt, jf) = (self.straight(bt), self.straight(bf));
        let (join, left, right) = if jt == Some(f) { (f, Some(bt), None) } else if jf == Some(t) { (t, None, Some(bf)) } else if jt.is_some() && jt == jf { (jt.unwrap(), Some(bt), Some(bf)) } else { return None };
        if !func.blocks[join as usize].phis.is_empty() { return None; }
        let a = match left { Some(b) => self.stores_of(st, b)?, None => vec![] };
        let b = match right { Some(b) => self.stores_of(st, b)?, None => vec![] };
        let mut addrs: Vec<u64> = a.iter().chain(&b).map(|x| x.0).collect();
        addrs.sort();
        addrs.dedup();
        if addrs.is_empty() || addrs.windows(2).any(|w| w[1] < w[0] + 8) { return None; }
        let mut out = vec![];
        for at in addrs {
            let mut side = |v: &[(u64, Val)]| -> Option<Val> { match v.iter().find(|x| x.0 == at) { Some(x) => Some(x.1.clone()), None => self.load_int(st, at, 64).ok() } };
            let (x, y) = (side(&a)?, side(&b)?);
            let v = match (&x, &y) {
                (Val::C(p), Val::C(q)) if p == q => x,
                (Val::C(_), Val::C(_)) => return None,
                _ => {
                    let (x, y) = (self.ex(&x, 64), self.ex(&y, 64));
                    let r = self.p.ite(e, x, y);
                    if !matches!(self.p.n(r), N::Grid(..)) { return None; }
                    self.val(r)
                }
            };
            out.push((at, v));
        }
        // an address that cannot be written makes the path fork and fail there
        let mut old = vec![];
        for (at, v) in &out {
            let o = self.load_int(st, *at, 64).ok();
            if o.is_none() || self.store_int(st, *at, 64, v).is_err() {
                for (at, o) in old { let _ = self.store_int(st, at, 64, &o); }
                return None;
            }
            old.push((*at, o.unwrap()));
        }
        Some(join)
    }

    /// runs a side of a branch as long as it only computes, collecting the blocks it enters
    fn ahead(&mut self, st: &State, mut s: Side, depth: u32, trail: &mut Vec<Side>) {
        let func: &'static Func = st.frames.last().unwrap().func;
        let order = self.order_of(func);
        let mut left = 80;
        let mut back = order[s.block as usize] <= order[s.from as usize];
        loop {
            let b: &'static Block = &func.blocks[s.block as usize];
            // a side that was merged has its values already
            if !s.merged {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    match ph.inc.iter().find(|(l, _)| *l == s.from) { Some((_, v)) => vals.push(s.op(v)), None => return }
                }
                for (ph, x) in b.phis.iter().zip(vals) { s.regs[ph.dst as usize] = x; }
            }
            s.merged = false;
            if trail.len() >= 24 || trail.iter().any(|t| t.block == s.block) { return; }
            trail.push(s.clone());
            // a block run before may set again what is used where the sides meet
            if back { return; }
            let (here, mut next) = (s.block, None);
            for i in &b.insts {
                if next.is_some() { return; }
                left -= 1;
                if left == 0 { return; }
                match i {
                    Inst::Load { ty, dst, p } => {
                        let a = match s.op(p) { Val::C(a) => a, _ => return };
                        let w = match self.m.t(*ty) { Ty::Int(w) => *w as u64, Ty::Ptr => 64, _ => return };
                        let n = (w + 7) / 8;
                        let v = match s.stores.iter().find(|x| x.0 < a + n && a < x.0 + x.1) {
                            Some(x) if x.0 == a && x.1 == n && x.2 == *ty => x.3.clone(),
                            Some(_) => return,
                            None => match self.load(st, a, *ty) { Ok(v) => v, Err(_) => return },
                        };
                        s.regs[*dst as usize] = v;
                    }
                    Inst::Store { ty, v, p } => {
                        let a = match s.op(p) { Val::C(a) => a, _ => return };
                        let n = match self.m.t(*ty) { Ty::Int(w) => (*w as u64 + 7) / 8, Ty::Ptr => 8, _ => return };
                        let v = s.op(v);
                        if s.stores.iter().any(|x| x.0 < a + n && a < x.0 + x.1 && !(x.0 == a && x.2 == *ty)) { return; }
                        s.stores.retain(|x| x.0 != a);
                        s.stores.push((a, n, *ty, v));
                    }
                    Inst::Gep { dst, base, off, idx } => {
                        let mut k = match s.op(base) { Val::C(b) => b.wrapping_add(*off), _ => return };
                        for (o, w, sc) in idx { match s.op(o) { Val::C(c) => k = k.wrapping_add(sext64(c, *w).wrapping_mul(*sc)), _ => return } }
                        s.regs[*dst as usize] = Val::C(k);
                    }
                    Inst::ICmp { p, ty, dst, a, b } => {
                        let (x, y) = (s.op(a), s.op(b));
                        if !matches!(self.m.t(*ty), Ty::Int(_) | Ty::Ptr) { return; }
                        s.regs[*dst as usize] = self.icmp(*p, *ty, &x, &y);
                    }
                    Inst::Bin { op, ty, dst, a, b } => {
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) || !matches!(self.m.t(*ty), Ty::Int(_)) { return; }
                        let (x, y) = (s.op(a), s.op(b));
                        s.regs[*dst as usize] = self.binop(*op, *ty, &x, &y);
                    }
                    Inst::Cast { op, from, to, dst, a } => {
                        if !matches!(self.m.t(*from), Ty::Int(_)) || !matches!(self.m.t(*to), Ty::Int(_)) { return; }
                        let x = s.op(a);
                        match self.cast(*op, *from, *to, x) { Ok(v) => s.regs[*dst as usize] = v, Err(_) => return }
                    }
                    Inst::Freeze { dst, a } => { let v = s.op(a); s.regs[*dst as usize] = v; }
                    Inst::Br(to) => next = Some(*to),
                    Inst::CondBr { c, t, f } => match s.op(c) {
                        Val::C(c) => next = Some(if c & 1 == 1 { *t } else { *f }),
                        Val::E(e) => {
                            if depth == 0 { return; }
                            match self.join(st, &s, e, *t, *f, depth - 1) { Some(x) => { s = x; next = Some(s.block); } None => return }
                        }
                        _ => return,
                    },
                    Inst::Switch { ty, v, def, cases } => {
                        let x = s.op(v);
                        match Self::conc(&x) {
                            Some(c) => next = Some(cases.iter().find(|(k, _)| *k == c).map_or(*def, |(_, l)| *l)),
                            None => {
                                if depth == 0 || cases.iter().any(|c| c.1 != cases[0].1) { return; }
                                let w = self.m.bits_of(*ty) as u32;
                                let e = self.ex(&x, w);
                                let mut any = self.p.k(0, 1);
                                for (k, _) in cases { let kk = self.p.k(*k, w); let c = self.p.eq(e, kk); any = self.p.or(any, c); }
                                match self.join(st, &s, any, cases[0].1, *def, depth - 1) { Some(x) => { s = x; next = Some(s.block); } None => return }
                            }
                        }
                    }
                    _ => return,
                }
            }
            match next {
                Some(to) => if !s.merged { s.from = here; s.block = to; },
                None => return,
            }
            back = order[s.block as usize] <= order[here as usize];
        }
    }

    /// the blocks of a function in an order in which only jumps that close a loop go back
    fn order_of(&mut self, f: &'static Func) -> Rc<Vec<u32>> {
        if let Some(o) = self.orders.get(&f.id) { return o.clone(); }
        let mut seen = vec![false; f.blocks.len()];
        let mut order = vec![0; f.blocks.len()];
        let mut n = f.blocks.len() as u32;
        let mut todo = vec![(0u32, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = todo.pop() {
            let mut next: Vec<u32> = vec![];
            match f.blocks[b as usize].insts.last() {
                Some(Inst::Br(t)) => next.push(*t),
                Some(Inst::CondBr { t, f, .. }) => { next.push(*t); next.push(*f); }
                Some(Inst::Switch { def, cases, .. }) => { next.push(*def); next.extend(cases.iter().map(|c| c.1)); }
                Some(Inst::Call(c)) => if let Some(t) = c.normal { next.push(t); },
                _ => {}
            }
            if i < next.len() {
                todo.push((b, i + 1));
                let t = next[i];
                if !seen[t as usize] { seen[t as usize] = true; todo.push((t, 0)); }
            } else { order[b as usize] = n; n -= 1; }
        }
        let o = Rc::new(order);
        self.orders.insert(f.id, o.clone());
        o
    }

    /// both sides of a branch up to the block where they meet
    fn join(&mut self, st: &State, s: &Side, e: E, t: u32, f: u32, depth: u32) -> Option<Side> {
        let mut trails = [vec![], vec![]];
        for (to, tr) in [t, f].iter().zip(trails.iter_mut()) {
            let mut x = s.clone();
            x.from = s.block;
            x.block = *to;
            x.merged = false;
            self.ahead(st, x, depth, tr);
        }
        let (a, b) = trails[0].iter().find_map(|x| trails[1].iter().find(|y| x.block == y.block).map(|y| (x, y)))?;
        let mut r = s.clone();
        r.block = a.block;
        r.merged = true;
        let func: &'static Func = st.frames.last().unwrap().func;
        for ph in &func.blocks[a.block as usize].phis {
            let v = self.either(e, &a.regs[ph.dst as usize], &b.regs[ph.dst as usize], ph.ty)?;
            r.regs[ph.dst as usize] = v;
        }
        let mut at: Vec<(u64, u64, TyId)> = a.stores.iter().chain(&b.stores).map(|x| (x.0, x.1, x.2)).collect();
        at.sort();
        at.dedup();
        if at.windows(2).any(|w| w[1].0 < w[0].0 + w[0].1) { return None; }
        r.stores.clear();
        for (p, n, ty) in at {
            let mut side = |x: &Side| match x.stores.iter().find(|z| z.0 == p) { Some(z) => Some(z.3.clone()), None => self.load(st, p, ty).ok() };
            let (x, y) = (side(a)?, side(b)?);
            let v = self.either(e, &x, &y, ty)?;
            r.stores.push((p, n, ty, v));
        }
        Some(r)
    }

    /// a value chosen by a condition: the same one or a flag or character
    fn either(&mut self, e: E, x: &Val, y: &Val, ty: TyId) -> Option<Val> {
        match (x, y) {
            (Val::C(p), Val::C(q)) if p == q => return Some(x.clone()),
            (Val::E(p), Val::E(q)) if p == q => return Some(x.clone()),
            _ => {}
        }
        let w = match *self.m.t(ty) { Ty::Int(w) => w, _ => return None };
        if w > 8 || !matches!((x, y), (Val::C(_), Val::C(_)) | (Val::C(_), Val::E(_)) | (Val::E(_), Val::C(_)) | (Val::E(_), Val::E(_))) { return None; }
        let (p, q) = (self.ex(x, w), self.ex(y, w));
        let r = self.p.ite(e, p, q);
        // conditions over one character stay cheap
        if self.p.konst(r).is_none() && self.p.single_byte(r).is_none() { return None; }
        Some(self.val(r))
    }

    /// whether both sides of a branch meet without having set anything
    fn same_way(&mut self, st: &State, e: E, t: u32, f: u32) -> bool {
        let fr = st.frames.last().unwrap();
        let s = Side { block: fr.block, from: u32::MAX, merged: false, regs: fr.regs.clone(), stores: vec![] };
        let func: &'static Func = fr.func;
        match self.join(st, &s, e, t, f, 0) { Some(r) => r.stores.is_empty() && func.blocks[r.block as usize].phis.is_empty(), None => false }
    }

    /// `if` whose sides only compute and set flags or characters: both sides at once
    fn meet(&mut self, st: &mut State, e: E, t: u32, f: u32) -> bool {
        let s = { let fr = st.frames.last().unwrap(); Side { block: fr.block, from: u32::MAX, merged: false, regs: fr.regs.clone(), stores: vec![] } };
        let r = match self.join(st, &s, e, t, f, 4) { Some(r) => r, None => return false };
        let mut old = vec![];
        for (a, _, ty, v) in &r.stores {
            let o = self.load(st, *a, *ty).ok();
            if o.is_none() || self.store(st, *a, *ty, v).is_err() {
                for (a, ty, o) in old { let _ = self.store(st, a, ty, &o); }
                return false;
            }
            old.push((*a, *ty, o.unwrap()));
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs = r.regs;
        fr.block = r.block;
        fr.pc = 0;
        true
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let depth = st.frames.len();
        let fr = st.frames.last_mut().unwrap();
        let func: &'static Func = fr.func;
        let inst: &'static Inst = &func.blocks[fr.block as usize].insts[fr.pc];
        match inst {
            Inst::Load { ty, dst, p } => {
                let a = Self::op(fr, p);
                let v = match a {
                    Val::C(a) => self.load(st, a, *ty)?,
                    Val::E(e) => self.load_sym(st, e, *ty)?,
                    _ => return Err(Stop::Unsupported("load address".into())),
                };
                Self::set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                let a = Self::op(fr, p);
                let v = Self::op(fr, v);
                let a = match a { Val::C(a) => a, a => self.cz(st, &a)? };
                self.store(st, a, *ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
            }
            Inst::Alloca { dst, off } => {
                let a = (STACK_BASE + depth as u64 - 1) << 32 | off;
                Self::set(st, *dst, Val::C(a));
            }
            Inst::DynAlloca { dst, elem, n } => {
                let n = Self::op(fr, n);
                let n = self.cz(st, &n)?;
                let a = self.heap_alloc(st, Obj::new((n * elem) as usize));
                Self::set(st, *dst, Val::C(a));
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = Self::op(fr, base);
                let mut k = *off;
                let mut symb: Vec<(Val, u32, u64)> = vec![];
                for (o, w, sc) in idx {
                    match Self::op(fr, o) {
                        Val::C(c) => k = k.wrapping_add(sext64(c, *w).wrapping_mul(*sc)),
                        v => symb.push((v, *w, *sc)),
                    }
                }
                let v = match b {
                    Val::C(b) if symb.is_empty() => Val::C(b.wrapping_add(k)),
                    b => {
                        let mut e = self.ex(&b, 64);
                        for (v, w, sc) in symb {
                            let x = self.ex(&v, w);
                            let x = self.p.sext(x, 64);
                            let s = self.p.k(sc as u128, 64);
                            let x = self.p.bin(BinOp::Mul, x, s);
                            e = self.p.bin(BinOp::Add, e, x);
                        }
                        let kk = self.p.k(k as u128, 64);
                        e = self.p.bin(BinOp::Add, e, kk);
                        self.val(e)
                    }
                };
                Self::set(st, *dst, v);
            }
            Inst::Br(to) => { let to = *to; self.goto(st, to); }
            Inst::CondBr { c, t, f } => {
                let v = Self::op(fr, c);
                let b = match v {
                    Val::C(c) => c & 1 == 1,
                    Val::E(e) => {
                        if let Some(to) = self.merge(st, e, *t, *f) { self.merged += 1; self.goto(st, to); return Ok(()); }
                        match self.branch_or(st, e, Some((*t, *f)))? { Some(b) => b, None => { self.merged += 1; return Ok(()); } }
                    }
                    _ => return Err(Stop::Unsupported("branch condition".into())),
                };
                let to = if b { *t } else { *f };
                self.goto(st, to);
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = Self::op(fr, v);
                let to = match Self::conc(&x) {
                    Some(c) => { let mut r = *def; for (k, l) in cases { if *k == c { r = *l; break; } } r }
                    None => {
                        let w = self.m.bits_of(*ty) as u32;
                        let e = self.ex(&x, w);
                        // group the cases by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        for (k, l) in cases {
                            let kk = self.p.k(*k, w);
                            let c = self.p.eq(e, kk);
                            match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => { let o = self.p.or(g.1, c); g.1 = o; } None => groups.push((*l, c)) }
                        }
                        let mut res = *def;
                        let last = groups.len();
                        for (i, (l, c)) in groups.into_iter().enumerate() {
                            // a case that does nothing but go where the others go
                            if self.same_way(st, c, l, *def) { self.merged += 1; continue; }
                            // `branch` leaves the other side to re-execute this switch
                            let sides = if i + 1 == last { Some((l, *def)) } else { None };
                            match self.branch_or(st, c, sides)? { Some(true) => { res = l; break; } Some(false) => {} None => { self.merged += 1; return Ok(()); } }
                        }
                        res
                    }
                };
                self.goto(st, to);
            }
            Inst::ICmp { p, ty, dst, a, b } => {
                let x = Self::op(fr, a);
                let y = Self::op(fr, b);
                let v = match (&x, &y) {
                    (Val::C(x), Val::C(y)) => {
                        let w = match *self.m.t(*ty) { Ty::Int(w) => w, _ => 64 };
                        Val::C(icmp_c(*p, *x as u128, *y as u128, w) as u64)
                    }
                    _ => self.icmp(*p, *ty, &x, &y),
                };
                Self::set(st, *dst, v);
            }
            Inst::Bin { op, ty, dst, a, b } => {
                let x = Self::op(fr, a);
                let y = Self::op(fr, b);
                let v = match (&x, &y) {
                    (Val::C(x), Val::C(y)) => {
                        let w = match *self.m.t(*ty) { Ty::Int(w) => w, _ => 64 };
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 {
                            return Err(Stop::Violation("division".into(), 0, "division by zero".into()));
                        }
                        Val::C(fold_bin(*op, *x as u128, *y as u128, w) as u64)
                    }
                    _ => self.binop(*op, *ty, &x, &y),
                };
                Self::set(st, *dst, v);
            }
            Inst::Cast { op, from, to, dst, a } => {
                let x = Self::op(fr, a);
                let v = self.cast(*op, *from, *to, x)?;
                Self::set(st, *dst, v);
            }
            Inst::Select { cty, ty, dst, c, a, b } => {
                let cv = Self::op(fr, c);
                let x = Self::op(fr, a);
                let y = Self::op(fr, b);
                let v = match cv {
                    Val::C(c) => if c & 1 == 1 { x } else { y },
                    Val::A(l) => {
                        let (_, et) = self.elem(*ty).unwrap();
                        let w = self.m.bits_of(et) as u32;
                        let xl = Self::lanes(&x);
                        let yl = Self::lanes(&y);
                        let mut out = vec![];
                        for i in 0..l.len() {
                            out.push(match &l[i] {
                                Val::C(c) => if c & 1 == 1 { xl[i].clone() } else { yl[i].clone() },
                                Val::E(e) => { let p = self.ex(&xl[i], w); let q = self.ex(&yl[i], w); let r = self.p.ite(*e, p, q); self.val(r) }
                                _ => return Err(Stop::Unsupported("select".into())),
                            });
                        }
                        let _ = cty;
                        Val::A(Rc::new(out))
                    }
                    Val::E(e) => {
                        let is_int = matches!(self.m.t(*ty), Ty::Int(_) | Ty::F64);
                        let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q);
                        if same { x }
                        else if is_int {
                            let w = self.m.bits_of(*ty) as u32;
                            let p = self.ex(&x, w);
                            let q = self.ex(&y, w);
                            let r = self.p.ite(e, p, q);
                            self.val(r)
                        } else if self.branch(st, e)? { x } else { y }
                    }
                    _ => return Err(Stop::Unsupported("select condition".into())),
                };
                Self::set(st, *dst, v);
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = Self::op(fr, a);
                for i in idx { v = match v { Val::A(ref l) => l[*i as usize].clone(), _ => return Err(Stop::Unsupported("extractvalue".into())) }; }
                Self::set(st, *dst, v);
            }
            Inst::InsertValue { dst, a, v, idx, .. } => {
                let base = Self::op(fr, a);
                let x = Self::op(fr, v);
                let r = insert(base, x, idx);
                Self::set(st, *dst, r);
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| Self::op(fr, o));
                let f = st.frames.pop().unwrap();
                match st.frames.last_mut() {
                    None => return Err(Stop::Done),
                    Some(top) => {
                        let top = Rc::make_mut(top);
                        if let Some(d) = f.dst { top.regs[d as usize] = v.unwrap_or(Val::C(0)); }
                        match f.normal { Some(l) => self.goto(st, l), None => { top.pc += 1; } }
                    }
                }
            }
            Inst::Unreachable => return Err(Stop::Violation("unreachable".into(), 0, "unreachable code reached".into())),
            Inst::FBin { op, ty, dst, a, b } => {
                let x = Self::op(fr, a);
                let y = Self::op(fr, b);
                let v = if *op == FBinOp::Rem && !matches!((&x, &y), (Val::C(_), Val::C(_))) { self.frem(st, *ty, &x, &y)? } else { self.fbin(*op, *ty, &x, &y)? };
                Self::set(st, *dst, v);
            }
            Inst::FNeg { ty, dst, a } => {
                let x = Self::op(fr, a);
                let v = match (self.m.t(*ty), &x) {
                    (Ty::F64, Val::C(c)) => Val::C(c ^ 1 << 63),
                    (Ty::F32, Val::C(c)) => Val::C(c ^ 1 << 31),
                    (Ty::F64, Val::E(e)) => { let r = self.p.fneg(*e); self.val(r) }
                    (Ty::F32, Val::E(e)) => { let d = self.wide(*e)?; let r = self.p.fneg(d); let r = self.p.ftrunc(r); self.val(r) }
                    _ => return Err(Stop::Unsupported("fneg".into())),
                };
                Self::set(st, *dst, v);
            }
            Inst::FCmp { p, ty, dst, a, b } => {
                let x = Self::op(fr, a);
                let y = Self::op(fr, b);
                let v = self.fcmp(*p, *ty, &x, &y)?;
                Self::set(st, *dst, v);
            }
            Inst::ExtractElement { dst, a, i } => {
                let l = Self::op(fr, a);
                let i = Self::op(fr, i);
                let i = self.cz(st, &i)? as usize;
                let v = Self::lanes(&l)[i].clone();
                Self::set(st, *dst, v);
            }
            Inst::InsertElement { dst, a, v, i } => {
                let l = Self::op(fr, a);
                let x = Self::op(fr, v);
                let i = Self::op(fr, i);
                let i = self.cz(st, &i)? as usize;
                let mut l = (*Self::lanes(&l)).clone();
                l[i] = x;
                Self::set(st, *dst, Val::A(Rc::new(l)));
            }
            Inst::Shuffle { dst, n, a, b, mask } => {
                let x = Self::lanes(&Self::op(fr, a));
                let y = Self::lanes(&Self::op(fr, b));
                let v = mask.iter().map(|&k| { let k = k as usize; if k < *n { x[k].clone() } else { y.get(k - n).cloned().unwrap_or(Val::C(0)) } }).collect();
                Self::set(st, *dst, Val::A(Rc::new(v)));
            }
            Inst::Rmw { op, ty, dst, p, v } => {
                let a = Self::op(fr, p);
                let x = Self::op(fr, v);
                let a = self.cz(st, &a)?;
                let old = self.load(st, a, *ty)?;
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.binop(BinOp::Add, *ty, &old, &x),
                    RmwOp::Sub => self.binop(BinOp::Sub, *ty, &old, &x),
                    RmwOp::And => self.binop(BinOp::And, *ty, &old, &x),
                    RmwOp::Or => self.binop(BinOp::Or, *ty, &old, &x),
                    RmwOp::Xor => self.binop(BinOp::Xor, *ty, &old, &x),
                    _ => return Err(Stop::Unsupported("atomicrmw".into())),
                };
                self.store(st, a, *ty, &new)?;
                Self::set(st, *dst, old);
            }
            Inst::CmpXchg { ty, dst, p, c, n } => {
                let a = Self::op(fr, p);
                let cmp = Self::op(fr, c);
                let new = Self::op(fr, n);
                let a = self.cz(st, &a)?;
                let old = self.load(st, a, *ty)?;
                let same = match (Self::conc(&old), Self::conc(&cmp)) { (Some(x), Some(y)) => x == y, _ => return Err(Stop::Unsupported("symbolic cmpxchg".into())) };
                if same { self.store(st, a, *ty, &new)?; }
                Self::set(st, *dst, Val::A(Rc::new(vec![old, Val::C(same as u64)])));
            }
            Inst::Freeze { dst, a } => { let v = Self::op(fr, a); Self::set(st, *dst, v); }
            Inst::Fence => { Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1; }
            Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- arithmetic

    fn icmp(&mut self, p: IPred, ty: TyId, x: &Val, y: &Val) -> Val {
        if let Some((n, et)) = self.elem(ty) {
            let (a, b) = (Self::lanes(x), Self::lanes(y));
            let mut v = vec![];
            for i in 0..n as usize { v.push(self.icmp(p, et, &a[i], &b[i])); }
            return Val::A(Rc::new(v));
        }
        let w = self.m.bits_of(ty) as u32;
        if let (Some(a), Some(b)) = (Self::conc(x), Self::conc(y)) { return Val::C(icmp_c(p, a, b, w) as u64); }
        let a = self.ex(x, w);
        let b = self.ex(y, w);
        let r = match p {
            IPred::Eq => self.p.eq(a, b),
            IPred::Ne => { let e = self.p.eq(a, b); self.p.not(e) }
            IPred::Ult => self.p.ult(a, b),
            IPred::Ule => self.p.ule(a, b),
            IPred::Ugt => self.p.ult(b, a),
            IPred::Uge => self.p.ule(b, a),
            IPred::Slt => self.p.slt(a, b),
            IPred::Sle => self.p.sle(a, b),
            IPred::Sgt => self.p.slt(b, a),
            IPred::Sge => self.p.sle(b, a),
        };
        self.val(r)
    }

    fn binop(&mut self, op: BinOp, ty: TyId, x: &Val, y: &Val) -> Val {
        if let Some((n, et)) = self.elem(ty) {
            let (a, b) = (Self::lanes(x), Self::lanes(y));
            let mut v = vec![];
            for i in 0..n as usize { v.push(self.binop(op, et, &a[i], &b[i])); }
            return Val::A(Rc::new(v));
        }
        let w = self.m.bits_of(ty) as u32;
        if let (Some(a), Some(b)) = (Self::conc(x), Self::conc(y)) { return Self::kval(fold_bin(op, a, b, w), w); }
        let a = self.ex(x, w);
        let b = self.ex(y, w);
        let r = self.p.bin(op, a, b);
        self.val(r)
    }

    fn fbin(&mut self, op: FBinOp, ty: TyId, x: &Val, y: &Val) -> R<Val> {
        match (self.m.t(ty).clone(), x, y) {
            (Ty::F64, Val::C(a), Val::C(b)) => Ok(Val::C(fold_fbin(op, *a, *b))),
            (Ty::F32, Val::C(a), Val::C(b)) => {
                let (x, y) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
                Ok(Val::C((match op { FBinOp::Add => x + y, FBinOp::Sub => x - y, FBinOp::Mul => x * y, FBinOp::Div => x / y, FBinOp::Rem => x % y }).to_bits() as u64))
            }
            (Ty::F64, x, y) => {
                let a = self.ex(x, 64);
                let b = self.ex(y, 64);
                let r = self.p.fbin(op, a, b);
                if let N::FBin(FBinOp::Rem, ..) = self.p.n(r) { return Err(Stop::Unsupported("symbolic float remainder".into())); }
                Ok(self.val(r))
            }
            // rounding the exact or double result once more gives the float result
            (Ty::F32, x, y) if op != FBinOp::Rem => {
                let (a, b) = (self.ex(x, 32), self.ex(y, 32));
                let (a, b) = (self.wide(a)?, self.wide(b)?);
                let r = self.p.fbin(op, a, b);
                let r = self.p.ftrunc(r);
                Ok(self.val(r))
            }
            (t, _, _) => Err(Stop::Unsupported(format!("float arithmetic on {:?}", t))),
        }
    }

    /// a 32 bit float as a double
    fn wide(&mut self, e: E) -> R<E> { self.p.fext(e).ok_or_else(|| Stop::Unsupported("bits as a 32 bit float".into())) }

    /// remainder: exact where the values are on a grid or smaller than the divisor; otherwise any
    /// value smaller than the divisor with the sign of the dividend (a model that relies on another
    /// value than the true one does not reproduce natively)
    fn frem(&mut self, st: &mut State, ty: TyId, x: &Val, y: &Val) -> R<Val> {
        if *self.m.t(ty) != Ty::F64 { return Err(Stop::Unsupported("symbolic float remainder".into())); }
        let a = self.ex(x, 64);
        let b = self.ex(y, 64);
        let r = self.p.fbin(FBinOp::Rem, a, b);
        if !matches!(self.p.n(r), N::FBin(FBinOp::Rem, ..)) { return Ok(self.val(r)); }
        let k = match self.p.konst(b) { Some(k) => f64::from_bits(k as u64).abs(), None => return Err(Stop::Unsupported("symbolic float remainder".into())) };
        if !(k > 0.0) || !k.is_finite() || !self.p.info[a as usize].finite { return Err(Stop::Unsupported("symbolic float remainder".into())); }
        let kk = self.p.k(k.to_bits() as u128, 64);
        let (id, q) = self.p.var_f64("rem");
        let now = f64::from_bits(self.model_eval(st, a) as u64) % k;
        let zero = self.p.k(0, 64);
        let (fa, fq) = (self.p.fabs(a), self.p.fabs(q));
        let small = self.p.flt(fq, kk);
        let less = self.p.fle(fq, fa);
        let (pa, pq, na, nq) = (self.p.fle(zero, a), self.p.fle(zero, q), self.p.fle(a, zero), self.p.fle(q, zero));
        let (npa, nna) = (self.p.not(pa), self.p.not(na));
        let (c1, c2) = (self.p.or(npa, pq), self.p.or(nna, nq));
        let mut m = HashMap::new();
        m.insert(id, now.to_bits() as u128);
        self.add_cons(st, small, Some(m));
        for c in [less, c1, c2] { self.add_cons(st, c, Some(HashMap::new())); }
        let below = self.p.flt(fa, kk);
        let r = self.p.ite(below, a, q);
        Ok(self.val(r))
    }

    fn fcmp(&mut self, p: FPred, ty: TyId, x: &Val, y: &Val) -> R<Val> {
        let (a, b) = match (self.m.t(ty).clone(), x, y) {
            (Ty::F64, Val::C(a), Val::C(b)) => (f64::from_bits(*a), f64::from_bits(*b)),
            (Ty::F32, Val::C(a), Val::C(b)) => (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64),
            (t @ (Ty::F64 | Ty::F32), x, y) => {
                let (a, b) = if t == Ty::F64 { (self.ex(x, 64), self.ex(y, 64)) } else { let (a, b) = (self.ex(x, 32), self.ex(y, 32)); (self.wide(a)?, self.wide(b)?) };
                let na = self.p.fnan(a);
                let nb = self.p.fnan(b);
                let un = self.p.or(na, nb);
                let r = match p {
                    FPred::False => self.p.fls(),
                    FPred::True => self.p.tru(),
                    FPred::Oeq => self.p.feq(a, b),
                    FPred::Olt => self.p.flt(a, b),
                    FPred::Ole => self.p.fle(a, b),
                    FPred::Ogt => self.p.flt(b, a),
                    FPred::Oge => self.p.fle(b, a),
                    FPred::One => { let l = self.p.flt(a, b); let g = self.p.flt(b, a); self.p.or(l, g) }
                    FPred::Ord => self.p.not(un),
                    FPred::Uno => un,
                    FPred::Une => { let e = self.p.feq(a, b); self.p.not(e) }
                    FPred::Ueq => { let e = self.p.feq(a, b); self.p.or(e, un) }
                    FPred::Ult => { let e = self.p.flt(a, b); self.p.or(e, un) }
                    FPred::Ule => { let e = self.p.fle(a, b); self.p.or(e, un) }
                    FPred::Ugt => { let e = self.p.flt(b, a); self.p.or(e, un) }
                    FPred::Uge => { let e = self.p.fle(b, a); self.p.or(e, un) }
                };
                return Ok(self.val(r));
            }
            (t, _, _) => return Err(Stop::Unsupported(format!("float comparison on {:?}", t))),
        };
        let un = a.is_nan() || b.is_nan();
        let r = match p {
            FPred::False => false, FPred::True => true,
            FPred::Oeq => a == b, FPred::Olt => a < b, FPred::Ole => a <= b, FPred::Ogt => a > b, FPred::Oge => a >= b,
            FPred::One => !un && a != b, FPred::Ord => !un, FPred::Uno => un, FPred::Une => un || a != b, FPred::Ueq => un || a == b,
            FPred::Ult => un || a < b, FPred::Ule => un || a <= b, FPred::Ugt => un || a > b, FPred::Uge => un || a >= b,
        };
        Ok(Val::C(r as u64))
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, x: Val) -> R<Val> {
        if op == CastOp::BitCast {
            let (vf, vt) = (self.elem(from), self.elem(to));
            return match (vf, vt) {
                (None, None) => Ok(x),
                (Some((_, e)), None) => { let b = self.m.bits_of(e) as u32; Ok(self.vec_to_bits(&x, b)) }
                (None, Some((n, e))) => { let b = self.m.bits_of(e) as u32; self.bits_to_vec(x, n, b) }
                (Some((_, e1)), Some((n, e2))) => {
                    let b = self.m.bits_of(e1) as u32;
                    let y = self.vec_to_bits(&x, b);
                    let b = self.m.bits_of(e2) as u32;
                    self.bits_to_vec(y, n, b)
                }
            };
        }
        if let (Some((n, ef)), Some((_, et))) = (self.elem(from), self.elem(to)) {
            let l = Self::lanes(&x);
            let mut v = vec![];
            for i in 0..n as usize { v.push(self.cast(op, ef, et, l[i].clone())?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let fw = self.m.bits_of(from) as u32;
        let tw = self.m.bits_of(to) as u32;
        match op {
            CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if let Some(c) = Self::conc(&x) { return Ok(Self::kval(c, tw)); }
                let e = self.ex(&x, fw);
                let r = if tw < fw { self.p.extract(e, 0, tw) } else { self.p.zext(e, tw) };
                Ok(self.val(r))
            }
            CastOp::SExt => {
                if let Some(c) = Self::conc(&x) { return Ok(Self::kval(sx(c, fw) as u128, tw)); }
                let e = self.ex(&x, fw);
                let r = self.p.sext(e, tw);
                Ok(self.val(r))
            }
            CastOp::SiToFp | CastOp::UiToFp => {
                let f32t = *self.m.t(to) == Ty::F32;
                if let Some(c) = Self::conc(&x) {
                    if f32t { return Ok(Val::C(if op == CastOp::SiToFp { (sx(c, fw) as f32).to_bits() } else { (c as f32).to_bits() } as u64)); }
                    return Ok(Val::C(if op == CastOp::SiToFp { (sx(c, fw) as f64).to_bits() } else { (c as f64).to_bits() }));
                }
                let e = self.ex(&x, fw);
                let r = if op == CastOp::SiToFp { self.p.sitof(e) } else { self.p.uitof(e) };
                // rounding twice differs for integers of more than 53 bits
                if f32t && !matches!(self.p.n(r), N::Grid(..)) { return Err(Stop::Unsupported("f32".into())); }
                let r = if f32t { self.p.ftrunc(r) } else { r };
                Ok(self.val(r))
            }
            CastOp::FpToSi | CastOp::FpToUi => self.ftoi(op == CastOp::FpToSi, from, tw, &x),
            CastOp::FpTrunc => match x { Val::C(c) => Ok(Val::C((f64::from_bits(c) as f32).to_bits() as u64)), _ => { let e = self.ex(&x, 64); let r = self.p.ftrunc(e); Ok(self.val(r)) } },
            CastOp::FpExt => match x { Val::C(c) => Ok(Val::C((f32::from_bits(c as u32) as f64).to_bits())), _ => { let e = self.ex(&x, 32); let r = self.wide(e)?; Ok(self.val(r)) } },
            CastOp::BitCast => unreachable!(),
        }
    }

    fn ftoi(&mut self, signed: bool, from: TyId, tw: u32, x: &Val) -> R<Val> {
        let f32t = *self.m.t(from) == Ty::F32;
        match *x {
            Val::C(c) => {
                let d = if f32t { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let r: u64 = if signed {
                    match tw { 8 => d as i8 as u8 as u64, 16 => d as i16 as u16 as u64, 32 => d as i32 as u32 as u64, _ => d as i64 as u64 }
                } else {
                    match tw { 8 => d as u8 as u64, 16 => d as u16 as u64, 32 => d as u32 as u64, _ => d as u64 }
                };
                Ok(Val::C(r))
            }
            Val::E(e) => {
                let e = if f32t { self.wide(e)? } else { e };
                if tw == 64 { let r = if signed { self.p.ftosi(e) } else { self.p.ftoui(e) }; return Ok(self.val(r)); }
                // saturate from 64 bits
                let r = self.p.ftosi(e);
                let (lo, hi) = if signed { (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) } else { (0, (1i128 << tw) - 1) };
                let kl = self.p.k(lo as u128, 64);
                let kh = self.p.k(hi as u128, 64);
                let c1 = self.p.slt(r, kl);
                let c2 = self.p.slt(kh, r);
                let r = self.p.ite(c2, kh, r);
                let r = self.p.ite(c1, kl, r);
                let r = self.p.extract(r, 0, tw);
                Ok(self.val(r))
            }
            _ => Err(Stop::Unsupported("float to int".into())),
        }
    }

    // ---------------------------------------------------------------- calls

    fn ret_model(&mut self, st: &mut State, c: &CallInst, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if let Some(d) = c.dst { fr.regs[d as usize] = v; }
        match c.normal { Some(l) => self.goto(st, l), None => { fr.pc += 1; } }
    }

    fn call(&mut self, st: &mut State, c: &'static CallInst) -> R<()> {
        let fr = st.frames.last().unwrap();
        let fid = match c.callee {
            Callee::Direct(f) => f,
            Callee::Asm => {
                // cpuid and friends: report no features
                let v = self.zero(c.ret);
                self.ret_model(st, c, v);
                return Ok(());
            }
            Callee::Indirect(ref o) => {
                let v = Self::op(fr, o);
                let a = self.cz(st, &v)?;
                let id = a >> 32;
                if id < FUNC_BASE || id >= STACK_BASE || a & 0xffff_ffff != 0 { return Err(Stop::Violation("memory".into(), 0, format!("call through bad pointer {:#x}", a))); }
                (id - FUNC_BASE) as u32
            }
        };
        let fr = st.frames.last().unwrap();
        let args: Vec<Val> = c.args.iter().map(|(_, o)| Self::op(fr, o)).collect();
        let model = match self.models.get(&fid) {
            Some(m) => m.clone(),
            None => { let m = classify(&self.m.funcs[fid as usize].name); self.models.insert(fid, m.clone()); m }
        };
        if !matches!(model, Model::None) {
            if self.run_model(st, c, fid, model, &args)? { return Ok(()); }
        }
        match self.get_func(fid) {
            Some(f) => {
                if st.frames.len() > MAX_DEPTH { return Err(Stop::Violation("stack".into(), 0, "call depth bound exceeded".into())); }
                self.executed.insert(fid);
                self.push_frame(st, f, args, c.dst, c.normal);
                Ok(())
            }
            None => Err(Stop::Unsupported(format!("external function {}", self.m.funcs[fid as usize].name))),
        }
    }

    fn zero(&self, ty: TyId) -> Val {
        match self.m.t(ty) {
            Ty::Struct(v, _) => Val::A(Rc::new(v.iter().map(|&t| self.zero(t)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => Val::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::C(0),
        }
    }

    /// bytes of a memory range as expressions
    fn bytes_e(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<E>> {
        let (d, s) = self.load_bytes(st, addr, n)?;
        Ok((0..n).map(|i| self.byte_e(d[i], s[i])).collect())
    }

    fn bytes_c(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<u8>> {
        let es = self.bytes_e(st, addr, n)?;
        let mut v = vec![];
        for e in es { v.push(self.concretize(st, e)? as u8); }
        Ok(v)
    }

    fn new_input(&mut self, st: &mut State, kind: u8, name: &str, mk: impl FnOnce(&mut Pool, &str) -> (u32, E)) -> E {
        // variables are shared between paths: same position, kind and name give the same variable
        let key = format!("{}/{}/{}", st.inputs.len(), kind, name);
        let e = match self.in_memo.get(&key) {
            Some(&e) => e,
            None => {
                let (id, e) = mk(&mut self.p, &key);
                self.in_memo.insert(key, e);
                let w = self.p.vars[id as usize].w;
                // a random starting value keeps witnesses varied
                let r = self.rand();
                let v = &self.p.vars[id as usize];
                let init = if let Some(d) = v.dom {
                    let vals: Vec<u128> = (0..256usize).filter(|x| d[x / 64] >> (x % 64) & 1 == 1).map(|x| x as u128).collect();
                    vals[(r % vals.len() as u64) as usize]
                } else if kind == b'f' {
                    (((r % 2000001) as i64 - 1000000) as f64 / 64.0).to_bits() as u128
                } else {
                    let i = &self.p.info[e as usize];
                    let span = (i.shi - i.slo) as u128;
                    let span = if r & 3 == 0 { span } else { span.min(1000) };
                    let base = if i.slo <= -500 && i.shi >= 500 && r & 3 != 0 { -500 } else { i.slo };
                    (base + ((r >> 2) as u128 % (span + 1)) as i128) as u128 & mask(w)
                };
                self.p.vars[id as usize].init = init;
                e
            }
        };
        st.inputs.push((kind, e));
        e
    }

    /// whether the next number is a constant: every one in modes from 1, all but two in modes from 10
    fn fixed_number(&mut self, st: &State) -> bool {
        let i = self.num_index(st);
        match st.mode { 0 => false, 10..=19 => i / 2 != st.mode as u64 - 10, _ => true }
    }

    /// in modes from 10 only a few characters and flags are symbolic
    fn fixed_byte(&mut self, st: &mut State, kind: u8, set: &[u8]) -> Option<Val> {
        if st.mode < 10 { return None; }
        let i = st.inputs.iter().filter(|(k, _)| *k == kind).count();
        let r = st.mode as usize % 10;
        let (at, n) = if kind == b'b' { ([0, 9, 31, 83][r % 4], 2) } else { (4 * r, 4) };
        if i >= at && i < at + n { return None; }
        let v = set[(i * 31 + r * 7) % set.len()];
        let e = self.p.k(v as u128, 8);
        st.inputs.push((kind, e));
        Some(Val::C(v as u64))
    }

    fn num_index(&mut self, st: &State) -> u64 { st.inputs.iter().filter(|(k, _)| matches!(k, b'f' | b'g' | b'i' | b'u')).count() as u64 }

    /// Executes a modelled function.  Returns false to fall back to the real body.
    fn run_model(&mut self, st: &mut State, c: &'static CallInst, fid: u32, model: Model, args: &[Val]) -> R<bool> {
        match model {
            Model::None => return Ok(false),
            Model::Alloc | Model::AllocZeroed => {
                let n = self.cz(st, &args[0])?;
                if n > 1 << 28 { return Err(Stop::Unsupported(format!("allocation of {} bytes", n))); }
                let a = self.heap_alloc(st, Obj::new(n as usize));
                self.ret_model(st, c, Val::C(a));
            }
            Model::Malloc => {
                let n = self.cz(st, &args[0])?;
                let a = self.heap_alloc(st, Obj::new(n as usize));
                self.ret_model(st, c, Val::C(a));
            }
            Model::Calloc => {
                let n = self.cz(st, &args[0])?;
                let k = self.cz(st, &args[1])?;
                let a = self.heap_alloc(st, Obj::new((n * k) as usize));
                self.ret_model(st, c, Val::C(a));
            }
            Model::PosixMemalign => {
                let n = self.cz(st, &args[2])?;
                let p = self.cz(st, &args[0])?;
                let a = self.heap_alloc(st, Obj::new(n as usize));
                self.store_int(st, p, 64, &Val::C(a))?;
                self.ret_model(st, c, Val::C(0));
            }
            Model::Dealloc | Model::Free => {
                let a = self.cz(st, &args[0])?;
                if a != 0 {
                    let id = a >> 32;
                    if id < HEAP_BASE || id >= FUNC_BASE || a & 0xffff_ffff != 0 || !st.heap.free(id - HEAP_BASE) {
                        return Err(Stop::Violation("memory".into(), 0, format!("bad free of {:#x}", a)));
                    }
                }
                self.ret_model(st, c, Val::C(0));
            }
            Model::Realloc | Model::ReallocC => {
                let a = self.cz(st, &args[0])?;
                let n = if matches!(model, Model::Realloc) { self.cz(st, &args[3])? } else { self.cz(st, &args[1])? };
                let old = if a == 0 { Rc::new(Obj::new(0)) } else {
                    match st.heap.get_rc((a >> 32).wrapping_sub(HEAP_BASE)) { Some(o) => o, None => return Err(Stop::Violation("memory".into(), 0, "bad realloc".into())) }
                };
                let mut o = Obj::new(n as usize);
                let k = old.len().min(n as usize);
                o.copy_from(0, &old, 0, k);
                drop(old);
                if a != 0 { st.heap.free((a >> 32) - HEAP_BASE); }
                let r = self.heap_alloc(st, o);
                self.ret_model(st, c, Val::C(r));
            }
            Model::AllocShim | Model::Print => { let v = if *self.m.t(c.ret) == Ty::Void { Val::C(0) } else { self.zero(c.ret) }; self.ret_model(st, c, v); }
            Model::Zero => { let v = self.zero(c.ret); self.ret_model(st, c, v); }
            Model::Asm => {}
            // every key has the same hash: tables fall back on comparing the keys
            Model::HashWrite => self.ret_model(st, c, Val::C(0)),
            Model::HashFinish => self.ret_model(st, c, Val::C(u64::MAX)),
            Model::RandomKeys => { self.ret_model(st, c, Val::A(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)]))); }
            Model::Memcmp => {
                let a = self.cz(st, &args[0])?;
                let b = self.cz(st, &args[1])?;
                let n = self.cz(st, &args[2])? as usize;
                let conc = self.with_obj(st, a, n, |o, off| o.is_conc(off, n))? && self.with_obj(st, b, n, |o, off| o.is_conc(off, n))?;
                let r = if conc {
                    let x = self.with_obj(st, a, n, |o, off| o.data[off..off + n].to_vec())?;
                    let y = self.with_obj(st, b, n, |o, off| o.data[off..off + n].to_vec())?;
                    Val::C(match x.cmp(&y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })
                } else {
                    let x = self.bytes_e(st, a, n)?;
                    let y = self.bytes_e(st, b, n)?;
                    // nested from the last byte: (x_i == y_i) ? rest : (x_i < y_i ? -1 : 1)
                    let mut acc = self.p.k(0, 32);
                    let m1 = self.p.k(0xffff_ffff, 32);
                    let p1 = self.p.k(1, 32);
                    // number texts at the same place are equal exactly if the numbers are
                    let mut same: Vec<Option<E>> = vec![None; n];
                    let mut i = 0;
                    while i < n {
                        let t = match (self.tok_first.get(&x[i]), self.tok_first.get(&y[i])) {
                            (Some(a), Some(b)) if x[i] != y[i] && a.len() == b.len() && i + a.len() <= n && x[i..i + a.len()] == a[..] && y[i..i + b.len()] == b[..] => Some((a.clone(), b.clone())),
                            _ => None,
                        };
                        if let Some((a, b)) = t {
                            let ((e1, k1), (e2, k2)) = (self.tok_map[&a], self.tok_map[&b]);
                            if k1 == k2 && self.p.w(e1) == self.p.w(e2) {
                                let q = self.p.eq(e1, e2);
                                for j in 0..a.len() { same[i + j] = Some(q); }
                                i += a.len();
                                continue;
                            }
                        }
                        i += 1;
                    }
                    for i in (0..n).rev() {
                        if let Some(q) = same[i] {
                            if i == 0 || same[i - 1] != Some(q) {
                                acc = self.p.ite(q, acc, m1);
                            }
                            continue;
                        }
                        let eq = self.p.eq(x[i], y[i]);
                        let lt = self.p.ult(x[i], y[i]);
                        let d = self.p.ite(lt, m1, p1);
                        acc = self.p.ite(eq, acc, d);
                    }
                    self.val(acc)
                };
                self.ret_model(st, c, r);
            }
            Model::Strlen => {
                let a = self.cz(st, &args[0])?;
                let mut n = 0u64;
                loop {
                    let b = self.load_int(st, a + n, 8)?;
                    let z = match b { Val::C(0) => true, Val::C(_) => false, Val::E(e) => { let k = self.p.k(0, 8); let q = self.p.eq(e, k); self.branch(st, q)? } _ => false };
                    if z { break; }
                    n += 1;
                }
                self.ret_model(st, c, Val::C(n));
            }
            Model::Memchr => {
                let a = self.cz(st, &args[0])?;
                let n = self.cz(st, &args[2])?;
                let w = self.ex(&args[1], 32);
                let w = self.p.extract(w, 0, 8);
                let mut r = 0;
                for i in 0..n {
                    let b = self.load_int(st, a + i, 8)?;
                    let b = self.ex(&b, 8);
                    let q = self.p.eq(b, w);
                    let hit = match self.p.konst(q) { Some(k) => k == 1, None => self.branch(st, q)? };
                    if hit { r = a + i; break; }
                }
                self.ret_model(st, c, Val::C(r));
            }
            Model::Panic(loc) => {
                let mut msg = short_name(&self.m.funcs[fid as usize].name);
                if let Some(Val::C(a)) = args.get(loc as usize) { if let Some(l) = self.location(st, *a) { msg = format!("{} at {}", msg, l); } }
                // the caller named in the report is the innermost frame
                return Err(Stop::Violation("panic".into(), 0, msg));
            }
            Model::Abort => return Err(Stop::Violation("abort".into(), 0, "abort".into())),
            Model::FmtFloat => {
                let a = self.cz(st, &args[0])?;
                let v = self.load_int(st, a, 64)?;
                match v { Val::C(_) => return Ok(false), Val::E(e) => return self.fmt_token(st, c, e, TokKind::Float, &args[1], true), _ => return Ok(false) }
            }
            Model::FmtInt(w, signed) => {
                let a = self.cz(st, &args[0])?;
                let v = self.load_int(st, a, w)?;
                match v {
                    Val::C(_) => return Ok(false),
                    Val::E(e) => {
                        let e = if signed { self.p.sext(e, 64) } else { self.p.zext(e, 64) };
                        return self.fmt_token(st, c, e, TokKind::Int(signed), &args[1], true);
                    }
                    _ => return Ok(false),
                }
            }
            Model::FmtHex(w) => {
                let a = self.cz(st, &args[0])?;
                let v = self.load_int(st, a, w)?;
                match v {
                    Val::C(_) => return Ok(false),
                    Val::E(e) => { let e = self.p.zext(e, 64); return self.fmt_token(st, c, e, TokKind::Hex, &args[1], true); }
                    _ => return Ok(false),
                }
            }
            Model::IntFormatInto(w, signed) => {
                match args[0] {
                    Val::E(e) => {
                        let e = if w < 64 { if signed { self.p.sext(e, 64) } else { self.p.zext(e, 64) } } else { e };
                        let t = self.token(e, TokKind::Int(signed), 0);
                        let p = self.cz(st, &args[1])?;
                        for (i, b) in t.iter().enumerate() { let v = self.val(*b); self.store_int(st, p + i as u64, 8, &v)?; }
                        self.ret_model(st, c, Val::A(Rc::new(vec![Val::C(p), Val::C(t.len() as u64)])));
                    }
                    _ => return Ok(false),
                }
            }
            Model::IntToString(w, signed) => {
                let a = self.cz(st, &args[1])?;
                match self.load_int(st, a, w)? {
                    Val::E(e) => {
                        let e = if signed { self.p.sext(e, 64) } else { self.p.zext(e, 64) };
                        let t = self.token(e, TokKind::Int(signed), 0);
                        let mut o = Obj::new(t.len());
                        { let s = o.sym_mut(); for (i, b) in t.iter().enumerate() { s[i] = (*b as u64) << 8; } }
                        let p = self.heap_alloc(st, o);
                        let r = self.cz(st, &args[0])?;
                        self.store_int(st, r, 64, &Val::C(t.len() as u64))?;
                        self.store_int(st, r + 8, 64, &Val::C(p))?;
                        self.store_int(st, r + 16, 64, &Val::C(t.len() as u64))?;
                        self.ret_model(st, c, Val::C(0));
                    }
                    _ => return Ok(false),
                }
            }
            Model::ParseF64 => {
                let n = self.cz(st, &args[2])? as usize;
                let a = self.cz(st, &args[1])?;
                let r = self.cz(st, &args[0])?;
                match self.match_token(st, a, n)? {
                    None => return Ok(false),
                    Some((e, TokKind::Float)) => { self.store_int(st, r, 8, &Val::C(0))?; let v = self.val(e); self.store_int(st, r + 8, 64, &v)?; }
                    Some((e, TokKind::Int(s))) => {
                        let f = if s { self.p.sitof(e) } else { self.p.uitof(e) };
                        self.store_int(st, r, 8, &Val::C(0))?;
                        let v = self.val(f);
                        self.store_int(st, r + 8, 64, &v)?;
                    }
                    Some((_, k)) => return Err(Stop::Token(format!("{:?} text read as float", k))),
                }
                self.ret_model(st, c, Val::C(0));
            }
            Model::ParseInt(w, signed) => {
                // a result of up to 64 bits is returned in a register
                let reg = args.len() == 3;
                let args = if reg { &[&[Val::C(0)], args].concat()[..] } else { args };
                let n = self.cz(st, &args[2])? as usize;
                let a = self.cz(st, &args[1])?;
                let r = self.cz(st, &args[0])?;
                let radix = self.cz(st, &args[3])?;
                let (e, src_signed) = match self.match_token(st, a, n)? {
                    None => return Ok(false),
                    Some((e, TokKind::Int(s))) if radix == 10 => (e, s),
                    Some((e, TokKind::Hex)) if radix == 16 => (e, false),
                    Some((_, k)) => return Err(Stop::Token(format!("{:?} text read as integer of radix {}", k, radix))),
                };
                // range of the destination type
                let (lo, hi): (i128, i128) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                let in_lo = if src_signed { let k = self.p.k(lo.max(i64::MIN as i128) as u128, 64); self.p.sle(k, e) } else { self.p.tru() };
                let in_hi = if src_signed { let k = self.p.k(hi.min(i64::MAX as i128) as u128, 64); self.p.sle(e, k) }
                    else { let k = self.p.k(hi.min(u64::MAX as i128) as u128, 64); self.p.ule(e, k) };
                let ok = self.p.and(in_lo, in_hi);
                let good = match self.p.konst(ok) { Some(k) => k == 1, None => self.branch(st, ok)? };
                if reg {
                    // layout of the result: tag, error kind or value in the upper half
                    let v = if good { let x = self.p.extract(e, 0, w); let x = self.p.zext(x, 2 * w); let k = self.p.k(w as u128, 2 * w); let x = self.p.bin(BinOp::Shl, x, k); self.val(x) } else { Val::C(1 | (if signed { 2 } else { 1 }) << 8) };
                    let v = if let Ty::Struct(..) = *self.m.t(c.ret) {
                        // a pair of tag and value
                        let x = if good { let x = self.p.extract(e, 0, w); self.val(x) } else { Val::C(if signed { 2 } else { 1 }) };
                        Val::A(Rc::new(vec![Val::C(!good as u64), x]))
                    } else { v };
                    self.ret_model(st, c, v);
                    return Ok(true);
                }
                if good {
                    let off = (w / 8) as u64;
                    self.store_int(st, r, 8, &Val::C(0))?;
                    let x = self.p.extract(e, 0, w);
                    let v = self.val(x);
                    self.store_int(st, r + off, w, &v)?;
                } else {
                    // IntErrorKind: Empty 0, InvalidDigit 1, PosOverflow 2, NegOverflow 3
                    self.store_int(st, r, 8, &Val::C(1))?;
                    self.store_int(st, r + 1, 8, &Val::C(if signed { 2 } else { 1 }))?;
                }
                self.ret_model(st, c, Val::C(0));
            }
            Model::Sym(name) => return self.run_sym(st, c, name, args),
            Model::Llvm(name, w) => return self.run_llvm(st, c, name, w, args),
        }
        Ok(true)
    }

    fn label(&mut self, st: &State, (p, n): (u64, u64)) -> String {
        match self.load_bytes(st, p, n as usize) { Ok((d, _)) => String::from_utf8_lossy(&d).to_string(), Err(_) => "?".into() }
    }

    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        let p = match self.load_int(st, a, 64).ok()? { Val::C(p) => p, _ => return None };
        let n = match self.load_int(st, a + 8, 64).ok()? { Val::C(p) => p, _ => return None };
        let l = match self.load_int(st, a + 16, 32).ok()? { Val::C(p) => p, _ => return None };
        if n > 300 { return None; }
        let (d, _) = self.load_bytes(st, p, n as usize).ok()?;
        let s = String::from_utf8_lossy(&d).trim_end_matches('\0').to_string();
        Some(format!("{}:{}", s, l))
    }

    /// the text standing for a symbolic number
    fn token(&mut self, e: E, kind: TokKind, width: u32) -> Vec<E> {
        if let Some(t) = self.tokens.get(&(e, kind, width)) { return t.clone(); }
        let len = if width > 0 { width as usize } else { 5 };
        let mut v = vec![];
        for i in 0..len {
            let d = match kind { TokKind::Float => if i == 0 || i + 1 == len { digit_chars() } else { num_chars() }, TokKind::Int(_) => digit_chars(), TokKind::Hex => hex_chars() };
            let (id, x) = self.p.var_byte(d, "tok");
            self.tok_vars.insert(id);
            v.push(x);
        }
        let dash = self.p.k(b'-' as u128, 8);
        match kind {
            TokKind::Float => {
                let neg = match self.p.n(e) {
                    N::Grid(k, _) => { let z = self.p.k(0, 64); self.p.slt(k, z) }
                    _ => self.p.extract(e, 63, 1),
                };
                v[0] = self.p.ite(neg, dash, v[0]);
            }
            TokKind::Int(true) => { let z = self.p.k(0, 64); let neg = self.p.slt(e, z); v[0] = self.p.ite(neg, dash, v[0]); }
            _ => {}
        }
        self.tok_first.insert(v[0], v.clone());
        self.tok_map.insert(v.clone(), (e, kind));
        self.tokens.insert((e, kind, width), v.clone());
        v
    }

    fn match_token(&mut self, st: &State, a: u64, n: usize) -> R<Option<(E, TokKind)>> {
        let conc = self.with_obj(st, a, n, |o, off| o.is_conc(off, n))?;
        if conc { return Ok(None); }
        let b = self.bytes_e(st, a, n)?;
        if let Some(t) = self.tok_map.get(&b) { return Ok(Some(*t)); }
        for x in &b {
            if self.p.info[*x as usize].supp.iter().any(|v| self.tok_vars.contains(v)) {
                return Err(Stop::Token("part of a number text parsed".into()));
            }
        }
        Ok(None)
    }

    /// write the text of a symbolic number through the formatter's sink
    fn fmt_token(&mut self, st: &mut State, c: &'static CallInst, e: E, kind: TokKind, f: &Val, _call: bool) -> R<bool> {
        let f = self.cz(st, f)?;
        let flags = self.load_int(st, f + 16, 32)?;
        let flags = self.cz(st, &flags)?;
        let mut width = 0;
        // sign plus, zero pad, alternate, width, precision
        const WIDTH: u64 = 1 << 27;
        const PREC: u64 = 1 << 28;
        const PLUS: u64 = 1 << 21;
        const ZERO: u64 = 1 << 24;
        const ALT: u64 = 1 << 23;
        if flags & (PREC | PLUS | ALT) != 0 { return Err(Stop::Token("number formatted with options".into())); }
        if flags & WIDTH != 0 {
            let w = self.load_int(st, f + 20, 16)?;
            let w = self.cz(st, &w)? as u32;
            if kind == TokKind::Hex && flags & ZERO != 0 && self.p.info[e as usize].hi < 1u128 << (4 * w) { width = w; }
            else { return Err(Stop::Token("number formatted with a width".into())); }
        }
        let t = self.token(e, kind, width);
        let mut o = Obj::new(t.len());
        {
            let s = o.sym_mut();
            for (i, b) in t.iter().enumerate() { s[i] = (*b as u64) << 8; }
        }
        let a = self.heap_alloc(st, o);
        let data = self.load_int(st, f, 64)?;
        let vt = self.load_int(st, f + 8, 64)?;
        let vt = self.cz(st, &vt)?;
        let fun = self.load_int(st, vt + 24, 64)?;
        let fun = self.cz(st, &fun)?;
        let id = (fun >> 32).wrapping_sub(FUNC_BASE) as u32;
        let func = match self.get_func(id) { Some(f) => f, None => return Err(Stop::Unsupported("write_str without body".into())) };
        self.executed.insert(id);
        self.push_frame(st, func, vec![data, Val::C(a), Val::C(t.len() as u64)], c.dst, c.normal);
        Ok(true)
    }

    fn bool_e(&mut self, v: &Val) -> E {
        match v { Val::C(c) => self.p.k((*c & 1) as u128, 1), Val::E(e) => { let w = self.p.w(*e); if w == 1 { *e } else { self.p.extract(*e, 0, 1) } } _ => self.p.fls() }
    }

    fn run_sym(&mut self, st: &mut State, c: &'static CallInst, name: &'static str, args: &[Val]) -> R<bool> {
        let ret = match name {
            "sym_i64" | "sym_u64" => {
                let lo = self.cz(st, &args[0])? as i64;
                let hi = self.cz(st, &args[1])? as i64;
                if self.fixed_number(st) {
                    let k = self.num_index(st) + (st.mode as u64 - 1);
                    let mut v = NASTY_I[(k % 8) as usize];
                    if v < lo || v > hi { v = if hi - lo < 0 || hi.wrapping_sub(lo) < 0 { lo } else { lo + (k as i64 % (hi - lo + 1)) }; }
                    let e = self.p.k(v as u64 as u128, 64);
                    st.inputs.push((b'i', e));
                    Val::C(v as u64)
                } else {
                    let e = self.new_input(st, b'i', &format!("{}..{}", lo, hi), |p, n| p.var_range(64, lo as i128, hi as i128, n));
                    self.val(e)
                }
            }
            "sym_f64" => {
                if self.fixed_number(st) {
                    let k = self.num_index(st) + (st.mode as u64 - 1);
                    let v = NASTY_F[(k % 8) as usize].to_bits();
                    let e = self.p.k(v as u128, 64);
                    st.inputs.push((b'f', e));
                    Val::C(v)
                } else {
                    let e = self.new_input(st, b'f', "f", |p, n| p.var_f64(n));
                    self.val(e)
                }
            }
            "sym_grid" => {
                // k / 2^scale with lo <= k <= hi; the input is k
                let lo = self.cz(st, &args[0])? as i64;
                let hi = self.cz(st, &args[1])? as i64;
                let scale = self.cz(st, &args[2])? as u8;
                let k = if self.fixed_number(st) {
                    let n = self.num_index(st) + (st.mode as u64 - 1);
                    let mut v = [6i64, -9, 0, 1001, 3, 64, -400, 28][(n % 8) as usize];
                    if v < lo || v > hi { v = lo + (n as i64 % (hi - lo + 1)); }
                    let e = self.p.k(v as u64 as u128, 64);
                    st.inputs.push((b'g', e));
                    e
                } else {
                    self.new_input(st, b'g', &format!("{}..{}", lo, hi), |p, n| p.var_range(64, lo as i128, hi as i128, n))
                };
                let mag = lo.unsigned_abs().max(hi.unsigned_abs());
                let g = self.p.grid(k, scale, mag);
                self.val(g)
            }
            "sym_byte" => {
                // set given as a string of allowed bytes
                let a = self.cz(st, &args[0])?;
                let n = self.cz(st, &args[1])? as usize;
                let set = self.bytes_c(st, a, n)?;
                let mut d = [0u64; 4];
                for b in &set { d[*b as usize / 64] |= 1 << (*b % 64); }
                let key = String::from_utf8_lossy(&set).to_string();
                match self.fixed_byte(st, b'b', &set) {
                    Some(v) => v,
                    None => { let e = self.new_input(st, b'b', &key, |p, n| p.var_byte(d, n)); self.val(e) }
                }
            }
            "sym_byte_range" => {
                let lo = self.cz(st, &args[0])? as usize;
                let hi = self.cz(st, &args[1])? as usize;
                let mut d = [0u64; 4];
                for b in lo..=hi { d[b / 64] |= 1 << (b % 64); }
                let set: Vec<u8> = (lo..=hi).map(|b| b as u8).collect();
                match self.fixed_byte(st, b'b', &set) {
                    Some(v) => v,
                    None => { let e = self.new_input(st, b'b', &format!("{}..{}", lo, hi), |p, n| p.var_byte(d, n)); self.val(e) }
                }
            }
            "sym_bool" => {
                match self.fixed_byte(st, b'c', &[0, 1]) {
                    Some(v) => v,
                    None => {
                        let e = self.new_input(st, b'c', "bool", |p, n| p.var_byte([3, 0, 0, 0], n));
                        let k = self.p.k(1, 8);
                        let b = self.p.eq(e, k);
                        self.val(b)
                    }
                }
            }
            "sym_pick" => {
                // forks over 0..n
                let n = self.cz(st, &args[0])?;
                if n == 0 { return Err(Stop::Infeasible); }
                let first = st.inputs.is_empty();
                for i in 1..n {
                    let mut o = st.clone();
                    let k = self.p.k(i as u128, 64);
                    o.inputs.push((b'p', k));
                    self.ret_model(&mut o, c, Val::C(i));
                    let _ = first;
                    self.work.push(o);
                    self.forks += 1;
                }
                let k = self.p.k(0, 64);
                st.inputs.push((b'p', k));
                Val::C(0)
            }
            "sym_assume" => {
                let e = self.bool_e(&args[0]);
                match self.p.konst(e) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::Infeasible),
                    None => {
                        let (t, f) = self.decide(st, e)?;
                        match t {
                            None => return Err(Stop::Infeasible),
                            Some(m) => if f.is_some() { self.add_cons(st, e, m) },
                        }
                    }
                }
                Val::C(0)
            }
            "sym_assert" => {
                let e = self.bool_e(&args[0]);
                let line = self.cz(st, &args[1])?;
                let (lp, ln) = (self.cz(st, &args[2])?, self.cz(st, &args[3])?);
                // labels are constants, so their address identifies the assertion
                let id = lp;
                let label = || (lp, ln);
                self.asserts += 1;
                *self.assert_ids.entry(id).or_insert(0) += 1;
                match self.p.konst(e) {
                    Some(1) => { self.asserts_trivial += 1; }
                    Some(_) => { let m = self.label(st, label()); return Err(Stop::Violation("assert".into(), line, m)); }
                    None => {
                        self.asserts_solver += 1;
                        let n = self.p.not(e);
                        if self.opts.trace { eprintln!("assert {}: {}", id, self.show(e, 7)); }
                        if let Some(m) = self.query(st, n)? {
                            let mut bad = st.clone();
                            self.add_cons(&mut bad, n, Some(m));
                            self.paths += 1;
                            let m = self.label(st, label());
                            self.record_violation(&bad, "assert".into(), line, m);
                            if self.violations.len() >= self.opts.max_viol { return Err(Stop::Infeasible); }
                            // go on under the assertion if that is possible
                            match self.query(st, e)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => self.add_cons(st, e, Some(m)),
                            }
                        }
                    }
                }
                Val::C(0)
            }
            "sym_goal" => { let id = self.cz(st, &args[0])?; st.goals.insert(id); Val::C(0) }
            "sym_expect" => { let n = self.cz(st, &args[0])?; if n > self.expect { self.expect = n; } Val::C(0) }
            "sym_obs" => { let e = self.ex(&args[0], 64); st.obs.push(e); Val::C(0) }
            "sym_tier" => Val::C(self.opts.tier as u64),
            "sym_native" => Val::C(0),
            "sym_is_symbolic" => Val::C(!matches!(args[0], Val::C(_)) as u64),
            "sym_concrete" => { let v = self.cz(st, &args[0])?; Val::C(v) }
            _ => return Err(Stop::Unsupported(format!("intrinsic {}", name))),
        };
        self.ret_model(st, c, ret);
        Ok(true)
    }

    fn overflow_pair(&mut self, r: E, o: E) -> Val { Val::A(Rc::new(vec![self.val(r), self.val(o)])) }

    fn run_llvm(&mut self, st: &mut State, c: &'static CallInst, name: &'static str, w: u32, args: &[Val]) -> R<bool> {
        let allc = args.iter().all(|a| Self::conc(a).is_some());
        let ret = match name {
            "nop" => Val::C(0),
            "memcpy" => {
                let n = self.cz(st, &args[2])?;
                if n > 0 {
                    let d = self.cz(st, &args[0])?;
                    let s = self.cz(st, &args[1])?;
                    self.copy(st, d, s, n as usize)?;
                }
                Val::C(0)
            }
            "memset" => {
                let n = self.cz(st, &args[2])? as usize;
                if n > 0 {
                    let d = self.cz(st, &args[0])?;
                    match args[1] {
                        Val::C(b) => self.with_obj_mut(st, d, n, |o, off| { for x in &mut o.data[off..off + n] { *x = b as u8; } o.clear_sym(off, n); })?,
                        ref v => { for i in 0..n { self.store_int(st, d + i as u64, 8, v)?; } }
                    }
                }
                Val::C(0)
            }
            "assume" => Val::C(0),
            "expect" => args[0].clone(),
            "tls" => args[0].clone(),
            "is.constant" => Val::C(0),
            "trap" => return Err(Stop::Violation("trap".into(), 0, "trap".into())),
            "umin" | "umax" | "smin" | "smax" => {
                let a = self.ex(&args[0], w);
                let b = self.ex(&args[1], w);
                let lt = if name.starts_with('u') { self.p.ult(a, b) } else { self.p.slt(a, b) };
                let r = if name.ends_with("min") { self.p.ite(lt, a, b) } else { self.p.ite(lt, b, a) };
                self.val(r)
            }
            "ucmp" | "scmp" => {
                let a = self.ex(&args[0], w);
                let b = self.ex(&args[1], w);
                let lt = if name == "ucmp" { self.p.ult(a, b) } else { self.p.slt(a, b) };
                let eq = self.p.eq(a, b);
                let rw = self.m.bits_of(c.ret) as u32;
                let m1 = self.p.k(u128::MAX, rw);
                let p1 = self.p.k(1, rw);
                let z = self.p.k(0, rw);
                let g = self.p.ite(lt, m1, p1);
                let r = self.p.ite(eq, z, g);
                self.val(r)
            }
            "uadd.o" | "usub.o" | "umul.o" | "sadd.o" | "ssub.o" | "smul.o" => {
                let op = match &name[1..4] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                let signed = name.starts_with('s');
                if allc && w <= 64 {
                    let (a, b) = (Self::conc(&args[0]).unwrap(), Self::conc(&args[1]).unwrap());
                    let (x, y) = if signed { (sx(a, w), sx(b, w)) } else { (a as i128, b as i128) };
                    let (r, big) = match op { BinOp::Add => (x.wrapping_add(y), false), BinOp::Sub => (x.wrapping_sub(y), false), _ => { let (r, o) = x.overflowing_mul(y); (r, o) } };
                    let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                    let o = big || r < lo || r > hi;
                    Val::A(Rc::new(vec![Self::kval(r as u128, w), Val::C(o as u64)]))
                } else {
                    let a = self.ex(&args[0], w);
                    let b = self.ex(&args[1], w);
                    let r = self.p.bin(op, a, b);
                    // interval based shortcut
                    let (ia, ib) = (self.p.info[a as usize].clone(), self.p.info[b as usize].clone());
                    let fits = if w <= 64 {
                        if signed {
                            let c = match op { BinOp::Add => [ia.slo + ib.slo, ia.shi + ib.shi, 0, 0], BinOp::Sub => [ia.slo - ib.shi, ia.shi - ib.slo, 0, 0], _ => [ia.slo * ib.slo, ia.slo * ib.shi, ia.shi * ib.slo, ia.shi * ib.shi] };
                            c.iter().all(|&v| v >= -(1i128 << (w - 1)) && v <= (1i128 << (w - 1)) - 1)
                        } else {
                            match op { BinOp::Add => ia.hi + ib.hi <= mask(w), BinOp::Sub => ia.lo >= ib.hi, _ => ia.hi.checked_mul(ib.hi).map_or(false, |v| v <= mask(w)) }
                        }
                    } else if w == 128 && signed {
                        let c = |x: i128, y: i128| match op { BinOp::Add => x.checked_add(y), BinOp::Sub => x.checked_sub(y), _ => x.checked_mul(y) }.is_some();
                        c(ia.slo, ib.slo) && c(ia.slo, ib.shi) && c(ia.shi, ib.slo) && c(ia.shi, ib.shi)
                    } else if w == 128 {
                        match op { BinOp::Add => ia.hi.checked_add(ib.hi).is_some(), BinOp::Sub => ia.lo >= ib.hi, _ => ia.hi.checked_mul(ib.hi).is_some() }
                    } else { false };
                    let o = if fits { self.p.fls() } else {
                        if w > 64 && op == BinOp::Mul { return Err(Stop::Unsupported("wide symbolic multiplication".into())); }
                        match (op, signed) {
                            (BinOp::Add, false) => self.p.ult(r, a),
                            (BinOp::Sub, false) => self.p.ult(a, b),
                            (BinOp::Mul, false) => { let x = self.p.zext(a, 2 * w); let y = self.p.zext(b, 2 * w); let q = self.p.bin(BinOp::Mul, x, y); let k = self.p.k(mask(w), 2 * w); self.p.ult(k, q) }
                            (BinOp::Mul, true) => { let x = self.p.sext(a, 2 * w); let y = self.p.sext(b, 2 * w); let q = self.p.bin(BinOp::Mul, x, y); let s = self.p.sext(r, 2 * w); let e = self.p.eq(q, s); self.p.not(e) }
                            (BinOp::Add, true) => {
                                // overflow iff operands share a sign the result lacks
                                let z = self.p.k(0, w);
                                let (sa, sb, sr) = (self.p.slt(a, z), self.p.slt(b, z), self.p.slt(r, z));
                                let e = self.p.eq(sa, sb);
                                let x = self.p.bin(BinOp::Xor, sa, sr);
                                self.p.and(e, x)
                            }
                            _ => {
                                let z = self.p.k(0, w);
                                let (sa, sb, sr) = (self.p.slt(a, z), self.p.slt(b, z), self.p.slt(r, z));
                                let e = self.p.bin(BinOp::Xor, sa, sb);
                                let x = self.p.bin(BinOp::Xor, sa, sr);
                                self.p.and(e, x)
                            }
                        }
                    };
                    self.overflow_pair(r, o)
                }
            }
            "uadd.sat" | "usub.sat" => {
                let a = self.ex(&args[0], w);
                let b = self.ex(&args[1], w);
                let r = if name == "uadd.sat" {
                    let s = self.p.bin(BinOp::Add, a, b);
                    let o = self.p.ult(s, a);
                    let m = self.p.k(mask(w), w);
                    self.p.ite(o, m, s)
                } else {
                    let s = self.p.bin(BinOp::Sub, a, b);
                    let o = self.p.ult(a, b);
                    let z = self.p.k(0, w);
                    self.p.ite(o, z, s)
                };
                self.val(r)
            }
            "sadd.sat" | "ssub.sat" if allc && w <= 64 => {
                let (x, y) = (sx(Self::conc(&args[0]).unwrap(), w), sx(Self::conc(&args[1]).unwrap(), w));
                let r = if name == "sadd.sat" { x + y } else { x - y };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                Self::kval(r.max(lo).min(hi) as u128, w)
            }
            "sadd.sat" | "ssub.sat" if w <= 64 => {
                let (a, b) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let (x, y) = (self.p.sext(a, w + 1), self.p.sext(b, w + 1));
                let q = self.p.bin(if name == "sadd.sat" { BinOp::Add } else { BinOp::Sub }, x, y);
                let (lo, hi) = (self.p.k((-(1i128 << (w - 1))) as u128 & mask(w + 1), w + 1), self.p.k((1u128 << (w - 1)) - 1, w + 1));
                let (c1, c2) = (self.p.slt(q, lo), self.p.slt(hi, q));
                let q = self.p.ite(c2, hi, q);
                let q = self.p.ite(c1, lo, q);
                let r = self.p.extract(q, 0, w);
                self.val(r)
            }
            "fshl" | "fshr" => {
                let s = self.cz(st, &args[2])? as u32 % w;
                let a = self.ex(&args[0], w);
                let b = self.ex(&args[1], w);
                let cat = self.p.concat(a, b);
                let r = if name == "fshl" { self.p.extract(cat, w - s, w) } else { self.p.extract(cat, s, w) };
                self.val(r)
            }
            "bswap" => {
                let a = self.ex(&args[0], w);
                let n = w / 8;
                let mut acc: Option<E> = None;
                for i in 0..n { let b = self.p.extract(a, i * 8, 8); acc = Some(match acc { None => b, Some(x) => self.p.concat(x, b) }); }
                self.val(acc.unwrap())
            }
            "bitreverse" => {
                let a = self.ex(&args[0], w);
                let mut acc: Option<E> = None;
                for i in 0..w { let b = self.p.extract(a, i, 1); acc = Some(match acc { None => b, Some(x) => self.p.concat(x, b) }); }
                self.val(acc.unwrap())
            }
            "ctlz" | "cttz" | "ctpop" => {
                if let Some(v) = Self::conc(&args[0]) {
                    let r = match name {
                        "ctlz" => if w > 64 { v.leading_zeros() - (128 - w) } else { (v as u64).leading_zeros() - (64 - w) },
                        "cttz" => if v == 0 { w } else { v.trailing_zeros() },
                        _ => v.count_ones(),
                    };
                    Self::kval(r as u128, w)
                } else {
                    let a = self.ex(&args[0], w);
                    let mut acc;
                    match name {
                        "ctlz" => { acc = self.p.k(w as u128, w); for i in 0..w { let b = self.p.extract(a, i, 1); let k = self.p.k((w - 1 - i) as u128, w); acc = self.p.ite(b, k, acc); } }
                        "cttz" => { acc = self.p.k(w as u128, w); for i in (0..w).rev() { let b = self.p.extract(a, i, 1); let k = self.p.k(i as u128, w); acc = self.p.ite(b, k, acc); } }
                        _ => { acc = self.p.k(0, w); for i in 0..w { let b = self.p.extract(a, i, 1); let b = self.p.zext(b, w); acc = self.p.bin(BinOp::Add, acc, b); } }
                    }
                    self.val(acc)
                }
            }
            "abs" => {
                let a = self.ex(&args[0], w);
                let z = self.p.k(0, w);
                let n = self.p.bin(BinOp::Sub, z, a);
                let lt = self.p.slt(a, z);
                let r = self.p.ite(lt, n, a);
                self.val(r)
            }
            "fabs" => match args[0] {
                Val::C(v) => Val::C(if w == 32 { v & 0x7fff_ffff } else if w == 16 { v & 0x7fff } else { v & !(1 << 63) }),
                Val::E(e) if w == 64 => { let r = self.p.fabs(e); self.val(r) }
                _ => return Err(Stop::Unsupported("fabs".into())),
            },
            "fsqrt" if w == 64 => { let a = self.ex(&args[0], 64); let r = self.p.fsqrt(a); self.val(r) }
            "ffloor" | "fceil" | "ftrunc" | "fround" | "frint" if w == 64 => {
                let a = self.ex(&args[0], 64);
                let m = match name { "ffloor" => RND_FLOOR, "fceil" => RND_CEIL, "ftrunc" => RND_TRUNC, "fround" => RND_AWAY, _ => RND_EVEN };
                let r = self.p.frnd(m, a);
                self.val(r)
            }
            "fsqrt" | "ffloor" | "fceil" | "ftrunc" | "fround" | "frint" | "fmin" | "fmax" | "fcopysign" if w == 32 => self.math(&name[1..], 32, args)?,
            "fmin" | "fmax" if w == 64 => {
                if let (Val::C(a), Val::C(b)) = (&args[0], &args[1]) {
                    let (x, y) = (f64::from_bits(*a), f64::from_bits(*b));
                    Val::C(if name == "fmin" { x.min(y) } else { x.max(y) }.to_bits())
                } else {
                    let a = self.ex(&args[0], 64);
                    let b = self.ex(&args[1], 64);
                    let na = self.p.fnan(a);
                    let nb = self.p.fnan(b);
                    let lt = if name == "fmin" { self.p.fle(a, b) } else { self.p.fle(b, a) };
                    let r = self.p.ite(lt, a, b);
                    let r = self.p.ite(nb, a, r);
                    let r = self.p.ite(na, b, r);
                    self.val(r)
                }
            }
            "fcopysign" if w == 64 => {
                let a = self.ex(&args[0], 64);
                let b = self.ex(&args[1], 64);
                let m = self.p.k((1 << 63) - 1, 64);
                let x = self.p.bin(BinOp::And, a, m);
                let s = self.p.k(1 << 63, 64);
                let y = self.p.bin(BinOp::And, b, s);
                let r = self.p.bin(BinOp::Or, x, y);
                self.val(r)
            }
            "ftosi" | "ftoui" => {
                let tw = self.m.bits_of(c.ret) as u32;
                let from = c.args[0].0;
                self.ftoi(name == "ftosi", from, tw, &args[0])?
            }
            "reduce.and" | "reduce.or" => {
                let l = Self::lanes(&args[0]);
                let (_, et) = self.elem(c.args[0].0).unwrap();
                let op = if name == "reduce.and" { BinOp::And } else { BinOp::Or };
                let mut acc = l[0].clone();
                for x in &l[1..] { acc = self.binop(op, et, &acc, x); }
                acc
            }
            _ if name.starts_with("math.") => self.math(&name[5..], w, args)?,
            _ => return Err(Stop::Unsupported(format!("intrinsic {}", self.m.funcs[match c.callee { Callee::Direct(f) => f, _ => 0 } as usize].name))),
        };
        self.ret_model(st, c, ret);
        Ok(true)
    }

    /// mathematical functions: of constants, and of symbolic numbers where the result is exact
    fn math(&mut self, name: &str, w: u32, args: &[Val]) -> R<Val> {
        let (name, w) = match name.strip_suffix('f') { Some(n) if w == 0 && !matches!(name, "erf") => (n, 32), _ => (name, if w == 0 { 64 } else { w }) };
        let mut v = vec![];
        for a in args { match *a { Val::C(c) => v.push(c), _ => break } }
        let bad = || Stop::Unsupported(format!("function {} of a symbolic number", name));
        if v.len() == args.len() {
            if name == "powi" { return Ok(Val::C(if w == 32 { f32::from_bits(v[0] as u32).powi(v[1] as i32).to_bits() as u64 } else { f64::from_bits(v[0]).powi(v[1] as i32).to_bits() })); }
            if w == 32 {
                let f = |i: usize| f32::from_bits(v[i] as u32);
                let r = match name {
                    "sin" => f(0).sin(), "cos" => f(0).cos(), "tan" => f(0).tan(), "asin" => f(0).asin(), "acos" => f(0).acos(), "atan" => f(0).atan(), "sinh" => f(0).sinh(), "cosh" => f(0).cosh(), "tanh" => f(0).tanh(),
                    "exp" => f(0).exp(), "exp2" => f(0).exp2(), "log" => f(0).ln(), "log2" => f(0).log2(), "log10" => f(0).log10(), "cbrt" => f(0).cbrt(), "expm1" => f(0).exp_m1(), "log1p" => f(0).ln_1p(),
                    "hypot" => f(0).hypot(f(1)), "atan2" => f(0).atan2(f(1)), "pow" => f(0).powf(f(1)), "fmod" => f(0) % f(1), "fma" => f(0).mul_add(f(1), f(2)), "fmuladd" => f(0) * f(1) + f(2),
                    "sqrt" => f(0).sqrt(), "floor" => f(0).floor(), "ceil" => f(0).ceil(), "trunc" => f(0).trunc(), "round" => f(0).round(), "rint" => f(0).round_ties_even(),
                    "min" => f(0).min(f(1)), "max" => f(0).max(f(1)), "copysign" => f(0).copysign(f(1)),
                    _ => return Err(bad()),
                };
                return Ok(Val::C(r.to_bits() as u64));
            }
            if w != 64 { return Err(bad()); }
            let f = |i: usize| f64::from_bits(v[i]);
            let r = match name {
                "sin" => f(0).sin(), "cos" => f(0).cos(), "tan" => f(0).tan(), "asin" => f(0).asin(), "acos" => f(0).acos(), "atan" => f(0).atan(), "sinh" => f(0).sinh(), "cosh" => f(0).cosh(), "tanh" => f(0).tanh(),
                "exp" => f(0).exp(), "exp2" => f(0).exp2(), "log" => f(0).ln(), "log2" => f(0).log2(), "log10" => f(0).log10(), "cbrt" => f(0).cbrt(), "expm1" => f(0).exp_m1(), "log1p" => f(0).ln_1p(),
                "hypot" => f(0).hypot(f(1)), "atan2" => f(0).atan2(f(1)), "pow" => f(0).powf(f(1)), "fmod" => f(0) % f(1), "fma" => f(0).mul_add(f(1), f(2)), "fmuladd" => f(0) * f(1) + f(2),
                "fdim" => (f(0) - f(1)).max(0.0), "rint" => f(0).round_ties_even(),
                _ => return Err(bad()),
            };
            return Ok(Val::C(r.to_bits()));
        }
        if w != 64 { return Err(bad()); }
        match name {
            "powi" => {
                let n = match args[1] { Val::C(n) => n as u32 as i32, _ => return Err(bad()) };
                if n < 0 || n > 16 { return Err(bad()); }
                let mut a = self.ex(&args[0], 64);
                let mut b = n;
                let mut r: Option<E> = None;
                loop {
                    if b & 1 == 1 { r = Some(match r { None => a, Some(r) => self.p.fbin(FBinOp::Mul, r, a) }); }
                    b /= 2;
                    if b == 0 { break; }
                    a = self.p.fbin(FBinOp::Mul, a, a);
                }
                match r { Some(r) => Ok(self.val(r)), None => Ok(Val::C(1f64.to_bits())) }
            }
            "pow" => {
                let n = match args[1] { Val::C(n) => f64::from_bits(n), _ => return Err(bad()) };
                let a = self.ex(&args[0], 64);
                if n == 1.0 { return Ok(args[0].clone()); }
                if n == 2.0 { let r = self.p.fbin(FBinOp::Mul, a, a); return Ok(self.val(r)); }
                Err(bad())
            }
            "hypot" => {
                let (a, b) = (self.ex(&args[0], 64), self.ex(&args[1], 64));
                let zero = |x: Option<u128>| x.map_or(false, |k| k << 1 == 0 || k == 1 << 63);
                if zero(self.p.konst(b)) { let r = self.p.fabs(a); return Ok(self.val(r)); }
                if zero(self.p.konst(a)) { let r = self.p.fabs(b); return Ok(self.val(r)); }
                Err(bad())
            }
            "fma" | "fmuladd" => {
                let (a, b, c) = (self.ex(&args[0], 64), self.ex(&args[1], 64), self.ex(&args[2], 64));
                let m = self.p.fbin(FBinOp::Mul, a, b);
                // one rounding only where the product is exact
                if name == "fma" && !matches!(self.p.n(m), N::Grid(..)) { return Err(bad()); }
                let r = self.p.fbin(FBinOp::Add, m, c);
                Ok(self.val(r))
            }
            _ => Err(bad()),
        }
    }

    pub fn check_limits(&self) -> bool { let _ = &self.num_memo; self.start.elapsed().as_secs_f64() < self.opts.time_s }
}

fn insert(base: Val, x: Val, idx: &[u32]) -> Val {
    if idx.is_empty() { return x; }
    match base {
        Val::A(l) => {
            let mut l = (*l).clone();
            let i = idx[0] as usize;
            let old = std::mem::replace(&mut l[i], Val::C(0));
            l[i] = insert(old, x, &idx[1..]);
            Val::A(Rc::new(l))
        }
        _ => panic!("insertvalue into scalar"),
    }
}

fn icmp_c(p: IPred, a: u128, b: u128, w: u32) -> bool {
    match p {
        IPred::Eq => a == b, IPred::Ne => a != b,
        IPred::Ult => a < b, IPred::Ule => a <= b, IPred::Ugt => a > b, IPred::Uge => a >= b,
        IPred::Slt => sx(a, w) < sx(b, w), IPred::Sle => sx(a, w) <= sx(b, w), IPred::Sgt => sx(a, w) > sx(b, w), IPred::Sge => sx(a, w) >= sx(b, w),
    }
}

/// readable path from a v0 mangled name
pub fn short_name(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate root with disambiguator "Cs<base62>_"
            i += 2;
            while i < b.len() && b[i] != b'_' { i += 1; }
            i += 1;
            continue;
        }
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator or back reference
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() && j - i < 6 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if j + n <= b.len() && n > 0 {
                parts.push(s[j..j + n].to_string());
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    parts.truncate(6);
    parts.join("::")
}

fn int_type(c: u8) -> Option<(u32, bool)> {
    Some(match c { b'a' => (8, true), b'h' => (8, false), b's' => (16, true), b't' => (16, false), b'l' => (32, true), b'm' => (32, false), b'x' => (64, true), b'y' => (64, false), b'i' => (64, true), b'j' => (64, false), _ => return None })
}

fn after(name: &str, pat: &str) -> Option<u8> { name.find(pat).and_then(|p| name.as_bytes().get(p + pat.len()).cloned()) }

fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

pub fn classify(name: &str) -> Model {
    if name.starts_with("sym_") { return Model::Sym(leak(name)); }
    if let Some(r) = name.strip_prefix("llvm.") { return classify_llvm(r); }
    match name {
        "malloc" => return Model::Malloc,
        "calloc" => return Model::Calloc,
        "free" => return Model::Free,
        "realloc" => return Model::ReallocC,
        "posix_memalign" => return Model::PosixMemalign,
        "memcmp" | "bcmp" => return Model::Memcmp,
        "strlen" => return Model::Strlen,
        "memchr" => return Model::Memchr,
        "memcpy" | "memmove" => return Model::Llvm("memcpy", 64),
        "memset" => return Model::Llvm("memset", 64),
        "abort" => return Model::Abort,
        "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "exp" | "exp2" | "log" | "log2" | "log10" | "cbrt" | "expm1" | "log1p" | "hypot" | "atan2" | "pow" | "fmod" | "fma" | "fdim"
        | "sinf" | "cosf" | "tanf" | "asinf" | "acosf" | "atanf" | "sinhf" | "coshf" | "tanhf" | "expf" | "exp2f" | "logf" | "log2f" | "log10f" | "cbrtf" | "expm1f" | "log1pf" | "hypotf" | "atan2f" | "powf" | "fmodf" | "fmaf" =>
            return Model::Llvm(leak(&format!("math.{}", name)), 0),
        "__cxa_thread_atexit_impl" | "gettid" | "pthread_key_create" | "pthread_setspecific" | "sysconf" | "getauxval" => return Model::Zero,
        _ => {}
    }
    if !name.starts_with("_R") { return Model::None; }
    if name.contains("___rustc") {
        if name.ends_with("12___rust_alloc") { return Model::Alloc; }
        if name.ends_with("19___rust_alloc_zeroed") { return Model::AllocZeroed; }
        if name.ends_with("14___rust_dealloc") { return Model::Dealloc; }
        if name.ends_with("14___rust_realloc") { return Model::Realloc; }
        if name.contains("___rust_no_alloc_shim") { return Model::AllocShim; }
        if name.contains("rust_begin_unwind") || name.contains("rust_panic") { return Model::Panic(99); }
    }
    if name.contains("4core9panicking") {
        if name.ends_with("9panic_fmt") { return Model::Panic(2); }
        if name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") { return Model::Panic(99); }
        if name.ends_with("9panicking5panic") { return Model::Panic(2); }
        if name.ends_with("18panic_bounds_check") { return Model::Panic(2); }
        if name.contains("11panic_const") { return Model::Panic(0); }
    }
    if name.contains("18handle_alloc_error") || name.contains("17capacity_overflow") || name.contains("12handle_error") { return Model::Panic(99); }
    if name.contains("4core3fmt5floatdNtB") && (name.ends_with("7Display3fmt") || name.ends_with("5Debug3fmt") || name.ends_with("8LowerExp3fmt") || name.ends_with("8UpperExp3fmt")) { return Model::FmtFloat; }
    if name.contains("11float_parsedNtNtNt") && name.ends_with("7FromStr8from_str") { return Model::ParseF64; }
    if let Some(c) = after(name, "4core3fmt3num3imp") {
        if let Some((w, s)) = int_type(c) {
            if name.ends_with("7Display3fmt") { return Model::FmtInt(w, s); }
            if name.ends_with("11format_into") { return Model::IntFormatInto(w, s); }
        }
    }
    if name.contains("12SpecToString14spec_to_string") {
        if let Some(c) = after(name, "5alloc6string") { if let Some((w, s)) = int_type(c) { return Model::IntToString(w, s); } }
    }
    if name.contains("4core3fmt3num") && name.ends_with("8UpperHex3fmt") {
        if let Some(c) = after(name, "4core3fmt3num") { if let Some((w, _)) = int_type(c) { return Model::FmtHex(w); } }
    }
    if name.contains("27from_ascii_bytes_radix_impl") {
        if let Some(c) = after(name, "4core3num") { if let Some((w, s)) = int_type(c) { return Model::ParseInt(w, s); } }
    }
    if name.contains("4core4hash3sipINt") {
        if name.contains("_6Hasher5write") || name.contains("_6Hasher9write_str") { return Model::HashWrite; }
        if name.contains("_6Hasher6finish") { return Model::HashFinish; }
    }
    if name.contains("hashmap_random_keys") || name.ends_with("19hashmap_random_keys") { return Model::RandomKeys; }
    if name.contains("2io5stdio6__print") || name.contains("2io5stdio7__eprint") || name.contains("2io5stdio6_print") || name.contains("2io5stdio7_eprint") { return Model::Print; }
    Model::None
}

fn classify_llvm(r: &str) -> Model {
    let w = r.rsplit('.').next().and_then(|x| if x.starts_with('i') || x.starts_with('f') { x[1..].parse::<u32>().ok() } else { None }).unwrap_or(64);
    let w = if r.starts_with("powi.f32") { 32 } else if r.starts_with("powi") { 64 } else { w };
    let n = |s: &'static str| Model::Llvm(s, w);
    let starts = |p: &str| r.starts_with(p);
    if starts("memcpy") || starts("memmove") { return n("memcpy"); }
    if starts("memset") { return n("memset"); }
    if starts("lifetime") || starts("experimental.noalias") || starts("dbg") || starts("x86.sse2.pause") || starts("prefetch") || starts("assume") { return n("nop"); }
    if starts("expect") { return n("expect"); }
    if starts("threadlocal") { return n("tls"); }
    if starts("is.constant") { return n("is.constant"); }
    if starts("trap") { return n("trap"); }
    for (p, s) in [("umin.", "umin"), ("umax.", "umax"), ("smin.", "smin"), ("smax.", "smax"), ("ucmp.", "ucmp"), ("scmp.", "scmp"),
        ("uadd.with", "uadd.o"), ("usub.with", "usub.o"), ("umul.with", "umul.o"), ("sadd.with", "sadd.o"), ("ssub.with", "ssub.o"), ("smul.with", "smul.o"),
        ("uadd.sat", "uadd.sat"), ("usub.sat", "usub.sat"), ("sadd.sat", "sadd.sat"), ("ssub.sat", "ssub.sat"), ("fshl", "fshl"), ("fshr", "fshr"), ("bswap", "bswap"),
        ("bitreverse", "bitreverse"), ("ctlz", "ctlz"), ("cttz", "cttz"), ("ctpop", "ctpop"), ("abs.", "abs"), ("fabs", "fabs"), ("sqrt", "fsqrt"),
        ("floor", "ffloor"), ("ceil", "fceil"), ("trunc", "ftrunc"), ("round.", "fround"), ("roundeven", "frint"), ("rint", "frint"), ("nearbyint", "frint"),
        ("minimumnum", "fmin"), ("maximumnum", "fmax"), ("minnum", "fmin"), ("maxnum", "fmax"), ("copysign", "fcopysign"),
        ("powi", "math.powi"), ("pow.", "math.pow"), ("sin.", "math.sin"), ("cos.", "math.cos"), ("tan.", "math.tan"), ("asin.", "math.asin"), ("acos.", "math.acos"), ("atan.", "math.atan"), ("atan2.", "math.atan2"),
        ("sinh.", "math.sinh"), ("cosh.", "math.cosh"), ("tanh.", "math.tanh"), ("exp.", "math.exp"), ("exp2.", "math.exp2"), ("log.", "math.log"), ("log2.", "math.log2"), ("log10.", "math.log10"),
        ("fma.", "math.fma"), ("fmuladd.", "math.fmuladd"), ("fptosi.sat", "ftosi"), ("fptoui.sat", "ftoui"), ("vector.reduce.and", "reduce.and"), ("vector.reduce.or", "reduce.or")] {
        if r.starts_with(p) { return Model::Llvm(s, w); }
    }
    n("?")
}
