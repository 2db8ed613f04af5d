//! Symbolic execution of the IR, one path at a time (depth first), forking states at symbolic
//! decisions that the solver finds feasible both ways.
use crate::expr::{Exprs, E, K};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: Rc<Body>,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct Thread { pub cur: Frame, pub stack: Vec<Rc<Frame>>, pub done: bool, pub waiting: Option<usize> }

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub tid: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub ndraw: u32,
    pub inputs: Vec<(u32, u8)>, // variable, 0 = data / 1 = schedule
    pub observes: Vec<Val>,
    pub panic_ok: bool,
    pub merge: bool,
    pub preempt: u32,
    pub steps: u64,
    pub depth: u32,
}

pub enum Stop { Done, Killed, Violation(String, String), Unsupported(String) }
type R<T> = Result<T, Stop>;

pub struct Violation { pub kind: String, pub msg: String, pub at: String, pub stack: Vec<String>, pub inputs: Vec<(u128, u8)> }
pub struct Sample { pub inputs: Vec<(u128, u8)>, pub observes: Vec<u128>, pub panicked: bool }

pub struct Limits { pub time: f64, pub paths: u64, pub steps: u64, pub samples: usize, pub preempt: u32, pub mem_mb: u64, pub stop_at_first: bool }

pub struct Engine {
    pub m: Module,
    pub ex: Exprs,
    pub sv: Solver,
    pub work: Vec<State>,
    pub vars: HashMap<(u32, u32), u32>,
    pub covers: BTreeMap<String, Vec<(u128, u8)>>,
    pub funcs: HashSet<u32>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub inconclusive: BTreeSet<String>,
    pub paths: u64,
    pub killed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub check_msgs: BTreeMap<String, u64>,
    pub expected_panics: u64,
    pub max_depth: u32,
    pub lim: Limits,
    pub t0: Instant,
    pub first_violation: Option<Instant>,
    fork_base: Option<State>,
    ext_kind: HashMap<u32, Ext>,
    pdoms: HashMap<u32, Rc<Vec<u32>>>,
    merge_fail: HashMap<(u32, u32), u32>,
    spec: u32,
    pub merges: u64,
    nomodel: bool,
    pub trace: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext { Body, Panic, Intrinsic }

fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }

impl Engine {
    pub fn new(m: Module, sv: Solver, lim: Limits) -> Self {
        Engine { m, ex: Exprs::default(), sv, work: vec![], vars: HashMap::new(), covers: BTreeMap::new(), funcs: HashSet::new(), violations: vec![], samples: vec![], inconclusive: BTreeSet::new(), paths: 0, killed: 0, instrs: 0, forks: 0, checks: 0, check_msgs: BTreeMap::new(), expected_panics: 0, max_depth: 0, lim, t0: Instant::now(), first_violation: None, fork_base: None, ext_kind: HashMap::new(), pdoms: HashMap::new(), merge_fail: HashMap::new(), spec: 0, nomodel: false, merges: 0, trace: false }
    }

    fn init_val(&mut self, o: &mut Obj, off: u64, t: Ty, v: &Val) {
        match v {
            Val::I(x) => { let n = self.m.store_size(t) as usize; let mut x = *x; if self.m.nfields(t).is_some() { return; } for k in 0..n { o.data[off as usize + k] = x as u8; x >>= 8; } }
            Val::A(vs) => for (i, e) in vs.iter().enumerate() { let (fo, ft) = self.m.field(t, i as u64); self.init_val(o, off + fo, ft, e); },
            Val::S(_) => unreachable!(),
        }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let n = self.m.globals.len() as u64;
        let mut mem = Mem::new(n + 1);
        let src = self.m.src.clone();
        for i in 0..self.m.globals.len() {
            let (ty, init, ext, cst) = { let g = &self.m.globals[i]; (g.ty, g.init, g.external, g.is_const) };
            let size = self.m.alloc_size(ty);
            let mut o = Obj { data: vec![0; size.max(if ext { 64 } else { 0 }) as usize], sym: None, kind: GLOBAL, ro: false };
            if !ext {
                let mut c = Cur::new(&src[..init.1], init.0);
                let v = self.m.constant(&mut c, ty);
                self.init_val(&mut o, 0, ty, &v);
            }
            o.ro = cst;
            mem.put(i as u64 + 1, o);
        }
        let f = *self.m.fmap.get(entry).ok_or(format!("no function {}", entry))?;
        let body = self.m.body(f).ok_or("entry has no body")?;
        let fr = Frame { func: f, regs: vec![Val::I(0); body.nregs], body, block: 0, ip: 0, prev: 0, allocas: vec![], ret_dst: None, normal: None };
        let st = State { threads: vec![Thread { cur: fr, stack: vec![], done: false, waiting: None }], tid: 0, mem, pc: vec![], model: vec![], ndraw: 0, inputs: vec![], observes: vec![], panic_ok: false, merge: false, preempt: self.lim.preempt, steps: 0, depth: 0 };
        self.funcs.insert(f);
        self.work.push(st);
        Ok(())
    }

    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.time { self.inconclusive.insert(format!("time limit {} s", self.lim.time)); return; }
            if self.paths >= self.lim.paths { self.inconclusive.insert(format!("path limit {}", self.lim.paths)); return; }
            if self.paths % 256 == 0 && rss_mb() > self.lim.mem_mb { self.inconclusive.insert(format!("memory limit {} MB", self.lim.mem_mb)); return; }
            let stop = self.run_path(&mut st);
            match stop {
                Stop::Done => { self.paths += 1; self.sample(&mut st, false); }
                Stop::Killed => { self.killed += 1; }
                Stop::Violation(k, m) => {
                    self.paths += 1;
                    if k == "panic" && st.panic_ok { self.expected_panics += 1; self.sample(&mut st, true); }
                    else {
                        self.report(&st, &k, &m);
                        if self.lim.stop_at_first && self.violations.len() >= 1 { return; }
                    }
                }
                Stop::Unsupported(m) => {
                    self.paths += 1;
                    let w = self.where_(&st);
                    self.inconclusive.insert(format!("unsupported: {} at {}", m, w.first().cloned().unwrap_or_default()));
                    if self.inconclusive.len() > 5 { return; }
                }
            }
            if let Some(t) = self.first_violation { if !self.violations.is_empty() && t.elapsed().as_secs_f64() > 12.0 { self.inconclusive.insert("stopped 12 s after the first violation".into()); return; } }
            if self.violations.len() >= 12 { self.inconclusive.insert("stopped after 12 distinct violations".into()); return; }
        }
    }
    fn inputs(&self, st: &State) -> Vec<(u128, u8)> { st.inputs.iter().map(|(v, k)| (st.model.get(*v as usize).copied().unwrap_or(0), *k)).collect() }
    fn sample(&mut self, st: &mut State, panicked: bool) {
        if st.depth > self.max_depth { self.max_depth = st.depth; }
        // reservoir by path number, deterministic
        let keep = self.samples.len() < self.lim.samples || { let h = self.paths.wrapping_mul(0x9E3779B97F4A7C15) >> 32; (h % self.paths.max(1)) < self.lim.samples as u64 };
        if !keep || self.lim.samples == 0 { return; }
        let inputs = self.inputs(st);
        let obs = st.observes.clone();
        let observes = obs.iter().map(|v| match v { Val::I(x) => *x, Val::S(e) => self.ex.eval(*e, &st.model), _ => 0 }).collect();
        let s = Sample { inputs, observes, panicked };
        if self.samples.len() < self.lim.samples { self.samples.push(s) } else { let i = ((self.paths.wrapping_mul(0xD1B54A32D192ED03) >> 33) % self.lim.samples as u64) as usize; self.samples[i] = s; }
    }
    pub fn where_(&self, st: &State) -> Vec<String> {
        let t = &st.threads[st.tid];
        let mut v = vec![self.m.funcs[t.cur.func as usize].demangled.clone()];
        for f in t.stack.iter().rev() { v.push(self.m.funcs[f.func as usize].demangled.clone()); }
        v
    }
    fn report(&mut self, st: &State, kind: &str, msg: &str) {
        let stack = self.where_(st);
        let at = stack.iter().find(|s| s.contains("gaoya")).cloned().unwrap_or_else(|| stack[0].clone());
        if self.violations.iter().any(|v| v.kind == kind && v.msg == msg && v.at == at) { return; }
        let inputs = self.inputs(st);
        self.first_violation.get_or_insert_with(Instant::now);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), at, stack, inputs });
    }

    // ---- solver interface ----
    fn slice(&self, pc: &[E], seed: E) -> Vec<E> {
        let nv = self.ex.var_width.len();
        let mut has = vec![false; nv];
        for &v in self.ex.vars[seed as usize].iter() { has[v as usize] = true; }
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = &self.ex.vars[c as usize];
                if vs.iter().any(|&v| has[v as usize]) {
                    used[i] = true;
                    out.push(c);
                    for &v in vs.iter() { if !has[v as usize] { has[v as usize] = true; ch = true; } }
                }
            }
            if !ch { break; }
        }
        out
    }
    /// Satisfiability of pc /\ c. Some(model update) when satisfiable.
    fn feasible(&mut self, pc: &[E], c: E) -> R<Option<Vec<(u32, u128)>>> {
        if let Some(v) = self.ex.konst(c) { return Ok(if v == 1 { Some(vec![]) } else { None }); }
        if self.nomodel { return Err(Stop::Unsupported("a side of a merge needs the solver".into())); }
        let nc = self.ex.not(c);
        if pc.contains(&nc) { return Ok(None); }
        let mut q = self.slice(pc, c);
        q.push(c);
        match self.sv.check(&mut self.ex, &q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsupported("solver returned unknown".into())),
        }
    }
    fn set_model(&self, st: &mut State, m: &[(u32, u128)]) {
        for &(v, x) in m { while st.model.len() <= v as usize { st.model.push(0); } st.model[v as usize] = x; }
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        let n = self.ex.n(c);
        if n.k == K::Const { return; }
        if n.k == K::And { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    /// Takes the side of `c` that the state's model takes, forking the other when feasible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ex.konst(c) { return Ok(v == 1); }
        if st.pc.contains(&c) { return Ok(true); }
        let nc = self.ex.not(c);
        if st.pc.contains(&nc) { return Ok(false); }
        let b = self.ex.eval(c, &st.model) == 1;
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        if std::env::var("SYMEX_DBG").is_ok() { let th = &st.threads[st.tid]; eprintln!("decide in {} block {} ip {} nomodel {} spec {}", self.m.funcs[th.cur.func as usize].name, th.cur.block, th.cur.ip, self.nomodel, self.spec); }
        if let Some(m) = self.feasible(&st.pc, other)? {
            let mut o = st.clone();
            self.set_model(&mut o, &m);
            self.add_pc(&mut o, other);
            o.depth += 1;
            self.forks += 1;
            self.work.push(o);
            st.depth += 1;
            self.add_pc(st, mine);
        }
        Ok(b)
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let e = *e;
                let x = self.ex.eval(e, &st.model);
                let k = self.ex.c(x, self.ex.w(e));
                let q = self.ex.bin(K::Eq, e, k);
                let r = self.decide(st, q)?;
                debug_assert!(r);
                Ok(x)
            }
            Val::A(_) => Err(Stop::Unsupported("aggregate as scalar".into())),
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.ex.konst(c) { return if v == 1 { Ok(()) } else { Err(Stop::Killed) }; }
        if self.ex.eval(c, &st.model) != 1 {
            match self.feasible(&st.pc, c)? { Some(m) => self.set_model(st, &m), None => return Err(Stop::Killed) }
        }
        self.add_pc(st, c);
        Ok(())
    }

    // ---- values ----
    #[inline]
    fn op(&self, fr: &Frame, o: &Op) -> Val { match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() } }
    fn e(&mut self, v: &Val, w: u32) -> E { match v { Val::I(x) => self.ex.c(*x, w), Val::S(e) => *e, _ => unreachable!() } }
    fn v(&self, e: E) -> Val { match self.ex.konst(e) { Some(x) => Val::I(x), None => Val::S(e) } }

    fn load(&mut self, st: &mut State, ty: Ty, addr: u64) -> R<Val> {
        if let Some(n) = self.m.nfields(ty) {
            let mut v = Vec::with_capacity(n);
            if let Type::Vector(_, et) = self.m.types[ty as usize] { if self.m.bits(et) % 8 != 0 { return self.load_bitvec(st, ty, addr, n, self.m.bits(et)); } }
            for i in 0..n { let (o, t) = self.m.field(ty, i as u64); v.push(self.load(st, t, addr + o)?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let n = self.m.store_size(ty) as usize;
        if n > 16 { return Err(Stop::Unsupported(format!("integer load of {} bytes", n))); }
        st.mem.check(addr, n as u64, false).map_err(|m| Stop::Violation("memory".into(), m))?;
        let v = st.mem.read(&mut self.ex, addr, n);
        let b = self.m.bits(ty);
        if b as usize != 8 * n { return Ok(match v { Val::I(x) => Val::I(x & mask(b)), Val::S(e) => { let x = self.ex.extract(e, 0, b); self.v(x) } v => v }); }
        Ok(v)
    }
    fn load_bitvec(&mut self, st: &mut State, ty: Ty, addr: u64, n: usize, b: u32) -> R<Val> {
        let bytes = self.m.store_size(ty) as usize;
        st.mem.check(addr, bytes as u64, false).map_err(|m| Stop::Violation("memory".into(), m))?;
        let v = st.mem.read(&mut self.ex, addr, bytes);
        let mut out = vec![];
        for i in 0..n { out.push(match &v { Val::I(x) => Val::I((x >> (i as u32 * b)) & mask(b)), Val::S(e) => { let x = self.ex.extract(*e, i as u32 * b, b); self.v(x) } _ => unreachable!() }); }
        Ok(Val::A(Rc::new(out)))
    }
    fn store(&mut self, st: &mut State, ty: Ty, addr: u64, v: &Val) -> R<()> {
        if let Some(n) = self.m.nfields(ty) {
            if let Type::Vector(_, et) = self.m.types[ty as usize] { if self.m.bits(et) % 8 != 0 { return Err(Stop::Unsupported("store of bit vector".into())); } }
            let vs = match v { Val::A(x) => x.clone(), _ => return Err(Stop::Unsupported("scalar for aggregate".into())) };
            for i in 0..n { let (o, t) = self.m.field(ty, i as u64); self.store(st, t, addr + o, &vs[i])?; }
            return Ok(());
        }
        let n = self.m.store_size(ty) as usize;
        st.mem.check(addr, n as u64, true).map_err(|m| Stop::Violation("memory".into(), m))?;
        let b = self.m.bits(ty);
        let v2 = match v { Val::S(e) if b as usize != 8 * n => { let x = self.ex.zext(*e, 8 * n as u32); self.v(x) } v => v.clone() };
        st.mem.write(addr, n, &v2);
        Ok(())
    }
    fn table_load(&mut self, st: &mut State, ty: Ty, a: E) -> R<Option<Val>> {
        // Address depends on one small variable: an if-then-else chain over its values.
        let vs = self.ex.vars[a as usize].clone();
        if vs.len() != 1 || self.m.nfields(ty).is_some() { return Ok(None); }
        let var = vs[0];
        let w = self.ex.var_width[var as usize];
        if w > 8 { return Ok(None); }
        let size = self.m.store_size(ty);
        let mut model = st.model.clone();
        while model.len() <= var as usize { model.push(0); }
        let cs: Vec<E> = st.pc.iter().copied().filter(|c| self.ex.vars[*c as usize].len() == 1 && self.ex.vars[*c as usize][0] == var).collect();
        let mut acc: Option<E> = None;
        let mut groups: Vec<(u128, Vec<u128>)> = vec![];
        let bits = self.m.bits(ty);
        let ve = self.ex.var(var, w);
        let mut cases: Vec<(u128, E)> = vec![];
        for x in 0..(1u128 << w) {
            model[var as usize] = x;
            if !cs.iter().all(|c| self.ex.eval(*c, &model) == 1) { continue; }
            let addr = self.ex.eval(a, &model) as u64;
            if st.mem.check(addr, size, false).is_err() { return Ok(None); }
            let val = self.load(st, ty, addr)?;
            let e = self.e(&val, bits);
            cases.push((x, e));
        }
        let _ = &mut groups;
        for (x, e) in cases.into_iter().rev() {
            acc = Some(match acc { None => e, Some(r) => if r == e { r } else { let k = self.ex.c(x, w); let c = self.ex.bin(K::Eq, ve, k); self.ex.ite(c, e, r) } });
        }
        Ok(acc.map(|e| self.v(e)))
    }

    fn bin1(&mut self, st: &mut State, op: Bin, w: u32, dbl: bool, a: &Val, b: &Val) -> R<Val> {
        use Bin::*;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y),
                And => x & y, Or => x | y, Xor => x ^ y,
                UDiv | SDiv | URem | SRem if y == 0 => return Err(Stop::Violation("memory".into(), "division by zero".into())),
                UDiv => x / y, URem => x % y,
                SDiv => Exprs::fold(K::SDiv, w, x, y, w), SRem => Exprs::fold(K::SRem, w, x, y, w),
                Shl => Exprs::fold(K::Shl, w, x, y, w), LShr => Exprs::fold(K::LShr, w, x, y, w), AShr => Exprs::fold(K::AShr, w, x, y, w),
                FAdd | FSub | FMul | FDiv | FRem => if dbl {
                    let (p, q) = (f64b(x), f64b(y));
                    (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits() as u128
                } else {
                    let (p, q) = (f32b(x), f32b(y));
                    (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits() as u128
                },
            };
            return Ok(Val::I(r & mask(w)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let k = match op { Add => K::Add, Sub => K::Sub, Mul => K::Mul, UDiv => K::UDiv, SDiv => K::SDiv, URem => K::URem, SRem => K::SRem, And => K::And, Or => K::Or, Xor => K::Xor, Shl => K::Shl, LShr => K::LShr, AShr => K::AShr, FAdd => K::FAdd, FSub => K::FSub, FMul => K::FMul, FDiv => K::FDiv, FRem => return Err(Stop::Unsupported("symbolic frem".into())) };
        if matches!(k, K::UDiv | K::SDiv | K::URem | K::SRem) {
            let z = self.ex.c(0, w);
            let c = self.ex.bin(K::Eq, y, z);
            if self.decide(st, c)? { return Err(Stop::Violation("memory".into(), "division by zero".into())); }
        }
        let r = if matches!(k, K::FAdd | K::FSub | K::FMul | K::FDiv) { self.ex.fp(k, w, x, y) } else { self.ex.bin(k, x, y) };
        Ok(self.v(r))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Val::I(r as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ex.bin(K::Eq, x, y),
            Pred::Ne => { let e = self.ex.bin(K::Eq, x, y); self.ex.not(e) }
            Pred::Ult => self.ex.bin(K::Ult, x, y),
            Pred::Ugt => self.ex.bin(K::Ult, y, x),
            Pred::Uge => { let e = self.ex.bin(K::Ult, x, y); self.ex.not(e) }
            Pred::Ule => { let e = self.ex.bin(K::Ult, y, x); self.ex.not(e) }
            Pred::Slt => self.ex.bin(K::Slt, x, y),
            Pred::Sgt => self.ex.bin(K::Slt, y, x),
            Pred::Sge => { let e = self.ex.bin(K::Slt, x, y); self.ex.not(e) }
            Pred::Sle => { let e = self.ex.bin(K::Slt, y, x); self.ex.not(e) }
        };
        self.v(r)
    }
    fn fcmp1(&mut self, p: FPred, dbl: bool, a: &Val, b: &Val) -> Val {
        let w = if dbl { 64 } else { 32 };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let nan = { let p = self.ex.fp(K::FNan, 1, x, Exprs::none()); let q = self.ex.fp(K::FNan, 1, y, Exprs::none()); self.ex.bin(K::Or, p, q) };
        let base = |s: &mut Self, k: u8| -> E {
            match k { 0 => s.ex.fp(K::FEq, 1, x, y), 1 => s.ex.fp(K::FLt, 1, y, x), 2 => s.ex.fp(K::FLe, 1, y, x), 3 => s.ex.fp(K::FLt, 1, x, y), 4 => s.ex.fp(K::FLe, 1, x, y), _ => { let q = s.ex.fp(K::FEq, 1, x, y); let n = s.ex.not(q); let nn = s.ex.not(nan); s.ex.bin(K::And, n, nn) } }
        };
        let r = match p {
            FPred::False => self.ex.c(0, 1), FPred::True => self.ex.c(1, 1),
            FPred::Oeq => base(self, 0), FPred::Ogt => base(self, 1), FPred::Oge => base(self, 2), FPred::Olt => base(self, 3), FPred::Ole => base(self, 4), FPred::One => base(self, 5),
            FPred::Ord => self.ex.not(nan), FPred::Uno => nan,
            FPred::Ueq => { let q = base(self, 0); self.ex.bin(K::Or, q, nan) }
            FPred::Ugt => { let q = base(self, 1); self.ex.bin(K::Or, q, nan) }
            FPred::Uge => { let q = base(self, 2); self.ex.bin(K::Or, q, nan) }
            FPred::Ult => { let q = base(self, 3); self.ex.bin(K::Or, q, nan) }
            FPred::Ule => { let q = base(self, 4); self.ex.bin(K::Or, q, nan) }
            FPred::Une => { let q = base(self, 0); self.ex.not(q) }
        };
        self.v(r)
    }
    fn cast1(&mut self, st: &mut State, k: Cast, from: Ty, to: Ty, a: &Val) -> R<Val> {
        let (wf, wt) = (self.m.bits(from), self.m.bits(to));
        let fdbl = self.m.types[from as usize] == Type::Double;
        let tdbl = self.m.types[to as usize] == Type::Double;
        Ok(match k {
            Cast::Bitcast => {
                // vector <-> scalar
                match (self.m.nfields(from), self.m.nfields(to), a) {
                    (None, None, v) => v.clone(),
                    _ => {
                        let x = self.flatten(from, a);
                        self.unflatten(to, x)
                    }
                }
            }
            Cast::PtrToInt | Cast::IntToPtr | Cast::Trunc | Cast::ZExt => match a {
                Val::I(x) => Val::I(x & mask(wt)),
                Val::S(e) => { let r = if wt < wf { self.ex.extract(*e, 0, wt) } else { self.ex.zext(*e, wt) }; self.v(r) }
                _ => return Err(Stop::Unsupported("cast".into())),
            },
            Cast::SExt => match a { Val::I(x) => Val::I((sext(*x, wf) as u128) & mask(wt)), Val::S(e) => { let r = self.ex.sext(*e, wt); self.v(r) } _ => return Err(Stop::Unsupported("cast".into())) },
            Cast::UIToFP | Cast::SIToFP => {
                let x = self.conc(st, a, wf)?;
                if k == Cast::UIToFP { Val::I(if tdbl { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 }) }
                else { let s = sext(x, wf); Val::I(if tdbl { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 }) }
            }
            Cast::FPToUI | Cast::FPToSI => {
                let x = self.conc(st, a, wf)?;
                let d = if fdbl { f64b(x) } else { f32b(x) as f64 };
                Val::I(if k == Cast::FPToUI { crate::expr::f2u(d, wt) } else { crate::expr::f2s(d, wt) })
            }
            Cast::FPExt => { let e = self.e(a, 32); let r = self.ex.fp(K::FCvt, 64, e, Exprs::none()); self.v(r) }
            Cast::FPTrunc => { let e = self.e(a, 64); let r = self.ex.fp(K::FCvt, 32, e, Exprs::none()); self.v(r) }
        })
    }
    fn flatten(&mut self, t: Ty, v: &Val) -> Val {
        match v {
            Val::A(xs) => {
                let et = self.m.elem(t, 0);
                let w = self.m.bits(et);
                let mut acc: Option<E> = None;
                for x in xs.iter().rev() { let e = self.e(x, w); acc = Some(match acc { None => e, Some(a) => self.ex.concat(a, e) }); }
                self.v(acc.unwrap())
            }
            v => v.clone(),
        }
    }
    fn unflatten(&mut self, t: Ty, v: Val) -> Val {
        match self.m.nfields(t) {
            None => v,
            Some(n) => {
                let w = self.m.bits(self.m.elem(t, 0));
                let mut out = vec![];
                for i in 0..n { out.push(match &v { Val::I(x) => Val::I((x >> (i as u32 * w)) & mask(w)), Val::S(e) => { let x = self.ex.extract(*e, i as u32 * w, w); self.v(x) } _ => unreachable!() }); }
                Val::A(Rc::new(out))
            }
        }
    }
    fn select(&mut self, st: &mut State, c: &Val, ty: Ty, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::I(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::A(cs) => {
                let (xa, xb) = match (a, b) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => return Err(Stop::Unsupported("select".into())) };
                let et = self.m.elem(ty, 0);
                let mut out = vec![];
                for i in 0..cs.len() { out.push(self.select(st, &cs[i], et, &xa[i], &xb[i])?); }
                Ok(Val::A(Rc::new(out)))
            }
            Val::S(e) => {
                if let (Val::I(x), Val::I(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                if self.m.types[ty as usize] == Type::Ptr {
                    let t = self.decide(st, *e)?;
                    return Ok(if t { a.clone() } else { b.clone() });
                }
                if let (Val::A(p), Val::A(q)) = (a, b) {
                    let mut out = vec![];
                    for i in 0..p.len() { let et = self.m.elem(ty, i); out.push(self.select(st, c, et, &p[i], &q[i])?); }
                    return Ok(Val::A(Rc::new(out)));
                }
                let w = self.m.bits(ty);
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ex.ite(*e, x, y);
                Ok(self.v(r))
            }
        }
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        let mut s = vec![];
        if st.mem.check(p, n, false).is_err() { return "?".into(); }
        let o = st.mem.get(p >> 32).unwrap();
        let off = (p & 0xffff_ffff) as usize;
        s.extend_from_slice(&o.data[off..off + n as usize]);
        String::from_utf8_lossy(&s).to_string()
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = &mut st.threads[st.tid].cur;
        let from = fr.block;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: [Val; 0] = [];
            let _ = &mut vals;
            let mut tmp = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.inc.iter().find(|(l, _)| *l == from).ok_or_else(|| Stop::Unsupported("phi".into()))?;
                tmp.push(match &o.1 { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() });
            }
            for (p, v) in b.phis.iter().zip(tmp) { fr.regs[p.dst as usize] = v; }
        }
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xfff == 0 {
                if self.t0.elapsed().as_secs_f64() > self.lim.time { self.inconclusive.insert(format!("time limit {} s", self.lim.time)); return Stop::Killed; }
                if let Some(t) = self.first_violation { if !self.violations.is_empty() && t.elapsed().as_secs_f64() > 20.0 { return Stop::Killed; } }
            }
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.lim.steps { return Stop::Violation("hang".into(), format!("no end within {} instructions", self.lim.steps)); }
            match self.step(st) { Ok(()) => {} Err(s) => return s }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let tid = st.tid;
        let body = st.threads[tid].cur.body.clone();
        let (block, ip) = { let f = &st.threads[tid].cur; (f.block, f.ip) };
        let inst = &body.blocks[block as usize].insts[ip as usize];
        macro_rules! fr { () => { st.threads[tid].cur } }
        macro_rules! opv { ($o:expr) => { match $o { Op::Reg(r) => st.threads[tid].cur.regs[*r as usize].clone(), Op::K(v) => v.clone() } } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let f = &mut st.threads[tid].cur; f.regs[$d as usize] = v; f.ip += 1; }} }
        match inst {
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (opv!(a), opv!(b));
                let r = match self.m.types[*ty as usize] {
                    Type::Vector(n, et) => {
                        let (p, q) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => return Err(Stop::Unsupported("vector op".into())) };
                        let w = self.m.bits(et);
                        let dbl = self.m.types[et as usize] == Type::Double;
                        let mut out = vec![];
                        for i in 0..n as usize { out.push(self.bin1(st, *op, w, dbl, &p[i], &q[i])?); }
                        Val::A(Rc::new(out))
                    }
                    ref t => { let dbl = *t == Type::Double; let w = self.m.bits(*ty); self.bin1(st, *op, w, dbl, &x, &y)? }
                };
                set!(*dst, r);
            }
            Inst::FNeg { dst, ty, a } => {
                let x = opv!(a);
                let w = self.m.bits(*ty);
                if w == 0 { return Err(Stop::Unsupported("vector fneg".into())); }
                let r = self.bin1(st, Bin::Xor, w, false, &x, &Val::I(1u128 << (w - 1)))?;
                set!(*dst, r);
            }
            Inst::Icmp { dst, pred, ty, a, b } => {
                let (x, y) = (opv!(a), opv!(b));
                let r = match self.m.types[*ty as usize] {
                    Type::Vector(n, et) => {
                        let (p, q) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p.clone(), q.clone()), _ => return Err(Stop::Unsupported("vector icmp".into())) };
                        let w = self.m.bits(et);
                        Val::A(Rc::new((0..n as usize).map(|i| self.icmp1(*pred, w, &p[i], &q[i])).collect()))
                    }
                    _ => { let w = self.m.bits(*ty); self.icmp1(*pred, w, &x, &y) }
                };
                set!(*dst, r);
            }
            Inst::Fcmp { dst, pred, ty, a, b } => {
                let (x, y) = (opv!(a), opv!(b));
                if self.m.nfields(*ty).is_some() { return Err(Stop::Unsupported("vector fcmp".into())); }
                let dbl = self.m.types[*ty as usize] == Type::Double;
                let r = self.fcmp1(*pred, dbl, &x, &y);
                set!(*dst, r);
            }
            Inst::Cast { dst, kind, from, to, a } => {
                let x = opv!(a);
                let r = match (&self.m.types[*from as usize], &self.m.types[*to as usize], *kind) {
                    (Type::Vector(n, ef), Type::Vector(_, et), k) if k != Cast::Bitcast => {
                        let (n, ef, et) = (*n, *ef, *et);
                        let p = match &x { Val::A(p) => p.clone(), _ => return Err(Stop::Unsupported("vector cast".into())) };
                        let mut out = vec![];
                        for i in 0..n as usize { out.push(self.cast1(st, k, ef, et, &p[i])?); }
                        Val::A(Rc::new(out))
                    }
                    _ => self.cast1(st, *kind, *from, *to, &x)?,
                };
                set!(*dst, r);
            }
            Inst::Load { dst, ty, addr, .. } => {
                let r = match opv!(addr) {
                    Val::I(a) => self.load(st, *ty, a as u64)?,
                    Val::S(e) => match self.table_load(st, *ty, e)? {
                        Some(v) => v,
                        None => { let a = self.conc(st, &Val::S(e), 64)?; self.load(st, *ty, a as u64)? }
                    },
                    _ => return Err(Stop::Unsupported("load".into())),
                };
                set!(*dst, r);
            }
            Inst::Store { ty, val, addr, .. } => {
                let (v, a) = (opv!(val), opv!(addr));
                let a = self.conc(st, &a, 64)?;
                self.store(st, *ty, a as u64, &v)?;
                fr!().ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = opv!(base);
                let mut conc: i64 = *off;
                let mut sym: Option<E> = None;
                for (o, w, scale) in idx {
                    match opv!(o) {
                        Val::I(x) => conc = conc.wrapping_add((sext(x, *w) as i64).wrapping_mul(*scale)),
                        Val::S(e) => {
                            let x = if *w < 64 { self.ex.sext(e, 64) } else if *w > 64 { self.ex.extract(e, 0, 64) } else { e };
                            let s = self.ex.c(*scale as u64 as u128, 64);
                            let t = self.ex.bin(K::Mul, x, s);
                            sym = Some(match sym { None => t, Some(p) => self.ex.bin(K::Add, p, t) });
                        }
                        _ => return Err(Stop::Unsupported("vector gep".into())),
                    }
                }
                let r = match (b, sym) {
                    (Val::I(x), None) => Val::I((x as u64).wrapping_add(conc as u64) as u128),
                    (bv, s) => {
                        let mut e = self.e(&bv, 64);
                        if let Some(s) = s { e = self.ex.bin(K::Add, s, e); }
                        let k = self.ex.c(conc as u64 as u128, 64);
                        let e = self.ex.bin(K::Add, e, k);
                        self.v(e)
                    }
                };
                set!(*dst, r);
            }
            Inst::Alloca { dst, size, count, .. } => {
                let c = opv!(count);
                let c = self.conc(st, &c, 64)?;
                let a = st.mem.alloc(size * c as u64, STACK);
                fr!().allocas.push(a >> 32);
                set!(*dst, Val::I(a as u128));
            }
            Inst::Br(t) => { self.jump(st, *t)?; }
            Inst::CondBr { c, t, f } => {
                if st.merge { if let Val::S(e) = opv!(c) { if self.try_merge(st, e, *t, *f)? { return Ok(()); } } }
                let b = match opv!(c) { Val::I(x) => x & 1 == 1, Val::S(e) => self.decide(st, e)?, _ => return Err(Stop::Unsupported("br".into())) };
                self.jump(st, if b { *t } else { *f })?;
            }
            Inst::Switch { ty, v, default, cases } => {
                let tgt = match opv!(v) {
                    Val::I(x) => cases.iter().find(|(c, _)| *c == x).map(|c| c.1).unwrap_or(*default),
                    Val::S(e) => {
                        let w = self.m.bits(*ty);
                        let x = self.ex.eval(e, &st.model);
                        // test the case of the model first
                        let mut r = None;
                        if let Some((c, l)) = cases.iter().find(|(c, _)| *c == x) {
                            let k = self.ex.c(*c, w);
                            let q = self.ex.bin(K::Eq, e, k);
                            if self.decide(st, q)? { r = Some(*l); }
                        } else {
                            let mut q = self.ex.c(1, 1);
                            for (c, _) in cases { let k = self.ex.c(*c, w); let y = self.ex.bin(K::Eq, e, k); let ny = self.ex.not(y); q = self.ex.bin(K::And, q, ny); }
                            if self.decide(st, q)? { r = Some(*default); }
                        }
                        r.ok_or_else(|| Stop::Unsupported("switch".into()))?
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                };
                self.jump(st, tgt)?;
            }
            Inst::Ret(v) => {
                let val = v.as_ref().map(|(_, o)| opv!(o));
                return self.do_ret(st, val);
            }
            Inst::Select { dst, c, ty, a, b, .. } => {
                let (c, x, y) = (opv!(c), opv!(a), opv!(b));
                let r = self.select(st, &c, *ty, &x, &y)?;
                set!(*dst, r);
            }
            Inst::Extract { dst, a, path } => {
                let mut v = opv!(a);
                for p in path { v = match &v { Val::A(x) => x[*p as usize].clone(), _ => return Err(Stop::Unsupported("extractvalue".into())) }; }
                set!(*dst, v);
            }
            Inst::Insert { dst, a, v, path, .. } => {
                let (mut x, v) = (opv!(a), opv!(v));
                fn ins(x: &mut Val, path: &[u32], v: Val) { if path.is_empty() { *x = v; } else if let Val::A(r) = x { ins(&mut Rc::make_mut(r)[path[0] as usize], &path[1..], v) } }
                ins(&mut x, path, v);
                set!(*dst, x);
            }
            Inst::ExtractElem { dst, a, i, .. } => {
                let (x, i) = (opv!(a), opv!(i));
                let i = self.conc(st, &i, 64)? as usize;
                let v = match &x { Val::A(p) => p.get(i).cloned().unwrap_or(Val::I(0)), _ => return Err(Stop::Unsupported("extractelement".into())) };
                set!(*dst, v);
            }
            Inst::InsertElem { dst, a, v, i, .. } => {
                let (mut x, v, i) = (opv!(a), opv!(v), opv!(i));
                let i = self.conc(st, &i, 64)? as usize;
                if let Val::A(p) = &mut x { Rc::make_mut(p)[i] = v; }
                set!(*dst, x);
            }
            Inst::Shuffle { dst, a, b, mask, .. } => {
                let (x, y) = (opv!(a), opv!(b));
                let (p, q) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p, q), _ => return Err(Stop::Unsupported("shuffle".into())) };
                let n = p.len();
                let out = mask.iter().map(|&k| { let k = k as usize; if k < n { p[k].clone() } else { q.get(k - n).cloned().unwrap_or(Val::I(0)) } }).collect();
                set!(*dst, Val::A(Rc::new(out)));
            }
            Inst::Rmw { dst, op, ty, addr, v } => {
                let (a, v) = (opv!(addr), opv!(v));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load(st, *ty, a)?;
                let w = self.m.bits(*ty);
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => self.bin1(st, Bin::Add, w, false, &old, &v)?,
                    Rmw::Sub => self.bin1(st, Bin::Sub, w, false, &old, &v)?,
                    Rmw::And => self.bin1(st, Bin::And, w, false, &old, &v)?,
                    Rmw::Or => self.bin1(st, Bin::Or, w, false, &old, &v)?,
                    Rmw::Xor => self.bin1(st, Bin::Xor, w, false, &old, &v)?,
                    _ => return Err(Stop::Unsupported("atomicrmw".into())),
                };
                self.store(st, *ty, a, &new)?;
                set!(*dst, old);
            }
            Inst::CmpXchg { dst, ty, addr, cmp, new, .. } => {
                let (a, c, n) = (opv!(addr), opv!(cmp), opv!(new));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load(st, *ty, a)?;
                let w = self.m.bits(*ty);
                let eq = self.icmp1(Pred::Eq, w, &old, &c);
                let ok = self.conc(st, &eq, 1)? == 1;
                if ok { self.store(st, *ty, a, &n)?; }
                set!(*dst, Val::A(Rc::new(vec![old, Val::I(ok as u128)])));
            }
            Inst::Copy { dst, a } => { let v = opv!(a); set!(*dst, v); }
            Inst::Nop => fr!().ip += 1,
            Inst::Unreachable => return Err(Stop::Violation("memory".into(), "reached unreachable code (undefined behaviour)".into())),
            Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
            Inst::Call { dst, ret, callee, args, normal } => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let a = opv!(o);
                        let a = self.conc(st, &a, 64)? as u64;
                        let i = a.wrapping_sub(FN_BASE) / 16;
                        if a < FN_BASE || i >= self.m.funcs.len() as u64 { return Err(Stop::Violation("memory".into(), format!("call through invalid pointer {:#x}", a))); }
                        i as u32
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(opv!(o)); }
                return self.do_call(st, f, *dst, *ret, args, av, *normal);
            }
        }
        Ok(())
    }

    fn do_ret(&mut self, st: &mut State, val: Option<Val>) -> R<()> {
        let tid = st.tid;
        let th = &mut st.threads[tid];
        for a in std::mem::take(&mut th.cur.allocas) { st.mem.free(a); }
        match th.stack.pop() {
            None => {
                th.done = true;
                if tid == 0 { return Err(Stop::Done); }
                for t in st.threads.iter_mut() { if t.waiting == Some(tid) { t.waiting = None; } }
                self.pick(st, true)
            }
            Some(p) => {
                let (d, n) = (th.cur.ret_dst, th.cur.normal);
                th.cur = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                if let (Some(d), Some(v)) = (d, val) { th.cur.regs[d as usize] = v; }
                match n { Some(l) => self.jump(st, l), None => { th.cur.ip += 1; Ok(()) } }
            }
        }
    }
    /// Picks the thread to run next; a choice among several is a symbolic schedule variable.
    fn pick(&mut self, st: &mut State, must: bool) -> R<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|&i| !st.threads[i].done && st.threads[i].waiting.is_none() && (!must || i != st.tid)).collect();
        if run.is_empty() { return Err(Stop::Violation("hang".into(), "all threads blocked".into())); }
        if run.len() == 1 { st.tid = run[0]; return Ok(()); }
        let mut i = 0;
        while i + 1 < run.len() {
            let e = self.draw(st, 1, 1);
            // both values are free: fork here; the clone has taken the other side
            let mut o = st.clone();
            while o.model.len() <= self.ex.var_width.len() { o.model.push(0); }
            let v = self.ex.n(e).a;
            o.model[v as usize] = 1;
            self.add_pc(&mut o, e);
            o.tid = run[i];
            o.depth += 1;
            if o.tid != st.tid && !must { o.preempt -= 1; }
            self.forks += 1;
            self.work.push(o);
            let ne = self.ex.not(e);
            while st.model.len() <= v as usize { st.model.push(0); }
            st.model[v as usize] = 0;
            self.add_pc(st, ne);
            i += 1;
        }
        let n = *run.last().unwrap();
        if n != st.tid && !must { st.preempt -= 1; }
        st.tid = n;
        Ok(())
    }
    fn draw(&mut self, st: &mut State, w: u32, kind: u8) -> E {
        let key = (st.ndraw, w);
        st.ndraw += 1;
        let next = self.vars.len() as u32;
        let id = *self.vars.entry(key).or_insert(next);
        st.inputs.push((id, kind));
        self.ex.var(id, w)
    }

    fn classify(&mut self, f: u32) -> Ext {
        if let Some(k) = self.ext_kind.get(&f) { return *k; }
        let fu = &self.m.funcs[f as usize];
        let n = &fu.name;
        let panic = (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("rust_panic")
            || n.contains("alloc12handle_alloc_error") || n.contains("5alloc5alloc18handle_alloc_error") || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow"))
            && !n.contains("11panic_count") && !n.contains("9panicking5panicking") && !n.contains("get_hook");
        let k = if panic { Ext::Panic } else if fu.text.1 == 0 { Ext::Intrinsic } else { Ext::Body };
        self.ext_kind.insert(f, k);
        k
    }

    fn do_call(&mut self, st: &mut State, f: u32, dst: Option<u32>, ret: Ty, args: &[(Ty, Op)], av: Vec<Val>, normal: Option<u32>) -> R<()> {
        let tid = st.tid;
        match self.classify(f) {
            Ext::Panic => {
                let mut loc = String::new();
                // the location is the last pointer argument: { file ptr, len, line, col }
                for v in av.iter().rev() {
                    if let Val::I(p) = v {
                        let p = *p as u64;
                        if st.mem.check(p, 24, false).is_ok() {
                            let g = |o: u64, n: usize, s: &mut Self| match st.mem.read(&mut s.ex, p + o, n) { Val::I(x) => x as u64, _ => 0 };
                            let (fp, fl, line) = (g(0, 8, self), g(8, 8, self), g(16, 4, self));
                            if fl > 0 && fl < 300 && st.mem.check(fp, fl, false).is_ok() {
                                let s = self.cstr(st, fp, fl);
                                if s.trim_end_matches('\0').ends_with(".rs") { loc = format!("{}:{}", s.trim_end_matches('\0'), line); break; }
                            }
                        }
                    }
                }
                let name = self.m.funcs[f as usize].demangled.clone();
                let kind = if name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") { "abort" } else { "panic" };
                let short = name.split("::").last().unwrap_or("").to_string();
                let short = if short.len() == 17 && short.starts_with('h') { name.rsplit("::").nth(1).unwrap_or("").to_string() } else { short };
                Err(Stop::Violation(kind.into(), format!("{} at {}", short, loc)))
            }
            Ext::Body => {
                let body = match self.m.body(f) { Some(b) => b, None => return Err(Stop::Unsupported("no body".into())) };
                self.funcs.insert(f);
                let mut regs = vec![Val::I(0); body.nregs];
                for (i, v) in av.into_iter().enumerate() { if i < body.params.len() { regs[body.params[i] as usize] = v; } }
                let fr = Frame { func: f, body, block: 0, ip: 0, prev: 0, regs, allocas: vec![], ret_dst: dst, normal };
                let th = &mut st.threads[tid];
                if th.stack.len() > 4000 { return Err(Stop::Violation("hang".into(), "stack overflow".into())); }
                let old = std::mem::replace(&mut th.cur, fr);
                th.stack.push(Rc::new(old));
                Ok(())
            }
            Ext::Intrinsic => {
                let name = self.m.funcs[f as usize].name.clone();
                let r = self.intrinsic(st, &name, ret, args, &av)?;
                let Some(r) = r else { return Ok(()) }; // control already moved
                let th = &mut st.threads[tid];
                if let Some(d) = dst { th.cur.regs[d as usize] = r; }
                // (a thread switch may have happened; the instruction pointer of the caller moves on)
                if tid == st.tid { match normal { Some(l) => self.jump(st, l)?, None => th.cur.ip += 1 } }
                Ok(())
            }
        }
    }

    fn memviol<T>(r: Result<T, String>) -> R<T> { r.map_err(|m| Stop::Violation("memory".into(), m)) }

    fn bcmp(&mut self, st: &mut State, p: u64, q: u64, n: u64, ordered: bool) -> R<Val> {
        if n > 0 { Self::memviol(st.mem.check(p, n, false))?; Self::memviol(st.mem.check(q, n, false))?; }
        // result: 0 when equal; sign of first difference otherwise
        let mut acc: E = self.ex.c(0, 32);
        for i in (0..n).rev() {
            let (a, b) = (st.mem.byte(&mut self.ex, p + i), st.mem.byte(&mut self.ex, q + i));
            if let (Val::I(x), Val::I(y)) = (&a, &b) {
                if x == y { continue; }
                acc = self.ex.c(if x < y { 0xffff_ffff } else { 1 }, 32);
                continue;
            }
            let (x, y) = (self.e(&a, 8), self.e(&b, 8));
            let eq = self.ex.bin(K::Eq, x, y);
            let one = self.ex.c(1, 32);
            let neg = self.ex.c(0xffff_ffff, 32);
            let d = if ordered { let lt = self.ex.bin(K::Ult, x, y); self.ex.ite(lt, neg, one) } else { one };
            acc = self.ex.ite(eq, acc, d);
        }
        Ok(self.v(acc))
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, ret: Ty, args: &[(Ty, Op)], av: &[Val]) -> R<Option<Val>> {
        macro_rules! c { ($i:expr) => {{ let v = av[$i].clone(); let w = self.m.bits(args[$i].0); self.conc(st, &v, w)? }} }
        let unit = Val::I(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n;
            let is = |p: &str| base == p || base.starts_with(&format!("{}.", p));
            if is("memcpy") || is("memmove") || is("memcpy.inline") {
                let (d, s, l) = (c!(0) as u64, c!(1) as u64, c!(2) as u64);
                if l > 0 { Self::memviol(st.mem.check(s, l, false))?; Self::memviol(st.mem.check(d, l, true))?; st.mem.copy(d, s, l as usize); }
                return Ok(Some(unit));
            }
            if is("memset") {
                let (d, l) = (c!(0) as u64, c!(2) as u64);
                if l > 0 { Self::memviol(st.mem.check(d, l, true))?; for i in 0..l { st.mem.write(d + i, 1, &av[1]); } }
                return Ok(Some(unit));
            }
            if is("lifetime") || is("lifetime.start") || is("lifetime.end") || is("experimental.noalias.scope.decl") || is("dbg") || is("invariant.start") || is("invariant.end") || is("prefetch") || is("donothing") || is("sideeffect") || is("var.annotation") || is("fake.use") { return Ok(Some(unit)); }
            if is("assume") {
                // assertion by the compiler: a false one is undefined behaviour
                let v = av[0].clone();
                match v {
                    Val::I(0) => return Err(Stop::Violation("memory".into(), "false llvm.assume (undefined behaviour)".into())),
                    Val::S(e) => { if !self.decide(st, e)? { return Err(Stop::Violation("memory".into(), "false llvm.assume (undefined behaviour)".into())); } }
                    _ => {}
                }
                return Ok(Some(unit));
            }
            if is("expect") || is("expect.with.probability") || is("threadlocal.address") || is("ptrmask") && false || is("launder.invariant.group") || is("annotation") || is("ssa.copy") { return Ok(Some(av[0].clone())); }
            if is("trap") || is("debugtrap") || is("ubsantrap") { return Err(Stop::Violation("abort".into(), "trap".into())); }
            if is("objectsize") || is("stacksave") || is("stackrestore") { return Ok(Some(Val::I(mask(64)))); }
            if is("is.constant") { return Ok(Some(unit)); }
            // vectors of integers: elementwise
            if let (Some(nf), true) = (self.m.nfields(ret), matches!(self.m.types[ret as usize], Type::Vector(..))) {
                if !is("uadd.with.overflow") {
                    let et = self.m.elem(ret, 0);
                    let mut out = vec![];
                    let nargs: Vec<(Ty, Op)> = args.iter().map(|(t, _)| (if self.m.nfields(*t).is_some() { self.m.elem(*t, 0) } else { *t }, Op::K(Val::I(0)))).collect();
                    for i in 0..nf {
                        let vi: Vec<Val> = av.iter().map(|v| match v { Val::A(x) => x[i].clone(), v => v.clone() }).collect();
                        out.push(self.intrinsic(st, name, et, &nargs, &vi)?.unwrap());
                    }
                    return Ok(Some(Val::A(Rc::new(out))));
                }
            }
            let at = args.get(0).map(|a| a.0).unwrap_or(0);
            let w = if args.is_empty() { 0 } else { self.m.bits(at) };
            if is("umin") || is("umax") || is("smin") || is("smax") {
                let p = match &base[..4] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                let c = self.icmp1(p, w, &av[0], &av[1]);
                return Ok(Some(self.select(st, &c, at, &av[0], &av[1])?));
            }
            if is("ctpop") {
                return Ok(Some(match &av[0] { Val::I(x) => Val::I(x.count_ones() as u128), Val::S(e) => { let r = self.popcount(*e); self.v(r) } _ => unreachable!() }));
            }
            if is("cttz") || is("ctlz") {
                let lead = is("ctlz");
                return Ok(Some(match &av[0] {
                    Val::I(x) => Val::I(if *x == 0 { w as u128 } else if lead { (x.leading_zeros() - (128 - w)) as u128 } else { x.trailing_zeros() as u128 }),
                    Val::S(e) => {
                        let e = *e;
                        let mut acc = self.ex.c(w as u128, w);
                        for i in 0..w {
                            // lowest priority first
                            let bit = if lead { i } else { w - 1 - i };
                            let b = self.ex.extract(e, bit, 1);
                            let k = self.ex.c(if lead { w - 1 - bit } else { bit } as u128, w);
                            acc = self.ex.ite(b, k, acc);
                        }
                        self.v(acc)
                    }
                    _ => unreachable!(),
                }));
            }
            if is("bswap") {
                return Ok(Some(match &av[0] {
                    Val::I(x) => Val::I(x.swap_bytes() >> (128 - w)),
                    Val::S(e) => { let mut acc = self.ex.extract(*e, 0, 8); for i in 1..w / 8 { let b = self.ex.extract(*e, 8 * i, 8); acc = self.ex.concat(acc, b); } self.v(acc) }
                    _ => unreachable!(),
                }));
            }
            if is("bitreverse") { let x = c!(0); return Ok(Some(Val::I(x.reverse_bits() >> (128 - w)))); }
            if is("uadd.sat") || is("usub.sat") {
                let add = is("uadd.sat");
                let r = self.bin1(st, if add { Bin::Add } else { Bin::Sub }, w, false, &av[0], &av[1])?;
                let ov = if add { self.icmp1(Pred::Ult, w, &r, &av[0]) } else { self.icmp1(Pred::Ult, w, &av[0], &av[1]) };
                let sat = Val::I(if add { mask(w) } else { 0 });
                return Ok(Some(self.select(st, &ov, at, &sat, &r)?));
            }
            for (p, op, signed) in [("uadd.with.overflow", Bin::Add, false), ("usub.with.overflow", Bin::Sub, false), ("umul.with.overflow", Bin::Mul, false), ("sadd.with.overflow", Bin::Add, true), ("ssub.with.overflow", Bin::Sub, true), ("smul.with.overflow", Bin::Mul, true)] {
                if !is(p) { continue; }
                let r = self.bin1(st, op, w, false, &av[0], &av[1])?;
                let ov = if let (Val::I(x), Val::I(y)) = (&av[0], &av[1]) {
                    let (x, y) = (*x, *y);
                    let o = if signed {
                        let (sx, sy) = (sext(x, w), sext(y, w));
                        let full = match op { Bin::Add => sx.checked_add(sy), Bin::Sub => sx.checked_sub(sy), _ => sx.checked_mul(sy) };
                        let rv = match &r { Val::I(z) => sext(*z, w), _ => 0 };
                        full != Some(rv)
                    } else {
                        match op { Bin::Add => w < 128 && x + y > mask(w) || x.checked_add(y).is_none(), Bin::Sub => x < y, _ => match x.checked_mul(y) { None => true, Some(z) => z > mask(w) } }
                    };
                    Val::I(o as u128)
                } else {
                    // widen (w <= 64)
                    let ew = match op { Bin::Mul => 2 * w, _ => w + 1 };
                    let (x, y) = (self.e(&av[0], w), self.e(&av[1], w));
                    let (x, y) = if signed { (self.ex.sext(x, ew), self.ex.sext(y, ew)) } else { (self.ex.zext(x, ew), self.ex.zext(y, ew)) };
                    if !signed && op == Bin::Add { let rr = self.e(&r, w); let a0 = self.e(&av[0], w); let z = self.ex.bin(K::Ult, rr, a0); self.v(z) }
                    else if !signed && op == Bin::Sub { self.icmp1(Pred::Ult, w, &av[0], &av[1]) }
                    else {
                        let full = self.ex.bin(match op { Bin::Add => K::Add, Bin::Sub => K::Sub, _ => K::Mul }, x, y);
                        let re = self.e(&r, w);
                        let rx = if signed { self.ex.sext(re, ew) } else { self.ex.zext(re, ew) };
                        let eq = self.ex.bin(K::Eq, full, rx);
                        let ne = self.ex.not(eq);
                        self.v(ne)
                    }
                };
                return Ok(Some(Val::A(Rc::new(vec![r, ov]))));
            }
            if is("fshl") || is("fshr") {
                let s = c!(2) % w as u128;
                let (x, y) = (self.e(&av[0], w), self.e(&av[1], w));
                let s = s as u32;
                // the low bits of x above the high bits of y
                let low = if is("fshl") { w - s } else { s };
                let r = if low == 0 { y } else if low == w { x } else {
                    let (h, l) = (self.ex.extract(x, 0, low), self.ex.extract(y, low, w - low));
                    self.ex.concat(h, l)
                };
                return Ok(Some(self.v(r)));
            }
            if is("abs") {
                let z = Val::I(0);
                let n = self.bin1(st, Bin::Sub, w, false, &z, &av[0])?;
                let c = self.icmp1(Pred::Slt, w, &av[0], &z);
                return Ok(Some(self.select(st, &c, at, &n, &av[0])?));
            }
            if is("scmp") || is("ucmp") {
                let s = is("scmp");
                let rw = self.m.bits(ret);
                let lt = self.icmp1(if s { Pred::Slt } else { Pred::Ult }, w, &av[0], &av[1]);
                let gt = self.icmp1(if s { Pred::Sgt } else { Pred::Ugt }, w, &av[0], &av[1]);
                let a = self.select(st, &lt, ret, &Val::I(mask(rw)), &Val::I(0))?;
                return Ok(Some(self.select(st, &gt, ret, &Val::I(1), &a)?));
            }
            if is("fptoui.sat") || is("fptosi.sat") {
                let x = c!(0);
                let d = if self.m.types[at as usize] == Type::Double { f64b(x) } else { f32b(x) as f64 };
                let rw = self.m.bits(ret);
                return Ok(Some(Val::I(if is("fptoui.sat") { crate::expr::f2u(d, rw) } else { crate::expr::f2s(d, rw) })));
            }
            if is("fabs") { let m = Val::I(mask(w) >> 1); return Ok(Some(self.bin1(st, Bin::And, w, false, &av[0], &m)?)); }
            let fargs = args.len();
            if matches!(self.m.types.get(ret as usize), Some(Type::Double) | Some(Type::Float)) && fargs >= 1 {
                let dbl = self.m.types[ret as usize] == Type::Double;
                let mut f = [0f64; 3];
                let mut ints = [0i32; 3];
                for i in 0..fargs.min(3) { let v = c!(i); let t = args[i].0; f[i] = match self.m.types[t as usize] { Type::Double => f64b(v), Type::Float => f32b(v) as f64, _ => { ints[i] = v as u32 as i32; 0.0 } }; }
                let nm = base.split('.').next().unwrap();
                let r = match nm {
                    "floor" => f[0].floor(), "ceil" => f[0].ceil(), "round" => f[0].round(), "trunc" => f[0].trunc(), "sqrt" => f[0].sqrt(), "rint" | "nearbyint" | "roundeven" => f[0].round_ties_even(),
                    "pow" => f[0].powf(f[1]), "powi" => f[0].powi(ints[1]), "exp" => f[0].exp(), "exp2" => f[0].exp2(), "log" => f[0].ln(), "log2" => f[0].log2(), "log10" => f[0].log10(),
                    "fma" | "fmuladd" => f[0].mul_add(f[1], f[2]), "copysign" => f[0].copysign(f[1]), "minnum" | "minimumnum" => f[0].min(f[1]), "maxnum" | "maximumnum" => f[0].max(f[1]), "sin" => f[0].sin(), "cos" => f[0].cos(),
                    _ => return Err(Stop::Unsupported(format!("intrinsic {}", name))),
                };
                return Ok(Some(Val::I(if dbl { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 })));
            }
            if let Some(rest) = base.strip_prefix("vector.reduce.") {
                let op = rest.split('.').next().unwrap();
                let xs = match &av[0] { Val::A(x) => x.clone(), _ => return Err(Stop::Unsupported(name.into())) };
                let et = self.m.elem(at, 0);
                let w = self.m.bits(et);
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match op {
                        "add" => self.bin1(st, Bin::Add, w, false, &acc, x)?, "mul" => self.bin1(st, Bin::Mul, w, false, &acc, x)?, "and" => self.bin1(st, Bin::And, w, false, &acc, x)?, "or" => self.bin1(st, Bin::Or, w, false, &acc, x)?, "xor" => self.bin1(st, Bin::Xor, w, false, &acc, x)?,
                        "umin" | "umax" | "smin" | "smax" => { let p = match op { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt }; let c = self.icmp1(p, w, &acc, x); self.select(st, &c, et, &acc, x)? }
                        _ => return Err(Stop::Unsupported(name.into())),
                    };
                }
                return Ok(Some(acc));
            }
            if base.starts_with("x86.sse2.pmovmskb") {
                let xs = match &av[0] { Val::A(x) => x.clone(), _ => return Err(Stop::Unsupported(name.into())) };
                let mut r = self.ex.c(0, 32);
                for (i, x) in xs.iter().enumerate() { let e = self.e(x, 8); let b = self.ex.extract(e, 7, 1); let z = self.ex.zext(b, 32); let s = self.ex.c(i as u128, 32); let z = self.ex.bin(K::Shl, z, s); r = self.ex.bin(K::Or, r, z); }
                return Ok(Some(self.v(r)));
            }
            if is("load.relative") { return Err(Stop::Unsupported(name.into())); }
            return Err(Stop::Unsupported(format!("intrinsic {}", name)));
        }
        match name {
            // ---- harness interface ----
            _ if self.spec > 0 && name.starts_with("verif_") => Err(Stop::Unsupported("speculation".into())),
            "verif_merge" => { st.merge = c!(0) & 1 == 1; Ok(Some(unit)) }
            "verif_bits" => {
                let w = c!(0) as u32;
                let e = self.draw(st, w, 0);
                let v = self.ex.n(e).a;
                while st.model.len() <= v as usize { st.model.push(0); }
                st.model[v as usize] = 0;
                let z = if w < 64 { self.ex.zext(e, 64) } else { e };
                Ok(Some(Val::S(z)))
            }
            "verif_assume" => {
                match &av[0] {
                    Val::I(x) => if x & 1 == 0 { return Err(Stop::Killed); },
                    Val::S(e) => { let e = *e; let b = if self.ex.w(e) == 1 { e } else { self.ex.extract(e, 0, 1) }; self.assume(st, b)? }
                    _ => {}
                }
                Ok(Some(unit))
            }
            "verif_check" => {
                let (p, l) = (c!(1) as u64, c!(2) as u64);
                let msg = self.cstr(st, p, l);
                self.checks += 1;
                *self.check_msgs.entry(msg.clone()).or_insert(0) += 1;
                match &av[0] {
                    Val::I(x) => if x & 1 == 0 { return Err(Stop::Violation("check".into(), msg)); },
                    Val::S(e) => {
                        let e = *e;
                        let b = if self.ex.w(e) == 1 { e } else { self.ex.extract(e, 0, 1) };
                        if !self.decide(st, b)? { return Err(Stop::Violation("check".into(), msg)); }
                    }
                    _ => {}
                }
                Ok(Some(unit))
            }
            "verif_cover" => {
                let (p, l) = (c!(1) as u64, c!(2) as u64);
                let msg = self.cstr(st, p, l);
                if !self.covers.contains_key(&msg) {
                    match &av[0] {
                        Val::I(x) => if x & 1 == 1 { let i = self.inputs(st); self.covers.insert(msg, i); },
                        Val::S(e) => {
                            let e = *e;
                            let b = if self.ex.w(e) == 1 { e } else { self.ex.extract(e, 0, 1) };
                            if self.ex.eval(b, &st.model) == 1 { let i = self.inputs(st); self.covers.insert(msg, i); }
                            else if let Some(m) = self.feasible(&st.pc.clone(), b)? { let mut o = st.clone(); self.set_model(&mut o, &m); let i = self.inputs(&o); self.covers.insert(msg, i); }
                        }
                        _ => {}
                    }
                }
                Ok(Some(unit))
            }
            "verif_expect_panic" => { st.panic_ok = c!(0) & 1 == 1; Ok(Some(unit)) }
            "verif_observe" => { st.observes.push(av[0].clone()); Ok(Some(unit)) }
            "verif_concretize" => { let x = c!(0); Ok(Some(Val::I(x))) }
            "verif_is_symbolic" => Ok(Some(Val::I(1))),
            "verif_spawn" => {
                let (fp, arg) = (c!(0) as u64, c!(1));
                let f = (fp.wrapping_sub(FN_BASE) / 16) as u32;
                let body = self.m.body(f).ok_or_else(|| Stop::Unsupported("spawn".into()))?;
                self.funcs.insert(f);
                let mut regs = vec![Val::I(0); body.nregs];
                if !body.params.is_empty() { regs[body.params[0] as usize] = Val::I(arg); }
                let fr = Frame { func: f, body, block: 0, ip: 0, prev: 0, regs, allocas: vec![], ret_dst: None, normal: None };
                st.threads.push(Thread { cur: fr, stack: vec![], done: false, waiting: None });
                Ok(Some(Val::I(st.threads.len() as u128 - 1)))
            }
            "verif_join" => {
                let t = c!(0) as usize;
                st.threads[st.tid].cur.ip += 1;
                if !st.threads[t].done { let me = st.tid; st.threads[me].waiting = Some(t); self.pick(st, true)?; }
                Ok(None)
            }
            "verif_yield" => {
                st.threads[st.tid].cur.ip += 1;
                let others = (0..st.threads.len()).any(|i| i != st.tid && !st.threads[i].done && st.threads[i].waiting.is_none());
                if others && st.preempt > 0 { self.pick(st, false)?; }
                Ok(None)
            }
            "verif_block" => {
                let me = st.tid;
                st.threads[me].cur.ip += 1;
                st.threads[me].waiting = Some(usize::MAX);
                self.pick(st, true)?;
                Ok(None)
            }
            "verif_wake" => {
                for t in st.threads.iter_mut() { if t.waiting == Some(usize::MAX) { t.waiting = None; } }
                Ok(Some(unit))
            }
            // ---- C library ----
            "malloc" => { let n = c!(0) as u64; Ok(Some(Val::I(self.alloc(st, n)? as u128))) }
            "calloc" => { let n = c!(0) as u64 * c!(1) as u64; Ok(Some(Val::I(self.alloc(st, n)? as u128))) }
            "aligned_alloc" => { let n = c!(1) as u64; Ok(Some(Val::I(self.alloc(st, n)? as u128))) }
            "posix_memalign" => {
                let (p, n) = (c!(0) as u64, c!(2) as u64);
                let a = self.alloc(st, n)?;
                Self::memviol(st.mem.check(p, 8, true))?;
                st.mem.write(p, 8, &Val::I(a as u128));
                Ok(Some(Val::I(0)))
            }
            "realloc" => {
                let (p, n) = (c!(0) as u64, c!(1) as u64);
                let a = self.alloc(st, n)?;
                if p != 0 {
                    let old = match st.mem.get(p >> 32) { Some(o) if p & 0xffff_ffff == 0 && o.kind == HEAP => o.data.len() as u64, _ => return Err(Stop::Violation("memory".into(), "realloc of an invalid pointer".into())) };
                    st.mem.copy(a, p, old.min(n) as usize);
                    st.mem.free(p >> 32);
                }
                Ok(Some(Val::I(a as u128)))
            }
            "free" => {
                let p = c!(0) as u64;
                if p != 0 {
                    match st.mem.get(p >> 32) { Some(o) if p & 0xffff_ffff == 0 && o.kind == HEAP => {} _ => return Err(Stop::Violation("memory".into(), "free of an invalid pointer (double free)".into())) }
                    st.mem.free(p >> 32);
                }
                Ok(Some(unit))
            }
            "memcmp" => { let (p, q, n) = (c!(0) as u64, c!(1) as u64, c!(2) as u64); Ok(Some(self.bcmp(st, p, q, n, true)?)) }
            "bcmp" => { let (p, q, n) = (c!(0) as u64, c!(1) as u64, c!(2) as u64); Ok(Some(self.bcmp(st, p, q, n, false)?)) }
            "memcpy" | "memmove" => {
                let (d, s, l) = (c!(0) as u64, c!(1) as u64, c!(2) as u64);
                if l > 0 { Self::memviol(st.mem.check(s, l, false))?; Self::memviol(st.mem.check(d, l, true))?; st.mem.copy(d, s, l as usize); }
                Ok(Some(Val::I(d as u128)))
            }
            "memset" => {
                let (d, l) = (c!(0) as u64, c!(2) as u64);
                let b = match &av[1] { Val::I(x) => Val::I(x & 255), Val::S(e) => { let x = self.ex.extract(*e, 0, 8); self.v(x) } _ => unreachable!() };
                if l > 0 { Self::memviol(st.mem.check(d, l, true))?; for i in 0..l { st.mem.write(d + i, 1, &b); } }
                Ok(Some(Val::I(d as u128)))
            }
            "strlen" => {
                let p = c!(0) as u64;
                let mut n = 0;
                loop { Self::memviol(st.mem.check(p + n, 1, false))?; match st.mem.byte(&mut self.ex, p + n) { Val::I(0) => break, Val::I(_) => n += 1, _ => return Err(Stop::Unsupported("strlen of symbolic data".into())) } }
                Ok(Some(Val::I(n as u128)))
            }
            "pow" | "exp" | "log" | "log2" | "floor" | "ceil" | "round" | "sqrt" | "fmod" | "exp2" | "log10" | "trunc" => {
                let a = f64b(c!(0));
                let b = if av.len() > 1 { f64b(c!(1)) } else { 0.0 };
                let r = match name { "pow" => a.powf(b), "exp" => a.exp(), "log" => a.ln(), "log2" => a.log2(), "floor" => a.floor(), "ceil" => a.ceil(), "round" => a.round(), "fmod" => a % b, "exp2" => a.exp2(), "log10" => a.log10(), "trunc" => a.trunc(), _ => a.sqrt() };
                Ok(Some(Val::I(r.to_bits() as u128)))
            }
            "powf" => { let (a, b) = (f32b(c!(0)), f32b(c!(1))); Ok(Some(Val::I(a.powf(b).to_bits() as u128))) }
            "abort" | "exit" | "_exit" => Err(Stop::Violation("abort".into(), name.into())),
            "write" => Ok(Some(Val::I(c!(2)))),
            "getenv" => Ok(Some(Val::I(0))),
            "getpid" => Ok(Some(Val::I(4242))),
            // time passes: every reading is a microsecond and a bit later
            "clock_gettime" => {
                let p = c!(1) as u64;
                Self::memviol(st.mem.check(p, 16, true))?;
                let t = 1_700_000_000_000_000_000u128 + st.steps as u128 * 1_037;
                st.mem.write(p, 8, &Val::I(t / 1_000_000_000));
                st.mem.write(p + 8, 8, &Val::I(t % 1_000_000_000));
                Ok(Some(Val::I(0)))
            }
            _ if name.contains("no_alloc_shim_is_unstable") => Ok(Some(unit)),
            _ => Err(Stop::Unsupported(format!("external function {}", name))),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > (1 << 26) { return Err(Stop::Unsupported(format!("allocation of {} bytes", n))); }
        Ok(st.mem.alloc(n, HEAP))
    }
    /// Immediate post-dominator of every block (u32::MAX: none). Blocks that cannot reach a
    /// return (panics) do not count.
    fn pdom(&mut self, f: u32, body: &Body) -> Rc<Vec<u32>> {
        if let Some(p) = self.pdoms.get(&f) { return p.clone(); }
        let n = body.blocks.len();
        let succ: Vec<Vec<usize>> = body.blocks.iter().map(|b| match b.insts.last() {
            Some(Inst::Br(t)) => vec![*t as usize],
            Some(Inst::CondBr { t, f, .. }) => vec![*t as usize, *f as usize],
            Some(Inst::Switch { default, cases, .. }) => { let mut v: Vec<usize> = cases.iter().map(|c| c.1 as usize).collect(); v.push(*default as usize); v }
            Some(Inst::Call { normal: Some(l), .. }) => vec![*l as usize],
            _ => vec![],
        }).collect();
        let exit: Vec<bool> = body.blocks.iter().map(|b| matches!(b.insts.last(), Some(Inst::Ret(_)))).collect();
        let mut live = exit.clone();
        loop { let mut ch = false; for i in 0..n { if !live[i] && succ[i].iter().any(|&s| live[s]) { live[i] = true; ch = true; } } if !ch { break; } }
        // sets of post-dominators as bit vectors
        let words = n / 64 + 1;
        let mut pd: Vec<Vec<u64>> = (0..n).map(|i| if exit[i] { let mut v = vec![0; words]; v[i / 64] |= 1 << (i % 64); v } else { vec![!0; words] }).collect();
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                if exit[i] || !live[i] { continue; }
                let mut v = vec![!0u64; words];
                for &s in &succ[i] { if live[s] { for k in 0..words { v[k] &= pd[s][k]; } } }
                v[i / 64] |= 1 << (i % 64);
                if v != pd[i] { pd[i] = v; ch = true; }
            }
            if !ch { break; }
        }
        let count = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
        let r: Vec<u32> = (0..n).map(|i| {
            if !live[i] { return u32::MAX; }
            // the strict post-dominator with the most post-dominators itself
            let mut best = (0, u32::MAX);
            for j in 0..n { if j != i && live[j] && pd[i][j / 64] >> (j % 64) & 1 == 1 { let c = count(&pd[j]); if c > best.0 { best = (c, j as u32); } } }
            best.1
        }).collect();
        let r = Rc::new(r);
        self.pdoms.insert(f, r.clone());
        r
    }
    /// Runs both sides of a branch up to where they meet, and joins the two states. Gives up
    /// (false) when a side forks, calls the harness, or the states cannot be joined.
    fn try_merge(&mut self, st: &mut State, c: E, t: u32, f: u32) -> R<bool> {
        let nc = self.ex.not(c);
        if st.pc.contains(&c) || st.pc.contains(&nc) || st.threads.len() != 1 || self.spec > 3 { return Ok(false); }
        let (func, block, depth) = { let th = &st.threads[0]; (th.cur.func, th.cur.block, th.stack.len()) };
        let key = (func, block);
        if self.merge_fail.get(&key).map_or(false, |n| *n >= 3) { return Ok(false); }
        let body = st.threads[0].cur.body.clone();
        let join = self.pdom(func, &body)[block as usize];
        if join == u32::MAX { return Ok(false); }
        let b = self.ex.eval(c, &st.model) == 1;
        let other = if b { nc } else { c };
        // first without asking whether both sides are feasible: that needs no solver, but then
        // a side must not need one either
        let mut m = None;
        if self.merge_fail.get(&key).map_or(true, |n| *n == 0) || self.nomodel {
            if self.merge_sides(st, c, nc, t, f, b, None, &body, join, depth)? { self.merge_fail.insert(key, 0); return Ok(true); }
        }
        if self.nomodel { return Ok(false); }
        if m.is_none() { m = self.feasible(&st.pc, other)?; }
        if m.is_none() { return Ok(false); }
        if self.merge_sides(st, c, nc, t, f, b, m, &body, join, depth)? { self.merge_fail.insert(key, 0); return Ok(true); }
        *self.merge_fail.entry(key).or_insert(0) += 1;
        Ok(false)
    }
    fn merge_sides(&mut self, st: &mut State, c: E, nc: E, t: u32, f: u32, b: bool, m: Option<Vec<(u32, u128)>>, body: &Body, join: u32, depth: usize) -> R<bool> {
        let mut sides: Vec<State> = vec![];
        let saved = self.nomodel;
        self.nomodel |= m.is_none();
        let marks = (self.work.len(), self.violations.len());
        self.spec += 1;
        let mut ok = true;
        for (cond, to, mine) in [(c, t, b), (nc, f, !b)] {
            let mut s = st.clone();
            if !mine { if let Some(m) = &m { self.set_model(&mut s, m); } }
            self.add_pc(&mut s, cond);
            let npc = s.pc.len();
            let mut n = 0;
            let mut r = self.jump(&mut s, to);
            loop {
                if r.is_err() || n > 3000 || s.pc.len() != npc || self.work.len() != marks.0 { ok = false; break; }
                let th = &s.threads[0];
                if th.stack.len() == depth && th.cur.block == join && th.cur.ip == 0 { break; }
                if th.stack.len() < depth { ok = false; break; }
                n += 1;
                self.instrs += 1;
                s.steps += 1;
                r = self.step(&mut s);
            }
            if !ok { break; }
            sides.push(s);
        }
        self.spec -= 1;
        self.nomodel = saved;
        self.work.truncate(marks.0);
        self.violations.truncate(marks.1);
        if ok {
            let y = sides.pop().unwrap();
            let x = sides.pop().unwrap();
            if let Some(s) = self.join_states(st, c, x, y, body, join) {
                *st = s;
                self.merges += 1;
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn join_vals(&mut self, c: E, a: &Val, b: &Val, ty: u32) -> Option<Val> {
        match (a, b) {
            (Val::I(p), Val::I(q)) if p == q => return Some(a.clone()),
            (Val::S(p), Val::S(q)) if p == q => return Some(a.clone()),
            (Val::A(p), Val::A(q)) => {
                let tys: Vec<u32> = match &self.m.types[ty as usize] { Type::Struct(f, _) => f.clone(), _ => return None };
                if tys.len() != p.len() || p.len() != q.len() { return None; }
                let mut v = vec![];
                for i in 0..p.len() { v.push(self.join_vals(c, &p[i], &q[i], tys[i])?); }
                return Some(Val::A(v.into()));
            }
            (Val::A(_), _) | (_, Val::A(_)) => return None,
            _ => {}
        }
        if self.m.types[ty as usize] == Type::Ptr { return None; }
        let w = self.m.bits(ty);
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let r = self.ex.ite(c, ea, eb);
        Some(self.v(r))
    }
    fn join_states(&mut self, base: &State, c: E, mut x: State, y: State, body: &Body, join: u32) -> Option<State> {
        for p in &body.blocks[join as usize].phis {
            let (a, b) = (x.threads[0].cur.regs[p.dst as usize].clone(), y.threads[0].cur.regs[p.dst as usize].clone());
            let same = match (&a, &b) { (Val::I(p), Val::I(q)) => p == q, (Val::S(p), Val::S(q)) => p == q, _ => false };
            if same { continue; }
            let r = self.join_vals(c, &a, &b, p.ty)?;
            x.threads[0].cur.regs[p.dst as usize] = r;
        }
        if !x.mem.join(&mut self.ex, &y.mem, c) { return None; }
        x.pc = base.pc.clone();
        x.model = base.model.clone();
        x.steps = x.steps.max(y.steps);
        Some(x)
    }
    fn popcount(&mut self, e: E) -> E {
        let w = self.ex.w(e);
        let mut acc = self.ex.c(0, w);
        for i in 0..w {
            let b = self.ex.extract(e, i, 1);
            let z = self.ex.zext(b, w);
            acc = self.ex.bin(K::Add, acc, z);
        }
        acc
    }
}

pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).map(|p| p * 4096 >> 20).unwrap_or(0)
}
