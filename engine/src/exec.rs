//! The symbolic interpreter: executes LLVM IR over concrete/symbolic values, forks on feasible branches, and asks the
//! SMT solver whether each fork, memory access and assertion can go wrong.
use crate::expr::{mask, Ctx, Op, X};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { f: u32, body: Rc<Body>, regs: Vec<V>, blk: u32, pc: u32, prev: u32, sbase: usize, rdst: u32, rblk: u32 }
#[derive(Clone)]
pub struct State { top: Frame, rest: Vec<Rc<Frame>>, mem: Mem, cons: Vec<X>, dom: Rc<Vec<[u64; 4]>>, ent: Rc<Vec<bool>>, model: Rc<Vec<u8>>, nvars: u32, known: Rc<Vec<u16>>, steps: u64, obs: Vec<V>, covers: Vec<u32>, nfork: u32 }

pub enum Stop { PathEnd, Infeasible, Violation(String), Error(String), Limit(String) }
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum H { Body, SymBytes, Assume, Assert, Cover, Observe, Param, Conc, Choose, Malloc, Calloc, Realloc, Memalign, Free, Memcpy, Memset, Bcmp, Memcmp, Strlen, Memchr, Panic, Abort, GetRandom, RandomKeys, Ignore0, Fmt, Intr, Unknown, Nomore, IteSel }

pub struct Violation { pub kind: String, pub trace: Vec<String>, pub model: Vec<u8> }
#[derive(Default)]
pub struct Stats { pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub queries: u64, pub cache_hits: u64, pub quick: u64, pub confirmed: u64, pub sat: u64, pub unsat: u64, pub solver_s: f64, pub asserts: u64, pub asserts_trivial: u64, pub max_query_s: f64, pub max_depth: usize, pub conc: u64 }

pub struct Exec {
    pub m: Module, pub cx: Ctx, pub z: Z3,
    pub stack: Vec<State>, pub st: Stats, pub viol: Vec<Violation>, pub covers: BTreeMap<u32, u64>, pub samples: Vec<(Vec<u8>, Vec<u64>)>, pub nsamples: usize, seen: u64, rng: u64,
    pub fns: HashMap<u32, u64>, handlers: Vec<Option<H>>, cache: HashMap<Vec<X>, Option<Rc<Vec<(u32, u8)>>>>,
    pub params: Vec<u64>, pub max_steps: u64, pub deadline: Instant, pub max_paths: u64, pub fork_sites: HashMap<String, u64>, pub profile: bool, pub keep_going: bool,
    pub base: Option<Mem>, pub viol_ids: HashSet<String>, pub assert_ids: BTreeMap<u32, u64>,
    bits_scratch: Vec<u64>,
}

fn and4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn c64(v: u128) -> V { V::C(v as u64) }

impl Exec {
    pub fn new(m: Module, z: Z3) -> Exec {
        let n = m.funcs.len();
        Exec { m, cx: Ctx::new(), z, stack: vec![], st: Stats::default(), viol: vec![], covers: BTreeMap::new(), samples: vec![], nsamples: 64, seen: 0, rng: 1, fns: HashMap::new(), handlers: vec![None; n], cache: HashMap::new(), params: vec![], max_steps: 200_000_000, deadline: Instant::now() + std::time::Duration::from_secs(3600), max_paths: u64::MAX, fork_sites: HashMap::new(), profile: false, keep_going: false, base: None, viol_ids: HashSet::new(), assert_ids: BTreeMap::new(), bits_scratch: vec![] }
    }
    pub fn set_seed(&mut self, s: u64) { self.rng = s.wrapping_mul(0x9E3779B97F4A7C15) | 1; }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    fn init_globals(&mut self) -> Result<Mem, String> {
        let mut mem = Mem::new();
        for i in 0..self.m.globals.len() {
            let (v, size, constant, addr) = { let g = &self.m.globals[i]; (g.v, g.size, g.constant, g.addr) };
            let mut o = Obj::new(size as usize);
            let init = unsafe { (self.m.init(v), ()) }.0;
            if let Some((iv, ty)) = init {
                match self.m.konst(&mut self.cx, iv) { Ok(val) => self.flat(&mut o, 0, &val, &ty), Err(e) => { if self.profile { eprintln!("global {}: {}", self.m.globals[i].name, e); } } }
            }
            o.ro = constant;
            let a = mem.alloc(o);
            assert_eq!(a, addr);
        }
        Ok(mem)
    }
    fn flat(&mut self, o: &mut Obj, off: usize, v: &V, ty: &Ty) {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => { let n = ty.store_size() as usize; let k = match v { V::C(c) => *c as u128, V::X(x) => self.cx.cv(*x).unwrap(), _ => 0 }; for i in 0..n { o.b[off + i] = (k >> (8 * i)) as u8; } }
            Ty::Arr(_, e, s) => if let V::A(a) = v { for (i, x) in a.iter().enumerate() { self.flat(o, off + i * *s as usize, x, e); } },
            Ty::Vec(_, e) => if let V::A(a) = v { let s = e.store_size() as usize; for (i, x) in a.iter().enumerate() { self.flat(o, off + i * s, x, e); } },
            Ty::Struct(s) => if let V::A(a) = v { for (i, x) in a.iter().enumerate() { self.flat(o, off + s.1[i] as usize, x, &s.0[i]); } },
            _ => {}
        }
    }
    fn frame(&mut self, f: u32, args: Vec<V>, sbase: usize, rdst: u32, rblk: u32) -> Frame {
        *self.fns.entry(f).or_insert(0) += 1;
        let body = self.m.body(&mut self.cx, f);
        let mut regs = args; regs.truncate(body.nparams); regs.resize(body.nregs, V::C(0));
        Frame { f, body, regs, blk: 0, pc: 0, prev: 0, sbase, rdst, rblk }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = self.m.find_fn(entry).ok_or(format!("no function {}", entry))?;
        if self.base.is_none() { let b = self.init_globals()?; self.base = Some(b); }
        let mem = self.base.clone().unwrap();
        let top = self.frame(f, vec![], 0, u32::MAX, u32::MAX);
        self.stack.push(State { top, rest: vec![], mem, cons: vec![], dom: Rc::new(vec![]), ent: Rc::new(vec![]), model: Rc::new(vec![]), nvars: 0, known: Rc::new(vec![]), steps: 0, obs: vec![], covers: vec![], nfork: 0 });
        Ok(())
    }
    /// explores everything; Err = inconclusive
    pub fn explore(&mut self) -> Result<(), String> {
        let mut last = Instant::now();
        while let Some(mut s) = self.stack.pop() {
            if Instant::now() > self.deadline { return Err("time limit".into()); }
            if self.st.paths >= self.max_paths { return Err("path limit".into()); }
            let s0 = s.steps;
            let r = self.run(&mut s);
            self.st.steps += s.steps - s0;
            if self.profile && last.elapsed().as_secs() >= 5 { last = Instant::now(); eprintln!("paths {} stack {} steps {} queries {} hits {} solver {:.1}s nodes {}", self.st.paths, self.stack.len(), self.st.steps, self.st.queries, self.st.cache_hits, self.st.solver_s, self.cx.n.len()); }
            match r {
                Stop::PathEnd => {
                    self.st.paths += 1;
                    for c in s.covers.clone() { *self.covers.entry(c).or_insert(0) += 1; }
                    self.sample(&s);
                }
                Stop::Infeasible => { self.st.infeasible += 1; }
                Stop::Violation(k) => {
                    self.st.paths += 1;
                    let v = self.violation(&s, k);
                    let id = format!("{} {}", v.kind, v.trace.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                    if self.viol_ids.insert(id) { self.viol.push(v); }
                    if !self.keep_going { return Ok(()); }
                }
                Stop::Limit(e) => { let v = self.violation(&s, format!("limit: {}", e)); self.viol.push(v); return Err(e); }
                Stop::Error(e) => { let t = self.trace(&s); return Err(format!("{} at {}", e, t.join(" < "))); }
            }
        }
        Ok(())
    }
    fn sample(&mut self, s: &State) {
        if self.nsamples == 0 { return; }
        self.seen += 1;
        let slot = if self.samples.len() < self.nsamples { self.samples.len() } else { let k = (self.rnd() % self.seen) as usize; if k >= self.nsamples { return; } k };
        let mut ob = vec![];
        for o in &s.obs { ob.push(match o { V::C(c) => *c, V::X(x) => self.cx.eval(*x, &s.model) as u64, _ => 0 }); }
        let mut m = (*s.model).clone(); m.resize(s.nvars as usize, 0);
        if slot == self.samples.len() { self.samples.push((m, ob)); } else { self.samples[slot] = (m, ob); }
    }
    fn trace(&self, s: &State) -> Vec<String> {
        let one = |f: &Frame| { let b = &f.body.blocks[f.blk as usize]; let i = (f.pc as usize).min(b.insts.len() - 1); format!("{} @ {}", self.m.funcs[f.f as usize].name, self.m.loc(b.insts[i].src)) };
        let mut v = vec![one(&s.top)];
        for f in s.rest.iter().rev() { v.push(one(f)); }
        v
    }
    fn violation(&mut self, s: &State, kind: String) -> Violation {
        let mut m = (*s.model).clone(); m.resize(s.nvars as usize, 0);
        Violation { kind, trace: self.trace(s), model: m }
    }

    // ---------------------------------------------------------------- solver
    /// constraints of the path that share input bytes (transitively) with `x`
    fn slice(&mut self, s: &State, x: X) -> (Vec<X>, Vec<u32>) {
        let nw = (s.nvars as usize + 63) / 64;
        let mut bits = std::mem::take(&mut self.bits_scratch); bits.clear(); bits.resize(nw, 0);
        let mut vars: Vec<u32> = vec![];
        for &v in self.cx.vars(x).iter() { bits[v as usize / 64] |= 1 << (v % 64); vars.push(v); }
        let mut out = vec![]; let mut todo: Vec<X> = s.cons.clone();
        loop {
            let mut changed = false; let mut rest = Vec::with_capacity(todo.len());
            for c in todo {
                let vs = self.cx.vars(c);
                if vs.iter().any(|v| bits[*v as usize / 64] >> (v % 64) & 1 == 1) {
                    for &v in vs.iter() { let w = &mut bits[v as usize / 64]; if *w >> (v % 64) & 1 == 0 { *w |= 1 << (v % 64); vars.push(v); changed = true; } }
                    out.push(c);
                } else { rest.push(c); }
            }
            todo = rest;
            if !changed { break; }
        }
        self.bits_scratch = bits;
        for &v in &vars { let d = s.dom[v as usize]; let c = self.cx.in_set(v, &d); if c != self.cx.tru { out.push(c); } }
        (out, vars)
    }
    /// three-valued evaluation of a condition from the single-byte domains of the path
    fn decide(&mut self, s: &State, x: X, depth: u32) -> Option<bool> {
        let n = self.cx.node(x);
        if n.op == Op::Const { return Some(n.k == 1); }
        let vs = self.cx.vars(x);
        if vs.len() == 1 { let d = s.dom[vs[0] as usize]; if d == [!0u64; 4] { return None; } let t = self.cx.truth(x); let i = and4(&t, &d); return if i == [0; 4] { Some(false) } else if i == d { Some(true) } else { None }; }
        if depth == 0 { return None; }
        match n.op {
            Op::Not => self.decide(s, n.a, depth - 1).map(|b| !b),
            Op::And => match self.decide(s, n.a, depth - 1) { Some(false) => Some(false), p => match (p, self.decide(s, n.b, depth - 1)) { (_, Some(false)) => Some(false), (Some(true), q) => q, _ => None } },
            Op::Or => match self.decide(s, n.a, depth - 1) { Some(true) => Some(true), p => match (p, self.decide(s, n.b, depth - 1)) { (_, Some(true)) => Some(true), (Some(false), q) => q, _ => None } },
            Op::Ite if n.w == 1 => match self.decide(s, n.a, depth - 1) { Some(true) => self.decide(s, n.b, depth - 1), Some(false) => self.decide(s, n.c, depth - 1), None => None },
            Op::Eq | Op::Ult | Op::Slt => {
                // fold conditional operands whose condition is already settled
                let (a, b) = (self.settle(s, n.a), self.settle(s, n.b));
                if a == n.a && b == n.b { return None; }
                let y = match n.op { Op::Eq => self.cx.eq(a, b), Op::Ult => self.cx.ult(a, b), _ => self.cx.slt(a, b) };
                self.decide(s, y, depth - 1)
            }
            _ => None,
        }
    }
    /// a condition the domain procedure found impossible: the SMT solver has to agree (once per distinct question)
    fn confirm(&mut self, s: &State, x: X) -> R<()> {
        if self.cx.cv(x).is_some() { return Ok(()); }
        let vs = self.cx.vars(x);
        let mut key: Vec<X> = vec![x];
        for &v in vs.iter() { let c = self.cx.in_set(v, &s.dom[v as usize]); if c != self.cx.tru { key.push(c); } }
        key.sort_unstable(); key.dedup();
        if let Some(r) = self.cache.get(&key) { if r.is_none() { return Ok(()); } }
        let t = Instant::now();
        if t > self.deadline { return Err(Stop::Error("time limit".into())); }
        let r = self.z.check(&mut self.cx, &key, &[]);
        let dt = t.elapsed().as_secs_f64(); self.st.solver_s += dt; self.st.queries += 1; self.st.confirmed += 1; if dt > self.st.max_query_s { self.st.max_query_s = dt; }
        match r { Res::Unsat => { self.st.unsat += 1; self.cache.insert(key, None); Ok(()) } Res::Sat(_) => Err(Stop::Error("the SMT solver contradicts the domain procedure".into())), Res::Unknown(e) => Err(Stop::Error(format!("solver: {}", e))) }
    }
    fn settle(&mut self, s: &State, mut x: X) -> X {
        loop {
            let n = self.cx.node(x);
            match n.op {
                Op::Ite => match self.decide(s, n.a, 4) { Some(true) => x = n.b, Some(false) => x = n.c, None => return x },
                Op::ZExt => { let a = self.settle(s, n.a); return if a == n.a { x } else { self.cx.zext(a, n.w as u32) }; }
                _ => return x,
            }
        }
    }
    fn fresh(s: &mut State) -> u32 { let id = s.nvars; s.nvars += 1; Rc::make_mut(&mut s.known).push(0xffff); Rc::make_mut(&mut s.dom).push([!0; 4]); Rc::make_mut(&mut s.ent).push(false); id }
    /// is the path condition plus `x` satisfiable? Some(model) if so
    fn feasible(&mut self, s: &State, x: X) -> R<Option<Rc<Vec<u8>>>> { self.feasible2(s, x, false) }
    fn feasible2(&mut self, s: &State, x: X, force: bool) -> R<Option<Rc<Vec<u8>>>> {
        if x == self.cx.tru { return Ok(Some(s.model.clone())); }
        if x == self.cx.fls { return Ok(None); }
        if self.cx.eval(x, &s.model) == 1 { return Ok(Some(s.model.clone())); }
        if !force { match self.decide(s, x, 12) { Some(false) => { self.st.quick += 1; self.confirm(s, x)?; return Ok(None); } Some(true) => return Err(Stop::Error("domain and model disagree".into())), None => {} } }
        let vs = self.cx.vars(x);
        if vs.len() == 1 && !force {
            // a predicate over one input byte: decided on the byte's domain when nothing else constrains the byte
            let v = vs[0] as usize; let t = self.cx.truth(x); let d = s.dom[v]; let i = and4(&t, &d);
            let mut m = (*s.model).clone(); m.resize(s.nvars as usize, 0);
            let mut tried = 0;
            for b in 0..256usize { if i[b >> 6] >> (b & 63) & 1 == 0 { continue; }
                m[v] = b as u8;
                if !s.ent[v] { self.st.quick += 1; return Ok(Some(Rc::new(m))); }
                let r = Rc::new(m.clone());
                if s.cons.iter().all(|&c| !self.cx.vars(c).contains(&(v as u32)) || self.cx.eval(c, &r) == 1) { self.st.quick += 1; return Ok(Some(r)); }
                tried += 1; if tried >= 6 { break; }
            }
        }
        let nx = self.cx.not(x);
        if !force { for &c in &s.cons { if c == nx { return Ok(None); } } }
        let (mut key, vars) = self.slice(s, x);
        key.push(x); key.sort_unstable(); key.dedup();
        let r = if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; r.clone() } else {
            let t = Instant::now();
            if t > self.deadline { return Err(Stop::Error("time limit".into())); }
            let r = self.z.check(&mut self.cx, &key, &vars);
            let dt = t.elapsed().as_secs_f64(); self.st.solver_s += dt; self.st.queries += 1; if dt > self.st.max_query_s { self.st.max_query_s = dt; }
            if self.profile && std::env::var("SYMX_SHOW").is_ok() { let tr = self.trace(s); eprintln!("Q {:.4} conj {} size {} vars {:?} at {}\n   {}", dt, key.len(), self.cx.size(x), vars, tr[0], self.cx.show(x, 9)); }
            if self.profile && dt > 2.0 { let tr = self.trace(s); eprintln!("slow query {:.1}s conj {} at {}", dt, key.len(), tr.iter().take(3).cloned().collect::<Vec<_>>().join(" < ")); }
            let r = match r { Res::Sat(m) => { self.st.sat += 1; Some(Rc::new(m)) } Res::Unsat => { self.st.unsat += 1; None } Res::Unknown(e) => return Err(Stop::Error(format!("solver: {}", e))) };
            if self.cache.len() > 2_000_000 { self.cache.clear(); }
            self.cache.insert(key.clone(), r.clone());
            r
        };
        Ok(match r { None => None, Some(p) => {
            let mut m = (*s.model).clone(); m.resize(s.nvars as usize, 0);
            for &(v, b) in p.iter() { m[v as usize] = b; }
            let m = Rc::new(m);
            // self-check: the model must satisfy what was asked (guards the encoding against itself)
            for k in key { if self.cx.eval(k, &m) != 1 { return Err(Stop::Error("solver model does not satisfy the query".into())); } }
            Some(m)
        } })
    }
    fn add(&mut self, s: &mut State, x: X) {
        if x == self.cx.tru { return; }
        let n = self.cx.node(x);
        if n.op == Op::And { self.add(s, n.a); self.add(s, n.b); return; }
        if n.op == Op::Not { let m = self.cx.node(n.a); if m.op == Op::Or { let p = self.cx.not(m.a); let q = self.cx.not(m.b); self.add(s, p); self.add(s, q); return; } }
        let vs = self.cx.vars(x);
        if vs.len() == 1 {
            let v = vs[0] as usize; let t = self.cx.truth(x); let d = and4(&t, &s.dom[v]);
            if d != s.dom[v] { Rc::make_mut(&mut s.dom)[v] = d; if d.iter().map(|w| w.count_ones()).sum::<u32>() == 1 { let b = (0..256).find(|b| d[b >> 6] >> (b & 63) & 1 == 1).unwrap(); Rc::make_mut(&mut s.known)[v] = b as u16; } }
            return;
        }
        for &v in vs.iter() { if !s.ent[v as usize] { Rc::make_mut(&mut s.ent)[v as usize] = true; } }
        if !s.cons.contains(&x) { s.cons.push(x); }
    }
    /// pushes a sibling state constrained by `x` (re-executing the current instruction)
    fn sibling(&mut self, s: &State, x: X, model: Rc<Vec<u8>>) {
        let mut t = s.clone(); t.model = model; t.nfork += 1; self.add(&mut t, x);
        self.st.forks += 1;
        if self.profile { let tr = self.trace(s); *self.fork_sites.entry(tr.iter().take(2).cloned().collect::<Vec<_>>().join(" < ")).or_insert(0) += 1; }
        self.stack.push(t);
        let d = self.stack.len(); if d > self.st.max_depth { self.st.max_depth = d; }
    }
    /// decides a branch condition, forking if both ways are feasible
    fn branch(&mut self, s: &mut State, c: X) -> R<bool> {
        if let Some(k) = self.cx.cv(c) { return Ok(k == 1); }
        let way = self.cx.eval(c, &s.model) == 1;
        let (yes, no) = if way { (c, self.cx.not(c)) } else { (self.cx.not(c), c) };
        if let Some(m) = self.feasible(s, no)? { self.sibling(s, no, m); self.add(s, yes); }
        // if the other way is infeasible the condition is implied: no need to record it
        Ok(way)
    }
    fn conc(&mut self, s: &mut State, v: &V, w: u32) -> R<u64> {
        match v { V::C(c) => Ok(*c), V::X(x) => {
            if let Some(k) = self.cx.cv(*x) { return Ok(k as u64); }
            self.st.conc += 1;
            let k = self.cx.eval(*x, &s.model);
            let kx = self.cx.k(w, k); let e = self.cx.eq(*x, kx); let ne = self.cx.not(e);
            if let Some(m) = self.feasible(s, ne)? { self.sibling(s, ne, m); self.add(s, e); }
            Ok(k as u64)
        } _ => Err(Stop::Error("conc of aggregate".into())) }
    }

    // ---------------------------------------------------------------- values
    fn x(&mut self, v: &V, w: u32) -> X { match v { V::C(c) => self.cx.k(w, *c as u128), V::X(x) => *x, V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, x: X) -> V { let n = &self.cx.n[x as usize]; if n.op == Op::Const && n.w <= 64 { V::C(n.k as u64) } else { V::X(x) } }
    fn bit(&mut self, v: &V) -> X { self.x(v, 1) }

    fn bin(&mut self, b: B, w: u32, p: &V, q: &V) -> V {
        if let (V::C(a), V::C(c)) = (p, q) { if w <= 64 {
            let (a, c) = (*a, *c); let m = mask(w) as u64; let sh = 64 - w; let (sa, sc) = (((a << sh) as i64) >> sh, ((c << sh) as i64) >> sh);
            let r = match b {
                B::Add => a.wrapping_add(c), B::Sub => a.wrapping_sub(c), B::Mul => a.wrapping_mul(c),
                B::And => a & c, B::Or => a | c, B::Xor => a ^ c,
                B::Shl => if c >= w as u64 { 0 } else { a << c }, B::LShr => if c >= w as u64 { 0 } else { a >> c }, B::AShr => (sa >> c.min(w as u64 - 1)) as u64,
                B::UDiv => if c == 0 { m } else { a / c }, B::URem => if c == 0 { a } else { a % c },
                B::SDiv => if c == 0 { m } else { sa.wrapping_div(sc) as u64 }, B::SRem => if c == 0 { a } else { sa.wrapping_rem(sc) as u64 },
                _ => { let op = fop(b); let (x, y) = (self.cx.k(w, a as u128), self.cx.k(w, c as u128)); let r = self.cx.fop(op, w, x, y, 0); return self.v(r); }
            };
            return V::C(r & m);
        } }
        let (x, y) = (self.x(p, w), self.x(q, w));
        let op = match b { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, _ => { let r = self.cx.fop(fop(b), w, x, y, 0); return self.v(r); } };
        let r = self.cx.bin(op, x, y); self.v(r)
    }
    fn map2(&mut self, ty: &Ty, p: &V, q: &V, f: &mut dyn FnMut(&mut Exec, u32, &V, &V) -> V) -> V {
        match (ty, p, q) {
            (Ty::Vec(_, e), V::A(a), V::A(b)) => { let w = e.w(); V::A(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| f(self, w, x, y)).collect())) }
            _ => f(self, ty.w(), p, q),
        }
    }
    fn map1(&mut self, ty: &Ty, p: &V, f: &mut dyn FnMut(&mut Exec, u32, &V) -> V) -> V {
        match (ty, p) { (Ty::Vec(_, e), V::A(a)) => { let w = e.w(); V::A(Rc::new(a.iter().map(|x| f(self, w, x)).collect())) } _ => f(self, ty.w(), p) }
    }
    fn icmp(&mut self, pred: i32, w: u32, p: &V, q: &V) -> V {
        if let (V::C(a), V::C(c)) = (p, q) { if w <= 64 {
            let (a, c) = (*a, *c); let sh = 64 - w; let (sa, sc) = (((a << sh) as i64) >> sh, ((c << sh) as i64) >> sh);
            let r = match pred { 32 => a == c, 33 => a != c, 34 => a > c, 35 => a >= c, 36 => a < c, 37 => a <= c, 38 => sa > sc, 39 => sa >= sc, 40 => sa < sc, _ => sa <= sc };
            return V::C(r as u64);
        } }
        let (x, y) = (self.x(p, w), self.x(q, w));
        let c = &mut self.cx;
        let r = match pred { 32 => c.eq(x, y), 33 => { let t = c.eq(x, y); c.not(t) } 34 => c.ult(y, x), 35 => c.ule(y, x), 36 => c.ult(x, y), 37 => c.ule(x, y), 38 => c.slt(y, x), 39 => c.sle(y, x), 40 => c.slt(x, y), _ => c.sle(x, y) };
        self.v(r)
    }
    fn fcmp(&mut self, pred: i32, w: u32, p: &V, q: &V) -> V {
        let (x, y) = (self.x(p, w), self.x(q, w));
        let c = &mut self.cx;
        let uno = |c: &mut Ctx| c.fop(Op::FUno, 1, x, y, 0);
        let base = |c: &mut Ctx, k: i32| -> X { match k { 1 => c.fop(Op::FEq, 1, x, y, 0), 2 => c.fop(Op::FLt, 1, y, x, 0), 3 => c.fop(Op::FLe, 1, y, x, 0), 4 => c.fop(Op::FLt, 1, x, y, 0), 5 => c.fop(Op::FLe, 1, x, y, 0), _ => { let e = c.fop(Op::FEq, 1, x, y, 0); let u = c.fop(Op::FUno, 1, x, y, 0); let t = c.bin(Op::Or, e, u); c.not(t) } } };
        let r = match pred { 0 => c.fls, 15 => c.tru, 7 => { let u = uno(c); c.not(u) } 8 => uno(c), 1..=6 => base(c, pred), _ => { let b = base(c, pred - 8); let u = uno(c); c.bin(Op::Or, b, u) } };
        self.v(r)
    }
    /// bits of any value, for bitcasts; first element = least significant
    fn bits(&mut self, ty: &Ty, v: &V) -> X {
        match (ty, v) {
            (Ty::Vec(_, e), V::A(a)) => { let w = e.w(); let mut r = self.x(&a[0], w); for i in 1..a.len() { let h = self.x(&a[i], w); r = self.cx.concat(h, r); } r }
            _ => self.x(v, ty.w()),
        }
    }
    fn unbits(&mut self, ty: &Ty, x: X) -> V {
        match ty { Ty::Vec(n, e) => { let w = e.w(); let v = (0..*n).map(|i| { let t = self.cx.extract(x, i * w, w); self.v(t) }).collect(); V::A(Rc::new(v)) } _ => self.v(x) }
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: &V) -> V {
        if k == CastK::Bits {
            match (from, to) { (Ty::Vec(..), _) | (_, Ty::Vec(..)) => { let b = self.bits(from, v); return self.unbits(to, b); }
                _ => { let (fw, tw) = (from.w(), to.w()); if fw == tw { return v.clone(); } return if fw > tw { self.cast(CastK::Trunc, from, to, v) } else { self.cast(CastK::ZExt, from, to, v) }; } }
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), V::A(a)) = (from, to, v) { return V::A(Rc::new(a.iter().map(|x| self.cast(k, fe, te, x)).collect())); }
        let (fw, tw) = (from.w(), to.w());
        if let V::C(c) = v { if fw <= 64 && tw <= 64 { match k { CastK::Trunc => return V::C(c & mask(tw) as u64), CastK::ZExt => return V::C(*c), CastK::SExt => { let sh = 64 - fw; return V::C(((((c << sh) as i64) >> sh) as u64) & mask(tw) as u64); } _ => {} } } }
        let x = self.x(v, fw);
        let r = match k { CastK::Trunc => self.cx.extract(x, 0, tw), CastK::ZExt => self.cx.zext(x, tw), CastK::SExt => self.cx.sext(x, tw),
            CastK::FToU => self.cx.fop(Op::FToU, tw, x, 0, 0), CastK::FToS => self.cx.fop(Op::FToS, tw, x, 0, 0), CastK::UToF => self.cx.fop(Op::UToF, tw, x, 0, 0), CastK::SToF => self.cx.fop(Op::SToF, tw, x, 0, 0),
            CastK::FTrunc | CastK::FExt => self.cx.fop(Op::FToF, tw, x, 0, 0), CastK::Bits => unreachable!() };
        self.v(r)
    }
    fn select(&mut self, c: X, ty: &Ty, a: &V, b: &V) -> V {
        if let Some(k) = self.cx.cv(c) { return if k == 1 { a.clone() } else { b.clone() }; }
        match (ty, a, b) {
            (Ty::Vec(_, e), V::A(p), V::A(q)) => V::A(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| self.select(c, e, x, y)).collect())),
            (Ty::Arr(_, e, _), V::A(p), V::A(q)) => V::A(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| self.select(c, e, x, y)).collect())),
            (Ty::Struct(s), V::A(p), V::A(q)) => V::A(Rc::new((0..p.len()).map(|i| self.select(c, &s.0[i], &p[i], &q[i])).collect())),
            _ => { let w = ty.w(); let (x, y) = (self.x(a, w), self.x(b, w)); let r = self.cx.ite(c, x, y); self.v(r) }
        }
    }

    // ---------------------------------------------------------------- memory
    fn byte(&mut self, s: &State, o: &Obj, i: usize) -> X {
        if let Some(sy) = &o.s { let x = sy[i]; if x != 0 { let n = self.cx.node(x); if n.op == Op::Var { let k = s.known[n.k as usize]; if k != 0xffff { return self.cx.k(8, k as u128); } } return x; } }
        self.cx.k(8, o.b[i] as u128)
    }
    fn load_at(&mut self, s: &State, o: &Rc<Obj>, off: usize, n: usize, w: u32) -> V {
        let conc = match &o.s { None => true, Some(sy) => sy[off..off + n].iter().all(|&x| x == 0) };
        if conc && n <= 8 { let mut k = 0u64; for i in (0..n).rev() { k = k << 8 | o.b[off + i] as u64; } return V::C(if w < 64 { k & mask(w) as u64 } else { k }); }
        let mut r = self.byte(s, o, off);
        for i in 1..n { let h = self.byte(s, o, off + i); r = self.cx.concat(h, r); }
        if (n as u32) * 8 != w { r = self.cx.extract(r, 0, w); }
        self.v(r)
    }
    fn oob(&self, addr: u64, n: usize) -> Stop { Stop::Violation(format!("memory: access of {} bytes at {:#x} outside any live object", n, addr)) }
    /// resolves a symbolic address to one object: returns (base, size); forks if others are possible
    fn resolve(&mut self, s: &mut State, x: X, n: usize) -> R<(u64, usize)> {
        let a = self.cx.eval(x, &s.model) as u64;
        let (base, size) = match s.mem.find(a) { Some((b, o)) if (a - b) as usize + n <= o.b.len() && a >= b => (b, o.b.len()), _ => return Err(self.oob(a, n)) };
        let kb = self.cx.k(64, base as u128); let off = self.cx.bin(Op::Sub, x, kb);
        let lim = self.cx.k(64, (size - n) as u128); let inb = self.cx.ule(off, lim); let out = self.cx.not(inb);
        if inb != self.cx.tru { if let Some(m) = self.feasible(s, out)? { self.sibling(s, out, m); self.add(s, inb); } }
        Ok((base, size))
    }
    fn cands(&mut self, off: X, size: usize, n: usize) -> Vec<u64> {
        let (lo, hi) = self.cx.range(off); let hi = hi.min((size - n) as u64); let t = self.cx.tz(off).min(12); let st = 1u64 << t;
        let lo = (lo + st - 1) / st * st;
        if lo > hi { return vec![]; }
        if (hi - lo) / st > 4096 { return vec![]; }
        (0..=(hi - lo) / st).map(|i| lo + i * st).collect()
    }
    /// values a one-byte expression can take under the path's domain of that byte (sorted)
    fn values(&mut self, s: &State, x: X) -> Option<Vec<u64>> {
        let vs = self.cx.vars(x); if vs.len() != 1 || self.cx.w(x) > 64 { return None; }
        let d = s.dom[vs[0] as usize]; let t = self.cx.table(x);
        let mut out: Vec<u64> = (0..256usize).filter(|b| d[b >> 6] >> (b & 63) & 1 == 1).map(|b| t[b]).collect();
        out.sort_unstable(); out.dedup(); Some(out)
    }
    fn ite_tree(&mut self, off: X, c: &[(u64, X)]) -> X {
        if c.len() == 1 { return c[0].1; }
        if c.iter().all(|p| p.1 == c[0].1) { return c[0].1; }
        let m = c.len() / 2; let l = self.ite_tree(off, &c[..m]); let r = self.ite_tree(off, &c[m..]);
        let k = self.cx.k(64, c[m].0 as u128); let q = self.cx.ult(off, k);
        self.cx.ite(q, l, r)
    }
    fn load_scalar(&mut self, s: &mut State, addr: &V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        match addr {
            V::C(a) => {
                let (base, o) = match s.mem.find(*a) { Some((b, o)) => (b, o.clone()), None => return Err(self.oob(*a, n)) };
                let off = a.wrapping_sub(base) as usize; if off.checked_add(n).map_or(true, |e| e > o.b.len()) { return Err(self.oob(*a, n)); }
                Ok(self.load_at(s, &o, off, n, w))
            }
            V::X(x) => {
                let (base, size) = self.resolve(s, *x, n)?;
                let kb = self.cx.k(64, base as u128); let off = self.cx.bin(Op::Sub, *x, kb);
                if let Some(k) = self.cx.cv(off) { return self.load_scalar(s, &V::C(base + k as u64), w); }
                let o = s.mem.find(base).unwrap().1.clone();
                let vals = self.values(s, off);
                let few = match &vals { Some(v) => v.len() <= 6 && !o.ro, None => !o.ro };
                let cs = match vals { Some(v) => v.into_iter().filter(|&o| o <= (size - n) as u64).collect(), None => self.cands(off, size, n) };
                if cs.is_empty() || w > 64 || few { let a = self.conc(s, addr, 64)?; return self.load_scalar(s, &V::C(a), w); }
                let mut l = Vec::with_capacity(cs.len());
                for c in cs { let v = self.load_at(s, &o, c as usize, n, w); let x = self.x(&v, w); l.push((c, x)); }
                let r = self.ite_tree(off, &l); Ok(self.v(r))
            }
            _ => Err(Stop::Error("vector address".into())),
        }
    }
    fn store_scalar(&mut self, s: &mut State, addr: &V, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match addr {
            V::C(a) => {
                let (p, off) = match Mem::place(*a) { Some(x) => x, None => return Err(self.oob(*a, n)) };
                let e = self.oob(*a, n);
                // split the value before borrowing
                let xs: Option<Vec<X>> = match v { V::C(_) if n <= 8 => None, v => { let x = self.x(v, w); let x = if n as u32 * 8 != w { self.cx.zext(x, n as u32 * 8) } else { x }; Some((0..n as u32).map(|i| self.cx.extract(x, i * 8, 8)).collect()) } };
                let cvs: Option<Vec<Option<u8>>> = xs.as_ref().map(|v| v.iter().map(|&x| self.cx.cv(x).map(|k| k as u8)).collect());
                let o = match s.mem.get_mut(&p) { Some(o) => o, None => return Err(e) };
                let off = off as usize;
                if off.checked_add(n).map_or(true, |e| e > o.b.len()) { return Err(e); }
                if o.ro { return Err(Stop::Violation("memory: write to constant".into())); }
                match (xs, v) {
                    (None, V::C(c)) => { o.b[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); if let Some(sy) = &mut o.s { for x in &mut sy[off..off + n] { *x = 0; } } }
                    (Some(xs), _) => { let cvs = cvs.unwrap(); for i in 0..n { match cvs[i] { Some(k) => o.put(off + i, k), None => o.put_x(off + i, xs[i]) } } }
                    _ => unreachable!(),
                }
                Ok(())
            }
            V::X(x) => {
                let (base, size) = self.resolve(s, *x, n)?;
                let kb = self.cx.k(64, base as u128); let off = self.cx.bin(Op::Sub, *x, kb);
                let cs = self.cands(off, size, n);
                if cs.is_empty() || cs.len() > 64 || w > 64 { let a = self.conc(s, addr, 64)?; return self.store_scalar(s, &V::C(a), w, v); }
                let vx = self.x(v, w);
                let o = s.mem.find(base).unwrap().1.clone();
                // read all old values first: candidates may overlap
                let mut cur = (*o).clone();
                for c in cs {
                    let old = self.load_at(s, &Rc::new(cur.clone()), c as usize, n, w); let old = self.x(&old, w);
                    let k = self.cx.k(64, c as u128); let q = self.cx.eq(off, k); let nv = self.cx.ite(q, vx, old);
                    let nv = if n as u32 * 8 != w { self.cx.zext(nv, n as u32 * 8) } else { nv };
                    for i in 0..n { let b = self.cx.extract(nv, i as u32 * 8, 8); match self.cx.cv(b) { Some(k) => cur.put(c as usize + i, k as u8), None => cur.put_x(c as usize + i, b) } }
                }
                let (p, _) = Mem::place(base).unwrap();
                *s.mem.get_mut(&p).unwrap() = cur;
                Ok(())
            }
            _ => Err(Stop::Error("vector address".into())),
        }
    }
    fn addv(&mut self, a: &V, k: u64) -> V { match a { V::C(c) => V::C(c.wrapping_add(k)), V::X(x) => { let kk = self.cx.k(64, k as u128); let r = self.cx.bin(Op::Add, *x, kk); self.v(r) } _ => panic!() } }
    fn load(&mut self, s: &mut State, addr: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => self.load_scalar(s, addr, ty.w()),
            Ty::Vec(n, e) => {
                let w = e.w();
                if w % 8 != 0 { let t = Ty::Int(n * w); let v = self.load_scalar(s, addr, n * w)?; return Ok(self.cast(CastK::Bits, &t, ty, &v)); }
                let a = self.conc(s, addr, 64)?; let mut v = vec![]; for i in 0..*n { v.push(self.load_scalar(s, &V::C(a + (i * w / 8) as u64), w)?); } Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, e, sz) => { let a = self.conc(s, addr, 64)?; let mut v = vec![]; for i in 0..*n { v.push(self.load(s, &V::C(a + i * sz), e)?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(t) => { let a = self.conc(s, addr, 64)?; let mut v = vec![]; for i in 0..t.0.len() { v.push(self.load(s, &V::C(a + t.1[i]), &t.0[i])?); } Ok(V::A(Rc::new(v))) }
            _ => Err(Stop::Error("load type".into())),
        }
    }
    fn store(&mut self, s: &mut State, addr: &V, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::F(_) | Ty::Ptr, _) => self.store_scalar(s, addr, ty.w(), v),
            (Ty::Vec(n, e), V::A(a)) => {
                let w = e.w(); let p = self.conc(s, addr, 64)?;
                if w % 8 != 0 { let t = Ty::Int(n * w); let b = self.cast(CastK::Bits, ty, &t, v); return self.store_scalar(s, &V::C(p), n * w, &b); }
                for i in 0..*n { self.store_scalar(s, &V::C(p + (i * w / 8) as u64), w, &a[i as usize])?; } Ok(())
            }
            (Ty::Arr(n, e, sz), V::A(a)) => { let p = self.conc(s, addr, 64)?; for i in 0..*n { self.store(s, &V::C(p + i * sz), e, &a[i as usize])?; } Ok(()) }
            (Ty::Struct(t), V::A(a)) => { let p = self.conc(s, addr, 64)?; for i in 0..t.0.len() { self.store(s, &V::C(p + t.1[i]), &t.0[i], &a[i])?; } Ok(()) }
            _ => Err(Stop::Error("store type".into())),
        }
    }
    fn range_obj(&mut self, s: &State, a: u64, n: usize) -> R<(Rc<Obj>, usize)> {
        match s.mem.find(a) { Some((b, o)) => { let off = a.wrapping_sub(b) as usize; if off.checked_add(n).map_or(true, |e| e > o.b.len()) { return Err(self.oob(a, n)); } Ok((o.clone(), off)) } None => Err(self.oob(a, n)) }
    }
    fn memcpy(&mut self, s: &mut State, d: u64, sr: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.range_obj(s, sr, n)?;
        let e = self.oob(d, n);
        let (p, doff) = match Mem::place(d) { Some(x) => x, None => return Err(e) }; let doff = doff as usize;
        let od = match s.mem.get_mut(&p) { Some(o) => o, None => return Err(e) };
        if doff.checked_add(n).map_or(true, |x| x > od.b.len()) { return Err(e); }
        if od.ro { return Err(Stop::Violation("memory: write to constant".into())); }
        od.b[doff..doff + n].copy_from_slice(&o.b[off..off + n]);
        match &o.s {
            Some(sy) if sy[off..off + n].iter().any(|&x| x != 0) => { let m = od.b.len(); od.s.get_or_insert_with(|| vec![0; m])[doff..doff + n].copy_from_slice(&sy[off..off + n]); }
            _ => if let Some(ds) = &mut od.s { for x in &mut ds[doff..doff + n] { *x = 0; } },
        }
        Ok(())
    }

    // ---------------------------------------------------------------- the loop
    fn get(&self, s: &State, o: &O) -> V { match o { O::R(r) => s.top.regs[*r as usize].clone(), O::K(v) => v.clone() } }
    fn jump(&mut self, s: &mut State, b: u32) {
        let prev = s.top.blk; s.top.prev = prev; s.top.blk = b; s.top.pc = 0;
        let body = s.top.body.clone(); let blk = &body.blocks[b as usize];
        if blk.phis.is_empty() { return; }
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
        for (dst, inc) in &blk.phis { for (p, o) in inc { if *p == prev { vals.push((*dst, self.get(s, o))); break; } } }
        for (d, v) in vals { s.top.regs[d as usize] = v; }
    }
    fn ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        let sb = s.top.sbase; s.mem.stack.truncate(sb);
        match s.rest.pop() {
            None => Err(Stop::PathEnd),
            Some(f) => {
                let (rd, rb) = (s.top.rdst, s.top.rblk);
                s.top = match Rc::try_unwrap(f) { Ok(f) => f, Err(f) => (*f).clone() };
                if let Some(v) = v { s.top.regs[rd as usize] = v; }
                if rb == u32::MAX { s.top.pc += 1; } else { self.jump(s, rb); }
                Ok(())
            }
        }
    }
    pub fn run(&mut self, s: &mut State) -> Stop { loop { if let Err(e) = self.step_many(s) { return e; } } }
    fn step_many(&mut self, s: &mut State) -> R<()> {
        let body = s.top.body.clone();
        loop {
            s.steps += 1;
            if s.steps & 0xffff == 0 { if Instant::now() > self.deadline { return Err(Stop::Error("time limit".into())); } }
            if s.steps > self.max_steps { return Err(Stop::Limit(format!("path longer than {} instructions", self.max_steps))); }
            let ins = &body.blocks[s.top.blk as usize].insts[s.top.pc as usize];
            let ty = &ins.ty;
            let r: V = match &ins.k {
                K::Bin(b, p, q) => { let (p, q) = (self.get(s, p), self.get(s, q)); match ty { Ty::Vec(..) => { let b = *b; self.map2(ty, &p, &q, &mut |e, w, x, y| e.bin(b, w, x, y)) } _ => self.bin(*b, ty.w(), &p, &q) } }
                K::ICmp(c, p, q) => { let (p, q) = (self.get(s, p), self.get(s, q)); match ty { Ty::Vec(..) => { let c = *c; self.map2(ty, &p, &q, &mut |e, w, x, y| e.icmp(c, w, x, y)) } _ => self.icmp(*c, ty.w(), &p, &q) } }
                K::FCmp(c, p, q) => { let (p, q) = (self.get(s, p), self.get(s, q)); let c = *c; self.map2(ty, &p, &q, &mut |e, w, x, y| e.fcmp(c, w, x, y)) }
                K::FNeg(p) => { let p = self.get(s, p); self.map1(ty, &p, &mut |e, w, x| { let k = if w == 64 { V::C(1 << 63) } else { V::C(1 << 31) }; e.bin(B::Xor, w, x, &k) }) }
                K::Cast(k, from, p) => { let p = self.get(s, p); self.cast(*k, from, ty, &p) }
                K::Load(a) => { let a = self.get(s, a); self.load(s, &a, ty)? }
                K::Store(v, a) => { let (v, a) = (self.get(s, v), self.get(s, a)); self.store(s, &a, ty, &v)?; V::C(0) }
                K::Gep(b, off, terms) => {
                    let mut r = self.get(s, b); if *off != 0 { r = self.addv(&r, *off as u64); }
                    for (o, iw, sc) in terms {
                        let i = self.get(s, o);
                        let i = if *iw != 64 { self.cast(CastK::SExt, &Ty::Int(*iw), &Ty::Int(64), &i) } else { i };
                        let m = if *sc == 1 { i } else { self.bin(B::Mul, 64, &i, &V::C(*sc as u64)) };
                        r = self.bin(B::Add, 64, &r, &m);
                    }
                    r
                }
                K::Alloca(sz, n) => { let n = match self.get(s, n) { V::C(c) => c, _ => 1 }; V::C(s.mem.alloca((*sz * n) as usize)) }
                K::Select(c, p, q, vec) => {
                    let (c, p, q) = (self.get(s, c), self.get(s, p), self.get(s, q));
                    if *vec { match (&c, &p, &q, ty) { (V::A(c), V::A(p), V::A(q), Ty::Vec(_, e)) => { let mut o = vec![]; for i in 0..c.len() { let b = self.bit(&c[i]); o.push(self.select(b, e, &p[i], &q[i])); } V::A(Rc::new(o)) } _ => return Err(Stop::Error("vector select".into())) } }
                    else { match c { V::C(k) => if k == 1 { p } else { q }, _ => { let b = self.bit(&c); match self.decide(s, b, 6) { Some(true) => { let nb = self.cx.not(b); self.confirm(s, nb)?; p } Some(false) => { self.confirm(s, b)?; q } None => self.select(b, ty, &p, &q) } } } }
                }
                K::ExtractValue(a, ix) => { let mut v = self.get(s, a); for i in ix { v = match v { V::A(a) => a[*i as usize].clone(), _ => return Err(Stop::Error("extractvalue".into())) }; } v }
                K::InsertValue(a, e, ix) => { let a = self.get(s, a); let e = self.get(s, e); ins_val(&a, &e, ix) }
                K::ExtractElement(a, i) => { let a = self.get(s, a); let i = self.get(s, i); let i = self.conc(s, &i, 64)?; match a { V::A(a) => a[i as usize].clone(), _ => return Err(Stop::Error("extractelement".into())) } }
                K::InsertElement(a, e, i) => { let a = self.get(s, a); let e = self.get(s, e); let i = self.get(s, i); let i = self.conc(s, &i, 64)?; ins_val(&a, &e, &[i as u32]) }
                K::Shuffle(a, b, m) => { let (a, b) = (self.get(s, a), self.get(s, b)); match (&a, &b) { (V::A(p), V::A(q)) => { let n = p.len() as i32; V::A(Rc::new(m.iter().map(|&k| if k < 0 { p[0].clone() } else if k < n { p[k as usize].clone() } else { q[(k - n) as usize].clone() }).collect())) } _ => return Err(Stop::Error("shuffle".into())) } }
                K::Copy(p) => self.get(s, p),
                K::Rmw(op, a, v) => {
                    let (a, v) = (self.get(s, a), self.get(s, v)); let w = ty.w(); let old = self.load_scalar(s, &a, w)?;
                    let nv = match op { 0 => v, 1 => self.bin(B::Add, w, &old, &v), 2 => self.bin(B::Sub, w, &old, &v), 3 => self.bin(B::And, w, &old, &v), 5 => self.bin(B::Or, w, &old, &v), 6 => self.bin(B::Xor, w, &old, &v), _ => return Err(Stop::Error("atomicrmw".into())) };
                    self.store_scalar(s, &a, w, &nv)?; old
                }
                K::CmpXchg(a, c, n) => {
                    let (a, c, n) = (self.get(s, a), self.get(s, c), self.get(s, n)); let w = ty.w();
                    let old = self.load_scalar(s, &a, w)?; let e = self.icmp(32, w, &old, &c); let b = self.bit(&e);
                    if self.branch(s, b)? { self.store_scalar(s, &a, w, &n)?; V::A(Rc::new(vec![old, V::C(1)])) } else { V::A(Rc::new(vec![old, V::C(0)])) }
                }
                K::Br(b) => { self.jump(s, *b); continue; }
                K::CondBr(c, t, f) => { let c = self.get(s, c); let way = match c { V::C(k) => k == 1, V::X(x) => self.branch(s, x)?, _ => return Err(Stop::Error("br".into())) }; self.jump(s, if way { *t } else { *f }); continue; }
                K::Switch(v, w, cs, d) => {
                    let v = self.get(s, v);
                    let tgt = match v {
                        V::C(k) => cs.iter().find(|c| c.0 == k as u128).map_or(*d, |c| c.1),
                        V::X(x) => {
                            let k = self.cx.eval(x, &s.model);
                            let tgt = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1);
                            // group the cases by target; fork one sibling per other feasible target
                            let mut groups: Vec<(u32, X)> = vec![]; let mut any = self.cx.fls;
                            for (cv, b) in cs { let kk = self.cx.k(*w, *cv); let e = self.cx.eq(x, kk); any = self.cx.bin(Op::Or, any, e); match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = self.cx.bin(Op::Or, g.1, e), None => groups.push((*b, e)) } }
                            let none = self.cx.not(any);
                            match groups.iter_mut().find(|g| g.0 == *d) { Some(g) => g.1 = self.cx.bin(Op::Or, g.1, none), None => groups.push((*d, none)) }
                            let mut here = self.cx.tru; let mut forked = false;
                            for (b, c) in groups { if b == tgt { here = c; continue; } if let Some(m) = self.feasible(s, c)? { self.sibling(s, c, m); forked = true; } }
                            if forked { self.add(s, here); }
                            tgt
                        }
                        _ => return Err(Stop::Error("switch".into())),
                    };
                    self.jump(s, tgt); continue;
                }
                K::Ret(v) => { let v = v.as_ref().map(|o| self.get(s, o)); return self.ret(s, v); }
                K::Unreachable => return Err(Stop::Violation("unreachable executed".into())),
                K::Call(cal, args, tys, nd) => {
                    let f = match cal {
                        Callee::Fn(f) => *f,
                        Callee::Asm(a) => { let v = self.asm(s, a, ty)?; s.top.regs[ins.dst as usize] = v; if *nd == u32::MAX { s.top.pc += 1; } else { self.jump(s, *nd); } continue; }
                        Callee::Ind(o) => { let v = self.get(s, o); let a = self.conc(s, &v, 64)?; let id = (a >> OBJ_SHIFT).wrapping_sub(1).wrapping_sub(FN_ID0); if id as usize >= self.m.funcs.len() { return Err(Stop::Violation(format!("call of bad function pointer {:#x}", a))); } id as u32 }
                    };
                    let av: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                    let h = self.handler(f);
                    if h == H::Body {
                        if s.rest.len() > 2000 { return Err(Stop::Violation("stack overflow (2000 frames)".into())); }
                        let sb = s.mem.stack.len();
                        let fr = self.frame(f, av, sb, ins.dst, *nd);
                        let old = std::mem::replace(&mut s.top, fr);
                        s.rest.push(Rc::new(old));
                        return Ok(());
                    }
                    let v = self.special(s, h, f, &av, tys, ty)?;
                    s.top.regs[ins.dst as usize] = v;
                    if *nd == u32::MAX { s.top.pc += 1; } else { self.jump(s, *nd); }
                    continue;
                }
                K::Nop => V::C(0),
                K::Bad(e) => return Err(Stop::Error(format!("unsupported: {}", e))),
            };
            s.top.regs[ins.dst as usize] = r;
            s.top.pc += 1;
        }
    }
    fn asm(&mut self, s: &mut State, a: &str, ty: &Ty) -> R<V> {
        let _ = s;
        if a.is_empty() || a.contains("cpuid") || a.contains("xgetbv") { return Ok(if matches!(ty, Ty::Void) { V::C(0) } else { Module::zero(&mut self.cx, ty) }); }
        Err(Stop::Error(format!("inline asm {}", a)))
    }
    fn handler(&mut self, f: u32) -> H {
        if let Some(h) = self.handlers[f as usize] { return h; }
        let n = self.m.funcs[f as usize].name.clone(); let decl = self.m.funcs[f as usize].decl;
        let h = match &*n {
            "sym_bytes" => H::SymBytes, "sym_assume" => H::Assume, "sym_assert" => H::Assert, "sym_cover" => H::Cover, "sym_observe" => H::Observe, "sym_param" => H::Param, "sym_conc" => H::Conc, "sym_choose" => H::Choose, "sym_done" => H::Nomore, "sym_ite" => H::IteSel,
            "malloc" => H::Malloc, "calloc" => H::Calloc, "realloc" => H::Realloc, "posix_memalign" => H::Memalign, "free" => H::Free,
            "memcpy" | "memmove" => H::Memcpy, "memset" => H::Memset, "bcmp" => H::Bcmp, "memcmp" => H::Memcmp, "strlen" => H::Strlen, "memchr" => H::Memchr,
            "abort" | "_exit" | "exit" => H::Abort, "getrandom" => H::GetRandom,
            "llvm.trap" | "llvm.ubsantrap" => H::Abort,
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "write" | "writev" => H::Ignore0,
            _ if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("handle_alloc_error") || n.contains("rust_panic_with_hook") || n.contains("9panicking14panic_nounwind") => H::Panic,
            _ if n.contains("hashmap_random_keys") => H::RandomKeys,
            _ if n.starts_with("llvm.") => H::Intr,
            _ if decl => H::Unknown,
            _ => H::Body,
        };
        self.handlers[f as usize] = Some(h);
        h
    }
    fn new_heap(&mut self, s: &mut State, size: &V) -> R<u64> {
        // sizes no 64-bit machine can serve make malloc return null, as in reality
        if let V::X(x) = size { let k = self.cx.k(64, 1u128 << 40); let big = self.cx.ult(k, *x); if self.branch(s, big)? { return Ok(0); } }
        let n = self.conc(s, size, 64)?;
        if n > 1 << 40 { return Ok(0); }
        if n > 1 << 30 { return Err(Stop::Error(format!("allocation of {} bytes", n))); }
        Ok(s.mem.alloc(Obj::new(n as usize)))
    }
    fn special(&mut self, s: &mut State, h: H, f: u32, a: &[V], tys: &[Ty], ty: &Ty) -> R<V> {
        Ok(match h {
            H::SymBytes => {
                let p = self.conc(s, &a[0], 64)?; let n = self.conc(s, &a[1], 64)? as usize;
                self.range_obj(s, p, n)?;
                let (pl, off) = Mem::place(p).unwrap();
                for i in 0..n { let id = Self::fresh(s); let x = self.cx.var(id); s.mem.get_mut(&pl).unwrap().put_x(off as usize + i, x); }
                V::C(0)
            }
            H::Assume => {
                let w = tys[0].w(); let z = self.icmp(33, w, &a[0], &V::C(0)); let x = self.bit(&z);
                match self.feasible(s, x)? { None => return Err(Stop::Infeasible), Some(m) => { s.model = m; self.add(s, x); } }
                V::C(0)
            }
            H::Assert => {
                let w = tys[0].w(); let z = self.icmp(33, w, &a[0], &V::C(0)); let x = self.bit(&z);
                let id = match &a[1] { V::C(c) => *c, _ => 0 };
                self.st.asserts += 1; *self.assert_ids.entry(id as u32).or_insert(0) += 1;
                if x == self.cx.tru { self.st.asserts_trivial += 1; return Ok(V::C(0)); }
                let nx = self.cx.not(x);
                if let Some(m) = self.feasible2(s, nx, true)? {
                    let mut t = s.clone(); t.model = m; 
                    if !self.keep_going { *s = t; return Err(Stop::Violation(format!("assert {}", id))); }
                    let v = self.violation(&t, format!("assert {}", id)); if self.viol_ids.insert(v.kind.clone()) { self.viol.push(v); }
                    match self.feasible(s, x)? { None => return Err(Stop::Infeasible), Some(m) => { s.model = m; self.add(s, x); } }
                }
                V::C(0)
            }
            H::Cover => { if let V::C(c) = &a[0] { s.covers.push(*c as u32); } V::C(0) }
            H::Observe => { s.obs.push(a[0].clone()); V::C(0) }
            H::Param => { let i = self.conc(s, &a[0], 64)?; V::C(*self.params.get(i as usize).unwrap_or(&0)) }
            H::Conc => V::C(self.conc(s, &a[0], 64)?),
            H::Choose => { // a fresh value in 0..n, enumerated by forking
                let n = self.conc(s, &a[0], 64)?; let id = Self::fresh(s);
                let x = self.cx.var(id); let k = self.cx.k(8, n as u128); let c = self.cx.ult(x, k);
                match self.feasible(s, c)? { None => return Err(Stop::Infeasible), Some(m) => { s.model = m; self.add(s, c); } }
                let z = self.cx.zext(x, 64); self.v(z)
            }
            H::IteSel => { let c = self.icmp(33, tys[0].w(), &a[0], &V::C(0)); let c = self.bit(&c); self.select(c, &Ty::Int(64), &a[1], &a[2]) }
            H::Nomore => return Err(Stop::PathEnd),
            H::Malloc => V::C(self.new_heap(s, &a[0])?),
            H::Calloc => { let n = self.bin(B::Mul, 64, &a[0], &a[1]); V::C(self.new_heap(s, &n)?) }
            H::Memalign => { let p = self.new_heap(s, &a[2])?; self.store_scalar(s, &a[0], 64, &V::C(p))?; V::C(if p == 0 { 12 } else { 0 }) }
            H::Realloc => {
                let p = self.conc(s, &a[0], 64)?; let q = self.new_heap(s, &a[1])?;
                if p != 0 && q != 0 { let n = match s.mem.find(p) { Some((_, o)) => o.b.len(), None => return Err(Stop::Violation("memory: realloc of bad pointer".into())) }; let m = s.mem.find(q).unwrap().1.b.len(); self.memcpy(s, q, p, n.min(m))?; s.mem.free(p); }
                V::C(q)
            }
            H::Free => { let p = self.conc(s, &a[0], 64)?; if p != 0 && !s.mem.free(p) { return Err(Stop::Violation("memory: bad free".into())); } V::C(0) }
            H::Memcpy => { let d = self.conc(s, &a[0], 64)?; let r = self.conc(s, &a[1], 64)?; let n = self.conc(s, &a[2], 64)?; self.memcpy(s, d, r, n as usize)?; V::C(d) }
            H::Memset => {
                let d = self.conc(s, &a[0], 64)?; let n = self.conc(s, &a[2], 64)? as usize;
                if n > 0 { self.range_obj(s, d, n)?; let (p, off) = Mem::place(d).unwrap(); let off = off as usize; let v = self.cast(CastK::Trunc, &tys[1], &Ty::Int(8), &a[1]);
                    let o = s.mem.get_mut(&p).unwrap(); if o.ro { return Err(Stop::Violation("memory: write to constant".into())); }
                    match v { V::C(k) => { for b in &mut o.b[off..off + n] { *b = k as u8; } if let Some(sy) = &mut o.s { for x in &mut sy[off..off + n] { *x = 0; } } } V::X(x) => for i in 0..n { o.put_x(off + i, x) }, _ => {} } }
                V::C(d)
            }
            H::Bcmp | H::Memcmp => {
                let n = self.conc(s, &a[2], 64)? as usize;
                if n == 0 { return Ok(V::C(0)); }
                let p = self.conc(s, &a[0], 64)?; let q = self.conc(s, &a[1], 64)?;
                let (po, pf) = self.range_obj(s, p, n)?; let (qo, qf) = self.range_obj(s, q, n)?;
                if h == H::Bcmp {
                    let mut acc = self.cx.tru;
                    for i in 0..n { let x = self.byte(s, &po, pf + i); let y = self.byte(s, &qo, qf + i); let e = self.cx.eq(x, y); acc = self.cx.bin(Op::And, acc, e); if acc == self.cx.fls { break; } }
                    let z = self.cx.k(32, 0); let o = self.cx.k(32, 1); let r = self.cx.ite(acc, z, o); self.v(r)
                } else {
                    let mut r = self.cx.k(32, 0); let one = self.cx.k(32, 1); let m1 = self.cx.k(32, !0);
                    for i in (0..n).rev() { let x = self.byte(s, &po, pf + i); let y = self.byte(s, &qo, qf + i); let e = self.cx.eq(x, y); let l = self.cx.ult(x, y); let d = self.cx.ite(l, m1, one); r = self.cx.ite(e, r, d); }
                    self.v(r)
                }
            }
            H::Strlen => { let p = self.conc(s, &a[0], 64)?; let mut n = 0u64; loop { let b = self.load_scalar(s, &V::C(p + n), 8)?; match b { V::C(0) => break, V::C(_) => n += 1, _ => return Err(Stop::Error("symbolic strlen".into())) } } V::C(n) }
            H::Memchr => {
                let p = self.conc(s, &a[0], 64)?; let n = self.conc(s, &a[2], 64)?; let c = self.cast(CastK::Trunc, &tys[1], &Ty::Int(8), &a[1]);
                for i in 0..n { let b = self.load_scalar(s, &V::C(p + i), 8)?; let e = self.icmp(32, 8, &b, &c); let e = self.bit(&e); if self.branch(s, e)? { return Ok(V::C(p + i)); } }
                V::C(0)
            }
            H::Panic => return Err(Stop::Violation("panic".into())),
            H::Abort => return Err(Stop::Violation("abort".into())),
            H::GetRandom => { let p = self.conc(s, &a[0], 64)?; let n = self.conc(s, &a[1], 64)?; for i in 0..n { self.store_scalar(s, &V::C(p + i), 8, &V::C(0x5a))?; } V::C(n) }
            H::RandomKeys => V::A(Rc::new(vec![V::C(0x1234_5678_9abc_def0), V::C(0x0fed_cba9_8765_4321)])),
            H::Ignore0 => V::C(0),
            H::Fmt => { // alloc::fmt::format: returns an empty string (messages are outside the claims)
                // String { cap: 0, ptr: dangling(1), len: 0 }: sret pointer is the first argument
                let z: Vec<(u64, u64)> = vec![(0, 0), (8, 1), (16, 0)];
                for (o, v) in z { let p = self.addv(&a[0], o); self.store_scalar(s, &p, 64, &V::C(v))?; }
                V::C(0)
            }
            H::Intr => { let n = self.m.funcs[f as usize].name.clone(); self.intrinsic(s, &n, a, tys, ty)? }
            H::Unknown => return Err(Stop::Error(format!("call of external {}", self.m.funcs[f as usize].name))),
            H::Body => unreachable!(),
        })
    }
    fn intrinsic(&mut self, s: &mut State, name: &str, a: &[V], tys: &[Ty], ty: &Ty) -> R<V> {
        let n = &name[5..];
        let is = |p: &str| n.starts_with(p) && n[p.len()..].starts_with('.');
        macro_rules! m2 { ($f:expr) => { return Ok(self.map2(ty, &a[0], &a[1], &mut $f)) } }
        macro_rules! m1 { ($f:expr) => { return Ok(self.map1(ty, &a[0], &mut $f)) } }
        if is("memcpy") || is("memmove") || is("memcpy.inline") { let d = self.conc(s, &a[0], 64)?; let r = self.conc(s, &a[1], 64)?; let k = self.conc(s, &a[2], 64)?; self.memcpy(s, d, r, k as usize)?; return Ok(V::C(0)); }
        if is("memset") { return self.special(s, H::Memset, 0, a, tys, ty); }
        for (p, pr) in [("umin", 36), ("umax", 34), ("smin", 40), ("smax", 38)] { if is(p) { m2!(|e: &mut Exec, w, x: &V, y: &V| { let c = e.icmp(pr, w, x, y); let c = e.bit(&c); e.select(c, &Ty::Int(w), x, y) }) } }
        if is("abs") { m1!(|e: &mut Exec, w, x: &V| { let c = e.icmp(40, w, x, &V::C(0)); let c = e.bit(&c); let z = Module::zero(&mut e.cx, &Ty::Int(w)); let m = e.bin(B::Sub, w, &z, x); e.select(c, &Ty::Int(w), &m, x) }) }
        for (p, k) in [("uadd.with.overflow", 0), ("usub.with.overflow", 1), ("umul.with.overflow", 2), ("sadd.with.overflow", 3), ("ssub.with.overflow", 4), ("smul.with.overflow", 5)] { if is(p) {
            let w = tys[0].w(); let b = [B::Add, B::Sub, B::Mul][k % 3]; let r = self.bin(b, w, &a[0], &a[1]);
            let o = match k {
                0 => self.icmp(36, w, &r, &a[0]), 1 => self.icmp(36, w, &a[0], &a[1]),
                _ => { let ww = if k == 2 || k == 5 { 2 * w } else { w + 1 };
                    if ww > 128 { // 64x64 -> 128 ok; wider: not needed
                        return Err(Stop::Error("wide overflow".into())); }
                    let (x, y) = (self.x(&a[0], w), self.x(&a[1], w));
                    if k == 2 && w <= 64 { let (rx, ry) = (self.cx.range(x), self.cx.range(y)); if (rx.1 as u128) * (ry.1 as u128) <= mask(w) { return Ok(V::A(Rc::new(vec![r, V::C(0)]))); } 
                        // by a constant: compare with the quotient
                        let (p, q) = if self.cx.cv(x).is_some() { (y, x) } else { (x, y) };
                        if let Some(kc) = self.cx.cv(q) { if kc == 0 { return Ok(V::A(Rc::new(vec![r, V::C(0)]))); } let lim = self.cx.k(w, mask(w) / kc); let ov = self.cx.ult(lim, p); let ov = self.v(ov); return Ok(V::A(Rc::new(vec![r, ov]))); } }
                    let (x, y) = if k == 2 { (self.cx.zext(x, ww), self.cx.zext(y, ww)) } else { (self.cx.sext(x, ww), self.cx.sext(y, ww)) };
                    let op = [Op::Add, Op::Sub, Op::Mul][k % 3]; let full = self.cx.bin(op, x, y); let rx = self.x(&r, w); let back = if k == 2 { self.cx.zext(rx, ww) } else { self.cx.sext(rx, ww) };
                    let e = self.cx.eq(full, back); let e = self.cx.not(e); self.v(e) }
            };
            return Ok(V::A(Rc::new(vec![r, o])));
        } }
        if is("uadd.sat") { m2!(|e: &mut Exec, w, x: &V, y: &V| { let r = e.bin(B::Add, w, x, y); let o = e.icmp(36, w, &r, x); let o = e.bit(&o); e.select(o, &Ty::Int(w), &c64(mask(w)), &r) }) }
        if is("usub.sat") { m2!(|e: &mut Exec, w, x: &V, y: &V| { let r = e.bin(B::Sub, w, x, y); let o = e.icmp(36, w, x, y); let o = e.bit(&o); e.select(o, &Ty::Int(w), &V::C(0), &r) }) }
        if is("sadd.sat") || is("ssub.sat") { let add = is("sadd.sat"); m2!(|e: &mut Exec, w, x: &V, y: &V| { let (p, q) = (e.x(x, w), e.x(y, w)); let (pw, qw) = (e.cx.sext(p, w + 1), e.cx.sext(q, w + 1)); let f = e.cx.bin(if add { Op::Add } else { Op::Sub }, pw, qw); let hi = e.cx.k(w + 1, mask(w - 1)); let lo = e.cx.k(w + 1, !mask(w - 1)); let o = e.cx.slt(hi, f); let u = e.cx.slt(f, lo); let r = e.cx.ite(o, hi, f); let r = e.cx.ite(u, lo, r); let r = e.cx.extract(r, 0, w); e.v(r) }) }
        if is("ctpop") { m1!(|e: &mut Exec, w, x: &V| { if let V::C(c) = x { return V::C(c.count_ones() as u64); } let x = e.x(x, w); let mut r = e.cx.k(w, 0); for i in 0..w { let b = e.cx.extract(x, i, 1); let b = e.cx.zext(b, w); r = e.cx.bin(Op::Add, r, b); } e.v(r) }) }
        if is("ctlz") { m1!(|e: &mut Exec, w, x: &V| { if let V::C(c) = x { return V::C((c.leading_zeros() - (64 - w)) as u64); } let x = e.x(x, w); let mut r = e.cx.k(w, w as u128); for i in 0..w { let b = e.cx.extract(x, i, 1); let k = e.cx.k(w, (w - 1 - i) as u128); r = e.cx.ite(b, k, r); } e.v(r) }) }
        if is("cttz") { m1!(|e: &mut Exec, w, x: &V| { if let V::C(c) = x { return V::C(if *c == 0 { w as u64 } else { c.trailing_zeros() as u64 }); } let x = e.x(x, w); let mut r = e.cx.k(w, w as u128); for i in (0..w).rev() { let b = e.cx.extract(x, i, 1); let k = e.cx.k(w, i as u128); r = e.cx.ite(b, k, r); } e.v(r) }) }
        if is("bswap") { m1!(|e: &mut Exec, w, x: &V| { if let V::C(c) = x { return V::C(c.swap_bytes() >> (64 - w)); } let x = e.x(x, w); let mut r = e.cx.extract(x, 0, 8); for i in 1..w / 8 { let b = e.cx.extract(x, i * 8, 8); r = e.cx.concat(r, b); } e.v(r) }) }
        if is("bitreverse") { m1!(|e: &mut Exec, w, x: &V| { if let V::C(c) = x { return V::C(c.reverse_bits() >> (64 - w)); } let x = e.x(x, w); let mut r = e.cx.extract(x, 0, 1); for i in 1..w { let b = e.cx.extract(x, i, 1); r = e.cx.concat(r, b); } e.v(r) }) }
        if is("fshl") || is("fshr") {
            let w = ty.w(); let left = is("fshl"); let (x, y, z) = (self.x(&a[0], w), self.x(&a[1], w), self.x(&a[2], w));
            let c = self.cx.concat(x, y); let kw = self.cx.k(w, w as u128); let sh = self.cx.bin(Op::URem, z, kw); let sh = self.cx.zext(sh, 2 * w);
            let r = if left { let t = self.cx.bin(Op::Shl, c, sh); self.cx.extract(t, w, w) } else { let t = self.cx.bin(Op::LShr, c, sh); self.cx.extract(t, 0, w) };
            return Ok(self.v(r));
        }
        if is("ucmp") || is("scmp") { let w = tys[0].w(); let rw = ty.w(); let l = self.icmp(if is("ucmp") { 36 } else { 40 }, w, &a[0], &a[1]); let l = self.bit(&l); let e = self.icmp(32, w, &a[0], &a[1]); let e = self.bit(&e); let t = self.select(e, ty, &V::C(0), &V::C(1)); return Ok(self.select(l, ty, &c64(mask(rw)), &t)); }
        if is("is.constant") { return Ok(V::C(0)); }
        if is("expect") || is("ssa.copy") || is("launder.invariant.group") || is("threadlocal.address") || is("expect.with.probability") || is("freeze") { return Ok(a[0].clone()); }
        if is("ptrmask") { return Ok(self.bin(B::And, 64, &a[0], &a[1])); }
        if is("fabs") { m1!(|e: &mut Exec, w, x: &V| e.bin(B::And, w, x, &c64(mask(w - 1)))) }
        if is("copysign") { m2!(|e: &mut Exec, w, x: &V, y: &V| { let p = e.bin(B::And, w, x, &c64(mask(w - 1))); let q = e.bin(B::And, w, y, &V::C(1 << (w - 1))); e.bin(B::Or, w, &p, &q) }) }
        if is("fptosi.sat") || is("fptoui.sat") { let k = if is("fptosi.sat") { CastK::FToS } else { CastK::FToU }; return Ok(self.cast(k, &tys[0], ty, &a[0])); }
        for (p, k) in [("floor", 0u128), ("ceil", 1), ("trunc", 2), ("rint", 3), ("nearbyint", 3), ("roundeven", 3), ("round", 4)] { if is(p) { m1!(|e: &mut Exec, w, x: &V| { let x = e.x(x, w); let r = e.cx.fop(Op::FRound, w, x, 0, k); e.v(r) }) } }
        if is("fma") || is("fmuladd") { if let Ty::F(w) = ty { let (x, y, z) = (self.x(&a[0], *w), self.x(&a[1], *w), self.x(&a[2], *w)); let r = self.cx.fma(*w, x, y, z); return Ok(self.v(r)); } }
        if is("sqrt") { m1!(|e: &mut Exec, w, x: &V| { let x = e.x(x, w); let r = e.cx.fop(Op::FSqrt, w, x, 0, 0); e.v(r) }) }
        for (p, pr) in [("minnum", 4), ("maxnum", 2), ("minimumnum", 4), ("maximumnum", 2)] { if is(p) { m2!(|e: &mut Exec, w, x: &V, y: &V| { let c = e.fcmp(pr, w, x, y); let c = e.bit(&c); let n = e.fcmp(8, w, y, y); let n = e.bit(&n); let c = e.cx.bin(Op::Or, c, n); e.select(c, &Ty::Int(w), x, y) }) } }
        if n.starts_with("vector.reduce.") {
            let (e, v) = match (&tys[0], &a[0]) { (Ty::Vec(_, e), V::A(v)) => (e.w(), v.clone()), _ => return Err(Stop::Error(name.into())) };
            let b = if n.starts_with("vector.reduce.or") { B::Or } else if n.starts_with("vector.reduce.and") { B::And } else if n.starts_with("vector.reduce.xor") { B::Xor } else if n.starts_with("vector.reduce.add") { B::Add } else { return Err(Stop::Error(name.into())) };
            let mut r = v[0].clone(); for x in &v[1..] { r = self.bin(b, e, &r, x); } return Ok(r);
        }
        Err(Stop::Error(format!("intrinsic {}", name)))
    }
}
fn fop(b: B) -> Op { match b { B::FAdd => Op::FAdd, B::FSub => Op::FSub, B::FMul => Op::FMul, B::FDiv => Op::FDiv, _ => Op::FRem } }
fn ins_val(a: &V, e: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return e.clone(); }
    match a { V::A(v) => { let mut n = (**v).clone(); n[ix[0] as usize] = ins_val(&n[ix[0] as usize], e, &ix[1..]); V::A(Rc::new(n)) } _ => panic!("insertvalue in scalar") }
}
