//! Hash-consed bit-vector / IEEE-754 expression DAG with local simplification.
//! Every symbolic input is an 8-bit variable; everything else is built from those.
use std::collections::HashMap;
use std::rc::Rc;

pub type X = u32; // index in the arena; 0 is reserved ("no expression")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Not, Neg,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // floating point: operands/results are IEEE bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FRem,
    FEq, FLt, FLe, FUno,
    FToF, SToF, UToF, FToS, FToU, FSqrt, FMa, FRound, // FRound: k = mode (0 floor,1 ceil,2 trunc,3 nearest-even,4 nearest-away)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: X, pub b: X, pub c: X, pub k: u128 }

pub struct Ctx {
    pub n: Vec<Node>,
    map: HashMap<Node, X>,
    vars_memo: Vec<Option<Rc<[u32]>>>,
    rng_memo: Vec<(u64, u64)>, // cached unsigned interval (1,0) = not computed
    // model evaluation memo
    ev_gen: u32,
    ev: Vec<(u32, u128)>,
    ev_model: Option<Rc<Vec<u8>>>,
    pub tru: X, pub fls: X,
    tt: HashMap<X, [u64; 4]>, tables: HashMap<X, Rc<Vec<u64>>>, sets: HashMap<(u32, [u64; 4]), X>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { n: vec![], map: HashMap::new(), vars_memo: vec![], rng_memo: vec![], ev_gen: 0, ev: vec![], ev_model: None, tru: 0, fls: 0, tt: HashMap::new(), tables: HashMap::new(), sets: HashMap::new() };
        c.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.tru = c.k(1, 1); c.fls = c.k(1, 0);
        c
    }
    fn push(&mut self, n: Node) -> X {
        if let Some(&x) = self.map.get(&n) { return x; }
        let x = self.n.len() as X;
        self.n.push(n); self.map.insert(n, x);
        self.vars_memo.push(None); self.rng_memo.push((1, 0)); self.ev.push((0, 0));
        x
    }
    fn mk(&mut self, op: Op, w: u32, a: X, b: X, c: X, k: u128) -> X { self.push(Node { op, w: w as u16, a, b, c, k }) }
    pub fn k(&mut self, w: u32, v: u128) -> X { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn var(&mut self, idx: u32) -> X { self.mk(Op::Var, 8, 0, 0, 0, idx as u128) }
    #[inline] pub fn w(&self, x: X) -> u32 { self.n[x as usize].w as u32 }
    #[inline] pub fn cv(&self, x: X) -> Option<u128> { let n = &self.n[x as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    #[inline] pub fn node(&self, x: X) -> Node { self.n[x as usize] }

    /// unsigned interval of an expression (w<=64), cheap structural analysis
    pub fn range(&mut self, x: X) -> (u64, u64) {
        let m = self.rng_memo[x as usize];
        if m.0 <= m.1 { return m; }
        let n = self.node(x);
        let full = if n.w >= 64 { u64::MAX } else { (1u64 << n.w) - 1 };
        if n.w > 64 { return (0, u64::MAX); }
        let r = match n.op {
            Op::Const => (n.k as u64, n.k as u64),
            Op::ZExt => self.range(n.a),
            Op::Ite => { let p = self.range(n.b); let q = self.range(n.c); (p.0.min(q.0), p.1.max(q.1)) }
            Op::And => { let p = self.range(n.a); let q = self.range(n.b); (0, p.1.min(q.1)) }
            Op::Or | Op::Xor => { let p = self.range(n.a); let q = self.range(n.b); let m = p.1 | q.1; let hi = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() }; (if n.op == Op::Or { p.0.max(q.0) } else { 0 }, hi.min(full)) }
            Op::Add => { let p = self.range(n.a); let q = self.range(n.b);
                match p.1.checked_add(q.1) { Some(h) if h <= full => (p.0 + q.0, h),
                    _ => {
                        // both ends wrap by exactly one modulus
                        let lo = p.0 as u128 + q.0 as u128; let hi = p.1 as u128 + q.1 as u128; let md = full as u128 + 1;
                        if lo >= md { ((lo - md) as u64, (hi - md) as u64) } else { (0, full) } } } }
            Op::Sub => { let p = self.range(n.a); let q = self.range(n.b); if p.0 >= q.1 { (p.0 - q.1, p.1 - q.0) } else { (0, full) } }
            Op::Mul => { let p = self.range(n.a); let q = self.range(n.b); match p.1.checked_mul(q.1) { Some(h) if h <= full => (p.0 * q.0, h), _ => (0, full) } }
            Op::UDiv => { let p = self.range(n.a); let q = self.range(n.b); if q.0 > 0 { (p.0 / q.1, p.1 / q.0) } else { (0, full) } }
            Op::URem => { let p = self.range(n.a); let q = self.range(n.b); if q.0 > 0 { if p.1 < q.0 { p } else { (0, p.1.min(q.1 - 1)) } } else { (0, p.1.max(0)) } }
            Op::Concat => { let p = self.range(n.a); let q = self.range(n.b); let bw = self.w(n.b); ((p.0 << bw) | q.0, (p.1 << bw) | q.1) }
            Op::Extract => { if n.k == 0 { if self.w(n.a) <= 64 { let p = self.range(n.a); if p.1 <= full { p } else { (0, full) } } else { (0, full) } }
                else if self.w(n.a) <= 64 { let p = self.range(n.a); let l = p.0 >> n.k; let h = p.1 >> n.k; if h <= full { (l, h) } else { (0, full) } } else { (0, full) } }
            _ => (0, full),
        };
        self.rng_memo[x as usize] = r;
        r
    }
    /// number of known-zero low bits
    pub fn tz(&self, x: X) -> u32 {
        let n = self.node(x);
        let w = n.w as u32;
        match n.op {
            Op::Const => if n.k == 0 { w } else { n.k.trailing_zeros() },
            Op::Concat => { let bw = self.w(n.b); let t = self.tz(n.b); if t >= bw { bw + self.tz(n.a) } else { t } }
            Op::ZExt | Op::SExt => { let t = self.tz(n.a); if t >= self.w(n.a) { w } else { t } }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(w),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            Op::Extract => { let t = self.tz(n.a); (t.saturating_sub(n.k as u32)).min(w) }
            _ => 0,
        }
    }

    pub fn not(&mut self, a: X) -> X {
        let n = self.node(a); let w = n.w as u32;
        match n.op {
            Op::Const => return self.k(w, !n.k),
            Op::Not => return n.a,
            Op::Ult => if w == 1 { return self.mk(Op::Ule, 1, n.b, n.a, 0, 0) },
            Op::Ule => if w == 1 { return self.mk(Op::Ult, 1, n.b, n.a, 0, 0) },
            Op::Slt => if w == 1 { return self.mk(Op::Sle, 1, n.b, n.a, 0, 0) },
            Op::Sle => if w == 1 { return self.mk(Op::Slt, 1, n.b, n.a, 0, 0) },
            Op::Ite => if w == 1 && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) { let p = self.not(n.b); let q = self.not(n.c); return self.ite(n.a, p, q) },
            _ => {}
        }
        self.mk(Op::Not, w, a, 0, 0, 0)
    }
    pub fn neg(&mut self, a: X) -> X { let w = self.w(a); let z = self.k(w, 0); self.bin(Op::Sub, z, a) }

    fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
            Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
            Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let s = b.min(w as u128 - 1); (sx(a, w) >> s) as u128 }
            _ => unreachable!(),
        };
        r & m
    }

    pub fn bin(&mut self, op: Op, mut a: X, mut b: X) -> X {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = Self::fold(op, w, x, y); return self.k(w, v); }
        // commutative: constant on the right, else ordered
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                let na = self.node(a);
                if let Some(k2) = cb { if na.op == Op::Add { if let Some(k1) = self.cv(na.b) { let k = self.k(w, k1.wrapping_add(k2)); return self.bin(Op::Add, na.a, k); } } }
                if cb.is_none() && na.op == Op::Add && self.cv(na.b).is_some() { let t = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, t, na.b); }
                let nb = self.node(b);
                if nb.op == Op::Add && self.cv(nb.b).is_some() { let t = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, t, nb.b); }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if cb.is_none() && self.disjoint(a, b) { return self.bin(Op::Or, a, b); }
                if let Some(k) = cb { if na.op == Op::Concat { let bw = self.w(na.b); if k & mask(bw) == 0 { if let Some(h) = self.cv(na.a) { let h = self.k(w - bw, h.wrapping_add(k >> bw)); return self.concat(h, na.b); } } } }
            }
            Op::Sub => {
                if a == b { return self.k(w, 0); }
                if let Some(k) = cb { let nk = self.k(w, (!k).wrapping_add(1)); return self.bin(Op::Add, a, nk); }
                let (na, nb) = (self.node(a), self.node(b));
                if na.op == Op::Add && na.b == b { return na.a; }
                if na.op == Op::Add && na.a == b { return na.b; }
                if na.op == Op::Add && self.cv(na.b).is_some() { let t = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, t, na.b); }
                if nb.op == Op::Add { if let Some(k) = self.cv(nb.b) { let t = self.bin(Op::Sub, a, nb.a); let nk = self.k(w, (!k).wrapping_add(1)); return self.bin(Op::Add, t, nk); } }
            }
            Op::Mul => {
                if cb == Some(0) { return b; } if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.k(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(k) = cb { if k != 0 && k.is_power_of_two() { let s = self.k(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); } if w <= 64 && k != 0 && (self.range(a).1 as u128) < k { return self.k(w, 0); } } }
            Op::URem => { if cb == Some(1) { return self.k(w, 0); } if let Some(k) = cb { if k != 0 && k.is_power_of_two() { let s = self.k(w, k - 1); return self.bin(Op::And, a, s); } if w <= 64 && k != 0 && (self.range(a).1 as u128) < k { return a; } } }
            Op::And => {
                if cb == Some(0) { return b; } if cb == Some(m) { return a; } if a == b { return a; }
                if w == 1 { let (na, nb) = (self.node(a), self.node(b)); if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.fls; } }
                if let Some(k) = cb {
                    let na = self.node(a);
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 { let lw = k.trailing_ones(); let e = self.extract(a, 0, lw); return self.zext(e, w); }
                    if na.op == Op::And { if let Some(k1) = self.cv(na.b) { let kk = self.k(w, k & k1); return self.bin(Op::And, na.a, kk); } }
                    match na.op {
                        Op::Concat => { let bw = self.w(na.b); let kh = self.k(w - bw, k >> bw); let kl = self.k(bw, k); let h = self.bin(Op::And, na.a, kh); let l = self.bin(Op::And, na.b, kl); return self.concat(h, l); }
                        Op::ZExt => { let iw = self.w(na.a); let kl = self.k(iw, k); let l = self.bin(Op::And, na.a, kl); return self.zext(l, w); }
                        Op::Ite => if self.cv(na.b).is_some() && self.cv(na.c).is_some() { let p = self.bin(Op::And, na.b, b); let q = self.bin(Op::And, na.c, b); return self.ite(na.a, p, q); },
                        _ => {}
                    }
                    // high contiguous mask: concat(extract hi, 0)
                    let t = k.trailing_zeros();
                    if t > 0 && k == (m >> t) << t { let e = self.extract(a, t, w - t); let z = self.k(t, 0); return self.concat(e, z); }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a; } if cb == Some(m) { return b; } if a == b { return a; }
                if w == 1 { let (na, nb) = (self.node(a), self.node(b)); if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.tru; } }
                // split along concat boundaries
                if w > 1 { if let Some(bw) = self.split_point(a).or_else(|| self.split_point(b)) {
                    let (ah, al) = (self.extract(a, bw, w - bw), self.extract(a, 0, bw));
                    let (bh, bl) = (self.extract(b, bw, w - bw), self.extract(b, 0, bw));
                    let z = |c: &Ctx, x: X| c.cv(x) == Some(0);
                    if z(self, ah) || z(self, al) || z(self, bh) || z(self, bl) {
                        let h = self.bin(Op::Or, ah, bh); let l = self.bin(Op::Or, al, bl); return self.concat(h, l);
                    }
                } }
            }
            Op::Xor => { if cb == Some(0) { return a; } if a == b { return self.k(w, 0); } if cb == Some(m) { return self.not(a); }
                if let Some(k2) = cb { let na = self.node(a); if na.op == Op::Xor { if let Some(k1) = self.cv(na.b) { let k = self.k(w, k1 ^ k2); return self.bin(Op::Xor, na.a, k); } } } 
                if w > 1 { if let Some(bw) = self.split_point(a).or_else(|| self.split_point(b)) {
                    let (ah, al) = (self.extract(a, bw, w - bw), self.extract(a, 0, bw));
                    let (bh, bl) = (self.extract(b, bw, w - bw), self.extract(b, 0, bw));
                    let z = |c: &Ctx, x: X| c.cv(x) == Some(0);
                    if z(self, ah) || z(self, al) || z(self, bh) || z(self, bl) {
                        let h = self.bin(Op::Xor, ah, bh); let l = self.bin(Op::Xor, al, bl); return self.concat(h, l);
                    }
                } }
            }
            Op::Shl => { if cb == Some(0) { return a; } if let Some(k) = cb { if k >= w as u128 { return self.k(w, 0); } let k = k as u32; let e = self.extract(a, 0, w - k); let z = self.k(k, 0); return self.concat(e, z); } }
            Op::LShr => { if cb == Some(0) { return a; } if let Some(k) = cb { if k >= w as u128 { return self.k(w, 0); } let k = k as u32; let e = self.extract(a, k, w - k); return self.zext(e, w); } }
            Op::AShr => { if cb == Some(0) { return a; } if let Some(k) = cb { let k = (k.min(w as u128 - 1)) as u32; let e = self.extract(a, k, w - k); return self.sext(e, w); } }
            _ => {}
        }
        // distribute over ite with constant arms
        if cb.is_some() { let na = self.node(a); if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() { let p = self.bin(op, na.b, b); let q = self.bin(op, na.c, b); return self.ite(na.a, p, q); } }
        self.mk(op, w, a, b, 0, 0)
    }
    fn split_point(&self, a: X) -> Option<u32> { let n = self.node(a); match n.op { Op::Concat => Some(self.w(n.b)), Op::ZExt => Some(self.w(n.a)), _ => None } }
    fn disjoint(&mut self, a: X, b: X) -> bool {
        let w = self.w(a); if w > 64 { return false; }
        let (ra, rb) = (self.range(a).1, self.range(b).1);
        let (ta, tb) = (self.tz(a), self.tz(b));
        (tb < 64 && ra >> tb == 0 && tb > 0) || (ta < 64 && rb >> ta == 0 && ta > 0)
    }
    pub fn extract(&mut self, a: X, lo: u32, w: u32) -> X {
        let n = self.node(a); let aw = n.w as u32;
        debug_assert!(lo + w <= aw);
        if w == aw { return a; }
        match n.op {
            Op::Const => return self.k(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => { let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - bw); let l = self.extract(n.b, lo, bw - lo); return self.concat(h, l); }
            Op::ZExt => { let iw = self.w(n.a);
                if lo >= iw { return self.k(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let e = self.extract(n.a, lo, iw - lo); return self.zext(e, w); }
            Op::SExt => { let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let e = self.extract(n.a, lo, iw - lo); return self.sext(e, w); }
                let e = self.extract(n.a, iw - 1, 1); return self.sext(e, w); }
            Op::Ite => if self.cv(n.b).is_some() || self.cv(n.c).is_some() { let p = self.extract(n.b, lo, w); let q = self.extract(n.c, lo, w); return self.ite(n.a, p, q); },
            Op::And | Op::Or | Op::Xor => { let p = self.extract(n.a, lo, w); let q = self.extract(n.b, lo, w); return self.bin(n.op, p, q); }
            Op::Not => { let p = self.extract(n.a, lo, w); return self.not(p); }
            Op::Add | Op::Sub | Op::Mul => if lo == 0 { let p = self.extract(n.a, 0, w); let q = self.extract(n.b, 0, w); return self.bin(n.op, p, q); },
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, a: X, b: X) -> X {
        let (na, nb) = (self.node(a), self.node(b));
        let (wa, wb) = (na.w as u32, nb.w as u32);
        let w = wa + wb;
        assert!(w <= 4096);
        if w <= 128 { if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.k(w, (x << wb) | y); } }
        if self.cv(a) == Some(0) { return self.zext(b, w); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 { return self.extract(na.a, nb.k as u32, w); }
        // right-assoc: concat(concat(p,q),b) -> concat(p, concat(q,b)) when q,b merge
        if na.op == Op::Concat { let nq = self.node(na.b); if (nq.op == Op::Extract && nb.op == Op::Extract && nq.a == nb.a && nq.k == nb.k + wb as u128) || (self.cv(na.b).is_some() && self.cv(b).is_some()) { let t = self.concat(na.b, b); return self.concat(na.a, t); } }
        if na.op == Op::ZExt { let iw = self.w(na.a); let _ = iw; let t = self.concat(na.a, b); return self.zext(t, w); }
        if na.op == Op::Extract && nb.op == Op::Concat { let np = self.node(nb.a); if np.op == Op::Extract && np.a == na.a && na.k == np.k + np.w as u128 { let t = self.concat(a, nb.a); return self.concat(t, nb.b); } }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: X, w: u32) -> X {
        let n = self.node(a); if n.w as u32 == w { return a; }
        match n.op {
            Op::Const if w <= 128 => return self.k(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if self.cv(n.b).is_some() && self.cv(n.c).is_some() { let p = self.zext(n.b, w); let q = self.zext(n.c, w); return self.ite(n.a, p, q); },
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: X, w: u32) -> X {
        let n = self.node(a); let aw = n.w as u32; if aw == w { return a; }
        match n.op {
            Op::Const => return self.k(w, sx(n.k, aw) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if self.cv(n.b).is_some() && self.cv(n.c).is_some() { let p = self.sext(n.b, w); let q = self.sext(n.c, w); return self.ite(n.a, p, q); },
            _ => {}
        }
        if aw == 1 { let m = self.k(w, !0); let z = self.k(w, 0); return self.ite(a, m, z); }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: X, a: X, b: X) -> X {
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.node(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
        if na.op == Op::Ite && na.c == b { let cd = self.bin(Op::And, c, na.a); return self.ite(cd, na.b, b); }
        if nb.op == Op::Ite && nb.b == a { let cd = self.bin(Op::Or, c, nb.a); return self.ite(cd, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.ite(c, na.a, nb.a); return self.zext(t, w); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, mut a: X, mut b: X) -> X {
        if a == b { return self.tru; }
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return if x == y { self.tru } else { self.fls }; }
        if ca.is_some() { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 { if let Some(k) = cb { return if k == 1 { a } else { self.not(a) }; } }
        let na = self.node(a); let nb = self.node(b);
        if let Some(k) = cb {
            if w <= 64 { let r = self.range(a); if (k as u64) < r.0 || (k as u64) > r.1 { return self.fls; } }
            match na.op {
                Op::ZExt => { let iw = self.w(na.a); if k >> iw != 0 { return self.fls; } let kk = self.k(iw, k); return self.eq(na.a, kk); }
                Op::SExt => { let iw = self.w(na.a); if (sx(k & mask(iw), iw) as u128) & mask(w) != k { return self.fls; } let kk = self.k(iw, k); return self.eq(na.a, kk); }
                Op::Concat => { let bw = self.w(na.b); let kh = self.k(w - bw, k >> bw); let kl = self.k(bw, k); let p = self.eq(na.a, kh); if p == self.fls { return p; } let q = self.eq(na.b, kl); return self.bin(Op::And, p, q); }
                Op::Ite => { if self.cv(na.b).is_some() || self.cv(na.c).is_some() { let p = self.eq(na.b, b); let q = self.eq(na.c, b); return self.ite(na.a, p, q); } }
                Op::Add => if let Some(k1) = self.cv(na.b) { let kk = self.k(w, k.wrapping_sub(k1)); return self.eq(na.a, kk); },
                Op::Xor => if let Some(k1) = self.cv(na.b) { let kk = self.k(w, k ^ k1); return self.eq(na.a, kk); },
                Op::Not => { let kk = self.k(w, !k); return self.eq(na.a, kk); }
                Op::Or if k == 0 => { let z = self.k(w, 0); let p = self.eq(na.a, z); let q = self.eq(na.b, z); return self.bin(Op::And, p, q); }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a)); let ww = wa.max(wb);
                let p = self.zext(na.a, ww); let q = self.zext(nb.a, ww); return self.eq_raw(p, q);
            }
            if na.op == Op::Concat || nb.op == Op::Concat {
                let sp = if na.op == Op::Concat { self.w(na.b) } else { self.w(nb.b) };
                let (ah, al) = (self.extract(a, sp, w - sp), self.extract(a, 0, sp));
                let (bh, bl) = (self.extract(b, sp, w - sp), self.extract(b, 0, sp));
                let p = self.eq(ah, bh); if p == self.fls { return p; } let q = self.eq(al, bl); return self.bin(Op::And, p, q);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
            if na.op == Op::Add && na.a == b { let z = self.k(w, 0); return self.eq(na.b, z); }
            if nb.op == Op::Add && nb.a == a { let z = self.k(w, 0); return self.eq(nb.b, z); }
        }
        self.eq_raw(a, b)
    }
    fn eq_raw(&mut self, mut a: X, mut b: X) -> X {
        if a == b { return self.tru; }
        if self.cv(b).is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: X, b: X) -> X {
        if a == b { return self.fls; }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return if x < y { self.tru } else { self.fls }; }
        if cb == Some(0) { return self.fls; }
        if ca == Some(mask(w)) { return self.fls; }
        if cb == Some(1) { let z = self.k(w, 0); return self.eq(a, z); }
        if ca == Some(0) { let z = self.k(w, 0); let e = self.eq(b, z); return self.not(e); }
        if w <= 64 { let (ra, rb) = (self.range(a), self.range(b)); if ra.1 < rb.0 { return self.tru; } if ra.0 >= rb.1 { return self.fls; } }
        if w == 1 { let na = self.not(a); return self.bin(Op::And, na, b); }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt { let ww = self.w(na.a).max(self.w(nb.a)); let p = self.zext(na.a, ww); let q = self.zext(nb.a, ww); return self.ult(p, q); }
        if na.op == Op::ZExt { if let Some(k) = cb { let iw = self.w(na.a); if k > mask(iw) { return self.tru; } let q = self.k(iw, k); return self.ult(na.a, q); } }
        if nb.op == Op::ZExt { if let Some(k) = ca { let iw = self.w(nb.a); if k >= mask(iw) { return self.fls; } let q = self.k(iw, k); return self.ult(q, nb.a); } }
        if cb.is_some() && na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let p = self.ult(na.b, b); let q = self.ult(na.c, b); return self.ite(na.a, p, q); }
        if ca.is_some() && nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let p = self.ult(a, nb.b); let q = self.ult(a, nb.c); return self.ite(nb.a, p, q); }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: X, b: X) -> X { let t = self.ult(b, a); self.not(t) }
    pub fn slt(&mut self, a: X, b: X) -> X {
        if a == b { return self.fls; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if sx(x, w) < sx(y, w) { self.tru } else { self.fls }; }
        if w <= 64 && w > 1 {
            let (ra, rb) = (self.range(a), self.range(b));
            let half = 1u64 << (w - 1);
            // both non-negative: unsigned compare
            if ra.1 < half && rb.1 < half { return self.ult(a, b); }
            if ra.0 >= half && rb.0 >= half { return self.ult(a, b); }
            if ra.0 >= half && rb.1 < half { return self.tru; }
            if ra.1 < half && rb.0 >= half { return self.fls; }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if self.cv(b).is_some() && na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let p = self.slt(na.b, b); let q = self.slt(na.c, b); return self.ite(na.a, p, q); }
        if self.cv(a).is_some() && nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let p = self.slt(a, nb.b); let q = self.slt(a, nb.c); return self.ite(nb.a, p, q); }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        // sign test: a < 0
        if self.cv(b) == Some(0) { return self.extract(a, w - 1, 1); }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: X, b: X) -> X { let t = self.slt(b, a); self.not(t) }

    pub fn fop(&mut self, op: Op, w: u32, mut a: X, mut b: X, k: u128) -> X {
        if self.cv(a).is_some() && (b == 0 || self.cv(b).is_some()) {
            let n = Node { op, w: w as u16, a, b, c: 0, k };
            let va = self.cv(a).unwrap(); let vb = if b == 0 { 0 } else { self.cv(b).unwrap() };
            let v = Self::feval(&n, self.w(a), va, vb); return self.k(w, v);
        }
        // one form for equal terms: commutative operands in order, constants last; x - c is x + (-c)
        if op == Op::FSub { if let Some(y) = self.cv(b) { let nb = self.k(w, y ^ 1u128 << (w - 1)); return self.fop(Op::FAdd, w, a, nb, k); } }
        if matches!(op, Op::FAdd | Op::FMul | Op::FEq) && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        self.mk(op, w, a, b, 0, k)
    }
    /// a * b + c, rounded once
    pub fn fma(&mut self, w: u32, mut a: X, mut b: X, c: X) -> X {
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) { let v = Self::fma_eval(w, x, y, z); return self.k(w, v); }
        let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
        if self.cv(b) == Some(one) { return self.fop(Op::FAdd, w, a, c, 0); }
        if self.cv(a) == Some(one) { return self.fop(Op::FAdd, w, b, c, 0); }
        // an integer times a moderate power of two is exact
        if let (64, Some(k)) = (w, self.cv(b)) { let e = (k >> 52) & 0x7ff; let n = self.node(a); if k & ((1 << 52) - 1) == 0 && (623..=1423).contains(&e) && matches!(n.op, Op::SToF | Op::UToF) && self.w(n.a) <= 64 { let m = self.fop(Op::FMul, w, a, b, 0); return self.fop(Op::FAdd, w, m, c, 0); } }
        self.mk(Op::FMa, w, a, b, c, 0)
    }
    fn fma_eval(w: u32, a: u128, b: u128, c: u128) -> u128 { if w == 32 { f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u128 } else { f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(c as u64)).to_bits() as u128 } }
    pub fn feval(n: &Node, aw: u32, a: u128, b: u128) -> u128 {
        let f32s = |x: u128| f32::from_bits(x as u32); let f64s = |x: u128| f64::from_bits(x as u64);
        let w = n.w as u32;
        match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => if w == 32 { let (x, y) = (f32s(a), f32s(b)); (match n.op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y }).to_bits() as u128 }
                else { let (x, y) = (f64s(a), f64s(b)); (match n.op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y }).to_bits() as u128 },
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => { let (x, y) = if aw == 32 { (f32s(a) as f64, f32s(b) as f64) } else { (f64s(a), f64s(b)) };
                (match n.op { Op::FEq => x == y, Op::FLt => x < y, Op::FLe => x <= y, _ => x.is_nan() || y.is_nan() }) as u128 }
            Op::FToF => if aw == w { a } else if w == 64 { (f32s(a) as f64).to_bits() as u128 } else { (f64s(a) as f32).to_bits() as u128 },
            Op::SToF => { let v = sx(a, aw); if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
            Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
            Op::FToS => { let v = if aw == 32 { f32s(a) as i128 } else { f64s(a) as i128 }; let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; (v.clamp(lo, hi) as u128) & mask(w) }
            Op::FToU => { let v = if aw == 32 { f32s(a) as u128 } else { f64s(a) as u128 }; v.min(mask(w)) }
            Op::FSqrt => if w == 32 { f32s(a).sqrt().to_bits() as u128 } else { f64s(a).sqrt().to_bits() as u128 },
            Op::FRound => { let f = |x: f64| match n.k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() }; if w == 32 { (f(f32s(a) as f64) as f32).to_bits() as u128 } else { f(f64s(a)).to_bits() as u128 } }
            _ => unreachable!(),
        }
    }

    /// sorted set of input bytes an expression depends on
    pub fn vars(&mut self, x: X) -> Rc<[u32]> {
        if let Some(v) = &self.vars_memo[x as usize] { return v.clone(); }
        // iterative post-order
        let mut st = vec![(x, false)];
        while let Some((y, done)) = st.pop() {
            if self.vars_memo[y as usize].is_some() { continue; }
            let n = self.node(y);
            if n.op == Op::Const { self.vars_memo[y as usize] = Some(Rc::from(vec![])); continue; }
            if n.op == Op::Var { self.vars_memo[y as usize] = Some(Rc::from(vec![n.k as u32])); continue; }
            if !done { st.push((y, true)); for c in [n.a, n.b, n.c] { if c != 0 { st.push((c, false)); } } continue; }
            let mut out: Option<Rc<[u32]>> = None;
            for c in [n.a, n.b, n.c] { if c != 0 {
                let v = self.vars_memo[c as usize].clone().unwrap();
                out = Some(match out { None => v, Some(o) => if v.is_empty() || Rc::ptr_eq(&o, &v) { o } else if o.is_empty() { v } else {
                    let mut m: Vec<u32> = o.iter().chain(v.iter()).copied().collect(); m.sort_unstable(); m.dedup();
                    if m.len() == o.len() { o } else if m.len() == v.len() { v } else { Rc::from(m) } } });
            } }
            self.vars_memo[y as usize] = out;
        }
        self.vars_memo[x as usize].clone().unwrap()
    }

    /// value of an expression under a complete assignment of the input bytes (missing = 0)
    pub fn eval(&mut self, x: X, model: &Rc<Vec<u8>>) -> u128 {
        let same = match &self.ev_model { Some(m) => Rc::ptr_eq(m, model), None => false };
        if !same { self.ev_gen = self.ev_gen.wrapping_add(1); if self.ev_gen == 0 { for e in self.ev.iter_mut() { e.0 = 0; } self.ev_gen = 1; } self.ev_model = Some(model.clone()); }
        let g = self.ev_gen;
        if self.n[x as usize].op == Op::Const { return self.n[x as usize].k; }
        if self.ev[x as usize].0 == g { return self.ev[x as usize].1; }
        let mut st = vec![x];
        while let Some(&y) = st.last() {
            if self.ev[y as usize].0 == g { st.pop(); continue; }
            let n = self.n[y as usize];
            if n.op == Op::Const { self.ev[y as usize] = (g, n.k); st.pop(); continue; }
            if n.op == Op::Var { let v = model.get(n.k as usize).copied().unwrap_or(0) as u128; self.ev[y as usize] = (g, v); st.pop(); continue; }
            if n.op == Op::Ite {
                if self.ev[n.a as usize].0 != g { st.push(n.a); continue; }
                let t = if self.ev[n.a as usize].1 == 1 { n.b } else { n.c };
                if self.ev[t as usize].0 != g { st.push(t); continue; }
                self.ev[y as usize] = (g, self.ev[t as usize].1); st.pop(); continue;
            }
            let mut need = false;
            for c in [n.a, n.b, n.c] { if c != 0 && self.ev[c as usize].0 != g { st.push(c); need = true; } }
            if need { continue; }
            let a = self.ev[n.a as usize].1; let b = if n.b != 0 { self.ev[n.b as usize].1 } else { 0 };
            let w = n.w as u32; let aw = self.n[n.a as usize].w as u32;
            let v = match n.op {
                Op::Not => !a & mask(w), Op::Neg => (!a).wrapping_add(1) & mask(w),
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => Self::fold(n.op, w, a, b),
                Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
                Op::Slt => (sx(a, aw) < sx(b, aw)) as u128, Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
                Op::Concat => { let bw = self.n[n.b as usize].w as u32; assert!(w <= 128); (a << bw) | b }
                Op::Extract => (a >> n.k) & mask(w),
                Op::ZExt => a, Op::SExt => sx(a, aw) as u128 & mask(w),
                Op::FMa => Self::fma_eval(w, a, b, self.ev[n.c as usize].1),
                _ => Self::feval(&n, aw, a, b),
            };
            self.ev[y as usize] = (g, v); st.pop();
        }
        self.ev[x as usize].1
    }

    /// truth table of a width-1 expression over its single input byte
    pub fn truth(&mut self, x: X) -> [u64; 4] {
        if let Some(t) = self.tt.get(&x) { return *t; }
        let v = self.vars(x)[0] as usize;
        let mut t = [0u64; 4];
        let save = self.ev_model.take();
        let mut m = vec![0u8; v + 1];
        for b in 0..256usize {
            m[v] = b as u8;
            let r = Rc::new(m);
            if self.eval(x, &r) == 1 { t[b >> 6] |= 1 << (b & 63); }
            self.ev_model = None;
            m = match Rc::try_unwrap(r) { Ok(m) => m, Err(r) => (*r).clone() };
        }
        let _ = save;
        self.tt.insert(x, t);
        t
    }
    /// values of an expression (at most 64 bits wide) for each value of its single input byte
    pub fn table(&mut self, x: X) -> Rc<Vec<u64>> {
        if let Some(t) = self.tables.get(&x) { return t.clone(); }
        let v = self.vars(x)[0] as usize;
        let mut t = Vec::with_capacity(256);
        let mut m = vec![0u8; v + 1];
        for b in 0..256usize {
            m[v] = b as u8;
            let r = Rc::new(m);
            self.ev_model = None; t.push(self.eval(x, &r) as u64); self.ev_model = None;
            m = match Rc::try_unwrap(r) { Ok(m) => m, Err(r) => (*r).clone() };
        }
        let t = Rc::new(t); self.tables.insert(x, t.clone()); t
    }
    /// canonical constraint "byte v lies in the set d"
    pub fn in_set(&mut self, v: u32, d: &[u64; 4]) -> X {
        if *d == [!0u64; 4] { return self.tru; }
        if let Some(&x) = self.sets.get(&(v, *d)) { return x; }
        let has = |b: usize| d[b >> 6] >> (b & 63) & 1 == 1;
        let var = self.var(v);
        let mut acc = self.fls; let mut b = 0;
        while b < 256 {
            if !has(b) { b += 1; continue; }
            let lo = b; while b < 256 && has(b) { b += 1; } let hi = b - 1;
            let r = if lo == hi { let k = self.k(8, lo as u128); self.eq_raw(var, k) } else {
                let (kl, kh) = (self.k(8, lo as u128), self.k(8, hi as u128));
                let p = if lo == 0 { self.tru } else { self.ule(kl, var) }; let q = if hi == 255 { self.tru } else { self.ule(var, kh) };
                self.bin(Op::And, p, q) };
            acc = self.bin(Op::Or, acc, r);
        }
        self.sets.insert((v, *d), acc);
        acc
    }
}
impl Ctx {
    pub fn show(&self, x: X, d: u32) -> String {
        let n = self.node(x);
        match n.op { Op::Const => return format!("{:#x}", n.k), Op::Var => return format!("b{}", n.k), _ => {} }
        if d == 0 { return format!("#{}", x); }
        let mut s = format!("({:?}{}", n.op, n.w); if n.op == Op::Extract { s += &format!("@{}", n.k); }
        for c in [n.a, n.b, n.c] { if c != 0 { s.push(' '); s += &self.show(c, d - 1); } }
        s.push(')'); s
    }
    pub fn size(&self, x: X) -> usize { let mut seen = std::collections::HashSet::new(); let mut st = vec![x]; while let Some(y) = st.pop() { if y != 0 && seen.insert(y) { let n = self.node(y); st.extend([n.a, n.b, n.c]); } } seen.len() }
}
