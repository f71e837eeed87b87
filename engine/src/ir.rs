//! Loads an LLVM bitcode module through the LLVM C API of the rustc that produced it and decodes it, function by
//! function, into a compact form for the symbolic interpreter.
use crate::dl::Lib;
use crate::expr::{Ctx, X};
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::rc::Rc;

pub type P = *mut c_void;
macro_rules! api { ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    #[allow(non_snake_case)] pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
    impl Api { fn load(l: &Lib) -> Api { unsafe { Api { $($name: std::mem::transmute(l.sym(concat!("LLVM", stringify!($name)))),)* } } } }
} }
api! {
    ContextCreate: fn() -> P;
    CreateMemoryBufferWithContentsOfFile: fn(*const c_char, *mut P, *mut *mut c_char) -> i32;
    ParseBitcodeInContext2: fn(P, P, *mut P) -> i32;
    GetModuleDataLayout: fn(P) -> P;
    GetFirstFunction: fn(P) -> P; GetNextFunction: fn(P) -> P;
    GetFirstGlobal: fn(P) -> P; GetNextGlobal: fn(P) -> P;
    GetFirstGlobalAlias: fn(P) -> P; GetNextGlobalAlias: fn(P) -> P; AliasGetAliasee: fn(P) -> P;
    GetValueName2: fn(P, *mut usize) -> *const c_char;
    IsDeclaration: fn(P) -> i32; GetInitializer: fn(P) -> P; IsGlobalConstant: fn(P) -> i32; GlobalGetValueType: fn(P) -> P;
    TypeOf: fn(P) -> P; GetTypeKind: fn(P) -> i32; GetIntTypeWidth: fn(P) -> c_uint;
    CountStructElementTypes: fn(P) -> c_uint; GetStructElementTypes: fn(P, *mut P); GetElementType: fn(P) -> P;
    GetArrayLength2: fn(P) -> u64; GetVectorSize: fn(P) -> c_uint;
    ABISizeOfType: fn(P, P) -> u64; StoreSizeOfType: fn(P, P) -> u64; OffsetOfElement: fn(P, P, c_uint) -> u64;
    GetReturnType: fn(P) -> P;
    CountParams: fn(P) -> c_uint; GetParam: fn(P, c_uint) -> P;
    GetFirstBasicBlock: fn(P) -> P; GetNextBasicBlock: fn(P) -> P; GetFirstInstruction: fn(P) -> P; GetNextInstruction: fn(P) -> P;
    GetInstructionOpcode: fn(P) -> i32; GetNumOperands: fn(P) -> i32; GetOperand: fn(P, c_uint) -> P;
    GetICmpPredicate: fn(P) -> i32; GetFCmpPredicate: fn(P) -> i32;
    GetNumArgOperands: fn(P) -> c_uint; GetArgOperand: fn(P, c_uint) -> P; GetCalledValue: fn(P) -> P; 
    CountIncoming: fn(P) -> c_uint; GetIncomingValue: fn(P, c_uint) -> P; GetIncomingBlock: fn(P, c_uint) -> P;
    GetNumSuccessors: fn(P) -> c_uint; GetSuccessor: fn(P, c_uint) -> P;
    GetSwitchCaseValue: fn(P, c_uint) -> P; GetSwitchDefaultDest: fn(P) -> P;
    GetAllocatedType: fn(P) -> P; GetGEPSourceElementType: fn(P) -> P;
    GetNumIndices: fn(P) -> c_uint; GetIndices: fn(P) -> *const c_uint;
    GetNumMaskElements: fn(P) -> c_uint; GetMaskValue: fn(P, c_uint) -> i32;
    GetAtomicRMWBinOp: fn(P) -> i32;
    IsAConstant: fn(P) -> P; IsAConstantInt: fn(P) -> P; IsAConstantFP: fn(P) -> P; IsAConstantPointerNull: fn(P) -> P; IsAUndefValue: fn(P) -> P; 
    IsAConstantAggregateZero: fn(P) -> P; IsAConstantDataSequential: fn(P) -> P; IsAConstantArray: fn(P) -> P; IsAConstantStruct: fn(P) -> P; IsAConstantVector: fn(P) -> P;
    IsAConstantExpr: fn(P) -> P; IsAFunction: fn(P) -> P; IsAGlobalVariable: fn(P) -> P; IsAGlobalAlias: fn(P) -> P; IsAInlineAsm: fn(P) -> P; IsNull: fn(P) -> i32;
    ConstIntGetZExtValue: fn(P) -> u64; ConstRealGetDouble: fn(P, *mut i32) -> f64; GetElementAsConstant: fn(P, c_uint) -> P; GetConstOpcode: fn(P) -> i32;
    GetRawDataValues: fn(P, *mut usize) -> *const c_char;
    GetInlineAsmAsmString: fn(P, *mut usize) -> *const c_char;
    PrintValueToString: fn(P) -> *mut c_char; PrintTypeToString: fn(P) -> *mut c_char;
    GetDebugLocLine: fn(P) -> c_uint; GetDebugLocFilename: fn(P, *mut c_uint) -> *const c_char;
}

#[derive(Clone, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F(u32), Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>, u64), Struct(Rc<(Vec<Ty>, Vec<u64>, u64)>), Other }
impl Ty {
    /// bit width of a scalar
    pub fn w(&self) -> u32 { match self { Ty::Int(w) | Ty::F(w) => *w, Ty::Ptr => 64, t => panic!("not scalar {:?}", t) } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F(_) | Ty::Ptr) }
    pub fn store_size(&self) -> u64 { match self {
        Ty::Int(w) | Ty::F(w) => (*w as u64 + 7) / 8, Ty::Ptr => 8,
        Ty::Vec(n, t) => (*n as u64 * t.w() as u64 + 7) / 8,
        Ty::Arr(n, _, s) => n * s, Ty::Struct(s) => s.2, _ => 0 } }
}

/// A register value: small constant, expression, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum V { C(u64), X(X), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK { Trunc, ZExt, SExt, FToU, FToS, UToF, SToF, FTrunc, FExt, Bits }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Asm(Rc<str>), Ind(O) }
#[derive(Clone, Debug)]
pub enum K {
    Bin(B, O, O), ICmp(i32, O, O), FCmp(i32, O, O), FNeg(O), Cast(CastK, Ty, O),
    Load(O), Store(O, O), Gep(O, i64, Vec<(O, u32, i64)>), Alloca(u64, O),
    Br(u32), CondBr(O, u32, u32), Switch(O, u32, Vec<(u128, u32)>, u32),
    Call(Callee, Vec<O>, Vec<Ty>, u32), // args, arg types, normal destination (u32::MAX = fallthrough)
    Ret(Option<O>), Unreachable, Select(O, O, O, bool),
    ExtractValue(O, Vec<u32>), InsertValue(O, O, Vec<u32>), ExtractElement(O, O), InsertElement(O, O, O), Shuffle(O, O, Vec<i32>),
    Copy(O), Rmw(i32, O, O), CmpXchg(O, O, O), Nop, Bad(String),
}
/// ty: the result type, or for Store/ICmp/FCmp the operand type
pub struct Inst { pub k: K, pub ty: Ty, pub dst: u32, pub src: P }
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub insts: Vec<Inst> }
pub struct Body { pub nregs: usize, pub nparams: usize, pub blocks: Vec<Block> }
pub struct Func { pub name: Rc<str>, pub v: P, pub decl: bool, pub body: Option<Rc<Body>>, pub addr: u64 }
pub struct Global { pub name: String, pub v: P, pub addr: u64, pub size: u64, pub constant: bool }

pub struct Module { pub f: Api, dl: P, pub funcs: Vec<Func>, pub fidx: HashMap<usize, u32>, pub globals: Vec<Global>, gidx: HashMap<usize, usize>, tys: HashMap<usize, Ty>, alias: HashMap<String, P> }

pub const OBJ_SHIFT: u32 = 32;
pub const OBJ_BASE: u64 = 0x10000;
pub fn obj_addr(id: u64) -> u64 { ((id + 1) << OBJ_SHIFT) + OBJ_BASE }
/// functions live in their own id space so that they can be recognised from the address
pub const FN_ID0: u64 = 0x4000_0000;

impl Module {
    pub fn load(llvm: &str, path: &str) -> Result<Module, String> {
        let l = Lib::open(llvm)?;
        let f = Api::load(&l);
        std::mem::forget(l);
        unsafe {
            let c = (f.ContextCreate)();
            let cp = CString::new(path).unwrap(); let mut buf: P = std::ptr::null_mut(); let mut msg: *mut c_char = std::ptr::null_mut();
            if (f.CreateMemoryBufferWithContentsOfFile)(cp.as_ptr(), &mut buf, &mut msg) != 0 { return Err(format!("cannot read {}", path)); }
            let mut m: P = std::ptr::null_mut();
            if (f.ParseBitcodeInContext2)(c, buf, &mut m) != 0 { return Err("bad bitcode".into()); }
            let dl = (f.GetModuleDataLayout)(m);
            let mut md = Module { f, dl, funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), tys: HashMap::new(), alias: HashMap::new() };
            let mut p = (md.f.GetFirstFunction)(m);
            while !p.is_null() {
                let i = md.funcs.len() as u32;
                let name: Rc<str> = Rc::from(md.name(p).as_str());
                md.fidx.insert(p as usize, i);
                let decl = (md.f.IsDeclaration)(p) != 0;
                md.funcs.push(Func { name, v: p, decl, body: None, addr: obj_addr(FN_ID0 + i as u64) });
                p = (md.f.GetNextFunction)(p);
            }
            let mut p = (md.f.GetFirstGlobal)(m);
            while !p.is_null() {
                let i = md.globals.len();
                let t = (md.f.GlobalGetValueType)(p);
                let size = (md.f.ABISizeOfType)(dl, t);
                let name = md.name(p);
                md.gidx.insert(p as usize, i);
                md.globals.push(Global { name, v: p, addr: obj_addr(i as u64), size, constant: (md.f.IsGlobalConstant)(p) != 0 });
                p = (md.f.GetNextGlobal)(p);
            }
            let mut p = (md.f.GetFirstGlobalAlias)(m);
            while !p.is_null() { let a = (md.f.AliasGetAliasee)(p); let n = md.name(p); md.alias.insert(n, a); p = (md.f.GetNextGlobalAlias)(p); }
            Ok(md)
        }
    }
    unsafe fn name(&self, p: P) -> String { let mut n = 0usize; let s = (self.f.GetValueName2)(p, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(s as *const u8, n)).into_owned() }
    pub fn show(&self, p: P) -> String { unsafe { let s = (self.f.PrintValueToString)(p); CStr::from_ptr(s).to_string_lossy().into_owned() } }
    pub fn loc(&self, p: P) -> String { unsafe {
        let l = (self.f.GetDebugLocLine)(p); let mut n = 0; let s = (self.f.GetDebugLocFilename)(p, &mut n);
        if s.is_null() { return "?".into(); }
        format!("{}:{}", String::from_utf8_lossy(std::slice::from_raw_parts(s as *const u8, n as usize)), l) } }
    pub fn find_fn(&self, name: &str) -> Option<u32> { self.funcs.iter().position(|f| &*f.name == name).map(|x| x as u32) }

    pub fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.tys.get(&(t as usize)) { return x.clone(); }
        let r = unsafe { match (self.f.GetTypeKind)(t) {
            0 => Ty::Void, 2 => Ty::F(32), 3 => Ty::F(64), 8 => Ty::Int((self.f.GetIntTypeWidth)(t)), 12 => Ty::Ptr,
            13 => { let e = (self.f.GetElementType)(t); let e = self.ty(e); Ty::Vec((self.f.GetVectorSize)(t), Rc::new(e)) }
            11 => { let e0 = (self.f.GetElementType)(t); let e = self.ty(e0); let s = (self.f.ABISizeOfType)(self.dl, e0); Ty::Arr((self.f.GetArrayLength2)(t), Rc::new(e), s) }
            10 => { let n = (self.f.CountStructElementTypes)(t) as usize; let mut v = vec![std::ptr::null_mut(); n]; (self.f.GetStructElementTypes)(t, v.as_mut_ptr());
                let fs = v.iter().map(|&e| self.ty(e)).collect(); let offs = (0..n).map(|i| (self.f.OffsetOfElement)(self.dl, t, i as u32)).collect(); let sz = (self.f.ABISizeOfType)(self.dl, t);
                Ty::Struct(Rc::new((fs, offs, sz))) }
            _ => Ty::Other,
        } };
        self.tys.insert(t as usize, r.clone());
        r
    }
    pub fn zero(cx: &mut Ctx, t: &Ty) -> V { match t {
        Ty::Int(w) | Ty::F(w) => if *w > 64 { V::X(cx.k(*w, 0)) } else { V::C(0) },
        Ty::Ptr => V::C(0),
        Ty::Vec(n, e) => { let z = Self::zero(cx, e); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Arr(n, e, _) => { let z = Self::zero(cx, e); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Struct(s) => V::A(Rc::new(s.0.iter().map(|e| Self::zero(cx, e)).collect())),
        _ => V::C(0) } }
    pub fn konst(&mut self, cx: &mut Ctx, p: P) -> Result<V, String> { unsafe {
        let t = (self.f.TypeOf)(p); let t = self.ty(t);
        if !(self.f.IsAUndefValue)(p).is_null() || !(self.f.IsAConstantAggregateZero)(p).is_null() || !(self.f.IsAConstantPointerNull)(p).is_null() { return Ok(Self::zero(cx, &t)); }
        if !(self.f.IsAConstantInt)(p).is_null() {
            if let Ty::Vec(n, e) = &t { // splat ConstantInt vector
                let s = self.show(p); let v = s.rsplit(' ').next().unwrap_or("").trim_end_matches(')').to_string(); let k: i128 = v.parse().map_err(|_| format!("const {}", s))?;
                return Ok(V::A(Rc::new(vec![V::C((k as u64) & (crate::expr::mask(e.w()) as u64)); *n as usize]))); }
            let w = t.w();
            if w <= 64 { return Ok(V::C((self.f.ConstIntGetZExtValue)(p))); }
            let s = self.show(p); let v = s.rsplit(' ').next().unwrap(); let k: i128 = match v.parse::<i128>() { Ok(k) => k, Err(_) => v.parse::<u128>().map_err(|_| format!("const {}", s))? as i128 };
            return Ok(V::X(cx.k(w, k as u128)));
        }
        if !(self.f.IsAConstantFP)(p).is_null() {
            let mut l = 0; let d = (self.f.ConstRealGetDouble)(p, &mut l);
            return Ok(match t { Ty::F(32) => V::C((d as f32).to_bits() as u64), Ty::F(64) => V::C(d.to_bits()), _ => return Err("fp const".into()) });
        }
        if !(self.f.IsAConstantDataSequential)(p).is_null() {
            let (n, _e) = match &t { Ty::Arr(n, e, _) => (*n as usize, e.clone()), Ty::Vec(n, e) => (*n as usize, e.clone()), _ => return Err("cds".into()) };
            let mut out = Vec::with_capacity(n);
            for i in 0..n { let e = (self.f.GetElementAsConstant)(p, i as u32); out.push(self.konst(cx, e)?); }
            return Ok(V::A(Rc::new(out)));
        }
        if !(self.f.IsAConstantArray)(p).is_null() || !(self.f.IsAConstantStruct)(p).is_null() || !(self.f.IsAConstantVector)(p).is_null() {
            let n = (self.f.GetNumOperands)(p); let mut out = vec![];
            for i in 0..n { let e = (self.f.GetOperand)(p, i as u32); out.push(self.konst(cx, e)?); }
            return Ok(V::A(Rc::new(out)));
        }
        if let Some(&i) = self.fidx.get(&(p as usize)) { return Ok(V::C(self.funcs[i as usize].addr)); }
        if let Some(&i) = self.gidx.get(&(p as usize)) { return Ok(V::C(self.globals[i].addr)); }
        if !(self.f.IsAGlobalAlias)(p).is_null() { let a = (self.f.AliasGetAliasee)(p); return self.konst(cx, a); }
        if !(self.f.IsAConstantExpr)(p).is_null() {
            let op = (self.f.GetConstOpcode)(p);
            let arg = |i: u32| (self.f.GetOperand)(p, i);
            let cst = |v: V| match v { V::C(c) => Ok(c), v => Err(format!("constexpr operand {:?}", v)) };
            match op {
                29 => {
                    let (base, off, terms) = self.gep(cx, p, &HashMap::new())?;
                    if !terms.is_empty() { return Err("gep constexpr".into()); }
                    let b = match base { O::K(v) => cst(v)?, _ => return Err("gep".into()) };
                    return Ok(V::C(b.wrapping_add(off as u64)));
                }
                39 | 40 | 41 | 60 | 69 => { let a = arg(0); return self.konst(cx, a); }
                8 | 10 | 25 => { let a = arg(0); let b = arg(1); let a = self.konst(cx, a)?; let b = self.konst(cx, b)?; let (a, b) = (cst(a)?, cst(b)?);
                    let w = t.w(); let r = match op { 8 => a.wrapping_add(b), 10 => a.wrapping_sub(b), _ => a ^ b }; return Ok(V::C(r & crate::expr::mask(w) as u64)); }
                30 => { let a = arg(0); let a = self.konst(cx, a)?; let a = cst(a)?; return Ok(V::C(a & crate::expr::mask(t.w()) as u64)); }
                _ => return Err(format!("constexpr {}", self.show(p))),
            }
        }
        Err(format!("constant {}", self.show(p)))
    } }
    unsafe fn gep(&mut self, cx: &mut Ctx, p: P, regs: &HashMap<usize, u32>) -> Result<(O, i64, Vec<(O, u32, i64)>), String> {
        let n = (self.f.GetNumOperands)(p) as u32;
        let b0 = (self.f.GetOperand)(p, 0);
        let base = self.opnd(cx, b0, regs)?;
        let mut t = (self.f.GetGEPSourceElementType)(p);
        let mut off = 0i64; let mut terms = vec![];
        for i in 1..n {
            let ix = (self.f.GetOperand)(p, i);
            let iw = { let ty = (self.f.TypeOf)(ix); let ty = self.ty(ty); match ty { Ty::Int(w) => w, _ => return Err("vector gep".into()) } };
            let o = self.opnd(cx, ix, regs)?;
            if i == 1 { let s = (self.f.ABISizeOfType)(self.dl, t) as i64; Self::term(&mut off, &mut terms, o, iw, s); continue; }
            match (self.f.GetTypeKind)(t) {
                10 => { let k = match o { O::K(V::C(c)) => c as u32, _ => return Err("struct gep".into()) };
                    off += (self.f.OffsetOfElement)(self.dl, t, k) as i64;
                    let m = (self.f.CountStructElementTypes)(t) as usize; let mut v = vec![std::ptr::null_mut(); m]; (self.f.GetStructElementTypes)(t, v.as_mut_ptr()); t = v[k as usize]; }
                _ => { t = (self.f.GetElementType)(t); let s = (self.f.ABISizeOfType)(self.dl, t) as i64; Self::term(&mut off, &mut terms, o, iw, s); }
            }
        }
        Ok((base, off, terms))
    }
    fn term(off: &mut i64, terms: &mut Vec<(O, u32, i64)>, o: O, iw: u32, s: i64) {
        match o { O::K(V::C(c)) => { let sh = 64 - iw; let c = ((c << sh) as i64) >> sh; *off = off.wrapping_add(c.wrapping_mul(s)); } o => terms.push((o, iw, s)) }
    }
    unsafe fn opnd(&mut self, cx: &mut Ctx, p: P, regs: &HashMap<usize, u32>) -> Result<O, String> {
        if let Some(&r) = regs.get(&(p as usize)) { return Ok(O::R(r)); }
        if !(self.f.IsAConstant)(p).is_null() { return Ok(O::K(self.konst(cx, p)?)); }
        Ok(O::K(V::C(0))) // metadata and the like
    }
    pub fn body(&mut self, cx: &mut Ctx, fi: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[fi as usize].body { return b.clone(); }
        let b = Rc::new(unsafe { self.decode(cx, self.funcs[fi as usize].v) });
        self.funcs[fi as usize].body = Some(b.clone());
        b
    }
    unsafe fn decode(&mut self, cx: &mut Ctx, fv: P) -> Body {
        let mut regs: HashMap<usize, u32> = HashMap::new(); let mut blocks: HashMap<usize, u32> = HashMap::new();
        let np = (self.f.CountParams)(fv);
        for i in 0..np { let p = (self.f.GetParam)(fv, i); let r = regs.len() as u32; regs.insert(p as usize, r); }
        let mut bbs = vec![];
        let mut bb = (self.f.GetFirstBasicBlock)(fv);
        while !bb.is_null() {
            blocks.insert(bb as usize, bbs.len() as u32); bbs.push(bb);
            let mut i = (self.f.GetFirstInstruction)(bb);
            while !i.is_null() { let r = regs.len() as u32; regs.insert(i as usize, r); i = (self.f.GetNextInstruction)(i); }
            bb = (self.f.GetNextBasicBlock)(bb);
        }
        let mut out = vec![];
        for bb in bbs {
            let mut blk = Block { phis: vec![], insts: vec![] };
            let mut i = (self.f.GetFirstInstruction)(bb);
            while !i.is_null() {
                let dst = regs[&(i as usize)];
                let op = (self.f.GetInstructionOpcode)(i);
                if op == 44 {
                    let n = (self.f.CountIncoming)(i); let mut v = vec![];
                    for k in 0..n { let b = blocks[&((self.f.GetIncomingBlock)(i, k) as usize)]; let x = (self.f.GetIncomingValue)(i, k); match self.opnd(cx, x, &regs) { Ok(o) => v.push((b, o)), Err(_) => v.push((b, O::K(V::C(0xdead)))) } }
                    blk.phis.push((dst, v));
                } else {
                    let t = (self.f.TypeOf)(i); let ty = self.ty(t);
                    let r = self.inst(cx, i, op, ty.clone(), &regs, &blocks);
                    let (k, ty) = match r { Ok((k, t)) => (k, t.unwrap_or(ty)), Err(e) => (K::Bad(e), ty) };
                    if !matches!(k, K::Nop) { blk.insts.push(Inst { k, ty, dst, src: i }); }
                }
                i = (self.f.GetNextInstruction)(i);
            }
            out.push(blk);
        }
        Body { nregs: regs.len(), nparams: np as usize, blocks: out }
    }
    unsafe fn inst(&mut self, cx: &mut Ctx, i: P, op: i32, ty: Ty, regs: &HashMap<usize, u32>, blocks: &HashMap<usize, u32>) -> Result<(K, Option<Ty>), String> {
        macro_rules! o { ($n:expr) => {{ let p = (self.f.GetOperand)(i, $n as u32); self.opnd(cx, p, regs)? }} }
        macro_rules! oty { ($n:expr) => {{ let p = (self.f.GetOperand)(i, $n as u32); let t = (self.f.TypeOf)(p); self.ty(t) }} }
        let bl = |p: P| blocks[&(p as usize)];
        let _ = ty;
        Ok(match op {
            8..=25 => { let b = [B::Add, B::FAdd, B::Sub, B::FSub, B::Mul, B::FMul, B::UDiv, B::SDiv, B::FDiv, B::URem, B::SRem, B::FRem, B::Shl, B::LShr, B::AShr, B::And, B::Or, B::Xor][op as usize - 8]; (K::Bin(b, o!(0), o!(1)), None) }
            66 => (K::FNeg(o!(0)), None),
            1 => (K::Ret(if (self.f.GetNumOperands)(i) == 0 { None } else { Some(o!(0)) }), None),
            2 | 70 | 71 => { if (self.f.GetNumSuccessors)(i) == 1 { (K::Br(bl((self.f.GetSuccessor)(i, 0))), None) } else { (K::CondBr(o!(0), bl((self.f.GetSuccessor)(i, 0)), bl((self.f.GetSuccessor)(i, 1))), None) } }
            3 => {
                let n = (self.f.GetNumSuccessors)(i); let mut cs = vec![]; let w = oty!(0).w();
                for s in 1..n { let v = (self.f.GetSwitchCaseValue)(i, s); let k = match self.konst(cx, v)? { V::C(c) => c as u128, V::X(x) => cx.cv(x).unwrap(), _ => return Err("switch".into()) }; cs.push((k, bl((self.f.GetSuccessor)(i, s)))); }
                (K::Switch(o!(0), w, cs, bl((self.f.GetSwitchDefaultDest)(i))), None)
            }
            7 => (K::Unreachable, None),
            26 => { let t = (self.f.GetAllocatedType)(i); (K::Alloca((self.f.ABISizeOfType)(self.dl, t), o!(0)), None) }
            27 => (K::Load(o!(0)), None),
            28 => { let t = oty!(0); (K::Store(o!(0), o!(1)), Some(t)) }
            29 => { let (b, off, t) = self.gep(cx, i, regs)?; (K::Gep(b, off, t), None) }
            30..=41 | 60 | 69 => { let k = match op { 30 => CastK::Trunc, 31 => CastK::ZExt, 32 => CastK::SExt, 33 => CastK::FToU, 34 => CastK::FToS, 35 => CastK::UToF, 36 => CastK::SToF, 37 => CastK::FTrunc, 38 => CastK::FExt, _ => CastK::Bits }; (K::Cast(k, oty!(0), o!(0)), None) }
            42 => { let t = oty!(0); (K::ICmp((self.f.GetICmpPredicate)(i), o!(0), o!(1)), Some(t)) }
            43 => { let t = oty!(0); (K::FCmp((self.f.GetFCmpPredicate)(i), o!(0), o!(1)), Some(t)) }
            45 | 5 => {
                let n = (self.f.GetNumArgOperands)(i); let mut args = vec![]; let mut tys = vec![];
                for k in 0..n { let a = (self.f.GetArgOperand)(i, k); let t = (self.f.TypeOf)(a); tys.push(self.ty(t)); args.push(self.opnd(cx, a, regs)?); }
                let cv = (self.f.GetCalledValue)(i);
                let cal = if let Some(&f) = self.fidx.get(&(cv as usize)) { Callee::Fn(f) }
                    else if !(self.f.IsAInlineAsm)(cv).is_null() { let mut n = 0; let s = (self.f.GetInlineAsmAsmString)(cv, &mut n); Callee::Asm(Rc::from(String::from_utf8_lossy(std::slice::from_raw_parts(s as *const u8, n)).as_ref())) }
                    else { Callee::Ind(self.opnd(cx, cv, regs)?) };
                if let Callee::Fn(f) = cal { let nm = &self.funcs[f as usize].name; if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.x86.sse2.pause") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.sideeffect") || nm.starts_with("llvm.invariant") { return Ok((K::Nop, None)); } }
                let nd = if op == 5 { bl((self.f.GetSuccessor)(i, 0)) } else { u32::MAX };
                (K::Call(cal, args, tys, nd), None)
            }
            46 => { let t = oty!(0); (K::Select(o!(0), o!(1), o!(2), matches!(t, Ty::Vec(..))), None) }
            50 => (K::ExtractElement(o!(0), o!(1)), None),
            51 => (K::InsertElement(o!(0), o!(1), o!(2)), None),
            52 => { let n = (self.f.GetNumMaskElements)(i); let m = (0..n).map(|k| (self.f.GetMaskValue)(i, k)).collect(); (K::Shuffle(o!(0), o!(1), m), None) }
            53 | 54 => { let n = (self.f.GetNumIndices)(i) as usize; let p = (self.f.GetIndices)(i); let v = std::slice::from_raw_parts(p, n).to_vec(); if op == 53 { (K::ExtractValue(o!(0), v), None) } else { (K::InsertValue(o!(0), o!(1), v), None) } }
            68 => (K::Copy(o!(0)), None),
            55 => (K::Nop, None),
            56 => { let t = oty!(1); (K::CmpXchg(o!(0), o!(1), o!(2)), Some(t)) }
            57 => (K::Rmw((self.f.GetAtomicRMWBinOp)(i), o!(0), o!(1)), None),
            58 | 59 | 61..=65 => (K::Bad("landingpad".into()), None),
            _ => return Err(format!("opcode {} in {}", op, self.show(i))),
        })
    }
}
impl Module {
    /// the initializer of a global and its type
    pub fn init(&mut self, v: P) -> Option<(P, Ty)> { unsafe { let i = (self.f.GetInitializer)(v); if i.is_null() { return None; } let t = (self.f.GlobalGetValueType)(v); let t = self.ty(t); Some((i, t)) } }
}
