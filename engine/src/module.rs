//! Translation of LLVM functions to a compact form, on first use.
use crate::expr::{mask, FxMap, V};
use crate::llvm::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    S(V),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn c(k: u128) -> Val {
        Val::S(V::C(k))
    }
    pub fn s(&self) -> V {
        match self {
            Val::S(v) => *v,
            _ => panic!("scalar expected"),
        }
    }
    pub fn a(&self) -> &Rc<Vec<Val>> {
        match self {
            Val::A(a) => a,
            _ => panic!("aggregate expected"),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F(u16),
    Ptr,
    Struct(Vec<(Rc<Ty>, u64)>, u64),
    Arr(u64, Rc<Ty>, u64),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::F(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u16 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    /// bytes a load or store touches
    pub fn bytes(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::F(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Struct(_, s) => *s,
            Ty::Arr(n, _, s) => n * s,
            Ty::Vec(n, t) => (*n * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn lanes(&self) -> Option<(u64, u16)> {
        match self {
            Ty::Vec(n, t) => Some((*n, t.bits())),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Bi(Rc<str>),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: crate::expr::Op, ty: Rc<Ty>, a: Op, b: Op, d: u32 },
    FBin { op: i32, ty: Rc<Ty>, a: Op, b: Op, d: u32 },
    FNeg { ty: Rc<Ty>, a: Op, d: u32 },
    ICmp { pred: i32, ty: Rc<Ty>, a: Op, b: Op, d: u32 },
    FCmp { pred: i32, ty: Rc<Ty>, a: Op, b: Op, d: u32 },
    Cast { k: CastK, from: Rc<Ty>, to: Rc<Ty>, a: Op, d: u32 },
    Select { ty: Rc<Ty>, vec_cond: bool, c: Op, a: Op, b: Op, d: u32 },
    Load { ty: Rc<Ty>, p: Op, d: u32 },
    Store { ty: Rc<Ty>, v: Op, p: Op },
    Gep { base: Op, off: u64, terms: Vec<(Op, u16, u64)>, d: u32 },
    Alloca { size: u64, d: u32 },
    Call { f: Callee, args: Vec<Op>, atys: Rc<Vec<Rc<Ty>>>, rty: Rc<Ty>, d: u32, then: Option<u32> },
    Extract { a: Op, idx: Vec<u32>, d: u32 },
    Insert { a: Op, v: Op, idx: Vec<u32>, d: u32 },
    ExtElem { a: Op, i: Op, d: u32 },
    InsElem { a: Op, v: Op, i: Op, d: u32 },
    Shuffle { a: Op, b: Op, m: Vec<i32>, d: u32 },
    Mov { a: Op, d: u32 },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u16, c: Op, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<Op>),
    Unreachable,
    CmpXchg { ty: Rc<Ty>, p: Op, c: Op, n: Op, d: u32 },
    Rmw { op: i32, ty: Rc<Ty>, p: Op, v: Op, d: u32 },
    Nop,
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub l: Llvm,
    pub fns: Vec<P>,
    pub fnames: Vec<Rc<str>>,
    fn_ix: HashMap<usize, u32>,
    pub by_name: HashMap<String, u32>,
    glob_ix: HashMap<usize, u32>,
    pub globs: Vec<P>,
    cache: RefCell<Vec<Option<Rc<Func>>>>,
    tys: RefCell<HashMap<usize, Rc<Ty>>>,
    pub n_globs: u32,
    pub builtin: RefCell<FxMap<u32, Option<Rc<str>>>>,
}

/// Defined functions the engine replaces.
fn intercept(name: &str) -> Option<&'static str> {
    const T: &[(&str, &str)] = &[
        ("9panicking9panic_fmt", "vp.panic"),
        ("9panicking18panic_nounwind_fmt", "vp.panic"),
        ("9panicking14panic_nounwind", "vp.panic"),
        ("9panicking19panic_cannot_unwind", "vp.panic"),
        ("9panicking16panic_in_cleanup", "vp.panic"),
        ("17rust_begin_unwind", "vp.panic"),
        ("18handle_alloc_error", "vp.allocfail"),
        ("5alloc18handle_alloc_error", "vp.allocfail"),
        ("18panic_bounds_check", "vp.panic_bounds"),
        ("5alloc7raw_vec17capacity_overflow", "vp.panic_cap"),
    ];
    for (s, b) in T {
        if name.contains(s) {
            return Some(b);
        }
    }
    None
}

impl Module {
    pub fn open(lib: &str, file: &str) -> Module {
        let l = Llvm::open(lib, file);
        let mut fns = vec![];
        let mut fnames: Vec<Rc<str>> = vec![];
        let mut fn_ix = HashMap::new();
        let mut by_name = HashMap::new();
        let mut globs = vec![std::ptr::null_mut()];
        let mut glob_ix = HashMap::new();
        unsafe {
            let mut g = (l.a.LLVMGetFirstGlobal)(l.m);
            while !g.is_null() {
                glob_ix.insert(g as usize, globs.len() as u32);
                globs.push(g);
                g = (l.a.LLVMGetNextGlobal)(g);
            }
            let mut f = (l.a.LLVMGetFirstFunction)(l.m);
            while !f.is_null() {
                let n = l.name(f);
                fn_ix.insert(f as usize, fns.len() as u32);
                by_name.insert(n.clone(), fns.len() as u32);
                fnames.push(n.into());
                fns.push(f);
                f = (l.a.LLVMGetNextFunction)(f);
            }
        }
        let n = fns.len();
        let n_globs = globs.len() as u32;
        Module {
            l,
            fns,
            fnames,
            fn_ix,
            by_name,
            glob_ix,
            globs,
            cache: RefCell::new(vec![None; n]),
            tys: Default::default(),
            n_globs,
            builtin: Default::default(),
        }
    }
    pub fn first_free_id(&self) -> u32 {
        self.n_globs + self.fns.len() as u32 + 1
    }
    pub fn fn_addr(&self, ix: u32) -> u64 {
        ((self.n_globs + ix) as u64) << 32
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        let id = (addr >> 32) as u32;
        if addr & 0xffff_ffff == 0 && id >= self.n_globs && id < self.n_globs + self.fns.len() as u32 {
            Some(id - self.n_globs)
        } else {
            None
        }
    }
    pub fn builtin_of(&self, ix: u32) -> Option<Rc<str>> {
        if let Some(r) = self.builtin.borrow().get(&ix) {
            return r.clone();
        }
        let n = &self.fnames[ix as usize];
        let r = if unsafe { (self.l.a.LLVMIsDeclaration)(self.fns[ix as usize]) } != 0 {
            Some(n.clone())
        } else {
            intercept(n).map(|s| s.into())
        };
        self.builtin.borrow_mut().insert(ix, r.clone());
        r
    }
    pub fn ty(&self, t: P) -> Rc<Ty> {
        if let Some(r) = self.tys.borrow().get(&(t as usize)) {
            return r.clone();
        }
        let a = &self.l.a;
        let r = unsafe {
            match (a.LLVMGetTypeKind)(t) {
                TK_VOID => Ty::Void,
                TK_INT => Ty::Int((a.LLVMGetIntTypeWidth)(t) as u16),
                TK_FLOAT => Ty::F(32),
                TK_DOUBLE => Ty::F(64),
                1 => Ty::F(16),
                TK_PTR => Ty::Ptr,
                TK_STRUCT => {
                    let n = (a.LLVMCountStructElementTypes)(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = (a.LLVMStructGetTypeAtIndex)(t, i);
                        v.push((self.ty(e), (a.LLVMOffsetOfElement)(self.l.td, t, i) as u64));
                    }
                    Ty::Struct(v, (a.LLVMABISizeOfType)(self.l.td, t) as u64)
                }
                TK_ARRAY => {
                    let e = (a.LLVMGetElementType)(t);
                    Ty::Arr(
                        (a.LLVMGetArrayLength2)(t),
                        self.ty(e),
                        (a.LLVMABISizeOfType)(self.l.td, e) as u64,
                    )
                }
                TK_VECTOR => {
                    let e = (a.LLVMGetElementType)(t);
                    Ty::Vec((a.LLVMGetVectorSize)(t) as u64, self.ty(e))
                }
                _ => Ty::Other,
            }
        };
        let r = Rc::new(r);
        self.tys.borrow_mut().insert(t as usize, r.clone());
        r
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Struct(v, _) => Val::A(Rc::new(v.iter().map(|(e, _)| self.zero(e)).collect())),
            Ty::Arr(n, e, _) | Ty::Vec(n, e) if true => {
                let _ = e;
                Val::A(Rc::new((0..*n).map(|_| self.zero(e)).collect()))
            }
            _ => Val::c(0),
        }
    }
    fn tyof(&self, v: P) -> Rc<Ty> {
        self.ty(unsafe { (self.l.a.LLVMTypeOf)(v) })
    }
    pub fn cval(&self, v: P) -> Val {
        let a = &self.l.a;
        unsafe {
            if !(a.LLVMIsAConstantInt)(v).is_null() {
                let Ty::Int(w) = *self.tyof(v) else { unreachable!() };
                if w <= 64 {
                    return Val::c((a.LLVMConstIntGetZExtValue)(v) as u128);
                }
                let s = self.l.print(v);
                let d = s.rsplit(' ').next().unwrap();
                let k = if d.starts_with('-') {
                    d.parse::<i128>().unwrap() as u128
                } else if w <= 128 {
                    d.parse::<u128>().unwrap()
                } else {
                    0
                };
                return Val::c(k & mask(w.min(128)));
            }
            if !(a.LLVMIsAConstantFP)(v).is_null() {
                let mut li = 0;
                let d = (a.LLVMConstRealGetDouble)(v, &mut li);
                return match *self.tyof(v) {
                    Ty::F(32) => Val::c((d as f32).to_bits() as u128),
                    _ => Val::c(d.to_bits() as u128),
                };
            }
            if !(a.LLVMIsAConstantPointerNull)(v).is_null() {
                return Val::c(0);
            }
            if !(a.LLVMIsAUndefValue)(v).is_null() || !(a.LLVMIsAConstantAggregateZero)(v).is_null() {
                return self.zero(&self.tyof(v));
            }
            if !(a.LLVMIsAFunction)(v).is_null() {
                return Val::c(self.fn_addr(self.fn_ix[&(v as usize)]) as u128);
            }
            if !(a.LLVMIsAGlobalVariable)(v).is_null() {
                return Val::c((self.glob_ix[&(v as usize)] as u128) << 32);
            }
            if !(a.LLVMIsAGlobalAlias)(v).is_null() {
                return self.cval((a.LLVMAliasGetAliasee)(v));
            }
            if !(a.LLVMIsAConstantArray)(v).is_null()
                || !(a.LLVMIsAConstantDataSequential)(v).is_null()
                || !(a.LLVMIsAConstantStruct)(v).is_null()
                || !(a.LLVMIsAConstantVector)(v).is_null()
            {
                let n = match &*self.tyof(v) {
                    Ty::Struct(s, _) => s.len() as u64,
                    Ty::Arr(n, _, _) | Ty::Vec(n, _) => *n,
                    t => panic!("aggregate {:?}", t),
                };
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n {
                    o.push(self.cval((a.LLVMGetAggregateElement)(v, i as u32)));
                }
                return Val::A(Rc::new(o));
            }
            if !(a.LLVMIsAConstantExpr)(v).is_null() {
                let op = (a.LLVMGetConstOpcode)(v);
                let o = |i| self.cval((a.LLVMGetOperand)(v, i)).s();
                let k = |x: V| match x {
                    V::C(k) => k,
                    _ => unreachable!(),
                };
                match op {
                    29 => {
                        let (off, terms) = self.gep(v);
                        let mut x = k(o(0)) as u64;
                        x = x.wrapping_add(off);
                        for (t, w, s) in terms {
                            let Op::K(t) = t else { unreachable!() };
                            let i = crate::expr::sx(k(t.s()), w) as i64 as u64;
                            x = x.wrapping_add(i.wrapping_mul(s));
                        }
                        return Val::c(x as u128);
                    }
                    39 | 40 | 60 | 41 => return Val::S(o(0)),
                    30 => {
                        let w = self.tyof(v).bits();
                        return Val::c(k(o(0)) & mask(w));
                    }
                    8 => return Val::c(k(o(0)).wrapping_add(k(o(1))) & mask(self.tyof(v).bits())),
                    10 => return Val::c(k(o(0)).wrapping_sub(k(o(1))) & mask(self.tyof(v).bits())),
                    25 => return Val::c(k(o(0)) ^ k(o(1))),
                    _ => {
                        // ptrtoaddr and friends: print to see
                        let s = self.l.print(v);
                        if s.contains("ptrtoaddr") {
                            return Val::S(o(0));
                        }
                        panic!("constant expression {} ({})", s, op);
                    }
                }
            }
            panic!("constant {}", self.l.print(v));
        }
    }
    fn gep(&self, v: P) -> (u64, Vec<(Op, u16, u64)>) {
        self.gep_with(v, &|p| Op::K(self.cval(p)))
    }
    fn gep_with(&self, v: P, opnd: &dyn Fn(P) -> Op) -> (u64, Vec<(Op, u16, u64)>) {
        let a = &self.l.a;
        unsafe {
            let n = (a.LLVMGetNumOperands)(v) as u32;
            let mut t = (a.LLVMGetGEPSourceElementType)(v);
            let mut off = 0u64;
            let mut terms = vec![];
            for i in 1..n {
                let o = (a.LLVMGetOperand)(v, i);
                let scale;
                if i == 1 {
                    scale = (a.LLVMABISizeOfType)(self.l.td, t) as u64;
                } else {
                    match (a.LLVMGetTypeKind)(t) {
                        TK_STRUCT => {
                            let k = (a.LLVMConstIntGetZExtValue)(o) as u32;
                            off = off.wrapping_add((a.LLVMOffsetOfElement)(self.l.td, t, k) as u64);
                            t = (a.LLVMStructGetTypeAtIndex)(t, k);
                            continue;
                        }
                        _ => {
                            t = (a.LLVMGetElementType)(t);
                            scale = (a.LLVMABISizeOfType)(self.l.td, t) as u64;
                        }
                    }
                }
                let w = self.tyof(o).bits();
                match opnd(o) {
                    Op::K(k) => {
                        let V::C(x) = k.s() else { unreachable!() };
                        let x = crate::expr::sx(x, w) as i64 as u64;
                        off = off.wrapping_add(x.wrapping_mul(scale));
                    }
                    r => terms.push((r, w, scale)),
                }
            }
            (off, terms)
        }
    }
    pub fn func(&self, ix: u32) -> Rc<Func> {
        if let Some(f) = &self.cache.borrow()[ix as usize] {
            return f.clone();
        }
        let f = Rc::new(self.translate(ix));
        self.cache.borrow_mut()[ix as usize] = Some(f.clone());
        f
    }
    fn translate(&self, ix: u32) -> Func {
        let a = &self.l.a;
        let f = self.fns[ix as usize];
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let mut bbs: HashMap<usize, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut list = vec![];
        unsafe {
            let np = (a.LLVMCountParams)(f);
            for i in 0..np {
                regs.insert((a.LLVMGetParam)(f, i) as usize, nregs);
                nregs += 1;
            }
            let mut b = (a.LLVMGetFirstBasicBlock)(f);
            while !b.is_null() {
                bbs.insert(b as usize, bbs.len() as u32);
                let mut is = vec![];
                let mut i = (a.LLVMGetFirstInstruction)(b);
                while !i.is_null() {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                    is.push(i);
                    i = (a.LLVMGetNextInstruction)(i);
                }
                list.push(is);
                b = (a.LLVMGetNextBasicBlock)(b);
            }
            let opnd = |v: P| -> Op {
                match regs.get(&(v as usize)) {
                    Some(r) => Op::R(*r),
                    None => Op::K(if (a.LLVMIsAConstant)(v).is_null() {
                        Val::c(0) // metadata and the like
                    } else {
                        self.cval(v)
                    }),
                }
            };
            let mut blocks = vec![];
            for is in list {
                let mut bl = Block { phis: vec![], ins: vec![] };
                for i in is {
                    let d = regs[&(i as usize)];
                    let opc = (a.LLVMGetInstructionOpcode)(i);
                    let o = |k: u32| opnd((a.LLVMGetOperand)(i, k));
                    let oty = |k: u32| self.tyof((a.LLVMGetOperand)(i, k));
                    use crate::expr::Op as X;
                    let bin = |op: X| Ins::Bin { op, ty: self.tyof(i), a: o(0), b: o(1), d };
                    let cast = |k: CastK| Ins::Cast { k, from: oty(0), to: self.tyof(i), a: o(0), d };
                    let nsucc = |i: P| (a.LLVMGetNumSuccessors)(i);
                    let succ = |k: u32| bbs[&((a.LLVMGetSuccessor)(i, k) as usize)];
                    let ins = match opc {
                        1 => Ins::Ret(if (a.LLVMGetNumOperands)(i) > 0 { Some(o(0)) } else { None }),
                        2 | 70..=79
                            if opc == 2 || nsucc(i) > 0 =>
                        {
                            if nsucc(i) == 1 {
                                Ins::Br(succ(0))
                            } else {
                                Ins::CondBr { c: o(0), t: succ(0), f: succ(1) }
                            }
                        }
                        3 => {
                            let n = nsucc(i);
                            let mut cases = vec![];
                            for k in 1..n {
                                let cv = self.cval((a.LLVMGetSwitchCaseValue)(i, k)).s();
                                let V::C(x) = cv else { unreachable!() };
                                cases.push((x, succ(k)));
                            }
                            Ins::Switch { w: oty(0).bits(), c: o(0), cases, def: succ(0) }
                        }
                        7 => Ins::Unreachable,
                        8 => bin(X::Add),
                        10 => bin(X::Sub),
                        12 => bin(X::Mul),
                        14 => bin(X::UDiv),
                        15 => bin(X::SDiv),
                        17 => bin(X::URem),
                        18 => bin(X::SRem),
                        20 => bin(X::Shl),
                        21 => bin(X::LShr),
                        22 => bin(X::AShr),
                        23 => bin(X::And),
                        24 => bin(X::Or),
                        25 => bin(X::Xor),
                        9 | 11 | 13 | 16 | 19 => {
                            Ins::FBin { op: opc, ty: self.tyof(i), a: o(0), b: o(1), d }
                        }
                        66 => Ins::FNeg { ty: self.tyof(i), a: o(0), d },
                        26 => {
                            let t = (a.LLVMGetAllocatedType)(i);
                            let sz = (a.LLVMABISizeOfType)(self.l.td, t) as u64;
                            let n = match o(0) {
                                Op::K(v) => match v.s() {
                                    V::C(k) => k as u64,
                                    _ => 1,
                                },
                                _ => 1,
                            };
                            Ins::Alloca { size: sz * n, d }
                        }
                        27 => Ins::Load { ty: self.tyof(i), p: o(0), d },
                        28 => Ins::Store { ty: oty(0), v: o(0), p: o(1) },
                        29 => {
                            let (off, terms) = self.gep_with(i, &opnd);
                            Ins::Gep { base: o(0), off, terms, d }
                        }
                        30 => cast(CastK::Trunc),
                        31 => cast(CastK::Zext),
                        32 => cast(CastK::Sext),
                        33 => cast(CastK::FpToUi),
                        34 => cast(CastK::FpToSi),
                        35 => cast(CastK::UiToFp),
                        36 => cast(CastK::SiToFp),
                        37 => cast(CastK::FpTrunc),
                        38 => cast(CastK::FpExt),
                        39 | 40 => {
                            let (f, t) = (oty(0), self.tyof(i));
                            let k = if f.bits() > t.bits() { CastK::Trunc } else { CastK::Zext };
                            Ins::Cast { k, from: f, to: t, a: o(0), d }
                        }
                        41 | 60 => cast(CastK::Bit),
                        42 => Ins::ICmp {
                            pred: (a.LLVMGetICmpPredicate)(i),
                            ty: oty(0),
                            a: o(0),
                            b: o(1),
                            d,
                        },
                        43 => Ins::FCmp {
                            pred: (a.LLVMGetFCmpPredicate)(i),
                            ty: oty(0),
                            a: o(0),
                            b: o(1),
                            d,
                        },
                        44 => {
                            let n = (a.LLVMCountIncoming)(i);
                            let mut v = vec![];
                            for k in 0..n {
                                let bb = bbs[&((a.LLVMGetIncomingBlock)(i, k) as usize)];
                                v.push((bb, opnd((a.LLVMGetIncomingValue)(i, k))));
                            }
                            bl.phis.push((d, v));
                            continue;
                        }
                        45 | 5 => {
                            let cv = (a.LLVMGetCalledValue)(i);
                            let na = (a.LLVMGetNumArgOperands)(i);
                            let then = if opc == 5 {
                                Some(bbs[&((a.LLVMGetNormalDest)(i) as usize)])
                            } else {
                                None
                            };
                            let rty = self.tyof(i);
                            let mut args = vec![];
                            let mut atys = vec![];
                            for k in 0..na {
                                let t = (a.LLVMTypeOf)((a.LLVMGetOperand)(i, k));
                                if (a.LLVMGetTypeKind)(t) == TK_METADATA {
                                    args.push(Op::K(Val::c(0)));
                                    atys.push(Rc::new(Ty::Other));
                                } else {
                                    args.push(o(k));
                                    atys.push(self.ty(t));
                                }
                            }
                            let f = if !(a.LLVMIsAInlineAsm)(cv).is_null() {
                                Callee::Asm(self.l.print(i).into())
                            } else {
                                let mut cv = cv;
                                while !(a.LLVMIsAGlobalAlias)(cv).is_null() {
                                    cv = (a.LLVMAliasGetAliasee)(cv);
                                }
                                if let Some(ix) = self.fn_ix.get(&(cv as usize)) {
                                    match self.builtin_of(*ix) {
                                        Some(n) => Callee::Bi(n),
                                        None => Callee::Fn(*ix),
                                    }
                                } else {
                                    Callee::Ind(opnd(cv))
                                }
                            };
                            Ins::Call { f, args, atys: Rc::new(atys), rty, d, then }
                        }
                        46 => Ins::Select {
                            ty: self.tyof(i),
                            vec_cond: matches!(&*oty(0), Ty::Vec(..)),
                            c: o(0),
                            a: o(1),
                            b: o(2),
                            d,
                        },
                        50 => Ins::ExtElem { a: o(0), i: o(1), d },
                        51 => Ins::InsElem { a: o(0), v: o(1), i: o(2), d },
                        52 => {
                            let n = (a.LLVMGetNumMaskElements)(i);
                            let m = (0..n).map(|k| (a.LLVMGetMaskValue)(i, k)).collect();
                            Ins::Shuffle { a: o(0), b: o(1), m, d }
                        }
                        53 | 54 => {
                            let n = (a.LLVMGetNumIndices)(i) as usize;
                            let ix = std::slice::from_raw_parts((a.LLVMGetIndices)(i), n).to_vec();
                            if opc == 53 {
                                Ins::Extract { a: o(0), idx: ix, d }
                            } else {
                                Ins::Insert { a: o(0), v: o(1), idx: ix, d }
                            }
                        }
                        68 => Ins::Mov { a: o(0), d },
                        55 => Ins::Nop,
                        56 => Ins::CmpXchg { ty: oty(1), p: o(0), c: o(1), n: o(2), d },
                        57 => Ins::Rmw {
                            op: (a.LLVMGetAtomicRMWBinOp)(i),
                            ty: oty(1),
                            p: o(0),
                            v: o(1),
                            d,
                        },
                        _ => {
                            let s = self.l.print(i);
                            if s.contains("ptrtoaddr") {
                                Ins::Cast { k: CastK::Zext, from: oty(0), to: self.tyof(i), a: o(0), d }
                            } else {
                                Ins::Bad(format!("{}: {}", opc, s))
                            }
                        }
                    };
                    bl.ins.push(ins);
                }
                blocks.push(bl);
            }
            Func { id: ix, name: self.fnames[ix as usize].clone(), nparams: np, nregs, blocks }
        }
    }
}
