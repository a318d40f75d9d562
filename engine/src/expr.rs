//! Hash-consed bit-vector expressions over symbolic bytes, with simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (i * 8);
            }
            self.write_u64(x);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Concat,
    Extract,
    Sext,
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u16,
    a: u32,
    b: u32,
    c: u32,
    k: u128,
}

pub const MAXV: usize = 512;
pub type VarSet = [u64; MAXV / 64];
pub const VS0: VarSet = [0; MAXV / 64];

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
    pub lo: u128,
    pub hi: u128,
    pub vs: u32, // interned variable set
}

/// A scalar: concrete or symbolic.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    C(u128),
    X(E),
}
use V::*;

#[inline(always)]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Pool {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub vsets: Vec<VarSet>,
    vmap: FxMap<VarSet, u32>,
    vunion: FxMap<(u32, u32), u32>,
    /// negations of conjunctions and disjunctions (they share parts)
    negs: FxMap<E, V>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    gen: u32,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: Vec::new(),
            map: Default::default(),
            vsets: vec![VS0],
            vmap: Default::default(),
            vunion: Default::default(),
            negs: Default::default(),
            stamp: Vec::new(),
            memo: Vec::new(),
            gen: 0,
        };
        p.vmap.insert(VS0, 0);
        p.mk(Op::Const, 1, 0, 0, 0, 0); // id 0 reserved
        p
    }
    fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.vunion.get(&k) {
            return *r;
        }
        let mut s = self.vsets[a as usize];
        let t = self.vsets[b as usize];
        for i in 0..s.len() {
            s[i] |= t[i];
        }
        let r = self.vs_intern(s);
        self.vunion.insert(k, r);
        r
    }
    fn vs_intern(&mut self, s: VarSet) -> u32 {
        if let Some(r) = self.vmap.get(&s) {
            return *r;
        }
        let r = self.vsets.len() as u32;
        self.vsets.push(s);
        self.vmap.insert(s, r);
        r
    }
    pub fn vars(&self, e: E) -> &VarSet {
        &self.vsets[self.n[e as usize].vs as usize]
    }
    pub fn single_var(&self, e: E) -> Option<usize> {
        let s = self.vars(e);
        let mut r = None;
        for (i, x) in s.iter().enumerate() {
            if *x != 0 {
                if r.is_some() || x & (x - 1) != 0 {
                    return None;
                }
                r = Some(i * 64 + x.trailing_zeros() as usize);
            }
        }
        r
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let full = mask(w);
        let (mut lo, mut hi) = (0u128, full);
        let g = |p: &Pool, e: E| (p.n[e as usize].lo, p.n[e as usize].hi);
        let mut vs = 0;
        match op {
            Op::Const => {
                lo = k;
                hi = k;
            }
            Op::Var => {
                let mut s = VS0;
                let i = k as usize;
                assert!(i < MAXV, "too many symbolic bytes");
                s[i / 64] |= 1 << (i % 64);
                vs = self.vs_intern(s);
            }
            _ => {
                let na = self.n[a as usize].vs;
                vs = na;
                match op {
                    Op::Not | Op::Extract | Op::Sext => {}
                    Op::Ite => {
                        let t = self.n[b as usize].vs;
                        let u = self.n[c as usize].vs;
                        vs = self.vs_union(vs, t);
                        vs = self.vs_union(vs, u);
                    }
                    _ => {
                        let t = self.n[b as usize].vs;
                        vs = self.vs_union(vs, t);
                    }
                }
                let (al, ah) = g(self, a);
                match op {
                    Op::Concat => {
                        let (bl, bh) = g(self, b);
                        let wb = self.n[b as usize].w;
                        lo = (al << wb) | bl;
                        hi = (ah << wb) | bh;
                    }
                    Op::Extract => {
                        let s = k as u32;
                        if ah >> s <= full {
                            lo = al >> s;
                            hi = ah >> s;
                        }
                    }
                    Op::Add => {
                        let (bl, bh) = g(self, b);
                        if let Some(x) = ah.checked_add(bh) {
                            if x <= full {
                                lo = al + bl;
                                hi = x;
                            }
                        }
                    }
                    Op::Sub => {
                        let (bl, bh) = g(self, b);
                        if al >= bh {
                            lo = al - bh;
                            hi = ah - bl;
                        }
                    }
                    Op::Mul => {
                        let (bl, bh) = g(self, b);
                        if let Some(x) = ah.checked_mul(bh) {
                            if x <= full {
                                lo = al * bl;
                                hi = x;
                            }
                        }
                    }
                    Op::UDiv => {
                        let (bl, bh) = g(self, b);
                        if bl > 0 {
                            lo = al / bh;
                            hi = ah / bl;
                        }
                    }
                    Op::URem => {
                        let (bl, bh) = g(self, b);
                        if bl > 0 {
                            hi = (bh - 1).min(ah);
                        }
                    }
                    Op::And => {
                        let (_, bh) = g(self, b);
                        hi = ah.min(bh);
                    }
                    Op::Or => {
                        let (bl, bh) = g(self, b);
                        lo = al.max(bl);
                        let m = ah | bh;
                        hi = if m == 0 { 0 } else { (u128::MAX >> m.leading_zeros()) & full };
                    }
                    Op::Xor => {
                        let (_, bh) = g(self, b);
                        let m = ah | bh;
                        hi = if m == 0 { 0 } else { (u128::MAX >> m.leading_zeros()) & full };
                    }
                    Op::LShr => {
                        hi = ah;
                    }
                    Op::Ite => {
                        let (bl, bh) = g(self, b);
                        let (cl, ch) = g(self, c);
                        lo = bl.min(cl);
                        hi = bh.max(ch);
                    }
                    _ => {}
                }
            }
        }
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, k, lo, hi, vs });
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(key, e);
        e
    }
    pub fn konst(&mut self, k: u128, w: u16) -> E {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, i: usize) -> E {
        self.mk(Op::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn e(&mut self, v: V, w: u16) -> E {
        match v {
            C(k) => self.konst(k, w),
            X(e) => {
                debug_assert_eq!(self.n[e as usize].w, w);
                e
            }
        }
    }
    #[inline]
    fn nd(&self, e: E) -> &Node {
        &self.n[e as usize]
    }
    pub fn v(&self, e: E) -> V {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            C(n.k)
        } else if n.lo == n.hi {
            C(n.lo)
        } else {
            X(e)
        }
    }
    fn fin(&mut self, op: Op, w: u16, a: V, wa: u16, b: V, wb: u16) -> V {
        let a = self.e(a, wa);
        let b = self.e(b, wb);
        let e = self.mk(op, w, a, b, 0, 0);
        self.v(e)
    }
    fn range(&self, v: V) -> (u128, u128) {
        match v {
            C(k) => (k, k),
            X(e) => (self.nd(e).lo, self.nd(e).hi),
        }
    }
    /// Segments, most significant first.
    fn parts(&self, v: V, w: u16) -> Vec<(V, u16)> {
        let mut out = Vec::new();
        let mut cur = v;
        let mut cw = w;
        loop {
            if let X(e) = cur {
                let n = self.nd(e);
                if n.op == Op::Concat {
                    let wa = self.nd(n.a).w;
                    out.push((self.v(n.a), wa));
                    cur = self.v(n.b);
                    cw -= wa;
                    continue;
                }
            }
            out.push((cur, cw));
            return out;
        }
    }
    fn from_parts(&mut self, ps: &[(V, u16)]) -> V {
        // flatten and merge neighbours
        let mut m: Vec<(V, u16)> = Vec::with_capacity(ps.len());
        for &(v, w) in ps {
            if w == 0 {
                continue;
            }
            for (v, w) in self.parts(v, w) {
                if let Some(&(pv, pw)) = m.last() {
                    match (pv, v) {
                        (C(x), C(y)) if pw + w <= 128 => {
                            m.pop();
                            m.push((C((if w >= 128 { 0 } else { x << w }) | y), pw + w));
                            continue;
                        }
                        (X(x), X(y)) => {
                            let (nx, ny) = (self.nd(x).clone(), self.nd(y).clone());
                            if nx.op == Op::Extract
                                && ny.op == Op::Extract
                                && nx.a == ny.a
                                && nx.k as u16 == ny.k as u16 + ny.w
                            {
                                m.pop();
                                let r = self.extract_raw(nx.a, ny.k as u16, pw + w);
                                m.push((r, pw + w));
                                continue;
                            }
                        }
                        _ => {}
                    }
                }
                m.push((v, w));
            }
        }
        let (mut acc, mut aw) = m.pop().unwrap();
        while let Some((v, w)) = m.pop() {
            if let (C(x), C(y)) = (v, acc) {
                acc = C((x << aw) | y);
                aw += w;
                continue;
            }
            let a = self.e(v, w);
            let b = self.e(acc, aw);
            let e = self.mk(Op::Concat, w + aw, a, b, 0, 0);
            acc = X(e);
            aw += w;
        }
        acc
    }
    fn extract_raw(&mut self, e: E, lo: u16, w: u16) -> V {
        if lo == 0 && self.nd(e).w == w {
            return self.v(e);
        }
        let x = self.mk(Op::Extract, w, e, 0, 0, lo as u128);
        self.v(x)
    }
    /// `w` bits of `v` (which has `wv` bits) from bit `lo`.
    pub fn extract(&mut self, v: V, wv: u16, lo: u16, w: u16) -> V {
        if lo == 0 && w == wv {
            return v;
        }
        let e = match v {
            C(k) => return C((k >> lo) & mask(w)),
            X(e) => e,
        };
        let n = self.nd(e).clone();
        match n.op {
            Op::Concat => {
                let ps = self.parts(v, wv);
                let mut out = Vec::new();
                let mut top = wv;
                for (pv, pw) in ps {
                    let bot = top - pw;
                    let (l, h) = (lo.max(bot), (lo + w).min(top));
                    if l < h {
                        let x = self.extract(pv, pw, l - bot, h - l);
                        out.push((x, h - l));
                    }
                    top = bot;
                }
                self.from_parts(&out)
            }
            Op::Extract => {
                let iw = self.nd(n.a).w;
                let iv = self.v(n.a);
                self.extract(iv, iw, lo + n.k as u16, w)
            }
            Op::Sext => {
                let iw = self.nd(n.a).w;
                let iv = self.v(n.a);
                if lo + w <= iw {
                    self.extract(iv, iw, lo, w)
                } else if lo < iw {
                    let x = self.extract(iv, iw, lo, iw - lo);
                    self.sext(x, iw - lo, w)
                } else {
                    let x = self.extract(iv, iw, iw - 1, 1);
                    self.sext(x, 1, w)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.v(n.a), self.v(n.b));
                let a = self.extract(a, wv, lo, w);
                let b = self.extract(b, wv, lo, w);
                self.bin(n.op, w, a, b)
            }
            Op::Not => {
                let a = self.v(n.a);
                let a = self.extract(a, wv, lo, w);
                self.not(a, w)
            }
            Op::Ite => {
                let (b, c) = (self.v(n.b), self.v(n.c));
                let cond = self.v(n.a);
                if matches!(b, C(_)) || matches!(c, C(_)) || lo == 0 {
                    let b = self.extract(b, wv, lo, w);
                    let c = self.extract(c, wv, lo, w);
                    return self.ite(cond, b, c, w);
                }
                self.extract_raw(e, lo, w)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (a, b) = (self.v(n.a), self.v(n.b));
                let a = self.extract(a, wv, 0, w);
                let b = self.extract(b, wv, 0, w);
                self.bin(n.op, w, a, b)
            }
            _ => {
                if n.hi < (1u128 << lo.min(127)) {
                    return C(0);
                }
                self.extract_raw(e, lo, w)
            }
        }
    }
    pub fn concat(&mut self, hi: V, wh: u16, lo: V, wl: u16) -> V {
        self.from_parts(&[(hi, wh), (lo, wl)])
    }
    pub fn zext(&mut self, v: V, wf: u16, wt: u16) -> V {
        match v {
            C(_) => v,
            X(_) if wf == wt => v,
            _ => self.from_parts(&[(C(0), wt - wf), (v, wf)]),
        }
    }
    pub fn sext(&mut self, v: V, wf: u16, wt: u16) -> V {
        if wf == wt {
            return v;
        }
        match v {
            C(k) => C((sx(k, wf) as u128) & mask(wt)),
            X(e) => {
                if self.nd(e).hi < (1u128 << (wf - 1)) {
                    return self.zext(v, wf, wt);
                }
                if wf == 1 {
                    return self.ite(v, C(mask(wt)), C(0), wt);
                }
                let n = self.nd(e).clone();
                if n.op == Op::Sext {
                    let iw = self.nd(n.a).w;
                    let iv = self.v(n.a);
                    return self.sext(iv, iw, wt);
                }
                let x = self.mk(Op::Sext, wt, e, 0, 0, 0);
                self.v(x)
            }
        }
    }
    pub fn not(&mut self, v: V, w: u16) -> V {
        match v {
            C(k) => C(!k & mask(w)),
            X(e) => {
                let n = self.nd(e).clone();
                if n.op == Op::Not {
                    return self.v(n.a);
                }
                if w == 1 {
                    if n.op == Op::And || n.op == Op::Or {
                        if let Some(r) = self.negs.get(&e) {
                            return *r;
                        }
                        // push in, so that clauses simplify
                        let (a, b) = (self.v(n.a), self.v(n.b));
                        let a = self.not(a, 1);
                        let b = self.not(b, 1);
                        let r = self.bin(if n.op == Op::And { Op::Or } else { Op::And }, 1, a, b);
                        self.negs.insert(e, r);
                        return r;
                    }
                }
                let x = self.mk(Op::Not, w, e, 0, 0, 0);
                self.v(x)
            }
        }
    }
    pub fn ite(&mut self, c: V, a: V, b: V, w: u16) -> V {
        let ce = match c {
            C(1) => return a,
            C(_) => return b,
            X(e) => e,
        };
        if a == b {
            return a;
        }
        let n = self.nd(ce).clone();
        if n.op == Op::Not {
            let x = self.v(n.a);
            return self.ite(x, b, a, w);
        }
        if w == 1 {
            match (a, b) {
                (C(1), C(0)) => return c,
                (C(0), C(1)) => return self.not(c, 1),
                (C(1), _) => return self.bin(Op::Or, 1, c, b),
                (C(0), _) => {
                    let nc = self.not(c, 1);
                    return self.bin(Op::And, 1, nc, b);
                }
                (_, C(0)) => return self.bin(Op::And, 1, c, a),
                (_, C(1)) => {
                    let nc = self.not(c, 1);
                    return self.bin(Op::Or, 1, nc, a);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, _), y) = ite(c, x, y)
        if let X(ae) = a {
            let na = self.nd(ae).clone();
            if na.op == Op::Ite && na.a == ce {
                let x = self.v(na.b);
                return self.ite(c, x, b, w);
            }
        }
        if let X(be) = b {
            let nb = self.nd(be).clone();
            if nb.op == Op::Ite && nb.a == ce {
                let x = self.v(nb.c);
                return self.ite(c, a, x, w);
            }
        }
        let a = self.e(a, w);
        let b = self.e(b, w);
        let e = self.mk(Op::Ite, w, ce, a, b, 0);
        self.v(e)
    }
    pub fn eq(&mut self, a: V, b: V, w: u16) -> V {
        if a == b {
            return C(1);
        }
        let (a, b) = match (a, b) {
            (C(_), C(_)) => return C(0),
            (C(_), _) => (b, a),
            _ => (a, b),
        };
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return C(0);
        }
        let X(ae) = a else { unreachable!() };
        if w == 1 {
            return match b {
                C(1) => a,
                C(_) => self.not(a, 1),
                X(_) => {
                    let x = self.bin(Op::Xor, 1, a, b);
                    self.not(x, 1)
                }
            };
        }
        let n = self.nd(ae).clone();
        let is_cat = |p: &Pool, v: V| matches!(v, X(e) if p.nd(e).op == Op::Concat);
        if is_cat(self, a) || is_cat(self, b) {
            let mut r = C(1);
            for (x, y, sw) in self.segments(a, b, w) {
                let t = self.eq(x, y, sw);
                r = self.bin(Op::And, 1, r, t);
                if r == C(0) {
                    return r;
                }
            }
            return r;
        }
        if let C(k) = b {
            match n.op {
                Op::Ite => {
                    let (x, y) = (self.v(n.b), self.v(n.c));
                    if matches!(x, C(_)) || matches!(y, C(_)) {
                        let c = self.v(n.a);
                        let p = self.eq(x, b, w);
                        let q = self.eq(y, b, w);
                        return self.ite(c, p, q, 1);
                    }
                }
                Op::Add => {
                    if let C(j) = self.v(n.b) {
                        let x = self.v(n.a);
                        return self.eq(x, C(k.wrapping_sub(j) & mask(w)), w);
                    }
                }
                Op::Xor => {
                    if let C(j) = self.v(n.b) {
                        let x = self.v(n.a);
                        return self.eq(x, C(k ^ j), w);
                    }
                }
                Op::Not => {
                    let x = self.v(n.a);
                    return self.eq(x, C(!k & mask(w)), w);
                }
                Op::Sext => {
                    let iw = self.nd(n.a).w;
                    let x = self.v(n.a);
                    let low = k & mask(iw);
                    if (sx(low, iw) as u128) & mask(w) != k {
                        return C(0);
                    }
                    return self.eq(x, C(low), iw);
                }
                _ => {}
            }
        }
        let (a, b) = match (a, b) {
            (X(x), X(y)) if x > y => (b, a),
            _ => (a, b),
        };
        self.fin(Op::Eq, 1, a, w, b, w)
    }
    /// Aligned segments of two values, most significant first.
    fn segments(&mut self, a: V, b: V, w: u16) -> Vec<(V, V, u16)> {
        let (pa, pb) = (self.parts(a, w), self.parts(b, w));
        let mut cuts: Vec<u16> = Vec::new();
        for ps in [&pa, &pb] {
            let mut t = w;
            for &(v, pw) in ps.iter() {
                t -= pw;
                // constants do not force a cut
                let _ = v;
                cuts.push(t);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut out = Vec::new();
        let mut top = w;
        for &c in cuts.iter().rev() {
            let x = self.extract(a, w, c, top - c);
            let y = self.extract(b, w, c, top - c);
            out.push((x, y, top - c));
            top = c;
        }
        out
    }
    pub fn ult(&mut self, a: V, b: V, w: u16) -> V {
        if let (C(x), C(y)) = (a, b) {
            return C((x < y) as u128);
        }
        if a == b {
            return C(0);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return C(1);
        }
        if al >= bh {
            return C(0);
        }
        if w == 1 {
            let na = self.not(a, 1);
            return self.bin(Op::And, 1, na, b);
        }
        // drop common zero high bits
        let m = ah | bh;
        let need = (128 - m.leading_zeros()) as u16;
        if need < w {
            let cat = |p: &Pool, v: V| match v {
                C(_) => true,
                X(e) => matches!(p.nd(e).op, Op::Concat),
            };
            if cat(self, a) && cat(self, b) {
                let x = self.extract(a, w, 0, need);
                let y = self.extract(b, w, 0, need);
                return self.ult(x, y, need);
            }
        }
        if b == C(1) {
            return self.eq(a, C(0), w);
        }
        if a == C(0) {
            let t = self.eq(b, C(0), w);
            return self.not(t, 1);
        }
        // common high part: concat(h, x) < concat(h, y) = x < y ; constant low part
        self.fin(Op::Ult, 1, a, w, b, w)
    }
    pub fn ule(&mut self, a: V, b: V, w: u16) -> V {
        let t = self.ult(b, a, w);
        self.not(t, 1)
    }
    pub fn slt(&mut self, a: V, b: V, w: u16) -> V {
        if let (C(x), C(y)) = (a, b) {
            return C((sx(x, w) < sx(y, w)) as u128);
        }
        if a == b {
            return C(0);
        }
        let half = 1u128 << (w - 1);
        let (_, ah) = self.range(a);
        let (_, bh) = self.range(b);
        if ah < half && bh < half {
            return self.ult(a, b, w);
        }
        if b == C(0) {
            let t = self.extract(a, w, w - 1, 1);
            return t;
        }
        if a == C(mask(w)) {
            let t = self.extract(b, w, w - 1, 1);
            return self.not(t, 1);
        }
        self.fin(Op::Slt, 1, a, w, b, w)
    }
    pub fn sle(&mut self, a: V, b: V, w: u16) -> V {
        let t = self.slt(b, a, w);
        self.not(t, 1)
    }
    pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (a.wrapping_div(b) as u128) & m
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    (a.wrapping_rem(b) as u128) & m
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = y.min(w as u128 - 1).min(127);
                ((sx(x, w) >> s) as u128) & m
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn bin(&mut self, op: Op, w: u16, a: V, b: V) -> V {
        if let (C(x), C(y)) = (a, b) {
            return C(Pool::fold(op, w, x, y));
        }
        let m = mask(w);
        // constants to the right for commutative operations
        let (a, b) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => match (a, b) {
                (C(_), _) => (b, a),
                (X(x), X(y)) if x > y => (b, a),
                _ => (a, b),
            },
            _ => (a, b),
        };
        match op {
            Op::Add => {
                if b == C(0) {
                    return a;
                }
                if let (X(x), C(k)) = (a, b) {
                    let n = self.nd(x).clone();
                    if n.op == Op::Add {
                        if let C(j) = self.v(n.b) {
                            let y = self.v(n.a);
                            return self.bin(Op::Add, w, y, C(k.wrapping_add(j) & m));
                        }
                    }
                }
                if let Some(r) = self.disjoint(a, b, w) {
                    return r;
                }
            }
            Op::Sub => {
                if a == b {
                    return C(0);
                }
                if let C(k) = b {
                    return self.bin(Op::Add, w, a, C(k.wrapping_neg() & m));
                }
                // (x + k) - x
                if let (X(x), X(y)) = (a, b) {
                    let n = self.nd(x).clone();
                    if n.op == Op::Add {
                        if n.a == y {
                            return self.v(n.b);
                        }
                        if n.b == y {
                            return self.v(n.a);
                        }
                    }
                }
            }
            Op::Mul => {
                if let C(k) = b {
                    if k == 0 {
                        return C(0);
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        return self.bin(Op::Shl, w, a, C(k.trailing_zeros() as u128));
                    }
                }
            }
            Op::UDiv => {
                if let C(k) = b {
                    if k.is_power_of_two() {
                        return self.bin(Op::LShr, w, a, C(k.trailing_zeros() as u128));
                    }
                    if k != 0 && self.range(a).1 < k {
                        return C(0);
                    }
                }
            }
            Op::URem => {
                if let C(k) = b {
                    if k.is_power_of_two() {
                        return self.bin(Op::And, w, a, C(k - 1));
                    }
                    if k != 0 && self.range(a).1 < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let C(k) = b {
                    if k == 0 {
                        return C(0);
                    }
                    if k == m {
                        return a;
                    }
                    // runs of ones
                    let mut runs = Vec::new();
                    let mut i = 0u16;
                    while i < w {
                        let bit = (k >> i) & 1;
                        let mut j = i;
                        while j < w && (k >> j) & 1 == bit {
                            j += 1;
                        }
                        runs.push((bit, i, j));
                        i = j;
                    }
                    if runs.len() <= 5 {
                        let mut ps = Vec::new();
                        for &(bit, i, j) in runs.iter().rev() {
                            if bit == 0 {
                                ps.push((C(0), j - i));
                            } else {
                                let x = self.extract(a, w, i, j - i);
                                ps.push((x, j - i));
                            }
                        }
                        return self.from_parts(&ps);
                    }
                }
                if w == 1 {
                    if self.is_not(a, b) {
                        return C(0);
                    }
                    // absorb: x & (x & y)
                    if let (X(x), X(y)) = (a, b) {
                        let (nx, ny) = (self.nd(x).clone(), self.nd(y).clone());
                        if nx.op == Op::And && (nx.a == y || nx.b == y) {
                            return a;
                        }
                        if ny.op == Op::And && (ny.a == x || ny.b == x) {
                            return b;
                        }
                        if nx.op == Op::Or && (nx.a == y || nx.b == y) {
                            return b;
                        }
                        if ny.op == Op::Or && (ny.a == x || ny.b == x) {
                            return a;
                        }
                    }
                }
                if let Some(r) = self.segwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if b == C(0) {
                    return a;
                }
                if b == C(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_not(a, b) {
                        return C(1);
                    }
                    if let (X(x), X(y)) = (a, b) {
                        let (nx, ny) = (self.nd(x).clone(), self.nd(y).clone());
                        if nx.op == Op::Or && (nx.a == y || nx.b == y) {
                            return a;
                        }
                        if ny.op == Op::Or && (ny.a == x || ny.b == x) {
                            return b;
                        }
                    }
                }
                if let Some(r) = self.segwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return C(0);
                }
                if b == C(0) {
                    return a;
                }
                if b == C(m) {
                    return self.not(a, w);
                }
                if let (X(x), C(k)) = (a, b) {
                    let n = self.nd(x).clone();
                    if n.op == Op::Xor {
                        if let C(j) = self.v(n.b) {
                            let y = self.v(n.a);
                            return self.bin(Op::Xor, w, y, C(k ^ j));
                        }
                    }
                }
                if let Some(r) = self.segwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Shl => {
                if let C(k) = b {
                    if k >= w as u128 {
                        return C(0);
                    }
                    if k == 0 {
                        return a;
                    }
                    let k = k as u16;
                    let x = self.extract(a, w, 0, w - k);
                    return self.from_parts(&[(x, w - k), (C(0), k)]);
                }
                if a == C(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let C(k) = b {
                    if k >= w as u128 {
                        return C(0);
                    }
                    if k == 0 {
                        return a;
                    }
                    let k = k as u16;
                    let x = self.extract(a, w, k, w - k);
                    return self.from_parts(&[(C(0), k), (x, w - k)]);
                }
                if a == C(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let C(k) = b {
                    let k = k.min(w as u128 - 1) as u16;
                    if k == 0 {
                        return a;
                    }
                    let x = self.extract(a, w, k, w - k);
                    return self.sext(x, w - k, w);
                }
            }
            _ => {}
        }
        self.fin(op, w, a, w, b, w)
    }
    fn is_not(&self, a: V, b: V) -> bool {
        if let (X(x), X(y)) = (a, b) {
            let (nx, ny) = (self.nd(x), self.nd(y));
            (nx.op == Op::Not && nx.a == y) || (ny.op == Op::Not && ny.a == x)
        } else {
            false
        }
    }
    fn disjoint(&mut self, a: V, b: V, w: u16) -> Option<V> {
        let cat = |p: &Pool, v: V| matches!(v, X(e) if p.nd(e).op == Op::Concat);
        if !(cat(self, a) || cat(self, b)) {
            return None;
        }
        let mut ps = Vec::new();
        for (x, y, sw) in self.segments(a, b, w) {
            if x == C(0) {
                ps.push((y, sw));
            } else if y == C(0) {
                ps.push((x, sw));
            } else {
                return None;
            }
        }
        Some(self.from_parts(&ps))
    }
    fn segwise(&mut self, op: Op, a: V, b: V, w: u16) -> Option<V> {
        let cat = |p: &Pool, v: V| matches!(v, X(e) if p.nd(e).op == Op::Concat);
        if !(cat(self, a) || cat(self, b)) {
            return None;
        }
        let segs = self.segments(a, b, w);
        if segs.len() < 2 {
            return None;
        }
        let mut ps = Vec::new();
        for (x, y, sw) in segs {
            ps.push((self.bin(op, sw, x, y), sw));
        }
        Some(self.from_parts(&ps))
    }

    // ---- evaluation ----
    pub fn eval_v(&mut self, v: V, m: &[u8]) -> u128 {
        match v {
            C(k) => k,
            X(e) => self.eval(e, m),
        }
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.gen = 1;
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.gen {
            return self.memo[i];
        }
        let (op, w, a, b, c, k) = {
            let n = &self.n[i];
            (n.op, n.w, n.a, n.b, n.c, n.k)
        };
        let r = match op {
            Op::Const => k,
            Op::Var => *m.get(k as usize).unwrap_or(&0) as u128,
            Op::Not => !self.ev(a, m) & mask(w),
            Op::Concat => {
                let wb = self.n[b as usize].w;
                (self.ev(a, m) << wb) | self.ev(b, m)
            }
            Op::Extract => (self.ev(a, m) >> k) & mask(w),
            Op::Sext => {
                let wa = self.n[a as usize].w;
                (sx(self.ev(a, m), wa) as u128) & mask(w)
            }
            Op::Ite => {
                if self.ev(a, m) == 1 {
                    self.ev(b, m)
                } else {
                    self.ev(c, m)
                }
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let wa = self.n[a as usize].w;
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                Pool::fold(op, wa, x, y)
            }
            _ => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                Pool::fold(op, w, x, y)
            }
        };
        self.stamp[i] = self.gen;
        self.memo[i] = r;
        r
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.nd(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Not | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
