//! Path-condition reasoning: exact byte domains for single-byte constraints, Z3 otherwise.
use crate::expr::*;
use crate::z3::Z3;
use std::ffi::c_void;
use std::rc::Rc;
use std::time::Instant;
type P = *mut c_void;

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub dom_queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub z3_time: f64,
    pub z3_max: f64,
}

/// Constraints of one path.
#[derive(Clone, Default)]
pub struct Pc {
    pub multi: Rc<Vec<E>>,       // constraints over several bytes
    pub dom: Rc<Vec<Dom>>,       // exact domain of single-byte constraints
    pub multi_vars: VarSet,
    pub model: Rc<Vec<u8>>,      // satisfies everything above
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<u8>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    pub z: Option<Z3>,
    zlib: String,
    timeout: u32,
    bv: Vec<P>,
    bo: Vec<P>,
    vars: Vec<P>,
    truth: FxMap<E, Dom>,
    domz: FxMap<(usize, Dom), P>,
    cache: FxMap<(Vec<u64>, E), Option<Vec<(usize, u8)>>>,
    recent: Vec<Rc<Vec<u8>>>,
    pub st: Stats,
    pub prof: bool,
    pub at: String,
    pub profile: std::collections::HashMap<String, (u64, f64, f64, String)>,
}

fn vs_has(s: &VarSet, i: usize) -> bool {
    s[i / 64] >> (i % 64) & 1 == 1
}
fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    a.iter().zip(b).any(|(x, y)| x & y != 0)
}
fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v / 64) as usize] >> (v % 64) & 1 == 1
}

impl Solver {
    pub fn new(lib: &str, timeout: u32) -> Solver {
        Solver {
            z: None,
            zlib: lib.to_string(),
            timeout,
            bv: vec![],
            bo: vec![],
            vars: vec![],
            truth: Default::default(),
            domz: Default::default(),
            cache: Default::default(),
            recent: vec![],
            st: Default::default(),
            prof: false,
            at: String::new(),
            profile: Default::default(),
        }
    }
    fn init(&mut self) {
        if self.z.is_none() {
            self.z = Some(Z3::new(&self.zlib, self.timeout));
        }
    }
    pub fn version(&mut self) -> String {
        self.init();
        self.z.as_ref().unwrap().version.clone()
    }
    /// Drop the Z3 context (before a fork of the process).
    pub fn drop_z3(&mut self) {
        self.z = None;
        self.bv.clear();
        self.bo.clear();
        self.vars.clear();
        self.domz.clear();
    }
    fn truth(&mut self, p: &mut Pool, e: E, v: usize) -> Dom {
        if let Some(d) = self.truth.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        let mut m = vec![0u8; v + 1];
        for x in 0..256usize {
            m[v] = x as u8;
            if p.eval(e, &m) == 1 {
                d[x / 64] |= 1 << (x % 64);
            }
        }
        self.truth.insert(e, d);
        d
    }
    /// Is `pc && e` satisfiable?
    pub fn check(&mut self, p: &mut Pool, pc: &Pc, e: E, force_z3: bool) -> Res {
        if !force_z3 {
            if let Some(v) = p.single_var(e) {
                self.st.dom_queries += 1;
                let t = self.truth(p, e, v);
                let d = pc.dom.get(v).copied().unwrap_or(FULL);
                let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
                if x == [0; 4] {
                    return Res::Unsat;
                }
                if !vs_has(&pc.multi_vars, v) {
                    let i = x.iter().position(|w| *w != 0).unwrap();
                    let val = (i * 64) as u8 + x[i].trailing_zeros() as u8;
                    let mut m = (*pc.model).clone();
                    if m.len() <= v {
                        m.resize(v + 1, 0);
                    }
                    m[v] = val;
                    return Res::Sat(Rc::new(m));
                }
            }
        }
        // slice
        let mut vs = *p.vars(e);
        let mut used = vec![false; pc.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.multi.iter().enumerate() {
                if !used[i] && vs_inter(p.vars(*c), &vs) {
                    used[i] = true;
                    ch = true;
                    let s = *p.vars(*c);
                    for j in 0..vs.len() {
                        vs[j] |= s[j];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let cs: Vec<E> =
            pc.multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        let mut doms: Vec<(usize, Dom)> = vec![];
        for v in 0..pc.dom.len() {
            if vs_has(&vs, v) && pc.dom[v] != FULL {
                doms.push((v, pc.dom[v]));
            }
        }
        let mut key: Vec<u64> = cs.iter().map(|x| *x as u64).collect();
        key.sort_unstable();
        for (v, d) in &doms {
            key.push((1 << 40) | *v as u64);
            key.extend_from_slice(d);
        }
        let key = (key, e);
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(a) => Res::Sat(Solver::apply(&pc.model, a)),
            };
        }
        // recent models
        if !force_z3 {
            for i in (0..self.recent.len()).rev() {
                let m = self.recent[i].clone();
                if doms.iter().all(|(v, d)| dom_has(d, *m.get(*v).unwrap_or(&0)))
                    && p.eval(e, &m) == 1
                    && cs.iter().all(|c| p.eval(*c, &m) == 1)
                {
                    self.st.model_hits += 1;
                    let mut a = vec![];
                    for v in 0..MAXV {
                        if vs_has(&vs, v) {
                            a.push((v, *m.get(v).unwrap_or(&0)));
                        }
                    }
                    let r = Solver::apply(&pc.model, &a);
                    self.cache.insert(key, Some(a));
                    return Res::Sat(r);
                }
            }
        }
        // Z3
        self.init();
        let t0 = Instant::now();
        self.st.z3_queries += 1;
        let mut asts = vec![];
        for c in cs.iter().chain(std::iter::once(&e)) {
            asts.push(self.zb(p, *c));
        }
        for (v, d) in &doms {
            asts.push(self.zdom(p, *v, *d));
        }
        let z = self.z.as_ref().unwrap();
        let r = unsafe {
            (z.a.Z3_solver_reset)(z.c, z.s);
            for a in asts {
                (z.a.Z3_solver_assert)(z.c, z.s, a);
            }
            match (z.a.Z3_solver_check)(z.c, z.s) {
                1 => {
                    self.st.z3_sat += 1;
                    let m = (z.a.Z3_solver_get_model)(z.c, z.s);
                    (z.a.Z3_model_inc_ref)(z.c, m);
                    let mut a = vec![];
                    for v in 0..MAXV {
                        if vs_has(&vs, v) {
                            let zv = self.vars.get(v).copied().unwrap_or(std::ptr::null_mut());
                            if zv.is_null() {
                                continue;
                            }
                            let mut out: P = std::ptr::null_mut();
                            (z.a.Z3_model_eval)(z.c, m, zv, true, &mut out);
                            let mut x = 0u64;
                            (z.a.Z3_get_numeral_uint64)(z.c, out, &mut x);
                            a.push((v, x as u8));
                        }
                    }
                    (z.a.Z3_model_dec_ref)(z.c, m);
                    let mm = Solver::apply(&pc.model, &a);
                    // the model must satisfy the query in our own evaluation
                    assert!(p.eval(e, &mm) == 1, "z3 model disagrees with evaluator");
                    self.recent.push(mm.clone());
                    if self.recent.len() > 6 {
                        self.recent.remove(0);
                    }
                    self.cache.insert(key, Some(a));
                    Res::Sat(mm)
                }
                -1 => {
                    self.st.z3_unsat += 1;
                    self.cache.insert(key, None);
                    Res::Unsat
                }
                _ => Res::Unknown,
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        if self.prof {
            let x = self.profile.entry(self.at.clone()).or_default();
            x.0 += 1;
            x.1 += dt;
            if dt > x.2 {
                x.2 = dt;
                x.3 = format!("{} | {}", p.show(e, 9), cs.iter().map(|c| p.show(*c, 5)).collect::<Vec<_>>().join(" ; "));
            }
        }
        self.st.z3_time += dt;
        if dt > self.st.z3_max {
            self.st.z3_max = dt;
        }
        r
    }
    fn apply(base: &Rc<Vec<u8>>, a: &[(usize, u8)]) -> Rc<Vec<u8>> {
        let mut m = (**base).clone();
        for (v, x) in a {
            if m.len() <= *v {
                m.resize(*v + 1, 0);
            }
            m[*v] = *x;
        }
        Rc::new(m)
    }
    /// Adds a constraint known to be satisfiable, with a model of the result.
    pub fn add(&mut self, p: &mut Pool, pc: &mut Pc, e: E, model: Rc<Vec<u8>>) {
        pc.model = model;
        if let Some(v) = p.single_var(e) {
            let t = self.truth(p, e, v);
            let d = Rc::make_mut(&mut pc.dom);
            if d.len() <= v {
                d.resize(v + 1, FULL);
            }
            for i in 0..4 {
                d[v][i] &= t[i];
            }
            return;
        }
        // split conjunctions, so that single-byte parts go to the domains
        let n = p.n[e as usize].clone();
        if n.op == Op::And {
            let m = pc.model.clone();
            self.add(p, pc, n.a, m.clone());
            self.add(p, pc, n.b, m);
            return;
        }
        if pc.multi.contains(&e) {
            return;
        }
        let s = *p.vars(e);
        for i in 0..s.len() {
            pc.multi_vars[i] |= s[i];
        }
        Rc::make_mut(&mut pc.multi).push(e);
    }
    fn zdom(&mut self, p: &mut Pool, v: usize, d: Dom) -> P {
        if let Some(x) = self.domz.get(&(v, d)) {
            return *x;
        }
        let ve = p.var(v);
        let zv = self.zv(p, ve);
        let z = self.z.as_ref().unwrap();
        let mut ors = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if dom_has(&d, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && dom_has(&d, (j + 1) as u8) {
                        j += 1;
                    }
                    if i == j {
                        ors.push(z.keep((z.a.Z3_mk_eq)(z.c, zv, z.num(i as u128, 8))));
                    } else {
                        let l = z.keep((z.a.Z3_mk_bvule)(z.c, z.num(i as u128, 8), zv));
                        let h = z.keep((z.a.Z3_mk_bvule)(z.c, zv, z.num(j as u128, 8)));
                        let ab = [l, h];
                        ors.push(z.keep((z.a.Z3_mk_and)(z.c, 2, ab.as_ptr())));
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            let r = z.keep((z.a.Z3_mk_or)(z.c, ors.len() as u32, ors.as_ptr()));
            self.domz.insert((v, d), r);
            r
        }
    }
    fn grow(&mut self, e: E) {
        let n = e as usize + 1;
        if self.bv.len() < n {
            self.bv.resize(n + n / 2, std::ptr::null_mut());
            self.bo.resize(n + n / 2, std::ptr::null_mut());
        }
    }
    /// Boolean translation of a 1-bit expression.
    fn zb(&mut self, p: &mut Pool, e: E) -> P {
        self.grow(e);
        let i = e as usize;
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let n = p.n[i].clone();
        let c = self.z.as_ref().unwrap().c;
        macro_rules! z {
            ($f:ident($($x:expr),*)) => {{ let z = self.z.as_ref().unwrap(); unsafe { z.keep((z.a.$f)(c, $($x),*)) } }};
        }
        let r = match n.op {
            Op::Const => {
                if n.k == 1 {
                    z!(Z3_mk_true())
                } else {
                    z!(Z3_mk_false())
                }
            }
            Op::Not => {
                let a = self.zb(p, n.a);
                z!(Z3_mk_not(a))
            }
            Op::And | Op::Or => {
                let a = self.zb(p, n.a);
                let b = self.zb(p, n.b);
                let ab = [a, b];
                if n.op == Op::And {
                    z!(Z3_mk_and(2, ab.as_ptr()))
                } else {
                    z!(Z3_mk_or(2, ab.as_ptr()))
                }
            }
            Op::Xor => {
                let a = self.zb(p, n.a);
                let b = self.zb(p, n.b);
                z!(Z3_mk_xor(a, b))
            }
            Op::Ite => {
                let a = self.zb(p, n.a);
                let b = self.zb(p, n.b);
                let d = self.zb(p, n.c);
                z!(Z3_mk_ite(a, b, d))
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let w = p.n[n.a as usize].w;
                if w == 1 && n.op == Op::Eq {
                    let a = self.zb(p, n.a);
                    let b = self.zb(p, n.b);
                    z!(Z3_mk_eq(a, b))
                } else {
                    let a = self.zv(p, n.a);
                    let b = self.zv(p, n.b);
                    match n.op {
                        Op::Eq => z!(Z3_mk_eq(a, b)),
                        Op::Ult => z!(Z3_mk_bvult(a, b)),
                        _ => z!(Z3_mk_bvslt(a, b)),
                    }
                }
            }
            _ => {
                let a = self.zv(p, e);
                let one = self.z.as_ref().unwrap().num(1, 1);
                z!(Z3_mk_eq(a, one))
            }
        };
        self.bo[i] = r;
        r
    }
    fn zv(&mut self, p: &mut Pool, e: E) -> P {
        self.grow(e);
        let i = e as usize;
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = p.n[i].clone();
        let c = self.z.as_ref().unwrap().c;
        macro_rules! z {
            ($f:ident($($x:expr),*)) => {{ let z = self.z.as_ref().unwrap(); unsafe { z.keep((z.a.$f)(c, $($x),*)) } }};
        }
        macro_rules! two {
            ($f:ident) => {{
                let a = self.zv(p, n.a);
                let b = self.zv(p, n.b);
                z!($f(a, b))
            }};
        }
        let boolish = n.w == 1
            && matches!(n.op, Op::Eq | Op::Ult | Op::Slt | Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite);
        let r = if boolish {
            let b = self.zb(p, e);
            let one = self.z.as_ref().unwrap().num(1, 1);
            let zero = self.z.as_ref().unwrap().num(0, 1);
            z!(Z3_mk_ite(b, one, zero))
        } else {
            match n.op {
                Op::Const => self.z.as_ref().unwrap().num(n.k, n.w as u32),
                Op::Var => {
                    let k = n.k as usize;
                    let x = self.z.as_ref().unwrap().var(&format!("b{}", k), 8);
                    if self.vars.len() <= k {
                        self.vars.resize(k + 1, std::ptr::null_mut());
                    }
                    self.vars[k] = x;
                    x
                }
                Op::Add => two!(Z3_mk_bvadd),
                Op::Sub => two!(Z3_mk_bvsub),
                Op::Mul => two!(Z3_mk_bvmul),
                Op::UDiv => two!(Z3_mk_bvudiv),
                Op::SDiv => two!(Z3_mk_bvsdiv),
                Op::URem => two!(Z3_mk_bvurem),
                Op::SRem => two!(Z3_mk_bvsrem),
                Op::Shl => two!(Z3_mk_bvshl),
                Op::LShr => two!(Z3_mk_bvlshr),
                Op::AShr => two!(Z3_mk_bvashr),
                Op::And => two!(Z3_mk_bvand),
                Op::Or => two!(Z3_mk_bvor),
                Op::Xor => two!(Z3_mk_bvxor),
                Op::Concat => two!(Z3_mk_concat),
                Op::Not => {
                    let a = self.zv(p, n.a);
                    z!(Z3_mk_bvnot(a))
                }
                Op::Extract => {
                    let a = self.zv(p, n.a);
                    z!(Z3_mk_extract(n.k as u32 + n.w as u32 - 1, n.k as u32, a))
                }
                Op::Sext => {
                    let a = self.zv(p, n.a);
                    let wa = p.n[n.a as usize].w;
                    z!(Z3_mk_sign_ext((n.w - wa) as u32, a))
                }
                Op::Ite => {
                    let a = self.zb(p, n.a);
                    let b = self.zv(p, n.b);
                    let d = self.zv(p, n.c);
                    z!(Z3_mk_ite(a, b, d))
                }
                Op::Eq | Op::Ult | Op::Slt => unreachable!(),
            }
        };
        self.bv[i] = r;
        r
    }
}
