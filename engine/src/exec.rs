//! The symbolic executor.
use crate::expr::{mask, sx, FxMap, Op as X, Pool, E, V};
use crate::mem::*;
use crate::module::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;
use V::*;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub conc: Rc<FxMap<E, u128>>,
    pub nsym: usize,
    pub outs: Rc<Vec<V>>,
    pub covers: Rc<Vec<Rc<str>>>,
    pub steps: u64,
    pub forks: u32,
    pub alloc_total: u64,
    pub alloc_max: u64,
    pub alloc_limit: u64,
    pub time: u64,
    pub errno: u64,
    pub tsd: u64,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Violation { kind: &'static str, id: String },
    Error(String),
}

#[derive(Clone)]
pub struct Viol {
    pub kind: String,
    pub id: String,
    pub model: Vec<u8>,
    pub trace: String,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub checks: BTreeMap<String, u64>,
    pub checks_sym: u64,
    pub covers: BTreeMap<String, Vec<u8>>,
    pub viols: BTreeMap<String, Viol>,
    pub viol_paths: u64,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub funcs: BTreeSet<String>,
    pub blocks: u64,
    pub max_sym: usize,
}

pub struct Limits {
    pub steps: u64,
    pub paths: u64,
    pub secs: f64,
    pub conc: usize,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub work: Vec<State>,
    pub r: Report,
    pub lim: Limits,
    pub param: u64,
    pub start: Instant,
    pub trace: bool,
    /// prefixes of assertions that are not evaluated
    pub skip: Vec<String>,
    ginit: FxMap<u32, Rc<Obj>>,
    seen_fn: FxMap<u32, ()>,
    seen_bb: FxMap<u64, ()>,
    wide_div: FxMap<E, ()>,
}

type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}
fn viol<T>(kind: &'static str, id: impl Into<String>) -> R<T> {
    Err(Stop::Violation { kind, id: id.into() })
}

enum Flow {
    Next,
    Stay, // control already set, or retry
}

impl Exec {
    pub fn new(m: Module, s: Solver, lim: Limits) -> Exec {
        Exec {
            m,
            p: Pool::new(),
            s,
            work: vec![],
            r: Default::default(),
            lim,
            param: 0,
            start: Instant::now(),
            trace: false,
            skip: Vec::new(),
            ginit: Default::default(),
            seen_fn: Default::default(),
            seen_bb: Default::default(),
            wide_div: Default::default(),
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let ix = *self.m.by_name.get(entry).unwrap_or_else(|| {
            println!("ERROR\tno function {}", entry);
            std::process::exit(4);
        });
        let f = self.m.func(ix);
        self.note_fn(&f);
        let fr = Frame { regs: vec![Val::c(0); f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![] };
        State {
            frames: vec![Rc::new(fr)],
            mem: Mem::new(self.m.first_free_id()),
            pc: Pc::default(),
            conc: Default::default(),
            nsym: 0,
            outs: Default::default(),
            covers: Default::default(),
            steps: 0,
            forks: 0,
            alloc_total: 0,
            alloc_max: 0,
            alloc_limit: 64 << 20,
            time: 1_000_000_000_000,
            errno: 0,
            tsd: 0,
        }
    }
    fn note_fn(&mut self, f: &Rc<Func>) {
        if self.seen_fn.insert(f.id, ()).is_none() {
            self.r.funcs.insert(f.name.to_string());
        }
    }

    /// Runs states until `stop` says so or the work list is empty.
    pub fn run(&mut self, bfs_until: Option<usize>) {
        loop {
            if let Some(n) = bfs_until {
                if self.work.len() >= n {
                    return;
                }
            }
            if self.start.elapsed().as_secs_f64() > self.lim.secs {
                *self.r.errors.entry("time limit".into()).or_default() += 1 + self.work.len() as u64;
                self.work.clear();
                return;
            }
            if self.r.paths > self.lim.paths {
                *self.r.errors.entry("path limit".into()).or_default() += 1;
                self.work.clear();
                return;
            }
            let st = if bfs_until.is_some() {
                if self.work.is_empty() {
                    return;
                }
                self.work.remove(0)
            } else {
                match self.work.pop() {
                    Some(s) => s,
                    None => return,
                }
            };
            self.run_state(st, bfs_until.is_some());
        }
    }

    fn run_state(&mut self, mut st: State, bfs: bool) {
        let w0 = self.work.len();
        let stop = loop {
            if bfs && self.work.len() > w0 {
                // breadth first: put back after a fork
                self.work.push(st);
                return;
            }
            match self.step_block(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if st.steps > self.lim.steps {
                let w = self.where_(&st);
                break Stop::Violation { kind: "steps", id: format!("does not end within {} instructions, in {}", self.lim.steps, w) };
            }
            if self.start.elapsed().as_secs_f64() > self.lim.secs {
                break Stop::Error("time limit".into());
            }
        };
        self.finish(st, stop);
    }

    fn finish(&mut self, st: State, stop: Stop) {
        self.r.steps += st.steps;
        self.r.max_steps = self.r.max_steps.max(st.steps);
        self.r.max_sym = self.r.max_sym.max(st.nsym);
        let model = |st: &State| -> Vec<u8> {
            let mut m = (*st.pc.model).clone();
            m.resize(st.nsym, 0);
            m
        };
        match stop {
            Stop::Done => {
                self.r.paths += 1;
                for c in st.covers.iter() {
                    if !self.r.covers.contains_key(&**c) {
                        self.r.covers.insert(c.to_string(), model(&st));
                    }
                }
                let n = self.r.paths;
                if n <= 6 || (n & (n - 1)) == 0 {
                    let m = model(&st);
                    let mut h = 0xcbf29ce484222325u64;
                    for i in 0..st.outs.len() {
                        let b = self.p.eval_v(st.outs[i], &m) as u64;
                        h = (h ^ b).wrapping_mul(0x100000001b3);
                    }
                    self.r.samples.push((m, h));
                }
            }
            Stop::Infeasible => self.r.infeasible += 1,
            Stop::Violation { kind, id } => {
                self.r.paths += 1;
                self.r.viol_paths += 1;
                self.record(&st, kind, id, None);
            }
            Stop::Error(e) => {
                if self.trace {
                    eprintln!("error {} at {}", e, self.backtrace(&st));
                }
                let w = self.where_(&st);
                *self.r.errors.entry(format!("{} @ {}", e, w)).or_default() += 1;
            }
        }
    }
    fn record(&mut self, st: &State, kind: &str, id: String, model: Option<Vec<u8>>) {
        let key = format!("{}:{}", kind, id);
        if !self.r.viols.contains_key(&key) && self.r.viols.len() < 64 {
            let mut m = model.unwrap_or_else(|| (*st.pc.model).clone());
            m.resize(st.nsym, 0);
            let trace = self.backtrace(st);
            self.r.viols.insert(key, Viol { kind: kind.into(), id, model: m, trace });
        }
    }
    fn where_(&self, st: &State) -> String {
        st.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default()
    }
    fn backtrace(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().rev().take(12).map(|f| f.f.name.to_string()).collect();
        v.truncate(12);
        v.join(" < ")
    }

    // ------------------------------------------------------------ operands
    #[inline(always)]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline(always)]
    fn gets(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::S(v) => *v,
                _ => panic!("scalar expected"),
            },
            Op::K(v) => v.s(),
        }
    }
    #[inline(always)]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
    }

    // ------------------------------------------------------------ forking
    /// Which way does the path go? Pushes nothing: returns the other side if it is feasible.
    fn split(&mut self, st: &mut State, c: V) -> R<(bool, Option<State>)> {
        let e = match c {
            C(k) => return Ok((k == 1, None)),
            X(e) => e,
        };
        let cur = self.p.eval(e, &st.pc.model) == 1;
        let ne = {
            let t = self.p.not(X(e), 1);
            match t {
                X(t) => t,
                C(_) => unreachable!(),
            }
        };
        let (this, other) = if cur { (e, ne) } else { (ne, e) };
        match self.s.check(&mut self.p, &st.pc, other, false) {
            Res::Unsat => Ok((cur, None)),
            Res::Sat(m) => {
                let mut o = st.clone();
                self.s.add(&mut self.p, &mut o.pc, other, m);
                let mm = st.pc.model.clone();
                self.s.add(&mut self.p, &mut st.pc, this, mm);
                st.forks += 1;
                o.forks += 1;
                self.r.forks += 1;
                Ok((cur, Some(o)))
            }
            Res::Unknown => err("solver timeout"),
        }
    }
    /// Adds a constraint, or stops the path.
    fn assume(&mut self, st: &mut State, c: V) -> R<()> {
        match c {
            C(1) => Ok(()),
            C(_) => Err(Stop::Infeasible),
            X(e) => {
                let m = st.pc.model.clone();
                if self.p.eval(e, &m) == 1 {
                    self.s.add(&mut self.p, &mut st.pc, e, m);
                    return Ok(());
                }
                match self.s.check(&mut self.p, &st.pc, e, false) {
                    Res::Sat(m) => {
                        self.s.add(&mut self.p, &mut st.pc, e, m);
                        Ok(())
                    }
                    Res::Unsat => Err(Stop::Infeasible),
                    Res::Unknown => err("solver timeout"),
                }
            }
        }
    }
    /// All feasible values of an expression, with the constraint for each.
    fn values(&mut self, st: &State, e: E, limit: usize) -> R<Vec<(u128, State)>> {
        let w = self.p.n[e as usize].w;
        let mut out: Vec<(u128, State)> = vec![];
        let mut base = st.clone();
        loop {
            let v = self.p.eval(e, &base.pc.model);
            let c = self.p.eq(X(e), C(v), w);
            let mut s = base.clone();
            let m = s.pc.model.clone();
            if let X(c) = c {
                self.s.add(&mut self.p, &mut s.pc, c, m);
            }
            Rc::make_mut(&mut s.conc).insert(e, v);
            out.push((v, s));
            if out.len() > limit {
                return err(format!("more than {} values for {}", limit, self.p.show(e, 4)));
            }
            let nc = self.p.not(c, 1);
            let nc = match nc {
                X(x) => x,
                C(_) => break,
            };
            match self.s.check(&mut self.p, &base.pc, nc, false) {
                Res::Sat(m) => self.s.add(&mut self.p, &mut base.pc, nc, m),
                Res::Unsat => break,
                Res::Unknown => return err("solver timeout"),
            }
        }
        Ok(out)
    }
    /// Concrete value of `v`; forks the path when there are several (the caller must retry).
    fn conc(&mut self, st: &mut State, v: V) -> R<u128> {
        let e = match v {
            C(k) => return Ok(k),
            X(e) => e,
        };
        if let Some(k) = st.conc.get(&e) {
            return Ok(*k);
        }
        let mut vs = self.values(st, e, self.lim.conc)?;
        self.r.forks += vs.len() as u64 - 1;
        let (v0, s0) = vs.swap_remove(0);
        for (_, mut s) in vs {
            s.forks += 1;
            self.work.push(s);
        }
        *st = s0;
        Ok(v0)
    }

    /// Division by a constant that can only give a few quotients: one path for each (exact, and
    /// spares the solver the division).
    fn quotient(&mut self, st: &mut State, op: X, w: u16, x: V, y: V) -> R<Option<V>> {
        let (X(e), C(c)) = (x, y) else { return Ok(None) };
        let signed = matches!(op, X::SDiv | X::SRem);
        if !(signed || matches!(op, X::UDiv | X::URem)) || !(32..=64).contains(&w) {
            return Ok(None);
        }
        if c < 3 || c.is_power_of_two() || (signed && c >= 1 << (w - 1)) || self.wide_div.contains_key(&e) {
            return Ok(None);
        }
        let X(qe) = self.p.bin(if signed { X::SDiv } else { X::UDiv }, w, x, y) else { return Ok(None) };
        let q = match st.conc.get(&qe) {
            Some(q) => *q,
            None => {
                let m = mask(w);
                let c = c as i128;
                let (lo_t, hi_t) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, m as i128) };
                let mut out: Vec<(u128, State)> = vec![];
                let mut base = st.clone();
                loop {
                    let v = self.p.eval(qe, &base.pc.model);
                    let q = if signed && v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 };
                    let (lo, hi) = match q.signum() {
                        0 => (if signed { 1 - c } else { 0 }, c - 1),
                        1 => (q * c, q * c + c - 1),
                        _ => (q * c - (c - 1), q * c),
                    };
                    let (lo, hi) = (lo.max(lo_t), hi.min(hi_t));
                    // lo <= x <= hi as one unsigned comparison
                    let d = self.p.bin(X::Sub, w, x, C(lo as u128 & m));
                    let out_of = self.p.ult(C((hi - lo) as u128), d, w);
                    let inside = self.p.not(out_of, 1);
                    let mut s = base.clone();
                    let mm = s.pc.model.clone();
                    if let X(i) = inside {
                        self.s.add(&mut self.p, &mut s.pc, i, mm);
                    }
                    Rc::make_mut(&mut s.conc).insert(qe, v);
                    out.push((v, s));
                    let o = match out_of {
                        X(o) => o,
                        C(_) => break,
                    };
                    match self.s.check(&mut self.p, &base.pc, o, false) {
                        Res::Sat(m) => self.s.add(&mut self.p, &mut base.pc, o, m),
                        Res::Unsat => break,
                        Res::Unknown => return err("solver timeout"),
                    }
                    if out.len() == 8 {
                        self.wide_div.insert(e, ());
                        return Ok(None);
                    }
                }
                self.r.forks += out.len() as u64 - 1;
                let (v0, s0) = out.swap_remove(0);
                for (_, mut s) in out {
                    s.forks += 1;
                    self.work.push(s);
                }
                *st = s0;
                v0
            }
        };
        Ok(Some(match op {
            X::UDiv | X::SDiv => C(q),
            _ => {
                let k = q.wrapping_mul(c) & mask(w);
                self.p.bin(X::Sub, w, x, C(k))
            }
        }))
    }

    // ------------------------------------------------------------ memory
    fn obj(&mut self, st: &mut State, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Ok(o.clone());
        }
        if id > 0 && id < self.m.n_globs {
            let o = self.global(id);
            st.mem.put(id, o.clone());
            return Ok(o);
        }
        viol("memory", format!("invalid pointer in {}", self.where_(st)))
    }
    fn global(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.ginit.get(&id) {
            return o.clone();
        }
        let g = self.m.globs[id as usize];
        let a = &self.m.l.a;
        let (ty, init, ro) = unsafe {
            let t = self.m.ty((a.LLVMGlobalGetValueType)(g));
            let i = (a.LLVMGetInitializer)(g);
            (t, i, (a.LLVMIsGlobalConstant)(g) != 0)
        };
        let mut o = Obj::new(ty.bytes() as usize, false);
        o.ro = ro;
        if !init.is_null() {
            let v = self.m.cval(init);
            fill(&mut o, 0, &ty, &v);
        }
        let o = Rc::new(o);
        self.ginit.insert(id, o.clone());
        o
    }
    fn ptr(&mut self, st: &mut State, p: V) -> R<u64> {
        Ok(self.conc(st, p)? as u64)
    }
    fn locate(&mut self, st: &mut State, addr: u64, n: u64) -> R<(u32, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        if id == 0 {
            if addr == 0 {
                return viol("memory", format!("null pointer in {}", self.where_(st)));
            }
            return viol("memory", format!("dangling pointer in {}", self.where_(st)));
        }
        let o = self.obj(st, id)?;
        if off + n as usize > o.data.len() {
            return viol("memory", format!("access out of bounds in {}", self.where_(st)));
        }
        Ok((id, off))
    }
    fn read_bytes(&mut self, o: &Obj, off: usize, n: usize) -> V {
        if n == 0 {
            return C(0);
        }
        let conc = match &o.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|e| *e == 0),
        };
        if conc {
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = (k << 8) | o.data[off + i] as u128;
            }
            return C(k);
        }
        let mut acc: Option<(V, u16)> = None;
        for i in 0..n {
            let b = byte_at(o, off + i);
            acc = Some(match acc {
                None => (b, 8),
                Some((v, w)) => (self.p.concat(b, 8, v, w), w + 8),
            });
        }
        acc.unwrap().0
    }
    fn load_obj(&mut self, o: &Obj, off: usize, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Int(w) | Ty::F(w) => {
                let n = (*w as usize + 7) / 8;
                if n > 16 {
                    return err(format!("load of i{}", w));
                }
                let v = self.read_bytes(o, off, n);
                Val::S(if n as u16 * 8 != *w { self.p.extract(v, n as u16 * 8, 0, *w) } else { v })
            }
            Ty::Ptr => Val::S(self.read_bytes(o, off, 8)),
            Ty::Struct(el, _) => {
                let mut v = vec![];
                for (t, f) in el {
                    v.push(self.load_obj(o, off + *f as usize, t)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Arr(n, e, sz) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_obj(o, off + (i * sz) as usize, e)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                let b = e.bits() as usize;
                if b % 8 != 0 {
                    let nb = *n as usize * b;
                    if nb % 8 != 0 || nb > 128 {
                        return err("load of bit vector");
                    }
                    let w = self.read_bytes(o, off, nb / 8);
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        v.push(Val::S(self.p.extract(w, nb as u16, (i * b) as u16, b as u16)));
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_obj(o, off + i * b / 8, e)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return err(format!("load of {:?}", t)),
        })
    }
    fn load(&mut self, st: &mut State, p: V, t: &Ty) -> R<Val> {
        let n = t.bytes();
        if n == 0 {
            return Ok(self.m.zero(t));
        }
        if let X(e) = p {
            if !st.conc.contains_key(&e) {
                return self.load_sym(st, e, t);
            }
        }
        let a = self.ptr(st, p)?;
        let (id, off) = self.locate(st, a, n)?;
        let o = st.mem.get(id).unwrap().clone();
        self.load_obj(&o, off, t)
    }
    /// Load through a symbolic address: an if-then-else over the offsets in one object.
    fn load_sym(&mut self, st: &mut State, e: E, t: &Ty) -> R<Val> {
        let n = t.bytes();
        let scalar = matches!(t, Ty::Int(_) | Ty::Ptr | Ty::F(_));
        let a0 = self.p.eval(e, &st.pc.model) as u64;
        let id = (a0 >> 32) as u32;
        let small = if id == 0 { None } else { self.obj(st, id).ok() };
        let Some(o) = small else {
            let a = self.conc(st, X(e))? as u64;
            let (id, off) = self.locate(st, a, n)?;
            let o = st.mem.get(id).unwrap().clone();
            return self.load_obj(&o, off, t);
        };
        if !scalar || (o.data.len() as u64) < n || o.data.len() > 4096 {
            let a = self.conc(st, X(e))? as u64;
            let (id, off) = self.locate(st, a, n)?;
            let o = st.mem.get(id).unwrap().clone();
            return self.load_obj(&o, off, t);
        }
        let base = (id as u64) << 32;
        let off = self.p.bin(X::Sub, 64, X(e), C(base as u128));
        let lim = o.data.len() as u128 - n as u128;
        let inr = self.p.ule(off, C(lim), 64);
        let (this, other) = self.split(st, inr)?;
        if let Some(s) = other {
            self.work.push(s);
        }
        if !this {
            // elsewhere: one concrete address at a time
            let a = self.conc(st, X(e))? as u64;
            let (id, off) = self.locate(st, a, n)?;
            let o = st.mem.get(id).unwrap().clone();
            return self.load_obj(&o, off, t);
        }
        // few feasible values?
        let stride = self.stride(off, n);
        let mut cells: Vec<(u64, V)> = vec![];
        let mut k = 0u64;
        while k as u128 <= lim {
            let v = self.load_obj(&o, k as usize, t)?.s();
            cells.push((k, v));
            k += stride;
        }
        let w = t.bits();
        // compress runs of equal values
        let mut runs: Vec<(u64, V)> = vec![]; // (last offset, value)
        for (k, v) in cells {
            if let Some(l) = runs.last_mut() {
                if l.1 == v {
                    l.0 = k;
                    continue;
                }
            }
            runs.push((k, v));
        }
        let mut acc = runs.last().unwrap().1;
        for i in (0..runs.len() - 1).rev() {
            let c = self.p.ule(off, C(runs[i].0 as u128), 64);
            acc = self.p.ite(c, runs[i].1, acc, w);
        }
        Ok(Val::S(acc))
    }
    fn stride(&self, off: V, _n: u64) -> u64 {
        // trailing constant-zero bits of the offset
        if let X(mut e) = off {
            loop {
                let nd = &self.p.n[e as usize];
                match nd.op {
                    X::Concat => e = nd.b,
                    X::Const => {
                        let tz = if nd.k == 0 { nd.w as u32 } else { 0 };
                        return 1 << tz.min(12);
                    }
                    X::Add => {
                        let (a, b) = (self.stride(self.p.v(nd.a), 0), self.stride(self.p.v(nd.b), 0));
                        return a.min(b);
                    }
                    _ => return 1,
                }
            }
        } else if let C(k) = off {
            return if k == 0 { 1 << 12 } else { 1 << (k.trailing_zeros().min(12)) };
        }
        1
    }
    fn wobj<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return viol("memory", "write to constant");
        }
        Ok(o)
    }
    fn store_scalar(&mut self, st: &mut State, id: u32, off: usize, v: V, n: usize) -> R<()> {
        match v {
            C(k) => {
                let o = self.wobj(st, id)?;
                for i in 0..n {
                    o.data[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = 0;
                    }
                }
            }
            X(_) => {
                let w = n as u16 * 8;
                for i in 0..n {
                    let b = self.p.extract(v, w, 8 * i as u16, 8);
                    let o = self.wobj(st, id)?;
                    match b {
                        C(k) => {
                            o.data[off + i] = k as u8;
                            if let Some(s) = &mut o.sym {
                                s[off + i] = 0;
                            }
                        }
                        X(e) => o.symv()[off + i] = e,
                    }
                }
            }
        }
        Ok(())
    }
    fn store_at(&mut self, st: &mut State, id: u32, off: usize, v: &Val, t: &Ty) -> R<()> {
        match t {
            Ty::Int(w) | Ty::F(w) => {
                let n = (*w as usize + 7) / 8;
                let s = v.s();
                let s = if n as u16 * 8 != *w { self.p.zext(s, *w, n as u16 * 8) } else { s };
                self.store_scalar(st, id, off, s, n)
            }
            Ty::Ptr => self.store_scalar(st, id, off, v.s(), 8),
            Ty::Struct(el, _) => {
                let a = v.a().clone();
                for (i, (t, f)) in el.iter().enumerate() {
                    self.store_at(st, id, off + *f as usize, &a[i], t)?;
                }
                Ok(())
            }
            Ty::Arr(n, e, sz) => {
                let a = v.a().clone();
                for i in 0..*n as usize {
                    self.store_at(st, id, off + i * *sz as usize, &a[i], e)?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let b = e.bits() as usize;
                if b % 8 != 0 {
                    let nb = *n as usize * b;
                    if nb % 8 != 0 || nb > 128 {
                        return err("store of bit vector");
                    }
                    let a = v.a().clone();
                    let mut acc = a[0].s();
                    for i in 1..*n as usize {
                        acc = self.p.concat(a[i].s(), b as u16, acc, (i * b) as u16);
                    }
                    return self.store_scalar(st, id, off, acc, nb / 8);
                }
                let a = v.a().clone();
                for i in 0..*n as usize {
                    self.store_at(st, id, off + i * b / 8, &a[i], e)?;
                }
                Ok(())
            }
            _ => err(format!("store of {:?}", t)),
        }
    }
    fn store(&mut self, st: &mut State, p: V, v: &Val, t: &Ty) -> R<()> {
        let n = t.bytes();
        if n == 0 {
            return Ok(());
        }
        let a = self.ptr(st, p)?;
        let (id, off) = self.locate(st, a, n)?;
        self.store_at(st, id, off, v, t)
    }
    fn memcpy(&mut self, st: &mut State, d: V, s: V, n: V) -> R<()> {
        let n = self.conc(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let (d, s) = (self.ptr(st, d)?, self.ptr(st, s)?);
        let (sid, so) = self.locate(st, s, n as u64)?;
        let (did, doff) = self.locate(st, d, n as u64)?;
        let src = st.mem.get(sid).unwrap().clone();
        let o = self.wobj(st, did)?;
        o.data[doff..doff + n].copy_from_slice(&src.data[so..so + n]);
        match &src.sym {
            Some(ss) if ss[so..so + n].iter().any(|e| *e != 0) => {
                o.symv()[doff..doff + n].copy_from_slice(&ss[so..so + n]);
            }
            _ => {
                if let Some(x) = &mut o.sym {
                    for e in &mut x[doff..doff + n] {
                        *e = 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: V, v: V, n: V) -> R<()> {
        let n = self.conc(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let d = self.ptr(st, d)?;
        let (id, off) = self.locate(st, d, n as u64)?;
        let o = self.wobj(st, id)?;
        match v {
            C(k) => {
                o.data[off..off + n].fill(k as u8);
                if let Some(x) = &mut o.sym {
                    x[off..off + n].fill(0);
                }
            }
            X(e) => o.symv()[off..off + n].fill(e),
        }
        Ok(())
    }
    fn bytes(&mut self, st: &mut State, p: V, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.ptr(st, p)?;
        let (id, off) = self.locate(st, a, n as u64)?;
        let o = st.mem.get(id).unwrap().clone();
        Ok((0..n).map(|i| byte_at(&o, off + i)).collect())
    }
    fn cstr(&mut self, st: &mut State, p: V, n: V) -> R<String> {
        let n = self.conc(st, n)? as usize;
        let b = self.bytes(st, p, n)?;
        let m = st.pc.model.clone();
        let v: Vec<u8> = b.iter().map(|x| self.p.eval_v(*x, &m) as u8).collect();
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    fn memcmp(&mut self, st: &mut State, a: V, b: V, n: V, only_eq: bool) -> R<V> {
        let n = self.conc(st, n)? as usize;
        let x = self.bytes(st, a, n)?;
        let y = self.bytes(st, b, n)?;
        if only_eq {
            let mut r = C(1);
            for i in 0..n {
                let e = self.p.eq(x[i], y[i], 8);
                r = self.p.bin(X::And, 1, r, e);
                if r == C(0) {
                    break;
                }
            }
            let ne = self.p.not(r, 1);
            return Ok(self.p.zext(ne, 1, 32));
        }
        let mut r = C(0);
        for i in (0..n).rev() {
            let e = self.p.eq(x[i], y[i], 8);
            let l = self.p.ult(x[i], y[i], 8);
            let d = self.p.ite(l, C(0xffff_ffff), C(1), 32);
            r = self.p.ite(e, r, d, 32);
        }
        Ok(r)
    }
    fn malloc(&mut self, st: &mut State, n: V) -> R<u64> {
        let sz = match n {
            C(k) => k as u64,
            X(e) => {
                // may it exceed the limit?
                let lim = st.alloc_limit as u128;
                let big = self.p.ult(C(lim), X(e), 64);
                if let X(b) = big {
                    match self.s.check(&mut self.p, &st.pc, b, false) {
                        Res::Sat(m) => {
                            let mm = m.to_vec();
                            let w = self.where_(st);
                            self.record(st, "alloc", format!("allocation over the limit in {}", w), Some(mm));
                            let nb = self.p.not(big, 1);
                            self.assume(st, nb)?;
                        }
                        Res::Unsat => {}
                        Res::Unknown => return err("solver timeout"),
                    }
                } else if big == C(1) {
                    return viol("alloc", format!("allocation over the limit in {}", self.where_(st)));
                }
                // smallest power-of-two bound, so that the object is large enough
                let mut bound = 16u128;
                loop {
                    if bound >= lim {
                        bound = lim;
                        break;
                    }
                    let c = self.p.ult(C(bound), X(e), 64);
                    match c {
                        C(0) => break,
                        C(_) => {}
                        X(c) => match self.s.check(&mut self.p, &st.pc, c, false) {
                            Res::Unsat => break,
                            Res::Sat(_) => {}
                            Res::Unknown => return err("solver timeout"),
                        },
                    }
                    bound *= 2;
                }
                bound as u64
            }
        };
        if sz > st.alloc_limit {
            return viol("alloc", format!("allocation over the limit in {}", self.where_(st)));
        }
        st.alloc_total += sz;
        st.alloc_max = st.alloc_max.max(sz);
        Ok(st.mem.alloc(Obj::new(sz as usize, true)))
    }
    fn free(&mut self, st: &mut State, p: V) -> R<()> {
        let a = self.ptr(st, p)?;
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as u32;
        match st.mem.get(id) {
            Some(o) if o.heap && a & 0xffff_ffff == 0 => {
                st.mem.free(id);
                Ok(())
            }
            _ => viol("memory", format!("invalid free in {}", self.where_(st))),
        }
    }

    // ------------------------------------------------------------ execution
    fn jump(&mut self, st: &mut State, bb: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let b = &f.blocks[bb as usize];
        let from = fr.bb;
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                let v = match o {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            }
            _ => {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                    vals.push(match o {
                        Op::R(r) => fr.regs[*r as usize].clone(),
                        Op::K(v) => v.clone(),
                    });
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = bb;
        fr.ip = 0;
        let key = ((f.id as u64) << 32) | bb as u64;
        if self.seen_bb.insert(key, ()).is_none() {
            self.r.blocks += 1;
        }
    }

    /// Executes instructions until control leaves the block (or a retry is needed).
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        let bb = st.frames.last().unwrap().bb as usize;
        let depth = st.frames.len();
        loop {
            let ip = st.frames.last().unwrap().ip as usize;
            let ins = &f.blocks[bb].ins[ip];
            st.steps += 1;
            let w0 = self.work.len();
            if self.s.prof {
                self.s.at = format!("{}#{}", f.name, bb);
            }
            match self.step(st, ins)? {
                Flow::Next => {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                    if st.frames.len() != depth || self.work.len() != w0 {
                        return Ok(());
                    }
                }
                Flow::Stay => return Ok(()),
            }
        }
    }

    fn lanes2(
        &mut self,
        ty: &Ty,
        a: &Val,
        b: &Val,
        f: &mut dyn FnMut(&mut Exec, V, V, u16) -> R<V>,
    ) -> R<Val> {
        match ty.lanes() {
            Some((n, w)) => {
                let (x, y) = (a.a().clone(), b.a().clone());
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    o.push(Val::S(f(self, x[i].s(), y[i].s(), w)?));
                }
                Ok(Val::A(Rc::new(o)))
            }
            None => Ok(Val::S(f(self, a.s(), b.s(), ty.bits())?)),
        }
    }
    fn icmp(&mut self, pred: i32, a: V, b: V, w: u16) -> V {
        match pred {
            32 => self.p.eq(a, b, w),
            33 => {
                let t = self.p.eq(a, b, w);
                self.p.not(t, 1)
            }
            34 => self.p.ult(b, a, w),
            35 => self.p.ule(b, a, w),
            36 => self.p.ult(a, b, w),
            37 => self.p.ule(a, b, w),
            38 => self.p.slt(b, a, w),
            39 => self.p.sle(b, a, w),
            40 => self.p.slt(a, b, w),
            _ => self.p.sle(a, b, w),
        }
    }
    fn fcmp(&mut self, pred: i32, a: V, b: V, w: u16) -> V {
        let (eb, mb) = if w == 32 { (8u16, 23u16) } else { (11, 52) };
        let p = &mut self.p;
        let nan = |p: &mut Pool, x: V| {
            let e = p.extract(x, w, mb, eb);
            let m = p.extract(x, w, 0, mb);
            let e1 = p.eq(e, C(mask(eb)), eb);
            let m0 = p.eq(m, C(0), mb);
            let m1 = p.not(m0, 1);
            p.bin(X::And, 1, e1, m1)
        };
        let na = nan(p, a);
        let nb = nan(p, b);
        let uno = p.bin(X::Or, 1, na, nb);
        let ord = p.not(uno, 1);
        let ma = p.extract(a, w, 0, w - 1);
        let mb_ = p.extract(b, w, 0, w - 1);
        let za = p.eq(ma, C(0), w - 1);
        let zb = p.eq(mb_, C(0), w - 1);
        let zz = p.bin(X::And, 1, za, zb);
        let same = p.eq(a, b, w);
        let eq = p.bin(X::Or, 1, same, zz);
        let sa = p.extract(a, w, w - 1, 1);
        let sb = p.extract(b, w, w - 1, 1);
        let lt = |p: &mut Pool, x: V, y: V, sx: V, sy: V| {
            // x < y, neither NaN
            let ul = p.ult(x, y, w);
            let ug = p.ult(y, x, w);
            let t = p.ite(sy, C(0), ul, 1); // both positive
            let u = p.ite(sy, ug, C(1), 1); // x negative
            let r = p.ite(sx, u, t, 1);
            let nz = p.not(zz, 1);
            p.bin(X::And, 1, r, nz)
        };
        let l = lt(p, a, b, sa, sb);
        let g = lt(p, b, a, sb, sa);
        let core = match pred & 7 {
            0 => C(0),
            1 => eq,
            2 => g,
            3 => p.bin(X::Or, 1, g, eq),
            4 => l,
            5 => p.bin(X::Or, 1, l, eq),
            6 => p.not(eq, 1),
            _ => C(1),
        };
        let o = p.bin(X::And, 1, ord, core);
        if pred >= 8 {
            p.bin(X::Or, 1, uno, o)
        } else {
            o
        }
    }
    fn flatten(&mut self, v: &Val, t: &Ty) -> V {
        match t.lanes() {
            Some((n, w)) => {
                let a = v.a().clone();
                let mut acc = a[0].s();
                let mut aw = w;
                for i in 1..n as usize {
                    acc = self.p.concat(a[i].s(), w, acc, aw);
                    aw += w;
                }
                acc
            }
            None => v.s(),
        }
    }
    fn unflatten(&mut self, v: V, t: &Ty) -> Val {
        match t.lanes() {
            Some((n, w)) => {
                let tot = n as u16 * w;
                let mut o = vec![];
                for i in 0..n as u16 {
                    o.push(Val::S(self.p.extract(v, tot, i * w, w)));
                }
                Val::A(Rc::new(o))
            }
            None => Val::S(v),
        }
    }
    fn cast1(&mut self, k: CastK, a: V, wf: u16, wt: u16) -> R<V> {
        Ok(match k {
            CastK::Trunc => self.p.extract(a, wf, 0, wt),
            CastK::Zext => self.p.zext(a, wf, wt),
            CastK::Sext => self.p.sext(a, wf, wt),
            CastK::Bit => a,
            _ => {
                let C(x) = a else { return err("symbolic floating point conversion") };
                let fl = |x: u128, w: u16| {
                    if w == 32 {
                        f32::from_bits(x as u32) as f64
                    } else {
                        f64::from_bits(x as u64)
                    }
                };
                let un = |d: f64, w: u16| {
                    if w == 32 {
                        (d as f32).to_bits() as u128
                    } else {
                        d.to_bits() as u128
                    }
                };
                C(match k {
                    CastK::FpToUi => (fl(x, wf) as u128) & mask(wt),
                    CastK::FpToSi => (fl(x, wf) as i128 as u128) & mask(wt),
                    CastK::UiToFp if wt == 32 => (x as f32).to_bits() as u128,
                    CastK::UiToFp => un(x as f64, wt),
                    CastK::SiToFp if wt == 32 => (sx(x, wf) as f32).to_bits() as u128,
                    CastK::SiToFp => un(sx(x, wf) as f64, wt),
                    _ => un(fl(x, wf), wt),
                })
            }
        })
    }

    fn step(&mut self, st: &mut State, ins: &Ins) -> R<Flow> {
        match ins {
            Ins::Bin { op, ty, a, b, d } => {
                let v = if let Ty::Vec(..) = **ty {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    self.lanes2(ty, &x, &y, &mut |s, x, y, w| Ok(s.p.bin(*op, w, x, y)))?
                } else {
                    let (x, y) = (self.gets(st, a), self.gets(st, b));
                    if matches!(op, X::UDiv | X::URem | X::SDiv | X::SRem) && y == C(0) {
                        return viol("memory", "division by zero");
                    }
                    match self.quotient(st, *op, ty.bits(), x, y)? {
                        Some(v) => Val::S(v),
                        None => Val::S(self.p.bin(*op, ty.bits(), x, y)),
                    }
                };
                self.set(st, *d, v);
            }
            Ins::ICmp { pred, ty, a, b, d } => {
                let v = if let Ty::Vec(..) = **ty {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    self.lanes2(ty, &x, &y, &mut |s, x, y, w| Ok(s.icmp(*pred, x, y, w)))?
                } else {
                    let (x, y) = (self.gets(st, a), self.gets(st, b));
                    Val::S(self.icmp(*pred, x, y, ty.bits()))
                };
                self.set(st, *d, v);
            }
            Ins::Load { ty, p, d } => {
                let p = self.gets(st, p);
                let v = self.load(st, p, ty)?;
                self.set(st, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let v = self.get(st, v);
                let p = self.gets(st, p);
                self.store(st, p, &v, ty)?;
            }
            Ins::Gep { base, off, terms, d } => {
                let mut v = self.gets(st, base);
                if *off != 0 {
                    v = self.p.bin(X::Add, 64, v, C(*off as u128));
                }
                for (o, w, s) in terms {
                    let i = self.gets(st, o);
                    let i = self.p.sext(i, *w, 64);
                    let t = self.p.bin(X::Mul, 64, i, C(*s as u128));
                    v = self.p.bin(X::Add, 64, v, t);
                }
                self.set(st, *d, Val::S(v));
            }
            Ins::Cast { k, from, to, a, d } => {
                let mut x = self.get(st, a);
                let v = match (from.lanes(), to.lanes()) {
                    // a flag added to a size or a count
                    (None, None) if matches!(k, CastK::Zext | CastK::Sext) && from.bits() == 1 && to.bits() >= 32 => {
                        if let c @ X(_) = x.s() {
                            let (dir, other) = self.split(st, c)?;
                            if let Some(o) = other {
                                self.work.push(o);
                            }
                            x = Val::c(dir as u128);
                        }
                        Val::S(self.cast1(*k, x.s(), 1, to.bits())?)
                    }
                    (None, None) => Val::S(self.cast1(*k, x.s(), from.bits(), to.bits())?),
                    (Some((n, wf)), Some((n2, wt))) if n == n2 => {
                        let xs = x.a().clone();
                        let mut o = vec![];
                        for e in xs.iter() {
                            o.push(Val::S(self.cast1(*k, e.s(), wf, wt)?));
                        }
                        Val::A(Rc::new(o))
                    }
                    _ => {
                        if from.bits() > 128 {
                            return err("wide bitcast");
                        }
                        let f = self.flatten(&x, from);
                        self.unflatten(f, to)
                    }
                };
                self.set(st, *d, v);
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(Flow::Stay);
            }
            Ins::CondBr { c, t, f } => {
                let c = self.gets(st, c);
                let (dir, other) = self.split(st, c)?;
                let (a, b) = if dir { (*t, *f) } else { (*f, *t) };
                if let Some(mut o) = other {
                    self.jump(&mut o, b);
                    self.work.push(o);
                }
                self.jump(st, a);
                return Ok(Flow::Stay);
            }
            Ins::Switch { w, c, cases, def } => {
                let c = self.gets(st, c);
                match c {
                    C(k) => {
                        let t = cases.iter().find(|(v, _)| *v == k).map(|(_, b)| *b).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    X(_) => {
                        // group by target
                        let mut by: Vec<(u32, V)> = vec![];
                        let mut none = C(1);
                        for (k, b) in cases {
                            let e = self.p.eq(c, C(*k), *w);
                            let ne = self.p.not(e, 1);
                            none = self.p.bin(X::And, 1, none, ne);
                            match by.iter_mut().find(|(t, _)| t == b) {
                                Some(x) => x.1 = self.p.bin(X::Or, 1, x.1, e),
                                None => by.push((*b, e)),
                            }
                        }
                        match by.iter_mut().find(|(t, _)| t == def) {
                            Some(x) => x.1 = self.p.bin(X::Or, 1, x.1, none),
                            None => by.push((*def, none)),
                        }
                        let n = by.len();
                        for (i, (t, e)) in by.into_iter().enumerate() {
                            let last = i + 1 == n;
                            let _ = last;
                            let (dir, other) = self.split(st, e)?;
                            if dir {
                                if let Some(o) = other {
                                    // the rest is still to be split: retry there
                                    self.work.push(o);
                                }
                                self.jump(st, t);
                                return Ok(Flow::Stay);
                            } else if let Some(mut o) = other {
                                self.jump(&mut o, t);
                                self.work.push(o);
                            }
                        }
                        return err("switch without feasible target");
                    }
                }
                return Ok(Flow::Stay);
            }
            Ins::Call { f, args, atys, rty, d, then } => {
                return self.call(st, f, args, atys, rty, *d, *then);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for id in &fr.allocas {
                    st.mem.free(*id);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let top = st.frames.last().unwrap();
                let f = top.f.clone();
                let Ins::Call { d, then, .. } = &f.blocks[top.bb as usize].ins[top.ip as usize] else {
                    return err("return to a non-call");
                };
                if let Some(v) = v {
                    self.set(st, *d, v);
                }
                match then {
                    Some(b) => self.jump(st, *b),
                    None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                }
                return Ok(Flow::Stay);
            }
            Ins::Alloca { size, d } => {
                let a = st.mem.alloc(Obj::new(*size as usize, false));
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*d as usize] = Val::c(a as u128);
            }
            Ins::Select { ty, vec_cond, c, a, b, d } => {
                let v = if *vec_cond {
                    let c = self.get(st, c).a().clone();
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (_, w) = ty.lanes().unwrap();
                    let (x, y) = (x.a().clone(), y.a().clone());
                    let mut o = vec![];
                    for i in 0..c.len() {
                        let v = match (c[i].s(), x[i].s(), y[i].s()) {
                            (c @ X(_), x @ C(i), y @ C(j)) if sizelike(i, j, w) => {
                                let (dir, other) = self.split(st, c)?;
                                if let Some(o) = other {
                                    self.work.push(o);
                                }
                                if dir { x } else { y }
                            }
                            (c, x, y) => self.p.ite(c, x, y, w),
                        };
                        o.push(Val::S(v));
                    }
                    Val::A(Rc::new(o))
                } else {
                    match self.gets(st, c) {
                        C(1) => self.get(st, a),
                        C(_) => self.get(st, b),
                        c => {
                            let scalar = matches!(**ty, Ty::Int(_) | Ty::F(_));
                            if scalar {
                                let (x, y) = (self.gets(st, a), self.gets(st, b));
                                match (x, y) {
                                    // a size or a count: keep addresses concrete
                                    (C(i), C(j)) if sizelike(i, j, ty.bits()) => {
                                        let (dir, other) = self.split(st, c)?;
                                        if let Some(o) = other {
                                            self.work.push(o);
                                        }
                                        Val::S(if dir { x } else { y })
                                    }
                                    _ => Val::S(self.p.ite(c, x, y, ty.bits())),
                                }
                            } else {
                                let (x, y) = (self.get(st, a), self.get(st, b));
                                if let (Val::S(x), Val::S(y)) = (&x, &y) {
                                    if x == y {
                                        self.set(st, *d, Val::S(*x));
                                        return Ok(Flow::Next);
                                    }
                                }
                                // pointers and aggregates: fork
                                let (dir, other) = self.split(st, c)?;
                                if let Some(mut o) = other {
                                    let fr = Rc::make_mut(o.frames.last_mut().unwrap());
                                    fr.regs[*d as usize] = if dir { y.clone() } else { x.clone() };
                                    fr.ip += 1;
                                    self.work.push(o);
                                }
                                if dir {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                    }
                };
                self.set(st, *d, v);
            }
            Ins::Extract { a, idx, d } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = v.a()[*i as usize].clone();
                }
                self.set(st, *d, v);
            }
            Ins::Insert { a, v, idx, d } => {
                let mut x = self.get(st, a);
                let v = self.get(st, v);
                insert(&mut x, idx, v);
                self.set(st, *d, x);
            }
            Ins::ExtElem { a, i, d } => {
                let x = self.get(st, a);
                let i = self.gets(st, i);
                let i = self.conc(st, i)? as usize;
                let v = x.a()[i].clone();
                self.set(st, *d, v);
            }
            Ins::InsElem { a, v, i, d } => {
                let x = self.get(st, a);
                let v = self.get(st, v);
                let i = self.gets(st, i);
                let i = self.conc(st, i)? as usize;
                let mut o = (**x.a()).clone();
                o[i] = v;
                self.set(st, *d, Val::A(Rc::new(o)));
            }
            Ins::Shuffle { a, b, m, d } => {
                let x = self.get(st, a).a().clone();
                let y = self.get(st, b).a().clone();
                let mut o = vec![];
                for k in m {
                    o.push(if *k < 0 {
                        Val::c(0)
                    } else if (*k as usize) < x.len() {
                        x[*k as usize].clone()
                    } else {
                        y[*k as usize - x.len()].clone()
                    });
                }
                self.set(st, *d, Val::A(Rc::new(o)));
            }
            Ins::Mov { a, d } => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Ins::Nop => {}
            Ins::Unreachable => {
                return viol("memory", format!("unreachable code reached in {}", self.where_(st)))
            }
            Ins::CmpXchg { ty, p, c, n, d } => {
                let p = self.gets(st, p);
                let old = self.load(st, p, ty)?;
                let (c, n) = (self.gets(st, c), self.get(st, n));
                let e = self.p.eq(old.s(), c, ty.bits());
                let V::C(e) = e else { return err("symbolic compare-exchange") };
                if e == 1 {
                    self.store(st, p, &n, ty)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::c(e)])));
            }
            Ins::Rmw { op, ty, p, v, d } => {
                let p = self.gets(st, p);
                let old = self.load(st, p, ty)?;
                let (o, v) = (old.s(), self.gets(st, v));
                let w = ty.bits();
                let n = match op {
                    0 => v,
                    1 => self.p.bin(X::Add, w, o, v),
                    2 => self.p.bin(X::Sub, w, o, v),
                    3 => self.p.bin(X::And, w, o, v),
                    4 => {
                        let t = self.p.bin(X::And, w, o, v);
                        self.p.not(t, w)
                    }
                    5 => self.p.bin(X::Or, w, o, v),
                    6 => self.p.bin(X::Xor, w, o, v),
                    7 | 8 | 9 | 10 => {
                        let c = if *op <= 8 { self.p.slt(o, v, w) } else { self.p.ult(o, v, w) };
                        if *op == 7 || *op == 9 {
                            self.p.ite(c, v, o, w)
                        } else {
                            self.p.ite(c, o, v, w)
                        }
                    }
                    _ => return err("atomic op"),
                };
                self.store(st, p, &Val::S(n), ty)?;
                self.set(st, *d, old);
            }
            Ins::FCmp { pred, ty, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.lanes2(ty, &x, &y, &mut |s, x, y, w| Ok(s.fcmp(*pred, x, y, w)))?;
                self.set(st, *d, v);
            }
            Ins::FNeg { ty, a, d } => {
                let w = ty.bits();
                let x = self.gets(st, a);
                let v = self.p.bin(X::Xor, w, x, C(1u128 << (w - 1)));
                self.set(st, *d, Val::S(v));
            }
            Ins::FBin { op, ty, a, b, d } => {
                let (x, y) = (self.gets(st, a), self.gets(st, b));
                // x + 0.0 and x + -0.0: only the sign of zero and the quiet bit of NaNs can change
                let w = ty.bits();
                let nz = 1u128 << (w - 1);
                let zero = match (x, y) {
                    (C(_), C(_)) => None,
                    (x, C(k)) | (C(k), x) if *op == 9 && (k == 0 || k == nz) => Some((x, k)),
                    _ => None,
                };
                if let Some((x, k)) = zero {
                    let mb = if w == 32 { 23u16 } else { 52 };
                    let un = self.fcmp(8, x, x, w);
                    let quiet = self.p.bin(X::Or, w, x, C(1u128 << (mb - 1)));
                    let mut v = self.p.ite(un, quiet, x, w);
                    if k == 0 {
                        let isz = self.p.eq(x, C(nz), w);
                        v = self.p.ite(isz, C(0), v, w);
                    }
                    self.set(st, *d, Val::S(v));
                    return Ok(Flow::Next);
                }
                let (C(x), C(y)) = (x, y) else { return err("symbolic floating point arithmetic") };
                let f = |x: f64, y: f64| match op {
                    9 => x + y,
                    11 => x - y,
                    13 => x * y,
                    16 => x / y,
                    _ => x % y,
                };
                let v = if ty.bits() == 32 {
                    (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128
                } else {
                    f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                };
                self.set(st, *d, Val::c(v));
            }
            Ins::Bad(s) => return err(format!("instruction {}", s)),
        }
        Ok(Flow::Next)
    }

    fn call(
        &mut self,
        st: &mut State,
        f: &Callee,
        args: &[Op],
        atys: &Rc<Vec<Rc<Ty>>>,
        rty: &Rc<Ty>,
        d: u32,
        then: Option<u32>,
    ) -> R<Flow> {
        let ix = match f {
            Callee::Fn(ix) => *ix,
            Callee::Ind(o) => {
                let p = self.gets(st, o);
                let a = self.ptr(st, p)?;
                match self.m.fn_at(a) {
                    Some(ix) => match self.m.builtin_of(ix) {
                        Some(n) => return self.call_builtin(st, &n, args, atys, rty, d, then),
                        None => ix,
                    },
                    None => return viol("memory", "call through an invalid pointer"),
                }
            }
            Callee::Bi(n) => return self.call_builtin(st, n, args, atys, rty, d, then),
            Callee::Asm(s) => {
                // empty barriers pass their operand; cpuid answers zero
                let v = if s.contains("cpuid") {
                    self.m.zero(rty)
                } else if let Ty::Void = **rty {
                    Val::c(0)
                } else if args.len() == 1 {
                    self.get(st, &args[0])
                } else {
                    return err(format!("inline asm {}", s));
                };
                self.set(st, d, v);
                return self.after(st, then);
            }
        };
        let f = self.m.func(ix);
        self.note_fn(&f);
        if st.frames.len() > 2000 {
            return viol("stack", format!("recursion deeper than 2000 frames in {}", f.name));
        }
        let mut regs = Vec::with_capacity(f.nregs as usize);
        for a in args.iter().take(f.nparams as usize) {
            regs.push(self.get(st, a));
        }
        regs.resize(f.nregs as usize, Val::c(0));
        st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, allocas: vec![] }));
        Ok(Flow::Stay)
    }
    fn after(&mut self, st: &mut State, then: Option<u32>) -> R<Flow> {
        match then {
            Some(b) => {
                self.jump(st, b);
                Ok(Flow::Stay)
            }
            None => Ok(Flow::Next),
        }
    }
    fn location(&mut self, st: &mut State, p: V) -> String {
        // core::panic::Location { file: (ptr, len), line, col }
        let t = |s: &mut Exec, st: &mut State| -> R<String> {
            let q = |s: &mut Exec, k: u128| s.p.bin(X::Add, 64, p, C(k));
            let f = s.load(st, p, &Ty::Ptr)?.s();
            let a = q(s, 8);
            let n = s.load(st, a, &Ty::Int(64))?.s();
            let a = q(s, 16);
            let l = s.load(st, a, &Ty::Int(32))?.s();
            let C(n) = n else { return err("x") };
            let n = if n > 4096 { return err("x") } else { n };
            let file = s.cstr(st, f, C(n))?;
            let C(l) = l else { return err("x") };
            let file = file.trim_end_matches('\0').to_string();
            Ok(format!("{}:{}", file, l))
        };
        t(self, st).unwrap_or_else(|_| "?".into())
    }
    fn panic_text(&mut self, st: &mut State, args: &[Val]) -> String {
        // fmt::Arguments of a plain string: (ptr, len << 1 | 1)
        if args.len() >= 3 {
            if let (Val::S(p), Val::S(C(n))) = (&args[0], &args[1]) {
                if n & 1 == 1 && *n < 4096 {
                    if let Ok(s) = self.cstr(st, *p, C(n >> 1)) {
                        return s;
                    }
                }
            }
        }
        String::new()
    }

    fn call_builtin(
        &mut self,
        st: &mut State,
        name: &Rc<str>,
        aops: &[Op],
        atys: &Rc<Vec<Rc<Ty>>>,
        rty: &Rc<Ty>,
        d: u32,
        then: Option<u32>,
    ) -> R<Flow> {
        let args: Vec<Val> = aops.iter().map(|a| self.get(st, a)).collect();
        let n: &str = name;
        let v = match n {
            // ---------------- harness interface
            "vp_sym" => {
                let len = match args[1].s() {
                    C(k) => k as usize,
                    _ => return err("symbolic length of vp_sym"),
                };
                let p = self.ptr(st, args[0].s())?;
                if len > 0 {
                    let (id, off) = self.locate(st, p, len as u64)?;
                    for i in 0..len {
                        let e = self.p.var(st.nsym);
                        st.nsym += 1;
                        let o = self.wobj(st, id)?;
                        o.symv()[off + i] = e;
                    }
                }
                Val::c(0)
            }
            "vp_choose" => {
                // one of n alternatives, explored separately
                let C(k) = args[0].s() else { return err("symbolic vp_choose") };
                let e = self.p.var(st.nsym);
                st.nsym += 1;
                if k > 256 || k == 0 {
                    return err("vp_choose range");
                }
                if k < 256 {
                    let c = self.p.ult(X(e), C(k), 8);
                    self.assume(st, c)?;
                }
                let vs = self.values(st, e, 256)?;
                self.r.forks += vs.len() as u64 - 1;
                let mut first = None;
                for (v, mut s) in vs {
                    self.set(&mut s, d, Val::c(v));
                    if first.is_none() {
                        first = Some(s);
                    } else {
                        match then {
                            Some(b) => self.jump(&mut s, b),
                            None => Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1,
                        }
                        self.work.push(s);
                    }
                }
                *st = first.unwrap();
                return self.after(st, then);
            }
            "vp_concretize" => {
                let k = self.conc(st, args[0].s())?;
                Val::c(k)
            }
            "vp_assume" => {
                let c = self.p.extract(args[0].s(), atys[0].bits(), 0, 1);
                self.assume(st, c)?;
                Val::c(0)
            }
            "vp_check" => {
                let id = self.cstr(st, args[1].s(), args[2].s())?;
                // assertions of other properties must not end paths of this one
                let skip = self.skip.iter().any(|p| id.starts_with(&p[..]));
                let c = if skip { C(1) } else { self.p.extract(args[0].s(), atys[0].bits(), 0, 1) };
                *self.r.checks.entry(id.clone()).or_default() += 1;
                match c {
                    C(1) => {}
                    C(_) => return viol("check", id),
                    X(_) => {
                        self.r.checks_sym += 1;
                        let V::X(ne) = self.p.not(c, 1) else { unreachable!() };
                        match self.s.check(&mut self.p, &st.pc, ne, true) {
                            Res::Unsat => {
                                // holds for all values on this path
                            }
                            Res::Sat(m) => {
                                let mm = m.to_vec();
                                self.r.viol_paths += 1;
                                self.record(st, "check", id, Some(mm));
                                self.assume(st, c)?;
                            }
                            Res::Unknown => return err("solver timeout in a check"),
                        }
                    }
                }
                Val::c(0)
            }
            "vp_cover" => {
                let id = self.cstr(st, args[0].s(), args[1].s())?;
                if !st.covers.iter().any(|c| **c == *id) {
                    Rc::make_mut(&mut st.covers).push(id.into());
                }
                Val::c(0)
            }
            "vp_out" => {
                let C(k) = args[1].s() else { return err("symbolic vp_out length") };
                let b = self.bytes(st, args[0].s(), k as usize)?;
                Rc::make_mut(&mut st.outs).extend(b);
                Val::c(0)
            }
            "vp_stop" => return Err(Stop::Done),
            "vp_param" => Val::c(self.param as u128),
            "vp_symbolic" => Val::c(1),
            "vp_alloc_limit" => {
                let k = self.conc(st, args[0].s())?;
                if !self.skip.iter().any(|p| p == "alloc:") {
                    st.alloc_limit = k as u64;
                }
                Val::c(0)
            }
            "vp_alloc_reset" => {
                st.alloc_total = 0;
                st.alloc_max = 0;
                Val::c(0)
            }
            "vp_alloc_total" => Val::c(st.alloc_total as u128),
            "vp_alloc_max" => Val::c(st.alloc_max as u128),
            "vp_debug" => {
                let s = self.cstr(st, args[0].s(), args[1].s())?;
                eprintln!("debug: {}", s);
                Val::c(0)
            }
            // ---------------- failures
            "vp.panic" | "vp.panic_bounds" | "vp.panic_cap" => {
                let mut loc = "?".to_string();
                if let Some(Val::S(p)) = args.last() {
                    if n != "vp.panic_cap" {
                        loc = self.location(st, *p);
                    }
                }
                let msg = match n {
                    "vp.panic_bounds" => "index out of bounds".to_string(),
                    "vp.panic_cap" => "capacity overflow".to_string(),
                    _ => self.panic_text(st, &args),
                };
                return viol("panic", format!("{} {}", loc, msg).trim().to_string());
            }
            "vp.allocfail" => return viol("alloc", "allocation failed"),
            "abort" | "llvm.trap" | "llvm.ubsantrap" | "_exit" | "exit" => return viol("panic", "abort"),
            // ---------------- allocation
            "malloc" => {
                let a = self.malloc(st, args[0].s())?;
                Val::c(a as u128)
            }
            "calloc" => {
                let t = self.p.bin(X::Mul, 64, args[0].s(), args[1].s());
                let a = self.malloc(st, t)?;
                Val::c(a as u128)
            }
            "aligned_alloc" => {
                let a = self.malloc(st, args[1].s())?;
                Val::c(a as u128)
            }
            "posix_memalign" => {
                let a = self.malloc(st, args[2].s())?;
                self.store(st, args[0].s(), &Val::c(a as u128), &Ty::Ptr)?;
                Val::c(0)
            }
            "realloc" => {
                let old = self.ptr(st, args[0].s())?;
                let a = self.malloc(st, args[1].s())?;
                if old != 0 {
                    let on = self.obj(st, (old >> 32) as u32)?.data.len();
                    let nn = st.mem.get((a >> 32) as u32).unwrap().data.len();
                    self.memcpy(st, C(a as u128), C(old as u128), C(on.min(nn) as u128))?;
                    self.free(st, C(old as u128))?;
                }
                Val::c(a as u128)
            }
            "free" => {
                self.free(st, args[0].s())?;
                Val::c(0)
            }
            // ---------------- libc
            "memcpy" | "memmove" => {
                self.memcpy(st, args[0].s(), args[1].s(), args[2].s())?;
                args[0].clone()
            }
            "memset" => {
                let b = self.p.extract(args[1].s(), 32, 0, 8);
                self.memset(st, args[0].s(), b, args[2].s())?;
                args[0].clone()
            }
            "bcmp" => Val::S(self.memcmp(st, args[0].s(), args[1].s(), args[2].s(), true)?),
            "memcmp" => Val::S(self.memcmp(st, args[0].s(), args[1].s(), args[2].s(), false)?),
            "strlen" => {
                let p = self.ptr(st, args[0].s())?;
                let id = (p >> 32) as u32;
                let o = self.obj(st, id)?;
                let mut k = (p & 0xffff_ffff) as usize;
                let k0 = k;
                while k < o.data.len() && (o.data[k] != 0 || byte_at(&o, k) != C(0)) {
                    k += 1;
                }
                Val::c((k - k0) as u128)
            }
            "write" => args[2].clone(),
            "writev" => Val::c(0),
            "getenv" | "secure_getenv" => Val::c(0),
            // no frames to walk
            "_Unwind_Backtrace" => Val::c(5),
            "__errno_location" => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc(Obj::new(8, false));
                }
                Val::c(st.errno as u128)
            }
            "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "sched_yield"
            | "sigaltstack" | "munmap" | "close" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Val::c(0),
            "pthread_key_create" => {
                st.tsd += 1;
                let k = st.tsd;
                self.store(st, args[0].s(), &Val::c(k as u128), &Ty::Int(32))?;
                Val::c(0)
            }
            "pthread_getspecific" => Val::c(0),
            "pthread_self" | "gettid" | "getpid" => Val::c(1),
            "clock_gettime" => {
                let t = st.time;
                let p = args[1].s();
                self.store(st, p, &Val::c((t / 1_000_000_000) as u128), &Ty::Int(64))?;
                let q = self.p.bin(X::Add, 64, p, C(8));
                self.store(st, q, &Val::c((t % 1_000_000_000) as u128), &Ty::Int(64))?;
                Val::c(0)
            }
            "vp_advance_time" => {
                let k = self.conc(st, args[0].s())?;
                st.time += k as u64;
                Val::c(0)
            }
            "getrandom" => {
                // fixed seed: hash values carry no meaning
                let k = args[1].clone();
                self.memset(st, args[0].s(), C(0), k.s())?;
                k
            }
            "syscall" => {
                let C(nr) = args[0].s() else { return err("symbolic syscall") };
                if nr == 318 {
                    let k = args[2].clone();
                    self.memset(st, args[1].s(), C(0), k.s())?;
                    k
                } else {
                    return err(format!("syscall {}", nr));
                }
            }
            "sysconf" => Val::c(4096),
            _ if n.starts_with("llvm.") => self.intrinsic(st, n, &args, atys, rty)?,
            _ => return err(format!("external function {}", n)),
        };
        if !matches!(**rty, Ty::Void) {
            self.set(st, d, v);
        }
        self.after(st, then)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[Val], atys: &[Rc<Ty>], rty: &Rc<Ty>) -> R<Val> {
        let b = &n[5..];
        let starts = |s: &str| b.starts_with(s);
        if starts("memcpy") || starts("memmove") {
            self.memcpy(st, args[0].s(), args[1].s(), args[2].s())?;
            return Ok(Val::c(0));
        }
        if starts("memset") {
            self.memset(st, args[0].s(), args[1].s(), args[2].s())?;
            return Ok(Val::c(0));
        }
        for s in [
            "lifetime", "dbg.", "experimental.noalias", "prefetch", "donothing", "sideeffect", "assume",
            "invariant.", "stackrestore", "pseudoprobe", "annotation.", "fake.use",
        ] {
            if starts(s) {
                return Ok(Val::c(0));
            }
        }
        if starts("expect") || starts("threadlocal.address") || starts("launder") || starts("strip") || starts("ssa.copy") {
            return Ok(args[0].clone());
        }
        if starts("is.constant") || starts("stacksave") || starts("returnaddress") || starts("frameaddress") || starts("allow.") {
            return Ok(Val::c(0));
        }
        if starts("objectsize") {
            return Ok(Val::c(mask(rty.bits())));
        }
        if starts("ptrmask") {
            return Ok(Val::S(self.p.bin(X::And, 64, args[0].s(), args[1].s())));
        }
        if b.contains(".with.overflow") {
            let Ty::Struct(el, _) = &**rty else { return err(n) };
            let w = el[0].0.bits();
            let (x, y) = (args[0].s(), args[1].s());
            let signed = b.starts_with('s');
            let op = &b[1..4];
            let o = match op {
                "add" => X::Add,
                "sub" => X::Sub,
                _ => X::Mul,
            };
            let r = self.p.bin(o, w, x, y);
            let ov = match (op, signed) {
                ("add", false) => self.p.ult(r, x, w),
                ("sub", false) => self.p.ult(x, y, w),
                ("mul", false) => {
                    if let (C(a), C(b)) = (x, y) {
                        C(a.checked_mul(b).map_or(1, |t| (t > mask(w)) as u128))
                    } else if w <= 64 {
                        let a = self.p.zext(x, w, 2 * w);
                        let b = self.p.zext(y, w, 2 * w);
                        let t = self.p.bin(X::Mul, 2 * w, a, b);
                        let h = self.p.extract(t, 2 * w, w, w);
                        let z = self.p.eq(h, C(0), w);
                        self.p.not(z, 1)
                    } else {
                        return err("wide multiply");
                    }
                }
                (_, true) => {
                    if w > 64 {
                        if let (C(a), C(b)) = (x, y) {
                            let (a, b) = (sx(a, w), sx(b, w));
                            C(match op {
                                "add" => a.checked_add(b).is_none(),
                                "sub" => a.checked_sub(b).is_none(),
                                _ => a.checked_mul(b).is_none(),
                            } as u128)
                        } else {
                            return err("wide signed overflow");
                        }
                    } else {
                        let a = self.p.sext(x, w, 2 * w);
                        let b = self.p.sext(y, w, 2 * w);
                        let t = self.p.bin(o, 2 * w, a, b);
                        let s = self.p.sext(r, w, 2 * w);
                        let z = self.p.eq(t, s, 2 * w);
                        self.p.not(z, 1)
                    }
                }
                _ => return err(n),
            };
            return Ok(Val::A(Rc::new(vec![Val::S(r), Val::S(ov)])));
        }
        if starts("vector.reduce.") {
            let (k, w) = atys[0].lanes().unwrap();
            let a = args[0].a().clone();
            let mut acc = a[0].s();
            for i in 1..k as usize {
                let y = a[i].s();
                acc = match &b[14..17] {
                    "or." => self.p.bin(X::Or, w, acc, y),
                    "and" => self.p.bin(X::And, w, acc, y),
                    "xor" => self.p.bin(X::Xor, w, acc, y),
                    "add" => self.p.bin(X::Add, w, acc, y),
                    "uma" => {
                        let c = self.p.ult(acc, y, w);
                        self.p.ite(c, y, acc, w)
                    }
                    "umi" => {
                        let c = self.p.ult(acc, y, w);
                        self.p.ite(c, acc, y, w)
                    }
                    _ => return err(n),
                };
            }
            return Ok(Val::S(acc));
        }
        if starts("x86.sse2.pmovmskb") {
            let a = args[0].a().clone();
            let mut acc = self.p.extract(a[0].s(), 8, 7, 1);
            for (i, v) in a.iter().enumerate().skip(1) {
                let t = self.p.extract(v.s(), 8, 7, 1);
                acc = self.p.concat(t, 1, acc, i as u16);
            }
            return Ok(Val::S(self.p.zext(acc, a.len() as u16, rty.bits())));
        }
        if starts("load.relative") {
            let p = self.p.bin(X::Add, 64, args[0].s(), args[1].s());
            let o = self.load(st, p, &Ty::Int(32))?.s();
            let o = self.p.sext(o, 32, 64);
            return Ok(Val::S(self.p.bin(X::Add, 64, args[0].s(), o)));
        }
        // lane-wise integer intrinsics
        let two = |s: &str| b.starts_with(s);
        if two("umin") || two("umax") || two("smin") || two("smax") || two("uadd.sat") || two("usub.sat")
            || two("sadd.sat") || two("ssub.sat")
        {
            let b = b.to_string();
            return self.lanes2(rty, &args[0], &args[1], &mut |s, x, y, w| {
                let c = if b.starts_with("um") { s.p.ult(x, y, w) } else { s.p.slt(x, y, w) };
                Ok(match &b[..4] {
                    "umin" | "smin" => s.p.ite(c, x, y, w),
                    "umax" | "smax" => s.p.ite(c, y, x, w),
                    "uadd" => {
                        let r = s.p.bin(X::Add, w, x, y);
                        let o = s.p.ult(r, x, w);
                        s.p.ite(o, C(mask(w)), r, w)
                    }
                    "usub" => {
                        let r = s.p.bin(X::Sub, w, x, y);
                        let o = s.p.ult(x, y, w);
                        s.p.ite(o, C(0), r, w)
                    }
                    k => {
                        let op = if k == "sadd" { X::Add } else { X::Sub };
                        let a = s.p.sext(x, w, w + 1);
                        let b = s.p.sext(y, w, w + 1);
                        let t = s.p.bin(op, w + 1, a, b);
                        let hi = s.p.extract(t, w + 1, w, 1);
                        let nx = s.p.extract(t, w + 1, w - 1, 1);
                        let ov = s.p.bin(X::Xor, 1, hi, nx);
                        let r = s.p.extract(t, w + 1, 0, w);
                        let m = s.p.ite(hi, C(1u128 << (w - 1)), C(mask(w - 1)), w);
                        s.p.ite(ov, m, r, w)
                    }
                })
            });
        }
        if starts("ucmp") || starts("scmp") {
            let w = atys[0].bits();
            let (x, y) = (args[0].s(), args[1].s());
            let u = starts("ucmp");
            let l = if u { self.p.ult(x, y, w) } else { self.p.slt(x, y, w) };
            let e = self.p.eq(x, y, w);
            let rw = rty.bits();
            let t = self.p.ite(l, C(mask(rw)), C(1), rw);
            return Ok(Val::S(self.p.ite(e, C(0), t, rw)));
        }
        if starts("abs") {
            let w = rty.bits();
            let x = args[0].s();
            let neg = self.p.slt(x, C(0), w);
            let m = self.p.bin(X::Sub, w, C(0), x);
            return Ok(Val::S(self.p.ite(neg, m, x, w)));
        }
        if starts("fshl") || starts("fshr") {
            let w = rty.bits();
            let (x, y, z) = (args[0].s(), args[1].s(), args[2].s());
            let z = self.p.bin(X::URem, w, z, C(w as u128));
            let c = self.p.concat(x, w, y, w);
            if 2 * w > 128 {
                return err("wide funnel shift");
            }
            let z2 = self.p.zext(z, w, 2 * w);
            return Ok(Val::S(if starts("fshl") {
                let t = self.p.bin(X::Shl, 2 * w, c, z2);
                self.p.extract(t, 2 * w, w, w)
            } else {
                let t = self.p.bin(X::LShr, 2 * w, c, z2);
                self.p.extract(t, 2 * w, 0, w)
            }));
        }
        if starts("bswap") || starts("bitreverse") || starts("ctpop") || starts("ctlz") || starts("cttz") {
            let lanes = rty.lanes();
            let (vals, w): (Vec<V>, u16) = match lanes {
                Some((_, w)) => (args[0].a().iter().map(|v| v.s()).collect(), w),
                None => (vec![args[0].s()], rty.bits()),
            };
            let mut out = vec![];
            for x in vals {
                let r = if starts("bswap") {
                    let mut acc = self.p.extract(x, w, 0, 8);
                    let mut aw = 8;
                    while aw < w {
                        let t = self.p.extract(x, w, aw, 8);
                        acc = self.p.concat(acc, aw, t, 8);
                        aw += 8;
                    }
                    acc
                } else if starts("bitreverse") {
                    let mut acc = self.p.extract(x, w, 0, 1);
                    for i in 1..w {
                        let t = self.p.extract(x, w, i, 1);
                        acc = self.p.concat(acc, i, t, 1);
                    }
                    acc
                } else if starts("ctpop") {
                    if let C(k) = x {
                        C(k.count_ones() as u128)
                    } else {
                        let mut acc = C(0);
                        for i in 0..w {
                            let t = self.p.extract(x, w, i, 1);
                            let t = self.p.zext(t, 1, w);
                            acc = self.p.bin(X::Add, w, acc, t);
                        }
                        acc
                    }
                } else if let C(k) = x {
                    C(if starts("ctlz") {
                        (k.leading_zeros() as u128) - (128 - w as u128)
                    } else {
                        (k.trailing_zeros() as u128).min(w as u128)
                    })
                } else {
                    let mut acc = C(w as u128);
                    for j in 0..w {
                        // the last one applied wins
                        let i = if starts("ctlz") { j } else { w - 1 - j };
                        let t = self.p.extract(x, w, i, 1);
                        let k = if starts("ctlz") { w - 1 - i } else { i };
                        acc = self.p.ite(t, C(k as u128), acc, w);
                    }
                    acc
                };
                out.push(r);
            }
            return Ok(match lanes {
                Some(_) => Val::A(Rc::new(out.into_iter().map(Val::S).collect())),
                None => Val::S(out[0]),
            });
        }
        if starts("fabs") {
            let w = rty.bits();
            return Ok(Val::S(self.p.bin(X::And, w, args[0].s(), C(mask(w - 1)))));
        }
        if starts("fptoui.sat") || starts("fptosi.sat") {
            let C(x) = args[0].s() else { return err("symbolic float conversion") };
            let f = if atys[0].bits() == 32 {
                f32::from_bits(x as u32) as f64
            } else {
                f64::from_bits(x as u64)
            };
            let w = rty.bits();
            return Ok(Val::c(if starts("fptoui") {
                (f as u128).min(mask(w))
            } else {
                let hi = mask(w - 1) as i128;
                ((f as i128).clamp(-hi - 1, hi) as u128) & mask(w)
            }));
        }
        for (s, f) in [
            ("floor", f64::floor as fn(f64) -> f64),
            ("ceil", f64::ceil),
            ("trunc", f64::trunc),
            ("round", f64::round),
            ("sqrt", f64::sqrt),
        ] {
            if starts(s) {
                let C(x) = args[0].s() else { return err("symbolic float op") };
                return Ok(Val::c(if rty.bits() == 32 {
                    (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128
                } else {
                    f(f64::from_bits(x as u64)).to_bits() as u128
                }));
            }
        }
        if starts("va_start") || starts("va_end") {
            return Ok(Val::c(0));
        }
        err(format!("intrinsic {}", n))
    }
}

/// Constants a path should be split on: sizes, counts and codes, not truth values.
fn sizelike(i: u128, j: u128, w: u16) -> bool {
    i != j && match w {
        8 | 16 => i > 1 || j > 1,
        32 | 64 => true,
        _ => false,
    }
}
fn byte_at(o: &Obj, i: usize) -> V {
    match &o.sym {
        Some(s) if s[i] != 0 => X(s[i]),
        _ => C(o.data[i] as u128),
    }
}
fn insert(x: &mut Val, idx: &[u32], v: Val) {
    if idx.is_empty() {
        *x = v;
        return;
    }
    let Val::A(a) = x else { panic!("insertvalue") };
    insert(&mut Rc::make_mut(a)[idx[0] as usize], &idx[1..], v);
}
fn fill(o: &mut Obj, off: usize, t: &Ty, v: &Val) {
    match t {
        Ty::Int(_) | Ty::F(_) | Ty::Ptr => {
            let C(k) = v.s() else { unreachable!() };
            let n = t.bytes() as usize;
            for i in 0..n {
                o.data[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
            }
        }
        Ty::Struct(el, _) => {
            for (i, (t, f)) in el.iter().enumerate() {
                fill(o, off + *f as usize, t, &v.a()[i]);
            }
        }
        Ty::Arr(n, e, sz) => {
            for i in 0..*n as usize {
                fill(o, off + i * *sz as usize, e, &v.a()[i]);
            }
        }
        Ty::Vec(n, e) => {
            for i in 0..*n as usize {
                fill(o, off + i * e.bytes() as usize, e, &v.a()[i]);
            }
        }
        _ => {}
    }
}
