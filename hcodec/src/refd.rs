//! An independent reading of the AMQP 1.0 type system (part 1 of the specification), written
//! from the specification and sharing no code with the crate under test.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    D32([u8; 4]),
    D64([u8; 8]),
    D128([u8; 16]),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(Vec<u8>),
    Sym(Vec<u8>),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    Array(Vec<V>),
    Desc(Box<V>, Box<V>),
}

/// Structural equality that forms one boolean per leaf without branching on byte contents.
fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn veq(a: &V, b: &V) -> bool {
    use V::*;
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (U8(x), U8(y)) => x == y,
        (U16(x), U16(y)) => x == y,
        (U32(x), U32(y)) => x == y,
        (U64(x), U64(y)) => x == y,
        (I8(x), I8(y)) => x == y,
        (I16(x), I16(y)) => x == y,
        (I32(x), I32(y)) => x == y,
        (I64(x), I64(y)) => x == y,
        (F32(x), F32(y)) => x == y,
        (F64(x), F64(y)) => x == y,
        (D32(x), D32(y)) => beq(x, y),
        (D64(x), D64(y)) => beq(x, y),
        (D128(x), D128(y)) => beq(x, y),
        (Uuid(x), Uuid(y)) => beq(x, y),
        (Char(x), Char(y)) => x == y,
        (Ts(x), Ts(y)) => x == y,
        (Bin(x), Bin(y)) | (Str(x), Str(y)) | (Sym(x), Sym(y)) => beq(x, y),
        (List(x), List(y)) | (Array(x), Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut r = true;
            for i in 0..x.len() {
                r &= veq(&x[i], &y[i]);
            }
            r
        }
        (Map(x), Map(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut r = true;
            for i in 0..x.len() {
                r &= veq(&x[i].0, &y[i].0);
                r &= veq(&x[i].1, &y[i].1);
            }
            r
        }
        (Desc(a, b), Desc(c, d)) => veq(a, c) & veq(b, d),
        _ => false,
    }
}

/// How strict the reader is about compound values.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// Everything must be exactly as the specification says.
    Strict,
    /// Unused announced bytes, an odd map count and repeated map keys are let pass.
    Lenient,
    /// Like Lenient; arrays and described compound values are kept as their announced bytes.
    Raw,
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub mode: Mode,
    pub depth: u32,
}

fn utf8_ok(b: &[u8]) -> bool {
    // RFC 3629, table 3-7 of the Unicode standard
    let n = b.len();
    let mut i = 0;
    while i < n {
        let c = b[i];
        if c < 0x80 {
            i += 1;
            continue;
        }
        let (k, lo, hi) = if c >= 0xc2 && c <= 0xdf {
            (1, 0x80, 0xbf)
        } else if c == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if c == 0xed {
            (2, 0x80, 0x9f)
        } else if c >= 0xe1 && c <= 0xef {
            (2, 0x80, 0xbf)
        } else if c == 0xf0 {
            (3, 0x90, 0xbf)
        } else if c >= 0xf1 && c <= 0xf3 {
            (3, 0x80, 0xbf)
        } else if c == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        if i + k >= n {
            return false;
        }
        if b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        for j in 2..=k {
            if b[i + j] & 0xc0 != 0x80 {
                return false;
            }
        }
        i += k + 1;
    }
    true
}

impl<'a> R<'a> {
    pub fn value_at_end(&self) -> bool {
        self.p == self.b.len()
    }
    pub fn new(b: &'a [u8], mode: Mode) -> R<'a> {
        R { b, p: 0, mode, depth: 0 }
    }
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
    fn u8(&mut self) -> Option<u8> {
        if self.left() < 1 {
            return None;
        }
        let v = self.b[self.p];
        self.p += 1;
        Some(v)
    }
    fn be(&mut self, n: usize) -> Option<u64> {
        if self.left() < n {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v = (v << 8) | self.b[self.p + i] as u64;
        }
        self.p += n;
        Some(v)
    }
    fn fixed<const N: usize>(&mut self) -> Option<[u8; N]> {
        if self.left() < N {
            return None;
        }
        let mut o = [0u8; N];
        o.copy_from_slice(&self.b[self.p..self.p + N]);
        self.p += N;
        Some(o)
    }
    fn var(&mut self, w: usize) -> Option<Vec<u8>> {
        let n = self.be(w)?;
        if n > self.left() as u64 {
            return None;
        }
        let n = vp::concretize(n) as usize;
        let o = self.b[self.p..self.p + n].to_vec();
        self.p += n;
        Some(o)
    }
    pub fn value(&mut self) -> Option<V> {
        let c = self.u8()?;
        self.coded(c)
    }
    /// The constructor of an array: descriptor (or null) and format code.
    pub fn constructor(&mut self) -> Option<(V, u8)> {
        let k = self.u8()?;
        if k == 0 {
            let d = self.value()?;
            Some((d, self.u8()?))
        } else {
            Some((V::Null, k))
        }
    }
    /// The value after its constructor `c`.
    pub fn coded(&mut self, c: u8) -> Option<V> {
        self.depth += 1;
        let r = self.coded_(c);
        self.depth -= 1;
        r
    }
    fn coded_(&mut self, c: u8) -> Option<V> {
        Some(match c {
            0x00 if self.mode == Mode::Raw => {
                let d = self.value()?;
                let s = self.p;
                let k = self.u8()?;
                match k {
                    0x45 => V::Desc(Box::new(d), Box::new(V::Array(vec![V::Bin(vec![k])]))),
                    0xc0 | 0xc1 | 0xe0 | 0xd0 | 0xd1 | 0xf0 => {
                        let size = self.be(if k & 0xf0 == 0xc0 || k == 0xe0 { 1 } else { 4 })?;
                        if size > self.left() as u64 {
                            return None;
                        }
                        self.p += vp::concretize(size) as usize;
                        V::Desc(Box::new(d), Box::new(V::Array(vec![V::Bin(self.b[s..self.p].to_vec())])))
                    }
                    _ => V::Desc(Box::new(d), Box::new(self.coded(k)?)),
                }
            }
            0x00 => {
                let d = self.value()?;
                let v = self.value()?;
                V::Desc(Box::new(d), Box::new(v))
            }
            0x40 => V::Null,
            0x41 => V::Bool(true),
            0x42 => V::Bool(false),
            0x43 => V::U32(0),
            0x44 => V::U64(0),
            0x45 => V::List(vec![]),
            0x50 => V::U8(self.u8()?),
            0x51 => V::I8(self.u8()? as i8),
            0x52 => V::U32(self.u8()? as u32),
            0x53 => V::U64(self.u8()? as u64),
            0x54 => V::I32(self.u8()? as i8 as i32),
            0x55 => V::I64(self.u8()? as i8 as i64),
            0x56 => {
                let b = self.u8()?;
                if self.mode == Mode::Strict && b > 1 {
                    return None;
                }
                V::Bool(b != 0)
            }
            0x60 => V::U16(self.be(2)? as u16),
            0x61 => V::I16(self.be(2)? as u16 as i16),
            0x70 => V::U32(self.be(4)? as u32),
            0x71 => V::I32(self.be(4)? as u32 as i32),
            0x72 => V::F32(self.be(4)? as u32),
            0x73 => {
                let v = self.be(4)? as u32;
                if v > 0x10ffff || (v >= 0xd800 && v < 0xe000) {
                    return None;
                }
                V::Char(v)
            }
            0x74 => V::D32(self.fixed()?),
            0x80 => V::U64(self.be(8)?),
            0x81 => V::I64(self.be(8)? as i64),
            0x82 => V::F64(self.be(8)?),
            0x83 => V::Ts(self.be(8)? as i64),
            0x84 => V::D64(self.fixed()?),
            0x94 => V::D128(self.fixed()?),
            0x98 => V::Uuid(self.fixed()?),
            0xa0 => V::Bin(self.var(1)?),
            0xb0 => V::Bin(self.var(4)?),
            0xa1 | 0xb1 => {
                let b = self.var(if c == 0xa1 { 1 } else { 4 })?;
                if !utf8_ok(&b) {
                    return None;
                }
                V::Str(b)
            }
            0xa3 | 0xb3 => {
                let b = self.var(if c == 0xa3 { 1 } else { 4 })?;
                if self.mode == Mode::Strict {
                    for x in b.iter() {
                        if *x >= 128 {
                            return None;
                        }
                    }
                } else if !utf8_ok(&b) {
                    return None;
                }
                V::Sym(b)
            }
            0xc0 | 0xc1 | 0xe0 => self.compound(c, 1)?,
            0xd0 | 0xd1 | 0xf0 => self.compound(c, 4)?,
            _ => return None,
        })
    }
    fn compound(&mut self, c: u8, w: usize) -> Option<V> {
        let size = self.be(w)?;
        if size > self.left() as u64 || size < w as u64 {
            return None;
        }
        let size = vp::concretize(size) as usize;
        let mut r = R { b: &self.b[self.p..self.p + size], p: 0, mode: self.mode, depth: self.depth };
        self.p += size;
        let count = r.be(w)?;
        let v = match c & 0x0f {
            0 if c >= 0xe0 && self.mode == Mode::Raw => {
                let b = r.b[r.p..].to_vec();
                r.p = r.b.len();
                V::Array(vec![V::U32(count as u32), V::Bin(b)])
            }
            0 if c >= 0xe0 => {
                // array: one constructor for all elements
                let k = r.u8()?;
                let (d, k) = if k == 0 {
                    let d = r.value()?;
                    // outside the data model of the crate: descriptors other than ulong and
                    // symbol, doubly described elements
                    let k = r.u8()?;
                    if self.mode == Mode::Strict && (k == 0 || !matches!(d, V::U64(_) | V::Sym(_))) {
                        return None;
                    }
                    (Some(d), k)
                } else {
                    (None, k)
                };
                if self.mode == Mode::Strict && !CODES.contains(&k) {
                    return None;
                }
                // zero-width elements are not limited by the bytes present
                let zw = matches!(k, 0x40..=0x45);
                if !zw && count > r.left() as u64 {
                    return None;
                }
                if zw && count > if self.mode == Mode::Strict { 5 } else { 300 } {
                    return None;
                }
                let count = vp::concretize(count);
                let mut o = Vec::new();
                for _ in 0..count {
                    let v = r.coded(k)?;
                    o.push(match &d {
                        Some(d) => V::Desc(Box::new(d.clone()), Box::new(v)),
                        None => v,
                    });
                }
                V::Array(o)
            }
            0 => {
                if count > r.left() as u64 {
                    return None;
                }
                let count = vp::concretize(count);
                let mut o = Vec::new();
                for _ in 0..count {
                    o.push(r.value()?);
                }
                V::List(o)
            }
            _ => {
                if count > r.left() as u64 + 1 {
                    return None;
                }
                let count = vp::concretize(count);
                if self.mode == Mode::Strict && count % 2 != 0 {
                    return None;
                }
                let mut o = Vec::new();
                for _ in 0..count / 2 {
                    let k = r.value()?;
                    let v = r.value()?;
                    if self.mode == Mode::Strict {
                        for (k2, _) in o.iter() {
                            if veq(k2, &k) {
                                return None;
                            }
                        }
                    }
                    o.push((k, v));
                }
                V::Map(o)
            }
        };
        if self.mode == Mode::Strict && r.left() != 0 {
            return None;
        }
        Some(v)
    }
}

/// Every format code of the specification.
pub const CODES: [u8; 40] = [
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x81,
    0x82, 0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0,
];
/// The whole of `b` as one value.
pub fn read_all(b: &[u8], mode: Mode) -> Option<V> {
    let mut r = R::new(b, mode);
    let v = r.value()?;
    if r.left() != 0 { None } else { Some(v) }
}

/// Writes the forms the specification permits; every choice among them is explored.
pub struct W {
    pub o: Vec<u8>,
}
impl W {
    pub fn new() -> W {
        W { o: Vec::new() }
    }
    /// Constructors the specification permits for `v`.
    pub fn forms(v: &V) -> &'static [u8] {
        match v {
            V::Null => &[0x40],
            V::Bool(_) => &[0x41, 0x42, 0x56],
            V::U8(_) => &[0x50],
            V::U16(_) => &[0x60],
            V::U32(_) => &[0x43, 0x52, 0x70],
            V::U64(_) => &[0x44, 0x53, 0x80],
            V::I8(_) => &[0x51],
            V::I16(_) => &[0x61],
            V::I32(_) => &[0x54, 0x71],
            V::I64(_) => &[0x55, 0x81],
            V::F32(_) => &[0x72],
            V::F64(_) => &[0x82],
            V::D32(_) => &[0x74],
            V::D64(_) => &[0x84],
            V::D128(_) => &[0x94],
            V::Char(_) => &[0x73],
            V::Ts(_) => &[0x83],
            V::Uuid(_) => &[0x98],
            V::Bin(_) => &[0xa0, 0xb0],
            V::Str(_) => &[0xa1, 0xb1],
            V::Sym(_) => &[0xa3, 0xb3],
            V::List(_) => &[0x45, 0xc0, 0xd0],
            V::Map(_) => &[0xc1, 0xd1],
            V::Array(_) => &[0xe0, 0xf0],
            V::Desc(..) => &[0x00],
        }
    }
    /// Writes `v` in any permitted form (explored separately); impossible forms end the path.
    pub fn any(&mut self, v: &V) {
        let f = W::forms(v);
        let c = f[vp::choose(f.len() as u32) as usize];
        self.o.push(c);
        self.body(v, c);
    }
    pub fn be(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            self.o.push((v >> (8 * i)) as u8);
        }
    }
    fn var(&mut self, b: &[u8], w: usize) {
        vp::assume(w == 4 || b.len() < 256);
        self.be(b.len() as u64, w);
        self.o.extend_from_slice(b);
    }
    fn comp(&mut self, body: Vec<u8>, count: usize, w: usize) {
        let size = body.len() + w;
        vp::assume(w == 4 || (size < 256 && count < 256));
        self.be(size as u64, w);
        self.be(count as u64, w);
        self.o.extend_from_slice(&body);
    }
    pub fn any_coded(&mut self, v: &V, c: u8) {
        self.o.push(c);
        self.body(v, c);
    }
    pub fn any_comp(&mut self, c: u8, body: Vec<u8>, count: usize) {
        self.o.push(c);
        self.comp(body, count, if c & 0xf0 == 0xc0 || c == 0xe0 { 1 } else { 4 });
    }
    /// Writes what follows the constructor `c`.
    pub fn body(&mut self, v: &V, c: u8) {
        match (v, c) {
            (V::Null, _) => (),
            (V::Bool(b), 0x41) => vp::assume(*b),
            (V::Bool(b), 0x42) => vp::assume(!*b),
            (V::Bool(b), _) => self.o.push(*b as u8),
            (V::U8(x), _) => self.o.push(*x),
            (V::I8(x), _) => self.o.push(*x as u8),
            (V::U16(x), _) => self.be(*x as u64, 2),
            (V::I16(x), _) => self.be(*x as u16 as u64, 2),
            (V::U32(x), 0x43) => vp::assume(*x == 0),
            (V::U32(x), 0x52) => {
                vp::assume(*x < 256);
                self.o.push(*x as u8)
            }
            (V::U32(x), _) => self.be(*x as u64, 4),
            (V::U64(x), 0x44) => vp::assume(*x == 0),
            (V::U64(x), 0x53) => {
                vp::assume(*x < 256);
                self.o.push(*x as u8)
            }
            (V::U64(x), _) => self.be(*x, 8),
            (V::I32(x), 0x54) => {
                vp::assume(*x >= -128 && *x <= 127);
                self.o.push(*x as u8)
            }
            (V::I32(x), _) => self.be(*x as u32 as u64, 4),
            (V::I64(x), 0x55) => {
                vp::assume(*x >= -128 && *x <= 127);
                self.o.push(*x as u8)
            }
            (V::I64(x), _) => self.be(*x as u64, 8),
            (V::F32(x), _) => self.be(*x as u64, 4),
            (V::F64(x), _) => self.be(*x, 8),
            (V::Char(x), _) => self.be(*x as u64, 4),
            (V::Ts(x), _) => self.be(*x as u64, 8),
            (V::D32(x), _) => self.o.extend_from_slice(x),
            (V::D64(x), _) => self.o.extend_from_slice(x),
            (V::D128(x), _) => self.o.extend_from_slice(x),
            (V::Uuid(x), _) => self.o.extend_from_slice(x),
            (V::Bin(b), _) | (V::Str(b), _) | (V::Sym(b), _) => {
                self.var(b, if c & 0xf0 == 0xa0 { 1 } else { 4 })
            }
            (V::List(l), 0x45) => vp::assume(l.is_empty()),
            (V::List(l), _) => {
                let mut w = W::new();
                for x in l {
                    w.any(x);
                }
                self.comp(w.o, l.len(), if c == 0xc0 { 1 } else { 4 });
            }
            (V::Map(l), _) => {
                let mut w = W::new();
                for (k, v) in l {
                    w.any(k);
                    w.any(v);
                }
                self.comp(w.o, l.len() * 2, if c == 0xc1 { 1 } else { 4 });
            }
            (V::Array(l), _) => {
                let mut w = W::new();
                let mut k = 0x40;
                for (i, x) in l.iter().enumerate() {
                    if i == 0 {
                        if let V::Desc(d, x) = x {
                            w.o.push(0);
                            w.any(d);
                            let f = W::forms(x);
                            k = f[vp::choose(f.len() as u32) as usize];
                        } else {
                            let f = W::forms(x);
                            k = f[vp::choose(f.len() as u32) as usize];
                        }
                        w.o.push(k);
                    }
                    if let V::Desc(_, x) = x {
                        w.body(x, k);
                    } else {
                        w.body(x, k);
                    }
                }
                if l.is_empty() {
                    w.o.push(k);
                }
                self.comp(w.o, l.len(), if c == 0xe0 { 1 } else { 4 });
            }
            (V::Desc(d, v), _) => {
                self.any(d);
                self.any(v);
            }
        }
    }
}
