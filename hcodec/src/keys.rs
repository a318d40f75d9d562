//! C12: equality is an equivalence, equal values hash equally, keys can be found again.
use crate::g::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;
use ordered_float::OrderedFloat;
use std::borrow::Borrow;
use std::hash::{Hash, Hasher};

/// Everything written to a hasher.
#[derive(Default)]
struct Collect(Vec<u8>);
impl Hasher for Collect {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Collect::default();
    t.hash(&mut h);
    h.0
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}
fn pair<T: Hash + Eq>(a: &T, b: &T) -> bool {
    vp::check(a == a && b == b, "eq:a value equals itself");
    let e = a == b;
    vp::check(e == (b == a), "eq:comparison is symmetric");
    if e {
        vp::check(bytes_eq(&hashed(a), &hashed(b)), "eq:equal values hash equally");
        vp::cover("equal");
    } else {
        vp::cover("different");
    }
    e
}
fn triple<T: Hash + Eq>(a: &T, b: &T, c: &T) {
    if pair(a, b) && pair(b, c) {
        vp::check(a == c, "eq:comparison is transitive");
        vp::cover("three equal");
    }
}
fn tsv() -> Variant {
    Variant::Timestamp(ts())
}
fn sc(k: u32, n: usize) -> Variant {
    if k == 20 { tsv() } else { scalar(k, n) }
}
/// Scalars of kind param % 100 (texts of param / 100 bytes): any three values.
pub fn h_k_scalar() {
    let (k, n) = (vp::param() as u32 % 100, vp::param() as usize / 100);
    let (a, b, c) = (sc(k, n), sc(k, n), sc(k, n));
    triple(&a, &b, &c);
    // texts of other lengths
    if (17..20).contains(&k) {
        let d = sc(k, n + 1);
        vp::check(!pair(&a, &d), "eq:values of different length differ");
    }
    vp::cover("end");
}
fn special32(k: u32) -> f32 {
    f32::from_bits([0, 0x8000_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 0x7f80_0000, 0xff80_0000, 1][k as usize])
}
fn special64(k: u32) -> f64 {
    f64::from_bits([0, 1 << 63, 0x7ff8 << 48, (0x7ff8 << 48) + 1, 0xfff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 1][k as usize])
}
/// Floats: zeros, not-a-numbers and infinities against any value.
pub fn h_k_float() {
    if vp::fork() {
        let a = Variant::Float(OrderedFloat(special32(vp::choose(8))));
        let b = Variant::Float(OrderedFloat(f32::from_bits(vp::u32())));
        pair(&a, &b);
    } else {
        let a = Variant::Double(OrderedFloat(special64(vp::choose(8))));
        let b = Variant::Double(OrderedFloat(f64::from_bits(vp::u64())));
        pair(&a, &b);
    }
    vp::cover("end");
}
/// Values of different types.
pub fn h_k_mixed() {
    let a = sc(vp::choose(SCALARS), 1);
    let b = sc(vp::choose(SCALARS), 1);
    pair(&a, &b);
    vp::cover("end");
}
fn text_from(n: usize, how: u32) -> Str {
    let t = text(n);
    match how {
        0 => Str::from(t),
        1 => Str::from(t.as_str().to_string()),
        _ => Str::from(&t),
    }
}
/// Strings and symbols however they were made, static ones too, and as borrowed text.
pub fn h_k_text() {
    let n = vp::param() as usize;
    let a = text_from(n, vp::choose(3));
    let b = match vp::choose(4) {
        3 => Str::from_static(["", "a", "ab", "abc", "abcd"][n.min(4)]),
        h => text_from(n, h),
    };
    pair(&a, &b);
    let s: &str = a.borrow();
    vp::check(bytes_eq(&hashed(s), &hashed(&a)), "eq:text borrowed from a string hashes like it");
    let (x, y) = (Symbol::from(a.clone()), Symbol::from(b.clone()));
    vp::check(pair(&x, &y) == (a == b), "eq:symbols compare like their text");
    let s: &str = x.borrow();
    vp::check(bytes_eq(&hashed(s), &hashed(&x)), "eq:text borrowed from a symbol hashes like it");
    pair(&Variant::String(a), &Variant::String(b));
    pair(&Variant::Symbol(x), &Variant::Symbol(y));
    vp::cover("end");
}
fn item() -> Variant {
    small(vp::choose(5))
}
fn compound(k: u64) -> Variant {
    match k {
        0 => Variant::List(List((0..vp::choose(3)).map(|_| item()).collect())),
        // maps are compared without order
        1 => {
            let mut e = vec![(Variant::Ulong(vp::u64()), small(0)), (Variant::Symbol(sym_text(1)), small(4))];
            if vp::fork() {
                e.swap(0, 1);
            }
            vmap(e)
        }
        2 => vmap((0..vp::choose(3)).map(|_| (Variant::Ubyte(vp::u8()), Variant::Boolean(vp::bool()))).collect()),
        3 => vmap(vec![(vmap(vec![(small(0), Variant::Null)]), vmap(vec![(small(3), Variant::Null)]))]),
        4 => Variant::Described((desc(), Box::new(item()))),
        5 => Variant::DescribedCompound(DescribedCompound::create(desc(), List((0..vp::choose(2)).map(|_| item()).collect()))),
        6 => Variant::Array(Array::from(vec![vp::u32(), vp::u32()])),
        7 => Variant::Array(Array::from((0..1 + vp::choose(2)).map(|_| sym_text(1)).collect::<Vec<_>>())),
        8 => Variant::List(List(vec![vmap(vec![(small(1), small(4))]), Variant::List(List(vec![small(3)]))])),
        _ => Variant::Described((desc(), Box::new(Variant::Described((Descriptor::Ulong(vp::u64()), Box::new(small(4))))))),
    }
}
fn desc() -> Descriptor {
    if vp::fork() { Descriptor::Ulong(vp::u64()) } else { Descriptor::Symbol(sym_text(1)) }
}
/// Maps of the same entries, in any order, with one value exchanged.
fn maps(k: u64) -> (Variant, Variant) {
    let inner = |a: Vec<(Variant, Variant)>| {
        let mut e: Vec<_> = a.clone();
        match vp::choose(3) {
            0 => e.reverse(),
            1 => {
                let i = vp::choose(e.len() as u32) as usize;
                e[i].1 = Variant::Boolean(vp::fork());
            }
            _ => (),
        }
        (vmap(a), vmap(e))
    };
    let n = if k == 3 { 1 } else { 1 + vp::choose(3) as usize };
    let e: Vec<_> = (0..n)
        .map(|i| {
            // different keys
            let key = match i {
                0 => small(2),
                1 => small(3),
                _ => small(6),
            };
            (key, if i == 0 { Variant::Boolean(vp::fork()) } else { small(i as u32) })
        })
        .collect();
    let (a, b) = inner(e);
    match k {
        1 => (a, b),
        2 => {
            let c = small(0);
            let l = |m| Variant::List(List(vec![m, c.clone()]));
            (l(a), l(b))
        }
        3 => {
            let m = |x: Variant| vmap(vec![(x.clone(), x), (Variant::Null, Variant::Null)]);
            (m(a), m(b))
        }
        _ => (Variant::Described((Descriptor::Ulong(1), Box::new(a))), Variant::Described((Descriptor::Ulong(1), Box::new(b)))),
    }
}
/// Compound values of shape param.
pub fn h_k_compound() {
    if matches!(vp::param(), 1 | 2 | 3 | 8) {
        let (a, b) = maps(vp::param());
        pair(&a, &b);
        return vp::cover("end");
    }
    let (a, b) = (compound(vp::param()), compound(vp::param()));
    pair(&a, &b);
    if let (Variant::Array(x), Variant::Array(y)) = (&a, &b) {
        pair(x, y);
    }
    vp::cover("end");
}
/// Any decodable value of n = param bytes: equal to its copy, and to itself decoded again.
pub fn h_k_any() {
    let v = symv(vp::param() as usize);
    let mut i = bts(&v);
    let Ok(a) = Variant::decode(&mut i) else { return vp::cover("err") };
    vp::check(a == a, "eq:a value equals itself");
    let b = a.clone();
    vp::check(a == b && b == a && bytes_eq(&hashed(&a), &hashed(&b)), "eq:a copy equals and hashes like the value");
    let mut j = bts(&v);
    match Variant::decode(&mut j) {
        Ok(c) => vp::check(a == c && bytes_eq(&hashed(&a), &hashed(&c)), "eq:the same bytes decode to equal values"),
        Err(_) => vp::check(false, "eq:the same bytes decode to equal values"),
    }
    vp::cover("ok");
}
/// A map the decoder makes: every key is found. Keys of kind param % 100, or (above) any n-byte key.
pub fn h_k_lookup() {
    let k = vp::param();
    let mut keys = Vec::new();
    let n = 1 + vp::choose(2);
    if k >= 100 {
        let v = symv((k - 100) as usize);
        let mut i = bts(&v);
        if Variant::decode(&mut i).is_err() || !i.is_empty() {
            return vp::cover("not a key");
        }
        keys.push(v);
    } else {
        for _ in 0..n {
            let x = if k < SCALARS as u64 { sc(k as u32, 1) } else { compound(k - 21) };
            let mut b = BytesMut::new();
            x.encode(&mut b);
            keys.push(b.to_vec());
        }
    }
    let mut body = Vec::new();
    for (j, x) in keys.iter().enumerate() {
        body.extend_from_slice(x);
        body.extend_from_slice(&[0x50, j as u8]);
    }
    let mut b = vec![0xd1];
    b.extend_from_slice(&(body.len() as u32 + 4).to_be_bytes());
    b.extend_from_slice(&(keys.len() as u32 * 2).to_be_bytes());
    b.extend_from_slice(&body);
    let mut i = bts(&b);
    match Variant::decode(&mut i) {
        Ok(Variant::Map(m)) => {
            for (j, x) in keys.iter().enumerate() {
                let key = Variant::decode(&mut bts(x)).ok().unwrap();
                match m.map.get(&key) {
                    Some(Variant::Ubyte(v)) => {
                        // of equal keys the last stays
                        let last = keys.iter().enumerate().filter(|(_, y)| Variant::decode(&mut bts(y)).ok().unwrap() == key).last().map(|x| x.0);
                        vp::check(last == Some(*v as usize), "eq:a key finds its own value");
                        vp::check(*v as usize >= j, "eq:a key finds its own value");
                    }
                    _ => vp::check(false, "eq:every decoded key is found"),
                }
            }
            vp::cover("ok");
        }
        _ => vp::check(false, "eq:map decodes"),
    }
}
/// Maps with text keys found by borrowed text.
pub fn h_k_borrowed() {
    let n = vp::param() as usize;
    let (a, b) = (sym_text(n), sym_text(n));
    let mut m = ntex_util::HashMap::default();
    m.insert(a.clone(), 1u8);
    vp::check(m.get(a.as_str()) == Some(&1), "eq:symbol key found by its text");
    vp::check(m.get(b.as_str()).is_some() == bytes_eq(a.as_bytes(), b.as_bytes()), "eq:other text is not found");
    let mut m = ntex_util::HashMap::default();
    m.insert(Str::from(a.as_str().to_string()), 1u8);
    vp::check(m.get(a.as_str()) == Some(&1), "eq:string key found by its text");
    vp::cover("end");
}
