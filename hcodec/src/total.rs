//! C01/C02: decoding arbitrary bytes ends with a value or an error, within memory proportional
//! to the bytes.
use crate::comp::*;
use crate::g::*;
use crate::refd::{V, W};
use crate::with_comp;
use ntex_util::HashMap;
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;
use ntex_codec::Decoder;

/// Bytes of heap a decoder may request for n bytes of input.
pub fn budget(n: usize) -> u64 {
    512 * n as u64 + 65536
}
pub fn measured<T>(n: usize, f: impl FnOnce() -> T) -> T {
    vp::alloc_limit(budget(n));
    vp::alloc_reset();
    let r = f();
    let t = vp::alloc_total();
    vp::alloc_limit(64 << 20);
    vp::check(t <= budget(n), "alloc:total requested is proportional to the input");
    r
}
/// Decodes `v` as a T.
pub fn tot<T: Decode>(v: &[u8]) {
    let n = v.len();
    let mut b = bts(v);
    let r = measured(n, || T::decode(&mut b));
    vp::check(b.len() <= n, "the rest is a part of the input");
    vp::out64(b.len() as u64);
    vp::out64(r.is_ok() as u64);
    vp::cover(if r.is_ok() { "ok" } else { "err" });
}
fn nested(p: &[u8], n: usize) -> Vec<u8> {
    let mut v = p.to_vec();
    v.extend_from_slice(&symv(n));
    v
}
pub fn h_tot_variant() {
    tot::<Variant>(&symv(vp::param() as usize));
}
/// A frame (after its size): symbolic header, n symbolic bytes.
pub fn h_tot_frame() {
    let n = vp::param() as usize;
    if n >= 100 {
        tot::<SaslFrame>(&symv(n - 100 + 4));
    } else {
        tot::<AmqpFrame>(&symv(n + 4));
    }
}
fn tot_comp<T: Comp>(n: usize) {
    tot::<T>(&nested(&[0, 0x53, T::CODE as u8], n));
}
/// Composite param % 100: n = param / 100 symbolic bytes after the descriptor.
pub fn h_tot_comp() {
    let p = vp::param();
    with_comp!(p % 100, tot_comp((p / 100) as usize));
}
fn tot_field<T: Comp>(n: usize) {
    let base = T::make(&mut P::new(0, false)).fields();
    let f = vp::choose(base.len().max(1) as u32) as usize;
    let mut w = W::new();
    for x in base.iter().take(f) {
        canon(&mut w, x);
    }
    let size = w.o.len() + n + 4;
    let mut v = vec![0, 0x53, T::CODE as u8, 0xd0];
    v.extend_from_slice(&(size as u32).to_be_bytes());
    v.extend_from_slice(&((if vp::fork() { f + 1 } else { base.len() }) as u32).to_be_bytes());
    v.extend_from_slice(&w.o);
    v.extend_from_slice(&symv(n));
    tot::<T>(&v);
}
/// Composite param % 100: for each field, n = param / 100 symbolic bytes where it stands.
pub fn h_tot_field() {
    let p = vp::param();
    with_comp!(p % 100, tot_field((p / 100) as usize));
}

/// A composite of the application's own.
#[derive(Debug, Clone, PartialEq)]
pub struct Own(pub u32, pub List);
impl DecodeFormatted for Own {
    fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
        let h = ListHeader::decode_with_format(input, fmt)?;
        if h.count != 2 {
            return Err(AmqpParseError::RequiredFieldOmitted("own"));
        }
        Ok(Own(u32::decode(input)?, List::decode(input)?))
    }
}
impl Encode for Own {
    fn encoded_size(&self) -> usize {
        List(vec![Variant::Uint(self.0), Variant::List(self.1.clone())]).encoded_size()
    }
    fn encode(&self, b: &mut BytesMut) {
        List(vec![Variant::Uint(self.0), Variant::List(self.1.clone())]).encode(b)
    }
}
impl Composite for Own {
    fn descriptor() -> Descriptor {
        Descriptor::Ulong(7)
    }
}
/// Typed decoders: kind param % 100, n = param / 100 bytes.
pub fn h_tot_typed() {
    let p = vp::param();
    let n = (p / 100) as usize;
    match p % 100 {
        0 => match vp::choose(8) {
            0 => tot::<bool>(&symv(n)),
            1 => tot::<u8>(&symv(n)),
            2 => tot::<u16>(&symv(n)),
            3 => tot::<u32>(&symv(n)),
            4 => tot::<u64>(&symv(n)),
            5 => tot::<i32>(&symv(n)),
            6 => tot::<i64>(&symv(n)),
            _ => tot::<char>(&symv(n)),
        },
        1 => match vp::choose(5) {
            0 => tot::<ByteString>(&symv(n)),
            1 => tot::<Symbol>(&symv(n)),
            2 => tot::<Bytes>(&symv(n)),
            3 => tot::<Str>(&symv(n)),
            _ => tot::<uuid::Uuid>(&symv(n)),
        },
        2 => tot::<Vec<Symbol>>(&symv(n)),
        3 => tot::<Multiple<Symbol>>(&symv(n)),
        4 => tot::<Vec<bool>>(&symv(n)),
        5 => tot::<Vec<u32>>(&symv(n)),
        6 => tot::<Vec<Option<u64>>>(&symv(n)),
        7 => tot::<HashMap<Variant, Variant>>(&symv(n)),
        8 => tot::<Annotations>(&symv(n)),
        9 => tot::<VecSymbolMap>(&symv(n)),
        10 => tot::<VecStringMap>(&symv(n)),
        11 => tot::<List>(&symv(n)),
        12 => tot::<ListDescribed<Own>>(&symv(n)),
        13 => {
            tot::<Descriptor>(&symv(n));
        }
        14 => tot::<Constructor>(&symv(n)),
        15 => tot::<FilterSet>(&symv(n)),
        16 => tot::<DeliveryState>(&nested(&[0], n)),
        17 => tot::<Outcome>(&nested(&[0], n)),
        18 => tot::<MessageId>(&symv(n)),
        19 => tot::<ErrorCondition>(&symv(n)),
        20 => tot::<Section>(&nested(&[0], n)),
        21 => tot::<protocol::Frame>(&nested(&[0], n)),
        22 => tot::<SaslFrameBody>(&nested(&[0], n)),
        23 => tot::<Vec<Variant>>(&nested(&[0xe0], n)),
        24 => tot::<Vec<Variant>>(&nested(&[0xf0, 0, 0, 0, n as u8], n)),
        25 => tot::<Multiple<Symbol>>(&nested(&[0xf0, 0, 0, 0, n as u8], n)),
        26 => tot::<Variant>(&nested(&[0xd0, 0, 0, 0, n as u8], n)),
        27 => tot::<Variant>(&nested(&[0xd1, 0, 0, 0, n as u8], n)),
        28 => tot::<VecSymbolMap>(&nested(&[0xd1, 0, 0, 0, n as u8], n)),
        29 => tot::<VecStringMap>(&nested(&[0xd1, 0, 0, 0, n as u8], n)),
        30 => tot::<FilterSet>(&nested(&[0xd1, 0, 0, 0, n as u8], n)),
        31 => tot::<Variant>(&nested(&[0xc0, n as u8, vp::u8(), [0xd0, 0xd1, 0xf0][vp::choose(3) as usize]], n.saturating_sub(2))),
        _ => tot::<ListDescribed<Own>>(&nested(&[0xc0, n as u8 + 2, vp::u8(), 0, 0x53, 7], n.saturating_sub(3))),
    }
}
/// What an application does with a decoded value: looks inside arrays and described values.
pub fn h_tot_inner() {
    let p = vp::param();
    let n = (p / 100) as usize;
    let head: &[u8] = match p % 100 {
        0 => &[0xe0],
        1 => &[0xf0],
        2 => &[0, 0x53, 9, 0xc0],
        3 => &[0, 0x53, 9, 0xd0],
        4 => &[0, 0x53, 9, 0xc1],
        5 => &[0, 0x53, 9, 0xe0],
        6 => &[0, 0x53, 9, 0x45],
        7 => &[0xf0, 0, 0, 0, n as u8],
        _ => &[0, 0xa3, 1],
    };
    let v = nested(head, n);
    let mut b = bts(&v);
    measured(v.len(), || match Variant::decode(&mut b) {
        Ok(Variant::Array(a)) => {
            vp::cover("array");
            let r = match vp::choose(4) {
                0 => a.decode::<Variant>().is_ok(),
                1 => a.decode::<Option<Symbol>>().is_ok(),
                2 => a.decode::<bool>().is_ok(),
                _ => a.decode::<u64>().is_ok(),
            };
            vp::out64(r as u64);
        }
        Ok(Variant::DescribedCompound(d)) => {
            vp::cover("described");
            let r = match vp::choose(5) {
                0 => d.decode::<Variant>().is_ok(),
                1 => d.decode::<List>().is_ok(),
                2 => d.decode::<HashMap<Variant, Variant>>().is_ok(),
                3 => d.decode::<Array>().is_ok(),
                _ => d.decode::<Own>().is_ok(),
            };
            vp::out64(r as u64);
        }
        Ok(Variant::Described(_)) => vp::out64(77),
        Ok(_) => vp::out64(78),
        Err(_) => vp::out64(0),
    });
    vp::cover("end");
}
/// A message: its first section is number 0x70 + param % 10, with param / 10 symbolic bytes.
pub fn h_tot_msg() {
    let p = vp::param();
    tot::<Message>(&nested(&[0, 0x53, 0x70 + (p % 10) as u8], (p / 10) as usize));
}
/// Nesting of depth param / 10 and kind param % 10, as deep as the bytes go.
pub fn h_tot_deep() {
    let p = vp::param() as usize;
    let (kind, d) = (p % 10, p / 10);
    let leaf = vp::u8();
    let mut v: Vec<u8> = Vec::new();
    match kind {
        // described values of described values
        0 => {
            for _ in 0..d {
                v.extend_from_slice(&[0, 0x53, 1]);
            }
            v.push(leaf);
        }
        // lists in lists, maps in lists, and maps as keys and values of maps
        _ => {
            // from the outside in: sizes are known from the depth
            let per = if kind == 1 { 9 } else if kind == 2 { 9 } else { 10 };
            let mut left = d * per + 1;
            for i in 0..d {
                let c = match kind {
                    1 => 0xd0,
                    2 => if i % 2 == 0 { 0xd0 } else { 0xd1 },
                    _ => 0xd1,
                };
                left -= 9;
                v.push(c);
                v.extend_from_slice(&((left + 4) as u32).to_be_bytes());
                v.extend_from_slice(&(if c == 0xd0 { 1u32 } else { 2 }).to_be_bytes());
                if kind >= 3 {
                    // null key, nested value
                    v.push(0x40);
                    left -= 1;
                }
            }
            v.push(leaf);
        }
    }
    let n = v.len();
    let mut b = bts(&v);
    let r = Variant::decode(&mut b);
    vp::check(b.len() <= n, "the rest is a part of the input");
    vp::out64(r.is_ok() as u64);
    vp::cover("end");
}
/// Every timestamp among the points and windows of `ts`.
pub fn h_tot_ts() {
    let t = match vp::param() {
        0 => ts_wide(),
        _ => {
            let b = [i64::MIN, i64::MAX, -1, 0, 8_210_266_876_799_999, -8_334_601_228_800_000, 1 << 53, -(1 << 53)];
            b[vp::choose(8) as usize].wrapping_add(vp::choose(16) as i64 * 250 - 2000)
        }
    };
    let mut v = vec![0x83];
    v.extend_from_slice(&t.to_be_bytes());
    tot::<Variant>(&v);
}

fn place(n: usize) -> usize {
    let i = if n > 200 { vp::choose((n / 200 + 1) as u32) as usize * 200 } else { 0 };
    if i >= n {
        vp::stop();
    }
    i + vp::choose((n - i).min(200) as u32) as usize
}
/// `v` with one byte replaced by any byte (or not), cut at any place (or not).
fn disturbed(v: &[u8], mode: u64) -> Vec<u8> {
    let mut v = v.to_vec();
    if mode != 1 {
        let i = place(v.len());
        v[i] = vp::u8();
    }
    if mode != 0 {
        let i = place(v.len() + 1);
        v.truncate(i);
    }
    v
}
fn sy(s: &str) -> V {
    V::Sym(s.as_bytes().to_vec())
}
/// The shortest and the widest form.
fn ends(v: &V) -> Vec<u8> {
    let mut w = W::new();
    if vp::fork() {
        canon(&mut w, v);
    } else {
        w.any(v);
    }
    w.o
}
fn sample(k: u32) -> V {
    match k {
        15 => V::Char(0x61),
        20 => V::Ts(5),
        0..21 => abs(&scalar(k, 3)),
        21 => V::List(vec![V::U32(vp::u32()), V::Str(b"ab".to_vec()), V::Bool(true)]),
        22 => V::Map(vec![(sy("k"), V::U32(vp::u32())), (sy("l"), V::Str(b"ab".to_vec()))]),
        23 => V::List(vec![V::List(vec![V::U64(7), V::List(vec![])]), V::Null]),
        24 => V::List(vec![V::Map(vec![(V::Str(b"k".to_vec()), V::Bin(vec![1]))]), V::U8(1)]),
        25 => V::Desc(Box::new(V::U64(9)), Box::new(V::List(vec![V::U32(1), V::Bool(false)]))),
        26 => V::Desc(Box::new(sy("d:x")), Box::new(V::Map(vec![(sy("k"), V::Ts(5))]))),
        27 => V::Array(vec![V::U32(1), V::U32(1 << 20)]),
        28 => V::Array(vec![sy("a"), sy("bc")]),
        29 => V::Array(vec![V::D128([3; 16]), V::D128([4; 16])]),
        30 => V::Array(vec![V::Uuid([3; 16]), V::Uuid([4; 16])]),
        31 => V::Array(vec![V::Desc(Box::new(V::U64(9)), Box::new(V::U64(4))), V::Desc(Box::new(V::U64(9)), Box::new(V::U64(5)))]),
        32 => V::Array(vec![V::List(vec![V::U32(1)]), V::List(vec![V::U32(2), V::Null])]),
        33 => V::Array(vec![V::Bool(true), V::Bool(false)]),
        34 => V::Map(vec![(V::Str(b"k".to_vec()), V::U32(vp::u32())), (V::Str(b"l".to_vec()), V::Str(b"ab".to_vec()))]),
        _ => V::List(vec![V::Desc(Box::new(V::U64(9)), Box::new(V::D128([3; 16]))), V::F64(1)]),
    }
}
/// A well-formed value of kind param % 100, disturbed (param / 100: one byte, cut, both).
pub fn h_tot_near() {
    let p = vp::param();
    let k = (p % 100) as u32;
    vp::fixed(true);
    let v = ends(&sample(k));
    vp::fixed(false);
    let v = disturbed(&v, p / 100);
    tot::<Variant>(&v);
    match k {
        22 => {
            tot::<VecSymbolMap>(&v);
            tot::<HashMap<Symbol, Variant>>(&v);
        }
        34 => {
            tot::<VecStringMap>(&v);
            tot::<HashMap<ByteString, Variant>>(&v);
        }
        21 | 23 => tot::<List>(&v),
        16 => tot::<Option<uuid::Uuid>>(&v),
        17 => tot::<Bytes>(&v),
        18 => tot::<Str>(&v),
        19 => tot::<Symbol>(&v),
        20 => tot::<chrono::DateTime<chrono::Utc>>(&v),
        27 => tot::<Vec<u32>>(&v),
        28 => {
            tot::<Vec<Symbol>>(&v);
            tot::<Multiple<Symbol>>(&v);
        }
        _ => (),
    }
}
fn tot_near<T: Comp>(mode: u64) {
    vp::fixed(true);
    let x = T::make(&mut P::all()).fields();
    vp::fixed(false);
    let mut w = W::new();
    w.o.extend_from_slice(&[0, 0x53, T::CODE as u8]);
    canon(&mut w, &V::List(x));
    tot::<T>(&disturbed(&w.o, mode));
}
/// Composite param % 100 with all its fields, disturbed.
pub fn h_tot_near_comp() {
    let p = vp::param();
    with_comp!(p % 100, tot_near(p / 100));
}
/// A message with two sections, disturbed.
pub fn h_tot_near_msg() {
    let p = vp::param();
    let map = |s: bool| {
        let k = |x: &str| if s { sy(x) } else { V::Str(x.as_bytes().to_vec()) };
        V::Map(vec![(k("a"), V::U32(7)), (k("b"), V::Str(b"xy".to_vec())), (k("c"), V::U64(1 << 40))])
    };
    let sec = |c: u8, v: V| {
        let mut w = W::new();
        w.o.extend_from_slice(&[0, 0x53, c]);
        canon(&mut w, &v);
        w.o
    };
    let mut v = match p % 10 {
        0 => sec(0x70, V::List(vec![V::Bool(true), V::U8(1), V::U32(2), V::Bool(false), V::U32(3)])),
        1 => sec(0x71, map(true)),
        2 => sec(0x72, map(true)),
        3 => {
            vp::fixed(true);
            let x = Properties::make(&mut P::all()).fields();
            vp::fixed(false);
            sec(0x73, V::List(x))
        }
        4 => sec(0x74, map(false)),
        5 => sec(0x75, V::Bin(vec![1, 2, 3])),
        6 => sec(0x76, V::List(vec![V::U32(1), V::Null])),
        7 => sec(0x77, V::List(vec![V::D128([1; 16]), V::Array(vec![V::U32(1)])])),
        _ => sec(0x78, map(true)),
    };
    v.extend_from_slice(&sec(0x75, V::Bin(vec![1, 2])));
    tot::<Message>(&disturbed(&v, p / 10));
}
/// The stream decoder on any announced size with few bytes behind it; limit param (0: none), read twice.
pub fn h_tot_stream() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    if vp::param() != 0 {
        c.set_max_size(vp::param() as usize);
    }
    let v = symv(10);
    let n = 4 + vp::choose(7) as usize;
    let mut b = BytesMut::copy_from_slice(&v[..n]);
    let r = measured(n, || {
        let r = c.decode(&mut b).is_ok();
        b.extend_from_slice(&[1]);
        r && c.decode(&mut b).is_ok()
    });
    vp::out64(r as u64);
    vp::cover(if r { "ok" } else { "err" });
}
