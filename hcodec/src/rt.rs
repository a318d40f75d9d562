//! Encoding: round trips (ids "rt:"), announced sizes ("size:"), well-formedness and meaning of
//! the emitted bytes according to the independent reader ("wf:").
use crate::comp::*;
use crate::g::*;
use crate::refd::*;
use crate::with_comp;
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;

fn trace(b: &[u8]) {
    vp::out64(b.len() as u64);
    if b.len() <= 64 {
        vp::out(b);
    }
}
/// Encodes, measures, reads back with the reference reader.
fn emit<T: Encode + ?Sized>(x: &T, expect: &V) -> Vec<u8> {
    let size = x.encoded_size();
    let b = enc(x);
    vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
    match read_all(&b, Mode::Strict) {
        Some(v) => vp::check(veq(&v, expect), "wf:reference reading finds the value"),
        None => vp::check(false, "wf:reference reading accepts the bytes"),
    }
    trace(&b);
    b
}
/// Decodes with and without bytes following.
fn back<T: Decode + PartialEq>(x: &T, b: &[u8], same: impl Fn(&T, &T) -> bool) {
    let mut v = b.to_vec();
    let extra = vp::choose(2) as usize;
    for _ in 0..extra {
        v.push(vp::u8());
    }
    let mut i = bts(&v);
    match T::decode(&mut i) {
        Ok(y) => {
            vp::check(i.len() == extra, "rt:consumes exactly the bytes written");
            vp::check(same(x, &y), "rt:decodes to the same contents");
            vp::check(*x == y, "rt:decodes to an equal value");
        }
        Err(_) => vp::check(false, "rt:own encoding decodes"),
    }
}
fn var(x: &Variant) {
    let b = emit(x, &abs(x));
    back(x, &b, |a, b| veq(&abs(a), &abs(b)));
}
fn typed<T: Encode + DecodeFormatted + PartialEq + Abs>(x: T) {
    let b = emit(&x, &x.abs());
    back(&x, &b, |a, b| veq(&a.abs(), &b.abs()));
    let o = Some(x);
    let b2 = emit(&o, &o.abs());
    vp::check(b == b2, "rt:present option is encoded as the value");
    back(&o, &b2, |a, b| veq(&a.abs(), &b.abs()));
}

/// Every scalar type, every value.
pub fn h_rt_scalar() {
    let k = vp::param() as u32;
    let n = if (17..20).contains(&k) { [0, 1, 2, 6][vp::choose(4) as usize] } else { 0 };
    if vp::fork() {
        var(&scalar(k, n));
    } else {
        match k {
            0 => {
                let o: Option<u32> = None;
                let b = emit(&o, &V::Null);
                back(&o, &b, |a, b| a == b);
            }
            1 => typed(vp::bool()),
            2 => typed(vp::u8()),
            3 => typed(vp::u16()),
            4 => typed(vp::u32()),
            5 => typed(vp::u64()),
            6 => typed(vp::i8()),
            7 => typed(vp::i16()),
            8 => typed(vp::i32()),
            9 => typed(vp::i64()),
            17 => typed(bts(&symv(n))),
            18 => typed(text(n)),
            19 => typed(sym_text(n)),
            20 => typed(chrono::DateTime::<chrono::Utc>::from_timestamp_millis(ts_wide()).unwrap()),
            _ => var(&scalar(k, n)),
        }
    }
    vp::cover("end");
}
macro_rules! abs_num { ($($t:ident $v:ident),*) => { $(impl Abs for $t { fn abs(&self) -> V { V::$v(*self) } })* } }
abs_num!(i8 I8, i16 I16, i32 I32, i64 I64);

const LENS: [usize; 9] = [0, 1, 253, 254, 255, 256, 257, 65535, 65536];
/// Variable width values around the 8-bit boundary, and long ones.
pub fn h_rt_long() {
    let n = LENS[vp::param() as usize];
    match vp::choose(7) {
        0 => typed(long_bytes(n)),
        1 => typed(long_text(n)),
        2 => typed(long_sym(n)),
        3 => typed(Str::from(long_text(n))),
        4 => var(&Variant::Binary(long_bytes(n))),
        5 => var(&Variant::String(long_text(n).into())),
        _ => var(&Variant::Symbol(long_sym(n))),
    }
    vp::cover("end");
}

/// Lists, maps and described values of small values, nested.
pub fn h_rt_compound() {
    let x = match vp::choose(8) {
        0 => {
            let n = vp::choose(3);
            Variant::List(List((0..n).map(|_| small(vp::choose(8))).collect()))
        }
        1 => Variant::List(List(vec![
            Variant::List(List(vec![small(vp::choose(7)), Variant::List(List(vec![]))])),
            vmap(vec![(small(vp::choose(4)), small(vp::choose(4)))]),
        ])),
        2 => {
            let n = vp::choose(3);
            // keys of different types, hence distinct
            vmap((0..n).map(|i| (small(2 * i + vp::choose(2)), small(vp::choose(4)))).collect())
        }
        3 => vmap(vec![(Variant::List(List(vec![small(vp::choose(4))])), vmap(vec![(small(0), small(1))]))]),
        4 => Variant::Described((Descriptor::Ulong(vp::u64()), Box::new(scalar(vp::choose(SCALARS - 1), 1)))),
        5 => Variant::Described((Descriptor::Symbol(sym_text(2)), Box::new(scalar(vp::choose(SCALARS - 1), 1)))),
        6 => Variant::DescribedCompound(DescribedCompound::create(
            if vp::fork() { Descriptor::Ulong(vp::u64()) } else { Descriptor::Symbol(sym_text(1)) },
            match vp::choose(3) {
                0 => Variant::List(List(vec![small(vp::choose(8))])),
                1 => vmap(vec![(small(0), small(3))]),
                _ => Variant::Array(Array::from(vec![vp::u16(), vp::u16()])),
            },
        )),
        _ => Variant::Described((
            Descriptor::Ulong(1),
            Box::new(Variant::Described((Descriptor::Ulong(vp::u64()), Box::new(small(0))))),
        )),
    };
    var(&x);
    vp::cover("end");
}
/// Compound values whose size is around the 8-bit boundary.
pub fn h_rt_compound_long() {
    let n = 236 + vp::choose(24) as usize;
    let fill = Variant::Binary(long_bytes(n));
    match vp::choose(7) {
        0 => var(&Variant::List(List(vec![fill]))),
        1 => var(&Variant::List(List(vec![small(0), fill]))),
        2 => var(&vmap(vec![(small(0), fill)])),
        3 => typed(VecSymbolMap(vec![(sym_text(1), fill)])),
        4 => typed(VecStringMap(vec![(text(1).into(), fill)])),
        5 => var(&Variant::Described((Descriptor::Symbol(long_sym(n)), Box::new(fill)))),
        _ => var(&Variant::DescribedCompound(DescribedCompound::create(
            Descriptor::Symbol(long_sym(n)),
            Variant::List(List(vec![fill])),
        ))),
    }
    vp::cover("end");
}
fn arr<T: ArrayEncode + DecodeFormatted + PartialEq + Clone>(v: Vec<T>, a: impl Fn(&T) -> V) {
    let exp = V::Array(v.iter().map(a).collect());
    let x = Variant::Array(Array::from(v.clone()));
    let b = emit(&x, &exp);
    back(&x, &b, |_, _| true);
    // the same elements as a plain vector
    let b2 = emit(&v, &exp);
    vp::check(b == b2, "wf:vector and array are encoded alike");
    back(&v, &b2, |_, _| true);
    if let Ok(Variant::Array(y)) = Variant::decode(&mut bts(&b)) {
        match y.decode::<T>() {
            Ok(w) => vp::check(w == v, "rt:array elements decode to the same values"),
            Err(_) => vp::check(false, "rt:array elements decode"),
        }
    }
}
/// Arrays of every element type the encoder offers.
pub fn h_rt_array() {
    let n = vp::choose(3);
    let l = vp::choose(2) as usize;
    match vp::param() {
        0 => arr((0..n).map(|_| vp::bool()).collect(), |x| V::Bool(*x)),
        1 => arr((0..n).map(|_| vp::u8()).collect(), |x| V::U8(*x)),
        2 => arr((0..n).map(|_| vp::u16()).collect(), |x| V::U16(*x)),
        3 => arr((0..n).map(|_| vp::u32()).collect(), |x| V::U32(*x)),
        4 => arr((0..n).map(|_| vp::u64()).collect(), |x| V::U64(*x)),
        5 => arr((0..n).map(|_| vp::i8()).collect(), |x| V::I8(*x)),
        6 => arr((0..n).map(|_| vp::i16()).collect(), |x| V::I16(*x)),
        7 => arr((0..n).map(|_| vp::i32()).collect(), |x| V::I32(*x)),
        8 => arr((0..n).map(|_| vp::i64()).collect(), |x| V::I64(*x)),
        9 => arr((0..n).map(|_| bts(&symv(l))).collect(), |x| x.abs()),
        10 => arr((0..n).map(|_| text(l)).collect(), |x| x.abs()),
        11 => arr((0..n).map(|_| sym_text(l)).collect(), |x| x.abs()),
        12 => arr((0..n).map(|_| uuid::Uuid::from_bytes(vp::arr())).collect(), |x: &uuid::Uuid| V::Uuid(*x.as_bytes())),
        13 => {
            let c: Vec<char> = (0..n).map(|_| char::from_u32(vp::u32()).unwrap_or_else(|| vp::stop())).collect();
            arr(c, |x| V::Char(*x as u32))
        }
        14 => arr((0..n.min(1)).map(|_| ts()).collect(), |x| x.abs()),
        15 => {
            let s: Multiple<Symbol> = Multiple((0..n).map(|i| sym_text(i as usize)).collect());
            let size = s.encoded_size();
            let b = enc(&s);
            vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
            let exp: Vec<V> = s.iter().map(|x| x.abs()).collect();
            match read_all(&b, Mode::Strict) {
                Some(V::Array(l)) => vp::check(veq(&V::Array(l), &V::Array(exp)), "wf:reference reading finds the symbols"),
                Some(v) => vp::check(exp.len() == 1 && veq(&v, &exp[0]), "wf:reference reading finds the single symbol"),
                None => vp::check(false, "wf:reference reading accepts the bytes"),
            }
            back(&s, &b, |_, _| true);
        }
        _ => {
            // sizes and counts around 255
            let n = 248 + vp::choose(12) as usize;
            let e = vp::u8();
            match vp::choose(3) {
                0 => arr(vec![e; n], |x| V::U8(*x)),
                1 => arr(vec![bts(&vec![e; n])], |x| x.abs()),
                _ => arr(vec![e & 1 == 1; n], |x| V::Bool(*x)),
            }
        }
    }
    vp::cover("end");
}
/// Arrays received in any form, forwarded.
pub fn h_rt_array_forward() {
    // constructor of one to five-byte elements and the zero-width ones
    let c = vp::u8();
    vp::assume(matches!(c, 0x40..=0x45 | 0x50..=0x56 | 0x60 | 0x61 | 0x70 | 0x71));
    let (n, pay) = match vp::choose(4) {
        0 => (0u32, 0),
        1 => (1, 4),
        2 => (2, 4),
        _ => (256 + vp::choose(2), 0),
    };
    let mut w = W::new();
    w.o.push(0xf0);
    let p = symv(pay);
    w.be(4 + 1 + p.len() as u64, 4);
    w.be(n as u64, 4);
    w.o.push(c);
    w.o.extend_from_slice(&p);
    let Some(v) = read_all(&w.o, Mode::Strict) else { vp::stop() };
    match Variant::decode(&mut bts(&w.o)) {
        Ok(x) => {
            let b = emit(&x, &v);
            back(&x, &b, |_, _| true);
            vp::cover("forwarded");
        }
        Err(_) => vp::cover("refused"),
    }
}

fn comp_rt<T: Comp>(full: bool) {
    let x = T::make(&mut P::new(T::OPT, full));
    let size = x.encoded_size();
    let b = enc(&x);
    vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
    match read_all(&b, Mode::Strict) {
        Some(v) => vp::check(comp_matches::<T>(&v, &x.fields()), "wf:reference reading finds descriptor and fields"),
        None => vp::check(false, "wf:reference reading accepts the bytes"),
    }
    trace(&b);
    match T::decode(&mut bts(&b)) {
        Ok(y) => {
            vp::check(y.same(&x), "rt:decodes to the same fields");
            vp::check(y == x, "rt:decodes to an equal value");
        }
        Err(_) => vp::check(false, "rt:own encoding decodes"),
    }
    vp::cover("end");
}
/// `v` is the composite with these fields; absent or null fields stand for their default.
pub fn comp_matches<T: Comp>(v: &V, fields: &[V]) -> bool {
    let V::Desc(d, l) = v else { return false };
    let V::List(l) = &**l else { return false };
    let dm = match &**d {
        V::U64(c) => *c == T::CODE,
        V::Sym(s) => s == T::SYM.as_bytes(),
        _ => false,
    };
    if !dm || l.len() > fields.len() {
        return false;
    }
    let def = T::defaults();
    let mut r = true;
    for i in 0..fields.len() {
        r &= match l.get(i) {
            None | Some(V::Null) => match &def[i] {
                Some(d) => veq(d, &fields[i]),
                None => false,
            },
            Some(x) => field_matches(x, &fields[i]),
        };
    }
    r
}
/// A multiple-valued field may hold a single value instead of an array.
fn field_matches(x: &V, f: &V) -> bool {
    match (x, f) {
        (V::Array(_), V::Array(_)) => veq(x, f),
        (x, V::Array(l)) => l.len() == 1 && veq(x, &l[0]),
        (V::Desc(a, _), V::Desc(b, f)) if veq(a, b) && veq(a, &V::U64(Source::CODE)) => match &**f {
            V::List(f) => comp_matches::<Source>(x, f),
            _ => false,
        },
        (V::Desc(a, _), V::Desc(b, f)) if veq(a, b) && veq(a, &V::U64(Target::CODE)) => match &**f {
            V::List(f) => comp_matches::<Target>(x, f),
            _ => false,
        },
        (V::Desc(a, x), V::Desc(b, f)) => match (&**x, &**f) {
            (V::List(x), V::List(f)) => {
                let mut r = veq(a, b) & (x.len() <= f.len());
                for i in 0..f.len() {
                    r &= match x.get(i) {
                        Some(x) => field_matches(x, &f[i]),
                        None => veq(&V::Null, &f[i]),
                    };
                }
                r
            }
            _ => veq(a, b) & veq(x, f),
        },
        _ => veq(x, f),
    }
}
/// Composite number param % 100; all combinations of fields when param >= 100.
pub fn h_rt_comp() {
    let i = vp::param();
    with_comp!(i % 100, comp_rt(i >= 100));
}
fn frame_rt<T: Comp>(f: impl Fn(T) -> protocol::Frame, body: Option<Bytes>) {
    let x = T::make(&mut P::new(T::OPT, false));
    let ch = vp::u16();
    let mut fr = f(x.clone());
    if let (protocol::Frame::Transfer(t), Some(b)) = (&mut fr, &body) {
        t.0.body = Some(b.clone().into());
    }
    let fr = AmqpFrame::new(ch, fr);
    let size = fr.encoded_size();
    let b = enc(&fr);
    vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
    trace(&b);
    let n = body.as_ref().map_or(0, |b| b.len());
    vp::check(frame_header(&b, 0, ch), "wf:frame header");
    match read_all(&b[8..b.len() - n], Mode::Strict) {
        Some(v) => vp::check(comp_matches::<T>(&v, &x.fields()), "wf:reference reading finds descriptor and fields"),
        None => vp::check(false, "wf:reference reading accepts the bytes"),
    }
    if let Some(p) = &body {
        vp::check(b[b.len() - n..] == p[..], "wf:payload follows the performative");
    }
    let mut i = bts(&b[4..]);
    match AmqpFrame::decode(&mut i) {
        Ok(y) => {
            vp::check(y.channel_id() == ch, "rt:same channel");
            vp::check(i.is_empty(), "rt:consumes exactly the bytes written");
            vp::check(y == fr, "rt:decodes to an equal frame");
        }
        Err(_) => vp::check(false, "rt:own encoding decodes"),
    }
    vp::cover("end");
}
/// size, data offset 2, type, channel
pub fn frame_header(b: &[u8], ty: u8, ch: u16) -> bool {
    b.len() >= 8
        && u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize == b.len()
        && b[4] == 2
        && b[5] == ty
        && u16::from_be_bytes([b[6], b[7]]) == ch
}
pub fn h_rt_frame() {
    use protocol::Frame as F;
    match vp::param() {
        0 => frame_rt::<Open>(F::Open, None),
        1 => frame_rt::<Begin>(F::Begin, None),
        2 => frame_rt::<Attach>(F::Attach, None),
        3 => frame_rt::<Flow>(F::Flow, None),
        4 => frame_rt::<Transfer>(F::Transfer, None),
        5 => frame_rt::<Disposition>(F::Disposition, None),
        6 => frame_rt::<Detach>(F::Detach, None),
        7 => frame_rt::<End>(F::End, None),
        8 => frame_rt::<Close>(F::Close, None),
        9 => {
            let ch = vp::u16();
            let fr = AmqpFrame::new(ch, F::Empty);
            let b = enc(&fr);
            vp::check(fr.encoded_size() == b.len(), "size:encoded_size() is the number of bytes written");
            vp::check(b.len() == 8 && frame_header(&b, 0, ch), "wf:frame header");
            vp::check(AmqpFrame::decode(&mut bts(&b[4..])).ok() == Some(fr), "rt:decodes to an equal frame");
            vp::cover("end");
        }
        _ => {
            let n = 1 + vp::choose(2) as usize;
            let b = bts(&symv(n));
            frame_rt::<Transfer>(F::Transfer, Some(b))
        }
    }
}
fn sasl_rt<T: Comp>(f: impl Fn(T) -> SaslFrame) {
    let x = T::make(&mut P::new(T::OPT, true));
    let fr = f(x.clone());
    let size = fr.encoded_size();
    let b = enc(&fr);
    vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
    vp::check(frame_header(&b, 1, 0), "wf:frame header");
    match read_all(&b[8..], Mode::Strict) {
        Some(v) => vp::check(comp_matches::<T>(&v, &x.fields()), "wf:reference reading finds descriptor and fields"),
        None => vp::check(false, "wf:reference reading accepts the bytes"),
    }
    let mut i = bts(&b[4..]);
    match SaslFrame::decode(&mut i) {
        Ok(y) => {
            vp::check(i.is_empty(), "rt:consumes exactly the bytes written");
            vp::check(y == fr, "rt:decodes to an equal frame");
        }
        Err(_) => vp::check(false, "rt:own encoding decodes"),
    }
    vp::cover("end");
}
pub fn h_rt_sasl() {
    match vp::param() {
        0 => sasl_rt::<SaslMechanisms>(|x| x.into()),
        1 => sasl_rt::<SaslInit>(|x| x.into()),
        2 => sasl_rt::<SaslChallenge>(|x| x.into()),
        3 => sasl_rt::<SaslResponse>(|x| x.into()),
        _ => sasl_rt::<SaslOutcome>(|x| x.into()),
    }
}
/// Composites around the change from 8-bit to 32-bit lists: a long text in one field.
pub fn h_rt_comp_long() {
    let l = |lo: u32| (lo + vp::choose(256 - lo + 6)) as usize;
    fn go<T: Comp>(x: T) {
        let b = enc(&x);
        vp::check(x.encoded_size() == b.len(), "size:encoded_size() is the number of bytes written");
        match read_all(&b, Mode::Strict) {
            Some(v) => vp::check(comp_matches::<T>(&v, &x.fields()), "wf:reference reading finds descriptor and fields"),
            None => vp::check(false, "wf:reference reading accepts the bytes"),
        }
        match T::decode(&mut bts(&b)) {
            Ok(y) => vp::check(y == x && y.same(&x), "rt:decodes to an equal value"),
            Err(_) => vp::check(false, "rt:own encoding decodes"),
        }
        vp::cover("end");
    }
    match vp::param() {
        0 => go(Open(Box::new(OpenInner { container_id: long_text(l(225)), ..Default::default() }))),
        1 => go(Begin(Box::new(BeginInner { offered_capabilities: Some(Multiple(vec![long_sym(l(225))])), ..Default::default() }))),
        2 => go(Attach(Box::new(AttachInner { name: long_text(l(215)), ..Default::default() }))),
        3 => go(Flow(Box::new(FlowInner {
            properties: Some([(Symbol::from("a"), Variant::Binary(long_bytes(l(215))))].into_iter().collect()),
            ..Default::default()
        }))),
        4 => go(Transfer(Box::new(TransferInner { delivery_tag: Some(long_bytes(l(225))), ..Default::default() }))),
        5 => go(Disposition(Box::new(DispositionInner {
            state: Some(DeliveryState::Rejected(Rejected { error: Some(err(l(205))) })),
            ..Default::default()
        }))),
        6 => go(Detach(Box::new(DetachInner { handle: 0, closed: false, error: Some(err(l(225))) }))),
        7 => go(End { error: Some(err(l(225))) }),
        8 => go(Close { error: Some(err(l(225))) }),
        9 => go(err(l(225))),
        10 => go(Rejected { error: Some(err(l(225))) }),
        11 => go(Modified {
            delivery_failed: None,
            undeliverable_here: None,
            message_annotations: Some(VecSymbolMap(vec![(Symbol::from("a"), Variant::Binary(long_bytes(l(225))))])),
        }),
        12 => go(Source {
            address: Some(long_text(l(215))),
            durable: Default::default(),
            expiry_policy: Default::default(),
            timeout: 0,
            dynamic: false,
            dynamic_node_properties: None,
            distribution_mode: None,
            filter: None,
            default_outcome: None,
            outcomes: None,
            capabilities: None,
        }),
        13 => go(Target {
            address: Some(long_text(l(215))),
            durable: Default::default(),
            expiry_policy: Default::default(),
            timeout: 0,
            dynamic: false,
            dynamic_node_properties: None,
            capabilities: None,
        }),
        14 => go(SaslMechanisms { sasl_server_mechanisms: Multiple(vec![long_sym(l(225)), long_sym(1)]) }),
        15 => go(SaslInit { mechanism: Symbol::from("A"), initial_response: Some(long_bytes(l(225))), hostname: None }),
        16 => go(SaslChallenge { challenge: long_bytes(l(235)) }),
        17 => go(SaslResponse { response: long_bytes(l(235)) }),
        18 => go(SaslOutcome { code: SaslCode::Auth, additional_data: Some(long_bytes(l(225))) }),
        _ => go(Properties { subject: Some(long_text(l(225))), ..Default::default() }),
    }
}
fn err(n: usize) -> Error {
    Error(Box::new(ErrorInner {
        condition: ErrorCondition::Custom(Symbol::from("e")),
        description: Some(long_text(n)),
        info: None,
    }))
}
/// Error conditions and enumerations: all of them, in all positions.
pub fn h_rt_enum() {
    let c = conditions();
    let (c, n) = c[vp::choose(c.len() as u32) as usize].clone();
    let b = emit(&c, &V::Sym(n.as_bytes().to_vec()));
    back(&c, &b, |a, b| a == b);
    vp::cover("end");
}

// ---- messages

struct Sections {
    header: Option<Header>,
    da: Option<VecSymbolMap>,
    ma: Option<VecSymbolMap>,
    props: Option<Properties>,
    ap: Option<VecStringMap>,
    footer: Option<Annotations>,
    data: Vec<Bytes>,
    seq: Vec<List>,
    value: Option<Variant>,
    msgs: Vec<Bytes>,
}
/// (section code, contents) in the order the specification gives them.
fn expected(s: &Sections) -> Vec<V> {
    let sec = |c: u64, v: V| V::Desc(Box::new(V::U64(c)), Box::new(v));
    let mut o = Vec::new();
    if let Some(h) = &s.header {
        o.push(cabs(h));
    }
    if let Some(x) = &s.da {
        o.push(sec(0x71, x.abs()));
    }
    if let Some(x) = &s.ma {
        o.push(sec(0x72, x.abs()));
    }
    if let Some(x) = &s.props {
        o.push(cabs(x));
    }
    if let Some(x) = &s.ap {
        o.push(sec(0x74, x.abs()));
    }
    for d in &s.data {
        o.push(sec(0x75, d.abs()));
    }
    for l in &s.seq {
        o.push(sec(0x76, l.abs()));
    }
    if let Some(v) = &s.value {
        o.push(sec(0x77, v.abs()));
    }
    for d in &s.msgs {
        o.push(sec(0x75, d.abs()));
    }
    if let Some(x) = &s.footer {
        o.push(sec(0x78, x.abs()));
    }
    o
}
fn sections_match(v: &[V], e: &[V]) -> bool {
    if v.len() != e.len() {
        return false;
    }
    let mut r = true;
    for i in 0..v.len() {
        let V::Desc(d, _) = &e[i] else { return false };
        r &= match &**d {
            V::U64(0x70) => {
                let V::Desc(_, f) = &e[i] else { return false };
                let V::List(f) = &**f else { return false };
                comp_matches::<Header>(&v[i], f)
            }
            V::U64(0x73) => {
                let V::Desc(_, f) = &e[i] else { return false };
                let V::List(f) = &**f else { return false };
                comp_matches::<Properties>(&v[i], f)
            }
            _ => veq(&v[i], &e[i]),
        };
    }
    r
}
fn read_sections(b: &[u8]) -> Option<Vec<V>> {
    let mut r = R::new(b, Mode::Strict);
    let mut o = Vec::new();
    while r.p < b.len() {
        o.push(r.value()?);
    }
    Some(o)
}
/// `light`: one wire width per value, where the widths are covered elsewhere.
fn n32(light: bool) -> u32 {
    let x = vp::u32();
    vp::assume(!light || x > 255);
    x
}
fn n64(light: bool) -> u64 {
    let x = vp::u64();
    vp::assume(!light || x > 255);
    x
}
fn val(light: bool, k: u32) -> Variant {
    if light { Variant::Uint(n32(true)) } else { small(k) }
}
fn hdr(light: bool) -> Header {
    Header {
        durable: !light && vp::bool(),
        priority: vp::u8(),
        ttl: if vp::fork() { Some(n32(light)) } else { None },
        first_acquirer: false,
        delivery_count: n32(light),
    }
}
/// Builds a message through the public API; `which` selects sections.
fn build(which: u32, body: u32) -> (Message, Sections) {
    let light = which.count_ones() > 1;
    let mut m = Message::default();
    let mut s = Sections { header: None, da: None, ma: None, props: None, ap: None, footer: None, data: vec![], seq: vec![], value: None, msgs: vec![] };
    if which & 1 != 0 {
        let h = hdr(light);
        m.set_header(h.clone());
        s.header = Some(h);
    }
    if which & 2 != 0 {
        let a = VecSymbolMap(vec![(sym_text(1), if light { val(true, 0) } else { small(vp::choose(4)) })]);
        m.0.delivery_annotations = Some(a.clone());
        s.da = Some(a);
    }
    if which & 4 != 0 {
        let (k, v) = (sym_text(1), val(light, 0));
        m.add_message_annotation(k.clone(), v.clone());
        let mut l = vec![(k, v)];
        if vp::fork() {
            let (k, v) = (sym_text(2), val(light, 3));
            m.add_message_annotation(k.clone(), v.clone());
            l.push((k, v));
        }
        s.ma = Some(VecSymbolMap(l));
    }
    if which & 8 != 0 {
        let id = MessageId::Ulong(n64(light));
        let sub = text(1);
        m.set_properties(|p| {
            p.message_id = Some(id.clone());
            p.subject = Some(sub.clone());
        });
        s.props = Some(Properties { message_id: Some(id), subject: Some(sub), ..Default::default() });
    }
    if which & 16 != 0 {
        let (k, v) = (Str::from(text(1)), val(light, 1));
        m.set_app_property(k.clone(), v.clone());
        let mut l = vec![(k, v)];
        if vp::fork() {
            let (k, v) = (Str::from(text(2)), val(light, 2));
            m.set_app_property(k.clone(), v.clone());
            l.push((k, v));
        }
        s.ap = Some(VecStringMap(l));
    }
    if which & 32 != 0 {
        let mut f = Annotations::default();
        f.insert(sym_text(1), val(light, 0));
        m.0.footer = Some(f.clone());
        s.footer = Some(f);
    }
    match body {
        0 => {}
        1 => {
            let d = bts(&symv(3));
            m.set_body(|b| b.set_data(d.clone()));
            s.data.push(d);
        }
        2 => {
            let (d, e) = (bts(&symv(1)), bts(&symv(0)));
            m.body_mut().data.push(d.clone());
            m.body_mut().data.push(e.clone());
            s.data = vec![d, e];
        }
        3 => {
            let v = small(vp::choose(8));
            m.set_value(v.clone());
            s.value = Some(v);
        }
        4 => {
            let (a, b) = (List(vec![small(0)]), List(vec![]));
            m.body_mut().sequence.push(a.clone());
            m.body_mut().sequence.push(b.clone());
            s.seq = vec![a, b];
        }
        5 => {
            let mut inner = Message::default();
            let id = MessageId::Ulong(vp::u64());
            inner.set_properties(|p| p.message_id = Some(id.clone()));
            s.msgs = vec![bts(&enc(&inner))];
            m.set_body(|b| b.messages.push(inner.clone().into()));
        }
        6 => {
            let raw = bts(&symv(2));
            s.msgs = vec![raw.clone()];
            m.set_body(|b| b.messages.push(TransferBody::Data(raw.clone())));
        }
        _ => {
            let d = long_bytes(240 + vp::choose(20) as usize);
            m.set_body(|b| b.set_data(d.clone()));
            s.data.push(d);
        }
    }
    (m, s)
}
fn msg(which: u32, body: u32) {
    let (m, s) = build(which, body);
    msg_trip(m, s)
}
/// One section of kind param with contents around 255 bytes, some or no other section before it.
pub fn h_rt_msg_long() {
    let n = 232 + vp::choose(32) as usize;
    let (mut m, mut s) = build(if vp::fork() { 4 } else { 0 }, 0);
    match vp::param() {
        0 => {
            let mut inner = Message::default();
            let d = long_bytes(n);
            inner.set_body(|b| b.set_data(d.clone()));
            s.msgs = vec![bts(&enc(&inner))];
            m.set_body(|b| b.messages.push(inner.clone().into()));
        }
        1 => {
            let raw = long_bytes(n);
            s.msgs = vec![raw.clone()];
            m.set_body(|b| b.messages.push(TransferBody::Data(raw.clone())));
        }
        2 => {
            let v = Variant::Binary(long_bytes(n));
            m.set_value(v.clone());
            s.value = Some(v);
        }
        3 => {
            let v = List(vec![Variant::Binary(long_bytes(n))]);
            m.body_mut().sequence.push(v.clone());
            m.body_mut().sequence.push(List(vec![]));
            s.seq = vec![v, List(vec![])];
        }
        4 => {
            let a = VecSymbolMap(vec![(sym_text(1), Variant::Binary(long_bytes(n)))]);
            m.0.delivery_annotations = Some(a.clone());
            s.da = Some(a);
        }
        5 => {
            let v = Variant::Binary(long_bytes(n));
            let k = sym_text(3);
            let mut l: Vec<_> = s.ma.take().map(|m| m.0).unwrap_or_default();
            m.add_message_annotation(k.clone(), v.clone());
            l.push((k, v));
            s.ma = Some(VecSymbolMap(l));
        }
        6 => {
            let sub = long_text(n);
            m.set_properties(|p| p.subject = Some(sub.clone()));
            s.props = Some(Properties { subject: Some(sub), ..Default::default() });
        }
        7 => {
            let (k, v) = (Str::from(text(1)), Variant::Binary(long_bytes(n)));
            m.set_app_property(k.clone(), v.clone());
            s.ap = Some(VecStringMap(vec![(k, v)]));
        }
        8 => {
            let mut f = Annotations::default();
            f.insert(sym_text(1), Variant::Binary(long_bytes(n)));
            m.0.footer = Some(f.clone());
            s.footer = Some(f);
        }
        _ => {
            let (d, e) = (long_bytes(n), bts(&symv(1)));
            m.body_mut().data.push(d.clone());
            m.body_mut().data.push(e.clone());
            s.data = vec![d, e];
        }
    }
    msg_trip(m, s)
}
fn msg_trip(m: Message, s: Sections) {
    let size = m.encoded_size();
    let b = enc(&m);
    vp::check(size == b.len(), "size:encoded_size() is the number of bytes written");
    trace(&b);
    match read_sections(&b) {
        Some(v) => vp::check(sections_match(&v, &expected(&s)), "wf:reference reading finds the sections in order"),
        None => vp::check(false, "wf:reference reading accepts the bytes"),
    }
    let mut i = bts(&b);
    match Message::decode(&mut i) {
        Ok(y) => {
            vp::check(i.is_empty(), "rt:consumes everything");
            vp::check(y.header() == s.header.as_ref(), "rt:same header");
            vp::check(y.delivery_annotations() == s.da.as_ref(), "rt:same delivery annotations");
            vp::check(y.message_annotations() == s.ma.as_ref(), "rt:same message annotations");
            vp::check(y.properties() == s.props.as_ref(), "rt:same properties");
            vp::check(y.app_properties() == s.ap.as_ref(), "rt:same application properties");
            vp::check(y.0.footer == s.footer, "rt:same footer");
            let mut data = s.data.clone();
            data.extend(s.msgs.iter().cloned());
            vp::check(y.body().data == data, "rt:same data sections");
            vp::check(y.body().sequence == s.seq, "rt:same sequence sections");
            vp::check(y.body().value == s.value, "rt:same value section");
            if s.msgs.is_empty() {
                vp::check(y == m || y.0.message_format != m.0.message_format, "rt:decodes to an equal message");
            }
            let b2 = enc(&y);
            vp::check(b == b2, "rt:re-encoding gives the same bytes");
        }
        Err(_) => vp::check(false, "rt:own encoding decodes"),
    }
    vp::cover("end");
}
/// param = body kind + 10 * mode: 0 pairs of sections, 1 every set of sections
pub fn h_rt_msg() {
    let p = vp::param() as u32;
    let which = if p >= 10 { vp::choose(64) } else { [0, 1, 2, 4, 8, 16, 32, 3, 12, 48, 33, 22, 63][vp::choose(13) as usize] };
    msg(which, p % 10);
}
/// Any sequence of mutations, with sizes asked for in between.
pub fn h_msg_mutations() {
    let n = vp::param();
    let mut m = match vp::choose(3) {
        0 => Message::default(),
        1 => Message::with_body(bts(&symv(1))),
        _ => Message::with_messages(vec![TransferBody::Data(bts(&symv(2)))]),
    };
    for i in 0..n {
        if i == 0 || vp::fork() {
            let sz = m.encoded_size();
            vp::check(sz == enc(&m).len(), "size:before the mutation");
        }
        match vp::choose(18) {
            0 => {
                m.set_header(Header { durable: true, priority: 4, ttl: None, first_acquirer: false, delivery_count: 0 });
            }
            1 => {
                m.set_format(7);
            }
            2 => m.properties_mut().subject = Some(text(2)),
            3 => {
                m.set_properties(|p| p.to = Some(text(1)));
            }
            4 => {
                if let Some(p) = m.app_properties_mut() {
                    p.push((Str::from("k"), Variant::Boolean(true)));
                }
            }
            5 => {
                m.set_app_property("key", 7u32);
            }
            6 => {
                m.add_message_annotation("ann", 7u64);
            }
            7 => {
                if let Some(p) = m.message_annotations_mut() {
                    p.push((Symbol::from("k"), Variant::Null));
                }
            }
            8 => {
                if let Some(p) = m.delivery_annotations_mut() {
                    p.push((Symbol::from("k"), Variant::Null));
                }
            }
            9 => m = m.update(|mut m| {
                m.encoded_size();
                m.set_value(Variant::Null);
                m
            }),
            10 => m = m.if_some(&Some(5u32), |mut m, v| {
                m.encoded_size();
                m.set_value(Variant::from(*v));
                m
            }),
            11 => m.body_mut().data.push(bts(&symv(2))),
            12 => {
                m.set_value(Variant::from(vp::u32()));
            }
            13 => {
                m.set_body(|b| b.set_data(bts(&[1, 2, 3])));
            }
            14 => m = m.reply_message(),
            15 => m.0.footer = Some([(Symbol::from("f"), Variant::Null)].into_iter().collect()),
            16 => m.0.delivery_annotations = Some(VecSymbolMap::default()),
            _ => m = m.clone(),
        }
    }
    let sz = m.encoded_size();
    let b = enc(&m);
    vp::check(sz == b.len(), "size:after the mutations");
    vp::check(m.encoded_size() == b.len(), "size:asked again");
    let t = TransferBody::from(m);
    vp::check(t.len() == b.len() && t.encoded_size() == b.len(), "size:as a transfer body");
    vp::check(enc(&t) == b, "size:as a transfer body the bytes are the same");
    vp::out64(b.len() as u64);
    vp::cover("end");
}
