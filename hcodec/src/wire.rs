//! C09: every form the specification permits decodes to the value it stands for.
//! C11: what is decoded is what the announced bytes hold.
use crate::comp::*;
use crate::g::*;
use crate::refd::*;
use crate::with_comp;
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;
use ntex_util::HashMap;

/// Decodes the whole of `b`, followed by `tail`, which must be left alone.
fn dec<T: Decode>(b: &[u8], tail: &[u8]) -> Option<T> {
    let mut v = b.to_vec();
    v.extend_from_slice(tail);
    let mut i = bts(&v);
    match T::decode(&mut i) {
        Ok(x) => {
            vp::check(i.len() == tail.len(), "wire:consumes exactly the value");
            vp::check(i[..] == tail[..], "wire:what follows is left alone");
            Some(x)
        }
        Err(_) => {
            vp::check(false, "wire:permitted form decodes");
            None
        }
    }
}
fn any_form(v: &V) -> Vec<u8> {
    let mut w = W::new();
    w.any(v);
    vp::out(&w.o);
    w.o
}
/// As `abs`, order of map entries aside (keys are distinct).
fn same(v: &Variant, e: &V) -> bool {
    match (v, e) {
        (Variant::Map(m), V::Map(l)) => {
            let mut r = m.map.len() == l.len();
            for (k, x) in l {
                let mut found = false;
                for (k2, x2) in m.map.iter() {
                    found |= same(k2, k) & same(x2, x);
                }
                r &= found;
            }
            r
        }
        (Variant::List(a), V::List(b)) => {
            let mut r = a.len() == b.len();
            for i in 0..a.len().min(b.len()) {
                r &= same(&a.0[i], &b[i]);
            }
            r
        }
        (Variant::Described((d, x)), V::Desc(e, y)) => veq(&a_desc(d), e) & same(x, y),
        (Variant::DescribedCompound(d), V::Desc(e, y)) => {
            veq(&a_desc(d.descriptor()), e)
                & match d.decode::<Variant>() {
                    Ok(x) => same(&x, y),
                    Err(_) => false,
                }
        }
        (Variant::Array(a), V::Array(l)) => match a.decode::<Variant>() {
            Ok(x) => {
                let mut r = x.len() == l.len();
                for i in 0..x.len().min(l.len()) {
                    r &= match (a.element_constructor().descriptor(), &l[i]) {
                        (Some(d), V::Desc(e, y)) => veq(&a_desc(d), e) & same(&x[i], y),
                        (Some(_), _) => false,
                        (None, y) => same(&x[i], y),
                    };
                }
                r
            }
            Err(_) => false,
        },
        _ => veq(&abs(v), e),
    }
}
fn check_variant(b: &[u8], e: &V) {
    if let Some(x) = dec::<Variant>(b, &[0x40]) {
        vp::check(same(&x, e), "wire:decodes to the value the form stands for");
    }
}
fn check_typed<T: DecodeFormatted + Abs>(b: &[u8], e: &V) {
    if let Some(x) = dec::<T>(b, &[0x40]) {
        vp::check(veq(&x.abs(), e), "wire:typed decoding gives the value the form stands for");
    }
    if let Some(x) = dec::<Option<T>>(b, &[]) {
        vp::check(x.is_some() && veq(&x.abs(), e), "wire:optional decoding gives the value the form stands for");
    }
}
/// Scalar kind param % 100 in every form; texts and binaries of param / 100 bytes.
pub fn h_w_scalar() {
    let (k, n) = (vp::param() as u32 % 100, vp::param() as usize / 100);
    let e = abs(&scalar(k, n));
    let b = any_form(&e);
    check_variant(&b, &e);
    match k {
        1 => check_typed::<bool>(&b, &e),
        2 => check_typed::<u8>(&b, &e),
        3 => check_typed::<u16>(&b, &e),
        4 => check_typed::<u32>(&b, &e),
        5 => check_typed::<u64>(&b, &e),
        6 => check_typed::<i8>(&b, &e),
        7 => check_typed::<i16>(&b, &e),
        8 => check_typed::<i32>(&b, &e),
        9 => check_typed::<i64>(&b, &e),
        10 => check_typed::<f32>(&b, &e),
        11 => check_typed::<f64>(&b, &e),
        15 => check_typed::<char>(&b, &e),
        16 => check_typed::<uuid::Uuid>(&b, &e),
        17 => check_typed::<Bytes>(&b, &e),
        18 => {
            check_typed::<ByteString>(&b, &e);
            check_typed::<Str>(&b, &e)
        }
        19 => check_typed::<Symbol>(&b, &e),
        20 => check_typed::<chrono::DateTime<chrono::Utc>>(&b, &e),
        _ => (),
    }
    vp::cover("end");
}
impl Abs for f32 { fn abs(&self) -> V { V::F32(self.to_bits()) } }
impl Abs for f64 { fn abs(&self) -> V { V::F64(self.to_bits()) } }
impl Abs for char { fn abs(&self) -> V { V::Char(*self as u32) } }
impl Abs for uuid::Uuid { fn abs(&self) -> V { V::Uuid(*self.as_bytes()) } }
impl<T: Abs> Abs for Vec<T> { fn abs(&self) -> V { V::Array(self.iter().map(|x| x.abs()).collect()) } }

fn few(k: u32) -> V {
    abs(&small(k))
}
fn sc(k: u32) -> V {
    abs(&scalar(k, 1))
}
/// Compound values in every form: kind `param`.
pub fn h_w_compound() {
    let e = match vp::param() {
        0 => {
            let n = vp::choose(3);
            V::List((0..n).map(|_| few(vp::choose(8))).collect())
        }
        1 => V::List(vec![V::List(vec![few(vp::choose(8))]), few(0)]),
        2 => {
            let n = vp::choose(3);
            // keys of different types
            V::Map((0..n).map(|i| (few(2 * i + vp::choose(2)), few(vp::choose(4)))).collect())
        }
        3 => V::Map(vec![(V::List(vec![few(vp::choose(4))]), V::Map(vec![(few(2), few(1))]))]),
        4 => V::Desc(Box::new(few(if vp::fork() { 6 } else { 3 })), Box::new(sc(vp::choose(SCALARS - 1)))),
        5 => V::Desc(
            Box::new(few(if vp::fork() { 6 } else { 3 })),
            Box::new(match vp::choose(3) {
                0 => V::List(vec![few(vp::choose(8))]),
                1 => V::Map(vec![(few(3), few(0))]),
                _ => V::Array(vec![few(0), few(0)]),
            }),
        ),
        6 => V::List(vec![V::Desc(Box::new(few(6)), Box::new(few(vp::choose(8)))), few(4)]),
        7 => V::Desc(Box::new(V::U64(7)), Box::new(V::Desc(Box::new(few(6)), Box::new(few(vp::choose(4)))))),
        8 => V::Map(vec![(few(3), V::Array(vec![few(1), few(1)])), (few(6), V::Desc(Box::new(few(6)), Box::new(V::List(vec![]))))]),
        _ => V::List(vec![V::Array(vec![few(3)]), V::Array(vec![V::List(vec![few(0)])])]),
    };
    let b = any_form(&e);
    check_variant(&b, &e);
    match (&e, vp::param()) {
        (V::List(_), _) => {
            if let Some(x) = dec::<List>(&b, &[0x41]) {
                vp::check(same(&Variant::List(x), &e), "wire:typed decoding gives the value the form stands for");
            }
        }
        (V::Map(_), _) => {
            if let Some(x) = dec::<HashMap<Variant, Variant>>(&b, &[0x41]) {
                vp::check(same(&Variant::Map(VariantMap::new(x)), &e), "wire:typed decoding gives the value the form stands for");
            }
        }
        _ => (),
    }
    vp::cover("end");
}
/// Arrays of scalar kind param % 100, in every element form, of param / 100 elements.
pub fn h_w_array() {
    let (k, n) = (vp::param() as u32 % 100, vp::param() / 100);
    let el: Vec<V> = (0..n).map(|_| sc(k)).collect();
    let e = if vp::fork() && n > 0 {
        let d = few(if vp::fork() { 6 } else { 3 });
        V::Array(el.into_iter().map(|x| V::Desc(Box::new(d.clone()), Box::new(x))).collect())
    } else {
        V::Array(el)
    };
    let b = any_form(&e);
    check_variant(&b, &e);
    let V::Array(l) = &e else { return };
    let plain = !matches!(l.first(), Some(V::Desc(..)) | None);
    if plain {
        match k {
            1 => check_typed::<Vec<bool>>(&b, &e),
            4 => check_typed::<Vec<u32>>(&b, &e),
            5 => check_typed::<Vec<u64>>(&b, &e),
            8 => check_typed::<Vec<i32>>(&b, &e),
            9 => check_typed::<Vec<i64>>(&b, &e),
            17 => check_typed::<Vec<Bytes>>(&b, &e),
            18 => check_typed::<Vec<ByteString>>(&b, &e),
            19 => {
                check_typed::<Vec<Symbol>>(&b, &e);
                check_typed::<Multiple<Symbol>>(&b, &e);
            }
            _ => (),
        }
    }
    vp::cover("end");
}
/// Maps with symbol and string keys, as the typed maps of the crate read them.
pub fn h_w_typed_map() {
    let n = vp::choose(3) as usize;
    let strs = vp::fork();
    let ent: Vec<(V, V)> = (0..n)
        .map(|i| {
            let k = symv(i + 1);
            for b in k.iter() {
                vp::assume(*b < 128);
            }
            (if strs { V::Str(k) } else { V::Sym(k) }, few(vp::choose(8)))
        })
        .collect();
    let e = V::Map(ent);
    let b = any_form(&e);
    let pairs = |v: V| -> Variant {
        let V::Map(l) = v else { vp::stop() };
        // keys differ in length
        Variant::List(List(l.into_iter().map(|(k, _)| match k {
            V::Sym(s) => Variant::Binary(bts(&s)),
            V::Str(s) => Variant::Binary(bts(&s)),
            _ => Variant::Null,
        }).collect()))
    };
    let _ = pairs;
    if strs {
        if let Some(x) = dec::<VecStringMap>(&b, &[0x40]) {
            vp::check(veq(&x.abs(), &e), "wire:string map entries in order");
        }
    } else {
        if let Some(x) = dec::<VecSymbolMap>(&b, &[0x40]) {
            vp::check(veq(&x.abs(), &e), "wire:symbol map entries in order");
        }
        if let Some(x) = dec::<Annotations>(&b, &[0x40]) {
            let v = vmap(x.into_iter().map(|(k, v)| (Variant::Symbol(k), v)).collect());
            vp::check(same(&v, &e), "wire:annotations");
        }
    }
    vp::cover("end");
}

fn sym_of<T: Comp>(code: u64) -> Option<&'static str> {
    if T::CODE == code { Some(T::SYM) } else { None }
}
fn descriptor(w: &mut W, code: u64) {
    let mut name = None;
    for i in 0..COMPS {
        let r = with_comp!(i, sym_of(code));
        name = name.or(r);
    }
    let extra = [(0x71u64, "amqp:delivery-annotations:map"), (0x72, "amqp:message-annotations:map"), (0x74, "amqp:application-properties:map"),
        (0x75, "amqp:data:binary"), (0x76, "amqp:amqp-sequence:list"), (0x77, "amqp:amqp-value:*"), (0x78, "amqp:footer:map")];
    for (c, n) in extra {
        if c == code {
            name = Some(n);
        }
    }
    w.o.push(0);
    match (vp::choose(4), name) {
        (0, _) => w.any_coded(&V::U64(code), 0x53),
        (1, _) => w.any_coded(&V::U64(code), 0x80),
        (2, Some(n)) => w.any_coded(&V::Sym(n.as_bytes().to_vec()), 0xa3),
        (3, Some(n)) => w.any_coded(&V::Sym(n.as_bytes().to_vec()), 0xb3),
        _ => vp::stop(),
    }
}
/// A field in every form: descriptors by code or name, arrays of one element as that element,
/// empty arrays as null.
fn w_field(w: &mut W, v: &V, must: bool) {
    match v {
        V::Desc(d, l) => {
            let (V::U64(c), V::List(l)) = (&**d, &**l) else { return w.any(v) };
            descriptor(w, *c);
            fields_list(w, l, usize::MAX, vp::choose(2), &l.iter().map(|_| None).collect::<Vec<_>>(), false);
        }
        V::Array(l) => match vp::choose(3) {
            0 if l.is_empty() && !must => w.o.push(0x40),
            1 if l.len() == 1 => w.any(&l[0]),
            2 => w.any(v),
            _ => vp::stop(),
        },
        V::Map(l) if !l.is_empty() => {
            let c = if vp::fork() { 0xc1 } else { 0xd1 };
            let mut i = W::new();
            for (k, x) in l {
                i.any(k);
                canon(&mut i, x);
            }
            w.any_comp(c, i.o, l.len() * 2);
        }
        _ => w.any(v),
    }
}
/// A list of fields: number `f` in every form, the rest in one form. style 1: fields equal to
/// their default are null; the list ends after the last other field.
fn fields_list(w: &mut W, l: &[V], f: usize, style: u32, def: &[Option<V>], must: bool) {
    let mut n = l.len();
    let null = |i: usize| match &def[i] {
        _ if matches!(l[i], V::Null) => true,
        Some(d) => veq(d, &l[i]),
        None => false,
    };
    let isnull: Vec<bool> = (0..n).map(|i| style == 1 && i != f && null(i)).collect();
    if style == 1 {
        while n > 0 && isnull[n - 1] {
            n -= 1;
        }
        if n < l.len() && vp::fork() {
            n = l.len();
        }
    }
    let mut i = W::new();
    for j in 0..n {
        if j == f {
            w_field(&mut i, &l[j], must);
        } else if isnull[j] {
            i.o.push(0x40);
        } else {
            canon(&mut i, &l[j]);
        }
    }
    match vp::choose(3) {
        0 if n == 0 => w.o.push(0x45),
        1 => w.any_comp(0xc0, i.o, n),
        2 => w.any_comp(0xd0, i.o, n),
        _ => vp::stop(),
    }
}
/// Null and an array of no elements mean the same for multiple-valued fields.
fn absent(v: V) -> V {
    match v {
        V::Array(l) if l.is_empty() => V::Null,
        V::List(l) => V::List(l.into_iter().map(absent).collect()),
        V::Desc(d, x) => V::Desc(d, Box::new(absent(*x))),
        v => v,
    }
}
fn comp_forms<T: Comp>(full: bool) {
    let mut p = P::single(T::OPT);
    let x = T::make(&mut p);
    let l = x.fields();
    let mut w = W::new();
    let f = if l.is_empty() { usize::MAX } else { vp::choose(l.len() as u32) as usize };
    // the optional field that is present is the one that varies
    if !full && p.one_present() && f < l.len() && (T::defaults()[f].is_none() || matches!(l[f], V::Null)) {
        vp::stop();
    }
    // the outer descriptor and list vary with the first field, nested ones with their own
    if f == 0 || l.is_empty() {
        descriptor(&mut w, T::CODE);
    } else {
        w.o.push(0);
        w.any_coded(&V::U64(T::CODE), 0x53);
    }
    fields_list(&mut w, &l, f, vp::choose(2), &T::defaults(), T::CODE == 0x40);
    vp::out(&w.o);
    let tail: &[u8] = if T::CODE == 0x14 { &[] } else { &[0x41] };
    if let Some(y) = dec::<T>(&w.o, tail) {
        vp::check(veq(&absent(cabs(&y)), &absent(cabs(&x))), "wire:decodes to the fields the form stands for");
    }
    vp::cover("end");
}
/// Composite number `param` % 100, every combination of present and varying field when above.
pub fn h_w_comp() {
    with_comp!(vp::param() % 100, comp_forms(vp::param() >= 100));
}
/// Delivery states and outcomes chosen by descriptor, as a bare value.
pub fn h_w_state() {
    let x = match vp::choose(5) {
        0 => DeliveryState::Received(Received::make(&mut P::single(0))),
        1 => DeliveryState::Accepted(Accepted {}),
        2 => DeliveryState::Rejected(Rejected { error: None }),
        3 => DeliveryState::Released(Released {}),
        _ => DeliveryState::Modified(Modified::make(&mut P::single(3))),
    };
    let e = x.abs();
    let mut w = W::new();
    w_field(&mut w, &e, true);
    if let Some(y) = dec::<DeliveryState>(&w.o, &[0x41]) {
        vp::check(veq(&y.abs(), &e), "wire:decodes to the state the form stands for");
    }
    if !matches!(x, DeliveryState::Received(_)) {
        if let Some(y) = dec::<Outcome>(&w.o, &[0x41]) {
            vp::check(veq(&y.abs(), &e), "wire:decodes to the outcome the form stands for");
        }
    }
    if let Some(y) = dec::<Variant>(&w.o, &[0x41]) {
        let d = matches!(&y, Variant::DescribedCompound(_));
        vp::check(d, "wire:a composite is a described compound value");
    }
    vp::cover("end");
}
/// Message sections in every form of descriptor and value: section 0x70 + param.
pub fn h_w_msg() {
    let c = 0x70 + vp::param();
    let mut w = W::new();
    let v = match c {
        0x70 => V::List(Header::make(&mut P::single(1)).fields()),
        0x73 => V::List(Properties::make(&mut P::single(13)).fields()),
        0x71 | 0x72 | 0x78 => V::Map(vec![(V::Sym(vec![b'a']), few(vp::choose(8)))]),
        0x74 => V::Map(vec![(V::Str(vec![b'a']), few(vp::choose(8)))]),
        0x75 => few(2),
        0x76 => V::List(vec![few(0), few(vp::choose(8))]),
        _ => few(vp::choose(8)),
    };
    match &v {
        V::List(_) if c == 0x70 || c == 0x73 => w_field(&mut w, &V::Desc(Box::new(V::U64(c)), Box::new(v.clone())), true),
        _ => {
            descriptor(&mut w, c);
            w.any(&v);
        }
    }
    vp::out(&w.o);
    // a data section follows
    let mut t = w.o.clone();
    t.extend_from_slice(&[0, 0x53, 0x75, 0xa0, 1, 0x2a]);
    let mut i = bts(&t);
    match Message::decode(&mut i) {
        Ok(m) => {
            let vm = |m: Vec<(V, V)>| V::Map(m);
            let got = match c {
                0x70 => m.header().map(|h| V::List(h.fields())),
                0x73 => m.properties().map(|h| V::List(h.fields())),
                0x71 => m.delivery_annotations().map(|x| x.abs()),
                0x72 => m.message_annotations().map(|x| x.abs()),
                0x74 => m.app_properties().map(|x| x.abs()),
                0x75 => m.body().data.first().map(|x| x.abs()),
                0x76 => m.body().sequence.first().map(|x| x.abs()),
                0x77 => m.value().map(abs),
                _ => m.0.footer.as_ref().map(|f| vm(f.iter().map(|(k, v)| (k.abs(), abs(v))).collect())),
            };
            match got {
                Some(g) => vp::check(veq(&g, &v), "wire:section holds the value the form stands for"),
                None => vp::check(false, "wire:section is found"),
            }
            let d = &m.body().data;
            vp::check(d.len() == if c == 0x75 { 2 } else { 1 } && d[d.len() - 1][..] == [0x2a], "wire:the section that follows is intact");
        }
        Err(_) => vp::check(false, "wire:permitted form decodes"),
    }
    vp::cover("end");
}
fn plain_descriptors(v: &V) -> bool {
    match v {
        V::Desc(d, x) => matches!(**d, V::U64(_) | V::Sym(_)) && plain_descriptors(x),
        V::List(l) | V::Array(l) => l.iter().all(plain_descriptors),
        V::Map(l) => l.iter().all(|(a, b)| plain_descriptors(a) && plain_descriptors(b)),
        V::Ts(t) => *t > -8_000_000_000_000 && *t < 8_000_000_000_000,
        _ => true,
    }
}
/// Any bytes the strict reader accepts.
pub fn h_w_any() {
    let n = vp::param() as usize;
    let v = symv(n);
    let mut r = R::new(&v, Mode::Strict);
    let Some(e) = r.value() else { return vp::cover("not a value") };
    // outside the crate's data model: descriptors other than ulong and symbol
    if !plain_descriptors(&e) {
        return vp::cover("other descriptor");
    }
    let (b, tail) = v.split_at(r.p);
    vp::out(b);
    if let Some(x) = dec::<Variant>(b, tail) {
        vp::check(same(&x, &e), "wire:decodes to the value the bytes stand for");
    }
    vp::cover("value");
}

// C11 -------------------------------------------------------------------------------------
/// `v` holds exactly what the raw reading found.
fn holds(v: &Variant, e: &V) -> bool {
    match (v, e) {
        (Variant::Array(_), V::Array(l)) => {
            let b = enc(v);
            let (n, c) = if b[0] == 0xe0 { (3, b[2] as u32) } else { (9, u32::from_be_bytes([b[5], b[6], b[7], b[8]])) };
            // the constructor is re-encoded in its shortest form: compare what follows it
            let V::Array(_) = e else { return false };
            let (V::U32(count), V::Bin(raw)) = (&l[0], &l[1]) else { return false };
            let mut a = R::new(&b[n..], Mode::Raw);
            let mut r = R::new(raw, Mode::Raw);
            let (Some(x), Some(y)) = (a.constructor(), r.constructor()) else { return false };
            c == *count && veq(&x.0, &y.0) && x.1 == y.1 && veq(&V::Bin(b[n + a.p..].to_vec()), &V::Bin(raw[r.p..].to_vec()))
        }
        (Variant::DescribedCompound(d), V::Desc(e, y)) => {
            let V::Array(y) = &**y else { return false };
            let n = enc(d.descriptor()).len();
            veq(&a_desc(d.descriptor()), e) & veq(&V::Bin(enc(v)[n..].to_vec()), &y[0])
        }
        (Variant::Described((d, x)), V::Desc(e, y)) => veq(&a_desc(d), e) & holds(x, y),
        (Variant::List(a), V::List(b)) => {
            let mut r = a.len() == b.len();
            for i in 0..a.len().min(b.len()) {
                r &= holds(&a.0[i], &b[i]);
            }
            r
        }
        (Variant::Map(m), V::Map(l)) => {
            // of repeated keys one stays
            let mut n = 0;
            let mut r = true;
            for (i, (k, x)) in l.iter().enumerate() {
                let later = l[i + 1..].iter().any(|(k2, _)| veq(k, k2));
                if later {
                    continue;
                }
                n += 1;
                let mut found = false;
                for (k2, x2) in m.map.iter() {
                    found |= holds(k2, k) && holds(x2, x);
                }
                r &= found;
            }
            r & (m.map.len() == n)
        }
        _ => veq(&abs(v), e),
    }
}
fn confined(v: &[u8]) {
    let mut i = bts(v);
    match Variant::decode(&mut i) {
        Ok(x) => {
            let mut r = R::new(v, Mode::Raw);
            match r.value() {
                Some(e) => {
                    vp::check(v.len() - i.len() == r.p, "conf:consumes exactly the announced bytes");
                    vp::check(holds(&x, &e), "conf:holds what the announced bytes hold");
                }
                None => vp::check(false, "conf:elements do not fit the announced size but were accepted"),
            }
            vp::cover("ok");
        }
        Err(_) => vp::cover("err"),
    }
}
/// Any bytes: n = param.
pub fn h_c_any() {
    confined(&symv(vp::param() as usize));
}
/// A list or map of announced size and count, followed by other bytes.
/// param = n + 100 * kind
pub fn h_c_compound() {
    let (n, k) = (vp::param() as usize % 100, vp::param() / 100);
    let mut v: Vec<u8> = match k {
        0 => vec![0xc0],
        1 => vec![0xc1],
        2 => vec![0xd0, 0, 0, 0],
        3 => vec![0xd1, 0, 0, 0],
        4 => vec![0xe0],
        5 => vec![0xc0, n as u8, 1, 0xc0],
        6 => vec![0xc0, n as u8, 2, 0xc1],
        7 => vec![0xc1, n as u8, 2, 0x41, 0xc0],
        8 => vec![0xc0, n as u8, 2, 0x00, 0x53, 1, 0xc0],
        9 => vec![0xc0, n as u8, 2, 0xd0, 0, 0, 0],
        _ => vec![0xc0, n as u8, 2, 0xe0],
    };
    v.extend_from_slice(&symv(n));
    confined(&v);
}
/// A typed value T decodes only from the bytes its header announces.
fn conf_typed<T: Decode>(v: &[u8], eq: impl Fn(&T, &V) -> bool) {
    let mut i = bts(v);
    match T::decode(&mut i) {
        Ok(x) => {
            let mut r = R::new(v, Mode::Lenient);
            match r.value() {
                Some(e) => {
                    vp::check(v.len() - i.len() == r.p, "conf:consumes exactly the announced bytes");
                    vp::check(eq(&x, &e), "conf:holds what the announced bytes hold");
                }
                None => vp::check(false, "conf:elements do not fit the announced size but were accepted"),
            }
            vp::cover("ok");
        }
        Err(_) => vp::cover("err"),
    }
}
/// The typed compound decoders: kind param % 100, n = param / 100 symbolic bytes.
pub fn h_c_typed() {
    let (k, n) = (vp::param() % 100, vp::param() as usize / 100);
    let mut v: Vec<u8> = match k {
        0 | 1 | 2 | 3 => vec![0xe0],
        4 => vec![0xf0, 0, 0, 0],
        5 | 6 => vec![0xc1],
        7 => vec![0xd1, 0, 0, 0],
        _ => vec![0xc0],
    };
    v.extend_from_slice(&symv(n));
    match k {
        0 | 4 => conf_typed::<Vec<Symbol>>(&v, |x, e| veq(&x.abs(), e)),
        1 => conf_typed::<Multiple<Symbol>>(&v, |x, e| veq(&x.abs(), e)),
        2 => conf_typed::<Vec<u32>>(&v, |x, e| veq(&x.abs(), e)),
        3 => conf_typed::<Vec<bool>>(&v, |x, e| veq(&x.abs(), e)),
        5 | 7 => conf_typed::<VecSymbolMap>(&v, |x, e| veq(&x.abs(), e)),
        6 => conf_typed::<VecStringMap>(&v, |x, e| veq(&x.abs(), e)),
        _ => conf_list_described(&v),
    }
}
fn conf_list_described(v: &[u8]) {
    conf_typed::<ListDescribed<Accepted_>>(v, |x, e| match e {
        V::List(l) => x.len() == l.len() && l.iter().all(|y| matches!(y, V::Desc(d, _) if veq(d, &V::U64(0x24)))),
        _ => false,
    })
}
/// A composite without fields that keeps what it was decoded from.
#[derive(Debug, Clone, PartialEq)]
pub struct Accepted_(pub Variant);
impl DecodeFormatted for Accepted_ {
    fn decode_with_format(i: &mut Bytes, f: u8) -> Result<Self, AmqpParseError> {
        Variant::decode_with_format(i, f).map(Accepted_)
    }
}
impl Encode for Accepted_ {
    fn encoded_size(&self) -> usize {
        self.0.encoded_size()
    }
    fn encode(&self, b: &mut BytesMut) {
        self.0.encode(b)
    }
}
impl Composite for Accepted_ {
    fn descriptor() -> Descriptor {
        Descriptor::Ulong(0x24)
    }
}
/// A composite followed by other bytes: fields come from the announced bytes only.
fn conf_comp<T: Comp>(n: usize) {
    let base = T::make(&mut P::new(0, false)).fields();
    let f = vp::choose(base.len().max(1) as u32) as usize;
    let mut w = W::new();
    for x in base.iter().take(f) {
        canon(&mut w, x);
    }
    // list32 with a size in the middle of what follows
    let mut v = vec![0, 0x53, T::CODE as u8, 0xd0, 0, 0];
    let d = vp::u8();
    let size = w.o.len() + 4 + d as usize;
    vp::assume(d as usize <= n + 1);
    let size = vp::concretize(size as u64) as u16;
    v.extend_from_slice(&size.to_be_bytes());
    v.extend_from_slice(&((f + 1 + vp::choose(2) as usize) as u32).to_be_bytes());
    v.extend_from_slice(&w.o);
    v.extend_from_slice(&symv(n));
    let mut i = bts(&v);
    match T::decode(&mut i) {
        Ok(x) => {
            let mut r = R::new(&v, Mode::Raw);
            match r.value() {
                Some(V::Desc(_, raw)) => {
                    if T::CODE != 0x14 {
                        vp::check(v.len() - i.len() == r.p, "conf:consumes exactly the announced bytes");
                    }
                    let V::Array(raw) = &*raw else { return };
                    let V::Bin(raw) = &raw[0] else { return };
                    // as many fields as are announced and known
                    let mut l = Vec::new();
                    let mut q = R::new(&raw[9..], Mode::Lenient);
                    let count = u32::from_be_bytes([raw[5], raw[6], raw[7], raw[8]]) as usize;
                    let mut fit = true;
                    for _ in 0..count.min(base.len()) {
                        match q.value() {
                            Some(x) => l.push(x),
                            None => fit = false,
                        }
                    }
                    vp::check(fit, "conf:fields do not fit the announced size but were accepted");
                    if fit {
                        let c = V::Desc(Box::new(V::U64(T::CODE)), Box::new(V::List(l)));
                        vp::check(crate::rt::comp_matches::<T>(&c, &x.fields()), "conf:fields are those in the announced bytes");
                    }
                }
                _ => vp::check(false, "conf:announced size does not fit the input but was accepted"),
            }
            vp::cover("ok");
        }
        Err(_) => vp::cover("err"),
    }
}
/// Composite param % 100, n = param / 100 symbolic bytes.
pub fn h_c_comp() {
    with_comp!(vp::param() % 100, conf_comp(vp::param() as usize / 100));
}
