//! Symbolic values of the crate's types, and their reading as abstract AMQP values.
use crate::refd::V;
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;
use ordered_float::OrderedFloat;

pub fn enc<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut b = BytesMut::new();
    t.encode(&mut b);
    b.to_vec()
}
pub fn bts(v: &[u8]) -> Bytes {
    Bytes::copy_from_slice(v)
}
/// n symbolic bytes.
pub fn symv(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    vp::sym(&mut v);
    v
}
/// n symbolic ASCII bytes, or (n >= 4) bytes holding a two- and a three-byte character.
pub fn text(n: usize) -> ByteString {
    let mut v = symv(n);
    for b in v.iter() {
        vp::assume(*b < 128);
    }
    if n >= 6 && vp::fork() {
        v[1..6].copy_from_slice("é‰".as_bytes());
    }
    ByteString::try_from(bts(&v)).ok().unwrap()
}
/// n bytes of which only the ends are symbolic.
pub fn long_text(n: usize) -> ByteString {
    let mut v = vec![b'x'; n];
    if n > 0 {
        let e = vp::arr::<2>();
        vp::assume(e[0] < 128 && e[1] < 128);
        v[0] = e[0];
        v[n - 1] = e[1];
    }
    ByteString::try_from(bts(&v)).ok().unwrap()
}
pub fn long_bytes(n: usize) -> Bytes {
    let mut v = vec![0x2a; n];
    if n > 0 {
        let e = vp::arr::<2>();
        v[0] = e[0];
        v[n - 1] = e[1];
    }
    bts(&v)
}
pub fn sym_text(n: usize) -> Symbol {
    let mut v = symv(n);
    for b in v.iter_mut() {
        vp::assume(*b < 128);
    }
    Symbol::from(ByteString::try_from(bts(&v)).ok().unwrap())
}
pub fn long_sym(n: usize) -> Symbol {
    Symbol::from(long_text(n))
}

pub const SCALARS: u32 = 21;
pub const NAMES: [&str; 21] = [
    "null", "bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long", "float", "double", "decimal32",
    "decimal64", "decimal128", "char", "uuid", "binary", "string", "symbol", "timestamp",
];
/// The scalar of kind `k`, every value of it; strings and binaries of `n` bytes.
pub fn scalar(k: u32, n: usize) -> Variant {
    match k {
        0 => Variant::Null,
        1 => Variant::Boolean(vp::bool()),
        2 => Variant::Ubyte(vp::u8()),
        3 => Variant::Ushort(vp::u16()),
        4 => Variant::Uint(vp::u32()),
        5 => Variant::Ulong(vp::u64()),
        6 => Variant::Byte(vp::i8()),
        7 => Variant::Short(vp::i16()),
        8 => Variant::Int(vp::i32()),
        9 => Variant::Long(vp::i64()),
        10 => Variant::Float(OrderedFloat(f32::from_bits(vp::u32()))),
        11 => Variant::Double(OrderedFloat(f64::from_bits(vp::u64()))),
        12 => Variant::Decimal32(vp::arr()),
        13 => Variant::Decimal64(vp::arr()),
        14 => Variant::Decimal128(vp::arr()),
        15 => {
            let c = vp::u32();
            match char::from_u32(c) {
                Some(c) => Variant::Char(c),
                None => vp::stop(),
            }
        }
        16 => Variant::Uuid(uuid::Uuid::from_bytes(vp::arr())),
        17 => Variant::Binary(bts(&symv(n))),
        18 => Variant::String(text(n).into()),
        19 => Variant::Symbol(sym_text(n)),
        _ => Variant::Timestamp(chrono::DateTime::from_timestamp_millis(ts_wide()).unwrap()),
    }
}

pub const TS_POINTS: [i64; 8] =
    [0, 1_000, -1_000, -86_400_000, 951_782_400_000, 4_294_967_296_000, -62_167_219_200_000, 1_311_704_463_521];
/// Instants around the boundaries of seconds, days, leap days, years and of chrono's range.
pub fn ts_millis() -> i64 {
    TS_POINTS[vp::choose(TS_POINTS.len() as u32) as usize] + [0, -1, 1, 999][vp::choose(4) as usize]
}
pub fn ts_wide() -> i64 {
    match vp::choose(TS_POINTS.len() as u32 + 2) as usize {
        8 => chrono::DateTime::<chrono::Utc>::MIN_UTC.timestamp_millis() + vp::choose(3) as i64,
        9 => chrono::DateTime::<chrono::Utc>::MAX_UTC.timestamp_millis() - vp::choose(3) as i64,
        i => TS_POINTS[i] + vp::choose(128) as i64 * 31 - 2000,
    }
}
pub fn ts() -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::from_timestamp_millis(ts_millis()).unwrap()
}
/// A few scalars for the inside of compound values.
pub fn small(k: u32) -> Variant {
    match k {
        0 => Variant::Uint(vp::u32()),
        1 => Variant::Int(vp::i32()),
        2 => Variant::Binary(bts(&symv(2))),
        3 => Variant::Symbol(sym_text(1)),
        4 => Variant::Boolean(vp::bool()),
        5 => Variant::Null,
        6 => Variant::Ulong(vp::u64()),
        _ => Variant::List(List(vec![])),
    }
}
pub fn vmap(v: Vec<(Variant, Variant)>) -> Variant {
    let mut m = ntex_util::HashMap::default();
    for (k, x) in v {
        m.insert(k, x);
    }
    Variant::Map(VariantMap::new(m))
}

pub fn a_desc(d: &Descriptor) -> V {
    match d {
        Descriptor::Ulong(u) => V::U64(*u),
        Descriptor::Symbol(s) => V::Sym(s.as_bytes().to_vec()),
    }
}
/// The abstract value of a Variant.
pub fn abs(v: &Variant) -> V {
    match v {
        Variant::Null => V::Null,
        Variant::Boolean(b) => V::Bool(*b),
        Variant::Ubyte(x) => V::U8(*x),
        Variant::Ushort(x) => V::U16(*x),
        Variant::Uint(x) => V::U32(*x),
        Variant::Ulong(x) => V::U64(*x),
        Variant::Byte(x) => V::I8(*x),
        Variant::Short(x) => V::I16(*x),
        Variant::Int(x) => V::I32(*x),
        Variant::Long(x) => V::I64(*x),
        Variant::Float(x) => V::F32(x.0.to_bits()),
        Variant::Double(x) => V::F64(x.0.to_bits()),
        Variant::Decimal32(x) => V::D32(*x),
        Variant::Decimal64(x) => V::D64(*x),
        Variant::Decimal128(x) => V::D128(*x),
        Variant::Char(c) => V::Char(*c as u32),
        Variant::Timestamp(t) => V::Ts(t.timestamp_millis()),
        Variant::Uuid(u) => V::Uuid(*u.as_bytes()),
        Variant::Binary(b) => V::Bin(b.to_vec()),
        Variant::String(s) => V::Str(s.as_bytes().to_vec()),
        Variant::Symbol(s) => V::Sym(s.as_bytes().to_vec()),
        Variant::List(l) => V::List(l.iter().map(abs).collect()),
        Variant::Map(m) => V::Map(m.map.iter().map(|(k, v)| (abs(k), abs(v))).collect()),
        Variant::Array(a) => {
            // its elements as the crate itself decodes them
            match a.decode::<Variant>() {
                Ok(l) => V::Array(
                    l.iter()
                        .map(|x| match a.element_constructor().descriptor() {
                            Some(d) => V::Desc(Box::new(a_desc(d)), Box::new(abs(x))),
                            None => abs(x),
                        })
                        .collect(),
                ),
                Err(_) => V::Array(vec![V::Bin(b"undecodable".to_vec())]),
            }
        }
        Variant::Described((d, v)) => V::Desc(Box::new(a_desc(d)), Box::new(abs(v))),
        Variant::DescribedCompound(d) => {
            let v = match d.decode::<Variant>() {
                Ok(v) => abs(&v),
                Err(_) => V::Bin(b"undecodable".to_vec()),
            };
            V::Desc(Box::new(a_desc(d.descriptor())), Box::new(v))
        }
    }
}

/// Reading of a field as an abstract value.
pub trait Abs {
    fn abs(&self) -> V;
}
impl Abs for Variant {
    fn abs(&self) -> V {
        abs(self)
    }
}
impl Abs for bool {
    fn abs(&self) -> V {
        V::Bool(*self)
    }
}
impl Abs for u8 {
    fn abs(&self) -> V {
        V::U8(*self)
    }
}
impl Abs for u16 {
    fn abs(&self) -> V {
        V::U16(*self)
    }
}
impl Abs for u32 {
    fn abs(&self) -> V {
        V::U32(*self)
    }
}
impl Abs for u64 {
    fn abs(&self) -> V {
        V::U64(*self)
    }
}
impl Abs for ByteString {
    fn abs(&self) -> V {
        V::Str(self.as_bytes().to_vec())
    }
}
impl Abs for Str {
    fn abs(&self) -> V {
        V::Str(self.as_bytes().to_vec())
    }
}
impl Abs for Symbol {
    fn abs(&self) -> V {
        V::Sym(self.as_bytes().to_vec())
    }
}
impl Abs for Bytes {
    fn abs(&self) -> V {
        V::Bin(self.to_vec())
    }
}
impl Abs for chrono::DateTime<chrono::Utc> {
    fn abs(&self) -> V {
        V::Ts(self.timestamp_millis())
    }
}
impl<T: Abs> Abs for Option<T> {
    fn abs(&self) -> V {
        match self {
            Some(t) => t.abs(),
            None => V::Null,
        }
    }
}
impl<T: Abs> Abs for Multiple<T> {
    fn abs(&self) -> V {
        V::Array(self.iter().map(|x| x.abs()).collect())
    }
}
impl<K: Abs, T: Abs, S> Abs for std::collections::HashMap<K, T, S> {
    fn abs(&self) -> V {
        V::Map(self.iter().map(|(k, v)| (k.abs(), v.abs())).collect())
    }
}
impl Abs for VecSymbolMap {
    fn abs(&self) -> V {
        V::Map(self.iter().map(|(k, v)| (k.abs(), v.abs())).collect())
    }
}
impl Abs for VecStringMap {
    fn abs(&self) -> V {
        V::Map(self.iter().map(|(k, v)| (k.abs(), v.abs())).collect())
    }
}
impl Abs for List {
    fn abs(&self) -> V {
        V::List(self.iter().map(abs).collect())
    }
}
impl Abs for MessageId {
    fn abs(&self) -> V {
        match self {
            MessageId::Ulong(u) => V::U64(*u),
            MessageId::Uuid(u) => V::Uuid(*u.as_bytes()),
            MessageId::Binary(b) => b.abs(),
            MessageId::String(s) => s.abs(),
        }
    }
}
impl Abs for Role {
    fn abs(&self) -> V {
        V::Bool(matches!(self, Role::Receiver))
    }
}
impl Abs for SenderSettleMode {
    fn abs(&self) -> V {
        V::U8(match self {
            SenderSettleMode::Unsettled => 0,
            SenderSettleMode::Settled => 1,
            SenderSettleMode::Mixed => 2,
        })
    }
}
impl Abs for ReceiverSettleMode {
    fn abs(&self) -> V {
        V::U8(match self {
            ReceiverSettleMode::First => 0,
            ReceiverSettleMode::Second => 1,
        })
    }
}
impl Abs for TerminusDurability {
    fn abs(&self) -> V {
        V::U32(match self {
            TerminusDurability::None => 0,
            TerminusDurability::Configuration => 1,
            TerminusDurability::UnsettledState => 2,
        })
    }
}
fn s(x: &str) -> V {
    V::Sym(x.as_bytes().to_vec())
}
impl Abs for TerminusExpiryPolicy {
    fn abs(&self) -> V {
        s(match self {
            TerminusExpiryPolicy::LinkDetach => "link-detach",
            TerminusExpiryPolicy::SessionEnd => "session-end",
            TerminusExpiryPolicy::ConnectionClose => "connection-close",
            TerminusExpiryPolicy::Never => "never",
        })
    }
}
impl Abs for DistributionMode {
    fn abs(&self) -> V {
        match self {
            DistributionMode::Move => s("move"),
            DistributionMode::Copy => s("copy"),
            DistributionMode::Custom(c) => c.abs(),
        }
    }
}
impl Abs for SaslCode {
    fn abs(&self) -> V {
        V::U8(match self {
            SaslCode::Ok => 0,
            SaslCode::Auth => 1,
            SaslCode::Sys => 2,
            SaslCode::SysPerm => 3,
            SaslCode::SysTemp => 4,
        })
    }
}
/// Every condition of the specification with its symbol (sections 2.8.15-2.8.18).
pub fn conditions() -> Vec<(ErrorCondition, &'static str)> {
    use ErrorCondition as E;
    vec![
        (E::AmqpError(AmqpError::InternalError), "amqp:internal-error"),
        (E::AmqpError(AmqpError::NotFound), "amqp:not-found"),
        (E::AmqpError(AmqpError::UnauthorizedAccess), "amqp:unauthorized-access"),
        (E::AmqpError(AmqpError::DecodeError), "amqp:decode-error"),
        (E::AmqpError(AmqpError::ResourceLimitExceeded), "amqp:resource-limit-exceeded"),
        (E::AmqpError(AmqpError::NotAllowed), "amqp:not-allowed"),
        (E::AmqpError(AmqpError::InvalidField), "amqp:invalid-field"),
        (E::AmqpError(AmqpError::NotImplemented), "amqp:not-implemented"),
        (E::AmqpError(AmqpError::ResourceLocked), "amqp:resource-locked"),
        (E::AmqpError(AmqpError::PreconditionFailed), "amqp:precondition-failed"),
        (E::AmqpError(AmqpError::ResourceDeleted), "amqp:resource-deleted"),
        (E::AmqpError(AmqpError::IllegalState), "amqp:illegal-state"),
        (E::AmqpError(AmqpError::FrameSizeTooSmall), "amqp:frame-size-too-small"),
        (E::ConnectionError(ConnectionError::ConnectionForced), "amqp:connection:forced"),
        (E::ConnectionError(ConnectionError::FramingError), "amqp:connection:framing-error"),
        (E::ConnectionError(ConnectionError::Redirect), "amqp:connection:redirect"),
        (E::SessionError(SessionError::WindowViolation), "amqp:session:window-violation"),
        (E::SessionError(SessionError::ErrantLink), "amqp:session:errant-link"),
        (E::SessionError(SessionError::HandleInUse), "amqp:session:handle-in-use"),
        (E::SessionError(SessionError::UnattachedHandle), "amqp:session:unattached-handle"),
        (E::LinkError(LinkError::DetachForced), "amqp:link:detach-forced"),
        (E::LinkError(LinkError::TransferLimitExceeded), "amqp:link:transfer-limit-exceeded"),
        (E::LinkError(LinkError::MessageSizeExceeded), "amqp:link:message-size-exceeded"),
        (E::LinkError(LinkError::Redirect), "amqp:link:redirect"),
        (E::LinkError(LinkError::Stolen), "amqp:link:stolen"),
    ]
}
impl Abs for ErrorCondition {
    fn abs(&self) -> V {
        if let ErrorCondition::Custom(c) = self {
            return c.abs();
        }
        for (c, n) in conditions() {
            if &c == self {
                return s(n);
            }
        }
        V::Null
    }
}
