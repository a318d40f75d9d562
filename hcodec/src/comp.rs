//! The composite types of the protocol: symbolic instances, their fields as abstract values,
//! and what the specification says about them (descriptor, field order, defaults).
use crate::g::*;
use crate::refd::{V, W};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;

/// Decides which optional fields are present and how wide integers are.
pub struct P {
    mode: u32,
    i: u32,
    a: u32,
    b: u32,
    class: u32, // 0 zero, 1 one byte, 2 wide, 3 any
    full: bool,
    light: bool,
}
impl P {
    /// Every combination of at most two present fields, and all of them present; with `full`,
    /// every combination.
    pub fn new(nopt: u32, full: bool) -> P {
        let mut p = P { mode: 0, i: 0, a: 0, b: 0, class: 3, full, light: false };
        if full {
            p.class = 2;
            return p;
        }
        p.mode = if nopt == 0 { 0 } else { vp::choose(3) };
        match p.mode {
            1 => {
                p.class = vp::choose(3);
            }
            2 => {
                p.a = vp::choose(nopt);
                p.b = vp::choose(nopt);
                if p.b > p.a {
                    vp::stop();
                }
                if p.a != p.b {
                    p.class = 2;
                }
            }
            _ => {}
        }
        p
    }
    /// One optional field, or none, present; values of every class.
    pub fn single(nopt: u32) -> P {
        let mut p = P::new(0, false);
        if nopt > 0 && vp::fork() {
            p.mode = 2;
            p.a = vp::choose(nopt);
            p.b = p.a;
        }
        p
    }
    pub fn one_present(&self) -> bool {
        self.mode == 2
    }
    /// For nested composites: nothing or everything present.
    /// All fields present.
    pub fn all() -> P {
        P { mode: 1, i: 0, a: 0, b: 0, class: 2, full: false, light: false }
    }
    fn light() -> P {
        P { mode: vp::choose(2), i: 0, a: 0, b: 0, class: 2, full: false, light: true }
    }
    fn o<T>(&mut self, f: impl FnOnce(&mut P) -> T) -> Option<T> {
        let i = self.i;
        self.i += 1;
        let on = if self.full {
            vp::fork()
        } else {
            match self.mode {
                0 => false,
                1 => true,
                _ => i == self.a || i == self.b,
            }
        };
        if on { Some(f(self)) } else { None }
    }
    fn u32(&mut self) -> u32 {
        let v = vp::u32();
        match self.class {
            0 => vp::assume(v == 0),
            1 => vp::assume(v > 0 && v < 256),
            2 => vp::assume(v > 255),
            _ => {}
        }
        v
    }
    fn u64(&mut self) -> u64 {
        let v = vp::u64();
        match self.class {
            0 => vp::assume(v == 0),
            1 => vp::assume(v > 0 && v < 256),
            2 => vp::assume(v > 255),
            _ => {}
        }
        v
    }
    fn len(&mut self) -> usize {
        if self.class == 3 { 2 * vp::choose(2) as usize } else { self.class as usize }
    }
    fn text(&mut self) -> ByteString {
        let n = self.len();
        text(n)
    }
    fn sym(&mut self) -> Symbol {
        let n = self.len();
        sym_text(n)
    }
    fn bin(&mut self) -> Bytes {
        let n = self.len();
        bts(&symv(n))
    }
    /// No, one or two symbols.
    fn syms(&mut self) -> Symbols {
        let n = if self.class == 3 { vp::choose(3) } else { self.class };
        Multiple((0..n).map(|i| sym_text(i as usize)).collect())
    }
    fn fields(&mut self) -> Fields {
        let mut m = Fields::default();
        let n = if self.class == 3 { vp::choose(3) } else { self.class.min(1) };
        for i in 0..n {
            let k = if self.class == 3 { vp::choose(4) } else { 0 };
            m.insert(Symbol::from_slice(["a", "bb"][i as usize]), small(k));
        }
        m
    }
    fn fieldsvec(&mut self) -> FieldsVec {
        let n = if self.class == 3 { vp::choose(3) } else { self.class.min(1) };
        VecSymbolMap((0..n).map(|i| (sym_text(i as usize + 1), small(i + 1))).collect())
    }
    fn map(&mut self) -> Map {
        let mut m = Map::default();
        if self.class != 0 {
            m.insert(Variant::Binary(bts(&[1, vp::u8()])), small(if self.class == 3 { vp::choose(4) } else { 0 }));
        }
        m
    }
    fn filter(&mut self) -> FilterSet {
        let mut m = FilterSet::default();
        if self.class != 0 {
            m.insert(sym_text(1), if vp::fork() { Some(text(2)) } else { None });
        }
        m
    }
    fn msgid(&mut self) -> MessageId {
        match if self.class == 3 { vp::choose(4) } else { self.class } {
            0 => MessageId::Ulong(vp::u64()),
            1 => MessageId::Uuid(uuid::Uuid::from_bytes(vp::arr())),
            2 => MessageId::Binary(self.bin()),
            _ => MessageId::String(self.text()),
        }
    }
    fn ts(&mut self) -> Timestamp {
        let o = if self.class == 3 { ts_millis() } else { 1_311_704_463_521 };
        chrono::DateTime::from_timestamp_millis(o).unwrap()
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = if self.class == 3 { vp::choose(v.len() as u32) } else { self.class.min(v.len() as u32 - 1) };
        v[i as usize].clone()
    }
    fn sub<T: Comp>(&mut self) -> T {
        if self.light {
            let mut p = P { mode: self.mode, i: 0, a: 0, b: 0, class: 2, full: false, light: true };
            return T::make(&mut p);
        }
        T::make(&mut P::light())
    }
    fn state(&mut self) -> DeliveryState {
        match if self.class == 3 { vp::choose(5) } else { self.class } {
            0 => DeliveryState::Accepted(Accepted {}),
            1 => DeliveryState::Rejected(self.sub()),
            2 => DeliveryState::Received(self.sub()),
            3 => DeliveryState::Released(Released {}),
            _ => DeliveryState::Modified(self.sub()),
        }
    }
    fn outcome(&mut self) -> Outcome {
        match if self.class == 3 { vp::choose(4) } else { self.class } {
            0 => Outcome::Accepted(Accepted {}),
            1 => Outcome::Rejected(self.sub()),
            2 => Outcome::Released(Released {}),
            _ => Outcome::Modified(self.sub()),
        }
    }
}

pub trait Comp: Encode + Decode + PartialEq + Clone + std::fmt::Debug + 'static {
    const CODE: u64;
    const SYM: &'static str;
    /// Optional fields.
    const OPT: u32;
    fn make(p: &mut P) -> Self;
    fn fields(&self) -> Vec<V>;
    /// What an absent field stands for; None: the field is mandatory.
    fn defaults() -> Vec<Option<V>>;
    /// Field by field equality (no PartialEq of the crate involved).
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (self.fields(), o.fields());
        let mut r = a.len() == b.len();
        for i in 0..a.len().min(b.len()) {
            r &= crate::refd::veq(&a[i], &b[i]);
        }
        r
    }
}
pub fn cabs<T: Comp>(t: &T) -> V {
    V::Desc(Box::new(V::U64(T::CODE)), Box::new(V::List(t.fields())))
}
macro_rules! cabs_impl { ($($t:ident),*) => { $(impl Abs for $t { fn abs(&self) -> V { cabs(self) } })* } }
cabs_impl!(Error, Source, Target, Received, Accepted, Rejected, Released, Modified);
impl Abs for DeliveryState {
    fn abs(&self) -> V {
        match self {
            DeliveryState::Received(x) => x.abs(),
            DeliveryState::Accepted(x) => x.abs(),
            DeliveryState::Rejected(x) => x.abs(),
            DeliveryState::Released(x) => x.abs(),
            DeliveryState::Modified(x) => x.abs(),
        }
    }
}
impl Abs for Outcome {
    fn abs(&self) -> V {
        match self {
            Outcome::Accepted(x) => x.abs(),
            Outcome::Rejected(x) => x.abs(),
            Outcome::Released(x) => x.abs(),
            Outcome::Modified(x) => x.abs(),
        }
    }
}

macro_rules! comp {
    ($t:ident ( $inner:ident ) $code:expr, $sym:expr, $opt:expr, |$p:ident| { $($f:ident = $g:expr ; $d:expr),* $(,)? } $(extra $x:ident)?) => {
        impl Comp for $t {
            const CODE: u64 = $code;
            const SYM: &'static str = $sym;
            const OPT: u32 = $opt;
            fn make($p: &mut P) -> Self {
                $(let $f = $g;)*
                $t(Box::new($inner { $($f,)* $($x: None,)? }))
            }
            fn fields(&self) -> Vec<V> {
                let mut v = Vec::new();
                $(v.push(self.0.$f.abs());)*
                v
            }
            fn defaults() -> Vec<Option<V>> {
                let mut v = Vec::new();
                $(v.push($d);)*
                v
            }
        }
    };
    ($t:ident $code:expr, $sym:expr, $opt:expr, |$p:ident| { $($f:ident = $g:expr ; $d:expr),* $(,)? }) => {
        impl Comp for $t {
            const CODE: u64 = $code;
            const SYM: &'static str = $sym;
            const OPT: u32 = $opt;
            fn make($p: &mut P) -> Self {
                $(let $f = $g;)*
                $t { $($f,)* }
            }
            #[allow(unused_mut)]
            fn fields(&self) -> Vec<V> {
                let mut v = Vec::new();
                $(v.push(self.$f.abs());)*
                v
            }
            #[allow(unused_mut)]
            fn defaults() -> Vec<Option<V>> {
                let mut v = Vec::new();
                $(v.push($d);)*
                v
            }
        }
    };
}
const N: Option<V> = Some(V::Null);
fn f() -> Option<V> {
    Some(V::Bool(false))
}
fn dsym(s: &str) -> Option<V> {
    Some(V::Sym(s.as_bytes().to_vec()))
}
comp!(Open(OpenInner) 0x10, "amqp:open:list", 7, |p| {
    container_id = p.text(); None,
    hostname = p.o(|p| p.text()); N,
    max_frame_size = p.u32(); Some(V::U32(u32::MAX)),
    channel_max = vp::u16(); Some(V::U16(u16::MAX)),
    idle_time_out = p.o(|p| p.u32()); N,
    outgoing_locales = p.o(|p| p.syms()); N,
    incoming_locales = p.o(|p| p.syms()); N,
    offered_capabilities = p.o(|p| p.syms()); N,
    desired_capabilities = p.o(|p| p.syms()); N,
    properties = p.o(|p| p.fields()); N,
});
comp!(Begin(BeginInner) 0x11, "amqp:begin:list", 4, |p| {
    remote_channel = p.o(|_| vp::u16()); N,
    next_outgoing_id = p.u32(); None,
    incoming_window = p.u32(); None,
    outgoing_window = p.u32(); None,
    handle_max = p.u32(); Some(V::U32(u32::MAX)),
    offered_capabilities = p.o(|p| p.syms()); N,
    desired_capabilities = p.o(|p| p.syms()); N,
    properties = p.o(|p| p.fields()); N,
});
comp!(Attach(AttachInner) 0x12, "amqp:attach:list", 8, |p| {
    name = p.text(); None,
    handle = p.u32(); None,
    role = if vp::bool() { Role::Receiver } else { Role::Sender }; None,
    snd_settle_mode = p.pick(&[SenderSettleMode::Unsettled, SenderSettleMode::Settled, SenderSettleMode::Mixed]); Some(V::U8(2)),
    rcv_settle_mode = p.pick(&[ReceiverSettleMode::First, ReceiverSettleMode::Second]); Some(V::U8(0)),
    source = p.o(|p| p.sub::<Source>()); N,
    target = p.o(|p| p.sub::<Target>()); N,
    unsettled = p.o(|p| p.map()); N,
    incomplete_unsettled = vp::bool(); f(),
    initial_delivery_count = p.o(|p| p.u32()); N,
    max_message_size = p.o(|p| p.u64()); N,
    offered_capabilities = p.o(|p| p.syms()); N,
    desired_capabilities = p.o(|p| p.syms()); N,
    properties = p.o(|p| p.fields()); N,
});
comp!(Flow(FlowInner) 0x13, "amqp:flow:list", 6, |p| {
    next_incoming_id = p.o(|p| p.u32()); N,
    incoming_window = p.u32(); None,
    next_outgoing_id = p.u32(); None,
    outgoing_window = p.u32(); None,
    handle = p.o(|p| p.u32()); N,
    delivery_count = p.o(|p| p.u32()); N,
    link_credit = p.o(|p| p.u32()); N,
    available = p.o(|p| p.u32()); N,
    drain = vp::bool(); f(),
    echo = vp::bool(); f(),
    properties = p.o(|p| p.fields()); N,
});
comp!(Transfer(TransferInner) 0x14, "amqp:transfer:list", 6, |p| {
    handle = p.u32(); None,
    delivery_id = p.o(|p| p.u32()); N,
    delivery_tag = p.o(|p| p.bin()); N,
    message_format = p.o(|p| p.u32()); N,
    settled = p.o(|_| vp::bool()); N,
    more = vp::bool(); f(),
    rcv_settle_mode = p.o(|p| p.pick(&[ReceiverSettleMode::First, ReceiverSettleMode::Second])); N,
    state = p.o(|p| p.state()); N,
    resume = vp::bool(); f(),
    aborted = vp::bool(); f(),
    batchable = vp::bool(); f(),
} extra body);
comp!(Disposition(DispositionInner) 0x15, "amqp:disposition:list", 2, |p| {
    role = if vp::bool() { Role::Receiver } else { Role::Sender }; None,
    first = p.u32(); None,
    last = p.o(|p| p.u32()); N,
    settled = vp::bool(); f(),
    state = p.o(|p| p.state()); N,
    batchable = vp::bool(); f(),
});
comp!(Detach(DetachInner) 0x16, "amqp:detach:list", 1, |p| {
    handle = p.u32(); None,
    closed = vp::bool(); f(),
    error = p.o(|p| p.sub::<Error>()); N,
});
comp!(End 0x17, "amqp:end:list", 1, |p| { error = p.o(|p| p.sub::<Error>()); N });
comp!(Close 0x18, "amqp:close:list", 1, |p| { error = p.o(|p| p.sub::<Error>()); N });
comp!(Error(ErrorInner) 0x1d, "amqp:error:list", 2, |p| {
    condition = if p.class == 3 && vp::fork() {
        let c = conditions();
        c[vp::choose(c.len() as u32) as usize].0.clone()
    } else { ErrorCondition::Custom(p.sym()) }; None,
    description = p.o(|p| p.text()); N,
    info = p.o(|p| p.fieldsvec()); N,
});
comp!(Received 0x23, "amqp:received:list", 0, |p| { section_number = p.u32(); None, section_offset = p.u64(); None });
comp!(Accepted 0x24, "amqp:accepted:list", 0, |_p| {});
comp!(Rejected 0x25, "amqp:rejected:list", 1, |p| { error = p.o(|p| p.sub::<Error>()); N });
comp!(Released 0x26, "amqp:released:list", 0, |_p| {});
comp!(Modified 0x27, "amqp:modified:list", 3, |p| {
    delivery_failed = p.o(|_| vp::bool()); N,
    undeliverable_here = p.o(|_| vp::bool()); N,
    message_annotations = p.o(|p| p.fieldsvec()); N,
});
comp!(Source 0x28, "amqp:source:list", 7, |p| {
    address = p.o(|p| p.text()); N,
    durable = p.pick(&[TerminusDurability::None, TerminusDurability::Configuration, TerminusDurability::UnsettledState]); Some(V::U32(0)),
    expiry_policy = p.pick(&[TerminusExpiryPolicy::SessionEnd, TerminusExpiryPolicy::LinkDetach, TerminusExpiryPolicy::ConnectionClose, TerminusExpiryPolicy::Never]); dsym("session-end"),
    timeout = p.u32(); Some(V::U32(0)),
    dynamic = vp::bool(); f(),
    dynamic_node_properties = p.o(|p| p.fields()); N,
    distribution_mode = p.o(|p| { let c = p.sym(); p.pick(&[DistributionMode::Move, DistributionMode::Copy, DistributionMode::Custom(c)]) }); N,
    filter = p.o(|p| p.filter()); N,
    default_outcome = p.o(|p| p.outcome()); N,
    outcomes = p.o(|p| p.syms()); N,
    capabilities = p.o(|p| p.syms()); N,
});
comp!(Target 0x29, "amqp:target:list", 3, |p| {
    address = p.o(|p| p.text()); N,
    durable = p.pick(&[TerminusDurability::None, TerminusDurability::Configuration, TerminusDurability::UnsettledState]); Some(V::U32(0)),
    expiry_policy = p.pick(&[TerminusExpiryPolicy::SessionEnd, TerminusExpiryPolicy::LinkDetach, TerminusExpiryPolicy::ConnectionClose, TerminusExpiryPolicy::Never]); dsym("session-end"),
    timeout = p.u32(); Some(V::U32(0)),
    dynamic = vp::bool(); f(),
    dynamic_node_properties = p.o(|p| p.fields()); N,
    capabilities = p.o(|p| p.syms()); N,
});
comp!(SaslMechanisms 0x40, "amqp:sasl-mechanisms:list", 0, |p| { sasl_server_mechanisms = p.syms(); None });
comp!(SaslInit 0x41, "amqp:sasl-init:list", 2, |p| {
    mechanism = p.sym(); None,
    initial_response = p.o(|p| p.bin()); N,
    hostname = p.o(|p| p.text()); N,
});
comp!(SaslChallenge 0x42, "amqp:sasl-challenge:list", 0, |p| { challenge = p.bin(); None });
comp!(SaslResponse 0x43, "amqp:sasl-response:list", 0, |p| { response = p.bin(); None });
comp!(SaslOutcome 0x44, "amqp:sasl-outcome:list", 1, |p| {
    code = p.pick(&[SaslCode::Ok, SaslCode::Auth, SaslCode::Sys, SaslCode::SysPerm, SaslCode::SysTemp]); None,
    additional_data = p.o(|p| p.bin()); N,
});
comp!(Header 0x70, "amqp:header:list", 1, |p| {
    durable = vp::bool(); f(),
    priority = vp::u8(); Some(V::U8(4)),
    ttl = p.o(|p| p.u32()); N,
    first_acquirer = vp::bool(); f(),
    delivery_count = p.u32(); Some(V::U32(0)),
});
comp!(Properties 0x73, "amqp:properties:list", 13, |p| {
    message_id = p.o(|p| p.msgid()); N,
    user_id = p.o(|p| p.bin()); N,
    to = p.o(|p| p.text()); N,
    subject = p.o(|p| p.text()); N,
    reply_to = p.o(|p| p.text()); N,
    correlation_id = p.o(|p| p.msgid()); N,
    content_type = p.o(|p| p.sym()); N,
    content_encoding = p.o(|p| p.sym()); N,
    absolute_expiry_time = p.o(|p| p.ts()); N,
    creation_time = p.o(|p| p.ts()); N,
    group_id = p.o(|p| p.text()); N,
    group_sequence = p.o(|p| p.u32()); N,
    reply_to_group_id = p.o(|p| p.text()); N,
});

/// Calls `$f::<T>($($a),*)` for the composite number `$i`.
#[macro_export]
macro_rules! with_comp {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i {
            0 => $f::<Open>($($a),*),
            1 => $f::<Begin>($($a),*),
            2 => $f::<Attach>($($a),*),
            3 => $f::<Flow>($($a),*),
            4 => $f::<Transfer>($($a),*),
            5 => $f::<Disposition>($($a),*),
            6 => $f::<Detach>($($a),*),
            7 => $f::<End>($($a),*),
            8 => $f::<Close>($($a),*),
            9 => $f::<Error>($($a),*),
            10 => $f::<Received>($($a),*),
            11 => $f::<Accepted>($($a),*),
            12 => $f::<Rejected>($($a),*),
            13 => $f::<Released>($($a),*),
            14 => $f::<Modified>($($a),*),
            15 => $f::<Source>($($a),*),
            16 => $f::<Target>($($a),*),
            17 => $f::<SaslMechanisms>($($a),*),
            18 => $f::<SaslInit>($($a),*),
            19 => $f::<SaslChallenge>($($a),*),
            20 => $f::<SaslResponse>($($a),*),
            21 => $f::<SaslOutcome>($($a),*),
            22 => $f::<Header>($($a),*),
            _ => $f::<Properties>($($a),*),
        }
    };
}
pub const COMPS: u32 = 24;

/// The widest form of `v`.
pub fn canon(w: &mut W, v: &V) {
    let f = W::forms(v);
    let c = f[f.len() - 1];
    w.o.push(c);
    match v {
        V::List(l) => {
            let mut i = W::new();
            for x in l {
                canon(&mut i, x);
            }
            w.be(i.o.len() as u64 + 4, 4);
            w.be(l.len() as u64, 4);
            w.o.extend_from_slice(&i.o);
        }
        V::Map(l) => {
            let mut i = W::new();
            for (k, x) in l {
                canon(&mut i, k);
                canon(&mut i, x);
            }
            w.be(i.o.len() as u64 + 4, 4);
            w.be(l.len() as u64 * 2, 4);
            w.o.extend_from_slice(&i.o);
        }
        V::Desc(d, x) => {
            canon(w, d);
            canon(w, x);
        }
        V::Array(l) => {
            let mut i = W::new();
            let k = match l.first() {
                Some(x) => {
                    let f = W::forms(x);
                    f[f.len() - 1]
                }
                None => 0xb3,
            };
            i.o.push(k);
            for x in l {
                i.body(x, k);
            }
            w.be(i.o.len() as u64 + 4, 4);
            w.be(l.len() as u64, 4);
            w.o.extend_from_slice(&i.o);
        }
        _ => w.body(v, c),
    }
}
