//! A connection of the library in a runtime, with the peer played by the harness.
use crate::net::*;
use crate::wire::*;
use ntex_amqp::client::{Client, Connector};
use ntex_amqp::codec::protocol::{self as p, Frame};
use ntex_amqp::codec::{AmqpCodec, AmqpFrame};
use ntex_amqp::*;
use ntex_bytes::BytesMut;
use ntex_codec::Decoder;
use ntex_rt::Runtime;
use ntex_service::cfg::SharedCfg;
use ntex_service::{fn_factory_with_config, fn_service, Service, ServiceFactory};
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;

/// A frame the library wrote.
pub struct Out {
    pub ch: u16,
    pub f: Frame,
    pub len: usize,
}

pub struct World<'a> {
    pub rt: &'a Runtime,
    pub peer: Peer,
    pub outs: Vec<Out>,
    raw: Vec<u8>,
    pub max_frame: usize,
}

/// The result of an operation started in the runtime.
pub struct Op<T>(Rc<RefCell<Option<T>>>);
impl<T> Clone for Op<T> {
    fn clone(&self) -> Self {
        Op(self.0.clone())
    }
}
impl<T: 'static> Op<T> {
    pub fn start(rt: &Runtime, f: impl Future<Output = T> + 'static) -> Op<T> {
        let o = Rc::new(RefCell::new(None));
        let o2 = o.clone();
        rt.spawn(async move {
            let v = f.await;
            *o2.borrow_mut() = Some(v);
        });
        Op(o)
    }
    pub fn done(&self) -> bool {
        self.0.borrow().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
    pub fn get(&self) -> T {
        let v = self.take();
        vp::check(v.is_some(), "pending");
        v.unwrap()
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&T>) -> R) -> R {
        f(self.0.borrow().as_ref())
    }
}

impl<'a> World<'a> {
    pub fn new(rt: &'a Runtime, peer: Peer) -> World<'a> {
        World { rt, peer, outs: Vec::new(), raw: Vec::new(), max_frame: 0 }
    }
    pub fn start<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> Op<T> {
        Op::start(self.rt, f)
    }
    /// Runs everything that can run, flushing what is written.
    pub fn run(&mut self) {
        let mut n = 0;
        loop {
            settle(self.rt);
            let b = self.peer.take();
            if b.is_empty() {
                settle(self.rt);
                let b = self.peer.take();
                if b.is_empty() {
                    break;
                }
                self.raw.extend_from_slice(&b);
            } else {
                self.raw.extend_from_slice(&b);
            }
            n += 1;
            vp::check(n < 100, "world.spins");
        }
    }
    /// Raw bytes written since the last call.
    pub fn bytes(&mut self) -> Vec<u8> {
        self.run();
        std::mem::take(&mut self.raw)
    }
    /// Runs, then decodes the frames written.
    pub fn step(&mut self) {
        self.run();
        let codec = AmqpCodec::<AmqpFrame>::new();
        let mut at = 0;
        while self.raw.len() >= at + 8 {
            let r = &self.raw[at..];
            let n = vp::concretize(u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as u64) as usize;
            vp::check(n >= 8 && at + n <= self.raw.len(), "world.partial");
            let mut b = BytesMut::copy_from_slice(&r[..n]);
            let f = codec.decode(&mut b);
            vp::check(matches!(f, Ok(Some(_))), "world.decode");
            let (ch, f) = f.ok().unwrap().unwrap().into_parts();
            self.outs.push(Out { ch, f, len: n });
            at += n;
        }
        vp::check(at == self.raw.len(), "world.rest");
        self.raw.clear();
    }
    pub fn feed(&mut self, b: &[u8]) {
        self.peer.feed(b);
    }
    /// Feeds a frame and lets everything run.
    pub fn put(&mut self, b: &[u8]) {
        self.peer.feed(b);
        self.step();
    }
    pub fn outs(&mut self) -> Vec<Out> {
        self.step();
        std::mem::take(&mut self.outs)
    }
    pub fn transfers(&mut self) -> Vec<(u16, p::Transfer, usize)> {
        self.outs().into_iter().filter_map(|o| if let Frame::Transfer(t) = o.f { Some((o.ch, t, o.len)) } else { None }).collect()
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_frame: Option<u32>,
    pub channel_max: Option<u16>,
    pub idle: Option<u32>,
    pub local_channel_max: u16,
    pub local_max_frame: u32,
    pub local_idle: u16,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_frame: None, channel_max: None, idle: None, local_channel_max: 1024, local_max_frame: 65535, local_idle: 120 }
    }
}
pub fn shared(c: &Cfg) -> SharedCfg {
    SharedCfg::new("T")
        .add(
            AmqpServiceConfig::new()
                .set_channel_max(c.local_channel_max)
                .set_max_frame_size(c.local_max_frame)
                .set_idle_timeout(c.local_idle),
        )
        .into()
}

pub const AMQP: &[u8] = b"AMQP\0\x01\0\0";
pub const SASL: &[u8] = b"AMQP\x03\x01\0\0";

/// The library as client, the handshake done and the dispatcher running.
pub struct Cl<'a> {
    pub w: World<'a>,
    pub sink: ConnectionRef,
    pub disp: Op<bool>,
    pub ctl: Rc<RefCell<Vec<ControlFrame>>>,
    pub open: p::Open,
}
impl<'a> std::ops::Deref for Cl<'a> {
    type Target = World<'a>;
    fn deref(&self) -> &World<'a> {
        &self.w
    }
}
impl<'a> std::ops::DerefMut for Cl<'a> {
    fn deref_mut(&mut self) -> &mut World<'a> {
        &mut self.w
    }
}
pub fn client(rt: &Runtime, c: Cfg) -> Cl<'_> {
    client_with(rt, c, open(c.max_frame, c.channel_max, c.idle))
}
pub fn client_with(rt: &Runtime, c: Cfg, openf: Vec<u8>) -> Cl<'_> {
    let cfg = shared(&c);
    let (io, peer) = pipe(cfg.clone());
    let mut w = World::new(rt, peer);
    let t: Op<Option<Client>> = w.start(async move {
        let s = Connector::<&'static str>::new().create(cfg).await.ok()?;
        s.negotiate(io, None).await.ok()
    });
    vp::check(w.bytes() == AMQP, "handshake.header");
    w.put(AMQP);
    w.feed(&openf);
    let o = w.outs();
    vp::check(o.len() == 1, "handshake.open");
    let opn = o.into_iter().find_map(|o| if let Frame::Open(o) = o.f { Some(o) } else { None });
    vp::check(opn.is_some(), "handshake.open");
    let cl = t.get();
    vp::check(cl.is_some(), "handshake.failed");
    let cl = cl.unwrap();
    let sink = cl.sink();
    let ctl = Rc::new(RefCell::new(Vec::new()));
    let c2 = ctl.clone();
    let disp = w.start(async move {
        let r = cl
            .start(fn_service(move |f: ControlFrame| {
                c2.borrow_mut().push(f);
                std::future::ready(Ok::<_, error::LinkError>(()))
            }))
            .await;
        r.is_ok()
    });
    w.step();
    Cl { w, sink, disp, ctl, open: opn.unwrap() }
}
impl<'a> Cl<'a> {
    /// Opens a session; the peer answers on its channel `ch`.
    pub fn session(&mut self, ch: u16, inw: u32) -> Session {
        self.session_with(ch, 1, inw)
    }
    pub fn session_with(&mut self, ch: u16, next_out: u32, inw: u32) -> Session {
        let s = self.sink.open_session();
        let t = self.start(async move { s.attach().await });
        let o = self.outs();
        vp::check(o.len() == 1 && matches!(o[0].f, Frame::Begin(_)), "session.begin");
        self.put(&begin(ch, Some(o[0].ch), next_out, inw, 1 << 30));
        let s = t.get();
        vp::check(s.is_ok(), "session.open");
        s.ok().unwrap()
    }
    /// Attaches a sender; the peer answers with `handle`.
    pub fn sender(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> SenderLink {
        let b = s.build_sender_link(name, "addr");
        let t = self.start(async move { b.attach().await });
        let o = self.outs();
        vp::check(o.len() == 1 && matches!(o[0].f, Frame::Attach(_)), "sender.attach");
        self.put(&attach(ch, name, handle, RECEIVER, dc, "", "addr"));
        let l = t.get();
        vp::check(l.is_ok(), "sender.open");
        l.ok().unwrap()
    }
    pub fn receiver(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> ReceiverLink {
        let b = s.build_receiver_link(name, "addr");
        let t = self.start(async move { b.attach().await });
        let o = self.outs();
        vp::check(o.len() == 1 && matches!(o[0].f, Frame::Attach(_)), "receiver.attach");
        self.put(&attach(ch, name, handle, SENDER, dc, "addr", ""));
        let l = t.get();
        vp::check(l.is_ok(), "receiver.open");
        l.ok().unwrap()
    }
    /// Starts a send of `body`.
    pub fn send(&mut self, l: &SenderLink, body: &[u8]) -> Op<Result<Delivery, error::AmqpProtocolError>> {
        let b = l.transfer(p::TransferBody::Data(ntex_bytes::Bytes::copy_from_slice(body)));
        self.start(async move { b.send().await })
    }
    pub fn flow(&mut self, ch: u16, f: FlowF) {
        self.put(&flow(ch, f));
    }
}

/// The library as server.
pub struct Sv<'a> {
    pub w: World<'a>,
    pub sink: ConnectionRef,
    pub done: Op<bool>,
    pub ctl: Rc<RefCell<Vec<ControlFrame>>>,
    pub seen: Rc<RefCell<Seen>>,
    pub open: p::Open,
}
#[derive(Default)]
pub struct Seen {
    pub attached: Vec<ReceiverLink>,
    pub detached: Vec<ReceiverLink>,
    pub detached_all: usize,
    /// one entry per complete delivery announced to the application
    pub transfers: Vec<ReceiverLink>,
}
impl<'a> std::ops::Deref for Sv<'a> {
    type Target = World<'a>;
    fn deref(&self) -> &World<'a> {
        &self.w
    }
}
impl<'a> std::ops::DerefMut for Sv<'a> {
    fn deref_mut(&mut self) -> &mut World<'a> {
        &mut self.w
    }
}
pub fn server(rt: &Runtime, c: Cfg) -> Sv<'_> {
    let cfg = shared(&c);
    let (io, peer) = pipe(cfg.clone());
    let mut w = World::new(rt, peer);
    let ctl = Rc::new(RefCell::new(Vec::new()));
    let seen = Rc::new(RefCell::new(Seen::default()));
    let sink: Rc<RefCell<Option<ConnectionRef>>> = Rc::default();
    let (c2, s2, k2) = (ctl.clone(), seen.clone(), sink.clone());
    let done = w.start(async move {
        let srv = ntex_amqp::server::Server::build(move |h: ntex_amqp::server::Handshake| {
            let k2 = k2.clone();
            async move {
                match h {
                    ntex_amqp::server::Handshake::Amqp(h) => {
                        let h = h.open().await.map_err(|_| ())?;
                        *k2.borrow_mut() = Some(h.sink().get_ref());
                        Ok::<_, ()>(h.ack(()))
                    }
                    _ => Err(()),
                }
            }
        })
        .control(move |f: ControlFrame| {
            c2.borrow_mut().push(f);
            std::future::ready(Ok::<_, error::LinkError>(()))
        })
        .finish(move |m: types::Message| {
            let mut s = s2.borrow_mut();
            match m {
                types::Message::Attached(_, l) => s.attached.push(l),
                types::Message::Detached(l) => s.detached.push(l),
                types::Message::DetachedAll(l) => s.detached_all += l.len(),
                types::Message::Transfer(l) => s.transfers.push(l),
            }
            std::future::ready(Ok::<_, error::LinkError>(()))
        });
        let s = ServiceFactory::<ntex_io::IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.ok().unwrap();
        s.call(io).await.is_ok()
    });
    w.feed(AMQP);
    vp::check(w.bytes() == AMQP, "handshake.header");
    w.feed(&open(c.max_frame, c.channel_max, c.idle));
    let o = w.outs();
    vp::check(o.len() == 1, "handshake.open");
    let opn = o.into_iter().find_map(|o| if let Frame::Open(o) = o.f { Some(o) } else { None });
    vp::check(opn.is_some() && sink.borrow().is_some(), "handshake.open");
    let sink = sink.borrow_mut().take().unwrap();
    Sv { w, sink, done, ctl, seen, open: opn.unwrap() }
}
impl<'a> Sv<'a> {
    /// The peer begins a session on its channel `ch`; gives the library's session.
    pub fn session(&mut self, ch: u16, next_out: u32, inw: u32) -> Session {
        self.put(&begin(ch, None, next_out, inw, 1 << 30));
        let o = self.outs();
        vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Begin(b) if b.remote_channel() == Some(ch)), "session.begin");
        let s = self.sink.get_session_by_local_id(o[0].ch);
        vp::check(s.is_some(), "session.open");
        s.unwrap()
    }
    /// The peer attaches a receiver: the library gets a sender link.
    pub fn sender(&mut self, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> SenderLink {
        self.put(&attach(ch, name, handle, RECEIVER, dc, name, "t"));
        let o = self.outs();
        vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Attach(_)), "sender.attach");
        let l = self.ctl.borrow().iter().rev().find_map(|c| if let ControlFrameKind::AttachSender(_, _, l) = c.kind() { Some(l.clone()) } else { None });
        vp::check(l.is_some(), "sender.open");
        l.unwrap()
    }
    /// The peer attaches a sender: the library gets a receiver link.
    pub fn receiver(&mut self, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> ReceiverLink {
        let n = self.seen.borrow().attached.len();
        self.put(&attach(ch, name, handle, SENDER, dc, "s", name));
        let o = self.outs();
        vp::check(o.len() == 2 && matches!(&o[0].f, Frame::Attach(_)) && matches!(&o[1].f, Frame::Flow(_)), "receiver.attach");
        vp::check(self.seen.borrow().attached.len() == n + 1, "receiver.open");
        let l = self.seen.borrow().attached[n].clone();
        l
    }
    pub fn send(&mut self, l: &SenderLink, body: &[u8]) -> Op<Result<Delivery, error::AmqpProtocolError>> {
        let b = l.transfer(p::TransferBody::Data(ntex_bytes::Bytes::copy_from_slice(body)));
        self.start(async move { b.send().await })
    }
}

pub type Sent = Op<Result<Delivery, error::AmqpProtocolError>>;

/// Either side's connection with one sender link on channel 0, peer handle 5.
pub enum Side<'a> {
    C(Cl<'a>),
    S(Sv<'a>),
}
impl<'a> Side<'a> {
    pub fn w(&mut self) -> &mut World<'a> {
        match self {
            Side::C(c) => &mut c.w,
            Side::S(s) => &mut s.w,
        }
    }
}

impl<'a> Side<'a> {
    pub fn new(rt: &'a Runtime, server_side: bool, c: Cfg) -> Side<'a> {
        if server_side { Side::S(server(rt, c)) } else { Side::C(client(rt, c)) }
    }
    pub fn session(&mut self, ch: u16, next_out: u32, inw: u32) -> Session {
        match self {
            Side::C(c) => c.session_with(ch, next_out, inw),
            Side::S(s) => s.session(ch, next_out, inw),
        }
    }
    /// A sender link of the library; the peer's handle is `handle`.
    pub fn sender(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> SenderLink {
        match self {
            Side::C(c) => c.sender(s, ch, name, handle, dc),
            Side::S(x) => x.sender(ch, name, handle, dc),
        }
    }
    pub fn receiver(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> ReceiverLink {
        match self {
            Side::C(c) => c.receiver(s, ch, name, handle, dc),
            Side::S(x) => x.receiver(ch, name, handle, dc),
        }
    }
    pub fn sink(&self) -> ConnectionRef {
        match self {
            Side::C(c) => c.sink.clone(),
            Side::S(s) => s.sink.clone(),
        }
    }
    pub fn ctl(&self) -> Rc<RefCell<Vec<ControlFrame>>> {
        match self {
            Side::C(c) => c.ctl.clone(),
            Side::S(s) => s.ctl.clone(),
        }
    }
    pub fn ended(&self) -> Op<bool> {
        match self {
            Side::C(c) => c.disp.clone(),
            Side::S(s) => s.done.clone(),
        }
    }
}
impl<'a> std::ops::Deref for Side<'a> {
    type Target = World<'a>;
    fn deref(&self) -> &World<'a> {
        match self {
            Side::C(c) => &c.w,
            Side::S(s) => &s.w,
        }
    }
}
impl<'a> std::ops::DerefMut for Side<'a> {
    fn deref_mut(&mut self) -> &mut World<'a> {
        self.w()
    }
}

pub fn body(t: &ntex_amqp::codec::protocol::Transfer) -> Vec<u8> {
    match t.body() {
        Some(p::TransferBody::Data(d)) => d.to_vec(),
        _ => Vec::new(),
    }
}
pub fn start_send(w: &World<'_>, l: &SenderLink, b: &[u8]) -> Sent {
    let b = l.transfer(p::TransferBody::Data(ntex_bytes::Bytes::copy_from_slice(b)));
    w.start(async move { b.send().await })
}


/// What the peer reassembles from the transfer frames of one session.
#[derive(Default)]
pub struct Rx {
    /// by local handle of the link: complete deliveries (id, tag, body)
    pub done: Vec<(u32, u32, Vec<u8>, Vec<u8>)>,
    part: Vec<(u32, u32, Vec<u8>, Vec<u8>)>,
    pub frames: u32,
    last_id: Option<u32>,
    tags: Vec<(u32, Vec<u8>)>,
}
impl Rx {
    /// Takes the next transfer frame, checking ids, tags and flags.
    pub fn add(&mut self, t: &p::Transfer) {
        self.frames += 1;
        let h = t.handle();
        let b = body(t);
        let id = t.delivery_id();
        if let Some(i) = self.part.iter().position(|x| x.0 == h) {
            let p = &mut self.part[i];
            vp::check(id.is_none_or(|v| v == p.1), "rx.continuation_id");
            vp::check(t.delivery_tag().is_none_or(|v| v[..] == p.2[..]), "rx.continuation_tag");
            p.3.extend_from_slice(&b);
            if !t.more() {
                let p = self.part.remove(i);
                self.done.push(p);
            }
        } else {
            vp::check(id.is_some(), "rx.no_id");
            vp::check(t.delivery_tag().is_some(), "rx.no_tag");
            let id = id.unwrap();
            let tag = t.delivery_tag().unwrap().to_vec();
            if let Some(l) = self.last_id {
                vp::check(id == l.wrapping_add(1), "rx.id_sequence");
            }
            self.last_id = Some(id);
            vp::check(tag.len() <= 32, "rx.tag_length");
            vp::check(!self.tags.iter().any(|x| x.0 == h && x.1 == tag), "rx.tag_repeated");
            self.tags.push((h, tag.clone()));
            if t.more() {
                self.part.push((h, id, tag, b));
            } else {
                self.done.push((h, id, tag, b));
            }
        }
    }
    pub fn bodies(&self, h: u32) -> Vec<&[u8]> {
        self.done.iter().filter(|x| x.0 == h).map(|x| &x.3[..]).collect()
    }
}
