//! The peer of a connection of the library, over an in-memory transport.
#![allow(dead_code)]
use crate::wire::*;
use ntex::io::{Io, IoBoxed};
use ntex::service::{Pipeline, fn_service};
use ntex::testing::IoTest;
use ntex::time::{Millis, sleep};
use ntex::{ServiceFactory, SharedCfg};
use ntex_amqp::client::Connector;
use ntex_amqp::codec::protocol::{self as p, Frame};
use ntex_amqp::codec::{AmqpCodec, AmqpFrame};
use ntex_amqp::*;
use ntex_bytes::BytesMut;
use ntex_codec::Decoder;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::rc::Rc;

pub const AMQP: &[u8] = b"AMQP\0\x01\0\0";
pub const SASL: &[u8] = b"AMQP\x03\x01\0\0";

pub struct Peer {
    pub io: IoTest,
    buf: BytesMut,
    pub ended: Rc<Cell<Option<bool>>>,
}
/// The result of something started.
pub struct Op<T>(Rc<RefCell<Option<T>>>);
impl<T: 'static> Op<T> {
    pub fn start(f: impl Future<Output = T> + 'static) -> Op<T> {
        let o = Rc::new(RefCell::new(None));
        let o2 = o.clone();
        ntex::rt::spawn(async move {
            let v = f.await;
            *o2.borrow_mut() = Some(v);
        });
        Op(o)
    }
    pub fn done(&self) -> bool {
        self.0.borrow().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
}
pub async fn pause() {
    sleep(Millis(40)).await;
}
impl Peer {
    pub fn new() -> (IoTest, Peer) {
        let (a, b) = IoTest::create();
        a.remote_buffer_cap(1 << 24);
        b.remote_buffer_cap(1 << 24);
        (a, Peer { io: b, buf: BytesMut::new(), ended: Rc::default() })
    }
    pub fn feed(&self, b: &[u8]) {
        self.io.write(b);
    }
    pub async fn bytes(&mut self) -> Vec<u8> {
        pause().await;
        self.io.read_any().to_vec()
    }
    /// Everything the library has written since the last call.
    pub async fn outs(&mut self) -> Vec<(u16, Frame)> {
        pause().await;
        self.buf.extend_from_slice(&self.io.read_any());
        let codec = AmqpCodec::<AmqpFrame>::new();
        let mut v = Vec::new();
        while let Some(f) = codec.decode(&mut self.buf).expect("frames of the library") {
            v.push(f.into_parts());
        }
        v
    }
    pub async fn put(&mut self, b: &[u8]) -> Vec<(u16, Frame)> {
        self.feed(b);
        self.outs().await
    }
}
pub fn cfg() -> AmqpServiceConfig {
    AmqpServiceConfig::new()
}

pub struct Cl {
    pub sink: ConnectionRef,
    pub peer: Peer,
    pub open: Frame,
    pub ctl: Rc<RefCell<Vec<ControlFrame>>>,
}
/// The library as client; the peer opens with `openf`.
pub async fn client(c: AmqpServiceConfig, openf: Vec<u8>) -> Cl {
    let cfg: SharedCfg = SharedCfg::new("T").add(c).into();
    let (io, mut peer) = Peer::new();
    let io = IoBoxed::from(Io::new(io, cfg.clone()));
    let t = Op::start(async move {
        let s = Connector::<&'static str>::new().create(cfg).await.unwrap();
        s.negotiate(io, None).await.unwrap()
    });
    assert_eq!(peer.bytes().await, AMQP);
    peer.feed(AMQP);
    let o = peer.outs().await.remove(0).1;
    peer.feed(&openf);
    pause().await;
    let cl = t.take().expect("connected");
    let sink = cl.sink();
    let ctl = Rc::new(RefCell::new(Vec::new()));
    let (c2, e2) = (ctl.clone(), peer.ended.clone());
    ntex::rt::spawn(async move {
        let r = cl
            .start(fn_service(move |f: ControlFrame| {
                c2.borrow_mut().push(f);
                std::future::ready(Ok::<_, error::LinkError>(()))
            }))
            .await;
        e2.set(Some(r.is_ok()));
    });
    pause().await;
    Cl { sink, peer, open: o, ctl }
}
pub async fn client0() -> Cl {
    client(cfg(), open(None, None, None)).await
}
impl Cl {
    pub async fn session(&mut self, ch: u16, inw: u32) -> Session {
        let s = self.sink.open_session();
        let t = Op::start(async move { s.attach().await });
        let o = self.peer.outs().await;
        self.peer.put(&begin(ch, Some(o[0].0), 1, inw, 1 << 30)).await;
        t.take().expect("begun").unwrap()
    }
    pub async fn sender(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32) -> SenderLink {
        let b = s.build_sender_link(name, "addr");
        let t = Op::start(async move { b.attach().await });
        self.peer.outs().await;
        self.peer.put(&attach(ch, name, handle, RECEIVER, Some(0), "", "addr")).await;
        t.take().expect("attached").unwrap()
    }
    pub async fn receiver(&mut self, s: &Session, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> ReceiverLink {
        let b = s.build_receiver_link(name, "addr");
        let t = Op::start(async move { b.attach().await });
        self.peer.outs().await;
        self.peer.put(&attach(ch, name, handle, SENDER, dc, "addr", "")).await;
        t.take().expect("attached").unwrap()
    }
}

#[derive(Default)]
pub struct Seen {
    pub attached: Vec<ReceiverLink>,
    pub detached: usize,
    pub transfers: Vec<ReceiverLink>,
}
pub struct Sv {
    pub sink: ConnectionRef,
    pub peer: Peer,
    pub open: Frame,
    pub ctl: Rc<RefCell<Vec<ControlFrame>>>,
    pub seen: Rc<RefCell<Seen>>,
}
/// The library as server.
pub async fn server(c: AmqpServiceConfig, openf: Vec<u8>) -> Sv {
    let cfg: SharedCfg = SharedCfg::new("T").add(c).into();
    let (io, mut peer) = Peer::new();
    let io = IoBoxed::from(Io::new(io, cfg.clone()));
    let sink = Rc::new(RefCell::new(None));
    let ctl = Rc::new(RefCell::new(Vec::new()));
    let seen = Rc::new(RefCell::new(Seen::default()));
    let (k2, c2, s2, e2) = (sink.clone(), ctl.clone(), seen.clone(), peer.ended.clone());
    ntex::rt::spawn(async move {
        let srv = ntex_amqp::server::Server::build(move |h: ntex_amqp::server::Handshake| {
            let k2 = k2.clone();
            async move {
                match h {
                    ntex_amqp::server::Handshake::Amqp(h) => {
                        let h = h.open().await.map_err(|_| ())?;
                        *k2.borrow_mut() = Some(h.sink().get_ref());
                        Ok::<_, ()>(h.ack(()))
                    }
                    _ => Err(()),
                }
            }
        })
        .control(move |f: ControlFrame| {
            c2.borrow_mut().push(f);
            std::future::ready(Ok::<_, error::LinkError>(()))
        })
        .finish(move |m: types::Message| {
            let mut s = s2.borrow_mut();
            match m {
                types::Message::Attached(_, l) => s.attached.push(l),
                types::Message::Detached(_) => s.detached += 1,
                types::Message::DetachedAll(l) => s.detached += l.len(),
                types::Message::Transfer(l) => s.transfers.push(l),
            }
            std::future::ready(Ok::<_, error::LinkError>(()))
        });
        let s: Pipeline<_> = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.unwrap();
        let r = s.call(io).await;
        e2.set(Some(r.is_ok()));
    });
    peer.feed(AMQP);
    assert_eq!(peer.bytes().await, AMQP);
    let o = peer.put(&openf).await.remove(0).1;
    let sink = sink.borrow_mut().take().expect("opened");
    Sv { sink, peer, open: o, ctl, seen }
}
pub async fn server0() -> Sv {
    server(cfg(), open(None, None, None)).await
}
impl Sv {
    pub async fn session(&mut self, ch: u16, next_out: u32, inw: u32) -> Session {
        let o = self.peer.put(&begin(ch, None, next_out, inw, 1 << 30)).await;
        self.sink.get_session_by_local_id(o[0].0).expect("session")
    }
    /// The peer attaches a receiver: the library gets a sender link.
    pub async fn sender(&mut self, ch: u16, name: &'static str, handle: u32) -> SenderLink {
        self.peer.put(&attach(ch, name, handle, RECEIVER, None, name, "t")).await;
        let l = self.ctl.borrow().iter().rev().find_map(|c| if let ControlFrameKind::AttachSender(_, _, l) = c.kind() { Some(l.clone()) } else { None });
        l.expect("attached")
    }
    pub async fn receiver(&mut self, ch: u16, name: &'static str, handle: u32, dc: Option<u32>) -> ReceiverLink {
        self.peer.put(&attach(ch, name, handle, SENDER, dc, "s", name)).await;
        self.seen.borrow().attached.last().expect("attached").clone()
    }
}
pub fn send(l: &SenderLink, b: &[u8]) -> Op<Result<Delivery, error::AmqpProtocolError>> {
    let b = l.transfer(p::TransferBody::Data(ntex_bytes::Bytes::copy_from_slice(b)));
    Op::start(async move { b.send().await })
}
pub fn transfers(o: &[(u16, Frame)]) -> Vec<p::Transfer> {
    o.iter().filter_map(|(_, f)| if let Frame::Transfer(t) = f { Some(t.clone()) } else { None }).collect()
}
pub fn data(t: &p::Transfer) -> Vec<u8> {
    match t.body() {
        Some(p::TransferBody::Data(d)) => d.to_vec(),
        _ => Vec::new(),
    }
}
