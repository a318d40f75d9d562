//! S14: the SASL exchange, as server and as client.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::client::{ConnectError, Connector, SaslAuth};
use ntex_amqp::codec::protocol::{Frame, SaslCode, SaslFrameBody};
use ntex_amqp::codec::{AmqpCodec, AmqpFrame, SaslFrame};
use ntex_amqp::server::{Handshake, HandshakeError, Server};
use ntex_amqp::*;
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::Decoder;
use ntex_service::cfg::SharedCfg;
use ntex_service::{Service, ServiceFactory};
use std::cell::RefCell;
use std::rc::Rc;

/// What the library wrote.
enum Tok {
    Hdr(Vec<u8>),
    Sasl(SaslFrameBody),
    Amqp(Frame),
}
fn toks(b: &[u8]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut at = 0;
    while at < b.len() {
        let r = &b[at..];
        vp::check(r.len() >= 8, "sasl.partial");
        if &r[..4] == b"AMQP" {
            v.push(Tok::Hdr(r[..8].to_vec()));
            at += 8;
            continue;
        }
        let n = vp::concretize(u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as u64) as usize;
        vp::check(n >= 8 && n <= r.len(), "sasl.partial");
        let mut x = BytesMut::copy_from_slice(&r[..n]);
        if r[5] == 1 {
            let f = AmqpCodec::<SaslFrame>::new().decode(&mut x);
            vp::check(matches!(f, Ok(Some(_))), "sasl.decode");
            v.push(Tok::Sasl(f.ok().unwrap().unwrap().body));
        } else {
            let f = AmqpCodec::<AmqpFrame>::new().decode(&mut x);
            vp::check(matches!(f, Ok(Some(_))), "sasl.decode");
            v.push(Tok::Amqp(f.ok().unwrap().unwrap().into_parts().1));
        }
        at += n;
    }
    v
}
fn sframe(code: u8, l: L) -> Vec<u8> {
    frame(1, 0, code, l, &[])
}
const CODES: [SaslCode; 5] = [SaslCode::Ok, SaslCode::Auth, SaslCode::Sys, SaslCode::SysPerm, SaslCode::SysTemp];

/// What the peer sends next, and what is in it.
struct Item {
    kind: usize,
    b: Vec<u8>,
    x: [u8; 2],
    y: [u8; 2],
}
const HDR: usize = 0;
const INIT: usize = 1;
const RESP: usize = 2;
const MECH: usize = 3;
const CHAL: usize = 4;
const OUTC: usize = 5;
const OPEN: usize = 6;
const BEGIN: usize = 7;
/// a frame of the right kind with another frame type
const TYPE: usize = 8;

fn item(right: usize, hdr: bool) -> Item {
    let kind = vp::choose(9) as usize;
    let mut x = vp::arr::<2>();
    let y = vp::arr::<2>();
    let mech = |x: [u8; 2]| {
        vp::assume(x[0] < 128 && x[1] < 128);
        L::new().sym(std::str::from_utf8(&x).unwrap())
    };
    let build = |k: usize, x: [u8; 2]| match k {
        INIT => sframe(0x41, mech(x).bin(&y).null()),
        RESP => sframe(0x43, L::new().bin(&x)),
        MECH => sframe(0x40, mech(x)),
        CHAL => sframe(0x42, L::new().bin(&x)),
        OUTC => sframe(0x44, L::new().ubyte(x[0]).null()),
        OPEN => open(None, None, None),
        _ => begin(0, None, 1, 9, 9),
    };
    let b = if kind == HDR {
        if hdr {
            // any eight bytes
            let h = vp::arr::<8>();
            x = if h == AMQP { [1, 0] } else if h == SASL { [3, 0] } else { [0, 0] };
            h.to_vec()
        } else {
            let h = vp::arr::<4>();
            [&b"AMQP"[..], &h[..]].concat()
        }
    } else if kind == TYPE {
        vp::assume(right != HDR);
        let mut b = build(right, x);
        let t = vp::u8();
        vp::assume(t != b[5]);
        b[5] = t;
        b
    } else {
        build(kind, x)
    };
    Item { kind, b, x, y }
}

#[derive(Default)]
struct App {
    mech: Option<(Vec<u8>, Option<Vec<u8>>)>,
    resp: Option<Vec<u8>>,
    code: Option<SaslCode>,
    opened: bool,
}

#[derive(PartialEq, Clone, Copy)]
enum St {
    Start,
    Init,
    Resp,
    Hdr2,
    Open,
    Opened,
    Ended,
    /// a header where a frame belongs is the start of a frame of 1 GB
    Stuck,
}

/// param: 1 the application sends a challenge, 2 everything in one read, 4 it takes plain connections
pub fn h_s14_server() {
    run(|rt| {
        let p = vp::param();
        let (chal, batch, plain) = (p & 1 != 0, p & 2 != 0, p & 4 != 0);
        let code = CODES[vp::choose(5) as usize];
        let chb = vp::arr::<2>();
        let cfg = shared(&Cfg::default());
        let (io, peer) = pipe(cfg.clone());
        let mut w = World::new(rt, peer);
        let app = Rc::new(RefCell::new(App::default()));
        let started = Rc::new(RefCell::new(0));
        let (a2, st2) = (app.clone(), started.clone());
        let done = w.start(async move {
            let srv = Server::build(move |h: Handshake| {
                let app = a2.clone();
                let f = async move {
                    match h {
                        Handshake::Amqp(h) if plain => {
                            let h = h.open().await?;
                            app.borrow_mut().opened = true;
                            Ok::<_, HandshakeError>(h.ack(()))
                        }
                        Handshake::Amqp(_) => Err(HandshakeError::Timeout),
                        Handshake::Sasl(s) => {
                            let i = s.mechanism("M1").mechanism("M2").init().await?;
                            app.borrow_mut().mech = Some((i.mechanism().as_bytes().to_vec(), i.initial_response().map(|x| x.to_vec())));
                            let r = if chal {
                                let r = i.challenge_with(Bytes::copy_from_slice(&chb)).await?;
                                app.borrow_mut().resp = Some(r.response().to_vec());
                                r.outcome(code).await
                            } else {
                                i.outcome(code).await
                            };
                            if let Err(HandshakeError::Sasl(c)) = &r {
                                app.borrow_mut().code = Some(*c);
                            }
                            let h = r?.open().await?;
                            app.borrow_mut().opened = true;
                            Ok(h.ack(()))
                        }
                    }
                };
                async move { f.await.map_err(|_| ()) }
            })
            .control(|_: ControlFrame| std::future::ready(Ok::<_, error::LinkError>(())))
            .finish(move |_: types::Message| {
                *st2.borrow_mut() += 1;
                std::future::ready(Ok::<_, error::LinkError>(()))
            });
            let s = ServiceFactory::<ntex_io::IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.ok().unwrap();
            s.call(io).await.is_ok()
        });
        vp::check(w.bytes().is_empty(), "sasl.early");

        let mut st = St::Start;
        let mut want: Vec<usize> = Vec::new();
        let mut got: Vec<Tok> = Vec::new();
        let (mut mech, mut resp) = (None, None);
        let mut feed = Vec::new();
        let mut outcome = false;
        for _ in 0..6 {
            let right = match st {
                St::Init => INIT,
                St::Resp => RESP,
                St::Open => OPEN,
                _ => HDR,
            };
            let it = item(right, matches!(st, St::Start | St::Hdr2));
            let ok = it.kind == right;
            st = match st {
                St::Start if ok && it.x[0] == 3 => {
                    want.extend([HDR + 100, MECH]);
                    St::Init
                }
                St::Start if ok && it.x[0] == 1 => {
                    want.push(HDR);
                    if plain { St::Open } else { St::Ended }
                }
                St::Init if ok => {
                    mech = Some((it.x.to_vec(), Some(it.y.to_vec())));
                    want.push(if chal { CHAL } else { OUTC });
                    if chal {
                        St::Resp
                    } else {
                        outcome = true;
                        if code == SaslCode::Ok { St::Hdr2 } else { St::Ended }
                    }
                }
                St::Resp if ok => {
                    resp = Some(it.x.to_vec());
                    want.push(OUTC);
                    outcome = true;
                    if code == SaslCode::Ok { St::Hdr2 } else { St::Ended }
                }
                St::Hdr2 if ok && it.x[0] == 1 => {
                    want.push(HDR);
                    St::Open
                }
                St::Open if ok => {
                    want.push(OPEN);
                    St::Opened
                }
                St::Init | St::Resp | St::Open if it.kind == HDR => St::Stuck,
                _ => St::Ended,
            };
            let last = matches!(st, St::Opened | St::Ended | St::Stuck);
            if batch {
                feed.extend_from_slice(&it.b);
            } else {
                w.feed(&it.b);
            }
            if batch && !last {
                continue;
            }
            if batch {
                w.feed(&feed);
            }
            got.extend(toks(&w.bytes()));
            vp::check(got.len() == want.len(), "sasl.answers");
            vp::check(app.borrow().opened == (st == St::Opened), "sasl.access");
            vp::check(done.done() == (st == St::Ended), "sasl.ended");
            if last {
                break;
            }
        }
        if st == St::Stuck {
            // nothing that follows is an open
            w.feed(&open(None, None, None));
            vp::check(w.bytes().is_empty() && !app.borrow().opened, "sasl.access");
        }
        if st == St::Ended {
            vp::check(done.take() == Some(false), "sasl.result");
            vp::check(w.peer.closed() || w.peer.stopped, "sasl.closed");
        }
        for (g, x) in got.iter().zip(&want) {
            vp::check(
                match (g, *x) {
                    (Tok::Hdr(h), 100) => h == SASL,
                    (Tok::Hdr(h), HDR) => h == AMQP,
                    (Tok::Sasl(SaslFrameBody::SaslMechanisms(m)), MECH) => {
                        let m: Vec<_> = m.sasl_server_mechanisms().0.iter().map(|s| s.as_str()).collect();
                        m == ["M1", "M2"]
                    }
                    (Tok::Sasl(SaslFrameBody::SaslChallenge(c)), CHAL) => c.challenge()[..] == chb,
                    (Tok::Sasl(SaslFrameBody::SaslOutcome(o)), OUTC) => o.code() == code,
                    (Tok::Amqp(Frame::Open(_)), OPEN) => true,
                    _ => false,
                },
                "sasl.order",
            );
        }
        let a = app.borrow();
        vp::check(a.mech == mech, "sasl.init");
        vp::check(a.resp == resp, "sasl.response");
        vp::check(a.code == if outcome && code != SaslCode::Ok { Some(code) } else { None }, "sasl.code");
        vp::check(*started.borrow() == 0, "sasl.app");
        if st == St::Opened {
            vp::cover("opened");
        }
    });
}

/// param: 2 everything in one read
pub fn h_s14_client() {
    run(|rt| {
        let batch = vp::param() & 2 != 0;
        let (u, pw) = (vp::arr::<2>(), vp::arr::<2>());
        vp::assume(u[0] < 128 && u[1] < 128 && pw[0] < 128 && pw[1] < 128);
        let s = |x: &[u8]| ByteString::try_from(Bytes::copy_from_slice(x)).unwrap();
        let auth = SaslAuth { authz_id: s(b"z"), authn_id: s(&u), password: s(&pw) };
        let cfg = shared(&Cfg::default());
        let (io, peer) = pipe(cfg.clone());
        let mut w = World::new(rt, peer);
        let t = w.start(async move {
            let s = Connector::<&'static str>::new().create(cfg).await.ok().unwrap();
            s.negotiate_sasl(io, auth, None).await.map_err(|e| if let ConnectError::Sasl(c) = &*e { Some(*c) } else { None })
        });
        let mut got = toks(&w.bytes());
        let mut want = vec![HDR + 100];
        // 0 header, 1 mechanisms, 2 outcome, 3 header, 4 open
        let mut st = 0;
        let mut feed = Vec::new();
        let mut code = None;
        let (mut end, mut stuck) = (false, false);
        while st < 5 && !end && !stuck {
            let right = [HDR, MECH, OUTC, HDR, OPEN][st];
            let it = item(right, right == HDR);
            let mut ok = it.kind == right;
            if ok && right == HDR {
                ok = it.x[0] == if st == 0 { 3 } else { 1 };
            }
            if ok && st == 2 && it.x[0] != 0 {
                ok = false;
                if it.x[0] < 5 {
                    code = Some(CODES[vp::concretize(it.x[0] as u64) as usize]);
                }
            }
            // (too large a frame once the limit holds)
            stuck = !ok && it.kind == HDR && right != HDR && st < 4;
            end = !ok && !stuck;
            if ok {
                match st {
                    1 => want.push(INIT),
                    2 => want.push(HDR),
                    3 => want.push(OPEN),
                    _ => (),
                }
                st += 1;
            }
            if batch {
                feed.extend_from_slice(&it.b);
            } else {
                w.feed(&it.b);
            }
            if batch {
                if st < 5 && !end && !stuck {
                    continue;
                }
                w.feed(&feed);
            }
            got.extend(toks(&w.bytes()));
            vp::check(got.len() == want.len(), "sasl.answers");
            vp::check(t.done() == (end || st == 5), "sasl.ended");
        }
        for (g, x) in got.iter().zip(&want) {
            vp::check(
                match (g, *x) {
                    (Tok::Hdr(h), 100) => h == SASL,
                    (Tok::Hdr(h), HDR) => h == AMQP,
                    (Tok::Sasl(SaslFrameBody::SaslInit(i)), INIT) => {
                        let r = [&b"z\0"[..], &u[..], &[0], &pw[..]].concat();
                        i.mechanism().as_str() == "PLAIN" && i.initial_response().is_some_and(|x| x[..] == r[..])
                    }
                    (Tok::Amqp(Frame::Open(_)), OPEN) => true,
                    _ => false,
                },
                "sasl.order",
            );
        }
        if stuck {
            w.feed(&open(None, None, None));
            vp::check(w.bytes().is_empty() && !t.done(), "sasl.access");
            vp::stop();
        }
        match t.take() {
            Some(Ok(c)) => {
                vp::check(st == 5, "sasl.access");
                vp::cover("opened");
                std::mem::forget(c);
            }
            Some(Err(c)) => vp::check(end && c == code, "sasl.code"),
            None => vp::check(false, "sasl.ended"),
        }
    });
}
