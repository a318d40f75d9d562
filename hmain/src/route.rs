//! S17: the router.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, DeliveryState, Frame};
use ntex_amqp::server::{Handshake, Router, Server};
use ntex_amqp::types::{Link, Outcome};
use ntex_amqp::*;
use ntex_bytes::ByteString;
use ntex_service::cfg::SharedCfg;
use ntex_service::{fn_factory_with_config, fn_service, Service, ServiceFactory};
use std::cell::RefCell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Debug)]
struct Bad(bool);
fn err(s: &'static str) -> p::Error {
    p::Error::build().condition(p::ErrorCondition::AmqpError(p::AmqpError::IllegalState)).description(ByteString::from_static(s)).finish()
}
impl From<Bad> for p::Error {
    fn from(_: Bad) -> p::Error {
        err("from")
    }
}
impl TryFrom<Bad> for Outcome {
    type Error = p::Error;
    fn try_from(b: Bad) -> Result<Outcome, p::Error> {
        if b.0 { Ok(Outcome::Error(err("tried"))) } else { Err(err("failed")) }
    }
}

/// A call of a handler, or the creation of one.
struct Call {
    link: String,
    route: &'static str,
    var: Option<String>,
    body: Vec<u8>,
    go: Option<u8>,
    waker: Option<Waker>,
}
type Log = Rc<RefCell<Vec<Call>>>;
async fn gate(log: &Log, link: &str, route: &'static str, var: Option<String>, body: Vec<u8>) -> u8 {
    let n = log.borrow().len();
    log.borrow_mut().push(Call { link: link.into(), route, var, body, go: None, waker: None });
    let log = log.clone();
    poll_fn(move |cx| {
        let c = &mut log.borrow_mut()[n];
        match c.go {
            Some(v) => Poll::Ready(v),
            None => {
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}
fn go(log: &Log, n: usize, v: u8) {
    let w = {
        let c = &mut log.borrow_mut()[n];
        c.go = Some(v);
        c.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

macro_rules! handler {
    ($log:expr, $made:expr, $route:expr, $slow:expr) => {{
        let (log, made) = ($log.clone(), $made.clone());
        fn_factory_with_config(move |l: Link<u32>| {
            let (log, made) = (log.clone(), made.clone());
            async move {
                if $slow {
                    let v = gate(&made, l.receiver().name(), $route, None, Vec::new()).await;
                    if v != 0 {
                        return Err(LinkError::force_detach().description("no"));
                    }
                }
                vp::check(*l.state().get_ref() == 7, "route.state");
                let name = l.receiver().name().to_string();
                let var = l.path().get("v").map(|s| s.to_string());
                // the service keeps what it needs on the heap: freed memory would show
                let own = Box::new(name);
                Ok::<_, LinkError>(Keep { own, var, log, route: $route })
            }
        })
    }};
}
use error::LinkError;
struct Keep {
    own: Box<String>,
    var: Option<String>,
    log: Log,
    route: &'static str,
}
impl Service<p::Transfer> for Keep {
    type Response = Outcome;
    type Error = Bad;
    async fn call(&self, t: p::Transfer, _: ntex_service::ServiceCtx<'_, Self>) -> Result<Outcome, Bad> {
        let b = body(&t);
        let r = gate(&self.log, &self.own, self.route, self.var.clone(), b).await;
        // still there
        vp::check(self.own.len() == 1 && self.log.borrow().iter().any(|c| c.link == **self.own), "route.own");
        match r {
            0 => Ok(Outcome::Accept),
            1 => Ok(Outcome::Reject),
            2 => Ok(Outcome::Error(err("outcome"))),
            3 => Err(Bad(true)),
            _ => Err(Bad(false)),
        }
    }
}
impl From<Bad> for LinkError {
    fn from(_: Bad) -> LinkError {
        LinkError::force_detach()
    }
}

struct Rl {
    name: &'static str,
    handle: u32,
    /// accepts deliveries
    up: bool,
    target: usize,
}
const NAMES: [&str; 8] = ["1", "2", "3", "4", "5", "6", "7", "8"];
const TARGETS: [&str; 6] = ["a/x", "b", "slow", "zz", "", "a/y/z"];

struct Pend {
    link: usize,
    id: u32,
    settled: bool,
    call: usize,
}

/// param: links attached at first + 10 * steps
pub fn h_s17_route() {
    run(|rt| {
        let pr = vp::param();
        let cfg = shared(&Cfg::default());
        let (io, peer) = pipe(cfg.clone());
        let mut w = World::new(rt, peer);
        let log: Log = Rc::default();
        let made: Log = Rc::default();
        let (l2, m2) = (log.clone(), made.clone());
        let ended = w.start(async move {
            let srv = Server::build(move |h: Handshake| async move {
                match h {
                    Handshake::Amqp(h) => Ok::<_, ()>(h.open().await.map_err(|_| ())?.ack(7u32)),
                    _ => Err(()),
                }
            })
            .finish(
                Router::<u32>::builder()
                    .service("a/{v}", handler!(l2, m2, "a", false))
                    .service("b", handler!(l2, m2, "b", false))
                    .service("slow", handler!(l2, m2, "slow", true))
                    .build(),
            );
            let s = ServiceFactory::<ntex_io::IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.ok().unwrap();
            s.call(io).await.is_ok()
        });
        w.feed(AMQP);
        let _ = w.bytes();
        w.feed(&open(None, None, None));
        let mut id = vp::u32();
        w.put(&begin(3, None, id, 1 << 30, 1 << 30));
        let _ = w.outs();

        let mut links: Vec<Rl> = Vec::new();
        let mut pend: Vec<Pend> = Vec::new();
        
        let mut over = false;
        for step in 0..pr % 10 + pr / 10 % 10 {
            if over {
                break;
            }
            let first = step < pr % 10;
            let ev = if first { 0 } else { vp::choose(6) };
            match ev {
                0 => {
                    let i = links.len();
                    if i == NAMES.len() {
                        continue;
                    }
                    let handle = 10 + i as u32;
                    let target = if first { i % 2 } else { vp::choose(6) as usize };
                    let before = made.borrow().len();
                    let t = TARGETS[target];
                    if t.is_empty() {
                        let l = L::new().str(NAMES[i]).uint(handle).boolean(SENDER).null().null();
                        let l = l.desc(0x28, L::new().str("s")).desc(0x29, L::new()).null().null().uint(0);
                        w.put(&amqp(3, 0x12, l));
                    } else {
                        w.put(&attach(3, NAMES[i], handle, SENDER, Some(0), "s", t));
                    }
                    let o = w.outs();
                    let credit = o.iter().any(|o| matches!(&o.f, Frame::Flow(f) if f.link_credit().is_some_and(|c| c > 0)));
                    let refused = o.iter().any(|o| matches!(&o.f, Frame::Detach(d) if d.error().is_some()));
                    match target {
                        0 | 1 => vp::check(credit && !refused, "route.served"),
                        2 => vp::check(!credit && !refused && made.borrow().len() == before + 1, "route.creating"),
                        _ => vp::check(!credit && refused, "route.refused"),
                    }
                    links.push(Rl { name: NAMES[i], handle, up: target < 2, target });
                }
                // a delivery
                1 => {
                    let i = vp::choose(links.len().max(1) as _) as usize;
                    vp::assume(i < links.len() && links[i].up);
                    let settled = vp::fork();
                    let b = vp::u8();
                    let n = log.borrow().len();
                    w.put(&transfer(3, Tr { handle: links[i].handle, id: Some(id), tag: Some(&[id as u8]), settled: Some(settled), body: &[b], ..Default::default() }));
                    let c = log.borrow();
                    vp::check(c.len() == n + 1, "route.once");
                    vp::check(c[n].link == links[i].name && c[n].route == ["a", "b", "slow"][links[i].target], "route.handler");
                    vp::check(c[n].body == [b], "route.body");
                    vp::check(c[n].var.as_deref() == if links[i].target == 0 { Some("x") } else { None }, "route.path");
                    pend.push(Pend { link: i, id, settled, call: n });
                    id = id.wrapping_add(1);
                    drop(c);
                    let o = w.outs();
                    vp::check(!o.iter().any(|o| matches!(o.f, Frame::Disposition(_))), "route.unasked");
                }
                // a handler is done
                2 => {
                    vp::assume(!pend.is_empty());
                    let p = pend.remove(if vp::fork() { 0 } else { pend.len() - 1 });
                    let v = vp::choose(5);
                    go(&log, p.call, v as u8);
                    let o = w.outs();
                    let d: Vec<_> = o.iter().filter_map(|o| if let Frame::Disposition(d) = &o.f { Some(d) } else { None }).collect();
                    let up = links[p.link].up;
                    vp::check(d.len() <= 1 && (p.settled || !up || d.len() == 1) && !(p.settled && d.len() == 1), "route.settled");
                    if let Some(d) = d.first().filter(|_| up) {
                        let e = match v {
                            0 | 1 => None,
                            2 => Some("outcome"),
                            3 => Some("tried"),
                            _ => Some("failed"),
                        };
                        let right = match d.state() {
                            Some(DeliveryState::Accepted(_)) => v == 0,
                            Some(DeliveryState::Rejected(r)) => v != 0 && r.error.as_ref().map(|e| e.description().unwrap().to_string()) == e.map(|e| e.to_string()),
                            _ => false,
                        };
                        vp::check(d.first() == p.id && d.last().is_none_or(|l| l == p.id) && d.settled() && right, "route.outcome");
                    }
                }
                // the peer detaches
                3 => {
                    let i = vp::choose(links.len().max(1) as _) as usize;
                    vp::assume(i < links.len() && links[i].up);
                    w.put(&detach(3, links[i].handle, vp::fork(), false));
                    links[i].up = false;
                    let o = w.outs();
                    vp::check(o.iter().any(|o| matches!(&o.f, Frame::Detach(_))), "route.detached");
                }
                // a handler is there, or cannot be made
                4 => {
                    let n = made.borrow().iter().position(|c| c.go.is_none());
                    vp::assume(n.is_some());
                    let n = n.unwrap();
                    let v = vp::choose(2);
                    go(&made, n, v as u8);
                    let o = w.outs();
                    let name = made.borrow()[n].link.clone();
                    let i = links.iter().position(|l| l.name == name).unwrap();
                    let credit = o.iter().any(|o| matches!(&o.f, Frame::Flow(f) if f.link_credit().is_some_and(|c| c > 0)));
                    let refused = o.iter().any(|o| matches!(&o.f, Frame::Detach(d) if d.error().is_some()));
                    vp::check(if v == 0 { credit && !refused } else { refused && !credit }, "route.created");
                    links[i].up = v == 0;
                }
                _ => {
                    w.put(&end(3, false));
                    let o = w.outs();
                    vp::check(o.iter().any(|o| matches!(&o.f, Frame::End(_))), "route.ended");
                    for l in links.iter_mut() {
                        l.up = false;
                    }
                    over = true;
                }
            }
            vp::check(!ended.done(), "route.alive");
        }
        // every handler finishes in the end, wherever its link is by now
        for p in pend {
            go(&log, p.call, 0);
            w.step();
        }
        vp::check(!ended.done(), "route.alive");
    });
}
