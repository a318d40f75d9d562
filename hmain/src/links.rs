//! S09, S16: links of one session.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{DeliveryState, Frame};
use ntex_amqp::*;
use std::rc::Rc;

struct Snd {
    l: SenderLink,
    pend: Sent,
    d: Rc<Delivery>,
    wait: Op<Result<Option<DeliveryState>, error::AmqpProtocolError>>,
}
enum K {
    S(Snd),
    R(ReceiverLink),
}
struct L {
    h: u32,
    local: u32,
    k: K,
    gone: bool,
    touched: bool,
}
fn handle_of(f: &Frame) -> Option<u32> {
    match f {
        Frame::Transfer(t) => Some(t.handle()),
        Frame::Detach(t) => Some(t.handle()),
        Frame::Flow(t) => t.handle(),
        _ => None,
    }
}

/// Frames for one of two links, or none of them; param: 1 server side, +2 the first one receives, +4 the second one receives; +10*number of frames
pub fn h_s9_links() {
    run(|rt| {
        let pr = vp::param();
        let mut w = Side::new(rt, pr % 10 & 1 == 1, Cfg::default());
        let ses = w.session(0, 1, 1 << 30);
        let (h1, h2) = (vp::u32(), vp::u32());
        vp::assume(h1 != h2);
        let mut ls: Vec<L> = Vec::new();
        for (i, (h, name, rcv)) in [(h1, "a", pr % 10 & 2 != 0), (h2, "b", pr % 10 & 4 != 0)].into_iter().enumerate() {
            let k = if rcv {
                let l = w.receiver(&ses, 0, name, h, Some(0));
                l.set_link_credit(10);
                w.put(&transfer(0, Tr { handle: h, id: Some(10 + i as u32), more: true, body: b"x", ..Default::default() }));
                (l.handle(), K::R(l))
            } else {
                let l = w.sender(&ses, 0, name, h, Some(0));
                w.put(&flow(0, FlowF { handle: Some(h), dc: Some(0), credit: Some(1), ..Default::default() }));
                let s = start_send(&w, &l, b"1");
                w.step();
                let d = s.get();
                vp::check(d.is_ok(), "link.setup");
                let d = Rc::new(d.ok().unwrap());
                let d2 = d.clone();
                let wait = w.start(async move { d2.wait().await });
                let pend = start_send(&w, &l, b"2");
                (l.id(), K::S(Snd { l, pend, d, wait }))
            };
            w.step();
            let _ = w.outs();
            ls.push(L { h, local: k.0, k: k.1, gone: false, touched: false });
        }
        let _ = w.outs();
        let ended = w.ended();
        // the peer's handles: of further links, of these links until the peer detaches
        let mut more: Vec<u32> = Vec::new();
        let mut busy = vec![h1, h2];
        for i in 0..pr / 10 {
            let h = vp::u32();
            let named = ls.iter().position(|l| !l.gone && l.h == h);
            let valid;
            match vp::choose(4) {
                0 => {
                    valid = named.is_some() || more.contains(&h);
                    w.put(&flow(0, FlowF { handle: Some(h), dc: Some(vp::u32()), credit: Some(vp::u32()), echo: vp::fork(), ..Default::default() }));
                }
                1 => {
                    valid = named.is_some_and(|k| matches!(ls[k].k, K::R(_)));
                    // the rest of the delivery, or an aborted one
                    w.put(&transfer(0, Tr { handle: h, id: None, tag: None, body: b"z", more: vp::fork(), ..Default::default() }));
                }
                2 => {
                    valid = named.is_some() || more.contains(&h);
                    w.put(&detach(0, h, vp::fork(), vp::fork()));
                    more.retain(|m| *m != h);
                    busy.retain(|m| *m != h);
                }
                _ => {
                    valid = !busy.contains(&h) && !more.contains(&h);
                    w.put(&attach(0, ["n", "m", "o"][i as usize], h, vp::fork(), Some(0), "s", "t"));
                    if valid {
                        more.push(h);
                    }
                }
            }
            let o = w.outs();
            if let Some(k) = named {
                ls[k].touched = true;
                ls[k].gone |= o.iter().any(|o| matches!(&o.f, Frame::Detach(d) if d.handle() == ls[k].local));
            }
            if ended.done() || o.iter().any(|o| matches!(o.f, Frame::End(_))) {
                vp::check(!valid, "link.ended");
                vp::stop();
            }
            for (k, l) in ls.iter().enumerate() {
                if named == Some(k) || l.gone {
                    continue;
                }
                vp::check(!o.iter().any(|o| handle_of(&o.f) == Some(l.local)), "link.other_frames");
                match &l.k {
                    K::S(s) => {
                        vp::check(!s.l.is_closed(), "link.other_closed");
                        if !l.touched {
                            vp::check(!s.pend.done(), "link.other_sent");
                            vp::check(!s.wait.done(), "link.other_settled");
                        }
                    }
                    K::R(r) => {
                        vp::check(!r.is_closed(), "link.other_closed");
                        if !l.touched {
                            vp::check(!r.has_deliveries(), "link.other_received");
                        }
                    }
                }
            }
        }
        // whatever was not named works
        for l in &ls {
            if l.touched {
                continue;
            }
            match &l.k {
                K::S(s) => {
                    w.put(&flow(0, FlowF { handle: Some(l.h), dc: Some(1), credit: Some(1), ..Default::default() }));
                    let o = w.outs();
                    vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Transfer(t) if t.handle() == l.local && body(t) == b"2"), "link.transfer");
                    vp::check(s.pend.with(|v| matches!(v, Some(Ok(_)))), "link.sent");
                    w.put(&disposition(0, RECEIVER, s.d.id(), None, true, 0x24));
                    vp::check(s.wait.with(|v| matches!(v, Some(Ok(Some(DeliveryState::Accepted(_)))))), "link.settled");
                }
                K::R(r) => {
                    w.put(&transfer(0, Tr { handle: l.h, id: None, tag: None, body: b"y", ..Default::default() }));
                    let d = r.get_delivery();
                    vp::check(d.is_some(), "link.received");
                    let (d, t) = d.unwrap();
                    vp::check(body(&t) == b"xy", "link.body");
                    std::mem::forget(d);
                    vp::check(!r.has_deliveries(), "link.received_more");
                }
            }
        }
        vp::check(!ended.done(), "link.closed");
        std::mem::forget(ls);
    });
}

enum LSt {
    /// attach written, not answered
    OpeningS(Op<Result<SenderLink, error::AmqpProtocolError>>),
    OpeningR(Op<Result<ReceiverLink, error::AmqpProtocolError>>),
    S(SenderLink),
    R(ReceiverLink),
    /// detach written, not answered
    Closing(Op<bool>),
}
struct Ln {
    name: usize,
    rcv: bool,
    local: u32,
    peer: Option<u32>,
    mine: bool,
    st: LSt,
}
impl Ln {
    fn open(&self) -> bool {
        matches!(self.st, LSt::S(_) | LSt::R(_))
    }
    fn closing(&self) -> bool {
        matches!(self.st, LSt::Closing(_))
    }
}
const NAMES: [&str; 2] = ["a", "b"];

fn peer_handle(all: &[Ln]) -> u32 {
    let h = vp::u32();
    for l in all {
        vp::assume(l.peer != Some(h));
    }
    h
}
/// The answer to a peer's attach: the library's link.
fn attached(o: &[Out], all: &[Ln], ses: &Session, name: usize, rcv: bool, h: u32) -> Ln {
    let a: Vec<_> = o.iter().filter_map(|o| if let Frame::Attach(a) = &o.f { Some(a) } else { None }).collect();
    vp::check(a.len() == 1, "reuse.answer");
    let local = a[0].handle();
    vp::check(a[0].name().as_str() == NAMES[name], "reuse.answer_name");
    vp::check((a[0].role() == ntex_amqp::codec::protocol::Role::Receiver) == rcv, "reuse.answer_role");
    vp::check(!all.iter().any(|l| l.local == local), "reuse.handle_used");
    let st = if rcv {
        let l = ses.get_receiver_link_by_remote_handle(h);
        vp::check(l.is_some_and(|l| l.handle() == local), "reuse.lookup");
        LSt::R(l.unwrap().clone())
    } else {
        let l = ses.get_sender_link_by_remote_handle(h);
        vp::check(l.is_some_and(|l| l.id() == local), "reuse.lookup");
        LSt::S(l.unwrap().clone())
    };
    Ln { name, rcv, local, peer: Some(h), mine: false, st }
}

/// Attach and detach from both sides; param: 1 server side, +2 receivers, +4 both; +10*number of events
pub fn h_s16_reuse() {
    run(|rt| {
        let pr = vp::param();
        let mut w = Side::new(rt, pr % 10 & 1 == 1, Cfg::default());
        let ses = w.session(0, 1, 1 << 30);
        let _ = w.outs();
        let ended = w.ended();
        let mut all: Vec<Ln> = Vec::new();
        let mut old: Vec<LSt> = Vec::new();
        for _ in 0..pr / 10 {
            let role = || if pr % 10 & 4 != 0 { vp::fork() } else { pr % 10 & 2 != 0 };
            let ev = vp::choose(6);
            match ev {
                0 => {
                    let (name, rcv) = (vp::choose(2) as usize, role());
                    // one link of a name
                    if all.iter().any(|l| l.name == name && l.rcv == rcv && !l.closing()) {
                        vp::stop();
                    }
                    let st = if rcv {
                        let b = ses.build_receiver_link(NAMES[name], "addr");
                        LSt::OpeningR(w.start(async move { b.attach().await }))
                    } else {
                        let b = ses.build_sender_link(NAMES[name], "addr");
                        LSt::OpeningS(w.start(async move { b.attach().await }))
                    };
                    let o = w.outs();
                    vp::check(o.len() == 1, "reuse.attach");
                    let Frame::Attach(a) = &o[0].f else { vp::check(false, "reuse.attach"); vp::stop() };
                    vp::check(a.name().as_str() == NAMES[name], "reuse.attach_name");
                    let local = a.handle();
                    vp::check(!all.iter().any(|l| l.local == local && !l.closing()), "reuse.handle_used");
                    all.push(Ln { name, rcv, local, peer: None, mine: true, st });
                }
                1 => {
                    // the peer answers
                    let n = all.iter().filter(|l| matches!(l.st, LSt::OpeningR(_) | LSt::OpeningS(_))).count();
                    if n == 0 {
                        vp::stop();
                    }
                    let k = vp::choose(n as u32) as usize;
                    let h = peer_handle(&all);
                    let l = all.iter_mut().filter(|l| matches!(l.st, LSt::OpeningR(_) | LSt::OpeningS(_))).nth(k).unwrap();
                    w.put(&attach(0, NAMES[l.name], h, if l.rcv { SENDER } else { RECEIVER }, Some(0), "addr", "addr"));
                    let o = w.outs();
                    vp::check(o.is_empty(), "reuse.answer_answered");
                    l.peer = Some(h);
                    l.st = match &l.st {
                        LSt::OpeningS(op) => {
                            let v = op.take();
                            vp::check(matches!(&v, Some(Ok(v)) if v.id() == l.local && v.remote_handle() == h), "reuse.wrong_link");
                            LSt::S(v.unwrap().ok().unwrap())
                        }
                        LSt::OpeningR(op) => {
                            let v = op.take();
                            vp::check(matches!(&v, Some(Ok(v)) if v.handle() == l.local && v.remote_handle() == h), "reuse.wrong_link");
                            LSt::R(v.unwrap().ok().unwrap())
                        }
                        _ => vp::stop(),
                    };
                }
                2 | 3 => {
                    let (name, rcv) = (vp::choose(2) as usize, role());
                    let mut batch = Vec::new();
                    // event 3: a detach of a link of the same name and the new attach arrive together
                    let mut closed = None;
                    if ev == 3 {
                        let Some(k) = all.iter().position(|l| l.open() && l.name == name && l.rcv == rcv) else { vp::stop() };
                        let same = vp::fork();
                        let l = all.remove(k);
                        batch.extend_from_slice(&detach(0, l.peer.unwrap(), true, false));
                        closed = Some((l.local, l.peer.unwrap(), same, l));
                    } else if all.iter().any(|l| l.name == name && l.rcv == rcv && l.st_known()) {
                        vp::stop();
                    }
                    if all.iter().any(|l| l.name == name && l.rcv == rcv && !l.closing()) {
                        vp::stop();
                    }
                    let h = match &closed {
                        Some((_, p, true, _)) => *p,
                        _ => peer_handle(&all),
                    };
                    batch.extend_from_slice(&attach(0, NAMES[name], h, if rcv { SENDER } else { RECEIVER }, Some(0), "src", "tgt"));
                    w.put(&batch);
                    let o = w.outs();
                    if let Some((local, _, _, l)) = closed {
                        let d: Vec<_> = o.iter().filter_map(|o| if let Frame::Detach(d) = &o.f { Some(d.handle()) } else { None }).collect();
                        vp::check(d.len() == 1 && d[0] == local, "reuse.detach_answer");
                        dead(&l);
                        old.push(l.st);
                    }
                    let l = attached(&o, &all, &ses, name, rcv, h);
                    all.push(l);
                }
                4 => {
                    // the library detaches
                    let n = all.iter().filter(|l| l.open()).count();
                    if n == 0 {
                        vp::stop();
                    }
                    let k = vp::choose(n as u32) as usize;
                    let l = all.iter_mut().filter(|l| l.open()).nth(k).unwrap();
                    let op = match &l.st {
                        LSt::S(s) => {
                            let s = s.clone();
                            w.start(async move { s.close().await.is_ok() })
                        }
                        LSt::R(s) => {
                            let s = s.clone();
                            w.start(async move { s.close().await.is_ok() })
                        }
                        _ => vp::stop(),
                    };
                    let o = w.outs();
                    vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Detach(d) if d.handle() == l.local), "reuse.detach");
                    old.push(std::mem::replace(&mut l.st, LSt::Closing(op)));
                }
                _ => {
                    // the peer detaches, or answers
                    let n = all.iter().filter(|l| l.open() || l.closing()).count();
                    if n == 0 {
                        vp::stop();
                    }
                    let k = vp::choose(n as u32) as usize;
                    let i = (0..all.len()).filter(|&i| all[i].open() || all[i].closing()).nth(k).unwrap();
                    let l = all.remove(i);
                    w.put(&detach(0, l.peer.unwrap(), vp::fork(), false));
                    let o = w.outs();
                    if let LSt::Closing(op) = &l.st {
                        vp::check(o.is_empty(), "reuse.detach_twice");
                        vp::check(op.done(), "reuse.detach_waits");
                    } else {
                        vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Detach(d) if d.handle() == l.local), "reuse.detach_answer");
                        dead(&l);
                        old.push(l.st);
                    }
                }
            }
            vp::check(!ended.done(), "reuse.connection_ended");
            for l in &all {
                match &l.st {
                    LSt::OpeningS(op) => vp::check(!op.done(), "reuse.opened"),
                    LSt::OpeningR(op) => vp::check(!op.done(), "reuse.opened"),
                    LSt::Closing(op) => vp::check(!op.done(), "reuse.closed"),
                    LSt::S(s) => {
                        vp::check(s.is_opened() && !s.is_closed(), "reuse.link_closed");
                        if l.mine {
                            vp::check(ses.get_sender_link(NAMES[l.name]).is_some_and(|s| s.id() == l.local), "reuse.name_lost");
                        }
                    }
                    LSt::R(s) => vp::check(!s.is_closed(), "reuse.link_closed"),
                }
            }
        }
        for n in ["a", "b", "src"] {
            if let Some(f) = ses.get_sender_link(n) {
                vp::check(all.iter().any(|l| matches!(&l.st, LSt::S(_)) && l.local == f.id()) && !f.is_closed(), "reuse.name_stale");
            }
        }
        // every open link works
        let mut id = 20;
        for l in &all {
            match &l.st {
                LSt::S(s) => {
                    let op = start_send(&w, s, b"m");
                    w.step();
                    vp::check(w.outs().is_empty() && !op.done(), "reuse.credit");
                    w.put(&flow(0, FlowF { handle: l.peer, dc: Some(0), credit: Some(1), ..Default::default() }));
                    let o = w.outs();
                    vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Transfer(t) if t.handle() == l.local), "reuse.transfer");
                    vp::check(op.with(|v| matches!(v, Some(Ok(_)))), "reuse.sent");
                    std::mem::forget(op.take());
                }
                LSt::R(r) => {
                    r.set_link_credit(10);
                    let o = w.outs();
                    vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Flow(f) if f.handle() == Some(l.local)), "reuse.flow");
                    id += 1;
                    w.put(&transfer(0, Tr { handle: l.peer.unwrap(), id: Some(id), body: b"m", ..Default::default() }));
                    let d = r.get_delivery();
                    vp::check(d.is_some(), "reuse.received");
                    std::mem::forget(d);
                }
                _ => (),
            }
        }
        vp::check(!ended.done(), "reuse.connection_closed");
        for l in &old {
            vp::check(match l { LSt::S(s) => s.is_closed() || !s.is_opened(), _ => true }, "reuse.old_open");
            vp::check(match l { LSt::R(r) => !r.has_deliveries(), _ => true }, "reuse.old_received");
        }
    });
}
impl Ln {
    fn st_known(&self) -> bool {
        !self.closing()
    }
}
fn dead(l: &Ln) {
    match &l.st {
        LSt::S(s) => vp::check(s.is_closed(), "reuse.detached_open"),
        LSt::R(s) => vp::check(s.is_closed(), "reuse.detached_open"),
        _ => (),
    }
}
