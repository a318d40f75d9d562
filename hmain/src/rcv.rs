//! S05, S06: credit and reassembly on receiving links.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, Frame, TransferBody};
use ntex_amqp::*;
use std::cell::RefCell;
use std::rc::Rc;

type Got = Rc<RefCell<Vec<(Delivery, p::Transfer)>>>;

/// Reads the link as an application does, until it ends.
fn reader(w: &World<'_>, l: &ReceiverLink) -> (Got, Op<bool>) {
    let got: Got = Rc::default();
    let (g, l) = (got.clone(), l.clone());
    let op = w.start(async move {
        loop {
            match l.recv().await {
                Some(Ok(x)) => g.borrow_mut().push(x),
                Some(Err(_)) => return true,
                None => return false,
            }
        }
    });
    (got, op)
}
fn condition(d: &p::Detach) -> Vec<u8> {
    match d.error() {
        Some(e) => match e.condition() {
            p::ErrorCondition::LinkError(p::LinkError::TransferLimitExceeded) => b"limit".to_vec(),
            p::ErrorCondition::LinkError(p::LinkError::MessageSizeExceeded) => b"size".to_vec(),
            p::ErrorCondition::LinkError(_) => b"link".to_vec(),
            _ => b"other".to_vec(),
        },
        None => b"none".to_vec(),
    }
}

/// Grants and deliveries in every order; param: 1 server side; +2: the reader takes deliveries by call; +10*steps
pub fn h_s5_credit() {
    run(|rt| {
        let pr = vp::param();
        let mut s = Side::new(rt, pr % 2 == 1, Cfg::default());
        let ses = s.session(0, 1, 1 << 30);
        let init = vp::u32();
        let l = s.receiver(&ses, 0, "r", 9, Some(init));
        let mut granted = if pr % 2 == 1 { 50u64 } else { 0 };
        let (got, _) = reader(&s, &l);
        let mut done = 0u32;
        let mut partial = false;
        let mut alive = true;
        let mut frames = 0u32;
        for i in 0..pr / 10 {
            let k = vp::choose(if partial { 4 } else { 3 });
            let before = got.borrow().len();
            let mut want_flow = None;
            let mut want_detach = false;
            let mut want_delivery = false;
            match k {
                0 => {
                    let g = vp::u32();
                    granted = (granted + g as u64).min(u32::MAX as u64);
                    l.set_link_credit(g);
                    if alive {
                        want_flow = Some(granted);
                    }
                }
                1 | 2 => {
                    // a frame of a delivery: the first, the only one, or the next
                    let more = k == 2;
                    let t = Tr { handle: 9, id: if partial { None } else { Some(100 + i as u32) }, more, body: &[i as u8], ..Default::default() };
                    s.feed(&transfer(0, t));
                    frames += 1;
                    if alive {
                        if !partial && granted == 0 {
                            alive = false;
                            want_detach = true;
                        } else if more {
                            partial = true;
                        } else {
                            partial = false;
                            done += 1;
                            granted -= 1;
                            want_delivery = true;
                        }
                    }
                }
                _ => {
                    s.feed(&transfer(0, Tr { handle: 9, aborted: true, ..Default::default() }));
                    frames += 1;
                    if alive {
                        partial = false;
                        done += 1;
                        granted -= 1;
                    }
                }
            }
            let o = s.outs();
            let flows: Vec<_> = o.iter().filter_map(|o| if let Frame::Flow(f) = &o.f { Some(f) } else { None }).collect();
            let dets: Vec<_> = o.iter().filter_map(|o| if let Frame::Detach(f) = &o.f { Some(f) } else { None }).collect();
            if alive || want_detach {
                vp::check(flows.len() == want_flow.is_some() as usize, "credit.flow_count");
            }
            if let (Some(c), Some(f)) = (want_flow, flows.first()) {
                vp::check(f.handle() == Some(l.handle()), "credit.flow_handle");
                vp::check(f.delivery_count() == Some(init.wrapping_add(done)), "credit.flow_delivery_count");
                vp::check(f.link_credit() == Some(c as u32), "credit.flow_credit");
                vp::check(f.next_incoming_id() == Some(1u32.wrapping_add(frames)), "credit.flow_next_incoming_id");
            }
            vp::check(dets.len() == want_detach as usize, "credit.detach");
            if want_detach {
                vp::check(condition(dets[0]) == b"limit" && dets[0].handle() == l.handle() && dets[0].closed(), "credit.detach_error");
            }
            vp::check(got.borrow().len() == before + want_delivery as usize, "credit.delivered");
            if alive {
                vp::check(l.credit() as u64 == granted, "credit.reported");
            }
            vp::check(l.is_closed() == !alive, "credit.closed");
        }
        std::mem::forget(got.borrow_mut().drain(..).collect::<Vec<_>>());
    });
}

#[derive(Default)]
struct Model {
    part: Option<(u32, u8, Vec<u8>, bool)>,
    dead: bool,
    want: Vec<(u32, u8, Vec<u8>, bool)>,
}

/// Frames of deliveries on two links; param: 1 server side, +2: contents of up to 3 bytes against a limit of 4 (else no contents); +10*steps
pub fn h_s6_assembly() {
    run(|rt| {
        let pr = vp::param();
        let sized = pr % 4 >= 2;
        let limit = 4usize;
        let mut s = Side::new(rt, pr % 2 == 1, Cfg::default());
        let ses = s.session(0, 1, 1 << 30);
        let mut links = Vec::new();
        for (n, h) in [("r", 9), ("q", 12)] {
            let l = match &mut s {
                Side::C(c) => {
                    let b = ses.build_receiver_link(n, "addr").max_message_size(limit as u64);
                    let t = c.start(async move { b.attach().await });
                    let o = c.outs();
                    vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Attach(a) if a.max_message_size() == Some(limit as u64)), "assembly.announced");
                    c.put(&attach(0, n, h, SENDER, Some(0), "addr", ""));
                    t.get().ok().unwrap()
                }
                Side::S(x) => {
                    let l = x.receiver(0, n, h, Some(0));
                    l.set_max_message_size(limit as u64);
                    l
                }
            };
            l.set_link_credit(1000);
            let _ = s.outs();
            let r = reader(&s, &l);
            links.push((l, h, r.0, Model::default()));
        }
        let _ = s.outs();
        for _ in 0..pr / 10 {
            let k = vp::choose(2) as usize;
            let (l, h, got, m) = &mut links[k];
            let first = m.part.is_none();
            let id = if first || vp::fork() { Some(vp::u32()) } else { None };
            let tag = if first || vp::fork() { Some(vp::u8()) } else { None };
            let more = vp::fork();
            let n = if sized { vp::choose(4) as usize } else { 0 };
            let body = vp::arr::<3>()[..n].to_vec();
            let aborted = !sized && vp::fork();
            let settled = if sized { None } else { [None, Some(false), Some(true)][vp::choose(3) as usize] };
            let tb = tag.map(|t| [t]);
            s.feed(&transfer(0, Tr { handle: *h, id, tag: tb.as_ref().map(|t| &t[..]), settled, more, aborted, body: &body }));
            let mut refused: Option<&[u8]> = None;
            if !m.dead {
                if let Some(mut q) = m.part.take() {
                    if id.is_some_and(|i| i != q.0) || tag.is_some_and(|t| t != q.1) {
                        refused = Some(b"link");
                    } else if !aborted {
                        if q.2.len() + n > limit {
                            refused = Some(b"size");
                        } else {
                            q.2.extend_from_slice(&body);
                            q.3 |= settled == Some(true);
                            if more { m.part = Some(q) } else { m.want.push(q) }
                        }
                    }
                } else if !aborted {
                    let q = (id.unwrap(), tag.unwrap(), body, settled == Some(true));
                    if more { m.part = Some(q) } else { m.want.push(q) }
                }
                m.dead = refused.is_some();
            }
            let (h, handle) = (*h, l.handle());
            let _ = (h, got);
            let o = s.outs();
            let dets: Vec<_> = o.iter().filter_map(|o| if let Frame::Detach(f) = &o.f { Some(f) } else { None }).collect();
            vp::check(dets.len() == refused.is_some() as usize, "assembly.detach");
            if let Some(r) = refused {
                vp::check(condition(dets[0]) == r && dets[0].handle() == handle, "assembly.detach_error");
            }
            vp::check(!o.iter().any(|o| matches!(o.f, Frame::Disposition(_))), "assembly.disposition");
            for (l, _, got, m) in &links {
                let g = got.borrow();
                vp::check(g.len() == m.want.len(), "assembly.count");
                for (g, w) in g.iter().zip(&m.want) {
                    vp::check(g.0.id() == w.0, "assembly.id");
                    vp::check(g.0.tag()[..] == [w.1], "assembly.tag");
                    vp::check(body_of(&g.1) == w.2, "assembly.body");
                    vp::check(g.1.settled().unwrap_or(false) == w.3, "assembly.settled");
                }
                vp::check(l.is_closed() == m.dead, "assembly.closed");
            }
        }
        for l in &links {
            std::mem::forget(l.2.borrow_mut().drain(..).collect::<Vec<_>>());
        }
    });
}
fn body_of(t: &p::Transfer) -> Vec<u8> {
    body(t)
}
