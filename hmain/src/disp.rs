//! S07, S08: settlement.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, DeliveryState, Frame, Role};
use ntex_amqp::*;

fn kind(s: &DeliveryState) -> u8 {
    match s {
        DeliveryState::Accepted(_) => 0x24,
        DeliveryState::Rejected(_) => 0x25,
        DeliveryState::Released(_) => 0x26,
        DeliveryState::Modified(_) => 0x27,
        DeliveryState::Received(_) => 0x23,
        _ => 0,
    }
}
fn state(k: u8) -> DeliveryState {
    match k {
        0x24 => DeliveryState::Accepted(p::Accepted {}),
        0x25 => DeliveryState::Rejected(p::Rejected { error: None }),
        0x26 => DeliveryState::Released(p::Released {}),
        _ => DeliveryState::Modified(p::Modified { delivery_failed: None, undeliverable_here: None, message_annotations: None }),
    }
}
fn disps(o: &[Out]) -> Vec<(u16, &p::Disposition)> {
    o.iter().filter_map(|o| if let Frame::Disposition(d) = &o.f { Some((o.ch, d)) } else { None }).collect()
}

struct D {
    id: u32,
    sender: bool,
    settled: bool,
    told: Option<u8>,
}

/// Dispositions for 3 sent and 3 received deliveries; param: 1 server side, +2: the sent deliveries are waited for; +10*number of dispositions
pub fn h_s7_disp() {
    run(|rt| {
        let pr = vp::param();
        let waiting = pr % 4 >= 2;
        let mut s = Side::new(rt, pr % 2 == 1, Cfg::default());
        let ses = s.session(0, 1, 1 << 30);
        let l = s.sender(&ses, 0, "s", 5, Some(0));
        let r = s.receiver(&ses, 0, "r", 9, Some(0));
        r.set_link_credit(100);
        s.put(&flow(0, FlowF { handle: Some(5), dc: Some(0), credit: Some(100), ..Default::default() }));
        let mut ds = Vec::new();
        let mut m = Vec::new();
        let few = pr >= 20 && !waiting;
        for i in 0..if few { 2 } else { 3 } {
            let o = start_send(&s, &l, &[i]);
            s.step();
            let d = o.get().ok().unwrap();
            m.push(D { id: d.id(), sender: true, settled: false, told: None });
            ds.push(std::rc::Rc::new(d));
        }
        let base = vp::u32();
        for i in if few { vec![0, 3] } else { vec![0, 1, 3] } {
            let id = base.wrapping_add(i);
            s.put(&transfer(0, Tr { handle: 9, id: Some(id), ..Default::default() }));
            let d = r.get_delivery();
            vp::check(d.is_some(), "disp.delivered");
            let (d, t) = d.unwrap();
            std::mem::forget(t);
            m.push(D { id, sender: false, settled: false, told: None });
            ds.push(std::rc::Rc::new(d));
        }
        let _ = s.outs();
        let waits: Vec<_> = ds
            .iter()
            .filter(|_| waiting)
            .map(|d| {
                let d = d.clone();
                s.start(async move { d.wait().await })
            })
            .collect();
        s.step();
        for _ in 0..pr / 10 {
            let role = vp::fork();
            let first = vp::u32();
            let last = if vp::fork() { Some(vp::u32()) } else { None };
            let n = last.unwrap_or(first).wrapping_sub(first);
            vp::assume(n <= i32::MAX as u32);
            let settled = vp::fork();
            let st = [0x24, 0x25, 0x26, 0x27, 0][vp::choose(if settled { 5 } else { 4 }) as usize];
            s.feed(&disposition(0, role, first, last, settled, st));
            let o = s.outs();
            vp::check(disps(&o).is_empty(), "disp.answered");
            for (i, d) in m.iter_mut().enumerate() {
                if d.sender == role && d.id.wrapping_sub(first) <= n && !d.settled {
                    d.settled |= settled;
                    if st != 0 || d.told.is_none() {
                        d.told = Some(st);
                    }
                    if waiting && waits[i].done() {
                        vp::check(waits[i].with(|v| v.is_some()), "disp.waiter");
                    }
                }
                vp::check(ds[i].is_remote_settled() == d.settled, "disp.settled");
            }
            if waiting {
                for (i, d) in m.iter().enumerate() {
                    vp::check(waits[i].done() == d.told.is_some(), "disp.told");
                }
            }
        }
        for (i, d) in m.iter_mut().enumerate() {
            let Some(t) = d.told else {
                if !waiting {
                    vp::check(ds[i].remote_state().is_none(), "disp.untouched");
                }
                continue;
            };
            if waiting {
                if pr / 10 == 1 {
                    let v = waits[i].get();
                    vp::check(v.is_ok(), "disp.wait_error");
                    let v = v.ok().unwrap();
                    vp::check(v.as_ref().map(kind) == if t == 0 { None } else { Some(t) }, "disp.wait_state");
                }
            } else {
                vp::check(ds[i].remote_state().as_ref().map(kind) == if t == 0 { None } else { Some(t) }, "disp.state");
                // asked for afterwards
                let d2 = ds[i].clone();
                let w = s.start(async move { d2.wait().await });
                s.step();
                vp::check(w.done(), "disp.late_wait");
                let v = w.get();
                vp::check(v.is_ok(), "disp.wait_error");
                vp::check(v.ok().unwrap().as_ref().map(kind) == if t == 0 { None } else { Some(t) }, "disp.wait_state");
            }
        }
        if waiting {
            vp::stop();
        }
        drop(ds);
        let o = s.outs();
        let o = disps(&o);
        for d in &m {
            let n = o.iter().filter(|x| x.1.first() == d.id && (x.1.role() == Role::Sender) == d.sender).count();
            vp::check(n == !d.settled as usize, "disp.dropped");
        }
    });
}

/// What an application and the peer do with one received delivery; param: 1 server side, +2: arrived settled (in its last frame), +4 in its first frame; +10*steps
pub fn h_s8_settle() {
    run(|rt| {
        let pr = vp::param();
        let arrived = pr % 10 >= 2;
        let mut s = Side::new(rt, pr % 2 == 1, Cfg::default());
        let ses = s.session(3, 1, 1 << 30);
        let r = s.receiver(&ses, 3, "r", 9, Some(0));
        r.set_link_credit(100);
        let id = vp::u32();
        let other = vp::u32();
        vp::assume(id != other);
        s.put(&transfer(3, Tr { handle: 9, id: Some(other), ..Default::default() }));
        let ot = r.get_delivery().unwrap();
        s.put(&transfer(3, Tr { handle: 9, id: Some(id), settled: if pr % 10 >= 4 { Some(true) } else { None }, more: true, ..Default::default() }));
        s.put(&transfer(3, Tr { handle: 9, id: None, settled: if arrived && pr % 10 < 4 { Some(true) } else { None }, ..Default::default() }));
        let (d, t) = r.get_delivery().unwrap();
        std::mem::forget(t);
        vp::check(d.id() == id, "settle.id");
        let _ = s.outs();
        let mut d = Some(d);
        let mut terminal = 0;
        let mut remote = arrived;
        let mut gone = false;
        for _ in 0..pr / 10 {
            let k = vp::choose(6);
            let mut want: Option<(u8, bool)> = None;
            match k {
                0 | 1 => {
                    let st = [0x24, 0x25, 0x26, 0x27][vp::choose(4) as usize];
                    let Some(d) = d.as_mut() else { vp::stop() };
                    if k == 0 {
                        d.settle(state(st));
                    } else {
                        d.update_state(state(st));
                    }
                    if !remote && terminal == 0 && !gone {
                        want = Some((st, k == 0));
                        terminal += (k == 0) as u32;
                    }
                }
                2 => {
                    if d.is_none() {
                        vp::stop();
                    }
                    drop(d.take());
                    if !remote && terminal == 0 && !gone {
                        want = Some((0x25, true));
                        terminal += 1;
                    }
                }
                3 => {
                    s.put(&disposition(3, SENDER, id, None, true, if vp::fork() { 0x24 } else { 0 }));
                    remote = true;
                }
                4 => {
                    s.put(&disposition(3, RECEIVER, id, None, true, 0x24));
                }
                _ => {
                    if vp::fork() {
                        s.put(&end(3, false));
                    } else {
                        s.peer.disconnect();
                    }
                    s.run();
                    gone = true;
                }
            }
            let o = s.outs();
            let o = disps(&o);
            vp::check(o.len() == want.is_some() as usize, "settle.count");
            if let Some((st, settled)) = want {
                let (ch, x) = o[0];
                vp::check(ch == ses.local_channel_id(), "settle.channel");
                vp::check(x.first() == id && x.last().is_none_or(|l| l == id), "settle.range");
                vp::check(x.role() == Role::Receiver, "settle.role");
                vp::check(x.settled() == settled, "settle.settled");
                vp::check(x.state().map(kind) == Some(st), "settle.state");
            }
        }
        std::mem::forget(ot);
        std::mem::forget(d);
    });
}
