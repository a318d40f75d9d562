//! S15: any frames in any order.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, DeliveryState, Frame};
use ntex_amqp::*;
use std::rc::Rc;

fn optn(on: bool) -> Option<u32> {
    let v = vp::u32();
    if on { Some(v) } else { None }
}

/// A well-formed frame of kind `k` with any field values; `full`: every combination of optional parts,
/// else a few.
fn any(k: u64, ch: u16, full: bool) -> Vec<u8> {
    let err = |l: L, on: bool| if on { l.desc(0x1d, L::new().sym("amqp:internal-error")) } else { l };
    // index into the combinations
    let pick = |few: &[usize], all: usize| if full { vp::choose(all as _) as usize } else { few[vp::choose(few.len() as _) as usize] };
    match k {
        0 => {
            let l = L::new().str("peer").null().uint(vp::u32()).ushort(vp::u16()).uint(vp::u32());
            amqp(ch, 0x10, l)
        }
        1 => {
            let rc = vp::u16();
            let rc = if vp::fork() { Some(rc) } else { None };
            begin(ch, rc, vp::u32(), vp::u32(), vp::u32())
        }
        2 | 3 => {
            // roles: the peer sends, receives
            let c = pick(&[0, 5, 6, 3], 8);
            let name = ["s", "r", "opening", "new"][c % 4];
            let l = L::new().str(name).uint(vp::u32()).boolean(k == 3);
            let l = if full {
                let (snd, rcv) = (vp::u8(), vp::u8());
                vp::assume(snd < 3 && rcv < 2);
                l.ubyte(snd).ubyte(rcv)
            } else {
                l.ubyte(2).ubyte(1)
            };
            // the termini may be missing
            let l = if c < 4 { l.desc(0x28, L::new().str("addr")).desc(0x29, L::new().str("addr")) } else { l.null().null() };
            let l = l.null().null().uint(vp::u32()).ulong(vp::u64());
            amqp(ch, 0x12, l)
        }
        4 => {
            let on = pick(&[0, 3], 4);
            let f = FlowF { nin: optn(on & 1 != 0), inw: vp::u32(), nout: vp::u32(), outw: vp::u32(), handle: optn(on & 2 != 0), dc: optn(on & 1 != 0), credit: optn(on & 2 != 0), drain: vp::bool(), echo: vp::bool() };
            flow(ch, f)
        }
        5 => {
            let c = pick(&[0, 1, 2, 5, 7], 8);
            let (on, more, aborted) = (c & 1 != 0, c & 2 != 0, c & 4 != 0);
            let tag = [vp::u8()];
            let settled = if on { Some(vp::bool()) } else { None };
            transfer(ch, Tr { handle: vp::u32(), id: optn(on), tag: if on { Some(&tag) } else { None }, settled, more, aborted, body: &vp::arr::<2>() })
        }
        6 => {
            let c = pick(&[0, 8, 3, 11], 12);
            let st = [0u8, 0x23, 0x24, 0x25, 0x26, 0x27][c % 6];
            let l = L::new().boolean(vp::bool()).uint(vp::u32()).opt(optn(c >= 6)).boolean(vp::bool());
            let l = match st {
                0 => l,
                0x23 => l.desc(st, L::new().uint(vp::u32()).ulong(vp::u64())),
                0x25 => l.desc(st, err(L::new(), true)),
                0x27 => l.desc(st, L::new().boolean(vp::bool()).boolean(vp::bool())),
                _ => l.desc(st, L::new()),
            };
            amqp(ch, 0x15, l)
        }
        7 => detach(ch, vp::u32(), vp::bool(), pick(&[0], 2) == 1),
        8 => end(ch, pick(&[1], 2) == 1),
        9 => {
            let e = vp::fork();
            amqp(ch, 0x18, err(L::new(), e))
        }
        _ => {
            let c = ch.to_be_bytes();
            vec![0, 0, 0, 8, 2, 0, c[0], c[1]]
        }
    }
}
const KINDS: u64 = 11;

/// param: 1 server side, +2 in one read, +4 the application holds what it receives and then settles it, +10 * kind of the first frame, +1000 * (number of frames - 2), +10000 every combination of optional parts, +20000 the later frames are transfers, detaches or ends
pub fn h_s15_any() {
    run(|rt| {
        let pr = vp::param();
        let (srv, batch, app) = (pr & 1 != 0, pr % 10 & 2 != 0, pr % 10 & 4 != 0);
        let mut w = Side::new(rt, srv, Cfg { local_channel_max: 4, ..Default::default() });
        let ended = w.ended();
        // the session under attack on channel 2, another on channel 3
        let ses = w.session(2, 1, 1 << 30);
        let other = w.session(3, 1, 1 << 30);
        let l = w.sender(&ses, 2, "s", 5, Some(0));
        let r = w.receiver(&ses, 2, "r", 6, Some(0));
        let z = w.sender(&other, 3, "z", 5, Some(0));
        w.put(&flow(3, FlowF { handle: Some(5), dc: Some(0), credit: Some(10), ..Default::default() }));
        w.put(&flow(2, FlowF { handle: Some(5), dc: Some(0), credit: Some(2), ..Default::default() }));
        r.set_link_credit(3);
        // two deliveries on their way to the peer, one waited for; one that lacks credit
        let (d1, d2) = (start_send(&w, &l, b"1"), start_send(&w, &l, b"2"));
        w.step();
        let d1 = Rc::new(d1.get().ok().unwrap());
        let d2 = d2.get().ok().unwrap();
        let dw = d1.clone();
        let _w1 = w.start(async move {
            let v = dw.wait().await;
            std::mem::forget(v);
        });
        let _w2 = start_send(&w, &l, b"3");
        // a link being opened, one being closed
        let s2 = ses.clone();
        let _o = w.start(async move {
            let v = s2.build_sender_link("opening", "addr").attach().await;
            std::mem::forget(v);
        });
        // a delivery received, and half of the next
        w.put(&transfer(2, Tr { handle: 6, id: Some(1), tag: Some(b"a"), body: b"x", ..Default::default() }));
        w.put(&transfer(2, Tr { handle: 6, id: Some(2), tag: Some(b"b"), more: true, body: b"y", ..Default::default() }));
        vp::check(!ended.done(), "any.setup");
        let _ = w.outs();

        let n = 2 + pr / 1000 % 10;
        let (full, some) = (pr / 10000 & 1 != 0, pr / 10000 & 2 != 0);
        let mut buf = Vec::new();
        let mut free = true;
        for i in 0..n {
            let k = if i == 0 {
                pr / 10 % 100
            } else if some {
                [5, 7, 8][vp::choose(3) as usize]
            } else { vp::choose(KINDS as _) as u64 };
            let ch = vp::u16();
            // a close or an open is meant for the connection, whatever its channel
            free = free && ch != 3 && k != 0 && k != 9;
            let f = any(k, ch, full);
            if batch {
                buf.extend_from_slice(&f);
            } else {
                w.put(&f);
                if app {
                    while let Some((d, _)) = r.get_delivery() {
                        drop(d);
                    }
                    w.step();
                }
            }
        }
        if batch {
            w.put(&buf);
        }
        // whatever happened, what the application does next has no other consequence than a result
        let _ = l.credit();
        let _ = r.credit();
        r.set_link_credit(2);
        while let Some((mut d, _)) = r.get_delivery() {
            d.settle(DeliveryState::Accepted(p::Accepted {}));
            drop(d);
        }
        w.step();
        let alive = !ended.done() && w.sink().is_opened();
        if alive && free {
            // the other session works as before
            let _ = w.outs();
            let s = start_send(&w, &z, b"z");
            let o = w.transfers();
            vp::check(o.len() == 1 && s.done() && body(&o[0].1) == b"z", "any.other");
            vp::cover("alive");
            s.with(|v| vp::check(v.is_some_and(|v| v.is_ok()), "any.other"));
            std::mem::forget(s);
        }
        if !alive {
            vp::cover("ended");
        }
        std::mem::forget((d1, d2));
    });
}
