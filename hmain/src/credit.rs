//! S01, S02: link credit and session window.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{Frame, TransferBody};
use ntex_amqp::*;

/// Sends and flows in every order; param: 1 server side; +10*number of steps.
pub fn h_s1_credit() {
    run(|rt| {
        let p = vp::param();
        let steps = p / 10;
        let init;
        let mut s;
        let l;
        if p % 10 == 0 {
            let mut c = client(rt, Cfg::default());
            let ses = c.session(0, 1 << 30);
            init = 0;
            l = c.sender(&ses, 0, "l", 5, None);
            s = Side::C(c);
        } else {
            let mut c = server(rt, Cfg::default());
            let _ = c.session(0, 1, 1 << 30);
            init = vp::u32();
            l = c.sender(0, "l", 5, Some(init));
            s = Side::S(c);
        }
        let w = s.w();
        let mut remaining = 0u64;
        let mut sent = 0u32;
        let mut ops: Vec<Sent> = Vec::new();
        for _ in 0..steps {
            match vp::choose(3) {
                0 => ops.push(start_send(w, &l, &[ops.len() as u8])),
                k => {
                    // the receiver has seen `seen` of the deliveries sent
                    let credit = vp::u32();
                    let seen = if k == 1 { vp::u32() } else { 0 };
                    vp::assume(seen <= sent);
                    let f = FlowF { handle: Some(5), dc: if k == 1 { Some(init.wrapping_add(seen)) } else { None }, credit: Some(credit), ..Default::default() };
                    w.feed(&flow(0, f));
                    remaining = (credit as u64).saturating_sub((sent - seen) as u64);
                    if vp::fork() {
                        // a send submitted while the flow is still unread
                        ops.push(start_send(w, &l, &[ops.len() as u8]));
                    }
                }
            }
            let t = w.transfers();
            let n = t.len() as u32;
            vp::check(n as u64 <= remaining, "credit.exceeded");
            let pending = ops.len() as u32 - sent;
            vp::check(n as u64 == remaining.min(pending as u64), "credit.starved");
            for (i, (_, t, _)) in t.iter().enumerate() {
                vp::check(body(t) == [(sent + i as u32) as u8], "credit.order");
            }
            sent += n;
            remaining -= n as u64;
            for (i, o) in ops.iter().enumerate() {
                vp::check(o.done() == ((i as u32) < sent), "credit.completion");
                vp::check(o.with(|v| v.is_none_or(|v| v.is_ok())), "credit.result");
            }
            vp::check(l.credit() as u64 == remaining, "credit.reported");
        }
    });
}
