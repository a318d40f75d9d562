//! S02: session window.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{Frame, TransferBody};
use ntex_amqp::*;

/// Sends and session flows in every order; param: 1 server side, +2: two links; +10*number of steps.
pub fn h_s2_window() {
    run(|rt| {
        let p = vp::param();
        let two = p % 10 >= 2;
        let w0 = vp::u32();
        let mut s = Side::new(rt, p % 2 == 1, Cfg { max_frame: Some(4096), ..Default::default() });
        let ses = s.session(0, 1, w0);
        let mut links = vec![s.sender(&ses, 0, "a", 5, Some(0))];
        if two {
            links.push(s.sender(&ses, 0, "b", 6, Some(0)));
        }
        for i in 0..links.len() as u32 {
            // credit is plentiful
            s.put(&flow(0, FlowF { nin: Some(1), inw: w0, handle: Some(5 + i), dc: Some(0), credit: Some(1000), ..Default::default() }));
        }
        let _ = s.outs();
        let mut remaining = w0 as u64;
        let mut sent = 0u32;
        let mut rx = Rx::default();
        let mut subs: Vec<(usize, Vec<u8>, Sent)> = Vec::new();
        let kinds = if two { 4 } else { 3 };
        for _ in 0..p / 10 {
            let submit = |w: &World<'_>, subs: &mut Vec<(usize, Vec<u8>, Sent)>, k: u8| {
                let b = vec![subs.len() as u8; if k == 1 { 2049 } else { 1 }];
                let i = if k == 2 { 1 } else { 0 };
                let o = start_send(w, &links[i], &b);
                subs.push((i, b, o));
            };
            let k = vp::choose(kinds);
            if k + 1 < kinds {
                submit(s.w(), &mut subs, k as u8);
            } else {
                let inw = vp::u32();
                let nul = vp::fork();
                let seen = if nul { 0 } else { vp::u32() };
                vp::assume(seen <= sent);
                let onlink = vp::fork();
                let f = FlowF {
                    nin: if nul { None } else { Some(seen.wrapping_add(1)) },
                    inw,
                    handle: if onlink { Some(5) } else { None },
                    credit: if onlink { Some(1000) } else { None },
                    ..Default::default()
                };
                s.feed(&flow(0, f));
                remaining = (inw as u64).saturating_sub((sent - seen) as u64);
                if vp::fork() {
                    submit(s.w(), &mut subs, 1);
                }
            }
            let t = s.transfers();
            let n = t.len() as u32;
            for (_, t, _) in &t {
                rx.add(t);
            }
            vp::check(n as u64 <= remaining, "window.exceeded");
            sent += n;
            remaining -= n as u64;
            let mut all = true;
            for (i, l) in links.iter().enumerate() {
                let want: Vec<&[u8]> = subs.iter().filter(|x| x.0 == i).map(|x| &x.1[..]).collect();
                let got = rx.bodies(l.id());
                vp::check(got.len() <= want.len() && got[..] == want[..got.len()], "window.order");
                all &= got.len() == want.len();
            }
            if !all {
                vp::check(remaining == 0, "window.starved");
            }
            for x in &subs {
                vp::check(x.2.with(|v| v.is_none_or(|v| v.is_ok())), "window.result");
                if all {
                    vp::check(x.2.done(), "window.completion");
                }
            }
            vp::check(ses.remote_window_size() as u64 == remaining, "window.reported");
        }
    });
}
