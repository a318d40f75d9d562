//! S10, S12: several sessions on one connection.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::Frame;
use ntex_amqp::*;

enum St {
    /// begun by the library, not answered
    Opening(Op<Result<Session, error::AmqpProtocolError>>),
    Open(Session),
    /// ended by the library, not answered
    Closing(Op<bool>),
}
struct S {
    local: u16,
    remote: u16,
    st: St,
}

/// param: 1 server side, +2 symbolic limits, +4 the peer uses channels that are in use or beyond the limit, +10*steps
pub fn h_s10_chan() {
    run(|rt| {
        let pr = vp::param();
        let limits = pr & 2 != 0 && pr % 10 & 2 != 0;
        let (lmax, rmax) = if limits { (vp::u16(), vp::u16()) } else { (1024, 1024) };
        let bad = pr % 10 & 4 != 0;
        let mut w = Side::new(rt, pr % 10 & 1 == 1, Cfg { local_channel_max: lmax, channel_max: Some(rmax), ..Default::default() });
        vp::check(match &w { Side::C(c) => c.open.channel_max() == lmax, Side::S(s) => s.open.channel_max() == lmax }, "limit.announced");
        let limit = if lmax < rmax { lmax } else { rmax };
        let sink = w.sink();
        let ended = w.ended();
        let mut all: Vec<S> = Vec::new();
        for _ in 0..pr / 10 {
            match vp::choose(5) {
                0 => {
                    let s = sink.open_session();
                    let op = w.start(async move { s.attach().await });
                    let o = w.outs();
                    if o.is_empty() {
                        let r = op.take();
                        vp::check(matches!(r, Some(Err(error::AmqpProtocolError::TooManyChannels))), "limit.error");
                        vp::check(all.len() >= limit as usize, "limit.refused");
                    } else {
                        vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Begin(b) if b.remote_channel().is_none()), "limit.begin");
                        let c = o[0].ch;
                        vp::check(c <= limit, "limit.local_channel");
                        vp::check(!all.iter().any(|s| s.local == c), "limit.local_channel_used");
                        vp::check(!op.done(), "chan.open_early");
                        all.push(S { local: c, remote: 0, st: St::Opening(op) });
                    }
                }
                1 | 2 => {
                    let answer = vp::fork();
                    let k = all.iter().position(|s| matches!(s.st, St::Opening(_)));
                    if answer && k.is_none() {
                        vp::stop();
                    }
                    let r = vp::u16();
                    // an ended session of the library still uses the peer's channel
                    let used = all.iter().any(|s| !matches!(s.st, St::Opening(_)) && s.remote == r);
                    let ok = !used && r <= lmax;
                    if !bad {
                        vp::assume(ok);
                    }
                    if answer {
                        let k = k.unwrap();
                        w.put(&begin(r, Some(all[k].local), 1, 1 << 30, 1 << 30));
                        let St::Opening(op) = &all[k].st else { vp::stop() };
                        let res = op.take();
                        vp::check(w.outs().iter().all(|o| !matches!(o.f, Frame::Begin(_))), "limit.begin_answered");
                        if ok {
                            let Some(Ok(ses)) = res else {
                                vp::check(false, "chan.answer");
                                vp::stop()
                            };
                            vp::check(ses.local_channel_id() == all[k].local, "chan.wrong_session");
                            all[k].remote = r;
                            all[k].st = St::Open(ses);
                        } else {
                            vp::check(!matches!(res, Some(Ok(_))), "limit.remote_channel");
                            vp::check(ended.done(), "limit.goes_on");
                            vp::stop();
                        }
                    } else {
                        w.put(&begin(r, None, 1, 1 << 30, 1 << 30));
                        let o: Vec<_> = w.outs().into_iter().filter(|o| matches!(o.f, Frame::Begin(_))).collect();
                        if o.is_empty() {
                            // refused
                            vp::check(!ok || all.len() >= limit as usize, "limit.refused_remote");
                            vp::check(ended.done(), "limit.goes_on");
                            vp::stop();
                        }
                        vp::check(ok, "limit.remote_channel");
                        vp::check(o.len() == 1 && matches!(&o[0].f, Frame::Begin(b) if b.remote_channel() == Some(r)), "chan.answer_channel");
                        let c = o[0].ch;
                        vp::check(c <= limit, "limit.local_channel");
                        vp::check(!all.iter().any(|s| s.local == c), "limit.local_channel_used");
                        let ses = sink.get_session_by_local_id(c);
                        vp::check(ses.is_some(), "chan.no_session");
                        all.push(S { local: c, remote: r, st: St::Open(ses.unwrap()) });
                    }
                }
                3 => {
                    // the library ends an open session
                    let n = all.iter().filter(|s| matches!(s.st, St::Open(_))).count();
                    if n == 0 {
                        vp::stop();
                    }
                    let k = vp::choose(n as u32) as usize;
                    let i = (0..all.len()).filter(|&i| matches!(all[i].st, St::Open(_))).nth(k).unwrap();
                    let St::Open(ses) = &all[i].st else { vp::stop() };
                    let ses = ses.clone();
                    let op = w.start(async move { ses.end().await.is_ok() });
                    let o = w.outs();
                    vp::check(o.len() == 1 && matches!(o[0].f, Frame::End(_)), "chan.end");
                    vp::check(o[0].ch == all[i].local, "chan.end_channel");
                    vp::check(!op.done(), "chan.end_early");
                    all[i].st = St::Closing(op);
                }
                _ => {
                    // the peer ends a session, or answers the end
                    let n = all.iter().filter(|s| !matches!(s.st, St::Opening(_))).count();
                    if n == 0 {
                        vp::stop();
                    }
                    let k = vp::choose(n as u32) as usize;
                    let i = (0..all.len()).filter(|&i| !matches!(all[i].st, St::Opening(_))).nth(k).unwrap();
                    w.put(&end(all[i].remote, vp::fork()));
                    let o = w.outs();
                    match &all[i].st {
                        St::Open(_) => {
                            vp::check(o.len() == 1 && matches!(o[0].f, Frame::End(_)), "chan.end_answer");
                            vp::check(o[0].ch == all[i].local, "chan.end_answer_channel");
                        }
                        St::Closing(op) => {
                            vp::check(o.is_empty(), "chan.end_twice");
                            vp::check(op.done(), "chan.end_waits");
                        }
                        _ => (),
                    }
                    all.remove(i);
                }
            }
            vp::check(!ended.done(), "chan.connection_ended");
            for s in &all {
                match &s.st {
                    St::Opening(op) => vp::check(!op.done(), "chan.opened_early"),
                    St::Closing(op) => vp::check(!op.done(), "chan.ended_early"),
                    _ => (),
                }
            }
        }
        // every session that is open works, on its channels
        let mut links = Vec::new();
        for s in &all {
            let St::Open(ses) = &s.st else { continue };
            vp::check(ses.connection().is_opened(), "chan.closed");
            let b = ses.build_sender_link("a", "addr");
            let t = w.start(async move { b.attach().await });
            let o = w.outs();
            vp::check(o.len() == 1 && matches!(o[0].f, Frame::Attach(_)) && o[0].ch == s.local, "chan.attach");
            w.put(&attach(s.remote, "a", 5, RECEIVER, None, "", "addr"));
            let l = t.take();
            vp::check(matches!(l, Some(Ok(_))), "chan.attached");
            links.push((s.local, s.remote, l.unwrap().ok().unwrap()));
        }
        let mut ops: Vec<Sent> = links.iter().map(|(_, _, l)| start_send(&w, l, b"x")).collect();
        w.step();
        vp::check(w.outs().is_empty(), "chan.send_early");
        // credit in the opposite order; dropping a delivery would settle it
        let mut kept = Vec::new();
        for i in (0..links.len()).rev() {
            let (c, r, l) = &links[i];
            w.put(&flow(*r, FlowF { handle: Some(5), dc: Some(0), credit: Some(1), ..Default::default() }));
            let o = w.outs();
            vp::check(o.len() == 1 && o[0].ch == *c, "chan.transfer_channel");
            vp::check(matches!(&o[0].f, Frame::Transfer(t) if t.handle() == l.id()), "chan.transfer");
            let d = ops.remove(i);
            let d = d.take();
            vp::check(matches!(d, Some(Ok(_))), "chan.sent");
            kept.push(d);
            for p in &ops {
                vp::check(!p.done(), "chan.sent_other");
            }
        }
    });
}
