//! S11: operations that wait when their link, session or connection ends.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, DeliveryState, Frame};
use ntex_amqp::*;
use std::rc::Rc;

/// What is waited on: the link, the session or the connection.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
enum Lv {
    Link,
    Ses,
    Con,
}

type Done = Op<()>;

/// The operation; it finishes when its future does, whatever the result.
fn wait_on<F: std::future::Future<Output = T> + 'static, T: 'static>(w: &World<'_>, f: F) -> Done {
    w.start(async move {
        let v = f.await;
        std::mem::forget(v);
    })
}

/// param: 1 server side, +10*kind of wait, +1000: the application's control handler is not done with anything
pub fn h_s11_waits() {
    run(|rt| {
        let pr = vp::param();
        let kind = pr / 10 % 100;
        // any channel and any handles of the peer
        let (ch, cx) = (vp::u16(), vp::u16());
        vp::assume(ch <= 1024 && cx != ch);
        let (hs, hr, hx) = (vp::u32(), vp::u32(), vp::u32());
        vp::assume(hs != hr && hs != hx && hr != hx);
        let mut w = Side::new(rt, pr % 2 == 1, Cfg::default());
        let ses = w.session(ch, 1, if kind == 1 || kind == 12 { 0 } else if kind == 11 { 2 } else { 1 << 30 });
        let sink = w.sink();
        let ended = w.ended();
        // the link, its peer handle and whether it is a sender
        let l = w.sender(&ses, ch, "s", hs, Some(0));
        let r = w.receiver(&ses, ch, "r", hr, Some(0));
        r.set_link_credit(10);
        let _ = w.outs();
        let credit = |w: &mut Side<'_>, n: u32, inw: u32| w.put(&flow(ch, FlowF { handle: Some(hs), dc: Some(0), credit: Some(n), inw, ..Default::default() }));
        let (s2, l2, r2) = (ses.clone(), l.clone(), r.clone());
        let mut lv = Lv::Link;
        let mut sender = true;
        // name of a link that is being opened
        let mut opening: Option<(&'static str, bool)> = None;
        let mut keep: Vec<Rc<Delivery>> = Vec::new();
        let op = match kind {
            0 => wait_on(&w, async move { l2.transfer(body_of(b"1")).send().await }),
            1 => {
                credit(&mut w, 5, 0);
                wait_on(&w, async move { l2.transfer(body_of(b"1")).send().await })
            }
            2 => wait_on(&w, async move { l2.ready().await }),
            3 | 4 => {
                credit(&mut w, 5, 1 << 30);
                let s = start_send(&w, &l, b"1");
                w.step();
                let d = Rc::new(s.get().ok().unwrap());
                if kind == 4 {
                    // a second waiter of the same delivery
                    let d = d.clone();
                    let _ = wait_on(&w, async move { d.wait().await });
                }
                keep.push(d.clone());
                wait_on(&w, async move { d.wait().await })
            }
            5 => {
                opening = Some(("t", true));
                wait_on(&w, async move { s2.build_sender_link("t", "addr").attach().await })
            }
            6 => {
                opening = Some(("t", false));
                wait_on(&w, async move { s2.build_receiver_link("t", "addr").attach().await })
            }
            7 => {
                sender = false;
                wait_on(&w, async move { r2.recv().await })
            }
            8 => wait_on(&w, async move { l2.on_close().await }),
            9 => {
                lv = Lv::Con;
                let s = sink.clone();
                wait_on(&w, async move { s.open_session().attach().await })
            }
            10 => {
                lv = Lv::Con;
                let s = sink.clone();
                wait_on(&w, async move { s.on_close().await })
            }
            11 => {
                // after a delivery that needs more of the window than there is
                credit(&mut w, 5, 1);
                let b = vec![7; 150_000];
                let first = start_send(&w, &l, &b);
                w.step();
                std::mem::forget(first);
                wait_on(&w, async move { l2.transfer(body_of(b"1")).send().await })
            }
            12 => {
                credit(&mut w, 5, 0);
                let first = start_send(&w, &l, b"0");
                w.step();
                std::mem::forget(first);
                wait_on(&w, async move { l2.transfer(body_of(b"1")).send().await })
            }
            13 => {
                sender = false;
                w.put(&transfer(ch, Tr { handle: hr, id: Some(7), ..Default::default() }));
                let (mut d, t) = r.get_delivery().unwrap();
                std::mem::forget(t);
                d.update_state(DeliveryState::Accepted(p::Accepted {}));
                let d = Rc::new(d);
                keep.push(d.clone());
                wait_on(&w, async move { d.wait().await })
            }
            _ => wait_on(&w, async move { l2.on_credit_update().await }),
        };
        w.step();
        vp::check(!op.done(), "wait.early");
        let _ = w.outs();
        let mut reached: Option<Lv> = None;
        let ph = if sender { hs } else { hr };
        let lh = if sender { l.id() } else { r.handle() };

        // up to two things that end something; those that need an answer may not get it
        let mut pend: Vec<(Done, Lv)> = Vec::new();
        let mut up = |a: Lv| {
            if reached.is_none_or(|r| r < a) {
                reached = Some(a);
            }
        };
        for _ in 0..1 + vp::choose(2) {
            let ev = vp::choose(12);
            match ev {
                0 => {
                    // the peer detaches
                    if let Some((n, snd)) = opening {
                        // it refuses the link
                        w.feed(&attach(ch, n, hx, if snd { RECEIVER } else { SENDER }, Some(0), "", ""));
                        w.put(&detach(ch, hx, true, vp::fork()));
                        opening = None;
                    } else {
                        w.put(&detach(ch, ph, vp::fork(), vp::fork()));
                    }
                    up(Lv::Link);
                }
                1 => {
                    // the library detaches
                    if opening.is_some() {
                        vp::stop();
                    }
                    let (l, r) = (l.clone(), r.clone());
                    let o = if sender { wait_on(&w, async move { l.close().await }) } else { wait_on(&w, async move { r.close().await }) };
                    w.step();
                    let mut answered = false;
                    if w.outs().iter().any(|o| matches!(&o.f, Frame::Detach(d) if d.handle() == lh)) && vp::fork() {
                        w.put(&detach(ch, ph, true, false));
                        answered = true;
                    }
                    if answered {
                        up(Lv::Link);
                    }
                    pend.push((o, Lv::Link));
                }
                2 => {
                    w.put(&end(ch, vp::fork()));
                    up(Lv::Ses);
                }
                3 => {
                    // the library ends the session
                    let s = ses.clone();
                    let o = wait_on(&w, async move { s.end().await });
                    w.step();
                    if w.outs().iter().any(|o| matches!(&o.f, Frame::End(_))) && vp::fork() {
                        w.put(&end(ch, vp::fork()));
                    }
                    if o.done() {
                        up(Lv::Ses);
                    }
                    pend.push((o, Lv::Ses));
                }
                4 => {
                    w.put(&close(vp::fork()));
                    up(Lv::Con);
                }
                5 => {
                    w.w().peer.disconnect();
                    w.step();
                    up(Lv::Con);
                }
                6 => {
                    let s = sink.clone();
                    let o = if vp::fork() { wait_on(&w, async move { s.close().await }) } else { wait_on(&w, async move { s.close_with_error(error::LinkError::force_detach()).await }) };
                    w.step();
                    // the peer answers or not, and the transport goes
                    if vp::fork() {
                        w.put(&close(false));
                    }
                    w.w().peer.disconnect();
                    w.step();
                    pend.push((o, Lv::Con));
                    up(Lv::Con);
                }
                7 => {
                    sink.force_close();
                    w.step();
                    up(Lv::Con);
                }
                8 => {
                    // a frame of no session
                    w.put(&end(cx, false));
                    up(Lv::Con);
                }
                9 => {
                    // not a frame
                    w.put(&[0, 0, 0, 9, 2, 0, 0, 0, 0xff, 0, 0, 0, 8, 1, 0, 0, 0]);
                    up(Lv::Con);
                }
                10 => {
                    // two frames in one read
                    w.put(&[detach(ch, ph, true, false), end(ch, false)].concat());
                    up(Lv::Ses);
                }
                _ => {
                    w.put(&[end(ch, false), close(false)].concat());
                    up(Lv::Con);
                }
            }
            w.step();
        }
        let Some(got) = reached else { vp::stop() };
        if got >= lv && (opening.is_none() || got > Lv::Link) {
            vp::check(op.done(), "wait.forever");
        }
        for (o, lv) in &pend {
            if got > *lv {
                vp::check(o.done(), "wait.end_forever");
            }
        }
        vp::check(got < Lv::Con || ended.done(), "wait.connection");
        // operations on what has ended
        let mut late: Vec<(Done, &str)> = Vec::new();
        let other = kind == 5 || kind == 6;
        if (sender && !other) || got > Lv::Link {
            let x = l.clone();
            late.push((wait_on(&w, async move { vp::check(x.transfer(body_of(b"9")).send().await.is_err(), "wait.late_send") }), "wait.late_send"));
            let x = l.clone();
            late.push((wait_on(&w, async move { vp::check(!x.ready().await, "wait.late_ready") }), "wait.late_ready"));
            let x = l.clone();
            late.push((wait_on(&w, async move { x.close().await }), "wait.late_close"));
            let x = l.clone();
            late.push((wait_on(&w, async move { x.on_close().await }), "wait.late_on_close"));
        }
        if !sender || got > Lv::Link {
            let x = r.clone();
            late.push((wait_on(&w, async move { while let Some(Ok(v)) = x.recv().await { std::mem::forget(v); } }), "wait.late_recv"));
            let x = r.clone();
            late.push((wait_on(&w, async move { x.close().await }), "wait.late_close"));
        }
        for d in &keep {
            let d = d.clone();
            late.push((wait_on(&w, async move { d.wait().await }), "wait.late_delivery"));
        }
        if got > Lv::Link {
            let x = ses.clone();
            late.push((wait_on(&w, async move { vp::check(x.build_sender_link("u", "a").attach().await.is_err(), "wait.late_attach") }), "wait.late_attach"));
            let x = ses.clone();
            late.push((wait_on(&w, async move { vp::check(x.build_receiver_link("u", "a").attach().await.is_err(), "wait.late_attach") }), "wait.late_attach"));
            let x = ses.clone();
            late.push((wait_on(&w, async move { x.end().await }), "wait.late_end"));
            let x = ses.clone();
            late.push((wait_on(&w, async move { x.detach_sender_link(0, None).await }), "wait.late_detach"));
            let x = ses.clone();
            late.push((wait_on(&w, async move { x.detach_receiver_link(1, None).await }), "wait.late_detach"));
        }
        if got > Lv::Ses {
            let x = sink.clone();
            late.push((wait_on(&w, async move { vp::check(x.open_session().attach().await.is_err(), "wait.late_session") }), "wait.late_session"));
            let x = sink.clone();
            late.push((wait_on(&w, async move { x.on_close().await }), "wait.late_on_close"));
            vp::check(!sink.is_opened(), "wait.late_opened");
        }
        w.step();
        for (o, n) in &late {
            vp::check(o.done(), n);
        }
        std::mem::forget(keep);
    });
}
fn body_of(b: &[u8]) -> p::TransferBody {
    p::TransferBody::Data(ntex_bytes::Bytes::copy_from_slice(b))
}
