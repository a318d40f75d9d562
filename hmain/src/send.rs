//! S03, S04: what deliveries look like on the wire.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::codec::protocol::{self as p, Frame, TransferBody};
use ntex_amqp::codec::{Encode, Message};
use ntex_amqp::*;
use ntex_bytes::{Bytes, BytesMut};

fn msg(data: &[u8], ann: usize) -> Message {
    let mut m = Message::with_body(Bytes::copy_from_slice(data));
    for i in 0..ann {
        m.add_message_annotation(["x-a", "x-b", "x-c"][i], ntex_amqp::codec::types::Variant::String("0123456789".into()));
    }
    m
}
fn encoded(m: &Message) -> Vec<u8> {
    let mut b = BytesMut::new();
    m.encode(&mut b);
    b.to_vec()
}
struct Sub {
    link: usize,
    body: Vec<u8>,
    tag: Option<Vec<u8>>,
    settled: bool,
    format: Option<u32>,
    op: Sent,
}
fn submit(w: &World<'_>, l: &SenderLink, link: usize, body: &[u8], message: Option<usize>, tag: Option<Vec<u8>>, settled: bool, format: Option<u32>) -> Sub {
    let (tb, want) = match message {
        Some(n) => {
            let m = msg(body, n);
            let e = encoded(&m);
            (TransferBody::Message(m), e)
        }
        None => (TransferBody::Data(Bytes::copy_from_slice(body)), body.to_vec()),
    };
    let mut b = l.delivery(tb);
    if let Some(t) = &tag {
        b = b.tag(Bytes::copy_from_slice(t));
    }
    if settled {
        b = b.settled();
    }
    if let Some(f) = format {
        b = b.format(f);
    }
    Sub { link, body: want, tag, settled, format, op: w.start(async move { b.send().await }) }
}

/// Deliveries of every kind on two links; param: 1 server side, +2: links in two sessions; +10*steps
pub fn h_s3_send() {
    run(|rt| {
        let pr = vp::param();
        let mut s = Side::new(rt, pr % 2 == 1, Cfg { max_frame: Some(600), ..Default::default() });
        let ses = s.session(0, 1, 1 << 30);
        let ses2 = if pr % 4 >= 2 { Some(s.session(1, 1, 1 << 30)) } else { None };
        let a = s.sender(&ses, 0, "a", 5, Some(0));
        let (c2, s2) = if let Some(x) = &ses2 { (1, x.clone()) } else { (0, ses.clone()) };
        let b = s.sender(&s2, c2, "b", 6, Some(0));
        s.put(&flow(0, FlowF { handle: Some(5), dc: Some(0), credit: Some(1000), ..Default::default() }));
        s.put(&flow(c2, FlowF { handle: Some(6), dc: Some(0), credit: Some(1000), ..Default::default() }));
        let _ = s.outs();
        let links = [a, b];
        let chans = [ses.local_channel_id(), s2.local_channel_id()];
        let mut rx = [Rx::default(), Rx::default()];
        let mut subs: Vec<Sub> = Vec::new();
        let mut first: Vec<(usize, p::Transfer)> = Vec::new();
        let steps = pr / 10;
        for i in 0..steps {
            {
                let link = vp::choose(2) as usize;
                let mut body = vp::arr::<3>().to_vec();
                let i = subs.len();
                let sub = match vp::choose(6) {
                    0 => submit(&s, &links[link], link, &body, None, None, false, None),
                    1 => {
                        body.resize(1200, i as u8);
                        submit(&s, &links[link], link, &body, None, None, vp::fork(), Some(vp::u32()))
                    }
                    2 => submit(&s, &links[link], link, &body, Some(1), None, true, None),
                    3 => {
                        body.resize(700, i as u8);
                        submit(&s, &links[link], link, &body, Some(2), None, false, None)
                    }
                    4 => submit(&s, &links[link], link, &[], None, Some(vec![i as u8; 32]), false, None),
                    _ => submit(&s, &links[link], link, &body, None, Some(vec![0xf0, i as u8]), true, Some(vp::u32())),
                };
                subs.push(sub);
            }
            if i + 1 < steps && vp::fork() {
                // the next one is submitted before anything runs
                continue;
            }
            for o in s.outs() {
                let Frame::Transfer(t) = o.f else { continue };
                let k = (0..2).find(|&k| o.ch == chans[k] && t.handle() == links[k].id());
                vp::check(k.is_some(), "send.link");
                let k = k.unwrap();
                let r = if ses2.is_some() { k } else { 0 };
                if t.delivery_id().is_some() && !first.iter().any(|f| f.0 == k && f.1.delivery_id() == t.delivery_id()) {
                    first.push((k, t.clone()));
                }
                // handles are per session
                rx[r].add(&t);
            }
            let mut n = [0, 0];
            for sub in &subs {
                let k = sub.link;
                let r = if ses2.is_some() { k } else { 0 };
                let d: Vec<_> = rx[r].done.iter().filter(|d| d.0 == links[k].id()).collect();
                vp::check(n[k] < d.len(), "send.lost");
                let d = d[n[k]];
                vp::check(d.3 == sub.body, "send.body");
                if let Some(t) = &sub.tag {
                    vp::check(&d.2 == t, "send.tag");
                }
                let f: Vec<_> = first.iter().filter(|f| f.0 == k).collect();
                let f = &f[n[k]].1;
                vp::check(f.settled().unwrap_or(false) == sub.settled, "send.settled");
                vp::check(f.message_format().unwrap_or(0) == sub.format.unwrap_or(0), "send.format");
                vp::check(!f.aborted(), "send.aborted");
                vp::check(sub.op.with(|v| matches!(v, Some(Ok(x)) if x.id() == d.1 && x.tag()[..] == d.2[..])), "send.result");
                n[k] += 1;
            }
            let total: usize = rx.iter().map(|r| r.done.len()).sum();
            vp::check(total == subs.len(), "send.extra");
        }
    });
}

/// Frame sizes; param: max frame size, +100000*kind of body (0 data, 1 message, 2 message with annotations), +1000000*(tag length class)
pub fn h_s4_size() {
    run(|rt| {
        let pr = vp::param();
        let tagc = pr / 1_000_000;
        let kind = pr / 100_000 % 10;
        let max = (pr % 100_000) as u32;
        let mut c = client(rt, Cfg { max_frame: Some(max), ..Default::default() });
        let ses = c.session(0, 1 << 30);
        let l = c.sender(&ses, 0, "a", 5, Some(0));
        c.put(&flow(0, FlowF { handle: Some(5), dc: Some(0), credit: Some(1000), ..Default::default() }));
        let _ = c.outs();
        let tag = match tagc {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![1; 32]),
            _ => {
                let n = vp::u32();
                vp::assume(n >= max - 90 && n <= max);
                Some(vec![1; vp::concretize(n as u64) as usize])
            }
        };
        // the body's length around one and two frames
        let n = vp::u32();
        let span = 120;
        if vp::fork() {
            vp::assume(n >= max - span && n <= max + 1);
        } else if vp::fork() {
            vp::assume(n >= 2 * max - 2 * span && n <= 2 * max + 1);
        } else {
            vp::assume(n <= 1);
        }
        let n = if tagc > 2 { 3 } else { vp::concretize(n as u64) as usize };
        let mut b = vp::arr::<2>().to_vec();
        b.resize(n.max(1), 7);
        if n == 0 {
            b.clear();
        }
        let settled = vp::fork();
        let m = match kind {
            0 => None,
            1 => Some(0),
            _ => Some(3),
        };
        let sub = submit(&c, &l, 0, &b, m, tag.clone(), settled, if kind == 0 && tagc > 0 { Some(0xffff_ffff) } else { None });
        let mut got = Vec::new();
        let (mut frames, mut more) = (0, false);
        for o in c.outs() {
            vp::check(o.len <= max as usize, "size.exceeded");
            if let Frame::Transfer(t) = o.f {
                vp::check(frames == 0 || more, "size.more");
                frames += 1;
                more = t.more();
                got.extend_from_slice(&body(&t));
            }
        }
        let ok = sub.op.with(|v| v.map(|v| v.is_ok()));
        vp::check(ok.is_some(), "size.waits");
        if ok == Some(true) {
            vp::check(frames > 0 && !more && got == sub.body, "size.content");
        } else {
            vp::check(frames == 0, "size.partial");
            vp::check(tagc > 2, "size.refused");
        }
    });
}
