use crate::net::*;
use crate::wire::*;
use crate::world::*;

pub fn h_p_connect() {
    run(|rt| {
        let mut c = client(rt, Cfg::default());
        vp::cover("done");
        vp::check(c.sink.is_opened(), "opened");
        let s = c.session(0, 1000);
        vp::cover("session");
        let l = c.sender(&s, 0, "l", 5, None);
        vp::cover("link");
        let a = c.send(&l, b"hello");
        c.step();
        vp::check(!a.done(), "no credit");
        c.flow(0, FlowF { handle: Some(5), dc: Some(0), credit: Some(1), ..Default::default() });
        vp::check(a.done(), "sent");
        let t = c.transfers();
        vp::check(t.len() == 1, "one");
        vp::cover("sent");
    });
}
