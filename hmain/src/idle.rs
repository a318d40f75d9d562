//! S13: idle time-outs.
use crate::net::*;
use crate::wire::*;
use crate::world::*;
use ntex_amqp::*;

/// Moves the clock; true if anything was written.
fn tick(w: &mut World<'_>, ms: u64) -> bool {
    vp::advance_time(ms * 1_000_000);
    futures_timer::vp_fire();
    !w.bytes().is_empty()
}

/// param: 1 server side, +10: nothing or zero announced, +20: the peer's frames arrive in between
pub fn h_s13_idle() {
    run(|rt| {
        let pr = vp::param();
        let none = pr / 10 == 1;
        let busy = pr / 10 == 2;
        let idle = vp::u32();
        if none {
            vp::assume(idle == 0);
        } else {
            // the resolution of timers is 16 ms
            vp::assume(idle >= 100);
            // one path for each small range; beyond that the rate does not depend on it
            vp::concretize(if idle < 4000 { idle as u64 >> 5 } else { u64::MAX });
        }
        let local = vp::u16();
        let mut w = Side::new(rt, pr % 2 == 1, Cfg { idle: if none && vp::fork() { None } else { Some(idle) }, local_idle: local, ..Default::default() });
        let ann = match &w {
            Side::C(c) => c.open.idle_time_out(),
            Side::S(s) => s.open.idle_time_out(),
        };
        vp::check(ann.unwrap_or(0) as u64 == local as u64 * 1000, "idle.announced");
        let ended = w.ended();
        let (mut t, mut last) = (0u64, 0u64);
        if none {
            for _ in 0..40 {
                t += 100 + t / 2;
                vp::check(!tick(&mut w, 100 + t / 2), "idle.unasked");
            }
            vp::check(!ended.done(), "idle.ended");
            vp::stop();
        }
        for _ in 0..3 {
            loop {
                let d = 8.max((t - last) / 32);
                t += d;
                if busy {
                    // an empty frame of the peer is no reason to be silent
                    w.feed(&[0, 0, 0, 8, 2, 0, 0, 0]);
                }
                if tick(&mut w, d) {
                    last = t;
                    break;
                }
                vp::check(idle as u64 > t - last, "idle.silent");
            }
        }
        vp::check(!ended.done(), "idle.ended");
    });
}
