//! Stand-in for `futures-timer`: no helper thread. A delay is due when the clock (which the
//! harness moves) has passed it; `vp_fire` wakes everything that waits.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
thread_local!(static WAIT: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) });
#[derive(Debug)]
pub struct Delay {
    at: Instant,
}
impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay { at: Instant::now() + dur }
    }
    pub fn reset(&mut self, dur: Duration) {
        self.at = Instant::now() + dur;
    }
}
impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if Instant::now() >= self.at {
            Poll::Ready(())
        } else {
            WAIT.with(|w| w.borrow_mut().push(cx.waker().clone()));
            Poll::Pending
        }
    }
}
/// Wakes all delays, to be called after the clock has moved.
pub fn vp_fire() {
    let w = WAIT.with(|w| std::mem::take(&mut *w.borrow_mut()));
    for x in w {
        x.wake();
    }
}
