//! In-memory transport, driver and frame writer/reader for the connection harnesses.
use ntex_io::{Handle, Io, IoBoxed, IoContext, IoStream, IoTaskStatus};
use ntex_rt::{Driver, Notify, PollResult, Runtime};
use ntex_service::cfg::SharedCfg;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug)]
struct Quiet;
impl Notify for Quiet {
    fn notify(&self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Drv<F>(RefCell<Option<F>>);
impl<F: FnOnce(&Runtime) + 'static> Driver for Drv<F> {
    fn handle(&self) -> Box<dyn Notify> {
        Box::new(Quiet)
    }
    fn run(&self, rt: &Runtime) -> std::io::Result<()> {
        (self.0.borrow_mut().take().unwrap())(rt);
        vp::stop()
    }
    fn clear(&self) {}
}

/// Runs the harness body inside a runtime; never returns.
pub fn run<F: FnOnce(&Runtime) + 'static>(f: F) {
    let rt = Runtime::new(Box::new(Quiet));
    let d = Drv(RefCell::new(Some(f)));
    rt.block_on(async { std::future::pending::<()>().await }, &d);
}

/// Polls the runtime until nothing is left to do.
pub fn settle(rt: &Runtime) {
    let mut n = 0;
    while matches!(rt.poll(), PollResult::PollAgain) {
        n += 1;
        vp::check(n < 1000, "runtime.spins");
    }
}

struct Mem(Rc<RefCell<Option<IoContext>>>);
impl IoStream for Mem {
    fn start(self, ctx: IoContext) -> Option<Box<dyn Handle>> {
        *self.0.borrow_mut() = Some(ctx);
        None
    }
}

/// The peer's end of the connection.
pub struct Peer {
    ctx: IoContext,
    pub out: Vec<u8>,
    pub stopped: bool,
}

pub fn pipe(cfg: SharedCfg) -> (IoBoxed, Peer) {
    let c = Rc::new(RefCell::new(None));
    let io = Io::new(Mem(c.clone()), cfg);
    let io = IoBoxed::from(io);
    let ctx = c.borrow_mut().take().unwrap();
    (io, Peer { ctx, out: Vec::new(), stopped: false })
}

impl Peer {
    /// Bytes from the peer.
    pub fn feed(&mut self, b: &[u8]) {
        if self.ctx.is_stopped() {
            return;
        }
        let mut buf = self.ctx.get_read_buf();
        buf.extend_from_slice(b);
        let _ = self.ctx.release_read_buf(b.len(), buf, Poll::Pending);
    }
    /// Collects what has been written so far.
    pub fn take(&mut self) -> Vec<u8> {
        self.pump();
        std::mem::take(&mut self.out)
    }
    /// What the read and write tasks of a transport do.
    pub fn pump(&mut self) {
        let w = Waker::noop();
        let mut cx = Context::from_waker(w);
        let _ = self.ctx.poll_read_ready(&mut cx);
        while let Some(buf) = self.ctx.get_write_buf() {
            let n = buf.len();
            self.out.extend_from_slice(&buf);
            if self.ctx.release_write_buf(buf, Poll::Ready(Ok(n))) == IoTaskStatus::Stop {
                self.stopped = true;
                break;
            }
        }
        if self.ctx.shutdown(false, &mut cx).is_ready() {
            self.stopped = true;
            self.ctx.stop(None);
        }
    }
    /// The transport is lost.
    pub fn disconnect(&mut self) {
        self.ctx.stop(None);
    }
    pub fn closed(&self) -> bool {
        self.ctx.is_stopped()
    }
}

/// A future polled by hand.
pub struct Task<T> {
    f: Pin<Box<dyn Future<Output = T>>>,
    pub done: Option<T>,
}
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Task<T> {
        Task { f: Box::pin(f), done: None }
    }
    pub fn poll(&mut self) -> bool {
        if self.done.is_none() {
            let mut cx = Context::from_waker(Waker::noop());
            if let Poll::Ready(v) = self.f.as_mut().poll(&mut cx) {
                self.done = Some(v);
            }
        }
        self.done.is_some()
    }
}
