//! Builds the frames the peer sends, with fixed-width encodings so that symbolic fields do not fork the decoder.
#[derive(Clone)]
pub struct L(pub Vec<u8>, pub u32);
impl L {
    pub fn new() -> L {
        L(Vec::new(), 0)
    }
    fn raw(mut self, code: u8, b: &[u8]) -> L {
        self.0.push(code);
        self.0.extend_from_slice(b);
        self.1 += 1;
        self
    }
    pub fn null(self) -> L {
        self.raw(0x40, &[])
    }
    pub fn nulls(mut self, n: usize) -> L {
        for _ in 0..n {
            self = self.null();
        }
        self
    }
    pub fn uint(self, v: u32) -> L {
        self.raw(0x70, &v.to_be_bytes())
    }
    pub fn opt(self, v: Option<u32>) -> L {
        match v {
            Some(v) => self.uint(v),
            None => self.null(),
        }
    }
    pub fn ulong(self, v: u64) -> L {
        self.raw(0x80, &v.to_be_bytes())
    }
    pub fn ushort(self, v: u16) -> L {
        self.raw(0x60, &v.to_be_bytes())
    }
    pub fn ubyte(self, v: u8) -> L {
        self.raw(0x50, &[v])
    }
    pub fn boolean(self, v: bool) -> L {
        self.raw(if v { 0x41 } else { 0x42 }, &[])
    }
    pub fn str(self, s: &str) -> L {
        let mut b = vec![s.len() as u8];
        b.extend_from_slice(s.as_bytes());
        self.raw(0xa1, &b)
    }
    pub fn sym(self, s: &str) -> L {
        let mut b = vec![s.len() as u8];
        b.extend_from_slice(s.as_bytes());
        self.raw(0xa3, &b)
    }
    pub fn bin(self, s: &[u8]) -> L {
        let mut b = vec![s.len() as u8];
        b.extend_from_slice(s);
        self.raw(0xa0, &b)
    }
    /// A described list.
    pub fn desc(self, code: u8, l: L) -> L {
        let mut b = vec![0x53, code];
        b.extend_from_slice(&l.list());
        self.raw(0, &b)
    }
    pub fn list(&self) -> Vec<u8> {
        let mut b = vec![0xd0];
        b.extend_from_slice(&(self.0.len() as u32 + 4).to_be_bytes());
        b.extend_from_slice(&self.1.to_be_bytes());
        b.extend_from_slice(&self.0);
        b
    }
}
pub fn frame(ty: u8, ch: u16, code: u8, l: L, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![0, 0x53, code];
    b.extend_from_slice(&l.list());
    b.extend_from_slice(payload);
    let mut f = (b.len() as u32 + 8).to_be_bytes().to_vec();
    f.extend_from_slice(&[2, ty]);
    f.extend_from_slice(&ch.to_be_bytes());
    f.extend_from_slice(&b);
    f
}
pub fn amqp(ch: u16, code: u8, l: L) -> Vec<u8> {
    frame(0, ch, code, l, &[])
}
pub fn open(max_frame: Option<u32>, channel_max: Option<u16>, idle: Option<u32>) -> Vec<u8> {
    let l = L::new().str("peer").null().opt(max_frame);
    let l = match channel_max {
        Some(v) => l.ushort(v),
        None => l.null(),
    };
    amqp(0, 0x10, l.opt(idle))
}
pub fn begin(ch: u16, remote: Option<u16>, next_out: u32, inw: u32, outw: u32) -> Vec<u8> {
    let l = L::new();
    let l = match remote {
        Some(v) => l.ushort(v),
        None => l.null(),
    };
    amqp(ch, 0x11, l.uint(next_out).uint(inw).uint(outw))
}
pub const SENDER: bool = false;
pub const RECEIVER: bool = true;
/// `role` is the peer's.
pub fn attach(ch: u16, name: &str, handle: u32, role: bool, dc: Option<u32>, source: &str, target: &str) -> Vec<u8> {
    attach_max(ch, name, handle, role, dc, source, target, None)
}
pub fn attach_max(ch: u16, name: &str, handle: u32, role: bool, dc: Option<u32>, source: &str, target: &str, max: Option<u64>) -> Vec<u8> {
    let l = L::new().str(name).uint(handle).boolean(role).null().null();
    let l = l.desc(0x28, L::new().str(source)).desc(0x29, L::new().str(target));
    let l = l.null().null().opt(dc);
    let l = match max {
        Some(v) => l.ulong(v),
        None => l,
    };
    amqp(ch, 0x12, l)
}
#[derive(Clone, Copy)]
pub struct FlowF {
    pub nin: Option<u32>,
    pub inw: u32,
    pub nout: u32,
    pub outw: u32,
    pub handle: Option<u32>,
    pub dc: Option<u32>,
    pub credit: Option<u32>,
    pub drain: bool,
    pub echo: bool,
}
impl Default for FlowF {
    fn default() -> Self {
        FlowF { nin: Some(1), inw: 1 << 30, nout: 1, outw: 1 << 30, handle: None, dc: None, credit: None, drain: false, echo: false }
    }
}
pub fn flow(ch: u16, f: FlowF) -> Vec<u8> {
    let l = L::new().opt(f.nin).uint(f.inw).uint(f.nout).uint(f.outw).opt(f.handle).opt(f.dc).opt(f.credit).null();
    amqp(ch, 0x13, l.boolean(f.drain).boolean(f.echo))
}
pub struct Tr<'a> {
    pub handle: u32,
    pub id: Option<u32>,
    pub tag: Option<&'a [u8]>,
    pub settled: Option<bool>,
    pub more: bool,
    pub aborted: bool,
    pub body: &'a [u8],
}
impl Default for Tr<'_> {
    fn default() -> Self {
        Tr { handle: 0, id: None, tag: Some(b"t"), settled: None, more: false, aborted: false, body: b"" }
    }
}
pub fn transfer(ch: u16, t: Tr) -> Vec<u8> {
    let l = L::new().uint(t.handle).opt(t.id);
    let l = match t.tag {
        Some(v) => l.bin(v),
        None => l.null(),
    };
    let l = l.null();
    let l = match t.settled {
        Some(v) => l.boolean(v),
        None => l.null(),
    };
    let l = l.boolean(t.more).null().null().null().boolean(t.aborted);
    frame(0, ch, 0x14, l, t.body)
}
/// state: 0x24 accepted, 0x25 rejected, 0x26 released, 0x27 modified; 0: none
pub fn disposition(ch: u16, role: bool, first: u32, last: Option<u32>, settled: bool, state: u8) -> Vec<u8> {
    let l = L::new().boolean(role).uint(first).opt(last).boolean(settled);
    let l = if state != 0 { l.desc(state, L::new()) } else { l };
    amqp(ch, 0x15, l)
}
pub fn detach(ch: u16, handle: u32, closed: bool, error: bool) -> Vec<u8> {
    let l = L::new().uint(handle).boolean(closed);
    amqp(ch, 0x16, if error { l.desc(0x1d, L::new().sym("amqp:internal-error")) } else { l })
}
pub fn end(ch: u16, error: bool) -> Vec<u8> {
    amqp(ch, 0x17, if error { L::new().desc(0x1d, L::new().sym("amqp:internal-error")) } else { L::new() })
}
pub fn close(error: bool) -> Vec<u8> {
    amqp(0, 0x18, if error { L::new().desc(0x1d, L::new().sym("amqp:internal-error")) } else { L::new() })
}
