//! C07: framing does not depend on chunking. C08: malformed headers are rejected.
use crate::g::*;
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::*;
use ntex_codec::{Decoder, Encoder};

/// A frame body of any bytes: rejected when it starts with 0xff, leaves a byte unread when it
/// starts with 0xfe.
#[derive(Debug, PartialEq, Clone)]
struct Rawf(Vec<u8>);
impl Decode for Rawf {
    fn decode(i: &mut BytesMut0) -> Result<Self, AmqpParseError> {
        match i.first() {
            Some(0xff) => Err(AmqpParseError::InvalidSize),
            Some(0xfe) => {
                let n = i.len() - 1;
                Ok(Rawf(i.split_to(n).to_vec()))
            }
            _ => {
                let n = i.len();
                Ok(Rawf(i.split_to(n).to_vec()))
            }
        }
    }
}
type BytesMut0 = Bytes;
impl Encode for Rawf {
    fn encoded_size(&self) -> usize {
        self.0.len()
    }
    fn encode(&self, b: &mut BytesMut) {
        b.extend_from_slice(&self.0)
    }
}
/// What a run of the decoder produced, with the input length at which each item appeared.
struct Seen<T> {
    items: Vec<(usize, T)>,
    err: Option<&'static str>,
    left: usize,
}
fn ename(e: &AmqpCodecError) -> &'static str {
    match e {
        AmqpCodecError::MaxSizeExceeded => "max",
        AmqpCodecError::InvalidFrameSize => "size",
        AmqpCodecError::UnparsedBytesLeft => "left",
        AmqpCodecError::ParseError(_) => "parse",
        _ => "other",
    }
}
fn feed<T: Decode + Encode + std::fmt::Debug>(c: &AmqpCodec<T>, b: &[u8], cuts: &[usize]) -> Seen<T> {
    let mut s = Seen { items: Vec::new(), err: None, left: 0 };
    let mut buf = BytesMut::new();
    let mut at = 0;
    for e in cuts.iter().copied().chain([b.len()]) {
        buf.extend_from_slice(&b[at..e]);
        at = e;
        loop {
            match c.decode(&mut buf) {
                Ok(Some(x)) => s.items.push((at, x)),
                Ok(None) => break,
                Err(e) => {
                    s.err = Some(ename(&e));
                    return s;
                }
            }
        }
    }
    s.left = buf.len();
    s
}
/// The cuts of the stream: none, one or two, anywhere, or after every byte.
fn cuts(n: usize, two: bool) -> Vec<usize> {
    match vp::choose(if two { 3 } else { 2 }) {
        0 => (1..n).collect(),
        1 => vec![vp::choose(n as u32 + 1) as usize],
        _ => {
            let a = vp::choose(n as u32 + 1) as usize;
            vec![a, a + vp::choose((n - a) as u32 + 1) as usize]
        }
    }
}
/// Any n = param % 100 bytes, limit param / 100 (0 none): frames are what the size fields cut
/// out of the stream, whatever the chunks.
pub fn h_f_chunks() {
    let (n, max) = (vp::param() as usize % 100, vp::param() as usize / 100);
    let mut v = symv(n);
    if n > 16 {
        // the sizes are chosen instead, of the first two frames; the others are of 9 bytes
        let mut p = 0;
        let mut i = 0;
        while p + 4 <= n {
            let size = if i < 2 { 8 + vp::choose((n - p - 4) as u32) as usize } else { 9 };
            v[p..p + 4].copy_from_slice(&(size as u32).to_be_bytes());
            p += size;
            i += 1;
        }
    }
    let cut = cuts(n, false);
    let got = feed(&AmqpCodec::<Rawf>::new().max_size(max), &v, &cut);
    // by the specification
    let mut p = 0;
    let mut i = 0;
    let mut err = None;
    while n - p >= 8 {
        let size = u32::from_be_bytes([v[p], v[p + 1], v[p + 2], v[p + 3]]) as u64;
        if max != 0 && size > max as u64 {
            err = Some("limit");
            break;
        }
        if size < 8 {
            err = Some("small");
            break;
        }
        if size > (n - p) as u64 {
            break;
        }
        let size = vp::concretize(size) as usize;
        let body = &v[p + 4..p + size];
        if body[0] == 0xff || body[0] == 0xfe {
            err = Some("body");
            break;
        }
        match got.items.get(i) {
            Some((at, x)) => {
                vp::check(x.0.len() == size - 4, "frame:consumes exactly the announced size");
                if x.0.len() == size - 4 {
                    vp::check(veqb(&x.0, body), "frame:holds exactly its bytes");
                }
                vp::check(*at >= p + size, "frame:is not delivered before it is complete");
                // the first cut at or behind its end
                let first = cut.iter().copied().chain([n]).find(|c| *c >= p + size);
                vp::check(first == Some(*at), "frame:is delivered when it is complete");
            }
            None => vp::check(false, "frame:complete frame is delivered"),
        }
        i += 1;
        p += size;
    }
    match err {
        // a size below the header may be refused by the frame decoder or by what decodes its body
        Some("small") => vp::check(got.items.len() >= i, "frame:frames before an error are delivered"),
        Some(_) => {
            vp::check(got.items.len() == i, "frame:nothing is delivered behind an error");
            vp::check(got.err.is_some(), "frame:error is reported");
        }
        None => {
            vp::check(got.items.len() == i, "frame:no frame that is not complete");
            vp::check(got.err.is_none(), "frame:no error without cause");
        }
    }
    // the same as when fed at once
    let whole = feed(&AmqpCodec::<Rawf>::new().max_size(max), &v, &[]);
    same(&whole, &got);
    if i > 0 {
        vp::cover("frame");
    }
    if i > 1 {
        vp::cover("two frames");
    }
    if err.is_some() {
        vp::cover("error");
    }
    vp::cover("end");
}
fn veqb(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}
fn same<T: PartialEq>(a: &Seen<T>, b: &Seen<T>) {
    vp::check(a.items.len() == b.items.len(), "chunk:same number of frames");
    vp::check(a.err == b.err, "chunk:same error");
    for i in 0..a.items.len().min(b.items.len()) {
        vp::check(a.items[i].1 == b.items[i].1, "chunk:same frames");
    }
    if a.err.is_none() {
        vp::check(a.left == b.left, "chunk:same bytes left");
    }
}
fn frame(b: &[u8], ty: u8) -> Vec<u8> {
    let mut v = ((b.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(&[2, ty]);
    v.extend_from_slice(&[vp::u8(), vp::u8()]);
    v.extend_from_slice(b);
    v
}
/// Real frames with symbolic content, in every pair of pieces (and every three for small ones).
pub fn h_f_frames() {
    let mut s = Vec::new();
    let k = vp::param();
    let ty = if k >= 10 { 1 } else { 0 };
    let mut ends = Vec::new();
    let mut add = |b: Vec<u8>| {
        s.extend_from_slice(&frame(&b, ty));
        ends.push(s.len());
    };
    match k {
        0 => {
            add(vec![]);
            add(vec![0, 0x53, 0x17, 0x45]); // end
            add(vec![]);
        }
        1 => {
            // flow, transfer with a body, disposition
            add(vec![0, 0x53, 0x14, 0xc0, 9, 4, 0x52, vp::u8(), 0x52, vp::u8(), 0xa0, 1, vp::u8(), 0x43, vp::u8(), vp::u8()]);
            add(vec![0, 0x53, 0x15, 0xc0, 5, 2, 0x41, 0x52, vp::u8(), 0x40]);
        }
        2 => {
            add(vec![0, 0x53, 0x13, 0xc0, 11, 5, 0x43, 0x70, 0, 0, vp::u8(), vp::u8(), 0x52, vp::u8(), 0x43, 0x43]);
            add(vec![0, 0x53, 0x18, 0xc0, 1, 0]);
        }
        3 => {
            // the second one is cut short
            add(vec![0, 0x53, 0x17, 0x45]);
            let t = frame(&[0, 0x53, 0x18, 0x45], ty);
            s.extend_from_slice(&t[..t.len() - 1]);
        }
        4 => {
            // the second one is malformed
            add(vec![0, 0x53, 0x17, 0x45]);
            add(vec![0, 0x53, 0x17, vp::u8()]);
            add(vec![]);
        }
        10 => {
            add(vec![0, 0x53, 0x40, 0xc0, 6, 1, 0xa3, 3, b'a', vp::ascii::<1>()[0], b'c']);
            add(vec![0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0]);
        }
        _ => {
            add(vec![0, 0x53, 0x42, 0xc0, 4, 1, 0xa0, 1, vp::u8()]);
            add(vec![0, 0x53, 0x43, 0xc0, 4, 1, 0xa0, 1, vp::u8()]);
        }
    }
    let cut = cuts(s.len(), s.len() < 30);
    if ty == 0 {
        chunked::<AmqpFrame>(&s, &cut, &ends, k);
    } else {
        chunked::<SaslFrame>(&s, &cut, &ends, k);
    }
    vp::cover("end");
}
fn chunked<T: Decode + Encode + std::fmt::Debug + PartialEq>(s: &[u8], cut: &[usize], ends: &[usize], k: u64) {
    let a = feed(&AmqpCodec::<T>::new(), s, &[]);
    let b = feed(&AmqpCodec::<T>::new(), s, cut);
    same(&a, &b);
    if k != 4 {
        vp::check(a.err.is_none() && a.items.len() == ends.len(), "frame:well-formed frames are delivered");
        for (i, (at, _)) in b.items.iter().enumerate() {
            let first = cut.iter().copied().chain([s.len()]).find(|c| *c >= ends[i]);
            vp::check(first == Some(*at), "frame:is delivered when it is complete");
        }
    }
}
/// Protocol header, then the rest of the stream, in every two pieces.
pub fn h_f_proto() {
    let n = 11;
    let v = symv(n);
    let mut cut = vec![vp::choose(n as u32 + 1) as usize, n];
    if vp::fork() {
        cut = (1..=n).collect();
    }
    let mut buf = BytesMut::new();
    let mut at = 0;
    let mut got = None;
    for c in cut {
        buf.extend_from_slice(&v[at..c]);
        at = c;
        let before = buf.len();
        match ProtocolIdCodec.decode(&mut buf) {
            Ok(None) => {
                vp::check(at < 8, "proto:header is read when complete");
                vp::check(buf.len() == before, "proto:nothing is consumed before the header is complete");
            }
            Ok(Some(p)) => {
                got = Some(Ok(p));
                break;
            }
            Err(_) => {
                got = Some(Err(()));
                break;
            }
        }
    }
    let good = v[0] == b'A' && v[1] == b'M' && v[2] == b'Q' && v[3] == b'P' && v[5] == 1 && v[6] == 0 && v[7] == 0;
    let id = v[4];
    match got {
        None => vp::check(false, "proto:header is read when complete"),
        Some(Ok(p)) => {
            vp::check(at >= 8 && buf.len() == at - 8, "proto:consumes exactly eight bytes");
            vp::check(veqb(&buf[..], &v[8..at]), "proto:what follows is left alone");
            let want = match p {
                ProtocolId::Amqp => 0,
                ProtocolId::AmqpTls => 2,
                ProtocolId::AmqpSasl => 3,
            };
            vp::check(good, "proto:only AMQP 1.0.0 is accepted");
            vp::check(id == want, "proto:protocols are told apart");
            vp::cover("ok");
        }
        Some(Err(())) => {
            vp::check(!(good && (id == 0 || id == 2 || id == 3)), "proto:supported headers are accepted");
            vp::cover("err");
        }
    }
}
/// Emitted protocol headers.
pub fn h_f_proto_out() {
    let (p, id) = [(ProtocolId::Amqp, 0u8), (ProtocolId::AmqpTls, 2), (ProtocolId::AmqpSasl, 3)][vp::choose(3) as usize];
    let mut b = BytesMut::new();
    let r = ProtocolIdCodec.encode(p, &mut b);
    vp::check(r.is_ok() && b[..] == [b'A', b'M', b'Q', b'P', id, 1, 0, 0], "proto:emitted header");
    match ProtocolIdCodec.decode(&mut b) {
        Ok(Some(q)) => vp::check(q == p && b.is_empty(), "proto:emitted header is read back"),
        _ => vp::check(false, "proto:emitted header is read back"),
    }
    vp::cover("end");
}
/// Any announced size and any configured maximum.
pub fn h_f_size() {
    let size = vp::u32();
    let max = match vp::choose(4) {
        0 => 0,
        1 => 512,
        2 => vp::u32() as usize,
        _ => vp::u64() as usize,
    };
    let mut c = AmqpCodec::<AmqpFrame>::new();
    if vp::fork() {
        c = c.max_size(max);
    } else {
        c.set_max_size(max);
    }
    let mut b = BytesMut::new();
    b.extend_from_slice(&size.to_be_bytes());
    // an empty frame, and the beginning of another
    b.extend_from_slice(&[2, 0, 0, 7]);
    let more = vp::choose(3) as usize;
    b.extend_from_slice(&[0, 0, 0, 8][..2 * more]);
    let total = 8 + 2 * more;
    match c.decode(&mut b) {
        Err(_) => {
            vp::check(size < 8 || (max != 0 && size as usize > max) || (size > 8 && size as usize <= total), "size:a size within limits is not refused");
            vp::cover("err");
        }
        Ok(None) => {
            vp::check(size >= 8 && (max == 0 || size as usize <= max), "size:a size outside the limits is refused");
            vp::check(size as usize > total, "size:complete frame is delivered");
            vp::cover("wait");
        }
        Ok(Some(f)) => {
            vp::check(size == 8 && (max == 0 || max >= 8), "size:a size outside the limits is refused");
            vp::check(f.channel_id() == 7 && matches!(f.performative(), Frame::Empty) && b.len() == total - 8, "size:the empty frame");
            vp::cover("frame");
        }
    }
}
/// Frame header of any data offset, type and channel; the performative stands behind `ext`
/// bytes of extended header. param: ext length + 100 * kind.
pub fn h_f_header() {
    let (ext, kind) = (vp::param() as usize % 100, vp::param() / 100);
    let perf: &[u8] = match kind {
        0 => &[0, 0x53, 0x17, 0x45],
        1 => &[],
        2 => &[0, 0x53, 0x11, 0xc0, 7, 4, 0x40, 0x43, 0x52, 9, 0x52, 8],
        _ => &[0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0],
    };
    let sasl = kind == 3;
    let (doff, ty, ch) = (vp::u8(), vp::u8(), vp::u16());
    let len = 8 + ext + perf.len();
    let doff = if doff as usize * 4 <= len + 4 { vp::concretize(doff as u64) as u8 } else { doff };
    let mut v = (len as u32).to_be_bytes().to_vec();
    v.extend_from_slice(&[doff, ty]);
    v.extend_from_slice(&ch.to_be_bytes());
    // bytes no performative starts with
    for _ in 0..ext {
        let b = vp::u8();
        vp::assume(b != 0);
        v.push(b);
    }
    v.extend_from_slice(perf);
    let mut b = BytesMut::new();
    b.extend_from_slice(&v);
    b.extend_from_slice(&[0, 0, 0, 8, 2, ty, 0, 0]);
    let want = doff as usize * 4 == 8 + ext && ty == sasl as u8;
    let ok = if sasl {
        match AmqpCodec::<SaslFrame>::new().decode(&mut b) {
            Ok(Some(f)) => {
                vp::check(matches!(&f.body, SaslFrameBody::SaslOutcome(o) if matches!(o.code(), SaslCode::Ok)), "header:the body behind the extended header");
                true
            }
            Ok(None) => {
                vp::check(false, "header:complete frame gives an answer");
                false
            }
            Err(_) => false,
        }
    } else {
        match AmqpCodec::<AmqpFrame>::new().decode(&mut b) {
            Ok(Some(f)) => {
                vp::check(f.channel_id() == ch, "header:channel");
                let body = match (kind, f.performative()) {
                    (0, Frame::End(e)) => e.error.is_none(),
                    (1, Frame::Empty) => true,
                    // everything behind the header is extended header
                    (_, Frame::Empty) => doff as usize * 4 == len,
                    (2, Frame::Begin(b)) => b.incoming_window() == 9 && b.outgoing_window() == 8,
                    _ => false,
                };
                vp::check(body, "header:the body behind the extended header");
                true
            }
            Ok(None) => {
                vp::check(false, "header:complete frame gives an answer");
                false
            }
            Err(_) => false,
        }
    };
    if ok {
        vp::check(ty == sasl as u8, "header:a frame of another type is refused");
        vp::check(doff >= 2, "header:a data offset below the header is refused");
        vp::check(doff as usize * 4 <= len, "header:a data offset beyond the frame is refused");
        vp::check(want || (!sasl && doff as usize * 4 == len), "header:the body starts at the data offset");
        vp::check(b.len() == 8, "header:what follows is left alone");
        vp::cover("ok");
    } else {
        vp::check(!want, "header:a correct header is accepted");
        vp::cover("err");
    }
}
/// A frame cut short after k bytes of its header is not delivered or refused silently.
pub fn h_f_short() {
    let size = vp::param() as usize; // 4..8, real size below the header
    let mut v = (size as u32).to_be_bytes().to_vec();
    v.extend_from_slice(&symv(12));
    let mut b = BytesMut::new();
    b.extend_from_slice(&v);
    let r = if vp::fork() { AmqpCodec::<AmqpFrame>::new().decode(&mut b).is_err() } else { AmqpCodec::<SaslFrame>::new().decode(&mut b).is_err() };
    vp::check(r, "size:a frame smaller than its header is refused");
    vp::cover("end");
}
