//! C21 frames, C22 messages, C23 refusals.
use crate::core::*;
use crate::props::http1::text;
use crate::refm::ws as W;
use crate::refm::ws::{Head, Verdict};
use algorithm::buf::{Binary, BinaryMut, Bt, BtMut};
use webparse::ws::frame_header::{read_header, write_header, WsFrameFlags};
use webparse::ws::{CloseCode, CloseData, DataFrame, DataFrameable, Masker, Message, Opcode, OwnedMessage, WsFrameHeader};
use webparse::{WebError, WebResult};

fn head_of(h: &WsFrameHeader) -> Head {
    Head {
        fin: h.flags.contains(WsFrameFlags::FIN),
        rsv: [h.flags.contains(WsFrameFlags::RSV1), h.flags.contains(WsFrameFlags::RSV2), h.flags.contains(WsFrameFlags::RSV3)],
        opcode: h.opcode,
        mask: h.mask,
        len: h.len,
    }
}

fn lib_head(h: &Head) -> WsFrameHeader {
    let mut flags = WsFrameFlags::empty();
    flags.set(WsFrameFlags::FIN, h.fin);
    flags.set(WsFrameFlags::RSV1, h.rsv[0]);
    flags.set(WsFrameFlags::RSV2, h.rsv[1]);
    flags.set(WsFrameFlags::RSV3, h.rsv[2]);
    WsFrameHeader { flags, opcode: h.opcode, mask: h.mask, len: h.len }
}

fn is_eof(e: &WebError) -> bool {
    matches!(e, WebError::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof)
}

fn gen_len(r: &mut Rng, control: bool) -> usize {
    if control {
        return match r.below(4) {
            0 => 125,
            1 => 0,
            _ => r.below(126),
        };
    }
    match r.below(24) {
        0 => 0,
        1 => r.range(123, 129),
        2 => r.range(65_533, 65_539),
        3 => r.range(250, 260),
        4 => r.range(1, 70_000),
        5 => r.range(126, 3000),
        _ => r.below(40),
    }
}

fn gen_mask(r: &mut Rng) -> Option<[u8; 4]> {
    match r.below(5) {
        0 | 1 => None,
        2 => Some([0; 4]),
        3 => Some([r.u8(), 0, 0, r.u8()]),
        _ => Some([r.u8(), r.u8(), r.u8(), r.u8()]),
    }
}

fn gen_rsv(r: &mut Rng) -> [bool; 3] {
    if r.chance(2, 3) {
        [false; 3]
    } else {
        [r.bool(), r.bool(), r.bool()]
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Fr {
    fin: bool,
    rsv: [bool; 3],
    opcode: u8,
    mask: Option<[u8; 4]>,
    data: Vec<u8>,
}

fn gen_frame(r: &mut Rng) -> Fr {
    let opcode = r.below(16) as u8;
    let n = gen_len(r, opcode >= 8);
    let data = if r.bool() { r.bytes(n) } else { (0..n).map(|i| i as u8).collect() };
    Fr { fin: opcode >= 8 || r.bool(), rsv: gen_rsv(r), opcode, mask: gen_mask(r), data }
}

fn brief(f: &Fr) -> String {
    format!("opcode {} fin {} rsv {:?} mask {:02x?} len {} {}", f.opcode, f.fin, f.rsv, f.mask, f.data.len(), hex(&f.data[..f.data.len().min(40)]))
}

fn lib_frame(f: &Fr) -> DataFrame {
    let mut d = DataFrame::new(f.fin, Opcode::new(f.opcode).unwrap(), f.data.clone());
    d.reserved = f.rsv;
    d
}

/// a payload given in pieces of all the sizes a writer can be called with
struct Pieces {
    f: Fr,
    cuts: Vec<usize>,
}
impl DataFrameable for Pieces {
    fn is_last(&self) -> bool {
        self.f.fin
    }
    fn opcode(&self) -> u8 {
        self.f.opcode
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.f.rsv
    }
    fn size(&self) -> usize {
        self.f.data.len()
    }
    fn write_payload(&self, s: &mut dyn BtMut) -> WebResult<()> {
        put_pieces(s, &self.f.data, &self.cuts);
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        self.f.data
    }
}

fn put_pieces(s: &mut dyn BtMut, data: &[u8], cuts: &[usize]) {
    let mut at = 0;
    for c in cuts {
        let left = &data[at..];
        if left.is_empty() {
            break;
        }
        at += match c % 8 {
            0 => s.put_u8(left[0]),
            1 if left.len() >= 2 => s.put_u16(u16::from_be_bytes([left[0], left[1]])),
            2 if left.len() >= 4 => s.put_u32(u32::from_be_bytes([left[0], left[1], left[2], left[3]])),
            3 if left.len() >= 8 => s.put_u64(u64::from_be_bytes(left[..8].try_into().unwrap())),
            4 => {
                s.put_slice(&[]);
                s.put_slice(&left[..1])
            }
            _ => {
                let n = (c / 8 % 40).min(left.len());
                s.put_slice(&left[..n])
            }
        };
    }
    s.put_slice(&data[at..]);
}

macro_rules! read_with {
    ($c:expr, $d:expr, $wire:expr, $which:expr, $f:expr) => {{
        let wire: &Vec<u8> = $wire;
        match $which {
            0 => {
                let mut b = &wire[..];
                $c.call("read", $d, || $f(&mut b)).map(|x| (x, b.len()))
            }
            1 => {
                let mut b = Binary::from(wire.clone());
                $c.call("read", $d, || $f(&mut b)).map(|x| (x, b.remaining()))
            }
            2 => {
                let mut b = BinaryMut::from(wire.clone());
                $c.call("read", $d, || $f(&mut b)).map(|x| (x, b.remaining()))
            }
            _ => {
                let mut b = CountBt::new(wire.clone());
                $c.call("read", $d, || $f(&mut b)).map(|x| (x, b.remaining()))
            }
        }
    }};
}

fn read_frame(c: &mut Ctx, d: &dyn Fn() -> String, wire: &Vec<u8>, which: usize, limit: Option<usize>, side: bool) -> Option<(WebResult<DataFrame>, usize)> {
    match limit {
        None => {
            fn go<B: Bt>(b: &mut B, side: bool) -> WebResult<DataFrame> {
                DataFrame::read_dataframe(b, side)
            }
            read_with!(c, d, wire, which, |b| go(b, side))
        }
        Some(l) => {
            fn go<B: Bt>(b: &mut B, side: bool, l: usize) -> WebResult<DataFrame> {
                DataFrame::read_dataframe_with_limit(b, side, l)
            }
            read_with!(c, d, wire, which, |b| go(b, side, l))
        }
    }
}

// ----------------------------------------------------------------- C21
fn c21_frames(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let n = r.range(1, 4);
    let n = r.count(n);
    let mut want = vec![];
    let mut out = BinaryMut::new();
    let mut vec_out: Vec<u8> = vec![];
    let use_vec = r.bool();
    if r.bool() {
        let k = r.below(20);
        want = r.bytes(k);
        out.put_slice(&want);
        vec_out.extend(&want);
    }
    let lead = want.len();
    let mut frames = vec![];
    for _ in 0..n {
        let f = gen_frame(r);
        let d = || brief(&f);
        let w = W::frame(f.fin, f.rsv, f.opcode, f.mask, &f.data);
        let cuts: Vec<usize> = (0..r.below(12)).map(|_| r.below(320)).collect();
        let lib = lib_frame(&f);
        let size = lib.frame_size(f.mask.is_some());
        c.check(size == w.len(), "announced-size", || format!("{} instead of {}; {}", size, w.len(), d()));
        c.check(
            lib.is_last() == f.fin && lib.opcode() == f.opcode && lib.reserved() == &f.rsv && lib.size() == f.data.len(),
            "accessors",
            d,
        );
        let sink: &mut dyn BtMut = if use_vec { &mut vec_out } else { &mut out };
        let res = if r.bool() {
            c.call("DataFrame::write_to", &d, || lib.write_to(sink, f.mask))
        } else {
            let p = Pieces { f: f.clone(), cuts };
            c.check(p.frame_size(f.mask.is_some()) == w.len(), "announced-size", d);
            c.count("written in pieces");
            c.call("write_to", &d, || p.write_to(sink, f.mask))
        };
        let Some(res) = res else { return };
        c.check(matches!(res, Ok(k) if k == w.len()), "returned-size", || format!("{:?} instead of {}; {}", res, w.len(), d()));
        let got = if use_vec { &vec_out[..] } else { out.chunk() };
        c.check(got.get(want.len()..) == Some(&w[..]), "octets", || {
            format!("{} instead of {}; {}", hex(&got[want.len().min(got.len())..]), hex(&w), d())
        });
        want.extend(&w);
        c.count(match f.data.len() {
            0..=125 => "7-bit length",
            126..=65535 => "16-bit length",
            _ => "64-bit length",
        });
        c.count(if f.mask.is_some() { "masked" } else { "unmasked" });
        c.seen(hash_bytes(&w));
        c.eq(&lib.take_payload(), &f.data, "payload", || "take_payload".into());
        frames.push(f);
    }
    let got = if use_vec { &vec_out[..] } else { out.chunk() };
    if !c.check(got == &want[..], "stream", || "the frames do not follow each other".into()) {
        return;
    }
    // read them all back from one buffer
    let k = r.below(9);
    want.extend(r.bytes(k));
    let mut at = lead;
    for f in &frames {
        let rest = want[at..].to_vec();
        let d = || brief(f);
        let which = r.below(4);
        let limit = if r.bool() { None } else { Some(f.data.len() + r.below(3)) };
        let Some((res, left)) = read_frame(c, &d, &rest, which, limit, r.bool()) else { return };
        let w = W::frame(f.fin, f.rsv, f.opcode, f.mask, &f.data);
        match res {
            Ok(g) => {
                c.check(g == lib_frame(f), "reread", || format!("{:?} for {}", g, d()));
                c.check(left == rest.len() - w.len(), "consumed", || format!("{} left of {}, frame of {}; {}", left, rest.len(), w.len(), d()));
            }
            Err(e) => {
                c.check(false, "reread-refused", || format!("{:?} for {}", e, d()));
                return;
            }
        }
        at += w.len();
    }
    c.sample(|| frames.iter().map(brief).collect::<Vec<_>>().join("; "));
}

fn gen_u64_len(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(130) as u64,
        1 => r.range(60_000, 70_000) as u64,
        2 => r.below(65_536) as u64,
        3 => (r.u64() >> 1) >> r.below(62),
        4 => *r.pick(&[125u64, 126, 127, 128, 255, 256, 65_535, 65_536, 65_537, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 63) - 1]),
        _ => r.below(10) as u64,
    }
}

fn c21_headers(r: &mut Rng, c: &mut Ctx, i: u64) {
    let b0 = i as u8;
    let h = {
        let opcode = b0 & 15;
        let mut len = gen_u64_len(r);
        if opcode >= 8 {
            len %= 126;
        }
        Head { fin: b0 & 128 != 0 || opcode >= 8, rsv: [b0 & 64 != 0, b0 & 32 != 0, b0 & 16 != 0], opcode, mask: gen_mask(r), len }
    };
    let w = W::head(&h);
    c.seen_bytes(&w);
    let d = || format!("{:?}", h);
    let mut out: Vec<u8> = vec![0x5a];
    let Some(res) = c.call("write_header", &d, || write_header(&mut out, lib_head(&h))) else { return };
    c.check(res.is_ok() && out[1..] == w[..], "header-octets", || format!("{:?} {} instead of {}; {}", res, hex(&out), hex(&w), d()));
    let n = r.below(12);
    let tail = r.bytes(n);
    let mut wire = w.clone();
    wire.extend(&tail);
    fn go<B: Bt>(b: &mut B) -> WebResult<WsFrameHeader> {
        read_header(b)
    }
    let Some((res, left)) = read_with!(c, &d, &wire, r.below(4), |b| go(b)) else { return };
    match res {
        Ok(g) => {
            c.check(head_of(&g) == h, "header-value", || format!("{:?} for {}", g, d()));
            c.check(left == tail.len(), "header-consumed", || format!("{} left instead of {}; {}", left, tail.len(), d()));
        }
        Err(e) => {
            c.check(false, "header-refused", || format!("{:?} for {}", e, d()));
        }
    }
    // a body handed over separately is unmasked the same way
    let n = r.below(40);
    let body = r.bytes(n);
    let side = r.bool();
    let Some(res) = c.call("read_dataframe_body", &d, || DataFrame::read_dataframe_body(lib_head(&h), W::xor(h.mask, &body), side)) else { return };
    let want = Fr { fin: h.fin, rsv: h.rsv, opcode: h.opcode, mask: None, data: body };
    c.check(matches!(&res, Ok(g) if *g == lib_frame(&want)), "body", || format!("{:?} for {}", res, d()));
}

fn c21_masker(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let key = [r.u8(), r.u8(), r.u8(), r.u8()];
    let n = match r.below(4) {
        0 => r.below(5000),
        _ => r.below(60),
    };
    let data = r.bytes(n);
    let cuts: Vec<usize> = (0..r.below(40)).map(|_| r.below(320)).collect();
    let d = || format!("key {:02x?} data {} pieces {:?}", key, hex(&data), cuts);
    let pre = r.below(4);
    let lead = r.bytes(pre);
    let mut out: Vec<u8> = lead.clone();
    let mut bm = BinaryMut::new();
    bm.put_slice(&lead);
    let use_vec = r.bool();
    let ok = c.call("Masker", &d, || {
        let sink: &mut dyn BtMut = if use_vec { &mut out } else { &mut bm };
        let mut m = Masker::new(key, sink);
        put_pieces(&mut m, &data, &cuts);
    });
    if ok.is_none() {
        return;
    }
    let got = if use_vec { &out[..] } else { bm.chunk() };
    let mut want = lead.clone();
    want.extend(W::xor(Some(key), &data));
    c.check(got == &want[..], "masker", || format!("{} instead of {}; {}", hex(got), hex(&want), d()));
    c.seen(hash_bytes(&want) ^ mix(cuts.len() as u64));
    c.max("pieces", cuts.len() as u64 + 1);
}

// ----------------------------------------------------------------- C22
#[derive(Clone, Debug, PartialEq, Eq)]
enum Msg {
    Text(String),
    Bin(Vec<u8>),
    Close(Option<(u16, String)>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

fn gen_msg(r: &mut Rng) -> Msg {
    match r.below(8) {
        0 | 1 => {
            let n = match r.below(12) {
                0 => r.range(60, 130),
                1 => r.range(100, 700),
                _ => r.below(30),
            };
            Msg::Text(text(r, n))
        }
        2 | 3 => {
            let n = gen_len(r, false);
            Msg::Bin(r.bytes(n))
        }
        4 => Msg::Close(None),
        5 => {
            let n = r.below(30);
            let code = match r.below(3) {
                0 => r.range(999, 1016) as u16,
                1 => r.below(4) as u16,
                _ => r.u32() as u16,
            };
            Msg::Close(Some((code, text(r, n))))
        }
        6 => {
            let n = gen_len(r, true);
            Msg::Ping(r.bytes(n))
        }
        _ => {
            let n = gen_len(r, true);
            Msg::Pong(r.bytes(n))
        }
    }
}

impl Msg {
    fn opcode(&self) -> u8 {
        match self {
            Msg::Text(_) => 1,
            Msg::Bin(_) => 2,
            Msg::Close(_) => 8,
            Msg::Ping(_) => 9,
            Msg::Pong(_) => 10,
        }
    }
    fn payload(&self) -> Vec<u8> {
        match self {
            Msg::Text(t) => t.clone().into_bytes(),
            Msg::Bin(b) | Msg::Ping(b) | Msg::Pong(b) => b.clone(),
            Msg::Close(None) => vec![],
            Msg::Close(Some((c, t))) => [&c.to_be_bytes()[..], t.as_bytes()].concat(),
        }
    }
    fn owned(&self) -> OwnedMessage {
        match self {
            Msg::Text(t) => OwnedMessage::Text(t.clone()),
            Msg::Bin(b) => OwnedMessage::Binary(b.clone()),
            Msg::Close(None) => OwnedMessage::Close(None),
            Msg::Close(Some((c, t))) => OwnedMessage::Close(Some(CloseData::new(*c, t.clone()))),
            Msg::Ping(b) => OwnedMessage::Ping(b.clone()),
            Msg::Pong(b) => OwnedMessage::Pong(b.clone()),
        }
    }
    fn borrowed<'a>(&'a self, own: bool) -> Message<'a> {
        match self {
            Msg::Text(t) if own => Message::text(t.clone()),
            Msg::Text(t) => Message::text(&t[..]),
            Msg::Bin(b) if own => Message::binary(b.clone()),
            Msg::Bin(b) => Message::binary(&b[..]),
            Msg::Close(None) => Message::close(),
            Msg::Close(Some((c, t))) if own => Message::close_because(*c, t.clone()),
            Msg::Close(Some((c, t))) => Message::close_because(*c, &t[..]),
            Msg::Ping(b) => Message::ping(&b[..]),
            Msg::Pong(b) if own => Message::pong(b.clone()),
            Msg::Pong(b) => {
                let mut m = Message::ping(&b[..]);
                assert!(m.into_pong().is_ok());
                m
            }
        }
    }
    fn of(m: &OwnedMessage) -> Msg {
        match m {
            OwnedMessage::Text(t) => Msg::Text(t.clone()),
            OwnedMessage::Binary(b) => Msg::Bin(b.clone()),
            OwnedMessage::Close(None) => Msg::Close(None),
            OwnedMessage::Close(Some(d)) => Msg::Close(Some((d.status_code, d.reason.clone()))),
            OwnedMessage::Ping(b) => Msg::Ping(b.clone()),
            OwnedMessage::Pong(b) => Msg::Pong(b.clone()),
        }
    }
    fn brief(&self) -> String {
        let p = self.payload();
        format!("opcode {} payload of {} {}", self.opcode(), p.len(), show(&p[..p.len().min(120)]))
    }
}

/// what a message is written as and how it describes itself
fn c22_write<M: DataFrameable>(r: &mut Rng, c: &mut Ctx, m: &Msg, lib: &M, d: &dyn Fn() -> String) -> Option<Vec<u8>> {
    let mask = gen_mask(r);
    let p = m.payload();
    c.check(
        lib.is_last() && lib.opcode() == m.opcode() && lib.reserved() == &[false; 3] && lib.size() == p.len(),
        "accessors",
        || format!("size {}; {}", lib.size(), d()),
    );
    let w = W::frame(true, [false; 3], m.opcode(), mask, &p);
    let n = lib.frame_size(mask.is_some());
    c.check(n == w.len(), "announced-size", || format!("{} instead of {}; {}", n, w.len(), d()));
    let mut out: Vec<u8> = vec![];
    let mut bm = BinaryMut::new();
    let use_vec = r.bool();
    let res = c.call("write_to", d, || lib.write_to(if use_vec { &mut out } else { &mut bm }, mask))?;
    let got = if use_vec { out } else { bm.chunk().to_vec() };
    if m.opcode() >= 8 && p.len() > 125 {
        c.count("control message over 125 octets");
        c.check(res.is_err(), "long-control-written", || format!("{:?} {}", res, d()));
        c.check(got.is_empty(), "long-control-traces", || format!("{} {}", hex(&got), d()));
        return None;
    }
    c.check(matches!(res, Ok(n) if n == w.len()), "returned-size", || format!("{:?} instead of {}; {}", res, w.len(), d()));
    if !c.check(got == w, "octets", || format!("{} instead of {}; {}", hex(&got), hex(&w), d())) {
        return None;
    }
    Some(got)
}

fn c22_messages(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let m = gen_msg(r);
    let d = || m.brief();
    c.count(["", "text", "binary", "", "", "", "", "", "close", "ping", "pong"][m.opcode() as usize]);
    c.seen(hash_bytes(&m.payload()) ^ mix(m.opcode() as u64));
    let own = r.bool();
    let wire = if r.bool() {
        let lib = m.owned();
        let ctl = m.opcode() >= 8;
        c.check(
            lib.is_control() == ctl && lib.is_data() == !ctl && lib.is_close() == (m.opcode() == 8) && lib.is_ping() == (m.opcode() == 9) && lib.is_pong() == (m.opcode() == 10),
            "class",
            d,
        );
        c.check(lib.message_size(false) == lib.frame_size(false) && lib.message_size(true) == lib.frame_size(true), "message-size", d);
        // conversions keep the message
        let there = Message::from(lib.clone());
        c.check(there == m.borrowed(own), "into-message", || format!("{:?}; {}", there, d()));
        let back = OwnedMessage::from(there);
        c.check(back == lib, "message-and-back", || format!("{:?}; {}", back, d()));
        c.check(lib.clone().take_payload() == m.payload(), "payload", d);
        c22_write(r, c, &m, &lib, &d)
    } else {
        let lib = m.borrowed(own);
        let back = OwnedMessage::from(lib.clone());
        c.check(Msg::of(&back) == m, "into-owned", || format!("{:?}; {}", back, d()));
        c.check(lib.clone().take_payload() == m.payload(), "payload", d);
        if m.opcode() != 9 {
            let mut x = lib.clone();
            c.check(x.into_pong().is_err() && x == lib, "pong-of-another", d);
        }
        c22_write(r, c, &m, &lib, &d)
    };
    let Some(mut wire) = wire else { return };
    let whole = wire.len();
    let k = r.below(5);
    wire.extend(r.bytes(k));
    let Some((res, left)) = read_frame(c, &d, &wire, r.below(4), None, r.bool()) else { return };
    let Ok(f) = res else {
        c.check(false, "reread-refused", || format!("{:?}; {}", res, d()));
        return;
    };
    c.check(left == wire.len() - whole, "consumed", || format!("{} left; {}", left, d()));
    let Some(res) = c.call("from_dataframes", &d, || OwnedMessage::from_dataframes(vec![f])) else { return };
    c.check(matches!(&res, Ok(g) if Msg::of(g) == m), "reread", || format!("{:?}; {}", res, d()));
    // a message is a frame too
    let whole = m.owned();
    let Some(res) = c.call("from_dataframes", &d, || OwnedMessage::from_dataframes(vec![whole])) else { return };
    c.check(matches!(&res, Ok(g) if Msg::of(g) == m), "from-message", || format!("{:?}; {}", res, d()));
    if let Msg::Close(Some((code, reason))) = &m {
        let cd = CloseData::new(*code, reason.clone());
        c.check(matches!(cd.into_bytes(), Ok(b) if b == m.payload()), "close-bytes", d);
        let cc = CloseCode::from(*code);
        let cd = CloseData::new(cc, reason.clone());
        c.check(cd.status_code == *code, "close-code", || format!("{:?}; {}", cc, d()));
    }
    c.sample(d);
}

/// a message cut into frames anywhere, written, read back and assembled
fn c22_fragments(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let m = gen_msg(r);
    let p = m.payload();
    if m.opcode() >= 8 && p.len() > 125 {
        return;
    }
    let n = r.range(1, 7);
    let n = if m.opcode() >= 8 { 1 } else { r.count(n) };
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| r.below(p.len() + 1)).collect();
    cuts.sort();
    cuts.push(p.len());
    let mut at = 0;
    let mut wire = vec![];
    let mut sent = vec![];
    for (k, end) in cuts.iter().enumerate() {
        let f = Fr { fin: k + 1 == n, rsv: [false; 3], opcode: if k == 0 { m.opcode() } else { 0 }, mask: gen_mask(r), data: p[at..*end].to_vec() };
        at = *end;
        if r.bool() {
            wire.extend(W::frame(f.fin, f.rsv, f.opcode, f.mask, &f.data));
        } else if c.call("write_to", &|| m.brief(), || lib_frame(&f).write_to(&mut wire, f.mask)).is_none() {
            return;
        }
        sent.push(f);
    }
    let d = || format!("{} cut at {:?}", m.brief(), cuts);
    let mut frames = vec![];
    let mut b = &wire[..];
    while !b.is_empty() && frames.len() <= n {
        match c.call("read_dataframe", &d, || DataFrame::read_dataframe(&mut b, false)) {
            Some(Ok(f)) => frames.push(f),
            Some(Err(e)) => {
                c.check(false, "fragment-refused", || format!("{:?}; {}", e, d()));
                return;
            }
            None => return,
        }
    }
    c.check(frames == sent.iter().map(lib_frame).collect::<Vec<_>>(), "fragments", d);
    let Some(res) = c.call("from_dataframes", &d, || OwnedMessage::from_dataframes(frames)) else { return };
    c.check(matches!(&res, Ok(g) if Msg::of(g) == m), "assembled", || format!("{:?}; {}", res, d()));
    c.add("fragments", n as u64);
    if let Msg::Text(t) = &m {
        if cuts.iter().any(|k| !t.is_char_boundary(*k)) {
            c.count("cut inside a character");
        }
    }
    c.seen(hash_bytes(&wire));
}

/// any list of frames: refused or assembled as the rules say
fn c22_judge(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        _ => r.range(2, 5),
    };
    let n = r.count(n);
    let first = r.below(16) as u8;
    let odd = r.below(3);
    // in a long list, one frame is out of place
    let n = if r.chance(1, 300) { r.range(9, 300) } else { n };
    let place = *r.pick(&[n.saturating_sub(1), 63, 64, 65, 127, 128, 129, 255, 256, 257, r.clone().below(n + 1)]);
    let mut fs = vec![];
    for k in 0..n {
        let opcode = if k == 0 {
            if r.bool() {
                *r.pick(&[1u8, 2, 8, 9, 10])
            } else {
                first
            }
        } else if odd == 0 && if n > 8 { k == place } else { r.chance(1, 3) } {
            r.below(16) as u8
        } else {
            0
        };
        let len = *r.pick(&[0usize, 1, 2, 3, 5, 9]);
        let data = match r.below(3) {
            0 => r.bytes(len),
            1 => r.from_set(b"ab \xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", len),
            _ => text(r, len).into_bytes(),
        };
        fs.push(Fr { fin: k + 1 == n, rsv: if odd == 1 && r.chance(1, 3) { gen_rsv(r) } else { [false; 3] }, opcode, mask: None, data });
    }
    let d = || fs.iter().map(brief).collect::<Vec<_>>().join("; ");
    let all: Vec<u8> = fs.iter().flat_map(|f| f.data.clone()).collect();
    let want: Result<Msg, &str> = (|| {
        let f = fs.first().ok_or("no frames")?;
        if fs.iter().any(|f| f.rsv != [false; 3]) {
            return Err("reserved bits");
        }
        if fs[1..].iter().any(|f| f.opcode != 0) {
            return Err("not a continuation");
        }
        Ok(match f.opcode {
            1 => Msg::Text(String::from_utf8(all.clone()).map_err(|_| "text")?),
            2 => Msg::Bin(all.clone()),
            9 => Msg::Ping(all.clone()),
            10 => Msg::Pong(all.clone()),
            8 => match all.len() {
                0 => Msg::Close(None),
                1 => return Err("close of one octet"),
                _ => Msg::Close(Some((all[0] as u16 * 256 + all[1] as u16, String::from_utf8(all[2..].to_vec()).map_err(|_| "reason")?))),
            },
            _ => return Err("opcode"),
        })
    })();
    c.seen(hash_bytes(&all) ^ mix(n as u64 * 16 + first as u64));
    let Some(res) = c.call("from_dataframes", &d, || OwnedMessage::from_dataframes(fs.iter().map(lib_frame).collect::<Vec<_>>())) else { return };
    match (&want, &res) {
        (Ok(m), Ok(g)) => {
            c.count("assembled");
            c.check(Msg::of(g) == *m, "judged", || format!("{:?}; {}", g, d()));
        }
        (Err(why), Err(_)) => {
            c.checks += 1;
            c.count(&format!("refused: {}", why))
        }
        (Ok(_), Err(e)) => {
            c.check(false, "valid-refused", || format!("{:?}; {}", e, d()));
        }
        (Err(why), Ok(g)) => {
            c.check(false, "invalid-assembled", || format!("{}: {:?}; {}", why, g, d()));
        }
    }
}

// ----------------------------------------------------------------- C23
/// every pair of leading octets, with length fields and cuts of all kinds
fn c23_headers(r: &mut Rng, c: &mut Ctx, i: u64) {
    let b0 = i as u8;
    let b1 = (i >> 8) as u8;
    let mut wire = vec![b0, b1];
    let ext = match b1 % 128 {
        126 => 2,
        127 => 8,
        _ => 0,
    };
    let len = gen_u64_len(r);
    wire.extend(&len.to_be_bytes()[8 - ext..]);
    let n = r.below(24);
    wire.extend(r.bytes(n));
    if r.chance(1, 3) {
        let k = r.below(wire.len() + 1);
        wire.truncate(k);
    }
    let d = || hex(&wire);
    c.seen_bytes(&wire);
    let v = W::judge(&wire);
    fn go<B: Bt>(b: &mut B) -> WebResult<WsFrameHeader> {
        read_header(b)
    }
    let Some((res, left)) = read_with!(c, &d, &wire, r.below(4), |b| go(b)) else { return };
    match (&v, &res) {
        (Verdict::Head(h, n), Ok(g)) => {
            c.count("header accepted");
            c.check(head_of(g) == *h, "header-value", || format!("{:?} for {}", g, d()));
            c.check(left == wire.len() - n, "header-consumed", || format!("{} left of {}", left, d()));
        }
        (Verdict::Head(..), Err(e)) => {
            c.check(false, "header-refused", || format!("{:?} for {}", e, d()));
        }
        (Verdict::Refuse(why), r) => {
            c.count(why);
            c.check(r.is_err(), "header-accepted", || format!("{}: {:?} for {}", why, r, d()));
        }
        (Verdict::Incomplete, r) => {
            c.count("incomplete header");
            c.check(matches!(r, Err(e) if is_eof(e)), "incomplete-header", || format!("{:?} for {}", r, d()));
        }
    }
    // the same octets as a whole frame, with and without a limit
    let limit = match (r.below(4), &v) {
        (0, _) => None,
        (1, Verdict::Head(h, _)) => Some((h.len.min(1 << 40) as usize + 1).saturating_sub(r.below(3))),
        (2, _) => Some(usize::MAX),
        _ => Some(r.below(200)),
    };
    let Some((res, left)) = read_frame(c, &d, &wire, r.below(4), limit, r.bool()) else { return };
    match &v {
        Verdict::Head(h, n) => {
            if limit.map_or(false, |l| h.len > l as u64) {
                c.count("over the limit");
                c.check(matches!(&res, Err(e) if !is_eof(e)), "limit-ignored", || format!("{:?} limit {:?} for {}", res, limit, d()));
            } else if h.len > (wire.len() - n) as u64 {
                c.count("incomplete payload");
                c.check(matches!(&res, Err(e) if is_eof(e)), "incomplete-payload", || format!("{:?} for {}", res, d()));
            } else {
                c.count("frame accepted");
                let p = &wire[*n..n + h.len as usize];
                let want = Fr { fin: h.fin, rsv: h.rsv, opcode: h.opcode, mask: None, data: W::xor(h.mask, p) };
                c.check(matches!(&res, Ok(g) if *g == lib_frame(&want)), "frame", || format!("{:?} limit {:?} for {}", res, limit, d()));
                c.check(left == wire.len() - n - p.len(), "frame-consumed", || format!("{} left of {}", left, d()));
            }
        }
        Verdict::Refuse(why) => {
            c.check(res.is_err(), "frame-accepted", || format!("{}: {:?} for {}", why, res, d()));
        }
        Verdict::Incomplete => {
            c.check(matches!(&res, Err(e) if is_eof(e)), "incomplete-frame", || format!("{:?} for {}", res, d()));
        }
    }
}

/// valid frames arriving in two parts, and limits around their length
fn c23_cuts(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let f = gen_frame(r);
    let w = W::frame(f.fin, f.rsv, f.opcode, f.mask, &f.data);
    let d = || brief(&f);
    c.seen(hash_bytes(&w));
    let cuts: Vec<usize> = if w.len() <= 40 { (0..w.len()).collect() } else { vec![r.below(15), w.len() - 1, r.below(w.len())] };
    for k in cuts {
        let limit = if r.bool() { None } else { Some(f.data.len()) };
        let Some((res, _)) = read_frame(c, &d, &w[..k].to_vec(), r.below(4), limit, r.bool()) else { return };
        c.count("cut frames");
        c.check(matches!(&res, Err(e) if is_eof(e)), "cut-accepted", || format!("{:?} after {} octets; {}", res, k, d()));
    }
    for limit in [f.data.len().wrapping_sub(1), f.data.len(), f.data.len() + 1, r.below(f.data.len() + 1)] {
        let Some((res, _)) = read_frame(c, &d, &w, r.below(4), Some(limit), r.bool()) else { return };
        if f.data.len() <= limit {
            c.check(matches!(&res, Ok(g) if *g == lib_frame(&f)), "limit-refused", || format!("{:?} limit {}; {}", res, limit, d()));
        } else {
            c.count("over the limit");
            c.check(matches!(&res, Err(e) if !is_eof(e)), "limit-exceeded", || format!("{:?} limit {}; {}", res, limit, d()));
            // the limit is applied before the payload is there
            let n = w.len() - f.data.len();
            let Some((res, _)) = read_frame(c, &d, &w[..n].to_vec(), r.below(4), Some(limit), r.bool()) else { return };
            c.check(matches!(&res, Err(e) if !is_eof(e)), "limit-late", || format!("{:?} limit {}; {}", res, limit, d()));
        }
    }
}

/// headers that are longer than needed
fn c23_minimal(r: &mut Rng, c: &mut Ctx, i: u64) {
    let form = 1 + (i % 2) as u8;
    let len = if form == 1 { r.below(126) } else if r.chance(1, 4) { r.range(65_500, 65_535) } else { r.below(3000) };
    let opcode = r.below(16) as u8;
    let h = Head { fin: true, rsv: gen_rsv(r), opcode, mask: gen_mask(r), len: len as u64 };
    let mut wire = W::head_as(&h, form);
    let body = r.bytes(len);
    wire.extend(W::xor(h.mask, &body));
    let d = || hex(&wire);
    c.seen_bytes(&wire);
    let limit = if r.bool() { None } else { Some(usize::MAX) };
    let Some((res, _)) = read_frame(c, &d, &wire, r.below(4), limit, r.bool()) else { return };
    c.count("longer length form than needed");
    c.check(res.is_err(), "not-minimal", || format!("{:?} for {}", res, d()));
}

/// what must never be written
fn c23_write(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut out: Vec<u8> = vec![];
    let h = if i % 2 == 0 {
        Head { fin: r.bool(), rsv: gen_rsv(r), opcode: r.range(16, 255) as u8, mask: gen_mask(r), len: gen_u64_len(r) }
    } else {
        Head { fin: true, rsv: gen_rsv(r), opcode: r.range(8, 15) as u8, mask: gen_mask(r), len: gen_u64_len(r).max(126) }
    };
    let d = || format!("{:?}", h);
    c.seen(hash_bytes(d().as_bytes()));
    c.count(if h.opcode > 15 { "opcode over 15" } else { "control frame over 125" });
    let Some(res) = c.call("write_header", &d, || write_header(&mut out, lib_head(&h))) else { return };
    c.check(res.is_err(), "header-written", || format!("{} {}", hex(&out), d()));
    c.check(out.is_empty(), "header-traces", || format!("{} {}", hex(&out), d()));
    if h.opcode > 15 {
        c.check(Opcode::new(h.opcode).is_none(), "opcode", d);
        return;
    }
    let n = match r.below(4) {
        0 => 126,
        1 => r.range(65_530, 65_540),
        _ => r.range(126, 400),
    };
    let f = Fr { fin: true, rsv: h.rsv, opcode: h.opcode, mask: h.mask, data: r.bytes(n) };
    let Some(res) = c.call("write_to", &d, || lib_frame(&f).write_to(&mut out, f.mask)) else { return };
    c.check(res.is_err() && out.is_empty(), "frame-written", || format!("{:?} {} octets; {}", res, out.len(), brief(&f)));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "frames are the octets RFC 6455 5.2 lays down, whatever pieces the payload is written in, and read back as themselves",
            parts: vec![
                part("frames", 120_000, 5_000_000, c21_frames),
                part("headers", 256 * 1500, 256 * 60_000, c21_headers),
                part("masker", 200_000, 8_000_000, c21_masker),
            ],
            assumptions: vec!["announced lengths fit in 63 bits"],
        },
        Prop {
            id: "C22",
            rule: "messages are assembled from their frames, and refused, as the statement says, and survive writing and reading",
            parts: vec![
                part("messages", 200_000, 8_000_000, c22_messages),
                part("fragments", 200_000, 8_000_000, c22_fragments),
                part("judge", 400_000, 16_000_000, c22_judge),
            ],
            assumptions: vec!["control frames between fragments are taken out by the caller", "the final flag is looked at by the caller"],
        },
        Prop {
            id: "C23",
            rule: "a frame is accepted exactly when its header is valid, it is within the limit and it has all arrived",
            parts: vec![
                part("headers", 65_536 * 8, 65_536 * 300, c23_headers),
                part("cuts", 60_000, 2_500_000, c23_cuts),
                part("minimal", 60_000, 1_000_000, c23_minimal),
                part("writer", 60_000, 1_000_000, c23_write),
            ],
            assumptions: vec!["lengths of 2^63 and above may go either way"],
        },
    ]
}
