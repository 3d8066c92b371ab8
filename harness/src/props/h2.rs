//! C16 control frames, C17 frame validity, C18 padding and dependency,
//! C19 splitting, C20 SETTINGS, C28 header lists and messages.
use crate::core::*;
use crate::props::hpack::{gen_field, gen_name, gen_value, show_fields};
use crate::refm::h2 as F;
use crate::refm::h2::{Raw, Verdict};
use crate::refm::hpack as R;
use crate::refm::hpack::Field;
use crate::refm::url as U;
use algorithm::buf::{Binary, BinaryMut, Bt};
use std::sync::{Arc, RwLock};
use webparse::http2::frame::{
    Data, ErrorCode, Flag, Frame, FrameHeader, GoAway, Headers, Kind, Ping, Priority, PushPromise, Reason, Reset, Settings,
    SizeIncrement, StreamDependency, StreamIdentifier, WindowUpdate,
};
use webparse::http2::{encoder::Encoder, Decoder, HeaderIndex};
use webparse::{HeaderMap, HeaderName, HeaderValue, Method, Request, Response, Scheme, Serialize, StatusCode, WebResult};

pub const NO_LIMIT: usize = 1 << 30;

// ------------------------------------------------------------ observation
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Pseudo {
    pub method: Option<String>,
    pub scheme: Option<String>,
    pub authority: Option<String>,
    pub path: Option<String>,
    pub status: Option<u16>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Got {
    Data { id: u32, end: bool, data: Vec<u8> },
    Headers { id: u32, end: bool, end_headers: bool, pseudo: Pseudo, fields: Vec<Field> },
    Priority { id: u32, dep: u32, weight: u8 },
    Reset { id: u32, code: u32 },
    Settings { ack: bool, s: F::Settings },
    Push { id: u32, end_headers: bool, promised: u32, pseudo: Pseudo, fields: Vec<Field> },
    Ping { ack: bool, payload: Vec<u8> },
    GoAway { last: u32, code: u32, debug: Vec<u8> },
    Window { id: u32, inc: u32 },
}

pub fn map_fields(h: &HeaderMap) -> Vec<Field> {
    h.iter().map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec())).collect()
}

macro_rules! pseudo_of {
    ($p:expr) => {
        Pseudo {
            method: $p.method.as_ref().map(|m| m.as_str().to_string()),
            scheme: $p.scheme.as_ref().map(|m| m.as_str().to_string()),
            authority: $p.authority.clone(),
            path: $p.path.clone(),
            status: $p.status.map(|s| s.as_u16()),
        }
    };
}

pub fn settings_of(s: &Settings) -> F::Settings {
    let mut v = F::Settings::default();
    v.v[1] = s.header_table_size();
    v.v[2] = s.is_push_enabled().map(|b| b as u32);
    v.v[3] = s.max_concurrent_streams();
    v.v[4] = s.initial_window_size();
    v.v[5] = s.max_frame_size();
    v.v[6] = s.max_header_list_size();
    v.v[8] = s.is_extended_connect_protocol_enabled().map(|b| b as u32);
    v
}

pub fn describe<T: Bt>(f: Frame<T>) -> Got {
    match f {
        Frame::Data(d) => Got::Data { id: d.stream_id().0, end: d.is_end_stream(), data: d.payload().chunk().to_vec() },
        Frame::Headers(h) => {
            let (id, end, eh) = (h.stream_id().0, h.is_end_stream(), h.is_end_headers());
            let (p, f) = h.into_parts();
            Got::Headers { id, end, end_headers: eh, pseudo: pseudo_of!(p), fields: map_fields(&f) }
        }
        Frame::Priority(p) => Got::Priority { id: p.stream_id().0, dep: p.dependency_id().0, weight: p.weight() },
        Frame::Reset(r) => Got::Reset { id: r.stream_id().0, code: r.reason().into() },
        Frame::Settings(s) => Got::Settings { ack: s.is_ack(), s: settings_of(&s) },
        Frame::PushPromise(h) => {
            let (id, eh, promised) = (h.stream_id().0, h.is_end_headers(), h.promised_id().0);
            let (p, f) = h.into_parts();
            Got::Push { id, end_headers: eh, promised, pseudo: pseudo_of!(p), fields: map_fields(&f) }
        }
        Frame::Ping(p) => Got::Ping { ack: p.is_ack(), payload: p.payload().to_vec() },
        Frame::GoAway(g) => {
            Got::GoAway { last: g.last_stream_id().0, code: g.reason().into(), debug: g.debug_data().chunk().to_vec() }
        }
        Frame::WindowUpdate(w) => Got::Window { id: w.stream_id().0, inc: w.size_increment() },
    }
}

/// pseudo-fields apart, a repeated name keeps the last value
fn sort_list(list: &[Field]) -> (Pseudo, Vec<Field>) {
    let mut p = Pseudo::default();
    let mut f: Vec<Field> = vec![];
    for (n, v) in list {
        let s = || Some(String::from_utf8_lossy(v).into_owned());
        match &n[..] {
            b":method" => p.method = s(),
            b":scheme" => p.scheme = s(),
            b":authority" => p.authority = s(),
            b":path" => p.path = s(),
            b":status" => p.status = s().unwrap().parse().ok(),
            _ => match f.iter_mut().find(|(m, _)| m == n) {
                Some(e) => e.1 = v.clone(),
                None => f.push((n.clone(), v.clone())),
            },
        }
    }
    (p, f)
}

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

/// what the frame says, for a frame that is valid; `Err` when its block is not decodable
fn expect(f: &Raw, dec: &mut R::Decoder) -> Result<Got, &'static str> {
    let b = F::unpad(f)?;
    Ok(match f.kind {
        F::DATA => Got::Data { id: f.id, end: f.has(1), data: b.to_vec() },
        F::HEADERS => {
            let b = if f.has(F::F_PRIORITY) { &b[5..] } else { b };
            let (list, _) = dec.decode(b)?;
            let (pseudo, fields) = sort_list(&list);
            Got::Headers { id: f.id, end: f.has(1), end_headers: f.has(4), pseudo, fields }
        }
        F::PRIORITY => Got::Priority { id: f.id, dep: be32(b) & F::U31, weight: b[4] },
        F::RST_STREAM => Got::Reset { id: f.id, code: be32(b) },
        F::SETTINGS => Got::Settings { ack: f.has(1), s: F::Settings::read(b)? },
        F::PUSH_PROMISE => {
            let (list, _) = dec.decode(&b[4..])?;
            let (pseudo, fields) = sort_list(&list);
            Got::Push { id: f.id, end_headers: f.has(4), promised: be32(b) & F::U31, pseudo, fields }
        }
        F::PING => Got::Ping { ack: f.has(1), payload: b.to_vec() },
        F::GOAWAY => Got::GoAway { last: be32(b) & F::U31, code: be32(&b[4..]), debug: b[8..].to_vec() },
        F::WINDOW_UPDATE => Got::Window { id: f.id, inc: be32(b) & F::U31 },
        _ => return Err("kind"),
    })
}

fn kind_of(k: u8) -> Kind {
    match k {
        0 => Kind::Data,
        1 => Kind::Headers,
        2 => Kind::Priority,
        3 => Kind::Reset,
        4 => Kind::Settings,
        5 => Kind::PushPromise,
        6 => Kind::Ping,
        7 => Kind::GoAway,
        8 => Kind::WindowUpdate,
        9 => Kind::Continuation,
        _ => Kind::Unregistered,
    }
}

fn flag_of(b: u8) -> Flag {
    Flag::new(b).expect("flags")
}

/// Reads one frame from its octets the way a connection does: header, then payload.
pub fn read_frame(bytes: &[u8], d: &mut Decoder, limit: usize, how: u64) -> WebResult<Got> {
    match how % 3 {
        0 => {
            let mut b = BinaryMut::from(bytes.to_vec());
            let h = FrameHeader::parse(&mut b)?;
            let p = Binary::from(b.chunk()[..h.length as usize].to_vec());
            Frame::<Binary>::parse(h, p, d, limit).map(describe)
        }
        1 => {
            let mut b: &[u8] = bytes;
            let h = FrameHeader::parse(&mut b)?;
            let p = BinaryMut::from(b[..h.length as usize].to_vec());
            Frame::<BinaryMut>::parse(h, p, d, limit).map(describe)
        }
        _ => {
            let mut b = CountBt::new(bytes.to_vec());
            let h = FrameHeader::parse(&mut b)?;
            let p = CountBt::new(b.chunk()[..h.length as usize].to_vec());
            Frame::<CountBt>::parse(h, p, d, limit).map(describe)
        }
    }
}

// ------------------------------------------------------------ generators
pub fn gen_id(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 1,
        1 => 2,
        2 => F::U31,
        3 => r.range(1, 300) as u32,
        4 => 1 << r.below(31),
        _ => (r.u32() & F::U31).max(1),
    }
}

fn gen_u32(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.below(16) as u32,
        1 => u32::MAX,
        2 => F::U31,
        3 => 1 << 31,
        4 => 1 << r.below(32),
        5 => (1u64 << r.range(1, 32)).wrapping_sub(1) as u32,
        _ => r.u32(),
    }
}

fn gen_setting(r: &mut Rng) -> (u16, u32) {
    let id = match r.below(10) {
        0 => r.u32() as u16,
        1 => *r.pick(&[0, 7, 9, 10, 0x0100, 0x0200, 0x0500, 0x0104, 0x8001, 0xffff]),
        _ => *r.pick(&F::KNOWN),
    };
    let ok = r.chance(14, 15);
    let val = match id {
        2 | 8 if ok => r.below(2) as u32,
        2 | 8 => *r.pick(&[2, 3, 256, 1 << 16, 1 << 24, 0x0101_0101, 0x100_0000, 1 << 31, u32::MAX]),
        4 if ok => *r.pick(&[0, 1, 65535, 65536, F::U31, F::U31 - 1, 1 << 30]),
        4 => *r.pick(&[1 << 31, F::U31 + 2, u32::MAX, 0xc000_0000]),
        5 if ok => *r.pick(&[16384, 16385, 16777215, 16777214, 65536, 1 << 20]),
        5 => *r.pick(&[0, 1, 16383, 16777216, 16777217, u32::MAX, 1 << 31, 100]),
        _ => gen_u32(r),
    };
    (id, val)
}

pub fn gen_settings_payload(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let n = r.len(20);
    for _ in 0..n {
        let (i, v) = gen_setting(r);
        b.extend(F::pair(i, v));
    }
    b
}

/// a valid frame of a type that needs no header block
fn gen_control(r: &mut Rng) -> Raw {
    match r.below(6) {
        0 => {
            let n = r.len(200);
            let mut p = ((gen_u32(r)) & F::U31).to_be_bytes().to_vec();
            p.extend(gen_u32(r).to_be_bytes());
            p.extend(r.bytes(n));
            Raw::new(F::GOAWAY, 0, 0, p)
        }
        1 => {
            let f = r.bool() as u8;
            Raw::new(F::PING, f, 0, r.bytes(8))
        }
        2 => {
            let id = gen_id(r);
            Raw::new(F::RST_STREAM, 0, id, gen_u32(r).to_be_bytes().to_vec())
        }
        3 => {
            let id = if r.chance(1, 3) { 0 } else { gen_id(r) };
            let inc = (gen_u32(r) & F::U31).max(1);
            Raw::new(F::WINDOW_UPDATE, 0, id, inc.to_be_bytes().to_vec())
        }
        4 => {
            let id = gen_id(r);
            let mut dep = gen_u32(r);
            if dep & F::U31 == id {
                dep ^= 1;
            }
            let mut p = dep.to_be_bytes().to_vec();
            p.push(r.u8());
            Raw::new(F::PRIORITY, 0, id, p)
        }
        _ => {
            if r.chance(1, 4) {
                return Raw::new(F::SETTINGS, F::F_ACK, 0, vec![]);
            }
            loop {
                let p = gen_settings_payload(r);
                if F::Settings::read(&p).is_ok() {
                    return Raw::new(F::SETTINGS, 0, 0, p);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C16
fn c16_headers(r: &mut Rng, c: &mut Ctx, i: u64) {
    // every type and flag octet, with lengths and streams of all sizes
    let kind = (i % 256) as u8;
    let flags = (i / 256 % 256) as u8;
    let len = match r.below(5) {
        0 => 0,
        1 => (1 << 24) - 1,
        2 => r.below(20),
        3 => 1 << r.below(24),
        _ => r.below(1 << 24),
    };
    let id = if r.chance(1, 5) { 0 } else { gen_id(r) };
    let reserved = r.bool();
    let n = r.below(20);
    let tail = r.bytes(n);
    let mut wire = F::header(len, kind, flags, id | (reserved as u32) << 31).to_vec();
    wire.extend(&tail);
    c.seen_bytes(&wire[..9]);
    let d = || hex(&wire);
    let want_flags = flags & 0x2d;
    macro_rules! read {
        ($b:expr) => {{
            let mut b = $b;
            let h = match c.call("FrameHeader::parse", &d, || FrameHeader::parse(&mut b)) {
                Some(Ok(h)) => h,
                Some(Err(e)) => {
                    c.check(false, "header-refused", || format!("{:?} for {}", e, d()));
                    return;
                }
                None => return,
            };
            c.check(b.chunk() == &tail[..], "header-consumed", || format!("{} left of {}", b.remaining(), d()));
            h
        }};
    }
    let h = match r.below(4) {
        0 => read!(&wire[..]),
        1 => read!(Binary::from(wire.clone())),
        2 => read!(BinaryMut::from(wire.clone())),
        _ => read!(CountBt::new(wire.clone())),
    };
    c.check(
        h.length as usize == len && h.stream_id().0 == id && *h.kind() == kind_of(kind) && h.flag().bits() & 0x2d == want_flags,
        "header-value",
        || format!("{:?} for {}", h, d()),
    );
    c.check(h.flag().bits() & !0x2d == 0 || h.flag().bits() == flags, "header-flags", || format!("{:?} for {}", h, d()));
    // and back
    if kind <= 9 {
        let mut out = BinaryMut::new();
        let pre = r.below(5);
        out.put_slice(&vec![0xEE; pre]);
        let mut h2 = FrameHeader::new(kind_of(kind), flag_of(want_flags), StreamIdentifier::from(id));
        h2.length = len as u32;
        c.eq(&FrameHeader { length: len as u32, kind: kind_of(kind), flag: flag_of(want_flags), id: StreamIdentifier(id) }, &h2, "header-new", d);
        let Some(n) = c.call("FrameHeader::encode", &d, || h2.encode(&mut out)) else { return };
        c.check(matches!(n, Ok(9)), "header-size", || format!("{:?}", n));
        let want = F::header(len, kind, want_flags, id);
        c.check(out.chunk()[pre..] == want, "header-octets", || format!("{} instead of {}", hex(&out.chunk()[pre..]), hex(&want)));
    }
    // fewer than nine octets are no header
    let cut = r.below(9);
    let Some(e) = c.call("FrameHeader::parse", &d, || FrameHeader::parse(&mut &wire[..cut]).is_err()) else { return };
    c.check(e, "header-short", || format!("{} octets accepted", cut));
    c.count(if kind <= 9 { "frame headers of known types" } else { "frame headers of unknown types" });
}

/// the library's value for a control frame
fn build(f: &Raw, r: &mut Rng) -> Option<Frame> {
    let p = &f.payload;
    Some(match f.kind {
        F::GOAWAY => {
            let (last, code) = (StreamIdentifier(be32(p)), Reason::from(be32(&p[4..])));
            Frame::GoAway(if p.len() == 8 && r.bool() {
                GoAway::new(last, code)
            } else {
                GoAway::with_debug_data(last, code, Binary::from(p[8..].to_vec()))
            })
        }
        F::PING => {
            let mut b = [0; 8];
            b.copy_from_slice(p);
            Frame::Ping(match (f.has(1), r.bool()) {
                (false, _) => Ping::new(b),
                (true, false) => Ping::pong(b),
                (true, true) => Ping::new(b).ret_pong(),
            })
        }
        F::RST_STREAM => Frame::Reset(Reset::new(StreamIdentifier(f.id), Reason::from(be32(p)))),
        F::WINDOW_UPDATE => Frame::WindowUpdate(WindowUpdate::new(StreamIdentifier(f.id), be32(p))),
        F::PRIORITY => {
            let h = FrameHeader { length: 5, kind: Kind::Priority, flag: Flag::zero(), id: StreamIdentifier(f.id) };
            Frame::Priority(Priority::parse(h, &mut &p[..]).ok()?)
        }
        _ => return None,
    })
}

fn c16_control(r: &mut Rng, c: &mut Ctx, i: u64) {
    let n = r.range(1, 4);
    let mut raws = vec![];
    let mut out = BinaryMut::new();
    let mut enc = Encoder::new();
    let mut want = vec![];
    if r.bool() {
        let k = r.below(30);
        want = r.bytes(k);
        out.put_slice(&want);
    }
    for _ in 0..n {
        let raw = gen_control(r);
        if raw.kind == F::SETTINGS {
            continue;
        }
        let d = || format!("{} {}", raw.brief(), hex(&raw.payload));
        let Some(f) = c.call("build", &d, || build(&raw, r)) else { return };
        let Some(f) = f else {
            c.check(false, "refused", d);
            return;
        };
        c.check(f.stream_id().0 == raw.id, "stream-id", || format!("{} for {}", f.stream_id(), d()));
        c.check(f.flags().bits() == raw.flags, "flags", || format!("{:?} for {}", f.flags(), d()));
        c.check(!f.is_end_stream() && !f.is_end_headers() && !f.is_data() && !f.is_header(), "class", d);
        let before = out.remaining();
        let w = F::write(&raw);
        let res = match (&f, r.below(3)) {
            // Ping has a second way out
            (Frame::Ping(p), 0) => {
                let mut p = p.clone();
                c.call("Ping::serialize", &d, || p.serialize(&mut out))
            }
            _ => c.call("Frame::encode", &d, || f.encode(&mut out, &mut enc)),
        };
        let Some(res) = res else { return };
        let Ok(size) = res else {
            c.check(false, "encode-error", || format!("{:?} for {}", res, d()));
            return;
        };
        c.check(size == w.len() && out.remaining() - before == size, "size", || {
            format!("{} returned, {} written, {} expected for {}", size, out.remaining() - before, w.len(), d())
        });
        want.extend(&w);
        c.count(["", "", "PRIORITY", "RST_STREAM", "SETTINGS", "", "PING", "GOAWAY", "WINDOW_UPDATE"][raw.kind as usize]);
        raws.push(raw);
    }
    c.check(out.chunk() == &want[..], "octets", || format!("{} instead of {}", hex(out.chunk()), hex(&want)));
    c.seen(F::digest(&raws) ^ hash_bytes(&want));
    // what was written, perhaps with reserved bits and undefined flags set, reads back
    let mut dec = Decoder::new();
    let mut rd = R::Decoder::new(4096);
    for raw in &raws {
        let mut m = raw.clone();
        m.reserved = r.bool();
        if r.bool() {
            m.flags |= r.u8() & !F::defined_flags(m.kind);
        }
        if matches!(m.kind, F::GOAWAY | F::WINDOW_UPDATE) && r.bool() {
            m.payload[0] |= 0x80;
        }
        let wire = F::write(&m);
        let d = || hex(&wire);
        let Some(g) = c.call("Frame::parse", &d, || read_frame(&wire, &mut dec, NO_LIMIT, i)) else { return };
        let w = expect(raw, &mut rd).unwrap();
        match g {
            Ok(g) => {
                c.check(g == w, "value", || format!("{:?} instead of {:?} for {}", g, w, d()));
            }
            Err(e) => {
                c.check(false, "refused", || format!("{:?} for {}", e, d()));
            }
        }
        c.sample(|| format!("{} {}", m.brief(), hex(&m.payload)));
    }
}

fn c16_pieces(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let v = gen_u32(r);
    let n = r.below(8);
    let tail = r.bytes(n);
    let mut wire = v.to_be_bytes().to_vec();
    wire.extend(&tail);
    let d = || hex(&wire);
    let mut b = &wire[..];
    let s = StreamIdentifier::parse(&mut b);
    c.check(s.0 == v & F::U31 && b == &tail[..], "id-parse", || format!("{:?} for {}", s, d()));
    // of fewer octets than four, none is made up and nothing is read past
    let k = r.below(4);
    let mut b = &wire[..k];
    if let Some(s) = c.call("StreamIdentifier::parse", &d, || StreamIdentifier::parse(&mut b)) {
        c.check(s.0 == 0, "short-id", || format!("{:?} for {}", s, hex(&wire[..k])));
    }
    let mut b = &wire[..];
    let e = ErrorCode::parse(&mut b);
    c.check(e.0 == v && b == &tail[..], "error-code-parse", || format!("{:?} for {}", e, d()));
    let mut b = &wire[..];
    let e = SizeIncrement::parse(&mut b);
    c.check(e.0 & F::U31 == v & F::U31 && b == &tail[..], "increment-parse", || format!("{:?} for {}", e, d()));
    let id = v & F::U31;
    let mut out = BinaryMut::new();
    let n1 = StreamIdentifier(id).encode(&mut out).unwrap_or(0);
    c.check(n1 == 4 && out.chunk() == id.to_be_bytes(), "id-encode", || hex(out.chunk()));
    let mut out = BinaryMut::new();
    let n1 = SizeIncrement(v).encode(&mut out);
    let n2 = SizeIncrement(v).serialize(&mut out).unwrap_or(0);
    let n3 = ErrorCode(v).serialize(&mut out).unwrap_or(0);
    let w = v.to_be_bytes();
    c.check(n1 == 4 && n2 == 4 && n3 == 4 && out.chunk() == [w, w, w].concat(), "piece-encode", || hex(out.chunk()));
    let x: u32 = Reason::from(v).into();
    c.eq(&x, &v, "reason", || String::new());
    // identifiers count upwards in steps of two
    let mut s = StreamIdentifier(id & 0x3fff_ffff);
    let (a, b2) = (s.next_id(), s.next_id());
    c.check(a.0 == id & 0x3fff_ffff && b2.0 == a.0 + 2 && s.0 == a.0 + 4, "next-id", || format!("{:?} {:?} {:?}", a, b2, s));
    c.check(a < b2 && b2 > a && a == a && a.to_string() == a.0.to_string() && a.is_zero() == (a.0 == 0), "id-order", || format!("{:?}", a));
    // stream dependency
    let mut p = v.to_be_bytes().to_vec();
    let w = r.u8();
    p.push(w);
    p.extend(&tail);
    let mut b = &p[..];
    let Some(x) = c.call("StreamDependency::load", &|| hex(&p), || StreamDependency::load(&mut b)) else { return };
    match x {
        Ok(x) => {
            let want = StreamDependency::new(StreamIdentifier(v & F::U31), w, v >> 31 == 1);
            c.check(x == want && x.dependency_id().0 == v & F::U31 && b == &tail[..], "dependency", || format!("{:?} for {}", x, hex(&p)));
        }
        Err(e) => {
            c.check(false, "dependency", || format!("{:?} for {}", e, hex(&p)));
        }
    }
    c.seen(v as u64);
}

// ------------------------------------------------------------------ C17
fn judge_wire(c: &mut Ctx, f: &Raw, dec: &mut Decoder, rd: &mut R::Decoder, how: u64) {
    let wire = F::write(f);
    let v = F::judge(f);
    let d = || format!("{} {}", f.brief(), hex(&wire));
    let Some(res) = c.call("Frame::parse", &d, || read_frame(&wire, dec, NO_LIMIT, how)) else { return };
    match (v, res) {
        (Verdict::Accept, Ok(g)) => {
            c.count("valid frames accepted");
            match expect(f, rd) {
                Ok(w) => {
                    c.check(g == w, "value", || format!("{:?} instead of {:?} for {}", g, w, d()));
                }
                Err(e) => {
                    c.check(false, "block-accepted", || format!("{} in {}", e, d()));
                }
            }
        }
        (Verdict::Accept, Err(e)) => {
            // a block that cannot be decoded is a reason to refuse
            let bad = expect(f, rd);
            if c.check(bad.is_err(), "refused", || format!("{:?} for {}", e, d())) {
                c.count("frames with an undecodable block refused");
            }
        }
        (Verdict::Refuse(why), Ok(g)) => {
            c.check(false, &format!("accepted:{}", why.replace(' ', "-")), || format!("{:?} for {}", g, d()));
        }
        (Verdict::Refuse(why), Err(e)) => {
            c.count(&format!("refused: {}", why));
            c.check(!e.is_partial(), "partial", d);
        }
        (Verdict::Open(_), r) => {
            let _ = expect(f, rd);
            c.count(if r.is_ok() { "open, accepted" } else { "open, refused" });
        }
    }
}

const IDS: [u32; 3] = [0, 1, F::U31];

fn c17_grid(_r: &mut Rng, c: &mut Ctx, i: u64) {
    // type x flags x stream x payload length x filling, exhaustively
    let mut i = i;
    let mut take = |n: u64| {
        let v = i % n;
        i /= n;
        v
    };
    let kind = take(9) as u8;
    let flags = take(256) as u8;
    let id = IDS[take(3) as usize];
    let len = take(20) as usize;
    let fill = take(4);
    let reserved = flags & 0x40 != 0;
    let mut payload = match fill {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => (0..len).map(|k| k as u8 + 1).collect(),
        _ => {
            // four octets naming stream one, then zeroes
            let mut v = vec![0; len];
            if len > 3 {
                v[3] = 1;
            }
            v
        }
    };
    // the octets of a header block are made harmless: index 2 over and over
    if kind == F::HEADERS || kind == F::PUSH_PROMISE {
        let mut at = 0;
        if flags & F::F_PADDED != 0 {
            at += 1;
            // keep some padding that fits
            if len > 0 && fill == 2 {
                payload[0] = (len as u8 - 1) / 2;
            }
        }
        if kind == F::HEADERS && flags & F::F_PRIORITY != 0 {
            at += 5;
        }
        if kind == F::PUSH_PROMISE {
            at += 4;
        }
        for p in payload.iter_mut().skip(at) {
            *p = 0x84;
        }
    }
    let f = Raw { kind, flags, reserved, id, payload };
    c.seen(mix(i ^ (kind as u64) << 8 ^ (flags as u64) << 16 ^ (id as u64) << 24 ^ (len as u64) << 56 ^ fill));
    let (mut d, mut rd) = (Decoder::new(), R::Decoder::new(4096));
    judge_wire(c, &f, &mut d, &mut rd, len as u64 + flags as u64);
}

/// a frame of any type, usually valid
fn gen_frame(r: &mut Rng, enc: &mut R::Encoder) -> Raw {
    let mut f = match r.below(10) {
        0..=3 => gen_control(r),
        4 => {
            let n = r.len(300);
            let mut f = Raw::new(F::DATA, r.u8() & 0xf7, gen_id(r), vec![]);
            f.payload = r.bytes(n);
            f
        }
        5 => {
            let p = gen_settings_payload(r);
            Raw::new(F::SETTINGS, r.u8() & 0xfe, 0, p)
        }
        6 => {
            let list = gen_list(r, 2);
            let b = encode_block(&list, enc, r);
            let mut p = gen_id(r).to_be_bytes().to_vec();
            p[0] |= if r.bool() { 0x80 } else { 0 };
            p.extend(b);
            Raw::new(F::PUSH_PROMISE, r.u8() & 0xf7, gen_id(r), p)
        }
        _ => {
            let rq = r.bool() as u8;
            let list = gen_list(r, rq);
            let b = encode_block(&list, enc, r);
            let mut f = Raw::new(F::HEADERS, r.u8() & 0xf7, gen_id(r), vec![]);
            if f.has(F::F_PRIORITY) {
                let mut dep = gen_u32(r);
                if dep & F::U31 == f.id {
                    dep ^= 1;
                }
                f.payload.extend(dep.to_be_bytes());
                f.payload.push(r.u8());
            }
            f.payload.extend(b);
            f
        }
    };
    if matches!(f.kind, F::DATA | F::HEADERS | F::PUSH_PROMISE) && r.chance(1, 3) {
        pad(r, &mut f);
    }
    f
}

fn pad(r: &mut Rng, f: &mut Raw) {
    let n = match r.below(4) {
        0 => 0,
        1 => 255,
        2 => r.range(1, 8),
        _ => r.u8() as usize,
    };
    f.flags |= F::F_PADDED;
    f.payload.insert(0, n as u8);
    let z = r.bool();
    f.payload.extend((0..n).map(|_| if z { 0 } else { r.u8() }));
}

fn c17_damage(r: &mut Rng, c: &mut Ctx, i: u64) {
    let (mut d, mut rd) = (Decoder::new(), R::Decoder::new(4096));
    let mut enc = R::Encoder::new(4096);
    let n = r.range(1, 3);
    for _ in 0..n {
        let f = gen_frame(r, &mut enc);
        c.seen(F::digest(&[f.clone()]) ^ hash_bytes(&f.payload));
        judge_wire(c, &f, &mut d, &mut rd, i);
    }
    // one damage, on a fresh connection so that the block may stop anywhere
    let mut enc = R::Encoder::new(4096);
    let mut f = gen_frame(r, &mut enc);
    match r.below(9) {
        0 => f.id = 0,
        1 => f.id = gen_id(r),
        2 => {
            let n = r.below(f.payload.len() + 1);
            f.payload.truncate(n);
        }
        3 => {
            let n = r.range(1, 6);
            let more = r.bytes(n);
            f.payload.extend(more);
        }
        4 => f.flags ^= 1 << r.below(8),
        5 => f.flags |= F::F_PADDED,
        6 => f.kind = r.below(9) as u8,
        7 => {
            if !f.payload.is_empty() {
                let k = r.below(f.payload.len().min(12));
                f.payload[k] = if r.bool() { 0 } else { r.u8() };
            }
        }
        _ => {
            for b in f.payload.iter_mut().take(4) {
                *b = 0;
            }
        }
    }
    c.seen(F::digest(&[f.clone()]) ^ hash_bytes(&f.payload));
    let (mut d, mut rd) = (Decoder::new(), R::Decoder::new(4096));
    let wire = F::write(&f);
    let dd = || format!("{} {}", f.brief(), hex(&wire));
    let v = F::judge(&f);
    if matches!(f.kind, F::HEADERS | F::PUSH_PROMISE) && v == Verdict::Accept {
        // the damaged block and its pseudo-fields are judged elsewhere (C12, C28)
        let Some(g) = c.call("Frame::parse", &dd, || read_frame(&wire, &mut d, NO_LIMIT, i)) else { return };
        c.count(if g.is_ok() { "damaged block, accepted" } else { "damaged block, refused" });
    } else {
        judge_wire(c, &f, &mut d, &mut rd, i);
    }
}

// ------------------------------------------------------------ header lists
const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];

fn gen_authority(r: &mut Rng) -> String {
    let h = crate::props::http1::gen_host(r);
    if r.bool() {
        h
    } else {
        format!("{}:{}", h, crate::props::http1::gen_port(r))
    }
}

fn gen_wire_path(r: &mut Rng) -> String {
    let mut s = String::from("/");
    let n = r.len(60);
    for _ in 0..n {
        match r.below(20) {
            0 => s.push('/'),
            1 => s.push('?'),
            2 => s.push_str(r.pick(&["%20", "%2F", "%3f", "%e4%B8%AD", "%25"])),
            3 => s.push(*r.pick(&['=', '&', ';', ':', '@', '!', '$', '\'', '(', ')', '*', '+', ','])),
            _ => s.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0189-._~") as char),
        }
    }
    s
}

/// names are distinct and lower case
fn gen_fields(r: &mut Rng, max: usize) -> Vec<Field> {
    let n = r.size(max);
    let n = r.count(n);
    let mut v: Vec<Field> = vec![];
    for i in 0..n {
        if i >= 25 {
            v.push((format!("{}-of-many-{}", r.pick(&["x", "a", "field"]), i).into_bytes(), gen_value(r)));
            continue;
        }
        let f = if r.chance(1, 3) { gen_field(r) } else { (gen_name(r), gen_value(r)) };
        if f.0[0] != b':' && !v.iter().any(|x| x.0 == f.0) {
            v.push(f);
        }
    }
    v
}

fn gen_scheme(r: &mut Rng) -> &'static str {
    *r.pick(&["http", "https", "http", "https", "ws", "wss", "ftp", "coap+tcp"])
}

/// what: 0 response, 1 request, 2 pushed request
fn gen_list(r: &mut Rng, what: u8) -> Vec<Field> {
    let mut p: Vec<Field> = vec![];
    let mut put = |n: &str, v: String| p.push((n.as_bytes().to_vec(), v.into_bytes()));
    if what == 0 {
        put(":status", r.range(100, 999).to_string());
    } else {
        if !r.chance(1, 15) {
            put(":method", r.pick(&METHODS).to_string());
        }
        if !r.chance(1, 8) {
            put(":scheme", gen_scheme(r).to_string());
        }
        if !r.chance(1, 8) {
            put(":authority", gen_authority(r));
        }
        if !r.chance(1, 8) {
            put(":path", gen_wire_path(r));
        }
    }
    r.shuffle(&mut p);
    p.extend(gen_fields(r, 12));
    p
}

fn encode_block(list: &[Field], enc: &mut R::Encoder, r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    if r.chance(1, 12) {
        let n = r.below(4097);
        enc.size_update(&mut b, n);
    }
    for (n, v) in list {
        enc.field(&mut b, n, v, r);
    }
    b
}

fn table_of(d: &Decoder) -> Vec<Field> {
    let i = d.index.read().unwrap();
    i.to_vec().iter().map(|(n, v)| (n.as_bytes().to_ascii_lowercase(), v.as_bytes().to_vec())).collect()
}

// ------------------------------------------------------------------ C18
fn c18_padding(r: &mut Rng, c: &mut Ctx, i: u64) {
    let (mut plain, mut padded) = (Decoder::new(), Decoder::new());
    let mut enc = R::Encoder::new(4096);
    let mut rd = R::Decoder::new(4096);
    let n = r.range(1, 5);
    for _ in 0..n {
        let mut f = loop {
            let f = gen_frame(r, &mut R::Encoder::new(0));
            if matches!(f.kind, F::DATA | F::HEADERS | F::PUSH_PROMISE) {
                break f;
            }
        };
        // rebuild it without padding and dependency, on this connection's state
        f.flags &= !(F::F_PADDED | F::F_PRIORITY);
        f.payload = match f.kind {
            F::DATA => {
                let n = r.len(600);
                r.bytes(n)
            }
            F::HEADERS => {
                let rq = r.bool() as u8;
                let l = gen_list(r, rq);
                encode_block(&l, &mut enc, r)
            }
            _ => {
                let mut p = gen_id(r).to_be_bytes().to_vec();
                let l = gen_list(r, 2);
                p.extend(encode_block(&l, &mut enc, r));
                p
            }
        };
        let mut g = f.clone();
        let mut on_itself = false;
        if g.kind == F::HEADERS && r.bool() {
            g.flags |= F::F_PRIORITY;
            let mut dep = gen_u32(r);
            if r.chance(1, 12) {
                // RFC 7540 5.3.1 makes it an error of the stream, RFC 9113
                // says nothing: it may be refused, but not misread
                dep = dep & !F::U31 | g.id;
            }
            on_itself = dep & F::U31 == g.id;
            let mut p = dep.to_be_bytes().to_vec();
            p.push(r.u8());
            p.extend(&g.payload);
            g.payload = p;
            c.count("with a stream dependency");
        }
        let dep_len = g.payload.len() - f.payload.len();
        if r.chance(4, 5) {
            pad(r, &mut g);
            c.count("with padding");
            c.max("pad length", g.payload[0] as u64);
        }
        let (wf, wg) = (F::write(&f), F::write(&g));
        c.seen(F::digest(&[g.clone()]) ^ hash_bytes(&g.payload));
        let d = || format!("{} {} / {} {}", f.brief(), hex(&wf), g.brief(), hex(&wg));
        // first what must be refused, and must leave no trace
        if r.chance(1, 3) && (g.has(F::F_PADDED) || dep_len > 0) {
            let mut b = g.clone();
            if b.has(F::F_PADDED) && r.bool() {
                let max = b.payload.len() - 1;
                if max < 255 {
                    b.payload[0] = r.range(max + 1, 255) as u8;
                } else {
                    b.payload.clear();
                }
            } else if b.has(F::F_PADDED) {
                b.payload.truncate(r.below(b.payload[0] as usize + 1));
            } else {
                b.payload.truncate(r.below(5));
            }
            let wb = F::write(&b);
            let before = table_of(&padded);
            let Some(x) = c.call("Frame::parse", &|| hex(&wb), || read_frame(&wb, &mut padded, NO_LIMIT, i)) else { return };
            c.check(x.is_err(), "bad-padding-accepted", || format!("{:?} for {} {}", x, b.brief(), hex(&wb)));
            c.check(table_of(&padded) == before, "bad-padding-trace", || hex(&wb));
            c.count("padding that does not fit");
        }
        let Some(a) = c.call("Frame::parse", &d, || read_frame(&wf, &mut plain, NO_LIMIT, i)) else { return };
        let Some(b) = c.call("Frame::parse", &d, || read_frame(&wg, &mut padded, NO_LIMIT, i)) else { return };
        let w = expect(&f, &mut rd).unwrap();
        match (a, b) {
            (Ok(a), Ok(b)) => {
                c.check(a == b, "differs", || format!("{:?} and {:?} for {}", a, b, d()));
                c.check(b == w, "value", || format!("{:?} instead of {:?} for {}", b, w, d()));
                if on_itself {
                    c.count("depending on its own stream, accepted");
                }
            }
            (Ok(_), Err(_)) if on_itself => {
                c.count("depending on its own stream, refused");
                return;
            }
            (a, b) => {
                c.check(false, "refused", || format!("{:?} and {:?} for {}", a.err(), b.err(), d()));
                return;
            }
        }
        let (ta, tb) = (table_of(&plain), table_of(&padded));
        c.check(ta == tb, "state", || format!("{} and {} after {}", show_fields(&ta), show_fields(&tb), d()));
        c.sample(|| d());
    }
}

fn c18_lengths(r: &mut Rng, c: &mut Ctx, i: u64) {
    // every pad length against every small payload length
    let pad = (i % 256) as usize;
    let len = (i / 256 % 40) as usize;
    let kind = [F::DATA, F::HEADERS, F::PUSH_PROMISE][(i / 10240 % 3) as usize];
    let dep = i / 30720 % 2 == 1 && kind == F::HEADERS;
    let mut body = match kind {
        F::DATA => vec![7u8; len],
        F::PUSH_PROMISE => {
            let mut v = vec![0, 0, 0, 2];
            v.extend(vec![0x84; len]);
            v
        }
        _ => {
            let mut v = if dep { vec![0x80, 0, 0, 9, 77] } else { vec![] };
            v.extend(vec![0x84; len]);
            v
        }
    };
    let mut f = Raw::new(kind, F::F_PADDED | if dep { F::F_PRIORITY } else { 0 }, 5, vec![]);
    // `pad` octets announced, `have` octets there
    let have = match r.below(3) {
        0 => pad,
        1 => r.below(pad + 1),
        _ => pad + r.below(5),
    };
    f.payload.push(pad as u8);
    f.payload.append(&mut body);
    f.payload.extend(vec![0x82; have]);
    let wire = F::write(&f);
    c.seen(hash_bytes(&wire));
    let (mut d, mut rd) = (Decoder::new(), R::Decoder::new(4096));
    judge_wire(c, &f, &mut d, &mut rd, i);
    // the flag says nothing on the other types
    let mut g = gen_control(r);
    g.flags |= F::F_PADDED;
    judge_wire(c, &g, &mut d, &mut rd, i);
    // and the public helper takes exactly the pad length octet
    let h = FrameHeader { length: f.payload.len() as u32, kind: kind_of(f.kind), flag: flag_of(f.flags), id: StreamIdentifier(5) };
    let mut b = &f.payload[..];
    let Some(x) = c.call("Frame::trim_padding", &|| hex(&wire), || Frame::<Binary>::trim_padding(&h, &mut b)) else { return };
    c.check(x.is_ok() == (pad <= f.payload.len() - 1), "trim", || format!("{:?} for {}", x, hex(&wire)));
}

// ------------------------------------------------------------------ C19
fn gen_max_frame(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.range(1, 12),
        1 => r.range(5, 100),
        2 => r.range(100, 1000),
        3 => r.range(1000, 16383),
        4 => *r.pick(&[16385, 65536, (1 << 24) - 1]),
        _ => 16384,
    }
}

fn c19_data(r: &mut Rng, c: &mut Ctx, i: u64) {
    let max = gen_max_frame(r);
    let len = match r.below(6) {
        0 => 0,
        1 => r.range(1, 40),
        2 => max * r.range(1, 4),
        3 => max * r.range(1, 4) + 1,
        4 => max * r.range(1, 4) - 1,
        _ => r.below(4 * max + 10),
    };
    let len = len.min(if i % 50 == 0 { 300_000 } else { 40_000 }).min(max * 400);
    // now and then more than any limit on one call could be
    let len = if i % 1500 == 7 { *r.pick(&[1 << 20, (1 << 20) + 1, 2_000_000, 5_000_000]) } else { len };
    let max = if len > 1_000_000 && max < 1000 { 16384 } else { max };
    let data: Vec<u8> = r.bytes(len);
    let id = gen_id(r);
    let flags = r.u8();
    let end = flags & 1 == 1;
    let d = || format!("DATA of {} octets, flags {:02x}, stream {}, frames of {}", len, flags, id, max);
    let mut out = BinaryMut::new();
    let pre = r.below(40);
    out.put_slice(&vec![0xAB; pre]);
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut enc = Encoder::new_index(index, max);
    let mut payload = if r.chance(1, 4) {
        // a buffer of which something was already read
        let mut v = vec![1, 2, 3];
        v.extend(&data);
        let mut b = Binary::from(v);
        b.advance(3);
        b
    } else {
        Binary::from(data.clone())
    };
    let h = FrameHeader { length: r.u32() & 0xffffff, kind: Kind::Data, flag: flag_of(flags), id: StreamIdentifier(id) };
    if r.chance(1, 5) {
        let d2: Data<Vec<u8>> = Data::new(h, payload).map(|b| b.chunk().to_vec());
        payload = Binary::from(d2.into_payload());
    }
    let mut f = Data::new(h, payload);
    c.check(f.payload().chunk() == &data[..] && f.stream_id().0 == id && f.is_end_stream() == end, "data-new", d);
    let mut end = end;
    if r.chance(1, 4) {
        end = r.bool();
        f.set_end_stream(end);
        c.check(f.is_end_stream() == end, "set-end", d);
    }
    if r.chance(1, 8) {
        f.set_padded();
    }
    let f = Frame::Data(f);
    c.check(f.stream_id().0 == id && f.is_end_stream() == end && f.is_data(), "class", d);
    let Some(res) = c.call("Frame::encode", &d, || f.encode(&mut out, &mut enc)) else { return };
    c.check(matches!(res, Ok(n) if n == out.remaining() - pre), "size", || format!("{:?}, {} written; {}", res, out.remaining() - pre, d()));
    c.check(out.chunk()[..pre].iter().all(|b| *b == 0xAB), "prefix", d);
    let frames = match F::split(&out.chunk()[pre..]) {
        Ok(f) => f,
        Err(e) => {
            c.check(false, "frames", || format!("{}; {}", e, d()));
            return;
        }
    };
    let show = || format!("{} as {}", d(), frames.iter().take(12).map(|f| f.brief()).collect::<String>());
    c.check(!frames.is_empty(), "none", &show);
    let mut got: Vec<u8> = vec![];
    for (k, f) in frames.iter().enumerate() {
        let last = k + 1 == frames.len();
        c.check(f.kind == F::DATA && f.id == id && !f.reserved, "kind", &show);
        c.check(f.payload.len() <= max, "too-large", &show);
        c.check(f.flags & 1 == (last && end) as u8, "end-stream", &show);
        c.check(f.flags & F::F_PADDED == 0, "padded", &show);
        got.extend(&f.payload);
    }
    c.check(got == data, "data", &show);
    // and the library reads them all back
    let mut dec = Decoder::new();
    let mut back = vec![];
    for f in &frames {
        let w = F::write(f);
        match c.call("Frame::parse", &show, || read_frame(&w, &mut dec, NO_LIMIT, i)) {
            Some(Ok(Got::Data { data, .. })) => back.extend(data),
            Some(x) => {
                c.check(false, "reread", || format!("{:?}; {}", x, show()));
                return;
            }
            None => return,
        }
    }
    c.check(back == data, "reread", &show);
    c.max("frames in one message", frames.len() as u64);
    c.add("DATA frames read", frames.len() as u64);
    c.seen(F::digest(&frames) ^ mix(max as u64));
}

/// name in any letter case
fn vary(r: &mut Rng, n: &[u8]) -> String {
    let s = String::from_utf8(n.to_vec()).unwrap();
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s,
    }
}

fn fields_map(r: &mut Rng, fields: &[Field]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in fields {
        let name: HeaderName = HeaderName::from_bytes(vary(r, n).as_bytes()).unwrap();
        m.insert(name, HeaderValue::from_bytes(v));
    }
    m
}

/// a HEADERS value and the list that has to appear on the wire
fn build_headers(r: &mut Rng, what: u8, big: bool) -> (Headers, Vec<Field>, u32, bool) {
    let list = if big {
        let mut l = gen_list(r, what);
        let n = r.range(1, 60);
        for k in 0..n {
            l.push((format!("x-big-{}", k).into_bytes(), gen_value(r)));
        }
        l
    } else {
        gen_list(r, what)
    };
    let (p, f) = sort_list(&list);
    let id = gen_id(r);
    let flags = r.u8();
    let through_map = r.chance(1, 4);
    let mut map = HeaderMap::new();
    if through_map {
        // pseudo-fields put in the map by the caller
        for (n, v) in list.iter().filter(|x| x.0[0] == b':') {
            map.insert(HeaderName::from_bytes(n).unwrap(), HeaderValue::from_bytes(v));
        }
    }
    for (n, v) in fields_map(r, &f) {
        map.insert(n, v);
    }
    let h = FrameHeader { length: 0, kind: Kind::Headers, flag: flag_of(flags), id: StreamIdentifier(id) };
    let mut h = if r.chance(1, 4) {
        let mut x = Headers::new(h, HeaderMap::new());
        *x.fields_mut() = map;
        x
    } else {
        Headers::new(h, map)
    };
    let mut end = flags & 1 == 1;
    if r.chance(1, 3) {
        h.set_end_stream();
        end = true;
    }
    if r.chance(1, 3) {
        h.set_end_headers();
        assert!(h.is_end_headers(), "END_HEADERS was set on HEADERS");
    }
    if !through_map {
        if let Some(m) = p.method {
            h.set_method(Method::try_from(&*m).unwrap());
        }
        if let Some(m) = p.scheme {
            h.set_scheme(Scheme::try_from(&*m).unwrap());
        }
        if let Some(m) = p.authority {
            h.set_authority(m);
        }
        if let Some(m) = p.path {
            h.set_path(m);
        }
        if let Some(m) = p.status {
            h.set_status(StatusCode::from_u16(m).unwrap());
        }
    }
    (h, list, id, end)
}

fn sorted(l: &[Field]) -> Vec<Field> {
    let mut v = l.to_vec();
    v.sort();
    v
}

/// one block on the wire: frame sequence rules, then its octets
fn check_block(
    c: &mut Ctx, frames: &[Raw], first: u8, id: u32, max: usize, end: bool, prefix: &[u8], show: &dyn Fn() -> String,
) -> Vec<u8> {
    let mut block = vec![];
    for (k, f) in frames.iter().enumerate() {
        let last = k + 1 == frames.len();
        c.check(f.kind == if k == 0 { first } else { F::CONTINUATION }, "kind", show);
        c.check(f.id == id && !f.reserved, "stream", show);
        // the fixed part of the first frame may be larger than a tiny limit
        c.check(f.payload.len() <= max || (k == 0 && max <= prefix.len()), "too-large", show);
        c.check(f.has(F::F_END_HEADERS) == last, "end-headers", show);
        if k == 0 {
            c.check(first != F::HEADERS || f.has(F::F_END_STREAM) == end, "end-stream", show);
            c.check(first == F::HEADERS || !f.has(F::F_END_STREAM), "end-stream", show);
            c.check(!f.has(F::F_PADDED), "padded", show);
            c.check(f.has(F::F_PRIORITY) == (first == F::HEADERS && !prefix.is_empty()), "priority-flag", show);
            if !c.check(f.payload.starts_with(prefix), "fixed-part", show) {
                return vec![];
            }
            block.extend(&f.payload[prefix.len()..]);
        } else {
            c.check(!f.has(F::F_END_STREAM), "end-stream", show);
            block.extend(&f.payload);
        }
    }
    block
}

/// cuts a frame list after the frame that ends the header block
fn take_block(frames: &[Raw]) -> (&[Raw], &[Raw]) {
    let n = frames.iter().position(|f| f.has(F::F_END_HEADERS)).map(|n| n + 1).unwrap_or(frames.len());
    frames.split_at(n)
}

fn c19_headers(r: &mut Rng, c: &mut Ctx, i: u64) {
    let max = gen_max_frame(r);
    let index = Arc::new(RwLock::new(HeaderIndex::new()));
    let mut enc = Encoder::new_index(index, max);
    let mut rd = R::Decoder::new(4096);
    let mut rd2 = R::Encoder::new(4096);
    let mut relay_dec = Decoder::new();
    let n = r.range(1, 4);
    let mut digest = mix(max as u64);
    for _ in 0..n {
        let mut out = BinaryMut::new();
        let big = r.chance(1, 6);
        if r.chance(2, 3) {
            let mut prefix = vec![];
            let what = r.bool() as u8;
            let (h, list, id, end) = if r.chance(1, 3) {
                // relayed: parsed from the wire, with a dependency, then written again
                let rq = r.bool() as u8;
                let list = gen_list(r, rq);
                let b = encode_block(&list, &mut rd2, r);
                let mut f = Raw::new(F::HEADERS, r.u8() & 0xd7, gen_id(r), b);
                if r.bool() {
                    f.flags |= F::F_PRIORITY;
                    let mut dep = gen_u32(r);
                    if dep & F::U31 == f.id {
                        dep ^= 4;
                    }
                    prefix = dep.to_be_bytes().to_vec();
                    prefix.push(r.u8());
                    let mut p = prefix.clone();
                    p.extend(&f.payload);
                    f.payload = p;
                }
                if r.bool() {
                    pad(r, &mut f);
                }
                let w = F::write(&f);
                let d = || hex(&w);
                let fh = FrameHeader { length: f.payload.len() as u32, kind: Kind::Headers, flag: flag_of(f.flags), id: StreamIdentifier(f.id) };
                let Some(x) = c.call("Frame::parse", &d, || Frame::parse(fh, Binary::from(f.payload.clone()), &mut relay_dec, NO_LIMIT)) else { return };
                let Ok(Frame::Headers(h)) = x else {
                    c.check(false, "relay-refused", || format!("{:?} for {}", x, d()));
                    return;
                };
                c.count("relayed HEADERS");
                (h, list, f.id, f.has(1))
            } else {
                build_headers(r, what, big)
            };
            let d = || format!("HEADERS {} stream {} end {} frames of {}", show_fields(&list), id, end, max);
            let eh = h.flags().bits() & 4 != 0;
            c.check(h.is_end_headers() == eh, "class", &d);
            let f: Frame = Frame::from(h);
            c.check(f.stream_id().0 == id && f.is_end_stream() == end && f.is_end_headers() == eh && f.is_header() && !f.is_data(), "class", &d);
            let Some(res) = c.call("Frame::encode", &d, || f.encode(&mut out, &mut enc)) else { return };
            c.check(matches!(res, Ok(n) if n == out.remaining()), "size", || format!("{:?}, {} written; {}", res, out.remaining(), d()));
            let frames = match F::split(out.chunk()) {
                Ok(f) => f,
                Err(e) => {
                    c.check(false, "frames", || format!("{}; {}", e, d()));
                    return;
                }
            };
            let show = || format!("{} as {}", d(), frames.iter().take(12).map(|f| f.brief()).collect::<String>());
            let block = check_block(c, &frames, F::HEADERS, id, max, end, &prefix, &show);
            match rd.decode(&block) {
                Ok((got, _)) => {
                    c.check(sorted(&got) == sorted(&list), "list", || format!("{} instead of {}", show_fields(&got), show()));
                    let k = got.iter().position(|f| f.0[0] != b':').unwrap_or(got.len());
                    c.check(got[k..].iter().all(|f| f.0[0] != b':'), "pseudo-first", || format!("{} in {}", show_fields(&got), show()));
                    let want: Vec<&Field> = list.iter().filter(|f| f.0[0] != b':').collect();
                    c.check(got[k..].iter().collect::<Vec<_>>() == want, "order", || format!("{} in {}", show_fields(&got), show()));
                }
                Err(e) => {
                    c.check(false, "block", || format!("{}; {} in {}", e, hex(&block), show()));
                    return;
                }
            }
            c.add("HEADERS and CONTINUATION frames read", frames.len() as u64);
            c.max("frames in one block", frames.len() as u64);
            digest ^= F::digest(&frames);
        } else {
            // PUSH_PROMISE, followed by the response head on the promised stream
            let (id, promised) = (gen_id(r), gen_id(r));
            let flags = r.u8();
            let list = gen_list(r, 2);
            let (p, mut f) = sort_list(&list);
            if big {
                for k in 0..r.range(1, 40) {
                    f.push((format!("x-big-{}", k).into_bytes(), gen_value(r)));
                }
            }
            let mut long = None;
            if r.chance(1, 8) {
                let n = r.range(1000, 40000);
                long = Some(format!("/{}", String::from_utf8(r.from_set(b"abcdef/", n)).unwrap()));
            }
            let map = fields_map(r, &f);
            let h = FrameHeader { length: 0, kind: Kind::PushPromise, flag: flag_of(flags), id: StreamIdentifier(id) };
            let mut push = PushPromise::new(h, StreamIdentifier(promised), map);
            let mut end = flags & 1 == 1;
            if r.chance(1, 3) {
                push.set_end_stream();
                end = true;
            }
            if r.chance(1, 3) {
                push.set_end_headers();
                c.check(push.is_end_headers() && push.flags().bits() & 4 != 0, "set-end", || "END_HEADERS of a PUSH_PROMISE".into());
            }
            let mut first: Vec<Field> = vec![];
            let mut second = f.clone();
            if let Some(m) = &p.method {
                push.set_method(Method::try_from(&**m).unwrap());
                first.push((b":method".to_vec(), m.clone().into_bytes()));
            }
            if let Some(m) = &p.authority {
                push.set_authority(m.clone());
                first.push((b":authority".to_vec(), m.clone().into_bytes()));
            }
            if let Some(m) = long.as_ref().or(p.path.as_ref()) {
                push.set_path(m.clone());
                first.push((b":path".to_vec(), m.clone().into_bytes()));
            }
            if r.bool() {
                let s = r.range(100, 999) as u16;
                push.set_status(StatusCode::from_u16(s).unwrap());
                second.push((b":status".to_vec(), s.to_string().into_bytes()));
            }
            let d = || format!("PUSH_PROMISE {} + {} stream {} promises {} end {} flags {:02x} frames of {}", show_fields(&first), show_fields(&second), id, promised, end, flags, max);
            let f: Frame = Frame::from(push);
            c.check(f.stream_id().0 == id, "class", &d);
            let Some(res) = c.call("Frame::encode", &d, || f.encode(&mut out, &mut enc)) else { return };
            c.check(matches!(res, Ok(n) if n == out.remaining()), "size", || format!("{:?}, {} written; {}", res, out.remaining(), d()));
            let frames = match F::split(out.chunk()) {
                Ok(f) => f,
                Err(e) => {
                    c.check(false, "frames", || format!("{}; {}", e, d()));
                    return;
                }
            };
            let show = || format!("{} as {}", d(), frames.iter().take(12).map(|f| f.brief()).collect::<String>());
            let (a, b) = take_block(&frames);
            let ba = check_block(c, a, F::PUSH_PROMISE, id, max, false, &promised.to_be_bytes(), &show);
            let bb = check_block(c, b, F::HEADERS, promised, max, end, &[], &show);
            for (block, want) in [(ba, &first), (bb, &second)] {
                match rd.decode(&block) {
                    Ok((got, _)) => {
                        c.check(sorted(&got) == sorted(want), "list", || format!("{} in {}", show_fields(&got), show()));
                    }
                    Err(e) => {
                        c.check(false, "block", || format!("{}; {} in {}", e, hex(&block), show()));
                        return;
                    }
                }
            }
            c.add("PUSH_PROMISE, HEADERS and CONTINUATION frames read", frames.len() as u64);
            digest ^= F::digest(&frames);
        }
    }
    let _ = i;
    c.seen(digest);
}

// ------------------------------------------------------------------ C20
fn c20_payload(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut p = gen_settings_payload(r);
    match r.below(12) {
        0 => {
            let n = r.below(p.len() + 1);
            p.truncate(n);
        }
        1 => {
            let n = r.range(1, 5);
            p.extend(r.bytes(n));
        }
        _ => {}
    }
    let flags = if r.chance(1, 10) { r.u8() & 0xfe } else { 0 };
    let f = Raw { kind: F::SETTINGS, flags, reserved: r.bool(), id: 0, payload: p.clone() };
    let wire = F::write(&f);
    c.seen_bytes(&p);
    let d = || hex(&wire);
    let want = F::Settings::read(&p);
    let h = FrameHeader { length: p.len() as u32, kind: Kind::Settings, flag: flag_of(flags), id: StreamIdentifier(0) };
    let Some(got) = c.call("Settings::parse", &d, || match r.below(3) {
        0 => Settings::parse(h, &mut &p[..]),
        1 => Settings::parse(h, &mut BinaryMut::from(p.clone())),
        _ => Frame::<Binary>::parse(h, Binary::from(p.clone()), &mut Decoder::new(), 0).map(|f| match f {
            Frame::Settings(s) => s,
            f => panic!("{:?}", f),
        }),
    }) else { return };
    let text = F::b64_encode(&p);
    let Some(got64) = c.call("Settings::parse_http_settings", &d, || Settings::default().parse_http_settings(&text)) else { return };
    match (&want, got) {
        (Ok(w), Ok(s)) => {
            c.count("accepted");
            c.check(settings_of(&s) == *w, "value", || format!("{:?} instead of {:?} for {}", s, w, d()));
            c.check(!s.is_ack(), "ack", d);
            check_settings(r, c, &s, w, i);
            match &got64 {
                Ok(s2) => {
                    c.check(settings_of(s2) == *w, "base64-value", || format!("{:?} instead of {:?} for {}", s2, w, text));
                }
                Err(e) => {
                    c.check(false, "base64-refused", || format!("{:?} for {}", e, text));
                }
            }
        }
        (Err(_), Err(e)) => {
            c.count("refused");
            c.check(!e.is_partial(), "partial", d);
            c.check(got64.is_err(), "base64-accepted", || format!("{:?} for {}", got64, text));
        }
        (Ok(_), Err(e)) => {
            c.check(false, "refused", || format!("{:?} for {}", e, d()));
        }
        (Err(w), Ok(s)) => {
            c.check(false, "accepted", || format!("{}: {:?} for {}", w, s, d()));
        }
    }
}

fn check_settings(r: &mut Rng, c: &mut Ctx, s: &Settings, w: &F::Settings, i: u64) {
    let d = || format!("{:?}", s);
    let mut out = BinaryMut::new();
    let Some(res) = c.call("Settings::encode", &d, || s.encode(&mut out)) else { return };
    c.check(matches!(res, Ok(n) if n == out.remaining()), "size", || format!("{:?}, {} written; {}", res, out.remaining(), d()));
    let frames = match F::split(out.chunk()) {
        Ok(f) => f,
        Err(e) => {
            c.check(false, "frames", || format!("{}; {}", e, d()));
            return;
        }
    };
    let n = w.v.iter().filter(|v| v.is_some()).count();
    if !c.check(frames.len() == 1 && frames[0].kind == F::SETTINGS && frames[0].id == 0 && frames[0].flags == 0, "frame", || format!("{:?}", frames)) {
        return;
    }
    let p = &frames[0].payload;
    c.check(p.len() == 6 * n && s.payload_len() == 6 * n, "length", || format!("{} octets for {}", p.len(), d()));
    c.check(F::Settings::read(p).as_ref() == Ok(w), "encoded", || format!("{} for {}", hex(p), d()));
    let Some(text) = c.call("Settings::encode_http_settings", &d, || s.encode_http_settings()) else { return };
    let dec = F::b64_decode(text.as_bytes());
    c.check(dec.as_ref().map(|p| F::Settings::read(p)).as_ref() == Some(&Ok(w.clone())), "base64", || format!("{} for {}", text, d()));
    let Some(back) = c.call("Settings::parse_http_settings", &d, || Settings::default().parse_http_settings(&text)) else { return };
    c.check(matches!(&back, Ok(b) if b == s), "base64-back", || format!("{:?} for {} of {}", back, text, d()));
    let mut dc = Decoder::new();
    match c.call("Frame::parse", &d, || read_frame(out.chunk(), &mut dc, 0, i)) {
        Some(Ok(g)) => {
            c.check(g == Got::Settings { ack: false, s: w.clone() }, "back", || format!("{:?} for {}", g, d()));
        }
        Some(Err(e)) => {
            c.check(false, "back", || format!("{:?} for {}", e, d()));
        }
        None => {}
    }
    if r.chance(1, 4) {
        let Some(q) = c.call("upgrade_http2", &d, || Request::builder().url("http://a.example/").upgrade_http2(s.clone()).body(())) else { return };
        let q = q.unwrap();
        let get = |n: &str| q.headers().get_option_value(&n).map(|v| v.as_bytes().to_vec());
        c.check(get("HTTP2-Settings") == Some(text.clone().into_bytes()), "upgrade-settings", &d);
        c.check(get("Upgrade") == Some(b"h2c".to_vec()), "upgrade", &d);
        let conn = String::from_utf8(get("Connection").unwrap_or_default()).unwrap().to_ascii_lowercase();
        let toks: Vec<&str> = conn.split(',').map(|t| t.trim()).collect();
        c.check(toks.contains(&"upgrade") && toks.contains(&"http2-settings"), "upgrade-connection", || conn.clone());
    }
}

fn c20_setters(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut s = Settings::default();
    let mut w = F::Settings::default();
    let n = r.below(12);
    for _ in 0..n {
        let unset = r.chance(1, 5);
        let opt = |v: u32| if unset { None } else { Some(v) };
        match r.below(6) {
            0 => {
                let v = opt(gen_u32(r) & F::U31);
                s.set_initial_window_size(v);
                w.v[4] = v;
            }
            1 => {
                let v = opt(gen_u32(r));
                s.set_max_concurrent_streams(v);
                w.v[3] = v;
            }
            2 => {
                let x = *r.pick(&[16384, 16385, 16777215, 16777214, 65536]);
                let v = opt(x);
                s.set_max_frame_size(v);
                w.v[5] = v;
            }
            3 => {
                let v = opt(gen_u32(r));
                s.set_max_header_list_size(v);
                w.v[6] = v;
            }
            4 => {
                let v = r.bool();
                s.set_enable_push(v);
                w.v[2] = Some(v as u32);
            }
            _ => {
                let v = opt(r.below(2) as u32);
                s.set_enable_connect_protocol(v);
                w.v[8] = v;
            }
        }
        c.check(settings_of(&s) == w, "set", || format!("{:?} instead of {:?}", s, w));
    }
    check_settings(r, c, &s, &w, i);
    let a = Settings::ack();
    let mut out = BinaryMut::new();
    let res = a.encode(&mut out);
    c.check(a.is_ack() && matches!(res, Ok(9)) && out.chunk() == F::header(0, F::SETTINGS, F::F_ACK, 0), "ack", || hex(out.chunk()));
    c.seen(hash_bytes(format!("{:?}", w).as_bytes()));
}

fn c20_text(r: &mut Rng, c: &mut Ctx, i: u64) {
    // text that is no unpadded base64url, or nearly
    let p = gen_settings_payload(r);
    let mut t = F::b64_encode(&p).into_bytes();
    match r.below(8) {
        0 => t.push(b'='),
        1 => {
            let k = r.below(t.len() + 1);
            t.insert(k, *r.pick(b"+/ =.,\n%*$"));
        }
        2 => {
            let n = r.below(t.len() + 1);
            t.truncate(n);
        }
        3 => {
            let n = r.range(1, 4);
            let more = r.from_set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", n);
            t.extend(more);
        }
        4 if !t.is_empty() => {
            let k = r.below(t.len());
            t[k] = r.u8() & 0x7f;
        }
        5 => {
            let n = r.len(60);
            t = r.from_set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", n);
        }
        6 => {
            let n = (i % 40) as usize;
            t = vec![b'A'; n];
        }
        _ => {}
    }
    let text = String::from_utf8_lossy(&t).into_owned();
    c.seen_bytes(text.as_bytes());
    let want = F::b64_decode(text.as_bytes()).and_then(|p| F::Settings::read(&p).ok());
    let Some(got) = c.call("Settings::parse_http_settings", &|| text.clone(), || Settings::default().parse_http_settings(&text)) else { return };
    match (want, got) {
        (Some(w), Ok(s)) => {
            c.count("text accepted");
            c.check(settings_of(&s) == w, "text-value", || format!("{:?} instead of {:?} for {}", s, w, text));
        }
        (None, Err(_)) => {
            c.checks += 1;
            c.count("text refused")
        }
        (w, g) => {
            c.check(false, if w.is_some() { "text-refused" } else { "text-accepted" }, || format!("{:?} for {:?}", g, text));
        }
    }
}

// ------------------------------------------------------------------ C26 (limits)
pub fn c26_lists(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut enc = R::Encoder::new(4096);
    let mut rd = R::Decoder::new(4096);
    let mut d = Decoder::new();
    let n = r.range(2, 6);
    for _ in 0..n {
        let push = r.chance(1, 4);
        let rq = if push { 2 } else { r.bool() as u8 };
        let list = gen_list(r, rq);
        let mut body = encode_block(&list, &mut enc, r);
        let size: usize = list.iter().map(|(n, v)| R::entry_size(n, v)).sum();
        let limit = match r.below(9) {
            0 => size,
            1 => size.saturating_sub(1),
            2 => size + 1,
            3 => 0,
            4 => r.below(size + 1),
            5 => size - list.len().min(1) * 32,
            6 => list.iter().map(|(n, v)| n.len() + v.len()).sum(),
            7 => r.below(2 * size + 2),
            _ => usize::MAX,
        };
        let f = if push {
            let mut p = vec![0, 0, 0, 2];
            p.append(&mut body);
            Raw::new(F::PUSH_PROMISE, 4, 1, p)
        } else {
            Raw::new(F::HEADERS, 4, 1, body)
        };
        let w = F::write(&f);
        c.seen(hash_bytes(&w) ^ mix(limit as u64));
        let dd = || format!("list of size {} with limit {}: {}", size, limit, show_fields(&list));
        let want = expect(&f, &mut rd).unwrap();
        let Some(got) = c.call("Frame::parse", &dd, || read_frame(&w, &mut d, limit, i)) else { return };
        match got {
            Ok(g) => {
                c.count("list within the limit accepted");
                c.check(size <= limit, "over-limit-accepted", &dd);
                c.check(g == want, "list-value", || format!("{:?} instead of {:?}; {}", g, want, dd()));
            }
            Err(e) => {
                c.count("list over the limit refused");
                c.check(size > limit, "within-limit-refused", || format!("{:?}; {}", e, dd()));
            }
        }
        let t: Vec<Field> = rd.table.entries.iter().cloned().collect();
        let mine = table_of(&d);
        if !c.check(mine == t, "out-of-step", || format!("{} instead of {} after {}", show_fields(&mine), show_fields(&t), dd())) {
            return;
        }
    }
}

// ------------------------------------------------------------------ C28
fn allowed_extra(extra: &[u8]) -> bool {
    [&b"host"[..], b"user-agent", b"server"].contains(&extra)
}

fn check_headers_of(c: &mut Ctx, got: &[Field], want: &[Field], sig: &str, d: &dyn Fn() -> String) {
    let rest: Vec<&Field> = got.iter().filter(|f| want.iter().any(|w| w.0 == f.0)).collect();
    let mut a: Vec<&Field> = rest.clone();
    let mut b: Vec<&Field> = want.iter().collect();
    a.sort();
    b.sort();
    c.check(a == b, sig, || format!("{} instead of {}; {}", show_fields(got), show_fields(want), d()));
    for f in got {
        if !want.iter().any(|w| w.0 == f.0) {
            c.check(allowed_extra(&f.0), &format!("{}-extra", sig), || format!("{} added; {}", show_fields(&[f.clone()]), d()));
        }
    }
    // fields other than those the builder may have put first keep their order
    let want_order: Vec<&Field> = want.iter().filter(|f| !allowed_extra(&f.0)).collect();
    let got_order: Vec<&Field> = rest.into_iter().filter(|f| !allowed_extra(&f.0)).collect();
    c.check(want_order == got_order, &format!("{}-order", sig), || format!("{} instead of {}; {}", show_fields(got), show_fields(want), d()));
}

/// the URL made of these three, as RFC 9113 8.3.1 has it
fn want_url(p: &Pseudo) -> Result<U::Verdict, &'static str> {
    let Some(a) = &p.authority else { return Err("no authority") };
    let scheme = p.scheme.clone().unwrap_or("http".into());
    let path = p.path.clone().unwrap_or("/".into());
    if a.contains(['/', '?']) {
        return Err("authority holds a delimiter");
    }
    if path == "*" {
        let v = U::judge(format!("{}://{}/", scheme, a).as_bytes());
        return Ok(match v {
            U::Verdict::Accept(mut u) => {
                u.path = "*".into();
                U::Verdict::Accept(u)
            }
            U::Verdict::Either(mut u) => {
                u.path = "*".into();
                U::Verdict::Either(u)
            }
            v => v,
        });
    }
    if !path.is_empty() && !path.starts_with('/') {
        return Err("path is not absolute");
    }
    Ok(match U::judge(format!("{}://{}{}", scheme, a, path).as_bytes()) {
        U::Verdict::Accept(u) if path.is_empty() => U::Verdict::Either(u),
        v => v,
    })
}

fn convert_request(c: &mut Ctx, h: Headers, d: &dyn Fn() -> String) {
    let mut h = h;
    let p = Pseudo {
        method: h.method().as_ref().map(|m| m.as_str().to_string()),
        scheme: h.scheme().as_ref().map(|m| m.as_str().to_string()),
        authority: h.authority().clone(),
        path: h.path().clone(),
        status: h.status().map(|s| s.as_u16()),
    };
    let fields = map_fields(h.fields());
    let Some(res) = c.call("Headers::into_request", d, || h.into_request(Request::builder()).and_then(|b| b.body(()))) else { return };
    match (want_url(&p), res) {
        (Err(why), Ok(q)) => {
            c.check(false, &format!("request:{}", why.replace(' ', "-")), || format!("{:?} from {:?}; {}", q.url(), p, d()));
        }
        (Err(why), Err(_)) => {
            c.checks += 1;
            c.count(&format!("no request: {}", why));
        }
        (Ok(U::Verdict::Refuse(why)), Ok(q)) => {
            c.check(false, "request-url-accepted", || format!("{}: {:?} from {:?}; {}", why, q.url(), p, d()));
        }
        (Ok(U::Verdict::Accept(_)), Err(e)) => {
            c.check(false, "request-refused", || format!("{:?} from {:?}; {}", e, p, d()));
        }
        (Ok(v), Ok(q)) => {
            if let U::Verdict::Accept(u) | U::Verdict::Either(u) = v {
                let got = crate::props::url::parts_of(q.url());
                c.check(got == u, "request-url", || format!("{:?} instead of {:?} from {:?}; {}", got, u, p, d()));
            }
            let m = p.method.as_deref().unwrap_or("GET");
            c.check(q.method().as_str() == m, "request-method", || format!("{} instead of {}; {}", q.method(), m, d()));
            let got = map_fields(q.headers());
            check_headers_of(c, &got, &fields, "request-headers", d);
            c.count("converted to a request");
        }
        (Ok(_), Err(_)) => c.count("no request: odd URL"),
    }
}

fn convert_response(c: &mut Ctx, mut h: Headers, d: &dyn Fn() -> String) {
    let status = h.status().map(|s| s.as_u16());
    let fields = map_fields(h.fields());
    let info = h.is_informational();
    c.check(info == matches!(status, Some(100..=199)), "informational", || format!("{:?}; {}", status, d()));
    let Some(res) = c.call("Headers::into_response", d, || h.into_response(Response::builder()).and_then(|b| b.body(()))) else { return };
    match res {
        Ok(q) => {
            c.check(q.status().as_u16() == status.unwrap_or(200), "response-status", || format!("{:?} instead of {:?}; {}", q.status(), status, d()));
            let got = map_fields(q.headers());
            check_headers_of(c, &got, &fields, "response-headers", d);
            c.count("converted to a response");
        }
        Err(e) => {
            c.check(false, "response-refused", || format!("{:?}; {}", e, d()));
        }
    }
}

/// joins a block that was split, as the connection layer above does
fn join_block(frames: &[Raw]) -> Raw {
    let mut f = frames[0].clone();
    for x in &frames[1..] {
        f.flags |= x.flags & F::F_END_HEADERS;
        f.payload.extend(&x.payload);
    }
    f
}

fn c28_connection(r: &mut Rng, c: &mut Ctx, i: u64) {
    // both ends of one direction, frame after frame
    let size = if r.chance(1, 4) { r.below(3000) } else { 4096 };
    let (ei, di) = (Arc::new(RwLock::new(HeaderIndex::new())), Arc::new(RwLock::new(HeaderIndex::new())));
    if size != 4096 {
        ei.write().unwrap().set_max_table_size(size);
        di.write().unwrap().set_max_table_size(size);
    }
    let mut enc = Encoder::new_index(ei, 1 << 20);
    if r.chance(1, 3) {
        enc.max_frame_size = r.range(10, 2000);
    }
    let mut dec = Decoder::new_index(di);
    let mut rd = R::Decoder::new(4096.max(size));
    let n = r.range(1, 8);
    let mut digest = 1;
    for _ in 0..n {
        let what = r.bool() as u8;
        let push = r.chance(1, 6);
        let mut out = BinaryMut::new();
        let (list, id, end);
        let frame: Frame;
        if push {
            let l = gen_list(r, 2);
            let (p, f) = sort_list(&l);
            id = gen_id(r);
            end = false;
            let h = FrameHeader { length: 0, kind: Kind::PushPromise, flag: Flag::end_headers(), id: StreamIdentifier(id) };
            let mut map = fields_map(r, &f);
            if let Some(s) = &p.scheme {
                map.insert(":scheme", s.clone());
            }
            let mut x = PushPromise::new(h, StreamIdentifier(2), map);
            if let Some(m) = &p.method {
                x.set_method(Method::try_from(&**m).unwrap());
            }
            if let Some(m) = &p.authority {
                x.set_authority(m.clone());
            }
            if let Some(m) = &p.path {
                x.set_path(m.clone());
            }
            list = l;
            frame = Frame::from(x);
        } else {
            let (h, l, a, b) = build_headers(r, what, false);
            list = l;
            id = a;
            end = b;
            frame = Frame::from(h);
        }
        let d = || format!("stream {} {}", id, show_fields(&list));
        let Some(res) = c.call("Frame::encode", &d, || frame.encode(&mut out, &mut enc)) else { return };
        c.check(res.is_ok(), "encode", || format!("{:?}; {}", res, d()));
        let frames = match F::split(out.chunk()) {
            Ok(f) => f,
            Err(e) => {
                c.check(false, "frames", || format!("{}; {}", e, d()));
                return;
            }
        };
        digest = mix(digest ^ hash_bytes(out.chunk()));
        let mut rest = &frames[..];
        let mut got_list: Vec<Got> = vec![];
        while !rest.is_empty() {
            let (a, b) = take_block(rest);
            rest = b;
            let j = join_block(a);
            let w = F::write(&j);
            let fh = FrameHeader { length: j.payload.len() as u32, kind: kind_of(j.kind), flag: flag_of(j.flags), id: StreamIdentifier(j.id) };
            let Some(x) = c.call("Frame::parse", &d, || Frame::parse(fh, Binary::from(j.payload.clone()), &mut dec, NO_LIMIT)) else { return };
            let want = match expect(&j, &mut rd) {
                Ok(w) => w,
                Err(e) => {
                    c.check(false, "wire", || format!("{}: {}; {}", e, hex(&w), d()));
                    return;
                }
            };
            match x {
                Ok(Frame::Headers(h)) => {
                    // fields are distinct, so that nothing is lost in the map
                    let g = describe(Frame::<Binary>::Headers(h));
                    c.check(g == want, "value", || format!("{:?} instead of {:?}; {}", g, want, d()));
                    got_list.push(g);
                }
                Ok(f) => {
                    let g = describe(f);
                    c.check(g == want, "value", || format!("{:?} instead of {:?}; {}", g, want, d()));
                    got_list.push(g);
                }
                Err(e) => {
                    c.check(false, "refused", || format!("{:?} for {}; {}", e, hex(&w), d()));
                    return;
                }
            }
        }
        // together, what arrived is what was built
        let (p, f) = sort_list(&list);
        let ok = match &got_list[..] {
            [Got::Headers { id: a, end: b, pseudo, fields, .. }] if !push => *a == id && *b == end && *pseudo == p && *fields == f,
            [Got::Push { id: a, promised: 2, pseudo, fields: none, .. }, Got::Headers { id: 2, fields, .. }] if push => {
                *a == id && *pseudo == p && none.is_empty() && *fields == f
            }
            _ => false,
        };
        c.check(ok, "arrived", || format!("{:?}; {}", got_list, d()));
        c.count(if push { "PUSH_PROMISE sent" } else if what == 1 { "request HEADERS sent" } else { "response HEADERS sent" });
    }
    c.seen(digest);
    let _ = i;
}

fn c28_convert(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut enc = R::Encoder::new(4096);
    let mut dec = Decoder::new();
    let mut rd = R::Decoder::new(4096);
    let n = r.range(1, 4);
    for _ in 0..n {
        let what = r.below(3) as u8 % 2;
        let mut list = gen_list(r, what);
        if what == 1 && r.chance(1, 4) {
            // hostile values in place of the well-formed ones
            let (n, v): (&str, String) = match r.below(3) {
                0 => (":path", r.pick(&["*", "", "@evil.example/", ".evil.example/", ":8080/", "x", "?a=b", "//evil.example/", "/%", "/%zz", "/a b", "/\u{e9}", "#f", "/a#b", "*/", "/%ff"]).to_string()),
                1 => (":authority", r.pick(&["", "a/b", "a?b", "u:p@h", "u@h", "a:b", "a:", "a:99999", "[::1]", "[::1]:80", "a b", "a#b", "a@b:80", "good.example/@evil.example", "%41", "a:+80"]).to_string()),
                _ => (":scheme", r.pick(&["HTTP", "x-y", "", "9p", "a b", "http://evil.example/", "https:"]).to_string()),
            };
            list.retain(|f| f.0 != n.as_bytes());
            list.insert(0, (n.as_bytes().to_vec(), v.into_bytes()));
            c.count("hostile pseudo-field");
        }
        let b = encode_block(&list, &mut enc, r);
        let f = Raw::new(F::HEADERS, 4 | r.bool() as u8, gen_id(r), b);
        let w = F::write(&f);
        c.seen_bytes(&w);
        let d = || show_fields(&list);
        let fh = FrameHeader { length: f.payload.len() as u32, kind: Kind::Headers, flag: flag_of(f.flags), id: StreamIdentifier(f.id) };
        let Some(x) = c.call("Frame::parse", &d, || Frame::parse(fh, Binary::from(f.payload.clone()), &mut dec, NO_LIMIT)) else { return };
        let want = expect(&f, &mut rd).unwrap();
        let get = |n: &str| list.iter().find(|x| x.0 == n.as_bytes()).map(|x| x.1.clone());
        let odd_scheme = get(":scheme").map_or(false, |s| !s.first().map_or(false, |b| b.is_ascii_alphabetic()) || !s.iter().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(b)) || s.iter().any(|b| b.is_ascii_uppercase()));
        match x {
            Ok(Frame::Headers(h)) => {
                let g = {
                    let mut q = Headers::new(fh, HeaderMap::new());
                    // a second reading of the same frame, for comparison
                    let mut d2 = R::Encoder::new(0);
                    let mut blk = vec![];
                    for (n, v) in &list {
                        d2.field(&mut blk, n, v, r);
                    }
                    let Some(x) = c.call("Headers::parse", &d, || q.parse(BinaryMut::from(blk.clone()), &mut Decoder::new(), NO_LIMIT)) else { return };
                    c.check(matches!(x, Ok(n) if n == blk.len()), "parse-size", || format!("{:?} of {}; {}", x, blk.len(), d()));
                    describe(Frame::<Binary>::Headers(q))
                };
                if !odd_scheme {
                    c.check(g == want, "value", || format!("{:?} instead of {:?}; {}", g, want, d()));
                }
                if !odd_scheme {
                    if what == 1 {
                        convert_request(c, h, &d);
                    } else {
                        convert_response(c, h, &d);
                    }
                } else {
                    c.count("odd scheme accepted");
                    let _ = c.call("Headers::into_request", &d, || h.into_request(Request::builder()).and_then(|b| b.body(())).is_ok());
                }
            }
            Ok(f) => {
                c.check(false, "type", || format!("{:?}", f));
            }
            Err(e) => {
                if !c.check(odd_scheme, "refused", || format!("{:?} for {}", e, d())) {
                    return;
                }
            }
        }
    }
    let _ = i;
}

/// values the tables of methods and statuses do not hold
fn c28_pseudo(r: &mut Rng, c: &mut Ctx, _i: u64) {
    let n = r.below(6);
    let (name, val, ok): (&str, Vec<u8>, Option<bool>) = match r.below(3) {
        0 => {
            let v = r.from_set(b"0123456789x -+", n);
            let good = v.len() == 3 && v.iter().all(|b| b.is_ascii_digit()) && v[0] != b'0';
            (":status", v, Some(good))
        }
        1 => {
            let v = if r.bool() { r.pick(&METHODS).as_bytes().to_vec() } else { r.from_set(b"GETPOSTgetpu ", n) };
            let known = METHODS.iter().any(|m| m.as_bytes() == &v[..]);
            // extension methods are not in the table; either answer
            (":method", v, if known { Some(true) } else { None })
        }
        _ => {
            let v = r.bytes(n);
            let good = std::str::from_utf8(&v).is_ok();
            (*r.pick(&[":path", ":authority"]), v, if good { Some(true) } else { Some(false) })
        }
    };
    let mut b = vec![0x40];
    R::put_str(&mut b, name.as_bytes(), r.bool());
    R::put_str(&mut b, &val, r.bool());
    let mut dec = Decoder::new();
    let fh = FrameHeader { length: b.len() as u32, kind: Kind::Headers, flag: Flag::end_headers(), id: StreamIdentifier(1) };
    let d = || format!("{} = {}", name, show(&val));
    c.seen(hash_bytes(&val) ^ hash_bytes(name.as_bytes()));
    let Some(x) = c.call("Frame::parse", &d, || Frame::parse(fh, Binary::from(b.clone()), &mut dec, NO_LIMIT)) else { return };
    match (ok, x) {
        (Some(true) | None, Ok(f)) => {
            c.count("pseudo-field accepted");
            let Got::Headers { pseudo, fields, .. } = describe(f) else { return };
            let got = match name {
                ":status" => pseudo.status.map(|s| s.to_string().into_bytes()),
                ":method" => pseudo.method.map(|s| s.into_bytes()),
                ":path" => pseudo.path.map(|s| s.into_bytes()),
                _ => pseudo.authority.map(|s| s.into_bytes()),
            };
            c.check(got.as_ref() == Some(&val) && fields.is_empty(), "pseudo-value", || format!("{:?} for {}", got, d()));
        }
        (Some(true), Err(e)) => {
            c.check(false, "pseudo-refused", || format!("{:?} for {}", e, d()));
        }
        (Some(false), Ok(f)) => {
            c.check(false, "pseudo-accepted", || format!("{:?} for {}", describe(f), d()));
        }
        (_, Err(_)) => {
            c.checks += 1;
            c.count("pseudo-field refused")
        }
    }
    // refused or not, the decoder has seen the field
    c.check(table_of(&dec) == vec![(name.as_bytes().to_vec(), val.clone())], "out-of-step", d);
}

/// a promised request: safe, cacheable and without content
fn c17_promise(r: &mut Rng, c: &mut Ctx, i: u64) {
    const ALL: [Method; 9] = [
        Method::GET,
        Method::HEAD,
        Method::POST,
        Method::PUT,
        Method::DELETE,
        Method::OPTIONS,
        Method::CONNECT,
        Method::PATCH,
        Method::TRACE,
    ];
    let m = ALL[i as usize % 9].clone();
    let len: Option<u64> = match (i / 9) % 5 {
        0 => None,
        1 => Some(0),
        2 => Some(r.range(1, 9) as u64),
        3 => Some(r.range(10, 1 << 20) as u64),
        _ => Some(*r.pick(&[255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff])),
    };
    let mut b = Request::builder().method(m.clone()).url("http://promise.example/x");
    let named = r.chance(1, 3);
    for k in 0..r.below(4) {
        b = b.header(format!("x-{}", k), format!("{}", r.below(1000)));
    }
    if let Some(n) = len {
        let zeros = "0".repeat(r.below(3));
        if named {
            b = b.header("content-length", format!("{}{}", zeros, n));
        } else {
            b = b.header(HeaderName::CONTENT_LENGTH, format!("{}{}", zeros, n));
        }
    }
    let d = || format!("{} with Content-Length {:?}", m, len);
    let Ok(req) = b.body(()) else {
        c.check(false, "promise-not-built", d);
        return;
    };
    c.seen(hash_bytes(d().as_bytes()));
    let Some(got) = c.call("validate_request", &d, || PushPromise::validate_request(&req)) else { return };
    let want = (m == Method::GET || m == Method::HEAD) && len.unwrap_or(0) == 0;
    c.count(if want { "promise allowed" } else { "promise not allowed" });
    c.check(got.is_ok() == want, "promised-request", || format!("{:?} for {}", got, d()));
}

/// several fields of one name in a list
fn c28_repeated(r: &mut Rng, c: &mut Ctx, i: u64) {
    let mut enc = R::Encoder::new(4096);
    let mut list = gen_list(r, 1);
    let name = r.pick(&["cookie", "accept", "x-dup", "set-cookie", "via"]).as_bytes().to_vec();
    list.retain(|f| f.0 != name);
    let k = r.range(2, 4);
    let mut vals = vec![];
    for j in 0..k {
        let v = format!("v{}-{}", j, r.below(1000)).into_bytes();
        vals.push(v.clone());
        let at = r.range(list.len().min(4), list.len());
        let at = at.max(list.iter().rposition(|f| f.0 == name).map(|p| p + 1).unwrap_or(0));
        list.insert(at, (name.clone(), v));
    }
    let b = encode_block(&list, &mut enc, r);
    let w = F::write(&Raw::new(F::HEADERS, 4, 1, b));
    let d = || show_fields(&list);
    c.seen_bytes(&w);
    let mut dec = Decoder::new();
    let Some(g) = c.call("Frame::parse", &d, || read_frame(&w, &mut dec, NO_LIMIT, i)) else { return };
    let Ok(Got::Headers { fields, .. }) = g else {
        c.check(false, "refused", || format!("{:?} for {}", g, d()));
        return;
    };
    let mine: Vec<&Vec<u8>> = fields.iter().filter(|f| f.0 == name).map(|f| &f.1).collect();
    let ok = mine == vals.iter().collect::<Vec<_>>()
        || (mine.len() == 1 && [&b","[..], b", ", b";", b"; "].iter().any(|s| *mine[0] == vals.join(*s)));
    if ok {
        c.checks += 1;
        return;
    }
    let last = mine.len() == 1 && *mine[0] == vals[vals.len() - 1];
    c.check(false, if last { "repeated-field-keeps-last" } else { "repeated-field" }, || {
        format!("{} for {}", mine.iter().map(|v| show(v)).collect::<Vec<_>>().join(" | "), d())
    });
    // everything else is there all the same
    let (_, f) = sort_list(&list);
    let others = |v: &[Field]| v.iter().filter(|f| f.0 != name).cloned().collect::<Vec<_>>();
    c.check(others(&fields) == others(&f), "repeated-others", || format!("{} for {}", show_fields(&fields), d()));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "every frame header and control frame is written as the octets of RFC 9113 and read back as the same value, with reserved bits and undefined flags ignored",
            parts: vec![
                part("frame-headers", 65_536 * 6, 65_536 * 400, c16_headers),
                part("control-frames", 500_000, 20_000_000, c16_control),
                part("pieces", 200_000, 8_000_000, c16_pieces),
            ],
            assumptions: vec!["stream identifiers and increments given by the caller fit in 31 bits", "unknown frame types cannot be written back, the library keeps no number for them"],
        },
        Prop {
            id: "C17",
            rule: "a frame is accepted exactly when RFC 9113 allows it on its own, and means what the RFC says",
            parts: vec![
                part("grid", 9 * 256 * 3 * 20 * 4, 9 * 256 * 3 * 20 * 4, c17_grid),
                part("damage", 300_000, 12_000_000, c17_damage),
                part("promised-requests", 45 * 400, 45 * 20_000, c17_promise),
            ],
            assumptions: vec!["a HEADERS frame that depends on its own stream may go either way", "CONTINUATION and unknown types are outside the statement"],
        },
        Prop {
            id: "C18",
            rule: "a padded frame, with or without dependency, yields what the bare frame yields and leaves the same HPACK state; padding that does not fit is refused without a trace",
            parts: vec![part("connections", 150_000, 6_000_000, c18_padding), part("lengths", 61_440, 61_440 * 50, c18_lengths)],
            assumptions: vec![],
        },
        Prop {
            id: "C19",
            rule: "every encoded message is a sequence of frames within the size limit that an independent reader joins to the same data or header list, with END_STREAM and END_HEADERS where RFC 9113 has them",
            parts: vec![part("data", 60_000, 3_000_000, c19_data), part("header-blocks", 60_000, 3_000_000, c19_headers)],
            assumptions: vec!["the maximum frame size is at least one, and the fixed part of a frame may exceed a limit smaller than itself"],
        },
        Prop {
            id: "C20",
            rule: "every SETTINGS payload and HTTP2-Settings text is judged and applied as RFC 9113 has it, and settings read back from both encodings",
            parts: vec![
                part("payloads", 400_000, 20_000_000, c20_payload),
                part("setters", 200_000, 10_000_000, c20_setters),
                part("texts", 400_000, 20_000_000, c20_text),
            ],
            assumptions: vec!["values given to the setters are ones RFC 9113 allows"],
        },
        Prop {
            id: "C28",
            rule: "header lists sent over a connection arrive as built and become the request or response they describe",
            parts: vec![
                part("connection", 60_000, 3_000_000, c28_connection),
                part("conversion", 120_000, 6_000_000, c28_convert),
                part("pseudo-fields", 150_000, 3_000_000, c28_pseudo),
                part("repeated", 20_000, 500_000, c28_repeated),
            ],
            assumptions: vec![
                "blocks split over CONTINUATION frames are joined by the layer above, as the frame parser has no connection state",
                "the request builder may add Host and User-Agent, the response builder Server",
                "methods are the nine the library knows",
            ],
        },
    ]
}
