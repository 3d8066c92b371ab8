//! RFC 9113 reference: frame layout, what each frame may look like on its own,
//! SETTINGS, and the base64url form of RFC 4648.
use crate::core::mix;

pub const DATA: u8 = 0;
pub const HEADERS: u8 = 1;
pub const PRIORITY: u8 = 2;
pub const RST_STREAM: u8 = 3;
pub const SETTINGS: u8 = 4;
pub const PUSH_PROMISE: u8 = 5;
pub const PING: u8 = 6;
pub const GOAWAY: u8 = 7;
pub const WINDOW_UPDATE: u8 = 8;
pub const CONTINUATION: u8 = 9;

pub const F_END_STREAM: u8 = 1;
pub const F_ACK: u8 = 1;
pub const F_END_HEADERS: u8 = 4;
pub const F_PADDED: u8 = 8;
pub const F_PRIORITY: u8 = 0x20;

pub const U31: u32 = 0x7fff_ffff;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    pub kind: u8,
    pub flags: u8,
    pub reserved: bool,
    pub id: u32,
    pub payload: Vec<u8>,
}

impl Raw {
    pub fn new(kind: u8, flags: u8, id: u32, payload: Vec<u8>) -> Raw {
        Raw { kind, flags, reserved: false, id, payload }
    }
    pub fn has(&self, f: u8) -> bool {
        self.flags & f != 0
    }
    pub fn brief(&self) -> String {
        format!("[kind {} flags {:02x} id {} len {}]", self.kind, self.flags, self.id, self.payload.len())
    }
}

pub fn header(len: usize, kind: u8, flags: u8, id: u32) -> [u8; 9] {
    let l = (len as u32).to_be_bytes();
    let i = id.to_be_bytes();
    [l[1], l[2], l[3], kind, flags, i[0], i[1], i[2], i[3]]
}

pub fn write(f: &Raw) -> Vec<u8> {
    let mut v = header(f.payload.len(), f.kind, f.flags, f.id | if f.reserved { 1 << 31 } else { 0 }).to_vec();
    v.extend(&f.payload);
    v
}

/// cuts a byte stream into frames; nothing may be left over
pub fn split(mut b: &[u8]) -> Result<Vec<Raw>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        if b.len() < 9 {
            return Err(format!("{} octets left, no frame header", b.len()));
        }
        let len = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
        let id = u32::from_be_bytes([b[5], b[6], b[7], b[8]]);
        if b.len() < 9 + len {
            return Err(format!("frame of kind {} announces {} octets, {} follow", b[3], len, b.len() - 9));
        }
        out.push(Raw { kind: b[3], flags: b[4], reserved: id >> 31 == 1, id: id & U31, payload: b[9..9 + len].to_vec() });
        b = &b[9 + len..];
    }
    Ok(out)
}

/// flags a frame type defines
pub fn defined_flags(kind: u8) -> u8 {
    match kind {
        DATA => F_END_STREAM | F_PADDED,
        HEADERS => F_END_STREAM | F_END_HEADERS | F_PADDED | F_PRIORITY,
        SETTINGS | PING => F_ACK,
        PUSH_PROMISE => F_END_HEADERS | F_PADDED,
        CONTINUATION => F_END_HEADERS,
        _ => 0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Refuse(&'static str),
    Open(&'static str),
}

/// the payload without padding
pub fn unpad(f: &Raw) -> Result<&[u8], &'static str> {
    if matches!(f.kind, DATA | HEADERS | PUSH_PROMISE) && f.has(F_PADDED) {
        let Some(n) = f.payload.first() else { return Err("no pad length") };
        let n = *n as usize;
        if n > f.payload.len() - 1 {
            return Err("too much padding");
        }
        Ok(&f.payload[1..f.payload.len() - n])
    } else {
        Ok(&f.payload)
    }
}

/// what RFC 9113 says of the frame on its own; a header block is not looked at
pub fn judge(f: &Raw) -> Verdict {
    use Verdict::*;
    let body = match unpad(f) {
        Ok(b) => b,
        Err(e) => return Refuse(e),
    };
    let n = body.len();
    match f.kind {
        DATA | HEADERS | PRIORITY | RST_STREAM | PUSH_PROMISE if f.id == 0 => Refuse("stream zero"),
        SETTINGS | PING | GOAWAY if f.id != 0 => Refuse("not stream zero"),
        DATA => Accept,
        HEADERS => {
            if f.has(F_PRIORITY) && n < 5 {
                Refuse("short dependency")
            } else if f.has(F_PRIORITY) && u32::from_be_bytes([body[0], body[1], body[2], body[3]]) & U31 == f.id {
                Open("HEADERS depends on itself")
            } else {
                Accept
            }
        }
        PRIORITY => {
            if n != 5 {
                Refuse("PRIORITY length")
            } else if u32::from_be_bytes([body[0], body[1], body[2], body[3]]) & U31 == f.id {
                Refuse("depends on itself")
            } else {
                Accept
            }
        }
        RST_STREAM => {
            if n == 4 {
                Accept
            } else {
                Refuse("RST_STREAM length")
            }
        }
        SETTINGS => {
            if f.has(F_ACK) {
                if n == 0 {
                    Accept
                } else {
                    Refuse("SETTINGS ack length")
                }
            } else {
                match Settings::read(body) {
                    Ok(_) => Accept,
                    Err(e) => Refuse(e),
                }
            }
        }
        PUSH_PROMISE => {
            if n < 4 {
                Refuse("short promise")
            } else {
                let id = u32::from_be_bytes([body[0], body[1], body[2], body[3]]) & U31;
                if id == 0 {
                    Refuse("promises stream zero")
                } else {
                    Accept
                }
            }
        }
        PING => {
            if n == 8 {
                Accept
            } else {
                Refuse("PING length")
            }
        }
        GOAWAY => {
            if n >= 8 {
                Accept
            } else {
                Refuse("GOAWAY length")
            }
        }
        WINDOW_UPDATE => {
            if n != 4 {
                Refuse("WINDOW_UPDATE length")
            } else if u32::from_be_bytes([body[0], body[1], body[2], body[3]]) & U31 == 0 {
                Refuse("window increment zero")
            } else {
                Accept
            }
        }
        _ => Open("other kind"),
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Settings {
    /// by identifier 1..=6 and 8
    pub v: [Option<u32>; 9],
}

pub const KNOWN: [u16; 7] = [1, 2, 3, 4, 5, 6, 8];

impl Settings {
    pub fn read(b: &[u8]) -> Result<Settings, &'static str> {
        if b.len() % 6 != 0 {
            return Err("SETTINGS length");
        }
        let mut s = Settings::default();
        for c in b.chunks(6) {
            let id = u16::from_be_bytes([c[0], c[1]]);
            let val = u32::from_be_bytes([c[2], c[3], c[4], c[5]]);
            match id {
                2 | 8 if val > 1 => return Err("enable value"),
                4 if val > U31 => return Err("initial window"),
                5 if val < 16384 || val > 16777215 => return Err("maximum frame size"),
                1..=6 | 8 => s.v[id as usize] = Some(val),
                _ => {}
            }
        }
        Ok(s)
    }
}

pub fn pair(id: u16, val: u32) -> [u8; 6] {
    let i = id.to_be_bytes();
    let v = val.to_be_bytes();
    [i[0], i[1], v[0], v[1], v[2], v[3]]
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64_encode(b: &[u8]) -> String {
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for x in b {
        acc = acc << 8 | *x as u32;
        bits += 8;
        while bits >= 6 {
            bits -= 6;
            out.push(B64[(acc >> bits) as usize & 63] as char);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        out.push(B64[(acc << (6 - bits)) as usize & 63] as char);
    }
    out
}

/// strict: no padding, no other characters, no stray bits
pub fn b64_decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 == 1 {
        return None;
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s {
        let v = B64.iter().position(|b| b == c)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        return None;
    }
    Some(out)
}

pub fn digest(frames: &[Raw]) -> u64 {
    let mut h = 7;
    for f in frames {
        h = mix(h ^ (f.kind as u64) ^ (f.flags as u64) << 8 ^ (f.id as u64) << 16 ^ (f.payload.len() as u64) << 40);
    }
    h
}
