//! RFC 6455 section 5.2 framing, written from the text.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Head {
    pub fin: bool,
    pub rsv: [bool; 3],
    pub opcode: u8,
    pub mask: Option<[u8; 4]>,
    pub len: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// header and its length in octets
    Head(Head, usize),
    /// a prefix of some valid header
    Incomplete,
    Refuse(&'static str),
}

pub fn first(h: &Head) -> u8 {
    let mut b = h.opcode & 15;
    if h.fin {
        b += 128;
    }
    for (i, w) in [64u8, 32, 16].iter().enumerate() {
        if h.rsv[i] {
            b += w;
        }
    }
    b
}

/// header octets with the length in 7 bits (form 0), 16 (1) or 64 (2)
pub fn head_as(h: &Head, form: u8) -> Vec<u8> {
    let m = if h.mask.is_some() { 128u8 } else { 0 };
    let mut v = vec![first(h)];
    match form {
        0 => v.push(m + h.len as u8),
        1 => {
            v.push(m + 126);
            v.push((h.len / 256) as u8);
            v.push((h.len % 256) as u8);
        }
        _ => {
            v.push(m + 127);
            for k in (0..8).rev() {
                v.push((h.len >> (8 * k)) as u8);
            }
        }
    }
    if let Some(k) = h.mask {
        v.extend(k);
    }
    v
}

pub fn form(len: u64) -> u8 {
    if len < 126 {
        0
    } else if len < 65536 {
        1
    } else {
        2
    }
}

pub fn head(h: &Head) -> Vec<u8> {
    head_as(h, form(h.len))
}

pub fn xor(key: Option<[u8; 4]>, p: &[u8]) -> Vec<u8> {
    match key {
        None => p.to_vec(),
        Some(k) => (0..p.len()).map(|i| p[i] ^ k[i % 4]).collect(),
    }
}

pub fn frame(fin: bool, rsv: [bool; 3], opcode: u8, mask: Option<[u8; 4]>, p: &[u8]) -> Vec<u8> {
    let mut v = head(&Head { fin, rsv, opcode, mask, len: p.len() as u64 });
    v.extend(xor(mask, p));
    v
}

pub fn judge(b: &[u8]) -> Verdict {
    if b.is_empty() {
        return Verdict::Incomplete;
    }
    let opcode = b[0] % 16;
    let fin = b[0] >= 128;
    let control = opcode >= 8;
    if b.len() < 2 {
        return if control && !fin { Verdict::Refuse("fragmented control frame") } else { Verdict::Incomplete };
    }
    if control && !fin {
        return Verdict::Refuse("fragmented control frame");
    }
    let l7 = b[1] % 128;
    if control && l7 > 125 {
        return Verdict::Refuse("long control frame");
    }
    let (len, mut at) = match l7 {
        126 => {
            if b.len() < 4 {
                return Verdict::Incomplete;
            }
            (b[2] as u64 * 256 + b[3] as u64, 4)
        }
        127 => {
            if b.len() < 10 {
                return Verdict::Incomplete;
            }
            (b[2..10].iter().fold(0u64, |a, x| (a << 8) | *x as u64), 10)
        }
        n => (n as u64, 2),
    };
    if (l7 == 126 && len < 126) || (l7 == 127 && len < 65536) {
        return Verdict::Refuse("length is not minimal");
    }
    let mask = if b[1] >= 128 {
        if b.len() < at + 4 {
            return Verdict::Incomplete;
        }
        at += 4;
        Some([b[at - 4], b[at - 3], b[at - 2], b[at - 1]])
    } else {
        None
    };
    Verdict::Head(Head { fin, rsv: [b[0] & 64 != 0, b[0] & 32 != 0, b[0] & 16 != 0], opcode, mask, len }, at)
}
