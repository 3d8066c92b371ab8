//! RFC 7541 reference: tables, Huffman code, encoder with every choice of
//! representation, strict decoder.
use super::tables::{HUFF, STATIC};
use crate::core::Rng;
use std::collections::VecDeque;

pub type Field = (Vec<u8>, Vec<u8>);

#[derive(Clone, Debug)]
pub struct Table {
    pub entries: VecDeque<Field>,
    pub max: usize,
    pub evictions: u64,
}

pub fn entry_size(n: &[u8], v: &[u8]) -> usize {
    n.len() + v.len() + 32
}

impl Table {
    pub fn new(max: usize) -> Table {
        Table { entries: VecDeque::new(), max, evictions: 0 }
    }
    pub fn size(&self) -> usize {
        self.entries.iter().map(|(n, v)| entry_size(n, v)).sum()
    }
    pub fn add(&mut self, n: &[u8], v: &[u8]) {
        let need = entry_size(n, v);
        let mut size = self.size();
        while size > 0 && size + need > self.max {
            let (a, b) = self.entries.pop_back().unwrap();
            size -= entry_size(&a, &b);
            self.evictions += 1;
        }
        if need <= self.max {
            self.entries.push_front((n.to_vec(), v.to_vec()));
        } else {
            self.evictions += 1;
        }
    }
    pub fn resize(&mut self, max: usize) {
        self.max = max;
        let mut size = self.size();
        while size > max {
            let (a, b) = self.entries.pop_back().unwrap();
            size -= entry_size(&a, &b);
            self.evictions += 1;
        }
    }
    /// the field RFC 7541 assigns to an index
    pub fn get(&self, i: usize) -> Option<Field> {
        if i == 0 {
            None
        } else if i <= 61 {
            let (n, v) = STATIC[i - 1];
            Some((n.as_bytes().to_vec(), v.as_bytes().to_vec()))
        } else {
            self.entries.get(i - 62).cloned()
        }
    }
    pub fn total(&self) -> usize {
        61 + self.entries.len()
    }
}

// ------------------------------------------------------------ integers
pub fn put_int(out: &mut Vec<u8>, lead: u8, prefix: u8, mut v: u64) {
    let mask = (1u64 << prefix) - 1;
    if v < mask {
        out.push(lead | v as u8);
        return;
    }
    out.push(lead | mask as u8);
    v -= mask;
    while v >= 128 {
        out.push((v & 127) as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn get_int(b: &[u8], p: &mut usize, prefix: u8) -> Result<u64, &'static str> {
    let mask = (1u64 << prefix) - 1;
    let first = *b.get(*p).ok_or("short int")? as u64 & mask;
    *p += 1;
    if first < mask {
        return Ok(first);
    }
    let mut v = mask;
    let mut shift = 0;
    loop {
        let c = *b.get(*p).ok_or("short int")?;
        *p += 1;
        if shift > 56 {
            return Err("int too long");
        }
        v += ((c & 127) as u64) << shift;
        shift += 7;
        if c & 128 == 0 {
            return Ok(v);
        }
    }
}

// ------------------------------------------------------------ Huffman
pub fn huff_encode(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut acc: u64 = 0;
    let mut n = 0u32;
    for b in s {
        let (c, l) = HUFF[*b as usize];
        acc = (acc << l) | c as u64;
        n += l as u32;
        while n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1u64 << n) - 1;
        }
    }
    if n > 0 {
        let pad = 8 - n;
        out.push(((acc << pad) as u8) | ((1u16 << pad) - 1) as u8);
    }
    out
}

/// Decoding tree built from the code table: node = [child0, child1], leaf < 0.
pub struct HuffTree {
    nodes: Vec<[i32; 2]>,
}

impl HuffTree {
    pub fn new() -> HuffTree {
        let mut nodes: Vec<[i32; 2]> = vec![[0, 0]];
        for (sym, (code, len)) in HUFF.iter().enumerate() {
            let mut at = 0usize;
            for i in (0..*len).rev() {
                let bit = ((code >> i) & 1) as usize;
                if i == 0 {
                    nodes[at][bit] = -(sym as i32) - 1;
                } else {
                    if nodes[at][bit] == 0 {
                        nodes.push([0, 0]);
                        let n = nodes.len() as i32 - 1;
                        nodes[at][bit] = n;
                    }
                    at = nodes[at][bit] as usize;
                }
            }
        }
        HuffTree { nodes }
    }
    pub fn decode(&self, s: &[u8]) -> Result<Vec<u8>, &'static str> {
        let mut out = vec![];
        let mut at = 0usize;
        let mut depth = 0;
        let mut ones = true;
        for b in s {
            for i in (0..8).rev() {
                let bit = (b >> i & 1) as usize;
                ones &= bit == 1;
                depth += 1;
                let n = self.nodes[at][bit];
                if n < 0 {
                    let sym = -(n + 1);
                    if sym == 256 {
                        return Err("eos");
                    }
                    out.push(sym as u8);
                    at = 0;
                    depth = 0;
                    ones = true;
                } else {
                    at = n as usize;
                }
            }
        }
        if depth >= 8 {
            return Err("padding too long");
        }
        if depth > 0 && !ones {
            return Err("padding not ones");
        }
        Ok(out)
    }
}

pub fn tree() -> &'static HuffTree {
    static T: std::sync::OnceLock<HuffTree> = std::sync::OnceLock::new();
    T.get_or_init(HuffTree::new)
}

// ------------------------------------------------------------ strings
pub fn put_str(out: &mut Vec<u8>, s: &[u8], huff: bool) {
    if huff {
        let e = huff_encode(s);
        put_int(out, 0x80, 7, e.len() as u64);
        out.extend_from_slice(&e);
    } else {
        put_int(out, 0, 7, s.len() as u64);
        out.extend_from_slice(s);
    }
}

fn get_str(b: &[u8], p: &mut usize) -> Result<Vec<u8>, &'static str> {
    let h = *b.get(*p).ok_or("short string")? & 0x80 != 0;
    let n = get_int(b, p, 7)? as usize;
    if n > b.len() - *p {
        return Err("string past the end");
    }
    let s = &b[*p..*p + n];
    *p += n;
    if h {
        tree().decode(s)
    } else {
        Ok(s.to_vec())
    }
}

// ------------------------------------------------------------ decoder
#[derive(Clone, Debug)]
pub struct Decoder {
    pub table: Table,
    pub limit: usize,
}

#[derive(Default, Clone, Debug)]
pub struct BlockStats {
    pub indexed_static: u64,
    pub indexed_dynamic: u64,
    pub inc: u64,
    pub lit: u64,
    pub updates: u64,
}

impl Decoder {
    pub fn new(limit: usize) -> Decoder {
        Decoder { table: Table::new(limit), limit }
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<(Vec<Field>, BlockStats), &'static str> {
        let mut p = 0;
        let mut out = vec![];
        let mut st = BlockStats::default();
        while p < b.len() {
            let o = b[p];
            if o & 0x80 != 0 {
                let i = get_int(b, &mut p, 7)? as usize;
                if i > 61 {
                    st.indexed_dynamic += 1
                } else {
                    st.indexed_static += 1
                }
                out.push(self.table.get(i).ok_or("index")?);
            } else if o & 0x40 != 0 {
                let f = self.literal(b, &mut p, 6)?;
                self.table.add(&f.0, &f.1);
                out.push(f);
                st.inc += 1;
            } else if o & 0x20 != 0 {
                let n = get_int(b, &mut p, 5)? as usize;
                if n > self.limit {
                    return Err("size update above limit");
                }
                self.table.resize(n);
                st.updates += 1;
            } else {
                out.push(self.literal(b, &mut p, 4)?);
                st.lit += 1;
            }
        }
        Ok((out, st))
    }
    fn literal(&mut self, b: &[u8], p: &mut usize, prefix: u8) -> Result<Field, &'static str> {
        let i = get_int(b, p, prefix)? as usize;
        let n = if i == 0 { get_str(b, p)? } else { self.table.get(i).ok_or("index")?.0 };
        let v = get_str(b, p)?;
        Ok((n, v))
    }
}

// ------------------------------------------------------------ encoder
/// Encodes one field with a representation chosen by the random source.
pub struct Encoder {
    pub table: Table,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Repr {
    Indexed,
    Incremental,
    Without,
    Never,
}

impl Encoder {
    pub fn new(max: usize) -> Encoder {
        Encoder { table: Table::new(max) }
    }
    pub fn size_update(&mut self, out: &mut Vec<u8>, n: usize) {
        put_int(out, 0x20, 5, n as u64);
        self.table.resize(n);
    }
    fn find(&self, n: &[u8], v: &[u8]) -> (Vec<usize>, Vec<usize>) {
        let mut full = vec![];
        let mut name = vec![];
        for i in 1..=self.table.total() {
            let f = self.table.get(i).unwrap();
            if f.0 == n {
                name.push(i);
                if f.1 == v {
                    full.push(i);
                }
            }
        }
        (full, name)
    }
    pub fn field(&mut self, out: &mut Vec<u8>, n: &[u8], v: &[u8], r: &mut Rng) -> (Repr, usize) {
        let (full, name) = self.find(n, v);
        if !full.is_empty() && r.chance(4, 5) {
            let i = *r.pick(&full);
            put_int(out, 0x80, 7, i as u64);
            return (Repr::Indexed, i);
        }
        let (repr, lead, prefix) = match r.below(6) {
            0..=3 => (Repr::Incremental, 0x40, 6),
            4 => (Repr::Without, 0, 4),
            _ => (Repr::Never, 0x10, 4),
        };
        let mut used = 0;
        if !name.is_empty() && r.chance(4, 5) {
            used = *r.pick(&name);
            put_int(out, lead, prefix, used as u64);
        } else {
            out.push(lead);
            put_str(out, n, r.bool());
        }
        put_str(out, v, r.bool());
        if repr == Repr::Incremental {
            self.table.add(n, v);
        }
        (repr, used)
    }
}
