use pbt::Src;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

/// f64 wrapper compared by bit pattern (NaN payloads included).
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct F64(pub f64);
impl PartialEq for F64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct F32(pub f32);
impl PartialEq for F32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    New(i64),
    Tup(u8, String),
    Rec { a: Option<u32>, b: Vec<F64> },
    Nest(Box<Item>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Item {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub lead: Option<u64>,
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub extra: Vec<i32>,
    pub children: Vec<Item>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tag: Option<String>,
}

/// A record with every serde shape the artifacts use.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub name: String,
    pub flag: bool,
    pub small: (u8, i8, u16, i16, u32, i32),
    pub wide: (u64, i64),
    pub fl: (F32, F64),
    pub ch: char,
    pub opt: Option<Vec<String>>,
    pub map: BTreeMap<String, i64>,
    pub hmap: HashMap<u32, Option<bool>>,
    pub arr: [u16; 3],
    pub items: Vec<Item>,
    pub bytes: Vec<u8>,
    pub nested: Vec<Vec<F64>>,
    pub blob: String,
    pub unit: (),
}

pub fn string(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 1]) {
        0 => {
            let n = s.usize_in(0, 6);
            (0..n).map(|_| (b'a' + s.draw(25) as u8) as char).collect()
        }
        1 => {
            let n = s.usize_in(0, 5);
            (0..n)
                .map(|_| char::from_u32(s.draw(0x10FFFF) as u32).unwrap_or('\u{FFFD}'))
                .collect()
        }
        _ => {
            // msgpack length-class boundaries: fixstr 31, str8 255, str16 65535
            let base = *s.pick(&[31i64, 255, 65535]);
            let n = (base + s.range(-1, 2)) as usize;
            let c = (b'a' + s.draw(25) as u8) as char;
            std::iter::repeat(c).take(n).collect()
        }
    }
}

pub fn item(s: &mut Src, depth: u32) -> Item {
    let kind = match s.weighted(&[3, 3, 2, 2, if depth > 0 { 2 } else { 0 }]) {
        0 => Kind::Unit,
        1 => Kind::New(s.i64_any()),
        2 => Kind::Tup(s.draw(255) as u8, string(s)),
        3 => {
            let n = s.usize_in(0, 4);
            Kind::Rec {
                a: s.bool().then(|| s.draw(u64::from(u32::MAX)) as u32),
                b: (0..n).map(|_| F64(s.f64_any(true))).collect(),
            }
        }
        _ => Kind::Nest(Box::new(item(s, depth - 1))),
    };
    let nc = if depth > 0 { s.usize_in(0, 2) } else { 0 };
    let ne = s.usize_in(0, 2);
    Item {
        lead: s.bool().then(|| s.u64_any()),
        kind,
        extra: (0..ne).map(|_| s.i64_any() as i32).collect(),
        children: (0..nc).map(|_| item(s, depth - 1)).collect(),
        tag: s.bool().then(|| string(s)),
    }
}

fn ascii_blob(s: &mut Src, len: usize) -> String {
    // ASCII text: incompressible (64 symbols) or repetitive
    let b = s.blob(len);
    b.into_iter().map(|x| (b'!' + x % 90) as char).collect()
}

pub fn rec(s: &mut Src) -> Rec {
    let n_items = s.usize_in(0, 3);
    let n_map = s.usize_in(0, 4);
    let n_h = s.usize_in(0, 3);
    let nb = if s.chance(1, 8) { s.usize_in(0, 300) } else { s.usize_in(0, 8) };
    let nn = s.usize_in(0, 3);
    Rec {
        name: string(s),
        flag: s.bool(),
        small: (
            s.u64_any() as u8,
            s.i64_any() as i8,
            s.u64_any() as u16,
            s.i64_any() as i16,
            s.u64_any() as u32,
            s.i64_any() as i32,
        ),
        wide: (s.u64_any(), s.i64_any()),
        fl: (F32(s.f64_any(true) as f32), F64(s.f64_any(true))),
        ch: char::from_u32(s.draw(0x10FFFF) as u32).unwrap_or('x'),
        opt: s.bool().then(|| {
            let n = s.usize_in(0, 3);
            (0..n).map(|_| string(s)).collect()
        }),
        map: (0..n_map).map(|_| (string(s), s.i64_any())).collect(),
        hmap: (0..n_h)
            .map(|_| (s.draw(9) as u32, if s.bool() { Some(s.bool()) } else { None }))
            .collect(),
        arr: [s.u64_any() as u16, s.u64_any() as u16, s.u64_any() as u16],
        items: (0..n_items).map(|_| item(s, 3)).collect(),
        bytes: {
            let b = s.blob(nb);
            b
        },
        nested: (0..nn)
            .map(|_| {
                let k = s.usize_in(0, 4);
                (0..k).map(|_| F64(s.f64_any(true))).collect()
            })
            .collect(),
        blob: String::new(),
        unit: (),
    }
}

pub fn encoded_len(r: &impl Serialize) -> usize {
    rmp_serde::to_vec_named(r).unwrap().len()
}

/// Pad `r.blob` so that the msgpack form has exactly `target` bytes if possible.
pub fn pad_to(s: &mut Src, r: &mut Rec, target: usize) -> bool {
    let base = encoded_len(r);
    if target < base + 5 {
        return false;
    }
    for hdr in [0usize, 1, 2, 4] {
        let Some(n) = (target - base).checked_sub(hdr) else { continue };
        let cls = if n < 32 {
            0
        } else if n < 256 {
            1
        } else if n < 65536 {
            2
        } else {
            4
        };
        if cls == hdr {
            r.blob = ascii_blob(s, n);
            return encoded_len(r) == target;
        }
    }
    false
}

/// A record whose encoded size is drawn around block boundaries of the
/// buffered reader (8 KiB), zstd (128 KiB) and the 20-byte header.
pub fn sized_rec(s: &mut Src, max_blocks: u64) -> (Rec, usize) {
    let mut r = rec(s);
    match s.weighted(&[3, 2, 2, 2]) {
        0 => {}
        1 => {
            let t = s.usize_in(0, 20000);
            pad_to(s, &mut r, t);
        }
        2 => {
            let base = *s.pick(&[8192i64, 16384, 32768, 65536]);
            let t = (base + s.range(-40, 40)) as usize;
            pad_to(s, &mut r, t);
        }
        _ => {
            let k = 1 + s.draw(max_blocks - 1) as i64;
            let t = (k * 131_072 + if s.bool() { s.range(-40, 40) } else { 0 }) as usize;
            pad_to(s, &mut r, t);
        }
    }
    let n = encoded_len(&r);
    (r, n)
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tiny {
    pub a: u8,
}
