//! Encoder, models and generators. Everything is drawn from a `Src`.

use crate::engine::Src;
use crate::refder::{int_minimal, month_len, supported_tag};
use crate::refx509::*;

// ------------------------------------------------------------ encoding

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Leaf(u8, Vec<u8>),
    Cons(u8, Vec<Node>),
    /// verbatim bytes
    Raw(Vec<u8>),
}

pub fn der_len(n: usize, out: &mut Vec<u8>) {
    if n < 128 {
        out.push(n as u8);
    } else {
        let be = (n as u64).to_be_bytes();
        let skip = be.iter().take_while(|b| **b == 0).count();
        out.push(0x80 | (8 - skip) as u8);
        out.extend_from_slice(&be[skip..]);
    }
}
pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    der_len(content.len(), &mut v);
    v.extend_from_slice(content);
    v
}
impl Node {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            Node::Leaf(t, c) => tlv(*t, c),
            Node::Cons(t, k) => tlv(*t, &enc_all(k)),
            Node::Raw(r) => r.clone(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Node::Cons(_, k) => 1 + k.iter().map(|n| n.count()).sum::<usize>(),
            _ => 1,
        }
    }
    /// number of constructed nodes (possible parents)
    pub fn get_mut(&mut self, idx: usize) -> Option<&mut Node> {
        fn go<'a>(n: &'a mut Node, left: &mut usize) -> Option<&'a mut Node> {
            if *left == 0 {
                return Some(n);
            }
            *left -= 1;
            if let Node::Cons(_, k) = n {
                for x in k {
                    if let Some(r) = go(x, left) {
                        return Some(r);
                    }
                }
            }
            None
        }
        let mut l = idx;
        go(self, &mut l)
    }
}
pub fn enc_all(k: &[Node]) -> Vec<u8> {
    let mut v = Vec::new();
    for n in k {
        v.extend_from_slice(&n.enc());
    }
    v
}
pub fn seq(k: Vec<Node>) -> Node {
    Node::Cons(0x30, k)
}
pub fn set(k: Vec<Node>) -> Node {
    Node::Cons(0x31, k)
}
pub fn oid_content(arcs: &[u64]) -> Vec<u8> {
    let mut subs = vec![arcs[0] * 40 + arcs[1]];
    subs.extend_from_slice(&arcs[2..]);
    let mut out = Vec::new();
    for s in subs {
        let mut groups = vec![(s % 128) as u8];
        let mut x = s / 128;
        while x > 0 {
            groups.push((x % 128) as u8 | 0x80);
            x /= 128;
        }
        groups.reverse();
        out.extend_from_slice(&groups);
    }
    out
}
pub fn oid(arcs: &[u64]) -> Node {
    Node::Leaf(0x06, oid_content(arcs))
}
pub fn int_content(v: i64) -> Vec<u8> {
    let be = v.to_be_bytes();
    let mut i = 0;
    while i < 7 && !int_minimal(&be[i..]) {
        i += 1;
    }
    be[i..].to_vec()
}
pub fn bits(unused: u8, bytes: &[u8]) -> Vec<u8> {
    let mut c = vec![unused];
    c.extend_from_slice(bytes);
    c
}

// ------------------------------------------------------------ leaf contents

pub fn gen_int(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[16, 16, 12, 8, 1, 3, 4]) {
        6 => {
            let v = s.mined_int(u64::MAX);
            match s.below(4) {
                0 => int_content((v as i64).wrapping_neg()),
                1 => {
                    let mut b = v.to_be_bytes().to_vec();
                    b.insert(0, 0);
                    minimal(b)
                }
                2 => minimal(s.mined_bytes()),
                _ => int_content(v as i64),
            }
        }
        5 => {
            // the magnitudes of keys and serial numbers, with and without a padding octet
            let k = *s.pick(&[8usize, 16, 19, 20, 21, 32, 48, 64, 66, 96, 128, 256, 512]);
            let mut v = s.bytes(k);
            if s.flip() {
                v[0] |= 0x80;
                v.insert(0, 0);
            }
            minimal(v)
        }
        0 => int_content(s.below(200) as i64 - 20),
        1 => int_content(*s.pick(&[
            0i64,
            1,
            -1,
            127,
            128,
            -128,
            -129,
            255,
            256,
            32767,
            32768,
            -32768,
            -32769,
            65535,
            65536,
            8388607,
            8388608,
            -8388608,
            -8388609,
            16777215,
            16777216,
            i32::MAX as i64,
            i32::MAX as i64 + 1,
            i32::MIN as i64,
            i32::MIN as i64 - 1,
            u32::MAX as i64,
            u32::MAX as i64 + 1,
            1 << 39,
            i64::MAX,
            i64::MIN,
        ])),
        2 => {
            let k = s.range(1, 5) as usize;
            minimal(s.bytes(k))
        }
        3 => {
            let k = s.range(1, 24) as usize;
            minimal(s.bytes(k))
        }
        _ => {
            let k = s.len(70_000);
            minimal(s.bytes(k))
        }
    }
}
pub fn minimal(mut v: Vec<u8>) -> Vec<u8> {
    if v.is_empty() {
        return vec![0];
    }
    let mut i = 0;
    while !int_minimal(&v[i..]) {
        i += 1;
    }
    v.split_off(i)
}
/// (unused, bytes) with zero padding bits
pub fn gen_bits(s: &mut Src, max: usize) -> (u8, Vec<u8>) {
    let n = s.len_tail(max, 70_000);
    let mut b = s.bytes(n);
    if b.is_empty() {
        return (0, b);
    }
    let u = if s.chance(2, 5) { s.below(8) as u8 } else { 0 };
    let l = b.len() - 1;
    b[l] &= !(((1u16 << u) - 1) as u8);
    (u, b)
}
pub const PRINTABLE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
/// texts that mean something to somebody
pub const TEXTS: &[&str] = &[
    "", " ", "a", "A", "US", "us", "CA", "true", "0", "*", "a.b", "A.B", "*.a.b", ".a.b", "localhost", "127.0.0.1", "::1", "x@y.z", "X@y.z",
    "http://a.b/c", "https://a.b:1/c?d=e", "urn:a:b", "mailto:x@y.z", "xn--a.b", "Example CA", "O'Neil, Inc.", "a=b", "CN=a", " a", "a ", "a  b",
];
/// one of these or of the texts in the code under test, alone or as a part
fn meant(s: &mut Src) -> String {
    if !s.steer(6) {
        return s.pick(TEXTS).to_string();
    }
    let t = s.mined_text();
    let k = s.below(5);
    if k == 0 {
        return t;
    }
    let n = s.len(40);
    let o: String = s.bytes(n).iter().map(|b| PRINTABLE[*b as usize % PRINTABLE.len()] as char).collect();
    match k {
        1 => t + &o,
        2 => o + &t,
        3 => {
            let m = o.len() / 2;
            format!("{}{}{}", &o[..m], t, &o[m..])
        }
        _ => t.to_uppercase(),
    }
}
pub fn gen_printable(s: &mut Src) -> String {
    if s.chance(1, 8) {
        return meant(s).chars().filter(|c| c.is_ascii() && PRINTABLE.contains(&(*c as u8))).collect();
    }
    let n = s.len_tail(300, 70_000);
    if n <= 24 {
        (0..n).map(|_| *s.pick(PRINTABLE) as char).collect()
    } else {
        s.bytes(n).iter().map(|b| PRINTABLE[*b as usize % PRINTABLE.len()] as char).collect()
    }
}
pub fn gen_ia5(s: &mut Src) -> String {
    if s.chance(1, 8) {
        return meant(s).chars().filter(|c| c.is_ascii()).collect();
    }
    let n = s.len_tail(300, 70_000);
    let raw = s.bytes(n);
    let plain = s.chance(2, 3);
    raw.iter()
        .map(|b| {
            let c = b & 0x7F;
            if plain && (c < 0x20 || c == 0x7F) {
                (c % 26 + b'a') as char
            } else {
                c as char
            }
        })
        .collect()
}
/// texts with something a decoder may be tempted to normalise or cut
pub const ODD_TEXTS: &[&str] = &[
    "\u{feff}", "\u{feff}a", "a\u{feff}", "a\0", "\0", "\0a", "a\0b", "a\n", "\n", "a\nb", "a\r\n", "\ta", "a\u{85}", "\u{a0}a\u{a0}",
    "\u{2003}a", "\u{202e}a", "\u{e9}", "e\u{301}", "\u{301}", "\u{df}", "\u{130}", "\u{fb01}", "\u{ff21}", "{}", "{0}", "%s%n", "\\", "\"", "'",
    "<a>", "&amp;", "\x1b[0m", "\x7f", "a\u{200b}b", "\u{1F600}", "b\u{fc}cher.example", "\u{10ffff}", "\u{fffd}",
];
/// a long text of multi-octet characters at any alignment
pub fn gen_wide(s: &mut Src) -> String {
    let c = *s.pick(&['\u{e9}', '\u{20ac}', '\u{1F600}', '\u{7ff}', '\u{ffff}']);
    let lead = s.below(6) as usize;
    let n = s.len(5000);
    let mut t = "x".repeat(lead);
    for _ in 0..n {
        t.push(c);
    }
    if s.flip() {
        t.push_str("xy");
    }
    t
}
pub fn gen_utf8(s: &mut Src) -> String {
    match s.below(9) {
        0 | 1 => gen_printable(s),
        2 | 3 => gen_ia5(s),
        4 => match s.below(4) {
            0 => s.pick(ODD_TEXTS).to_string(),
            3 => meant(s),
            1 => {
                let t = if s.flip() { gen_printable(s) } else { gen_wide(s) };
                let o = s.pick(ODD_TEXTS);
                if s.flip() {
                    format!("{}{}", t, o)
                } else {
                    format!("{}{}", o, t)
                }
            }
            _ => gen_wide(s),
        },
        _ => {
            let n = s.count(20, 1100);
            (0..n)
                .map(|_| {
                    let c = match s.below(6) {
                        0 => s.below(0x80) as u32,
                        1 => s.range(0x80, 0x7FF) as u32,
                        2 => s.range(0x800, 0xFFFF) as u32,
                        3 => s.range(0x10000, 0x10FFFF) as u32,
                        4 => *s.pick(&[0x7Fu32, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0]),
                        _ => s.range(0x41, 0x5A) as u32,
                    };
                    char::from_u32(c).unwrap_or('\u{FFFD}')
                })
                .collect()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tm {
    pub gen: bool,
    pub y: u64,
    pub mo: u64,
    pub d: u64,
    pub h: u64,
    pub mi: u64,
    pub s: u64,
}
impl Tm {
    pub fn content(&self) -> Vec<u8> {
        if self.gen {
            format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", self.y, self.mo, self.d, self.h, self.mi, self.s)
        } else {
            format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", self.y % 100, self.mo, self.d, self.h, self.mi, self.s)
        }
        .into_bytes()
    }
    pub fn node(&self) -> Node {
        Node::Leaf(if self.gen { 0x18 } else { 0x17 }, self.content())
    }
    /// seconds since the epoch by counting whole years and months
    pub fn secs(&self) -> u64 {
        let mut days = 0u64;
        for y in 1970..self.y {
            days += (1..=12).map(|m| month_len(y, m)).sum::<u64>();
        }
        for m in 1..self.mo {
            days += month_len(self.y, m);
        }
        (days + self.d - 1) * 86400 + self.h * 3600 + self.mi * 60 + self.s
    }
}
/// instants that mean something to somebody
pub const MOMENTS: &[(u64, u64, u64, u64, u64, u64)] = &[
    (1970, 1, 1, 0, 0, 0),
    (1970, 1, 1, 0, 0, 1),
    (1970, 12, 31, 23, 59, 59),
    (1972, 2, 29, 23, 59, 59),
    (1999, 12, 31, 23, 59, 59),
    (2000, 1, 1, 0, 0, 0),
    (2000, 2, 29, 12, 0, 0),
    (2001, 9, 9, 1, 46, 40),
    (2016, 12, 31, 23, 59, 59),
    (2038, 1, 19, 3, 14, 7),
    (2038, 1, 19, 3, 14, 8),
    (2049, 12, 31, 23, 59, 59),
    (2050, 1, 1, 0, 0, 0),
    (2100, 2, 28, 23, 59, 59),
    (2100, 3, 1, 0, 0, 0),
    (2106, 2, 7, 6, 28, 15),
    (2106, 2, 7, 6, 28, 16),
    (2400, 2, 29, 0, 0, 0),
    (9999, 12, 31, 23, 59, 59),
    (9999, 12, 31, 0, 0, 0),
    (9999, 12, 30, 23, 59, 59),
];
pub fn gen_time(s: &mut Src) -> Tm {
    if s.chance(1, 12) {
        let (y, mo, d, h, mi, sec) = *s.pick(MOMENTS);
        return Tm { gen: y >= 2050 || s.flip(), y, mo, d, h, mi, s: sec };
    }
    let gen = s.flip();
    let y = if s.steer(24) {
        let v = s.mined_int(if gen { 9999 } else { 2049 });
        if v < 1970 {
            1970 + v % 80
        } else {
            v
        }
    } else if gen {
        match s.below(4) {
            0 => *s.pick(&[1970u64, 1971, 1972, 1999, 2000, 2001, 2049, 2050, 2069, 2070, 2096, 2099, 2100, 2104, 2200, 2300, 2400, 4000, 9999]),
            1 => s.range(1970, 2100),
            _ => s.range(1970, 9999),
        }
    } else {
        match s.below(3) {
            0 => *s.pick(&[1970u64, 1971, 1972, 1999, 2000, 2001, 2004, 2038, 2048, 2049]),
            _ => s.range(1970, 2049),
        }
    };
    let mo = s.range(1, 12);
    let ml = month_len(y, mo);
    let d = match s.below(4) {
        0 => 1,
        1 => ml,
        _ => s.range(1, ml),
    };
    let mut f = |max: u64| match s.below(4) {
        0 => 0,
        1 => max,
        _ => s.range(0, max),
    };
    Tm { gen, y, mo, d, h: f(23), mi: f(59), s: f(59) }
}

pub fn gen_arc(s: &mut Src) -> u64 {
    match s.weighted(&[5, 4, 3, 1]) {
        3 => s.mined_int((1 << 28) - 1),
        0 => s.below(50),
        1 => *s.pick(&[
            0u64,
            1,
            39,
            40,
            41,
            47,
            48,
            79,
            80,
            119,
            120,
            126,
            127,
            128,
            129,
            255,
            256,
            840,
            16383,
            16384,
            16385,
            113549,
            65535,
            65536,
            2097151,
            2097152,
            2097153,
            50316,
            16777215,
            16777216,
            (1 << 28) - 2,
            (1 << 28) - 1,
        ]),
        _ => {
            let k = s.range(1, 28);
            s.below(1 << k)
        }
    }
}
pub const KNOWN: &[&[u64]] = &[
    &[2, 5, 4, 3],
    &[2, 5, 4, 6],
    &[2, 5, 4, 7],
    &[2, 5, 4, 8],
    &[2, 5, 4, 10],
    &[2, 5, 4, 11],
    &[1, 2, 840, 113549, 1, 9, 1],
    &[1, 2, 840, 113549, 1, 1, 1],
    &[1, 2, 840, 113549, 1, 1, 5],
    &[1, 3, 101, 112],
    SKI,
    KU,
    SAN,
    BC,
    EKU,
    ROLE,
    &[1, 3, 6, 1, 5, 5, 7, 3, 1],
    &[1, 3, 6, 1, 5, 5, 7, 3, 2],
    &[1, 3, 6, 1, 5, 5, 7, 3, 3],
    &[1, 3, 6, 1, 5, 5, 7, 3, 4],
    &[1, 3, 6, 1, 5, 5, 7, 3, 8],
    &[1, 3, 6, 1, 5, 5, 7, 3, 9],
];
/// identifiers that mean something, but not to the code under test
pub const OTHER: &[&[u64]] = &[
    &[2, 5, 29, 1],
    &[2, 5, 29, 2],
    &[2, 5, 29, 3],
    &[2, 5, 29, 4],
    &[2, 5, 29, 7],
    &[2, 5, 29, 9],
    &[2, 5, 29, 10],
    &[2, 5, 29, 16],
    &[2, 5, 29, 18],
    &[2, 5, 29, 20],
    &[2, 5, 29, 30],
    &[2, 5, 29, 31],
    &[2, 5, 29, 32],
    &[2, 5, 29, 32, 0],
    &[2, 5, 29, 33],
    &[2, 5, 29, 35],
    &[2, 5, 29, 36],
    &[2, 5, 29, 37, 0],
    &[2, 5, 29, 46],
    &[2, 5, 29, 54],
    &[1, 3, 6, 1, 5, 5, 7, 1, 1],
    &[1, 3, 6, 1, 5, 5, 7, 1, 3],
    &[1, 3, 6, 1, 5, 5, 7, 1, 11],
    &[1, 3, 6, 1, 5, 5, 7, 1, 24],
    &[1, 3, 6, 1, 5, 5, 7, 3, 5],
    &[1, 3, 6, 1, 5, 5, 7, 3, 6],
    &[1, 3, 6, 1, 5, 5, 7, 3, 7],
    &[1, 3, 6, 1, 5, 5, 7, 3, 10],
    &[1, 3, 6, 1, 5, 5, 7, 3, 17],
    &[1, 3, 6, 1, 4, 1, 311, 10, 3, 3],
    &[1, 3, 6, 1, 4, 1, 311, 20, 2, 2],
    &[1, 3, 6, 1, 4, 1, 311, 21, 1],
    &[1, 3, 6, 1, 4, 1, 11129, 2, 4, 2],
    &[1, 3, 6, 1, 4, 1, 11129, 2, 4, 3],
    &[1, 3, 6, 1, 4, 1, 50316, 802, 2],
    &[2, 16, 840, 1, 113730, 1, 1],
    &[2, 16, 840, 1, 113730, 1, 13],
    &[1, 2, 840, 113549, 1, 1, 11],
    &[1, 2, 840, 113549, 1, 1, 12],
    &[1, 2, 840, 113549, 1, 1, 4],
    &[1, 2, 840, 113549, 1, 9, 14],
    &[1, 2, 840, 10045, 2, 1],
    &[1, 2, 840, 10045, 4, 3, 2],
    &[1, 3, 101, 110],
    &[1, 3, 101, 111],
    &[1, 3, 101, 113],
    &[2, 5, 4, 4],
    &[2, 5, 4, 5],
    &[2, 5, 4, 9],
    &[2, 5, 4, 12],
    &[2, 5, 4, 17],
    &[2, 5, 4, 42],
    &[0, 9, 2342, 19200300, 100, 1, 25],
    &[0, 9, 2342, 19200300, 100, 1, 1],
];
/// an OID all of whose subidentifiers fit in 28 bits
pub fn gen_oid(s: &mut Src) -> Vec<u64> {
    match s.weighted(&[3, 2, 4, 1]) {
        0 => s.pick(KNOWN).to_vec(),
        1 => near_oid(s),
        3 => {
            // numbers of a list in the code under test, or an identifier in use elsewhere
            let mut v = if s.flip() { s.mined_list() } else { s.pick(OTHER).to_vec() };
            if s.chance(1, 4) {
                let a = gen_arc(s);
                v.push(a);
            }
            let ok = v.len() >= 2 && v[0] <= 2 && (v[0] == 2 || v[1] < 40) && v[1] <= (1 << 28) - 81 && v[2..].iter().all(|x| *x < 1 << 28);
            if ok {
                v
            } else {
                near_oid(s)
            }
        }
        _ => {
            let top = s.below(3);
            let second = if top < 2 { s.below(40) } else { gen_arc(s).min((1 << 28) - 81) };
            let n = match s.below(8) {
                0 => s.below(30) as usize,
                _ => s.count(8, 1100),
            };
            let mut v = vec![top, second];
            for _ in 0..n {
                v.push(gen_arc(s));
            }
            v
        }
    }
}
/// an OID close to a known one: one arc changed, dropped, added, or extended
pub fn near_oid(s: &mut Src) -> Vec<u64> {
    let mut v = s.pick(KNOWN).to_vec();
    let i = s.range(2, v.len() as u64 - 1) as usize;
    match s.below(6) {
        0 => v[i] = v[i].wrapping_add(1).min((1 << 28) - 1),
        1 => v[i] = v[i].saturating_sub(1),
        2 => {
            v.remove(i);
        }
        3 => {
            let a = gen_arc(s);
            v.push(a);
        }
        4 => {
            let a = gen_arc(s);
            v.insert(i, a);
        }
        _ => {
            v[0] = s.below(2);
            v[1] = s.below(40);
        }
    }
    v
}

pub const LEAF_TAGS: [u8; 11] = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18];

pub fn gen_leaf_of(s: &mut Src, tag: u8) -> Node {
    let c = match tag {
        0x01 => vec![if s.flip() { 0xFF } else { 0x00 }],
        0x02 => gen_int(s),
        0x03 => {
            let (u, b) = gen_bits(s, 700);
            bits(u, &b)
        }
        0x04 => gen_octets(s, 600),
        0x05 => vec![],
        0x06 => oid_content(&gen_oid(s)),
        0x0C => gen_utf8(s).into_bytes(),
        0x13 => gen_printable(s).into_bytes(),
        0x16 => gen_ia5(s).into_bytes(),
        0x17 | 0x18 => {
            let mut t = gen_time(s);
            if (tag == 0x18) != t.gen {
                t.gen = tag == 0x18;
                if !t.gen {
                    t.y = 1970 + t.y % 80;
                    t.d = t.d.min(month_len(t.y, t.mo));
                }
            }
            t.content()
        }
        _ => unreachable!(),
    };
    Node::Leaf(tag, c)
}
pub fn gen_leaf(s: &mut Src) -> Node {
    let t = *s.pick(&LEAF_TAGS);
    gen_leaf_of(s, t)
}
pub fn gen_ctx_tag(s: &mut Src) -> u8 {
    (if s.chance(1, 4) { 0x80 } else { 0xA0 }) | s.below(31) as u8
}
/// a valid element tree with at most `size` elements
pub fn gen_tree(s: &mut Src, depth: u32, budget: &mut i64) -> Node {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || s.below(5) < 2 {
        return gen_leaf(s);
    }
    let tag = match s.below(3) {
        0 => 0x30,
        1 => 0x31,
        _ => gen_ctx_tag(s),
    };
    let n = match s.weighted(&[2, 4, 1]) {
        0 => 0,
        1 => s.range(1, 4),
        _ => s.range(1, 12),
    };
    let mut k = Vec::new();
    for _ in 0..n {
        if *budget <= 0 {
            break;
        }
        k.push(gen_tree(s, depth - 1, budget));
    }
    Node::Cons(tag, k)
}
pub fn gen_forest(s: &mut Src) -> Vec<Node> {
    let n = s.weighted(&[1, 6, 3, 1]) as u64;
    let n = if n == 3 { s.range(3, 8) } else { n };
    let mut budget = 60;
    let depth = s.range(0, 8) as u32;
    (0..n).map(|_| gen_tree(s, depth, &mut budget)).collect()
}

/// random bytes with a bias towards DER-looking structure
pub fn gen_soup(s: &mut Src) -> Vec<u8> {
    let n = s.below(40);
    let mut v = Vec::new();
    for _ in 0..n {
        match s.below(8) {
            0 => {
                let b = s.special_byte();
                v.push(b)
            }
            1 => {
                // tag + plausible short length
                let t = *s.pick(&[0x30u8, 0x31, 0xA0, 0xA3, 0x02, 0x03, 0x04, 0x06, 0x01, 0x05, 0x17, 0x18, 0x0C]);
                v.push(t);
                let l = s.below(12) as u8;
                v.push(l)
            }
            2 => {
                v.push(0x80 | s.below(6) as u8);
                let b = s.special_byte();
                v.push(b)
            }
            3 => {
                let l = gen_leaf_small(s);
                v.extend_from_slice(&l.enc())
            }
            4 => v.push(*s.pick(&[0x30, 0x31, 0xA0, 0xA1, 0x80, 0x81, 0x82, 0x84])),
            _ => {
                let b = s.byte();
                v.push(b)
            }
        }
    }
    v
}
pub fn gen_leaf_small(s: &mut Src) -> Node {
    let n = gen_leaf(s);
    match n {
        Node::Leaf(_, c) if c.len() > 40 => Node::Leaf(0x04, c[..40].to_vec()),
        n => n,
    }
}

// ------------------------------------------------------------ x509 models

#[derive(Clone, Debug)]
pub struct MAlg {
    pub oid: Vec<u64>,
    pub params: Option<Node>,
}
impl MAlg {
    pub fn node(&self) -> Node {
        let mut k = vec![oid(&self.oid)];
        k.extend(self.params.clone());
        seq(k)
    }
}
pub fn gen_alg(s: &mut Src) -> MAlg {
    let oid = gen_oid(s);
    let params = match s.below(4) {
        0 => None,
        1 => Some(Node::Leaf(0x05, vec![])),
        2 => Some(gen_leaf_small(s)),
        _ => {
            let mut b = 8;
            Some(gen_tree(s, 3, &mut b))
        }
    };
    MAlg { oid, params }
}

#[derive(Clone, Debug)]
pub struct MAva {
    pub oid: Vec<u64>,
    pub value: Node,
}
pub type MName = Vec<Vec<MAva>>;
pub fn name_nodes(n: &MName) -> Vec<Node> {
    n.iter()
        .map(|rdn| set(rdn.iter().map(|a| seq(vec![oid(&a.oid), a.value.clone()])).collect()))
        .collect()
}
pub fn gen_text_node(s: &mut Src) -> Node {
    match s.below(3) {
        0 => Node::Leaf(0x13, gen_printable(s).into_bytes()),
        1 => Node::Leaf(0x0C, gen_utf8(s).into_bytes()),
        _ => Node::Leaf(0x16, gen_ia5(s).into_bytes()),
    }
}
/// a well-formed name: no recognised attribute twice
pub fn gen_name(s: &mut Src) -> MName {
    let n = s.count(8, 300);
    let mut used = [false; 6];
    let mut out: MName = Vec::new();
    for _ in 0..n {
        let unknown = s.chance(1, 4) || n > 40 && s.chance(7, 8);
        let a = if unknown {
            let oid = match s.below(3) {
                0 => vec![2, 5, 4, *s.pick(&[0u64, 1, 2, 4, 5, 9, 12, 13, 42, 46, 97, 128, 131])],
                1 => vec![1, 2, 840, 113549, 1, 9, 1],
                _ => {
                    let mut o = gen_oid(s);
                    if is_attr(&o) {
                        o.push(1);
                    }
                    o
                }
            };
            let value = if s.flip() { gen_text_node(s) } else { gen_leaf_small(s) };
            MAva { oid, value }
        } else {
            let i = s.usize_below(6);
            if used[i] {
                continue;
            }
            used[i] = true;
            MAva { oid: vec![2, 5, 4, ATTR_LAST[i]], value: gen_text_node(s) }
        };
        if !out.is_empty() && s.chance(1, 4) {
            out.last_mut().unwrap().push(a);
        } else {
            out.push(vec![a]);
        }
    }
    out
}
pub fn is_attr(o: &[u64]) -> bool {
    o.len() == 4 && o[..3] == [2, 5, 4] && ATTR_LAST.contains(&o[3])
}
pub fn name_expect(n: &MName) -> [Option<String>; 6] {
    let mut out: [Option<String>; 6] = Default::default();
    for a in n.iter().flatten() {
        if is_attr(&a.oid) {
            let i = ATTR_LAST.iter().position(|x| *x == a.oid[3]).unwrap();
            if let Node::Leaf(_, c) = &a.value {
                out[i] = Some(String::from_utf8(c.clone()).unwrap());
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum MGn {
    Email(String),
    Dns(String),
    Uri(String),
    Ip(Vec<u8>),
    Rid(Vec<u64>),
}
#[derive(Clone, Debug)]
pub enum MKind {
    Ski(Vec<u8>),
    Ku(u8, Vec<u8>),
    San(Vec<MGn>),
    Bc(Option<bool>, Option<i64>),
    Eku(Vec<usize>),
    Role(String),
    Unknown(Vec<u64>, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct MExt {
    pub critical: Option<bool>,
    pub kind: MKind,
}
fn boolean(b: bool) -> Node {
    Node::Leaf(0x01, vec![if b { 0xFF } else { 0 }])
}
impl MKind {
    pub fn oid(&self) -> Vec<u64> {
        match self {
            MKind::Ski(_) => SKI,
            MKind::Ku(..) => KU,
            MKind::San(_) => SAN,
            MKind::Bc(..) => BC,
            MKind::Eku(_) => EKU,
            MKind::Role(_) => ROLE,
            MKind::Unknown(o, _) => o,
        }
        .to_vec()
    }
    /// nodes inside the extension's OCTET STRING
    pub fn nodes(&self) -> Vec<Node> {
        vec![match self {
            MKind::Ski(b) => Node::Leaf(0x04, b.clone()),
            MKind::Ku(u, b) => Node::Leaf(0x03, bits(*u, b)),
            MKind::San(v) => seq(v
                .iter()
                .map(|g| match g {
                    MGn::Email(s) => Node::Leaf(0x81, s.clone().into_bytes()),
                    MGn::Dns(s) => Node::Leaf(0x82, s.clone().into_bytes()),
                    MGn::Uri(s) => Node::Leaf(0x86, s.clone().into_bytes()),
                    MGn::Ip(b) => Node::Leaf(0x87, b.clone()),
                    MGn::Rid(o) => Node::Leaf(0x88, oid_content(o)),
                })
                .collect()),
            MKind::Bc(ca, p) => {
                let mut k = Vec::new();
                if let Some(c) = ca {
                    k.push(boolean(*c));
                }
                if let Some(p) = p {
                    k.push(Node::Leaf(0x02, int_content(*p)));
                }
                seq(k)
            }
            MKind::Eku(v) => seq(v
                .iter()
                .map(|i| {
                    let mut o = KP.to_vec();
                    o.push(PURPOSES[*i].0);
                    oid(&o)
                })
                .collect()),
            MKind::Role(s) => Node::Leaf(0x0C, s.clone().into_bytes()),
            MKind::Unknown(_, b) => Node::Raw(b.clone()),
        }]
    }
}
impl MExt {
    pub fn node(&self) -> Node {
        let mut k = vec![oid(&self.kind.oid())];
        if let Some(c) = self.critical {
            k.push(boolean(c));
        }
        k.push(Node::Cons(0x04, self.kind.nodes()));
        seq(k)
    }
}
pub const ADDRESSES: &[&[u8]] = &[
    &[0, 0, 0, 0],
    &[127, 0, 0, 1],
    &[255, 255, 255, 255],
    &[10, 0, 0, 1],
    &[192, 168, 1, 1, 255, 255, 255, 0],
    &[0; 16],
    &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, 1],
    &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 192, 0, 2, 1],
    &[0x20, 1, 0xD, 0xB8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    &[0xFE, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    &[0; 32],
];
/// octets for an octet string: now and then an encoded element, or octets of
/// the code under test
pub fn gen_octets(s: &mut Src, small: usize) -> Vec<u8> {
    match s.weighted(&[20, 2, 1]) {
        1 => {
            let n = *s.pick(&[0usize, 1, 20, 20, 32, 64, 127, 128]);
            let b = s.bytes(n);
            Node::Leaf(if s.flip() { 4 } else { *s.pick(&LEAF_TAGS) }, b).enc()
        }
        2 => s.mined_bytes(),
        _ => {
            let n = s.len_tail(small, 70_000);
            s.bytes(n)
        }
    }
}
pub fn gen_gn(s: &mut Src) -> MGn {
    match s.below(5) {
        0 => MGn::Dns(gen_ia5(s)),
        1 => MGn::Email(gen_ia5(s)),
        2 => MGn::Uri(gen_ia5(s)),
        3 => {
            let n = match s.below(4) {
                0 => 4,
                1 => *s.pick(&[16usize, 8, 32]),
                2 => return MGn::Ip(s.pick(ADDRESSES).to_vec()),
                _ => s.len_tail(40, 70_000),
            };
            MGn::Ip(s.bytes(n))
        }
        _ => MGn::Rid(gen_oid(s)),
    }
}
pub fn gen_ku(s: &mut Src) -> (u8, Vec<u8>) {
    match s.below(3) {
        0 => {
            let (u, mut b) = (s.below(8) as u8, vec![s.byte()]);
            b[0] &= !(((1u16 << u) - 1) as u8);
            (u, b)
        }
        1 => {
            let u = s.below(8) as u8;
            let mut b = vec![s.byte(), s.byte()];
            b[1] &= !(((1u16 << u) - 1) as u8);
            (u, b)
        }
        _ => gen_bits(s, 40),
    }
}
pub fn gen_kind(s: &mut Src, which: Option<usize>) -> MKind {
    let w = which.unwrap_or_else(|| s.usize_below(7));
    match w {
        0 => MKind::Ski(gen_octets(s, 300)),
        1 => {
            let (u, b) = gen_ku(s);
            MKind::Ku(u, b)
        }
        2 => {
            let n = s.count(10, 1100);
            let mut v: Vec<MGn> = Vec::new();
            for _ in 0..n {
                // an earlier name again
                if !v.is_empty() && s.chance(1, 12) {
                    let i = s.usize_below(v.len());
                    v.push(v[i].clone());
                } else {
                    v.push(gen_gn(s));
                }
            }
            MKind::San(v)
        }
        3 => {
            let ca = match s.below(3) {
                0 => None,
                1 => Some(true),
                _ => Some(false),
            };
            let p = if s.flip() {
                None
            } else {
                Some(match s.weighted(&[4, 4, 4, 1]) {
                    3 => s.mined_int(i32::MAX as u64) as i64,
                    0 => s.below(20) as i64,
                    1 => *s.pick(&[
                        0i64,
                        1,
                        127,
                        128,
                        255,
                        256,
                        32767,
                        32768,
                        65535,
                        65536,
                        8388607,
                        8388608,
                        16777215,
                        16777216,
                        0x7FFF_FFFE,
                        0x7FFF_FFFF,
                    ]),
                    _ => {
                        let k = s.range(1, 31);
                        s.below(1 << k) as i64
                    }
                })
            };
            MKind::Bc(ca, p)
        }
        4 => {
            let n = s.count(12, 5000);
            MKind::Eku((0..n).map(|_| s.usize_below(6)).collect())
        }
        5 => MKind::Role(gen_utf8(s)),
        _ => {
            let mut o = gen_oid(s);
            while [SKI, KU, SAN, BC, EKU, ROLE].contains(&&o[..]) {
                o.push(1);
            }
            let c = match s.below(6) {
                0 | 1 => enc_all(&gen_forest_small(s)),
                2 => {
                    // what a supported kind would hold
                    let w = s.usize_below(6);
                    enc_all(&gen_kind(s, Some(w)).nodes())
                }
                _ => gen_octets(s, 2000),
            };
            MKind::Unknown(o, c)
        }
    }
}
pub fn gen_forest_small(s: &mut Src) -> Vec<Node> {
    let n = s.below(3);
    let mut b = 10;
    (0..n).map(|_| gen_tree(s, 3, &mut b)).collect()
}
pub fn gen_ext(s: &mut Src, which: Option<usize>) -> MExt {
    let kind = gen_kind(s, which);
    let critical = match s.below(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    MExt { critical, kind }
}
pub fn gen_exts(s: &mut Src) -> Vec<MExt> {
    let n = match s.below(8) {
        0 => 0,
        1 => s.count(20, 600),
        _ => s.range(1, 5) as usize,
    };
    let mut v: Vec<MExt> = Vec::new();
    for _ in 0..n {
        // an earlier extension again
        if !v.is_empty() && s.chance(1, 12) {
            let i = s.usize_below(v.len());
            v.push(v[i].clone());
        } else {
            v.push(gen_ext(s, None));
        }
    }
    v
}
pub fn exts_node(e: &[MExt]) -> Node {
    seq(e.iter().map(|x| x.node()).collect())
}

#[derive(Clone, Debug)]
pub struct MCert {
    pub version: Option<u8>,
    pub serial: Vec<u8>,
    pub sig: MAlg,
    pub issuer: MName,
    pub nb: Tm,
    pub na: Tm,
    pub subject: MName,
    pub spki_alg: MAlg,
    pub key: (u8, Vec<u8>),
    pub iuid: Option<(u8, Vec<u8>)>,
    pub suid: Option<(u8, Vec<u8>)>,
    pub exts: Option<Vec<MExt>>,
    pub outer: MAlg,
    pub signature: (u8, Vec<u8>),
}
pub fn gen_cert(s: &mut Src) -> MCert {
    let version = match s.below(5) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        _ => Some(2),
    };
    let v = version.unwrap_or(0);
    let uid = |s: &mut Src| {
        if v >= 1 && s.chance(2, 5) {
            Some(gen_bits(s, 40))
        } else {
            None
        }
    };
    let serial = gen_int(s);
    let sig = gen_alg(s);
    let issuer = gen_name(s);
    let nb = gen_time(s);
    let na = if s.chance(1, 16) { nb } else { gen_time(s) };
    let subject = if s.chance(1, 8) { issuer.clone() } else { gen_name(s) };
    let spki_alg = if s.chance(1, 8) { sig.clone() } else { gen_alg(s) };
    let key = gen_bits(s, 700);
    let iuid = uid(s);
    let suid = if s.chance(1, 8) && v >= 1 { iuid.clone() } else { uid(s) };
    let exts = if v >= 2 && s.chance(4, 5) { Some(gen_exts(s)) } else { None };
    let outer = if s.flip() { sig.clone() } else { gen_alg(s) };
    let signature = if s.chance(1, 16) { key.clone() } else { gen_bits(s, 700) };
    MCert { version, serial, sig, issuer, nb, na, subject, spki_alg, key, iuid, suid, exts, outer, signature }
}
impl MCert {
    pub fn node(&self) -> Node {
        self.node_with(seq(name_nodes(&self.issuer)), seq(name_nodes(&self.subject)), self.exts.as_ref().map(|e| exts_node(e)))
    }
    pub fn node_with(&self, issuer: Node, subject: Node, exts: Option<Node>) -> Node {
        let mut t = Vec::new();
        if let Some(v) = self.version {
            t.push(Node::Cons(0xA0, vec![Node::Leaf(0x02, vec![v])]));
        }
        t.push(Node::Leaf(0x02, self.serial.clone()));
        t.push(self.sig.node());
        t.push(issuer);
        t.push(seq(vec![self.nb.node(), self.na.node()]));
        t.push(subject);
        t.push(seq(vec![self.spki_alg.node(), Node::Leaf(0x03, bits(self.key.0, &self.key.1))]));
        if let Some((u, b)) = &self.iuid {
            t.push(Node::Leaf(0x81, bits(*u, b)));
        }
        if let Some((u, b)) = &self.suid {
            t.push(Node::Leaf(0x82, bits(*u, b)));
        }
        if let Some(e) = exts {
            t.push(Node::Cons(0xA3, vec![e]));
        }
        seq(vec![
            seq(t),
            self.outer.node(),
            Node::Leaf(0x03, bits(self.signature.0, &self.signature.1)),
        ])
    }
}

// ------------------------------------------------------------ mutations

/// A structural mutation of the tree; returns its class.
pub fn mutate_tree(s: &mut Src, root: &mut Node) -> &'static str {
    // an operation may not fit the element it hits
    for _ in 0..4 {
        let c = mutate_once(s, root);
        if c != "none" {
            return c;
        }
    }
    "none"
}
fn mutate_once(s: &mut Src, root: &mut Node) -> &'static str {
    let n = root.count();
    let idx = s.usize_below(n);
    let op = s.below(13);
    // operations on a child list need a constructed node
    let node = root.get_mut(idx).unwrap();
    match op {
        0 => {
            if let Node::Cons(_, k) = node {
                if !k.is_empty() {
                    let i = s.usize_below(k.len());
                    k.remove(i);
                    return "drop-element";
                }
            }
        }
        1 => {
            if let Node::Cons(_, k) = node {
                if !k.is_empty() {
                    let i = s.usize_below(k.len());
                    let c = k[i].clone();
                    let j = s.usize_below(k.len() + 1);
                    k.insert(j, c);
                    return "duplicate-element";
                }
            }
        }
        2 => {
            if let Node::Cons(_, k) = node {
                if k.len() >= 2 {
                    let i = s.usize_below(k.len() - 1);
                    k.swap(i, i + 1);
                    return "swap-elements";
                }
            }
        }
        3 | 4 => {
            if let Node::Cons(_, k) = node {
                let l = gen_leaf_small(s);
                let j = if s.flip() { k.len() } else { s.usize_below(k.len() + 1) };
                k.insert(j, l);
                return "extra-element";
            }
        }
        5 => {
            if let Node::Cons(_, k) = node {
                let n = s.range(1, 3) as usize;
                let b = s.bytes(n);
                k.push(Node::Raw(b));
                return "trailing-bytes";
            }
        }
        6 => {
            let t = gen_tag(s);
            match node {
                Node::Leaf(x, _) | Node::Cons(x, _) => {
                    *x = t;
                    return "retag";
                }
                _ => {}
            }
        }
        7 => {
            let mut b = 4;
            *node = gen_tree(s, 2, &mut b);
            return "replace-element";
        }
        8 => {
            // shorten the content, keeping the length right
            let (t, mut c) = match node {
                Node::Leaf(t, c) => (*t, c.clone()),
                Node::Cons(t, k) => (*t, enc_all(k)),
                _ => return "none",
            };
            if !c.is_empty() {
                let keep = s.usize_below(c.len());
                c.truncate(keep);
                *node = Node::Leaf(t, c);
                return "truncate-content";
            }
        }
        9 => {
            // length says more than there is
            let e = node.enc();
            let (t, c) = match node {
                Node::Leaf(t, c) => (*t, c.clone()),
                Node::Cons(t, k) => (*t, enc_all(k)),
                _ => return "none",
            };
            let extra = s.range(1, 3) as usize;
            let mut r = vec![t];
            der_len(c.len() + extra, &mut r);
            r.extend_from_slice(&c);
            let _ = e;
            *node = Node::Raw(r);
            return "length-too-large";
        }
        10 => {
            // other length forms of the same element
            let (t, c) = match node {
                Node::Leaf(t, c) => (*t, c.clone()),
                Node::Cons(t, k) => (*t, enc_all(k)),
                _ => return "none",
            };
            let mut r = vec![t];
            match s.below(6) {
                0 => {
                    r.push(0x80);
                    r.extend_from_slice(&c);
                    r.extend_from_slice(&[0, 0]);
                    *node = Node::Raw(r);
                    return "indefinite-length";
                }
                k => {
                    let be = (c.len() as u64).to_be_bytes();
                    r.push(0x80 | k as u8);
                    r.extend_from_slice(&be[8 - k as usize..]);
                    r.extend_from_slice(&c);
                    *node = Node::Raw(r);
                    return "long-length-form";
                }
            }
        }
        12 => {
            if let Node::Leaf(_, c) = node {
                match s.below(4) {
                    0 => *c = gen_wide(s).into_bytes(),
                    1 => *c = s.pick(ODD_TEXTS).as_bytes().to_vec(),
                    2 => {
                        let o = s.pick(ODD_TEXTS).as_bytes();
                        if s.flip() {
                            c.extend_from_slice(o)
                        } else {
                            c.splice(0..0, o.iter().copied());
                        }
                    }
                    _ => *c = Node::Leaf(*s.pick(&LEAF_TAGS), c.clone()).enc(),
                }
                return "odd-content";
            }
        }
        _ => {
            if let Node::Leaf(t, c) = node {
                let t = *t;
                if !c.is_empty() && s.flip() {
                    let i = s.usize_below(c.len());
                    c[i] = s.special_byte();
                    return "content-byte";
                }
                if LEAF_TAGS.contains(&t) {
                    *node = gen_leaf_of(s, t);
                    return "other-value";
                }
            }
        }
    }
    "none"
}
pub fn gen_tag(s: &mut Src) -> u8 {
    if s.steer(16) {
        return s.mined_int(255) as u8;
    }
    match s.below(3) {
        0 => *s.pick(&LEAF_TAGS),
        1 => *s.pick(&[0x30u8, 0x31, 0xA0, 0xA1, 0xA2, 0xA3, 0x80, 0x81, 0x82, 0x83, 0xA4, 0x9F, 0xBF, 0x10, 0x11, 0x24, 0x23]),
        _ => s.byte(),
    }
}
/// A byte-level mutation; returns its class.
pub fn mutate_bytes(s: &mut Src, b: &mut Vec<u8>) -> &'static str {
    if b.is_empty() {
        b.push(s.byte());
        return "append-byte";
    }
    let i = s.usize_below(b.len());
    match s.below(7) {
        0 => {
            b[i] = s.special_byte();
            "set-byte"
        }
        1 => {
            b[i] ^= 1 << s.below(8);
            "flip-bit"
        }
        2 => {
            b.remove(i);
            "delete-byte"
        }
        3 => {
            let x = s.special_byte();
            b.insert(i, x);
            "insert-byte"
        }
        4 => {
            b.truncate(i);
            "truncate"
        }
        5 => {
            let n = s.range(1, 4) as usize;
            let e = s.bytes(n);
            b.extend_from_slice(&e);
            "append"
        }
        _ => {
            b[i] = if s.flip() { b[i].wrapping_add(1) } else { b[i].wrapping_sub(1) };
            "adjust-byte"
        }
    }
}
pub fn unsupported_tag(s: &mut Src) -> u8 {
    loop {
        let t = s.byte();
        if !supported_tag(t) {
            return t;
        }
        if s.rec.len() > 100_000 {
            return 0x00;
        }
    }
}
