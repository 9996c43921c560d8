//! Independent reference decoder, written from X.690 / RFC 5280 and the listed
//! properties, not from the code under test.  It is tri-state: where no listed
//! property says whether an encoding is accepted (for example a non-minimal
//! INTEGER), the verdict is `Unspec` and nothing is compared from there on.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tri<T> {
    Ok(T),
    Rej(&'static str),
    Unspec(&'static str),
}

#[derive(Clone, Copy, Debug)]
pub struct Tlv {
    pub tag: u8,
    pub start: usize,
    pub cstart: usize,
    pub end: usize,
}

pub fn supported_tag(t: u8) -> bool {
    matches!(
        t,
        0x01 | 0x02 | 0x03 | 0x04 | 0x05 | 0x06 | 0x0C | 0x13 | 0x16 | 0x17 | 0x18 | 0x30 | 0x31
    ) || (t & 0xC0 == 0x80 && t & 0x1F != 0x1F)
}

/// Reads the element at `pos`, whose enclosing content ends at `end`.
pub fn read_tlv(b: &[u8], pos: usize, end: usize) -> Result<Tlv, &'static str> {
    debug_assert!(pos < end && end <= b.len());
    let tag = b[pos];
    if !supported_tag(tag) {
        return Err("unsupported tag");
    }
    if pos + 1 >= end {
        return Err("no length");
    }
    let l0 = b[pos + 1] as usize;
    let (len, cstart): (u64, usize) = if l0 < 0x80 {
        (l0 as u64, pos + 2)
    } else {
        let k = l0 - 0x80;
        if k == 0 {
            return Err("indefinite length");
        }
        if k > 4 {
            return Err("length of length");
        }
        if pos + 2 + k > end {
            return Err("truncated length");
        }
        let mut v = 0u64;
        for i in 0..k {
            v = v * 256 + b[pos + 2 + i] as u64;
        }
        // fewest octets: no leading zero octet, and short form when below 128
        if b[pos + 2] == 0 || (k == 1 && v < 128) {
            return Err("non-minimal length");
        }
        (v, pos + 2 + k)
    };
    if len > (end - cstart) as u64 {
        return Err("content exceeds input");
    }
    Ok(Tlv { tag, start: pos, cstart, end: cstart + len as usize })
}

/// Decoded value of one element. Offsets are into the whole input.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    Int { off: usize, bytes: Vec<u8> },
    Bits { off: usize, unused: u8, bytes: Vec<u8> },
    Octets { off: usize, bytes: Vec<u8> },
    Null,
    Oid(Vec<u64>),
    Utf8 { off: usize, s: String },
    Printable { off: usize, s: String },
    Ia5 { off: usize, s: String },
    Time { generalized: bool, secs: u64 },
    Seq { off: usize, len: usize },
    Set { off: usize, len: usize },
    Ctx { tag: u8, off: usize, len: usize },
}

pub fn int_minimal(c: &[u8]) -> bool {
    !(c.len() > 1 && ((c[0] == 0 && c[1] & 0x80 == 0) || (c[0] == 0xFF && c[1] & 0x80 != 0)))
}

/// value of a two's complement integer of 1..=8 octets
pub fn int_value(c: &[u8]) -> Option<i64> {
    if c.is_empty() || c.len() > 8 {
        return None;
    }
    let mut v: i128 = 0;
    for &b in c {
        v = v * 256 + b as i128;
    }
    if c[0] >= 0x80 {
        v -= 1i128 << (8 * c.len());
    }
    Some(v as i64)
}

pub fn oid_arcs(c: &[u8]) -> Tri<Vec<u64>> {
    if c.is_empty() {
        return Tri::Rej("empty OID");
    }
    let mut subs: Vec<u64> = Vec::new();
    let mut padded = false;
    let mut i = 0;
    while i < c.len() {
        let s = i;
        let mut v: u64 = 0;
        loop {
            if i >= c.len() {
                return Tri::Rej("OID ends inside a subidentifier");
            }
            if i - s >= 4 {
                return Tri::Rej("subidentifier longer than four octets");
            }
            let b = c[i];
            i += 1;
            v = v * 128 + (b & 0x7F) as u64;
            if b < 0x80 {
                break;
            }
        }
        if c[s] == 0x80 {
            padded = true;
        }
        subs.push(v);
    }
    if padded {
        return Tri::Unspec("padded subidentifier");
    }
    let f = subs[0];
    let mut arcs = if f < 40 {
        vec![0, f]
    } else if f < 80 {
        vec![1, f - 40]
    } else {
        vec![2, f - 80]
    };
    arcs.extend_from_slice(&subs[1..]);
    Tri::Ok(arcs)
}

/// days in a month, by the rule as taught, not by table of cumulative days
pub fn month_len(y: u64, m: u64) -> u64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            let leap = if y % 400 == 0 {
                true
            } else if y % 100 == 0 {
                false
            } else {
                y % 4 == 0
            };
            if leap {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}

/// days since 1970-01-01 (Howard Hinnant's civil-date algorithm)
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn time_value(c: &[u8], generalized: bool) -> Result<u64, &'static str> {
    let ydig = if generalized { 4 } else { 2 };
    if c.len() != ydig + 11 {
        return Err("time length");
    }
    if c[c.len() - 1] != b'Z' {
        return Err("no Z");
    }
    let mut d = [0u64; 14];
    for i in 0..c.len() - 1 {
        if !(0x30..=0x39).contains(&c[i]) {
            return Err("time digit");
        }
        d[i] = (c[i] - 0x30) as u64;
    }
    let y = if generalized {
        d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3]
    } else {
        let yy = d[0] * 10 + d[1];
        if yy < 50 {
            2000 + yy
        } else {
            1900 + yy
        }
    };
    let f = |i: usize| d[ydig + i] * 10 + d[ydig + i + 1];
    let (mo, da, h, mi, s) = (f(0), f(2), f(4), f(6), f(8));
    if y < 1970 {
        return Err("before 1970");
    }
    if !(1..=12).contains(&mo) || da < 1 || da > month_len(y, mo) || h > 23 || mi > 59 || s > 59 {
        return Err("time field out of range");
    }
    Ok(days_from_civil(y as i64, mo as i64, da as i64) as u64 * 86_400 + h * 3600 + mi * 60 + s)
}

pub fn printable_char(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&b)
}

fn text(c: &[u8]) -> Option<String> {
    std::str::from_utf8(c).ok().map(|s| s.to_string())
}

/// Value of the element `t`; `Unspec` still carries the value that must be
/// reported if the element is accepted, where that is determined.
pub fn value(b: &[u8], t: &Tlv) -> (Tri<Val>, Option<Val>) {
    let c = &b[t.cstart..t.end];
    let off = t.cstart;
    let ok = |v: Val| (Tri::Ok(v), None);
    let rej = |r: &'static str| (Tri::Rej(r), None);
    match t.tag {
        0x01 => match c {
            [0xFF] => ok(Val::Bool(true)),
            [0x00] => ok(Val::Bool(false)),
            _ => rej("boolean content"),
        },
        0x02 => {
            if c.is_empty() {
                return rej("empty integer");
            }
            let v = Val::Int { off, bytes: c.to_vec() };
            if int_minimal(c) {
                ok(v)
            } else {
                (Tri::Unspec("non-minimal integer"), Some(v))
            }
        }
        0x03 => {
            if c.is_empty() {
                return rej("empty bit string content");
            }
            let unused = c[0];
            if unused > 7 || (c.len() == 1 && unused != 0) {
                return rej("unused bit count");
            }
            let v = Val::Bits { off: off + 1, unused, bytes: c[1..].to_vec() };
            if unused > 0 && c[c.len() - 1] & ((1u8 << unused) - 1) != 0 {
                (Tri::Unspec("non-zero padding bits"), Some(v))
            } else {
                ok(v)
            }
        }
        0x04 => ok(Val::Octets { off, bytes: c.to_vec() }),
        0x05 => {
            if c.is_empty() {
                ok(Val::Null)
            } else {
                rej("null content")
            }
        }
        0x06 => match oid_arcs(c) {
            Tri::Ok(a) => ok(Val::Oid(a)),
            Tri::Rej(r) => rej(r),
            Tri::Unspec(u) => (Tri::Unspec(u), None),
        },
        0x0C => match text(c) {
            Some(s) => ok(Val::Utf8 { off, s }),
            None => rej("invalid UTF-8"),
        },
        0x13 => match text(c) {
            Some(s) => {
                let v = Val::Printable { off, s };
                if c.iter().all(|b| printable_char(*b)) {
                    ok(v)
                } else {
                    (Tri::Unspec("character set"), Some(v))
                }
            }
            None => rej("invalid UTF-8"),
        },
        0x16 => match text(c) {
            Some(s) => {
                let v = Val::Ia5 { off, s };
                if c.iter().all(|b| *b < 0x80) {
                    ok(v)
                } else {
                    (Tri::Unspec("character set"), Some(v))
                }
            }
            None => rej("invalid UTF-8"),
        },
        0x17 | 0x18 => match time_value(c, t.tag == 0x18) {
            Ok(secs) => ok(Val::Time { generalized: t.tag == 0x18, secs }),
            Err(e) => rej(e),
        },
        0x30 => ok(Val::Seq { off, len: c.len() }),
        0x31 => ok(Val::Set { off, len: c.len() }),
        t => ok(Val::Ctx { tag: t & 0x1F, off, len: c.len() }),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Type(Val),
    Begin,
    End,
    Error,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Term {
    Done,
    Rejected(&'static str),
    /// nothing is claimed from here on; if the element is accepted its value
    /// must be this one
    Unspec(&'static str, Option<Val>),
}

/// The event stream the walk of `b` must produce.
pub fn walk(b: &[u8]) -> (Vec<Ev>, Term) {
    let mut evs = Vec::new();
    let mut ends: Vec<usize> = vec![b.len()];
    let mut pos = 0usize;
    loop {
        let end = *ends.last().unwrap();
        if pos == end {
            ends.pop();
            if ends.is_empty() {
                return (evs, Term::Done);
            }
            evs.push(Ev::End);
            continue;
        }
        let t = match read_tlv(b, pos, end) {
            Ok(t) => t,
            Err(e) => {
                evs.push(Ev::Error);
                return (evs, Term::Rejected(e));
            }
        };
        match value(b, &t) {
            (Tri::Ok(v), _) => {
                let cons = matches!(v, Val::Seq { .. } | Val::Set { .. } | Val::Ctx { .. });
                evs.push(Ev::Type(v));
                if cons {
                    evs.push(Ev::Begin);
                    ends.push(t.end);
                    pos = t.cstart;
                } else {
                    pos = t.end;
                }
            }
            (Tri::Rej(e), _) => {
                evs.push(Ev::Error);
                return (evs, Term::Rejected(e));
            }
            (Tri::Unspec(u), v) => return (evs, Term::Unspec(u, v)),
        }
    }
}

// ------------------------------------------------------------ text forms

pub fn known_oid_name(a: &[u64]) -> Option<&'static str> {
    let s = dotted(a);
    Some(match s.as_str() {
        "2.5.4.3" => "Common Name",
        "2.5.4.6" => "Country Name",
        "2.5.4.7" => "Locality Name",
        "2.5.4.8" => "State or Province Name",
        "2.5.4.10" => "Organization Name",
        "2.5.4.11" => "Organizational Unit Name",
        "1.2.840.113549.1.9.1" => "Email Address",
        "1.2.840.113549.1.1.1" => "RSA Encryption",
        "1.2.840.113549.1.1.5" => "SHA1 with RSA Signature",
        "1.3.101.112" => "Ed25519 Signature",
        _ => return None,
    })
}
pub fn dotted(a: &[u64]) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}
pub fn oid_text(a: &[u64]) -> String {
    match known_oid_name(a) {
        Some(n) => n.to_string(),
        None => dotted(a),
    }
}
pub fn colon_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect::<Vec<_>>().join(":")
}
pub fn int_text(b: &[u8]) -> String {
    if b.len() <= 4 {
        match int_value(b) {
            Some(v) => v.to_string(),
            None => "[]".into(),
        }
    } else {
        colon_hex(b)
    }
}
pub fn val_text(v: &Val) -> String {
    match v {
        Val::Bool(b) => format!("Boolean: {}", if *b { "true" } else { "false" }),
        Val::Int { bytes, .. } => format!("Integer: {}", int_text(bytes)),
        Val::Bits { .. } => "BitString".into(),
        Val::Octets { .. } => "OctetString".into(),
        Val::Null => "Null".into(),
        Val::Oid(a) => format!("ObjectIdentifier: {}", oid_text(a)),
        Val::Utf8 { s, .. } => format!("UTF8String: {}", s),
        Val::Printable { s, .. } => format!("PrintableString: {}", s),
        Val::Ia5 { s, .. } => format!("IA5String: {}", s),
        Val::Time { secs, .. } => format!("UTCTime: {}", secs),
        Val::Seq { .. } => "Sequence".into(),
        Val::Set { .. } => "Set".into(),
        Val::Ctx { tag, .. } => format!("[{}]", tag),
    }
}
