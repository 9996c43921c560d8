//! Independent reference decoder for certificates, names and extensions
//! (RFC 5280 restricted to what the listed properties claim), tri-state.

use crate::refder::*;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefAlg {
    pub oid: Vec<u64>,
    pub params: Option<Val>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefCert {
    pub tbs: (usize, usize),
    pub version: u8,
    pub serial: Val,
    pub sig: RefAlg,
    pub issuer: (usize, usize),
    pub not_before: u64,
    pub not_after: u64,
    pub subject: (usize, usize),
    pub spki_alg: RefAlg,
    pub spki_key: Val,
    pub iuid: Option<Val>,
    pub suid: Option<Val>,
    pub exts: Option<(usize, usize)>,
    pub outer: RefAlg,
    pub signature: Val,
}

/// C, ST, L, O, OU, CN as (offset, text)
pub type RefName = [Option<(usize, String)>; 6];
pub const ATTR_LAST: [u64; 6] = [6, 8, 7, 10, 11, 3];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefGn {
    Email(usize, String),
    Dns(usize, String),
    Uri(usize, String),
    Ip(usize, Vec<u8>),
    Rid(Vec<u64>),
    /// a kind of name the library does not decode (only in values put together by a caller)
    Other(u8),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefContent {
    Ski(usize, Vec<u8>),
    Ku([bool; 9]),
    San(Vec<RefGn>),
    Bc(bool, Option<i64>),
    Eku(Vec<&'static str>),
    Role(usize, String),
    Unknown(usize, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefExt {
    pub oid: Vec<u64>,
    pub critical: bool,
    pub content: RefContent,
}

/// Verdict: the value if accepted is claimed / rejection is claimed / nothing is
/// claimed about acceptance, but if accepted the value (when known) must match.
#[derive(Clone, Debug)]
pub enum Verdict<T> {
    Ok(T),
    Rej(&'static str),
    Unspec(&'static str, Option<T>),
}
impl<T> Verdict<T> {
    pub fn value(&self) -> Option<&T> {
        match self {
            Verdict::Ok(v) => Some(v),
            Verdict::Unspec(_, v) => v.as_ref(),
            _ => None,
        }
    }
}

type R<T> = Result<T, &'static str>;

struct Flags {
    unspec: Cell<Option<&'static str>>,
    undet: Cell<bool>,
}
impl Flags {
    fn new() -> Flags {
        Flags { unspec: Cell::new(None), undet: Cell::new(false) }
    }
    fn set(&self, why: &'static str) {
        if self.unspec.get().is_none() {
            self.unspec.set(Some(why))
        }
    }
    fn verdict<T>(&self, r: R<T>) -> Verdict<T> {
        match r {
            Err(e) => Verdict::Rej(e),
            Ok(v) => match self.unspec.get() {
                None => Verdict::Ok(v),
                Some(u) => Verdict::Unspec(u, if self.undet.get() { None } else { Some(v) }),
            },
        }
    }
}

struct Cur<'a> {
    b: &'a [u8],
    pos: usize,
    end: usize,
    f: &'a Flags,
}

impl<'a> Cur<'a> {
    fn new(b: &'a [u8], range: (usize, usize), f: &'a Flags) -> Self {
        Cur { b, pos: range.0, end: range.1, f }
    }
    fn at_end(&self) -> bool {
        self.pos == self.end
    }
    fn peek(&self) -> Option<u8> {
        if self.at_end() {
            None
        } else {
            Some(self.b[self.pos])
        }
    }
    fn next(&mut self) -> R<Tlv> {
        if self.at_end() {
            return Err("missing element");
        }
        let t = read_tlv(self.b, self.pos, self.end)?;
        self.pos = t.end;
        Ok(t)
    }
    fn end(&self) -> R<()> {
        if self.at_end() {
            Ok(())
        } else {
            Err("extra data")
        }
    }
    fn val(&self, t: &Tlv) -> R<Val> {
        match value(self.b, t) {
            (Tri::Ok(v), _) => Ok(v),
            (Tri::Rej(r), _) => Err(r),
            (Tri::Unspec(u), Some(v)) => {
                self.f.set(u);
                Ok(v)
            }
            (Tri::Unspec(u), None) => {
                self.f.set(u);
                self.f.undet.set(true);
                Ok(Val::Null)
            }
        }
    }
    fn expect(&mut self, tag: u8, why: &'static str) -> R<Val> {
        let t = self.next()?;
        if t.tag != tag {
            return Err(why);
        }
        self.val(&t)
    }
    fn sub(&mut self, tag: u8, why: &'static str) -> R<Cur<'a>> {
        let t = self.next()?;
        if t.tag != tag {
            return Err(why);
        }
        Ok(Cur { b: self.b, pos: t.cstart, end: t.end, f: self.f })
    }
    fn oid(&mut self) -> R<Vec<u64>> {
        match self.expect(0x06, "OID expected")? {
            Val::Oid(a) => Ok(a),
            _ => Ok(vec![]), // undetermined
        }
    }
}

fn alg(c: &mut Cur) -> R<RefAlg> {
    let mut c = c.sub(0x30, "AlgorithmIdentifier expected")?;
    let oid = c.oid()?;
    let mut params = None;
    if !c.at_end() {
        let t = c.next()?;
        let v = c.val(&t)?;
        if matches!(v, Val::Seq { .. } | Val::Set { .. } | Val::Ctx { .. })
            && walk(&c.b[t.cstart..t.end]).1 != Term::Done
        {
            // the content of constructed parameters is not part of the claim
            c.f.set("undecodable parameter content");
        }
        params = Some(v);
    }
    c.end()?;
    Ok(RefAlg { oid, params })
}

fn time(c: &mut Cur) -> R<u64> {
    let t = c.next()?;
    if t.tag != 0x17 && t.tag != 0x18 {
        return Err("time expected");
    }
    match c.val(&t)? {
        Val::Time { secs, .. } => Ok(secs),
        _ => unreachable!(),
    }
}

fn uid(c: &mut Cur, n: u8) -> R<Option<Val>> {
    match c.peek() {
        Some(t) if t & 0xC0 == 0x80 && t & 0x1F == n => {
            let tl = c.next()?;
            if t & 0x20 != 0 {
                // constructed form of a bit string: no claim
                c.f.set("constructed unique identifier");
                c.f.undet.set(true);
                return Ok(Some(Val::Null));
            }
            // [n] IMPLICIT BIT STRING: content rules of a BIT STRING
            let t2 = Tlv { tag: 0x03, ..tl };
            Ok(Some(c.val(&t2)?))
        }
        _ => Ok(None),
    }
}

fn cert_inner(b: &[u8], f: &Flags) -> R<RefCert> {
    let mut top = Cur::new(b, (0, b.len()), f);
    let mut c = top.sub(0x30, "certificate SEQUENCE expected")?;
    top.end()?;
    let mut t = c.sub(0x30, "TBS SEQUENCE expected")?;
    let tbs = (t.pos, t.end);
    let mut version = 0u8;
    if let Some(x) = t.peek() {
        if x & 0xDF == 0x80 {
            let tl = t.next()?;
            if x == 0x80 {
                f.set("primitive form of an explicit tag");
            }
            let mut v = Cur::new(b, (tl.cstart, tl.end), f);
            match v.expect(0x02, "version INTEGER expected")? {
                Val::Int { bytes, .. } => {
                    if !int_minimal(&bytes) {
                        // value of an oversized encoding: no claim
                        f.undet.set(true);
                    } else {
                        match int_value(&bytes) {
                            Some(n) if (0..=2).contains(&n) => version = n as u8,
                            _ => return Err("version number"),
                        }
                    }
                }
                _ => unreachable!(),
            }
            v.end()?;
        }
    }
    let serial = t.expect(0x02, "serial INTEGER expected")?;
    let sig = alg(&mut t)?;
    let i = t.sub(0x30, "issuer expected")?;
    let issuer = (i.pos, i.end);
    let mut v = t.sub(0x30, "validity expected")?;
    let not_before = time(&mut v)?;
    let not_after = time(&mut v)?;
    v.end()?;
    let s = t.sub(0x30, "subject expected")?;
    let subject = (s.pos, s.end);
    let mut k = t.sub(0x30, "public key info expected")?;
    let spki_alg = alg(&mut k)?;
    let spki_key = k.expect(0x03, "key BIT STRING expected")?;
    k.end()?;
    let iuid = uid(&mut t, 1)?;
    let suid = uid(&mut t, 2)?;
    let mut exts = None;
    if let Some(x) = t.peek() {
        if x & 0xDF == 0x83 {
            let tl = t.next()?;
            if x == 0x83 {
                f.set("primitive form of an explicit tag");
            }
            exts = Some((tl.cstart, tl.end));
        }
    }
    t.end()?;
    if ((iuid.is_some() || suid.is_some()) && version < 1) || (exts.is_some() && version < 2) {
        f.set("optional field of a later version");
    }
    let outer = alg(&mut c)?;
    let signature = c.expect(0x03, "signature BIT STRING expected")?;
    c.end()?;
    Ok(RefCert {
        tbs,
        version,
        serial,
        sig,
        issuer,
        not_before,
        not_after,
        subject,
        spki_alg,
        spki_key,
        iuid,
        suid,
        exts,
        outer,
        signature,
    })
}

pub fn cert(b: &[u8]) -> Verdict<RefCert> {
    let f = Flags::new();
    let r = cert_inner(b, &f);
    f.verdict(r)
}

/// `range` is the content of the Name SEQUENCE inside `b`.
pub fn name(b: &[u8], range: (usize, usize)) -> Verdict<RefName> {
    let f = Flags::new();
    let r = (|| -> R<RefName> {
        let mut out: RefName = Default::default();
        let mut c = Cur::new(b, range, &f);
        while !c.at_end() {
            let mut set = c.sub(0x31, "SET expected")?;
            if set.at_end() {
                return Err("empty SET");
            }
            while !set.at_end() {
                let mut a = set.sub(0x30, "AttributeTypeAndValue expected")?;
                let undet_before = f.undet.get();
                let oid = a.oid()?;
                let oid_unknown = f.undet.get() && !undet_before;
                let t = a.next()?;
                let v = a.val(&t)?;
                a.end()?;
                if oid_unknown {
                    continue;
                }
                if oid.len() == 4 && oid[..3] == [2, 5, 4] {
                    if let Some(i) = ATTR_LAST.iter().position(|x| *x == oid[3]) {
                        let s = match v {
                            Val::Utf8 { off, s } | Val::Printable { off, s } | Val::Ia5 { off, s } => (off, s),
                            _ => return Err("non-text attribute value"),
                        };
                        if out[i].is_some() {
                            return Err("repeated attribute");
                        }
                        out[i] = Some(s);
                    }
                }
            }
        }
        Ok(out)
    })();
    f.verdict(r)
}

pub const SKI: &[u64] = &[2, 5, 29, 14];
pub const KU: &[u64] = &[2, 5, 29, 15];
pub const SAN: &[u64] = &[2, 5, 29, 17];
pub const BC: &[u64] = &[2, 5, 29, 19];
pub const EKU: &[u64] = &[2, 5, 29, 37];
pub const ROLE: &[u64] = &[1, 3, 6, 1, 4, 1, 50316, 802, 1];
pub const KP: &[u64] = &[1, 3, 6, 1, 5, 5, 7, 3];
pub const PURPOSES: [(u64, &str); 6] = [
    (1, "ServerAuth"),
    (2, "ClientAuth"),
    (3, "CodeSigning"),
    (4, "EmailProtection"),
    (8, "TimeStamping"),
    (9, "OCSPSigning"),
];

fn content(b: &[u8], oid: &[u64], range: (usize, usize), f: &Flags) -> R<RefContent> {
    let mut c = Cur::new(b, range, f);
    let r = if oid == SKI {
        match c.expect(0x04, "OCTET STRING expected")? {
            Val::Octets { off, bytes } => RefContent::Ski(off, bytes),
            _ => unreachable!(),
        }
    } else if oid == KU {
        match c.expect(0x03, "BIT STRING expected")? {
            Val::Bits { unused, bytes, .. } => {
                let n = bytes.len() * 8 - unused as usize;
                let mut k = [false; 9];
                for (i, x) in k.iter_mut().enumerate() {
                    *x = i < n && bytes[i / 8] & (0x80 >> (i % 8)) != 0;
                }
                RefContent::Ku(k)
            }
            _ => unreachable!(),
        }
    } else if oid == SAN {
        let mut s = c.sub(0x30, "GeneralNames expected")?;
        let mut v = Vec::new();
        while !s.at_end() {
            let t = s.next()?;
            if t.tag & 0xC0 != 0x80 {
                return Err("context tag expected");
            }
            if t.tag & 0x20 != 0 {
                f.set("constructed form of an implicit tag");
            }
            let cont = &b[t.cstart..t.end];
            let ia5 = || -> R<String> {
                let s = std::str::from_utf8(cont).map_err(|_| "invalid UTF-8")?;
                if !cont.iter().all(|x| *x < 0x80) {
                    f.set("character set");
                }
                Ok(s.to_string())
            };
            v.push(match t.tag & 0x1F {
                1 => RefGn::Email(t.cstart, ia5()?),
                2 => RefGn::Dns(t.cstart, ia5()?),
                6 => RefGn::Uri(t.cstart, ia5()?),
                7 => RefGn::Ip(t.cstart, cont.to_vec()),
                8 => match oid_arcs(cont) {
                    Tri::Ok(a) => RefGn::Rid(a),
                    Tri::Rej(e) => return Err(e),
                    Tri::Unspec(u) => {
                        f.set(u);
                        f.undet.set(true);
                        RefGn::Rid(vec![])
                    }
                },
                _ => return Err("unsupported name kind"),
            });
        }
        RefContent::San(v)
    } else if oid == BC {
        let mut s = c.sub(0x30, "SEQUENCE expected")?;
        let mut ca = false;
        let mut plen = None;
        if s.peek() == Some(0x01) {
            if let Val::Bool(x) = s.expect(0x01, "")? {
                ca = x;
            }
        }
        if s.peek() == Some(0x02) {
            if let Val::Int { bytes, .. } = s.expect(0x02, "")? {
                if !int_minimal(&bytes) {
                    f.undet.set(true);
                } else if bytes[0] >= 0x80 {
                    f.set("negative path length");
                    if bytes.len() <= 4 {
                        plen = int_value(&bytes);
                    } else {
                        f.undet.set(true);
                    }
                } else if bytes.len() > 4 {
                    return Err("path length too large");
                } else {
                    plen = int_value(&bytes);
                }
            }
        }
        s.end()?;
        RefContent::Bc(ca, plen)
    } else if oid == EKU {
        let mut s = c.sub(0x30, "SEQUENCE expected")?;
        let mut v = Vec::new();
        while !s.at_end() {
            let before = f.undet.get();
            let o = s.oid()?;
            if f.undet.get() && !before {
                continue;
            }
            let p = if o.len() == 9 && o[..8] == *KP { PURPOSES.iter().find(|p| p.0 == o[8]) } else { None };
            match p {
                Some(p) => v.push(p.1),
                None => return Err("unknown purpose"),
            }
        }
        RefContent::Eku(v)
    } else if oid == ROLE {
        match c.expect(0x0C, "UTF8String expected")? {
            Val::Utf8 { off, s } => RefContent::Role(off, s),
            _ => unreachable!(),
        }
    } else {
        return Ok(RefContent::Unknown(range.0, b[range.0..range.1].to_vec()));
    };
    c.end()?;
    Ok(r)
}

fn ext_inner(b: &[u8], mut e: Cur, f: &Flags) -> R<RefExt> {
    let before = f.undet.get();
    let oid = e.oid()?;
    let unknown = f.undet.get() && !before;
    let mut critical = false;
    if e.peek() == Some(0x01) {
        if let Val::Bool(x) = e.expect(0x01, "")? {
            critical = x;
        }
    }
    let t = e.next()?;
    if t.tag != 0x04 {
        return Err("extension OCTET STRING expected");
    }
    e.end()?;
    let content = if unknown {
        RefContent::Unknown(0, vec![])
    } else {
        content(b, &oid, (t.cstart, t.end), f)?
    };
    Ok(RefExt { oid, critical, content })
}

/// `range` is the content of one Extension SEQUENCE inside `b`.
pub fn extension(b: &[u8], range: (usize, usize)) -> Verdict<RefExt> {
    let f = Flags::new();
    let r = ext_inner(b, Cur::new(b, range, &f), &f);
    f.verdict(r)
}

/// `range` is the content of the [3] tag inside `b`.
pub fn extensions(b: &[u8], range: (usize, usize)) -> Verdict<Vec<RefExt>> {
    let f = Flags::new();
    let r = (|| -> R<Vec<RefExt>> {
        let mut c = Cur::new(b, range, &f);
        let mut s = c.sub(0x30, "extensions SEQUENCE expected")?;
        c.end()?;
        let mut v = Vec::new();
        while !s.at_end() {
            let e = s.sub(0x30, "Extension SEQUENCE expected")?;
            v.push(ext_inner(b, e, &f)?);
        }
        Ok(v)
    })();
    f.verdict(r)
}
