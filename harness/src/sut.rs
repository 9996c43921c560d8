//! Adapters to the code under test: everything goes through its public API.

use crate::engine::guard;
use crate::refder::{Ev, Term, Val};
use rx509::der::{parse_all, ASNBitString, ASNError, ASNType, ParseHandler};

/// one observed value: (address, length) are kept to check zero-copy
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Bool(bool),
    Int(Slice),
    Bits(ObsBits),
    Octets(Slice),
    Null,
    Oid(Vec<u32>),
    Utf8(Slice),
    Printable(Slice),
    Ia5(Slice),
    Time(u64),
    GenTime(u64),
    Seq(Slice),
    Set(Slice),
    Ctx(u8, Slice),
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Slice {
    pub addr: usize,
    pub len: usize,
    /// the bytes (only the first 64 for constructed elements)
    pub bytes: Vec<u8>,
}

pub fn sl(b: &[u8]) -> Slice {
    Slice { addr: b.as_ptr() as usize, len: b.len(), bytes: b.to_vec() }
}
/// for constructed elements: deep inputs would make full copies quadratic
pub fn slc(b: &[u8]) -> Slice {
    Slice { addr: b.as_ptr() as usize, len: b.len(), bytes: short(b).to_vec() }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ObsBits {
    pub size: usize,
    pub octets: Option<Slice>,
    pub bits: Vec<bool>,
    /// iteration yielded more than `size` items
    pub overrun: bool,
    /// the iterator gave an item again after its end
    pub unfused: bool,
}

pub fn obs_bits(b: &ASNBitString) -> ObsBits {
    let size = b.size();
    let mut it = b.iter();
    let mut bits = Vec::new();
    let mut overrun = false;
    let cap = size.min(1 << 24);
    for x in it.by_ref() {
        if bits.len() >= cap {
            overrun = true;
            break;
        }
        bits.push(x);
    }
    let unfused = !overrun && it.next().is_some();
    ObsBits { size, octets: b.octets().map(sl), bits, overrun, unfused }
}

/// What a bit string of `bytes` with `unused` unused bits must look like.
pub fn check_bits(o: &ObsBits, unused: u8, bytes: &[u8]) -> Result<(), String> {
    let n = bytes.len() * 8 - unused as usize;
    if o.size != n {
        return Err(format!("bit string size {} instead of {}", o.size, n));
    }
    match (&o.octets, unused) {
        (Some(s), 0) => {
            if s.bytes != bytes {
                return Err(format!("bit string octets {:02x?} instead of {:02x?}", s.bytes, bytes));
            }
        }
        (None, 0) => return Err("byte-aligned bit string gives no octets".into()),
        (Some(_), _) => return Err(format!("bit string with {} unused bits gives octets", unused)),
        (None, _) => {}
    }
    if o.overrun {
        return Err(format!("bit iteration yields more than {} bits", n));
    }
    if o.unfused {
        return Err("bit iterator yields an item after its end".into());
    }
    if o.bits.len() != n {
        return Err(format!("bit iteration yields {} bits instead of {}", o.bits.len(), n));
    }
    for (i, x) in o.bits.iter().enumerate() {
        let want = (bytes[i / 8] >> (7 - i % 8)) & 1 == 1;
        if *x != want {
            return Err(format!("bit {} is {} instead of {}", i, x, want));
        }
    }
    Ok(())
}

pub fn observe(t: &ASNType) -> Obs {
    match t {
        ASNType::Boolean(w) => Obs::Bool(w.value),
        ASNType::Integer(w) => Obs::Int(sl(w.value.bytes)),
        ASNType::BitString(w) => Obs::Bits(obs_bits(&w.value)),
        ASNType::OctetString(w) => Obs::Octets(sl(w.value)),
        ASNType::Null => Obs::Null,
        ASNType::ObjectIdentifier(w) => Obs::Oid(w.value.values().to_vec()),
        ASNType::UTF8String(w) => Obs::Utf8(sl(w.value.as_bytes())),
        ASNType::PrintableString(w) => Obs::Printable(sl(w.value.as_bytes())),
        ASNType::IA5String(w) => Obs::Ia5(sl(w.value.as_bytes())),
        ASNType::UTCTime(w) => Obs::Time(w.value),
        ASNType::GeneralizedTime(w) => Obs::GenTime(w.value),
        ASNType::Sequence(w) => Obs::Seq(slc(w.value)),
        ASNType::Set(w) => Obs::Set(slc(w.value)),
        ASNType::ExplicitTag(w) => Obs::Ctx(w.value.value, slc(w.value.contents)),
        #[allow(unreachable_patterns)]
        _ => Obs::Other,
    }
}

/// Does the observed value equal the reference value?  `base` is the input
/// buffer; with `views`, slices must also lie at the encoded place.
pub fn same(o: &Obs, v: &Val, input: &[u8], views: bool) -> Result<(), String> {
    let base = input.as_ptr() as usize;
    let slice = |s: &Slice, off: usize, bytes: &[u8]| -> Result<(), String> {
        if s.len != bytes.len() || s.bytes[..] != bytes[..s.bytes.len().min(bytes.len())] {
            return Err(format!(
                "content of {} octets {:02x?} instead of {} octets {:02x?}",
                s.len,
                short(&s.bytes),
                bytes.len(),
                short(bytes)
            ));
        }
        // an empty slice has no octets that could lie somewhere
        if views && s.len > 0 && s.addr != base.wrapping_add(off) {
            return Err(format!(
                "content is not the input slice at offset {} (it is at offset {})",
                off,
                s.addr as i128 - base as i128
            ));
        }
        Ok(())
    };
    let part = |off: usize, len: usize| &input[off..off + len];
    match (o, v) {
        (Obs::Bool(a), Val::Bool(b)) if a == b => Ok(()),
        (Obs::Int(s), Val::Int { off, bytes }) => slice(s, *off, bytes),
        (Obs::Bits(s), Val::Bits { off, unused, bytes }) => {
            check_bits(s, *unused, bytes)?;
            if let Some(x) = &s.octets {
                slice(x, *off, bytes)?;
            }
            Ok(())
        }
        (Obs::Octets(s), Val::Octets { off, bytes }) => slice(s, *off, bytes),
        (Obs::Null, Val::Null) => Ok(()),
        (Obs::Oid(a), Val::Oid(b)) if a.iter().map(|x| *x as u64).eq(b.iter().copied()) => Ok(()),
        (Obs::Utf8(s), Val::Utf8 { off, s: t }) => slice(s, *off, t.as_bytes()),
        (Obs::Printable(s), Val::Printable { off, s: t }) => slice(s, *off, t.as_bytes()),
        (Obs::Ia5(s), Val::Ia5 { off, s: t }) => slice(s, *off, t.as_bytes()),
        (Obs::Time(a), Val::Time { secs, .. }) if a == secs => Ok(()),
        (Obs::GenTime(a), Val::Time { secs, generalized: true }) if a == secs => Ok(()),
        (Obs::Seq(s), Val::Seq { off, len }) => slice(s, *off, part(*off, *len)),
        (Obs::Set(s), Val::Set { off, len }) => slice(s, *off, part(*off, *len)),
        (Obs::Ctx(t, s), Val::Ctx { tag, off, len }) if t == tag => slice(s, *off, part(*off, *len)),
        _ => Err(format!("value {} instead of {}", short_dbg(o), short_dbg(v))),
    }
}

pub fn short(b: &[u8]) -> &[u8] {
    &b[..b.len().min(64)]
}
pub fn short_dbg<T: std::fmt::Debug>(t: &T) -> String {
    let mut s = format!("{:?}", t);
    if s.len() > 300 {
        let mut i = 300;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WEv {
    Type(Obs, String),
    Begin,
    End,
    Error(String, String),
}

pub struct Recorder {
    pub evs: Vec<WEv>,
    pub cap: usize,
    pub text: bool,
}

impl Recorder {
    fn push(&mut self, e: WEv) {
        if self.evs.len() >= self.cap {
            panic!("runaway walk: more than {} events", self.cap);
        }
        self.evs.push(e);
    }
}

impl ParseHandler for Recorder {
    fn begin_constructed(&mut self) {
        self.push(WEv::Begin)
    }
    fn end_constructed(&mut self) {
        self.push(WEv::End)
    }
    fn on_type(&mut self, asn: &ASNType) {
        let t = if self.text { asn.to_string() } else { String::new() };
        self.push(WEv::Type(observe(asn), t))
    }
    fn on_error(&mut self, err: &ASNError) {
        self.push(WEv::Error(err.to_string(), format!("{:?}", err)))
    }
}

pub struct Walk {
    pub evs: Vec<WEv>,
    /// Ok, or the returned error's (display, debug)
    pub result: Result<(), (String, String)>,
}

/// Walks `input`, recording every callback.
pub fn walk(input: &[u8], text: bool) -> Result<Walk, String> {
    guard("DER walk", || {
        let mut h = Recorder { evs: Vec::new(), cap: input.len() * 2 + 16, text };
        let r = parse_all(input, &mut h);
        Walk { evs: h.evs, result: r.map_err(|e| (e.to_string(), format!("{:?}", e))) }
    })
}

/// Compares an observed walk with the reference event stream.
/// Returns the terminal state of the reference.
pub fn compare_walk(w: &Walk, evs: &[Ev], term: &Term, input: &[u8], views: bool) -> Result<(), String> {
    for (i, e) in evs.iter().enumerate() {
        let o = match w.evs.get(i) {
            Some(o) => o,
            None => return Err(format!("walk ends after {} events; expected next: {}", i, short_dbg(e))),
        };
        match (o, e) {
            (WEv::Begin, Ev::Begin) | (WEv::End, Ev::End) | (WEv::Error(..), Ev::Error) => {}
            (WEv::Type(o, _), Ev::Type(v)) => {
                same(o, v, input, views).map_err(|m| format!("event {}: {}", i, m))?
            }
            _ => return Err(format!("event {}: {} instead of {}", i, short_dbg(o), short_dbg(e))),
        }
    }
    let rest = &w.evs[evs.len()..];
    match term {
        Term::Done => {
            if !rest.is_empty() {
                return Err(format!("{} extra events after the end: {}", rest.len(), short_dbg(&rest[0])));
            }
            if let Err(e) = &w.result {
                return Err(format!("well-formed input rejected: {}", e.0));
            }
        }
        Term::Rejected(why) => {
            if !rest.is_empty() {
                return Err(format!("{} events after the error: {}", rest.len(), short_dbg(&rest[0])));
            }
            match (&w.result, w.evs.last()) {
                (Ok(()), _) => return Err(format!("malformed input accepted ({})", why)),
                (Err(r), Some(WEv::Error(d, g))) => {
                    if r.0 != *d || r.1 != *g {
                        return Err(format!("returned error {:?} differs from reported error {:?}", r.1, g));
                    }
                }
                _ => return Err("error not reported to the handler".into()),
            }
        }
        Term::Unspec(_, v) => {
            // accepted or rejected, but never a different value
            if let (Some(v), Some(WEv::Type(o, _))) = (v, rest.first()) {
                same(o, v, input, views).map_err(|m| format!("event {}: {}", evs.len(), m))?;
            }
        }
    }
    Ok(())
}
