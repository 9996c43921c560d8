//! Reference rendering of the certificate report and of the tool's DER mode,
//! and a `LinePrinter` that monitors the printing protocol.

use crate::refder::*;
use crate::refx509::*;
use rx509::x509::printer::LinePrinter;

#[derive(Default)]
pub struct Monitor {
    pub lines: Vec<(usize, String)>,
    depth: usize,
    cur: Option<String>,
    pub faults: Vec<String>,
    ops: usize,
    pub cap: usize,
}
impl Monitor {
    pub fn new(cap: usize) -> Monitor {
        Monitor { cap, ..Default::default() }
    }
    fn op(&mut self) {
        self.ops += 1;
        if self.ops > self.cap {
            panic!("runaway printing: more than {} printer calls", self.cap);
        }
    }
    fn fault(&mut self, f: &str) {
        if self.faults.len() < 10 {
            let n = self.lines.len();
            let last = self.lines.last().map(|l| l.1.clone()).unwrap_or_default();
            self.faults.push(format!("{} (after line {} {:?})", f, n, last));
        }
    }
    fn text(&mut self, s: &str) {
        self.op();
        match &mut self.cur {
            Some(c) => c.push_str(s),
            None => {
                self.fault("text printed on a line that was not begun");
                self.cur = Some(s.to_string());
            }
        }
    }
    fn end_line(&mut self) {
        let l = self.cur.take().unwrap_or_default();
        self.lines.push((self.depth, l));
    }
    pub fn finish(&mut self) {
        if self.cur.is_some() {
            self.fault("last line never ended");
        }
        if self.depth != 0 {
            let d = self.depth;
            self.fault(&format!("{} levels left open", d));
        }
    }
}
impl LinePrinter for Monitor {
    fn begin_type(&mut self) {
        self.op();
        if self.cur.is_some() {
            self.fault("level opened inside a line");
        }
        self.depth += 1;
    }
    fn begin_line(&mut self) {
        self.op();
        if self.cur.is_some() {
            self.fault("line begun twice");
        }
        self.cur = Some(String::new());
    }
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.text(&fmt.to_string())
    }
    fn print_str(&mut self, s: &str) {
        self.text(s)
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.text(&fmt.to_string());
        self.end_line();
    }
    fn println_str(&mut self, line: &str) {
        self.text(line);
        self.end_line();
    }
    fn end_type(&mut self) {
        self.op();
        if self.cur.is_some() {
            self.fault("level closed inside a line");
        }
        if self.depth == 0 {
            self.fault("level closed that was never opened");
        } else {
            self.depth -= 1;
        }
    }
}

pub type Lines = Vec<(usize, String)>;

pub fn hex_lines(d: usize, b: &[u8], out: &mut Lines) {
    for c in b.chunks(16) {
        out.push((d, colon_hex(c)));
    }
}
pub fn bits_lines(d: usize, v: &Val, out: &mut Lines) {
    if let Val::Bits { unused: 0, bytes, .. } = v {
        hex_lines(d, bytes, out);
    }
}

/// None if the reference makes no claim about this certificate's report.
/// An extension block that does not decode ends in a line starting "**Error**".
pub fn cert_report(b: &[u8], r: &RefCert) -> Option<Lines> {
    let mut o: Lines = Vec::new();
    let mut l = |d: usize, s: String| o.push((d, s));
    l(0, "tbs certificate:".into());
    l(1, format!("version: V{}", r.version + 1));
    let serial = match &r.serial {
        Val::Int { bytes, .. } => int_text(bytes),
        _ => return None,
    };
    l(1, format!("serial number: {}", serial));
    l(1, "signature:".into());
    l(2, format!("algorithm: {}", oid_text(&r.sig.oid)));
    name_lines(b, "issuer", r.issuer, &mut o)?;
    let mut l = |d: usize, s: String| o.push((d, s));
    l(1, "validity:".into());
    l(2, format!("not before: {}", r.not_before));
    l(2, format!("not after: {}", r.not_after));
    name_lines(b, "subject", r.subject, &mut o)?;
    let mut l = |d: usize, s: String| o.push((d, s));
    l(1, "subject public key info:".into());
    l(2, "algorithm:".into());
    l(3, format!("algorithm: {}", oid_text(&r.spki_alg.oid)));
    l(2, "subject public key:".into());
    bits_lines(3, &r.spki_key, &mut o);
    if let Some(v) = &r.iuid {
        o.push((1, "issuer unique ID:".into()));
        bits_lines(2, v, &mut o);
    }
    if let Some(v) = &r.suid {
        o.push((1, "subject unique ID:".into()));
        bits_lines(2, v, &mut o);
    }
    if let Some(e) = r.exts {
        match extensions(b, e) {
            Verdict::Ok(v) => {
                if !v.is_empty() {
                    o.push((1, "Extensions".into()));
                    for x in &v {
                        ext_lines(2, x, &mut o);
                    }
                }
            }
            Verdict::Rej(_) => o.push((1, "**Error**".into())),
            Verdict::Unspec(..) => return None,
        }
    }
    o.push((0, "signature algorithm:".into()));
    o.push((1, format!("algorithm: {}", oid_text(&r.outer.oid))));
    o.push((0, "signature value:".into()));
    bits_lines(1, &r.signature, &mut o);
    Some(o)
}

fn name_lines(b: &[u8], what: &str, r: (usize, usize), o: &mut Lines) -> Option<()> {
    match name(b, r) {
        Verdict::Ok(n) => {
            o.push((1, format!("{}:", what)));
            rdn_lines(2, &n, o);
        }
        Verdict::Rej(_) => {
            o.push((1, format!("{} (raw):", what)));
            hex_lines(3, &b[r.0..r.1], o);
        }
        Verdict::Unspec(..) => return None,
    }
    Some(())
}

pub fn rdn_lines(d: usize, n: &RefName, o: &mut Lines) {
    for (k, v) in ["C", "ST", "L", "O", "OU", "CN"].iter().zip(n.iter()) {
        if let Some((_, s)) = v {
            o.push((d, format!("{}: {}", k, s)));
        }
    }
}

pub const KU_NAMES: [&str; 9] = [
    "digital signature",
    "content commitment",
    "key encipherment",
    "data encipherment",
    "key agreement",
    "key cert sign",
    "crl sign",
    "encipher only",
    "decipher only",
];

pub fn ext_lines(d: usize, x: &RefExt, o: &mut Lines) {
    let name = match &x.content {
        RefContent::Ski(..) => "Subject Key Identifier",
        RefContent::Ku(_) => "Key Usage",
        RefContent::San(_) => "Subject Alternative Name",
        RefContent::Bc(..) => "Basic Constraints",
        RefContent::Eku(_) => "Extended Key Usage",
        RefContent::Role(..) => "Modbus Role",
        RefContent::Unknown(..) => "Unknown",
    };
    o.push((d, name.into()));
    let d = d + 1;
    o.push((d, format!("extension id: {}", oid_text(&x.oid))));
    o.push((d, format!("critical: {}", x.critical)));
    match &x.content {
        RefContent::Ski(_, b) => {
            o.push((d, "key identifier:".into()));
            hex_lines(d + 1, b, o);
        }
        RefContent::Ku(k) => {
            o.push((d, "usages:".into()));
            for (i, v) in k.iter().enumerate() {
                if *v {
                    o.push((d + 1, KU_NAMES[i].into()));
                }
            }
        }
        RefContent::San(v) => {
            o.push((d, "names:".into()));
            for g in v {
                match g {
                    RefGn::Email(_, s) => o.push((d + 1, format!("RFC822 Name: {}", s))),
                    RefGn::Dns(_, s) => o.push((d + 1, format!("DNS Name: {}", s))),
                    RefGn::Uri(_, s) => o.push((d + 1, format!("Uniform Resource Identifier: {}", s))),
                    RefGn::Ip(_, b) => {
                        o.push((d + 1, "IP Address:".into()));
                        hex_lines(d + 2, b, o);
                    }
                    RefGn::Rid(a) => o.push((d + 1, format!("Registered ID: {}", oid_text(a)))),
                    RefGn::Other(_) => o.push((d + 1, "**Any**".into())),
                }
            }
        }
        RefContent::Bc(ca, p) => {
            o.push((d, format!("CA: {}", ca)));
            if let Some(p) = p {
                o.push((d, format!("Path Length Constraint: {}", p)));
            }
        }
        RefContent::Eku(v) => {
            o.push((d, "usages:".into()));
            for p in v {
                o.push((d + 1, p.to_string()));
            }
        }
        RefContent::Role(_, s) => o.push((d, format!("role: {}", s))),
        RefContent::Unknown(_, b) => {
            o.push((d, "raw content:".into()));
            hex_lines(d + 1, b, o);
        }
    }
}

/// one rendered line equals the expected one, up to the spelling of "Constraint"
pub fn line_ok(got: &(usize, String), want: &(usize, String)) -> bool {
    if got.0 != want.0 {
        return false;
    }
    if want.1 == "**Any**" {
        return !got.1.is_empty();
    }
    if want.1 == "**Error**" {
        return got.1.starts_with("**Error**");
    }
    if got.1 == want.1 {
        return true;
    }
    want.1.starts_with("Path Length Constraint: ") && got.1.replace("Contraint", "Constraint") == want.1
}

pub fn compare_lines(got: &Lines, want: &Lines) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if line_ok(g, w) => {}
            (g, w) => return Err(format!("report line {}: {:?} instead of {:?}", i, g, w)),
        }
    }
    Ok(())
}

/// Text of the tool's DER mode for the events up to the end, an error or an
/// unspecified element.
pub fn der_mode(evs: &[Ev]) -> String {
    let mut s = String::new();
    let mut d = 0usize;
    for e in evs {
        match e {
            Ev::Begin => d += 1,
            Ev::End => d -= 1,
            Ev::Error => {}
            Ev::Type(v) => {
                s.push_str(&"  ".repeat(d));
                s.push_str(&val_text(v));
                s.push('\n');
                if let Val::Bits { unused: 0, bytes, .. } = v {
                    for c in bytes.chunks(16) {
                        s.push_str(&"  ".repeat(d + 1));
                        s.push_str(&colon_hex(c));
                        s.push('\n');
                    }
                }
            }
        }
    }
    s
}
