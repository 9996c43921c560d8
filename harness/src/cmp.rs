//! Comparison of the decoded X.509 values with the reference.

use crate::refder::*;
use crate::refx509::*;
use crate::sut::*;
use rx509::x509::ext::{Extension, GeneralName, SpecificExtension};
use rx509::x509::{AlgorithmIdentifier, Certificate, RelativeDistinguishedName, Version};

pub type C = Result<(), String>;

fn at(what: &str, r: C) -> C {
    r.map_err(|e| format!("{}: {}", what, e))
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> C {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, short_dbg(&got), short_dbg(&want)))
    }
}
/// `got` must be (a view of) input[off..off+len]
pub fn view(what: &str, got: &[u8], input: &[u8], off: usize, want: &[u8], views: bool) -> C {
    if got != want {
        return Err(format!(
            "{}: {} octets {:02x?} instead of {} octets {:02x?}",
            what,
            got.len(),
            short(got),
            want.len(),
            short(want)
        ));
    }
    if views && !got.is_empty() && got.as_ptr() as usize != input.as_ptr() as usize + off {
        return Err(format!(
            "{} is not the view at input offset {} (but at {})",
            what,
            off,
            got.as_ptr() as i128 - input.as_ptr() as i128
        ));
    }
    Ok(())
}
pub fn range(what: &str, got: &[u8], input: &[u8], r: (usize, usize), views: bool) -> C {
    view(what, got, input, r.0, &input[r.0..r.1], views)
}
fn oid_eq(what: &str, got: &rx509::der::ASNObjectIdentifier, want: &[u64]) -> C {
    let g: Vec<u64> = got.values().iter().map(|x| *x as u64).collect();
    eq(what, g, want.to_vec())
}
fn bits_eq(what: &str, got: &rx509::der::ASNBitString, want: &Val, input: &[u8], views: bool) -> C {
    at(what, same(&Obs::Bits(obs_bits(got)), want, input, views))
}
fn alg_eq(what: &str, got: &AlgorithmIdentifier, want: &RefAlg, input: &[u8], views: bool) -> C {
    oid_eq(&format!("{} algorithm", what), &got.algorithm, &want.oid)?;
    match (&got.parameters, &want.params) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => at(&format!("{} parameters", what), same(&observe(g), w, input, views)),
        (g, w) => Err(format!("{} parameters {} instead of {}", what, short_dbg(g), short_dbg(w))),
    }
}

pub fn cert_eq(c: &Certificate, r: &RefCert, input: &[u8], views: bool) -> C {
    let t = &c.tbs_certificate.value;
    range("to-be-signed bytes", c.tbs_certificate.bytes, input, r.tbs, views)?;
    let v = match t.version {
        Version::V1 => 0u8,
        Version::V2 => 1,
        Version::V3 => 2,
    };
    eq("version", v, r.version)?;
    match &r.serial {
        Val::Int { off, bytes } => view("serial number", t.serial_number.bytes, input, *off, bytes, views)?,
        _ => unreachable!(),
    }
    alg_eq("signature", &t.signature, &r.sig, input, views)?;
    range("issuer", t.issuer.inner, input, r.issuer, views)?;
    eq("not before", t.validity.not_before.value, r.not_before)?;
    eq("not after", t.validity.not_after.value, r.not_after)?;
    range("subject", t.subject.inner, input, r.subject, views)?;
    let k = &t.subject_public_key_info;
    alg_eq("public key", &k.algorithm, &r.spki_alg, input, views)?;
    bits_eq("public key bits", &k.subject_public_key, &r.spki_key, input, views)?;
    for (what, g, w) in [
        ("issuer unique id", &t.issuer_unique_id, &r.iuid),
        ("subject unique id", &t.subject_unique_id, &r.suid),
    ] {
        match (g, w) {
            (None, None) => {}
            (Some(g), Some(w)) => bits_eq(what, g, w, input, views)?,
            _ => return Err(format!("{} {} instead of {}", what, short_dbg(g), short_dbg(w))),
        }
    }
    if t.extensions.is_some() != r.exts.is_some() {
        return Err(format!("extensions present: {} instead of {}", t.extensions.is_some(), r.exts.is_some()));
    }
    alg_eq("outer", &c.signature_algorithm, &r.outer, input, views)?;
    bits_eq("signature value", &c.signature_value, &r.signature, input, views)
}

pub fn name_fields<'a>(n: &RelativeDistinguishedName<'a>) -> [(&'static str, Option<&'a str>); 6] {
    [
        ("country", n.country_name),
        ("state", n.state_or_province_unit_name),
        ("locality", n.locality_name),
        ("organization", n.organization),
        ("organizational unit", n.organizational_unit_name),
        ("common name", n.common_name),
    ]
}

pub fn name_eq(n: &RelativeDistinguishedName, r: &RefName, input: &[u8], views: bool) -> C {
    for ((what, g), w) in name_fields(n).iter().zip(r.iter()) {
        match (g, w) {
            (None, None) => {}
            (Some(g), Some((off, s))) => view(what, g.as_bytes(), input, *off, s.as_bytes(), views)?,
            _ => return Err(format!("{} is {} instead of {}", what, short_dbg(g), short_dbg(w))),
        }
    }
    Ok(())
}

pub fn ext_eq(e: &Extension, r: &RefExt, input: &[u8], views: bool) -> C {
    oid_eq("extension id", &e.extn_id, &r.oid)?;
    eq("critical", e.critical, r.critical)?;
    match (&e.content, &r.content) {
        (SpecificExtension::SubjectKeyIdentifier(x), RefContent::Ski(off, b)) => {
            view("key identifier", x.key_identifier, input, *off, b, views)
        }
        (SpecificExtension::KeyUsage(k), RefContent::Ku(w)) => {
            let g = [
                k.digital_signature,
                k.content_commitment,
                k.key_encipherment,
                k.data_encipherment,
                k.key_agreement,
                k.key_cert_sign,
                k.crl_sign,
                k.encipher_only,
                k.decipher_only,
            ];
            eq("key usage bits", g, *w)
        }
        (SpecificExtension::SubjectAlternativeName(x), RefContent::San(w)) => {
            eq("number of alternative names", x.names.len(), w.len())?;
            for (i, (g, w)) in x.names.iter().zip(w).enumerate() {
                let what = format!("alternative name {}", i);
                match (g, w) {
                    (GeneralName::Rfc822Name(g), RefGn::Email(o, w))
                    | (GeneralName::DnsName(g), RefGn::Dns(o, w))
                    | (GeneralName::UniformResourceIdentifier(g), RefGn::Uri(o, w)) => {
                        view(&what, g.as_bytes(), input, *o, w.as_bytes(), views)?
                    }
                    (GeneralName::IpAddress(g), RefGn::Ip(o, w)) => view(&what, g, input, *o, w, views)?,
                    (GeneralName::RegisteredId(g), RefGn::Rid(w)) => oid_eq(&what, g, w)?,
                    _ => return Err(format!("{} is {} instead of {}", what, short_dbg(g), short_dbg(w))),
                }
            }
            Ok(())
        }
        (SpecificExtension::BasicConstraints(x), RefContent::Bc(ca, p)) => {
            eq("CA flag", x.ca, *ca)?;
            eq("path length", x.path_length_constraint.map(|v| v as i64), *p)
        }
        (SpecificExtension::ExtendedKeyUsage(x), RefContent::Eku(w)) => {
            let g: Vec<String> = x.ext_key_usages.iter().map(|p| format!("{:?}", p)).collect();
            let w: Vec<String> = w.iter().map(|p| p.to_string()).collect();
            eq("purposes", g, w)
        }
        (SpecificExtension::ModbusRole(x), RefContent::Role(off, s)) => {
            view("role", x.role.as_bytes(), input, *off, s.as_bytes(), views)
        }
        (SpecificExtension::Unknown(x), RefContent::Unknown(off, b)) => {
            view("raw content", x, input, *off, b, views)
        }
        (g, w) => Err(format!("extension content {} instead of {}", short_dbg(g), short_dbg(w))),
    }
}
pub fn exts_eq(g: &[Extension], w: &[RefExt], input: &[u8], views: bool) -> C {
    eq("number of extensions", g.len(), w.len())?;
    for (i, (g, w)) in g.iter().zip(w).enumerate() {
        at(&format!("extension {}", i), ext_eq(g, w, input, views))?;
    }
    Ok(())
}

/// Compares an outcome with a verdict; returns the verdict's class.
pub fn judge<T, W>(
    what: &str,
    got: &Result<T, String>,
    want: &Verdict<W>,
    cmp: impl FnOnce(&T, &W) -> C,
) -> Result<&'static str, String> {
    match (got, want) {
        (Ok(g), Verdict::Ok(w)) => {
            at(what, cmp(g, w))?;
            Ok("accepted")
        }
        (Err(e), Verdict::Ok(_)) => Err(format!("{}: well-formed input rejected: {}", what, e)),
        (Ok(_), Verdict::Rej(why)) => Err(format!("{}: malformed input accepted ({})", what, why)),
        (Err(_), Verdict::Rej(_)) => Ok("rejected"),
        (Ok(g), Verdict::Unspec(_, Some(w))) => {
            at(what, cmp(g, w))?;
            Ok("unspecified")
        }
        (_, Verdict::Unspec(..)) => Ok("unspecified"),
    }
}
