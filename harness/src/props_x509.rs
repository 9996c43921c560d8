//! Properties of the certificate layer: C09-C20, C25.

use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::props_der::{damaged_cert, exh, gen_huge, sub, MCertMin};
use crate::refder::*;
use crate::refx509::*;
use crate::report::*;
use rx509::der::UtcTime;
use rx509::x509::ext::{Extension, Extensions};
use rx509::x509::printer::Printable;
use rx509::x509::{Certificate, Name};

// ------------------------------------------------------------ shared checks

pub fn name_check(what: &str, n: &Name, input: &[u8], r: (usize, usize), views: bool) -> Result<&'static str, String> {
    let got = guard("name decoding", || n.parse().map_err(|e| e.to_string()))?;
    judge(what, &got, &name(input, r), |g, w| name_eq(g, w, input, views))
}
pub fn exts_check(e: &Extensions, input: &[u8], r: (usize, usize), views: bool) -> Result<&'static str, String> {
    let got = guard("extension decoding", || e.parse().map_err(|e| e.to_string()))?;
    judge("extensions", &got, &extensions(input, r), |g, w| exts_eq(g, w, input, views))
}
/// decodes a certificate and (with `deep`) its names and extensions, all
/// against the reference
pub fn cert_check(input: &[u8], views: bool, deep: bool) -> Result<&'static str, String> {
    let got = guard("certificate decoding", || Certificate::parse(input).map_err(|e| e.to_string()))?;
    let want = cert(input);
    let cls = judge("certificate", &got, &want, |g, w| cert_eq(g, w, input, views))?;
    if deep {
        if let (Ok(g), Some(w)) = (&got, want.value()) {
            let t = &g.tbs_certificate.value;
            name_check("issuer", &t.issuer, input, w.issuer, views)?;
            name_check("subject", &t.subject, input, w.subject, views)?;
            if let (Some(e), Some(r)) = (&t.extensions, w.exts) {
                exts_check(e, input, r, views)?;
            }
        }
    }
    Ok(cls)
}
/// Extension::parse on the content octets of one Extension SEQUENCE
pub fn ext_check(body: &[u8], views: bool) -> Result<&'static str, String> {
    let got = guard("extension decoding", || Extension::parse(body).map_err(|e| e.to_string()))?;
    judge("extension", &got, &extension(body, (0, body.len())), |g, w| ext_eq(g, w, body, views))
}
/// a minimal certificate with this raw content in its names and extensions
pub fn carrier(issuer: &[u8], subject: &[u8], exts: Option<&[u8]>) -> Vec<u8> {
    MCertMin
        .build()
        .node_with(
            seq(vec![Node::Raw(issuer.to_vec())]),
            seq(vec![Node::Raw(subject.to_vec())]),
            exts.map(|e| Node::Raw(e.to_vec())),
        )
        .enc()
}
fn must_accept_carrier(cls: &'static str) -> Res {
    if cls == "accepted" {
        Ok(())
    } else {
        panic!("the harness built a carrier certificate its reference does not accept ({})", cls)
    }
}

// ------------------------------------------------------------------ C09

fn model_vs_ref(m: &MCert, b: &[u8]) {
    let r = match cert(b) {
        Verdict::Ok(r) => r,
        v => panic!("reference does not accept a model certificate: {:?}", v),
    };
    assert_eq!(r.version, m.version.unwrap_or(0));
    assert!(matches!(&r.serial, Val::Int { bytes, .. } if *bytes == m.serial));
    for (g, w) in [(&r.sig, &m.sig), (&r.spki_alg, &m.spki_alg), (&r.outer, &m.outer)] {
        assert_eq!(g.oid, w.oid);
        assert_eq!(g.params.is_some(), w.params.is_some());
    }
    assert_eq!((r.not_before, r.not_after), (m.nb.secs(), m.na.secs()));
    for (g, w) in [
        (Some(&r.spki_key), Some(&m.key)),
        (r.iuid.as_ref(), m.iuid.as_ref()),
        (r.suid.as_ref(), m.suid.as_ref()),
        (Some(&r.signature), Some(&m.signature)),
    ] {
        match (g, w) {
            (None, None) => {}
            (Some(Val::Bits { unused, bytes, .. }), Some((u, b))) if unused == u && bytes == b => {}
            _ => panic!("reference disagrees with the model on a bit string"),
        }
    }
    for (g, w) in [(r.issuer, &m.issuer), (r.subject, &m.subject)] {
        let n = match name(b, g) {
            Verdict::Ok(n) => n,
            v => panic!("reference does not accept a model name: {:?}", v),
        };
        assert_eq!(n.map(|x| x.map(|y| y.1)), name_expect(w));
    }
    match (&m.exts, r.exts) {
        (None, None) => {}
        (Some(m), Some(r)) => match extensions(b, r) {
            Verdict::Ok(v) => {
                assert_eq!(v.len(), m.len());
                for (g, w) in v.iter().zip(m) {
                    assert_eq!(g.oid, w.kind.oid());
                    assert_eq!(g.critical, w.critical.unwrap_or(false));
                    kind_vs_ref(&g.content, &w.kind);
                }
            }
            v => panic!("reference does not accept model extensions: {:?}", v),
        },
        _ => panic!("reference and model disagree on the presence of extensions"),
    }
}
pub fn kind_vs_ref(g: &RefContent, w: &MKind) {
    let ok = match (g, w) {
        (RefContent::Ski(_, a), MKind::Ski(b)) => a == b,
        (RefContent::Ku(k), MKind::Ku(u, b)) => {
            let n = b.len() * 8 - *u as usize;
            (0..9).all(|i| k[i] == (i < n && (b[i / 8] << (i % 8)) & 0x80 != 0))
        }
        (RefContent::San(a), MKind::San(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| match (a, b) {
                    (RefGn::Email(_, a), MGn::Email(b))
                    | (RefGn::Dns(_, a), MGn::Dns(b))
                    | (RefGn::Uri(_, a), MGn::Uri(b)) => a == b,
                    (RefGn::Ip(_, a), MGn::Ip(b)) => a == b,
                    (RefGn::Rid(a), MGn::Rid(b)) => a == b,
                    _ => false,
                })
        }
        (RefContent::Bc(c, p), MKind::Bc(mc, mp)) => *c == mc.unwrap_or(false) && p == mp,
        (RefContent::Eku(a), MKind::Eku(b)) => a.iter().copied().eq(b.iter().map(|i| PURPOSES[*i].1)),
        (RefContent::Role(_, a), MKind::Role(b)) => a == b,
        (RefContent::Unknown(_, a), MKind::Unknown(_, b)) => a == b,
        _ => false,
    };
    if !ok {
        panic!("reference disagrees with the model: {:?} / {:?}", g, w);
    }
}
fn cert_classes(m: &MCert, ctx: &mut Ctx) {
    ctx.class(match m.version {
        None => "no version",
        Some(0) => "explicit v1",
        Some(1) => "v2",
        _ => "v3",
    });
    if m.iuid.is_some() {
        ctx.class("issuer unique id");
    }
    if m.suid.is_some() {
        ctx.class("subject unique id");
    }
    match &m.exts {
        None => ctx.class("no extensions"),
        Some(e) if e.is_empty() => ctx.class("empty extensions"),
        Some(_) => ctx.class("extensions"),
    }
    if m.sig.params.is_some() {
        ctx.class("algorithm parameters");
    }
    if m.serial.len() > 4 {
        ctx.class("long serial");
    }
}
fn c09_model(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_cert(s);
    let b = m.node().enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    cert_classes(&m, ctx);
    model_vs_ref(&m, &b);
    cert_check(&b, false, true).map(|_| ())
}
/// all combinations of optional parts, with other contents varying
fn c09_combos(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(4 * 2 * 2 * 2 * 8);
    let mut m = gen_cert(s);
    m.version = [None, Some(0), Some(1), Some(2)][(i % 4) as usize];
    let v = m.version.unwrap_or(0);
    m.iuid = if v >= 1 && i & 4 != 0 { Some(gen_bits(s, 40)) } else { None };
    m.suid = if v >= 1 && i & 8 != 0 { Some(gen_bits(s, 40)) } else { None };
    m.exts = if v >= 2 && i & 16 != 0 { Some(gen_exts(s)) } else { None };
    for (k, a) in [&mut m.sig, &mut m.spki_alg, &mut m.outer].into_iter().enumerate() {
        a.params = if i >> (5 + k) & 1 == 1 { Some(gen_leaf_small(s)) } else { None };
    }
    let b = m.node().enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    cert_classes(&m, ctx);
    model_vs_ref(&m, &b);
    cert_check(&b, false, true).map(|_| ())
}
/// names and extension blocks are not decoded with the certificate: any
/// content octets there leave it accepted
fn c09_lazy(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_cert(s);
    let raw = |s: &mut Src| vec![Node::Raw(if s.flip() { gen_soup(s) } else { let n = s.len(300); s.bytes(n) })];
    let i = seq(raw(s));
    let su = seq(raw(s));
    let e = if m.version == Some(2) { Some(Node::Raw(gen_soup(s))) } else { None };
    let b = m.node_with(i, su, e).enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let c = cert_check(&b, false, true)?;
    must_accept_carrier(c)
}
/// any optional part with any version
pub fn loosen(s: &mut Src, m: &mut MCert) {
    m.version = *s.pick(&[None, Some(0), Some(1), Some(2)]);
    let opt = s.below(8);
    m.iuid = if opt & 1 != 0 { Some(gen_bits(s, 40)) } else { None };
    m.suid = if opt & 2 != 0 { Some(gen_bits(s, 40)) } else { None };
    m.exts = if opt & 4 != 0 { Some(gen_exts(s)) } else { None };
}
/// what no property says to accept or reject (optional fields of a later
/// version, padding octets and bits, forms of tags): if it is accepted, then
/// with exactly the encoded values
fn c09_loose(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_cert(s);
    loosen(s, &mut m);
    let pad = s.below(16);
    if pad & 1 != 0 {
        let sign = if m.serial[0] & 0x80 != 0 { 0xFF } else { 0 };
        let k = s.range(1, 5) as usize;
        m.serial.splice(0..0, vec![sign; k]);
    }
    for (i, b) in [&mut m.key, &mut m.signature].into_iter().enumerate() {
        if pad & (2 << i) != 0 && b.0 > 0 {
            let l = b.1.len() - 1;
            b.1[l] |= 1 << s.below(b.0 as u64);
        }
    }
    let mut n = m.node();
    if pad & 8 != 0 {
        if let Node::Cons(_, k) = &mut n {
            if let Node::Cons(_, t) = &mut k[0] {
                for x in t.iter_mut() {
                    if s.chance(1, 3) {
                        *x = match std::mem::replace(x, Node::Raw(vec![])) {
                            Node::Leaf(t, c) if t & 0xC0 == 0x80 => Node::Leaf(t ^ 0x20, c),
                            Node::Cons(t, k) if t & 0xC0 == 0x80 => Node::Cons(t ^ 0x20, k),
                            x => x,
                        };
                    }
                }
            }
        }
    }
    let b = n.enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let c = cert_check(&b, false, true)?;
    ctx.class(c);
    Ok(())
}
/// certificates with one huge field (up to 2^32-1 octets of untouched zeros)
fn c09_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_huge(s).min((1 << 32) - 2000);
    let mut m = small_cert(s);
    m.version = Some(2);
    // the field is made of this many 0xAB octets first, to find its place
    const MARK: usize = 40;
    let mark = vec![0xABu8; MARK];
    let which = s.below(4);
    match which {
        0 => m.signature = (0, mark),
        1 => m.key = (0, mark),
        2 => m.spki_alg.params = Some(Node::Leaf(0x04, mark)),
        _ => m.exts = Some(vec![MExt { critical: None, kind: MKind::Unknown(vec![1, 2, 3, 4], mark) }]),
    }
    let n = n as usize;
    // builds the tree as pieces: front octets, zeros, back octets
    fn size(x: &Node, n: usize) -> usize {
        let c = content(x, n);
        let mut h = vec![0];
        der_len(c, &mut h);
        c + h.len()
    }
    fn marked(c: &[u8]) -> bool {
        c.len() >= MARK && c.len() <= MARK + 1 && c.ends_with(&[0xAB; MARK])
    }
    fn content(x: &Node, n: usize) -> usize {
        match x {
            Node::Leaf(_, c) if marked(c) => c.len() - MARK + n,
            Node::Leaf(_, c) => c.len(),
            Node::Cons(_, k) => k.iter().map(|x| size(x, n)).sum(),
            Node::Raw(r) if marked(r) => n,
            Node::Raw(r) => r.len(),
        }
    }
    fn emit(x: &Node, n: usize, front: &mut Vec<u8>, back: &mut Option<Vec<u8>>) {
        let out = |front: &mut Vec<u8>, back: &mut Option<Vec<u8>>, b: &[u8]| match back {
            Some(v) => v.extend_from_slice(b),
            None => front.extend_from_slice(b),
        };
        let mut h = Vec::new();
        if let Node::Leaf(t, _) | Node::Cons(t, _) = x {
            h.push(*t);
            der_len(content(x, n), &mut h);
        }
        out(front, back, &h);
        match x {
            Node::Leaf(_, c) | Node::Raw(c) if marked(c) => {
                out(front, back, &c[..c.len() - MARK]);
                *back = Some(vec![]);
            }
            Node::Leaf(_, c) | Node::Raw(c) => out(front, back, c),
            Node::Cons(_, k) => k.iter().for_each(|x| emit(x, n, front, back)),
        }
    }
    // a raw node has no header of its own
    fn fix(x: &mut Node) {
        if let Node::Cons(t, k) = x {
            if let [Node::Raw(r)] = &k[..] {
                *x = Node::Leaf(*t, r.clone());
            } else {
                k.iter_mut().for_each(fix);
            }
        }
    }
    let mut root = m.node();
    fix(&mut root);
    if content(&root, n) > u32::MAX as usize {
        return Ok(());
    }
    let (mut front, mut back) = (Vec::new(), None);
    emit(&root, n, &mut front, &mut back);
    let back = match back {
        Some(b) => b,
        None => return Ok(()),
    };
    let total = front.len() + n + back.len();
    ctx.set_input(&[&front[..], &(n as u64).to_be_bytes(), &back[..]].concat());
    ctx.note = format!("{} zeros in the middle, field {}", n, which);
    ctx.nontrivial = true;
    let mut z = match Zeros::new(total) {
        Some(z) => z,
        None => {
            ctx.class("no address space");
            return Ok(());
        }
    };
    z.get()[..front.len()].copy_from_slice(&front);
    z.get()[total - back.len()..].copy_from_slice(&back);
    let b = &*z.get();
    ctx.class(if n >= 1 << 24 { "four length octets" } else { "fewer length octets" });
    let c = guard("certificate decoding", || Certificate::parse(b).map_err(|e| e.to_string()))?
        .map_err(|e| format!("certificate with {} octets in field {} rejected: {}", n, which, e))?;
    let t = &c.tbs_certificate.value;
    let tell = |what: &str, got: usize, want: usize| -> Res {
        if got == want {
            Ok(())
        } else {
            Err(format!("field {} of {} octets: {} is {} instead of {}", which, n, what, got, want))
        }
    };
    let field: (&[u8], usize) = match which {
        0 => (c.signature_value.octets().unwrap_or(&[]), n),
        1 => (t.subject_public_key_info.subject_public_key.octets().unwrap_or(&[]), n),
        2 => match &t.subject_public_key_info.algorithm.parameters {
            Some(rx509::der::ASNType::OctetString(o)) => (o.value, n),
            _ => (&[], n),
        },
        _ => {
            let e = t.extensions.as_ref().ok_or("extensions lost")?;
            let l = guard("extensions", || e.parse().map(|v| v.len()).map_err(|e| e.to_string()))?
                .map_err(|x| format!("extensions of {} octets rejected: {}", n, x))?;
            tell("number of extensions", l, 1)?;
            match e.parse().map_err(|e| e.to_string())?.remove(0).content {
                rx509::x509::ext::SpecificExtension::Unknown(c) => (c, n),
                _ => (&[], n),
            }
        }
    };
    tell("length", field.0.len(), field.1)?;
    if n > 0 {
        tell("place", field.0.as_ptr() as usize - b.as_ptr() as usize, front.len())?;
    }
    // the to-be-signed octets: right behind the two headers
    let (tbs, mut h) = (content(root.get_mut(1).unwrap(), n), vec![0x30]);
    der_len(content(&root, n), &mut h);
    let mut h2 = vec![0x30];
    der_len(tbs, &mut h2);
    tell("length of the to-be-signed part", c.tbs_certificate.bytes.len(), tbs)?;
    tell("place of the to-be-signed part", c.tbs_certificate.bytes.as_ptr() as usize - b.as_ptr() as usize, h.len() + h2.len())?;
    tell("serial number length", t.serial_number.bytes.len(), m.serial.len())?;
    if t.serial_number.bytes != &m.serial[..] || t.validity.not_before.value != m.nb.secs() || t.validity.not_after.value != m.na.secs() {
        return Err(format!("other fields differ with {} octets in field {}", n, which));
    }
    Ok(())
}
fn c09_real(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = crate::corpus::certs_ref();
    let i = s.usize_below(c.len());
    ctx.set_input(c[i]);
    ctx.nontrivial = true;
    let cls = cert_check(c[i], true, true)?;
    ctx.class(cls);
    Ok(())
}

// ------------------------------------------------------------------ C10

/// `b` at a random place of a larger buffer: the check sees only the slice
fn embedded(s: &mut Src, b: &[u8]) -> (Vec<u8>, usize) {
    let pre = s.usize_below(40);
    let post = s.usize_below(40);
    let mut v = s.bytes(pre);
    v.extend_from_slice(b);
    let p = s.bytes(post);
    v.extend_from_slice(&p);
    (v, pre)
}
fn c10_cert(s: &mut Src, ctx: &mut Ctx) -> Res {
    let real = s.chance(1, 10);
    let b = if real {
        let c = crate::corpus::certs_ref();
        c[s.usize_below(c.len())].to_vec()
    } else {
        let m = gen_cert(s);
        cert_classes(&m, ctx);
        m.node().enc()
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let (buf, off) = embedded(s, &b);
    let input = &buf[off..off + b.len()];
    let c = cert_check(input, true, true)?;
    ctx.class(c);
    // a SEQUENCE header in front of the raw bytes restores the signed element
    let got = guard("certificate decoding", || Certificate::parse(input))?;
    if let (Ok(g), Verdict::Ok(w)) = (&got, cert(input)) {
        let signed = tlv(0x30, g.tbs_certificate.bytes);
        let mut at = w.tbs.0;
        while at > 0 && !(input[at] == 0x30 && input[at..].starts_with(&signed)) {
            at -= 1;
        }
        if !input[at..].starts_with(&signed) || at + signed.len() != w.tbs.1 {
            return Err("SEQUENCE header plus raw to-be-signed bytes is not the signed element".into());
        }
    }
    Ok(())
}
fn c10_walk(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_forest(s);
    let mut b = enc_all(&f);
    if s.chance(1, 5) {
        let c = mutate_bytes(s, &mut b);
        ctx.class(c);
    }
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 2;
    let (buf, off) = embedded(s, &b);
    crate::props_der::walk_diff(&buf[off..off + b.len()], true, ctx)
}
fn c10_ext(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_ext(s, None);
    let b = match e.node() {
        Node::Cons(_, k) => enc_all(&k),
        _ => unreachable!(),
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    ctx.class(kind_class(&e.kind));
    let (buf, off) = embedded(s, &b);
    let input = &buf[off..off + b.len()];
    let c = ext_check(input, true)?;
    must_accept_carrier(c)
}
pub fn kind_class(k: &MKind) -> &'static str {
    match k {
        MKind::Ski(_) => "subject key identifier",
        MKind::Ku(..) => "key usage",
        MKind::San(_) => "subject alternative name",
        MKind::Bc(..) => "basic constraints",
        MKind::Eku(_) => "extended key usage",
        MKind::Role(_) => "modbus role",
        MKind::Unknown(..) => "unknown extension",
    }
}

// ------------------------------------------------------------------ C11

fn c11_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = damaged_cert(s, ctx, 2);
    ctx.set_input(&b);
    let c = cert_check(&b, false, false)?;
    ctx.class(c);
    ctx.nontrivial = c == "rejected";
    Ok(())
}
fn small_cert(s: &mut Src) -> MCert {
    let mut m = gen_cert(s);
    m.key = gen_bits(s, 12);
    m.signature = gen_bits(s, 12);
    m.issuer.truncate(1);
    m.subject.truncate(1);
    if let Some(e) = &mut m.exts {
        e.truncate(1)
    }
    m
}
/// every prefix of one certificate, and some extensions
fn c11_prefix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = if s.chance(1, 8) {
        let c = crate::corpus::certs_ref();
        c[s.usize_below(c.len())].to_vec()
    } else {
        small_cert(s).node().enc()
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let k = cert_check(&b, false, false)?;
    if k != "accepted" {
        ctx.class("base not accepted");
    }
    let n = b.len();
    let step = if n > 4000 { n / 2000 } else { 1 };
    let mut i = 0;
    while i < n {
        let r = guard("certificate decoding", || Certificate::parse(&b[..i]).is_ok())?;
        if r {
            return Err(format!("proper prefix of {} of {} octets accepted", i, n));
        }
        i += step;
        ctx.evals += 1;
    }
    for k in 0..6 {
        let mut e = b.clone();
        let m = s.range(1, 12) as usize;
        match k {
            0 => e.push(0),
            1 => e.extend_from_slice(&gen_leaf_small(s).enc()),
            2 => e.extend_from_slice(&b),
            3 => e.extend_from_slice(&[0x30, 0x00]),
            _ => e.extend_from_slice(&s.bytes(m)),
        }
        if guard("certificate decoding", || Certificate::parse(&e).is_ok())? {
            return Err(format!("certificate followed by {} accepted", hex_short(&e[n..])));
        }
        ctx.evals += 1;
    }
    Ok(())
}
/// the positions 0..n, or as many of them (the ends included) as a budget of
/// octets to be decoded allows when each position costs `cost`
fn affordable(s: &mut Src, n: usize, cost: usize) -> Vec<usize> {
    let limit = (10_000_000 / cost.max(1)).max(4);
    if n <= limit {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (2..limit).map(|_| s.usize_below(n)).collect();
    v.push(0);
    v.push(n - 1);
    v.sort();
    v.dedup();
    v
}
/// something after the last part of each constructed element of a certificate
/// with any combination of optional parts
fn c11_ends(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = small_cert(s);
    if s.chance(3, 4) {
        loosen(s, &mut m);
        if let Some(e) = &mut m.exts {
            e.truncate(1);
        }
    }
    let base = m.node();
    ctx.set_input(&base.enc());
    ctx.nontrivial = true;
    let cost = 2 * base.enc().len();
    for i in affordable(s, base.count(), cost) {
        if !matches!(base.clone().get_mut(i), Some(Node::Cons(..))) {
            continue;
        }
        for _ in 0..2 {
            let x = match s.below(8) {
                0 => Node::Raw(vec![0]),
                1 => Node::Raw(vec![*s.pick(&[0xFFu8, 0x0A, 0x20, 0x30, 0x05])]),
                2 => Node::Raw(vec![0; s.range(2, 16) as usize]),
                3 => Node::Leaf(0x05, vec![]),
                4 => Node::Cons(*s.pick(&[0xA0u8, 0xA1, 0xA2, 0xA3, 0xA4]), vec![]),
                5 => Node::Leaf(*s.pick(&[0x80u8, 0x81, 0x82, 0x83]), vec![0]),
                6 => Node::Cons(0x30, vec![]),
                _ => gen_leaf_small(s),
            };
            let mut t = base.clone();
            if let Some(Node::Cons(_, k)) = t.get_mut(i) {
                k.push(x);
            }
            let e = t.enc();
            ctx.evals += 1;
            let k = cert_check(&e, false, false).map_err(|m| format!("something after element {}: {} (input {})", i, m, hex_short(&e)))?;
            ctx.class(k);
            ctx.extra_nontrivial += (k == "rejected") as u64;
        }
    }
    Ok(())
}
/// each node of one certificate: dropped, doubled, swapped with its neighbour,
/// followed by each extra element, retagged to each tag
fn c11_schema(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = small_cert(s);
    if s.flip() {
        loosen(s, &mut m);
        if let Some(e) = &mut m.exts {
            e.truncate(1);
        }
    }
    let base = m.node();
    let b = base.enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let run = |n: &Node, what: &str, i: usize, ctx: &mut Ctx| -> Res {
        let e = n.enc();
        ctx.evals += 1;
        let mut c = Ctx::default();
        cert_check(&e, false, false)
            .map(|k| c.class(k))
            .map_err(|m| format!("{} at element {}: {} (input {})", what, i, m, hex_short(&e)))
    };
    let extras = [
        Node::Leaf(0x05, vec![]),
        Node::Leaf(0x02, vec![1]),
        Node::Leaf(0x01, vec![0xFF]),
        Node::Leaf(0x03, vec![0, 1]),
        Node::Cons(0x30, vec![]),
        Node::Cons(0xA0, vec![]),
        Node::Leaf(0x81, vec![0]),
        Node::Leaf(0x82, vec![0]),
        Node::Cons(0xA3, vec![Node::Cons(0x30, vec![])]),
        Node::Raw(vec![0]),
    ];
    for i in affordable(s, base.count(), 50 * b.len()) {
        // child list operations
        let kids = match base.clone().get_mut(i) {
            Some(Node::Cons(_, k)) => k.len(),
            _ => 0,
        };
        for j in affordable(s, kids, 12 * b.len()) {
            for op in 0..3 {
                let mut t = base.clone();
                if let Some(Node::Cons(_, k)) = t.get_mut(i) {
                    match op {
                        0 => {
                            k.remove(j);
                        }
                        1 => {
                            let c = k[j].clone();
                            k.insert(j, c)
                        }
                        _ => {
                            if j + 1 < k.len() {
                                k.swap(j, j + 1)
                            }
                        }
                    }
                }
                run(&t, ["element dropped", "element doubled", "elements swapped"][op], i, ctx)?;
            }
        }
        let cons = matches!(base.clone().get_mut(i), Some(Node::Cons(..)));
        if cons {
            for x in &extras {
                for at in [0, kids] {
                    let mut t = base.clone();
                    if let Some(Node::Cons(_, k)) = t.get_mut(i) {
                        k.insert(at, x.clone())
                    }
                    run(&t, "extra element", i, ctx)?;
                }
            }
        }
        for tag in [0x01u8, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x17, 0x18, 0x30, 0x31, 0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0x80, 0x81, 0x82, 0x83, 0x1F, 0x9F, 0xBF, 0x10, 0x22, 0x23] {
            let mut t = base.clone();
            match t.get_mut(i) {
                Some(Node::Leaf(x, _)) | Some(Node::Cons(x, _)) => *x = tag,
                _ => {}
            }
            run(&t, "element retagged", i, ctx)?;
        }
        let mut t = base.clone();
        if let Some(n) = t.get_mut(i) {
            *n = match n {
                Node::Leaf(t, _) => Node::Leaf(*t, vec![]),
                Node::Cons(t, _) => Node::Cons(*t, vec![]),
                Node::Raw(r) => Node::Raw(r.clone()),
            };
        }
        run(&t, "element emptied", i, ctx)?;
    }
    ctx.extra_nontrivial = ctx.evals;
    Ok(())
}
/// one octet of a real certificate replaced by other values
fn c11_bytes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let idx = s.below(u64::MAX / 2) as usize;
    let (c, pos) = locate(idx);
    let base = c[pos];
    let mut b = c.to_vec();
    let all = std::env::var("RXPROP_TIER").as_deref() == Ok("thorough");
    for x in 0..=255u8 {
        let near = x == base.wrapping_add(1) || x == base.wrapping_sub(1) || (x ^ base).count_ones() == 1;
        if x == base || !(all || near || [0, 1, 0x7F, 0x80, 0xFF, 0x30, 0x31, 0xA0].contains(&x)) {
            continue;
        }
        b[pos] = x;
        ctx.evals += 1;
        let k = cert_check(&b, false, false)
            .map_err(|e| format!("octet {} of real certificate set to {:02x}: {} (input {})", pos, x, e, hex(&b)))?;
        ctx.extra_nontrivial += (k == "rejected") as u64;
    }
    ctx.class("exhaustive");
    ctx.set_input(&idx.to_be_bytes());
    Ok(())
}
fn locate(mut i: usize) -> (&'static [u8], usize) {
    let cs = crate::corpus::certs_ref();
    let total: usize = cs.iter().map(|c| c.len()).sum();
    i %= total;
    for c in cs {
        if i < c.len() {
            return (c, i);
        }
        i -= c.len();
    }
    unreachable!()
}
fn corpus_octets() -> u64 {
    crate::corpus::certs_ref().iter().map(|c| c.len() as u64).sum()
}
fn c11_version(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v = if s.chance(1, 3) {
        gen_int(s)
    } else {
        int_content(s.below(700) as i64 - 200)
    };
    let mut m = small_cert(s);
    m.version = None;
    m.iuid = None;
    m.suid = None;
    m.exts = None;
    let mut n = m.node();
    if let Some(Node::Cons(_, k)) = n.get_mut(1) {
        let mut c = vec![Node::Leaf(0x02, v.clone())];
        if s.chance(1, 4) {
            c.push(gen_leaf_small(s));
            ctx.class("extra element in version tag");
        }
        k.insert(0, Node::Cons(0xA0, c));
    }
    let b = n.enc();
    ctx.set_input(&b);
    let c = cert_check(&b, false, false)?;
    ctx.class(c);
    ctx.nontrivial = c == "rejected";
    Ok(())
}
fn c11_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = if s.flip() { gen_soup(s) } else { enc_all(&gen_forest(s)) };
    ctx.set_input(&b);
    let c = cert_check(&b, false, false)?;
    ctx.class(c);
    ctx.nontrivial = b.len() > 4;
    Ok(())
}

// ------------------------------------------------------------------ C12

fn in_names(content: &[u8], s: &mut Src, ctx: &mut Ctx) -> Result<&'static str, String> {
    let other = enc_all(&name_nodes(&gen_name(s)));
    let first = s.flip();
    let b = if first { carrier(content, &other, None) } else { carrier(&other, content, None) };
    ctx.set_input(&b);
    let got = guard("certificate decoding", || Certificate::parse(&b).map_err(|e| e.to_string()))?;
    let g = got.map_err(|e| format!("certificate carrying the name rejected: {}", e))?;
    let w = match cert(&b) {
        Verdict::Ok(w) => w,
        v => panic!("carrier certificate: {:?}", v),
    };
    let t = &g.tbs_certificate.value;
    let a = name_check("issuer", &t.issuer, &b, w.issuer, false)?;
    let z = name_check("subject", &t.subject, &b, w.subject, false)?;
    Ok(if first { a } else { z })
}
fn c12_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut n = gen_name(s);
    if s.chance(1, 8) {
        // many unrecognised attributes around
        let k = s.range(1, 60);
        for _ in 0..k {
            let a = MAva { oid: vec![2, 5, 4, 100 + s.below(30)], value: gen_leaf_small(s) };
            if n.is_empty() || s.flip() {
                let at = s.usize_below(n.len() + 1);
                n.insert(at, vec![a]);
            } else {
                let i = s.usize_below(n.len());
                let at = s.usize_below(n[i].len() + 1);
                n[i].insert(at, a);
            }
        }
        ctx.class("many attributes");
    }
    let c = enc_all(&name_nodes(&n));
    ctx.nontrivial = n.iter().flatten().count() > 1;
    ctx.class(if n.iter().any(|r| r.len() > 1) { "multi-valued set" } else { "single-valued sets" });
    if n.iter().flatten().any(|a| !is_attr(&a.oid)) {
        ctx.class("unrecognised attribute");
    }
    match name(&c, (0, c.len())) {
        Verdict::Ok(r) => assert_eq!(r.map(|x| x.map(|y| y.1)), name_expect(&n)),
        v => panic!("reference does not accept a model name: {:?}", v),
    }
    let k = in_names(&c, s, ctx)?;
    must_accept_carrier(k)
}
/// all orders of all subsets of the six attributes (1957 of them), grouped at random
fn c12_orders(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut i = s.below(1957);
    // unrank: lists of distinct attributes by length
    let mut len = 0usize;
    let mut count = 1u64;
    while i >= count {
        i -= count;
        count *= 6 - len as u64;
        len += 1;
    }
    let mut pool: Vec<usize> = (0..6).collect();
    let mut order = Vec::new();
    for _ in 0..len {
        let k = (i % pool.len() as u64) as usize;
        i /= pool.len() as u64;
        order.push(pool.remove(k));
    }
    let mut n: MName = Vec::new();
    for (j, a) in order.iter().enumerate() {
        let ava = MAva { oid: vec![2, 5, 4, ATTR_LAST[*a]], value: gen_text_node(s) };
        if j > 0 && s.chance(1, 3) {
            n.last_mut().unwrap().push(ava);
        } else {
            n.push(vec![ava]);
        }
    }
    let c = enc_all(&name_nodes(&n));
    ctx.nontrivial = len > 1;
    ctx.class("every order");
    let k = in_names(&c, s, ctx)?;
    must_accept_carrier(k)
}
fn c12_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_name(s);
    let mut t = seq(name_nodes(&n));
    let k = s.range(1, 2);
    for _ in 0..k {
        let c = mutate_tree(s, &mut t);
        ctx.class(c);
    }
    let mut c = match t {
        Node::Cons(_, k) => enc_all(&k),
        Node::Leaf(_, c) => c,
        Node::Raw(r) => r,
    };
    if s.chance(1, 3) {
        let m = mutate_bytes(s, &mut c);
        ctx.class(m);
    }
    let r = in_names(&c, s, ctx)?;
    ctx.class(r);
    ctx.nontrivial = r == "rejected";
    Ok(())
}
/// repetition, wrong value types and empty sets at chosen places
fn c12_faults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut n = gen_name(s);
    let a = s.usize_below(6);
    let o = vec![2, 5, 4, ATTR_LAST[a]];
    let mut nodes = None;
    match s.below(4) {
        0 => {
            // twice, near or far
            let v = gen_text_node(s);
            let w = if s.flip() { v.clone() } else { gen_text_node(s) };
            n.retain(|r| r.iter().all(|x| x.oid != o));
            let x = MAva { oid: o.clone(), value: v };
            let y = MAva { oid: o, value: w };
            if s.flip() {
                n.push(vec![x, y]);
            } else {
                let i = s.usize_below(n.len() + 1);
                n.insert(i, vec![x]);
                let i = s.usize_below(n.len() + 1);
                n.insert(i, vec![y]);
            }
            ctx.class("repeated attribute");
        }
        1 => {
            n.retain(|r| r.iter().all(|x| x.oid != o));
            let i = s.usize_below(n.len() + 1);
            let mut b = 3;
            n.insert(i, vec![MAva { oid: o, value: gen_tree(s, 2, &mut b) }]);
            ctx.class("any value type");
        }
        2 => {
            let mut k = name_nodes(&n);
            let i = s.usize_below(k.len() + 1);
            k.insert(i, set(vec![]));
            nodes = Some(k);
            ctx.class("empty set");
        }
        _ => {
            // element missing or extra inside one attribute
            let v = gen_text_node(s);
            let kids = match s.below(4) {
                0 => vec![oid(&o)],
                1 => vec![v],
                2 => vec![oid(&o), v, gen_leaf_small(s)],
                _ => vec![v, oid(&o)],
            };
            let mut k = name_nodes(&n);
            let i = s.usize_below(k.len() + 1);
            k.insert(i, set(vec![seq(kids)]));
            nodes = Some(k);
            ctx.class("attribute shape");
        }
    }
    let c = enc_all(&nodes.unwrap_or_else(|| name_nodes(&n)));
    let r = in_names(&c, s, ctx)?;
    ctx.class(r);
    ctx.nontrivial = r == "rejected";
    Ok(())
}
/// every cut of a name's content, of a set's content and of an attribute's content
fn c12_cuts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut n = gen_name(s);
    n.truncate(2);
    for r in &mut n {
        r.truncate(2);
        for a in r {
            if let Node::Leaf(_, c) = &mut a.value {
                if c.len() > 8 {
                    *a = MAva { oid: a.oid.clone(), value: Node::Leaf(0x0C, b"abcd".to_vec()) };
                }
            }
        }
    }
    let nodes = name_nodes(&n);
    let full = enc_all(&nodes);
    let mut base = Ctx::default();
    let mut worst = Ok(());
    let mut try_one = |c: Vec<u8>, s: &mut Src, ctx: &mut Ctx| -> Res {
        ctx.evals += 1;
        let k = in_names(&c, s, &mut base).map_err(|e| format!("{} (name content {})", e, hex_short(&c)))?;
        ctx.extra_nontrivial += (k == "rejected") as u64;
        Ok(())
    };
    for k in 0..=full.len() {
        worst = worst.and(try_one(full[..k].to_vec(), s, ctx));
        if worst.is_err() {
            break;
        }
    }
    if worst.is_ok() {
        'o: for (i, r) in nodes.iter().enumerate() {
            if let Node::Cons(_, avas) = r {
                let sc = enc_all(avas);
                let before = enc_all(&nodes[..i]);
                for k in 0..sc.len() {
                    let mut c = before.clone();
                    c.extend_from_slice(&tlv(0x31, &sc[..k]));
                    worst = worst.and(try_one(c, s, ctx));
                    if worst.is_err() {
                        break 'o;
                    }
                }
                if let Some(Node::Cons(_, kids)) = avas.last() {
                    let ac = enc_all(kids);
                    for k in 0..ac.len() {
                        let mut sc = enc_all(&avas[..avas.len() - 1]);
                        sc.extend_from_slice(&tlv(0x30, &ac[..k]));
                        let mut c = before.clone();
                        c.extend_from_slice(&tlv(0x31, &sc));
                        worst = worst.and(try_one(c, s, ctx));
                        if worst.is_err() {
                            break 'o;
                        }
                    }
                }
            }
        }
    }
    ctx.set_input(&full);
    worst
}

// ------------------------------------------------------------------ C13-C18

fn in_exts(content: &[u8], ctx: &mut Ctx) -> Result<&'static str, String> {
    let b = carrier(&[], &[], Some(content));
    ctx.set_input(&b);
    let got = guard("certificate decoding", || Certificate::parse(&b).map_err(|e| e.to_string()))?;
    let g = got.map_err(|e| format!("certificate carrying the extensions rejected: {}", e))?;
    let w = match cert(&b) {
        Verdict::Ok(w) => w,
        v => panic!("carrier certificate: {:?}", v),
    };
    match (&g.tbs_certificate.value.extensions, w.exts) {
        (Some(e), Some(r)) => exts_check(e, &b, r, false),
        (None, Some(_)) => Err("extensions not reported".into()),
        _ => panic!("carrier certificate without extensions"),
    }
}
/// one extension with this OCTET STRING content, alone and in a certificate
fn one_ext(o: &[u64], critical: Option<bool>, content: &[u8], ctx: &mut Ctx) -> Result<&'static str, String> {
    let mut k = vec![oid(o)];
    if let Some(c) = critical {
        k.push(Node::Leaf(0x01, vec![if c { 0xFF } else { 0 }]));
    }
    k.push(Node::Leaf(0x04, content.to_vec()));
    let body = enc_all(&k);
    ctx.set_input(&body);
    let a = ext_check(&body, false)?;
    let next = seq(vec![oid(&[1, 2, 3]), Node::Leaf(0x04, vec![7])]);
    let mut sub = Ctx::default();
    let b = in_exts(&seq(vec![seq(k.clone()), next.clone()]).enc(), &mut sub)?;
    if a != b {
        panic!("reference verdicts differ: {} / {}", a, b);
    }
    Ok(a)
}
fn gen_crit(s: &mut Src) -> Option<bool> {
    match s.below(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}
fn c13_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut e = gen_exts(s);
    if s.chance(1, 30) {
        let k = s.range(20, 300);
        for i in 0..k {
            e.push(MExt {
                critical: gen_crit(s),
                kind: MKind::Unknown(vec![1, 3, i], vec![i as u8; (i % 7) as usize]),
            });
        }
        ctx.class("many extensions");
    }
    for x in &e {
        ctx.class(kind_class(&x.kind));
    }
    ctx.nontrivial = e.len() > 1;
    let n = exts_node(&e);
    let c = in_exts(&n.enc(), ctx)?;
    must_accept_carrier(c)
}
fn c13_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_exts(s);
    let mut n = exts_node(&e);
    let k = s.range(1, 2);
    for _ in 0..k {
        let c = mutate_tree(s, &mut n);
        ctx.class(c);
    }
    let mut b = n.enc();
    if s.chance(1, 3) {
        let c = mutate_bytes(s, &mut b);
        ctx.class(c);
    }
    let r = in_exts(&b, ctx)?;
    ctx.class(r);
    ctx.nontrivial = r == "rejected";
    Ok(())
}
/// near-miss identifiers: decoded only for exactly the supported identifiers
fn c13_ids(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = if s.chance(1, 3) { s.pick(KNOWN).to_vec() } else { near_oid(s) };
    let kind = gen_kind(s, Some(s.rec.len() % 6));
    let content = enc_all(&kind.nodes());
    let crit = gen_crit(s);
    let r = one_ext(&o, crit, &content, ctx)?;
    ctx.class(r);
    ctx.nontrivial = true;
    Ok(())
}
/// criticality encodings and the shape of one extension
fn c13_shape(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_ext(s, None);
    let mut kids = match e.node() {
        Node::Cons(_, k) => k,
        _ => unreachable!(),
    };
    match s.below(6) {
        0 => {
            let c = Node::Leaf(0x01, { let n = s.below(3) as usize; s.bytes(n) });
            if kids.len() == 3 {
                kids[1] = c;
            } else {
                kids.insert(1, c);
            }
            ctx.class("criticality octets");
        }
        1 => {
            let x = gen_leaf_small(s);
            let i = s.usize_below(kids.len() + 1);
            kids.insert(i, x);
            ctx.class("extra element");
        }
        2 => {
            let i = s.usize_below(kids.len());
            kids.remove(i);
            ctx.class("missing element");
        }
        3 => {
            let i = s.usize_below(kids.len());
            kids[i] = gen_leaf_small(s);
            ctx.class("other element");
        }
        4 => {
            let i = s.usize_below(kids.len() - 1);
            kids.swap(i, i + 1);
            ctx.class("swapped elements");
        }
        _ => {
            let n = s.range(1, 3) as usize;
            kids.push(Node::Raw(s.bytes(n)));
            ctx.class("trailing octets");
        }
    }
    let body = enc_all(&kids);
    let a = ext_check(&body, false).map_err(|e| format!("{} (extension content {})", e, hex_short(&body)))?;
    let before: Vec<Node> = gen_exts(s).iter().take(2).map(|x| x.node()).collect();
    let mut all = before;
    all.push(seq(kids));
    if s.flip() {
        all.push(gen_ext(s, Some(0)).node());
    }
    let b = in_exts(&seq(all).enc(), ctx)?;
    ctx.class(b);
    ctx.nontrivial = a == "rejected";
    Ok(())
}
/// every cut of the list, of its content and of its last extension
fn c13_cuts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut e = gen_exts(s);
    e.truncate(3);
    let nodes: Vec<Node> = e.iter().map(|x| x.node()).filter(|n| n.enc().len() < 120).collect();
    let content = enc_all(&nodes);
    let full = tlv(0x30, &content);
    let mut c2 = Ctx::default();
    let mut inputs: Vec<Vec<u8>> = Vec::new();
    for k in 0..full.len() {
        inputs.push(full[..k].to_vec());
    }
    for k in 0..content.len() {
        inputs.push(tlv(0x30, &content[..k]));
    }
    if let Some(Node::Cons(_, kids)) = nodes.last() {
        let before = enc_all(&nodes[..nodes.len() - 1]);
        let body = enc_all(kids);
        for k in 0..body.len() {
            let mut c = before.clone();
            c.extend_from_slice(&tlv(0x30, &body[..k]));
            inputs.push(tlv(0x30, &c));
        }
    }
    for i in inputs {
        ctx.evals += 1;
        let r = in_exts(&i, &mut c2).map_err(|e| format!("{} (extension list {})", e, hex_short(&i)))?;
        ctx.extra_nontrivial += (r == "rejected") as u64;
    }
    ctx.set_input(&full);
    Ok(())
}

const KIND_OIDS: [&[u64]; 6] = [SKI, KU, SAN, BC, EKU, ROLE];

fn kind_valid(s: &mut Src, ctx: &mut Ctx, which: usize) -> Res {
    let mut k = gen_kind(s, Some(which));
    if s.chance(1, 40) {
        match &mut k {
            MKind::San(v) => {
                let n = s.range(20, 400);
                v.extend((0..n).map(|i| MGn::Ip(vec![i as u8; 1 + (i % 5) as usize])));
                ctx.class("many entries");
            }
            MKind::Eku(v) => {
                let n = s.range(20, 400);
                v.extend((0..n).map(|i| (i % 6) as usize));
                ctx.class("many entries");
            }
            _ => {}
        }
    }
    let crit = gen_crit(s);
    let content = enc_all(&k.nodes());
    ctx.nontrivial = content.len() > 2;
    let body = enc_all(&[oid(&k.oid()), Node::Leaf(0x04, content.clone())]);
    match extension(&body, (0, body.len())) {
        Verdict::Ok(r) => kind_vs_ref(&r.content, &k),
        v => panic!("reference does not accept a model extension: {:?} {:?}", v, k),
    }
    match &k {
        MKind::San(v) => {
            for g in v.iter().take(30) {
                ctx.class(match g {
                    MGn::Email(_) => "email",
                    MGn::Dns(_) => "dns",
                    MGn::Uri(_) => "uri",
                    MGn::Ip(_) => "ip",
                    MGn::Rid(_) => "registered id",
                });
            }
        }
        MKind::Bc(c, p) => ctx.class(match (c, p) {
            (None, None) => "neither",
            (Some(_), None) => "flag only",
            (None, Some(_)) => "length only",
            _ => "both",
        }),
        _ => {}
    }
    let c = one_ext(&k.oid(), crit, &content, ctx)?;
    must_accept_carrier(c)
}
fn kind_mutated(s: &mut Src, ctx: &mut Ctx, which: usize) -> Res {
    let k = gen_kind(s, Some(which));
    let mut nodes = k.nodes();
    let mut content;
    match s.below(6) {
        0 => {
            nodes.push(gen_leaf_small(s));
            content = enc_all(&nodes);
            ctx.class("trailing element");
        }
        1 => {
            content = enc_all(&nodes);
            let n = s.range(1, 3) as usize;
            content.extend_from_slice(&s.bytes(n));
            ctx.class("trailing octets");
        }
        2 => {
            let mut b = 4;
            content = if s.flip() { gen_leaf_small(s).enc() } else { gen_tree(s, 2, &mut b).enc() };
            ctx.class("other element");
        }
        3 => {
            content = enc_all(&nodes);
            let c = mutate_bytes(s, &mut content);
            ctx.class(c);
        }
        _ => {
            let n = s.range(1, 2);
            for _ in 0..n {
                let c = mutate_tree(s, &mut nodes[0]);
                ctx.class(c);
            }
            content = enc_all(&nodes);
        }
    }
    let crit = gen_crit(s);
    let r = one_ext(&k.oid(), crit, &content, ctx).map_err(|e| format!("{} (content {})", e, hex_short(&content)))?;
    ctx.class(r);
    ctx.nontrivial = r == "rejected";
    Ok(())
}
/// every cut of the content, and of the content of its SEQUENCE
fn kind_cuts(s: &mut Src, ctx: &mut Ctx, which: usize) -> Res {
    let k = gen_kind(s, Some(which));
    let nodes = k.nodes();
    let content = enc_all(&nodes);
    ctx.set_input(&content);
    let n = content.len();
    let mut inputs: Vec<Vec<u8>> = (0..n).filter(|i| *i < 150 || *i + 20 > n).map(|i| content[..i].to_vec()).collect();
    if let Node::Cons(t, kids) = &nodes[0] {
        let c = enc_all(kids);
        let n = c.len();
        inputs.extend((0..n).filter(|i| *i < 150 || *i + 20 > n).map(|i| tlv(*t, &c[..i])));
    }
    let mut c2 = Ctx::default();
    for i in inputs {
        ctx.evals += 1;
        let r = one_ext(&k.oid(), None, &i, &mut c2).map_err(|e| format!("{} (content {})", e, hex_short(&i)))?;
        ctx.extra_nontrivial += (r == "rejected") as u64;
    }
    Ok(())
}
/// each first octet: all contents of up to two further octets
fn kind_short(s: &mut Src, ctx: &mut Ctx, which: usize) -> Res {
    let a = s.below(256) as u8;
    let o = oid_content(KIND_OIDS[which]);
    let mut body = tlv(0x06, &o);
    let n = body.len();
    let mut go = |c: &[u8], ctx: &mut Ctx| -> Res {
        body.truncate(n);
        body.push(0x04);
        body.push(c.len() as u8);
        body.extend_from_slice(c);
        ctx.evals += 1;
        let r = ext_check(&body, false).map_err(|e| format!("{} (content {})", e, hex(c)))?;
        ctx.extra_nontrivial += (r == "accepted") as u64;
        Ok(())
    };
    if a == 0 {
        go(&[], ctx)?;
    }
    go(&[a], ctx)?;
    for b in 0..=255u8 {
        go(&[a, b], ctx)?;
        for c in 0..=255u8 {
            go(&[a, b, c], ctx)?;
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
macro_rules! kinds {
    ($($valid:ident $mutated:ident $cuts:ident $short:ident $i:expr;)*) => {$(
        fn $valid(s: &mut Src, ctx: &mut Ctx) -> Res { kind_valid(s, ctx, $i) }
        fn $mutated(s: &mut Src, ctx: &mut Ctx) -> Res { kind_mutated(s, ctx, $i) }
        fn $cuts(s: &mut Src, ctx: &mut Ctx) -> Res { kind_cuts(s, ctx, $i) }
        fn $short(s: &mut Src, ctx: &mut Ctx) -> Res { kind_short(s, ctx, $i) }
    )*};
}
kinds! {
    ski_valid ski_mutated ski_cuts ski_short 0;
    ku_valid ku_mutated ku_cuts ku_short 1;
    san_valid san_mutated san_cuts san_short 2;
    bc_valid bc_mutated bc_cuts bc_short 3;
    eku_valid eku_mutated eku_cuts eku_short 4;
    role_valid role_mutated role_cuts role_short 5;
}
/// all bit strings of up to two octets (first octet given), every unused count
fn ku_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    let mut body = tlv(0x06, &oid_content(KU));
    let n = body.len();
    let mut go = |c: &[u8], ctx: &mut Ctx| -> Res {
        body.truncate(n);
        let bs = tlv(0x03, c);
        body.extend_from_slice(&tlv(0x04, &bs));
        ctx.evals += 1;
        let r = ext_check(&body, false).map_err(|e| format!("{} (bit string {})", e, hex(c)))?;
        ctx.extra_nontrivial += (r == "accepted") as u64;
        Ok(())
    };
    for u in 0..=9u8 {
        if a == 0 {
            go(&[u], ctx)?;
        }
        go(&[u, a], ctx)?;
        for b in 0..=255u8 {
            go(&[u, a, b], ctx)?;
        }
        for b in [0u8, 1, 0x55, 0x80, 0xAA, 0xFF] {
            for t in [0u8, 0x80, 0xFF] {
                go(&[u, a, b, t], ctx)?;
            }
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// every path length 0..65536 and around powers of two, with each flag form
fn bc_sweep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(256 + 34);
    let mut vals: Vec<i64> = Vec::new();
    if i < 256 {
        vals.extend((0..256).map(|k| (i * 256 + k) as i64));
    } else {
        let p = 1i64 << (i - 256);
        vals.extend((-40..40).map(|d| p + d).filter(|v| *v >= 0));
    }
    let o = oid(BC);
    for v in vals {
        for flag in [None, Some(0xFFu8), Some(0)] {
            let mut k = Vec::new();
            if let Some(f) = flag {
                k.push(Node::Leaf(0x01, vec![f]));
            }
            k.push(Node::Leaf(0x02, int_content(v)));
            let body = enc_all(&[o.clone(), Node::Leaf(0x04, seq(k).enc())]);
            ctx.evals += 1;
            let r = ext_check(&body, false).map_err(|e| format!("{} (path length {})", e, v))?;
            ctx.extra_nontrivial += (r != "unspecified") as u64;
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&i.to_be_bytes());
    Ok(())
}
/// every context tag number and form as the only or a middle name
fn san_tags(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = s.below(256) as u8;
    for len in [0usize, 1, 2, 3, 4, 5, 8, 16, 20, 127, 128, 200] {
        let mut fills: Vec<Vec<u8>> = [0x2Au8, 0x61, 0x00, 0x80, 0xFF].iter().map(|f| vec![*f; len]).collect();
        let mut o = vec![0x2A];
        o.resize(len.max(1), 0x03);
        fills.push(o);
        for f in fills {
            let x = Node::Leaf(t, f);
            for place in 0..3 {
                let dns = Node::Leaf(0x82, b"a.b".to_vec());
                let v = match place {
                    0 => vec![x.clone()],
                    1 => vec![x.clone(), dns],
                    _ => vec![dns.clone(), x.clone(), dns],
                };
                let body = enc_all(&[oid(SAN), Node::Leaf(0x04, seq(v).enc())]);
                ctx.evals += 1;
                let r = ext_check(&body, false).map_err(|e| format!("{} (extension {})", e, hex_short(&body)))?;
                ctx.extra_nontrivial += (r != "unspecified") as u64;
            }
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&[t]);
    Ok(())
}
/// all sequences of up to three purposes incl. unknown ones near the known ones
fn eku_sweep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let last = s.below(300);
    for other in 0..20u64 {
        for shape in 0..5 {
            let mut a = KP.to_vec();
            a.push(last);
            let mut b = KP.to_vec();
            b.push(other);
            let v = match shape {
                0 => vec![oid(&a)],
                1 => vec![oid(&a), oid(&b)],
                2 => vec![oid(&b), oid(&a)],
                3 => {
                    a.push(other);
                    vec![oid(&b), oid(&a)]
                }
                _ => {
                    a[7] = other;
                    vec![oid(&a)]
                }
            };
            let body = enc_all(&[oid(EKU), Node::Leaf(0x04, seq(v).enc())]);
            ctx.evals += 1;
            let r = ext_check(&body, false).map_err(|e| format!("{} (extension {})", e, hex_short(&body)))?;
            ctx.extra_nontrivial += (r != "unspecified") as u64;
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&last.to_be_bytes());
    Ok(())
}

// ------------------------------------------------------------------ C19

fn c19(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = MCertMin.build();
    m.nb = gen_time(s);
    m.na = match s.below(4) {
        0 => m.nb,
        1 => {
            // close by: the neighbouring second, minute, hour or day
            let mut t = m.nb;
            match s.below(4) {
                0 => t.s = (t.s + 1) % 60,
                1 => t.mi = (t.mi + 1) % 60,
                2 => t.h = (t.h + 1) % 24,
                _ => t.d = t.d % month_len(t.y, t.mo) + 1,
            }
            t
        }
        _ => gen_time(s),
    };
    if s.flip() && m.na.secs() < m.nb.secs() {
        std::mem::swap(&mut m.nb, &mut m.na);
    }
    let (nb, na) = (m.nb.secs(), m.na.secs());
    let b = m.node().enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    ctx.class(match nb.cmp(&na) {
        std::cmp::Ordering::Less => "proper period",
        std::cmp::Ordering::Equal => "one instant",
        _ => "empty period",
    });
    if m.nb.gen != m.na.gen {
        ctx.class("mixed time types");
    }
    let c = guard("certificate decoding", || Certificate::parse(&b).map_err(|e| e.to_string()))?
        .map_err(|e| format!("certificate rejected: {}", e))?;
    let v = &c.tbs_certificate.value.validity;
    let mut at: Vec<u64> = vec![0, 1, u64::MAX, i64::MAX as u64, u32::MAX as u64, i32::MAX as u64, i32::MAX as u64 + 1, nb / 2 + na / 2];
    for e in [nb, na] {
        for d in [0u64, 1, 2, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, 1 << 16, 1 << 31, 1 << 32, 1 << 33] {
            at.push(e.wrapping_add(d));
            at.push(e.wrapping_sub(d));
        }
    }
    for _ in 0..4 {
        at.push(s.mined_int(u64::MAX));
    }
    for _ in 0..6 {
        at.push(s.below(300_000_000_000));
        at.push(s.below(0));
    }
    if na > nb {
        for _ in 0..4 {
            at.push(nb + s.below(na - nb + 1));
        }
    }
    for t in at {
        ctx.evals += 1;
        let got = guard("validity", || v.is_valid(UtcTime { value: t }))?;
        let got2 = guard("validity", || v.is_valid(UtcTime::from_seconds_since_epoch(t)))?;
        let want = t >= nb && t <= na;
        if got != want || got2 != want {
            return Err(format!("valid from {} to {}: validity at {} is {} instead of {}", nb, na, t, got, want));
        }
    }
    Ok(())
}

/// any instant a time can hold
fn instant(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => *s.pick(&[0u64, 1, i32::MAX as u64, u32::MAX as u64, 253_402_300_799, i64::MAX as u64, u64::MAX - 1, u64::MAX]),
        1 => (1u64 << s.below(64)).wrapping_sub(s.below(3)),
        2 => s.below(300_000_000_000),
        _ => s.below(0),
    }
}
/// periods put together by a caller, of any two instants a time can hold
fn c19_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (nb, na) = (instant(s), instant(s));
    ctx.set_input(&[nb.to_be_bytes(), na.to_be_bytes()].concat());
    ctx.nontrivial = true;
    ctx.class(if nb <= na { "made period" } else { "made empty period" });
    let v = rx509::x509::Validity {
        not_before: UtcTime::from_seconds_since_epoch(nb),
        not_after: UtcTime::from_seconds_since_epoch(na),
    };
    let mut at: Vec<u64> = [nb, na, nb / 2 + na / 2]
        .iter()
        .flat_map(|e| [*e, e.wrapping_add(1), e.wrapping_sub(1), e ^ (1 << 63), e ^ (1 << 31), e ^ (1 << 32)])
        .collect();
    at.push(instant(s));
    at.push(instant(s));
    for t in at {
        ctx.evals += 1;
        let got = guard("validity", || v.is_valid(UtcTime::from_seconds_since_epoch(t)))?;
        if got != (t >= nb && t <= na) {
            return Err(format!("valid from {} to {}: validity at {} is {}", nb, na, t, got));
        }
    }
    Ok(())
}

/// the clock read at 32 places of a second, so that rounding shows
fn c19_phases(s: &mut Src, ctx: &mut Ctx) -> Res {
    use std::time::{Duration, SystemTime, UNIX_EPOCH};
    let k = s.below(32);
    ctx.set_input(&[k as u8]);
    ctx.nontrivial = true;
    let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default();
    let want = Duration::from_millis(1000 * k / 32 + 10);
    let mut last = String::new();
    for _ in 0..4 {
        let at = Duration::from_nanos(now().subsec_nanos() as u64);
        std::thread::sleep(if at <= want { want - at } else { want + Duration::from_secs(1) - at });
        for _ in 0..20 {
            let before = now().as_secs();
            let got = guard("the clock", || UtcTime::now().map_err(|e| e.to_string()))?.map_err(|e| format!("no current time: {}", e))?;
            let after = now().as_secs();
            if got.value >= before && got.value <= after {
                return Ok(());
            }
            last = format!("the current time is given as {} between {} and {} (about {} ms into the second)", got.value, before, after, want.as_millis());
        }
    }
    Err(last)
}
fn c19_clock(s: &mut Src, ctx: &mut Ctx) -> Res {
    let secs = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let mut t = gen_time(s);
    t.gen = true;
    ctx.set_input(&t.content());
    ctx.nontrivial = true;
    for attempt in 0.. {
        let before = secs();
        let now = guard("the clock", || UtcTime::now().map_err(|e| e.to_string()))?.map_err(|e| format!("no current time: {}", e))?;
        let after = secs();
        if now.value >= before && now.value <= after {
            // a certificate that begins or ends at some time, now
            let mut m = MCertMin.build();
            m.nb = Tm { gen: true, y: 1970, mo: 1, d: 1, h: 0, mi: 0, s: 0 };
            m.na = t;
            let end = t.secs();
            let b = m.node().enc();
            let c = guard("certificate decoding", || Certificate::parse(&b).map_err(|e| e.to_string()))?.map_err(|e| format!("certificate rejected: {}", e))?;
            let got = guard("validity", || c.tbs_certificate.value.validity.is_valid(now))?;
            if got != (now.value <= end) {
                return Err(format!("valid from 0 to {}: validity now, at {}, is {}", end, now.value, got));
            }
            return Ok(());
        }
        // the clock may be set meanwhile, but not every time
        if attempt == 20 {
            return Err(format!("the current time is given as {} between {} and {}", now.value, before, after));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

pub fn print_check(input: &[u8], ctx: &mut Ctx) -> Res {
    let got = guard("certificate decoding", || Certificate::parse(input))?;
    let c = match got {
        Ok(c) => c,
        Err(_) => {
            ctx.class("not a certificate");
            return Ok(());
        }
    };
    let m = guard("printing", || {
        let mut m = Monitor::new(64 * input.len() + 10_000);
        c.print(&mut m);
        m.finish();
        m
    })?;
    if let Some(f) = m.faults.first() {
        return Err(f.clone());
    }
    if let Some(w) = cert(input).value() {
        match cert_report(input, w) {
            Some(want) => {
                if want.iter().any(|l| l.1.contains("**Error**")) {
                    ctx.class("undecodable extensions");
                }
                if want.iter().any(|l| l.1.ends_with("(raw):")) {
                    ctx.class("undecodable name");
                }
                ctx.class("report compared");
                compare_lines(&m.lines, &want)?;
            }
            None => ctx.class("no claim on the report"),
        }
    }
    Ok(())
}
fn c20_model(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_cert(s);
    let b = m.node().enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    cert_classes(&m, ctx);
    print_check(&b, ctx)
}
fn c20_inner(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_cert(s);
    m.version = Some(2);
    let e = gen_exts(s);
    let mut en = exts_node(&e);
    let mut i = seq(name_nodes(&m.issuer));
    let mut su = seq(name_nodes(&m.subject));
    if s.flip() {
        mutate_tree(s, &mut i);
    }
    if s.chance(1, 3) {
        let n = s.len(300);
        su = seq(vec![Node::Raw(s.bytes(n))]);
    }
    if s.chance(2, 3) {
        mutate_tree(s, &mut en);
    }
    let b = m.node_with(i, su, Some(en)).enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    print_check(&b, ctx)
}
fn c20_real(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = {
        let c = crate::corpus::certs_ref();
        c[s.usize_below(c.len())].to_vec()
    };
    let k = s.below(3);
    for _ in 0..k {
        let i = s.usize_below(b.len());
        b[i] = s.special_byte();
    }
    ctx.set_input(&b);
    ctx.nontrivial = true;
    print_check(&b, ctx)
}
/// one extension printed on its own
fn c20_ext(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_ext(s, None);
    ctx.class(kind_class(&e.kind));
    let b = match e.node() {
        Node::Cons(_, k) => enc_all(&k),
        _ => unreachable!(),
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let x = guard("extension decoding", || Extension::parse(&b).map_err(|e| e.to_string()))?
        .map_err(|e| format!("extension rejected: {}", e))?;
    let m = guard("printing", || {
        let mut m = Monitor::new(64 * b.len() + 10_000);
        x.print(&mut m);
        m.finish();
        m
    })?;
    if let Some(f) = m.faults.first() {
        return Err(f.clone());
    }
    if let Verdict::Ok(w) = extension(&b, (0, b.len())) {
        let mut want = Vec::new();
        ext_lines(0, &w, &mut want);
        compare_lines(&m.lines, &want)?;
    }
    Ok(())
}

/// a printed part put together here, with the lines it must print at level `d`
enum Part {
    Ext(RefExt),
    Content(RefContent),
    Gn(RefGn),
    Rdn(RefName),
    Validity(u64, u64),
    RawName(Vec<u8>),
    Alg(Vec<u64>),
    Spki(Vec<u64>, u8, Vec<u8>),
    Bits(u8, Vec<u8>),
    Octets(Vec<u8>),
}
fn made_arcs(s: &mut Src) -> Vec<u64> {
    match s.weighted(&[6, 2, 1]) {
        0 => gen_oid(s).into_iter().filter(|x| *x <= u32::MAX as u64).collect(),
        1 => {
            let n = s.len(12);
            (0..n).map(|_| gen_arc(s) & 0xFFFF_FFFF).collect()
        }
        _ => vec![],
    }
}
fn made_text(s: &mut Src) -> String {
    match s.below(3) {
        0 => gen_printable(s),
        1 => gen_ia5(s),
        _ => gen_utf8(s),
    }
}
fn made_gn(s: &mut Src) -> RefGn {
    match s.below(9) {
        0 => RefGn::Email(0, made_text(s)),
        1 => RefGn::Dns(0, made_text(s)),
        2 => RefGn::Uri(0, made_text(s)),
        3 | 4 => RefGn::Ip(0, gen_octets(s, 40)),
        5 => RefGn::Rid(made_arcs(s)),
        _ => RefGn::Other(s.below(4) as u8),
    }
}
fn made_content(s: &mut Src) -> RefContent {
    match s.below(8) {
        0 => RefContent::Ski(0, gen_octets(s, 60)),
        1 => {
            let mut k = [false; 9];
            let bits = s.below(512);
            k.iter_mut().enumerate().for_each(|(i, v)| *v = bits >> i & 1 == 1);
            RefContent::Ku(k)
        }
        2 | 3 => {
            let n = s.len(12);
            RefContent::San((0..n).map(|_| made_gn(s)).collect())
        }
        4 => {
            let p = if s.flip() { Some(instant(s) as i32 as i64) } else { None };
            RefContent::Bc(s.flip(), p)
        }
        5 => {
            let n = s.len(12);
            RefContent::Eku((0..n).map(|_| s.pick(&PURPOSES).1).collect())
        }
        6 => RefContent::Role(0, made_text(s)),
        _ => RefContent::Unknown(0, gen_octets(s, 60)),
    }
}
fn made_rdn(s: &mut Src) -> RefName {
    let mut n: RefName = Default::default();
    for x in n.iter_mut() {
        if s.flip() {
            *x = Some((0, made_text(s)));
        }
    }
    n
}
fn made_part(s: &mut Src) -> Part {
    match s.weighted(&[6, 2, 2, 3, 2, 1, 1, 1, 1, 1]) {
        0 => Part::Ext(RefExt { oid: made_arcs(s), critical: s.flip(), content: made_content(s) }),
        1 => Part::Content(made_content(s)),
        2 => Part::Gn(made_gn(s)),
        3 => Part::Rdn(made_rdn(s)),
        4 => Part::Validity(instant(s), instant(s)),
        5 => Part::RawName(gen_octets(s, 80)),
        6 => Part::Alg(made_arcs(s)),
        7 => {
            let (u, b) = gen_bits(s, 100);
            Part::Spki(made_arcs(s), u, b)
        }
        8 => {
            let (u, b) = gen_bits(s, 100);
            Part::Bits(u, b)
        }
        _ => Part::Octets(gen_octets(s, 80)),
    }
}
fn as_oid(a: &[u64]) -> rx509::der::ASNObjectIdentifier {
    rx509::der::ASNObjectIdentifier::new(a.iter().map(|x| *x as u32).collect())
}
fn as_gn(g: &RefGn) -> rx509::x509::ext::GeneralName<'_> {
    use rx509::x509::ext::GeneralName as G;
    match g {
        RefGn::Email(_, x) => G::Rfc822Name(x),
        RefGn::Dns(_, x) => G::DnsName(x),
        RefGn::Uri(_, x) => G::UniformResourceIdentifier(x),
        RefGn::Ip(_, x) => G::IpAddress(x),
        RefGn::Rid(x) => G::RegisteredId(as_oid(x)),
        RefGn::Other(0) => G::OtherName(b"\x06\x01\x2A"),
        RefGn::Other(1) => G::X400Address,
        RefGn::Other(2) => G::DirectoryName,
        RefGn::Other(_) => G::EdiPartyName,
    }
}
fn as_content(c: &RefContent) -> rx509::x509::ext::SpecificExtension<'_> {
    use rx509::x509::ext::*;
    match c {
        RefContent::Ski(_, b) => SubjectKeyIdentifier { key_identifier: b }.into(),
        RefContent::Ku(k) => KeyUsage {
            digital_signature: k[0],
            content_commitment: k[1],
            key_encipherment: k[2],
            data_encipherment: k[3],
            key_agreement: k[4],
            key_cert_sign: k[5],
            crl_sign: k[6],
            encipher_only: k[7],
            decipher_only: k[8],
        }
        .into(),
        RefContent::San(v) => SubjectAlternativeName { names: v.iter().map(as_gn).collect() }.into(),
        RefContent::Bc(ca, p) => BasicConstraints { ca: *ca, path_length_constraint: p.map(|x| x as i32) }.into(),
        RefContent::Eku(v) => {
            use ExtendedKeyUsagePurpose as P;
            let one = |x: &&str| match PURPOSES.iter().position(|p| p.1 == *x) {
                Some(0) => P::ServerAuth,
                Some(1) => P::ClientAuth,
                Some(2) => P::CodeSigning,
                Some(3) => P::EmailProtection,
                Some(4) => P::TimeStamping,
                _ => P::OCSPSigning,
            };
            ExtendedKeyUsage { ext_key_usages: v.iter().map(one).collect() }.into()
        }
        RefContent::Role(_, r) => ModbusRole { role: r }.into(),
        RefContent::Unknown(_, b) => SpecificExtension::Unknown(b),
    }
}
fn part_want(d: usize, p: &Part, o: &mut Lines) {
    let bits = |u: u8, b: &[u8]| Val::Bits { unused: u, off: 0, bytes: b.to_vec() };
    match p {
        Part::Ext(x) => ext_lines(d, x, o),
        Part::Content(c) => {
            let mut l = Vec::new();
            ext_lines(d, &RefExt { oid: vec![], critical: false, content: c.clone() }, &mut l);
            // without the heading, the identifier and the criticality
            o.extend(l.into_iter().skip(3).map(|(k, t)| (k - 1, t)));
        }
        Part::Gn(g) => {
            let mut l = Vec::new();
            ext_lines(d, &RefExt { oid: vec![], critical: false, content: RefContent::San(vec![g.clone()]) }, &mut l);
            o.extend(l.into_iter().skip(4).map(|(k, t)| (k - 2, t)));
        }
        Part::Rdn(n) => rdn_lines(d, n, o),
        Part::Validity(a, b) => {
            o.push((d, format!("not before: {}", a)));
            o.push((d, format!("not after: {}", b)));
        }
        Part::RawName(b) => hex_lines(d + 1, b, o),
        Part::Alg(a) => o.push((d, format!("algorithm: {}", oid_text(a)))),
        Part::Spki(a, u, b) => {
            o.push((d, "algorithm:".into()));
            o.push((d + 1, format!("algorithm: {}", oid_text(a))));
            o.push((d, "subject public key:".into()));
            bits_lines(d + 1, &bits(*u, b), o);
        }
        Part::Bits(u, b) => bits_lines(d, &bits(*u, b), o),
        Part::Octets(b) => hex_lines(d, b, o),
    }
}
fn part_print(p: &Part, m: &mut Monitor) {
    use rx509::der::ASNBitString;
    use rx509::x509::printer::LinePrinter;
    use rx509::x509::*;
    match p {
        Part::Ext(x) => Extension::new(as_oid(&x.oid), x.critical, as_content(&x.content)).print(m),
        Part::Content(c) => as_content(c).print(m),
        Part::Gn(g) => {
            // the line of a name is begun by whoever prints it
            m.begin_line();
            as_gn(g).print(m)
        }
        Part::Rdn(n) => {
            let f = |i: usize| n[i].as_ref().map(|x| x.1.as_str());
            RelativeDistinguishedName {
                country_name: f(0),
                state_or_province_unit_name: f(1),
                locality_name: f(2),
                organization: f(3),
                organizational_unit_name: f(4),
                common_name: f(5),
            }
            .print(m)
        }
        Part::Validity(a, b) => Validity {
            not_before: UtcTime::from_seconds_since_epoch(*a),
            not_after: UtcTime::from_seconds_since_epoch(*b),
        }
        .print(m),
        Part::RawName(b) => Name { inner: b }.print(m),
        Part::Alg(a) => AlgorithmIdentifier::new(as_oid(a), None).print(m),
        Part::Spki(a, u, b) => SubjectPublicKeyInfo {
            algorithm: AlgorithmIdentifier::new(as_oid(a), None),
            subject_public_key: ASNBitString::new(*u, b),
        }
        .print(m),
        Part::Bits(u, b) => ASNBitString::new(*u, b).print(m),
        Part::Octets(b) => b.as_slice().print(m),
    }
}
/// parts of a report, put together here and printed one after the other, at
/// whatever level is open
fn c20_parts(s: &mut Src, ctx: &mut Ctx) -> Res {
    use rx509::x509::printer::LinePrinter;
    let n = 1 + s.len(5);
    let parts: Vec<(usize, Part)> = (0..n).map(|_| (s.usize_below(4), made_part(s))).collect();
    ctx.nontrivial = true;
    let mut want = Vec::new();
    for (d, p) in &parts {
        ctx.class(match p {
            Part::Ext(_) => "made extension",
            Part::Content(_) => "made content",
            Part::Gn(_) => "made general name",
            Part::Rdn(_) => "made name",
            Part::Validity(..) => "made period",
            Part::RawName(_) => "made raw name",
            Part::Alg(..) => "made algorithm",
            Part::Spki(..) => "made key",
            Part::Bits(..) => "made bit string",
            Part::Octets(_) => "made octets",
        });
        part_want(*d, p, &mut want);
    }
    ctx.set_input(format!("{:?}", want).as_bytes());
    let size: usize = want.iter().map(|l| l.1.len() + 64).sum();
    let m = guard("printing", || {
        let mut m = Monitor::new(64 * size + 10_000);
        for (d, p) in &parts {
            (0..*d).for_each(|_| m.begin_type());
            part_print(p, &mut m);
            (0..*d).for_each(|_| m.end_type());
        }
        m.finish();
        m
    })?;
    if let Some(f) = m.faults.first() {
        return Err(f.clone());
    }
    compare_lines(&m.lines, &want)
}
/// a decoded certificate whose public fields are replaced before it is printed
fn c20_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    use rx509::der::{ASNBitString, ASNInteger};
    use rx509::x509::*;
    let m = gen_cert(s);
    let b = m.node().enc();
    let n = b.len();
    // the material of the new fields follows the certificate
    let mut buf = b.clone();
    let put = |x: &[u8], buf: &mut Vec<u8>| {
        let a = buf.len();
        buf.extend_from_slice(x);
        (a, a + x.len())
    };
    let mut w = match cert(&b) {
        Verdict::Ok(w) => w,
        _ => return Ok(()),
    };
    let mut chosen = 0u64;
    let mut want_it = |s: &mut Src, k: u32| {
        let y = s.chance(1, 3);
        chosen |= (y as u64) << k;
        y
    };
    let name = |s: &mut Src, buf: &mut Vec<u8>| {
        let x = match s.below(3) {
            0 => {
                let k = s.len(100);
                s.bytes(k)
            }
            _ => enc_all(&name_nodes(&gen_name(s))),
        };
        put(&x, buf)
    };
    if want_it(s, 0) {
        w.issuer = name(s, &mut buf);
    }
    if want_it(s, 1) {
        w.subject = name(s, &mut buf);
    }
    if want_it(s, 2) {
        w.version = s.below(3) as u8;
    }
    if want_it(s, 3) {
        let k = s.len(40);
        let x = s.bytes(k);
        w.serial = Val::Int { off: 0, bytes: x };
    }
    if want_it(s, 4) {
        w.not_before = instant(s);
    }
    if want_it(s, 5) {
        w.not_after = instant(s);
    }
    if want_it(s, 6) {
        w.sig.oid = made_arcs(s);
    }
    if want_it(s, 7) {
        w.outer.oid = made_arcs(s);
    }
    if want_it(s, 8) {
        w.spki_alg.oid = made_arcs(s);
    }
    let bits = |s: &mut Src| {
        let (u, b) = gen_bits(s, 60);
        Val::Bits { unused: u, off: 0, bytes: b }
    };
    if want_it(s, 9) {
        w.spki_key = bits(s);
    }
    if want_it(s, 10) {
        w.iuid = if s.chance(1, 4) { None } else { Some(bits(s)) };
    }
    if want_it(s, 11) {
        w.suid = if s.chance(1, 4) { None } else { Some(bits(s)) };
    }
    if want_it(s, 12) {
        w.signature = bits(s);
    }
    if want_it(s, 13) {
        w.exts = None;
    }
    let how = s.below(2);
    ctx.set_input(&[&chosen.to_be_bytes()[..], &buf].concat());
    ctx.nontrivial = chosen != 0;
    let c = guard("certificate decoding", || Certificate::parse(&buf[..n]).map_err(|e| e.to_string()))?
        .map_err(|e| format!("certificate rejected: {}", e))?;
    let as_bits = |v: &'_ Val| -> (u8, Vec<u8>) {
        match v {
            Val::Bits { unused, bytes, .. } => (*unused, bytes.clone()),
            _ => unreachable!(),
        }
    };
    let (key, sign) = (as_bits(&w.spki_key), as_bits(&w.signature));
    let (iu, su) = (w.iuid.as_ref().map(as_bits), w.suid.as_ref().map(as_bits));
    let serial = match &w.serial {
        Val::Int { bytes, .. } => bytes.clone(),
        _ => unreachable!(),
    };
    let len = |x: &Option<(u8, Vec<u8>)>| x.as_ref().map_or(0, |x| x.1.len());
    let extra = key.1.len() + sign.1.len() + len(&iu) + len(&su) + serial.len();
    let got = guard("printing", || {
        let t = c.tbs_certificate.value;
        let has = |k: u32| chosen >> k & 1 == 1;
        let version = match w.version {
            0 => Version::V1,
            1 => Version::V2,
            _ => Version::V3,
        };
        let alg = |k: u32, old: AlgorithmIdentifier<'_>, oid: &[u64]| if has(k) { as_oid(oid) } else { old.algorithm };
        fn bs(v: &(u8, Vec<u8>)) -> ASNBitString<'_> {
            ASNBitString::new(v.0, &v.1)
        }
        let t = TBSCertificate::new(
            if has(2) { version } else { t.version },
            if has(3) { ASNInteger::new(&serial) } else { t.serial_number },
            AlgorithmIdentifier::new(alg(6, t.signature, &w.sig.oid), None),
            if has(0) { Name { inner: &buf[w.issuer.0..w.issuer.1] } } else { t.issuer },
            Validity {
                not_before: if has(4) { UtcTime::from_seconds_since_epoch(w.not_before) } else { t.validity.not_before },
                not_after: if has(5) { UtcTime::from_seconds_since_epoch(w.not_after) } else { t.validity.not_after },
            },
            if has(1) { Name { inner: &buf[w.subject.0..w.subject.1] } } else { t.subject },
            SubjectPublicKeyInfo {
                algorithm: AlgorithmIdentifier::new(alg(8, t.subject_public_key_info.algorithm, &w.spki_alg.oid), None),
                subject_public_key: if has(9) { bs(&key) } else { t.subject_public_key_info.subject_public_key },
            },
            if has(10) { iu.as_ref().map(bs) } else { t.issuer_unique_id },
            if has(11) { su.as_ref().map(bs) } else { t.subject_unique_id },
            if has(13) { None } else { t.extensions },
        );
        let c = Certificate {
            tbs_certificate: Constructed::new(c.tbs_certificate.bytes, t),
            signature_algorithm: AlgorithmIdentifier::new(alg(7, c.signature_algorithm, &w.outer.oid), None),
            signature_value: if has(12) { bs(&sign) } else { c.signature_value },
        };
        let mut m = Monitor::new(64 * (buf.len() + extra) + 10_000);
        if how == 0 {
            c.print(&mut m);
        } else {
            c.tbs_certificate.value.print(&mut m);
        }
        m.finish();
        m
    })?;
    if let Some(f) = got.faults.first() {
        return Err(f.clone());
    }
    if let Some(mut want) = cert_report(&buf, &w) {
        if how == 1 {
            // the inner part alone, one level up
            let end = want.iter().position(|l| l.0 == 0 && l.1 == "signature algorithm:").unwrap_or(want.len());
            want = want[1..end].iter().map(|(d, t)| (d - 1, t.clone())).collect();
        }
        ctx.class("made certificate compared");
        compare_lines(&got.lines, &want)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

/// numbers written in `m` (decimal, or hexadecimal after 0x)
fn numbers(m: &str) -> Vec<i128> {
    let mut v = Vec::new();
    let b: Vec<char> = m.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) {
            let neg = i > 0 && b[i - 1] == '-';
            let mut j = i;
            if b[i] == '0' && i + 1 < b.len() && (b[i + 1] == 'x' || b[i + 1] == 'X') {
                j = i + 2;
                let mut x = 0i128;
                while j < b.len() && b[j].is_ascii_hexdigit() && x < 1 << 100 {
                    x = x * 16 + b[j].to_digit(16).unwrap() as i128;
                    j += 1;
                }
                v.push(x);
            } else {
                let mut x = 0i128;
                while j < b.len() && b[j].is_ascii_digit() && x < 1 << 100 {
                    x = x * 10 + b[j].to_digit(10).unwrap() as i128;
                    j += 1;
                }
                v.push(if neg { -x } else { x });
            }
            i = j.max(i + 1);
        } else {
            i += 1;
        }
    }
    v
}
fn flat(m: &str) -> String {
    m.to_lowercase().chars().filter(|c| c.is_alphanumeric() || *c == '[').collect()
}
fn names_type(m: &str, tag: u8) -> bool {
    let f = flat(m);
    let any = |xs: &[&str]| xs.iter().any(|x| f.contains(x));
    match tag {
        0x01 => any(&["boolean"]),
        0x02 => any(&["integer"]),
        0x03 => any(&["bitstring"]),
        0x04 => any(&["octetstring"]),
        0x05 => any(&["null"]),
        0x06 => any(&["objectidentifier", "oid"]),
        0x0C => any(&["utf8string"]),
        0x13 => any(&["printablestring"]),
        0x16 => any(&["ia5string"]),
        0x17 | 0x18 => any(&["utctime", "generalizedtime"]),
        0x30 => any(&["sequence"]),
        0x31 => any(&["set"]),
        _ => any(&["explicittag", "context", "tagged", "["]),
    }
}
struct Fault {
    kind: usize,
    what: String,
    input: Vec<u8>,
    /// 0 walk, 1 certificate, 2 extension, 3 name in a certificate
    via: u8,
    numbers: Vec<i128>,
    /// each group: at least one of these words (letters and digits only)
    words: Vec<Vec<String>>,
    types: Vec<u8>,
    oid: Option<Vec<u64>>,
}
fn message(f: &Fault) -> Result<Option<String>, String> {
    guard("decoding", || match f.via {
        0 => {
            struct H;
            impl rx509::der::ParseHandler for H {
                fn begin_constructed(&mut self) {}
                fn end_constructed(&mut self) {}
                fn on_type(&mut self, _: &rx509::der::ASNType) {}
                fn on_error(&mut self, _: &rx509::der::ASNError) {}
            }
            rx509::der::parse_all(&f.input, &mut H).err().map(|e| e.to_string())
        }
        1 => Certificate::parse(&f.input).err().map(|e| e.to_string()),
        2 => Extension::parse(&f.input).err().map(|e| e.to_string()),
        _ => match Certificate::parse(&f.input) {
            Ok(c) => c.tbs_certificate.value.issuer.parse().err().map(|e| e.to_string()),
            Err(e) => Some(format!("certificate rejected: {}", e)),
        },
    })
}
const FAULT_KINDS: u64 = 21;
/// a number of octets, around the limits of narrow counters now and then
fn fault_size(s: &mut Src, min: u64) -> u64 {
    match s.below(8) {
        0 => (*s.pick(&[127u64, 255, 256, 4096]) + s.below(4)).max(min),
        1 if s.chance(1, 6) => *s.pick(&[32766u64, 65534, 131070]) + s.below(5),
        2 => s.mined_int(40_000).max(min),
        _ => s.range(min, 300),
    }
}
fn fault_bytes(s: &mut Src, n: u64) -> Vec<u8> {
    if n <= 300 {
        s.bytes(n as usize)
    } else {
        vec![s.byte(); n as usize]
    }
}
fn leaf_of_tag(s: &mut Src, t: u8) -> Node {
    match t {
        0x30 | 0x31 => Node::Cons(t, vec![gen_leaf_small(s)]),
        t if t >= 0x80 => Node::Cons(t, vec![gen_leaf_small(s)]),
        t => match gen_leaf_of(s, t) {
            Node::Leaf(t, c) if c.len() > 300 => Node::Leaf(
                t,
                match t {
                    0x03 => vec![0],
                    0x06 => vec![0x2A],
                    _ => b"A".to_vec(),
                },
            ),
            n => n,
        },
    }
}
const ALL_TAGS: [u8; 15] = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xA0, 0xA5];
fn gen_fault(s: &mut Src, kind: u64) -> Fault {
    let mut f = Fault {
        kind: kind as usize,
        what: String::new(),
        input: vec![],
        via: 0,
        numbers: vec![],
        words: vec![],
        types: vec![],
        oid: None,
    };
    let w = |xs: &[&str]| -> Vec<String> { xs.iter().map(|x| x.to_string()).collect() };
    let mut pre = if s.chance(1, 3) { gen_leaf_small(s).enc() } else { vec![] };
    let wrap = s.chance(1, 3);
    let mut el: Vec<u8> = Vec::new();
    match kind {
        0 => {
            let n = if s.flip() { 0 } else { fault_size(s, 2) };
            el = tlv(0x01, &fault_bytes(s, n));
            f.what = format!("boolean of {} octets", n);
            f.numbers = vec![n as i128];
            f.words = vec![w(&["bool"])];
        }
        1 => {
            let v = s.range(1, 254) as u8;
            el = tlv(0x01, &[v]);
            f.what = format!("boolean octet {}", v);
            f.numbers = vec![v as i128];
            f.words = vec![w(&["bool"])];
        }
        2 => {
            let n = fault_size(s, 1);
            el = tlv(0x05, &fault_bytes(s, n));
            f.what = format!("null of {} octets", n);
            f.numbers = vec![n as i128];
            f.words = vec![w(&["null"])];
        }
        3 => {
            el = vec![0x02, 0x00];
            f.what = "empty integer".into();
            f.words = vec![w(&["integer"]), w(&["zero", "empty"])];
        }
        4 => {
            let mut t = unsupported_tag(s);
            if !(t & 0xC0 == 0 || t & 0xC0 == 0x40 || t & 0xC0 == 0xC0 || t & 0x1F == 0x1F) {
                t = 0x1F;
            }
            el = vec![t, 0x00];
            f.what = format!("identifier octet {:02x}", t);
            f.numbers = vec![(t & 0x1F) as i128];
            f.words = vec![w(match t >> 6 {
                0 => &["universal"],
                1 => &["application"],
                2 => &["context"],
                _ => &["private"],
            })];
        }
        5 => {
            el = vec![*s.pick(&[0x30u8, 0x31, 0x04, 0xA0, 0x02]), 0x80, 0x00, 0x00];
            f.what = "indefinite length".into();
            f.words = vec![w(&["indefinite"])];
        }
        6 => {
            el = vec![*s.pick(&[0x30u8, 0x04, 0xA0]), 0xFF, 0x00];
            f.what = "reserved length octet".into();
            f.words = vec![w(&["reserved"])];
        }
        7 => {
            let k = s.range(5, 126) as u8;
            el = vec![*s.pick(&[0x30u8, 0x04, 0xA0]), 0x80 | k];
            el.extend(s.bytes(130));
            f.what = format!("length of {} octets", k);
            f.numbers = vec![k as i128];
            f.words = vec![w(&["length"])];
        }
        8 => {
            let k = s.range(1, 4);
            let v = s.below([128u64, 256, 65536, 16777216][k as usize - 1]);
            el = vec![*s.pick(&[0x30u8, 0x04, 0xA0]), 0x80 | k as u8];
            el.extend_from_slice(&v.to_be_bytes()[8 - k as usize..]);
            el.extend(vec![0; (v as usize).min(300)]);
            f.what = format!("length {} in {} octets", v, k);
            f.numbers = vec![v as i128, k as i128];
        }
        9 => {
            let u = s.range(8, 255) as u8;
            let n = s.range(0, 20) as usize;
            el = tlv(0x03, &bits(u, &s.bytes(n)));
            f.what = format!("{} unused bits", u);
            f.numbers = vec![u as i128];
            f.words = vec![w(&["bit"])];
        }
        10 => {
            let t = *s.pick(&[0x0Cu8, 0x13, 0x16]);
            let mut c = gen_printable(s).into_bytes();
            // an octet of no character, a lone or missing continuation, an
            // overlong form, a surrogate, a number above the last
            c.extend_from_slice(s.pick(&[
                &[0xFFu8][..],
                &[0xC0],
                &[0x80],
                &[0xF8],
                &[0xC3],
                &[0xE2, 0x82],
                &[0xF0, 0x9F],
                &[0xF0, 0x9F, 0x98],
                &[0xC0, 0x80],
                &[0xE0, 0x80, 0x80],
                &[0xED, 0xA0, 0x80],
                &[0xF4, 0x90, 0x80, 0x80],
            ]));
            if s.flip() {
                c.extend(gen_printable(s).into_bytes());
            }
            el = tlv(t, &c);
            f.what = "text that is not UTF-8".into();
            f.words = vec![w(&["utf8"])];
        }
        11 => {
            let t = gen_time(s);
            let mut c = t.content();
            let l = c.len();
            match s.below(4) {
                0 => c[l - 1] = b'Y',
                1 => c[s.usize_below(l - 1)] = b'x',
                2 => c.truncate(l - 1),
                _ => c[l - 3] = b'9',
            }
            el = tlv(if t.gen { 0x18 } else { 0x17 }, &c);
            f.what = format!("time {:?}", String::from_utf8_lossy(&c));
            f.words = vec![w(&["time"])];
        }
        12 => {
            let n = s.range(1, 200) as usize;
            el = match s.below(3) {
                0 => {
                    // the whole input ends too early
                    let have = s.usize_below(n);
                    let mut el = vec![*s.pick(&[0x30u8, 0x04, 0x0C, 0xA1, 0x13])];
                    der_len(n, &mut el);
                    el.extend(vec![0x05; have]);
                    el
                }
                1 => {
                    // an element overruns the one around it; more follows that
                    let have = s.usize_below(n);
                    let mut el = vec![*s.pick(&[0x04u8, 0x0C, 0x02, 0x30])];
                    der_len(n, &mut el);
                    el.extend(vec![0x05; have]);
                    let mut o = tlv(*s.pick(&[0x30u8, 0x31, 0xA3]), &el);
                    o.extend(vec![0; n + 2]);
                    o
                }
                _ => {
                    // the length is missing or unfinished
                    let k = s.range(2, 4) as usize;
                    let mut el = vec![*s.pick(&[0x30u8, 0x04, 0x0C, 0xA1, 0x13])];
                    if s.flip() {
                        el.push(0x80 | k as u8);
                        el.extend(vec![1; s.usize_below(k)]);
                    }
                    el
                }
            };
            f.what = "truncated element".into();
            f.words = vec![w(&["endofstream", "allinput", "truncat", "endofinput", "consumed", "tooshort", "unexpectedend"])];
        }
        19 => {
            // content ends inside a subidentifier, or before the first
            let mut c = if s.chance(1, 8) { vec![] } else { oid_content(&gen_oid(s)) };
            if !c.is_empty() {
                let k = s.range(1, 3) as usize;
                c.extend_from_slice(&[0x81, 0x80, 0xFF][..k]);
            }
            el = tlv(0x06, &c);
            f.kind = 12;
            f.what = "unfinished object identifier".into();
            f.words = vec![w(&["endofstream", "allinput", "truncat", "endofinput", "consumed", "tooshort", "unexpectedend", "oid", "objectidentifier"])];
        }
        13 => {
            let mut c = oid_content(&gen_oid(s));
            c.extend_from_slice(&[0x81, 0x80, 0x80, 0x80, 0x00]);
            el = tlv(0x06, &c);
            f.what = "subidentifier of five octets".into();
            f.words = vec![w(&["oid", "objectidentifier"])];
        }
        14 => {
            // wrong type in a place that expects exactly one type
            let (o, want): (&[u64], u8) = *s.pick(&[(SKI, 0x04u8), (KU, 0x03), (ROLE, 0x0C), (SAN, 0x30), (BC, 0x30), (EKU, 0x30)]);
            let t = loop {
                let t = *s.pick(&ALL_TAGS);
                if t != want {
                    break t;
                }
                if s.rec.len() > 10_000 {
                    break 0x05;
                }
            };
            let n = leaf_of_tag(s, t);
            f.input = enc_all(&[oid(o), Node::Leaf(0x04, n.enc())]);
            f.via = 2;
            f.what = format!("{:02x} in place of {:02x} in an extension", t, want);
            f.types = vec![want, t];
        }
        15 => {
            let v = match s.below(3) {
                0 => s.range(3, 300) as i64,
                1 => -(s.range(1, 300) as i64),
                _ => s.range(3, i32::MAX as u64) as i64,
            };
            let mut m = MCertMin.build();
            m.version = None;
            let mut n = m.node();
            if let Some(Node::Cons(_, k)) = n.get_mut(1) {
                k.insert(0, Node::Cons(0xA0, vec![Node::Leaf(0x02, int_content(v))]));
            }
            f.input = n.enc();
            f.via = 1;
            f.what = format!("version {}", v);
            f.numbers = vec![v as i128];
            f.words = vec![w(&["version"])];
        }
        16 => {
            let t = loop {
                let t = s.below(31);
                if ![1, 2, 6, 7, 8].contains(&t) {
                    break t;
                }
                if s.rec.len() > 10_000 {
                    break 0;
                }
            };
            let n = Node::Leaf(0x80 | t as u8, b"abc".to_vec());
            let mut v = vec![n];
            if s.flip() {
                v.insert(0, Node::Leaf(0x82, b"a".to_vec()));
            }
            f.input = enc_all(&[oid(SAN), Node::Leaf(0x04, seq(v).enc())]);
            f.via = 2;
            f.what = format!("alternative name of kind {}", t);
            f.numbers = vec![t as i128];
            f.words = vec![w(&["tag"])];
        }
        20 => {
            // an integer longer than any value taken there
            let n = fault_size(s, 5);
            let i = Node::Leaf(0x02, fault_bytes(s, n));
            if s.flip() {
                let mut m = MCertMin.build();
                m.version = None;
                let mut c = m.node();
                if let Some(Node::Cons(_, k)) = c.get_mut(1) {
                    k.insert(0, Node::Cons(0xA0, vec![i]));
                }
                f.input = c.enc();
                f.via = 1;
                f.what = format!("version of {} octets", n);
            } else {
                let mut k = vec![i];
                if s.flip() {
                    k.insert(0, Node::Leaf(0x01, vec![0xFF]));
                }
                f.input = enc_all(&[oid(BC), Node::Leaf(0x04, seq(k).enc())]);
                f.via = 2;
                f.what = format!("path length of {} octets", n);
            }
            f.numbers = vec![n as i128];
            f.words = vec![w(&["integer", "version", "pathlength"])];
        }
        17 => {
            // an object identifier that is not allowed where it stands
            if s.flip() {
                let mut o = gen_oid(s);
                if o.len() == 9 && o[..8] == *KP {
                    o.push(1);
                }
                f.input = enc_all(&[oid(EKU), Node::Leaf(0x04, seq(vec![oid(&o)]).enc())]);
                f.via = 2;
                f.what = format!("purpose {}", dotted(&o));
                f.oid = Some(o);
            } else {
                let o = vec![2, 5, 4, *s.pick(&ATTR_LAST)];
                let a = seq(vec![oid(&o), gen_text_node(s)]);
                let b = seq(vec![oid(&o), gen_text_node(s)]);
                f.input = carrier(&enc_all(&[set(vec![a]), set(vec![b])]), &[], None);
                f.via = 3;
                f.what = format!("repeated attribute {}", dotted(&o));
                f.oid = Some(o);
            }
        }
        _ => {
            // something where nothing is expected
            let t = *s.pick(&ALL_TAGS);
            let n = leaf_of_tag(s, t);
            match s.below(3) {
                0 => {
                    let mut k = vec![oid(ROLE), Node::Leaf(0x04, tlv(0x0C, b"r"))];
                    k.push(n);
                    f.input = enc_all(&k);
                    f.via = 2;
                }
                1 => {
                    let mut c = MCertMin.build().node().enc();
                    c.extend_from_slice(&n.enc());
                    f.input = c;
                    f.via = 1;
                }
                _ => {
                    let a = seq(vec![oid(&[2, 5, 4, 3]), gen_text_node(s), n]);
                    f.input = carrier(&set(vec![a]).enc(), &[], None);
                    f.via = 3;
                }
            }
            f.what = format!("extra element {:02x}", t);
            f.types = vec![t];
            f.words = vec![w(&["end", "extra", "trailing", "unexpected"])];
        }
    }
    if f.input.is_empty() {
        if wrap && kind != 12 {
            el = tlv(0x30, &el);
        }
        pre.extend_from_slice(&el);
        f.input = pre;
    }
    f
}
fn check_fault(f: &Fault) -> Result<String, String> {
    let m = match message(f)? {
        Some(m) => m,
        None => return Err(format!("{} is accepted (input {})", f.what, hex_short(&f.input))),
    };
    let ctx = |x: String| format!("message {:?} for {} (input {}) {}", m, f.what, hex_short(&f.input), x);
    let nums = numbers(&m);
    for n in &f.numbers {
        if !nums.contains(n) {
            return Err(ctx(format!("does not give the value {}", n)));
        }
    }
    let fl = flat(&m);
    for g in &f.words {
        if !g.iter().any(|w| fl.contains(w.as_str())) {
            return Err(ctx(format!("names none of {:?}", g)));
        }
    }
    for t in &f.types {
        if !names_type(&m, *t) {
            return Err(ctx(format!("does not name the type {}", crate::props_der::tag_name(*t))));
        }
    }
    if f.types.len() == 2 {
        // expected before actual, and both are distinguished
        let same = names_type(&m, f.types[0]) && names_type(&m, f.types[1]);
        if !same {
            return Err(ctx("does not name both types".into()));
        }
        // what follows the word "expected" is the expected type
        let low = m.to_lowercase();
        let at = low
            .match_indices("expected")
            .filter(|(i, _)| !low[..*i].ends_with(|c: char| c.is_alphanumeric()))
            .map(|(i, _)| i)
            .last();
        if let Some(at) = at {
            let first = |t: u8| (at..=low.len()).filter(|i| low.is_char_boundary(*i)).find(|i| names_type(&low[at..*i], t));
            if let (Some(e), Some(a)) = (first(f.types[0]), first(f.types[1])) {
                if a < e {
                    return Err(ctx("swaps the expected and the actual type".into()));
                }
            }
        }
    }
    if let Some(o) = &f.oid {
        if !m.contains(&dotted(o)) && !m.contains(&oid_text(o)) {
            return Err(ctx(format!("does not give the identifier {}", dotted(o))));
        }
    }
    Ok(m)
}
fn c25_fault(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = s.below(FAULT_KINDS);
    let f = gen_fault(s, k);
    ctx.set_input(&f.input);
    ctx.nontrivial = true;
    ctx.class(KIND_NAMES[k as usize]);
    check_fault(&f).map(|_| ())
}
const KIND_NAMES: [&str; 21] = [
    "boolean length",
    "boolean value",
    "null content",
    "empty integer",
    "identifier",
    "indefinite length",
    "reserved length",
    "length of length",
    "non-minimal length",
    "unused bits",
    "utf-8",
    "time",
    "truncation",
    "oid",
    "wrong type",
    "version",
    "name kind",
    "unexpected oid",
    "extra element",
    "unfinished oid",
    "over-long integer",
];
fn c25_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(FAULT_KINDS);
    let b = s.below(FAULT_KINDS);
    let fa = gen_fault(s, a);
    let fb = gen_fault(s, b);
    let mut i = fa.input.clone();
    i.extend_from_slice(&fb.input);
    ctx.set_input(&i);
    ctx.nontrivial = a != b;
    let ma = check_fault(&fa)?;
    let mb = check_fault(&fb)?;
    if fa.kind != fb.kind && ma == mb {
        return Err(format!("{} and {} give the same message {:?}", fa.what, fb.what, ma));
    }
    Ok(())
}

// ------------------------------------------------------------------ registry

pub fn props() -> Vec<Prop> {
    let kind = |v, m, c, sh, n: u64| -> Vec<Sub> {
        vec![
            sub("valid", v, 100_000, 2_000_000),
            sub("mutated", m, 200_000, 4_000_000),
            sub("cuts", c, 4_000, 80_000),
            exh("exhaustive-3-octets", sh, n, n),
        ]
    };
    let with = |mut a: Vec<Sub>, b: Vec<Sub>| {
        a.extend(b);
        a
    };
    vec![
        Prop {
            id: "C09",
            rule: "certificate models with every combination of version, unique ids, extensions and algorithm parameters and varied names, times, keys and sizes are encoded and decoded; every field is compared with an independent reference decoder, which itself must agree with the model. Also arbitrary octets in names and extension blocks, and 27 real or openssl-made certificates, and certificates with one field of up to 2^32-1 octets (untouched zeros). Non-trivial: every certificate",
            assumptions: &["unique ids only with v2/v3 and extensions only with v3, as RFC 5280 requires"],
            subs: vec![
                sub("models", c09_model, 120_000, 2_400_000),
                exh("combinations", c09_combos, 256, 256),
                sub("loose", c09_loose, 40_000, 1_000_000),
                sub("huge", c09_huge, 2_000, 40_000),
                sub("raw-names-and-extensions", c09_lazy, 60_000, 1_200_000),
                exh("real", c09_real, corpus_len(), corpus_len()),
            ],
        },
        Prop {
            id: "C10",
            rule: "certificates, element forests and extensions placed anywhere in a larger buffer; every returned slice is compared by address and length with the place the reference says it was encoded at. Non-trivial: every certificate and extension, forests over 2 octets",
            assumptions: &["the raw to-be-signed bytes are the content octets, without the SEQUENCE header"],
            subs: vec![
                sub("certificates", c10_cert, 100_000, 2_000_000),
                sub("elements", c10_walk, 120_000, 2_400_000),
                sub("extensions", c10_ext, 120_000, 2_400_000),
            ],
        },
        Prop {
            id: "C11",
            rule: "certificate models and real certificates damaged by structural and byte mutations, each with every prefix and several extensions, every element dropped/doubled/swapped/retagged/emptied/followed by extra elements, something after the last part of every constructed element under every combination of version and optional parts, every octet of the real certificates replaced (quick: 16 values, thorough: all), all version numbers -200..500; verdict and values against the reference. Non-trivial: the reference rejects",
            assumptions: &["encodings no property decides (see the reference decoder) are not compared for acceptance"],
            subs: vec![
                sub("mutated", c11_mutated, 250_000, 5_000_000),
                sub("prefixes", c11_prefix, 1_500, 30_000),
                sub("schema", c11_schema, 250, 5_000),
                sub("ends", c11_ends, 20_000, 400_000),
                exh("octets", c11_bytes, corpus_octets(), corpus_octets()),
                sub("version", c11_version, 60_000, 600_000),
                sub("soup", c11_soup, 100_000, 2_000_000),
            ],
        },
        Prop {
            id: "C12",
            rule: "name models (all orders of all subsets of the six attributes, random groupings, types, sizes, unrecognised attributes), repeated attributes, wrong types, empty sets, mutated contents, every cut of name/set/attribute, in issuer or subject; against the reference. Non-trivial: more than one attribute (valid), rejected by the reference (malformed)",
            assumptions: &["texts outside their declared character set but valid UTF-8 carry no claim"],
            subs: vec![
                sub("valid", c12_valid, 120_000, 2_400_000),
                exh("orders", c12_orders, 1957, 1957),
                sub("mutated", c12_mutated, 200_000, 4_000_000),
                sub("faults", c12_faults, 120_000, 2_400_000),
                sub("cuts", c12_cuts, 3_000, 60_000),
            ],
        },
        Prop {
            id: "C13",
            rule: "extension list models of 0-300 entries of all kinds, near-miss identifiers, criticality octets, element shapes, mutated lists, every cut of the list and of its last entry; against the reference, alone and inside a certificate. Non-trivial: more than one entry (valid), rejected by the reference (malformed)",
            assumptions: &[],
            subs: vec![
                sub("valid", c13_valid, 80_000, 1_600_000),
                sub("mutated", c13_mutated, 150_000, 3_000_000),
                sub("identifiers", c13_ids, 150_000, 3_000_000),
                sub("shapes", c13_shape, 120_000, 2_400_000),
                sub("cuts", c13_cuts, 3_000, 60_000),
            ],
        },
        Prop {
            id: "C14",
            rule: "all bit strings of up to 16 bits with every unused count, longer ones, and malformed contents (all of up to 3 octets, mutated, cut); flags against the bits. Non-trivial: accepted (enumerated), content over 2 octets (valid), rejected (malformed)",
            assumptions: &["non-zero padding bits carry no accept/reject claim"],
            subs: with(kind(ku_valid, ku_mutated, ku_cuts, ku_short, 256), vec![exh("exhaustive-16-bits", ku_exh, 256, 256)]),
        },
        Prop {
            id: "C15",
            rule: "all path lengths 0-65535 and around all powers of two to 2^33 with each flag form, random ones, and malformed contents (all of up to 3 octets, mutated, cut); against the reference. Non-trivial: decided by the reference",
            assumptions: &["negative path lengths and non-minimal integers carry no accept/reject claim"],
            subs: with(kind(bc_valid, bc_mutated, bc_cuts, bc_short, 256), vec![exh("path-lengths", bc_sweep, 290, 290)]),
        },
        Prop {
            id: "C16",
            rule: "lists of 0-400 names of the five kinds with any text/octets/arcs, every identifier octet as a name at several places and sizes, malformed contents; against the reference. Non-trivial: decided by the reference, content over 2 octets",
            assumptions: &["the constructed form of the implicit tags and non-ASCII text carry no accept/reject claim"],
            subs: with(kind(san_valid, san_mutated, san_cuts, san_short, 256), vec![exh("name-tags", san_tags, 256, 256)]),
        },
        Prop {
            id: "C17",
            rule: "lists of 0-400 purposes, purposes near the known ones in every position, malformed contents; against the reference. Non-trivial: decided by the reference, content over 2 octets",
            assumptions: &[],
            subs: with(kind(eku_valid, eku_mutated, eku_cuts, eku_short, 256), vec![exh("purposes", eku_sweep, 300, 300)]),
        },
        Prop {
            id: "C18",
            rule: "key identifiers and role texts of all sizes, malformed contents (all of up to 3 octets, mutated, cut); against the reference. Non-trivial: content over 2 octets (valid), accepted (enumerated), rejected (malformed)",
            assumptions: &[],
            subs: vec![
                sub("ski-valid", ski_valid, 60_000, 1_200_000),
                sub("ski-mutated", ski_mutated, 100_000, 2_000_000),
                sub("ski-cuts", ski_cuts, 2_000, 40_000),
                exh("ski-3-octets", ski_short, 256, 256),
                sub("role-valid", role_valid, 60_000, 1_200_000),
                sub("role-mutated", role_mutated, 100_000, 2_000_000),
                sub("role-cuts", role_cuts, 2_000, 40_000),
                exh("role-3-octets", role_short, 256, 256),
            ],
        },
        Prop {
            id: "C19",
            rule: "pairs of encoded times (equal, neighbouring, far, reversed, mixed types) x about 80 instants around both ends and at integer limits; periods put together from any two 64-bit instants; validity against the comparison of the encoded instants; the library's current time between two readings of the system clock. Non-trivial: every pair and reading",
            assumptions: &[],
            subs: vec![sub("periods", c19, 60_000, 1_200_000), sub("made", c19_made, 60_000, 1_200_000), sub("clock", c19_clock, 20_000, 200_000), exh("phases", c19_phases, 32, 32)],
        },
        Prop {
            id: "C20",
            rule: "certificate models, certificates with undecodable names or extensions, damaged real certificates, single extensions, parts put together by the caller and decoded certificates with replaced fields are printed into a monitor that checks the line/level protocol, and the lines are compared with an independently rendered report. Non-trivial: every input",
            assumptions: &["\"Contraint\" in the printed path length label is accepted as well as \"Constraint\"", "reports depending on unclaimed encodings are checked for the protocol only"],
            subs: vec![
                sub("models", c20_model, 80_000, 1_600_000),
                sub("inner", c20_inner, 100_000, 2_000_000),
                sub("real", c20_real, 60_000, 1_200_000),
                sub("extensions", c20_ext, 120_000, 2_400_000),
                sub("parts", c20_parts, 60_000, 1_200_000),
                sub("made", c20_made, 30_000, 600_000),
            ],
        },
        Prop {
            id: "C25",
            rule: "inputs with one fault of each of 21 kinds with random offending values, via the walk, certificates, names and extensions; the message must name the fault and give the values, and differ between kinds. Non-trivial: every fault; pairs of different kinds",
            assumptions: &["messages are judged by the values, type names and key words they must contain, not by their wording"],
            subs: vec![sub("faults", c25_fault, 400_000, 6_000_000), sub("pairs", c25_pairs, 120_000, 2_400_000)],
        },
    ]
}

fn corpus_len() -> u64 {
    crate::corpus::certs_ref().len() as u64
}
