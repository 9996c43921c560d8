//! Properties of the DER layer: C01-C08, C24.

use crate::engine::*;
use crate::gen::*;
use crate::refder::*;
use crate::sut::*;
use rx509::der::*;

/// walk + full comparison with the reference event stream
pub fn walk_diff(input: &[u8], views: bool, ctx: &mut Ctx) -> Res {
    let (evs, term) = crate::refder::walk(input);
    let w = crate::sut::walk(input, false)?;
    compare_walk(&w, &evs, &term, input, views)?;
    ctx.class(match term {
        Term::Done => "accepted",
        Term::Rejected(_) => "rejected",
        Term::Unspec(..) => "unspecified",
    });
    Ok(())
}
/// for enumerations: cheap, only formats the input when it fails
fn walk_diff_quiet(input: &[u8]) -> Result<bool, String> {
    let (evs, term) = crate::refder::walk(input);
    let w = crate::sut::walk(input, false)?;
    compare_walk(&w, &evs, &term, input, false).map_err(|e| format!("input {}: {}", hex_short(input), e))?;
    Ok(term == Term::Done)
}

// ------------------------------------------------------------------ C01

pub struct Count {
    pub types: u64,
    pub depth: i64,
    pub max_depth: i64,
    pub errors: u64,
    pub cap: u64,
    pub render: bool,
    pub sink: u64,
}
impl Count {
    pub fn new(len: usize, render: bool) -> Count {
        Count { types: 0, depth: 0, max_depth: 0, errors: 0, cap: 2 * len as u64 + 16, render, sink: 0 }
    }
}
impl ParseHandler for Count {
    fn begin_constructed(&mut self) {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
    }
    fn end_constructed(&mut self) {
        self.depth -= 1;
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.types += 1;
        if self.types > self.cap {
            panic!("runaway walk");
        }
        if self.render {
            self.sink += asn.to_string().len() as u64;
        }
        match asn {
            ASNType::BitString(w) => {
                let n = w.value.size();
                let mut k = 0usize;
                for b in w.value.iter() {
                    self.sink += b as u64;
                    k += 1;
                    if k > n {
                        panic!("runaway bit iteration");
                    }
                }
                self.sink += w.value.octets().map(|o| o.len()).unwrap_or(0) as u64;
            }
            ASNType::Integer(w) => {
                self.sink += w.value.as_i32().unwrap_or(0) as u64 & 1;
            }
            _ => {}
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        self.errors += 1;
        self.sink += err.to_string().len() as u64 + format!("{:?}", err).len() as u64;
    }
}

/// Everything a user can do with an input. Ends with the number of accepted layers.
pub fn exercise(input: &[u8], render: bool) -> Result<u64, String> {
    use crate::report::Monitor;
    use rx509::x509::ext::Extension;
    use rx509::x509::printer::Printable;
    use rx509::x509::Certificate;
    let mut ok = guard("DER walk", || {
        let mut h = Count::new(input.len(), render);
        let r = parse_all(input, &mut h);
        if let Err(e) = &r {
            h.sink += e.to_string().len() as u64;
            std::hint::black_box(h.sink);
        }
        r.is_ok() as u64
    })?;
    ok += guard("certificate", || {
        let mut ok = 0;
        match Certificate::parse(input) {
            Ok(c) => {
                ok += 1;
                let t = &c.tbs_certificate.value;
                for n in [&t.issuer, &t.subject] {
                    match n.parse() {
                        Ok(_) => ok += 1,
                        Err(e) => drop(e.to_string()),
                    }
                }
                let _ = t.serial_number.as_i32();
                let _ = t.serial_number.to_string();
                for b in [Some(&c.signature_value), t.issuer_unique_id.as_ref(), t.subject_unique_id.as_ref()]
                    .into_iter()
                    .flatten()
                {
                    let n = b.size();
                    assert!(b.iter().take(n + 2).count() <= n, "runaway bit iteration");
                    let _ = b.octets();
                }
                if let Some(e) = &t.extensions {
                    match e.parse() {
                        Ok(v) => {
                            ok += 1 + v.len() as u64;
                            for x in &v {
                                let _ = x.content.name();
                            }
                        }
                        Err(e) => drop(e.to_string()),
                    }
                }
                if render {
                    let _ = format!("{:?}", c);
                    let mut m = Monitor::new(64 * input.len() + 10_000);
                    c.print(&mut m);
                }
            }
            Err(e) => drop((e.to_string(), format!("{:?}", e))),
        }
        ok
    })?;
    ok += guard("extension", || match Extension::parse(input) {
        Ok(x) => {
            let mut m = Monitor::new(64 * input.len() + 10_000);
            x.print(&mut m);
            let _ = format!("{:?}", x);
            1
        }
        Err(e) => {
            drop(e.to_string());
            0
        }
    })?;
    Ok(ok)
}

pub fn corpus() -> Vec<Vec<u8>> {
    crate::corpus::certs()
}

/// a certificate, valid or damaged by a few mutations
pub fn damaged_cert(s: &mut Src, ctx: &mut Ctx, max_mut: u64) -> Vec<u8> {
    let real = s.chance(1, 5);
    let mut b = if real {
        let c = crate::corpus::certs_ref();
        let i = s.usize_below(c.len());
        ctx.class("real certificate");
        c[i].to_vec()
    } else {
        let mut m = gen_cert(s);
        if s.chance(1, 5) {
            crate::props_x509::loosen(s, &mut m);
        }
        let mut n = m.node();
        let k = s.below(max_mut + 1);
        for _ in 0..k {
            let c = mutate_tree(s, &mut n);
            ctx.class(c);
        }
        n.enc()
    };
    let k = if real { s.below(max_mut + 1) } else { s.below(4).saturating_sub(1) };
    for _ in 0..k {
        let c = mutate_bytes(s, &mut b);
        ctx.class(c);
    }
    b
}

fn c01_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen_soup(s);
    ctx.set_input(&b);
    ctx.nontrivial = b.len() >= 4;
    let ok = exercise(&b, true)?;
    ctx.class(if ok > 0 { "something decodes" } else { "nothing decodes" });
    Ok(())
}
fn c01_cert(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = damaged_cert(s, ctx, 3);
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let ok = exercise(&b, true)?;
    ctx.class(if ok > 0 { "something decodes" } else { "nothing decodes" });
    Ok(())
}
/// a certificate whose extension contents and names are soup
fn c01_inner(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_cert(s);
    m.version = Some(2);
    let inner = |s: &mut Src, kind: usize| -> Vec<Node> {
        match s.below(3) {
            0 => vec![Node::Raw(gen_soup(s))],
            1 => {
                let mut k = gen_kind(s, Some(kind)).nodes();
                let n = s.range(1, 2);
                for _ in 0..n {
                    mutate_tree(s, &mut k[0]);
                }
                k
            }
            _ => {
                let mut b = enc_all(&gen_kind(s, Some(kind)).nodes());
                mutate_bytes(s, &mut b);
                vec![Node::Raw(b)]
            }
        }
    };
    let mut exts = Vec::new();
    let n = s.range(1, 3);
    for _ in 0..n {
        let kind = s.usize_below(6);
        let o = [SKI_, KU_, SAN_, BC_, EKU_, ROLE_][kind];
        let c = inner(s, kind);
        exts.push(seq(vec![oid(o), Node::Cons(0x04, c)]));
    }
    let mut issuer = seq(name_nodes(&m.issuer));
    if s.flip() {
        mutate_tree(s, &mut issuer);
    }
    let subject = seq(vec![Node::Raw(gen_soup(s))]);
    let b = m.node_with(issuer, subject, Some(seq(exts))).enc();
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let ok = exercise(&b, true)?;
    ctx.class(if ok > 1 { "something inside decodes" } else { "nothing inside decodes" });
    Ok(())
}
use crate::refx509::{BC as BC_, EKU as EKU_, KU as KU_, ROLE as ROLE_, SAN as SAN_, SKI as SKI_};

/// nested constructed elements, built without recursion: `tags` outermost first
pub fn nest(tags: &[u8], core: &[u8]) -> Vec<u8> {
    let mut rev: Vec<u8> = core.iter().rev().copied().collect();
    let mut hdr = Vec::new();
    for t in tags.iter().rev() {
        hdr.clear();
        der_len(rev.len(), &mut hdr);
        rev.extend(hdr.iter().rev());
        rev.push(*t);
    }
    rev.reverse();
    rev
}
pub fn gen_deep(s: &mut Src, max: u64) -> (Vec<u8>, u64) {
    let depth = match s.below(4) {
        _ if s.steer(8) => s.mined_int(max - 1) + 1,
        0 => s.range(1, 300),
        1 => s.range(1, 5000),
        2 => s.range(1, max),
        _ => max,
    };
    let pat: Vec<u8> = {
        let n = s.range(1, 4);
        (0..n).map(|_| *s.pick(&[0x30u8, 0x31, 0xA0, 0xA3, 0xBE])).collect()
    };
    let tags: Vec<u8> = (0..depth).map(|i| pat[i as usize % pat.len()]).collect();
    let core = match s.below(3) {
        0 => vec![],
        1 => vec![0x05, 0x00],
        _ => vec![0x02],
    };
    let mut b = nest(&tags, &core);
    match s.below(4) {
        0 => {
            let k = s.usize_below(b.len().min(40));
            let l = b.len() - k;
            b.truncate(l);
        }
        1 => {
            // huge declared lengths all the way down
            b = Vec::new();
            for t in &tags {
                b.extend_from_slice(&[*t, 0x84, 0x7F, 0xFF, 0xFF, 0xFF]);
            }
        }
        _ => {}
    }
    (b, depth)
}
fn c01_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, depth) = gen_deep(s, 400_000);
    ctx.set_input(&b);
    ctx.nontrivial = depth > 100;
    ctx.class(if depth >= 100_000 {
        "depth >= 100000"
    } else if depth >= 1000 {
        "depth >= 1000"
    } else {
        "shallow"
    });
    exercise(&b, false)?;
    // a deep element inside each place of a certificate that takes any content
    if s.flip() && b.len() < 1_000_000 {
        let m = MCertMin::default();
        let mut m2 = m.build();
        m2.sig.params = Some(Node::Raw(b.clone()));
        let c = m2.node_with(seq(vec![Node::Raw(b.clone())]), seq(vec![]), Some(Node::Raw(b))).enc();
        exercise(&c, false)?;
    }
    Ok(())
}

/// one field or element of some type with up to 4 MiB of content
fn c01_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = s.range(8, 22);
    let n = match s.below(4) {
        0 => s.range(1 << (k - 1), 1 << k),
        _ => ((1u64 << k) + s.below(5)).saturating_sub(2),
    } as usize;
    let tag = *s.pick(&[0x01u8, 0x02, 0x03, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xA0, 0x85]);
    let c = match tag {
        0x03 => bits(s.below(8) as u8, &vec![s.byte(); n]),
        0x06 => vec![s.below(256) as u8; n],
        0x0C | 0x13 | 0x16 | 0x17 | 0x18 if !s.chance(1, 4) => match s.below(3) {
            0 => vec![b'0' + s.below(10) as u8; n],
            1 => "\u{e9}".repeat(n / 2).into_bytes(),
            _ => "a\u{10000}".repeat(n / 5).into_bytes(),
        },
        _ => vec![s.byte(); n],
    };
    let plain = tlv(tag, &c);
    let m = MCertMin::default();
    let b = match s.below(8) {
        0 => {
            let mut m = m.build();
            m.serial = c;
            m.node().enc()
        }
        1 => {
            let mut m = m.build();
            m.sig.params = Some(Node::Leaf(tag, c));
            m.node().enc()
        }
        2 => {
            let mut m = m.build();
            m.key = (0, c);
            m.node().enc()
        }
        3 => {
            let a = seq(vec![oid(&[2, 5, 4, 3]), Node::Raw(plain)]);
            m.build().node_with(seq(vec![set(vec![a])]), seq(vec![]), None).enc()
        }
        4 => {
            let o = *s.pick(&[SKI_, KU_, SAN_, BC_, EKU_, ROLE_, &[1, 2, 3, 4]]);
            enc_all(&[oid(o), Node::Leaf(0x04, plain)])
        }
        5 => {
            // inside a list, as an alternative name, path length or purpose
            let o = *s.pick(&[SAN_, BC_, EKU_]);
            let t = if o == SAN_ { *s.pick(&[0x81u8, 0x82, 0x86, 0x87, 0x88]) } else { tag };
            enc_all(&[oid(o), Node::Leaf(0x04, tlv(0x30, &tlv(t, &c)))])
        }
        _ => plain,
    };
    ctx.set_input(&b[..b.len().min(400)]);
    ctx.note = format!("{} octets, the field has tag {:02x} and {} octets", b.len(), tag, n);
    ctx.nontrivial = true;
    ctx.class(if n >= 1 << 20 {
        "1 MiB or more"
    } else if n >= 1 << 16 {
        "64 KiB or more"
    } else {
        "small"
    });
    exercise(&b, n < 200_000)?;
    Ok(())
}

/// lists of up to 200 000 members: elements, arcs, extensions, names, purposes
fn c01_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = s.below(10);
    let k = s.range(6, 17);
    let n = s.range(1 << k, (3 << k) / 2) as usize;
    let b = if kind == 2 && s.flip() {
        // one extension of any kind, over and over
        let e = loop {
            let e = crate::gen::gen_ext(s, None).node().enc();
            if e.len() < 100 {
                break e;
            }
        };
        let l: Vec<u8> = e.iter().copied().cycle().take(e.len() * n).collect();
        ctx.class("wide: extensions");
        crate::props_x509::carrier(&[], &[], Some(&tlv(0x30, &l)))
    } else {
        crate::props_sys::wide_input(s, ctx, kind, n)
    };
    ctx.set_input(&b[..b.len().min(400)]);
    ctx.note = format!("{} octets, {} members", b.len(), n);
    ctx.nontrivial = true;
    exercise(&b, b.len() < 1_500_000)?;
    Ok(())
}

/// smallest certificate model
#[derive(Default)]
pub struct MCertMin;
impl MCertMin {
    pub fn build(&self) -> MCert {
        let alg = MAlg { oid: vec![1, 3, 101, 112], params: None };
        let t = Tm { gen: false, y: 2020, mo: 1, d: 1, h: 0, mi: 0, s: 0 };
        MCert {
            version: Some(2),
            serial: vec![1],
            sig: alg.clone(),
            issuer: vec![],
            nb: t,
            na: t,
            subject: vec![],
            spki_alg: alg.clone(),
            key: (0, vec![1]),
            iuid: None,
            suid: None,
            exts: None,
            outer: alg,
            signature: (0, vec![2]),
        }
    }
}

// ------------------------------------------------------------------ C02

/// every input of one, two and three octets: one case per first octet
fn c02_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    let mut acc = 0;
    acc += walk_diff_quiet(&[a])? as u64;
    for b in 0..=255u8 {
        acc += walk_diff_quiet(&[a, b])? as u64;
        for c in 0..=255u8 {
            acc += walk_diff_quiet(&[a, b, c])? as u64;
        }
    }
    ctx.evals = 1 + 256 + 65536;
    ctx.extra_nontrivial = acc;
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// first octet x second octet (length form), with enough content for small lengths
fn c02_forms(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    for l in 0..=255u8 {
        for fill in [0x00u8, 0x01, 0x30, 0x7F, 0x80, 0xFF] {
            for avail in [0usize, 1, 3, 127, 128, 129, 260] {
                let mut v = vec![a, l];
                v.resize(2 + avail, fill);
                let ok = walk_diff_quiet(&v)?;
                ctx.evals += 1;
                // up to three octets are counted by the exhaustive sub-check
                ctx.extra_nontrivial += (ok && avail >= 2) as u64;
            }
        }
    }
    ctx.set_input(&[a]);
    ctx.class("exhaustive");
    Ok(())
}
fn len_octets(form: u64, v: u64) -> Vec<u8> {
    if form == 0 {
        vec![(v & 0x7F) as u8]
    } else {
        let be = v.to_be_bytes();
        let k = form as usize;
        let mut r = vec![0x80 | k as u8];
        if k <= 8 {
            r.extend_from_slice(&be[8 - k..]);
        } else {
            r.extend(std::iter::repeat(0).take(k - 8));
            r.extend_from_slice(&be);
        }
        r
    }
}
/// sizes of a huge element: around every power of two from 2^16 to 2^32, and others
pub fn gen_huge(s: &mut Src) -> u64 {
    let max = u32::MAX as u64;
    match s.weighted(&[6, 3, 1]) {
        0 => {
            let k = s.range(16, 32);
            let d = s.below(9);
            ((1u64 << k) + d).saturating_sub(4).min(max)
        }
        1 => {
            let k = s.range(17, 32);
            s.below(1 << k)
        }
        _ => s.mined_int(max),
    }
}
/// elements of up to 2^32-1 octets, alone or inside others; the octets are
/// zeros that are never touched
fn c02_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_huge(s);
    let tag = *s.pick(&[0x04u8, 0x03]);
    let n = if tag == 3 { n.max(1) } else { n };
    let pre = if s.flip() { vec![0x05u8, 0x00] } else { vec![] };
    let post = if s.flip() { vec![0x01u8, 0x01, 0xFF] } else { vec![] };
    let mut head = vec![tag];
    der_len(n as usize, &mut head);
    let mut total = n + (pre.len() + head.len() + post.len()) as u64;
    let mut front = [&pre[..], &head[..]].concat();
    let mut levels: Vec<(u8, u64)> = Vec::new();
    for _ in 0..s.below(3) {
        if total <= u32::MAX as u64 {
            let t = *s.pick(&[0x30u8, 0x31, 0xA2]);
            let mut h = vec![t];
            der_len(total as usize, &mut h);
            levels.insert(0, (t, total));
            total += h.len() as u64;
            front = [h, front].concat();
        }
    }
    // now and then an octet or more is missing at the end
    let missing = if s.chance(1, 4) { {
        let k = s.below(24);
        1 + s.below(total.min(1 << k))
    } } else { 0 };
    let have = (total - missing) as usize;
    ctx.set_input(&[&front[..], &(have as u64).to_be_bytes()].concat());
    ctx.note = format!("{} octets: {} then zeros", have, hex_short(&front));
    ctx.nontrivial = true;
    let mut z = match Zeros::new(have) {
        Some(z) => z,
        None => {
            ctx.class("no address space");
            return Ok(());
        }
    };
    let b = z.get();
    let f = front.len().min(have);
    b[..f].copy_from_slice(&front[..f]);
    if missing == 0 {
        b[have - post.len()..].copy_from_slice(&post);
    }
    struct H(Vec<(String, usize, usize)>);
    impl ParseHandler for H {
        fn begin_constructed(&mut self) {
            self.0.push(("{".into(), 0, 0))
        }
        fn end_constructed(&mut self) {
            self.0.push(("}".into(), 0, 0))
        }
        fn on_type(&mut self, t: &ASNType) {
            let x = match t {
                ASNType::OctetString(w) => ("octets", w.value),
                ASNType::BitString(w) => ("bits", w.value.octets().unwrap_or(&[])),
                ASNType::Sequence(w) => ("sequence", w.value),
                ASNType::Set(w) => ("set", w.value),
                ASNType::ExplicitTag(w) => ("tagged", w.value.contents),
                ASNType::Boolean(_) => ("boolean", &[][..]),
                ASNType::Null => ("null", &[][..]),
                _ => ("other", &[][..]),
            };
            self.0.push((x.0.into(), x.1.as_ptr() as usize, x.1.len()))
        }
        fn on_error(&mut self, e: &ASNError) {
            self.0.push(("error ".to_string() + &e.to_string(), 0, 0))
        }
    }
    let b = &*b;
    let mut h = H(vec![]);
    let r = guard("walking", || parse_all(b, &mut h).map_err(|e| e.to_string()))?;
    let at = |p: usize| b.as_ptr() as usize + p;
    let tell = |m: String| format!("{} octets, {} missing, element {:02x} of {} octets in {:?}: {}", have, missing, tag, n, levels, m);
    // what is missing may be exactly the last element
    let whole = have == 0 || levels.is_empty() && (missing == post.len() as u64 || have == pre.len());
    if missing > 0 && whole {
        return Ok(());
    }
    if missing > 0 {
        if r.is_ok() {
            return Err(tell("truncated input is accepted".into()));
        }
        ctx.class("truncated");
        return Ok(());
    }
    ctx.class(if n >= 1 << 24 { "four length octets" } else { "fewer length octets" });
    if let Err(e) = &r {
        return Err(tell(format!("rejected: {}", e)));
    }
    // what must be seen
    let mut want: Vec<(String, usize, usize)> = Vec::new();
    let mut p = 0;
    for (t, l) in &levels {
        let mut h = vec![*t];
        der_len(*l as usize, &mut h);
        p += h.len();
        let name = match t {
            0x30 => "sequence",
            0x31 => "set",
            _ => "tagged",
        };
        want.push((name.into(), at(p), *l as usize));
        want.push(("{".into(), 0, 0));
    }
    if !pre.is_empty() {
        want.push(("null".into(), 0, 0));
    }
    p += pre.len() + head.len();
    let skip = (tag == 3) as usize;
    want.push((if tag == 3 { "bits" } else { "octets" }.into(), at(p + skip), n as usize - skip));
    if !post.is_empty() {
        want.push(("boolean".into(), 0, 0));
    }
    for _ in &levels {
        want.push(("}".into(), 0, 0));
    }
    let same = h.0.len() == want.len()
        && h.0.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.2 == w.2 && (g.1 == w.1 || w.1 == 0 || w.2 == 0));
    if !same {
        return Err(tell(format!("events {:?} instead of {:?}", h.0, want)));
    }
    Ok(())
}
/// tag x length form x declared length x available octets, at some nesting level
fn c02_grid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let tag = match s.below(4) {
        0 => s.byte(),
        1 => *s.pick(&[0x04u8, 0x0C, 0x02, 0x03, 0x13, 0x16, 0x06, 0x01, 0x05]),
        2 => *s.pick(&[0x30u8, 0x31]),
        _ => *s.pick(&[0x80u8, 0x9E, 0x9F, 0xA0, 0xA3, 0xBE, 0xBF, 0x1F, 0x3F, 0x5F, 0x7F, 0xDF, 0xFF, 0x24, 0x10, 0x11, 0x00, 0x40, 0xC0, 0x60, 0xE0]),
    };
    let want = match s.weighted(&[6, 3, 1]) {
        0 => s.len(70_000) as u64,
        1 => *s.pick(&[0u64, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537]),
        _ => s.below(300),
    };
    let minimal = if want < 128 {
        0
    } else if want < 256 {
        1
    } else if want < 65536 {
        2
    } else {
        3
    };
    let form = match s.weighted(&[5, 3, 1]) {
        0 => minimal,
        1 => s.below(7),
        _ => *s.pick(&[0u64, 1, 2, 3, 4, 5, 8, 9, 126]),
    };
    let declared = match s.weighted(&[6, 2, 2, 1]) {
        0 => want,
        1 => want + s.range(1, 3),
        2 => want.saturating_sub(s.range(1, 3)),
        _ => *s.pick(&[0xFFFF_FFFFu64, 0x7FFF_FFFF, 0x8000_0000, 0x0100_0000, 0x00FF_FFFF, 0x1_0000, 0xFFFF, 0x100]),
    };
    let mut e = vec![tag];
    if s.chance(1, 40) {
        e.push(*s.pick(&[0x80u8, 0xFF, 0xFE, 0x85, 0x88]));
    } else {
        e.extend_from_slice(&len_octets(form, declared));
    }
    let zero = s.flip();
    let content = if zero { vec![0u8; want as usize] } else { s.bytes(want as usize) };
    e.extend_from_slice(&content);
    if s.chance(1, 3) {
        e.extend_from_slice(&gen_leaf_small(s).enc());
    }
    let levels = s.below(4);
    let mut b = e;
    for _ in 0..levels {
        let t = *s.pick(&[0x30u8, 0x31, 0xA1]);
        let mut pre = if s.chance(1, 3) { gen_leaf_small(s).enc() } else { vec![] };
        pre.extend_from_slice(&b);
        if s.chance(1, 3) {
            let n = gen_leaf_small(s).enc();
            pre.extend_from_slice(&n);
        }
        b = tlv(t, &pre);
    }
    if s.chance(1, 3) {
        // an enclosing element may end before or behind the inner one
        b.extend_from_slice(&gen_leaf_small(s).enc());
    }
    ctx.set_input(&b);
    ctx.nontrivial = true;
    ctx.class(match form {
        0 => "short form",
        1 => "1 length octet",
        2 => "2 length octets",
        3 => "3 length octets",
        4 => "4 length octets",
        _ => "5+ length octets",
    });
    walk_diff(&b, true, ctx)
}
/// sizes around every power of two up to 2^24, exact / one short / one long
fn c02_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(25 * 3);
    let base = 1u64 << (i / 3);
    let n = (base + i % 3).saturating_sub(1);
    for form in 0..=5u64 {
        if form == 0 && n > 127 || form > 0 && form < 8 && n >= 1 << (8 * form) {
            continue;
        }
        for delta in [-1i64, 0, 1] {
            let avail = n as i64 + delta;
            if avail < 0 {
                continue;
            }
            for tag in [0x04u8, 0x0C] {
                let mut v = vec![tag];
                v.extend_from_slice(&len_octets(form, n));
                v.resize(v.len() + avail as usize, 0x00);
                ctx.evals += 1;
                ctx.extra_nontrivial += walk_diff_quiet(&v)? as u64;
            }
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&n.to_be_bytes());
    Ok(())
}
/// declared length sweep: every declared length 0..=1100 in every form, with exact content
fn c02_lensweep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.below(1200);
    for form in 0..=4u64 {
        if form == 0 && n > 127 || form > 0 && n >= 1 << (8 * form) {
            continue;
        }
        for delta in [-1i64, 0, 1] {
            let avail = n as i64 + delta;
            if avail < 0 {
                continue;
            }
            for tag in [0x04u8, 0x13, 0x30, 0x9Eu8] {
                let mut v = vec![tag];
                v.extend_from_slice(&len_octets(form, n));
                v.resize(v.len() + avail as usize, 0x05);
                ctx.evals += 1;
                ctx.extra_nontrivial += walk_diff_quiet(&v)? as u64;
                // the same inside a SEQUENCE followed by a NULL
                let mut w = tlv(0x30, &v);
                w.extend_from_slice(&[0x05, 0x00]);
                ctx.evals += 1;
                ctx.extra_nontrivial += walk_diff_quiet(&w)? as u64;
            }
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&n.to_be_bytes());
    Ok(())
}
fn c02_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = Node::Cons(0x30, gen_forest(s));
    let k = s.below(3);
    for _ in 0..k {
        let c = mutate_tree(s, &mut f);
        ctx.class(c);
    }
    let mut b = f.enc();
    if s.flip() {
        let c = mutate_bytes(s, &mut b);
        ctx.class(c);
    }
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 4;
    walk_diff(&b, true, ctx)
}
fn c02_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen_soup(s);
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 4;
    walk_diff(&b, true, ctx)
}

// ------------------------------------------------------------------ C03

/// every content of up to two octets of every primitive type
fn c03_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    for tag in LEAF_TAGS {
        if a == 0 {
            ctx.evals += 1;
            ctx.extra_nontrivial += walk_diff_quiet(&[tag, 0])? as u64;
        }
        ctx.evals += 1;
        ctx.extra_nontrivial += walk_diff_quiet(&[tag, 1, a])? as u64;
        for b in 0..=255u8 {
            ctx.evals += 1;
            ctx.extra_nontrivial += walk_diff_quiet(&[tag, 2, a, b])? as u64;
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// every three-octet content of bit strings and text (UTF-8 boundary cases)
fn c03_exh3(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    for tag in [0x03u8, 0x0C] {
        for b in 0..=255u8 {
            for c in 0..=255u8 {
                ctx.evals += 1;
                ctx.extra_nontrivial += walk_diff_quiet(&[tag, 3, a, b, c])? as u64;
            }
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
fn c03_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_leaf(s);
    let mut b = n.enc();
    if s.flip() {
        b.extend_from_slice(&gen_leaf_small(s).enc());
    }
    ctx.class(match &n {
        Node::Leaf(t, _) => tag_name(*t),
        _ => "",
    });
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 2;
    walk_diff(&b, true, ctx)
}
pub fn tag_name(t: u8) -> &'static str {
    match t {
        0x01 => "boolean",
        0x02 => "integer",
        0x03 => "bit string",
        0x04 => "octet string",
        0x05 => "null",
        0x06 => "oid",
        0x0C => "utf8",
        0x13 => "printable",
        0x16 => "ia5",
        0x17 => "utc time",
        0x18 => "generalized time",
        0x30 => "sequence",
        0x31 => "set",
        _ => "other",
    }
}
fn c03_invalid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let tag = *s.pick(&LEAF_TAGS);
    let mut c = match gen_leaf_of(s, tag) {
        Node::Leaf(_, c) => c,
        _ => unreachable!(),
    };
    let k = s.range(1, 2);
    for _ in 0..k {
        mutate_bytes(s, &mut c);
    }
    ctx.class(tag_name(tag));
    let b = tlv(tag, &c);
    ctx.set_input(&b);
    ctx.nontrivial = true;
    walk_diff(&b, true, ctx)
}
/// text with multi-octet sequences cut, swapped or overlong
fn c03_utf8(s: &mut Src, ctx: &mut Ctx) -> Res {
    let tag = *s.pick(&[0x0Cu8, 0x0C, 0x13, 0x16]);
    let n = s.range(0, 8);
    let mut c: Vec<u8> = Vec::new();
    for _ in 0..n {
        match s.below(6) {
            0 => c.push(s.range(0x20, 0x7E) as u8),
            1 => {
                let x = gen_utf8(s);
                c.extend_from_slice(x.as_bytes())
            }
            2 => c.extend_from_slice(&[s.range(0xC0, 0xDF) as u8, s.range(0x80, 0xBF) as u8]),
            3 => c.extend_from_slice(&[s.range(0xE0, 0xEF) as u8, s.range(0x80, 0xBF) as u8, s.range(0x80, 0xBF) as u8]),
            4 => c.extend_from_slice(&[
                s.range(0xF0, 0xF7) as u8,
                s.range(0x80, 0xBF) as u8,
                s.range(0x80, 0xBF) as u8,
                s.range(0x80, 0xBF) as u8,
            ]),
            _ => c.push(s.byte()),
        }
    }
    if s.chance(1, 4) && !c.is_empty() {
        let l = s.usize_below(c.len());
        c.truncate(l);
    }
    let b = tlv(tag, &c);
    ctx.class(if std::str::from_utf8(&c).is_ok() { "valid UTF-8" } else { "invalid UTF-8" });
    ctx.set_input(&b);
    ctx.nontrivial = c.iter().any(|x| *x >= 0x80);
    walk_diff(&b, true, ctx)
}

// ------------------------------------------------------------------ C04

fn tree_classes(f: &[Node], ctx: &mut Ctx) {
    fn depth(n: &Node) -> usize {
        match n {
            Node::Cons(_, k) => 1 + k.iter().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn any_empty(n: &Node) -> bool {
        matches!(n, Node::Cons(_, k) if k.is_empty() || k.iter().any(any_empty))
    }
    let d = f.iter().map(depth).max().unwrap_or(0);
    ctx.class(match d {
        0 => "flat",
        1 | 2 => "depth 1-2",
        _ => "depth 3+",
    });
    if f.iter().any(any_empty) {
        ctx.class("empty constructed element");
    }
    ctx.nontrivial = d >= 2;
}
fn c04_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_forest(s);
    tree_classes(&f, ctx);
    let b = enc_all(&f);
    ctx.set_input(&b);
    walk_diff(&b, false, ctx)
}
fn c04_fault(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = Node::Cons(0x30, gen_forest(s));
    tree_classes(std::slice::from_ref(&f), ctx);
    let c = mutate_tree(s, &mut f);
    ctx.class(c);
    let mut b = f.enc();
    match s.below(3) {
        0 => {
            let k = s.usize_below(b.len() + 1);
            b.truncate(k);
            ctx.class("truncate");
        }
        1 => {
            let c = mutate_bytes(s, &mut b);
            ctx.class(c);
        }
        _ if s.chance(1, 6) => {
            // a run of one octet after the element, as padding would be
            let x = *s.pick(&[0x00u8, 0x00, 0xFF, 0x20, 0x0A, 0x05]);
            let n = if s.chance(1, 8) { s.range(1, 2000) } else { s.range(1, 40) };
            b.extend(std::iter::repeat(x).take(n as usize));
            ctx.class("padded");
        }
        _ => {}
    }
    ctx.set_input(&b);
    walk_diff(&b, false, ctx)
}
/// every truncation of a small forest
fn c04_cuts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(1, 3);
    let mut budget = 12;
    let f: Vec<Node> = (0..n).map(|_| small_tree(s, 4, &mut budget)).collect();
    tree_classes(&f, ctx);
    let b = enc_all(&f);
    ctx.set_input(&b);
    for k in 0..=b.len() {
        ctx.evals += 1;
        let mut sub = Ctx::default();
        walk_diff(&b[..k], false, &mut sub).map_err(|e| format!("first {} octets: {}", k, e))?;
    }
    Ok(())
}
pub fn small_tree(s: &mut Src, depth: u32, budget: &mut i64) -> Node {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || s.below(5) < 2 {
        return gen_leaf_small(s);
    }
    let tag = match s.below(3) {
        0 => 0x30,
        1 => 0x31,
        _ => gen_ctx_tag(s),
    };
    let n = s.below(4);
    let mut k = Vec::new();
    for _ in 0..n {
        if *budget > 0 {
            k.push(small_tree(s, depth - 1, budget));
        }
    }
    Node::Cons(tag, k)
}
fn strip(w: &[WEv]) -> Vec<String> {
    w.iter()
        .map(|e| match e {
            WEv::Type(_, t) => format!("type {}", t),
            WEv::Begin => "begin".into(),
            WEv::End => "end".into(),
            WEv::Error(d, _) => format!("error {}", d),
        })
        .collect()
}
/// concatenation and wrapping act on the event stream as they do on the bytes
fn c04_meta(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fa = gen_forest(s);
    let fb = gen_forest(s);
    tree_classes(&fa, ctx);
    let a = enc_all(&fa);
    let mut b = enc_all(&fb);
    if s.flip() {
        let c = mutate_bytes(s, &mut b);
        ctx.class(c);
    }
    let tag = match s.below(3) {
        0 => 0x30u8,
        1 => 0x31,
        _ => 0xA0 | s.below(31) as u8,
    };
    let mut ab = a.clone();
    ab.extend_from_slice(&b);
    let wrapped = tlv(tag, &b);
    ctx.set_input(&ab);
    let wa = crate::sut::walk(&a, true)?;
    let wb = crate::sut::walk(&b, true)?;
    let wab = crate::sut::walk(&ab, true)?;
    let ww = crate::sut::walk(&wrapped, true)?;
    if wa.result.is_err() {
        return Err("well-formed input rejected".into());
    }
    let mut want = strip(&wa.evs);
    want.extend(strip(&wb.evs));
    if strip(&wab.evs) != want || wab.result != wb.result {
        return Err("walk of a concatenation is not the concatenation of the walks".into());
    }
    let mut want = vec![
        format!(
            "type {}",
            match tag {
                0x30 => "Sequence".to_string(),
                0x31 => "Set".to_string(),
                t => format!("[{}]", t & 0x1F),
            }
        ),
        "begin".to_string(),
    ];
    want.extend(strip(&wb.evs));
    if wb.result.is_ok() {
        want.push("end".into());
    }
    if strip(&ww.evs) != want || ww.result != wb.result {
        return Err("walk of a wrapped input is not the wrapped walk".into());
    }
    Ok(())
}
/// wide and moderately deep inputs: counts of opens, closes and elements
fn c04_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = if s.flip() {
        let (b, d) = gen_deep(s, 20_000);
        ctx.class(if d > 1000 { "depth > 1000" } else { "depth <= 1000" });
        b
    } else {
        let n = s.range(1, 30_000);
        let mut c = Vec::new();
        let l = gen_leaf_small(s).enc();
        for _ in 0..n {
            c.extend_from_slice(&l);
        }
        ctx.class("wide");
        tlv(0x30, &c)
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    walk_diff(&b, false, ctx)
}

// ------------------------------------------------------------------ C05

fn check_int(b: &[u8]) -> Res {
    let (got, text) = guard("integer conversion", || {
        let i = ASNInteger::new(b);
        (i.as_i32(), i.to_string())
    })?;
    let want = if b.len() <= 4 { int_value(b).map(|v| v as i32) } else { None };
    if got != want {
        return Err(format!("integer {} converts to {:?} instead of {:?}", hex_short(b), got, want));
    }
    if text != int_text(b) {
        return Err(format!("integer {} is shown as {:?} instead of {:?}", hex_short(b), text, int_text(b)));
    }
    Ok(())
}
fn c05_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    check_int(&[a])?;
    for b in 0..=255u8 {
        check_int(&[a, b])?;
        for c in 0..=255u8 {
            let v = [a, b, c];
            // text is checked on a third of them, conversion on all
            let got = ASNInteger::new(&v).as_i32();
            if got.map(|x| x as i64) != int_value(&v) {
                return Err(format!("integer {} converts to {:?}", hex(&v), got));
            }
            if c % 3 == a % 3 {
                check_int(&v)?;
            }
        }
    }
    ctx.evals = 1 + 256 + 65536;
    ctx.extra_nontrivial = ctx.evals;
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// all four-octet integers with this leading pair of octets
fn c05_exh4(s: &mut Src, ctx: &mut Ctx) -> Res {
    let hi = s.below(65536) as u16;
    let h = hi.to_be_bytes();
    let mut v = [h[0], h[1], 0, 0];
    for lo in 0..=65535u16 {
        let l = lo.to_be_bytes();
        v[2] = l[0];
        v[3] = l[1];
        let want = ((hi as u32) << 16 | lo as u32) as i32;
        if ASNInteger::new(&v).as_i32() != Some(want) {
            return Err(format!("integer {} converts to {:?} instead of {}", hex(&v), ASNInteger::new(&v).as_i32(), want));
        }
    }
    ctx.evals = 65536;
    ctx.extra_nontrivial = 65536;
    ctx.class("exhaustive");
    ctx.set_input(&h);
    Ok(())
}
fn c05_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let raw = s.flip();
    let b = if raw {
        // none: only a caller can make that
        let n = s.range(0, 40) as usize;
        s.bytes(n)
    } else {
        gen_int(s)
    };
    ctx.set_input(&b);
    ctx.class(match b.len() {
        0 => "no octets",
        1 => "1 octet",
        2 => "2 octets",
        3 => "3 octets",
        4 => "4 octets",
        5 => "5 octets",
        _ => "6+ octets",
    });
    ctx.nontrivial = b.len() > 1;
    check_int(&b)?;
    // the same through the decoder
    if int_minimal(&b) && !b.is_empty() {
        let e = tlv(0x02, &b);
        let w = crate::sut::walk(&e, true)?;
        match w.evs.first() {
            Some(WEv::Type(Obs::Int(x), t)) if x.bytes == b && *t == format!("Integer: {}", int_text(&b)) => {}
            o => return Err(format!("integer {} decodes to {}", hex_short(&b), short_dbg(&o))),
        }
        let conv = guard("walk", || {
            struct H(Vec<Option<i32>>);
            impl ParseHandler for H {
                fn begin_constructed(&mut self) {}
                fn end_constructed(&mut self) {}
                fn on_type(&mut self, a: &ASNType) {
                    if let ASNType::Integer(i) = a {
                        self.0.push(i.value.as_i32())
                    }
                }
                fn on_error(&mut self, _: &ASNError) {}
            }
            let mut h = H(vec![]);
            let _ = parse_all(&e, &mut h);
            h.0
        })?;
        let want = if b.len() <= 4 { int_value(&b).map(|v| v as i32) } else { None };
        if conv != vec![want] {
            return Err(format!("decoded integer {} converts to {:?} instead of {:?}", hex_short(&b), conv, want));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn check_bs(unused: u8, bytes: &[u8]) -> Res {
    let o = guard("bit string", || obs_bits(&ASNBitString::new(unused, bytes)))?;
    check_bits(&o, unused, bytes).map_err(|e| format!("bit string {} with {} unused: {}", hex_short(bytes), unused, e))
}
fn c06_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    for u in 0..8u8 {
        check_bs(u, &[a])?;
        walk_diff_quiet(&[0x03, 2, u, a])?;
        for b in 0..=255u8 {
            check_bs(u, &[a, b])?;
            walk_diff_quiet(&[0x03, 3, u, a, b])?;
        }
    }
    ctx.evals = 2 * 8 * 257;
    ctx.extra_nontrivial = 8 * 257;
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// octet counts around the powers of two, where a counter may wrap
fn c06_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(19 * 3 * 8);
    let (k, d, u) = (i / 24, (i / 8 % 3) as i64 - 1, (i % 8) as u8);
    let n = ((1i64 << k) + d) as usize;
    if n == 0 && u > 0 {
        return Ok(());
    }
    let mut x = i;
    let mut b: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 56) as u8
        })
        .collect();
    if let Some(l) = b.last_mut() {
        *l &= !(((1u16 << u) - 1) as u8);
    }
    ctx.set_input(&bits(u, &b));
    ctx.nontrivial = n > 2;
    check_bs(u, &b)?;
    walk_diff(&tlv(0x03, &bits(u, &b)), false, ctx)
}
/// long ones are counted and compared bit by bit up to 2^25 bits
fn c06_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(4 * 3 * 2);
    let (k, d, u) = (19 + i / 6, (i / 2 % 3) as i64 - 1, [0u8, 5][(i % 2) as usize]);
    let n = ((1i64 << k) + d) as usize;
    let mut x = i;
    let mut b: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 56) as u8
        })
        .collect();
    if let Some(l) = b.last_mut() {
        *l &= !(((1u16 << u) - 1) as u8);
    }
    ctx.set_input(&i.to_be_bytes());
    ctx.note = format!("{} octets, {} unused bits", n, u);
    ctx.nontrivial = true;
    let want = 8 * n - u as usize;
    guard("bit string", || {
        let bs = ASNBitString::new(u, &b);
        if bs.size() != want {
            return Err(format!("{} octets, {} unused: {} bits", n, u, bs.size()));
        }
        let mut at = 0usize;
        for bit in bs.iter() {
            if at >= want || bit != (b[at / 8] >> (7 - at % 8) & 1 == 1) {
                return Err(format!("{} octets, {} unused: bit {} is {}", n, u, at, bit));
            }
            at += 1;
        }
        if at != want {
            return Err(format!("{} octets, {} unused: {} bits by iteration", n, u, at));
        }
        Ok(())
    })?
}
/// sizes up to 2^32 octets; the octets are zeros that are never touched
fn c06_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (n, u) = (gen_huge(s).max(1) as usize, s.below(8) as u8);
    ctx.set_input(&[&(n as u64).to_be_bytes()[..], &[u]].concat());
    ctx.note = format!("{} octets, {} unused bits", n, u);
    ctx.nontrivial = true;
    let mut z = match Zeros::new(n) {
        Some(z) => z,
        None => {
            ctx.class("no address space");
            return Ok(());
        }
    };
    let b = &*z.get();
    guard("bit string", || {
        let bs = ASNBitString::new(u, b);
        let want = 8 * n as u64 - u as u64;
        if bs.size() as u64 != want {
            return Err(format!("{} octets, {} unused: {} bits", n, u, bs.size()));
        }
        match bs.octets() {
            Some(o) if u == 0 && o.len() == n && o.as_ptr() == b.as_ptr() => {}
            None if u > 0 => {}
            o => return Err(format!("{} octets, {} unused: octets are {:?}", n, u, o.map(|o| o.len()))),
        }
        let mut it = bs.iter();
        for i in 0..100u64.min(want) {
            if it.next() != Some(false) {
                return Err(format!("{} octets, {} unused: bit {} of zeros is not 0", n, u, i));
            }
        }
        let (lo, hi) = it.size_hint();
        let left = want.saturating_sub(100);
        if lo as u64 > left || hi.map_or(false, |h| (h as u64) < left) {
            return Err(format!("{} octets, {} unused: size hint {:?} with {} left", n, u, (lo, hi), left));
        }
        Ok(())
    })?
}
fn c06_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (u, b) = if s.chance(1, 3) {
        let n = s.len(3000);
        let b = s.bytes(n);
        let u = if b.is_empty() { 0 } else { s.below(8) as u8 };
        (u, b)
    } else {
        gen_bits(s, 3000)
    };
    ctx.set_input(&bits(u, &b));
    ctx.class(match u {
        0 => "byte aligned",
        _ => "unused bits",
    });
    ctx.class(match b.len() {
        0 => "empty",
        1..=8 => "1-8 octets",
        _ => "9+ octets",
    });
    ctx.nontrivial = b.len() > 1;
    check_bs(u, &b)?;
    // the same through the decoder (padding bits cleared)
    let mut c = b.clone();
    if let Some(l) = c.last_mut() {
        *l &= !(((1u16 << u) - 1) as u8);
    }
    let mut e = tlv(0x03, &bits(u, &c));
    e.extend_from_slice(&[0x05, 0x00]);
    walk_diff(&e, false, ctx)
}
/// partial iteration: the k-th item is bit k whatever k, and sizes add up
fn c06_skip(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (u, b) = gen_bits(s, 200);
    let n = b.len() * 8 - u as usize;
    ctx.set_input(&bits(u, &b));
    ctx.nontrivial = n > 8;
    let k = s.usize_below(n + 2);
    let (nth, rest) = guard("bit string", || {
        let bs = ASNBitString::new(u, &b);
        let mut it = bs.iter();
        let nth = it.nth(k);
        (nth, it.take(n + 1).count())
    })?;
    let want = if k < n { Some(b[k / 8] >> (7 - k % 8) & 1 == 1) } else { None };
    if nth != want {
        return Err(format!("bit {} of {} bits is {:?} instead of {:?}", k, n, nth, want));
    }
    if rest != n.saturating_sub(k + 1) {
        return Err(format!("{} bits after bit {} of {} bits", rest, k, n));
    }
    Ok(())
}

/// any way to consume the bits agrees with consuming them one by one
fn c06_iter(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (u, b) = gen_bits(s, 40);
    let n = b.len() * 8 - u as usize;
    let all: Vec<bool> = (0..n).map(|i| b[i / 8] >> (7 - i % 8) & 1 == 1).collect();
    ctx.set_input(&bits(u, &b));
    ctx.nontrivial = n > 8;
    let steps: Vec<(u64, usize)> = (0..s.range(1, 8)).map(|_| (s.below(4), if s.chance(1, 8) { s.usize_below(n + 2) } else { s.usize_below(20) })).collect();
    let last = s.below(9);
    let k = s.usize_below(n + 2);
    let mut log: Vec<String> = Vec::new();
    let r = guard("bit string", || -> Res {
        let bs = ASNBitString::new(u, &b);
        let mut it = bs.iter();
        let mut model = all.iter().copied();
        fn hint(it: &impl Iterator<Item = bool>, left: usize) -> Res {
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) {
                return Err(format!("size hint {:?} with {} bits left", (lo, hi), left));
            }
            Ok(())
        }
        for (op, k) in &steps {
            hint(&it, model.len())?;
            let (got, want) = match op {
                0 | 1 => (it.next(), model.next()),
                2 => (it.nth(*k), model.nth(*k)),
                _ => (it.by_ref().take(*k).last(), model.by_ref().take(*k).last()),
            };
            log.push(format!("{} {}", op, k));
            if got != want {
                return Err(format!("{:?} instead of {:?}", got, want));
            }
        }
        hint(&it, model.len())?;
        let (g, w) = match last {
            0 => (vec![it.count()], vec![model.count()]),
            1 => (vec![it.last() as Option<bool>].into_iter().map(|x| x.map_or(2, |x| x as usize)).collect(), vec![model.last().map_or(2, |x| x as usize)]),
            2 => (it.map(|x| x as usize).collect(), model.map(|x| x as usize).collect()),
            3 => (it.skip(k).map(|x| x as usize).collect(), model.skip(k).map(|x| x as usize).collect()),
            4 => (it.step_by(k + 1).map(|x| x as usize).collect(), model.step_by(k + 1).map(|x| x as usize).collect()),
            5 => (vec![it.fold(7, |a: usize, x| a.wrapping_mul(3) ^ x as usize)], vec![model.fold(7, |a: usize, x| a.wrapping_mul(3) ^ x as usize)]),
            6 => (vec![it.position(|x| x).map_or(usize::MAX, |x| x)], vec![model.position(|x| x).map_or(usize::MAX, |x| x)]),
            7 => (vec![it.filter(|x| *x).count()], vec![model.filter(|x| *x).count()]),
            _ => (
                it.enumerate().filter(|(_, x)| *x).map(|(i, _)| i).collect(),
                model.enumerate().filter(|(_, x)| *x).map(|(i, _)| i).collect(),
            ),
        };
        if g != w {
            return Err(format!("finally (way {}): {:?} instead of {:?}", last, g, w));
        }
        // a second iterator starts anew
        if bs.iter().next() != all.first().copied() {
            return Err("a second iterator does not start at the first bit".into());
        }
        Ok(())
    })?;
    r.map_err(|e| format!("{} bits, {} unused: after {:?}: {}", n, u, log, e))
}

// ------------------------------------------------------------------ C07

fn check_oid(arcs: &[u64]) -> Res {
    let e = tlv(0x06, &oid_content(arcs));
    let w = crate::sut::walk(&e, true)?;
    match w.evs.first() {
        Some(WEv::Type(Obs::Oid(g), t)) => {
            if !g.iter().map(|x| *x as u64).eq(arcs.iter().copied()) {
                return Err(format!("OID {} decodes to {:?}", dotted(arcs), g));
            }
            let want = format!("ObjectIdentifier: {}", oid_text(arcs));
            if *t != want {
                return Err(format!("OID {} is shown as {:?} instead of {:?}", dotted(arcs), t, want));
            }
        }
        _ => return Err(format!("OID {} is rejected: {:?}", dotted(arcs), w.result)),
    }
    Ok(())
}
fn c07_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_oid(s);
    ctx.set_input(&oid_content(&a));
    ctx.class(match (a[0], a[1]) {
        (2, x) if x >= 48 => "2.48 and up",
        (2, x) if x >= 40 => "2.40-2.47",
        (2, _) => "2.0-2.39",
        (1, _) => "1.x",
        _ => "0.x",
    });
    if known_oid_name(&a).is_some() {
        ctx.class("known name");
    }
    ctx.nontrivial = a.len() > 2;
    check_oid(&a)
}
fn c07_malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = oid_content(&gen_oid(s));
    match s.below(6) {
        0 => {
            c.truncate(s.usize_below(c.len()));
            ctx.class("cut")
        }
        1 => {
            // a subidentifier of five and more octets
            let k = s.range(4, 9);
            let at = s.usize_below(c.len() + 1);
            let mut g: Vec<u8> = (0..k).map(|_| 0x80 | s.byte()).collect();
            if g[0] == 0x80 {
                g[0] = 0x81;
            }
            g.push(s.below(128) as u8);
            c.splice(at..at, g);
            ctx.class("long subidentifier")
        }
        2 => {
            let l = c.len() - 1;
            c[l] |= 0x80;
            ctx.class("unfinished")
        }
        3 => {
            let n = s.below(6) as usize;
            c = s.bytes(n);
            ctx.class("random")
        }
        4 => {
            // exactly four octets: allowed
            c.extend_from_slice(&[0x81 | s.byte(), 0x80 | s.byte(), 0x80 | s.byte(), s.below(128) as u8]);
            ctx.class("four octets")
        }
        _ => {
            mutate_bytes(s, &mut c);
            ctx.class("mutated")
        }
    }
    let b = tlv(0x06, &c);
    ctx.set_input(&b);
    ctx.nontrivial = c.len() > 1;
    walk_diff(&b, false, ctx)
}
/// all contents of one to three octets
fn c07_exh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = s.below(256) as u8;
    ctx.extra_nontrivial += walk_diff_quiet(&[6, 1, a])? as u64;
    for b in 0..=255u8 {
        ctx.extra_nontrivial += walk_diff_quiet(&[6, 2, a, b])? as u64;
        for c in 0..=255u8 {
            ctx.extra_nontrivial += walk_diff_quiet(&[6, 3, a, b, c])? as u64;
        }
    }
    ctx.evals = 1 + 256 + 65536;
    ctx.class("exhaustive");
    ctx.set_input(&[a]);
    Ok(())
}
/// every known OID and all its one-arc neighbours
fn c07_known(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = KNOWN[s.usize_below(KNOWN.len())];
    check_oid(k)?;
    for n in 2..k.len() {
        check_oid(&k[..n])?;
        ctx.evals += 1;
    }
    for i in 2..k.len() {
        for d in 0..140u64 {
            for v in [d, k[i] + d, k[i].saturating_sub(d)] {
                let mut o = k.to_vec();
                o[i] = v;
                check_oid(&o)?;
                ctx.evals += 1;
            }
        }
    }
    for x in 0..40u64 {
        let mut o = k.to_vec();
        o.push(x);
        check_oid(&o)?;
        let mut o = k.to_vec();
        o[1] = x;
        check_oid(&o)?;
        o[0] = x % 3;
        check_oid(&o)?;
        ctx.evals += 3;
    }
    ctx.extra_nontrivial = ctx.evals;
    ctx.class("exhaustive");
    ctx.set_input(&oid_content(k));
    Ok(())
}
/// single-arc sweep over all first/second arcs and arc values around powers of two
fn c07_arcs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.below(29);
    let p = 1u64 << i;
    for d in 0..130u64 {
        for v in [p + d, p.saturating_sub(d)] {
            if v < 1 << 28 {
                check_oid(&[1, 2, v])?;
                check_oid(&[1, 2, v, 3])?;
                check_oid(&[2, 5, 29, v, v])?;
                ctx.evals += 3;
                if v + 80 < 1 << 28 {
                    check_oid(&[2, v])?;
                    check_oid(&[2, v, 1])?;
                    ctx.evals += 2;
                }
            }
        }
    }
    for x in 0..40 {
        check_oid(&[0, x])?;
        check_oid(&[1, x])?;
        check_oid(&[2, x])?;
        ctx.evals += 3;
    }
    ctx.extra_nontrivial = ctx.evals;
    ctx.class("exhaustive");
    ctx.set_input(&p.to_be_bytes());
    Ok(())
}

// ------------------------------------------------------------------ C08

pub fn check_time(content: &[u8], generalized: bool, want: Option<u64>) -> Res {
    let b = tlv(if generalized { 0x18 } else { 0x17 }, content);
    let w = crate::sut::walk(&b, false)?;
    let got = match w.evs.first() {
        Some(WEv::Type(Obs::Time(t), _)) => Some(*t),
        Some(WEv::Type(Obs::GenTime(t), _)) if generalized => Some(*t),
        Some(WEv::Error(..)) | None => None,
        Some(o) => return Err(format!("time decodes to {}", short_dbg(o))),
    };
    if got != want {
        return Err(format!(
            "{} time {:?} decodes to {:?} instead of {:?}",
            if generalized { "generalized" } else { "UTC" },
            String::from_utf8_lossy(content),
            got,
            want
        ));
    }
    Ok(())
}
/// every day of one year, with varying times of day; and the impossible days
fn c08_year(s: &mut Src, ctx: &mut Ctx) -> Res {
    let y = s.below(10_000);
    let mut day = if y >= 1970 { days_from_civil(y as i64, 1, 1) as u64 } else { 0 };
    for mo in 0..=13u64 {
        let ml = if (1..=12).contains(&mo) { month_len(y, mo) } else { 0 };
        for d in 0..=32u64 {
            let valid = y >= 1970 && (1..=12).contains(&mo) && d >= 1 && d <= ml;
            // invalid combinations only every few years
            if !valid && y >= 1970 && y % 4 != 0 && y % 25 != 0 && d != ml + 1 {
                continue;
            }
            if !valid && y < 1970 && (d > 2 || mo > 2) && y % 7 != 0 {
                continue;
            }
            let k = y * 400 + mo * 32 + d;
            let (h, mi, se) = (k % 24, (k / 3) % 60, (k / 7) % 60);
            let want = if valid { Some(day * 86400 + h * 3600 + mi * 60 + se) } else { None };
            check_time(format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", y, mo, d, h, mi, se).as_bytes(), true, want)?;
            ctx.evals += 1;
            ctx.extra_nontrivial += valid as u64;
            if (1950..=2049).contains(&y) {
                check_time(format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, mo, d, h, mi, se).as_bytes(), false, want)?;
                ctx.evals += 1;
                ctx.extra_nontrivial += valid as u64;
            }
            if valid {
                day += 1;
            }
        }
    }
    if y >= 1970 && day != days_from_civil(y as i64 + 1, 1, 1) as u64 {
        panic!("reference calendar disagrees with itself in {}", y);
    }
    ctx.class("exhaustive");
    ctx.set_input(&y.to_be_bytes());
    Ok(())
}
/// every value 00-99 of every hour/minute/second, one hour value per case
fn c08_clock(s: &mut Src, ctx: &mut Ctx) -> Res {
    let h = s.below(100);
    let y = [1970u64, 1999, 2000, 2024, 2049][h as usize % 5];
    let base = days_from_civil(y as i64, 2, 28) as u64 * 86400;
    for mi in 0..100u64 {
        for se in 0..100u64 {
            if h > 24 && (mi > 3 || se > 3) {
                break;
            }
            let want = if h < 24 && mi < 60 && se < 60 { Some(base + h * 3600 + mi * 60 + se) } else { None };
            check_time(format!("{:04}0228{:02}{:02}{:02}Z", y, h, mi, se).as_bytes(), true, want)?;
            check_time(format!("{:02}0228{:02}{:02}{:02}Z", y % 100, h, mi, se).as_bytes(), false, want)?;
            ctx.evals += 2;
            ctx.extra_nontrivial += 2 * want.is_some() as u64;
        }
    }
    ctx.class("exhaustive");
    ctx.set_input(&h.to_be_bytes());
    Ok(())
}
fn c08_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_time(s);
    let c = t.content();
    ctx.set_input(&c);
    ctx.class(if t.gen { "generalized" } else { "utc" });
    if t.mo == 2 && t.d == 29 {
        ctx.class("29 February");
    }
    ctx.nontrivial = true;
    let secs = t.secs();
    if time_value(&c, t.gen) != Ok(secs) {
        panic!("reference disagrees with the model on {:?}", t);
    }
    check_time(&c, t.gen, Some(secs))
}
fn c08_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_time(s);
    let mut c = t.content();
    let gen = if s.chance(1, 12) { !t.gen } else { t.gen };
    let l = c.len();
    match s.below(9) {
        0 => {
            let i = s.usize_below(l);
            c[i] = *s.pick(b"0123456789Z+-. :/a\x00\xB2\xFF@");
            ctx.class("one character")
        }
        1 => {
            c.truncate(s.usize_below(l));
            ctx.class("cut")
        }
        2 => {
            let n = s.range(1, 4) as usize;
            let e: Vec<u8> = (0..n).map(|_| *s.pick(b"Z0 9\x00+z\n.")).collect();
            c.extend_from_slice(&e);
            ctx.class("trailing")
        }
        3 => {
            // no seconds, offsets, fractions
            c.truncate(l - 1);
            c.extend_from_slice(*s.pick(&[&b"+0000"[..], b"-0100", b".5Z", b".0Z", b",1Z", b"z", b"", b"ZZ", b"+0000Z", b" Z"]));
            ctx.class("other zone form")
        }
        4 => {
            // drop the seconds, or the minutes too
            let k = if s.flip() { 3 } else { 5 };
            c.truncate(l - k);
            c.push(b'Z');
            ctx.class("short form")
        }
        5 => {
            // one two-digit field to any value
            let fields = (l - 1) / 2;
            let f = s.usize_below(fields);
            let v = s.below(100);
            c[2 * f] = b'0' + (v / 10) as u8;
            c[2 * f + 1] = b'0' + (v % 10) as u8;
            ctx.class("one field")
        }
        6 => {
            let i = s.usize_below(l);
            c.remove(i);
            ctx.class("one removed")
        }
        7 => {
            let i = s.usize_below(l);
            let x = *s.pick(b"0123456789Z ");
            c.insert(i, x);
            ctx.class("one inserted")
        }
        _ => {
            let i = s.usize_below(l);
            c[i] = s.byte();
            ctx.class("one byte")
        }
    }
    ctx.set_input(&c);
    ctx.nontrivial = true;
    let want = time_value(&c, gen).ok();
    ctx.class(if want.is_some() { "valid" } else { "invalid" });
    check_time(&c, gen, want)
}

// ------------------------------------------------------------------ C24

fn text_matches(got: &str, v: &Val) -> bool {
    if let Val::Time { generalized: true, secs } = v {
        return ["UTCTime", "GeneralizedTime", "GeneratlizedTime"].iter().any(|p| got == format!("{}: {}", p, secs));
    }
    got == val_text(v)
}
fn c24_text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_forest(s);
    let b = enc_all(&f);
    ctx.set_input(&b);
    ctx.nontrivial = !f.is_empty();
    let (evs, _) = crate::refder::walk(&b);
    let w = crate::sut::walk(&b, true)?;
    for (i, e) in evs.iter().enumerate() {
        if let Ev::Type(v) = e {
            ctx.class(match v {
                Val::Bool(_) => "boolean",
                Val::Int { bytes, .. } if bytes.len() > 4 => "large integer",
                Val::Int { .. } => "small integer",
                Val::Bits { .. } => "bit string",
                Val::Octets { .. } => "octet string",
                Val::Null => "null",
                Val::Oid(a) if known_oid_name(a).is_some() => "known oid",
                Val::Oid(_) => "oid",
                Val::Utf8 { .. } => "utf8",
                Val::Printable { .. } => "printable",
                Val::Ia5 { .. } => "ia5",
                Val::Time { .. } => "time",
                Val::Seq { .. } => "sequence",
                Val::Set { .. } => "set",
                Val::Ctx { .. } => "context tag",
            });
            match w.evs.get(i) {
                Some(WEv::Type(_, t)) if text_matches(t, v) => {}
                o => return Err(format!("element {} is shown as {} instead of {:?}", i, short_dbg(&o), val_text(v))),
            }
        }
    }
    Ok(())
}
fn c24_leaf(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_leaf(s);
    let b = n.enc();
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 2;
    let (evs, _) = crate::refder::walk(&b);
    let w = crate::sut::walk(&b, true)?;
    match (evs.first(), w.evs.first()) {
        (Some(Ev::Type(v)), Some(WEv::Type(_, t))) if text_matches(t, v) => Ok(()),
        (e, o) => Err(format!("{} is shown as {}", short_dbg(&e), short_dbg(&o))),
    }
}

/// an element a caller makes: also with arcs, tags and times that no decoding yields
#[derive(Clone, Debug, PartialEq)]
pub struct Made {
    pub kind: u64,
    pub bytes: Vec<u8>,
    pub text: String,
    pub arcs: Vec<u32>,
    pub num: u64,
}
pub const MADE_KINDS: [&str; 14] = [
    "boolean", "integer", "bit string", "octet string", "null", "oid", "utf8", "printable", "ia5", "time", "sequence", "set", "context tag", "general time",
];
fn made_number(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => s.below(40),
        1 => 1 << s.below(64),
        2 => (1u64 << s.below(64)).wrapping_sub(1),
        _ => u64::from_be_bytes(s.bytes(8).try_into().unwrap_or([0; 8])),
    }
}
pub fn gen_made(s: &mut Src) -> Made {
    let bytes = match s.below(3) {
        0 => {
            let n = s.below(20) as usize;
            s.bytes(n)
        }
        1 => gen_int(s),
        _ => gen_octets(s, 20),
    };
    let text = match gen_text_node(s) {
        Node::Leaf(_, c) | Node::Raw(c) => String::from_utf8_lossy(&c).into_owned(),
        _ => String::new(),
    };
    let mut arcs: Vec<u32> = gen_oid(s).iter().map(|x| *x as u32).collect();
    match s.below(3) {
        0 => {
            let n = s.below(6);
            arcs = (0..n).map(|_| made_number(s) as u32).collect();
        }
        1 if !arcs.is_empty() => {
            let k = s.usize_below(arcs.len());
            match s.below(4) {
                0 => arcs[k] = arcs[k].wrapping_add(1 << s.below(32)),
                1 => arcs.truncate(k),
                2 => arcs.push(made_number(s) as u32),
                _ => {
                    arcs.remove(k);
                }
            }
        }
        _ => {}
    }
    Made { kind: s.below(14), bytes, text, arcs, num: made_number(s) }
}
impl Made {
    pub fn tag(&self) -> u8 {
        self.num as u8
    }
    pub fn element(&self) -> ASNType<'_> {
        let b = &self.bytes[..];
        match self.kind {
            0 => Boolean::asn(self.num & 1 == 1),
            1 => Integer::asn(ASNInteger::new(b)),
            2 => BitString::asn(ASNBitString::new(if b.is_empty() { 0 } else { (self.num % 8) as u8 }, b)),
            3 => OctetString::asn(b),
            4 => ASNType::Null,
            5 => ObjectIdentifier::asn(ASNObjectIdentifier::new(self.arcs.clone())),
            6 => UTF8String::asn(&self.text),
            7 => PrintableString::asn(&self.text),
            8 => IA5String::asn(&self.text),
            9 => UtcTime::asn(self.num),
            10 => Sequence::asn(b),
            11 => rx509::der::Set::asn(b),
            12 => ExplicitTag::asn(ASNExplicitTag::new(self.tag(), b)),
            _ => ASNType::GeneralizedTime(UtcTime { value: self.num }),
        }
    }
}
fn c24_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_made(s);
    let want = match m.kind {
        0 => format!("Boolean: {}", m.num & 1 == 1),
        1 => format!("Integer: {}", int_text(&m.bytes)),
        2 => "BitString".into(),
        3 => "OctetString".into(),
        4 => "Null".into(),
        5 => format!("ObjectIdentifier: {}", oid_text(&m.arcs.iter().map(|x| *x as u64).collect::<Vec<u64>>())),
        6 => format!("UTF8String: {}", m.text),
        7 => format!("PrintableString: {}", m.text),
        8 => format!("IA5String: {}", m.text),
        9 => format!("UTCTime: {}", m.num),
        10 => "Sequence".into(),
        11 => "Set".into(),
        12 => format!("[{}]", m.tag()),
        _ => format!(": {}", m.num),
    };
    ctx.set_input(want.as_bytes());
    ctx.class(MADE_KINDS[m.kind as usize]);
    ctx.nontrivial = m.kind != 4;
    let got = guard("text of a made element", || m.element().to_string())?;
    // how the type of a GeneralizedTime is called is left open
    if got != want && !(m.kind == 13 && got.ends_with(&want) && got.contains("Time")) {
        return Err(format!("a made element is shown as {:?} instead of {:?}", got, want));
    }
    Ok(())
}

// ------------------------------------------------------------------ registry

pub fn sub(name: &'static str, f: CheckFn, quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick: 6 * quick, thorough: 3 * thorough, exhaustive: false }
}
pub fn exh(name: &'static str, f: CheckFn, quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick, thorough, exhaustive: true }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "inputs are random DER-like octets, generated or real certificates with 0-3 structural and byte mutations, certificates with damaged names and extensions, inputs nested up to 400000 deep, fields of up to 4 MiB and lists of up to 200000 members; each is walked, decoded at every layer, converted, formatted and printed. Non-trivial: at least 4 octets (soup), every damaged certificate, nesting over 100 levels",
            assumptions: &["worker threads have the default 2 MiB stack", "a hang without callbacks or allocation would be reported as an error of the check, not as a violation"],
            subs: vec![
                sub("soup", c01_soup, 400_000, 6_000_000),
                sub("cert", c01_cert, 120_000, 2_500_000),
                sub("inner", c01_inner, 120_000, 2_500_000),
                sub("deep", c01_deep, 64, 600),
                sub("large", c01_large, 400, 6_000),
                sub("many", c01_many, 250, 4_000),
            ],
        },
        Prop {
            id: "C02",
            rule: "all inputs of up to 3 octets, all identifier x length octets over fixed fillings, all declared lengths 0-1199 and around powers of two to 2^24 in every length form with content one short/exact/one long, and random tag/form/length/content grids nested up to 3 levels and mutated trees, elements of up to 2^32-1 zero octets nested and truncated; compared with the reference decoder. Non-trivial: enumerated inputs that are accepted; random inputs over 4 octets",
            assumptions: &["the reference decoder states what is claimed; unclaimed encodings end the comparison"],
            subs: vec![
                exh("exhaustive-3-octets", c02_exh, 256, 256),
                exh("identifier-x-length", c02_forms, 256, 256),
                exh("length-sweep", c02_lensweep, 1200, 1200),
                exh("sizes", c02_sizes, 75, 75),
                sub("huge", c02_huge, 4_000, 60_000),
                sub("grid", c02_grid, 250_000, 5_000_000),
                sub("mutated", c02_mutated, 150_000, 3_000_000),
                sub("soup", c02_soup, 300_000, 6_000_000),
            ],
        },
        Prop {
            id: "C03",
            rule: "all contents of up to 2 octets of all 11 primitive types, all 3-octet bit strings and texts, random valid contents, mutated contents and broken UTF-8; compared with the reference. Non-trivial: enumerated inputs that are accepted; random inputs with content",
            assumptions: &["non-minimal integers, non-zero padding bits, padded OIDs and characters outside the declared set carry no accept/reject claim; if accepted, the value must be verbatim"],
            subs: vec![
                exh("exhaustive-2-octets", c03_exh, 256, 256),
                exh("exhaustive-3-octets", c03_exh3, 256, 256),
                sub("valid", c03_valid, 250_000, 5_000_000),
                sub("mutated", c03_invalid, 250_000, 5_000_000),
                sub("utf8", c03_utf8, 200_000, 4_000_000),
            ],
        },
        Prop {
            id: "C04",
            rule: "random forests of up to 60 elements (valid, truncated at every offset, with a fault injected), deep and wide inputs; the callback stream is compared with the reference stream, and concatenation/wrapping of inputs with concatenation/wrapping of streams. Non-trivial: nesting depth of at least 2, or big",
            assumptions: &["context-specific elements are walked as tags around DER content"],
            subs: vec![
                sub("valid", c04_valid, 150_000, 3_000_000),
                sub("fault", c04_fault, 200_000, 4_000_000),
                sub("cuts", c04_cuts, 15_000, 300_000),
                sub("meta", c04_meta, 60_000, 1_200_000),
                sub("big", c04_big, 300, 6_000),
            ],
        },
        Prop {
            id: "C05",
            rule: "all integers of 1-3 octets, (thorough: all) leading pairs of 4-octet integers with every trailing pair, random and boundary integers of up to 40 octets, directly and through the decoder, against two's complement. Non-trivial: more than one octet",
            assumptions: &[],
            subs: vec![
                exh("exhaustive-3-octets", c05_exh, 256, 256),
                exh("exhaustive-4-octets", c05_exh4, 65536, 65536),
                sub("random", c05_random, 400_000, 6_000_000),
            ],
        },
        Prop {
            id: "C06",
            rule: "all bit strings of up to 16 bits (every unused count), random longer ones, directly and through the decoder, ones of every bit up to 2^25 bits, sizes up to 2^32 octets, against a bit-by-bit reference; positional access. Non-trivial: more than one octet",
            assumptions: &[],
            subs: vec![
                exh("exhaustive-2-octets", c06_exh, 256, 256),
                sub("random", c06_random, 120_000, 2_400_000),
                exh("sizes", c06_sizes, 19 * 3 * 8, 19 * 3 * 8),
                exh("long", c06_long, 24, 24),
                sub("huge", c06_huge, 1_000, 20_000),
                sub("positions", c06_skip, 200_000, 4_000_000),
                sub("iterator", c06_iter, 60_000, 2_000_000),
            ],
        },
        Prop {
            id: "C07",
            rule: "all OID contents of 1-3 octets, all known OIDs with their neighbours, arcs around every power of two to 2^28 in every position, random OIDs and malformed contents; arcs and text against an independent encoder/decoder. Non-trivial: more than two arcs (valid), more than one octet (malformed), accepted (enumerated)",
            assumptions: &["subidentifiers padded with a leading 80 octet carry no claim"],
            subs: vec![
                exh("exhaustive-3-octets", c07_exh, 256, 256),
                exh("known", c07_known, 22, 22),
                exh("arcs", c07_arcs, 29, 29),
                sub("valid", c07_valid, 300_000, 6_000_000),
                sub("malformed", c07_malformed, 250_000, 5_000_000),
            ],
        },
        Prop {
            id: "C08",
            rule: "every day of every year 1970-9999 (GeneralizedTime) and 1970-2049 (UTCTime) and impossible days, years 0-1969, every hour/minute/second value 00-99, random instants and mutated strings; against independent civil-date counting. Non-trivial: every valid instant and every mutated string",
            assumptions: &["leap seconds (second 60) are outside the accepted range, as the library documents non-leap seconds"],
            subs: vec![
                exh("every-day", c08_year, 10_000, 10_000),
                exh("clock", c08_clock, 100, 100),
                sub("valid", c08_valid, 200_000, 4_000_000),
                sub("mutated", c08_mutated, 400_000, 8_000_000),
            ],
        },
        Prop {
            id: "C24",
            rule: "random element trees and leaves, decoded, and elements made with the constructors (arcs, tags and times of any size); the text of each element against the reference text. Non-trivial: non-empty content",
            assumptions: &["a GeneralizedTime may be shown under either time type name"],
            subs: vec![sub("trees", c24_text, 120_000, 2_400_000), sub("leaves", c24_leaf, 300_000, 6_000_000), sub("made", c24_made, 100_000, 2_000_000)],
        },
    ]
}
