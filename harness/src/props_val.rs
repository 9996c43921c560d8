//! C26: values of decoded elements as typed values, their comparison, and values
//! built by hand.

use crate::engine::*;
use crate::gen::*;
use crate::props_der::{gen_made, sub, MCertMin, Made};
use crate::refder::*;
use rx509::der::*;
use rx509::x509::Certificate;

/// what an element stands for: type name and value
#[derive(Clone, Debug, PartialEq)]
struct Meaning {
    ty: &'static str,
    val: V,
}
#[derive(Clone, Debug, PartialEq)]
enum V {
    Bool(bool),
    Bytes(Vec<u8>),
    Bits(u8, Vec<u8>),
    Arcs(Vec<u64>),
    Secs(u64),
    Ctx(u8, Vec<u8>),
    Nothing,
}
const TYPES: [&str; 13] = [
    "boolean", "integer", "bit string", "octet string", "identifier", "utf8", "printable", "ia5", "time", "sequence", "set", "context", "null",
];

/// an element of a known meaning
fn gen_meant(s: &mut Src) -> (Node, Meaning) {
    let k = s.below(14);
    let m = |ty, val| Meaning { ty, val };
    match k {
        0 => {
            let b = s.flip();
            (Node::Leaf(1, vec![if b { 0xFF } else { 0 }]), m("boolean", V::Bool(b)))
        }
        1 => {
            let c = gen_int(s);
            (Node::Leaf(2, c.clone()), m("integer", V::Bytes(c)))
        }
        2 => {
            let (u, b) = gen_bits(s, 60);
            (Node::Leaf(3, bits(u, &b)), m("bit string", V::Bits(u, b)))
        }
        3 => {
            let c = gen_octets(s, 60);
            (Node::Leaf(4, c.clone()), m("octet string", V::Bytes(c)))
        }
        4 => (Node::Leaf(5, vec![]), m("null", V::Nothing)),
        5 => {
            let o = gen_oid(s);
            (oid(&o), m("identifier", V::Arcs(o)))
        }
        6 => {
            let t = gen_utf8(s).into_bytes();
            (Node::Leaf(0x0C, t.clone()), m("utf8", V::Bytes(t)))
        }
        7 => {
            let t = gen_printable(s).into_bytes();
            (Node::Leaf(0x13, t.clone()), m("printable", V::Bytes(t)))
        }
        8 => {
            let t = gen_ia5(s).into_bytes();
            (Node::Leaf(0x16, t.clone()), m("ia5", V::Bytes(t)))
        }
        9 | 10 => {
            let t = gen_time(s);
            (t.node(), m("time", V::Secs(t.secs())))
        }
        11 | 12 => {
            let k = gen_forest_small(s);
            let c = enc_all(&k);
            if s.flip() {
                (Node::Cons(0x30, k), m("sequence", V::Bytes(c)))
            } else {
                (Node::Cons(0x31, k), m("set", V::Bytes(c)))
            }
        }
        _ => {
            let n = s.below(31) as u8;
            let k = gen_forest_small(s);
            let c = enc_all(&k);
            (Node::Cons(0xA0 | n, k), m("context", V::Ctx(n, c)))
        }
    }
}
/// a second element: the same, the same content as another type, or near it
fn gen_near(s: &mut Src, n: &Node, m: &Meaning) -> (Node, Meaning) {
    match s.below(4) {
        0 => (n.clone(), m.clone()),
        1 => gen_meant(s),
        2 => {
            // the same octets under another type
            let b = match &m.val {
                V::Bytes(b) | V::Ctx(_, b) => b.clone(),
                V::Bits(0, b) => b.clone(),
                V::Arcs(o) => oid_content(o),
                V::Bool(b) => vec![if *b { 0xFF } else { 0 }],
                V::Nothing => vec![],
                _ => return gen_meant(s),
            };
            let mm = |ty, val| Meaning { ty, val };
            let text = std::str::from_utf8(&b).is_ok();
            let der = matches!(n, Node::Cons(..));
            match s.below(8) {
                0 if text => (Node::Leaf(0x0C, b.clone()), mm("utf8", V::Bytes(b))),
                1 if text && b.iter().all(|c| PRINTABLE.contains(c)) => (Node::Leaf(0x13, b.clone()), mm("printable", V::Bytes(b))),
                2 if b.is_ascii() => (Node::Leaf(0x16, b.clone()), mm("ia5", V::Bytes(b))),
                3 if int_minimal(&b) && !b.is_empty() => (Node::Leaf(2, b.clone()), mm("integer", V::Bytes(b))),
                4 => (Node::Leaf(3, bits(0, &b)), mm("bit string", V::Bits(0, b))),
                5 if der => (Node::Leaf(0x30, b.clone()), mm("sequence", V::Bytes(b))),
                6 if der => (Node::Leaf(0x31, b.clone()), mm("set", V::Bytes(b))),
                7 if der => {
                    let k = s.below(31) as u8;
                    (Node::Leaf(0xA0 | k, b.clone()), mm("context", V::Ctx(k, b)))
                }
                _ => (Node::Leaf(4, b.clone()), mm("octet string", V::Bytes(b))),
            }
        }
        _ => {
            // a little different
            let mut m = m.clone();
            match &mut m.val {
                V::Bool(b) => *b = !*b,
                V::Bytes(b) if m.ty != "sequence" && m.ty != "set" && !b.is_empty() => {
                    let old = b.clone();
                    let i = s.usize_below(b.len());
                    match s.below(3) {
                        0 => {
                            b.pop();
                        }
                        1 => b.push(b'0'),
                        _ => {
                            let ch = if b[i] == b'A' { b'B' } else { b'A' };
                            b[i] = ch
                        }
                    }
                    let ok = match m.ty {
                        "integer" => !b.is_empty() && int_minimal(b),
                        "octet string" => true,
                        "printable" => b.iter().all(|c| PRINTABLE.contains(c)),
                        "ia5" => b.is_ascii(),
                        _ => std::str::from_utf8(b).is_ok(),
                    };
                    if !ok {
                        *b = old;
                    }
                }
                V::Bits(u, b) if !b.is_empty() => match s.below(3) {
                    // the same octets with another count of unused bits
                    0 => {
                        let z = b[b.len() - 1].trailing_zeros().min(7) as u8;
                        *u = s.range(0, z as u64) as u8;
                    }
                    1 => b[0] ^= 0x80,
                    _ => b.insert(0, 0),
                },
                V::Arcs(o) => {
                    let i = o.len() - 1;
                    match s.below(3) {
                        0 if i >= 2 => {
                            o.pop();
                        }
                        1 => o.push(0),
                        _ if i >= 2 => o[i] ^= 1,
                        _ => o.push(1),
                    }
                }
                V::Ctx(n, _) => *n = (*n + 1) % 31,
                V::Secs(_) => return gen_meant(s),
                _ => {}
            }
            let n = match (&m.val, m.ty) {
                (V::Bool(b), _) => Node::Leaf(1, vec![if *b { 0xFF } else { 0 }]),
                (V::Bits(u, b), _) => Node::Leaf(3, bits(*u, b)),
                (V::Arcs(o), _) => oid(o),
                (V::Ctx(k, c), _) => Node::Leaf(0xA0 | k, c.clone()),
                (V::Bytes(b), "integer") => Node::Leaf(2, b.clone()),
                (V::Bytes(b), "octet string") => Node::Leaf(4, b.clone()),
                (V::Bytes(b), "utf8") => Node::Leaf(0x0C, b.clone()),
                (V::Bytes(b), "printable") => Node::Leaf(0x13, b.clone()),
                (V::Bytes(b), "ia5") => Node::Leaf(0x16, b.clone()),
                _ => n.clone(),
            };
            (n, m)
        }
    }
}

/// a certificate whose signature algorithm has this parameter
fn with_param(n: &Node) -> Vec<u8> {
    let mut m = MCertMin.build();
    m.outer.params = Some(n.clone());
    m.node().enc()
}
fn param<'a>(cert: &'a [u8]) -> Result<ASNType<'a>, String> {
    let c = guard("certificate decoding", || Certificate::parse(cert).map_err(|e| e.to_string()))?.map_err(|e| format!("certificate rejected: {}", e))?;
    c.signature_algorithm.parameters.ok_or_else(|| "algorithm parameter lost".to_string())
}

fn bits_of(b: &ASNBitString) -> V {
    // from the observable bits alone
    let n = b.size();
    let mut v = vec![0u8; (n + 7) / 8];
    for (i, x) in b.iter().enumerate().take(n) {
        if x {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    V::Bits((v.len() * 8 - n) as u8, v)
}
fn arcs(o: &ASNObjectIdentifier) -> V {
    V::Arcs(o.values().iter().map(|x| *x as u64).collect())
}
/// the value of `t` taken as each of the types in turn
fn extract(t: ASNType, as_type: &'static str) -> Option<V> {
    let by = |b: &[u8]| V::Bytes(b.to_vec());
    match as_type {
        "boolean" => Boolean::get_value(t).map(V::Bool),
        "integer" => Integer::get_value(t).map(|x| by(x.bytes)),
        "bit string" => BitString::get_value(t).map(|x| bits_of(&x)),
        "octet string" => OctetString::get_value(t).map(by),
        "identifier" => ObjectIdentifier::get_value(t).map(|x| arcs(&x)),
        "utf8" => UTF8String::get_value(t).map(|x| by(x.as_bytes())),
        "printable" => PrintableString::get_value(t).map(|x| by(x.as_bytes())),
        "ia5" => IA5String::get_value(t).map(|x| by(x.as_bytes())),
        "time" => UtcTime::get_value(t).map(|x| V::Secs(x.value)),
        "sequence" => Sequence::get_value(t).map(by),
        "set" => Set::get_value(t).map(by),
        "context" => ExplicitTag::get_value(t).map(|x| V::Ctx(x.value, x.contents.to_vec())),
        _ => match t {
            ASNType::Null => Some(V::Nothing),
            _ => None,
        },
    }
}
fn id_of(ty: &str) -> ASNTypeId {
    match ty {
        "boolean" => Boolean::get_id(),
        "integer" => Integer::get_id(),
        "bit string" => BitString::get_id(),
        "octet string" => OctetString::get_id(),
        "identifier" => ObjectIdentifier::get_id(),
        "utf8" => UTF8String::get_id(),
        "printable" => PrintableString::get_id(),
        "ia5" => IA5String::get_id(),
        "time" => UtcTime::get_id(),
        "sequence" => Sequence::get_id(),
        "set" => Set::get_id(),
        "context" => ExplicitTag::get_id(),
        _ => ASNTypeId::Null,
    }
}
/// the type a decoded GeneralizedTime has is left open
fn gtime(t: &ASNType) -> bool {
    matches!(t, ASNType::GeneralizedTime(_))
}

fn extract_all<'a>(m: &Meaning, again: &dyn Fn() -> Result<ASNType<'a>, String>) -> Res {
    if gtime(&again()?) {
        return Ok(());
    }
    for ty in TYPES {
        let t = again()?;
        let of = t.get_id();
        let same = of == id_of(ty);
        if same != (ty == m.ty) {
            return Err(format!("{:?}: its type {:?} {} that of {}", t, of, if same { "is" } else { "is not" }, ty));
        }
        let shown = format!("{:?}", t);
        let got = guard("typed access", || extract(t, ty))?;
        let want = if ty == m.ty { Some(m.val.clone()) } else { None };
        if got != want {
            return Err(format!("{} taken as {}: {:?} instead of {:?}", shown, ty, got, want));
        }
    }
    Ok(())
}
fn c26_extract(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (n, m) = gen_meant(s);
    ctx.set_input(&n.enc());
    ctx.nontrivial = true;
    ctx.class(m.ty);
    let b = with_param(&n);
    extract_all(&m, &|| param(&b))
}
/// elements of the GeneralizedTime type, which can only be built
fn c26_general(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (n, m) = gen_meant(s);
    let x = match s.below(3) {
        0 => gen_time(s).secs(),
        1 => s.mined_int(u64::MAX),
        _ => s.below(0),
    };
    let y = if s.flip() { x } else { x ^ (1 << s.below(64)) };
    ctx.set_input(&[n.enc(), x.to_be_bytes().to_vec(), y.to_be_bytes().to_vec()].concat());
    ctx.nontrivial = true;
    let make = |v| ASNType::GeneralizedTime(UtcTime { value: v });
    let id = make(x).get_id();
    for ty in TYPES {
        if (make(x) == ASNType::Null) || (id == id_of(ty)) && ty != "time" {
            return Err(format!("a GeneralizedTime at {} is of the type {}", x, ty));
        }
        let got = guard("typed access", || extract(make(x), ty))?;
        let want = if id == id_of(ty) { Some(V::Secs(x)) } else { None };
        if got != want {
            return Err(format!("a GeneralizedTime at {}, of the type {:?}, taken as {}: {:?} instead of {:?}", x, id, ty, got, want));
        }
    }
    let got = guard("comparison", || [make(x) == make(y), make(y) == make(x), !(make(x) != make(y))])?;
    if got != [x == y; 3] {
        return Err(format!("GeneralizedTimes at {} and {} compare as {:?}", x, y, got));
    }
    let text = guard("text", || make(x).to_string())?;
    if !text.ends_with(&format!(": {}", x)) {
        return Err(format!("a GeneralizedTime at {} shows as {:?}", x, text));
    }
    let b = with_param(&n);
    let other = param(&b)?;
    if m.ty != "time" && (other == make(x) || make(x) == other) {
        return Err(format!("{:?} equals a GeneralizedTime at {}", other, x));
    }
    Ok(())
}
/// values made with the public constructors
fn c26_built(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (n, m) = gen_meant(s);
    ctx.set_input(&n.enc());
    ctx.nontrivial = true;
    ctx.class(m.ty);
    let b = with_param(&n);
    let decoded = param(&b)?;
    let text = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
    let (mut bytes, mut st) = (Vec::new(), String::new());
    if let V::Bytes(b) | V::Ctx(_, b) | V::Bits(_, b) = &m.val {
        bytes = b.clone();
        if m.ty == "utf8" || m.ty == "printable" || m.ty == "ia5" {
            st = text(b);
        }
    }
    let make = || -> Result<ASNType, String> {
        Ok(match (&m.val, m.ty) {
            (V::Bool(b), _) => Boolean::asn(*b),
            (_, "integer") => Integer::asn(ASNInteger::new(&bytes)),
            (V::Bits(u, _), _) => BitString::asn(ASNBitString::new(*u, &bytes)),
            (_, "octet string") => OctetString::asn(&bytes),
            (V::Arcs(o), _) => ObjectIdentifier::asn(ASNObjectIdentifier::new(o.iter().map(|x| *x as u32).collect())),
            (_, "utf8") => UTF8String::asn(&st),
            (_, "printable") => PrintableString::asn(&st),
            (_, "ia5") => IA5String::asn(&st),
            (V::Secs(x), _) => UtcTime::asn(*x),
            (_, "sequence") => Sequence::asn(&bytes),
            (_, "set") => Set::asn(&bytes),
            (V::Ctx(k, _), _) => ExplicitTag::asn(ASNExplicitTag::new(*k, &bytes)),
            _ => ASNType::Null,
        })
    };
    extract_all(&m, &make)?;
    let made = make()?;
    if !gtime(&decoded) {
        if made != decoded || decoded != made {
            return Err(format!("built {:?} is not equal to decoded {:?}", made, decoded));
        }
        let (a, b) = guard("text", || (made.to_string(), decoded.to_string()))?;
        if a != b {
            return Err(format!("built element shows {:?}, decoded one {:?}", a, b));
        }
    }
    Ok(())
}
/// made elements, also with values that no decoding yields, compared with nearly equal ones
fn c26_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_made(s);
    let mut b = a.clone();
    match s.below(8) {
        0 => {}
        1 => b.kind = s.below(14),
        2 => b.num ^= 1 << s.below(if a.kind == 12 { 8 } else { 64 }),
        3 if !b.arcs.is_empty() => {
            let k = s.usize_below(b.arcs.len());
            b.arcs[k] ^= 1 << s.below(32);
        }
        4 => {
            b.arcs.push(0);
            b.bytes.insert(0, if s.flip() { 0 } else { 0xFF });
            b.text.push(*s.pick(&[' ', '\0', 'a']));
        }
        5 if !b.bytes.is_empty() => {
            let k = s.usize_below(b.bytes.len());
            b.bytes[k] ^= 1 << s.below(8);
            b.text = if b.text.to_ascii_lowercase() != b.text { b.text.to_ascii_lowercase() } else { b.text.to_ascii_uppercase() };
        }
        6 => {
            b.bytes.pop();
            b.text.pop();
            b.arcs.pop();
        }
        _ => {
            b = gen_made(s);
            b.kind = a.kind;
        }
    }
    // the parts that make the value
    let value = |m: &Made| match m.kind {
        0 => (Vec::new(), String::new(), Vec::new(), m.num & 1),
        1 | 3 | 10 | 11 => (m.bytes.clone(), String::new(), Vec::new(), 0),
        2 => (m.bytes.clone(), String::new(), Vec::new(), if m.bytes.is_empty() { 0 } else { m.num % 8 }),
        4 => (Vec::new(), String::new(), Vec::new(), 0),
        5 => (Vec::new(), String::new(), m.arcs.clone(), 0),
        6..=8 => (Vec::new(), m.text.clone(), Vec::new(), 0),
        12 => (m.bytes.clone(), String::new(), Vec::new(), m.tag() as u64),
        _ => (Vec::new(), String::new(), Vec::new(), m.num),
    };
    // of which type a GeneralizedTime is, is left open, and so are bit strings that
    // differ in unused bits only
    let times = |m: &Made| m.kind == 9 || m.kind == 13;
    if a.kind != b.kind && times(&a) && times(&b) {
        return Ok(());
    }
    let want = a.kind == b.kind && value(&a) == value(&b);
    if a.kind == 2 && b.kind == 2 && !want && a.num % 8 == b.num % 8 && a.bytes.len() == b.bytes.len() && !a.bytes.is_empty() {
        let n = a.bytes.len() - 1;
        if a.bytes[..n] == b.bytes[..n] && (a.bytes[n] ^ b.bytes[n]) >> (a.num % 8) == 0 {
            return Ok(());
        }
    }
    ctx.set_input(format!("{:?} {:?}", a, b).as_bytes());
    ctx.class(if want { "equal" } else if a.kind == b.kind { "same type" } else { "other type" });
    ctx.nontrivial = true;
    #[allow(clippy::nonminimal_bool)]
    let got = guard("comparison", || {
        let (x, y) = (a.element(), b.element());
        [x == y, y == x, !(x != y), !(y != x)]
    })?;
    if got != [want; 4] {
        return Err(format!("made {:?} and {:?} compare as {:?} (==, ==, not !=, not !=) instead of {}", a.element(), b.element(), got, want));
    }
    if a.kind == 9 && b.kind == 9 {
        let t = |m: &Made| UtcTime { value: m.num };
        let got = guard("comparison", || (t(&a).partial_cmp(&t(&b)), t(&a) < t(&b), t(&a) >= t(&b)))?;
        if got != (a.num.partial_cmp(&b.num), a.num < b.num, a.num >= b.num) {
            return Err(format!("times {} and {} compare as {:?}", a.num, b.num, got));
        }
    }
    Ok(())
}
fn c26_equal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (na, ma) = gen_meant(s);
    let (nb, mb) = gen_near(s, &na, &ma);
    ctx.set_input(&[na.enc(), nb.enc()].concat());
    ctx.nontrivial = true;
    let (ba, bb) = (with_param(&na), with_param(&nb));
    let (a, b) = (param(&ba)?, param(&bb)?);
    let want = ma == mb;
    ctx.class(if want { "equal" } else if ma.val == mb.val { "same content, other type" } else { "different" });
    if gtime(&a) || gtime(&b) {
        return Ok(());
    }
    #[allow(clippy::nonminimal_bool)]
    let got = guard("comparison", || [a == b, b == a, !(a != b), !(b != a)])?;
    if got != [want; 4] {
        return Err(format!("{:?} and {:?} compare as {:?} (==, ==, not !=, not !=) instead of {}", a, b, got, want));
    }
    let r = guard("comparison", || a == a && b == b)?;
    if !r {
        return Err(format!("{:?} or {:?} is not equal to itself", a, b));
    }
    if a.get_id() == b.get_id() && ma.ty != mb.ty || a.get_id() != b.get_id() && ma.ty == mb.ty {
        return Err(format!("{:?} and {:?} have types {:?} and {:?}", a, b, a.get_id(), b.get_id()));
    }
    // clones of what can be cloned
    if let (ASNType::ObjectIdentifier(x), ASNType::ObjectIdentifier(y)) = (&a, &b) {
        let c = x.value.clone();
        if c != x.value || (c == y.value) != want || arcs(&c) != ma.val {
            return Err(format!("the clone of {:?} differs", x));
        }
    }
    Ok(())
}
/// times compare as their instants
fn c26_order(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ta = gen_time(s);
    let tb = if s.chance(1, 4) { ta } else { gen_time(s) };
    ctx.set_input(&[ta.content(), tb.content()].concat());
    ctx.nontrivial = true;
    let mut m = MCertMin.build();
    m.nb = ta;
    m.na = tb;
    let b = m.node().enc();
    let c = guard("certificate decoding", || Certificate::parse(&b).map_err(|e| e.to_string()))?.map_err(|e| format!("certificate rejected: {}", e))?;
    let v = &c.tbs_certificate.value.validity;
    let x = s.below(0);
    let mut all = vec![(v.not_before, ta.secs()), (v.not_after, tb.secs())];
    for k in [0, 1, ta.secs() + 1, tb.secs().wrapping_sub(1), x, u64::MAX] {
        all.push((UtcTime::from_seconds_since_epoch(k), k));
        all.push((UtcTime { value: k }, k));
    }
    for (a, sa) in &all {
        for (b, sb) in &all {
            ctx.evals += 1;
            let got = (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b));
            let want = (sa == sb, sa != sb, sa < sb, sa <= sb, sa > sb, sa >= sb, Some(sa.cmp(sb)));
            if got != want {
                return Err(format!("times at {} and {} compare as {:?} instead of {:?}", sa, sb, got, want));
            }
        }
    }
    Ok(())
}
/// errors: the same input gives equal errors, errors that read differently differ
fn c26_errors(s: &mut Src, ctx: &mut Ctx) -> Res {
    struct H;
    impl ParseHandler for H {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, _: &ASNType) {}
        fn on_error(&mut self, _: &ASNError) {}
    }
    let one = |s: &mut Src| {
        let mut n = seq(gen_forest(s));
        mutate_tree(s, &mut n);
        n.enc()
    };
    let a = one(s);
    let b = if s.flip() {
        one(s)
    } else {
        let mut b = a.clone();
        mutate_bytes(s, &mut b);
        b
    };
    ctx.set_input(&[&a[..], &b[..]].concat());
    let walk = |x: &[u8]| guard("walking", || parse_all(x, &mut H));
    let (ra, ra2, rb) = (walk(&a)?, walk(&a.to_vec())?, walk(&b)?);
    if ra != ra2 {
        return Err(format!("{:?} and {:?} for the same input", ra, ra2));
    }
    if let (Err(x), Err(y)) = (&ra, &rb) {
        ctx.nontrivial = true;
        let same = x.to_string() == y.to_string();
        ctx.class(if same { "errors read the same" } else { "errors read differently" });
        if !same && (x == y || y == x) {
            return Err(format!("errors {} and {} are equal", x, y));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "elements of every type, decoded (as an algorithm parameter) and built with the constructors (also with tags, arcs and times that no decoding yields): taken as each type in turn, compared with equal, nearly equal and same-octets-other-type elements, times compared with times, errors with errors; against the meaning drawn by the generator. Non-trivial: every element and pair, pairs of errors",
        assumptions: &["whether a decoded GeneralizedTime is of the UTC time type or of one of its own is left open"],
        subs: vec![
            sub("extract", c26_extract, 100_000, 2_000_000),
            sub("built", c26_built, 100_000, 2_000_000),
            sub("made", c26_made, 100_000, 2_000_000),
            sub("general-time", c26_general, 40_000, 800_000),
            sub("equal", c26_equal, 200_000, 4_000_000),
            sub("order", c26_order, 50_000, 1_000_000),
            sub("errors", c26_errors, 200_000, 4_000_000),
        ],
    }]
}
