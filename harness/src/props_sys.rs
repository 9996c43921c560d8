//! Properties of the system around the decoders: C21 (the tool), C22 (cost),
//! C23 (purity).

use crate::cov;
use crate::engine::*;
use crate::gen::*;
use crate::props_der::*;
use crate::refder::*;
use crate::report::*;
use rx509::der::{parse_all, ASNError, ASNType, ParseHandler};
use rx509::x509::ext::Extension;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::Certificate;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

// ------------------------------------------------------------------ scratch and tool

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
pub fn limit_cpu(secs: u64) {
    unsafe {
        setrlimit(RLIMIT_CPU, &[secs, secs + 5]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

/// one scratch directory per thread, removed when the thread ends
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static SCRATCH: Scratch = {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let base = std::env::var_os("RXPROP_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("rxprop-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    };
}
fn scratch() -> PathBuf {
    SCRATCH.with(|s| s.0.clone())
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

thread_local! {
    /// what the next run of the tool gets at its standard input
    static PIPED: std::cell::RefCell<Option<Vec<u8>>> = const { std::cell::RefCell::new(None) };
}
fn tool(args: &[OsString]) -> Out {
    let bin = std::env::var_os("RXPROP_DECODER").expect("RXPROP_DECODER names the decoder binary");
    let mut c = Command::new(bin);
    let piped = PIPED.with(|p| p.borrow_mut().take());
    c.args(args).current_dir(scratch()).env_remove("RUST_BACKTRACE");
    c.stdin(if piped.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            limit_cpu(20);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("run the decoder");
    let feed = piped.map(|b| {
        let mut to = child.stdin.take().expect("pipe");
        std::thread::spawn(move || {
            use std::io::Write;
            // in pieces, as a pipe gives them
            let k = b.len() / 3 + 1;
            for x in b.chunks(k) {
                if to.write_all(x).and_then(|_| to.flush()).is_err() {
                    break;
                }
            }
        })
    });
    let o = child.wait_with_output().expect("run the decoder");
    if let Some(f) = feed {
        let _ = f.join();
    }
    Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: o.stderr }
}
/// runs the tool; a panic or death by signal is an error
fn run_tool(args: &[OsString]) -> Result<Out, String> {
    let o = tool(args);
    if let Some(s) = o.signal {
        return Err(format!("decoder {:?} killed by signal {}", args, s));
    }
    if o.code == Some(101) {
        return Err(format!("decoder {:?} panicked: {}", args, lossy(&o.stderr)));
    }
    Ok(o)
}
fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    let mut i = s.len().min(300);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    s[..i].to_string()
}
/// first difference of two texts, by line
fn text_diff(got: &[u8], want: &[u8]) -> String {
    let g: Vec<_> = got.split(|b| *b == b'\n').collect();
    let w: Vec<_> = want.split(|b| *b == b'\n').collect();
    for i in 0..g.len().max(w.len()) {
        let a = g.get(i).map(|x| lossy(x));
        let b = w.get(i).map(|x| lossy(x));
        if g.get(i) != w.get(i) {
            return format!("output line {}: {:?} instead of {:?}", i, a, b);
        }
    }
    "no difference".into()
}
pub fn put(name: &OsString, b: &[u8]) -> OsString {
    let p = scratch().join(name);
    std::fs::write(&p, b).expect("write scratch file");
    p.into_os_string()
}
pub fn os(s: &str) -> OsString {
    OsString::from(s)
}

pub fn tool_der(file: OsString, b: &[u8], ctx: &mut Ctx) -> Res {
    let (evs, term) = walk(b);
    let o = run_tool(&[os("--der"), file])?;
    let want = der_mode(&evs);
    match term {
        Term::Done => {
            ctx.class("der mode: accepted");
            if o.stdout != want.as_bytes() {
                return Err(format!("--der: {}", text_diff(&o.stdout, want.as_bytes())));
            }
            if o.code != Some(0) {
                return Err(format!("--der: exit status {:?} for a well-formed file", o.code));
            }
        }
        Term::Rejected(why) => {
            ctx.class("der mode: rejected");
            if !o.stdout.starts_with(want.as_bytes()) {
                return Err(format!("--der (fault: {}): {}", why, text_diff(&o.stdout, want.as_bytes())));
            }
            let rest = lossy(&o.stdout[want.len()..]);
            if !rest.trim_start().starts_with("Error") {
                return Err(format!("--der: fault ({}) not reported where decoding stops: {:?}", why, rest));
            }
            if rest.trim_end().contains('\n') {
                return Err(format!("--der: output after the error report ({}): {:?}", why, rest));
            }
        }
        Term::Unspec(..) => {
            ctx.class("der mode: unspecified");
            if !o.stdout.starts_with(want.as_bytes()) {
                return Err(format!("--der: {}", text_diff(&o.stdout, want.as_bytes())));
            }
        }
    }
    Ok(())
}

fn report_matches(got: &[u8], want: &Lines) -> Result<(), String> {
    let mut pos = 0;
    for (i, (d, t)) in want.iter().enumerate() {
        let indent = "  ".repeat(*d);
        let rest = &got[pos..];
        if t == "**Error**" {
            let w = format!("{}**Error**", indent);
            if !rest.starts_with(w.as_bytes()) {
                return Err(format!("report line {}: {:?} instead of {:?}", i, lossy(rest.split(|b| *b == b'\n').next().unwrap_or(b"")), w));
            }
            pos += rest.iter().position(|b| *b == b'\n').map(|x| x + 1).unwrap_or(rest.len());
            continue;
        }
        let w = format!("{}{}\n", indent, t);
        let w2 = if t.starts_with("Path Length Constraint: ") {
            w.replace("Constraint", "Contraint")
        } else {
            w.clone()
        };
        if rest.starts_with(w.as_bytes()) {
            pos += w.len();
        } else if rest.starts_with(w2.as_bytes()) {
            pos += w2.len();
        } else {
            return Err(format!("report line {}: {:?} instead of {:?}", i, lossy(&rest[..rest.len().min(w.len() + 20)]), w));
        }
    }
    if pos != got.len() {
        return Err(format!("extra output after the report: {:?}", lossy(&got[pos..])));
    }
    Ok(())
}

pub fn tool_certs(file: OsString, b: &[u8], ctx: &mut Ctx) -> Res {
    let v = crate::refx509::cert(b);
    let o = run_tool(&[os("--certs"), file])?;
    match v {
        crate::refx509::Verdict::Ok(r) => match cert_report(b, &r) {
            Some(want) => {
                ctx.class("certs mode: report");
                report_matches(&o.stdout, &want).map_err(|e| format!("--certs: {}", e))?;
                if o.code != Some(0) {
                    return Err(format!("--certs: exit status {:?} for a certificate", o.code));
                }
            }
            None => ctx.class("certs mode: no claim"),
        },
        crate::refx509::Verdict::Rej(why) => {
            ctx.class("certs mode: rejected");
            if !o.stdout.is_empty() && !lossy(&o.stdout).trim_start().starts_with("Error") {
                return Err(format!("--certs: output for a file that is not a certificate ({}): {:?}", why, lossy(&o.stdout)));
            }
            if !lossy(&o.stdout).contains("rror") && !lossy(&o.stderr).contains("rror") {
                return Err(format!("--certs: no error shown for a file that is not a certificate ({})", why));
            }
        }
        crate::refx509::Verdict::Unspec(..) => ctx.class("certs mode: unspecified"),
    }
    Ok(())
}

fn c21_der(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.weighted(&[4, 3, 3, 1]) {
        0 => enc_all(&gen_forest(s)),
        1 => {
            let f = gen_forest(s);
            let mut n = seq(f);
            mutate_tree(s, &mut n);
            n.enc()
        }
        2 => damaged_cert(s, ctx, 2),
        _ => gen_soup(s),
    };
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 2;
    let f = put(&os("in.der"), &b);
    tool_der(f, &b, ctx)
}
fn c21_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, depth) = gen_deep(s, 300);
    let b = if depth > 400 { b[..b.len().min(800)].to_vec() } else { b };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let f = put(&os("deep.der"), &b);
    tool_der(f.clone(), &b, ctx)?;
    tool_certs(f, &b, ctx)
}
/// nesting far beyond what a report can show usefully: the tool must still end
fn c21_abyss(s: &mut Src, ctx: &mut Ctx) -> Res {
    let depth = s.range(1, 1500);
    let b = nest(&vec![0x30; depth as usize], &[]);
    ctx.set_input(&b);
    ctx.nontrivial = depth > 20;
    let f = put(&os("abyss.der"), &b);
    tool_der(f, &b, ctx)
}
fn c21_certs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.weighted(&[3, 1, 2]) {
        0 => gen_cert(s).node().enc(),
        1 => s.pick(crate::corpus::certs_ref()).to_vec(),
        _ => damaged_cert(s, ctx, 2),
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let f = put(&os("cert.der"), &b);
    tool_certs(f, &b, ctx)
}
/// files that are not plain small files
fn c21_kinds(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.below(3) {
        0 => enc_all(&gen_forest(s)),
        1 => gen_cert(s).node().enc(),
        _ => s.pick(crate::corpus::certs_ref()).to_vec(),
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    let certs = s.flip();
    let file = match s.below(3) {
        0 if std::path::Path::new("/dev/stdin").exists() => {
            ctx.class("pipe");
            PIPED.with(|p| *p.borrow_mut() = Some(b.clone()));
            os("/dev/stdin")
        }
        1 => {
            ctx.class("symbolic link");
            let f = put(&os("target"), &b);
            let l = scratch().join("link");
            let _ = std::fs::remove_file(&l);
            std::os::unix::fs::symlink(f, &l).expect("link");
            l.into_os_string()
        }
        _ => {
            ctx.class("read-only file");
            let f = scratch().join("readonly");
            let _ = std::fs::remove_file(&f);
            std::fs::write(&f, &b).expect("write");
            let mut p = std::fs::metadata(&f).expect("metadata").permissions();
            p.set_readonly(true);
            std::fs::set_permissions(&f, p).expect("permissions");
            f.into_os_string()
        }
    };
    if certs {
        tool_certs(file, &b, ctx)
    } else {
        tool_der(file, &b, ctx)
    }
}
/// files of 64 KiB to 4 MiB
fn c21_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = match s.below(3) {
        0 => s.range(1 << 16, 1 << 18),
        1 => s.range(1 << 18, 1 << 20),
        _ => s.range(1 << 20, 1 << 22),
    } as usize;
    let wide = s.flip();
    let mut one = gen_leaf_small(s).enc();
    if one.len() < 20 {
        one = Node::Leaf(4, vec![s.byte(); 200]).enc();
    }
    let filler = if wide {
        let n = (k / one.len()).min(20_000);
        one.iter().copied().cycle().take(n * one.len()).collect()
    } else {
        tlv(0x04, &s.bytes(k))
    };
    ctx.class(if wide { "big: many elements" } else { "big: one element" });
    ctx.nontrivial = true;
    if s.flip() {
        let mut m = gen_cert(s);
        m.version = Some(2);
        m.signature = (0, filler);
        let b = m.node().enc();
        ctx.set_input(&b);
        let f = put(&os("big.der"), &b);
        tool_certs(f, &b, ctx)
    } else {
        let mut b = filler;
        b.extend_from_slice(&enc_all(&gen_forest_small(s)));
        ctx.set_input(&b);
        let f = put(&os("big.der"), &b);
        tool_der(f, &b, ctx)
    }
}
/// file names and argument lists
fn c21_usage(s: &mut Src, ctx: &mut Ctx) -> Res {
    let good = if s.flip() {
        s.pick(crate::corpus::certs_ref()).to_vec()
    } else {
        enc_all(&gen_forest_small(s))
    };
    ctx.set_input(&good);
    ctx.nontrivial = true;
    let name = match s.below(6) {
        0 => os("plain"),
        1 => os("with space and 'quotes'"),
        2 => os("-"),
        3 => os("--der"),
        4 => os("\u{fc}ml\u{e4}ut"),
        _ => {
            let n = s.range(1, 6);
            OsString::from_vec(
                (0..n)
                    .map(|_| match s.byte() {
                        0 | b'/' | b'.' => 0xFE,
                        x => x,
                    })
                    .collect(),
            )
        }
    };
    let relative = s.flip();
    let full = put(&name, &good);
    let file = if relative { name.clone() } else { full.clone() };
    let fail = |args: &[OsString], ctx: &mut Ctx, what: &'static str| -> Res {
        ctx.class(what);
        ctx.note = format!("arguments {:?}", args);
        let o = run_tool(args)?;
        if o.code == Some(0) {
            return Err(format!("{}: exit status 0 for arguments {:?}", what, args));
        }
        if !o.stdout.is_empty() {
            return Err(format!("{}: output {:?} for arguments {:?}", what, lossy(&o.stdout), args));
        }
        Ok(())
    };
    let mode = if s.flip() { "--certs" } else { "--der" };
    let r = match s.below(8) {
        0 => {
            ctx.class("odd file name, --der");
            tool_der(file.clone(), &good, ctx)
        }
        1 => {
            ctx.class("odd file name, --certs");
            tool_certs(file.clone(), &good, ctx)
        }
        2 => {
            let mut p = full.clone();
            p.push(".missing");
            fail(&[os(mode), p], ctx, "missing file")
        }
        3 => fail(&[os(mode), scratch().into_os_string()], ctx, "directory"),
        4 => {
            let flags = ["", "-der", "--DER", "--cert", "--der ", "--certs=", "-", "--", "--help", "-h", "--d", "der", "certs", "--ders"];
            let f = if s.steer(3) { s.mined_text() } else { s.pick(&flags).to_string() };
            if f == "--der" || f == "--certs" || f.contains('\0') {
                return Ok(());
            }
            fail(&[os(&f), file.clone()], ctx, "unknown flag")
        }
        5 => {
            let mut f = s.pick(&["--der", "--certs", ""]).as_bytes().to_vec();
            f.push(0xFF);
            fail(&[OsString::from_vec(f), file.clone()], ctx, "unknown flag, not UTF-8")
        }
        6 => {
            let few = [vec![], vec![os(mode)], vec![file.clone()]];
            let i = s.usize_below(3);
            fail(&few[i], ctx, "too few arguments")
        }
        _ => {
            let mut a = vec![os(mode), file.clone()];
            let n = s.range(1, 3);
            for _ in 0..n {
                let x = match s.below(4) {
                    0 => os("--der"),
                    1 => os("--certs"),
                    2 => file.clone(),
                    _ => os(""),
                };
                let at = s.usize_below(a.len() + 1);
                a.insert(at, x);
            }
            fail(&a, ctx, "too many arguments")
        }
    };
    let _ = std::fs::remove_file(&full);
    r
}

// ------------------------------------------------------------------ C22

struct NoAlloc {
    n: u64,
    cap: u64,
}
impl ParseHandler for NoAlloc {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {
        self.n += 1;
        if self.n > self.cap {
            panic!("the walk reports more than one element per two input octets");
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}

/// bytes of heap allowed per input octet, and in any case
const PER_OCTET: u64 = 256;
const FLAT: u64 = 8192;
/// steps allowed per input octet, and in any case
const STEPS: u64 = 400;
const FLAT_STEPS: u64 = 20_000;
/// CPU nanoseconds: what is spent inside the standard library shows here only
const NS: u64 = 4_000;
const FLAT_NS: u64 = 200_000_000;
/// CPU time of this thread
fn thread_cpu() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// A step is an edge of the code under test (as compiled here) or an octet
/// allocated, freed since or not.
fn steps(what: &str, input: &[u8], f: impl Fn()) -> Res {
    let allowed = STEPS * input.len() as u64 + FLAT_STEPS;
    let start = thread_cpu();
    let ((r, _, moved), n) = cov::work(|| measure(|| guard(what, &f)));
    let took = thread_cpu() - start;
    r?;
    if n > allowed {
        return Err(format!("{} of {} octets took {} steps (allowed: {})", what, input.len(), n, allowed));
    }
    if moved > allowed {
        return Err(format!("{} of {} octets allocated {} bytes in all (allowed: {})", what, input.len(), moved, allowed));
    }
    let slow = NS * input.len() as u64 + FLAT_NS;
    if took > slow {
        // seen in none of several further runs, it was not the code
        let again = || {
            let start = thread_cpu();
            let _ = guard(what, &f);
            thread_cpu() - start
        };
        let times = if took > slow + 2_000_000_000 { 2 } else { 7 };
        if (0..times).all(|_| again() > slow) {
            return Err(format!("{} of {} octets takes more than {} ms", what, input.len(), slow / 1_000_000));
        }
    }
    Ok(())
}
fn cost(what: &str, input: &[u8], f: impl Fn()) -> Res {
    let allowed = PER_OCTET * input.len() as u64 + FLAT;
    let (r, peak, _) = measure(|| with_cap(1 << 29, || steps(what, input, f)));
    r?;
    if peak > allowed {
        return Err(format!("{} of {} octets held {} bytes of heap (allowed: {})", what, input.len(), peak, allowed));
    }
    Ok(())
}
/// counts the octets it is given
struct Sink(u64);
impl LinePrinter for Sink {
    fn begin_type(&mut self) {}
    fn begin_line(&mut self) {}
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        let _ = std::fmt::Write::write_fmt(self, *fmt);
    }
    fn print_str(&mut self, s: &str) {
        self.0 += s.len() as u64;
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.print_fmt(fmt)
    }
    fn println_str(&mut self, s: &str) {
        self.0 += s.len() as u64;
    }
    fn end_type(&mut self) {}
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
/// takes the text of every element and every bit of every bit string
struct Reader(u64);
impl ParseHandler for Reader {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        if let ASNType::BitString(b) = t {
            self.0 += b.value.iter().filter(|x| *x).count() as u64;
        }
        let mut o = Sink(0);
        let _ = std::fmt::Write::write_fmt(&mut o, format_args!("{}", t));
        self.0 += o.0;
    }
    fn on_error(&mut self, e: &ASNError) {
        let mut o = Sink(0);
        let _ = std::fmt::Write::write_fmt(&mut o, format_args!("{}", e));
        self.0 += o.0;
    }
}
fn cost_all(b: &[u8]) -> Res {
    steps("reading", b, || {
        let _ = parse_all(b, &mut Reader(0));
    })?;
    steps("printing", b, || {
        if let Ok(c) = Certificate::parse(b) {
            c.print(&mut Sink(0));
        }
    })?;
    cost("walking", b, || {
        let mut h = NoAlloc { n: 0, cap: b.len() as u64 / 2 };
        let _ = parse_all(b, &mut h);
    })?;
    cost("decoding as a certificate", b, || {
        if let Ok(c) = Certificate::parse(b) {
            let t = &c.tbs_certificate.value;
            let a = t.issuer.parse();
            let d = t.subject.parse();
            let e = t.extensions.as_ref().map(|e| e.parse());
            drop((a, d, e));
        }
    })?;
    cost("decoding as an extension", b, || drop(Extension::parse(b)))
}
/// declares more than there is
fn bomb(s: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    let n = s.range(1, 6);
    for _ in 0..n {
        let t = *s.pick(&[0x30u8, 0x31, 0xA0, 0xA3, 0x02, 0x03, 0x04, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x05, 0x01, 0x82]);
        v.push(t);
        match s.below(5) {
            0 => v.extend_from_slice(&[0x84, s.byte(), s.byte(), s.byte(), s.byte()]),
            1 => v.extend_from_slice(&[0x83, s.byte(), s.byte(), s.byte()]),
            2 => v.extend_from_slice(&[0x84, 0x7F, 0xFF, 0xFF, 0xFF]),
            3 => v.extend_from_slice(&[0x88, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]),
            _ => {
                let k = s.range(0, 200);
                v.extend_from_slice(&[0x81, k as u8]);
            }
        }
        let k = s.below(8) as usize;
        v.extend(s.bytes(k));
    }
    v
}
fn c22_bombs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.below(3) {
        0 => bomb(s),
        1 => carrier(&bomb(s), &[], Some(&bomb(s))),
        _ => {
            // each kind of extension content and of leaf declares too much
            let o = [SKI, KU, SAN, BC, EKU, ROLE][s.usize_below(6)];
            let e = seq(vec![oid(o), Node::Raw(tlv(0x04, &bomb(s)))]).enc();
            if s.flip() {
                // the contents of the extension
                let mut r = 1;
                r += if e[1] < 0x80 { 1 } else { 1 + (e[1] & 0x7F) as usize };
                e[r..].to_vec()
            } else {
                carrier(&[], &[], Some(&tlv(0x30, &e)))
            }
        }
    };
    ctx.set_input(&b);
    ctx.nontrivial = true;
    cost_all(&b)
}
use crate::props_x509::carrier;
use crate::refx509::{BC, EKU, KU, ROLE, SAN, SKI};
/// many small parts
fn c22_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.below(3) {
        0 => s.range(1, 100),
        1 => s.range(1, 2000),
        _ => s.range(1, 20_000),
    } as usize;
    let kind = s.below(10);
    wide(s, ctx, kind, n)
}
/// so many that anything but linear cost would take minutes
fn c22_vast(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = s.below(10);
    let n = s.range(100_000, 150_000) as usize;
    wide(s, ctx, kind, n)
}
fn wide(s: &mut Src, ctx: &mut Ctx, kind: u64, n: usize) -> Res {
    let b = wide_input(s, ctx, kind, n);
    ctx.set_input(&b);
    ctx.nontrivial = n > 10;
    cost_all(&b)
}
pub fn wide_input(s: &mut Src, ctx: &mut Ctx, kind: u64, n: usize) -> Vec<u8> {
    let rep = |unit: &[u8]| -> Vec<u8> { unit.iter().copied().cycle().take(unit.len() * n).collect() };
    match kind {
        0 => {
            ctx.class("wide: empty elements");
            rep(&[*s.pick(&[0x30u8, 0x05, 0x04, 0x0C, 0xA0, 0x31, 0x82]), 0x00])
        }
        1 => {
            ctx.class("wide: identifier arcs");
            tlv(0x06, &rep(&[0x01]))
        }
        2 => {
            ctx.class("wide: extensions");
            let e = seq(vec![oid(&[1, 2]), Node::Raw(vec![4, 0])]).enc();
            carrier(&[], &[], Some(&tlv(0x30, &rep(&e))))
        }
        3 => {
            ctx.class("wide: alternative names");
            let c = tlv(0x30, &rep(*s.pick(&[&[0x82u8, 0x00][..], &[0x87, 0x00], &[0x88, 0x01, 0x2A], &[0x81, 0x01, 0x41]])));
            ext_around(s, SAN, &c)
        }
        4 => {
            ctx.class("wide: key purposes");
            let c = tlv(0x30, &rep(&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 1]).enc()));
            ext_around(s, EKU, &c)
        }
        5 => {
            ctx.class("wide: key usage bits");
            let mut x = vec![0];
            x.extend(rep(&[0xFF]));
            let c = tlv(0x03, &x);
            ext_around(s, KU, &c)
        }
        6 => {
            ctx.class("wide: name attributes");
            let a = tlv(0x31, &seq(vec![oid(&[1, 2]), Node::Raw(vec![5, 0])]).enc());
            carrier(&rep(&a), &rep(&a), None)
        }
        8 => {
            ctx.class("wide: attributes of one set");
            let a = tlv(0x31, &rep(&seq(vec![oid(&[1, 2]), Node::Raw(vec![5, 0])]).enc()));
            carrier(&a, &a, None)
        }
        7 => {
            ctx.class("wide: strings");
            let t = *s.pick(&[0x0Cu8, 0x13, 0x16, 0x04, 0x02, 0x03, 0x17, 0x18]);
            tlv(t, &rep(&[0x30]))
        }
        _ => {
            ctx.class("wide: role");
            let c = tlv(0x0C, &rep(b"r"));
            ext_around(s, ROLE, &c)
        }
    }
}
fn ext_around(s: &mut Src, o: &[u64], content: &[u8]) -> Vec<u8> {
    let body = [oid(o).enc(), tlv(0x04, content)].concat();
    if s.flip() {
        body
    } else {
        carrier(&[], &[], Some(&tlv(0x30, &tlv(0x30, &body))))
    }
}
fn c22_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, d) = gen_deep(s, 100_000);
    ctx.set_input(&b);
    ctx.nontrivial = d > 100;
    cost_all(&b)
}
fn c22_any(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.below(3) {
        0 => gen_soup(s),
        1 => damaged_cert(s, ctx, 3),
        _ => enc_all(&gen_forest(s)),
    };
    ctx.set_input(&b);
    ctx.nontrivial = b.len() > 2;
    cost_all(&b)
}

// ------------------------------------------------------------------ C23

struct FpWalk(String);
impl ParseHandler for FpWalk {
    fn begin_constructed(&mut self) {
        self.0.push_str("{\n");
    }
    fn end_constructed(&mut self) {
        self.0.push_str("}\n");
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.0.push_str(&asn.to_string());
        match asn {
            ASNType::Sequence(_) | ASNType::Set(_) | ASNType::ExplicitTag(_) => {}
            _ => self.0.push_str(&format!(" {:?}", asn)),
        }
        self.0.push('\n');
    }
    fn on_error(&mut self, err: &ASNError) {
        self.0.push_str(&format!("! {} {:?}\n", err, err));
    }
}

/// everything decoding gives for an input, free of addresses
pub fn fingerprint(b: &[u8]) -> Result<String, String> {
    guard("decoding", || {
        let mut h = FpWalk(String::new());
        let r = parse_all(b, &mut h);
        let mut out = h.0;
        out.push_str(&format!("walk {:?}\n", r.map_err(|e| e.to_string())));
        match Certificate::parse(b) {
            Ok(c) => {
                out.push_str(&format!("{:?}\n", c));
                let t = &c.tbs_certificate.value;
                for n in [&t.issuer, &t.subject] {
                    match n.parse() {
                        Ok(x) => out.push_str(&format!("name {:?}\n", crate::cmp::name_fields(&x))),
                        Err(e) => out.push_str(&format!("name {:?} {}\n", e, e)),
                    }
                }
                if let Some(e) = &t.extensions {
                    match e.parse() {
                        Ok(x) => out.push_str(&format!("extensions {:?}\n", x)),
                        Err(e) => out.push_str(&format!("extensions {:?} {}\n", e, e)),
                    }
                }
                let mut m = Monitor::new(64 * b.len() + 10_000);
                c.print(&mut m);
                m.finish();
                out.push_str(&format!("{:?} {:?}\n", m.lines, m.faults));
                for at in [0, 1, 1_500_000_000, u64::MAX] {
                    out.push_str(&format!("{} ", t.validity.is_valid(rx509::der::UtcTime::from_seconds_since_epoch(at))));
                }
            }
            Err(e) => out.push_str(&format!("certificate {:?} {}\n", e, e)),
        }
        match Extension::parse(b) {
            Ok(x) => out.push_str(&format!("extension {:?}\n", x)),
            Err(e) => out.push_str(&format!("extension {:?} {}\n", e, e)),
        }
        out
    })
}
fn fp_same(what: &str, got: &str, want: &str) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| lossy(&s.as_bytes()[i.saturating_sub(40)..s.len().min(i + 80)]);
    Err(format!("{}: {:?} instead of {:?}", what, cut(got), cut(want)))
}

/// inputs related to each other: equal lengths, shared prefixes, shared contents
fn related(s: &mut Src, ctx: &mut Ctx) -> Vec<Vec<u8>> {
    let n = s.range(2, 5);
    let mut v: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        let b = match s.weighted(&[3, 2, 2, 2, 1]) {
            0 => damaged_cert(s, ctx, 1),
            1 => enc_all(&gen_forest_small(s)),
            2 if !v.is_empty() => {
                // one octet changed
                let i = s.usize_below(v.len());
                let mut b = v[i].clone();
                if !b.is_empty() {
                    let at = s.usize_below(b.len());
                    let to = s.usize_below(b.len());
                    match s.below(4) {
                        0 => b[at] ^= 1 << s.below(8),
                        // the same octets in another order: same length and sums
                        1 => b.swap(at, to),
                        2 if at + 1 < b.len() => b.swap(at, at + 1),
                        // the same sum
                        _ => {
                            b[at] = b[at].wrapping_add(1);
                            b[to] = b[to].wrapping_sub(1);
                        }
                    }
                }
                b
            }
            3 => {
                let k = gen_ext(s, None);
                enc_all(&match k.node() {
                    Node::Cons(_, k) => k,
                    n => vec![n],
                })
            }
            _ => gen_soup(s),
        };
        v.push(b);
    }
    v
}
fn join_inputs(v: &[Vec<u8>]) -> Vec<u8> {
    v.concat()
}
/// a history of decodes over a pool of inputs
fn c23_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = related(s, ctx);
    ctx.set_input(&join_inputs(&pool));
    ctx.nontrivial = true;
    let max = pool.iter().map(|b| b.len()).max().unwrap_or(0);
    // one buffer that all the inputs take turns in: same address, other content
    let mut shared = vec![0u8; max + 64];
    let mut want: Vec<Option<String>> = vec![None; pool.len()];
    let steps = s.range(2, 12);
    for step in 0..steps {
        let i = s.usize_below(pool.len());
        let how = s.below(4);
        let got = match how {
            0 => fingerprint(&pool[i])?,
            1 => {
                shared[..pool[i].len()].copy_from_slice(&pool[i]);
                fingerprint(&shared[..pool[i].len()])?
            }
            2 => {
                // misaligned, with random surroundings
                let at = s.usize_below(17);
                for x in shared.iter_mut() {
                    *x = s.rec.len() as u8 ^ 0x5A;
                }
                let fill = s.byte();
                shared.iter_mut().for_each(|x| *x = fill);
                shared[at..at + pool[i].len()].copy_from_slice(&pool[i]);
                fingerprint(&shared[at..at + pool[i].len()])?
            }
            _ => {
                // followed and preceded by further valid elements
                let j = s.usize_below(pool.len());
                let big = [&pool[j][..], &pool[i][..], &pool[j][..]].concat();
                let at = pool[j].len();
                fingerprint(&big[at..at + pool[i].len()])?
            }
        };
        ctx.evals += 1;
        match &want[i] {
            None => want[i] = Some(got),
            Some(w) => fp_same(&format!("step {}: input {} ({}) decodes differently", step, i, hex_short(&pool[i])), &got, w)?,
        }
    }
    // and once more, in the order of the pool
    for (i, w) in want.iter().enumerate() {
        if let Some(w) = w {
            fp_same(&format!("at the end: input {} ({}) decodes differently", i, hex_short(&pool[i])), &fingerprint(&pool[i])?, w)?;
        }
    }
    Ok(())
}
/// long runs of decodes, mostly failing, between two decodes of the same input
fn c23_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = match s.below(3) {
        0 => gen_cert(s).node().enc(),
        1 => s.pick(crate::corpus::certs_ref()).to_vec(),
        _ => enc_all(&gen_forest_small(s)),
    };
    let b = match s.below(3) {
        0 => damaged_cert(s, ctx, 2),
        1 => gen_soup(s),
        _ => {
            let n = s.range(1, 60) as usize;
            let mut b = nest(&vec![*s.pick(&[0x30, 0xA0]); n], &[0x05, 0x00]);
            b.pop();
            b
        }
    };
    ctx.set_input(&[&a[..], &b[..]].concat());
    ctx.nontrivial = true;
    let k = match s.below(3) {
        _ if s.steer(8) => s.mined_int(5000) + 1,
        0 => s.range(1, 20),
        1 => s.range(20, 300),
        _ => s.range(300, 1500),
    };
    let want = fingerprint(&a)?;
    let wb = fingerprint(&b)?;
    for i in 0..k {
        let mut h = NoAlloc { n: 0, cap: u64::MAX };
        let _ = guard("decoding", || {
            let _ = parse_all(&b, &mut h);
            let c = Certificate::parse(&b);
            if let Ok(c) = &c {
                let _ = c.tbs_certificate.value.issuer.parse();
                if let Some(e) = &c.tbs_certificate.value.extensions {
                    let _ = e.parse();
                }
            }
            let _ = Extension::parse(&b);
        })?;
        if i % 16 == 0 {
            fp_same(&format!("after {} decodes", i), &fingerprint(&a)?, &want)?;
        }
    }
    ctx.evals = k;
    fp_same(&format!("after {} decodes", k), &fingerprint(&a)?, &want)?;
    fp_same("the decoded-in-between input", &fingerprint(&b)?, &wb)
}
fn c23_threads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = related(s, ctx);
    ctx.set_input(&join_inputs(&pool));
    ctx.nontrivial = true;
    let mut want = Vec::new();
    for b in &pool {
        want.push(fingerprint(b)?);
    }
    let rounds = s.range(1, 12) as usize;
    let start = std::sync::Barrier::new(pool.len());
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..pool.len())
            .map(|t| {
                let (pool, want, start) = (&pool, &want, &start);
                sc.spawn(move || -> Res {
                    start.wait();
                    for r in 0..rounds {
                        let i = (t + r) % pool.len();
                        fp_same(
                            &format!("thread {} of {}: input {} ({})", t, pool.len(), i, hex_short(&pool[i])),
                            &fingerprint(&pool[i])?,
                            &want[i],
                        )?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    ctx.evals = (rounds * pool.len()) as u64;
    res.into_iter().collect()
}
/// what a callback does besides taking down what it is given
struct Amid<'p> {
    pool: &'p [Vec<u8>],
    want: &'p [String],
    walks: &'p [String],
    /// (callback number, input, how)
    plan: Vec<(usize, usize, u64)>,
    calls: usize,
    err: Res,
}
impl Amid<'_> {
    fn act(&mut self) {
        let now = self.calls;
        self.calls += 1;
        let todo: Vec<(usize, u64)> = self.plan.iter().filter(|p| p.0 == now).map(|p| (p.1, p.2)).collect();
        for (i, how) in todo {
            if self.err.is_err() {
                return;
            }
            self.err = match how {
                0 => fingerprint(&self.pool[i]).and_then(|got| fp_same(&format!("decoded in callback {}: input {} ({})", now, i, hex_short(&self.pool[i])), &got, &self.want[i])),
                // a walk within the walk, in whose callbacks there are others
                1 if self.plan.len() > 1 => walk_amid(self.pool, self.want, self.walks, self.plan[1..].to_vec(), i),
                // a callback that gives up
                _ => {
                    struct GivesUp(usize);
                    impl GivesUp {
                        fn call(&mut self) {
                            if self.0 == 0 {
                                panic!("the callback gives up");
                            }
                            self.0 -= 1;
                        }
                    }
                    impl ParseHandler for GivesUp {
                        fn begin_constructed(&mut self) {
                            self.call()
                        }
                        fn end_constructed(&mut self) {
                            self.call()
                        }
                        fn on_type(&mut self, _: &ASNType) {
                            self.call()
                        }
                        fn on_error(&mut self, _: &ASNError) {
                            self.call()
                        }
                    }
                    match guard("walk", || parse_all(&self.pool[i], &mut GivesUp(now % 7)).map_err(|_| ())) {
                        Err(e) if !e.contains("the callback gives up") => Err(e),
                        _ => Ok(()),
                    }
                }
            };
        }
    }
}
struct AmidWalk<'p>(FpWalk, Amid<'p>);
impl ParseHandler for AmidWalk<'_> {
    fn begin_constructed(&mut self) {
        self.1.act();
        self.0.begin_constructed();
    }
    fn end_constructed(&mut self) {
        self.1.act();
        self.0.end_constructed();
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.1.act();
        self.0.on_type(asn);
    }
    fn on_error(&mut self, err: &ASNError) {
        self.1.act();
        self.0.on_error(err);
    }
}
fn walk_amid(pool: &[Vec<u8>], want: &[String], walks: &[String], plan: Vec<(usize, usize, u64)>, i: usize) -> Res {
    let (log, err) = guard("walk", || {
        let mut h = AmidWalk(FpWalk(String::new()), Amid { pool, want, walks, plan, calls: 0, err: Ok(()) });
        let r = parse_all(&pool[i], &mut h);
        (format!("{}{:?}", h.0 .0, r.map_err(|e| e.to_string())), h.1.err)
    })?;
    err?;
    fp_same(&format!("input {} ({}), with decoding in its callbacks", i, hex_short(&pool[i])), &log, &walks[i])
}
struct AmidPrint<'p>(Monitor, Amid<'p>);
impl LinePrinter for AmidPrint<'_> {
    fn begin_type(&mut self) {
        self.1.act();
        self.0.begin_type()
    }
    fn begin_line(&mut self) {
        self.1.act();
        self.0.begin_line()
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        self.1.act();
        self.0.print_fmt(f)
    }
    fn print_str(&mut self, s: &str) {
        self.1.act();
        self.0.print_str(s)
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        self.1.act();
        self.0.println_fmt(f)
    }
    fn println_str(&mut self, s: &str) {
        self.1.act();
        self.0.println_str(s)
    }
    fn end_type(&mut self) {
        self.1.act();
        self.0.end_type()
    }
}
/// decoding in the callbacks of decoding and of printing
fn c23_nested(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = related(s, ctx);
    if s.chance(1, 3) {
        pool.push(gen_cert(s).node().enc());
    }
    ctx.set_input(&join_inputs(&pool));
    let mut want = Vec::new();
    let mut walks = Vec::new();
    for b in &pool {
        want.push(fingerprint(b)?);
        walks.push(guard("walk", || {
            let mut h = FpWalk(String::new());
            let r = parse_all(b, &mut h);
            format!("{}{:?}", h.0, r.map_err(|e| e.to_string()))
        })?);
    }
    let n = s.range(1, 5);
    let plan: Vec<(usize, usize, u64)> = (0..n).map(|_| (if s.flip() { s.usize_below(6) } else { s.usize_below(60) }, s.usize_below(pool.len()), s.below(3))).collect();
    for i in 0..pool.len() {
        walk_amid(&pool, &want, &walks, plan.clone(), i)?;
        ctx.evals += 1;
        let b = &pool[i];
        let err = guard("printing", || {
            if let Ok(c) = Certificate::parse(b) {
                let mut plain = Monitor::new(64 * b.len() + 10_000);
                c.print(&mut plain);
                let mut amid = AmidPrint(Monitor::new(64 * b.len() + 10_000), Amid { pool: &pool, want: &want, walks: &walks, plan: plan.clone(), calls: 0, err: Ok(()) });
                c.print(&mut amid);
                plain.finish();
                amid.0.finish();
                let text = |m: &Monitor| format!("{:?} {:?}", m.lines, m.faults);
                amid.1.err.and(fp_same(&format!("the report of {}, with decoding in its printer", hex_short(b)), &text(&amid.0), &text(&plain)))
            } else {
                Ok(())
            }
        })?;
        err?;
    }
    // and nothing of it stays behind
    for (i, b) in pool.iter().enumerate() {
        fp_same(&format!("afterwards: input {} ({}) decodes differently", i, hex_short(b)), &fingerprint(b)?, &want[i])?;
    }
    ctx.class(if plan.iter().any(|p| p.2 == 1) { "walk in walk" } else { "decoding in walk" });
    ctx.nontrivial = pool.iter().any(|b| b.len() > 2);
    Ok(())
}
/// one thing asked of a decoded certificate
fn ask(c: &Certificate, what: u64) -> String {
    let t = &c.tbs_certificate.value;
    match what {
        0 | 1 => match if what == 0 { &t.issuer } else { &t.subject }.parse() {
            Ok(x) => format!("{:?}", crate::cmp::name_fields(&x)),
            Err(e) => format!("{:?} {}", e, e),
        },
        2 => match t.extensions.as_ref().map(|e| e.parse()) {
            None => String::new(),
            Some(Ok(x)) => format!("{:?}", x),
            Some(Err(e)) => format!("{:?} {}", e, e),
        },
        3 => {
            let mut m = Monitor::new(1_000_000);
            c.print(&mut m);
            m.finish();
            format!("{:?} {:?}", m.lines, m.faults)
        }
        4 => format!("{:?} {:?}", c.signature_value.octets(), c.signature_value.iter().collect::<Vec<bool>>()),
        5 => format!("{} {:?}", t.serial_number, t.serial_number.as_i32()),
        6 => format!("{} {}", c.signature_algorithm.algorithm, t.signature.algorithm),
        _ => format!("{:?}", c),
    }
}
/// several decoded certificates at a time, each asked for its parts in any order and repeatedly
fn c23_kept(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool: Vec<Vec<u8>> = Vec::new();
    for _ in 0..s.range(2, 4) {
        pool.push(match s.below(4) {
            0 => damaged_cert(s, ctx, 1),
            1 => s.pick(crate::corpus::certs_ref()).to_vec(),
            2 if !pool.is_empty() => {
                let mut b = s.pick(&pool).clone();
                if !b.is_empty() {
                    let (x, y) = (s.usize_below(b.len()), s.usize_below(b.len()));
                    b.swap(x, y);
                }
                b
            }
            _ => gen_cert(s).node().enc(),
        });
    }
    ctx.set_input(&join_inputs(&pool));
    let steps: Vec<(usize, u64)> = (0..s.range(2, 20)).map(|_| (s.usize_below(pool.len()), s.below(8))).collect();
    // each asked on its own, by itself
    let mut want: Vec<Option<Vec<String>>> = Vec::new();
    for b in &pool {
        want.push(guard("decoding", || match Certificate::parse(b) {
            Ok(_) => Some((0..8).map(|w| Certificate::parse(b).map(|c| ask(&c, w)).unwrap_or_else(|e| e.to_string())).collect()),
            Err(_) => None,
        })?);
    }
    let r = guard("decoding", || -> Res {
        let kept: Vec<_> = pool.iter().map(|b| Certificate::parse(b)).collect();
        for (n, (i, w)) in steps.iter().enumerate() {
            let got = kept[*i].as_ref().ok().map(|c| ask(c, *w));
            match (&got, want[*i].as_ref().map(|l| &l[*w as usize])) {
                (None, None) => {}
                (Some(g), Some(x)) => fp_same(&format!("step {}: part {} of kept certificate {} ({})", n, w, i, hex_short(&pool[*i])), g, x)?,
                (g, x) => return Err(format!("kept certificate {} ({}) gives {} instead of {}", i, hex_short(&pool[*i]), crate::sut::short_dbg(g), crate::sut::short_dbg(&x))),
            }
        }
        Ok(())
    })?;
    ctx.evals = steps.len() as u64;
    ctx.nontrivial = want.iter().filter(|w| w.is_some()).count() > 1;
    ctx.class(match want.iter().filter(|w| w.is_some()).count() {
        0 => "none decodes",
        1 => "one kept",
        _ => "several kept",
    });
    r
}
/// the same bytes decoded in a process that decoded nothing before
fn c23_fresh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = related(s, ctx);
    ctx.set_input(&join_inputs(&pool));
    ctx.nontrivial = true;
    for b in &pool {
        fingerprint(b)?;
    }
    let i = s.usize_below(pool.len());
    let f = put(&os("fp"), &pool[i]);
    let o = Command::new(std::env::current_exe().expect("own path"))
        .arg("fp")
        .arg(&f)
        .stdin(Stdio::null())
        .output()
        .expect("run self");
    if !o.status.success() {
        return Err(format!("decoding {} in a fresh process: {:?}", hex_short(&pool[i]), o.status));
    }
    fp_same(
        &format!("input {} after other inputs, compared with a fresh process", hex_short(&pool[i])),
        &fingerprint(&pool[i])?,
        &String::from_utf8_lossy(&o.stdout),
    )
}
/// `rxprop fp FILE`
pub fn fp_main(path: &str) -> i32 {
    let b = std::fs::read(path).expect("read");
    use std::io::Write;
    match fingerprint(&b) {
        Ok(t) => {
            std::io::stdout().write_all(t.as_bytes()).expect("write");
            0
        }
        Err(_) => 3,
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "files (element forests, certificates, both damaged, soup, deep nesting) given to the built decoder binary in both modes, its output compared with an independent rendering of the reference decoding; argument lists with odd file names, missing and unreadable files, unknown flags and wrong counts. Non-trivial: files of more than 2 octets, every argument list",
            assumptions: &["the tool's standard output stays open", "the binary is built from the decoder crate as it stands"],
            subs: vec![
                sub("der", c21_der, 3_000, 100_000),
                sub("certs", c21_certs, 3_000, 100_000),
                sub("usage", c21_usage, 1_500, 40_000),
                sub("deep", c21_deep, 100, 4_000),
                sub("abyss", c21_abyss, 4, 100),
                sub("kinds", c21_kinds, 600, 20_000),
                sub("big", c21_big, 40, 1_000),
            ],
        },
        Prop {
            id: "C22",
            rule: "inputs declaring more than they hold, many tiny elements, deep nesting, certificates and soup are walked and decoded under a counting allocator: peak heap at most 256 bytes per input octet plus 8 KiB, at most one reported element per two octets; walking, decoding, reading the text and bits of every element and printing run at most 400 edges of the instrumented library, and allocate at most 400 bytes in all, per input octet, plus 20,000 (the present code: under 25). Non-trivial: bombs, more than ten parts, nesting over 100, other inputs over 2 octets",
            assumptions: &["256 bytes and 400 steps per octet stand for 'a fixed multiple'", "time spent inside the standard library (copying, comparing) is seen only through what it allocates, or if it exceeds 4 microseconds per octet plus 0.2 s of CPU time three or eight times in a row (the present code: under 1 microsecond with the callbacks of the instrumentation)"],
            subs: vec![
                sub("bombs", c22_bombs, 200_000, 4_000_000),
                sub("wide", c22_wide, 1_800, 60_000),
                sub("vast", c22_vast, 10, 200),
                sub("deep", c22_deep, 80, 1_000),
                sub("any", c22_any, 150_000, 3_000_000),
            ],
        },
        Prop {
            id: "C23",
            rule: "pools of related inputs decoded in random order, in a shared reused buffer, at every alignment, amid other elements, after up to 1500 other decodes, in the callbacks of walks and printers, after callbacks that panic, on several threads at once, and in a fresh process; all results (events, values, errors, printed lines) of one input must agree; several certificates kept and asked for their parts in any order, repeatedly. Non-trivial: every history, two kept certificates, nested inputs over 2 octets",
            assumptions: &["thread schedules are whatever the machine gives: rare interleavings are sampled, not enumerated"],
            subs: vec![
                sub("history", c23_history, 25_000, 500_000),
                sub("many", c23_many, 400, 10_000),
                sub("nested", c23_nested, 6_000, 120_000),
                sub("kept", c23_kept, 6_000, 120_000),
                sub("threads", c23_threads, 3_000, 60_000),
                sub("fresh-process", c23_fresh, 1_000, 20_000),
            ],
        },
    ]
}
