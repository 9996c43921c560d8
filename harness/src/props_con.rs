//! C27: the console printer, driven in a process of its own.

use crate::engine::*;
use crate::gen::*;
use crate::props_der::sub;
use crate::props_sys::{limit_cpu, os, put};
use crate::report::Monitor;
use rx509::x509::printer::{ConsoleLinePrinter, LinePrinter, Printable};
use rx509::x509::Certificate;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
enum Op {
    /// go on with (or start) the printer of this number
    Use(usize),
    Open(usize),
    Close(usize),
    Line,
    /// text, ends the line, form of the call
    Text(String, bool, u8),
    Number(u64, bool),
    /// print a certificate
    Cert(Vec<u8>),
}

/// the text a call of this form gives
fn said(t: &str, form: u8) -> String {
    match form {
        0 | 1 => t.to_string(),
        2 => format!("[{}]", t),
        3 => format!("{:>12}|{:<7}|", t, t),
        4 => format!("{0} {0:?} {{}}", t),
        6 => "".to_string(),
        7 => "  two before, two after  ".to_string(),
        8 => "\n".to_string(),
        9 => "first\n second\r\n\t".to_string(),
        10 => ":".to_string(),
        _ => "{fixed} text".to_string(),
    }
}
fn call(p: &mut dyn LinePrinter, t: &str, end: bool, form: u8) {
    let mut go = |a: std::fmt::Arguments| if end { p.println_fmt(&a) } else { p.print_fmt(&a) };
    match form {
        0 => {
            if end {
                p.println_str(t)
            } else {
                p.print_str(t)
            }
        }
        1 => go(format_args!("{}", t)),
        2 => go(format_args!("[{}]", t)),
        3 => go(format_args!("{:>12}|{:<7}|", t, t)),
        4 => go(format_args!("{0} {0:?} {{}}", t)),
        // a fixed text reaches the printer in another way
        6 => go(format_args!("")),
        7 => go(format_args!("  two before, two after  ")),
        8 => go(format_args!("\n")),
        9 => go(format_args!("first\n second\r\n\t")),
        10 => go(format_args!(":")),
        _ => go(format_args!("{{fixed}} text")),
    }
}

fn write_ops(ops: &[Op]) -> Vec<u8> {
    let mut s = String::new();
    for o in ops {
        s.push_str(&match o {
            Op::Use(i) => format!("use {}\n", i),
            Op::Open(n) => format!("open {}\n", n),
            Op::Close(n) => format!("close {}\n", n),
            Op::Line => "line\n".into(),
            Op::Text(t, e, f) => format!("text {} {} {}\n", *e as u8, f, hex(t.as_bytes())),
            Op::Number(n, e) => format!("number {} {}\n", *e as u8, n),
            Op::Cert(b) => format!("cert {}\n", hex(b)),
        });
    }
    s.into_bytes()
}
fn read_ops(b: &[u8]) -> Vec<Op> {
    String::from_utf8(b.to_vec())
        .expect("script")
        .lines()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<u64>().expect("number");
            match w[0] {
                "use" => Op::Use(n(1) as usize),
                "open" => Op::Open(n(1) as usize),
                "close" => Op::Close(n(1) as usize),
                "line" => Op::Line,
                "text" => Op::Text(String::from_utf8(unhex(w[3])).expect("text"), n(1) == 1, n(2) as u8),
                "number" => Op::Number(n(2), n(1) == 1),
                "cert" => Op::Cert(unhex(w[1])),
                x => panic!("script: {}", x),
            }
        })
        .collect()
}

/// `rxprop console FILE`: carries the script out
pub fn console_main(path: &str) -> i32 {
    let ops = read_ops(&std::fs::read(path).expect("read"));
    let mut all: Vec<ConsoleLinePrinter> = vec![ConsoleLinePrinter::new()];
    let mut at = 0;
    for o in ops {
        let p = &mut all[at];
        match o {
            Op::Use(i) => {
                while all.len() <= i {
                    all.push(if i % 2 == 0 { ConsoleLinePrinter::new() } else { ConsoleLinePrinter::default() });
                }
                at = i;
            }
            Op::Open(n) => (0..n).for_each(|_| p.begin_type()),
            Op::Close(n) => (0..n).for_each(|_| p.end_type()),
            Op::Line => p.begin_line(),
            Op::Text(t, e, f) => call(p, &t, e, f),
            Op::Number(n, true) => p.println_fmt(&format_args!("{}", n)),
            Op::Number(n, false) => p.print_fmt(&format_args!("{}", n)),
            Op::Cert(b) => Certificate::parse(&b).expect("a certificate").print(p),
        }
    }
    0
}

/// what the script has to write
fn model(ops: &[Op]) -> Result<String, String> {
    let mut out = String::new();
    let mut depth = vec![0usize];
    let mut at = 0;
    for o in ops {
        match o {
            Op::Use(i) => {
                if depth.len() <= *i {
                    depth.resize(i + 1, 0);
                }
                at = *i;
            }
            Op::Open(n) => depth[at] += n,
            Op::Close(n) => depth[at] -= n,
            Op::Line => out.push_str(&"  ".repeat(depth[at])),
            Op::Text(t, e, f) => {
                out.push_str(&said(t, *f));
                if *e {
                    out.push('\n');
                }
            }
            Op::Number(n, e) => {
                out.push_str(&n.to_string());
                if *e {
                    out.push('\n');
                }
            }
            Op::Cert(b) => {
                let mut m = Monitor::new(b.len() * 40 + 10_000);
                guard("printing a certificate", || Certificate::parse(b).expect("a certificate").print(&mut m))?;
                m.finish();
                for (d, t) in &m.lines {
                    out.push_str(&"  ".repeat(depth[at] + d));
                    out.push_str(t);
                    out.push('\n');
                }
            }
        }
    }
    Ok(out)
}

fn gen_ops(s: &mut Src) -> Vec<Op> {
    let mut depth = vec![0usize];
    let mut at = 0;
    let mut v = Vec::new();
    let n = s.range(1, 60);
    for _ in 0..n {
        let end = s.flip();
        v.push(match s.weighted(&[6, 4, 6, 4, 8, 2, 1]) {
            0 => Op::Line,
            1 => {
                let k = match s.below(12) {
                    10 => s.range(0, 40) as usize,
                    11 => s.len(300),
                    _ => 1,
                };
                depth[at] += k;
                Op::Open(k)
            }
            3 => {
                let k = depth[at].min(if s.chance(1, 10) { usize::MAX } else { 1 });
                depth[at] -= k;
                Op::Close(k)
            }
            5 => Op::Number(s.below(0), end),
            6 => {
                at = s.usize_below(3);
                if depth.len() <= at {
                    depth.resize(at + 1, 0);
                }
                Op::Use(at)
            }
            _ => {
                let t = match s.below(4) {
                    0 => gen_printable(s),
                    1 => s.pick(&["", "\n", "a\nb", "{}", "{0}", "%s", "\t", "  ", "\r\n", "\u{0}", "\u{1b}[0m", "é", ":", "name:"]).to_string(),
                    _ => gen_utf8(s),
                };
                Op::Text(t, end, s.below(11) as u8)
            }
        });
    }
    v
}

fn run_script(ops: &[Op], ctx: &mut Ctx) -> Res {
    let want = model(ops)?;
    let script = write_ops(ops);
    ctx.set_input(&script);
    let f = put(&os("script"), &script);
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("console").arg(&f).stdin(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            limit_cpu(20);
            Ok(())
        });
    }
    let o = c.output().expect("run self");
    let got = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        return Err(format!("the console printer ends with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).replace('\n', " ")));
    }
    if !o.stderr.is_empty() {
        return Err(format!("the console printer writes to the standard error: {:?}", String::from_utf8_lossy(&o.stderr)));
    }
    if got != want {
        let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(20).min(s.len())..(i + 40).min(s.len())]).into_owned();
        return Err(format!("at octet {} the console shows {:?} instead of {:?}", i, cut(&got), cut(&want)));
    }
    Ok(())
}
fn c27_calls(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ops = gen_ops(s);
    ctx.nontrivial = ops.len() > 3;
    run_script(&ops, ctx)
}
fn c27_certs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut v = Vec::new();
    let n = s.range(1, 3);
    for _ in 0..n {
        if s.chance(1, 3) {
            // at any level and after any calls that leave the line ended
            let k = s.below(4) as usize;
            v.push(Op::Use(k));
            v.push(Op::Open(s.below(4) as usize));
        }
        let b = gen_cert(s).node().enc();
        if guard("decoding", || Certificate::parse(&b).is_ok())? {
            ctx.nontrivial = true;
            v.push(Op::Cert(b));
        }
    }
    run_script(&v, ctx)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "sequences of printer calls (levels to some hundred deep, several printers at once, plain and formatted texts of any characters, whole certificates) carried out by the console printer in a process of its own; its standard output must be the texts given, each line begun with two spaces per level open in that printer. Non-trivial: more than three calls, certificates",
        assumptions: &["no more levels are closed than were opened", "the standard output stays open"],
        subs: vec![sub("calls", c27_calls, 4_000, 100_000), sub("certs", c27_certs, 1_500, 40_000)],
    }]
}
