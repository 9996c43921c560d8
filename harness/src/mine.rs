//! Literals of the code under test, as a dictionary for the generators.
//!
//! A fault that needs one particular value (a length, an arc, a text, a count)
//! usually has that value in the source. The dictionary only steers what is
//! generated; verdicts never depend on it. Literals that the tree this harness
//! was developed against does not have (`baseline_literals.txt`) are drawn more
//! often. Test code is left out.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug, Clone, PartialEq)]
pub struct Pool {
    /// ascending
    pub ints: Vec<u64>,
    pub lists: Vec<Vec<u64>>,
    /// strings, byte strings and characters
    pub texts: Vec<Vec<u8>>,
}
#[derive(Default, Debug, Clone)]
pub struct Mined {
    /// not in the baseline
    pub fresh: Pool,
    pub all: Pool,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Int(u64),
    Text(Vec<u8>),
    Punct(char),
    Word(String),
}

fn escape(b: &[char], i: &mut usize, out: &mut Vec<u8>) {
    // b[*i] is the character after the backslash
    let c = b.get(*i).copied().unwrap_or(' ');
    *i += 1;
    match c {
        'n' => out.push(b'\n'),
        'r' => out.push(b'\r'),
        't' => out.push(b'\t'),
        '0' => out.push(0),
        'x' => {
            let h: String = b[(*i).min(b.len())..(*i + 2).min(b.len())].iter().collect();
            *i += 2;
            out.push(u8::from_str_radix(&h, 16).unwrap_or(0));
        }
        'u' => {
            let mut h = String::new();
            *i += 1;
            while *i < b.len() && b[*i] != '}' {
                h.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            let c = u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32).unwrap_or(' ');
            out.extend_from_slice(c.to_string().as_bytes());
        }
        '\n' => {
            while *i < b.len() && b[*i].is_whitespace() {
                *i += 1;
            }
        }
        c => out.extend_from_slice(c.to_string().as_bytes()),
    }
}

fn tokens(src: &str) -> Vec<Tok> {
    let b: Vec<char> = src.chars().collect();
    let mut t = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let next = b.get(i + 1).copied().unwrap_or(' ');
        if c == '/' && next == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && next == '*' {
            let mut d = 1;
            i += 2;
            while i < b.len() && d > 0 {
                if b[i] == '/' && b.get(i + 1) == Some(&'*') {
                    d += 1;
                    i += 1;
                } else if b[i] == '*' && b.get(i + 1) == Some(&'/') {
                    d -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if c == 'r' && (next == '"' || next == '#') || (c == 'b' && next == 'r' && matches!(b.get(i + 2), Some('"') | Some('#'))) {
            let start = i;
            i += if c == 'b' { 2 } else { 1 };
            let mut h = 0;
            while b.get(i) == Some(&'#') {
                h += 1;
                i += 1;
            }
            if b.get(i) != Some(&'"') {
                // a raw identifier
                i = start + 1;
                t.push(Tok::Word("r".into()));
                continue;
            }
            i += 1;
            let mut s = String::new();
            while i < b.len() {
                if b[i] == '"' && (0..h).all(|k| b.get(i + 1 + k) == Some(&'#')) {
                    break;
                }
                s.push(b[i]);
                i += 1;
            }
            i += 1 + h;
            t.push(Tok::Text(s.into_bytes()));
        } else if c == '"' || c == 'b' && next == '"' {
            i += if c == 'b' { 2 } else { 1 };
            let mut o = Vec::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    escape(&b, &mut i, &mut o);
                } else {
                    o.extend_from_slice(b[i].to_string().as_bytes());
                    i += 1;
                }
            }
            i += 1;
            t.push(Tok::Text(o));
        } else if c == '\'' || c == 'b' && next == '\'' {
            let k = if c == 'b' { i + 2 } else { i + 1 };
            let mut o = Vec::new();
            let mut j = k;
            if b.get(k) == Some(&'\\') {
                j = k + 1;
                escape(&b, &mut j, &mut o);
            } else if let Some(x) = b.get(k) {
                o.extend_from_slice(x.to_string().as_bytes());
                j = k + 1;
            }
            if b.get(j) == Some(&'\'') {
                i = j + 1;
                if c == 'b' {
                    t.push(Tok::Int(o.first().copied().unwrap_or(0) as u64));
                }
                t.push(Tok::Text(o));
            } else {
                // a lifetime
                i = k;
            }
        } else if c.is_ascii_digit() {
            let mut w = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                w.push(b[i]);
                i += 1;
            }
            let w = w.replace('_', "");
            let (radix, d) = match &w[..w.len().min(2)] {
                "0x" | "0X" => (16, &w[2..]),
                "0o" => (8, &w[2..]),
                "0b" => (2, &w[2..]),
                _ => (10, &w[..]),
            };
            // without a type suffix
            let end = d.find(|c: char| c == 'i' || c == 'u' || !c.is_digit(radix)).unwrap_or(d.len());
            if let Ok(v) = u64::from_str_radix(&d[..end], radix) {
                t.push(Tok::Int(v));
            }
        } else if c.is_alphabetic() || c == '_' {
            let mut w = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                w.push(b[i]);
                i += 1;
            }
            t.push(Tok::Word(w));
        } else {
            if !c.is_whitespace() {
                t.push(Tok::Punct(c));
            }
            i += 1;
        }
    }
    t
}

/// leaves out `#[cfg(test)] item`
fn without_tests(t: Vec<Tok>) -> Vec<Tok> {
    let mut o = Vec::new();
    let mut i = 0;
    let w = |k: usize, s: &str| matches!(t.get(k), Some(Tok::Word(x)) if x == s);
    let p = |k: usize, c: char| t.get(k) == Some(&Tok::Punct(c));
    while i < t.len() {
        let here = p(i, '#') && p(i + 1, '[') && w(i + 2, "cfg") && p(i + 3, '(') && w(i + 4, "test") && p(i + 5, ')') && p(i + 6, ']');
        if here {
            i += 7;
            let mut d = 0;
            while i < t.len() {
                if p(i, '{') {
                    d += 1;
                }
                if p(i, '}') {
                    d -= 1;
                    if d == 0 {
                        i += 1;
                        break;
                    }
                }
                if d == 0 && p(i, ';') {
                    i += 1;
                    break;
                }
                i += 1;
            }
        } else {
            o.push(t[i].clone());
            i += 1;
        }
    }
    o
}

#[derive(Default)]
struct Sets {
    ints: BTreeSet<u64>,
    lists: BTreeSet<Vec<u64>>,
    texts: BTreeSet<Vec<u8>>,
}

fn collect(t: &[Tok], s: &mut Sets) {
    let int = |k: usize| if let Some(Tok::Int(v)) = t.get(k) { Some(*v) } else { None };
    let p = |k: usize, c: char| t.get(k) == Some(&Tok::Punct(c));
    for i in 0..t.len() {
        match &t[i] {
            Tok::Int(v) => {
                s.ints.insert(*v);
                // a << b, a * b, a + b, a - b
                if p(i + 1, '<') && p(i + 2, '<') {
                    if let Some(b) = int(i + 3) {
                        s.ints.extend(v.checked_shl(b.min(64) as u32));
                    }
                }
                if let Some(b) = int(i + 2) {
                    if p(i + 1, '*') {
                        s.ints.extend(v.checked_mul(b));
                    } else if p(i + 1, '+') {
                        s.ints.extend(v.checked_add(b));
                    } else if p(i + 1, '-') {
                        s.ints.extend(v.checked_sub(b));
                    }
                }
            }
            Tok::Text(x) if !x.is_empty() && x.len() <= 200 => {
                s.texts.insert(x.clone());
            }
            Tok::Punct('[') => {
                // the numbers of a list or slice pattern, up to the closing bracket
                let (mut l, mut k, mut d) = (Vec::new(), i + 1, 0);
                while k < t.len() && k < i + 400 {
                    match &t[k] {
                        Tok::Int(v) => l.push(*v),
                        Tok::Punct('[') | Tok::Punct('(') => d += 1,
                        Tok::Punct(']') if d == 0 => break,
                        Tok::Punct(']') | Tok::Punct(')') => d -= 1,
                        Tok::Punct(';') => {
                            // [value; count]
                            if let (Some(v), Some(n)) = (int(k - 1), int(k + 1)) {
                                l = vec![v; n.min(256) as usize];
                            }
                            break;
                        }
                        _ => {}
                    }
                    k += 1;
                }
                if l.len() >= 2 && l.len() <= 64 {
                    s.lists.insert(l);
                }
            }
            _ => {}
        }
    }
}

fn walk(dir: &Path, s: &mut Sets) {
    let mut v: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
        if p.is_dir() {
            if !name.starts_with('.') && !["target", "tests", "benches", "examples", "fuzz"].contains(&name.as_str()) {
                walk(&p, s);
            }
        } else if name.ends_with(".rs") && !name.contains("test") {
            if let Ok(src) = std::fs::read(&p) {
                collect(&without_tests(tokens(&String::from_utf8_lossy(&src))), s);
            }
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// one literal per word: i<number>  l<number>,<number>...  t<hex>
fn words(s: &Sets) -> Vec<String> {
    let mut v: Vec<String> = s.ints.iter().map(|i| format!("i{}", i)).collect();
    v.extend(s.lists.iter().map(|l| format!("l{}", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))));
    v.extend(s.texts.iter().map(|t| format!("t{}", hex(t))));
    v
}
fn pool(words: &[&str]) -> Pool {
    let mut p = Pool::default();
    for w in words {
        match w.split_at(1) {
            ("i", x) => p.ints.extend(x.parse::<u64>()),
            ("l", x) => p.lists.push(x.split(',').filter_map(|n| n.parse().ok()).collect()),
            ("t", x) => p.texts.push(unhex(x)),
            _ => {}
        }
    }
    p.ints.sort_unstable();
    p
}

static MINED: OnceLock<Mined> = OnceLock::new();

fn build(all: &[&str]) -> Mined {
    let base: BTreeSet<&str> = include_str!("../baseline_literals.txt").split_whitespace().collect();
    let fresh: Vec<&str> = all.iter().copied().filter(|w| !base.contains(w)).collect();
    Mined { fresh: pool(&fresh), all: pool(all) }
}
/// the words of the current sources
pub fn scan() -> Vec<String> {
    let root = std::env::var("RXPROP_SOURCES").unwrap_or_else(|_| "/repo".into());
    let mut s = Sets::default();
    for d in ["rx509/src", "decoder/src"] {
        walk(&Path::new(&root).join(d), &mut s);
    }
    words(&s)
}
/// uses these words instead of the sources (replay)
pub fn set(text: &str) {
    let w: Vec<&str> = text.split_whitespace().collect();
    let _ = MINED.set(build(&w));
}
/// the words in use, for the replay file
pub fn current() -> String {
    let m = mined();
    let s = Sets { ints: m.all.ints.iter().copied().collect(), lists: m.all.lists.iter().cloned().collect(), texts: m.all.texts.iter().cloned().collect() };
    words(&s).join(" ")
}
pub fn mined() -> &'static Mined {
    MINED.get_or_init(|| {
        // child processes get the words of their parent
        let w = match std::env::var("RXPROP_LITERALS").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
            Some(t) => t.split_whitespace().map(String::from).collect(),
            None => scan(),
        };
        build(&w.iter().map(|x| x.as_str()).collect::<Vec<_>>())
    })
}
