//! Coverage-guided search over choice sequences.
//!
//! A case is a choice sequence, as everywhere. Sequences whose run does something
//! new in the code under test (an edge, an edge more often, a comparison closer to
//! equal) are kept, and new cases are made from them by mutation.

use crate::cov;
use crate::engine::splitmix;
use std::sync::Arc;

/// longer choice sequences are not kept
pub const LONGEST: usize = 20_000;

pub struct Entry {
    pub choices: Vec<u64>,
    pub features: Vec<u32>,
    pub pairs: Vec<(u64, u64)>,
    pub cost: u64,
}

/// What has been seen and the sequences that showed it first.
#[derive(Clone)]
pub struct Corpus {
    seen: Vec<u64>,
    pub count: usize,
    pub entries: Vec<Arc<Entry>>,
}
impl Corpus {
    pub fn new() -> Corpus {
        Corpus { seen: vec![0; cov::FEATURES / 64], count: 0, entries: vec![] }
    }
    fn has(&self, f: usize) -> bool {
        self.seen[f / 64] >> (f % 64) & 1 == 1
    }
    /// the features of the last run that are new here
    pub fn news(&self, m: &cov::Map) -> Vec<u32> {
        let mut v = Vec::new();
        m.features(|f| {
            if !self.has(f) {
                v.push(f as u32)
            }
        });
        v
    }
    pub fn add(&mut self, e: Arc<Entry>) {
        let mut new = false;
        for &f in &e.features {
            if !self.has(f as usize) {
                self.seen[f as usize / 64] |= 1 << (f % 64);
                self.count += 1;
                new = true;
            }
        }
        if new {
            self.entries.push(e);
        }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn below(&mut self, n: usize) -> usize {
        ((splitmix(&mut self.0) as u128 * n.max(1) as u128) >> 64) as usize
    }
    fn value(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(16) as u64,
            1 => self.below(256) as u64,
            2 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            3 => self.below(1 << 16) as u64,
            _ => splitmix(&mut self.0),
        }
    }
}

/// a new sequence made from the corpus; none: draw one at random
pub fn mutate(c: &Corpus, r: &mut Rng) -> Option<Vec<u64>> {
    if c.entries.is_empty() || r.below(8) == 0 {
        return None;
    }
    let n = c.entries.len();
    let one = |r: &mut Rng| if r.below(2) == 0 { n - 1 - r.below(n.min(32)) } else { r.below(n) };
    // mostly the cheapest of three: expensive ones would take most of the time
    let pick = |r: &mut Rng| {
        let mut i = one(r);
        if r.below(8) != 0 {
            for _ in 0..2 {
                let j = one(r);
                if c.entries[j].cost < c.entries[i].cost {
                    i = j;
                }
            }
        }
        i
    };
    let e = c.entries[pick(r)].clone();
    let mut v = e.choices.clone();
    for _ in 0..1 + r.below(4) {
        let l = v.len();
        if l == 0 {
            v.push(r.value());
            continue;
        }
        let at = r.below(l);
        match r.below(14) {
            0 | 1 => v[at] = r.value(),
            2 => v[at] = v[at].wrapping_add(1 + r.below(4) as u64),
            3 => v[at] = v[at].saturating_sub(1 + r.below(4) as u64),
            4 => v[at] ^= 1 << r.below(16),
            5 => {
                let k = (1 + r.below(8)).min(l - at);
                v.drain(at..at + k);
            }
            6 => {
                let k = (1 + r.below(8)).min(l - at);
                let part = v[at..at + k].to_vec();
                let to = r.below(l + 1);
                v.splice(to..to, part);
            }
            7 => v.insert(at, r.value()),
            8 => v[at] = v[r.below(l)],
            9 => v.truncate(at + 1),
            10 => {
                // part of another sequence
                let o = &c.entries[pick(r)].choices;
                if !o.is_empty() {
                    let from = r.below(o.len());
                    let k = (1 + r.below(40)).min(o.len() - from);
                    let gone = if r.below(2) == 0 { k.min(l - at) } else { 0 };
                    v.splice(at..at + gone, o[from..from + k].iter().copied());
                }
            }
            11 => {
                // begins like this one, ends like another
                let o = &c.entries[pick(r)].choices;
                let from = at.min(o.len());
                v.truncate(at);
                v.extend_from_slice(&o[from..]);
            }
            _ => {
                // make the operands of a comparison equal
                if e.pairs.is_empty() {
                    continue;
                }
                let (mut x, mut y) = e.pairs[r.below(e.pairs.len())];
                if r.below(2) == 0 {
                    std::mem::swap(&mut x, &mut y);
                }
                let places: Vec<usize> = (0..l).filter(|i| v[*i] == x).collect();
                if !places.is_empty() && r.below(4) != 0 {
                    let i = places[r.below(places.len())];
                    v[i] = y;
                } else if r.below(2) == 0 {
                    v[at] = v[at].wrapping_add(y).wrapping_sub(x);
                } else {
                    v[at] = y;
                }
            }
        }
    }
    v.truncate(LONGEST);
    Some(v)
}

/// `(choices, rest)` of the case a thread is running, kept in a file shared with
/// the parent process, so that it survives the death of this one
pub struct Slot {
    p: *mut u64,
}
pub const SLOT: usize = 8 * (LONGEST + 4);
impl Slot {
    pub fn new(f: &std::fs::File, i: usize) -> Slot {
        use std::os::unix::io::AsRawFd;
        extern "C" {
            fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        let size = SLOT.next_multiple_of(4096);
        let p = unsafe { mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), (i * size) as i64) };
        assert!(p as isize != -1, "mmap of the slot file");
        Slot { p: p as *mut u64 }
    }
    pub fn set(&self, choices: Option<&[u64]>, rest: u64) {
        let c = choices.unwrap_or(&[]);
        unsafe {
            self.p.write_volatile(0);
            *self.p.add(1) = rest;
            *self.p.add(2) = c.len() as u64;
            std::ptr::copy_nonoverlapping(c.as_ptr(), self.p.add(3), c.len());
            std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
            self.p.write_volatile(1);
        }
    }
    pub fn done(&self) {
        unsafe { self.p.write_volatile(0) }
    }
}
pub fn slots_size(n: usize) -> u64 {
    (SLOT.next_multiple_of(4096) * n) as u64
}
/// the cases that were running, by thread
pub fn running(file: &[u8]) -> Vec<Option<(Vec<u64>, u64)>> {
    file.chunks(SLOT.next_multiple_of(4096))
        .map(|c| {
            let f = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
            if f(0) != 1 {
                return None;
            }
            Some(((0..f(2) as usize).map(|i| f(3 + i)).collect(), f(1)))
        })
        .collect()
}
