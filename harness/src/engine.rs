//! Choice-sequence property-testing engine.
//!
//! Every generator draws all its choices from a [`Src`]. A `Src` either draws
//! from a PRNG seeded per case, replays a recorded choice sequence (shrinking,
//! replay files, exhaustive enumeration) or replays a mutated one (coverage-guided
//! search).  Whatever the mode, the choices made are recorded, so each case can be replayed and
//! shrunk on its choices.  Choice 0 is always the simplest alternative.

use std::cell::{Cell, RefCell};
use std::sync::atomic::AtomicU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Mode {
    Rng(u64),
    Replay(Vec<u64>, usize),
    /// replays, then goes on with the PRNG
    Guided(Vec<u64>, usize, u64),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// every choice is also written here at once (for cases that kill the process)
    pub dump: Option<std::fs::File>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (data.len() as u64);
    for chunk in data.chunks(8) {
        let mut w = 0u64;
        for &b in chunk {
            w = (w << 8) | b as u64;
        }
        h ^= w;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src { mode: Mode::Rng(seed), rec: Vec::new(), dump: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new(), dump: None }
    }
    pub fn guided(choices: Vec<u64>, rest: u64) -> Src {
        Src { mode: Mode::Guided(choices, 0, rest), rec: Vec::new(), dump: None }
    }

    /// a value in 0..n  (n == 0 stands for the full 64-bit range)
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Rng(s) => {
                let r = splitmix(s);
                if n == 0 {
                    r
                } else {
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(d, pos) => {
                let v = d.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if n == 0 || v < n {
                    v
                } else {
                    v % n
                }
            }
            Mode::Guided(d, pos, s) => {
                let v = match d.get(*pos) {
                    Some(v) => *v,
                    None => splitmix(s),
                };
                *pos += 1;
                if n == 0 || v < n {
                    v
                } else if *pos > d.len() {
                    ((v as u128 * n as u128) >> 64) as u64
                } else {
                    v % n
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usize_below(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true in `num` of `den` cases; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize_below(xs.len());
        &xs[i]
    }
    /// weighted alternative: returns an index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    /// `len` bytes; short strings are drawn byte by byte (so they shrink), long
    /// ones are expanded from one drawn seed with a few drawn edits.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        if len > 1 && self.steer(32) {
            // octets of the code under test at the start, the end or anywhere
            let m = self.mined_bytes();
            let mut v = self.plain_bytes(len);
            let n = m.len().min(len);
            let at = match self.below(3) {
                0 => 0,
                1 => len - n,
                _ => self.usize_below(len - n + 1),
            };
            v[at..at + n].copy_from_slice(&m[..n]);
            return v;
        }
        self.plain_bytes(len)
    }
    fn plain_bytes(&mut self, len: usize) -> Vec<u8> {
        if len <= 24 {
            // now and then all the same
            if len > 1 && self.chance(1, 16) {
                return vec![self.special_byte(); len];
            }
            return (0..len).map(|_| self.special_byte()).collect();
        }
        let mut v: Vec<u8> = match self.weighted(&[1, 1, 1, 12]) {
            0 => vec![0; len],
            1 => vec![self.special_byte(); len],
            2 => {
                // a repeated block
                let k = self.range(2, 20) as usize;
                let b: Vec<u8> = (0..k).map(|_| self.special_byte()).collect();
                (0..len).map(|i| b[i % k]).collect()
            }
            _ => {
                let mut s = self.below(1 << 32);
                (0..len).map(|_| splitmix(&mut s) as u8).collect()
            }
        };
        let edits = self.below(4);
        for _ in 0..edits {
            let i = self.usize_below(len);
            v[i] = self.special_byte();
        }
        v
    }
    pub fn special_byte(&mut self) -> u8 {
        match self.below(9) {
            8 => self.mined_int(255) as u8,
            0 => *self.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFF, 0xFE, 0x20, 0x30, 0x0F, 0x10]),
            _ => self.byte(),
        }
    }
    /// picks from a dictionary of literals: fresh ones first, if there are any
    fn dict<'a, T>(&mut self, fresh: &'a [T], all: &'a [T]) -> Option<&'a T> {
        if !fresh.is_empty() && !self.chance(1, 3) {
            Some(self.pick(fresh))
        } else if !all.is_empty() {
            Some(self.pick(all))
        } else {
            None
        }
    }
    /// a number at most `max` that is, or is next to, one in the code under test
    pub fn mined_int(&mut self, max: u64) -> u64 {
        let m = crate::mine::mined();
        let cut = |v: &'static [u64]| &v[..v.partition_point(|x| *x <= max)];
        let x = self.dict(cut(&m.fresh.ints), cut(&m.all.ints)).copied().unwrap_or(0);
        match self.below(5) {
            3 => x.saturating_add(1).min(max),
            4 => x.saturating_sub(1),
            _ => x,
        }
    }
    /// true now and then, more often if the code has literals new to the harness
    pub fn steer(&mut self, one_in: u64) -> bool {
        let m = crate::mine::mined();
        let fresh = !m.fresh.ints.is_empty() || !m.fresh.lists.is_empty() || !m.fresh.texts.is_empty();
        self.chance(if fresh { 3 } else { 1 }, one_in)
    }
    /// octets that are in the code under test
    pub fn mined_bytes(&mut self) -> Vec<u8> {
        let m = crate::mine::mined();
        let text = if m.fresh.lists.is_empty() != m.fresh.texts.is_empty() { m.fresh.lists.is_empty() } else { self.flip() };
        let mut b = if text {
            self.dict(&m.fresh.texts, &m.all.texts).cloned().unwrap_or_default()
        } else {
            self.dict(&m.fresh.lists, &m.all.lists).map(|l| l.iter().map(|x| *x as u8).collect()).unwrap_or_default()
        };
        if !b.is_empty() && self.chance(1, 8) {
            let i = self.usize_below(b.len());
            b[i] = self.byte();
        }
        b
    }
    pub fn mined_text(&mut self) -> String {
        let m = crate::mine::mined();
        let b = self.dict(&m.fresh.texts, &m.all.texts).cloned().unwrap_or_default();
        String::from_utf8(b).unwrap_or_default()
    }
    pub fn mined_list(&mut self) -> Vec<u64> {
        let m = crate::mine::mined();
        self.dict(&m.fresh.lists, &m.all.lists).cloned().unwrap_or_default()
    }
    /// as `len`, mostly at most `small` but now and then up to `big`
    pub fn len_tail(&mut self, small: usize, big: usize) -> usize {
        if self.steer(64) {
            self.mined_int(big as u64) as usize
        } else if self.chance(1, 16) {
            self.len(big)
        } else {
            self.len(small)
        }
    }
    /// a number of elements: mostly at most `small`, now and then up to `big`
    pub fn count(&mut self, small: usize, big: usize) -> usize {
        if self.steer(64) {
            self.mined_int(big as u64) as usize
        } else if self.chance(1, 24) {
            self.len(big)
        } else {
            self.usize_below(small + 1)
        }
    }
    /// a length biased to small values and to encoding boundaries
    pub fn len(&mut self, max: usize) -> usize {
        if self.steer(48) {
            return self.mined_int(max as u64) as usize;
        }
        let v = match self.weighted(&[40, 20, 10, 6, 2, 1]) {
            0 => self.below(9) as usize,
            1 => self.below(40) as usize,
            2 => *self.pick(&[
                15usize, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258,
            ]),
            3 => self.below(600) as usize,
            4 => self.below(6000) as usize,
            _ => *self.pick(&[511usize, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537]),
        };
        v.min(max)
    }
}

// ---------------------------------------------------------------- per-case data

/// What a check tells about the case it ran.
#[derive(Default)]
pub struct Ctx {
    /// the input(s) presented to the code under test
    pub input: Vec<u8>,
    pub note: String,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    /// number of evaluations folded into this case (for enumerating cases)
    pub evals: u64,
    /// number of distinct non-trivial inputs folded into this case beyond the
    /// one keyed by `input`
    pub extra_nontrivial: u64,
}

impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn set_input(&mut self, i: &[u8]) {
        self.input.clear();
        self.input.extend_from_slice(i);
    }
}

pub type Res = Result<(), String>;
pub type CheckFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    /// number of cases in the quick / thorough tier; an exhaustive sub-check
    /// receives the index as its first choice instead of a seed
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

pub fn case_seed(seed: u64, id: &str, sub: &str, idx: u64) -> u64 {
    let mut s = seed ^ hash64(id.as_bytes()).rotate_left(17) ^ hash64(sub.as_bytes());
    let a = splitmix(&mut s);
    let mut t = a ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03);
    splitmix(&mut t)
}

// ---------------------------------------------------------------- guarding

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            let s = format!("{}", info);
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        } else {
            default(info);
        }
    }));
}

/// How many calls of the code under test each thread of the run has begun: a case
/// that takes long because it makes many calls is not one that does not end.
pub static CALLS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
thread_local! {
    static CALLER: Cell<usize> = const { Cell::new(0) };
}
pub fn set_caller(i: usize) {
    CALLER.with(|c| c.set(i % CALLS.len()));
}

/// Calls the code under test; a panic becomes an error naming it.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    CALLS[CALLER.with(|c| c.get())].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| {
        let p = LAST_PANIC.with(|l| l.borrow().clone());
        format!("{} panicked: {}", what, p.replace('\n', " "))
    })
}

/// Runs a whole case. A panic raised in the code under test outside a `guard`
/// is a failure of the case; any other panic is the harness's own and goes on.
pub fn run_check(f: CheckFn, s: &mut Src, ctx: &mut Ctx) -> Res {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(|| f(s, ctx)));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(r) => r,
        Err(e) => {
            let p = LAST_PANIC.with(|l| l.borrow().clone());
            if p.contains("/rx509/src/") {
                Err(format!("the code under test panicked: {}", p.replace('\n', " ")))
            } else {
                eprintln!("harness panic: {}", p);
                std::panic::resume_unwind(e)
            }
        }
    }
}

// ---------------------------------------------------------------- allocator

/// System allocator that counts live bytes per thread.
pub struct CountingAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    // bytes allocated or moved
    static MOVED: Cell<u64> = const { Cell::new(0) };
    // far above what any check needs: runaway allocation ends the process instead
    // of filling the machine
    static CAP: Cell<isize> = const { Cell::new(1 << 30) };
}

fn on_alloc(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if v > CAP.with(|c| c.get()) {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        MOVED.with(|c| c.set(c.get() + n.max(0) as u64));
        true
    })
    .unwrap_or(true)
}

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !on_alloc(l.size() as isize) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if !on_alloc(l.size() as isize) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if !on_alloc(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        if n > l.size() {
            // what is there already may have to be copied
            let _ = MOVED.try_with(|c| c.set(c.get() + l.size() as u64));
        }
        System_realloc(p, l, n)
    }
}
#[allow(non_snake_case)]
unsafe fn System_realloc(p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
    use std::alloc::GlobalAlloc;
    std::alloc::System.realloc(p, l, n)
}

/// Runs `f`, returning (result, peak bytes above the start, bytes ever allocated).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let start = LIVE.with(|l| l.get());
    let c0 = MOVED.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - start;
    let n = MOVED.with(|c| c.get()) - c0;
    (r, peak.max(0) as u64, n)
}

/// Allocation beyond `bytes` above the present level fails (the process aborts).
pub fn with_cap<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    let start = LIVE.with(|l| l.get());
    CAP.with(|c| c.set(start + bytes as isize));
    let r = f();
    CAP.with(|c| c.set(1 << 30));
    r
}

/// Zero octets that take no memory until they are written. Code that copies
/// them would take time and memory, so only one of the larger kind exists at a
/// time, and none is handed out once they have taken too long altogether.
pub struct Zeros {
    p: *mut u8,
    len: usize,
    since: std::time::Instant,
    _alone: Option<std::sync::MutexGuard<'static, ()>>,
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
static TAKEN_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Zeros {
    pub fn new(len: usize) -> Option<Zeros> {
        let _alone = if len > 1 << 26 { Some(ALONE.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
        if TAKEN_MS.load(std::sync::atomic::Ordering::Relaxed) > 60_000 * 8 {
            return None;
        }
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), len.max(1), 3, 0x4022, -1, 0) };
        if p as isize == -1 {
            None
        } else {
            Some(Zeros { p, len, since: std::time::Instant::now(), _alone })
        }
    }
    pub fn get(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
}
impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { munmap(self.p, self.len.max(1)) };
        let ms = self.since.elapsed().as_millis() as u64;
        TAKEN_MS.fetch_add(if self._alone.is_some() { ms * 8 } else { ms }, std::sync::atomic::Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- shrinking

/// Shrinks `choices`, keeping `fails` true. `budget` bounds the evaluations.
pub fn shrink(choices: Vec<u64>, mut budget: u64, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    // `fails` returns the choices actually consumed if the case still fails
    let mut cur = choices;
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let mut improved = false;
        // delete chunks
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 && budget > 0 {
            let mut i = 0;
            while i < cur.len() && budget > 0 {
                let mut cand = cur.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                budget -= 1;
                match fails(&cand) {
                    Some(c) if better(&c, &cur) => {
                        cur = c;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 && budget > 0 {
            let mut i = 0;
            while i < cur.len() && budget > 0 {
                let end = (i + size).min(cur.len());
                if cur[i..end].iter().any(|x| *x != 0) {
                    let mut cand = cur.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    budget -= 1;
                    if let Some(c) = fails(&cand) {
                        if better(&c, &cur) {
                            cur = c;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < cur.len() && budget > 0 {
            let mut lo = 0u64;
            while i < cur.len() && lo < cur[i] && budget > 0 {
                let mid = lo + (cur[i] - lo) / 2;
                let mut cand = cur.clone();
                cand[i] = mid;
                budget -= 1;
                match fails(&cand) {
                    Some(c) if better(&c, &cur) => {
                        cur = c;
                        improved = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if !improved || budget == 0 {
            return cur;
        }
    }
}

// ---------------------------------------------------------------- helpers

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}
pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 200 {
        hex(b)
    } else {
        format!("{}...({} bytes)...{}", hex(&b[..120]), b.len(), hex(&b[b.len() - 40..]))
    }
}
