//! Coverage of the code under test, per thread.
//!
//! `rustc-cov.sh` compiles the code under test with LLVM's coverage callbacks:
//! one per edge, one per integer comparison and one per switch. While a thread
//! records, its own map notes which edges ran how often, how close the operands
//! of each comparison came, and a sample of unequal operands.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const EDGES: usize = 1 << 15;
const NEAR: usize = 1 << 16;
/// edge x how often (8 classes), then the comparison bits
pub const FEATURES: usize = EDGES * 8 + NEAR;
const PAIRS: usize = 128;

pub struct Map {
    edges: Box<[u8; EDGES]>,
    near: Box<[u64; NEAR / 64]>,
    pairs: [(u64, u64); PAIRS],
    npairs: usize,
    /// edges run
    pub work: u64,
}
impl Map {
    pub fn new() -> Box<Map> {
        Box::new(Map { edges: Box::new([0; EDGES]), near: Box::new([0; NEAR / 64]), pairs: [(0, 0); PAIRS], npairs: 0, work: 0 })
    }
    fn clear(&mut self) {
        let n = (used() as usize).min(EDGES);
        self.edges[..n].fill(0);
        self.near.fill(0);
        self.npairs = 0;
        self.work = 0;
    }
    /// all features of the last run
    pub fn features(&self, mut f: impl FnMut(usize)) {
        let n = (used() as usize).min(EDGES);
        for (i, &c) in self.edges[..n].iter().enumerate() {
            if c > 0 {
                let class = match c {
                    1 => 0,
                    2 => 1,
                    3 => 2,
                    4..=7 => 3,
                    8..=31 => 4,
                    32..=254 => 5,
                    _ => 6,
                };
                f(i * 8 + class);
            }
        }
        for (i, &w) in self.near.iter().enumerate() {
            let mut w = w;
            while w != 0 {
                f(EDGES * 8 + i * 64 + w.trailing_zeros() as usize);
                w &= w - 1;
            }
        }
    }
    /// operands of comparisons that were not equal
    pub fn pairs(&self) -> &[(u64, u64)] {
        &self.pairs[..self.npairs.min(PAIRS)]
    }
}

thread_local! {
    static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) };
}
static USED: AtomicU32 = AtomicU32::new(1);

/// edges of the code under test (0 if it is not instrumented)
pub fn used() -> u32 {
    USED.load(Relaxed)
}

/// Runs `f`, recording what this thread does in the code under test.
pub fn record<T>(m: &mut Map, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            MAP.with(|p| p.set(std::ptr::null_mut()))
        }
    }
    m.clear();
    MAP.with(|p| p.set(m));
    let _off = Off;
    f()
}

/// Runs `f`; how many edges of the code under test this thread ran in it.
pub fn work<T>(f: impl FnOnce() -> T) -> (T, u64) {
    thread_local! {
        static OWN: Cell<*mut Map> = Cell::new(Box::into_raw(Map::new()));
    }
    struct Off(*mut Map);
    impl Drop for Off {
        fn drop(&mut self) {
            MAP.with(|p| p.set(self.0))
        }
    }
    let was = MAP.get();
    let m = if was.is_null() { OWN.with(|o| o.get()) } else { was };
    MAP.with(|p| p.set(m));
    let _off = Off(was);
    let before = unsafe { (*m).work };
    let r = f();
    let n = unsafe { (*m).work } - before;
    (r, n)
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        while start < stop {
            *start = USED.fetch_add(1, Relaxed);
            start = start.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let p = MAP.get();
    if !p.is_null() {
        unsafe {
            (*p).work += 1;
            let e = &mut (*p).edges[*g as usize % EDGES];
            *e = e.saturating_add(1);
        }
    }
}

fn base() -> usize {
    __sanitizer_cov_trace_pc_guard_init as *const () as usize
}
extern "C" fn on_cmp(a: u64, b: u64, site: usize) {
    let p = MAP.get();
    if !p.is_null() {
        let m = unsafe { &mut *p };
        let near = (a ^ b).count_ones() as usize;
        // how many bits differ, and how far apart the values are
        let far = 64 - a.abs_diff(b).leading_zeros() as usize;
        let h = (site.wrapping_sub(base())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let i = (h >> 20).wrapping_add(near) % NEAR;
        m.near[i / 64] |= 1 << (i % 64);
        let i = (h >> 36).wrapping_add(far) % NEAR;
        m.near[i / 64] |= 1 << (i % 64);
        if a != b {
            // keep the first ones, then a spread of the others
            let k = m.npairs;
            if k < PAIRS || k % 61 == 0 {
                m.pairs[if k < PAIRS { k } else { k / 61 % PAIRS }] = (a, b);
            }
            m.npairs = k + 1;
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let p = MAP.get();
    if !p.is_null() {
        let n = unsafe { *cases };
        for i in 0..n.min(64) {
            let c = unsafe { *cases.add(2 + i as usize) };
            on_cmp(v, c, (cases as usize).wrapping_add(i as usize * 131));
        }
    }
}
macro_rules! cmp {
    ($($name:ident $prep:literal)*) => {$(
        /// passes the place of the call on as the third argument
        #[unsafe(naked)]
        #[no_mangle]
        extern "C" fn $name() {
            std::arch::naked_asm!($prep, "mov rdx, [rsp]", "jmp {f}", f = sym on_cmp)
        }
    )*};
}
cmp! {
    __sanitizer_cov_trace_cmp1 "movzx edi, dil\nmovzx esi, sil"
    __sanitizer_cov_trace_cmp2 "movzx edi, di\nmovzx esi, si"
    __sanitizer_cov_trace_cmp4 "mov edi, edi\nmov esi, esi"
    __sanitizer_cov_trace_cmp8 ""
    __sanitizer_cov_trace_const_cmp1 "movzx edi, dil\nmovzx esi, sil"
    __sanitizer_cov_trace_const_cmp2 "movzx edi, di\nmovzx esi, si"
    __sanitizer_cov_trace_const_cmp4 "mov edi, edi\nmov esi, esi"
    __sanitizer_cov_trace_const_cmp8 ""
}
