//! Callbacks of LLVM's SanitizerCoverage and the features read from them. This crate is not instrumented itself.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
static ON: AtomicBool = AtomicBool::new(false);
const CMP: usize = 1 << 16;
/// comparisons seen by the current execution: (feature, constant)
static TRACE: Mutex<Vec<(u16, u64)>> = Mutex::new(Vec::new());
/// features already in TRACE, one bit each
static SEEN: [AtomicU64; CMP / 64] = [const { AtomicU64::new(0) }; CMP / 64];

/// Comparisons are recorded only while a case runs.
pub fn on(v: bool) {
    ON.store(v, Ordering::SeqCst);
}

fn cmp(width: u64, c: u64, v: u64) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let d = (c ^ v).count_ones() as u64;
    let h = (c.wrapping_mul(0x9e3779b97f4a7c15) ^ width.wrapping_mul(0xff51afd7ed558ccd)).rotate_left(23).wrapping_add(d.wrapping_mul(0xc4ceb9fe1a85ec53));
    let f = (h >> 48) as u16;
    let (w, bit) = (f as usize >> 6, 1u64 << (f & 63));
    if SEEN[w].load(Ordering::Relaxed) & bit != 0 {
        return;
    }
    if let Ok(mut t) = TRACE.try_lock() {
        if SEEN[w].fetch_or(bit, Ordering::Relaxed) & bit == 0 {
            t.push((f, c));
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    if (b as usize) > a as usize {
        REGIONS.lock().unwrap().push((a as usize, b as usize));
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(c: u8, v: u8) {
    cmp(1, c as u64, v as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(c: u16, v: u16) {
    cmp(2, c as u64, v as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(c: u32, v: u32) {
    cmp(4, c as u64, v as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(c: u64, v: u64) {
    cmp(8, c, v)
}
/// # Safety
/// called by instrumented code only: `cases` is [count, width, constants...]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let n = (*cases).min(64) as usize;
    for i in 0..n {
        cmp(*cases.add(1), *cases.add(2 + i), v);
    }
}

/// What all executions so far have reached.
pub struct Coverage {
    seen: Vec<Vec<u8>>,
    cmp: Vec<bool>,
    pub features: u64,
}

impl Default for Coverage {
    fn default() -> Self {
        Self::new()
    }
}

impl Coverage {
    pub fn new() -> Coverage {
        let r = REGIONS.lock().unwrap();
        Coverage { seen: r.iter().map(|(a, b)| vec![0; b - a]).collect(), cmp: vec![false; CMP], features: 0 }
    }
    pub fn counters(&self) -> usize {
        self.seen.iter().map(|s| s.len()).sum()
    }
    pub fn clear(&self) {
        for (a, b) in REGIONS.lock().unwrap().iter() {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
        for (f, _) in TRACE.lock().unwrap().drain(..) {
            SEEN[f as usize >> 6].fetch_and(!(1u64 << (f & 63)), Ordering::Relaxed);
        }
    }
    /// number of features the execution since `clear` reached for the first time; `learn` gets the constants
    /// of comparisons that are new
    pub fn fresh(&mut self, learn: &mut dyn FnMut(u64)) -> u64 {
        let mut new = 0;
        for ((a, b), seen) in REGIONS.lock().unwrap().iter().zip(self.seen.iter_mut()) {
            let s = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
            for (chunk, seen) in s.chunks(64).zip(seen.chunks_mut(64)) {
                if chunk.iter().fold(0u8, |x, y| x | y) == 0 {
                    continue;
                }
                for (c, s) in chunk.iter().zip(seen) {
                    let bit = match c {
                        0 => continue,
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if *s & bit == 0 {
                        *s |= bit;
                        new += 1;
                    }
                }
            }
        }
        for (f, c) in TRACE.lock().unwrap().iter() {
            if !self.cmp[*f as usize] {
                self.cmp[*f as usize] = true;
                new += 1;
                learn(*c);
            }
        }
        self.features += new;
        new
    }
}
