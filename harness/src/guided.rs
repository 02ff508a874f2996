//! Coverage-guided generation: tapes that reached something new are kept and mutated. "Something new" is an
//! edge of ibig's code taken a new (bucketed) number of times, or a comparison in it whose operands were never
//! before that close or that far apart. Used when ibig is compiled with LLVM's coverage callbacks (cfg guided).

use crate::tape::{mix, Rng};

static mut COUNTERS: (*mut u8, *mut u8) = (std::ptr::null_mut(), std::ptr::null_mut());
const CMP_BITS: u32 = 20;
static mut CMP_SEEN: [u8; 1 << CMP_BITS] = [0; 1 << CMP_BITS];
static mut CMP_NEW: u32 = 0;
/// Comparisons made in this case: what it costs.
static mut CMPS: u64 = 0;
static mut ON: bool = false;

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    // One instrumented module per codegen unit: their counters lie in one section, side by side.
    if COUNTERS.0.is_null() || start < COUNTERS.0 {
        COUNTERS.0 = start;
    }
    if stop > COUNTERS.1 {
        COUNTERS.1 = stop;
    }
}

#[no_mangle]
unsafe extern "C" fn guided_cmp(a: u64, b: u64, pc: u64) {
    if !ON {
        return;
    }
    CMPS += 1;
    // Relative, so that a run does not depend on where the program is loaded.
    let pc = pc.wrapping_sub(guided_cmp as *const () as u64);
    let near = (a ^ b).count_ones() as u64;
    let gap = 64 - a.wrapping_sub(b).leading_zeros().max(b.wrapping_sub(a).leading_zeros()) as u64;
    for f in [near, 128 + gap] {
        let h = (pc.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ f.wrapping_mul(0xc2b2_ae3d_27d4_eb4f)).wrapping_mul(0xff51_afd7_ed55_8ccd);
        let i = (h >> (64 - CMP_BITS)) as usize;
        if CMP_SEEN[i] == 0 {
            CMP_SEEN[i] = 1;
            CMP_NEW += 1;
        }
    }
}

// The return address tells comparisons apart.
std::arch::global_asm!(
    ".macro GUIDED_CMP name, a, b",
    ".globl \\name",
    "\\name:",
    "\\a",
    "\\b",
    "mov rdx, [rsp]",
    "jmp {f}",
    ".endm",
    "GUIDED_CMP __sanitizer_cov_trace_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
    "GUIDED_CMP __sanitizer_cov_trace_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
    "GUIDED_CMP __sanitizer_cov_trace_cmp4, \"mov edi, edi\", \"mov esi, esi\"",
    "GUIDED_CMP __sanitizer_cov_trace_cmp8, \"nop\", \"nop\"",
    "GUIDED_CMP __sanitizer_cov_trace_const_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
    "GUIDED_CMP __sanitizer_cov_trace_const_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
    "GUIDED_CMP __sanitizer_cov_trace_const_cmp4, \"mov edi, edi\", \"mov esi, esi\"",
    "GUIDED_CMP __sanitizer_cov_trace_const_cmp8, \"nop\", \"nop\"",
    ".globl __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_switch: ret",
    f = sym guided_cmp,
);

pub struct Engine {
    rng: Rng,
    corpus: Vec<Vec<u64>>,
    /// Of each kept tape.
    cost: Vec<u64>,
    /// Running mean over the cases that are not mutated.
    mean_cost: f64,
    fresh: bool,
    /// Buckets seen, per counter.
    seen: Vec<u8>,
    /// Cases that reached it, and the latest kept tape that did, per counter.
    hits: Vec<u32>,
    latest: Vec<u32>,
    reached: Vec<u32>,
    file: Option<std::fs::File>,
    touched: Vec<u32>,
}

const TAIL: usize = 48;
const MAX_TAPE: usize = 4000;

impl Engine {
    pub fn new(seed: u64, tape_file: Option<&String>) -> Engine {
        let n = unsafe { COUNTERS.1.offset_from(COUNTERS.0) } as usize;
        Engine {
            rng: Rng(mix(seed, 0x9d)),
            corpus: Vec::new(),
            cost: Vec::new(),
            mean_cost: 0.0,
            fresh: false,
            seen: vec![0; n],
            hits: vec![0; n],
            latest: vec![u32::MAX; n],
            reached: Vec::new(),
            file: tape_file.map(|p| std::fs::File::create(p).expect("tape file")),
            touched: Vec::new(),
        }
    }

    fn below(&mut self, n: usize) -> usize {
        ((self.rng.next() as u128 * n as u128) >> 64) as usize
    }

    /// A kept tape; those much more expensive than usual are picked as much less often, so that all get their share
    /// of the work.
    fn pick(&mut self) -> usize {
        let mut i = self.pick_any();
        for _ in 0..8 {
            let bound = 2.0 * self.mean_cost + 100.0;
            let cost = self.cost[i] as f64;
            if cost <= bound || (self.below(1 << 20) as f64) < bound / cost * (1 << 20) as f64 {
                break;
            }
            i = self.pick_any();
        }
        i
    }

    fn pick_any(&mut self) -> usize {
        let n = self.corpus.len();
        match self.below(4) {
            0 => n - 1 - self.below(n.min(40)),
            1 => self.below(n),
            _ => {
                // Something rarely reached.
                let m = self.reached.len();
                let k = self.below(m);
                let mut best = self.reached[k] as usize;
                for _ in 0..self.below(12) {
                    let k = self.below(m);
                    let i = self.reached[k] as usize;
                    if self.hits[i] < self.hits[best] {
                        best = i;
                    }
                }
                (self.latest[best] as usize).min(n - 1)
            }
        }
    }

    /// The tape of the next case.
    pub fn next(&mut self) -> Vec<u64> {
        let mut t = Vec::new();
        if self.corpus.len() >= 20 && self.below(8) != 0 {
            let i = self.pick();
            t = self.corpus[i].clone();
            for _ in 0..1 + self.below(4) {
                self.mutate(&mut t);
            }
        }
        let fresh = t.is_empty();
        self.fresh = fresh;
        for _ in 0..if fresh { MAX_TAPE / 4 } else { TAIL } {
            t.push(self.rng.next());
        }
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let mut b = Vec::with_capacity(8 * t.len() + 8);
            b.extend((t.len() as u64).to_le_bytes());
            for x in &t {
                b.extend(x.to_le_bytes());
            }
            let _ = f.write_all_at(&b, 0);
        }
        t
    }

    fn mutate(&mut self, t: &mut Vec<u64>) {
        let n = t.len();
        if n == 0 {
            return;
        }
        let i = self.below(n);
        match self.below(10) {
            0 => t[i] = self.rng.next(),
            1 | 2 => t[i] = self.below(24) as u64,
            3 => {
                let d = 1 + self.below(3) as u64;
                t[i] = if self.below(2) == 0 { t[i].wrapping_add(d) } else { t[i].saturating_sub(d) };
            }
            4 => t[i] ^= 1 << self.below(64),
            5 => t[i] = t[self.below(n)],
            6 => {
                let e = (i + 1 + self.below(8)).min(n);
                t.drain(i..e);
            }
            7 => {
                let new: Vec<u64> = (0..1 + self.below(6)).map(|_| self.rng.next()).collect();
                t.splice(i..i, new);
            }
            8 => {
                let e = (i + 1 + self.below(12)).min(n);
                let part = t[i..e].to_vec();
                let j = self.below(n + 1);
                t.splice(j..j, part);
            }
            _ => {
                let k = self.pick();
                let cut = self.below(self.corpus[k].len().max(1));
                t.truncate(i);
                let other = &self.corpus[k];
                t.extend_from_slice(&other[cut.min(other.len())..]);
            }
        }
        t.truncate(MAX_TAPE);
    }

    pub fn start(&mut self) {
        unsafe {
            std::ptr::write_bytes(COUNTERS.0, 0, self.seen.len());
            CMP_NEW = 0;
            CMPS = 0;
            ON = true;
        }
    }

    /// The case is over; keep its tape if it showed something new.
    pub fn finish(&mut self, used: &[u64]) {
        let (mut new, cost) = unsafe {
            ON = false;
            (CMP_NEW, CMPS)
        };
        if self.fresh {
            let step = if self.mean_cost == 0.0 { 1.0 } else { 0.01 };
            self.mean_cost += step * (cost as f64 - self.mean_cost);
        }
        let counters = unsafe { std::slice::from_raw_parts(COUNTERS.0, self.seen.len()) };
        self.touched.clear();
        for (b, block) in counters.chunks(8).enumerate() {
            if block.iter().all(|&c| c == 0) {
                continue;
            }
            for (k, &c) in block.iter().enumerate() {
                let bucket = match c {
                    0 => continue,
                    1..=3 => 1 << (c - 1),
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                let i = 8 * b + k;
                self.touched.push(i as u32);
                self.hits[i] += 1;
                if self.seen[i] & bucket == 0 {
                    if self.seen[i] == 0 {
                        self.reached.push(i as u32);
                    }
                    self.seen[i] |= bucket;
                    new += 1;
                }
            }
        }
        if new > 0 && used.len() <= MAX_TAPE && self.corpus.len() < 200_000 {
            for &i in &self.touched {
                let old = &mut self.latest[i as usize];
                if *old == u32::MAX || cost <= 2 * self.cost[*old as usize] {
                    *old = self.corpus.len() as u32;
                }
            }
            self.corpus.push(used.to_vec());
            self.cost.push(cost);
        }
    }

    pub fn edges(&self) -> usize {
        self.reached.len()
    }

    pub fn corpus_len(&self) -> usize {
        self.corpus.len()
    }

    pub fn counters(&self) -> usize {
        self.seen.len()
    }
}
