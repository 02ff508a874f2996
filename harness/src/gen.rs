//! Structured generators for numbers: what breaks big-integer code is lengths near algorithm
//! switches and words that make carries, borrows and quotient estimates go the rare way.

use crate::num::{Int, Nat};
use crate::tape::{Rng, Tape};
use ibig::{ops::UnsignedAbs, IBig, UBig};

/// Word size of the implementation in this build (only used to aim at its boundaries).
pub const W: usize = if cfg!(force_bits = "16") {
    16
} else if cfg!(force_bits = "32") {
    32
} else if cfg!(force_bits = "64") {
    64
} else if cfg!(target_arch = "x86") {
    32
} else {
    64
};

/// Values are kept below this many bits (16-bit builds support 65536).
pub const HARD_MAX_BITS: usize = if W == 16 { 65536 } else { usize::MAX };

const MASK: u64 = if W == 64 { u64::MAX } else { (1 << W) - 1 };
const HIGH: u64 = 1 << (W - 1);

pub fn word(t: &mut Tape) -> u64 {
    let x = match t.below(14) {
        0 => 0,
        1 => 1,
        2 => MASK,
        3 => MASK - 1,
        4 => HIGH,
        5 => HIGH - 1,
        6 => HIGH + 1,
        7 => t.draw(17),
        8 => 1 << t.below(W),
        9 => (1u64 << t.below(W)) - 1,
        10 => MASK << t.below(W),
        _ => t.raw() >> (64 - W),
    };
    x & MASK
}

fn word_rng(r: &mut Rng, kind: u64) -> u64 {
    match kind {
        // special words
        0 => match r.next() % 10 {
            0 | 1 => 0,
            2 => 1,
            3 | 4 => MASK,
            5 => MASK - 1,
            6 => HIGH,
            7 => HIGH - 1,
            _ => r.next() & MASK,
        },
        // mostly ones
        1 => if r.next() % 16 == 0 { r.next() & MASK } else { MASK },
        // mostly zeros
        2 => if r.next() % 16 == 0 { r.next() & MASK } else { 0 },
        // extremes only
        3 => match r.next() % 4 { 0 => 0, 1 => MASK, 2 => HIGH, _ => HIGH - 1 },
        5 => 0,
        6 => MASK,
        _ => r.next() & MASK,
    }
}

/// Words of W bits packed into a Nat.
pub fn pack(words: &[u64]) -> Nat {
    let mut bytes = Vec::with_capacity(words.len() * W / 8);
    for w in words {
        bytes.extend_from_slice(&w.to_le_bytes()[..W / 8]);
    }
    Nat::from_le_bytes(&bytes)
}

/// `len` words in one of several styles.
pub fn words(t: &mut Tape, len: usize) -> Vec<u64> {
    if len == 0 {
        return Vec::new();
    }
    match t.below(10) {
        0 | 1 if len <= 8 => (0..len).map(|_| word(t)).collect(),
        0 => {
            let mut r = t.sub();
            (0..len).map(|_| word_rng(&mut r, 9)).collect()
        }
        1 => {
            let mut r = t.sub();
            (0..len).map(|_| word_rng(&mut r, 0)).collect()
        }
        2 => {
            let mut r = t.sub();
            (0..len).map(|_| word_rng(&mut r, 1)).collect()
        }
        3 => {
            let mut r = t.sub();
            (0..len).map(|_| word_rng(&mut r, 2)).collect()
        }
        4 => {
            // bit runs
            let mut r = t.sub();
            let longest = if r.next() % 2 == 0 { 3 * W } else { (len * W / 2).max(1) };
            let scale = 1 + r.next() % longest as u64;
            let (mut bit, mut left) = (r.next() & 1, 0);
            (0..len)
                .map(|_| {
                    let mut x = 0;
                    for i in 0..W {
                        if left == 0 {
                            left = 1 + r.next() % scale;
                            bit ^= 1;
                        }
                        left -= 1;
                        x |= bit << i;
                    }
                    x
                })
                .collect()
        }
        5 => vec![MASK; len],
        6 => {
            // one repeated word
            let w = word(t);
            vec![w; len]
        }
        7 => {
            // segments in different styles (halves and thirds of recursive algorithms)
            let mut r = t.sub();
            let segs = 2 + r.next() as usize % 5;
            let seg = len.div_ceil(segs).max(1);
            let mut v = Vec::new();
            while v.len() < len {
                let k = r.next() % 7;
                for _ in 0..seg.min(len - v.len()) {
                    v.push(word_rng(&mut r, k));
                }
            }
            v
        }
        8 => {
            // a polynomial in a power of the word base with small coefficients of either sign:
            // products of such values have runs of zeros and ones as long as the recursion's pieces
            let mut r = t.sub();
            let pieces = 2 + r.next() as usize % 5;
            let m = len.div_ceil(pieces).max(1);
            let m = m + (r.next() % 8 == 0) as usize;
            let mut v = vec![0u64; len];
            for i in (0..len).step_by(m) {
                let small = [0, 1, 1, 2, 3, HIGH][r.next() as usize % 6];
                let mut carry = small;
                let minus = r.next() % 2 == 0;
                for w in &mut v[i..] {
                    if carry == 0 {
                        break;
                    }
                    let old = *w;
                    if minus {
                        *w = old.wrapping_sub(carry) & MASK;
                        carry = (old < carry) as u64;
                    } else {
                        *w = old.wrapping_add(carry) & MASK;
                        carry = (*w < old) as u64;
                    }
                }
            }
            v
        }
        _ => {
            // sparse: a few single bits
            let mut v = vec![0; len];
            for _ in 0..1 + t.below(4) {
                let i = t.below(len);
                v[i] |= 1 << t.below(W);
            }
            v
        }
    }
}

/// A length in words up to `max`, biased to small values and to neighbourhoods of `marks`.
pub fn length(t: &mut Tape, max: usize, marks: &[usize]) -> usize {
    match t.weighted(&[6, 5, 3, 3]) {
        0 => t.below(max.min(4) + 1),
        1 => t.below(max.min(36) + 1),
        2 if !marks.is_empty() => {
            let m = *t.pick(marks);
            (m + t.below(7)).saturating_sub(3).min(max)
        }
        _ => {
            // log-uniform
            let bits = 64 - (max as u64).leading_zeros() as usize;
            let b = t.below(bits + 1);
            t.below((1usize << b).min(max) + 1)
        }
    }
}

pub fn nat_len(t: &mut Tape, len: usize) -> Nat {
    let mut w = words(t, len);
    if let Some(top) = w.last_mut() {
        // Usually an honest length; sometimes shape the top word.
        match t.below(8) {
            0 => *top = 1,
            1 => *top = HIGH,
            2 => *top = MASK,
            3 => {}
            _ => {
                if *top == 0 {
                    *top = 1 + (t.raw() & (MASK >> 1));
                }
            }
        }
    }
    pack(&w)
}

pub const MARKS: &[usize] = &[2, 3, 4, 24, 25, 32, 33, 48, 64];

/// A natural number of at most `max` words.
/// A length far beyond every threshold, for operations that take linear time.
#[allow(dead_code)]
pub fn far_words(t: &mut Tape) -> usize {
    if W == 16 {
        3900
    } else {
        *t.pick(&[4200usize, 17_000, 66_000, 70_000])
    }
}

pub fn nat(t: &mut Tape, max: usize) -> Nat {
    let len = length(t, max, MARKS);
    nat_len(t, len)
}

pub fn nat_nonzero(t: &mut Tape, max: usize) -> Nat {
    let x = nat(t, max);
    if x.is_zero() {
        Nat::from_u64(1 + t.draw(3))
    } else {
        x
    }
}

/// A natural number of at most `bits` bits, whatever the word size of the build
/// (boundaries of 16-, 32- and 64-bit words are all aimed at).
pub fn nat_bits(t: &mut Tape, bits: usize) -> Nat {
    let unit = *t.pick(&[16usize, 32, 64, 128]);
    let n = t.below(bits / unit + 1);
    let r = &mut t.sub();
    let style = t.below(8) as u64;
    let mut limbs = Vec::new();
    let mut i = 0;
    let (mut run, mut ones) = (0, false);
    let scale = 1 + r.next() % 200;
    while i < n * unit {
        let x = match style {
            0 => r.next() as u32,
            1 => u32::MAX,
            2 => if i % unit == 0 { 1 } else { 0 },
            3 => match r.next() % 4 { 0 => 0, 1 | 2 => u32::MAX, _ => r.next() as u32 },
            4 => match r.next() % 4 { 0 | 1 => 0, 2 => u32::MAX, _ => r.next() as u32 },
            5 => match r.next() % 6 { 0 => 0, 1 => u32::MAX, 2 => 0x8000_0000, 3 => 0xffff, 4 => 0x1_0000, _ => r.next() as u32 },
            6 => {
                // runs of bits, short or long
                let mut x = 0u32;
                for j in 0..32 {
                    if run == 0 {
                        run = 1 + r.next() % scale;
                        ones = !ones;
                    }
                    run -= 1;
                    x |= (ones as u32) << j;
                }
                x
            }
            // a few single bits, added below
            _ => 0,
        };
        limbs.push(x);
        i += 32;
    }
    if style == 7 && !limbs.is_empty() {
        for _ in 0..1 + r.next() % 3 {
            let k = (r.next() % limbs.len() as u64) as usize;
            limbs[k] |= 1 << (r.next() % 32);
        }
    }
    let x = Nat::new(limbs).low_bits(n * unit);
    match t.below(6) {
        0 => x.add(&Nat::from_u64(t.draw(3))).low_bits(bits),
        1 => Nat::from_u64(t.draw(40)).low_bits(bits),
        2 if !x.is_zero() => x.sub(&Nat::one()),
        3 if n > 0 => {
            let k = t.below(n * unit);
            x.shr(k).shl(k)
        }
        _ => x,
    }
}

/// A partner for `a`: independent, or related so that something cancels, carries or ties.
pub fn partner(t: &mut Tape, a: &Nat, max: usize) -> Nat {
    let bl = a.bit_len();
    let r = match t.below(14) {
        0 => a.clone(),
        1 => a.add(&Nat::one()),
        2 => a.checked_sub(&Nat::one()).unwrap_or_default(),
        3 => {
            let k = t.below(bl + 2);
            a.add(&Nat::pow2(k))
        }
        4 => {
            let k = t.below(bl + 2);
            a.checked_sub(&Nat::pow2(k)).unwrap_or_default()
        }
        5 => Nat::pow2(bl).sub(&Nat::one()).sub(a),
        6 => Nat::pow2(bl).sub(a),
        7 => {
            // round the complement up to whole words: a + b = W^k exactly, or one less
            let k = bl.div_ceil(W).max(1) * W;
            let x = Nat::pow2(k).sub(a);
            if t.flag() { x } else { x.checked_sub(&Nat::one()).unwrap_or_default() }
        }
        8 => {
            // same high part, different low part
            let k = t.below(bl + 1);
            let low = nat(t, k / W + 1).low_bits(k);
            a.shr(k).shl(k).add(&low)
        }
        9 => a.shr(t.below(bl + 1)),
        10 => {
            let k = t.below(bl + 1);
            a.low_bits(k)
        }
        _ => nat(t, max),
    };
    if r.bit_len() > max * W { r.low_bits(max * W) } else { r }
}

pub fn signed(t: &mut Tape, mag: Nat) -> Int {
    Int::new(t.flag(), mag)
}

pub fn int(t: &mut Tape, max: usize) -> Int {
    let m = nat(t, max);
    signed(t, m)
}

// ---- between the reference and ibig ----

pub fn ub(n: &Nat) -> UBig {
    UBig::from_le_bytes(&n.to_le_bytes())
}
pub fn ib(i: &Int) -> IBig {
    let m = IBig::from(ub(&i.mag));
    if i.neg { -m } else { m }
}
pub fn nu(x: &UBig) -> Nat {
    Nat::from_le_bytes(&x.to_le_bytes())
}
pub fn ni(x: &IBig) -> Int {
    let neg = *x < IBig::from(0u8);
    Int::new(neg, nu(&x.unsigned_abs()))
}

/// The value in a buffer with no spare capacity, where that can be had: a shorter number (buffers of k words
/// have room for k / 8 + 2 more) that grew in place.
fn full(n: &Nat) -> UBig {
    let words = (n.bit_len() + W - 1) / W;
    if let Some(k) = (2..words).rev().find(|k| k + k / 8 + 2 <= words) {
        if k + k / 8 + 2 == words {
            let low = Nat::pow2(k * W - 1);
            let mut y = ub(&low);
            y += &ub(&n.sub(&low));
            if nu(&y) == *n {
                return y;
            }
        }
    }
    ub(n)
}

/// An owned equal value whose storage has a different history (spare capacity, exact capacity).
pub fn own_u(t: &mut Tape, x: &UBig, n: &Nat) -> UBig {
    match t.below(6) {
        4 => full(n),
        0 => x.clone(),
        1 => ub(n),
        2 => {
            // reuse of a longer buffer
            let mut y = ub(&Nat::pow2(n.bit_len() + 2 * W).low_bits(HARD_MAX_BITS.min(n.bit_len() + 2 * W + 1)));
            y.clone_from(x);
            y
        }
        3 if n.bit_len() + 2 * W < HARD_MAX_BITS => {
            // grown, then shrunk in place
            let mut y = x.clone();
            let k = n.bit_len() + 1 + t.below(W);
            y.set_bit(k);
            y.clear_bit(k);
            if nu(&y) == *n { y } else { ub(n) }
        }
        _ => UBig::from_be_bytes(&{
            let mut b = n.to_le_bytes();
            b.reverse();
            b
        }),
    }
}

pub fn own_i(t: &mut Tape, x: &IBig, n: &Int) -> IBig {
    match t.below(3) {
        0 => x.clone(),
        1 => {
            let m = IBig::from(own_u(t, &ub(&n.mag), &n.mag));
            if n.neg { -m } else { m }
        }
        _ => {
            let mut y = ib(&Int::new(!n.neg, Nat::pow2((n.mag.bit_len() + W).min(HARD_MAX_BITS - 1))));
            y.clone_from(x);
            y
        }
    }
}
