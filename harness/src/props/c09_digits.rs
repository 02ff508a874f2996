//! Digit strings at the boundaries of the radix conversion code.
use crate::gen::W;
use crate::tape::Tape;

pub fn digits_per_word(radix: u32) -> usize {
    let mut k = 0;
    let mut x: u128 = radix as u128;
    while x <= 1u128 << W {
        k += 1;
        x *= radix as u128;
    }
    k
}

/// A digit string without leading zeros whose length is near a boundary of the implementation.
pub fn digit_string(t: &mut Tape, radix: u32, max_words: usize) -> Vec<u32> {
    let g = digits_per_word(radix);
    let max = max_words * g;
    let n = match t.below(6) {
        0 => t.range(1, 3 * g),
        1 => {
            let chunk = *t.pick(&[1usize, 2, 3, 15, 16, 17, 31, 32, 33, 48, 64, 128, 255, 256, 257, 512]);
            (chunk * g + t.below(5)).saturating_sub(2).clamp(1, max)
        }
        2 => t.range(1, 20 * g).min(max),
        3 => t.range(1, (max / 4).max(1)),
        _ => t.range(1, 8 * g),
    };
    let mut r = t.sub();
    let style = t.below(6);
    let top = radix - 1;
    let mut v: Vec<u32> = Vec::with_capacity(n);
    while v.len() < n {
        let run = 1 + (r.next() as usize % (2 * g));
        let d = match style {
            0 => None,
            1 => Some(top),
            2 => Some(0),
            _ => match r.next() % 3 {
                0 => Some(0),
                1 => Some(top),
                _ => None,
            },
        };
        for _ in 0..run.min(n - v.len()) {
            v.push(d.unwrap_or_else(|| (r.next() % radix as u64) as u32));
        }
    }
    if v[0] == 0 {
        v[0] = 1 + (r.next() % (radix as u64 - 1)) as u32;
    }
    if style == 2 && t.flag() {
        v[n - 1] = 1;
    }
    v
}

pub fn text(digits: &[u32]) -> String {
    digits.iter().map(|&d| std::char::from_digit(d, 36).unwrap()).collect()
}

