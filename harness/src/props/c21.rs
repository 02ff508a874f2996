use super::c14x::cmp_int;
use super::*;
use crate::run::*;
use crate::tape::Rng as Split;
use rand::distributions::uniform::{SampleUniform, Uniform, UniformSampler};
use rand::{Rng, RngCore};
use std::cmp::Ordering;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a range with related or independent ends (width 1, 2, word boundary +-2, top word small, equal length, crossing zero) and a random source (uniform; or constant, alternating, low-entropy or all-ones words for its first outputs); every entry point is sampled and the value compared with the ends; every 60th case looks for values that tie with the end in their leading words, with a source that prefers the words of the width; every 10th case counts 2000 samples into equal parts of the range and residues and applies a chi-square test (p < 1e-12), and compares bits of the same sample at small and whole-word distances (up to 80 words) and of successive samples; every 300th samples a range of 260 to 33,000 words and requires balanced bits and no repeated 128; non-trivial: the range has more than one value",
    quick: 40_000,
    fixed: Some(fixed),
};

struct Source {
    rng: Split,
    /// How many outputs are adversarial.
    left: u32,
    style: u64,
    /// Words to prefer (style 9).
    words: Vec<u64>,
}
impl Source {
    fn word(&mut self) -> u64 {
        let x = self.rng.next();
        if self.style == 9 {
            let y = self.rng.next();
            return match y % 3 {
                0 => x,
                1 => if x & 4 == 0 { 0 } else { u64::MAX },
                _ => {
                    let mut r = 0;
                    for k in 0..64 / W {
                        let z = self.rng.next();
                        let w = self.words[(z >> 8) as usize % self.words.len()];
                        let w = match z & 3 { 0 => w.wrapping_sub(1), 1 => w.wrapping_add(1), _ => w };
                        r |= (w & (u64::MAX >> (64 - W))) << (k * W);
                    }
                    r
                }
            };
        }
        if self.left == 0 {
            return x;
        }
        self.left -= 1;
        match self.style {
            0 => u64::MAX,
            1 => 0,
            2 => if x & 1 == 0 { 0 } else { u64::MAX },
            3 => x & 0x0001_0001_0001_0001,
            4 => !(x & 0x0001_0001_0001_0001),
            5 => 0x8000_0000_8000_0000,
            6 => x | x << 32 | x << 16,
            _ => x,
        }
    }
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        self.word() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// One sample of lo..hi (or lo..=hi) by the given entry point.
fn sample<B: Big + SampleUniform + PartialOrd>(s: &mut Source, lo: &B, hi: &B, inclusive: bool, entry: usize) -> B {
    match (inclusive, entry) {
        (false, 0) => s.gen_range(lo.clone()..hi.clone()),
        (true, 0) => s.gen_range(lo.clone()..=hi.clone()),
        (false, 1) => s.sample(Uniform::new(lo, hi)),
        (true, 1) => s.sample(Uniform::new_inclusive(lo, hi)),
        (false, 2) => s.sample(Uniform::from(lo.clone()..hi.clone())),
        (true, 2) => s.sample(Uniform::from(lo.clone()..=hi.clone())),
        (false, 3) => B::Sampler::sample_single(lo, hi, s),
        (true, 3) => B::Sampler::sample_single_inclusive(lo, hi, s),
        (false, _) => B::Sampler::new(lo.clone(), hi).sample(s),
        (true, _) => B::Sampler::new_inclusive(lo, hi.clone()).sample(s),
    }
}

fn within(what: &str, x: &Int, lo: &Int, hi: &Int, inclusive: bool) -> CaseResult {
    let below = cmp_int(x, lo) == Ordering::Less;
    let c = cmp_int(x, hi);
    let above = c == Ordering::Greater || (!inclusive && c == Ordering::Equal);
    ensure!(!below && !above, "{what}: sampled {x:?}, outside the range");
    Ok(())
}

fn range(t: &mut Tape, max: usize) -> (Nat, Nat) {
    let lo = match t.below(4) {
        0 => Nat::zero(),
        _ => nat(t, max),
    };
    let width = match t.below(7) {
        0 => Nat::from_u64(t.draw(20)),
        1 => {
            let k = (1 + t.below(max)) * W;
            let d = Nat::from_u64(t.draw(4));
            if t.flag() { Nat::pow2(k).add(&d) } else { Nat::pow2(k).sub(&d) }
        }
        2 => {
            // small top word
            let k = t.below(max + 1) * W;
            Nat::from_u64(1 + t.draw(4)).shl(k).add(&nat(t, max).low_bits(k))
        }
        3 => Nat::pow2(t.below(max * W)),
        _ => nat(t, max),
    };
    let hi = lo.add(&width);
    (lo, hi)
}

fn chi_square(counts: &[u64], expected: &[f64]) -> f64 {
    counts.iter().zip(expected).map(|(&c, &e)| if e > 0.0 { (c as f64 - e).powi(2) / e } else { 0.0 }).sum()
}

fn to_f(n: &Nat) -> f64 {
    let k = n.bit_len().saturating_sub(64);
    n.shr(k).to_u128().unwrap() as f64 * 2f64.powi(k as i32)
}

fn ones(n: &Nat) -> u64 {
    n.to_le_bytes().iter().map(|b| b.count_ones() as u64).sum()
}

/// Samples of lo..lo+width must look uniform.
fn uniform(s: &mut Source, lo: &Int, width: &Nat, samples: u64, cx: &mut Cx) -> CaseResult {
    let hi = lo.add(&Int::pos(width.clone()));
    let (l, h) = (ib(lo), ib(&hi));
    let parts: u64 = if width.bit_len() <= 6 { width.to_u128().unwrap() as u64 } else { 16 };
    let moduli: u64 = if width.bit_len() <= 10 { 1 } else { 13 };
    let mut counts = vec![0u64; parts as usize];
    let mut res = vec![0u64; moduli as usize];
    let mut bits = vec![0u64; width.bit_len().saturating_sub(10)];
    // agreements of bit j with bit j + lag of the same sample, and with bit j of the sample before
    let nw = bits.len() / W;
    let lags: Vec<usize> = if bits.len() < 2 { Vec::new() } else { [1, 2, 8, W / 2].into_iter().chain((1..nw).map(|k| k * W)).filter(|&l| l < bits.len()).collect() };
    let mut agree = vec![0u64; lags.len()];
    let mut again = 0u64;
    let mut before: Option<Nat> = None;
    let what = format!("uniformity over [{lo:?}, {lo:?} + {width:?})");
    for k in 0..samples {
        let x = sample(s, &l, &h, false, k as usize % 5);
        let r = ni(&x);
        within(&what, &r, lo, &hi, false)?;
        let off = r.sub(lo).mag;
        let (q, _) = off.mul(&Nat::from_u64(parts)).div_rem(width);
        counts[q.to_u128().unwrap() as usize] += 1;
        res[off.rem_small(moduli as u32) as usize] += 1;
        for (j, b) in bits.iter_mut().enumerate() {
            *b += off.bit(j) as u64;
        }
        let off = off.low_bits(bits.len());
        for (&l, a) in lags.iter().zip(agree.iter_mut()) {
            *a += (bits.len() - l) as u64 - ones(&off.shr(l).bitop(&off.low_bits(bits.len() - l), |a, b| a ^ b));
        }
        if let Some(p) = &before {
            again += bits.len() as u64 - ones(&p.bitop(&off, |a, b| a ^ b));
        }
        before = Some(off);
    }
    // exact share of each part: ceil((k+1)*width/parts) - ceil(k*width/parts)
    let mut expected = Vec::new();
    let mut prev = Nat::zero();
    for k in 0..parts {
        let (q, r) = width.mul(&Nat::from_u64(k + 1)).div_rem(&Nat::from_u64(parts));
        let c = if r.is_zero() { q } else { q.add(&Nat::one()) };
        expected.push(to_f(&c.sub(&prev)) / to_f(width) * samples as f64);
        prev = c;
    }
    let limit = |dof: f64| dof + 10.0 * (2.0 * dof).sqrt() + 30.0;
    let chi = chi_square(&counts, &expected);
    ensure!(chi < limit(parts as f64 - 1.0), "{what}: chi-square {chi:.1} over {parts} equal parts: {counts:?}");
    if moduli > 1 {
        let e = vec![samples as f64 / moduli as f64; moduli as usize];
        let chi = chi_square(&res, &e);
        ensure!(chi < limit(moduli as f64 - 1.0), "{what}: chi-square {chi:.1} over residues modulo {moduli}: {res:?}");
    }
    for (j, &b) in bits.iter().enumerate() {
        // bit j of the offset is balanced within 2^-10 except for the truncation at the top
        let e = samples as f64 / 2.0;
        let chi = (b as f64 - e).powi(2) / (e / 2.0);
        ensure!(chi < 60.0, "{what}: bit {j} of the offset set in {b} of {samples} samples");
    }
    let balanced = |c: u64, of: u64| (c as f64 - of as f64 / 2.0).powi(2) / (of as f64 / 4.0) < 64.0;
    for (&l, &a) in lags.iter().zip(&agree) {
        let of = (bits.len() - l) as u64 * samples;
        ensure!(balanced(a, of), "{what}: bits at distance {l} agree {a} times of {of}");
    }
    let of = bits.len() as u64 * (samples - 1);
    ensure!(of == 0 || balanced(again, of), "{what}: bits of successive samples agree {again} times of {of}");
    cx.label("uniformity test");
    cx.label_if(nw > 16, "uniformity over more than 16 words");
    Ok(())
}

/// Values that share leading words with the (excluded) upper end must be reachable: a source that often
/// gives the words of the width, their neighbours, zeros and ones, finds each slab of them.
fn ties(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = 2 + t.below(3);
    let mut words: Vec<u64> = (0..n).map(|_| nat_words(t)).collect();
    words[n - 1] = 1 + t.draw(6);
    if words[0] == 0 {
        words[0] = 1 + t.draw(5);
    }
    let mut width = Nat::zero();
    for (k, &w) in words.iter().enumerate() {
        width = width.add(&Nat::from_u64(w).shl(k * W));
    }
    let lo = int(t, 2);
    let hi = lo.add(&Int::pos(width.clone()));
    note!(cx, "[{lo:?}, {lo:?} + {width:?}), source prefers the width's words");
    // offsets by number of leading words they share with the width (all but the last: equal is excluded)
    let possible: Vec<bool> = (0..n).map(|d| words[n - 1 - d] != 0).collect();
    let mut seen = vec![false; n];
    let mut s = Source { rng: t.sub(), left: 0, style: 9, words };
    let unsigned = !lo.neg;
    let (l, h) = (ib(&lo), ib(&hi));
    let what = "reach of the last values of the range";
    for k in 0..3_000_000usize {
        let x = if unsigned && k & 1 == 0 {
            let x: UBig = sample(&mut s, &ub(&lo.mag), &ub(&hi.mag), false, k / 2 % 5);
            Int::pos(nu(&x))
        } else {
            ni(&sample(&mut s, &l, &h, false, k / 2 % 5))
        };
        within(what, &x, &lo, &hi, false)?;
        let off = x.sub(&lo).mag;
        let mut d = 0;
        while d < n - 1 && off.shr((n - 1 - d) * W).cmp(&width.shr((n - 1 - d) * W)) == Ordering::Equal {
            d += 1;
        }
        seen[d] = true;
        if seen.iter().zip(&possible).all(|(&s, &p)| s || !p) {
            cx.label("values tied with the end reached");
            return Ok(());
        }
    }
    ensure!(false, "{what}: numbers of leading words shared with the width that never came: {seen:?} (possible: {possible:?})");
    Ok(())
}

/// Samples of a range of thousands of words: in range, balanced, and no 128 bits of them (at distances of 64)
/// equal to any other.
fn long(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = if W == 16 { *t.pick(&[1000usize, 2100, 3900]) } else { *t.pick(&[260usize, 1030, 2050, 4100, 9000, 33_000]) };
    let width = match t.below(3) {
        0 => Nat::pow2(n * W),
        1 => Nat::pow2(n * W).sub(&Nat::one()),
        _ => nat_words_exact(t, n),
    };
    let width = if width.is_zero() { Nat::pow2(n * W) } else { width };
    let lo = if t.flag() && 2 * n * W < HARD_MAX_BITS { Int::new(t.flag(), nat_words_exact(t, n)) } else { int(t, 3) };
    let hi = lo.add(&Int::pos(width.clone()));
    note!(cx, "[{lo:?}, {lo:?} + {} bits)", width.bit_len());
    let mut s = Source { rng: t.sub(), left: 0, style: 7, words: Vec::new() };
    let (l, h) = (ib(&lo), ib(&hi));
    let mut seen = std::collections::HashSet::new();
    let (mut set, mut of) = (0u64, 0u64);
    for k in 0..6 {
        let r = if k & 1 == 1 && !lo.neg {
            Int::pos(nu(&sample(&mut s, &ub(&lo.mag), &ub(&hi.mag), false, k % 5)))
        } else {
            ni(&sample(&mut s, &l, &h, false, k % 5))
        };
        let what = "sample of a long range";
        within(what, &r, &lo, &hi, false)?;
        let off = r.sub(&lo).mag;
        // the bits below the leading ones of the width
        let bytes = off.to_le_bytes();
        let len = (width.bit_len() - 64) / 8 / 8 * 8;
        ensure!(bytes.len() > len, "{what}: {} bytes, the range has {}", bytes.len(), width.bit_len() / 8);
        let bytes = &bytes[..len];
        for b in bytes.windows(16).step_by(8) {
            let x = u128::from_le_bytes(b.try_into().unwrap());
            ensure!(seen.insert(x), "{what} of {} bits: 128 bits {x:#x} come twice", width.bit_len());
        }
        set += bytes.iter().map(|b| b.count_ones() as u64).sum::<u64>();
        of += 8 * len as u64;
    }
    ensure!((set as f64 - of as f64 / 2.0).powi(2) / (of as f64 / 4.0) < 64.0, "{set} of {of} bits are ones");
    cx.label("range of thousands of words");
    cx.nontrivial_if(true);
    Ok(())
}

fn nat_words_exact(t: &mut Tape, n: usize) -> Nat {
    let low = nat_len(t, n);
    if low.bit_len() > (n - 1) * W { low } else { low.add(&Nat::pow2(n * W - 1)) }
}

/// One word of W bits, often extreme.
fn nat_words(t: &mut Tape) -> u64 {
    let m = u64::MAX >> (64 - W);
    match t.below(6) {
        0 => 0,
        1 => m,
        2 => m - t.draw(4),
        3 => t.draw(4),
        4 => 1 << t.below(W),
        _ => t.sub().next() & m,
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.one_in(60) {
        cx.nontrivial_if(true);
        return ties(t, cx);
    }
    if t.one_in(300) {
        return long(t, cx);
    }
    let max = *t.pick(&[1usize, 1, 2, 2, 3, 8]);
    let (lo, hi) = range(t, max);
    let mut s = Source { rng: t.sub(), left: *t.pick(&[0, 0, 3, 30, 300]), style: t.draw(8), words: Vec::new() };
    let width = hi.sub(&lo);
    let shift = int(t, max);
    let (ilo, ihi) = match t.below(4) {
        0 => (Int::pos(lo.clone()), Int::pos(hi.clone())),
        1 => (Int::new(true, hi.clone()), Int::new(true, lo.clone())),
        _ => (Int::pos(lo.clone()).sub(&shift), Int::pos(hi.clone()).sub(&shift)),
    };
    note!(cx, "[{lo:?}, {hi:?}] and [{ilo:?}, {ihi:?}], source style {} for {} outputs", s.style, s.left);
    if t.one_in(10) && !width.is_zero() {
        s.left = 0;
        s.style = 7;
        if t.one_in(20) {
            let width = nat(t, 80);
            if !width.is_zero() {
                uniform(&mut s, &ilo, &width, 300, cx)?;
            }
        }
        uniform(&mut s, &ilo, &width, 2000, cx)?;
        cx.nontrivial_if(width.bit_len() > 1);
        return Ok(());
    }
    let (bl, bh) = (ub(&lo), ub(&hi));
    let (jl, jh) = (ib(&ilo), ib(&ihi));
    for k in 0..6 {
        let entry = if k < 5 { k } else { t.below(5) };
        for inclusive in [false, true] {
            let what = format!("entry {entry} of [{lo:?}, {hi:?}{}", if inclusive { "]" } else { ")" });
            let whati = format!("entry {entry} of [{ilo:?}, {ihi:?}{}", if inclusive { "]" } else { ")" });
            if width.is_zero() && !inclusive {
                must_panic(&what, || sample(&mut s, &bl, &bh, inclusive, entry))?;
                must_panic(&whati, || sample(&mut s, &jl, &jh, inclusive, entry))?;
                continue;
            }
            let x = sample(&mut s, &bl, &bh, inclusive, entry);
            let r = nu(&x);
            within(&what, &Int::pos(r.clone()), &Int::pos(lo.clone()), &Int::pos(hi.clone()), inclusive)?;
            same(&what, &x, &r)?;
            let x = sample(&mut s, &jl, &jh, inclusive, entry);
            let r = ni(&x);
            within(&whati, &r, &ilo, &ihi, inclusive)?;
            same(&whati, &x, &r)?;
            if !width.is_zero() && t.one_in(8) {
                // reversed: empty, both ways
                must_panic(&format!("reversed {what}"), || sample(&mut s, &bh, &bl, inclusive, entry))?;
                must_panic(&format!("reversed {whati}"), || sample(&mut s, &jh, &jl, inclusive, entry))?;
            }
        }
    }
    cx.nontrivial_if(!width.is_zero());
    cx.label_if(s.style < 7, "adversarial source");
    cx.label_if(width.bit_len() > W, "multi-word width");
    Ok(())
}

fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    let mut s = Source { rng: Split(2021), left: 0, style: 7, words: Vec::new() };
    // every small width at several offsets, including across word boundaries: all values reached, equally often
    for width in 1u64..=40 {
        for lo in [Int::zero(), Int::from_i128(-7), Int::pos(Nat::pow2(W).sub(&Nat::from_u64(5))), Int::new(true, Nat::pow2(2 * W).add(&Nat::from_u64(3)))] {
            uniform(&mut s, &lo, &Nat::from_u64(width), 60 * width, cx)?;
            *n += 1;
        }
    }
    // widths just above, at and below 2^16: the few values with the rare leading word
    for (extra, over) in [(0u64, false), (1, true), (3, true), (5, false)] {
        let width = if over { 65536 + extra } else { 65536 - extra };
        let samples = 1_000_000u64;
        let (mut top, mut first) = (0u64, 0u64);
        let (l, h) = (UBig::from(0u8), UBig::from(width));
        for _ in 0..samples {
            let x = u64::try_from(&s.gen_range(l.clone()..h.clone())).map_err(|_| "too large".to_string())?;
            ensure!(x < width, "sampled {x} of 0..{width}");
            top += (x >= width - 5) as u64;
            first += (x < 5) as u64;
        }
        // 5 values of about 65536: 76 expected
        for (name, c) in [("last", top), ("first", first)] {
            ensure!((15..=200).contains(&c), "0..{width}: the {name} five values came {c} times in {samples}, 76 expected");
        }
        *n += 1;
    }
    if W == 16 {
        // Three words, leading word 1, middle word 1: the end's neighbourhood is just common enough to count.
        let samples = 12_000_000u64;
        let width = (1u64 << 32) + 2 * 65536 - 1;
        let (l, h) = (UBig::from(0u8), UBig::from(width));
        let d = Uniform::new(&l, &h);
        let (mut below, mut tied, mut low) = (0u64, 0u64, 0u64);
        for _ in 0..samples {
            let x = u64::try_from(&s.sample(&d)).map_err(|_| "too large".to_string())?;
            ensure!(x < width, "sampled {x} of 0..{width}");
            match x >> 16 {
                0x1_0000 => below += 1,
                0x1_0001 => tied += 1,
                0 => low += 1,
                _ => {}
            }
        }
        for (name, c) in [("leading words 1, 0", below), ("leading words 1, 1", tied), ("leading words 0, 0", low)] {
            ensure!((80..=320).contains(&c), "0..{width}: {name} came {c} times in {samples}, 183 expected");
        }
        *n += 1;
    }
    Ok(())
}
