//! The growth of the work done. Costs are numbers of edges of ibig's code (cfg counted), so they do not depend on
//! the machine or its load.
use super::*;
use crate::run::*;
use crate::tape::Rng;
use ibig::ModuloRing;
use ibig::ops::{Abs, UnsignedAbs, DivEuclid, DivRem, NextPowerOfTwo, RemEuclid};
use std::hint::black_box;

pub static PROP: Prop = Prop {
    case: case,
    rule: "one operation on operands of n (250 to 2000, superlinear 400 to 1000) words and on operands of the same shape (ratio of lengths, segments of random, zero or all-ones words at the same fractions) 8 times as long; the work grows at most 40-fold for the multiplication and division family and radix conversion (quadratic: 64, n^1.47: 21), and 13-fold for the operations of linear cost; non-trivial: the shape is not plainly random words of equal length",
    quick: 2_500,
    fixed: None,
};

#[cfg(feature = "c32")]
use super::c32::stack as cost;
#[cfg(all(counted, not(feature = "c32")))]
use crate::counted::cost;
#[cfg(not(any(counted, feature = "c32")))]
fn cost<R>(f: impl FnOnce() -> R) -> u64 {
    f();
    1
}

/// Fractions of the length (in 1/64) at which segments end, with their contents.
#[derive(Clone, Debug)]
pub struct Shape {
    pub segments: Vec<(usize, u8)>,
    pub seed: u64,
}

pub fn shape(t: &mut Tape) -> Shape {
    let seed = t.raw();
    let kind = t.below(6);
    let segments = match kind {
        0 | 1 => vec![(64, 0)],
        2 => vec![(64, t.below(4) as u8)],
        _ => {
            let mut ends: Vec<usize> = (0..1 + t.below(6)).map(|_| if t.flag() { 8 * (1 + t.below(8)) } else { 1 + t.below(64) }).collect();
            ends.push(64);
            ends.sort();
            ends.dedup();
            ends.into_iter().map(|e| (e, t.below(5) as u8)).collect()
        }
    };
    Shape { segments, seed }
}

pub fn make(s: &Shape, words: usize) -> UBig {
    let mut r = Rng(s.seed);
    let mut b: Vec<u8> = Vec::with_capacity(words * W / 8);
    for &(end, kind) in &s.segments {
        let end = words * end / 64;
        while b.len() < end * W / 8 {
            let w = match kind {
                1 => 0,
                2 => u64::MAX,
                3 => 1,
                4 => if r.next() % 8 == 0 { r.next() } else { 0 },
                _ => r.next(),
            };
            b.extend_from_slice(&w.to_le_bytes()[..W / 8]);
        }
    }
    if let Some(x) = b.last_mut() {
        *x |= if s.seed & 1 == 0 { 0x80 } else { 1 };
    }
    UBig::from_le_bytes(&b)
}

pub struct Op {
    pub name: &'static str,
    pub linear: bool,
    /// Cost with operands of n and m words, m <= n.
    pub run: fn(&UBig, &UBig, &Args) -> u64,
}

pub struct Args {
    pub n: usize,
    pub radix: u32,
    pub small: u64,
    pub part: usize,
}

macro_rules! ops {
    ($($name:literal $linear:literal |$a:ident, $b:ident, $g:ident| $body:expr;)*) => {
        pub const OPS: &[Op] = &[$(Op { name: $name, linear: $linear, run: |$a: &UBig, $b: &UBig, $g: &Args| $body },)*];
    };
}

pub fn odd_radix(r: u32) -> u32 {
    if r.is_power_of_two() { r + 1 } else { r }
}

ops! {
    "a * b" false |a, b, _g| cost(|| a * b);
    "b * a of IBig" false |a, b, _g| { let (x, y) = (-IBig::from(a), IBig::from(b)); cost(|| y * x) };
    "a *= b" false |a, b, _g| { let mut x = a.clone(); cost(|| x *= b) };
    "a * a" false |a, _b, _g| cost(|| a * a);
    "a / b" false |a, b, _g| cost(|| a / b);
    "a % b" false |a, b, _g| { let x = a.clone(); cost(|| x % b) };
    "div_rem" false |a, b, _g| cost(|| a.div_rem(b));
    "div_rem of IBig" false |a, b, _g| { let (x, y) = (-IBig::from(a), IBig::from(b)); cost(|| x.div_rem(y)) };
    "div_euclid of IBig" false |a, b, _g| { let (x, y) = (-IBig::from(a), IBig::from(b)); cost(|| x.div_euclid(y)) };
    "rem_euclid of IBig" false |a, b, _g| { let (x, y) = (-IBig::from(a), IBig::from(b)); cost(|| x.rem_euclid(y)) };
    "to_string" false |a, _b, _g| cost(|| a.to_string());
    "Display of IBig" false |a, _b, _g| { let x = -IBig::from(a); cost(|| format!("{:+050}", x)) };
    "in_radix" false |a, _b, g| cost(|| a.in_radix(odd_radix(g.radix)).to_string());
    "from_str_radix" false |a, _b, g| { let s = a.in_radix(odd_radix(g.radix)).to_string(); cost(|| UBig::from_str_radix(&s, odd_radix(g.radix))) };
    "parse" false |a, _b, _g| { let s = (-IBig::from(a)).to_string(); cost(|| s.parse::<IBig>()) };
    "residue of a modulo b" false |a, b, _g| { let r = ModuloRing::new(b); cost(|| black_box(r.from(a).residue())) };
    "modular a * a" false |a, b, _g| { let r = ModuloRing::new(a); let x = r.from(b); cost(|| black_box((&x * &x).residue())) };
    "power" false |a, _b, g| { let x = a >> (a.bit_len() - a.bit_len() / (2 + g.part)); cost(|| x.pow(2 + g.part)) };
    "modular power" false |a, b, g| { let r = ModuloRing::new(a); let x = r.from(b); let e = UBig::from(g.small % 6 + 2); cost(|| black_box(x.pow(&e).residue())) };
    "a + b" true |a, b, _g| cost(|| a + b);
    "b += a" true |a, b, _g| { let mut x = b.clone(); cost(|| x += a) };
    "a - b" true |a, b, _g| { let x = a + b; cost(|| x - b) };
    "b - a of IBig" true |a, b, _g| { let (x, y) = (IBig::from(a), IBig::from(b)); cost(|| y - x) };
    "comparison" true |a, b, _g| { let x = a.clone(); cost(|| black_box((*a == x, a.cmp(&x), a.cmp(b)))) };
    "and, or, xor" true |a, b, _g| { let (x, y) = (-IBig::from(a), -IBig::from(b)); cost(|| black_box((&x & &y, &x | &y, &x ^ &y, a & b, a | b, a ^ b, !&x))) };
    "clone" true |a, b, _g| { let mut x = b.clone(); cost(|| { x.clone_from(a); a.clone() }) };
    "a << n" true |a, _b, g| { let s = g.n * W * g.part / 8 + g.part; let x = a.clone(); cost(|| (a << s, x << s)) };
    "a >> n" true |a, _b, g| { let s = g.n * W * g.part / 8 + g.part; let x = -IBig::from(a); cost(|| (a >> s, &x >> s, x.clone() >> s)) };
    "bytes" true |a, _b, _g| cost(|| { let v = a.to_le_bytes(); let w = a.to_be_bytes(); (UBig::from_le_bytes(&v), UBig::from_be_bytes(&w)) });
    "hexadecimal" true |a, _b, _g| cost(|| { let s = format!("{a:x}"); UBig::from_str_radix(&s, 16) });
    "radix 8" true |a, _b, _g| cost(|| { let s = format!("{a:#o}"); UBig::from_str_with_radix_prefix(&s) });
    "bit queries" true |a, _b, _g| cost(|| black_box((a.bit_len(), a.trailing_zeros(), a.is_power_of_two(), a.clone().next_power_of_two())));
    "floats" true |a, _b, _g| cost(|| black_box((a.to_f64(), a.to_f32())));
    "hash" true |a, _b, _g| cost(|| hash_of(a));
    "serialization" true |a, _b, _g| cost(|| { let v = bincode::serialize(a).unwrap(); bincode::deserialize::<UBig>(&v).unwrap() });
    "a * small" true |a, _b, g| cost(|| (a * g.small, a * (g.small as u8)));
    "a / small" true |a, _b, g| cost(|| (a / (g.small | 1), a % (g.small as u8 | 1), a.div_rem(g.small as u16 | 1)));
    "a / power of two" true |a, _b, g| cost(|| (a / (1u16 << (g.part & 15)), a % (1u16 << (g.part & 15))));
    "small modulus" true |a, _b, g| { let r = ModuloRing::new(&UBig::from(g.small as u16 | 1)); cost(|| black_box(r.from(a).residue())) };
    "n times a += small" true |a, _b, g| { let mut x = a.clone(); cost(|| for _ in 0..g.n { x += 3u8 }) };
    "n times a -= small" true |a, _b, g| { let mut x = -IBig::from(a); cost(|| for _ in 0..g.n { x -= 3u8 }) };
    "n times bit updates" true |a, _b, g| { let mut x = a.clone(); cost(|| for i in 0..g.n { x.set_bit(i * W / 3); x.clear_bit(i * W / 5); black_box(x.bit(i * W / 2)); }) };
    "n times a += one word, by value and reference" true |a, _b, g| { let (mut x, mut y, w, v) = (a.clone(), -IBig::from(a), UBig::from(3u8), IBig::from(-3)); cost(|| for _ in 0..g.n { x += &w; x += w.clone(); y += &v; y += v.clone(); x = &w + x; }) };
    "n times a -= one word, by value and reference" true |a, _b, g| { let (mut x, mut y, w, v) = (a.clone(), -IBig::from(a), UBig::from(3u8), IBig::from(-3)); cost(|| for _ in 0..g.n { x -= &w; x -= w.clone(); y -= &v; y -= v.clone(); x = x - &w; y = &v + y; }) };
    "n times a |= one word, a ^= one word" true |a, _b, g| { let (mut x, w) = (a.clone(), UBig::from(3u8)); cost(|| for _ in 0..g.n { x |= &w; x ^= 5u8; x |= w.clone(); x ^= &w; x = x | 8u16; x = &w ^ x; }) };
    "n times sign and type changes" true |a, _b, g| { let mut x = IBig::from(a); cost(|| for _ in 0..g.n { x = -x; black_box(x.signum()); x = x.abs(); let u = UBig::try_from(x).unwrap(); x = IBig::from(u); x = IBig::from((-x).unsigned_abs()); }) };
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let op = &OPS[t.below(OPS.len())];
    let n = if op.linear { 250 + t.below(1750) } else { 400 + t.below(600) };
    // Reading preallocates no more than some 1024 chunks: beyond, space grows step by step.
    let n = if op.name == "serialization" { 2300 + n } else { n };
    let ratio = match t.below(3) {
        0 => 64,
        1 => 32,
        // Quotients of a few words only are found digit by digit.
        _ => 16 + t.below(if op.linear { 49 } else { 37 }),
    };
    let (sa, sb) = (shape(t), shape(t));
    let (radix, small, part) = (2 + t.below(35) as u32, t.raw(), t.below(9));
    note!(cx, "{}: n = {n} words, other operand {ratio}/64 of it, shapes {sa:?} {sb:?}, radix {radix}, small {small}, part {part}", op.name);
    let run = |n: usize, sa: &Shape, sb: &Shape| {
        let (a, b) = (make(sa, n), make(sb, n * ratio / 64));
        (op.run)(&a, &b, &Args { n, radix, small, part })
    };
    let c1 = run(n, &sa, &sb);
    let c8 = run(8 * n, &sa, &sb);
    let plain = Shape { segments: vec![(64, 0)], seed: 5 };
    let base = run(n, &plain, &plain).max(c1);
    cx.nontrivial_if(sa.segments.len() > 1 || ratio != 64);
    cx.label(op.name);
    let bound = 100 * n as u64 + 5000 + if op.linear { 13 * base } else { 40 * base };
    note!(cx, "cost {c1} (plain shape {base}), 8 times as long {c8}: {:.2}", c8 as f64 / base as f64);
    if std::env::var_os("C29_RATIOS").is_some() {
        println!("RATIO {} {:.2} {n} {ratio} {c8}", op.name.replace(' ', "_"), c8 as f64 / base as f64);
    }
    if c8 > bound {
        return Err(format!("{}: the work grew from {base} to {c8} steps ({:.1}-fold) when the operands became 8 times as long (from {n} words, ratio {ratio}/64)", op.name, c8 as f64 / base as f64));
    }
    Ok(())
}
