use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "an integer whose leading 24 or 53 bits, half bit and sticky bits are drawn separately (ties, just above and below ties, all-ones mantissas that carry into the exponent, sticky bit anywhere down to bit 0, bit lengths to 1100 with 128 and 1024 favoured), both signs, both float types; non-trivial: the value is not exactly representable in the narrower type",
    quick: 400_000,
    fixed: Some(fixed),
};

/// Bits of the IEEE value nearest to n, ties to even (p: precision, emax: largest exponent).
fn round(n: &Nat, p: usize, emax: usize) -> (u64, bool) {
    let len = n.bit_len();
    if len == 0 {
        return (0, true);
    }
    let bias = emax as u64;
    let exact;
    let mut e = len - 1;
    let mut m; // p-bit mantissa
    if len <= p {
        m = n.shl(p - len).to_u128().unwrap() as u64;
        exact = true;
    } else {
        let drop = len - p;
        m = n.shr(drop).to_u128().unwrap() as u64;
        let rest = n.low_bits(drop);
        exact = rest.is_zero();
        let half = Nat::pow2(drop - 1);
        let up = match rest.checked_sub(&half) {
            None => false,
            Some(d) => !d.is_zero() || m & 1 == 1,
        };
        if up {
            m += 1;
            if m == 1 << p {
                m >>= 1;
                e += 1;
            }
        }
    }
    if e > emax {
        return (((2 * emax + 1) as u64) << (p - 1), exact); // infinity
    }
    (((e as u64 + bias) << (p - 1)) | (m & ((1 << (p - 1)) - 1)), exact)
}

fn check(n: &Nat, cx: &mut Cx) -> CaseResult {
    let x = ub(n);
    let (w32, e32) = round(n, 24, 127);
    let (w64, e64) = round(n, 53, 1023);
    cx.nontrivial_if(!e32);
    cx.label_if(!e64, "inexact f64");
    let g = x.to_f32();
    ensure!(g.to_bits() as u64 == w32, "to_f32({n:?}) = {g:e} ({:#x}), want bits {w32:#x}", g.to_bits());
    let g = x.to_f64();
    ensure!(g.to_bits() == w64, "to_f64({n:?}) = {g:e} ({:#x}), want bits {w64:#x}", g.to_bits());
    for neg in [false, true] {
        let i = ib(&Int::new(neg, n.clone()));
        let neg = neg && !n.is_zero();
        let w = w32 as u32 | (neg as u32) << 31;
        let g = i.to_f32();
        ensure!(g.to_bits() == w, "IBig to_f32({} {n:?}) = {g:e}, want bits {w:#x}", if neg { "-" } else { "+" });
        let w = w64 | (neg as u64) << 63;
        let g = i.to_f64();
        ensure!(g.to_bits() == w, "IBig to_f64({} {n:?}) = {g:e}, want bits {w:#x}", if neg { "-" } else { "+" });
        ensure!(ni(&i) == Int::new(neg, n.clone()), "to_f changed the value");
    }
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.one_in(8) {
        let n = nat(t, 12);
        note!(cx, "{n:?}");
        return check(&n, cx);
    }
    let p = *t.pick(&[24usize, 53]);
    let len = match t.below(9) {
        0 => p + t.below(4),
        1 => 128 + t.below(3) - 1,
        2 => 1024 + t.below(3) - 1,
        3 => (t.below(18) * 64 + t.below(5)).saturating_sub(2).max(1),
        4 => (t.below(36) * 32 + t.below(5)).saturating_sub(2).max(1),
        5 => 24 + t.below(110),
        6 => (t.below(70) * 16 + t.below(5)).saturating_sub(2).max(1),
        7 if t.one_in(30) && W > 16 => *t.pick(&[1usize << 15, 1 << 16, 1 << 17, 3 << 16]) + t.below(1200),
        7 => 1 + t.below(6000),
        _ => 1 + t.below(1100),
    };
    // leading p bits
    let full = (1u64 << p) - 1;
    let m = match t.below(6) {
        0 => full,
        1 => full - 1,
        2 => 1 << (p - 1),
        3 => (1 << (p - 1)) + 1,
        _ => (t.raw() & full) | 1 << (p - 1),
    };
    let mut n = Nat::from_u64(m);
    if len <= p {
        n = n.shr(p - len);
    } else {
        let drop = len - p;
        n = n.shl(drop);
        let half = Nat::pow2(drop - 1);
        let low = match t.below(8) {
            0 => Nat::zero(),
            1 => half,
            2 => half.add(&Nat::pow2(t.below(drop))).low_bits(drop),
            3 => half.checked_sub(&Nat::pow2(t.below(drop))).unwrap_or_default(),
            4 => half.add(&Nat::one()).low_bits(drop),
            5 => half.sub(&Nat::one()),
            6 => Nat::pow2(drop).sub(&Nat::one()),
            _ => nat_bits(t, drop).low_bits(drop),
        };
        n = n.add(&low);
    }
    note!(cx, "{n:?} ({len} bits)");
    check(&n, cx)
}

fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    // every bit length to 1100: powers of two +-1, ties and near-ties for both precisions, overflow thresholds
    for k in 0..1100 {
        let x = Nat::pow2(k);
        for y in [x.clone(), x.sub(&Nat::one()), x.add(&Nat::one())] {
            check(&y, cx)?;
            *n += 1;
        }
        for p in [24, 53] {
            if k > p + 1 {
                for odd in [0u64, 1] {
                    let tie = x.add(&Nat::pow2(k - p)).add(&Nat::from_u64(odd).shl(k + 1 - p));
                    for y in [tie.clone(), tie.sub(&Nat::one()), tie.add(&Nat::one())] {
                        check(&y, cx)?;
                        *n += 1;
                    }
                }
                let top = Nat::pow2(k).sub(&Nat::pow2(k - p - 1));
                for y in [top.clone(), top.sub(&Nat::one()), top.add(&Nat::one())] {
                    check(&y, cx)?;
                    *n += 1;
                }
            }
        }
    }
    Ok(())
}
