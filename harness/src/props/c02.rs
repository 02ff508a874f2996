use super::*;
use crate::run::*;
use crate::tape::Rng;

pub static PROP: Prop = Prop {
    case: case,
    rule: "operand pairs over all length combinations around algorithm switches (24/25, 192/193 words, unbalanced and chunked), word patterns per segment; large products compared modulo three random 31-bit numbers plus low and high bits; non-trivial: both operands longer than one word",
    quick: 14_000,
    fixed: None,
};

/// Lengths (in words) at which the algorithms change shape.
const KEY: &[usize] = &[1, 2, 3, 24, 25, 26, 32, 48, 49, 50, 51, 64, 96, 97, 127, 128, 129, 191, 192, 193, 194, 195, 196, 197, 198, 199, 256, 257, 288, 383, 384, 385, 386, 400];

fn lens(t: &mut Tape, cap: usize) -> (usize, usize) {
    let key = |t: &mut Tape| (*t.pick(KEY) + t.below(3)).saturating_sub(1).clamp(1, cap);
    if t.one_in(300) {
        // very long by short
        return (t.range(1, 30), far_words(t));
    }
    match t.weighted(&[4, 3, 4, 4, 3, 1, 1, 2]) {
        0 => (t.range(0, 6), t.range(0, 6)),
        1 => (t.range(1, 30), t.range(1, 60)),
        2 => {
            // similar lengths, in the Karatsuba range
            let n = t.range(20, 110);
            (n, n + t.below(8))
        }
        3 => (key(t), key(t)),
        4 => {
            // Toom-3 range, similar lengths
            let n = t.range(185, 300.min(cap));
            (n, (n + t.below(12)).min(cap))
        }
        5 => {
            // large, recursive
            let n = t.range(300, 700).min(cap / 2);
            (n, t.range(n / 2, n * 2).min(cap))
        }
        6 => {
            // long chunked: simple multiplication splits at 1024 words
            (t.range(1, 26), t.range(1000, 2100).min(cap))
        }
        _ => {
            // unbalanced
            let n = t.range(25, 120);
            (n, (n * t.range(2, 6) + t.below(5)).min(cap))
        }
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    // 16-bit builds hold 4096 words.
    let cap = if W == 16 { 2000 } else { 4000 };
    let (mut la, mut lb) = lens(t, cap);
    if t.flag() {
        std::mem::swap(&mut la, &mut lb);
    }
    let ra = nat_len(t, la);
    let rb = match t.below(9) {
        8 if la + lb <= 800 && !ra.is_zero() => {
            // the high words of the product, or of the product less one, are chosen
            let p = pack(&words(t, la + lb));
            let q = p.div_rem(&ra).0.low_bits(lb * W);
            if t.flag() { q } else { q.add(&Nat::one()) }
        }
        0 if la <= cap => {
            lb = la;
            ra.clone()
        }
        1 if la <= cap => partner(t, &ra, lb.max(1)),
        _ => nat_len(t, lb),
    };
    let (la, lb) = (ra.bit_len().div_ceil(W), rb.bit_len().div_ceil(W));
    let (lo, hi) = (la.min(lb), la.max(lb));
    cx.nontrivial_if(lo >= 2);
    cx.label_if(lo >= 2 && lo <= 24, "schoolbook");
    cx.label_if(lo > 24 && lo <= 192, "Karatsuba");
    cx.label_if(lo > 192, "Toom-3");
    cx.label_if(lo > 24 && hi >= 2 * lo, "unbalanced");
    cx.label_if(lo >= 2 && hi > 1024, "chunked");
    note!(cx, "{la} x {lb} words: a={ra:?} b={rb:?}");
    let exact = ra.0.len() * rb.0.len() <= 60_000;
    if exact {
        let want = ra.mul(&rb);
        let all = la + lb <= 10;
        if t.flag() {
            op_forms!(t, UBig, "UBig *", &ub(&ra), &ra, &ub(&rb), &rb, &want, *, *=, all);
            if ra == rb {
                let a = ub(&ra);
                same("a * a", &(&a * &a), &want)?;
            }
        } else {
            let (ia, ib_) = (signed(t, ra), signed(t, rb));
            note!(cx, "signs {} {}", ia.neg, ib_.neg);
            let want = Int::new(ia.neg != ib_.neg, want);
            op_forms!(t, IBig, "IBig *", &ib(&ia), &ia, &ib(&ib_), &ib_, &want, *, *=, all);
        }
        return Ok(());
    }
    // Large: the product must agree modulo random numbers, and in length, low and high limbs.
    cx.label("residue oracle");
    let (a, b) = (ub(&ra), ub(&rb));
    let p = match t.below(4) {
        0 => &a * &b,
        1 => own_u(t, &a, &ra) * &b,
        2 => {
            let mut x = own_u(t, &a, &ra);
            x *= &b;
            x
        }
        _ => a.clone() * own_u(t, &b, &rb),
    };
    let rp = nu(&p);
    let mut r: Rng = t.sub();
    for _ in 0..3 {
        let m = (r.next() as u32 >> 1) | 0x4000_0001;
        let want = (ra.rem_small(m) as u64 * rb.rem_small(m) as u64 % m as u64) as u32;
        ensure!(rp.rem_small(m) == want, "{la} x {lb} words: product is wrong modulo {m}: got {}, want {want}", rp.rem_small(m));
    }
    let (bl, s) = (rp.bit_len(), ra.bit_len() + rb.bit_len());
    ensure!(bl == s || bl + 1 == s, "{la} x {lb} words: product has {bl} bits");
    ensure!(p == ub(&rp), "product not equal to the same value made directly");
    ensure!(nu(&a) == ra && nu(&b) == rb, "a borrowed operand changed");
    Ok(())
}
