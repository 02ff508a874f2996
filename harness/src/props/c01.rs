use super::*;
use crate::run::*;
use ibig::ops::{Abs, UnsignedAbs};

pub static PROP: Prop = Prop {
    case: case,
    rule: "operand pairs (related: equal, off by a power of two, complements, shared halves; or independent) for UBig and IBig add/sub in all operand forms, neg, abs, signum; non-trivial: both operands non-zero and at least one longer than a word",
    quick: 60_000,
    fixed: None,
};

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(2000) { far_words(t) } else if t.one_in(80) { 2000 } else { *t.pick(&[3, 8, 8, 40, 40, 300]) };
    let ra = nat(t, max);
    let rb = partner(t, &ra, max);
    cx.nontrivial_if(!ra.is_zero() && !rb.is_zero() && ra.bit_len().max(rb.bit_len()) > W);
    note!(cx, "a={ra:?} b={rb:?}");
    let small = ra.bit_len() + rb.bit_len() <= 6 * W;
    let all = small || t.one_in(8);
    if t.flag() {
        let (a, b) = (ub(&ra), ub(&rb));
        let sum = ra.add(&rb);
        cx.label_if(sum.bit_len() > ra.bit_len().max(rb.bit_len()) && sum.bit_len() % W == 1, "carry into a new word");
        op_forms!(t, UBig, "UBig +", &a, &ra, &b, &rb, &sum, +, +=, all);
        for (x, rx, y, ry) in [(&a, &ra, &b, &rb), (&b, &rb, &a, &ra)] {
            match rx.checked_sub(ry) {
                Some(d) => op_forms!(t, UBig, "UBig -", x, rx, y, ry, &d, -, -=, all),
                None => {
                    cx.label("underflow");
                    op_forms_panic!(t, UBig, "UBig - (negative result)", x, rx, y, ry, -, -=, all)
                }
            }
        }
        if ra == rb {
            same("a + a", &(&a + &a), &sum)?;
            same("a - a", &(&a - &a), &Nat::zero())?;
        }
    } else {
        let (ra, rb) = (signed(t, ra), signed(t, rb));
        note!(cx, "IBig a={ra:?} b={rb:?}");
        let (a, b) = (ib(&ra), ib(&rb));
        cx.label_if(ra.neg != rb.neg, "mixed signs");
        op_forms!(t, IBig, "IBig +", &a, &ra, &b, &rb, &ra.add(&rb), +, +=, all);
        op_forms!(t, IBig, "IBig -", &a, &ra, &b, &rb, &ra.sub(&rb), -, -=, all);
        op_forms!(t, IBig, "IBig - swapped", &b, &rb, &a, &ra, &rb.sub(&ra), -, -=, all);
        if ra == rb {
            same("a - a", &(&a - &a), &Int::zero())?;
        }
        for (x, rx) in [(&a, &ra), (&b, &rb)] {
            same("-&x", &-x, &rx.neg())?;
            same("-x", &-own_i(t, x, rx), &rx.neg())?;
            same("abs(&x)", &x.abs(), &Int::pos(rx.mag.clone()))?;
            same("abs(x)", &own_i(t, x, rx).abs(), &Int::pos(rx.mag.clone()))?;
            same("unsigned_abs(&x)", &x.unsigned_abs(), &rx.mag)?;
            same("unsigned_abs(x)", &own_i(t, x, rx).unsigned_abs(), &rx.mag)?;
            let s = if rx.mag.is_zero() { 0 } else if rx.neg { -1 } else { 1 };
            same("signum", &x.signum(), &Int::from_i128(s))?;
            ensure!(x.obs() == *rx, "operand changed");
        }
    }
    Ok(())
}
