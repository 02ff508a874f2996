use super::*;
use crate::run::*;
use ibig::ops::{DivEuclid, DivRemEuclid, RemEuclid};

pub static PROP: Prop = Prop {
    case: case,
    rule: "pairs as for truncating division with all four sign combinations, exact multiples and all-ones quotients (so the quotient adjustment carries); non-trivial: dividend negative, or two or more words in the divisor",
    quick: 24_000,
    fixed: None,
};

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let lb = *t.pick(&[1, 1, 2, 3, 5, 34, 40]);
    let lq = *t.pick(&[0, 1, 1, 2, 3, 8, 36]);
    let (lb, lq) = match t.below(6000) {
        1 => (t.range(1, 2), far_words(t) - 50),
        2 => (far_words(t) - 50, t.range(0, 2)),
        _ => (lb, lq),
    };
    let mut rb = nat_len(t, lb);
    if rb.is_zero() {
        rb = Nat::one();
    }
    let q = nat(t, lq);
    let r = match t.below(5) {
        0 => Nat::zero(),
        1 => rb.sub(&Nat::one()),
        2 => Nat::one().rem(&rb),
        _ => nat(t, lb).rem(&rb),
    };
    let ra = match t.below(5) {
        0 => partner(t, &rb, lb + 2),
        _ => q.mul(&rb).add(&r),
    };
    note!(cx, "a={ra:?} b={rb:?}");
    let all = ra.bit_len() + rb.bit_len() <= 12 * W || t.one_in(10);
    if t.one_in(3) {
        let (a, b) = (ub(&ra), ub(&rb));
        let (rq, rr) = ra.div_rem(&rb);
        cx.nontrivial_if(lb >= 2);
        method_forms!(t, UBig, &a, &ra, &b, &rb, all, div_euclid, got, form, {
            same(&format!("UBig div_euclid form {form}"), &got, &rq)?;
        });
        method_forms!(t, UBig, &a, &ra, &b, &rb, all, rem_euclid, got, form, {
            same(&format!("UBig rem_euclid form {form}"), &got, &rr)?;
        });
        method_forms!(t, UBig, &a, &ra, &b, &rb, all, div_rem_euclid, got, form, {
            same(&format!("UBig div_rem_euclid quotient form {form}"), &got.0, &rq)?;
            same(&format!("UBig div_rem_euclid remainder form {form}"), &got.1, &rr)?;
        });
        let (z, zero) = (Nat::zero(), UBig::from(0u8));
        if t.one_in(4) {
            method_forms_panic!(t, UBig, &a, &ra, &zero, &z, div_euclid);
            method_forms_panic!(t, UBig, &a, &ra, &zero, &z, rem_euclid);
            method_forms_panic!(t, UBig, &a, &ra, &zero, &z, div_rem_euclid);
        }
    } else {
        let (ia, ib_) = (signed(t, ra), signed(t, rb));
        note!(cx, "signs {} {}", ia.neg, ib_.neg);
        cx.nontrivial_if(ia.neg);
        cx.label_if(ia.neg && ib_.neg, "both negative");
        cx.label_if(ia.neg && !ib_.neg, "dividend negative");
        let (a, b) = (ib(&ia), ib(&ib_));
        let (rq, rr) = ia.div_rem_euclid(&ib_);
        cx.label_if(ia.neg && rr.mag.is_zero(), "negative exact multiple");
        method_forms!(t, IBig, &a, &ia, &b, &ib_, all, div_euclid, got, form, {
            same(&format!("IBig div_euclid form {form}"), &got, &rq)?;
        });
        method_forms!(t, IBig, &a, &ia, &b, &ib_, all, rem_euclid, got, form, {
            same(&format!("IBig rem_euclid form {form}"), &got, &rr)?;
        });
        method_forms!(t, IBig, &a, &ia, &b, &ib_, all, div_rem_euclid, got, form, {
            same(&format!("IBig div_rem_euclid quotient form {form}"), &got.0, &rq)?;
            same(&format!("IBig div_rem_euclid remainder form {form}"), &got.1, &rr)?;
        });
        let (z, zero) = (Int::zero(), IBig::from(0u8));
        if t.one_in(4) {
            method_forms_panic!(t, IBig, &a, &ia, &zero, &z, div_euclid);
            method_forms_panic!(t, IBig, &a, &ia, &zero, &z, rem_euclid);
            method_forms_panic!(t, IBig, &a, &ia, &zero, &z, div_rem_euclid);
        }
    }
    Ok(())
}
