use super::*;
use crate::run::*;
use ibig::ops::DivRem;

pub static PROP: Prop = Prop {
    case: case,
    rule: "dividends a = q*b + r built from patterned quotients (all-ones, sparse, long zero runs), divisors (top word extreme, lengths around 32/33 words and recursive splits) and remainders 0, 1, b-1 or random; also raw pairs; non-trivial: divisor of two or more words and a >= b, or divisor one word and dividend three or more words",
    quick: 20_000,
    fixed: None,
};

/// a, b with b != 0, and sizes covering single word, simple and divide-and-conquer division.
pub fn pair(t: &mut Tape, cx: &mut Cx, cap: usize) -> (Nat, Nat) {
    let (lq, lb) = match t.weighted(&[12, 8, 8, 8, 4, 2, 1]) {
        0 => (t.range(0, 4), t.range(1, 4)),
        1 => (if t.one_in(8) { t.range(0, 500) } else { t.range(0, 20) }, 1 + t.below(2)),
        6 => if W == 16 { (t.range(190, 900), t.range(190, 900)) } else { (t.range(180, 300), t.range(180, 400)) },
        2 => (t.range(0, 36), t.range(1, 36)),
        3 => (t.range(28, 80), t.range(28, 80)),
        4 => (t.range(30, 200), t.range(30, 150)),
        _ => (t.range(150, 500), t.range(60, 400)),
    };
    let lb = lb.min(cap / 2);
    let lq = lq.min(cap - lb - 1);
    // a very long quotient or divisor, the other short
    let (lq, lb) = match t.below(4000) {
        1 => (far_words(t) - 50, t.range(1, 3)),
        2 => (far_words(t) - 50, t.range(30, 36)),
        3 => (t.range(0, 3), far_words(t) - 50),
        _ => (lq, lb),
    };
    let mut b = nat_len(t, lb);
    if b.is_zero() {
        b = Nat::one();
    }
    let a = match t.below(8) {
        0 => nat_len(t, lq + lb),
        1 => partner(t, &b, lq + lb),
        _ => {
            let q = nat_len(t, lq);
            let r = match t.below(6) {
                0 => Nat::zero(),
                1 => b.sub(&Nat::one()),
                2 => Nat::one().rem(&b),
                3 => b.shr(1),
                _ => {
                    let n = b.bit_len();
                    let x = nat(t, lb);
                    if x < b { x } else { x.low_bits(n - 1) }
                }
            };
            q.mul(&b).add(&r)
        }
    };
    let (wa, wb) = (a.bit_len().div_ceil(W), b.bit_len().div_ceil(W));
    cx.nontrivial_if(a >= b && (wb >= 2 || wa >= 3));
    cx.label_if(wb == 1, "one-word divisor");
    cx.label_if(wb >= 2 && wb <= 32 && a >= b, "simple");
    cx.label_if(wb > 32 && wa >= wb + 32, "divide and conquer");
    cx.label_if(a < b, "quotient zero");
    (a, b)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let cap = if W == 16 { 2000 } else { 900 };
    let (ra, rb) = pair(t, cx, cap);
    note!(cx, "a={ra:?} b={rb:?}");
    let small = ra.bit_len() + rb.bit_len() <= 10 * W;
    let all = small || t.one_in(10);
    let (rq, rr) = ra.div_rem(&rb);
    if t.flag() {
        let (a, b) = (ub(&ra), ub(&rb));
        op_forms!(t, UBig, "UBig /", &a, &ra, &b, &rb, &rq, /, /=, all);
        op_forms!(t, UBig, "UBig %", &a, &ra, &b, &rb, &rr, %, %=, all);
        method_forms!(t, UBig, &a, &ra, &b, &rb, all, div_rem, got, form, {
            same(&format!("UBig div_rem quotient form {form}"), &got.0, &rq)?;
            same(&format!("UBig div_rem remainder form {form}"), &got.1, &rr)?;
        });
        if t.one_in(4) {
            let z = Nat::zero();
            let zero = UBig::from(0u8);
            op_forms_panic!(t, UBig, "UBig / 0", &a, &ra, &zero, &z, /, /=, true);
            op_forms_panic!(t, UBig, "UBig % 0", &a, &ra, &zero, &z, %, %=, true);
            method_forms_panic!(t, UBig, &a, &ra, &zero, &z, div_rem);
        }
    } else {
        let (ia, ib_) = (signed(t, ra), signed(t, rb));
        note!(cx, "signs {} {}", ia.neg, ib_.neg);
        let (rq, rr) = (Int::new(ia.neg != ib_.neg, rq), Int::new(ia.neg, rr));
        let (a, b) = (ib(&ia), ib(&ib_));
        op_forms!(t, IBig, "IBig /", &a, &ia, &b, &ib_, &rq, /, /=, all);
        op_forms!(t, IBig, "IBig %", &a, &ia, &b, &ib_, &rr, %, %=, all);
        method_forms!(t, IBig, &a, &ia, &b, &ib_, all, div_rem, got, form, {
            same(&format!("IBig div_rem quotient form {form}"), &got.0, &rq)?;
            same(&format!("IBig div_rem remainder form {form}"), &got.1, &rr)?;
        });
        if t.one_in(4) {
            let z = Int::zero();
            let zero = IBig::from(0u8);
            op_forms_panic!(t, IBig, "IBig / 0", &a, &ia, &zero, &z, /, /=, true);
            op_forms_panic!(t, IBig, "IBig % 0", &a, &ia, &zero, &z, %, %=, true);
            method_forms_panic!(t, IBig, &a, &ia, &zero, &z, div_rem);
        }
    }
    Ok(())
}
