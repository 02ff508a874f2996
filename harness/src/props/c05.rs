use super::*;
use crate::run::*;
use ibig::ops::AndNot;

pub static PROP: Prop = Prop {
    case: case,
    rule: "operand pairs of all sign combinations with low zero words, all-ones words and related operands, for & | ^ and_not ! in all forms; non-trivial: at least one operand negative, or both two or more words",
    quick: 60_000,
    fixed: None,
};

fn operand(t: &mut Tape, max: usize) -> Nat {
    let x = nat(t, max);
    match t.below(6) {
        // low zero words: borrows of the +-1 identities run through them
        0 => {
            let k = t.range(1, 3) * W;
            x.shl(k)
        }
        1 => {
            let k = t.below(3 * W);
            x.shr(k).shl(k)
        }
        2 => Nat::pow2(t.below(max * W)),
        3 => Nat::pow2(t.below(max * W)).sub(&Nat::one()),
        _ => x,
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(2000) { far_words(t) } else if t.one_in(80) { 1200 } else { *t.pick(&[1, 2, 3, 6, 6, 30, 30, 160]) };
    let ra = operand(t, max);
    let rb = if t.flag() { operand(t, max) } else { partner(t, &ra, max + 3) };
    note!(cx, "a={ra:?} b={rb:?}");
    let all = ra.bit_len() + rb.bit_len() <= 12 * W;
    if t.one_in(4) {
        cx.nontrivial_if(ra.bit_len() > W && rb.bit_len() > W);
        let (a, b) = (ub(&ra), ub(&rb));
        op_forms!(t, UBig, "UBig &", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x & y), &, &=, all);
        op_forms!(t, UBig, "UBig |", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x | y), |, |=, all);
        op_forms!(t, UBig, "UBig ^", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x ^ y), ^, ^=, all);
        let want = ra.bitop(&rb, |x, y| x & !y);
        method_forms!(t, UBig, &a, &ra, &b, &rb, all, and_not, got, form, {
            same(&format!("UBig and_not form {form}"), &got, &want)?;
        });
    } else {
        let (ra, rb) = (signed(t, ra), signed(t, rb));
        note!(cx, "IBig a={ra:?} b={rb:?}");
        cx.nontrivial_if(ra.neg || rb.neg);
        cx.label_if(ra.neg && rb.neg, "both negative");
        cx.label_if(ra.neg != rb.neg, "one negative");
        let (a, b) = (ib(&ra), ib(&rb));
        op_forms!(t, IBig, "IBig &", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x & y), &, &=, all);
        op_forms!(t, IBig, "IBig |", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x | y), |, |=, all);
        op_forms!(t, IBig, "IBig ^", &a, &ra, &b, &rb, &ra.bitop(&rb, |x, y| x ^ y), ^, ^=, all);
        let want = ra.bitop(&rb, |x, y| x & !y);
        method_forms!(t, IBig, &a, &ra, &b, &rb, all, and_not, got, form, {
            same(&format!("IBig and_not form {form}"), &got, &want)?;
        });
        let not = ra.bitop(&ra, |x, _| !x);
        same("!&x", &!&a, &not)?;
        same("!x", &!own_i(t, &a, &ra), &not)?;
        ensure!(ni(&a) == ra, "operand of ! changed");
    }
    Ok(())
}
