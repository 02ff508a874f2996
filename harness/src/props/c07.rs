use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "value, sign and shift amount around multiples of the word size, the trailing zeros and the bit length, all 6 forms of << and >>; non-trivial: value longer than a word or amount at least a word, amount non-zero",
    quick: 60_000,
    fixed: None,
};

macro_rules! shift_forms {
    ($t:expr, $B:ty, $what:expr, $x:expr, $rx:expr, $n:expr, $want:expr, $op:tt, $opa:tt) => {{
        let (x, n): (&$B, usize) = ($x, $n);
        for form in 0..6 {
            let got: $B = match form {
                0 => x $op n,
                1 => x $op &n,
                2 => <$B as Big>::own($t, x, $rx) $op n,
                3 => <$B as Big>::own($t, x, $rx) $op &n,
                4 => { let mut y = <$B as Big>::own($t, x, $rx); y $opa n; y }
                _ => { let mut y = <$B as Big>::own($t, x, $rx); y $opa &n; y }
            };
            same::<$B>(&format!("{} by {n} (form {form})", $what), &got, $want)?;
        }
        ensure!(x.obs() == *$rx, "{}: borrowed operand changed", $what);
    }};
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(1500) { far_words(t) / 2 } else if t.one_in(80) { 1200 } else { *t.pick(&[1, 2, 3, 6, 20, 60, 200]) };
    let mut near = None;
    let r = match t.below(7) {
        6 => {
            // two bits, the lower one just dropped or just kept
            let (a, b) = (t.below(max * W), t.below(max * W));
            near = Some(a.min(b) + t.below(2 * W));
            Nat::pow2(a).add(&Nat::pow2(b))
        }
        0 => {
            let k = t.below(max * W);
            nat(t, max).shr(k).shl(k)
        }
        1 => Nat::pow2(t.below(max * W)),
        2 => Nat::pow2(t.below(max * W)).sub(&Nat::one()),
        _ => nat(t, max),
    };
    let n = r.bit_len();
    let s = match t.below(9) {
        _ if near.is_some() => near.unwrap(),
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => r.trailing_zeros().unwrap_or(0) + t.below(2),
        4 => t.below(max + 3) * W,
        5 => (t.below(max + 3) * W + t.below(5)).saturating_sub(2),
        6 => t.below(3),
        _ => t.below(n + 3 * W),
    };
    cx.nontrivial_if(s > 0 && !r.is_zero() && (n > W || s >= W));
    note!(cx, "x={r:?} s={s}");
    let huge = if t.flag() { usize::MAX - t.below(W + 2) } else { 1usize << t.below(usize::BITS as usize) };
    if t.flag() {
        let x = ub(&r);
        shift_forms!(t, UBig, "UBig <<", &x, &r, s, &r.shl(s), <<, <<=);
        shift_forms!(t, UBig, "UBig >>", &x, &r, s, &r.shr(s), >>, >>=);
        shift_forms!(t, UBig, "UBig >>", &x, &r, huge, &r.shr(huge), >>, >>=);
        let (z, zero) = (Nat::zero(), UBig::from(0u8));
        shift_forms!(t, UBig, "0 <<", &zero, &z, huge, &z, <<, <<=);
    } else {
        let r = signed(t, r);
        note!(cx, "negative {}", r.neg);
        cx.label_if(r.neg && r.mag.trailing_zeros() < Some(s), "negative, ones dropped");
        let x = ib(&r);
        shift_forms!(t, IBig, "IBig <<", &x, &r, s, &r.shl(s), <<, <<=);
        shift_forms!(t, IBig, "IBig >>", &x, &r, s, &r.shr(s), >>, >>=);
        shift_forms!(t, IBig, "IBig >>", &x, &r, huge, &r.shr(huge), >>, >>=);
        let (z, zero) = (Int::zero(), IBig::from(0u8));
        shift_forms!(t, IBig, "0 <<", &zero, &z, huge, &z, <<, <<=);
    }
    Ok(())
}
