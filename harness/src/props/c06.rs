use super::*;
use crate::run::*;
use ibig::ops::NextPowerOfTwo;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a value, then a sequence of set_bit/clear_bit at indices inside, at the edges of and far outside it, every query compared with a reference bit vector after each step; non-trivial: two or more updates, or a value longer than a word",
    quick: 60_000,
    fixed: None,
};

fn index(t: &mut Tape, x: &Nat) -> usize {
    let n = x.bit_len();
    match t.below(9) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => (t.below(n / W + 3) * W + t.below(3)).saturating_sub(1),
        4 => x.trailing_zeros().unwrap_or(0),
        5 => n + t.below(4 * W),
        6 => W + t.below(W),
        7 => t.below(2 * W + 2),
        _ => t.below(n + 1),
    }
}

fn queries(t: &mut Tape, x: &UBig, r: &Nat) -> CaseResult {
    same("value", x, r)?;
    ensure!(x.bit_len() == r.bit_len(), "bit_len({r:?}) = {}", x.bit_len());
    ensure!(x.trailing_zeros() == r.trailing_zeros(), "trailing_zeros({r:?}) = {:?}", x.trailing_zeros());
    let p2 = !r.is_zero() && r.trailing_zeros() == Some(r.bit_len() - 1);
    ensure!(x.is_power_of_two() == p2, "is_power_of_two({r:?}) = {}", x.is_power_of_two());
    let np = if r.is_zero() {
        Nat::one()
    } else {
        Nat::pow2(r.sub(&Nat::one()).bit_len())
    };
    same("next_power_of_two(&x)", &x.next_power_of_two(), &np)?;
    same("next_power_of_two(x)", &own_u(t, x, r).next_power_of_two(), &np)?;
    for _ in 0..4 {
        let i = match t.below(12) {
            0 => usize::MAX - t.below(3),
            1 => 1usize << t.below(usize::BITS as usize),
            _ => index(t, r),
        };
        ensure!(x.bit(i) == r.bit(i), "bit({i}) of {r:?} = {}", x.bit(i));
    }
    for neg in [false, true] {
        let i = ib(&Int::new(neg, r.clone()));
        ensure!(i.trailing_zeros() == r.trailing_zeros(), "IBig trailing_zeros of {} {r:?} = {:?}", neg, i.trailing_zeros());
    }
    ensure!(nu(x) == *r, "a query changed the value");
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(80) { 1200 } else { *t.pick(&[1, 2, 3, 10, 30, 160]) };
    let r0 = match t.below(6) {
        0 => Nat::pow2(t.below(max * W)),
        1 => Nat::pow2(t.below(max * W)).sub(&Nat::one()),
        2 => {
            let k = t.below(max * W);
            Nat::pow2(k).add(&Nat::pow2(t.below(k + 1)))
        }
        _ => nat(t, max),
    };
    let base = ub(&r0);
    let mut x = own_u(t, &base, &r0);
    let mut r = r0;
    note!(cx, "x={r:?}");
    queries(t, &x, &r)?;
    let steps = t.below(6);
    for _ in 0..steps {
        let i = index(t, &r);
        let i = match t.below(120) {
            0 => (i + t.below(3000 * W)).min(65_000),
            1..=6 => i + 40 * W,
            _ => i,
        };
        match t.below(5) {
            0 | 1 => {
                note!(cx, "set_bit({i})");
                x.set_bit(i);
                r = r.with_bit(i, true);
            }
            2 => {
                // clearing outside the number, however far, changes nothing
                let i = if t.flag() { usize::MAX - t.below(2) } else { r.bit_len() + t.below(300 * W) };
                note!(cx, "clear_bit({i})");
                x.clear_bit(i);
            }
            _ => {
                note!(cx, "clear_bit({i})");
                x.clear_bit(i);
                r = r.with_bit(i, false);
            }
        }
        queries(t, &x, &r)?;
    }
    cx.nontrivial_if(steps >= 2 || r.bit_len() > W);
    Ok(())
}
