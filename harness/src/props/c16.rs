use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a base (0, 1, 2, powers of two, near powers of two, one word, several words, either sign) and an exponent 0..=300 (or to thousands for tiny bases), result kept below 30000 bits; by pow and by num_traits::Pow by value and by reference; non-trivial: exponent >= 3 and base > 2",
    quick: 30_000,
    fixed: Some(fixed),
};

fn check(b: &Int, e: usize) -> CaseResult {
    let want = b.pow(e);
    let x = ib(b);
    let what = format!("({b:?})^{e}");
    same(&format!("IBig {what}"), &x.pow(e), &want)?;
    same(&format!("Pow for IBig {what}"), &num_traits::Pow::pow(x.clone(), e), &want)?;
    same(&format!("Pow for &IBig {what}"), &num_traits::Pow::pow(&x, e), &want)?;
    ensure!(ni(&x) == *b, "{what}: the base changed");
    if !b.neg {
        let u = ub(&b.mag);
        same(&format!("UBig {what}"), &u.pow(e), &want.mag)?;
        same(&format!("Pow for UBig {what}"), &num_traits::Pow::pow(u.clone(), e), &want.mag)?;
        same(&format!("Pow for &UBig {what}"), &num_traits::Pow::pow(&u, e), &want.mag)?;
        ensure!(nu(&u) == b.mag, "{what}: the base changed");
    }
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.one_in(12) {
        // 0 and +-1 to any exponent
        let e = match t.below(4) {
            0 => usize::MAX - t.below(3),
            1 => 1usize << t.below(usize::BITS as usize),
            2 => (1usize << t.below(usize::BITS as usize)).wrapping_sub(1),
            _ => t.raw() as usize,
        };
        let b = t.below(3);
        note!(cx, "{} ^ {e}", ["0", "1", "-1"][b]);
        let (x, want) = match b {
            0 => (Int::zero(), Int::from_i128((e == 0) as i128)),
            1 => (Int::from_i128(1), Int::from_i128(1)),
            _ => (Int::from_i128(-1), Int::from_i128(if e % 2 == 0 { 1 } else { -1 })),
        };
        same(&format!("({x:?})^{e}"), &ib(&x).pow(e), &want)?;
        if !x.neg {
            same(&format!("UBig ({x:?})^{e}"), &ub(&x.mag).pow(e), &want.mag)?;
        }
        cx.nontrivial();
        return Ok(());
    }
    if t.one_in(150) {
        // powers of two to exponents of millions
        let most = if W == 16 { 65_000 } else { 5_000_000 };
        let k = 1 + t.below(2 * W);
        let e = t.below(most / k);
        let neg = t.flag();
        note!(cx, "(2^{k}, negative {neg})^{e}");
        let want = Int::new(neg && e % 2 == 1, Nat::pow2(k * e));
        same("power of a power of two", &ib(&Int::new(neg, Nat::pow2(k))).pow(e), &want)?;
        same("power of a power of two", &ub(&Nat::pow2(k)).pow(e), &want.mag)?;
        cx.nontrivial();
        return Ok(());
    }
    if t.one_in(1500) && W > 16 {
        // an exponent beyond 65535
        let b = Int::new(t.flag(), Nat::from_u64(*t.pick(&[3u64, 5, 6])));
        let e = 65_530 + t.below(3000);
        note!(cx, "({b:?})^{e}");
        cx.label("exponent beyond 65535");
        cx.nontrivial();
        return check(&b, e);
    }
    let m = match t.below(6) {
        0 => Nat::from_u64(t.draw(12)),
        1 => Nat::pow2(t.below(2 * W)),
        2 => Nat::pow2(t.below(2 * W)).sub(&Nat::one()),
        3 => Nat::pow2(t.below(2 * W)).add(&Nat::one()),
        4 => nat(t, 1),
        _ => nat(t, 12),
    };
    let limit = *t.pick(&[500usize, 3000, 3000, 30000]);
    let emax = (limit / m.bit_len().max(1)).max(3).min(6000);
    let e = match t.below(4) {
        0 => t.below(emax.min(9) + 1),
        1 => ((1usize << t.below(13)) + t.below(3)).saturating_sub(1).min(emax),
        _ => t.below(emax + 1),
    };
    let b = signed(t, m);
    note!(cx, "({b:?})^{e}");
    cx.nontrivial_if(e >= 3 && b.mag.bit_len() > 1);
    check(&b, e)
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    for b in -20i128..=20 {
        for e in 0..=70 {
            check(&Int::from_i128(b), e)?;
            *n += 1;
        }
    }
    // powers of two, which have a path of their own
    for b in [2i128, -2, 4, -4, 8, 16, 256, 1 << 16] {
        for e in 0..=400 {
            check(&Int::from_i128(b), e)?;
            *n += 1;
        }
    }
    Ok(())
}
