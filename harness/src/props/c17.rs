use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a pair built as g*u, g*v with u, v independent, consecutive Fibonacci-like (all quotients 1), equal, one dividing the other, powers of two, one zero, or of very different lengths, to 90 (rarely 300) words and any signs; non-trivial: both nonzero and neither divides the other",
    quick: 20_000,
    fixed: Some(fixed),
};

fn nat_gcd(a: &Nat, b: &Nat) -> Nat {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_zero() {
        let r = a.rem(&b);
        a = b;
        b = r;
    }
    a
}

fn le(a: &Nat, b: &Nat) -> bool {
    b.checked_sub(a).is_some()
}

fn bezout(what: &str, a: &Int, b: &Int, x: &Int, y: &Int, g: &Nat) -> CaseResult {
    ensure!(a.mul(x).add(&b.mul(y)) == Int::pos(g.clone()), "{what}: a*x + b*y != g with x={x:?} y={y:?} g={g:?}");
    let bound = |o: &Int| if o.mag.is_zero() { Nat::one() } else { o.mag.clone() };
    ensure!(le(&x.mag, &bound(b)), "{what}: |x| > max(|b|, 1): x={x:?}");
    ensure!(le(&y.mag, &bound(a)), "{what}: |y| > max(|a|, 1): y={y:?}");
    Ok(())
}

fn pair(t: &mut Tape, a: &Int, b: &Int) -> CaseResult {
    let (na, nb) = (&a.mag, &b.mag);
    let (ua, ubb) = (ub(na), ub(nb));
    let (ua, ubb) = (own_u(t, &ua, na), own_u(t, &ubb, nb));
    let (ia, ibb) = (ib(a), ib(b));
    let (ia, ibb) = (own_i(t, &ia, a), own_i(t, &ibb, b));
    let what = format!("gcd({a:?}, {b:?})");
    if na.is_zero() && nb.is_zero() {
        must_panic("UBig gcd(0, 0)", || ua.gcd(&ubb))?;
        must_panic("UBig extended_gcd(0, 0)", || ua.extended_gcd(&ubb))?;
        must_panic("IBig gcd(0, 0)", || ia.gcd(&ibb))?;
        must_panic("IBig extended_gcd(0, 0)", || ia.extended_gcd(&ibb))?;
        return Ok(());
    }
    let want = nat_gcd(na, nb);
    same(&format!("UBig {what}"), &ua.gcd(&ubb), &want)?;
    let got: IBig = ia.gcd(&ibb).into();
    same(&format!("IBig {what}"), &got, &Int::pos(want.clone()))?;
    let w = format!("UBig extended {what}");
    let (g, x, y) = ua.extended_gcd(&ubb);
    same(&w, &g, &want)?;
    let (x, y) = (canonical(&w, &x)?, canonical(&w, &y)?);
    bezout(&w, &Int::pos(na.clone()), &Int::pos(nb.clone()), &x, &y, &want)?;
    let w = format!("IBig extended {what}");
    let (g, x, y) = ia.extended_gcd(&ibb);
    let g: IBig = g.into();
    same(&w, &g, &Int::pos(want.clone()))?;
    let (x, y) = (canonical(&w, &x)?, canonical(&w, &y)?);
    bezout(&w, a, b, &x, &y, &want)?;
    ensure!(nu(&ua) == *na && nu(&ubb) == *nb && ni(&ia) == *a && ni(&ibb) == *b, "{what}: an operand changed");
    Ok(())
}

fn canonical(w: &str, x: &IBig) -> Result<Int, String> {
    let r = ni(x);
    same(w, x, &r)?;
    Ok(r)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(100) { 300 } else { *t.pick(&[1usize, 2, 2, 3, 5, 10, 10, 30, 30, 90]) };
    let (a, b) = match t.below(12) {
        0 => (nat(t, max), Nat::zero()),
        1 => {
            let a = nat(t, max);
            let b = partner(t, &a, max);
            (a, b)
        }
        2 => {
            // b | a
            let b = nat(t, max);
            (b.mul(&nat(t, max)), b)
        }
        3 => {
            // Fibonacci-like: worst case of Euclid
            let (mut a, mut b) = (nat_nonzero(t, 1), nat_nonzero(t, 1));
            let steps = t.below(max * W);
            for _ in 0..steps {
                let c = a.add(&b);
                a = b;
                b = c;
            }
            (a, b)
        }
        4 => {
            // chosen quotient sequence, huge and small quotients mixed
            let (mut a, mut b) = (nat_nonzero(t, 1), Nat::zero());
            let long = t.one_in(8);
            for _ in 0..t.below(10) {
                let q = match t.below(4) {
                    0 | 1 if long => {
                        // quotient and cofactors long enough for Karatsuba multiplication
                        let k = t.range(20, 60);
                        nat_len(t, k).add(&Nat::one())
                    }
                    0 => Nat::one(),
                    1 => nat_nonzero(t, 1),
                    2 => nat_nonzero(t, 3),
                    _ => Nat::pow2(t.below(3 * W)),
                };
                let c = a.mul(&q).add(&b);
                b = a;
                a = c;
            }
            (a, b)
        }
        5 => (Nat::pow2(t.below(max * W)).mul(&nat(t, 2)), Nat::pow2(t.below(max * W)).mul(&nat(t, 2))),
        6 => {
            // lengths very different
            (nat(t, max), nat(t, 2))
        }
        7 => {
            let g = nat_nonzero(t, max);
            (g.mul(&nat(t, 2)), g.mul(&nat(t, 2)))
        }
        _ => {
            let g = nat_nonzero(t, 3);
            (g.mul(&nat(t, max)), g.mul(&nat(t, max)))
        }
    };
    let (a, b) = if t.one_in(1500) {
        let l = if W == 16 { 3000 } else { *t.pick(&[5000usize, 20_000]) };
        cx.label("thousands of words and few");
        (nat_len(t, l), nat(t, 2))
    } else {
        (a, b)
    };
    // a long common power of two
    let (a, b) = if t.one_in(40) && a.bit_len().max(b.bit_len()) < 3000 {
        let far = *t.pick(&[255usize, 4096, 65_535, 70_000]);
        let z = Nat::pow2((t.below(far + 1) + far).min(HARD_MAX_BITS - a.bit_len().max(b.bit_len())));
        cx.label_if(far > 60_000, "common power of two beyond 65535 bits");
        (a.mul(&z), b.mul(&z))
    } else {
        (a, b)
    };
    let (a, b) = if t.flag() { (b, a) } else { (a, b) };
    let (a, b) = (signed(t, a), signed(t, b));
    note!(cx, "a={a:?} b={b:?}");
    if !a.mag.is_zero() && !b.mag.is_zero() {
        cx.nontrivial_if(!a.mag.rem(&b.mag).is_zero() && !b.mag.rem(&a.mag).is_zero());
    }
    cx.label_if(a.mag.bit_len() > W && b.mag.bit_len() > W, "both multi-word");
    cx.label_if(a.mag.bit_len().abs_diff(b.mag.bit_len()) > 2 * W, "lengths differ by words");
    pair(t, &a, &b)
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    let mut t = Tape::random(17);
    for a in -40i128..=40 {
        for b in -40i128..=40 {
            pair(&mut t, &Int::from_i128(a), &Int::from_i128(b))?;
            *n += 1;
        }
    }
    pair(&mut t, &Int::zero(), &Int::zero())
}
