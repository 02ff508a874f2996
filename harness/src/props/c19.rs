use super::*;
use crate::run::*;
use ibig::{Modulo, ModuloRing};

pub static PROP: Prop = Prop {
    case: case,
    rule: "a modulus (1, primes, prime powers, powers of two, products sharing a factor with the base, one to 70 (rarely 250) words), a base (residue extremes, units, zero divisors), an exponent (0..40, window boundaries, runs of ones and zeros across word boundaries, to 3000 bits) and a divisor; non-trivial: m > 2, base not 0 or 1, exponent >= 3",
    quick: 25_000,
    fixed: Some(fixed),
};

fn nat_gcd(a: &Nat, b: &Nat) -> Nat {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_zero() {
        let r = a.rem(&b);
        a = b;
        b = r;
    }
    a
}

fn is(what: &str, x: &Modulo, want: &Nat) -> CaseResult {
    same(&format!("{what}: residue"), &x.residue(), want)
}

pub fn modulus(t: &mut Tape, max: usize) -> Nat {
    let small: &[u64] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 30, 97, 127, 128, 255, 256, 257, 65521, 65535, 65536, 65537];
    let m = match t.below(10) {
        0 | 1 => Nat::from_u64(*t.pick(small)),
        2 => Nat::pow2(t.below(max * W)),
        3 => Nat::pow2(*t.pick(&[13usize, 17, 19, 31, 61, 89, 107, 127, 521])).sub(&Nat::one()),
        4 => {
            // power of a small prime
            let p = Nat::from_u64(*t.pick(&[2u64, 3, 5, 7, 65521]));
            let k = 1 + t.below(max * W / p.bit_len());
            p.pow(k)
        }
        5 => {
            let k = (1 + t.below(max)) * W;
            let d = Nat::from_u64(t.draw(5));
            if t.flag() { Nat::pow2(k).add(&d) } else { Nat::pow2(k).sub(&d) }
        }
        6 => {
            let k = 1 + t.below(max);
            nat_len(t, k).low_bits(k * W - 1).add(&Nat::pow2(k * W - 1))
        }
        _ => nat_nonzero(t, max),
    };
    if m.is_zero() { Nat::one() } else { m }
}

fn exponent(t: &mut Tape, bits: usize) -> Nat {
    match t.below(8) {
        0 => Nat::from_u64(t.draw(41)),
        1 => Nat::pow2(t.below(bits)),
        2 => Nat::pow2(t.below(bits)).sub(&Nat::one()),
        3 => {
            // ones, zeros, ones: windows across word boundaries
            let k = t.below(bits / W + 1) * W;
            let w = 1 + t.below(12);
            let at = (k + t.below(12)).saturating_sub(w);
            let x = Nat::pow2(w).sub(&Nat::one()).shl(at);
            x.add(&Nat::from_u64(t.draw(3)))
        }
        4 => nat(t, 2),
        _ => nat(t, bits / W + 1).low_bits(bits),
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(100) { 250 } else { *t.pick(&[1usize, 1, 2, 2, 3, 5, 5, 20, 70]) };
    let m = modulus(t, max);
    let ring = ModuloRing::new(&ub(&m));
    let pick = |t: &mut Tape| -> Nat {
        match t.below(9) {
            0 => Nat::zero(),
            1 => Nat::one().rem(&m),
            2 => m.sub(&Nat::one()),
            3 => Nat::from_u64(2 + t.draw(8)).rem(&m),
            4 => {
                // shares a factor with the modulus when that has one
                let f = Nat::from_u64(*t.pick(&[2u64, 3, 5, 7, 65521]));
                f.mul(&nat(t, max)).rem(&m)
            }
            _ => nat(t, max + 1).rem(&m),
        }
    };
    let (ra, rb) = (pick(t), pick(t));
    let (a, b) = (ring.from(ub(&ra)), ring.from(ub(&rb)));
    let bits = match m.bit_len() / W {
        0..=3 if t.one_in(150) => (*t.pick(&[35_000usize, 70_000, 140_000])).min(HARD_MAX_BITS - 200),
        0..=3 => if t.one_in(60) { 30_000 } else { *t.pick(&[16usize, 70, 200, 200, 3000]) },
        4..=8 => *t.pick(&[300usize, 300, 300, 1500]),
        9..=80 => 300,
        _ => 40,
    };
    let e = exponent(t, bits);
    note!(cx, "modulus {m:?}, a={ra:?}, e={e:?}, b={rb:?}");
    let one = Nat::one().rem(&m);
    let want = if e.is_zero() { one.clone() } else { ra.pow_mod(&e, &m) };
    let what = format!("{ra:?} ^ {e:?} mod {m:?}");
    let p = a.pow(&ub(&e));
    is(&format!("pow {what}"), &p, &want)?;
    ensure!(p == ring.from(ub(&want)), "pow {what}: not == to from(residue)");
    is(&format!("pow_signed {what}"), &a.pow_signed(&ib(&Int::pos(e.clone()))), &want)?;
    is("base after pow", &a, &ra)?;

    // inverse
    let unit = nat_gcd(&ra, &m).is_one();
    let inv = a.inverse();
    let what = format!("inverse of {ra:?} mod {m:?}");
    match &inv {
        None => ensure!(!unit, "{what}: None, but gcd is 1"),
        Some(x) => {
            ensure!(unit, "{what}: Some({:?}), but gcd is not 1", nu(&x.residue()));
            let r = nu(&x.residue());
            ensure!(m.checked_sub(&r).map_or(false, |d| !d.is_zero()), "{what}: residue {r:?} is not below the modulus");
            ensure!(ra.mul(&r).rem(&m) == one, "{what}: a * {r:?} is not 1");
            is(&what, x, &r)?;
            ensure!(*x == ring.from(ub(&r)), "{what}: not == to from(residue)");
            is("a * inverse(a)", &(x * &a), &one)?;
        }
    }
    let ne = ib(&Int::new(true, e.clone()));
    if e.is_zero() {
        is("pow_signed(-0)", &a.pow_signed(&ne), &one)?;
    } else if let Some(x) = &inv {
        let w = nu(&x.residue()).pow_mod(&e, &m);
        is(&format!("pow_signed {ra:?} ^ -{e:?} mod {m:?}"), &a.pow_signed(&ne), &w)?;
    } else {
        must_panic(&format!("pow_signed {ra:?} ^ -{e:?} mod {m:?} of a non-unit"), || a.pow_signed(&ne))?;
    }

    // division
    let what = format!("{ra:?} / {rb:?} mod {m:?}");
    let forms = if t.one_in(3) { 0..6 } else { let k = t.below(6); k..k + 1 };
    for form in forms {
        let go = || match form {
            0 => &a / &b,
            1 => a.clone() / &b,
            2 => &a / b.clone(),
            3 => a.clone() / b.clone(),
            4 => { let mut z = a.clone(); z /= &b; z }
            _ => { let mut z = a.clone(); z /= b.clone(); z }
        };
        if nat_gcd(&rb, &m).is_one() {
            let q = go();
            let r = nu(&q.residue());
            ensure!(m.checked_sub(&r).map_or(false, |d| !d.is_zero()) && r.mul(&rb).rem(&m) == ra.rem(&m), "{what} form {form}: {r:?}");
            ensure!(q == ring.from(ub(&r)), "{what} form {form}: not == to from(residue)");
        } else {
            must_panic(&format!("{what} form {form}"), go)?;
        }
        is("dividend", &a, &ra)?;
        is("divisor", &b, &rb)?;
    }
    cx.nontrivial_if(m.bit_len() > 1 && ra.bit_len() > 1 && e.bit_len() > 1);
    cx.label_if(m.bit_len() > W, "multi-word modulus");
    cx.label_if(m.is_one(), "modulus one");
    cx.label_if(e.bit_len() > W, "multi-word exponent");
    cx.label(if unit { "unit" } else { "non-unit" });
    Ok(())
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    for m in 1u64..=24 {
        let rm = Nat::from_u64(m);
        let ring = ModuloRing::new(&ub(&rm));
        for a in 0..m {
            let x = ring.from(a);
            let inv = (0..m).find(|b| a * b % m == 1 % m);
            let got = x.inverse().map(|v| nu(&v.residue()).to_u128().unwrap() as u64);
            ensure!(got == inv, "inverse of {a} mod {m} = {got:?}, want {inv:?}");
            let mut w = 1 % m;
            for e in 0..=20u64 {
                let g = nu(&x.pow(&UBig::from(e)).residue()).to_u128().unwrap() as u64;
                ensure!(g == w, "{a}^{e} mod {m} = {g}, want {w}");
                w = w * a % m;
                *n += 1;
            }
        }
    }
    Ok(())
}
