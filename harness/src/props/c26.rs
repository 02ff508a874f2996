//! num-traits: only through generic functions, as generic code sees the types.
use super::*;
use crate::run::*;
use ibig::error::ParseError;
use num_traits::{Num, NumAssign, NumAssignRef, NumRef, One, Pow, Signed, Unsigned, Zero};


pub static PROP: Prop = Prop {
    case: case,
    rule: "values (0, +-1, powers of two, neighbours of each other, up to 60 words) through functions generic over Zero, One, Num, NumRef, NumAssign, Signed, Unsigned and Pow: identities and predicates on the values and on results that cancel to them, set_zero / set_one, laws of abs / signum / abs_sub / is_positive / is_negative against reference integers, num_traits free functions, from_str_radix on numerals and on mutated text in every radix against the reference grammar's verdict, Pow by value and by reference against num_traits::pow and the reference; non-trivial: an operand is not 0 or +-1",
    quick: 40_000,
    fixed: Some(fixed),
};

/// Any of the two types, with its reference as an Int.
trait Both: Big + Num<FromStrRadixErr = ParseError> + NumRef + NumAssign + NumAssignRef + PartialOrd {
    fn of(i: &Int) -> Self;
    fn int(&self) -> Int;
    const SIGNED: bool;
}
impl Both for UBig {
    fn of(i: &Int) -> UBig {
        ub(&i.mag)
    }
    fn int(&self) -> Int {
        Int::pos(nu(self))
    }
    const SIGNED: bool = false;
}
impl Both for IBig {
    fn of(i: &Int) -> IBig {
        ib(i)
    }
    fn int(&self) -> Int {
        ni(self)
    }
    const SIGNED: bool = true;
}

fn is<T: Both>(what: &str, got: &T, want: &Int) -> CaseResult {
    let g = got.int();
    ensure!(g == *want, "{what}: got {g:?}, want {want:?}");
    ensure!(*got == T::of(want) && hash_of(got) == hash_of(&T::of(want)), "{what}: not == to {want:?} made directly");
    Ok(())
}

fn one_int() -> Int {
    Int::pos(Nat::one())
}

fn identities<T: Both>(a: &Int, b: &Int) -> CaseResult {
    let (x, y) = (T::of(a), T::of(b));
    let zero: T = Zero::zero();
    let one: T = One::one();
    is("zero()", &zero, &Int::zero())?;
    is("one()", &one, &one_int())?;
    ensure!(zero.is_zero() && !one.is_zero() && one.is_one() && !zero.is_one(), "predicates of the identities");
    ensure!(x.is_zero() == a.mag.is_zero(), "is_zero of {a:?} is {}", x.is_zero());
    ensure!(x.is_one() == (*a == one_int()), "is_one of {a:?} is {}", x.is_one());
    is("x + 0", &(x.clone() + T::zero()), a)?;
    is("0 + x", &(T::zero() + x.clone()), a)?;
    is("x * 1", &(x.clone() * T::one()), a)?;
    is("1 * x", &(T::one() * &x), a)?;
    is("x - 0", &(x.clone() - &zero), a)?;
    is("x / 1", &(x.clone() / &one), a)?;
    ensure!((x.clone() % T::one()).is_zero(), "{a:?} % 1 is not zero");
    ensure!((x.clone() - &x).is_zero(), "{a:?} - itself is not zero");
    ensure!((x.clone() * T::zero()).is_zero(), "{a:?} * 0 is not zero");
    // results that come to be zero or one
    let s = x.clone() + &y;
    is("x + y", &s, &a.add(b))?;
    let d = s - &y;
    is("x + y - y", &d, a)?;
    ensure!((d.clone() - x.clone()).is_zero(), "x + y - y - x of {a:?} and {b:?} is not zero");
    ensure!((d + T::one() - &x).is_one(), "x + y - y + 1 - x of {a:?} and {b:?} is not one");
    if !a.mag.is_zero() {
        ensure!((x.clone() / &x).is_one() && (x.clone() % &x).is_zero(), "{a:?} / itself");
        let p = y.clone() * &x;
        is("y * x / x", &(p.clone() / &x), b)?;
        ensure!((p % &x).is_zero(), "({b:?} * {a:?}) % {a:?} is not zero");
    }
    let mut z = x.clone();
    z.set_zero();
    is("after set_zero", &z, &Int::zero())?;
    ensure!(z.is_zero(), "set_zero");
    z += &y;
    is("set_zero, += y", &z, b)?;
    let mut z = x.clone();
    z.set_one();
    is("after set_one", &z, &one_int())?;
    ensure!(z.is_one(), "set_one");
    z *= y.clone();
    is("set_one, *= y", &z, b)?;
    is("x is unchanged", &x, a)
}

/// Evaluates the polynomial, by the assigning operators of generic code.
fn horner<T: NumAssignRef + Clone>(coefficients: &[T], x: &T) -> T {
    let mut r = T::zero();
    for c in coefficients.iter().rev() {
        r *= x;
        r += c;
    }
    r
}

/// Euclid's algorithm for generic code; the result is up to sign.
fn euclid<T: NumRef + Clone>(mut a: T, mut b: T) -> T {
    while !b.is_zero() {
        let r = a % &b;
        a = std::mem::replace(&mut b, r);
    }
    a
}

fn generic_code<T: Both>(t: &mut Tape, a: &Int, b: &Int) -> CaseResult {
    let k = t.below(6);
    let cs: Vec<Int> = (0..k).map(|_| sign_for::<T>(int(t, 3))).collect();
    let x = Int::new(a.neg, a.mag.low_bits(64 * 6));
    let mut want = Int::zero();
    for c in cs.iter().rev() {
        want = want.mul(&x).add(c);
    }
    let gs: Vec<T> = cs.iter().map(T::of).collect();
    is(&format!("the polynomial {cs:?} at {x:?}"), &horner(&gs, &T::of(&x)), &want)?;
    let small = |i: &Int| Int::new(i.neg, i.mag.low_bits(64 * 4));
    let (p, q) = (small(a), small(b));
    let g = euclid(T::of(&p), T::of(&q)).int();
    ensure!(g.mag == p.mag.gcd(&q.mag), "Euclid's algorithm on {p:?} and {q:?} gives {g:?}");
    let mut z = T::of(&p);
    if !q.mag.is_zero() {
        z %= &T::of(&q);
        is("p %= q", &z, &p.div_rem_trunc(&q).1)?;
        let mut z = T::of(a);
        z /= T::of(&q);
        is("a /= q", &z, &a.div_rem_trunc(&q).0)?;
    }
    let e = t.below(14);
    is("num_traits::pow", &num_traits::pow(T::of(&p), e), &p.pow(e))?;
    let (lo, hi) = if T::of(a) <= T::of(b) { (a, b) } else { (b, a) };
    let m = num_traits::clamp(T::of(&x), T::of(lo), T::of(hi));
    let want = if x.sub(lo).neg { lo } else if hi.sub(&x).neg { hi } else { &x };
    is("num_traits::clamp", &m, want)
}

fn sign_for<T: Both>(i: Int) -> Int {
    if T::SIGNED { i } else { Int::pos(i.mag) }
}

fn signs<T: Both + Signed>(a: &Int, b: &Int) -> CaseResult {
    let (x, y) = (T::of(a), T::of(b));
    let zero = a.mag.is_zero();
    is("abs", &Signed::abs(&x), &Int::pos(a.mag.clone()))?;
    is("num_traits::abs", &num_traits::abs(x.clone()), &Int::pos(a.mag.clone()))?;
    let sg = Int::from_i128(if zero { 0 } else if a.neg { -1 } else { 1 });
    is(&format!("signum of {a:?}"), &Signed::signum(&x), &sg)?;
    is("num_traits::signum", &num_traits::signum(x.clone()), &sg)?;
    is("abs * signum", &(Signed::abs(&x) * Signed::signum(&x)), a)?;
    ensure!(Signed::is_positive(&x) == (!zero && !a.neg), "is_positive of {a:?} is {}", Signed::is_positive(&x));
    ensure!(Signed::is_negative(&x) == (!zero && a.neg), "is_negative of {a:?} is {}", Signed::is_negative(&x));
    let pd = |a: &Int, b: &Int| {
        let d = a.sub(b);
        if d.neg { Int::zero() } else { d }
    };
    is(&format!("abs_sub of {a:?} and {b:?}"), &Signed::abs_sub(&x, &y), &pd(a, b))?;
    is(&format!("abs_sub of {b:?} and {a:?}"), &Signed::abs_sub(&y, &x), &pd(b, a))?;
    is("abs_sub of equals", &Signed::abs_sub(&x, &x.clone()), &Int::zero())?;
    is("num_traits::abs_sub", &num_traits::abs_sub(x.clone(), y.clone()), &pd(a, b))?;
    is("-x", &-x.clone(), &a.neg())?;
    is("-abs", &-Signed::abs(&x), &Int::new(!zero, a.mag.clone()))
}

fn unsigned<T: Both + Unsigned>(a: &Nat, b: &Nat) -> CaseResult {
    let x = T::of(&Int::pos(a.clone()));
    let y = T::of(&Int::pos(b.clone()));
    ensure!(x >= T::zero(), "an Unsigned value is below zero");
    let lower = a.checked_sub(b).is_none();
    ensure!((x < y) == lower, "{a:?} < {b:?} is {}", x < y);
    Ok(())
}

fn power<T>(b: &Int, e: usize) -> CaseResult
where
    T: Both + Pow<usize, Output = T>,
    for<'a> &'a T: Pow<usize, Output = T>,
{
    power_is::<T>(b, e, &b.pow(e))
}

fn power_is<T>(b: &Int, e: usize, want: &Int) -> CaseResult
where
    T: Both + Pow<usize, Output = T>,
    for<'a> &'a T: Pow<usize, Output = T>,
{
    let x = T::of(b);
    let what = format!("({b:?})^{e}");
    is(&format!("Pow by reference {what}"), &Pow::pow(&x, e), want)?;
    is("the base afterwards", &x, b)?;
    is(&format!("num_traits::pow {what}"), &num_traits::pow(x.clone(), e), want)?;
    is(&format!("Pow by value {what}"), &Pow::pow(x, e), want)
}

fn text<T: Both>(s: &str, radix: u32, want: &Result<Int, ParseError>) -> CaseResult {
    let got = <T as Num>::from_str_radix(s, radix);
    match (got, want) {
        (Ok(x), Ok(w)) => is(&format!("from_str_radix({s:?}, {radix})"), &x, w),
        (Err(e), Err(w)) => {
            ensure!(e == *w, "from_str_radix({s:?}, {radix}) fails with {e:?}, want {w:?}");
            Ok(())
        }
        (g, w) => Err(format!("from_str_radix({s:?}, {radix}) gives {:?}, want {w:?}", g.map(|x| x.int()))),
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    match t.below(5) {
        0 | 1 => {
            let max = *t.pick(&[1usize, 3, 12, 60]);
            let (ra, rb) = match t.below(4) {
                0 => {
                    let a = nat(t, max);
                    let b = partner(t, &a, max);
                    (a, b)
                }
                1 => (Nat::from_u64(t.draw(3)), nat(t, max)),
                2 => {
                    let k = t.below(64 * max);
                    (Nat::pow2(k), Nat::pow2(k).sub(&Nat::one()))
                }
                _ => (nat(t, max), nat(t, max)),
            };
            let (a, b) = (signed(t, ra), signed(t, rb));
            note!(cx, "a = {a:?}, b = {b:?}");
            cx.label("identities");
            cx.nontrivial_if(a.mag.bit_len() > 1 || b.mag.bit_len() > 1);
            identities::<IBig>(&a, &b)?;
            identities::<UBig>(&Int::pos(a.mag.clone()), &Int::pos(b.mag.clone()))?;
            signs::<IBig>(&a, &b)?;
            unsigned::<UBig>(&a.mag, &b.mag)
        }
        2 => {
            let a = int(t, 20);
            let b = int(t, 20);
            note!(cx, "generic code on a = {a:?}, b = {b:?}");
            cx.label("generic code");
            cx.nontrivial_if(a.mag.bit_len() > 1 || b.mag.bit_len() > 1);
            generic_code::<IBig>(t, &a, &b)?;
            generic_code::<UBig>(t, &Int::pos(a.mag), &Int::pos(b.mag))
        }
        3 if t.one_in(8) => {
            // exponents beyond 16 and 32 bits
            let wide = |t: &mut Tape| match t.below(4) {
                0 => usize::MAX - t.below(3),
                1 => 1usize << t.below(usize::BITS as usize),
                2 => (1usize << (16 + t.below(usize::BITS as usize - 16))) + t.below(3) - 1,
                _ => t.sub().next() as usize,
            };
            let (b, e) = match t.below(6) {
                0 => (Int::zero(), wide(t)),
                1 => (Int::from_i128(1), wide(t)),
                2 | 3 => (Int::from_i128(-1), wide(t)),
                _ => (Int::from_i128(*t.pick(&[2, -2])), *t.pick(&[65_530usize, 65_536, 65_537, 131_073]) + t.below(5)),
            };
            let e = if b.mag.bit_len() > 1 { e.min(HARD_MAX_BITS - 2) } else { e };
            note!(cx, "({b:?})^{e}");
            cx.label("pow with a long exponent");
            cx.nontrivial_if(true);
            let want = match b.mag.bit_len() {
                0 => if e == 0 { Int::from_i128(1) } else { Int::zero() },
                1 => Int::new(b.neg && e & 1 == 1, Nat::one()),
                _ => Int::new(b.neg && e & 1 == 1, Nat::pow2(e)),
            };
            power_is::<IBig>(&b, e, &want)?;
            power_is::<UBig>(&Int::pos(b.mag), e, &Int::pos(want.mag))
        }
        3 => {
            let e = match t.below(4) {
                0 => t.below(5),
                1 => ((1usize << t.below(9)) + t.below(3)).saturating_sub(1),
                _ => t.below(200),
            };
            let m = nat(t, 1 + 6 / (1 + e / 20));
            let b = signed(t, m);
            note!(cx, "({b:?})^{e}");
            cx.label("pow");
            cx.nontrivial_if(e > 1 && b.mag.bit_len() > 1);
            power::<IBig>(&b, e)?;
            power::<UBig>(&Int::pos(b.mag), e)
        }
        _ => {
            let radix = 2 + t.below(35) as u32;
            let a = nat(t, 20);
            let mut s: Vec<char> = a.to_radix(radix).chars().collect();
            if t.one_in(3) {
                s.iter_mut().for_each(|c| c.make_ascii_uppercase());
            }
            let zeros = if t.one_in(3) { t.below(70) } else { 0 };
            s.splice(0..0, std::iter::repeat('0').take(zeros));
            let mut a = a;
            let mut good = true;
            if t.one_in(10) {
                // what looks like a prefix is digits, of this radix or not
                s.splice(0..0, t.pick(&["0x", "0b", "0o", "0X", "0B", "0r", "x"]).chars());
                let ds: Vec<u32> = s.iter().map(|c| c.to_digit(36).unwrap()).collect();
                good = ds.iter().all(|&d| d < radix);
                if good {
                    a = Nat::from_digits(&ds, radix);
                }
                cx.label("prefix");
            }
            let (sign, neg) = *t.pick(&[("", false), ("+", false), ("-", true)]);
            s.splice(0..0, sign.chars());
            let (mut wu, mut wi) = if neg { (Err(ParseError::InvalidDigit), Ok(Int::new(true, a.clone()))) } else { (Ok(Int::pos(a.clone())), Ok(Int::pos(a.clone()))) };
            if !good {
                wu = Err(ParseError::InvalidDigit);
                wi = Err(ParseError::InvalidDigit);
            } else if t.one_in(4) {
                // an unacceptable character among the digits
                let k = sign.len() + t.below(s.len() - sign.len());
                s[k] = *t.pick(&['_', ' ', '~', '-', '+', '.', 'é', '\u{0661}']);
                if k == 0 && (s[k] == '-' || s[k] == '+') {
                    // that is a sign
                    s[k] = '_';
                }
                wu = Err(ParseError::InvalidDigit);
                wi = Err(ParseError::InvalidDigit);
            } else if t.one_in(20) {
                s.truncate(sign.len());
                wi = Err(ParseError::NoDigits);
                wu = if neg { Err(ParseError::InvalidDigit) } else { Err(ParseError::NoDigits) };
            }
            let s: String = s.into_iter().collect();
            note!(cx, "from_str_radix({s:?}, {radix})");
            cx.label("from_str_radix");
            cx.nontrivial_if(s.len() > 1);
            text::<IBig>(&s, radix, &wi)?;
            text::<UBig>(&s, radix, &wu)
        }
    }
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    for a in -9i128..=9 {
        for b in -9i128..=9 {
            let (a, b) = (Int::from_i128(a), Int::from_i128(b));
            identities::<IBig>(&a, &b)?;
            signs::<IBig>(&a, &b)?;
            if !a.neg && !b.neg {
                identities::<UBig>(&a, &b)?;
            }
            *n += 1;
        }
        for e in 0..40 {
            power::<IBig>(&Int::from_i128(a), e)?;
            if a >= 0 {
                power::<UBig>(&Int::from_i128(a), e)?;
            }
            *n += 1;
        }
    }
    // the bounds of the primitive types
    for k in [8usize, 16, 32, 64, 128, 256] {
        for d in -2i128..=2 {
            let a = Int::pos(Nat::pow2(k)).add(&Int::from_i128(d));
            for b in [a.clone(), a.neg(), Int::zero(), Int::from_i128(1)] {
                identities::<IBig>(&a, &b)?;
                identities::<IBig>(&a.neg(), &b)?;
                signs::<IBig>(&a, &b)?;
                signs::<IBig>(&a.neg(), &b)?;
                *n += 1;
            }
        }
    }
    for radix in 2..=36u32 {
        for d in 0..36u32 {
            let c = char::from_digit(d, 36).unwrap();
            for c in [c, c.to_ascii_uppercase()] {
                let want = if d < radix { Ok(Int::from_i128(d as i128)) } else { Err(ParseError::InvalidDigit) };
                text::<IBig>(&c.to_string(), radix, &want)?;
                text::<UBig>(&c.to_string(), radix, &want)?;
                *n += 1;
            }
        }
    }
    Ok(())
}
