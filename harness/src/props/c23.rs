//! The size limit. Only the 16-bit build can hold numbers of that size (65536 bits); the others are
//! checked where no allocation of that size is needed to decide.
use super::c14x::*;
use super::*;
use crate::run::*;
use ibig::ops::{Abs, DivEuclid, DivRem, DivRemEuclid, NextPowerOfTwo, RemEuclid};
use ibig::ModuloRing;

pub static PROP: Prop = Prop {
    case: case,
    rule: "one operation whose exact result has between 3 bits less and 3 bits more than the maximum (or is exactly 2^max-1, 2^max), or a non-growing operation on operands of maximal length; the result must be exact when it fits and the call must panic when it does not; non-trivial: the result or an operand is within 8 bits of the limit or beyond it",
    quick: 3000,
    fixed: Some(fixed),
};

const L: usize = UBig::MAX_BIT_LEN;

/// The value of `f` is `want` if that fits, else a panic that is not an arithmetic accident.
fn fits_u(cx: &mut Cx, what: &str, want: &Nat, f: impl FnOnce() -> UBig) -> CaseResult {
    cx.nontrivial_if(want.bit_len() + 8 >= L);
    if want.bit_len() <= L {
        cx.label("fits");
        let got = catch(f).map_err(|m| format!("{what}: the result of {} bits fits, but it panicked: {m}", want.bit_len()))?;
        same(what, &got, want)
    } else {
        cx.label("too large");
        must_panic(&format!("{what}, result of {} bits", want.bit_len()), f)
    }
}
fn fits_i(cx: &mut Cx, what: &str, want: &Int, f: impl FnOnce() -> IBig) -> CaseResult {
    cx.nontrivial_if(want.mag.bit_len() + 8 >= L);
    if want.mag.bit_len() <= L {
        cx.label("fits");
        let got = catch(f).map_err(|m| format!("{what}: the result of {} bits fits, but it panicked: {m}", want.mag.bit_len()))?;
        same(what, &got, want)
    } else {
        cx.label("too large");
        must_panic(&format!("{what}, result of {} bits", want.mag.bit_len()), f)
    }
}

/// A number of L - d bits, d small.
fn near(t: &mut Tape) -> Nat {
    let bits = L - *t.pick(&[0usize, 0, 0, 1, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64]);
    of_bits(t, bits)
}
fn of_bits(t: &mut Tape, bits: usize) -> Nat {
    if bits == 0 {
        return Nat::zero();
    }
    match t.below(6) {
        0 => Nat::pow2(bits).sub(&Nat::one()),
        1 => Nat::pow2(bits - 1),
        2 => Nat::pow2(bits).checked_sub(&Nat::from_u64(1 + t.draw(70000))).unwrap_or_default(),
        3 => Nat::pow2(bits - 1).add(&Nat::from_u64(t.draw(70000))).low_bits(bits).with_bit(bits - 1, true),
        _ => {
            let n = bits.div_ceil(W);
            pack(&words(t, n)).low_bits(bits).with_bit(bits - 1, true)
        }
    }
}
fn medium(t: &mut Tape) -> Nat {
    let b = match t.below(4) {
        0 => t.below(16),
        1 => t.below(140),
        2 => t.below(3000),
        _ => t.below(L / 2),
    };
    of_bits(t, b)
}
/// So that a + result is within a few of 2^L.
fn complement(t: &mut Tape, a: &Nat) -> Nat {
    let c = Nat::pow2(L).checked_sub(a).unwrap_or_default();
    let r = match t.below(4) {
        0 => c.checked_sub(&Nat::one()).unwrap_or_default(),
        1 => c,
        2 => c.add(&Nat::from_u64(t.draw(5))).low_bits(L),
        _ => c.checked_sub(&Nat::from_u64(t.draw(1000))).unwrap_or_default(),
    };
    if r.bit_len() > L { Nat::pow2(L).sub(&Nat::one()) } else { r }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if W != 16 {
        return far(t, cx);
    }
    match t.below(16) {
        0 => {
            let a = if t.flag() { near(t) } else { medium(t) };
            let b = if t.flag() { complement(t, &a) } else { near(t) };
            note!(cx, "{} bits + {} bits", a.bit_len(), b.bit_len());
            let want = a.add(&b);
            let (ua, ubb) = (ub(&a), ub(&b));
            let form = t.below(6);
            let x = own_u(t, &ua, &a);
            let y = own_u(t, &ubb, &b);
            fits_u(cx, "UBig +", &want, || match form {
                0 => &ua + &ubb,
                1 => x + &ubb,
                2 => &ua + y,
                3 => x + y,
                4 => {
                    let mut x = x;
                    x += &ubb;
                    x
                }
                _ => {
                    let mut x = x;
                    x += y;
                    x
                }
            })?;
            ensure!(nu(&ua) == a && nu(&ubb) == b, "+: a borrowed operand changed");
            // the same through signs
            let (ia, ibb) = (Int::new(t.flag(), a), Int::pos(b));
            let ibb = Int::new(ia.neg, ibb.mag);
            let want = ia.add(&ibb);
            let (x, y) = (ib(&ia), ib(&ibb));
            fits_i(cx, "IBig +", &want, || &x + &y)?;
            let y = -y;
            fits_i(cx, "IBig -", &want, || &x - &y)?;
            fits_i(cx, "IBig - own", &want, || x.clone() - y.clone())?;
            ensure!(ni(&x) == ia, "+: a borrowed operand changed");
            Ok(())
        }
        1 => {
            // with primitives
            let p = t.raw();
            let p = p >> t.below(64);
            let a = Nat::pow2(L).sub(&Nat::from_u64(p)).add(&Nat::from_u64(t.draw(3))).checked_sub(&Nat::one()).unwrap().low_bits(L);
            note!(cx, "2^L-ish + {p}");
            let ua = ub(&a);
            let want = a.add(&Nat::from_u64(p));
            fits_u(cx, "UBig + u64", &want, || &ua + p)?;
            fits_u(cx, "u64 + UBig", &want, || p + ua.clone())?;
            let n = -IBig::from(&ua);
            let w = Int::new(true, want);
            if p <= i64::MAX as u64 {
                fits_i(cx, "IBig - i64", &w, || &n - p as i64)?;
                fits_i(cx, "IBig + i64", &w, || n.clone() + -(p as i64))?;
            }
            fits_i(cx, "IBig - u64", &w, || &n - p)?;
            let q = 2 + (p >> 40) as u32;
            let bits = L - (32 - q.leading_zeros() as usize) + t.below(2);
            let c = of_bits(t, bits);
            let w = c.mul(&Nat::from_u64(q as u64));
            let uc = ub(&c);
            fits_u(cx, "UBig * u32", &w, || &uc * q)?;
            fits_u(cx, "UBig *= u32", &w, || {
                let mut x = uc.clone();
                x *= q;
                x
            })?;
            ensure!(nu(&uc) == c && nu(&ua) == a, "a borrowed operand changed");
            Ok(())
        }
        2 | 3 => {
            let (a, b) = match t.below(5) {
                0 => {
                    // bits sum to L + {-1, 0, 1, 2}
                    let la = 1 + t.below(L - 1);
                    let a = of_bits(t, la);
                    let lb = (L + 2 - la - t.below(4)).min(L);
                    (a, of_bits(t, lb))
                }
                1 => {
                    let la = L / 2 - 2 + t.below(5);
                    let a = of_bits(t, la);
                    (a.clone(), a)
                }
                2 => {
                    // (2^i - 1)(2^i + 1) and around it
                    let a = Nat::pow2(L / 2).sub(&Nat::from_u64(1 + t.draw(2)));
                    (a, Nat::pow2(L / 2).add(&Nat::from_u64(t.draw(3))))
                }
                3 => {
                    let d = (t.raw() >> 33 | 1) as u32;
                    let q = Nat::pow2(L).div_small(d).0.add(&Nat::from_u64(t.draw(3))).checked_sub(&Nat::one()).unwrap();
                    (q.low_bits(L), Nat::from_u64(d as u64))
                }
                _ => {
                    // far beyond
                    let a = near(t);
                    let lb = 3 + t.below(L - 2);
                    (a, of_bits(t, lb))
                }
            };
            let (a, b) = if t.flag() { (b, a) } else { (a, b) };
            note!(cx, "{} bits * {} bits", a.bit_len(), b.bit_len());
            // an exact product of far too many bits is not needed
            let want = if a.bit_len() + b.bit_len() > L + 40 { Nat::pow2(L + 40) } else { a.mul(&b) };
            let (ua, ubb) = (ub(&a), ub(&b));
            if a == b {
                fits_u(cx, "UBig square", &want, || &ua * &ua)?;
                fits_u(cx, "UBig pow 2", &want, || ua.pow(2))?;
            }
            let form = t.below(4);
            fits_u(cx, "UBig *", &want, || match form {
                0 => &ua * &ubb,
                1 => ua.clone() * &ubb,
                2 => &ua * ubb.clone(),
                _ => {
                    let mut x = ua.clone();
                    x *= &ubb;
                    x
                }
            })?;
            ensure!(nu(&ua) == a && nu(&ubb) == b, "*: a borrowed operand changed");
            let neg = t.flag();
            let x = if neg { -IBig::from(ua) } else { IBig::from(ua) };
            let y = IBig::from(ubb);
            fits_i(cx, "IBig *", &Int::new(neg, want), || &x * &y)
        }
        4 | 5 => {
            let a = match t.below(4) {
                0 => Nat::from_u64(1 + t.draw(20)),
                1 => near(t),
                _ => medium(t),
            };
            let s = match t.below(6) {
                0 => usize::MAX - t.below(40),
                1 => L - t.below(3) + t.below(6),
                2 => (1usize << (L.ilog2() as usize + t.below(40))).wrapping_add(t.below(3)).wrapping_sub(1),
                _ => (L + t.below(7)).saturating_sub(3 + a.bit_len()),
            };
            let (ua, neg) = (ub(&a), t.flag());
            let ia = if neg { -IBig::from(&ua) } else { IBig::from(&ua) };
            note!(cx, "{} bits << {s}", a.bit_len());
            let want = if a.is_zero() {
                Nat::zero()
            } else if s > L + 100 {
                Nat::pow2(L + 100)
            } else {
                a.shl(s)
            };
            fits_u(cx, &format!("{} bits << {s}", a.bit_len()), &want, || &ua << s)?;
            fits_u(cx, &format!("own {} bits << {s}", a.bit_len()), &want, || ua.clone() << s)?;
            fits_u(cx, &format!("own {} bits <<= {s}", a.bit_len()), &want, || {
                let mut x = own_u(&mut Tape::replay(vec![]), &ua, &a);
                x <<= s;
                x
            })?;
            fits_i(cx, &format!("IBig << {s}"), &Int::new(neg, want), || &ia << s)?;
            ensure!(nu(&ua) == a, "<<: a borrowed operand changed");
            Ok(())
        }
        6 => {
            // pow: the exponent next to the one that no longer fits
            let b = match t.below(5) {
                0 => Nat::from_u64(2 + t.draw(15)),
                1 => Nat::pow2(1 + t.below(40)),
                2 => Nat::pow2(2 + t.below(40)).sub(&Nat::one()),
                3 => {
                    let bits = 2 + t.below(60);
                    of_bits(t, bits)
                }
                _ => {
                    let bits = 1000 + t.below(12000);
                    of_bits(t, bits)
                }
            };
            let b = if b.bit_len() < 2 { Nat::from_u64(3) } else { b };
            let lo = (L - 1) / b.bit_len();
            let hi = (L - 1) / (b.bit_len() - 1).max(1) + 1;
            // bisect with bit lengths for the largest exponent that fits
            let e = if b.bit_len() > 60 {
                lo
            } else {
                let lg = log2(&b);
                (L as f64 / lg).floor() as usize
            };
            let e = (e + t.below(4)).saturating_sub(1).clamp(1, hi + 2);
            note!(cx, "base of {} bits to {e}", b.bit_len());
            let want = b.pow(e);
            let u = ub(&b);
            fits_u(cx, &format!("{} bits pow {e}", b.bit_len()), &want, || u.pow(e))?;
            let neg = t.flag();
            let i = if neg { -IBig::from(&u) } else { IBig::from(&u) };
            fits_i(cx, &format!("IBig {} bits pow {e}", b.bit_len()), &Int::new(neg && e % 2 == 1, want), || i.pow(e))?;
            let huge = usize::MAX - t.below(3);
            must_panic("pow of a huge exponent", || u.pow(huge))?;
            ensure!(nu(&u) == b, "pow: the base changed");
            Ok(())
        }
        7 => {
            let a = if t.flag() { near(t) } else { medium(t) };
            let n = match t.below(4) {
                0 => usize::MAX - t.below(3),
                1 => L + t.below(80),
                _ => L - 1 - t.below(20),
            };
            note!(cx, "set_bit({n}) in {} bits", a.bit_len());
            let u = ub(&a);
            let want = if n >= L { Nat::pow2(L + 1) } else { a.with_bit(n, true) };
            fits_u(cx, &format!("set_bit({n})"), &want, || {
                let mut x = u.clone();
                x.set_bit(n);
                x
            })?;
            // clearing beyond the end is nothing
            fits_u(cx, &format!("clear_bit({n})"), &if n < L { a.with_bit(n, false) } else { a.clone() }, || {
                let mut x = u.clone();
                x.clear_bit(n);
                x
            })?;
            ensure!(u.bit(n) == (n < L && a.bit(n)), "bit({n})");
            Ok(())
        }
        8 => {
            let a = near(t);
            note!(cx, "next_power_of_two of {} bits", a.bit_len());
            let bl = a.bit_len();
            let want = if a == Nat::pow2(bl - 1) { a.clone() } else { Nat::pow2(bl) };
            let u = ub(&a);
            fits_u(cx, "next_power_of_two", &want, || u.clone().next_power_of_two())
        }
        9 => {
            let bits = L - 3 + t.below(20);
            let a = of_bits(t, bits);
            note!(cx, "bytes of {} bits", a.bit_len());
            let mut b = a.to_le_bytes();
            fits_u(cx, "from_le_bytes", &a, || UBig::from_le_bytes(&b))?;
            b.reverse();
            fits_u(cx, "from_be_bytes", &a, || UBig::from_be_bytes(&b))?;
            // a few redundant bytes
            if a.bit_len() <= L {
                for _ in 0..t.below(2) {
                    b.insert(0, 0);
                }
                fits_u(cx, "from_be_bytes with a zero byte", &a, || UBig::from_be_bytes(&b))?;
                b.reverse();
                fits_u(cx, "from_le_bytes with a zero byte", &a, || UBig::from_le_bytes(&b))?;
            }
            let chunks: Vec<u64> = a
                .to_le_bytes()
                .chunks(8)
                .map(|c| {
                    let mut b = [0; 8];
                    b[..c.len()].copy_from_slice(c);
                    u64::from_le_bytes(b)
                })
                .collect();
            let text = serde_json::to_string(&chunks).unwrap();
            fits_u(cx, "JSON", &a, || serde_json::from_str::<UBig>(&text).unwrap())?;
            let bin = bincode::serialize(&chunks).unwrap();
            fits_u(cx, "bincode", &a, || bincode::deserialize::<UBig>(&bin).unwrap())
        }
        10 | 11 => {
            let radix = match t.below(3) {
                0 => *t.pick(&[2u32, 4, 8, 16, 32]),
                1 => 10,
                _ => 2 + t.below(35) as u32,
            };
            let a = match t.below(4) {
                0 => Nat::pow2(L).sub(&Nat::one()),
                1 => Nat::pow2(L).add(&Nat::from_u64(t.draw(3))),
                2 => {
                    let bits = L - 3 + t.below(7);
                    of_bits(t, bits)
                }
                _ => near(t),
            };
            note!(cx, "text of {} bits in radix {radix}", a.bit_len());
            let text = a.to_radix(radix);
            fits_u(cx, &format!("from_str_radix {radix}"), &a, || UBig::from_str_radix(&text, radix).unwrap())?;
            if a.bit_len() <= L {
                let u = ub(&a);
                let got = catch(|| u.in_radix(radix).to_string()).map_err(|m| format!("in_radix({radix}) of {} bits panicked: {m}", a.bit_len()))?;
                ensure!(got == text, "in_radix({radix}) of {} bits differs from the reference", a.bit_len());
                if radix == 16 {
                    ensure!(format!("{u:#X}") == format!("0x{}", text.to_uppercase()), "{{:#X}} of {} bits", a.bit_len());
                }
                if radix == 2 {
                    ensure!(format!("{:+b}", -IBig::from(u)) == format!("-{text}"), "{{:+b}} of {} bits", a.bit_len());
                }
            }
            let text = format!("-{text}");
            fits_i(cx, &format!("IBig::from_str_radix {radix}"), &Int::new(true, a), || IBig::from_str_radix(&text, radix).unwrap())
        }
        12 => {
            // two's complement operators: only -2^L lies beyond
            let a = Int::new(true, if t.flag() { Nat::pow2(L).sub(&Nat::one()) } else { near(t) });
            let b = match t.below(4) {
                0 => a.clone(),
                1 => Int::new(t.flag(), near(t)),
                2 => {
                    let k = Nat::pow2(L).sub(&Nat::pow2(t.below(20)));
                    Int::new(true, k)
                }
                _ => Int::new(t.flag(), medium(t)),
            };
            note!(cx, "bit operators on -({} bits) and {} bits", a.mag.bit_len(), b.mag.bit_len());
            let (x, y) = (ib(&a), ib(&b));
            fits_i(cx, "&", &a.bitop(&b, |p, q| p & q), || &x & &y)?;
            fits_i(cx, "& own", &a.bitop(&b, |p, q| p & q), || x.clone() & y.clone())?;
            fits_i(cx, "|", &a.bitop(&b, |p, q| p | q), || &x | &y)?;
            fits_i(cx, "^", &a.bitop(&b, |p, q| p ^ q), || &x ^ &y)?;
            fits_i(cx, "^ own", &a.bitop(&b, |p, q| p ^ q), || x.clone() ^ &y)?;
            let not = |i: &Int| i.neg().sub(&Int::from_i128(1));
            fits_i(cx, "! of negative", &not(&a), || !&x)?;
            fits_i(cx, "! of positive", &not(&a.neg()), || !-x.clone())?;
            let s = t.below(40);
            fits_i(cx, ">>", &a.shr(s), || &x >> s)?;
            ensure!(ni(&x) == a && ni(&y) == b, "a borrowed operand changed");
            Ok(())
        }
        13 => {
            // division: nothing grows, whatever the normalization does
            let a = near(t);
            let b = match t.below(4) {
                0 => Nat::from_u64(1 + (t.raw() >> t.below(64) >> 1)),
                1 => near(t),
                2 => {
                    let bits = 1 + t.below(200);
                    of_bits(t, bits)
                }
                _ => {
                    let bits = 1 + t.below(L);
                    of_bits(t, bits)
                }
            };
            let b = if b.is_zero() { Nat::one() } else { b };
            note!(cx, "{} bits / {} bits", a.bit_len(), b.bit_len());
            let (q, r) = a.div_rem(&b);
            let (x, y) = (ub(&a), ub(&b));
            fits_u(cx, "/", &q, || &x / &y)?;
            fits_u(cx, "/ own", &q, || x.clone() / y.clone())?;
            fits_u(cx, "%", &r, || &x % &y)?;
            let got = catch(|| x.clone().div_rem(&y)).map_err(|m| format!("div_rem panicked: {m}"))?;
            same("div_rem quotient", &got.0, &q)?;
            same("div_rem remainder", &got.1, &r)?;
            let (sx, sy) = (t.flag(), t.flag());
            let (ia, ibb) = (Int::new(sx, a), Int::new(sy, b));
            let (x, y) = (ib(&ia), ib(&ibb));
            let (q, r) = ia.div_rem_euclid(&ibb);
            fits_i(cx, "div_euclid", &q, || (&x).div_euclid(&y))?;
            let got = catch(|| (&x).div_rem_euclid(&y)).map_err(|m| format!("div_rem_euclid panicked: {m}"))?;
            same("div_rem_euclid quotient", &got.0, &q)?;
            same("div_rem_euclid remainder", &IBig::from(got.1), &r)?;
            let got = catch(|| (&x).rem_euclid(&y)).map_err(|m| format!("rem_euclid panicked: {m}"))?;
            same("rem_euclid", &IBig::from(got), &r)
        }
        14 => {
            // rings with a modulus and elements at the limit
            let m = match t.below(3) {
                0 => near(t),
                1 => Nat::from_u64(1 + (t.raw() >> t.below(64) >> 1)),
                _ => {
                    let bits = 1 + t.below(L);
                    of_bits(t, bits)
                }
            };
            let a = near(t);
            let m = if m.is_zero() { Nat::one() } else { m };
            note!(cx, "ring modulo {} bits, element of {} bits", m.bit_len(), a.bit_len());
            let um = ub(&m);
            let ua = ub(&a);
            let ring = catch(|| ModuloRing::new(&um)).map_err(|e| format!("ModuloRing::new({} bits) panicked: {e}", m.bit_len()))?;
            fits_u(cx, "modulus", &m, || ring.modulus())?;
            let r = a.rem(&m);
            fits_u(cx, "ring.from(&UBig)", &r, || ring.from(&ua).residue())?;
            fits_u(cx, "ring.from(UBig)", &r, || ring.from(ua.clone()).residue())?;
            let n = -IBig::from(&ua);
            let nr = Int::new(true, a.clone()).rem_euclid(&m);
            fits_u(cx, "ring.from(IBig)", &nr, || ring.from(&n).residue())?;
            fits_u(cx, "ring.from(own IBig)", &nr, || ring.from(n.clone()).residue())?;
            let two = r.add(&r);
            fits_u(cx, "x + x", &two.rem(&m), || {
                let x = ring.from(&ua);
                (&x + &x).residue()
            })?;
            if m.bit_len() > 1 {
                fits_u(cx, "x * 3", &two.add(&r).rem(&m), || (ring.from(&ua) * ring.from(3)).residue())?;
            }
            if t.one_in(3) {
                let sq = r.mul(&r).rem(&m);
                fits_u(cx, "x * x", &sq, || {
                    let x = ring.from(&ua);
                    (&x * &x).residue()
                })?;
                fits_u(cx, "x.pow(2)", &sq, || ring.from(&ua).pow(&UBig::from(2u8)).residue())?;
            }
            Ok(())
        }
        _ => {
            // the rest of what does not grow
            let a = near(t);
            let u = ub(&a);
            note!(cx, "non-growing operations on {} bits", a.bit_len());
            match t.below(3) {
                0 => {
                    let b = match t.below(3) {
                        0 => near(t),
                        1 => a.checked_sub(&Nat::from_u64(t.draw(4))).unwrap_or_default(),
                        _ => {
                            let bits = 1 + t.below(2000);
                            of_bits(t, bits)
                        }
                    };
                    let v = ub(&b);
                    cx.nontrivial();
                    let g = catch(|| u.gcd(&v)).map_err(|m| format!("gcd panicked: {m}"))?;
                    let (g2, x, y) = catch(|| u.extended_gcd(&v)).map_err(|m| format!("extended_gcd of {} and {} bits panicked: {m}", a.bit_len(), b.bit_len()))?;
                    ensure!(g == g2, "gcd and extended_gcd differ");
                    let (g, x, y) = (nu(&g), ni(&x), ni(&y));
                    ensure!(!g.is_zero() && a.rem(&g).is_zero() && b.rem(&g).is_zero(), "gcd does not divide");
                    ensure!(
                        Int::pos(a.clone()).mul(&x).add(&Int::pos(b.clone()).mul(&y)) == Int::pos(g),
                        "extended_gcd: a*x + b*y != g"
                    );
                }
                1 => {
                    let b = partner(t, &a, L / W);
                    let v = ub(&b);
                    let want = Int::pos(a.clone()).sub(&Int::pos(b.clone()));
                    if want.neg {
                        must_panic("UBig - larger", || &u - &v)?;
                    } else {
                        fits_u(cx, "UBig -", &want.mag, || &u - &v)?;
                    }
                    fits_i(cx, "IBig -", &want, || IBig::from(&u) - IBig::from(&v))?;
                    fits_u(cx, "&", &a.bitop(&b, |p, q| p & q), || &u & &v)?;
                    fits_u(cx, "|", &a.bitop(&b, |p, q| p | q), || &u | v.clone())?;
                    fits_u(cx, "^", &a.bitop(&b, |p, q| p ^ q), || u.clone() ^ &v)?;
                    ensure!(u.cmp(&v) == cmp_nat(&a, &b), "cmp");
                }
                _ => {
                    cx.nontrivial();
                    ensure!(u.bit_len() == a.bit_len(), "bit_len");
                    ensure!(u.trailing_zeros() == a.trailing_zeros(), "trailing_zeros");
                    ensure!(u.to_le_bytes() == a.to_le_bytes(), "to_le_bytes");
                    ensure!(u.to_f64() == f64::INFINITY && u.to_f32() == f32::INFINITY, "to_f64");
                    let s = t.below(L + 5);
                    fits_u(cx, ">>", &a.shr(s), || &u >> s)?;
                    fits_i(cx, "neg", &Int::new(true, a.clone()), || -IBig::from(&u))?;
                    fits_i(cx, "abs", &Int::pos(a.clone()), || (-IBig::from(&u)).abs())?;
                    fits_u(cx, "clone", &a, || u.clone())?;
                    let mut c = UBig::from(5u8);
                    c.clone_from(&u);
                    same("clone_from", &c, &a)?;
                    let text = serde_json::to_string(&u).unwrap();
                    fits_u(cx, "JSON round trip", &a, || serde_json::from_str(&text).unwrap())?;
                }
            }
            Ok(())
        }
    }
}

fn log2(b: &Nat) -> f64 {
    let x = b.to_u128().unwrap() as f64;
    x.log2()
}

/// Builds whose limit is out of reach: only what must panic without allocating, and what is zero.
fn far(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    // far enough beyond the limit that no buffer of that size can be asked for
    let beyond = match t.below(3) {
        0 => usize::MAX - t.below(200).min(usize::MAX - L),
        1 => match L.checked_add(5 * W + t.below(1000)) {
            Some(x) => x,
            None => usize::MAX,
        },
        _ => L.saturating_add(5 * W).saturating_add(t.raw() as usize >> 8),
    };
    if beyond < L.saturating_add(5 * W) {
        return Ok(());
    }
    cx.nontrivial();
    let a = nat_nonzero(t, 8);
    note!(cx, "{a:?} beyond the limit by bit {beyond}");
    let (u, i) = (ub(&a), ib(&Int::new(t.flag(), a.clone())));
    match t.below(6) {
        0 => must_panic(&format!("{a:?} << {beyond}"), || &u << beyond)?,
        1 => must_panic(&format!("own {a:?} << {beyond}"), || u.clone() << beyond)?,
        2 => must_panic(&format!("{i:?} << {beyond}"), || &i << beyond)?,
        3 => must_panic(&format!("set_bit({beyond})"), || {
            let mut x = u.clone();
            x.set_bit(beyond)
        })?,
        4 => must_panic(&format!("2.pow({beyond})"), || UBig::from(2u8).pow(beyond))?,
        _ => {
            same("0 << beyond", &(UBig::from(0u8) << beyond), &Nat::zero())?;
            same("0 << beyond", &(&IBig::from(0u8) << beyond), &Int::zero())?;
            same(">> beyond", &(&u >> beyond), &Nat::zero())?;
            let w = if Int::new(i < IBig::from(0), Nat::one()).neg { -1 } else { 0 };
            same("IBig >> beyond", &(&i >> beyond), &Int::from_i128(w))?;
            ensure!(!u.bit(beyond), "bit({beyond})");
            let mut x = u.clone();
            x.clear_bit(beyond);
            same("clear_bit", &x, &a)?;
        }
    }
    ensure!(nu(&u) == a, "a borrowed operand changed");
    Ok(())
}

fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    if W != 16 {
        ensure!(L % W == 0 && L >= usize::MAX / 2 >> if W == 64 { 4 } else { 0 }, "the limit is {L}");
        *n += 1;
        return Ok(());
    }
    ensure!(L == 65536, "the limit is {L}");
    let max = Nat::pow2(L).sub(&Nat::one());
    let u = ub(&max);
    for s in 0..70usize {
        fits_u(cx, "max << s", &max.shl(s), || &u << s)?;
        fits_u(cx, "max + s", &max.add(&Nat::from_u64(s as u64)), || &u + s)?;
        fits_u(cx, "1 << L-1-s", &Nat::pow2(L - 1 - s), || UBig::from(1u8) << (L - 1 - s))?;
        fits_u(cx, "1 << L+s", &Nat::pow2(L + s), || UBig::from(1u8) << (L + s))?;
        fits_u(cx, "(max >> s) << s", &max.shr(s).shl(s), || (&u >> s) << s)?;
        fits_u(cx, "(max >> s) << s+1", &max.shr(s).shl(s + 1), || (&u >> s) << (s + 1))?;
        *n += 6;
    }
    Ok(())
}
