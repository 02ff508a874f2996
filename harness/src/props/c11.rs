use super::*;
use crate::run::*;
use ibig::error::OutOfBoundsError;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a primitive value (extremes, powers of two +-2, random) or a big value near the limits of a drawn primitive type (limit, limit+-3, limit+2^k, -limit...) or random; every From/TryFrom of that value into all 12 primitive types and between UBig and IBig is run by value and by reference; non-trivial: the value has more than 7 bits",
    quick: 200_000,
    fixed: Some(fixed),
};

/// Every From/TryFrom out of UBig and IBig for the value `v`.
fn out_of(v: &Int) -> CaseResult {
    let x = ib(v);
    macro_rules! to_prim {
        ($($t:ty),*) => { $({
            // representable iff v lies between MIN and MAX
            let lo = prim_int!($t, <$t>::MIN);
            let hi = prim_int!($t, <$t>::MAX);
            let fits = le(&lo, v) && le(v, &hi);
            let got: [(&str, Result<$t, OutOfBoundsError>); 2] =
                [("by value", <$t>::try_from(x.clone())), ("by reference", <$t>::try_from(&x))];
            for (how, g) in got {
                match g {
                    Ok(p) => ensure!(fits && prim_int!($t, p) == *v, "{}::try_from(IBig {v:?}) {how} = {p}", stringify!($t)),
                    Err(OutOfBoundsError) => ensure!(!fits, "{}::try_from(IBig {v:?}) {how} is OutOfBounds", stringify!($t)),
                }
            }
            if !v.neg {
                let y = ub(&v.mag);
                let got: [(&str, Result<$t, OutOfBoundsError>); 2] =
                    [("by value", <$t>::try_from(y.clone())), ("by reference", <$t>::try_from(&y))];
                for (how, g) in got {
                    match g {
                        Ok(p) => ensure!(fits && prim_int!($t, p) == *v, "{}::try_from(UBig {v:?}) {how} = {p}", stringify!($t)),
                        Err(OutOfBoundsError) => ensure!(!fits, "{}::try_from(UBig {v:?}) {how} is OutOfBounds", stringify!($t)),
                    }
                }
                ensure!(nu(&y) == v.mag, "a by-reference conversion changed the number");
            }
        })* };
    }
    to_prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    // between the big types
    for (how, g) in [("by value", UBig::try_from(x.clone())), ("by reference", UBig::try_from(&x))] {
        match g {
            Ok(u) => {
                ensure!(!v.neg, "UBig::try_from({v:?}) {how} = {u:?}");
                same(&format!("UBig::try_from(IBig) {how}"), &u, &v.mag)?;
            }
            Err(OutOfBoundsError) => ensure!(v.neg, "UBig::try_from({v:?}) {how} is OutOfBounds"),
        }
    }
    if !v.neg {
        let y = ub(&v.mag);
        same("IBig::from(UBig)", &IBig::from(y.clone()), v)?;
        same("IBig::from(&UBig)", &IBig::from(&y), v)?;
    }
    ensure!(ni(&x) == *v, "a by-reference conversion changed the number");
    Ok(())
}

fn le(a: &Int, b: &Int) -> bool {
    let d = b.sub(a);
    !d.neg
}

/// Exact value of a primitive.
macro_rules! prim_int {
    (i8, $e:expr) => { Int::from_i128($e as i128) };
    ($t:ty, $e:expr) => {{
        let p: $t = $e;
        #[allow(unused_comparisons)]
        if p < 0 { Int::from_i128(p as i128) } else { Int::from_u128(p as u128) }
    }};
}
use prim_int;

fn into_unsigned<T>(p: T, v: &Int) -> CaseResult
where
    T: Copy + std::fmt::Display,
    UBig: From<T>,
    IBig: From<T>,
{
    same("UBig::from(unsigned)", &UBig::from(p), &v.mag)?;
    same("IBig::from(unsigned)", &IBig::from(p), v)
}
fn into_signed<T>(p: T, v: &Int) -> CaseResult
where
    T: Copy + std::fmt::Display,
    UBig: TryFrom<T, Error = OutOfBoundsError>,
    IBig: From<T>,
{
    match UBig::try_from(p) {
        Ok(u) => {
            ensure!(!v.neg, "UBig::try_from({p}) = {u:?}");
            same("UBig::try_from(signed)", &u, &v.mag)?;
        }
        Err(OutOfBoundsError) => ensure!(v.neg, "UBig::try_from({p}) is OutOfBounds"),
    }
    same("IBig::from(signed)", &IBig::from(p), v)
}

fn prim(t: &mut Tape) -> u128 {
    match t.below(6) {
        0 => t.draw(4) as u128,
        1 => u128::MAX - t.draw(4) as u128,
        2 => (1u128 << t.below(128)).wrapping_add(t.draw(3) as u128),
        3 => (1u128 << t.below(128)).wrapping_sub(t.draw(3) as u128),
        _ => {
            let x = (t.raw() as u128) << 64 | t.raw() as u128;
            x >> t.below(128)
        }
    }
}

/// All conversions out of the primitive with these low bits.
fn from_prims(raw: u128) -> CaseResult {
    macro_rules! each {
        ($f:ident: $($t:ty),*) => { $({ let p = raw as $t; $f(p, &prim_int!($t, p))?; })* };
    }
    each!(into_unsigned: u8, u16, u32, u64, u128, usize);
    each!(into_signed: i8, i16, i32, i64, i128, isize);
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.below(3) == 0 {
        let raw = prim(t);
        note!(cx, "primitives made of {raw:#x}");
        from_prims(raw)?;
        cx.label("from primitives");
        cx.nontrivial_if(raw > 127);
        return Ok(());
    }
    let v = match t.below(5) {
        0 => {
            let r = prim(t);
            let neg = t.flag();
            Int::new(neg, Nat::from_u128(r))
        }
        1 | 2 => {
            // around +-2^k for the k at which types end
            let k = *t.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let mut m = Nat::pow2(k);
            let d = Nat::from_u64(t.draw(4));
            m = if t.flag() { m.add(&d) } else { m.sub(&d) };
            if t.one_in(4) {
                m = m.add(&Nat::pow2(t.below(140)));
            }
            signed(t, m)
        }
        3 => {
            // low words of a primitive's range, something higher
            let low = Nat::from_u128(prim(t));
            let k = t.below(4) + 1;
            let high = Nat::pow2(64 * k + t.below(64));
            signed(t, low.add(&high))
        }
        _ if t.one_in(1000) => {
            let n = far_words(t);
            int(t, n)
        }
        _ => if t.one_in(40) { int(t, 400) } else { int(t, 10) },
    };
    note!(cx, "value {v:?}");
    out_of(&v)?;
    cx.label("out of big");
    cx.nontrivial_if(v.mag.bit_len() > 7);
    Ok(())
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    for b in [false, true] {
        same("UBig::from(bool)", &UBig::from(b), &Nat::from_u64(b as u64))?;
        same("IBig::from(bool)", &IBig::from(b), &Int::from_i128(b as i128))?;
        *n += 1;
    }
    same("UBig::default()", &UBig::default(), &Nat::zero())?;
    same("IBig::default()", &IBig::default(), &Int::zero())?;
    // every 16-bit primitive, both ways
    for raw in 0..=u16::MAX {
        from_prims(raw as i16 as i128 as u128)?;
        *n += 1;
    }
    for v in -33000i128..=66000 {
        out_of(&Int::from_i128(v))?;
        *n += 1;
    }
    Ok(())
}
