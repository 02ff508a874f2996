use super::*;
use crate::run::*;
use ibig::ops::{AndNot, DivEuclid, DivRem, DivRemEuclid, RemEuclid};

pub static PROP: Prop = Prop {
    case: case,
    rule: "(primitive type, big type, operator) drawn uniformly over the whole table, primitive at extremes or random, big number related to it (equal, multiple, just outside the type's range) or independent; every operand form of the drawn operator is run; non-trivial: neither operand is 0 or 1",
    quick: 400_000,
    fixed: None,
};

/// Exact value of a result, whatever its type.
trait ToInt {
    fn int(&self) -> Int;
}
macro_rules! to_int_prim {
    ($($t:ty: $via:ident as $w:ty),*) => { $(impl ToInt for $t { fn int(&self) -> Int { Int::$via(*self as $w) } })* };
}
to_int_prim!(u8: from_u128 as u128, u16: from_u128 as u128, u32: from_u128 as u128, u64: from_u128 as u128,
    u128: from_u128 as u128, usize: from_u128 as u128, i8: from_i128 as i128, i16: from_i128 as i128,
    i32: from_i128 as i128, i64: from_i128 as i128, i128: from_i128 as i128, isize: from_i128 as i128);
impl ToInt for UBig {
    fn int(&self) -> Int {
        let r = nu(self);
        assert!(*self == ub(&r), "result {r:?} is not == to the same value made directly");
        Int::pos(r)
    }
}
impl ToInt for IBig {
    fn int(&self) -> Int {
        let r = ni(self);
        assert!(*self == ib(&r), "result {r:?} is not == to the same value made directly");
        r
    }
}

type F<'a> = (&'static str, &'a dyn Fn() -> Int);
type F2<'a> = (&'static str, &'a dyn Fn() -> (Int, Int));

fn expect(what: &str, want: &Option<Int>, fs: &[F]) -> CaseResult {
    for (form, f) in fs {
        match (catch(|| f()), want) {
            (Ok(got), Some(w)) => ensure!(got == *w, "{what} ({form}): got {got:?}, want {w:?}"),
            (Ok(got), None) => return Err(format!("{what} ({form}): got {got:?}, should have panicked")),
            (Err(m), Some(w)) => return Err(format!("{what} ({form}): panicked ({m}), want {w:?}")),
            (Err(m), None) => ensure!(
                !(m.contains("attempt to") && m.contains("overflow")),
                "{what} ({form}): internal arithmetic overflow: {m}"
            ),
        }
    }
    Ok(())
}

fn expect2(what: &str, want: &Option<(Int, Int)>, fs: &[F2]) -> CaseResult {
    for (form, f) in fs {
        match (catch(|| f()), want) {
            (Ok(got), Some(w)) => ensure!(got == *w, "{what} ({form}): got {got:?}, want {w:?}"),
            (Ok(got), None) => return Err(format!("{what} ({form}): got {got:?}, should have panicked")),
            (Err(m), Some(w)) => return Err(format!("{what} ({form}): panicked ({m}), want {w:?}")),
            (Err(_), None) => {}
        }
    }
    Ok(())
}

fn int2<A: ToInt, B: ToInt>(x: (A, B)) -> (Int, Int) {
    (x.0.int(), x.1.int())
}

macro_rules! six {
    ($what:expr, $want:expr, $x:ident, $p:ident, $op:tt, $opa:tt) => {
        expect($what, $want, &[
            ("x op p", &|| ($x.clone() $op $p).int()),
            ("&x op p", &|| (&$x $op $p).int()),
            ("x op &p", &|| ($x.clone() $op &$p).int()),
            ("&x op &p", &|| (&$x $op &$p).int()),
            ("x op= p", &|| { let mut y = $x.clone(); y $opa $p; y.int() }),
            ("x op= &p", &|| { let mut y = $x.clone(); y $opa &$p; y.int() }),
        ])
    };
}
macro_rules! swapped {
    ($what:expr, $want:expr, $x:ident, $p:ident, $op:tt) => {
        expect($what, $want, &[
            ("p op x", &|| ($p $op $x.clone()).int()),
            ("p op &x", &|| ($p $op &$x).int()),
            ("&p op x", &|| (&$p $op $x.clone()).int()),
            ("&p op &x", &|| (&$p $op &$x).int()),
        ])
    };
}
macro_rules! four {
    ($what:expr, $want:expr, $x:ident, $p:ident, $m:ident) => {
        expect($what, $want, &[
            ("x.m(p)", &|| $x.clone().$m($p).int()),
            ("(&x).m(p)", &|| (&$x).$m($p).int()),
            ("x.m(&p)", &|| $x.clone().$m(&$p).int()),
            ("(&x).m(&p)", &|| (&$x).$m(&$p).int()),
        ])
    };
}
macro_rules! four2 {
    ($what:expr, $want:expr, $x:ident, $p:ident, $m:ident) => {
        expect2($what, $want, &[
            ("x.m(p)", &|| int2($x.clone().$m($p))),
            ("(&x).m(p)", &|| int2((&$x).$m($p))),
            ("x.m(&p)", &|| int2($x.clone().$m(&$p))),
            ("(&x).m(&p)", &|| int2((&$x).$m(&$p))),
        ])
    };
}

const OPS: [&str; 13] = ["+", "-", "*", "/", "%", "&", "|", "^", "and_not", "div_rem", "div_euclid", "rem_euclid", "div_rem_euclid"];

/// One operator between $B and $T. `$lim`: keeps only results representable in the result type.
macro_rules! table {
    ($t:expr, $cx:expr, $B:ident, $T:ident, $x:ident, $p:ident, $rx:expr, $rp:expr, $neg_ok:expr, $sub_swapped:tt) => {{
        let (rx, rp): (&Int, &Int) = ($rx, $rp);
        let lim = |r: Int| if !$neg_ok && r.neg { None } else { Some(r) };
        let lim2 = |(q, r): (Int, Int)| if !$neg_ok && (q.neg || r.neg) { None } else { Some((q, r)) };
        let zero = rp.mag.is_zero();
        let op = $t.below(OPS.len());
        let name = format!("{} {} {}", stringify!($B), OPS[op], stringify!($T));
        let name = name.as_str();
        note!($cx, "{name}: x={rx:?} p={rp:?}");
        match op {
            0 => {
                let w = lim(rx.add(rp));
                six!(name, &w, $x, $p, +, +=)?;
                swapped!(name, &w, $x, $p, +)?;
            }
            1 => {
                six!(name, &lim(rx.sub(rp)), $x, $p, -, -=)?;
                table!(@sub $sub_swapped name, &lim(rp.sub(rx)), $x, $p);
            }
            2 => {
                let w = lim(rx.mul(rp));
                six!(name, &w, $x, $p, *, *=)?;
                swapped!(name, &w, $x, $p, *)?;
            }
            3 => {
                let w = if zero { None } else { lim(rx.div_rem_trunc(rp).0) };
                six!(name, &w, $x, $p, /, /=)?;
            }
            4 => {
                let w = if zero { None } else { Some(rx.div_rem_trunc(rp).1) };
                six!(name, &w, $x, $p, %, %=)?;
            }
            5 => {
                let w = lim(rx.bitop(rp, |a, b| a & b));
                six!(name, &w, $x, $p, &, &=)?;
                swapped!(name, &w, $x, $p, &)?;
            }
            6 => {
                let w = lim(rx.bitop(rp, |a, b| a | b));
                six!(name, &w, $x, $p, |, |=)?;
                swapped!(name, &w, $x, $p, |)?;
            }
            7 => {
                let w = lim(rx.bitop(rp, |a, b| a ^ b));
                six!(name, &w, $x, $p, ^, ^=)?;
                swapped!(name, &w, $x, $p, ^)?;
            }
            8 => {
                let w = lim(rx.bitop(rp, |a, b| a & !b));
                four!(name, &w, $x, $p, and_not)?;
            }
            9 => {
                let w = if zero { None } else { lim2(rx.div_rem_trunc(rp)) };
                four2!(name, &w, $x, $p, div_rem)?;
            }
            10 => {
                let w = if zero { None } else { lim(rx.div_rem_euclid(rp).0) };
                four!(name, &w, $x, $p, div_euclid)?;
            }
            11 => {
                let w = if zero { None } else { Some(rx.div_rem_euclid(rp).1) };
                four!(name, &w, $x, $p, rem_euclid)?;
            }
            _ => {
                let w = if zero { None } else { lim2(rx.div_rem_euclid(rp)) };
                four2!(name, &w, $x, $p, div_rem_euclid)?;
            }
        }
        ensure!($x.int() == *rx, "{name}: borrowed operand changed");
    }};
    (@sub yes $name:expr, $w:expr, $x:ident, $p:ident) => { swapped!($name, $w, $x, $p, -)? };
    (@sub no $name:expr, $w:expr, $x:ident, $p:ident) => {{ let _: &Option<Int> = $w; }};
}

fn big(t: &mut Tape, p: &Int, bits: usize) -> Nat {
    let m = &p.mag;
    let one = Nat::one();
    match t.below(12) {
        0 => m.clone(),
        1 => m.add(&one),
        2 => m.checked_sub(&one).unwrap_or_default(),
        // around the range of the type
        3 => Nat::pow2(bits).add(&Nat::from_u64(t.draw(3))).sub(&one),
        4 => Nat::pow2(bits - 1).add(&Nat::from_u64(t.draw(3))).sub(&one),
        5 | 6 => {
            let q = nat(t, 3);
            let r = Nat::from_u64(t.draw(3));
            q.mul(m).add(&r)
        }
        7 => {
            let q = nat(t, 2);
            q.mul(m).checked_sub(&one).unwrap_or_default()
        }
        8 => {
            let k = t.range(1, 3);
            nat(t, 2).shl(k * W)
        }
        9 => if t.one_in(150) { let l = far_words(t); nat_len(t, l) } else if t.one_in(20) { nat(t, 300) } else { nat(t, 30) },
        _ => nat(t, 4),
    }
}

macro_rules! per_type {
    ($f:ident, $T:ident, $bits:expr) => {
        // A module each, so that they are compiled in parallel.
        mod $f {
        use super::*;
        #[inline(never)]
        pub fn run(t: &mut Tape, cx: &mut Cx) -> CaseResult {
            let p: $T = match t.below(10) {
                0 => <$T>::MAX,
                1 => <$T>::MIN,
                2 => 0,
                3 => 1,
                4 => <$T>::MAX.wrapping_sub(1 + t.draw(2) as $T),
                5 => <$T>::MIN.wrapping_add(1 + t.draw(2) as $T),
                6 => (1 as $T) << t.below($bits),
                7 => ((1 as $T) << t.below($bits)).wrapping_neg(),
                8 => (0 as $T).wrapping_sub(1 + t.draw(3) as $T),
                _ => {
                    let hi = t.raw() as u128;
                    ((hi << 64 | t.raw() as u128) >> t.below(128)) as $T
                }
            };
            let rp = p.int();
            let m = big(t, &rp, $bits);
            cx.nontrivial_if(m.bit_len() > 1 && rp.mag.bit_len() > 1);
            if t.flag() {
                let x = ub(&m);
                let rx = Int::pos(m);
                table!(t, cx, UBig, $T, x, p, &rx, &rp, false, no);
            } else {
                let rx = signed(t, m);
                let x = ib(&rx);
                table!(t, cx, IBig, $T, x, p, &rx, &rp, true, yes);
            }
            Ok(())
        }
        }
    };
}
per_type!(do_u8, u8, 8);
per_type!(do_u16, u16, 16);
per_type!(do_u32, u32, 32);
per_type!(do_u64, u64, 64);
per_type!(do_u128, u128, 128);
per_type!(do_usize, usize, usize::BITS as usize);
per_type!(do_i8, i8, 8);
per_type!(do_i16, i16, 16);
per_type!(do_i32, i32, 32);
per_type!(do_i64, i64, 64);
per_type!(do_i128, i128, 128);
per_type!(do_isize, isize, isize::BITS as usize);

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let f = [do_u8::run, do_u16::run, do_u32::run, do_u64::run, do_u128::run, do_usize::run, do_i8::run, do_i16::run, do_i32::run, do_i64::run, do_i128::run, do_isize::run];
    f[t.below(12)](t, cx)
}
