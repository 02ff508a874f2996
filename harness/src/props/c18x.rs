//! Moduli, residues and ring elements, shared by the ring properties.
use super::*;
use ibig::{Modulo, ModuloRing};

pub fn modulus(t: &mut Tape, max: usize) -> Nat {
    let m = match t.below(11) {
        0 => Nat::from_u64(1 + t.draw(12)),
        1 => Nat::pow2(t.below(max * W)),
        2 => Nat::pow2(1 + t.below(max * W)).sub(&Nat::one()),
        3 => Nat::pow2(t.below(max * W)).add(&Nat::one()),
        4 => {
            // next to a word boundary
            let k = (1 + t.below(max)) * W;
            let d = Nat::from_u64(t.draw(5));
            if t.flag() { Nat::pow2(k).add(&d) } else { Nat::pow2(k).sub(&d) }
        }
        5 => nat_nonzero(t, 1),
        6 => nat_nonzero(t, 2),
        7 => {
            // top bit of the top word set: no normalization shift
            let k = 1 + t.below(max);
            nat_len(t, k).low_bits(k * W - 1).add(&Nat::pow2(k * W - 1))
        }
        _ => nat_nonzero(t, max),
    };
    if m.is_zero() { Nat::one() } else { m }
}

/// A residue, favouring extremes.
pub fn residue(t: &mut Tape, m: &Nat) -> Nat {
    match t.below(8) {
        0 => Nat::zero(),
        1 => Nat::one().rem(m),
        2 => m.sub(&Nat::one()),
        3 => m.shr(1),
        4 => m.shr(1).add(&Nat::one()).rem(m),
        _ => nat(t, m.bit_len() / W + 1).rem(m),
    }
}

/// An integer in the class of (or unrelated to) a residue, as a ring element by one of the entries.
pub fn element<'a>(t: &mut Tape, ring: &'a ModuloRing, m: &Nat) -> (Modulo<'a>, Nat, String) {
    let k = t.below(8);
    if k < 2 {
        return prim_element(t, ring, m);
    }
    let mut n = residue(t, m);
    match t.below(6) {
        0 => n = n.add(m),
        1 => {
            let q = nat(t, 4);
            n = n.add(&m.mul(&q));
        }
        2 => {
            // much longer than the modulus
            n = nat(t, 2 * (m.bit_len() / W + 1) + 6);
        }
        3 => n = partner(t, m, m.bit_len() / W + 2),
        _ => {}
    }
    let neg = t.flag();
    let i = Int::new(neg, n.clone());
    let (x, want) = match k {
        2 | 3 => (ring.from(ub(&n)), n.rem(m)),
        4 => (ring.from(&ub(&n)), n.rem(m)),
        5 => (ring.from(ib(&i)), i.rem_euclid(m)),
        6 => (ring.from(own_i(t, &ib(&i), &i)), i.rem_euclid(m)),
        _ => (ring.from(&ib(&i)), i.rem_euclid(m)),
    };
    let s = if k < 5 { format!("{n:?}") } else { format!("{i:?}") };
    (x, want, s)
}

fn prim_element<'a>(t: &mut Tape, ring: &'a ModuloRing, m: &Nat) -> (Modulo<'a>, Nat, String) {
    let raw = match t.below(5) {
        0 => t.draw(4) as u128,
        1 => u128::MAX - t.draw(4) as u128,
        2 => 1u128 << t.below(128),
        3 => m.low_bits(127).to_u128().unwrap().wrapping_add(t.draw(3) as u128).wrapping_sub(1),
        _ => ((t.raw() as u128) << 64 | t.raw() as u128) >> t.below(128),
    };
    macro_rules! by_type {
        ($($i:literal $t:ty: $via:ident $w:ty),*) => {
            match t.below(13) {
                $($i => { let p = raw as $t; (ring.from(p), Int::$via(p as $w), format!("{p}{}", stringify!($t))) })*
                _ => { let p = raw & 1 == 1; (ring.from(p), Int::from_u128(p as u128), format!("{p}")) }
            }
        };
    }
    let (x, i, s) = by_type!(0 u8: from_u128 u128, 1 u16: from_u128 u128, 2 u32: from_u128 u128, 3 u64: from_u128 u128,
        4 u128: from_u128 u128, 5 usize: from_u128 u128, 6 i8: from_i128 i128, 7 i16: from_i128 i128,
        8 i32: from_i128 i128, 9 i64: from_i128 i128, 10 i128: from_i128 i128, 11 isize: from_i128 i128);
    (x, i.rem_euclid(m), s)
}

macro_rules! mod_forms {
    ($what:expr, $x:expr, $y:expr, $form:expr, $op:tt, $opa:tt) => {{
        let (x, y) = ($x, $y);
        match $form {
            0 => x $op y,
            1 => x.clone() $op y,
            2 => x $op y.clone(),
            3 => x.clone() $op y.clone(),
            4 => { let mut z = x.clone(); z $opa y; z }
            _ => { let mut z = x.clone(); z $opa y.clone(); z }
        }
    }};
}
pub(crate) use mod_forms;
