//! Reference comparison.
use super::*;
use std::cmp::Ordering;

pub fn cmp_nat(a: &Nat, b: &Nat) -> Ordering {
    match a.checked_sub(b) {
        None => Ordering::Less,
        Some(d) if d.is_zero() => Ordering::Equal,
        Some(_) => Ordering::Greater,
    }
}
pub fn cmp_int(a: &Int, b: &Int) -> Ordering {
    match (a.neg, b.neg) {
        (false, true) => Ordering::Greater,
        (true, false) => Ordering::Less,
        (false, false) => cmp_nat(&a.mag, &b.mag),
        (true, true) => cmp_nat(&b.mag, &a.mag),
    }
}

