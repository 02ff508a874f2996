//! One module per property; `lookup` finds it.
#![allow(unused_macros, unused_imports, dead_code)]

use crate::gen::*;
use crate::num::{Int, Nat};
use crate::run::{CaseResult, Prop};
use crate::tape::Tape;
use ibig::{IBig, UBig};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A big type with its reference counterpart.
pub trait Big: Clone + Eq + Hash + Debug {
    type R: Clone + Eq + Debug;
    fn mk(r: &Self::R) -> Self;
    fn obs(&self) -> Self::R;
    fn own(t: &mut Tape, x: &Self, r: &Self::R) -> Self;
}
impl Big for UBig {
    type R = Nat;
    fn mk(r: &Nat) -> UBig {
        ub(r)
    }
    fn obs(&self) -> Nat {
        nu(self)
    }
    fn own(t: &mut Tape, x: &UBig, r: &Nat) -> UBig {
        own_u(t, x, r)
    }
}
impl Big for IBig {
    type R = Int;
    fn mk(r: &Int) -> IBig {
        ib(r)
    }
    fn obs(&self) -> Int {
        ni(self)
    }
    fn own(t: &mut Tape, x: &IBig, r: &Int) -> IBig {
        own_i(t, x, r)
    }
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// `got` is the number `want`, and is indistinguishable from that number made directly.
pub fn same<B: Big>(what: &str, got: &B, want: &B::R) -> CaseResult {
    let o = got.obs();
    if o != *want {
        return Err(format!("{what}: got {o:?}, want {want:?}"));
    }
    let fresh = B::mk(want);
    if *got != fresh {
        return Err(format!("{what}: value {want:?} is not == to the same value made directly"));
    }
    Ok(())
}

/// All (or one drawn) operand forms of a binary operator: & &, own &, & own, own own, op= &, op= own.
macro_rules! op_forms {
    ($t:expr, $B:ty, $name:expr, $a:expr, $ra:expr, $b:expr, $rb:expr, $want:expr, $op:tt, $opa:tt, $all:expr) => {{
        let (a, b): (&$B, &$B) = ($a, $b);
        let forms = if $all { 0..6 } else { let k = $t.below(6); k..k + 1 };
        for form in forms {
            let got: $B = match form {
                0 => a $op b,
                1 => { let x = <$B as Big>::own($t, a, $ra); x $op b }
                2 => { let y = <$B as Big>::own($t, b, $rb); a $op y }
                3 => { let x = <$B as Big>::own($t, a, $ra); let y = <$B as Big>::own($t, b, $rb); x $op y }
                4 => { let mut x = <$B as Big>::own($t, a, $ra); x $opa b; x }
                _ => { let mut x = <$B as Big>::own($t, a, $ra); let y = <$B as Big>::own($t, b, $rb); x $opa y; x }
            };
            same::<$B>(&format!("{} (form {}: {})", $name, form, crate::props::FORM[form]), &got, $want)?;
            ensure!(a.obs() == *$ra && b.obs() == *$rb, "{}: form {}: a borrowed operand changed", $name, form);
        }
    }};
}

/// The same for an operation that must panic in every form.
macro_rules! op_forms_panic {
    ($t:expr, $B:ty, $name:expr, $a:expr, $ra:expr, $b:expr, $rb:expr, $op:tt, $opa:tt, $all:expr) => {{
        let (a, b): (&$B, &$B) = ($a, $b);
        let forms = if $all { 0..6 } else { let k = $t.below(6); k..k + 1 };
        for form in forms {
            let mut x = <$B as Big>::own($t, a, $ra);
            let y = <$B as Big>::own($t, b, $rb);
            let what = format!("{} (form {}: {})", $name, form, crate::props::FORM[form]);
            must_panic(&what, || match form {
                0 => { let _ = a $op b; }
                1 => { let _ = x $op b; }
                2 => { let _ = a $op y; }
                3 => { let _ = x $op y; }
                4 => { x $opa b; }
                _ => { x $opa y; }
            })?;
            ensure!(a.obs() == *$ra && b.obs() == *$rb, "{}: form {}: a borrowed operand changed", $name, form);
        }
    }};
}

/// Four operand forms of a two-argument trait method.
macro_rules! method_forms {
    ($t:expr, $B:ty, $a:expr, $ra:expr, $b:expr, $rb:expr, $all:expr, $method:ident, $got:ident, $form:ident, $check:block) => {{
        let (a, b): (&$B, &$B) = ($a, $b);
        let forms = if $all { 0..4 } else { let k = $t.below(4); k..k + 1 };
        for $form in forms {
            let $got = match $form {
                0 => a.$method(b),
                1 => { let x = <$B as Big>::own($t, a, $ra); x.$method(b) }
                2 => { let y = <$B as Big>::own($t, b, $rb); a.$method(y) }
                _ => { let x = <$B as Big>::own($t, a, $ra); let y = <$B as Big>::own($t, b, $rb); x.$method(y) }
            };
            $check
            ensure!(a.obs() == *$ra && b.obs() == *$rb, "{}: form {}: a borrowed operand changed", stringify!($method), $form);
        }
    }};
}

macro_rules! method_forms_panic {
    ($t:expr, $B:ty, $a:expr, $ra:expr, $b:expr, $rb:expr, $method:ident) => {{
        let (a, b): (&$B, &$B) = ($a, $b);
        for form in 0..4 {
            let x = <$B as Big>::own($t, a, $ra);
            let y = <$B as Big>::own($t, b, $rb);
            must_panic(&format!("{} (form {})", stringify!($method), form), || match form {
                0 => { let _ = a.$method(b); }
                1 => { let _ = x.$method(b); }
                2 => { let _ = a.$method(y); }
                _ => { let _ = x.$method(y); }
            })?;
        }
    }};
}

pub const FORM: [&str; 6] = ["&a op &b", "a op &b", "&a op b", "a op b", "a op= &b", "a op= b"];

macro_rules! registry {
    ($($feature:literal $module:ident $id:literal),* $(,)?) => {
        $(#[cfg(feature = $feature)] pub mod $module;)*
        pub fn lookup(id: &str) -> Option<&'static Prop> {
            match id {
                $(#[cfg(feature = $feature)] $id => Some(&$module::PROP),)*
                _ => None,
            }
        }
    };
}

#[cfg(any(feature = "c18", feature = "c20"))]
mod c18x;

#[cfg(feature = "c15")]
mod hist;

mod c14x;

registry! {
    "c01" c01 "C01", "c02" c02 "C02", "c03" c03 "C03", "c04" c04 "C04", "c05" c05 "C05",
    "c06" c06 "C06", "c07" c07 "C07", "c08" c08 "C08", "c09" c09 "C09", "c10" c10 "C10",
    "c11" c11 "C11", "c12" c12 "C12", "c13" c13 "C13", "c14" c14 "C14", "c15" c15 "C15",
    "c16" c16 "C16", "c17" c17 "C17", "c18" c18 "C18", "c19" c19 "C19", "c20" c20 "C20",
    "c21" c21 "C21", "c22" c22 "C22", "c23" c23 "C23", "c24" c24 "C24", "c25" c25 "C25",
    "c26" c26 "C26", "c28" c28 "C28", "c29" c29 "C29", "c30" c30 "C30", "c31" c31 "C31", "c32" c32 "C32",
}

/// A stream that fails once, on the given call, and counts its calls.
#[allow(dead_code)]
pub struct FailsOnce {
    at: usize,
    calls: usize,
}
impl std::fmt::Write for FailsOnce {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.calls - 1 == self.at {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
/// Whatever call of the stream fails, the failure comes back.
#[allow(dead_code)]
pub fn error_comes_back(t: &mut Tape, what: &str, print: impl Fn(&mut dyn std::fmt::Write) -> std::fmt::Result) -> CaseResult {
    let mut all = FailsOnce { at: usize::MAX, calls: 0 };
    ensure!(print(&mut all).is_ok(), "{what}: an error without a failing stream");
    let at = if t.one_in(2) { all.calls.saturating_sub(1) } else { t.below(all.calls.max(1)) };
    let mut out = FailsOnce { at, calls: 0 };
    let r = print(&mut out);
    ensure!(r.is_err() || all.calls == 0, "{what}: call {at} of {} of the stream failed, but the result is Ok", all.calls);
    Ok(())
}
