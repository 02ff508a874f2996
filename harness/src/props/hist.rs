//! Histories over a pool of variables, with a reference model of every variable.
//! Shared by the stateful property (C15), the cross-configuration transcripts (C24) and the memory check (C25).
use super::*;
use crate::run::*;
use ibig::ops::*;
use ibig::ModuloRing;
use std::mem;

pub struct World {
    pub u: Vec<UBig>,
    pub i: Vec<IBig>,
    pub mu: Vec<Nat>,
    pub mi: Vec<Int>,
    /// Results stay below this many bits.
    pub cap: usize,
    pub fresh: fn(&mut Tape, usize) -> Nat,
    /// What an observer of the program sees of the last step.
    pub out: String,
    pub panics: u32,
    pub steps: u32,
}

enum Out<R> {
    /// The new value of the destination.
    Val(R),
    /// Skipped: nothing was executed.
    Skip,
    /// The operation must panic.
    Panics,
}

/// Moves or borrows according to the form; forms 4 and 6 leave 0 in the variable moved from.
macro_rules! binop {
    ($v:expr, $m:expr, $zero:expr, $d:expr, $a:expr, $b:expr, $form:expr, $op:tt, $opa:tt) => {{
        let (d, a, b) = ($d, $a, $b);
        match $form {
            0 => { $v[d] = &$v[a] $op &$v[b]; }
            1 => { $v[d] = $v[a].clone() $op &$v[b]; }
            2 => { $v[d] = &$v[a] $op $v[b].clone(); }
            3 => { $v[d] = $v[a].clone() $op $v[b].clone(); }
            4 if a != b => {
                let x = mem::take(&mut $v[a]);
                $m[a] = $zero;
                $v[d] = x $op &$v[b];
            }
            5 if d != b => { let y = mem::take(&mut $v[b]); $m[b] = $zero; $v[d] $opa y; }
            6 if d != b => { let (x, y) = two(&mut $v[..], d, b); *x $opa &*y; }
            7 if a != b => {
                let (x, y) = (mem::take(&mut $v[a]), mem::take(&mut $v[b]));
                $m[a] = $zero;
                $m[b] = $zero;
                $v[d] = x $op y;
            }
            _ => { let y = $v[b].clone(); $v[d] $opa y; }
        }
    }};
}

/// In which forms is the first operand the destination itself?
fn assigns(form: usize, _d: usize, a: usize, b: usize) -> bool {
    match form {
        0..=3 => false,
        4 | 7 => a == b,
        // 5 and 6 with d == b fall to the last arm, which assigns too
        _ => true,
    }
}

fn two<T>(v: &mut [T], i: usize, j: usize) -> (&mut T, &T) {
    if i < j {
        let (p, q) = v.split_at_mut(j);
        (&mut p[i], &q[0])
    } else {
        let (p, q) = v.split_at_mut(i);
        (&mut q[0], &p[j])
    }
}

impl World {
    pub fn new(t: &mut Tape, cap: usize, fresh: fn(&mut Tape, usize) -> Nat) -> World {
        let n = 2 + t.below(3);
        let mut w = World { u: vec![], i: vec![], mu: vec![], mi: vec![], cap, fresh, out: String::new(), panics: 0, steps: 0 };
        for _ in 0..n {
            let r = fresh(t, cap / 4);
            w.u.push(ub(&r));
            w.mu.push(r);
            let r = signed_fresh(t, fresh, cap / 4);
            w.i.push(ib(&r));
            w.mi.push(r);
        }
        w
    }

    /// Every variable has its model value.
    pub fn check(&self, what: &str, du: Option<usize>, di: Option<usize>) -> CaseResult {
        for (k, (x, m)) in self.u.iter().zip(&self.mu).enumerate() {
            if du == Some(k) {
                same(&format!("{what}: assigned u{k}"), x, m)?;
                ensure!(hash_of(x) == hash_of(&ub(m)), "{what}: u{k} = {m:?} hashes differently from a fresh equal value");
            } else {
                ensure!(nu(x) == *m, "{what}: u{k} was {m:?}, is now {:?}", nu(x));
            }
        }
        for (k, (x, m)) in self.i.iter().zip(&self.mi).enumerate() {
            if di == Some(k) {
                same(&format!("{what}: assigned i{k}"), x, m)?;
                ensure!(hash_of(x) == hash_of(&ib(m)), "{what}: i{k} = {m:?} hashes differently from a fresh equal value");
            } else {
                ensure!(ni(x) == *m, "{what}: i{k} was {m:?}, is now {:?}", ni(x));
            }
        }
        Ok(())
    }

    /// One random operation. `verify`: compare with the model (off for transcripts).
    pub fn step(&mut self, t: &mut Tape, cx: &mut Cx, verify: bool) -> CaseResult {
        self.out.clear();
        let signed = t.flag();
        let r = if signed { self.step_i(t, cx, verify) } else { self.step_u(t, cx, verify) };
        self.steps += 1;
        r
    }

    fn step_u(&mut self, t: &mut Tape, cx: &mut Cx, verify: bool) -> CaseResult {
        let n = self.u.len();
        let (d, a, b) = (t.below(n), t.below(n), t.below(n));
        let form = t.below(9);
        let op = t.below(35);
        // the left operand of the assigning forms is the destination
        let asg = assigns(form, d, a, b);
        let left = if asg { d } else { a };
        let (ra, rb) = (self.mu[left].clone(), self.mu[b].clone());
        let sum_bits = ra.bit_len() + rb.bit_len();
        let cap = self.cap;
        let mut what;
        macro_rules! bin {
            ($name:expr, $want:expr, $op:tt, $opa:tt) => {{
                what = format!("u{d} = u{left} {} u{b} (form {form})", $name);
                note!(cx, "{what}");
                match $want {
                    Out::Skip => { what.push_str(" skipped"); }
                    Out::Panics => {
                        // Values are moved only once the operation has been chosen, so clone what forms 4, 5, 7 move.
                        let form = match form { 4 | 7 => 3, 5 => 8, f => f };
                        let asg = assigns(form, d, a, b);
                        let a = if asg { d } else { left };
                        let (v, m) = (&mut self.u, &mut self.mu);
                        must_panic(&what, || binop!(v, m, Nat::zero(), d, a, b, form, $op, $opa))?;
                        self.panics += 1;
                        if asg {
                            // whatever is left must still be a well-formed number
                            let o = nu(&self.u[d]);
                            same(&format!("{what}: destination after the panic"), &self.u[d], &o)?;
                            self.u[d] = ub(&self.mu[d]);
                        }
                    }
                    Out::Val(r) => {
                        let (v, m) = (&mut self.u, &mut self.mu);
                        binop!(v, m, Nat::zero(), d, a, b, form, $op, $opa);
                        m[d] = r;
                    }
                }
            }};
        }
        macro_rules! set {
            ($name:expr, $val:expr, $want:expr) => {{
                what = format!("u{d} = {}", $name);
                note!(cx, "{what}");
                let want = $want;
                self.u[d] = $val;
                self.mu[d] = want;
            }};
        }
        let lim = |r: Nat| if r.bit_len() > cap { Out::Skip } else { Out::Val(r) };
        match op {
            0 | 1 => bin!("+", lim(ra.add(&rb)), +, +=),
            2 | 3 => bin!("-", ra.checked_sub(&rb).map_or(Out::Panics, Out::Val), -, -=),
            4 | 5 => bin!("*", if sum_bits > cap { Out::Skip } else { Out::Val(ra.mul(&rb)) }, *, *=),
            6 | 7 => bin!("/", if rb.is_zero() { Out::Panics } else { Out::Val(ra.div_rem(&rb).0) }, /, /=),
            8 | 9 => bin!("%", if rb.is_zero() { Out::Panics } else { Out::Val(ra.rem(&rb)) }, %, %=),
            10 => bin!("&", Out::Val(ra.bitop(&rb, |x, y| x & y)), &, &=),
            11 => bin!("|", Out::Val(ra.bitop(&rb, |x, y| x | y)), |, |=),
            12 => bin!("^", Out::Val(ra.bitop(&rb, |x, y| x ^ y)), ^, ^=),
            13 | 14 => {
                let k = if t.one_in(8) { t.below(self.cap) } else { t.below(200) };
                let left = t.flag();
                let k = if left { k.min(cap - self.mu[d].bit_len().min(cap)) } else { k };
                let inplace = t.flag();
                what = format!("u{d} {} {k} (in place {inplace})", if left { "<<" } else { ">>" });
                note!(cx, "{what}");
                let src = if inplace { d } else { a };
                let k = if left { k.min(cap - self.mu[src].bit_len().min(cap)) } else { k };
                let want = if left { self.mu[src].shl(k) } else { self.mu[src].shr(k) };
                match (left, inplace, form & 1 == 0) {
                    (true, true, _) => self.u[d] <<= k,
                    (false, true, _) => self.u[d] >>= k,
                    (true, false, true) => self.u[d] = &self.u[a] << k,
                    (false, false, true) => self.u[d] = &self.u[a] >> k,
                    (true, false, false) => {
                        let x = mem::take(&mut self.u[a]);
                        self.mu[a] = Nat::zero();
                        self.u[d] = x << k
                    }
                    (false, false, false) => {
                        let x = mem::take(&mut self.u[a]);
                        self.mu[a] = Nat::zero();
                        self.u[d] = x >> k
                    }
                }
                self.mu[d] = want;
            }
            15 | 16 => {
                let k = t.below((self.mu[d].bit_len() + 70).min(cap));
                what = format!("u{d}.set_bit({k})");
                note!(cx, "{what}");
                self.u[d].set_bit(k);
                self.mu[d] = self.mu[d].with_bit(k, true);
            }
            17 | 18 => {
                let k = t.below(self.mu[d].bit_len() + 70);
                what = format!("u{d}.clear_bit({k})");
                note!(cx, "{what}");
                self.u[d].clear_bit(k);
                self.mu[d] = self.mu[d].with_bit(k, false);
            }
            19 | 20 => {
                what = format!("u{d}.clone_from(&u{a})");
                note!(cx, "{what}");
                if d != a {
                    let (x, y) = two(&mut self.u, d, a);
                    x.clone_from(y);
                    self.mu[d] = self.mu[a].clone();
                }
            }
            21 => {
                what = format!("swap u{d} u{a}");
                note!(cx, "{what}");
                self.u.swap(d, a);
                self.mu.swap(d, a);
            }
            22 => {
                what = format!("u{d} = take u{a}");
                note!(cx, "{what}");
                let x = mem::take(&mut self.u[a]);
                let m = mem::take(&mut self.mu[a]);
                if verify {
                    same("taken-from variable", &self.u[a], &Nat::zero())?;
                }
                self.u[d] = x;
                self.mu[d] = m;
            }
            23 => {
                let r = (self.fresh)(t, cap / 2);
                set!(format!("fresh {r:?}"), ub(&r), r.clone())
            }
            24 => {
                let radix = 2 + t.below(35) as u32;
                let s = self.u[a].in_radix(radix).to_string();
                self.out.push_str(&s);
                set!(format!("parse of u{a} in radix {radix}"), UBig::from_str_radix(&s, radix).map_err(|e| format!("parsing {s:?} in radix {radix}: {e}"))?, self.mu[a].clone())
            }
            25 => {
                // mostly small: repeated use keeps numbers at short lengths, where storage changes form
                let bits = 1 + t.below(130);
                set!(format!("u{a} low {bits} bits"), &self.u[a] & ((UBig::from(1u8) << bits) - 1u8), self.mu[a].low_bits(bits))
            }
            26 => {
                let m = &self.mi[a % self.mi.len()];
                let k = a % self.i.len();
                match UBig::try_from(&self.i[k]) {
                    Ok(x) => {
                        ensure!(!m.neg, "UBig::try_from of negative i{k}");
                        let w = m.mag.clone();
                        set!(format!("UBig::try_from(&i{k})"), x, w)
                    }
                    Err(_) => {
                        ensure!(m.neg, "UBig::try_from of non-negative i{k} failed");
                        let w = m.mag.clone();
                        set!(format!("unsigned_abs(&i{k})"), (&self.i[k]).unsigned_abs(), w)
                    }
                }
            }
            27 => {
                let p = t.raw() >> t.below(64);
                let rp = Nat::from_u64(p);
                what = format!("u{d} op= {p}");
                note!(cx, "{what}");
                match t.below(6) {
                    0 if self.mu[d].bit_len() < cap - 64 => { self.u[d] += p; self.mu[d] = self.mu[d].add(&rp); }
                    1 if self.mu[d].checked_sub(&rp).is_some() => { self.u[d] -= p; self.mu[d] = self.mu[d].sub(&rp); }
                    2 if self.mu[d].bit_len() < cap - 64 => { self.u[d] *= p; self.mu[d] = self.mu[d].mul(&rp); }
                    3 if p != 0 => { self.u[d] /= p; self.mu[d] = self.mu[d].div_rem(&rp).0; }
                    4 => { self.u[d] |= p; self.mu[d] = self.mu[d].bitop(&rp, |x, y| x | y); }
                    5 => { self.u[d] ^= p; self.mu[d] = self.mu[d].bitop(&rp, |x, y| x ^ y); }
                    _ => {}
                }
            }
            28 => {
                let e = t.below(5);
                if self.mu[a].bit_len() * e <= cap {
                    set!(format!("u{a}^{e}"), self.u[a].pow(e), self.mu[a].pow(e))
                } else {
                    what = "skipped".into();
                }
            }
            29 => {
                if self.mu[a].bit_len() < cap {
                    let r = if self.mu[a].is_zero() { Nat::one() } else { Nat::pow2(self.mu[a].sub(&Nat::one()).bit_len()) };
                    if form & 1 == 0 {
                        set!(format!("(&u{a}).next_power_of_two()"), (&self.u[a]).next_power_of_two(), r)
                    } else {
                        let x = mem::take(&mut self.u[a]);
                        self.mu[a] = Nat::zero();
                        set!(format!("(take u{a}).next_power_of_two()"), x.next_power_of_two(), r)
                    }
                } else {
                    what = "skipped".into();
                }
            }
            30 => {
                if !(self.mu[a].is_zero() && self.mu[b].is_zero()) && self.mu[a].bit_len() + self.mu[b].bit_len() < 4000 {
                    set!(format!("gcd(u{a}, u{b})"), self.u[a].gcd(&self.u[b]), self.mu[a].gcd(&self.mu[b]))
                } else {
                    what = "skipped".into();
                }
            }
            31 => {
                // ring modulo u[b]
                let c = t.below(n);
                let m = self.mu[b].clone();
                if m.is_zero() {
                    what = format!("ModuloRing::new(u{b} = 0)");
                    note!(cx, "{what}");
                    must_panic(&what, || ModuloRing::new(&self.u[b]))?;
                    self.panics += 1;
                } else {
                    let ring = ModuloRing::new(&self.u[b]);
                    let x = ring.from(&self.u[a]);
                    let y = ring.from(self.u[c].clone());
                    let e = t.below(40) as u64;
                    let z = &x * &y - x.pow(&UBig::from(e)) + &y;
                    let (p, q) = (self.mu[a].rem(&m), self.mu[c].rem(&m));
                    let w = p.mul(&q).rem(&m).add(&q).add(&m).sub(&p.pow_mod(&Nat::from_u64(e), &m)).rem(&m);
                    set!(format!("u{a} * u{c} - u{a}^{e} + u{c} mod u{b}"), z.residue(), w)
                }
            }
            32 => {
                // both results of div_rem kept
                let b2 = if a == b { (b + 1) % n } else { b };
                if self.mu[b2].is_zero() {
                    what = format!("div_rem by u{b2} = 0");
                    note!(cx, "{what}");
                    must_panic(&what, || (&self.u[a]).div_rem(&self.u[b2]))?;
                    self.panics += 1;
                } else {
                    let (q, r) = self.mu[a].div_rem(&self.mu[b2]);
                    what = format!("(u{a}, u{b2}) = u{a}.div_rem(u{b2}) (form {})", form % 4);
                    note!(cx, "{what}");
                    let (x, y) = match form % 4 {
                        0 => (&self.u[a]).div_rem(&self.u[b2]),
                        1 => mem::take(&mut self.u[a]).div_rem(&self.u[b2]),
                        2 => { let y = mem::take(&mut self.u[b2]); (&self.u[a]).div_rem(y) }
                        _ => mem::take(&mut self.u[a]).div_rem(mem::take(&mut self.u[b2])),
                    };
                    self.u[a] = x;
                    self.u[b2] = y;
                    self.mu[a] = q;
                    self.mu[b2] = r;
                    if verify {
                        self.check(&what, Some(a), None)?;
                        self.check(&what, Some(b2), None)?;
                    }
                    self.out.push_str(&format!("{:x};", self.u[a]));
                }
            }
            33 => {
                // The same in-place operation many times: what accumulates in the storage (spare capacity, growth and
                // shrink decisions) shows only after a run of them.
                let most = if t.one_in(4) { 300 } else { 40 };
                let times = 2 + t.below(most);
                let kind = t.below(9);
                let s = 1 + if t.flag() { t.below(3) } else { t.below(80) };
                let q = 2 + (t.raw() >> (1 + t.below(62)));
                let b2 = if b == d { (b + 1) % n } else { b };
                what = format!("{times} times kind {kind} on u{d} (u{b2}, {s}, {q})");
                note!(cx, "{what}");
                let rq = Nat::from_u64(q);
                let rb2 = self.mu[b2].clone();
                for _ in 0..times {
                    let m = self.mu[d].clone();
                    let room = m.bit_len().max(rb2.bit_len()) + 82 < cap;
                    let (x, y) = two(&mut self.u, d, b2);
                    self.mu[d] = match kind {
                        0 if room => { *x += y; m.add(&rb2) }
                        1 => match m.checked_sub(&rb2) {
                            Some(r) => { *x -= y; r }
                            None => break,
                        },
                        2 if room => { *x <<= s; m.shl(s) }
                        3 => { *x >>= s; m.shr(s) }
                        4 if room => { *x *= q; m.mul(&rq) }
                        5 => { *x /= q; m.div_rem(&rq).0 }
                        6 if room => { let k = m.bit_len() + s; x.set_bit(k); m.with_bit(k, true) }
                        7 if !m.is_zero() => { let k = m.bit_len() - 1; x.clear_bit(k); m.with_bit(k, false) }
                        8 => { x.clone_from(y); *x >>= s; rb2.shr(s) }
                        _ => break,
                    };
                }
            }
            _ => {
                let be = self.u[a].to_be_bytes();
                let le = self.u[a].to_le_bytes();
                self.out.push_str(&format!("{} {} {:?};", le.len(), self.u[a].bit_len(), self.u[a].trailing_zeros()));
                if t.flag() {
                    set!(format!("bytes of u{a}"), UBig::from_be_bytes(&be), self.mu[a].clone())
                } else {
                    set!(format!("bytes of u{a}"), UBig::from_le_bytes(&le), self.mu[a].clone())
                }
            }
        }
        if verify {
            self.check(&what, Some(d), None)?;
        }
        self.out.push_str(&format!("{what} -> {:x}", self.u[d]));
        Ok(())
    }

    fn step_i(&mut self, t: &mut Tape, cx: &mut Cx, verify: bool) -> CaseResult {
        let n = self.i.len();
        let (d, a, b) = (t.below(n), t.below(n), t.below(n));
        let form = t.below(9);
        let op = t.below(29);
        let asg = assigns(form, d, a, b);
        let left = if asg { d } else { a };
        let (ra, rb) = (self.mi[left].clone(), self.mi[b].clone());
        let sum_bits = ra.mag.bit_len() + rb.mag.bit_len();
        let cap = self.cap;
        let mut what;
        macro_rules! bin {
            ($name:expr, $want:expr, $op:tt, $opa:tt) => {{
                what = format!("i{d} = i{left} {} i{b} (form {form})", $name);
                note!(cx, "{what}");
                match $want {
                    Out::Skip => { what.push_str(" skipped"); }
                    Out::Panics => {
                        let form = match form { 4 | 7 => 3, 5 => 8, f => f };
                        let asg = assigns(form, d, a, b);
                        let a = if asg { d } else { left };
                        let (v, m) = (&mut self.i, &mut self.mi);
                        must_panic(&what, || binop!(v, m, Int::zero(), d, a, b, form, $op, $opa))?;
                        self.panics += 1;
                        if asg {
                            let o = ni(&self.i[d]);
                            same(&format!("{what}: destination after the panic"), &self.i[d], &o)?;
                            self.i[d] = ib(&self.mi[d]);
                        }
                    }
                    Out::Val(r) => {
                        let (v, m) = (&mut self.i, &mut self.mi);
                        binop!(v, m, Int::zero(), d, a, b, form, $op, $opa);
                        m[d] = r;
                    }
                }
            }};
        }
        macro_rules! set {
            ($name:expr, $val:expr, $want:expr) => {{
                what = format!("i{d} = {}", $name);
                note!(cx, "{what}");
                let want = $want;
                self.i[d] = $val;
                self.mi[d] = want;
            }};
        }
        let lim = |r: Int| if r.mag.bit_len() > cap { Out::Skip } else { Out::Val(r) };
        match op {
            0 | 1 => bin!("+", lim(ra.add(&rb)), +, +=),
            2 | 3 => bin!("-", lim(ra.sub(&rb)), -, -=),
            4 => bin!("*", if sum_bits > cap { Out::Skip } else { Out::Val(ra.mul(&rb)) }, *, *=),
            5 | 6 => bin!("/", if rb.mag.is_zero() { Out::Panics } else { Out::Val(ra.div_rem_trunc(&rb).0) }, /, /=),
            7 | 8 => bin!("%", if rb.mag.is_zero() { Out::Panics } else { Out::Val(ra.div_rem_trunc(&rb).1) }, %, %=),
            9 => bin!("&", lim(ra.bitop(&rb, |x, y| x & y)), &, &=),
            10 => bin!("|", lim(ra.bitop(&rb, |x, y| x | y)), |, |=),
            11 => bin!("^", lim(ra.bitop(&rb, |x, y| x ^ y)), ^, ^=),
            12 | 13 => {
                let k = if t.one_in(8) { t.below(self.cap) } else { t.below(200) };
                let left = t.flag();
                let inplace = t.flag();
                let src = if inplace { d } else { a };
                let k = if left { k.min(cap - self.mi[src].mag.bit_len().min(cap)) } else { k };
                what = format!("i{d} = i{src} {} {k} (in place {inplace})", if left { "<<" } else { ">>" });
                note!(cx, "{what}");
                let want = if left { self.mi[src].shl(k) } else { self.mi[src].shr(k) };
                match (left, inplace, form & 1 == 0) {
                    (true, true, _) => self.i[d] <<= k,
                    (false, true, _) => self.i[d] >>= k,
                    (true, false, true) => self.i[d] = &self.i[a] << k,
                    (false, false, true) => self.i[d] = &self.i[a] >> k,
                    (true, false, false) => {
                        let x = mem::take(&mut self.i[a]);
                        self.mi[a] = Int::zero();
                        self.i[d] = x << k
                    }
                    (false, false, false) => {
                        let x = mem::take(&mut self.i[a]);
                        self.mi[a] = Int::zero();
                        self.i[d] = x >> k
                    }
                }
                self.mi[d] = want;
            }
            14 => {
                what = format!("i{d} = -i{a}");
                note!(cx, "{what}");
                let want = self.mi[a].neg();
                self.i[d] = if form & 1 == 0 {
                    -&self.i[a]
                } else {
                    self.mi[a] = Int::zero();
                    -mem::take(&mut self.i[a])
                };
                self.mi[d] = want;
            }
            15 => {
                what = format!("i{d} = !i{a}");
                note!(cx, "{what}");
                let want = self.mi[a].neg().sub(&Int::from_i128(1));
                self.i[d] = if form & 1 == 0 {
                    !&self.i[a]
                } else {
                    self.mi[a] = Int::zero();
                    !mem::take(&mut self.i[a])
                };
                self.mi[d] = want;
            }
            16 => {
                let want = Int::pos(self.mi[a].mag.clone());
                set!(format!("abs(i{a})"), (&self.i[a]).abs(), want)
            }
            17 => {
                let want = if self.mi[a].mag.is_zero() { Int::zero() } else { Int::new(self.mi[a].neg, Nat::one()) };
                set!(format!("signum(i{a})"), self.i[a].signum(), want)
            }
            18 | 19 => {
                what = format!("i{d}.clone_from(&i{a})");
                note!(cx, "{what}");
                if d != a {
                    let (x, y) = two(&mut self.i, d, a);
                    x.clone_from(y);
                    self.mi[d] = self.mi[a].clone();
                }
            }
            20 => {
                what = format!("i{d} = take i{a}");
                note!(cx, "{what}");
                let x = mem::take(&mut self.i[a]);
                let m = mem::replace(&mut self.mi[a], Int::zero());
                if verify {
                    same("taken-from variable", &self.i[a], &Int::zero())?;
                }
                self.i[d] = x;
                self.mi[d] = m;
            }
            21 => {
                let r = signed_fresh(t, self.fresh, cap / 2);
                set!(format!("fresh {r:?}"), ib(&r), r.clone())
            }
            22 => {
                let s = self.i[a].to_string();
                self.out.push_str(&s);
                set!(format!("parse of i{a}"), s.parse().map_err(|e| format!("parsing {s:?}: {e}"))?, self.mi[a].clone())
            }
            23 => {
                let k = a % self.u.len();
                set!(format!("IBig::from(&u{k})"), IBig::from(&self.u[k]), Int::pos(self.mu[k].clone()))
            }
            24 => {
                let p = t.raw() as i64 >> t.below(64);
                let rp = Int::from_i128(p as i128);
                what = format!("i{d} op= {p}");
                note!(cx, "{what}");
                let room = self.mi[d].mag.bit_len() < cap - 64;
                match t.below(6) {
                    0 if room => { self.i[d] += p; self.mi[d] = self.mi[d].add(&rp); }
                    1 if room => { self.i[d] -= p; self.mi[d] = self.mi[d].sub(&rp); }
                    2 if room => { self.i[d] *= p; self.mi[d] = self.mi[d].mul(&rp); }
                    3 if p != 0 => { self.i[d] /= p; self.mi[d] = self.mi[d].div_rem_trunc(&rp).0; }
                    4 => { self.i[d] &= p; self.mi[d] = self.mi[d].bitop(&rp, |x, y| x & y); }
                    5 => { self.i[d] ^= p; self.mi[d] = self.mi[d].bitop(&rp, |x, y| x ^ y); }
                    _ => {}
                }
            }
            25 => {
                if self.mi[b].mag.is_zero() {
                    what = format!("div_rem_euclid by i{b} = 0");
                    note!(cx, "{what}");
                    must_panic(&what, || (&self.i[a]).div_rem_euclid(&self.i[b]))?;
                    self.panics += 1;
                } else {
                    let (q, r) = self.mi[a].div_rem_euclid(&self.mi[b]);
                    if form & 1 == 0 {
                        set!(format!("div_euclid(i{a}, i{b})"), (&self.i[a]).div_euclid(&self.i[b]), q)
                    } else {
                        set!(format!("rem_euclid(i{a}, i{b})"), (&self.i[a]).rem_euclid(&self.i[b]), r)
                    }
                }
            }
            26 => {
                let bits = 1 + t.below(130);
                let m = Int::pos(Nat::pow2(bits).sub(&Nat::one()));
                set!(format!("i{a} & low {bits} bits"), &self.i[a] & ib(&m), self.mi[a].bitop(&m, |x, y| x & y))
            }
            27 => {
                let most = if t.one_in(4) { 300 } else { 40 };
                let times = 2 + t.below(most);
                let kind = t.below(7);
                let s = 1 + if t.flag() { t.below(3) } else { t.below(80) };
                let q = 2 + (t.raw() >> (2 + t.below(61))) as i64;
                let q = if t.flag() { -q } else { q };
                let b2 = if b == d { (b + 1) % n } else { b };
                what = format!("{times} times kind {kind} on i{d} (i{b2}, {s}, {q})");
                note!(cx, "{what}");
                let rq = Int::from_i128(q as i128);
                let rb2 = self.mi[b2].clone();
                for _ in 0..times {
                    let m = self.mi[d].clone();
                    let room = m.mag.bit_len().max(rb2.mag.bit_len()) + 82 < cap;
                    let (x, y) = two(&mut self.i, d, b2);
                    self.mi[d] = match kind {
                        0 if room => { *x += y; m.add(&rb2) }
                        1 if room => { *x -= y; m.sub(&rb2) }
                        2 if room => { *x <<= s; m.shl(s) }
                        3 => { *x >>= s; m.shr(s) }
                        4 if room => { *x *= q; m.mul(&rq) }
                        5 => { *x /= q; m.div_rem_trunc(&rq).0 }
                        6 => { x.clone_from(y); *x >>= s; rb2.shr(s) }
                        _ => break,
                    };
                }
            }
            _ => {
                let f = self.i[a].to_f64();
                self.out.push_str(&format!("{:x} {:?} {:?} {:?};", f.to_bits(), i64::try_from(&self.i[a]), u128::try_from(&self.i[a]), self.i[a].cmp(&self.i[b])));
                let want = self.mi[a].mul(&Int::from_i128(-1));
                set!(format!("-1 * i{a}"), -1i8 * &self.i[a], want)
            }
        }
        if verify {
            self.check(&what, None, Some(d))?;
        }
        self.out.push_str(&format!("{what} -> {:x}", self.i[d]));
        Ok(())
    }
}

fn signed_fresh(t: &mut Tape, fresh: fn(&mut Tape, usize) -> Nat, cap: usize) -> Int {
    let m = fresh(t, cap);
    signed(t, m)
}
