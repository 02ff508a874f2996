//! Memory: run under the checking allocator (galloc.rs), AddressSanitizer and valgrind.
use super::hist::World;
use super::*;
use crate::run::*;
use crate::tape::Rng as Split;
use ibig::ops::*;
use ibig::{Modulo, ModuloRing};
use rand::Rng as _;
use serde::de::value::{Error as ValueError, SeqDeserializer};
use serde::Deserialize;
use std::fmt::Write as _;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a history over a pool of variables, or operations at the lengths where scratch memory changes (products, quotients, powers, radix conversion, rings, gcd), or operations that unwind half-way (failing operations, random sources, deserializers and writers that panic or fail at their k-th call), or texts and byte strings in blocks of exactly their size, under an allocator with canaries, poisoned blocks, layouts compared, minimal alignment and byte counts: no misuse, nothing live afterwards, a result holds at most 2n+16 words for n words; non-trivial: 10 or more allocations",
    quick: 9_000,
    fixed: None,
};

#[cfg(not(plain_alloc))]
use crate::galloc::{allocations, flush, live, take_error};
#[cfg(plain_alloc)]
mod plain {
    pub fn allocations() -> u64 {
        100
    }
    pub fn flush() {}
    pub fn live() -> (isize, isize) {
        (0, 0)
    }
    pub fn take_error() -> Option<&'static str> {
        None
    }
}
#[cfg(plain_alloc)]
use plain::*;

/// What a value may hold, in bytes.
trait Holds {
    fn words(&self) -> usize;
}
impl Holds for UBig {
    fn words(&self) -> usize {
        2 * self.bit_len().div_ceil(W) + 16
    }
}
impl Holds for IBig {
    fn words(&self) -> usize {
        2 * self.unsigned_abs().bit_len().div_ceil(W) + 16
    }
}
impl Holds for (Modulo<'_>, usize) {
    fn words(&self) -> usize {
        2 * self.1.div_ceil(W) + 16
    }
}
impl<A: Holds, B: Holds> Holds for (A, B) {
    fn words(&self) -> usize {
        self.0.words() + self.1.words()
    }
}
impl<A: Holds, B: Holds, C: Holds> Holds for (A, B, C) {
    fn words(&self) -> usize {
        self.0.words() + self.1.words() + self.2.words()
    }
}
impl<A: Holds> Holds for Option<A> {
    fn words(&self) -> usize {
        self.as_ref().map_or(0, |x| x.words())
    }
}
impl<A: Holds, E> Holds for Result<A, E> {
    fn words(&self) -> usize {
        self.as_ref().map_or(0, |x| x.words())
    }
}
impl Holds for () {
    fn words(&self) -> usize {
        0
    }
}

/// Run; the net memory taken is the result's, and is in proportion to it. A caught panic keeps nothing.
fn held<T: Holds>(what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    let before = live();
    let r = catch(f);
    match r {
        Ok(x) => {
            let after = live();
            let bound = (x.words() * W / 8) as isize;
            ensure!(after.0 - before.0 <= bound, "{what}: the result holds {} bytes, more than {bound}", after.0 - before.0);
            ensure!(after.0 >= before.0, "{what}: more memory was released than the operation had");
            Ok(Some(x))
        }
        Err(m) => {
            drop(m);
            let after = live();
            ensure!(after == before, "{what}: {} bytes in {} blocks still live after the panic", after.0 - before.0, after.1 - before.1);
            Ok(None)
        }
    }
}

/// The same, the result dropped at once; everything must be released.
fn gone<T: Holds>(what: &str, f: impl FnOnce() -> T) -> CaseResult {
    let before = live();
    let r = held(what, f)?;
    drop(r);
    let after = live();
    ensure!(after == before, "{what}: {} bytes in {} blocks not released with the result", after.0 - before.0, after.1 - before.1);
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    t.used.reserve(1 << 14);
    let room = t.used.capacity();
    take_error();
    const KINDS: [&str; 4] = ["history", "scratch memory", "unwinding", "exact inputs"];
    let kind = t.below(4);
    cx.label(KINDS[kind]);
    if cx.verbose {
        cx.notes.push(KINDS[kind].into());
    }
    let mut inner = Cx { verbose: cx.verbose, ..Cx::default() };
    inner.notes.reserve(1000);
    let n0 = allocations();
    let before = live();
    let mut notes = 0;
    let r = match kind {
        0 => history(t, &mut inner),
        1 => scratch(t, &mut inner),
        3 => exact(t, &mut inner),
        _ => unwinding(t, &mut inner),
    };
    for s in &inner.notes {
        notes += s.capacity() as isize;
    }
    let after = live();
    let grew = t.used.capacity() != room || inner.notes.capacity() > 1000 || inner.labels.capacity() > 0;
    cx.nontrivial_if(allocations() >= n0 + 10);
    cx.notes.append(&mut inner.notes);
    flush();
    if let Some(e) = take_error() {
        return Err(format!("{e}{}", r.err().map(|m| format!("; {m}")).unwrap_or_default()));
    }
    r?;
    if !grew {
        ensure!(
            after.0 - notes == before.0,
            "{} bytes in {} blocks still live when every value is gone",
            after.0 - notes - before.0,
            after.1 - before.1
        );
    }
    Ok(())
}

fn fresh(t: &mut Tape, bits: usize) -> Nat {
    nat(t, bits / W)
}

fn history(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    // Miri is slow
    let cap = if cfg!(miri) { *t.pick(&[4usize, 6, 12]) * W } else { *t.pick(&[6usize, 12, 40, 40, 150, 500]) * W };
    let mut w = World::new(t, cap, fresh);
    let steps = t.below(50);
    for _ in 0..steps {
        w.step(t, cx, true)?;
    }
    // what each variable holds
    for k in 0..w.u.len() {
        let bound = (w.u[k].words() * W / 8) as isize;
        let x = std::mem::take(&mut w.u[k]);
        let before = live();
        drop(x);
        let was = before.0 - live().0;
        ensure!(was <= bound, "u{k} = {:?} held {was} bytes, more than {bound}", w.mu[k]);
    }
    for k in 0..w.i.len() {
        let bound = (w.i[k].words() * W / 8) as isize;
        let x = std::mem::take(&mut w.i[k]);
        let before = live();
        drop(x);
        let was = before.0 - live().0;
        ensure!(was <= bound, "i{k} = {:?} held {was} bytes, more than {bound}", w.mi[k]);
    }
    Ok(())
}

/// Texts, bytes and words in heap blocks of exactly their length (or between canaries of our own): reading
/// past either end is seen by AddressSanitizer.
fn exact(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    for _ in 0..1 + t.below(6) {
        let radix = 2 + t.below(35) as u32;
        let n = match t.below(4) {
            0 => t.below(18),
            1 => t.below(70),
            2 => (*t.pick(&[8usize, 10, 16, 19, 20, 32, 64, 128, 256]) + t.below(5)).saturating_sub(2),
            _ => t.below(400),
        };
        let kind = t.below(4);
        let r = &mut t.sub();
        let ndigits = if kind == 3 { 36 } else { radix as u64 };
        let mut s: String = (0..n)
            .map(|_| match kind {
                0 if r.next() % 8 != 0 => '0',
                1 => char::from_digit(radix - 1, radix).unwrap(),
                _ => char::from_digit((r.next() % ndigits) as u32, 36).unwrap(),
            })
            .collect();
        if t.one_in(4) {
            s.insert_str(0, *t.pick(&["-", "+", "0x", "-0b", "0o", "_", "é"]));
        }
        let s: Box<str> = s.into_boxed_str();
        note!(cx, "text {s:?} radix {radix}");
        let u = UBig::from_str_radix(&s, radix);
        gone("IBig::from_str_radix", || IBig::from_str_radix(&s, radix))?;
        gone("with prefix", || UBig::from_str_with_radix_prefix(&s))?;
        gone("IBig with prefix", || IBig::from_str_with_radix_prefix(&s))?;
        gone("parse", || s.parse::<UBig>())?;
        let bytes: Box<[u8]> = s.as_bytes().into();
        let (x, y) = (UBig::from_le_bytes(&bytes), UBig::from_be_bytes(&bytes));
        let mut rev = y.to_le_bytes();
        rev.reverse();
        ensure!(x.to_le_bytes() == &bytes[..bytes.len() - bytes.iter().rev().take_while(|b| **b == 0).count()], "bytes {bytes:?} differ when read back");
        ensure!(rev == &bytes[bytes.iter().take_while(|b| **b == 0).count()..], "bytes {bytes:?} differ when read back (big endian)");
        // bit queries and mixed lengths: operands of exactly their size
        let k = t.below(x.bit_len() + 70);
        ensure!(x.bit(k) == (k / 8 < bytes.len() && bytes[k / 8] >> (k % 8) & 1 == 1), "bit {k} of {x}");
        gone("+", || &x + &y)?;
        gone("cmp", || UBig::from((x < y) as u8))?;
        gone(">>", || &x >> k)?;
        gone("i >>", || -IBig::from(&x) >> k)?;
        gone("&", || &x & &y)?;
        let i = -IBig::from(&x);
        gone("| i", || &i | &IBig::from(&y))?;
        if let Ok(u) = u {
            let before = live();
            let (b, w) = (u.in_radix(radix).to_string(), t.below(100));
            let text = format!("{u:w$}{u:#x}{u:b}{u:?}");
            ensure!(std::str::from_utf8(b.as_bytes()).is_ok() && std::str::from_utf8(text.as_bytes()).is_ok(), "text is not UTF-8");
            drop((b, text));
            ensure!(live() == before, "formatting leaves {} bytes", live().0 - before.0);
        }
    }
    Ok(())
}

const KEY: &[usize] = &[2, 3, 24, 25, 26, 32, 33, 34, 48, 49, 64, 65, 66, 96, 97, 128, 129, 130, 191, 192, 193, 194, 195, 196, 256, 257, 300, 385, 400];

fn len(t: &mut Tape) -> usize {
    if cfg!(miri) {
        return if t.flag() { (*t.pick(&KEY[..13]) + t.below(5)).saturating_sub(2) } else { t.below(40) };
    }
    match t.below(4) {
        0 => t.below(8),
        1 => (*t.pick(KEY) + t.below(5)).saturating_sub(2),
        2 => t.below(130),
        _ => t.below(700),
    }
}

fn scratch(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let (la, lb) = (len(t), len(t));
    let (ra, rb) = (nat_len(t, la), nat_len(t, lb));
    let rb = if t.one_in(4) { partner(t, &ra, 700) } else { rb };
    let (a, b) = (ub(&ra), ub(&rb));
    let (na, nb) = (a.bit_len(), b.bit_len());
    let pr: [u64; 2] = [4294967291, 4294967279];
    let res = |x: &Nat, p: u64| x.rem_small(p as u32) as u64;
    match t.below(11) {
        0 => {
            note!(cx, "{na} bits * {nb} bits");
            let c = held("*", || &a * &b)?.ok_or("product panicked")?;
            let rc = nu(&c);
            for p in pr {
                ensure!(res(&rc, p) == (res(&ra, p) as u128 * res(&rb, p) as u128 % p as u128) as u64, "product of {na} and {nb} bits is wrong");
            }
            gone("* own", || a.clone() * b.clone())?;
            gone("square", || &a * &a)
        }
        1 => {
            note!(cx, "{na} bits / {nb} bits");
            let num = if t.flag() { ra.mul(&rb.low_bits(3000)) } else { ra.clone() };
            let n = ub(&num.low_bits(HARD_MAX_BITS));
            if rb.is_zero() {
                return gone("/ 0", || &n / &b);
            }
            let (q, r) = held("div_rem", || (&n).div_rem(&b))?.ok_or("division panicked")?;
            let (rq, rr) = (nu(&q), nu(&r));
            for p in pr {
                let back = (res(&rq, p) as u128 * res(&rb, p) as u128 + res(&rr, p) as u128) % p as u128;
                ensure!(back as u64 == res(&nu(&n), p), "quotient of {} and {nb} bits is wrong", n.bit_len());
            }
            gone("/ own", || n.clone() / b.clone())?;
            gone("% own", || n.clone() % b.clone())?;
            gone("div_rem_euclid", || (-IBig::from(&n)).div_rem_euclid(&IBig::from(&b)))
        }
        2 => {
            let radix = 2 + t.below(35) as u32;
            note!(cx, "text of {na} bits in radix {radix}");
            let before = live();
            let s = a.in_radix(radix).to_string();
            ensure!(std::str::from_utf8(s.as_bytes()).is_ok() && s.is_ascii(), "in_radix({radix}) of {na} bits is not ASCII");
            let back = held("parse", || UBig::from_str_radix(&s, radix))?;
            ensure!(back == Some(Ok(a.clone())), "reading back {na} bits in radix {radix} differs");
            // an invalid digit anywhere
            let mut bad = s.into_bytes();
            let k = t.below(bad.len());
            bad[k] = b'~';
            let bad = String::from_utf8(bad).unwrap();
            gone("parse of an invalid text", || UBig::from_str_radix(&bad, radix))?;
            drop((back, bad));
            ensure!(live() == before, "text round trip leaves {} bytes", live().0 - before.0);
            Ok(())
        }
        3 => {
            let e = t.below(7);
            if na * e > 60000 {
                return Ok(());
            }
            note!(cx, "{na} bits ^ {e}");
            gone("pow", || a.pow(e))
        }
        4 => {
            if rb.is_zero() {
                return Ok(());
            }
            note!(cx, "ring modulo {nb} bits");
            let before = live();
            {
                let ring = ModuloRing::new(&b);
                let used = (live().0 - before.0) as usize;
                ensure!(used <= (2 * nb.div_ceil(W) + 16) * W / 8, "the ring modulo {nb} bits holds {used} bytes");
                let x = held("ring.from", || (ring.from(&a), nb))?.ok_or("ring.from panicked")?.0;
                let y = held("ring.from", || (ring.from(-IBig::from(&a)), nb))?.ok_or("ring.from panicked")?.0;
                gone("x * y", || (&x * &y, nb))?;
                gone("x + y", || (&x + &y, nb))?;
                gone("x - y own", || (x.clone() - y.clone(), nb))?;
                let z = held("x *= y", || {
                    let mut z = x.clone();
                    z *= &y;
                    (z, nb)
                })?;
                drop(z);
                let e = nat(t, 2);
                if nb < 20000 || e.bit_len() < 4 {
                    let e = ub(&e);
                    gone("pow", || (x.pow(&e), nb))?;
                }
                if nb < 4000 {
                    gone("inverse", || x.inverse().map(|x| (x, nb)))?;
                    gone("/", || (&y / &x, nb))?;
                }
                gone("residue", || x.residue())?;
                gone("modulus", || ring.modulus())?;
            }
            ensure!(live() == before, "the ring modulo {nb} bits leaves {} bytes", live().0 - before.0);
            Ok(())
        }
        5 => {
            let (x, y) = (ub(&ra.low_bits(60 * W)), ub(&rb.low_bits(60 * W)));
            note!(cx, "gcd");
            gone("gcd", || x.gcd(&y))?;
            gone("extended_gcd", || x.extended_gcd(&y))
        }
        6 => {
            let k = t.below(na + 70);
            note!(cx, "shifts of {na} bits by {k}");
            gone("&>>", || &a >> k)?;
            gone("own >>", || a.clone() >> k)?;
            let s = k.min(HARD_MAX_BITS - na.max(1));
            gone("&<<", || &a << s)?;
            gone("own <<", || a.clone() << s)?;
            gone("i >>", || -IBig::from(&a) >> k)?;
            gone(">>=", || {
                let mut x = a.clone();
                x >>= k;
                x
            })
        }
        7 => {
            // cancellation: what is left is short
            let k = t.below(na + 1);
            let c = ub(&ra.low_bits(k));
            note!(cx, "{na} bits less all but the low {k}");
            let d = ub(&ra.shr(k).shl(k));
            gone("a - high", || &a - &d)?;
            gone("own a - high", || a.clone() - &d)?;
            gone("high - own", || &a - d.clone())?;
            gone("a -= high", || {
                let mut x = a.clone();
                x -= &d;
                x
            })?;
            gone("a ^ high", || a.clone() ^ &d)?;
            gone("a & low", || a.clone() & &c)?;
            gone("a & low prim", || a.clone() & UBig::from(255u8))?;
            let (i, j) = (IBig::from(&a), IBig::from(&d));
            gone("i - j", || i.clone() - &j)?;
            gone("i + -j", || &i + -j.clone())?;
            gone("-i ^ i", || -&i ^ j.clone())?;
            gone("clear bits", || {
                let mut x = a.clone();
                for n in (k..na).rev().take(2000) {
                    x.clear_bit(n);
                }
                x
            })
        }
        8 => {
            // storage reused by clone_from
            note!(cx, "clone_from {nb} bits into {na} bits");
            gone("clone_from", || {
                let mut x = a.clone();
                x.clone_from(&b);
                x
            })?;
            gone("i clone_from", || {
                let mut x = -IBig::from(&a);
                x.clone_from(&IBig::from(&b));
                x
            })?;
            let (i, j) = (IBig::from(&a), IBig::from(&b));
            gone("&=", || {
                let mut x = i.clone();
                x &= &j;
                x
            })?;
            if rb.is_zero() {
                return Ok(());
            }
            gone("a %= b", || {
                let mut x = a.clone();
                x %= &b;
                x
            })?;
            gone("a /= b", || {
                let mut x = a.clone();
                x /= &b;
                x
            })
        }
        9 => {
            note!(cx, "bytes of {na} bits");
            let mut v = ra.to_le_bytes();
            v.extend(std::iter::repeat(0).take(t.below(200)));
            gone("from_le_bytes", || UBig::from_le_bytes(&v))?;
            v.reverse();
            gone("from_be_bytes", || UBig::from_be_bytes(&v))?;
            let before = live();
            drop((a.to_le_bytes(), a.to_be_bytes(), a.to_f64()));
            ensure!(live() == before, "to_bytes leaves {} bytes", live().0 - before.0);
            let chunks: Vec<u64> = (0..t.below(40)).map(|k| if k < 3 { 7 } else { 0 }).collect();
            gone("deserialize", || UBig::deserialize(SeqDeserializer::<_, ValueError>::new(chunks.iter().copied())))?;
            gone("deserialize without length", || {
                UBig::deserialize(SeqDeserializer::<_, ValueError>::new(chunks.iter().copied().filter(|_| true)))
            })
        }
        _ => {
            note!(cx, "sums of {na} and {nb} bits");
            gone("+", || &a + &b)?;
            gone("own +", || a.clone() + b.clone())?;
            gone("|", || a.clone() | &b)?;
            gone("^", || &a ^ b.clone())?;
            gone("next_power_of_two", || (&a).next_power_of_two())?;
            gone("own next_power_of_two", || a.clone().next_power_of_two())?;
            gone("!", || !-IBig::from(&a))?;
            gone("set_bit", || {
                let mut x = a.clone();
                x.set_bit(nb);
                x
            })
        }
    }
}

/// Fails or panics at its k-th call.
struct Trap {
    left: usize,
    panics: bool,
    rng: Split,
    bytes: Vec<u8>,
}
impl Trap {
    fn tick(&mut self) -> bool {
        if self.left == 0 {
            if self.panics {
                panic!("trap");
            }
            return true;
        }
        self.left -= 1;
        false
    }
}
impl std::fmt::Write for Trap {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // the claim that this is a str must be true
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.bytes.push(255);
        }
        if self.tick() { Err(std::fmt::Error) } else { Ok(()) }
    }
}
impl rand::RngCore for Trap {
    fn next_u32(&mut self) -> u32 {
        self.tick();
        self.rng.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        self.rng.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.tick();
        for b in d {
            *b = self.rng.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct TrapIter(Trap, usize);
impl Iterator for TrapIter {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        if self.1 == 0 || self.0.tick() {
            return None;
        }
        self.1 -= 1;
        Some(self.0.rng.next())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // sometimes a wrong hint
        if self.0.panics { (0, None) } else { (self.1, Some(self.1)) }
    }
}

fn unwinding(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let (la, lb) = (t.below(60), t.below(60));
    let (ra, rb) = (nat_len(t, la), nat_len(t, lb));
    let (a, b) = (ub(&ra), ub(&rb));
    let (i, j) = (-IBig::from(&a), IBig::from(&b));
    let k = t.below(8);
    match t.below(8) {
        0 => {
            note!(cx, "subtractions of {} and {} bits", ra.bit_len(), rb.bit_len());
            gone("&a - &b", || &a - &b)?;
            gone("a - &b", || a.clone() - &b)?;
            gone("&a - b", || &a - b.clone())?;
            gone("a - b", || a.clone() - b.clone())?;
            gone("a -= b", || {
                let mut x = a.clone();
                x -= &b;
                x
            })?;
            gone("a - prim", || a.clone() - u64::MAX)
        }
        1 => {
            note!(cx, "divisions by zero of {} bits", ra.bit_len());
            let z = UBig::from(0u8);
            gone("a / 0", || a.clone() / &z)?;
            gone("a % 0", || &a % z.clone())?;
            gone("div_rem 0", || a.clone().div_rem(z.clone()))?;
            gone("i / 0", || i.clone() / IBig::from(0u8))?;
            gone("div_euclid 0", || i.clone().div_euclid(IBig::from(0u8)))?;
            gone("a / 0u32", || a.clone() / 0u32)?;
            gone("gcd(0, 0)", || z.gcd(&z))?;
            gone("ModuloRing::new(0)", || {
                let _ = ModuloRing::new(&z);
            })?;
            gone("to an invalid radix", || {
                let _ = a.in_radix(1 + 36 * (k as u32 & 1)).to_string();
            })
        }
        2 => {
            note!(cx, "too large shifts");
            let huge = usize::MAX - t.below(15);
            // 32-bit: these allocate 512 MB before they fail
            if a == UBig::from(0u8) || (cfg!(target_pointer_width = "32") && !t.one_in(100)) {
                return Ok(());
            }
            gone("<< huge", || &a << huge)?;
            gone("own << huge", || a.clone() << huge)?;
            gone("i <<= huge", || {
                let mut x = i.clone();
                x <<= huge;
                x
            })?;
            gone("set_bit huge", || {
                let mut x = a.clone();
                x.set_bit(huge);
                x
            })?;
            gone("2^huge", || UBig::from(2u8).pow(huge))
        }
        3 => {
            // formatting into a writer that gives up
            let big = ub(&nat_len(t, 40 + la * 3));
            let trap = |p: bool| Trap { left: k * k, panics: p, rng: Split(1), bytes: Vec::new() };
            note!(cx, "formatting {} bits into a writer that ends after {} calls", big.bit_len(), k * k);
            for p in [true, false] {
                let mut ok = true;
                let before = live();
                let _ = catch(|| {
                    let mut w = trap(p);
                    let r = match k % 5 {
                        0 => write!(w, "{big}"),
                        1 => write!(w, "{:#x}", big),
                        2 => write!(w, "{:>900b}", big),
                        3 => write!(w, "{:+}", i.in_radix(7)),
                        _ => write!(w, "{:#0700}", -IBig::from(&big)),
                    };
                    ok = w.bytes.is_empty();
                    drop(r);
                });
                ensure!(ok, "formatting wrote a str that is not UTF-8");
                ensure!(live() == before, "interrupted formatting leaves {} bytes in {} blocks", live().0 - before.0, live().1 - before.1);
            }
            Ok(())
        }
        4 => {
            // random source that panics
            let hi = ub(&nat_len(t, la + 2));
            if hi == UBig::from(0u8) {
                return Ok(());
            }
            note!(cx, "sampling below {} bits from a source that panics after {k} outputs", hi.bit_len());
            gone("gen_range", || {
                let mut s = Trap { left: k, panics: true, rng: Split(k as u64), bytes: Vec::new() };
                s.gen_range(UBig::from(0u8)..hi.clone())
            })?;
            gone("gen_range of IBig", || {
                let mut s = Trap { left: k, panics: true, rng: Split(k as u64), bytes: Vec::new() };
                s.gen_range(-IBig::from(&hi)..=IBig::from(&hi))
            })
        }
        5 => {
            let n = t.below(60);
            let p = t.flag();
            note!(cx, "deserializing {n} chunks from a source that ends after {k}");
            gone("deserialize UBig", || {
                let it = TrapIter(Trap { left: k, panics: p, rng: Split(3), bytes: Vec::new() }, n);
                UBig::deserialize(SeqDeserializer::<_, ValueError>::new(it))
            })?;
            let text = format!("[\"Negative\",[1,2,{}", "3,".repeat(n));
            gone("JSON cut short", || serde_json::from_str::<IBig>(&text).ok())?;
            let text = format!("[1,2,{}-4]", "3,".repeat(n));
            gone("JSON with a bad chunk", || serde_json::from_str::<UBig>(&text).ok())
        }
        6 => {
            note!(cx, "elements of different rings");
            let (m, n) = (ub(&ra.add(&Nat::from_u64(2))), ub(&rb.add(&Nat::from_u64(2))));
            let before = live();
            {
                let (r, s) = (ModuloRing::new(&m), ModuloRing::new(&n));
                let (x, y) = (r.from(&b), s.from(&a));
                gone("x + foreign", || (&x + &y, m.bit_len()))?;
                gone("x * foreign", || (x.clone() * y.clone(), m.bit_len()))?;
                gone("x -= foreign", || {
                    let mut z = x.clone();
                    z -= &y;
                    (z, m.bit_len())
                })?;
                let zero = r.from(0);
                gone("x / 0", || (&x / &zero, m.bit_len()))?;
                gone("pow_signed of 0", || (zero.pow_signed(&IBig::from(-3)), m.bit_len()))?;
            }
            ensure!(live() == before, "rings leave {} bytes", live().0 - before.0);
            Ok(())
        }
        _ => {
            note!(cx, "conversions that fail");
            let before = live();
            let r = (
                u64::try_from(&a).ok(),
                i128::try_from(i.clone()).ok(),
                UBig::try_from(i.clone()).is_ok(),
                u8::try_from(j.clone()).is_ok(),
                "12x".repeat(la).parse::<UBig>().is_ok(),
                UBig::from_str_with_radix_prefix("0x").is_ok(),
            );
            let _ = r;
            ensure!(live() == before, "failed conversions leave {} bytes", live().0 - before.0);
            Ok(())
        }
    }
}
