use super::*;
use crate::run::*;
use ibig::ops::{DivRem, DivRemEuclid, NextPowerOfTwo, UnsignedAbs};
use crate::tape::Rng;
use ibig::{Modulo, ModuloRing};
use rand::distributions::{uniform::Uniform, Distribution};
use rand::RngCore;
use std::convert::TryFrom;
use std::marker::PhantomData;
use std::sync::{mpsc, Barrier};
use std::time::Duration;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a pool of shared values (3 to 6 UBig and as many IBig of up to 300 words, a third of the times differing in one bit only, 1 to 3 rings, elements of them) and 6 to 30 operations on it (arithmetic, division, gcd, powers, shifts, bits, comparison, hashing, formatting, parsing, bytes, serialization, sampling, floats, modular arithmetic, in-place changes of clones, panicking calls); every operation runs alone, then in 2 to 4 threads at once, each in its own order, twice (a third of the cases: one or two kinds of operation, up to 300 times), then alone again in reverse order, with the related values also compared with the reference; non-trivial: two threads, six operations that do not panic",
    quick: 12_000,
    fixed: Some(fixed),
};

/// Shared by threads whatever the compiler thinks: whether it may is a check of its own (`fixed`).
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

struct Pool<'r> {
    u: Vec<UBig>,
    i: Vec<IBig>,
    rings: &'r [ModuloRing],
    /// element and index of its ring
    m: Vec<(Modulo<'r>, usize)>,
    texts: Vec<(String, u32)>,
    bytes: Vec<Vec<u8>>,
    ranges: Vec<(Uniform<UBig>, Uniform<IBig>)>,
}

/// The words a uniform distribution is asked to turn into a number: the same for the same seed.
struct Words(Rng);

impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.0.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

struct Op {
    code: usize,
    a: usize,
    b: usize,
    k: usize,
}

const CODES: usize = 33;

fn digest_u(x: &UBig) -> u64 {
    text_hash_bytes(&x.to_le_bytes())
}
fn digest_i(x: &IBig) -> u64 {
    digest_u(&x.unsigned_abs()).wrapping_mul(3) ^ (*x < IBig::from(0u8)) as u64
}
fn digest_m(x: &Modulo) -> u64 {
    digest_u(&x.residue())
}
fn text_hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0; 8];
        x[..c.len()].copy_from_slice(c);
        h = crate::tape::mix(h, u64::from_le_bytes(x));
    }
    h
}
fn both(x: u64, y: u64) -> u64 {
    crate::tape::mix(x, y)
}

/// The result of an operation as a number; values made are added to `made`.
fn perform(p: &Pool, o: &Op, made: &mut Vec<UBig>) -> u64 {
    let (ua, ub) = (&p.u[o.a % p.u.len()], &p.u[o.b % p.u.len()]);
    let (ia, ib) = (&p.i[o.a % p.i.len()], &p.i[o.b % p.i.len()]);
    let (ma, ra) = &p.m[o.a % p.m.len()];
    let (mb, rb) = &p.m[o.b % p.m.len()];
    let k = o.k;
    let keep = |x: UBig, made: &mut Vec<UBig>| {
        let d = digest_u(&x);
        made.push(x);
        d
    };
    match o.code {
        0 => keep(ua + ub, made),
        1 => keep(ua * ub, made),
        2 => keep(ua / ub, made),
        3 => {
            let (q, r) = ia.div_rem(ib);
            both(digest_i(&q), digest_i(&r))
        }
        4 => {
            let (q, r) = ia.div_rem_euclid(ib);
            both(digest_i(&q), digest_i(&r))
        }
        5 => keep(ua.gcd(ub), made),
        6 => {
            let (g, x, y) = ua.extended_gcd(ub);
            both(digest_u(&g), both(digest_i(&x), digest_i(&y)))
        }
        7 => digest_i(&ia.pow(k % if ia.unsigned_abs().bit_len() > 2000 { 4 } else { 40 })),
        8 => keep(ua << (k % 300), made),
        9 => digest_i(&(ia >> (k % 300))),
        10 => both(digest_i(&(ia & ib)), both(digest_i(&(ia | ib)), digest_i(&(ia ^ ib)))),
        11 => both(ua.cmp(ub) as i32 as u64, both((ia == ib) as u64, both(hash_of(ua), hash_of(ia)))),
        12 => text_hash(&ia.in_radix(2 + k as u32 % 35).to_string()),
        13 => text_hash(&format!("{ua:#x} {ia} {ub:b} {ib:?}")),
        14 => {
            let (s, r) = &p.texts[o.a % p.texts.len()];
            match UBig::from_str_radix(s, *r) {
                Ok(x) => keep(x, made),
                Err(e) => 1000 + e as u64,
            }
        }
        15 => {
            let b = &p.bytes[o.a % p.bytes.len()];
            both(digest_u(&UBig::from_le_bytes(b)), keep(UBig::from_be_bytes(b), made))
        }
        16 => both(ua.to_f64().to_bits(), ib.to_f32().to_bits() as u64),
        17 => both(digest_m(&(ma + mb)), both(digest_m(&(ma - mb)), digest_m(&(ma * mb)))),
        18 => digest_m(&ma.pow(if ub.bit_len() > 400 { &p.u[0] } else { ub })),
        19 => match ma.inverse() {
            Some(x) => both(digest_m(&x), digest_m(&(&x * ma))),
            None => digest_m(&(mb / ma)),
        },
        20 => digest_m(&p.rings[*ra].from(ub)),
        21 => both(text_hash(&format!("{} {:x}", p.rings[*ra], mb)), (p.rings[*ra] == p.rings[*rb]) as u64),
        22 => {
            let mut x = ua.clone();
            x += ub;
            x *= 12345u16;
            x.set_bit(k % 500);
            x.clone_from(ub);
            x -= &(ub >> 1usize);
            keep(x, made)
        }
        23 => both(ua.bit_len() as u64, both(ua.trailing_zeros().unwrap_or(9999) as u64, both(ua.is_power_of_two() as u64, digest_u(&ua.clone().next_power_of_two())))),
        24 => {
            let (d, e): (u64, u32) = (ub & u64::MAX, ub & u32::MAX);
            both(ua % (d | 1), both((ua % (k as u32 | 1)) as u64, digest_u(&(ua / (e | 2)))))
        }
        25 => both(u128::try_from(ua).unwrap_or(7) as u64, i64::try_from(ib).unwrap_or(-7) as u64),
        26 => {
            let ring = ModuloRing::new(ua);
            let x = ring.from(ub);
            digest_m(&(&x * &x + ring.from(k)))
        }
        27 => {
            let mut x = ma.clone();
            x *= ma;
            x.clone_from(mb);
            x += mb;
            digest_m(&-x)
        }
        28 => digest_i(&(ia * ib - ib)),
        29 => {
            let (du, di) = &p.ranges[o.a % p.ranges.len()];
            let mut w = Words(Rng(k as u64));
            both(digest_u(&du.sample(&mut w)), digest_i(&di.sample(&mut w)))
        }
        30 => {
            let v = bincode::serialize(&(ua, ib)).unwrap();
            let (x, y): (UBig, IBig) = bincode::deserialize(&v).unwrap();
            both(text_hash_bytes(&v), both(keep(x, made), digest_i(&y)))
        }
        31 => {
            // the same variable, hence the same memory, asked again and again while its value changes
            let mut x = ua.clone();
            let mut d = 0;
            for j in 0..3 {
                d = both(d, both(hash_of(&x), both((&x == ub) as u64, both(x.bit_len() as u64, x.to_f64().to_bits()))));
                d = both(d, both(digest_u(&(&x * ub)), both(text_hash(&x.to_string()), digest_u(&(ub % (&x + 1u8))))));
                d = both(d, digest_m(&p.rings[*ra].from(&x)));
                let n = x.bit_len();
                let at = (k + 61 * j) % (n + 1);
                if n > 1 && x.bit(at) && at + 1 < n { x.clear_bit(at) } else if at + 1 < n { x.set_bit(at) }
            }
            d
        }
        _ => both(digest_u(&(ua - ub)), 1),
    }
}

/// The reference values behind the pool.
struct Model<'a> {
    u: &'a [Nat],
    i: &'a [Int],
    mods: &'a [Nat],
    /// index into `u` and of the ring
    m: &'a [(usize, usize)],
}

fn model_u(x: &Nat) -> u64 {
    text_hash_bytes(&x.to_le_bytes())
}
fn model_i(x: &Int) -> u64 {
    model_u(&x.mag).wrapping_mul(3) ^ x.neg as u64
}

/// What `perform` should give according to the reference, for the operations it is cheap for: `None` if not known,
/// `Some(None)` for a panic.
fn expected(p: &Model, o: &Op) -> Option<Option<u64>> {
    let (a, b) = (&p.u[o.a % p.u.len()], &p.u[o.b % p.u.len()]);
    let (ia, ib) = (&p.i[o.a % p.i.len()], &p.i[o.b % p.i.len()]);
    let (ma, ra) = p.m[o.a % p.m.len()];
    let (mb, rb) = p.m[o.b % p.m.len()];
    Some(match o.code {
        0 => Some(model_u(&a.add(b))),
        1 => Some(model_u(&a.mul(b))),
        2 if b.is_zero() => None,
        2 => Some(model_u(&a.div_rem(b).0)),
        3 | 4 if ib.mag.is_zero() => None,
        3 | 4 => {
            let (q, r) = if o.code == 3 { ia.div_rem_trunc(ib) } else { ia.div_rem_euclid(ib) };
            Some(both(model_i(&q), model_i(&r)))
        }
        5 if a.is_zero() && b.is_zero() => None,
        5 if a.bit_len().min(b.bit_len()) > 500 => return None,
        5 => Some(model_u(&a.gcd(b))),
        8 => Some(model_u(&a.shl(o.k % 300))),
        9 => Some(model_i(&ia.shr(o.k % 300))),
        10 => Some(both(
            model_i(&ia.bitop(ib, |x, y| x & y)),
            both(model_i(&ia.bitop(ib, |x, y| x | y)), model_i(&ia.bitop(ib, |x, y| x ^ y))),
        )),
        12 if ia.mag.bit_len() <= 3000 => Some(text_hash(&ia.to_radix(2 + o.k as u32 % 35))),
        17 if ra != rb => None,
        17 => {
            let m = &p.mods[ra];
            let (x, y) = (p.u[ma].rem(m), p.u[mb].rem(m));
            Some(both(
                model_u(&x.add(&y).rem(m)),
                both(model_u(&x.add(m).sub(&y).rem(m)), model_u(&x.mul(&y).rem(m))),
            ))
        }
        20 => Some(model_u(&b.rem(&p.mods[ra]))),
        _ => return None,
    })
}

fn answer(p: &Pool, o: &Op, made: &mut Vec<UBig>) -> Option<u64> {
    catch(|| perform(p, o, made)).ok()
}

/// Does a type have the property? (An inherent method is preferred where its bound holds.)
struct Probe<T>(PhantomData<T>);
trait No {
    fn shared(&self) -> bool {
        false
    }
    fn sent(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
struct ProbeSend<T>(PhantomData<T>);
impl<T> No for &ProbeSend<T> {}
impl<T: Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
impl<T: Send> ProbeSend<T> {
    fn sent(&self) -> bool {
        true
    }
}

fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    macro_rules! types {
        ($($t:ty),*) => { $(
            ensure!((&Probe::<$t>(PhantomData)).shared(), "{} is not Sync", stringify!($t));
            ensure!((&ProbeSend::<$t>(PhantomData)).sent(), "{} is not Send", stringify!($t));
            *n += 2;
        )* };
    }
    types!(UBig, IBig, ModuloRing, Modulo<'static>, ibig::fmt::InRadix<'static>, ibig::error::ParseError, ibig::error::OutOfBoundsError);
    ensure!(!(&Probe::<std::cell::Cell<u8>>(PhantomData)).shared() && !(&ProbeSend::<std::rc::Rc<u8>>(PhantomData)).sent(), "harness: the probe sees no difference");
    cx.label("types Send and Sync");
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let small = cfg!(miri);
    let max = if small { *t.pick(&[1usize, 2, 3]) } else { *t.pick(&[1usize, 1, 2, 3, 8, 30, 60, 300]) };
    let n = 3 + t.below(4);
    // Values that differ in one bit only: what is remembered under an incomplete key shows.
    let related = t.one_in(3);
    let mut values: Vec<Nat> = (0..n).map(|_| nat(t, max)).collect();
    let mut ints: Vec<Int> = (0..n).map(|_| int(t, max)).collect();
    if related {
        for k in 1..n {
            if t.below(4) != 0 {
                let from = t.below(k);
                values[k] = relative(t, &values[from]);
                ints[k] = Int::new(t.flag(), values[k].clone());
            }
        }
    }
    let u: Vec<UBig> = values.iter().map(ub).collect();
    let i: Vec<IBig> = ints.iter().map(ib).collect();
    let mut mods: Vec<Nat> = (0..1 + t.below(3))
        .map(|_| {
            let l = *t.pick(&[1usize, 1, 2, 3, 20]);
            let m = nat(t, l.min(if small { 3 } else { 20 }));
            if m.is_zero() { Nat::from_u64(97) } else { m }
        })
        .collect();
    if related {
        for k in 1..mods.len() {
            let m = relative(t, &mods[k - 1]);
            if !m.is_zero() {
                mods[k] = m;
            }
        }
    }
    let rings = Force(mods.iter().map(|m| ModuloRing::new(&ub(m))).collect::<Vec<_>>());
    let mut elements = Vec::new();
    let m: Vec<(Modulo, usize)> = (0..4)
        .map(|_| {
            let r = t.below(mods.len());
            let v = t.below(n);
            elements.push((v, r));
            (rings.0[r].from(&u[v]), r)
        })
        .collect();
    let mut texts: Vec<(String, u32)> = (0..2)
        .map(|_| {
            let r = 2 + t.below(35) as u32;
            if !small && t.one_in(8) {
                // long enough to be parsed in parts
                let digits = 3000 + t.below(12_000);
                let mut x = Rng(t.raw());
                return ((0..digits).map(|_| char::from_digit((x.next() % r as u64) as u32, r).unwrap()).collect(), r);
            }
            let x = t.pick(&values).low_bits(2000);
            let mut s = x.to_radix(r);
            if t.one_in(8) {
                s.push('~');
            }
            (s, r)
        })
        .collect();
    if related {
        // the same but for the radix, or but for a digit
        let (mut s, r) = texts[0].clone();
        let q = if t.flag() { r.min(35) + 1 } else { r };
        if q == r && s.is_ascii() && !s.is_empty() {
            let at = t.below(s.len());
            s.replace_range(at..=at, if &s[at..=at] == "1" { "0" } else { "1" });
        }
        texts.push((s, q));
    }
    let ranges = (0..2)
        .map(|_| {
            let (a, b) = (&values[t.below(n)], &values[t.below(n)]);
            let (lo, hi) = if a.cmp(b).is_lt() { (a, b) } else { (b, a) };
            let (lo, hi) = (ub(lo), ub(hi) + 1u8);
            (Uniform::new(&lo, &hi), Uniform::new(-IBig::from(&hi), IBig::from(&lo) + 1u8))
        })
        .collect();
    let bytes = values.iter().map(|v| v.to_le_bytes()).collect();
    let pool = Force(Pool { u, i, rings: &rings.0, m, texts, bytes, ranges });
    // Many different operations, or one or two with different operands again and again: threads meet in the same code.
    let hammer = t.one_in(3);
    let favourites = [t.below(CODES), t.below(CODES)];
    let ops: Vec<Op> = (0..6 + t.below(if small { 5 } else if hammer { 6 } else { 25 }))
        .map(|_| Op { code: if hammer { *t.pick(&favourites) } else { t.below(CODES) }, a: t.below(12), b: t.below(12), k: t.below(4000) })
        .collect();
    let rounds = if small || !hammer { 2 } else { *t.pick(&[10usize, 50, if max > 8 { 10 } else { 300 }]) };
    let threads = 2 + t.below(3);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let (start, mut step) = (t.below(ops.len()), 1 + t.below(ops.len()));
            while gcd(step, ops.len()) != 1 {
                step += 1;
            }
            (0..ops.len()).map(|k| (start + k * step) % ops.len()).collect()
        })
        .collect();
    note!(cx, "values {values:?}, moduli {mods:?}");
    note!(cx, "operations (code, a, b, k) {:?} in {threads} threads, {rounds} rounds", ops.iter().map(|o| (o.code, o.a, o.b, o.k)).collect::<Vec<_>>());
    let mut made = Vec::new();
    let alone: Vec<Option<u64>> = ops.iter().map(|o| answer(&pool.0, o, &mut made)).collect();
    // With related values also against the reference: an answer wrongly remembered for good is the same every time.
    let mut known = 0;
    if related {
        let model = Model { u: &values, i: &ints, mods: &mods, m: &elements };
        for (k, o) in ops.iter().enumerate() {
            if let Some(want) = expected(&model, o) {
                known += 1;
                ensure!(
                    alone[k] == want,
                    "operation {k} (code {}) after the ones before it: {}",
                    o.code,
                    match (alone[k], want) {
                        (None, _) => "it panics, and should not",
                        (_, None) => "it does not panic, and should",
                        _ => "its result is not that of the reference",
                    }
                );
            }
        }
    }
    let before: Vec<u64> = made.iter().map(digest_u).collect();

    let barrier = Barrier::new(threads);
    let (send, receive) = mpsc::channel::<Result<Force<Vec<UBig>>, String>>();
    let (pool_ref, ops_ref, alone_ref, barrier_ref) = (&pool, &ops, &alone, &barrier);
    let mut results = Vec::new();
    std::thread::scope(|scope| {
        for order in &orders {
            let send = send.clone();
            let slot = slot();
            scope.spawn(move || {
                adopt_slot(slot);
                let pool: &Force<Pool> = pool_ref;
                let mut made = Vec::new();
                let mut res = Ok(());
                barrier_ref.wait();
                for round in 0..rounds {
                    for &k in order {
                        let mut unused = Vec::new();
                        let got = answer(&pool.0, &ops_ref[k], if round < 2 { &mut made } else { &mut unused });
                        if got != alone_ref[k] && res.is_ok() {
                            res = Err(format!(
                                "operation {k} (code {}) in a thread, round {round}: {} what it was alone",
                                ops_ref[k].code,
                                match (got, alone_ref[k]) {
                                    (None, _) => "it panics, unlike",
                                    (_, None) => "it does not panic, unlike",
                                    _ => "its result is not",
                                }
                            ));
                        }
                    }
                }
                let _ = send.send(res.map(|()| Force(made)));
            });
        }
        for _ in 0..threads {
            match receive.recv_timeout(Duration::from_secs(if small { 100_000 } else { 200 })) {
                Ok(r) => results.push(r),
                Err(_) => give_up_hanging(),
            }
        }
    });
    let mut all = Vec::new();
    for r in results {
        all.push(r?.0);
    }
    // values made in one thread, read and released in another
    for made in &all {
        ensure!(made.len() == 2 * before.len(), "a thread made {} values instead of {}", made.len(), 2 * before.len());
        let mut d: Vec<u64> = made.iter().map(digest_u).collect();
        let mut want: Vec<u64> = before.iter().chain(&before).copied().collect();
        d.sort_unstable();
        want.sort_unstable();
        ensure!(d == want, "values made in a thread changed after it ended");
    }
    drop(all);
    for (k, o) in ops.iter().enumerate().rev() {
        let got = answer(&pool.0, o, &mut Vec::new());
        ensure!(got == alone[k], "operation {k} (code {}) done again: not what it was the first time", o.code);
    }
    for (x, v) in pool.0.u.iter().zip(&values) {
        same("shared operand afterwards", x, v)?;
    }
    cx.nontrivial_if(alone.iter().flatten().count() >= 6);
    cx.label_if(alone.iter().any(|a| a.is_none()), "an operation that panics");
    cx.label_if(hammer, "one or two kinds of operation, many rounds");
    cx.label_if(related, "values that differ in one bit");
    cx.label_if(known > 0, "results compared with the reference");
    cx.label_if(threads > 2, "more than two threads");
    Ok(())
}

/// The value with a bit below the top one changed, or the top bit kept and the rest new.
fn relative(t: &mut Tape, x: &Nat) -> Nat {
    let n = x.bit_len();
    if n < 2 {
        return x.add(&Nat::one());
    }
    let at = match t.below(4) {
        0 => 0,
        1 => n - 2,
        2 => t.below(n - 1) / W * W,
        _ => t.below(n - 1),
    };
    x.with_bit(at, x.shr(at).low_bits(1).is_zero())
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
