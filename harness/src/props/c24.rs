//! Programs whose transcript must be the same in every configuration: the case only records.
//! Comparing is the driver's business (special.py); here nothing may depend on the word size.
use super::hist::World;
use super::*;
use crate::run::*;
use ibig::ops::*;
use ibig::ModuloRing;
use std::fmt::Write as _;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a program of 1 to 40 steps: a history over a pool of variables, or observations of fresh values (formatting, parsing, floats, primitives, bytes, serde, shifts, big products and quotients, rings, gcd, powers), values of 0 to 30000 bits shaped around 16-, 32- and 64-bit words; the transcript of everything observed is compared between all configurations; non-trivial: transcript longer than 200 characters",
    quick: 20_000,
    fixed: None,
};

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let mut log = String::new();
    if t.flag() {
        let cap = *t.pick(&[200usize, 500, 500, 2000, 2000, 8000]);
        let mut w = World::new(t, cap, nat_bits);
        let steps = 1 + t.below(40);
        for _ in 0..steps {
            let r = catch(|| w.step(t, &mut Cx::default(), false));
            match r {
                Ok(Ok(())) => log.push_str(&w.out),
                Ok(Err(e)) => {
                    let _ = write!(log, "ERROR {e}");
                    break;
                }
                Err(_) => {
                    log.push_str("PANIC");
                    break;
                }
            }
            log.push('\n');
        }
        cx.label("history");
    } else {
        let steps = 1 + t.below(4);
        for _ in 0..steps {
            observe(t, cx, &mut log);
            log.push('\n');
        }
    }
    cx.nontrivial_if(log.len() > 200);
    if cx.verbose {
        cx.notes = log.lines().map(|l| l.chars().take(600).collect()).collect();
    }
    cx.transcript = Some(log);
    Ok(())
}

/// Run, and record the panic if there is one (not its message, which may name the limit).
fn rec<T: Debug>(log: &mut String, what: &str, f: impl FnOnce() -> T) {
    match catch(f) {
        Ok(x) => {
            let _ = write!(log, "{what}={x:?};");
        }
        Err(m) if m.contains("attempt to") && m.contains("overflow") => {
            let _ = write!(log, "{what}=arithmetic overflow;");
        }
        Err(_) => {
            let _ = write!(log, "{what}=panic;");
        }
    }
}

fn sized(t: &mut Tape) -> Nat {
    let bits = *t.pick(&[64usize, 200, 200, 700, 700, 3000, 9000, 30000]);
    nat_bits(t, bits)
}
fn small(t: &mut Tape) -> Nat {
    let bits = *t.pick(&[64usize, 200, 200, 700]);
    nat_bits(t, bits)
}
fn sint(t: &mut Tape, m: Nat) -> IBig {
    ib(&signed(t, m))
}

fn observe(t: &mut Tape, cx: &mut Cx, log: &mut String) {
    match t.below(13) {
        0 => {
            cx.label("format");
            let m = if t.one_in(4) { sized(t) } else { small(t) };
            let x = sint(t, m);
            let w = t.below(90);
            let radix = 2 + t.below(35) as u32;
            rec(log, "f", || format!("{x} {x:?} {x:+} {x:#x} {x:b} {x:#o} {x:X} {x:0w$} {x:>w$} {x:^+#w$x} {x:*<w$b}"));
            rec(log, "r", || format!("{} {:#} {:w$} {:+0w$}", x.in_radix(radix), x.in_radix(radix), x.in_radix(radix), x.in_radix(radix)));
            let u = (&x).unsigned_abs();
            rec(log, "u", || format!("{u} {u:?} {u:#X} {:#}", u.in_radix(radix)));
        }
        1 => {
            cx.label("parse");
            let n = *t.pick(&[3usize, 20, 70, 300, 2500]);
            let n = t.below(n + 1);
            let radix = 2 + t.below(35) as u32;
            let mut s = String::from(*t.pick(&["", "", "", "+", "-", "0x", "-0b", "0o", "+0x", "--", "-+", "0X", "_"]));
            let lead = if t.one_in(3) { t.below(40) } else { 0 };
            s.extend(std::iter::repeat('0').take(lead));
            let top = if t.flag() { radix } else { 10.min(radix) };
            let r = &mut t.sub();
            let style = r.next() % 4;
            for _ in 0..n {
                let d = match style {
                    0 => top - 1,
                    1 => if r.next() % 8 == 0 { 1 } else { 0 },
                    _ => (r.next() % top as u64) as u32,
                };
                let c = char::from_digit(d, radix).unwrap();
                s.push(if r.next() % 5 == 0 { c.to_ascii_uppercase() } else { c });
            }
            if t.one_in(4) && !s.is_empty() {
                let at = t.below(s.len() + 1);
                s.insert(at, *t.pick(&['_', ' ', 'z', '/', ':', '@', '[', '`', '{', '-', '+', '\0', 'é', '٣', '9', 'g']));
            }
            rec(log, "s", || s.clone());
            rec(log, "ur", || UBig::from_str_radix(&s, radix));
            rec(log, "ir", || IBig::from_str_radix(&s, radix));
            rec(log, "up", || UBig::from_str_with_radix_prefix(&s));
            rec(log, "ip", || IBig::from_str_with_radix_prefix(&s));
            rec(log, "u", || s.parse::<UBig>());
            rec(log, "i", || s.parse::<IBig>());
        }
        2 => {
            cx.label("float");
            let bits = *t.pick(&[24usize, 53, 64, 100, 128, 129, 1024, 1100]);
            let m = nat_bits(t, bits);
            let k = t.below(130);
            let m = m.shl(k).add(&Nat::from_u64(t.draw(3)));
            let x = sint(t, m);
            rec(log, "x", || x.clone());
            rec(log, "f", || (x.to_f32().to_bits(), x.to_f64().to_bits()));
            let u = (&x).unsigned_abs();
            rec(log, "uf", || (u.to_f32().to_bits(), u.to_f64().to_bits()));
        }
        3 => {
            cx.label("primitive");
            let bits = *t.pick(&[8usize, 16, 32, 64, 128, 140]);
            let m = match t.below(3) {
                0 => Nat::pow2(t.below(bits + 1)).add(&Nat::from_u64(t.draw(3))).checked_sub(&Nat::one()).unwrap_or_default(),
                _ => nat_bits(t, bits),
            };
            let x = sint(t, m);
            rec(log, "x", || x.clone());
            macro_rules! to {
                ($($p:ty)*) => { $( rec(log, stringify!($p), || (<$p>::try_from(&x), <$p>::try_from(&(&x).unsigned_abs()))); )* };
            }
            to!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
            let p = t.raw();
            let q = (p as u128) << t.below(65) | t.raw() as u128;
            rec(log, "from", || (IBig::from(q as i128), UBig::from(q), IBig::from(p as i64), UBig::from(p), IBig::from(p as i16), UBig::from(p as u32), IBig::from(p & 1 == 1)));
            let m = sized(t);
            let y = sint(t, m);
            let u = (&y).unsigned_abs();
            macro_rules! ops {
                ($($p:ty)*) => {{ $(
                    let r = q as $p;
                    rec(log, concat!(stringify!($p), "+-*"), || (&y + r, &y - r, &y * r));
                    rec(log, concat!(stringify!($p), "/%"), || (&y / r, &y % r));
                )* }};
            }
            match t.below(5) {
                0 => ops!(u8 i8),
                1 => ops!(u16 i16),
                2 => ops!(u32 i32),
                3 => ops!(u64 i64),
                _ => ops!(u128 i128),
            }
            rec(log, "uops", || (&u & q, &u | q, &u ^ q, &u + q, &u * q));
            rec(log, "udiv", || (&u / q, &u % q, (&u).div_rem(q)));
            rec(log, "iops", || (&y & q as i128, &y | q as i128, &y ^ q as i128));
            rec(log, "cmp", || (y < IBig::from(q), y == IBig::from(q as i64), u > UBig::from(q)));
        }
        4 => {
            cx.label("multiply");
            let (a, b) = (sized(t), sized(t));
            let (x, y) = (sint(t, a), sint(t, b));
            rec(log, "mul", || (&x * &y).in_radix(32).to_string());
            rec(log, "sq", || (&x * &x).in_radix(32).to_string());
        }
        5 => {
            cx.label("divide");
            let (a, b) = (sized(t), if t.flag() { sized(t) } else { small(t) });
            let a = match t.below(4) {
                0 => a.mul(&b).low_bits(60000),
                1 => a.mul(&b).checked_sub(&Nat::one()).unwrap_or_default().low_bits(60000),
                _ => a,
            };
            let (x, y) = (sint(t, a), sint(t, b));
            rec(log, "div", || format!("{:x} {:x}", &x / &y, &x % &y));
            rec(log, "euclid", || {
                let (q, r) = (&x).div_rem_euclid(&y);
                format!("{q:x} {r:x}")
            });
            let (u, v) = ((&x).unsigned_abs(), (&y).unsigned_abs());
            rec(log, "udiv", || {
                let (q, r) = (&u).div_rem(&v);
                format!("{q:x} {r:x}")
            });
            rec(log, "sub", || (&u - &v).bit_len());
        }
        6 => {
            cx.label("ring");
            let m = match t.below(4) {
                0 => Nat::pow2(t.below(200)),
                1 => Nat::pow2(1 + t.below(200)).sub(&Nat::one()),
                2 => sized(t).low_bits(3000),
                _ => small(t),
            };
            let (a, b, e) = (sized(t), small(t), small(t));
            let e = e.low_bits(*t.pick(&[5usize, 17, 33, 70, 130, 400]));
            let (x, y) = (sint(t, a), sint(t, b));
            rec(log, "m", || ub(&m));
            rec(log, "ring", || {
                let ring = ModuloRing::new(&ub(&m));
                let (a, b) = (ring.from(&x), ring.from(&y));
                (format!("{a} {b:?}"), (&a + &b).residue(), (&a - &b).residue(), (&a * &b).residue(), (-&a).residue(), a == b)
            });
            rec(log, "pow", || {
                let ring = ModuloRing::new(&ub(&m));
                ring.from(&x).pow(&ub(&e)).residue()
            });
            rec(log, "spow", || {
                let ring = ModuloRing::new(&ub(&m));
                let b = ring.from(&y);
                (b.pow_signed(&-ib(&Int::pos(e.low_bits(20)))).residue(), b.inverse().map(|i| i.residue()))
            });
            rec(log, "inv", || {
                let ring = ModuloRing::new(&ub(&m));
                ring.from(&x).inverse().map(|i| i.residue())
            });
            rec(log, "rdiv", || {
                let ring = ModuloRing::new(&ub(&m));
                (ring.from(&x) / ring.from(&y)).residue()
            });
        }
        7 => {
            cx.label("gcd");
            let (a, b, g) = (small(t), small(t), small(t));
            let (a, b) = if t.flag() { (a.mul(&g), b.mul(&g)) } else { (a, b) };
            let (x, y) = (sint(t, a), sint(t, b));
            rec(log, "gcd", || x.gcd(&y));
            rec(log, "egcd", || x.extended_gcd(&y));
            rec(log, "ugcd", || (&x).unsigned_abs().extended_gcd(&(&y).unsigned_abs()));
        }
        8 => {
            cx.label("bytes and serde");
            let m = if t.flag() { sized(t) } else { small(t) };
            let x = sint(t, m);
            let u = (&x).unsigned_abs();
            rec(log, "le", || u.to_le_bytes());
            rec(log, "be", || u.to_be_bytes());
            rec(log, "json", || (serde_json::to_string(&x).unwrap(), serde_json::to_string(&u).unwrap()));
            rec(log, "bin", || (bincode::serialize(&x).unwrap(), bincode::serialize(&u).unwrap()));
            let k = t.below(30);
            let r = &mut t.sub();
            let mut b: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
            if t.flag() {
                b.extend([0; 9]);
            }
            rec(log, "from", || (UBig::from_le_bytes(&b), UBig::from_be_bytes(&b)));
            let mut c: Vec<u64> = (0..t.below(4)).map(|_| t.raw()).collect();
            c.extend(std::iter::repeat(0).take(t.below(3)));
            let text = format!("[{}]", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            let text = if t.one_in(4) { format!("[\"{}\",{text}]", if t.flag() { "Positive" } else { "Negative" }) } else { text };
            rec(log, "dj", || (serde_json::from_str::<UBig>(&text).ok(), serde_json::from_str::<IBig>(&text).ok()));
            let b = bincode::serialize(&c).unwrap();
            rec(log, "db", || bincode::deserialize::<UBig>(&b).ok());
        }
        9 => {
            cx.label("power");
            let b = small(t);
            let e = t.below(1 + 30000 / b.bit_len().max(20));
            let x = sint(t, b);
            rec(log, "pow", || x.pow(e).in_radix(32).to_string());
        }
        10 => {
            cx.label("bits");
            let m = if t.flag() { sized(t) } else { small(t) };
            let x = sint(t, m);
            let u = (&x).unsigned_abs();
            let k = t.below(u.bit_len() + 70);
            rec(log, "x", || x.clone());
            rec(log, "q", || (u.bit_len(), u.trailing_zeros(), u.is_power_of_two(), u.bit(k)));
            rec(log, "np2", || (&u).next_power_of_two());
            rec(log, "set", || {
                let mut v = u.clone();
                v.set_bit(k);
                let mut w = u.clone();
                w.clear_bit(k);
                (v, w)
            });
            rec(log, "not", || !&x);
        }
        11 => {
            cx.label("shift");
            let m = if t.flag() { sized(t) } else { small(t) };
            let x = sint(t, m);
            let k = *t.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 128, 1000]);
            let k = match t.below(4) {
                // just about what the shift drops
                0 => (&x).unsigned_abs().trailing_zeros().unwrap_or(0) + t.below(70),
                1 => ((&x).unsigned_abs().bit_len() + t.below(5)).saturating_sub(2),
                _ => k + t.below(20),
            };
            rec(log, "sh", || format!("{:x} {:x} {:x} {:x}", &x << k, &x >> k, x.clone() << k, x.clone() >> k));
        }
        _ => {
            cx.label("bit operators");
            let a = sized(t);
            let b = sized(t);
            let (x, y) = (sint(t, a), sint(t, b));
            rec(log, "b", || format!("{:x} {:x} {:x}", &x & &y, &x | &y, &x ^ &y));
            rec(log, "a", || format!("{:x} {:x} {:?}", &x + &y, &x - &y, x.cmp(&y)));
        }
    }
}
