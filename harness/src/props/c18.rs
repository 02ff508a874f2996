use super::c18x::*;
use super::*;
use crate::run::*;
use ibig::{Modulo, ModuloRing};

pub static PROP: Prop = Prop {
    case: case,
    rule: "a modulus (1, 2, powers of two, next to word boundaries, one to 220 (rarely 600) words, with and without spare top bits) and a history of up to 12 ring operations over a pool of elements made from big integers and primitives of every type (extreme residues 0, 1, m-1, m/2; integers far longer than m), every result compared as a residue; non-trivial: m > 2 and at least three operations",
    quick: 60_000,
    fixed: Some(fixed),
};

pub fn is(what: &str, x: &Modulo, want: &Nat) -> CaseResult {
    same(&format!("{what}: residue"), &x.residue(), want)
}


fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max = if t.one_in(100) { 600 } else { *t.pick(&[1usize, 2, 2, 3, 3, 6, 6, 30, 70, 220]) };
    let m = modulus(t, max);
    let ring = ModuloRing::new(&ub(&m));
    note!(cx, "modulus {m:?}");
    same("modulus()", &ring.modulus(), &m)?;
    let mut pool: Vec<(Modulo, Nat)> = Vec::new();
    for i in 0..2 {
        let (x, r, s) = element(t, &ring, &m);
        note!(cx, "e{i} = from({s})");
        is(&format!("from({s}) mod {m:?}"), &x, &r)?;
        pool.push((x, r));
    }
    let steps = 1 + t.below(if max > 10 { 5 } else { 12 });
    for _ in 0..steps {
        let i = t.below(pool.len());
        let j = t.below(pool.len());
        let form = t.below(6);
        let (ra, rb) = (pool[i].1.clone(), pool[j].1.clone());
        let (z, r, s) = match t.below(9) {
            0 | 1 => (mod_forms!("+", &pool[i].0, &pool[j].0, form, +, +=), ra.add(&rb).rem(&m), format!("e{i} + e{j} form {form}")),
            2 | 3 => (mod_forms!("-", &pool[i].0, &pool[j].0, form, -, -=), ra.add(&m).sub(&rb).rem(&m), format!("e{i} - e{j} form {form}")),
            4 | 5 => (mod_forms!("*", &pool[i].0, &pool[j].0, form, *, *=), ra.mul(&rb).rem(&m), format!("e{i} * e{j} form {form}")),
            6 => {
                let z = if form & 1 == 0 { -&pool[i].0 } else { -pool[i].0.clone() };
                (z, m.sub(&ra).rem(&m), format!("-e{i}"))
            }
            7 => {
                let mut z = pool[j].0.clone();
                z.clone_from(&pool[i].0);
                (z, ra.clone(), format!("clone_from e{i}"))
            }
            _ => {
                let (z, r, s) = element(t, &ring, &m);
                (z, r, format!("from({s})"))
            }
        };
        note!(cx, "e{} = {s}", pool.len());
        let what = format!("{s} mod {m:?} with e{i}={ra:?} e{j}={rb:?}");
        is(&what, &z, &r)?;
        is("first operand after the operation", &pool[i].0, &ra)?;
        is("second operand after the operation", &pool[j].0, &rb)?;
        for (k, (x, rx)) in pool.iter().enumerate() {
            ensure!((*x == z) == (*rx == r) && (z != *x) == (*rx != r), "{what}: equality with e{k}={rx:?} is {}", *x == z);
        }
        // the element is the same as one made from its residue
        ensure!(z == ring.from(ub(&r)), "{what}: not == to from(residue)");
        if pool.len() < 5 {
            pool.push((z, r));
        } else {
            pool[i] = (z, r);
        }
    }
    if t.one_in(400) && m.bit_len() <= 3 * W {
        // from something very long
        let l = far_words(t);
        let n = Int::new(t.flag(), nat(t, l));
        note!(cx, "from({n:?})");
        is("from(very long)", &ring.from(ib(&n)), &n.rem_euclid(&m))?;
        is("from(very long)", &ring.from(&ub(&n.mag)), &n.mag.rem(&m))?;
    }
    // formatting
    let (x, r) = t.pick(&pool);
    let (sr, sm) = (r.to_radix(10), m.to_radix(10));
    let (hr, hm) = (r.to_radix(16), m.to_radix(16));
    let fmt = [
        (format!("{x}"), format!("{sr} (mod {sm})")),
        (format!("{x:?}"), format!("{sr} (mod {sm})")),
        (format!("{x:x}"), format!("{hr} (mod {hm})")),
        (format!("{x:#X}"), format!("0x{} (mod 0x{})", hr.to_uppercase(), hm.to_uppercase())),
        (format!("{x:o}"), format!("{} (mod {})", r.to_radix(8), m.to_radix(8))),
        (format!("{x:#b}"), format!("0b{} (mod 0b{})", r.to_radix(2), m.to_radix(2))),
        (format!("{ring}"), format!("mod {sm}")),
        (format!("{ring:?}"), format!("mod {sm}")),
        (format!("{ring:#x}"), format!("mod 0x{hm}")),
        (format!("{ring:X}"), format!("mod {}", hm.to_uppercase())),
        (format!("{ring:o}"), format!("mod {}", m.to_radix(8))),
        (format!("{ring:b}"), format!("mod {}", m.to_radix(2))),
    ];
    for (got, want) in fmt {
        ensure!(got == want, "formatting of {r:?} mod {m:?}: {got:?}, want {want:?}");
    }
    if t.one_in(8) {
        error_comes_back(t, "ring element", |o| write!(o, "{x:#x}"))?;
        error_comes_back(t, "ring", |o| write!(o, "{ring}"))?;
    }
    same("modulus() at the end", &ring.modulus(), &m)?;
    cx.nontrivial_if(m.bit_len() > 1 && steps >= 3);
    cx.label_if(m.bit_len() > W, "multi-word modulus");
    cx.label_if(m.bit_len() > 24 * W, "modulus beyond simple multiplication");
    cx.label_if(m.bit_len() % W == 0, "modulus needs no normalization");
    Ok(())
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    must_panic("ModuloRing::new(0)", || ModuloRing::new(&UBig::from(0u8)))?;
    for m in 1u64..=17 {
        let rm = Nat::from_u64(m);
        let ring = ModuloRing::new(&ub(&rm));
        for a in -20i64..=20 {
            for b in 0i64..20 {
                let (x, y) = (ring.from(a), ring.from(b));
                let w = |v: i64| Nat::from_u64(v.rem_euclid(m as i64) as u64);
                let what = format!("{a} ? {b} mod {m}");
                is(&what, &x, &w(a))?;
                is(&what, &(&x + &y), &w(a + b))?;
                is(&what, &(&x - &y), &w(a - b))?;
                is(&what, &(&x * &y), &w(a * b))?;
                is(&what, &-&x, &w(-a))?;
                ensure!((x == y) == (w(a) == w(b)), "{what}: ==");
                *n += 1;
            }
        }
    }
    Ok(())
}
