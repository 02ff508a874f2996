use super::c14x::*;
use super::*;
use crate::run::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

pub static PROP: Prop = Prop {
    case: case,
    rule: "3 to 6 numbers, each related to an earlier one (equal but computed another way, +-1, differing in one bit at any height, negated, prefix, independent), all pairs compared by every operator, min/max/clamp, hash, then sorted; non-trivial: two distinct magnitudes of equal bit length, or equal values computed in different ways",
    quick: 60_000,
    fixed: Some(fixed),
};

/// The number n, computed in one of many ways.
fn route(t: &mut Tape, n: &Int) -> (IBig, usize) {
    let k = t.below(17);
    let direct = ib(n);
    let x = match k {
        0 => direct,
        1 => {
            // a - b with cancellation of everything above n
            let d = Int::new(t.flag(), Nat::pow2((n.mag.bit_len() + 1 + t.below(4 * W)).min(HARD_MAX_BITS - 2)));
            (direct + ib(&d)) - ib(&d)
        }
        2 => {
            let s = t.below(3 * W);
            if n.mag.bit_len() + s < HARD_MAX_BITS { (direct << s) >> s } else { direct }
        }
        3 => {
            let d = nat_nonzero(t, 3);
            if n.mag.bit_len() + d.bit_len() < HARD_MAX_BITS { direct * ib(&Int::pos(d.clone())) / ib(&Int::pos(d)) } else { direct }
        }
        4 => direct.to_string().parse().unwrap(),
        5 => {
            let r = 2 + t.below(35) as u32;
            let s = direct.in_radix(r).to_string();
            let (sign, digits) = s.strip_prefix('-').map_or(("", &s[..]), |d| ("-", d));
            IBig::from_str_radix(&format!("{sign}000000000000000000000{digits}"), r).unwrap()
        }
        6 => !!direct,
        7 => -(-direct),
        8 => {
            let o = ib(&int(t, 6));
            (&direct ^ &o) ^ &o
        }
        9 => {
            let o = ib(&int(t, 6));
            // (x & o) | (x &~ o)
            use ibig::ops::AndNot;
            (&direct & &o) | direct.and_not(&o)
        }
        10 => {
            let o = ib(&Int::new(t.flag(), nat_nonzero(t, 4)));
            use ibig::ops::DivRemEuclid;
            let (q, r) = (&direct).div_rem_euclid(&o);
            q * o + r
        }
        11 => {
            let mut b = n.mag.to_le_bytes();
            b.extend(vec![0; t.below(30)]);
            let m = IBig::from(UBig::from_le_bytes(&b));
            if n.neg { -m } else { m }
        }
        12 => {
            // bits set one by one from high or low
            let mut m = UBig::from(0u8);
            let bits: Vec<usize> = (0..n.mag.bit_len()).filter(|&i| n.mag.bit(i)).collect();
            if bits.len() > 300 {
                m = ub(&n.mag);
            } else if t.flag() {
                for i in bits {
                    m.set_bit(i);
                }
            } else {
                for i in bits.into_iter().rev() {
                    m.set_bit(i);
                }
            }
            let m = IBig::from(m);
            if n.neg { -m } else { m }
        }
        13 => {
            let mut y = ib(&int(t, 12));
            y.clone_from(&direct);
            y
        }
        14 => {
            // remainder by something larger
            let m = Int::pos(Nat::pow2((n.mag.bit_len() + 1 + t.below(3 * W)).min(HARD_MAX_BITS - 1)));
            if cmp_nat(&n.mag, &m.mag) == Ordering::Less { direct % ib(&m) } else { direct }
        }
        15 => {
            // set and clear a high bit
            let mut m = ub(&n.mag);
            let i = n.mag.bit_len() + t.below(5 * W);
            if i < HARD_MAX_BITS {
                m.set_bit(i);
                m.clear_bit(i);
            }
            let m = IBig::from(m);
            if n.neg { -m } else { m }
        }
        _ => {
            let mut a = direct;
            let o = ib(&int(t, 8));
            a += &o;
            a -= o;
            a
        }
    };
    (x, k)
}

macro_rules! relations {
    ($a:expr, $b:expr, $want:expr, $what:expr) => {{
        let (a, b, w) = ($a, $b, $want);
        let what = $what;
        ensure!(a.cmp(b) == w, "{what}: cmp = {:?}, want {w:?}", a.cmp(b));
        ensure!(a.partial_cmp(b) == Some(w), "{what}: partial_cmp = {:?}", a.partial_cmp(b));
        ensure!((a == b) == (w == Ordering::Equal), "{what}: == is {}", a == b);
        ensure!((a != b) == (w != Ordering::Equal), "{what}: != is {}", a != b);
        ensure!((a < b) == (w == Ordering::Less), "{what}: < is {}", a < b);
        ensure!((a > b) == (w == Ordering::Greater), "{what}: > is {}", a > b);
        ensure!((a <= b) == (w != Ordering::Greater), "{what}: <= is {}", a <= b);
        ensure!((a >= b) == (w != Ordering::Less), "{what}: >= is {}", a >= b);
        if w == Ordering::Equal {
            ensure!(hash_of(a) == hash_of(b), "{what}: equal but hash differently");
        }
    }};
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    if t.one_in(2000) {
        let l = far_words(t);
        let a = int(t, l);
        let b = match t.below(4) {
            0 => a.clone(),
            1 => a.neg(),
            2 => Int::new(a.neg, partner(t, &a.mag, l)),
            _ => {
                let k = t.below(a.mag.bit_len() + 1);
                Int::new(a.neg, a.mag.with_bit(k, !a.mag.bit(k)))
            }
        };
        note!(cx, "long: {a:?} ? {b:?}");
        cx.label("thousands of words");
        let w = cmp_int(&a, &b);
        relations!(&ib(&a), &ib(&b), w, format!("IBig {a:?} ? {b:?}"));
        relations!(&ub(&a.mag), &ub(&b.mag), cmp_nat(&a.mag, &b.mag), format!("UBig {:?} ? {:?}", a.mag, b.mag));
        return Ok(());
    }
    let max = if t.one_in(80) { 1200 } else { *t.pick(&[1usize, 2, 3, 8, 40, 200]) };
    let n = 3 + t.below(4);
    let mut refs: Vec<Int> = Vec::new();
    for i in 0..n {
        let v = if i == 0 || t.one_in(6) {
            int(t, max)
        } else {
            let base = t.pick(&refs).clone();
            match t.below(5) {
                0 => base,
                1 => base.neg(),
                2 => {
                    let k = t.below(base.mag.bit_len() + 1);
                    let on = !base.mag.bit(k);
                    Int::new(base.neg, base.mag.with_bit(k, on))
                }
                _ => {
                    let m = partner(t, &base.mag, max);
                    Int::new(if t.one_in(4) { !base.neg } else { base.neg }, m)
                }
            }
        };
        refs.push(v);
    }
    let mut vals = Vec::new();
    let mut routes = Vec::new();
    for r in &refs {
        let (x, k) = route(t, r);
        note!(cx, "{r:?} by route {k}");
        ensure!(ni(&x) == *r, "route {k} of {r:?} gave {:?}", ni(&x));
        vals.push(x);
        routes.push(k);
    }
    let mags: Vec<UBig> = vals.iter().map(|v| ibig::ops::UnsignedAbs::unsigned_abs(v)).collect();
    for i in 0..n {
        for j in 0..n {
            let w = cmp_int(&refs[i], &refs[j]);
            relations!(&vals[i], &vals[j], w, format!("IBig {:?} ? {:?}", refs[i], refs[j]));
            let wm = cmp_nat(&refs[i].mag, &refs[j].mag);
            relations!(&mags[i], &mags[j], wm, format!("UBig {:?} ? {:?}", refs[i].mag, refs[j].mag));
            if i != j {
                cx.nontrivial_if(wm != Ordering::Equal && refs[i].mag.bit_len() == refs[j].mag.bit_len());
                cx.nontrivial_if(w == Ordering::Equal && routes[i] != routes[j]);
                cx.label_if(w == Ordering::Equal && routes[i] != routes[j], "equal by different routes");
            }
        }
    }
    // min, max, clamp
    let (a, b, c) = (t.below(n), t.below(n), t.below(n));
    let mx = if cmp_int(&refs[a], &refs[b]) == Ordering::Greater { a } else { b };
    let mn = if cmp_int(&refs[a], &refs[b]) == Ordering::Greater { b } else { a };
    same("max", &vals[a].clone().max(vals[b].clone()), &refs[mx])?;
    same("min", &vals[a].clone().min(vals[b].clone()), &refs[mn])?;
    let cl = if cmp_int(&refs[c], &refs[mn]) == Ordering::Less {
        mn
    } else if cmp_int(&refs[c], &refs[mx]) == Ordering::Greater {
        mx
    } else {
        c
    };
    same("clamp", &vals[c].clone().clamp(vals[mn].clone(), vals[mx].clone()), &refs[cl])?;
    let umx = if cmp_nat(&refs[a].mag, &refs[b].mag) == Ordering::Greater { a } else { b };
    same("UBig max", &mags[a].clone().max(mags[b].clone()), &refs[umx].mag)?;
    same("UBig min", &mags[a].clone().min(mags[b].clone()), &refs[a + b - umx].mag)?;
    // sorting and maps
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&i, &j| cmp_int(&refs[i], &refs[j]));
    let mut sorted = vals.clone();
    sorted.sort();
    for (k, &i) in order.iter().enumerate() {
        ensure!(ni(&sorted[k]) == refs[i], "sort: position {k} is {:?}, want {:?}", ni(&sorted[k]), refs[i]);
    }
    let h: HashMap<IBig, ()> = vals.iter().map(|v| (v.clone(), ())).collect();
    let tr: BTreeMap<IBig, ()> = vals.iter().map(|v| (v.clone(), ())).collect();
    let mut dist: Vec<Int> = order.iter().map(|&i| refs[i].clone()).collect();
    dist.dedup();
    ensure!(h.len() == dist.len() && tr.len() == dist.len(), "{} distinct values, but {} hash map keys and {} tree keys", dist.len(), h.len(), tr.len());
    Ok(())
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    // all pairs of a grid of boundary values
    let mut vs = vec![Int::zero()];
    for k in [0usize, 1, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 192] {
        for d in 0..3u64 {
            let m = Nat::pow2(k).add(&Nat::from_u64(1)).checked_sub(&Nat::from_u64(d));
            if let Some(m) = m {
                vs.push(Int::pos(m.clone()));
                vs.push(Int::new(true, m));
            }
        }
    }
    for a in &vs {
        for b in &vs {
            let w = cmp_int(a, b);
            relations!(&ib(a), &ib(b), w, format!("IBig {a:?} ? {b:?}"));
            *n += 1;
        }
    }
    Ok(())
}
