use super::c18x::*;
use super::*;
use crate::run::*;
use ibig::{Modulo, ModuloRing};

pub static PROP: Prop = Prop {
    case: case,
    rule: "2 to 4 rings (equal moduli, moduli of equal and different word counts, one-word next to two-word), elements carrying their ring through up to 10 operations, clone, clone_from across rings and results of pow and inverse; after each step the element is used in its own ring and in every other ring by every operator form; non-trivial: two rings of equal modulus or of equal length",
    quick: 12_000,
    fixed: None,
};

/// Each operator in one drawn form, or two operators in every form.
fn foreign(t: &mut Tape, what: &str, x: &Modulo, y: &Modulo) -> CaseResult {
    let all = t.one_in(12);
    for op in ["+", "-", "*", "/"] {
        let k = t.below(6);
        for form in if all { 0..6 } else { k..k + 1 } {
            must_panic(&format!("{what}: {op} form {form} across rings"), || match op {
                "+" => mod_forms!("+", x, y, form, +, +=),
                "-" => mod_forms!("-", x, y, form, -, -=),
                "*" => mod_forms!("*", x, y, form, *, *=),
                _ => mod_forms!("/", x, y, form, /, /=),
            })?;
        }
    }
    must_panic(&format!("{what}: == across rings"), || x == y)?;
    must_panic(&format!("{what}: != across rings"), || x != y)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = 2 + t.below(3);
    let max = *t.pick(&[1usize, 2, 2, 3, 3, 4, 30]);
    let mut mods: Vec<Nat> = Vec::new();
    for i in 0..n {
        let m = match t.below(4) {
            0 | 1 if i > 0 => t.pick(&mods).clone(),
            2 if i > 0 => {
                // a relative of the same length, most often
                let base = t.pick(&mods).clone();
                let m = if t.flag() { base.add(&Nat::one()) } else { base.shr(1).add(&Nat::one()) };
                m
            }
            _ => modulus(t, max),
        };
        mods.push(m);
    }
    let rings: Vec<ModuloRing> = mods.iter().map(|m| ModuloRing::new(&ub(m))).collect();
    for i in 0..n {
        for j in 0..n {
            ensure!((rings[i] == rings[j]) == (i == j) && (rings[i] != rings[j]) == (i != j), "ring {i} == ring {j} is {}", rings[i] == rings[j]);
            if i != j {
                cx.nontrivial_if(mods[i].bit_len().div_ceil(W) == mods[j].bit_len().div_ceil(W));
                cx.label_if(mods[i] == mods[j], "equal moduli");
            }
        }
    }
    note!(cx, "moduli {mods:?}");
    // pool: element, its ring, its residue
    let mut pool: Vec<(Modulo, usize, Nat)> = Vec::new();
    for i in 0..n {
        let (x, r, _) = element(t, &rings[i], &mods[i]);
        pool.push((x, i, r));
    }
    for step in 0..1 + t.below(10) {
        let i = t.below(pool.len());
        let j = t.below(pool.len());
        let (ki, ri) = (pool[i].1, pool[i].2.clone());
        let (kj, rj) = (pool[j].1, pool[j].2.clone());
        let m = &mods[ki];
        let form = t.below(6);
        let (z, k, r, s) = match t.below(9) {
            0 | 1 | 2 => {
                // the destination may belong to any ring; afterwards it is a copy of the source
                let mut z = pool[j].0.clone();
                z.clone_from(&pool[i].0);
                (z, ki, ri.clone(), format!("clone of {j} (ring {kj}), clone_from {i} (ring {ki})"))
            }
            3 => (pool[i].0.clone(), ki, ri.clone(), format!("clone {i}")),
            4 if ki == kj => (mod_forms!("+", &pool[i].0, &pool[j].0, form, +, +=), ki, ri.add(&rj).rem(m), format!("{i} + {j}")),
            5 if ki == kj => (mod_forms!("-", &pool[i].0, &pool[j].0, form, -, -=), ki, ri.add(m).sub(&rj).rem(m), format!("{i} - {j}")),
            6 if ki == kj => (mod_forms!("*", &pool[i].0, &pool[j].0, form, *, *=), ki, ri.mul(&rj).rem(m), format!("{i} * {j}")),
            7 => (pool[i].0.pow(&UBig::from(3u8)), ki, ri.pow_mod(&Nat::from_u64(3), m), format!("{i} ^ 3")),
            8 => match pool[i].0.inverse() {
                Some(z) => {
                    let r = nu(&z.residue());
                    (z, ki, r, format!("inverse {i}"))
                }
                None => continue,
            },
            _ => {
                // a failed mixed assignment must not spoil later use of either operand
                if ki == kj {
                    continue;
                }
                note!(cx, "step {step}: {i} op= {j} across rings, caught");
                foreign(t, &format!("{i} (mod {m:?}) and {j} (mod {:?})", mods[kj]), &pool[i].0, &pool[j].0)?;
                same("borrowed left operand after a caught panic", &pool[i].0.residue(), &ri)?;
                same("borrowed right operand after a caught panic", &pool[j].0.residue(), &rj)?;
                continue;
            }
        };
        note!(cx, "step {step}: {s} -> ring {k}, residue {r:?}");
        same(&format!("step {step} ({s}): residue"), &z.residue(), &r)?;
        // it lives in ring k ...
        let own = rings[k].from(ub(&r));
        ensure!(z == own, "step {step} ({s}): not == to the element of ring {k} with its residue");
        same("z + own", &(&z + &own).residue(), &r.add(&r).rem(&mods[k]))?;
        same("own - z", &(&own - &z).residue(), &Nat::zero())?;
        same("z * own", &(&z * &own).residue(), &r.mul(&r).rem(&mods[k]))?;
        // ... and in no other
        for o in 0..n {
            if o != k {
                let y = rings[o].from(ub(&r));
                let what = format!("step {step} ({s}): element of ring {k} (mod {:?}) with element of ring {o} (mod {:?})", mods[k], mods[o]);
                foreign(t, &what, &z, &y)?;
                foreign(t, &what, &y, &z)?;
            }
        }
        let at = t.below(pool.len() + 1);
        if at < pool.len() {
            pool[at] = (z, k, r);
        } else {
            pool.push((z, k, r));
        }
    }
    Ok(())
}
