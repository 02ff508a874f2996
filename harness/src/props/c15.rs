use super::hist::World;
use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "2 to 4 UBig and IBig variables and a history of up to 60 operations (all operators in borrowing, moving and assigning forms, aliasing operands, shifts, bit updates, clone, clone_from, take, swap, parsing, bytes, conversions, rings, and operations that panic and are caught), every variable compared with its model after every step; non-trivial: at least 10 steps",
    quick: 25_000,
    fixed: None,
};

fn fresh(t: &mut Tape, bits: usize) -> Nat {
    nat(t, bits / W)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let cap = *t.pick(&[6usize, 12, 12, 40, 40, 150]) * W;
    let mut w = World::new(t, cap, fresh);
    for (k, r) in w.mu.iter().enumerate() {
        note!(cx, "u{k} = {r:?}");
    }
    for (k, r) in w.mi.iter().enumerate() {
        note!(cx, "i{k} = {r:?}");
    }
    let steps = match t.below(3) {
        0 => t.below(8),
        1 => t.below(30),
        _ => t.below(61),
    };
    for _ in 0..steps {
        w.step(t, cx, true)?;
    }
    cx.nontrivial_if(steps >= 10);
    cx.label_if(w.panics > 0, "with caught panics");
    cx.label_if(cap >= 40 * W, "long numbers");
    Ok(())
}
