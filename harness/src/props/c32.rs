//! The growth of the stack used: the operations of C29, and a few more, with the stack painted before each.
use super::c29::{make, odd_radix, shape, Args, Op, Shape, OPS};
use super::*;
use crate::run::*;
use ibig::ModuloRing;
use std::hint::black_box;

pub static PROP: Prop = Prop {
    case: case,
    rule: "one operation on operands of n (300 to 1200) words and on operands of the same shape 8 and 64 times as long (2 and 4 times for quadratic work), each on a painted stack of its own; from 8n to 64n the stack used grows by at most 3 times what it grew from n to 8n, plus 4000 bytes, and it stays below 64 KiB; non-trivial: the shape is not plainly random words of equal length",
    quick: 400,
    fixed: None,
};

const PAINTED: usize = 1 << 20;
const PAINT: u64 = 0x5ac3_5ac3_91e6_91e6;

struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

/// The stack taken by f below its caller, in bytes (at most PAINTED).
pub fn stack<R>(f: impl FnOnce() -> R) -> u64 {
    let job = Moved(f);
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, move || {
                let job = job;
                Moved(painted(job.0))
            })
            .expect("harness: no thread")
            .join()
    });
    match r {
        Ok(x) => x.0.0,
        Err(e) => std::panic::resume_unwind(e),
    }
}

#[inline(never)]
fn painted<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let mark = 0u64;
    let base = (black_box(&mark) as *const u64 as usize - 1024) & !63;
    let mut p = base;
    // No call in between that could have its frame there.
    while p > base - PAINTED {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(PAINT) };
    }
    let r = call(f);
    let mut p = base - PAINTED;
    while p < base && unsafe { (p as *const u64).read_volatile() } == PAINT {
        p += 8;
    }
    ((base - p) as u64, r)
}

#[inline(never)]
fn call<R>(f: impl FnOnce() -> R) -> R {
    black_box(f())
}

/// Of quadratic cost: shorter operands.
const SLOW: &[Op] = &[
    Op { name: "gcd", linear: false, run: |a, b, _| stack(|| a.gcd(b)) },
    Op { name: "extended gcd", linear: false, run: |a, b, _| stack(|| a.extended_gcd(b)) },
    Op { name: "inverse", linear: false, run: |a, b, _| { let r = ModuloRing::new(a); let x = r.from(b); stack(|| x.inverse().is_some()) } },
    Op { name: "modular power, long exponent", linear: false, run: |a, b, _| { let r = ModuloRing::new(&(a >> (a.bit_len() / 2))); let x = r.from(b); stack(|| black_box(x.pow(&(b >> (b.bit_len() / 2))).residue())) } },
];

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let slow = t.one_in(12);
    let op = if slow { t.pick(SLOW) } else { t.pick(OPS) };
    if op.name.starts_with("n times") {
        // single operations are in the list
        return Ok(());
    }
    let n = if slow { 100 + t.below(100) } else { 300 + t.below(900) };
    // 0: the other operand stays as short as it is
    let ratio = *t.pick(&[64, 64, 32, 10, 3, 0, 0]);
    let short = *t.pick(&[1, 2, 3, 10, 24, 30, 100, 200]);
    let (sa, sb) = (shape(t), shape(t));
    let (radix, small, part) = (2 + t.below(35) as u32, t.raw(), t.below(9));
    note!(cx, "{}: n = {n} words, other operand {ratio}/64 of it (0: {short} words), shapes {sa:?} {sb:?}, radix {radix}, small {small}, part {part}", op.name);
    let run = |n: usize| {
        let (a, b) = (make(&sa, n), make(&sb, if ratio == 0 { short } else { n * ratio / 64 }));
        (op.run)(&a, &b, &Args { n, radix, small, part })
    };
    let (f, g) = if slow { (2, 4) } else if op.linear || op.name == "a * b" { (8, 64) } else { (6, 36) };
    let (s1, s2, s3) = (run(n), run(f * n), run(g * n));
    cx.nontrivial_if(sa.segments.len() > 1 || ratio != 64);
    cx.label(op.name);
    note!(cx, "stack {s1}, {s2}, {s3} bytes");
    if std::env::var_os("C32_SIZES").is_some() {
        println!("STACK {} {s1} {s2} {s3} {}", op.name.replace(' ', "_"), s3 as i64 - s2 as i64 - 3 * (s2 as i64 - s1 as i64).max(0));
    }
    ensure!(s3 <= 1 << 16, "{}: {s3} bytes of stack for operands of {} words", op.name, g * n);
    ensure!(
        s3 <= s2 + 3 * s2.saturating_sub(s1) + 4000,
        "{}: {s1}, {s2}, {s3} bytes of stack for operands of {n}, {} and {} words",
        op.name,
        f * n,
        g * n
    );
    Ok(())
}
