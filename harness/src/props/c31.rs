//! Allocations that fail. Each is made to fail in a child process: where Rust itself gives up the process is aborted.
use super::*;
use crate::galloc::{allocations, fail_after, live, take_error};
use crate::run::*;
use ibig::ops::{DivRem, DivRemEuclid, NextPowerOfTwo};
use ibig::{Modulo, ModuloRing};
use std::convert::TryFrom;

pub static PROP: Prop = Prop {
    case: case,
    rule: "an operation (one of 48: arithmetic, division, gcd, powers, shifts, bits, clones, in-place changes, text, bytes, rings) on operands of 1 to 600 words, done once to count its requests for memory and again in a child process for up to 4 of them, in which that request, or that one and all later ones, fails; non-trivial: the operation requests memory",
    quick: 3_000,
    fixed: None,
};

struct Env<'r> {
    a: UBig,
    b: UBig,
    i: IBig,
    j: IBig,
    ring: &'r ModuloRing,
    m: Modulo<'r>,
    n: Modulo<'r>,
    text: String,
    radix: u32,
    bytes: Vec<u8>,
    k: usize,
}

/// Operands changed in place.
struct Slots<'r> {
    x: UBig,
    y: IBig,
    z: Modulo<'r>,
}

#[derive(Default)]
struct Val<'r> {
    u: Option<UBig>,
    v: Option<UBig>,
    i: Option<IBig>,
    j: Option<IBig>,
    m: Option<Modulo<'r>>,
    s: Option<String>,
    bytes: Option<Vec<u8>>,
}

fn u<'r>(x: UBig) -> Val<'r> {
    Val { u: Some(x), ..Val::default() }
}
fn i<'r>(x: IBig) -> Val<'r> {
    Val { i: Some(x), ..Val::default() }
}
fn m(x: Modulo) -> Val {
    Val { m: Some(x), ..Val::default() }
}
fn text<'r>(x: String) -> Val<'r> {
    Val { s: Some(x), ..Val::default() }
}

const CODES: usize = 48;

fn perform<'r>(code: usize, e: &Env<'r>, s: &mut Slots<'r>) -> Val<'r> {
    let none = Val::default();
    let (a, b, k) = (&e.a, &e.b, e.k);
    match code {
        0 => u(a + b),
        1 | 45 => u(a * b),
        2 => u(a / b),
        3 => u(a % b),
        4 => {
            let (q, r) = a.div_rem(b);
            Val { u: Some(q), v: Some(r), ..none }
        }
        5 => {
            let (q, r) = (&e.i).div_rem_euclid(&e.j);
            Val { i: Some(q), j: Some(r), ..none }
        }
        6 => u(a.gcd(b)),
        7 => {
            let (g, x, y) = a.extended_gcd(b);
            Val { u: Some(g), i: Some(x), j: Some(y), ..none }
        }
        8 => u(a.pow(k % 6)),
        9 => u(a << k),
        10 => i(&e.i >> k),
        11 => i(&e.i & &e.j),
        12 => i(&e.i | &e.j),
        13 => i(&e.i ^ &e.j),
        14 => i(!&e.i),
        15 => u(a.clone()),
        16 => {
            s.x.clone_from(b);
            none
        }
        17 => {
            s.x += b;
            none
        }
        18 | 46 => {
            s.x *= b;
            none
        }
        19 => {
            s.x /= b;
            none
        }
        20 => {
            s.x <<= k;
            none
        }
        21 => {
            s.x.set_bit(k);
            none
        }
        22 => {
            s.y -= &e.j;
            none
        }
        23 => {
            s.y *= &e.j;
            none
        }
        24 => text(e.i.in_radix(e.radix).to_string()),
        25 => text(format!("{a:#x}")),
        26 => u(UBig::from_str_radix(&e.text, e.radix).unwrap()),
        27 => u(UBig::from_le_bytes(&e.bytes)),
        28 => Val { bytes: Some(a.to_be_bytes()), ..none },
        29 => u(UBig::from(u128::MAX >> (k % 128))),
        30 => u(ModuloRing::new(b).modulus()),
        31 => m(e.ring.from(a)),
        32 => m(&e.m * &e.n),
        33 => m(e.m.pow(&UBig::from(k))),
        34 => match e.m.inverse() {
            Some(x) => m(x),
            None => none,
        },
        35 => {
            s.z *= &e.n;
            none
        }
        36 => {
            s.z.clone_from(&e.n);
            none
        }
        37 => u(e.m.residue()),
        38 => u(std::mem::take(&mut s.x).next_power_of_two()),
        39 => u(a * 12345u32),
        40 => i(&e.i - &e.j),
        41 => text(format!("{} {}", e.ring, e.m)),
        42 => m(&e.m + &e.n),
        43 => {
            s.x -= b;
            none
        }
        44 => m(e.ring.from(&e.i)),
        47 => {
            s.y %= &e.j;
            none
        }
        _ => u(a - b),
    }
}

/// Plain data: what a result is.
#[derive(PartialEq, Debug)]
struct Plain(Vec<Option<Vec<u8>>>, [Option<Int>; 2]);

fn plain(v: &Val, s: &Slots) -> Plain {
    Plain(
        vec![
            v.u.as_ref().map(|x| x.to_le_bytes()),
            v.v.as_ref().map(|x| x.to_le_bytes()),
            v.m.as_ref().map(|x| x.residue().to_le_bytes()),
            v.s.as_ref().map(|x| x.clone().into_bytes()),
            v.bytes.clone(),
            Some(s.x.to_le_bytes()),
            Some(ni(&s.y).hex().into_bytes()),
            Some(s.z.residue().to_le_bytes()),
        ],
        [v.i.as_ref().map(ni), v.j.as_ref().map(ni)],
    )
}

fn slots<'r>(e: &Env<'r>) -> Slots<'r> {
    Slots { x: e.a.clone(), y: e.i.clone(), z: e.m.clone() }
}

/// The result, or None for a panic. `fail`: (number of requests that succeed, whether all later ones fail too).
fn run_once(code: usize, e: &Env, fail: Option<(u64, bool)>) -> (Option<Plain>, u64, CaseResult) {
    let mut s = slots(e);
    let n = allocations();
    if let Some((k, all)) = fail {
        fail_after(k, all);
    }
    let r = catch(|| perform(code, e, &mut s));
    fail_after(u64::MAX, false);
    let n = allocations() - n;
    match r {
        Ok(v) => (Some(plain(&v, &s)), n, Ok(())),
        Err(message) => {
            drop(message);
            // whatever was being changed has some value
            let ok = (|| {
                same("UBig after the panic", &s.x, &nu(&s.x))?;
                same("IBig after the panic", &s.y, &ni(&s.y))?;
                ensure!(&s.z - &s.z == s.z.ring_zero(e), "element after the panic: x - x != 0");
                Ok(())
            })();
            (None, n, ok)
        }
    }
}

trait RingZero<'r> {
    fn ring_zero(&self, e: &Env<'r>) -> Modulo<'r>;
}
impl<'r> RingZero<'r> for Modulo<'r> {
    fn ring_zero(&self, e: &Env<'r>) -> Modulo<'r> {
        e.ring.from(0u8)
    }
}

/// What the child found: a message, or None if all is right.
fn child(code: usize, e: &Env, operands: &[Plain], want: &Option<Plain>, fail: (u64, bool)) -> (CaseResult, bool) {
    take_error();
    let before = live();
    let (got, _, valid) = run_once(code, e, Some(fail));
    let panicked = got.is_none();
    let verdict = (|| {
        valid?;
        if let Some(got) = &got {
            ensure!(Some(got) == want.as_ref(), "the result is wrong: {got:?}, want {want:?}");
        }
        drop(got);
        let after = live();
        ensure!(after == before, "{} bytes in {} blocks still live", after.0 - before.0, after.1 - before.1);
        ensure!(operand_values(e) == operands, "a borrowed operand changed");
        let (again, _, _) = run_once(code, e, None);
        ensure!(again == *want, "done again with enough memory: {again:?}, want {want:?}");
        crate::galloc::flush();
        ensure_none(take_error())
    })();
    (verdict, panicked)
}

fn ensure_none(e: Option<&'static str>) -> CaseResult {
    match e {
        None => Ok(()),
        Some(m) => Err(m.into()),
    }
}

fn operand_values(e: &Env) -> Vec<Plain> {
    let s = Slots { x: e.b.clone(), y: e.j.clone(), z: e.n.clone() };
    vec![
        plain(&u(e.a.clone()), &s),
        plain(&i(e.i.clone()), &s),
        plain(&m(e.m.clone()), &s),
    ]
}

const FINE: i32 = 40;
const FINE_PANIC: i32 = 41;
const WRONG: i32 = 42;

/// How the operation ends when memory runs out: Ok(what happened).
fn in_child(code: usize, e: &Env, operands: &[Plain], want: &Option<Plain>, fail: (u64, bool)) -> Result<&'static str, String> {
    unsafe {
        let mut fd = [0; 2];
        let mut pid = -1;
        let mut tries = 0;
        if libc::pipe2(fd.as_mut_ptr(), libc::O_NONBLOCK) == 0 {
            pid = libc::fork();
            while pid < 0 && tries < 500 {
                libc::usleep(20_000);
                tries += 1;
                pid = libc::fork();
            }
        }
        if pid < 0 {
            eprintln!("harness: no child process");
            libc::_exit(9);
        }
        if pid == 0 {
            for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                libc::signal(sig, libc::SIG_DFL);
            }
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            libc::alarm(100);
            libc::dup2(fd[1], 2);
            let (verdict, panicked) = child(code, e, operands, want, fail);
            if let Err(m) = verdict {
                let n = m.len().min(3000);
                libc::write(2, m.as_ptr().cast(), n);
                libc::_exit(WRONG);
            }
            libc::_exit(if panicked { FINE_PANIC } else { FINE });
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) != pid {}
        let mut buf = [0u8; 4096];
        let got = libc::read(fd[0], buf.as_mut_ptr().cast(), buf.len());
        libc::close(fd[0]);
        libc::close(fd[1]);
        let said = String::from_utf8_lossy(&buf[..got.max(0) as usize]).into_owned();
        if libc::WIFEXITED(status) {
            return match libc::WEXITSTATUS(status) {
                FINE => Ok("the result is right all the same"),
                FINE_PANIC => Ok("a panic"),
                WRONG => Err(said),
                other => Err(format!("the process exits with {other}: {said}")),
            };
        }
        let sig = libc::WTERMSIG(status);
        if sig == libc::SIGKILL {
            return Ok("ended from outside");
        }
        // how Rust ends a process whose request for memory was refused
        if sig == libc::SIGABRT && said.contains("memory allocation of") {
            return Ok("an abort");
        }
        Err(format!("the process dies with signal {sig} {}", said.trim()))
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let code = t.below(CODES);
    let long = matches!(code, 1 | 4 | 5 | 18 | 23 | 24 | 26 | 31 | 32 | 45 | 46);
    let quadratic = matches!(code, 6 | 7 | 34);
    let max = *t.pick(&[2usize, 3, 8, 30, 50, 70, if long { 300 } else { 100 }, if quadratic { 40 } else if long { 600 } else { 200 }]);
    let na = nat(t, max);
    // two halves of the time of about the same length, so that scratch memory is needed
    let l = if t.flag() { na.bit_len().div_ceil(W) } else { max };
    let nb = if l == 0 { Nat::one() } else if t.flag() { nat_len(t, l) } else { nat(t, l) };
    let (ia, ibb) = (signed(t, na.clone()), signed(t, nb.clone()));
    let nm = match nat(t, max.min(60)) {
        x if x.is_zero() => Nat::from_u64(97),
        x => x,
    };
    let ring = ModuloRing::new(&ub(&nm));
    let radix = 2 + t.below(35) as u32;
    let e = Env {
        a: ub(&na),
        b: ub(&nb),
        i: ib(&ia),
        j: ib(&ibb),
        ring: &ring,
        m: ring.from(ub(&na)),
        n: ring.from(ub(&nb)),
        text: if code == 26 { na.to_radix(radix) } else { String::from("1") },
        radix,
        bytes: na.to_le_bytes(),
        k: t.below(3000),
    };
    note!(cx, "operation {code} on {na:?} and {nb:?}, modulo {nm:?}, radix {radix}, k {}", e.k);
    let operands = operand_values(&e);
    let (want, n, ok) = run_once(code, &e, None);
    ok?;
    if want.is_none() {
        cx.label("an operation that panics anyway");
    }
    if n == 0 {
        cx.label("no memory requested");
        return Ok(());
    }
    cx.nontrivial();
    for which in 0..n.min(4) {
        let k = match which {
            0 => 0,
            1 => n - 1,
            _ => t.below(n as usize) as u64,
        };
        let all = t.below(4) == 3;
        let what = format!("operation {code}: request {} of {n} fails{}", k + 1, if all { ", and all after it" } else { "" });
        note!(cx, "{what}");
        match in_child(code, &e, &operands, &want, (k, all)) {
            Ok(label) => {
                cx.label(label);
                note!(cx, "... {label}");
            }
            Err(m) => return Err(format!("{what}: {m}")),
        }
    }
    Ok(())
}
