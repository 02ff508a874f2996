#![allow(unexpected_cfgs, dead_code)]

#[macro_use]
mod run;
#[cfg(all(any(feature = "c25", feature = "c31"), not(plain_alloc)))]
mod galloc;
#[cfg(all(any(feature = "c25", feature = "c31"), not(plain_alloc)))]
#[global_allocator]
static ALLOCATOR: galloc::Guard = galloc::Guard;

#[cfg(all(feature = "c28", not(any(feature = "c25", feature = "c31"))))]
#[global_allocator]
static ALLOCATOR: props::c28::Watch = props::c28::Watch;

#[cfg(counted)]
mod counted;
#[cfg(all(counted, not(any(feature = "c25", feature = "c31", feature = "c28"))))]
#[global_allocator]
static ALLOCATOR: counted::Counting = counted::Counting;
#[cfg(not(any(feature = "c25", feature = "c31", feature = "c28", counted, plain_alloc, guided)))]
mod dirty;
#[cfg(not(any(feature = "c25", feature = "c31", feature = "c28", counted, plain_alloc, guided)))]
#[global_allocator]
static ALLOCATOR: dirty::Dirty = dirty::Dirty;
mod gen;
#[cfg(guided)]
mod guided;
mod num;
mod props;
mod tape;

use std::collections::HashMap;

fn main() {
    let mut a: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().expect("option value");
        a.insert(k.trim_start_matches("--").to_string(), v);
    }
    let num = |k: &str, d: f64| a.get(k).map_or(d, |v| v.parse().expect(k));
    let id = a.get("prop").expect("--prop").clone();
    if id == "ORACLE" {
        oracle();
        return;
    }
    let prop = props::lookup(&id).expect("unknown property");
    // An abort for want of memory would walk and name the whole stack.
    #[cfg(feature = "c31")]
    std::env::set_var("RUST_BACKTRACE", "0");
    run::silence_panics();
    if a.contains_key("plain") {
        // One case after another, without handlers and threads: for interpreters.
        let (seed, first) = (num("seed", 1.0) as u64, num("first", 0.0) as u64);
        for case in first..first + num("plain", 1.0) as u64 {
            println!("CASE {case}");
            let mut cx = run::Cx::default();
            if let Err(m) = run::run_tape(prop, &mut tape::Tape::random(run::case_seed(seed, "", case)), &mut cx) {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
            if let Some(t) = cx.transcript {
                println!("HASH {case} {:016x}", run::text_hash(&t));
                if a.contains_key("show") {
                    println!("{t}");
                }
            }
        }
        return;
    }
    run::install_crash_handler();
    if let Some(tape) = a.get("tape") {
        let tape: Vec<u64> = tape.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (notes, _) = run::describe(prop, &tape);
        // The verdict is that of a run without notes: notes take memory.
        let mut t = tape::Tape::replay(tape);
        let r = run::run_tape(prop, &mut t, &mut run::Cx::default());
        for n in notes {
            println!("  {n}");
        }
        match r {
            Ok(()) => println!("the case passes"),
            Err(m) => {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    if a.contains_key("serve") {
        run::limit_memory(6000);
        run::serve(prop);
        return;
    }
    let mb = num("memory-mb", 6000.0) as u64;
    if mb > 0 {
        run::limit_memory(mb);
    }
    let scale = num("scale", 1.0);
    let cases = a.get("cases").map_or((prop.quick as f64 * scale) as u64, |v| v.parse().unwrap());
    let o = run::Opts {
        id,
        config: a.get("config").cloned().unwrap_or_else(|| "native".into()),
        seed: a.get("seed").map_or(1, |v| v.parse().unwrap()),
        cases,
        first_case: num("first", 0.0) as u64,
        secs: num("secs", 60.0),
        threads: num("threads", 1.0) as usize,
        hang_ms: num("hang-ms", 30000.0) as u64,
        shrink_secs: num("shrink-secs", 8.0),
        transcripts: a.get("transcripts").cloned(),
        tape_file: a.get("tape-file").cloned(),
    };
    std::process::exit(run::run(prop, &o));
}

/// Prints reference computations for an independent (Python) cross-check of the oracle itself.
fn oracle() {
    use num::{Int, Nat};
    let mut t = tape::Tape::random(12345);
    for i in 0..3000 {
        let max = [4, 12, 60][i % 3];
        let a = gen::nat(&mut t, max);
        let b = gen::partner(&mut t, &a, max);
        let (ia, ib) = (gen::signed(&mut t, a.clone()), gen::signed(&mut t, b.clone()));
        let s = t.below(300);
        let f = |x: &Int| x.to_radix(16);
        let n = |x: &Nat| x.to_radix(16);
        println!("add {} {} {}", f(&ia), f(&ib), f(&ia.add(&ib)));
        println!("sub {} {} {}", f(&ia), f(&ib), f(&ia.sub(&ib)));
        println!("mul {} {} {}", f(&ia), f(&ib), f(&ia.mul(&ib)));
        println!("and {} {} {}", f(&ia), f(&ib), f(&ia.bitop(&ib, |x, y| x & y)));
        println!("or {} {} {}", f(&ia), f(&ib), f(&ia.bitop(&ib, |x, y| x | y)));
        println!("xor {} {} {}", f(&ia), f(&ib), f(&ia.bitop(&ib, |x, y| x ^ y)));
        println!("shl {} {:x} {}", f(&ia), s, f(&ia.shl(s)));
        println!("shr {} {:x} {}", f(&ia), s, f(&ia.shr(s)));
        println!("gcd {} {} {}", f(&ia), f(&ib), n(&a.gcd(&b)));
        println!("bits {} 0 {:x}", n(&a), a.bit_len());
        println!("low {} {:x} {}", n(&a), s, n(&a.low_bits(s)));
        if !b.is_zero() {
            let (q, r) = ia.div_rem_trunc(&ib);
            println!("tdiv {} {} {}", f(&ia), f(&ib), f(&q));
            println!("trem {} {} {}", f(&ia), f(&ib), f(&r));
            let (q, r) = ia.div_rem_euclid(&ib);
            println!("ediv {} {} {}", f(&ia), f(&ib), f(&q));
            println!("erem {} {} {}", f(&ia), f(&ib), f(&r));
            let e = gen::nat(&mut t, 1);
            println!("powmod {},{} {} {}", n(&a), n(&e), n(&b), n(&a.pow_mod(&e, &b)));
        }
        let radix = 2 + t.below(35) as u32;
        let text = a.to_radix(radix);
        println!("radix {} {:x} {}", n(&a), radix, text);
        let ds: Vec<u32> = text.chars().map(|c| c.to_digit(36).unwrap()).collect();
        assert!(Nat::from_digits(&ds, radix) == a);
    }
}
