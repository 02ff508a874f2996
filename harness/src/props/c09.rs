use super::*;
use crate::run::*;
use std::fmt::{self, Display, Formatter, Write};

pub static PROP: Prop = Prop {
    case: case,
    rule: "(value, radix or trait, flags) with values made from digit strings (blocks of zeros, top digits, random) of lengths around digit-group and chunk boundaries, or from word patterns; oracle: reference digits passed through std's own Formatter::pad_integral with the same flags; non-trivial: more digits than fit in a word, or a width that pads",
    quick: 60_000,
    fixed: Some(fixed),
};

#[path = "c09_digits.rs"]
mod digits;
use digits::*;

/// Forwards to one formatting trait, so that every flag combination is written only once.
struct Via<'a, T>(&'a T, u8);
impl<T> Display for Via<'_, T>
where
    T: fmt::Display + fmt::Debug + fmt::Binary + fmt::Octal + fmt::LowerHex + fmt::UpperHex,
{
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self.1 {
            0 => fmt::Display::fmt(self.0, f),
            1 => fmt::Debug::fmt(self.0, f),
            2 => fmt::Binary::fmt(self.0, f),
            3 => fmt::Octal::fmt(self.0, f),
            4 => fmt::LowerHex::fmt(self.0, f),
            _ => fmt::UpperHex::fmt(self.0, f),
        }
    }
}

enum Subject<'a> {
    U(&'a UBig, u8),
    I(&'a IBig, u8),
    UR(&'a UBig, u32),
    IR(&'a IBig, u32),
    /// What std does with these digits.
    Model { neg: bool, prefix: &'static str, lower: &'a str, upper: &'a str },
}
impl Display for Subject<'_> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self {
            Subject::U(x, k) => Via(*x, *k).fmt(f),
            Subject::I(x, k) => Via(*x, *k).fmt(f),
            Subject::UR(x, r) => x.in_radix(*r).fmt(f),
            Subject::IR(x, r) => x.in_radix(*r).fmt(f),
            Subject::Model { neg, prefix, lower, upper } => f.pad_integral(!neg, prefix, if f.alternate() { upper } else { lower }),
        }
    }
}

macro_rules! specs {
    ($x:expr, $n:expr, $w:expr; $($group:tt)*) => {{
        let mut k = 0;
        specs!(@groups $x, $n, $w, k; $($group)*);
        let _ = k;
        unreachable!()
    }};
    (@groups $x:expr, $n:expr, $w:expr, $k:ident; $($fill:literal)*) => {
        $(specs!(@one $x, $n, $w, $k; $fill "<"); specs!(@one $x, $n, $w, $k; $fill "^"); specs!(@one $x, $n, $w, $k; $fill ">");)*
        specs!(@one $x, $n, $w, $k; "" "");
        specs!(@one $x, $n, $w, $k; "" "<");
        specs!(@one $x, $n, $w, $k; "" "^");
        specs!(@one $x, $n, $w, $k; "" ">");
    };
    (@one $x:expr, $n:expr, $w:expr, $k:ident; $fill:literal $align:literal) => {
        if $n < $k + 8 {
            return match $n - $k {
                0 => format!(concat!("{:", $fill, $align, "w$}"), $x, w = $w),
                1 => format!(concat!("{:", $fill, $align, "+w$}"), $x, w = $w),
                2 => format!(concat!("{:", $fill, $align, "#w$}"), $x, w = $w),
                3 => format!(concat!("{:", $fill, $align, "+#w$}"), $x, w = $w),
                4 => format!(concat!("{:", $fill, $align, "0w$}"), $x, w = $w),
                5 => format!(concat!("{:", $fill, $align, "+0w$.4"  , "}"), $x, w = $w),
                6 => format!(concat!("{:", $fill, $align, "#0w$}"), $x, w = $w),
                _ => format!(concat!("{:", $fill, $align, "+#0w$}"), $x, w = $w),
            };
        }
        $k += 8;
    };
}

/// (11 fills * 3 alignments + 4 without a fill) * 8 flags
const SPECS: usize = (11 * 3 + 4) * 8;
/// Formats with the n-th combination of fill/alignment, sign, # and 0 (precision has no meaning for integers).
fn with_width(x: &Subject, n: usize, w: usize) -> String {
    specs!(x, n, w; "*" "€" "0" "-" "+" "#" " " "x" "1" "\u{1F600}" "<")
}
fn without_width(x: &Subject, n: usize) -> String {
    match n % 8 {
        0 => format!("{x}"),
        1 => format!("{x:+}"),
        2 => format!("{x:#}"),
        3 => format!("{x:+#}"),
        4 => format!("{x:0}"),
        5 => format!("{x:+0}"),
        6 => format!("{x:*^}"),
        _ => format!("{x:<+#0}"),
    }
}

/// A stream that fails after some bytes.
struct Failing(usize);
impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let max_words = if t.one_in(60) { 600 } else if t.one_in(6) { 150 } else { 40 };
    let kind = t.below(8) as u8;
    let radix = match kind {
        0 | 1 => 10,
        2 => 2,
        3 => 8,
        4 | 5 => 16,
        _ => 2 + t.below(35) as u32,
    };
    let (mag, digits) = match t.below(6) {
        0 => {
            let m = nat(t, max_words.min(60));
            let d = m.to_radix(radix);
            (m, d)
        }
        1 => {
            // powers of the radix, give or take one
            let g = digits_per_word(radix);
            let k = match t.below(3) {
                0 => t.below(3 * g),
                1 => g * t.below(max_words.min(70)) + t.below(2),
                _ => t.below(max_words.min(100) * g),
            };
            let mut ds = vec![1];
            ds.resize(k + 1, 0);
            let m = Nat::from_digits(&ds, radix);
            let m = match t.below(3) {
                0 => m,
                1 => m.sub(&Nat::one()),
                _ => m.add(&Nat::one()),
            };
            let d = m.to_radix(radix);
            (m, d)
        }
        _ => {
            let ds = digit_string(t, radix, max_words);
            (Nat::from_digits(&ds, radix), text(&ds))
        }
    };
    if mag.bit_len() > HARD_MAX_BITS {
        return Ok(());
    }
    let neg = t.one_in(3) && !mag.is_zero();
    note!(cx, "kind={kind} radix={radix} neg={neg} {} digits: {mag:?}", digits.len());
    let words = mag.bit_len().div_ceil(W);
    cx.label_if(words > 16 && !radix.is_power_of_two(), "recursive split");
    cx.label_if(words > 1 && words <= 16, "several words");
    let (u, i) = (ub(&mag), ib(&Int::new(neg, mag.clone())));
    let upper = digits.to_uppercase();
    let model = Subject::Model {
        neg,
        prefix: match kind {
            2 => "0b",
            3 => "0o",
            4 | 5 => "0x",
            _ => "",
        },
        lower: if kind == 5 { &upper } else { &digits },
        upper: if kind >= 5 { &upper } else { &digits },
    };
    let both_i = Subject::I(&i, kind);
    let both_ir = Subject::IR(&i, radix);
    let both_u = Subject::U(&u, kind);
    let both_ur = Subject::UR(&u, radix);
    let mut subjects: Vec<&Subject> = Vec::new();
    if kind >= 6 {
        subjects.push(&both_ir);
        if !neg {
            subjects.push(&both_ur);
        }
    } else {
        subjects.push(&both_i);
        if !neg {
            subjects.push(&both_u);
        }
    }
    // without any width
    let n = t.below(8);
    let want = without_width(&model, n);
    for s in &subjects {
        let got = without_width(s, n);
        ensure!(got == want, "kind {kind} radix {radix} flags #{n}: printed {:.300} want {:.300} (value {mag:?}, negative {neg})", got, want);
    }
    let len = digits.len();
    let w = match t.below(6) {
        0 => len + t.below(6),
        1 => len.saturating_sub(t.below(3)),
        2 => t.below(4),
        3 if t.one_in(30) => {
            let extra = *t.pick(&[300, 3000, 70_000]);
            len + t.below(extra)
        }
        3 => len + t.below(40),
        _ => len + 3 + t.below(3),
    };
    let w = w.min(65_535);
    cx.label_if(w > len + 255, "more than 255 fill characters");
    let n = t.below(SPECS);
    let want = with_width(&model, n, w);
    cx.nontrivial_if(words > 1 || want.chars().count() > len + 3);
    for s in &subjects {
        let got = with_width(s, n, w);
        ensure!(got == want, "kind {kind} radix {radix} spec #{n} width {w}: printed {:.300?} want {:.300?} (value {mag:?}, negative {neg})", got, want);
    }
    if t.one_in(8) {
        let room = t.below(want.len() + 1);
        for s in &subjects {
            let mut out = Failing(room);
            let r = write!(out, "{s:>+#w$}");
            let full = format!("{s:>+#w$}").len();
            ensure!(r.is_err() == (room < full), "stream with room for {room} of {full} bytes: write gave {r:?}");
        }
        cx.label("stream that fails once");
        for s in &subjects {
            error_comes_back(t, "one failing call", |o| write!(o, "{s:+#w$}"))?;
            error_comes_back(t, "one failing call, zeros", |o| write!(o, "{s:+#0w$}"))?;
            error_comes_back(t, "one failing call, no width", |o| write!(o, "{s}"))?;
        }
    }
    Ok(())
}

/// Texts of tens of thousands of digits.
fn long_texts(n: &mut u64) -> CaseResult {
    let mut t = Tape::random(9);
    for radix in [2u32, 3, 10, 16, 32, 36] {
        for len in [10_000usize, 40_000, 65_535, 65_537, 70_001] {
            if len * 6 > HARD_MAX_BITS {
                continue;
            }
            let mut ds: Vec<u32> = (0..len).map(|_| t.below(radix as usize) as u32).collect();
            ds[0] = 1;
            if t.flag() {
                let (a, b) = (t.below(len), t.below(len));
                for d in &mut ds[a.min(b).max(1)..a.max(b).max(1)] {
                    *d = 0;
                }
            }
            let (m, want) = (Nat::from_digits(&ds, radix), text(&ds));
            let got = ub(&m).in_radix(radix).to_string();
            ensure!(
                got == want,
                "{len} digits in radix {radix}: printed {}, first difference at {:?}",
                got.len(),
                got.bytes().zip(want.bytes()).position(|(a, b)| a != b)
            );
            let x = ib(&Int::new(true, m.clone()));
            // Widths below and above the length, filled with spaces or zeros.
            let width = [60_000usize, 65_530, 65_535][t.below(3)];
            let x = x.in_radix(radix);
            let printed = [
                (format!("{x}"), 0, '*'),
                (format!("{x:width$}"), width, ' '),
                (format!("{x:0width$}"), width, '0'),
                (format!("{x:*^width$}"), width, '*'),
            ];
            for (got, width, fill) in printed {
                let pad = width.saturating_sub(len + 1);
                let (left, right) = match fill {
                    '*' => (pad / 2, pad - pad / 2),
                    _ => (pad, 0),
                };
                let fills = |k: usize| fill.to_string().repeat(k);
                let full = match fill {
                    '0' => format!("-{}{want}", fills(left)),
                    _ => format!("{}-{want}{}", fills(left), fills(right)),
                };
                ensure!(
                    got == full,
                    "minus {len} digits in radix {radix}, width {width} filled with {fill:?}: printed {} characters, want {}",
                    got.len(),
                    full.len()
                );
            }
            let got = match radix {
                2 => format!("{x:b}", x = ib(&Int::new(true, m))),
                10 => format!("{:060000}", ib(&Int::new(true, m))).replacen(&"0".repeat(60_000usize.saturating_sub(len + 1)), "", 1),
                16 => format!("{x:x}", x = ib(&Int::new(true, m))),
                _ => format!("-{want}"),
            };
            ensure!(got.strip_prefix('-') == Some(&want[..]), "minus {len} digits in radix {radix}: printed {}", got.len());
            *n += 1;
        }
    }
    Ok(())
}

fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    cx.label("invalid radix panics");
    for radix in [0u32, 1, 37, 38, 64, 256, 10 + (1 << 16), u32::MAX, u32::MAX - 1] {
        for m in [Nat::zero(), Nat::one(), Nat::pow2(200)] {
            let (u, i) = (ub(&m), ib(&Int::new(true, m.clone())));
            *n += 2;
            must_panic(&format!("in_radix({radix})"), || drop(u.in_radix(radix)))?;
            must_panic(&format!("in_radix({radix})"), || drop(i.in_radix(radix)))?;
        }
    }
    long_texts(n)?;
    // Every radix, powers r^k - 1, r^k, r^k + 1 for all small k.
    for radix in 2..=36u32 {
        for k in 0..=3 * digits_per_word(radix) {
            let p = Nat::from_u64(radix as u64).pow(k);
            for m in [p.sub(&Nat::one()), p.clone(), p.add(&Nat::one())] {
                *n += 1;
                let (got, want) = (ub(&m).in_radix(radix).to_string(), m.to_radix(radix));
                ensure!(got == want, "radix {radix}: printed {got}, want {want}");
            }
        }
    }
    Ok(())
}
