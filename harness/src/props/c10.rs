use super::*;
use crate::run::*;
use ibig::error::ParseError;
use std::str::FromStr;

pub static PROP: Prop = Prop {
    case: case,
    rule: "numerals (patterned digits, lengths around digit-group and divide-and-conquer boundaries, mixed case, leading zeros, signs, prefixes), the same with one mutated character, and free strings over an alphabet of digits, signs, prefixes, underscore, space, NUL and non-ASCII letters and digits; oracle: reference grammar and value; non-trivial: two or more digits, or a rejected string",
    quick: 60_000,
    fixed: Some(fixed),
};

#[path = "c09_digits.rs"]
mod digits;
use digits::*;

type Want = Result<Int, ParseError>;

fn grammar(s: &str, radix: Option<u32>, signed: bool) -> Want {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut neg = false;
    if b.first() == Some(&'+') || (signed && b.first() == Some(&'-')) {
        neg = b[0] == '-';
        i = 1;
    }
    let radix = match radix {
        Some(r) => r,
        None => {
            if b.get(i) == Some(&'0') && matches!(b.get(i + 1), Some('b' | 'o' | 'x')) {
                i += 2;
                match b[i - 1] {
                    'b' => 2,
                    'o' => 8,
                    _ => 16,
                }
            } else {
                10
            }
        }
    };
    if i == b.len() {
        return Err(ParseError::NoDigits);
    }
    let mut ds = Vec::new();
    for &c in &b[i..] {
        let d = match c {
            '0'..='9' => c as u32 - '0' as u32,
            'a'..='z' => c as u32 - 'a' as u32 + 10,
            'A'..='Z' => c as u32 - 'A' as u32 + 10,
            _ => 99,
        };
        if d >= radix {
            return Err(ParseError::InvalidDigit);
        }
        ds.push(d);
    }
    Ok(Int::new(neg, Nat::from_digits(&ds, radix)))
}

fn check_string(s: &str, radix: u32, cx: &mut Cx) -> CaseResult {
    let show = |s: &str| s.chars().take(200).collect::<String>();
    let cmp = |what: &str, got: Want, want: Want| -> CaseResult {
        ensure!(got == want, "{what} of {:?} (radix {radix}): got {got:?}, want {want:?}", show(s));
        Ok(())
    };
    let u = |r: Result<UBig, ParseError>| r.map(|x| Int::pos(nu(&x)));
    let i = |r: Result<IBig, ParseError>| r.map(|x| ni(&x));
    let (wu, wi) = (grammar(s, Some(radix), false), grammar(s, Some(radix), true));
    cx.label_if(wi == Err(ParseError::NoDigits), "NoDigits");
    cx.label_if(wi == Err(ParseError::InvalidDigit), "InvalidDigit");
    cx.label_if(wi.is_ok(), "accepted");
    cmp("UBig::from_str_radix", u(UBig::from_str_radix(s, radix)), wu.clone())?;
    cmp("IBig::from_str_radix", i(IBig::from_str_radix(s, radix)), wi.clone())?;
    if let Ok(w) = &wi {
        let got = IBig::from_str_radix(s, radix).unwrap();
        same("IBig::from_str_radix", &got, w)?;
    }
    if let Ok(w) = &wu {
        let got = UBig::from_str_radix(s, radix).unwrap();
        same("UBig::from_str_radix", &got, &w.mag)?;
    }
    let (wu, wi) = if radix == 10 { (wu, wi) } else { (grammar(s, Some(10), false), grammar(s, Some(10), true)) };
    cmp("UBig::from_str", u(UBig::from_str(s)), wu)?;
    cmp("IBig::from_str", i(s.parse::<IBig>()), wi)?;
    cmp("UBig::from_str_with_radix_prefix", u(UBig::from_str_with_radix_prefix(s)), grammar(s, None, false))?;
    cmp("IBig::from_str_with_radix_prefix", i(IBig::from_str_with_radix_prefix(s)), grammar(s, None, true))?;
    Ok(())
}

const ALPHABET: &[char] = &[
    '0', '1', '2', '7', '8', '9', 'a', 'b', 'f', 'o', 'x', 'z', 'A', 'B', 'F', 'O', 'X', 'Z', '+', '-', '_', ' ', '.', ',', '/', ':', '@', '[',
    '`', '{', '\0', '\n', '٣', 'é', '０', 'ａ', '−', '\u{7f}', 'g', 'y', 'Y', 'e',
];

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let mode = t.weighted(&[5, 3, 2, 2]);
    let radix = match t.below(6) {
        0 => 10,
        1 => *t.pick(&[2, 8, 16, 32, 4, 36]),
        _ => 2 + t.below(35) as u32,
    };
    if mode == 2 {
        let n = t.below(9);
        let s: String = (0..n).map(|_| *t.pick(ALPHABET)).collect();
        note!(cx, "free string {s:?} radix {radix}");
        cx.nontrivial_if(n > 0);
        return check_string(&s, radix, cx);
    }
    let max_words = if t.one_in(80) { 1200 } else if t.one_in(8) { 150 } else { 30 };
    let cap = HARD_MAX_BITS / 6;
    let mut ds = digit_string(t, radix, max_words);
    ds.truncate(cap);
    let mut s = text(&ds);
    match t.below(4) {
        0 => s = s.to_uppercase(),
        1 => {
            let mut r = t.sub();
            s = s.chars().map(|c| if r.next() & 1 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        }
        _ => {}
    }
    if t.one_in(3) {
        let z = if t.one_in(6) { t.below(400) } else { t.below(25) };
        s.insert_str(0, &"0".repeat(z));
    }
    if t.one_in(4) {
        s.insert_str(0, *t.pick(&["0x", "0b", "0o", "0X", "0B", "x", "0"]));
    }
    if t.flag() {
        s.insert_str(0, *t.pick(&["+", "-", "+-", "--", "-+", "++", " ", "−"]));
    }
    if mode == 1 {
        // one character wrong somewhere
        let mut cs: Vec<char> = s.chars().collect();
        let pos = match t.below(4) {
            0 => 0,
            1 => cs.len() - 1,
            _ => t.below(cs.len()),
        };
        let c = match t.below(4) {
            // the first non-digit of this radix
            0 if radix < 36 => std::char::from_digit(radix, 36).unwrap(),
            1 if radix > 10 && radix < 36 => std::char::from_digit(radix, 36).unwrap().to_ascii_uppercase(),
            _ => *t.pick(ALPHABET),
        };
        if t.flag() {
            cs[pos] = c;
        } else {
            cs.insert(pos, c);
        }
        s = cs.into_iter().collect();
    }
    cx.nontrivial_if(s.len() > 1);
    note!(cx, "radix {radix}, {} chars: {:?}", s.len(), s.chars().take(120).collect::<String>());
    check_string(&s, radix, cx)?;
    if mode == 3 {
        // text -> value -> text
        let x = Int::new(t.flag(), Nat::from_digits(&ds, radix));
        let b = ib(&x);
        let printed = if t.flag() { b.in_radix(radix).to_string() } else { format!("{:#}", b.in_radix(radix)) };
        same("round trip", &IBig::from_str_radix(&printed, radix).map_err(|e| format!("{printed}: {e}"))?, &x)?;
        let u = ub(&x.mag);
        for p in [format!("{u:#x}"), format!("{u:#o}"), format!("{u:#b}"), format!("{u}"), format!("{u:#X}").replace("0X", "0x")] {
            same("round trip", &UBig::from_str_with_radix_prefix(&p).map_err(|e| format!("{p}: {e}"))?, &x.mag)?;
        }
        for p in [format!("{b:#x}"), format!("{b:+#o}"), format!("{b:#b}"), format!("{b:?}")] {
            same("round trip", &IBig::from_str_with_radix_prefix(&p).map_err(|e| format!("{p}: {e}"))?, &x)?;
        }
    }
    Ok(())
}

/// All strings up to length 3 over a small alphabet, and invalid radices.
fn fixed(cx: &mut Cx, n: &mut u64) -> CaseResult {
    for radix in [0u32, 1, 37, 256 + 10, u32::MAX] {
        for s in ["", "0", "1", "+", "zz"] {
            *n += 2;
            must_panic(&format!("UBig::from_str_radix({s:?}, {radix})"), || UBig::from_str_radix(s, radix))?;
            must_panic(&format!("IBig::from_str_radix({s:?}, {radix})"), || IBig::from_str_radix(s, radix))?;
        }
    }
    let alphabet = ['0', '1', '8', 'b', 'o', 'x', 'f', 'Z', '+', '-', '_', 'é'];
    let mut strings = vec![String::new()];
    let mut level = strings.clone();
    for _ in 0..4 {
        level = level.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
        strings.extend(level.iter().cloned());
    }
    for s in &strings {
        for radix in [2, 10, 16, 36] {
            *n += 1;
            check_string(s, radix, cx)?;
        }
    }
    // texts of tens of thousands of digits, some with one bad digit
    let mut t = Tape::random(10);
    for radix in [2u32, 3, 10, 16, 32, 36] {
        for len in [10_000usize, 40_000, 65_535, 65_537, 70_001] {
            if len * 6 > HARD_MAX_BITS {
                continue;
            }
            let mut ds: Vec<u32> = (0..len).map(|_| t.below(radix as usize) as u32).collect();
            if t.flag() {
                let (a, b) = (t.below(len), t.below(len));
                for d in &mut ds[a.min(b)..a.max(b)] {
                    *d = 0;
                }
            }
            let want = Nat::from_digits(&ds, radix);
            let mut s = text(&ds);
            let got = UBig::from_str_radix(&s, radix).map_err(|e| format!("{len} digits in radix {radix}: {e}"))?;
            ensure!(nu(&got) == want, "{len} digits in radix {radix}: read as {:?}, want {want:?}", nu(&got));
            let got = IBig::from_str_radix(&format!("-{s}"), radix).map_err(|e| format!("-, {len} digits in radix {radix}: {e}"))?;
            ensure!(ni(&got) == Int::new(true, want.clone()), "-, {len} digits in radix {radix}: read as {:?}, want minus {want:?}", ni(&got));
            let k = if t.flag() { t.below(len) } else { len - 1 - t.below(3) };
            s.replace_range(k..k + 1, "~");
            let got = UBig::from_str_radix(&s, radix);
            ensure!(got == Err(ParseError::InvalidDigit), "{len} digits in radix {radix}, bad digit at {k}: {:?}", got.map(|x| nu(&x)));
            *n += 3;
        }
    }
    // every single byte as a digit, in every radix
    for radix in 2..=36 {
        for c in 0..=0x17fu32 {
            let s = char::from_u32(c).unwrap().to_string();
            *n += 1;
            check_string(&s, radix, cx)?;
            check_string(&format!("1{s}"), radix, cx)?;
        }
    }
    Ok(())
}
