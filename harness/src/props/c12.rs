use super::*;
use crate::run::*;

pub static PROP: Prop = Prop {
    case: case,
    rule: "a byte string of 0..600 bytes (lengths biased to word boundaries; runs of 0x00/0xff, random) with up to 40 redundant zero bytes on the most significant side, read in both orders and written back; non-trivial: denotes a value of two or more bytes",
    quick: 300_000,
    fixed: Some(fixed),
};

fn check(b: &[u8]) -> CaseResult {
    let want = Nat::from_le_bytes(b);
    let mut rev = b.to_vec();
    rev.reverse();
    let x = UBig::from_le_bytes(b);
    let y = UBig::from_be_bytes(&rev);
    let mut min = b.to_vec();
    while min.last() == Some(&0) {
        min.pop();
    }
    let le = x.to_le_bytes();
    ensure!(le == min, "from_le_bytes({b:?}).to_le_bytes() = {le:?}");
    let le2 = y.to_le_bytes();
    ensure!(le2 == min, "from_be_bytes({rev:?}).to_le_bytes() = {le2:?}");
    min.reverse();
    let be = x.to_be_bytes();
    ensure!(be == min, "from_le_bytes({b:?}).to_be_bytes() = {be:?}");
    let be2 = y.to_be_bytes();
    ensure!(be2 == min, "from_be_bytes({rev:?}).to_be_bytes() = {be2:?}");
    ensure!(x == y, "from_le_bytes and from_be_bytes of the reversed string differ for {b:?}");
    // Independent of the byte interface: the value by text and by arithmetic queries.
    ensure!(x.bit_len() == want.bit_len(), "bit_len of from_le_bytes({b:?}) = {}", x.bit_len());
    let hex = format!("{x:x}");
    ensure!(hex == want.to_radix(16), "from_le_bytes({b:?}) prints as {hex}");
    let p = UBig::from_str_radix(&want.to_radix(16), 16).unwrap();
    ensure!(p == x && hash_of(&p) == hash_of(&x), "from_le_bytes({b:?}) != the same value parsed");
    ensure!(p.to_le_bytes() == le && p.to_be_bytes() == be, "bytes of the parsed value {} differ", want.to_radix(16));
    Ok(())
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let len = match t.below(5) {
        0 => t.below(20),
        1 => (t.below(12) * W / 8 + t.below(5)).saturating_sub(2),
        2 => t.below(70),
        3 => (t.below(40) * 8 + t.below(5)).saturating_sub(2),
        _ if t.one_in(400) => {
            let n = far_words(t) * W / 8;
            t.range(n / 2, n)
        }
        _ if t.one_in(6) => t.below(6000),
        _ => t.below(600),
    };
    let style = t.below(5);
    let mut r = t.sub();
    let mut b: Vec<u8> = (0..len)
        .map(|_| match style {
            0 => r.next() as u8,
            1 => 0xff,
            2 => [0, 0, 0, 1, 0x80, 0xff][r.next() as usize % 6],
            3 => if r.next() % 8 == 0 { r.next() as u8 } else { 0 },
            _ => if r.next() % 8 == 0 { r.next() as u8 } else { 0xff },
        })
        .collect();
    if t.flag() && len > 0 {
        b[len - 1] = *t.pick(&[1u8, 0x7f, 0x80, 0xff]);
    }
    // zero bytes at the least significant side
    if t.one_in(4) {
        let k = t.below(len + 1);
        for x in &mut b[..k] {
            *x = 0;
        }
    }
    let pad = if t.flag() { t.below(40) } else { 0 };
    b.extend(std::iter::repeat(0).take(pad));
    note!(cx, "little-endian {b:?}");
    cx.nontrivial_if(b.iter().skip(1).any(|&x| x != 0));
    cx.label_if(pad > 0, "redundant zero bytes");
    cx.label_if(len * 8 > W, "longer than a word");
    check(&b)
}

fn fixed(_cx: &mut Cx, n: &mut u64) -> CaseResult {
    // every length to 80 with each single byte set, and all byte strings of length <= 2
    for len in 0..=80usize {
        for i in 0..len {
            for v in [1u8, 0x80, 0xff] {
                let mut b = vec![0u8; len];
                b[i] = v;
                check(&b)?;
                *n += 1;
            }
        }
    }
    for v in 0..=u16::MAX {
        check(&v.to_le_bytes())?;
        *n += 1;
    }
    check(&[])
}
