use super::*;
use crate::run::*;
use serde::de::value::{Error as ValueError, SeqDeserializer};
use serde::{Deserialize, Serialize};

pub static PROP: Prop = Prop {
    case: case,
    rule: "a value (0 to 40, rarely 600 words, lengths around multiples of 64 bits) serialized to JSON text, a JSON value tree and bincode and read back, texts and bytes compared with the documented form; chunk sequences with 0..6 redundant zero chunks and negative zero read through readers with and without a length; non-trivial: value of two or more chunks, or redundant chunks present",
    quick: 150_000,
    fixed: None,
};

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Both {
    u: UBig,
    i: IBig,
    list: Vec<(IBig, UBig)>,
    none: Option<UBig>,
}

fn chunks(n: &Nat) -> Vec<u64> {
    n.to_le_bytes()
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}

fn json_list(c: &[u64]) -> String {
    let v: Vec<String> = c.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn bin_list(c: &[u64]) -> Vec<u8> {
    let mut v = (c.len() as u64).to_le_bytes().to_vec();
    for x in c {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v
}

fn err(e: impl std::fmt::Display) -> String {
    format!("(de)serialization failed: {e}")
}

/// Read the chunk list c as UBig through every reader.
fn read_u(c: &[u64], n: &Nat) -> CaseResult {
    let what = |how: &str| format!("UBig from {how} chunks {c:?}");
    let text = json_list(c);
    same(&what("JSON text"), &serde_json::from_str::<UBig>(&text).map_err(err)?, n)?;
    same(&what("JSON reader"), &serde_json::from_reader::<_, UBig>(text.as_bytes()).map_err(err)?, n)?;
    same(&what("JSON value"), &serde_json::from_value::<UBig>(serde_json::json!(c)).map_err(err)?, n)?;
    same(&what("bincode"), &bincode::deserialize::<UBig>(&bin_list(c)).map_err(err)?, n)?;
    let d = SeqDeserializer::<_, ValueError>::new(c.iter().copied());
    same(&what("sized sequence of"), &UBig::deserialize(d).map_err(err)?, n)?;
    let d = SeqDeserializer::<_, ValueError>::new(c.iter().copied().filter(|_| true));
    same(&what("unsized sequence of"), &UBig::deserialize(d).map_err(err)?, n)?;
    // into an existing value
    let mut place = UBig::from(7u8) << (3 * W);
    Deserialize::deserialize_in_place(&mut serde_json::Deserializer::from_str(&text), &mut place).map_err(err)?;
    same(&what("JSON, in place,"), &place, n)
}

fn read_i(neg: bool, c: &[u64], n: &Nat) -> CaseResult {
    let want = Int::new(neg, n.clone());
    let sign = if neg { "Negative" } else { "Positive" };
    let what = |how: &str| format!("IBig from {how} {sign} chunks {c:?}");
    let text = format!("[\"{sign}\",{}]", json_list(c));
    same(&what("JSON text"), &serde_json::from_str::<IBig>(&text).map_err(err)?, &want)?;
    same(&what("JSON value"), &serde_json::from_value::<IBig>(serde_json::json!([sign, c])).map_err(err)?, &want)?;
    let mut b = (neg as u32).to_le_bytes().to_vec();
    b.extend(bin_list(c));
    same(&what("bincode"), &bincode::deserialize::<IBig>(&b).map_err(err)?, &want)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = match t.below(4) {
        0 => {
            // around a multiple of 64 bits
            let k = t.below(6) * 64;
            match t.below(4) {
                0 => Nat::pow2(k),
                1 => Nat::pow2(k).sub(&Nat::one()),
                2 => nat(t, 400 / W).low_bits(k),
                _ => Nat::pow2(k + t.below(64)).add(&nat(t, 300 / W).low_bits(k)),
            }
        }
        1 => nat_bits(t, 64 * 12),
        _ if t.one_in(1000) => {
            let l = far_words(t);
            nat(t, l)
        }
        _ => if t.one_in(30) { nat(t, 600) } else { nat(t, 40) },
    };
    let i = signed(t, n.clone());
    note!(cx, "{i:?}");
    let c = chunks(&n);
    let (u, x) = (ub(&n), ib(&i));
    // what is written
    let text = serde_json::to_string(&u).map_err(err)?;
    ensure!(text == json_list(&c), "JSON of {n:?} is {text}");
    let sign = if i.neg { "Negative" } else { "Positive" };
    let text = serde_json::to_string(&x).map_err(err)?;
    ensure!(text == format!("[\"{sign}\",{}]", json_list(&c)), "JSON of IBig {i:?} is {text}");
    let b = bincode::serialize(&u).map_err(err)?;
    ensure!(b == bin_list(&c), "bincode of {n:?} is {b:?}");
    let b = bincode::serialize(&x).map_err(err)?;
    let mut wb = (i.neg as u32).to_le_bytes().to_vec();
    wb.extend(bin_list(&c));
    ensure!(b == wb, "bincode of IBig {i:?} is {b:?}");
    ensure!(serde_json::to_value(&u).map_err(err)? == serde_json::json!(c), "JSON value of {n:?}");
    ensure!(bincode::serialized_size(&u).map_err(err)? == 8 + 8 * c.len() as u64, "serialized size of {n:?}");
    // what is read back, with redundant zero chunks
    let pad = if t.flag() { 0 } else { t.below(7) };
    let mut cp = c.clone();
    cp.extend(std::iter::repeat(0).take(pad));
    read_u(&cp, &n)?;
    read_i(i.neg, &cp, &n)?;
    if n.is_zero() {
        read_i(true, &cp, &n)?;
        cx.label("negative zero");
    }
    // inside other data
    let both = Both { u: u.clone(), i: x.clone(), list: vec![(x.clone(), u.clone()), (IBig::from(u.clone()), UBig::from(3u8))], none: if t.flag() { None } else { Some(u.clone()) } };
    let back: Both = serde_json::from_str(&serde_json::to_string_pretty(&both).map_err(err)?).map_err(err)?;
    ensure!(back == both, "JSON round trip of a struct around {i:?} gave {back:?}");
    let back: Both = bincode::deserialize(&bincode::serialize(&both).map_err(err)?).map_err(err)?;
    ensure!(back == both, "bincode round trip of a struct around {i:?} gave {back:?}");
    same("value after serialization", &u, &n)?;
    same("value after serialization", &x, &i)?;
    cx.nontrivial_if(c.len() >= 2 || pad > 0);
    cx.label_if(pad > 0, "redundant zero chunks");
    Ok(())
}
