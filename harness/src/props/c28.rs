//! Malformed serialized input. The oracle is serde's own reading of a list of u64, which UBig's form is.
use super::*;
use crate::run::*;
use serde::de::value::Error as ValueError;
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, SeqAccess, Visitor};
use serde::{forward_to_deserialize_any, Deserialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub static PROP: Prop = Prop {
    case: case,
    rule: "serialized forms of a value (0 to 60 chunks) in JSON and bincode with up to four mutations (truncated, extended, a byte or character changed, inserted or removed, a length or chunk replaced by an extreme number, a part of another type), and sequences whose readers give any size hint and may fail at any element; read as UBig and IBig next to serde's reading of the same input as a list of 64-bit numbers, with allocations watched; non-trivial: the input is not well-formed or the hint is wrong",
    quick: 60_000,
    fixed: None,
};

/// The largest block asked for by this thread since the last reset.
pub struct Watch;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
fn saw(n: usize) {
    let _ = LARGEST.try_with(|c| c.set(c.get().max(n)));
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        saw(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[derive(Deserialize, Debug, Clone, Copy, PartialEq)]
#[serde(rename = "Sign")]
enum RefSign {
    Positive,
    Negative,
}

type RefI = (RefSign, Vec<u64>);

fn value(c: &[u64]) -> Nat {
    let b: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
    Nat::from_le_bytes(&b)
}

/// Runs one reading: it must not panic nor ask for blocks out of proportion to the input.
fn read<T, E: std::fmt::Display>(what: &str, len: usize, f: impl FnOnce() -> Result<T, E>) -> Result<Option<T>, String> {
    LARGEST.with(|c| c.set(0));
    let r = catch(f);
    let largest = LARGEST.with(|c| c.get());
    let r = r.map_err(|m| format!("{what}: panicked: {m}"))?;
    let bound = 64 * len + (2 << 20);
    if largest > bound {
        return Err(format!("{what}: asked for a block of {largest} bytes reading {len} bytes of input"));
    }
    Ok(r.ok())
}

fn check_u(what: &str, got: Option<UBig>, want: Option<Vec<u64>>) -> CaseResult {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => same(what, &g, &value(&w)),
        (Some(g), None) => Err(format!("{what}: malformed input was read as {:?}", nu(&g))),
        (None, Some(w)) => Err(format!("{what}: well-formed chunks {w:?} were refused")),
    }
}

fn check_i(what: &str, got: Option<IBig>, want: Option<RefI>) -> CaseResult {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some((s, w))) => same(what, &g, &Int::new(s == RefSign::Negative, value(&w))),
        (Some(g), None) => Err(format!("{what}: malformed input was read as {:?}", ni(&g))),
        (None, Some(w)) => Err(format!("{what}: well-formed {w:?} was refused")),
    }
}

/// A deserializer of a sequence whose reader lies about its length, or fails.
struct Liar {
    chunks: Vec<u64>,
    at: usize,
    hint: Option<usize>,
    fail_at: usize,
    odd_at: usize,
}
impl<'de> Deserializer<'de> for Liar {
    type Error = ValueError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, ValueError> {
        v.visit_seq(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> SeqAccess<'de> for Liar {
    type Error = ValueError;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, ValueError> {
        let i = self.at;
        self.at += 1;
        if i == self.fail_at {
            return Err(serde::de::Error::custom("end of input"));
        }
        if i >= self.chunks.len() {
            return Ok(None);
        }
        if i == self.odd_at {
            return seed.deserialize("text".into_deserializer()).map(Some);
        }
        seed.deserialize(self.chunks[i].into_deserializer()).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

fn big_number(t: &mut Tape) -> u64 {
    match t.below(4) {
        0 => t.below(100) as u64,
        1 => 1u64 << t.below(64),
        2 => (1u64 << t.below(64)).wrapping_sub(1 + t.below(3) as u64),
        _ => t.draw(u64::MAX),
    }
}

fn liar(t: &mut Tape, cx: &mut Cx, c: &[u64]) -> CaseResult {
    let n = c.len();
    let hint = match t.below(6) {
        0 => None,
        1 => Some(n),
        2 => Some(n + 1 + t.below(4)),
        3 => Some(n.saturating_sub(1 + t.below(4))),
        4 => Some(t.below(3)),
        _ => Some(big_number(t) as usize),
    };
    let fail_at = if t.below(3) == 0 { t.below(n + 2) } else { usize::MAX };
    let odd_at = if t.below(4) == 0 { t.below(n + 1) } else { usize::MAX };
    cx.nontrivial_if(hint.map_or(false, |h| h != n) || fail_at <= n || odd_at < n);
    cx.label_if(hint.map_or(false, |h| h != n), "wrong size hint");
    note!(cx, "sequence {c:?} with size hint {hint:?}, failing at {fail_at}, a text at {odd_at}");
    let make = || Liar { chunks: c.to_vec(), at: 0, hint, fail_at, odd_at };
    let what = format!("sequence of {n} chunks with size hint {hint:?}");
    let want = Vec::<u64>::deserialize(make()).ok();
    let d = make();
    let got = read(&what, 8 * n, move || UBig::deserialize(d))?;
    check_u(&what, got, want)
}

fn case(t: &mut Tape, cx: &mut Cx) -> CaseResult {
    let n = if t.one_in(20) { nat(t, 60 * 64 / W) } else { nat(t, 6 * 64 / W) };
    let b = n.to_le_bytes();
    let mut c: Vec<u64> = b
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect();
    for _ in 0..if t.below(4) == 0 { t.below(4) } else { 0 } {
        c.push(0);
    }
    let neg = t.flag();
    match t.below(5) {
        0 => liar(t, cx, &c),
        1 | 2 => {
            // bincode
            let as_i = t.flag();
            let mut b: Vec<u8> = Vec::new();
            if as_i {
                b.extend((neg as u32).to_le_bytes());
            }
            let at = b.len();
            b.extend((c.len() as u64).to_le_bytes());
            for x in &c {
                b.extend(x.to_le_bytes());
            }
            for _ in 0..1 + t.below(4) {
                match t.below(7) {
                    0 => b.truncate(t.below(b.len() + 1)),
                    1 => b.push(t.below(256) as u8),
                    2 if !b.is_empty() => {
                        let i = t.below(b.len());
                        b[i] = t.below(256) as u8;
                    }
                    3 if !b.is_empty() => {
                        let i = t.below(b.len());
                        b[i] ^= 1 << t.below(8);
                    }
                    4 if b.len() >= at + 8 => b[at..at + 8].copy_from_slice(&big_number(t).to_le_bytes()),
                    5 if b.len() >= at + 8 => b[at..at + 8].copy_from_slice(&((c.len() + t.below(5)).saturating_sub(2) as u64).to_le_bytes()),
                    6 if as_i && b.len() >= 4 => b[..4].copy_from_slice(&(big_number(t) as u32).to_le_bytes()),
                    _ => {}
                }
            }
            note!(cx, "bincode {b:?}");
            let what = format!("{} from bincode {b:?}", if as_i { "IBig" } else { "UBig" });
            if as_i {
                let want = bincode::deserialize::<RefI>(&b).ok();
                cx.nontrivial_if(want.is_none());
                cx.label_if(want.is_none(), "malformed bincode");
                let got = read(&what, b.len(), || bincode::deserialize::<IBig>(&b))?;
                check_i(&what, got, want.clone())?;
                let got = read(&what, b.len(), || bincode::deserialize_from::<_, IBig>(&b[..]))?;
                check_i(&what, got, want)
            } else {
                let want = bincode::deserialize::<Vec<u64>>(&b).ok();
                cx.nontrivial_if(want.is_none());
                cx.label_if(want.is_none(), "malformed bincode");
                let got = read(&what, b.len(), || bincode::deserialize::<UBig>(&b))?;
                check_u(&what, got, want.clone())?;
                let got = read(&what, b.len(), || bincode::deserialize_from::<_, UBig>(&b[..]))?;
                check_u(&what, got, want)
            }
        }
        _ => {
            // JSON
            let list: Vec<String> = c
                .iter()
                .map(|x| match t.below(60) {
                    0 => "-1".into(),
                    1 => "0.5".into(),
                    2 => "1e3".into(),
                    3 => "18446744073709551616".into(),
                    4 => "\"7\"".into(),
                    5 => "null".into(),
                    6 => "[1]".into(),
                    7 => "{}".into(),
                    8 => "true".into(),
                    _ => x.to_string(),
                })
                .collect();
            let mut s = format!("[{}]", list.join(","));
            let as_i = t.flag();
            if as_i {
                let sign = match t.below(10) {
                    0 => "\"positive\"".to_string(),
                    1 => "0".to_string(),
                    2 => "{\"Negative\":null}".to_string(),
                    3 => "{\"Negative\":1}".to_string(),
                    4 => "null".to_string(),
                    _ => format!("\"{}\"", if neg { "Negative" } else { "Positive" }),
                };
                s = match t.below(12) {
                    0 => format!("[{sign}]"),
                    1 => format!("[{sign},{s},{s}]"),
                    2 => s,
                    3 => format!("{{\"sign\":{sign},\"magnitude\":{s}}}"),
                    _ => format!("[{sign},{s}]"),
                };
            }
            for _ in 0..t.below(3) {
                let i = t.below(s.len() + 1);
                let x = ["", "0", ",", "[", "]", " ", "-", "9", "\"", "\n", "}", "e"][t.below(12)];
                if s.is_char_boundary(i) {
                    if t.flag() && s.is_char_boundary(i + 1) && i < s.len() {
                        s.replace_range(i..i + 1, x);
                    } else if t.below(4) == 0 {
                        s.truncate(i);
                    } else {
                        s.insert_str(i, x);
                    }
                }
            }
            note!(cx, "JSON {s}");
            let what = format!("{} from JSON {s}", if as_i { "IBig" } else { "UBig" });
            let tree: Option<serde_json::Value> = serde_json::from_str(&s).ok();
            if as_i {
                let want = serde_json::from_str::<RefI>(&s).ok();
                cx.nontrivial_if(want.is_none());
                cx.label_if(want.is_none(), "malformed JSON");
                let got = read(&what, s.len(), || serde_json::from_str::<IBig>(&s))?;
                check_i(&what, got, want)?;
                if let Some(v) = tree {
                    let want = serde_json::from_value::<RefI>(v.clone()).ok();
                    cx.label_if(want.is_none(), "malformed JSON value");
                    let got = read(&what, s.len(), || serde_json::from_value::<IBig>(v))?;
                    check_i(&what, got, want)?;
                }
            } else {
                let want = serde_json::from_str::<Vec<u64>>(&s).ok();
                cx.nontrivial_if(want.is_none());
                cx.label_if(want.is_none(), "malformed JSON");
                let got = read(&what, s.len(), || serde_json::from_str::<UBig>(&s))?;
                check_u(&what, got, want)?;
                if let Some(v) = tree {
                    let want = serde_json::from_value::<Vec<u64>>(v.clone()).ok();
                    cx.label_if(want.is_none(), "malformed JSON value");
                    let got = read(&what, s.len(), || serde_json::from_value::<UBig>(v))?;
                    check_u(&what, got, want)?;
                }
            }
            Ok(())
        }
    }
}
