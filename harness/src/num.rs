//! The oracle: schoolbook arbitrary-precision integers, written for obviousness, independent of ibig.

use std::cmp::Ordering;

/// Natural number: little-endian base 2^32, no leading zero limb.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Nat(pub Vec<u32>);

/// Integer: sign and magnitude; `neg` is false for zero.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl Nat {
    pub fn zero() -> Nat {
        Nat(Vec::new())
    }
    pub fn one() -> Nat {
        Nat(vec![1])
    }
    pub fn new(mut v: Vec<u32>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn from_u64(x: u64) -> Nat {
        Nat::new(vec![x as u32, (x >> 32) as u32])
    }
    pub fn from_u128(x: u128) -> Nat {
        Nat::new((0..4).map(|i| (x >> (32 * i)) as u32).collect())
    }
    /// Value if it fits.
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().enumerate().map(|(i, &d)| (d as u128) << (32 * i)).sum())
    }
    pub fn to_usize(&self) -> Option<usize> {
        self.to_u128().and_then(|x| usize::try_from(x).ok())
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_one(&self) -> bool {
        self.0 == [1]
    }
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |d| d & 1 == 1)
    }
    pub fn bit_len(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(d) => 32 * self.0.len() - d.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        self.0.get(n / 32).map_or(false, |d| d >> (n % 32) & 1 == 1)
    }
    pub fn pow2(n: usize) -> Nat {
        let mut v = vec![0; n / 32 + 1];
        v[n / 32] = 1 << (n % 32);
        Nat(v)
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        let i = self.0.iter().position(|&d| d != 0)?;
        Some(32 * i + self.0[i].trailing_zeros() as usize)
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat::new(v)
    }
    /// None if negative.
    pub fn checked_sub(&self, o: &Nat) -> Option<Nat> {
        if *self < *o {
            return None;
        }
        let mut v = Vec::with_capacity(self.0.len());
        let mut borrow = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - borrow;
            borrow = 0;
            if d < 0 {
                d += 1 << 32;
                borrow = 1;
            }
            v.push(d as u32);
        }
        assert!(borrow == 0);
        Some(Nat::new(v))
    }
    pub fn sub(&self, o: &Nat) -> Nat {
        self.checked_sub(o).expect("reference sub")
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                c += a as u64 * b as u64 + v[i + j] as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Nat::new(v)
    }
    /// Divide by a small number.
    pub fn div_small(&self, d: u32) -> (Nat, u32) {
        assert!(d != 0);
        let mut v = vec![0; self.0.len()];
        let mut r = 0u64;
        for i in (0..self.0.len()).rev() {
            let cur = (r << 32) | self.0[i] as u64;
            v[i] = (cur / d as u64) as u32;
            r = cur % d as u64;
        }
        (Nat::new(v), r as u32)
    }
    pub fn rem_small(&self, d: u32) -> u32 {
        let mut r = 0u64;
        for &x in self.0.iter().rev() {
            r = ((r << 32) | x as u64) % d as u64;
        }
        r as u32
    }
    /// Knuth's algorithm D.
    pub fn div_rem(&self, o: &Nat) -> (Nat, Nat) {
        assert!(!o.is_zero());
        if *self < *o {
            return (Nat::zero(), self.clone());
        }
        if o.0.len() == 1 {
            let (q, r) = self.div_small(o.0[0]);
            return (q, Nat::from_u64(r as u64));
        }
        let s = o.0.last().unwrap().leading_zeros() as usize;
        let d = o.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(u.len().max(self.0.len()) + 1, 0);
        let n = d.len();
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let top = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qhat = top / d[n - 1] as u64;
            let mut rhat = top % d[n - 1] as u64;
            while qhat >> 32 != 0 || qhat * d[n - 2] as u64 > ((rhat << 32) | u[j + n - 2] as u64) {
                qhat -= 1;
                rhat += d[n - 1] as u64;
                if rhat >> 32 != 0 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                carry += qhat * d[i] as u64;
                let t = u[i + j] as i64 - borrow - (carry as u32) as i64;
                carry >>= 32;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qhat -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + d[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qhat as u32;
        }
        u.truncate(n);
        (Nat::new(q), Nat::new(u).shr(s))
    }
    pub fn rem(&self, o: &Nat) -> Nat {
        self.div_rem(o).1
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let (w, b) = (n / 32, n % 32);
        let mut v = vec![0u32; w];
        let mut c = 0u64;
        for &d in &self.0 {
            c |= (d as u64) << b;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat::new(v)
    }
    pub fn shr(&self, n: usize) -> Nat {
        let (w, b) = (n / 32, n % 32);
        if w >= self.0.len() {
            return Nat::zero();
        }
        let v = &self.0[w..];
        Nat::new(
            (0..v.len())
                .map(|i| {
                    let x = v[i] as u64 | (*v.get(i + 1).unwrap_or(&0) as u64) << 32;
                    (x >> b) as u32
                })
                .collect(),
        )
    }
    pub fn low_bits(&self, n: usize) -> Nat {
        let mut v = self.0.clone();
        v.truncate(n.div_ceil(32));
        if n % 32 != 0 && v.len() == n.div_ceil(32) {
            *v.last_mut().unwrap() &= (1u32 << (n % 32)) - 1;
        }
        Nat::new(v)
    }
    pub fn to_le_bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|d| d.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn from_le_bytes(b: &[u8]) -> Nat {
        Nat::new(
            b.chunks(4)
                .map(|c| {
                    let mut a = [0; 4];
                    a[..c.len()].copy_from_slice(c);
                    u32::from_le_bytes(a)
                })
                .collect(),
        )
    }
    /// Digits, lower case, in any radix; "0" for zero.
    pub fn to_radix(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        if radix == 16 {
            let mut s = format!("{:x}", self.0[self.0.len() - 1]);
            for d in self.0[..self.0.len() - 1].iter().rev() {
                s.push_str(&format!("{d:08x}"));
            }
            return s;
        }
        let (mut big, mut k) = (radix, 1);
        while big as u64 * (radix as u64) < 1 << 32 {
            big *= radix;
            k += 1;
        }
        let mut out: Vec<u8> = Vec::new();
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, mut r) = x.div_small(big);
            x = q;
            for _ in 0..k {
                out.push(std::char::from_digit(r % radix, radix).unwrap() as u8);
                r /= radix;
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    pub fn mul_add_small(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in self.0.iter_mut() {
            c += *d as u64 * m as u64;
            *d = c as u32;
            c >>= 32;
        }
        if c != 0 {
            self.0.push(c as u32);
        }
    }
    /// Value of digits (each < radix), most significant first.
    pub fn from_digits(digits: &[u32], radix: u32) -> Nat {
        let (mut big, mut k) = (radix, 1usize);
        while big as u64 * (radix as u64) < 1 << 32 {
            big *= radix;
            k += 1;
        }
        let mut x = Nat::zero();
        let head = digits.len() % k;
        for &d in &digits[..head] {
            x.mul_add_small(radix, d);
        }
        for ch in digits[head..].chunks(k) {
            let mut v = 0u32;
            for &d in ch {
                v = v * radix + d;
            }
            x.mul_add_small(big, v);
        }
        Nat::new(x.0)
    }
    pub fn pow(&self, mut e: usize) -> Nat {
        let (mut base, mut r) = (self.clone(), Nat::one());
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&base);
            }
            e >>= 1;
            if e > 0 {
                base = base.mul(&base);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn pow_mod(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        let base = self.rem(m);
        for i in (0..e.bit_len()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&base).rem(m);
            }
        }
        r
    }
    pub fn bitop(&self, o: &Nat, f: impl Fn(u32, u32) -> u32) -> Nat {
        let n = self.0.len().max(o.0.len());
        Nat::new(
            (0..n)
                .map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0)))
                .collect(),
        )
    }
    pub fn with_bit(&self, n: usize, on: bool) -> Nat {
        let mut v = self.0.clone();
        if v.len() <= n / 32 {
            v.resize(n / 32 + 1, 0);
        }
        if on {
            v[n / 32] |= 1 << (n % 32);
        } else {
            v[n / 32] &= !(1 << (n % 32));
        }
        Nat::new(v)
    }
    pub fn hex(&self) -> String {
        if self.0.len() > 400 {
            let s = self.to_radix(16);
            return format!("0x{}...{}({} bits)", &s[..80], &s[s.len() - 80..], self.bit_len());
        }
        format!("0x{}", self.to_radix(16))
    }
}

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn zero() -> Int {
        Int::default()
    }
    pub fn pos(mag: Nat) -> Int {
        Int { neg: false, mag }
    }
    pub fn from_i128(x: i128) -> Int {
        Int::new(x < 0, Nat::from_u128(x.unsigned_abs()))
    }
    pub fn from_u128(x: u128) -> Int {
        Int::pos(Nat::from_u128(x))
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag >= o.mag {
            Int::new(self.neg, self.mag.sub(&o.mag))
        } else {
            Int::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    pub fn div_rem_trunc(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.div_rem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    pub fn div_rem_euclid(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.div_rem_trunc(o);
        if !r.neg {
            return (q, r);
        }
        let one = Int::pos(Nat::one());
        if o.neg {
            (q.add(&one), r.sub(o))
        } else {
            (q.sub(&one), r.add(o))
        }
    }
    pub fn shl(&self, n: usize) -> Int {
        Int::new(self.neg, self.mag.shl(n))
    }
    /// Floor.
    pub fn shr(&self, n: usize) -> Int {
        let q = self.mag.shr(n);
        if self.neg && self.mag.trailing_zeros().map_or(false, |z| z < n) {
            Int::new(true, q.add(&Nat::one()))
        } else {
            Int::new(self.neg, q)
        }
    }
    /// Two's complement, `n` limbs (enough to hold the sign bit).
    fn twos(&self, n: usize) -> Vec<u32> {
        let mut v = self.mag.0.clone();
        v.resize(n, 0);
        if self.neg {
            let mut c = 1u64;
            for d in v.iter_mut() {
                c += !*d as u64;
                *d = c as u32;
                c >>= 32;
            }
        }
        v
    }
    fn from_twos(v: Vec<u32>) -> Int {
        let neg = v.last().map_or(false, |d| d >> 31 == 1);
        if !neg {
            return Int::pos(Nat::new(v));
        }
        let mut c = 1u64;
        let v = v
            .into_iter()
            .map(|d| {
                c += !d as u64;
                let x = c as u32;
                c >>= 32;
                x
            })
            .collect();
        Int::new(true, Nat::new(v))
    }
    pub fn bitop(&self, o: &Int, f: impl Fn(u32, u32) -> u32) -> Int {
        let n = self.mag.0.len().max(o.mag.0.len()) + 1;
        let (a, b) = (self.twos(n), o.twos(n));
        Int::from_twos(a.into_iter().zip(b).map(|(x, y)| f(x, y)).collect())
    }
    pub fn pow(&self, e: usize) -> Int {
        Int::new(self.neg && e % 2 == 1, self.mag.pow(e))
    }
    pub fn rem_euclid(&self, m: &Nat) -> Nat {
        self.div_rem_euclid(&Int::pos(m.clone())).1.mag
    }
    pub fn to_radix(&self, radix: u32) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_radix(radix))
    }
    pub fn hex(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.hex())
    }
    /// Value as i128 if it fits.
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m <= 1 << 127 { Some((m as i128).wrapping_neg()) } else { None }
        } else {
            i128::try_from(m).ok()
        }
    }
}

impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}

impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.hex())
    }
}
impl std::fmt::Debug for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.hex())
    }
}
