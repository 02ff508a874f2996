//! The choice tape. Every random decision of a case is one number drawn here, so a case is its tape:
//! it can be replayed, minimised and fuzzed without knowing what the numbers mean.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ Rng(b).next().rotate_left(17)).next()
}

enum Source {
    Random(Rng),
    Numbers(Vec<u64>, usize),
    #[allow(dead_code)]
    Bytes(Vec<u8>, usize),
}

pub struct Tape {
    src: Source,
    /// What was actually drawn.
    pub used: Vec<u64>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { src: Source::Random(Rng(seed)), used: Vec::new() }
    }

    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { src: Source::Numbers(data, 0), used: Vec::new() }
    }

    #[allow(dead_code)]
    pub fn bytes(data: &[u8]) -> Tape {
        Tape { src: Source::Bytes(data.to_vec(), 0), used: Vec::new() }
    }

    /// A number in `0..bound`; `bound == 0` means any u64. An exhausted tape gives 0.
    pub fn draw(&mut self, bound: u64) -> u64 {
        if bound == 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Random(r) => {
                let x = r.next();
                if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 }
            }
            Source::Numbers(d, pos) => {
                let x = d.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if bound == 0 { x } else { x % bound }
            }
            Source::Bytes(d, pos) => {
                let n = if bound == 0 { 8 } else { (64 - (bound - 1).leading_zeros() as usize).div_ceil(8) };
                let mut x = 0u64;
                for _ in 0..n {
                    x = (x << 8) | d.get(*pos).copied().unwrap_or(0) as u64;
                    *pos += 1;
                }
                if bound == 0 { x } else { x % bound }
            }
        };
        self.used.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn raw(&mut self) -> u64 {
        self.draw(0)
    }

    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True with probability 1/n.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }

    /// Index into weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.draw(total as u64) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// A generator for bulk data, seeded by one draw.
    pub fn sub(&mut self) -> Rng {
        Rng(self.raw())
    }
}
