//! The choice source every generator draws from.
//!
//! A case is a pure function of its choices, so it can be replayed from them
//! and shrunk by making them fewer and smaller.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

enum Mode {
    Random { state: u64, index: u64, path: u64 },
    Replay { data: Vec<u64>, pos: usize },
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        Src {
            mode: Mode::Random {
                state: mix(seed ^ mix(index)),
                index,
                path: 0,
            },
            rec: Vec::new(),
        }
    }

    pub fn replay(data: Vec<u64>) -> Src {
        Src {
            mode: Mode::Replay { data, pos: 0 },
            rec: Vec::new(),
        }
    }

    /// Choices out of fuzzer bytes: one byte per small choice.
    pub fn from_bytes(data: &[u8]) -> Src {
        Src::replay(
            data.chunks(2)
                .map(|c| c.iter().fold(0u64, |a, &b| a << 8 | b as u64))
                .collect(),
        )
    }

    /// A number below n.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Random { state, .. } => {
                *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let z = mix(*state);
                ((z as u128 * n as u128) >> 64) as u64
            }
            Mode::Replay { data, pos } => {
                let v = data.get(*pos).copied().unwrap_or(0);
                assert!(*pos < data.len() + 1_000_000, "choices ran out");
                *pos += 1;
                if v < n { v } else { v % n }
            }
        };
        self.rec.push(v);
        v
    }

    /// As below(), but cycles through the values over the cases of a run, so
    /// that each of them is reached. What is chosen after another such choice
    /// cycles from a different start for each value of that.
    pub fn strat(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if let Mode::Random { index, path, .. } = &mut self.mode {
            let v = (*index % n + *path % n) % n;
            *index /= n;
            *path = mix(*path ^ mix(v + 1)) >> 1;
            self.rec.push(v);
            return v;
        }
        self.below(n)
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// True num times out of den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }

    /// An index with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let mut v = self.below(weights.iter().sum());
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }

    pub fn digit(&mut self) -> char {
        (b'0' + self.below(10) as u8) as char
    }

    pub fn digits(&mut self, n: usize) -> String {
        (0..n).map(|_| self.digit()).collect()
    }
}
