//! Choice source: every generated value is drawn from a recorded sequence of bounded integers, so
//! any failing case can be shrunk by editing the sequence and replayed from it. 0 is always the
//! simplest choice.

use revmc::primitives::{Address, B256, Bytes, U256};

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0x5bd1e995))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub choices: Vec<u64>,
    /// Also written here as they are drawn, so that a crash does not lose them.
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { rng: Some(Rng::new(seed)), replay: vec![], choices: vec![], log: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self { rng: None, replay: choices, choices: vec![], log: None }
    }
    fn raw(&mut self, bound: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 }
            }
            None => {
                let x = self.replay.get(self.choices.len()).copied().unwrap_or(0);
                if bound != 0 && x >= bound { x % bound } else { x }
            }
        };
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.choices.push(v);
        v
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u64) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(0)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_be_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[8 - k..]);
        }
        v
    }
    pub fn random_u256(&mut self) -> U256 {
        U256::from_limbs([self.u64(), self.u64(), self.u64(), self.u64()])
    }
    /// Boundary-heavy 256-bit value.
    pub fn word(&mut self) -> U256 {
        match self.weighted(&[8, 6, 4, 4, 4, 3, 3, 3, 2, 2]) {
            0 => U256::from(self.below(5)),
            1 => {
                const T: &[u64] = &[
                    7, 8, 15, 16, 30, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 159, 160, 161, 191, 192, 248,
                    254, 255, 256, 257, 0x1000, 0xffff, 0x10000, 0xffff_ffff, 0x1_0000_0000,
                ];
                U256::from(*self.pick(T))
            }
            2 => U256::ONE << self.below(256),
            3 => (U256::ONE << self.below(256)).wrapping_sub(U256::ONE),
            4 => U256::ZERO.wrapping_sub(U256::ONE << self.below(256)),
            5 => U256::ZERO.wrapping_sub(U256::from(self.below(70))),
            6 => self.random_u256(),
            7 => U256::from(self.u64()),
            8 => self.random_u256() >> self.below(256),
            _ => *self.pick(&[
                U256::MAX,
                U256::ONE << 255,
                (U256::ONE << 255) - U256::ONE,
                (U256::ONE << 255) + U256::ONE,
                U256::MAX - U256::ONE,
                U256::from(u64::MAX),
                U256::from(u64::MAX) + U256::ONE,
                U256::from(i64::MAX as u64),
                U256::from(i64::MAX as u64) + U256::ONE,
                U256::from(u128::MAX),
            ]),
        }
    }
    pub fn small(&mut self) -> U256 {
        U256::from(self.below(8))
    }
    pub fn b256(&mut self) -> B256 {
        self.random_u256().into()
    }
    pub fn calldata(&mut self) -> Bytes {
        let n = match self.weighted(&[3, 4, 3, 2]) {
            0 => 0,
            1 => 32 * self.range(1, 4),
            2 => self.range(1, 100),
            _ => self.range(100, 260),
        };
        let mut out = vec![];
        while out.len() < n {
            if self.chance(1, 4) {
                let k = (n - out.len()).min(32);
                out.extend(self.bytes(k));
            } else {
                let w = self.word().to_be_bytes::<32>();
                let k = (n - out.len()).min(32);
                out.extend_from_slice(&w[..k]);
            }
        }
        out.into()
    }
}

pub fn addr(i: u64) -> Address {
    match i {
        0 => Address::ZERO,
        i => {
            let mut a = [0u8; 20];
            a[0] = 0xaa;
            a[12..].copy_from_slice(&i.to_be_bytes());
            Address::from(a)
        }
    }
}
