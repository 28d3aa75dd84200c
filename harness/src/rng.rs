//! Deterministic random numbers; every case has its own generator.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ (*x as u64)).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// The numbers drawn so far, and those to be drawn first
#[derive(Clone)]
struct Tape {
    draws: Vec<u64>,
    at: usize,
}

/// Draws kept of a case
const LONGEST: usize = 4000;

#[derive(Clone)]
pub struct Rng {
    s: u64,
    tape: Option<Box<Tape>>,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng {
            s: mix(seed),
            tape: None,
        }
    }
    /// One that gives these numbers first
    pub fn with(seed: u64, draws: Vec<u64>) -> Self {
        Rng {
            s: mix(seed),
            tape: Some(Box::new(Tape { draws, at: 0 })),
        }
    }
    /// The numbers that were drawn
    pub fn drawn(self) -> Vec<u64> {
        match self.tape {
            Some(mut t) => {
                t.draws.truncate(t.at);
                t.draws
            }
            None => vec![],
        }
    }
    pub fn next(&mut self) -> u64 {
        if let Some(t) = &mut self.tape {
            if t.at < t.draws.len() {
                t.at += 1;
                return t.draws[t.at - 1];
            }
        }
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let v = mix(self.s);
        if let Some(t) = &mut self.tape {
            if t.at < LONGEST {
                t.draws.push(v);
                t.at += 1;
            }
        }
        v
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// True once in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Small mostly, sometimes larger, up to max
    pub fn skewed(&mut self, max: usize) -> usize {
        let bits = self.below(9);
        let m = match bits {
            0..=3 => 3,
            4..=5 => 8,
            6 => 20,
            7 => 70,
            _ => 300,
        };
        self.below(m.min(max) + 1)
    }
}
