//! The source of generated input: a tape of 64-bit words.
//!
//! A case is a pure function of its tape, so that a failing case is shrunk by
//! shrinking the tape, and the shrunk tape is the replay.

pub struct Tape {
    pub words: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut x = *s;
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Mix words into one seed.
pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x243f6a8885a308d3;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s);
    }
    s
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { words: Vec::with_capacity(32), pos: 0, rng: Some(seed) }
    }
    /// Fixed words, zeros after the end.
    pub fn fixed(words: &[u64]) -> Tape {
        Tape { words: words.to_vec(), pos: 0, rng: None }
    }
    pub fn next(&mut self) -> u64 {
        let w = if self.pos < self.words.len() {
            self.words[self.pos]
        } else {
            let w = self.rng.as_mut().map_or(0, splitmix);
            self.words.push(w);
            w
        };
        self.pos += 1;
        w
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        // Zero, the simplest word, is "no".
        self.next() % one_in == one_in - 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Small signed offset in -n..=n, zero first.
    pub fn offset(&mut self, n: i64) -> i64 {
        let k = self.below(2 * n as u64 + 1) as i64;
        if k & 1 == 1 {
            (k + 1) / 2
        } else {
            -(k / 2)
        }
    }
}
