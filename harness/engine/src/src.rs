//! Choice tape: every random decision of a case is one number drawn from a `Src`.
//! A case is a pure function of its tape, so shrinking works on the tape.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5eed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let z = self.0;
        mix(z)
    }
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }

    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }

    /// The choices consumed so far.
    pub fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let x = if self.pos < self.tape.len() {
            let x = self.tape[self.pos];
            if x < n { x } else { x % n }
        } else if let Some(rng) = &mut self.rng {
            let x = rng.next() % n;
            self.tape.push(x);
            x
        } else {
            0
        };
        self.pos += 1;
        x
    }

    pub fn raw(&mut self) -> u64 {
        let x = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(rng) = &mut self.rng {
            let x = rng.next();
            self.tape.push(x);
            x
        } else {
            0
        };
        self.pos += 1;
        x
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    /// True with probability num/den; false is the simpler choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    /// `lo` and up to `span` more, far more in a few cases: the length of a history.
    pub fn count(&mut self, lo: u64, span: u64) -> u64 {
        lo + if self.chance(1, 500) { self.below(span * 16) } else { self.below(span) }
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

pub fn hash_words(words: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for w in words {
        h = mix(h ^ *w);
    }
    mix(h ^ words.len() as u64)
}
