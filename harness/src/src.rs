//! The choice-sequence engine: every random decision of a case is a recorded draw, so a case is
//! replayed (and shrunk) from its list of draws alone.  Zero is always the simplest choice.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: mix(seed), replay: None, pos: 0, rec: Vec::new() }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new() }
    }

    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => {
                self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
                let z = mix(self.state);
                ((z as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// inclusive range, smallest is simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    /// a size of few, or once in a while of many
    pub fn upto(&mut self, few: usize, many: usize) -> usize {
        if self.chance(1, 50) {
            many
        } else {
            few
        }
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// index chosen by weight; the first is simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }

    /// a list length with "one more?" draws, so that deleting draws shortens the list
    pub fn list<T>(&mut self, min: usize, max: usize, num: u64, den: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        while out.len() < max && (out.len() < min || self.chance(num, den)) {
            out.push(f(self));
        }
        out
    }
}
