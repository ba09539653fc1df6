//! Choice stream: decodes the words generated (and shrunk) by proptest into structured cases.
//! Reading past the end yields 0 and 0 always selects the simplest alternative, so shrinking the
//! words shrinks the case.

pub struct Src<'a> {
    words: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(words: &'a [u32]) -> Self {
        Src { words, pos: 0 }
    }

    pub fn word(&mut self) -> u32 {
        let w = self.words.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        w
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.word() as u64 * n as u64) >> 32) as usize
    }

    /// Uniform in `lo..=hi`, the shrink target is `lo`.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let n = (hi - lo + 1) as u128;
        let w = if n > 1 << 32 {
            ((self.word() as u128) << 32) | self.word() as u128
        } else {
            (self.word() as u128) << 32
        };
        lo + ((w * n) >> 64) as i64
    }

    /// Uniform in `-hi..=hi`, the shrink target is 0.
    pub fn sint(&mut self, hi: i64) -> i64 {
        let k = self.int(0, 2 * hi);
        if k % 2 == 0 {
            k / 2
        } else {
            -(k + 1) / 2
        }
    }

    pub fn f01(&mut self) -> f64 {
        self.word() as f64 / 4294967296.0
    }

    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f01()
    }

    pub fn sym(&mut self, hi: f64) -> f64 {
        let w = self.word();
        let m = (w >> 1) as f64 / 2147483648.0 * hi;
        if w & 1 == 0 {
            m
        } else {
            -m
        }
    }

    /// True with the given percentage; false is the simplest.
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) >= 100 - percent
    }

    /// Weighted choice of an index.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut k = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        unreachable!()
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // word 0 leaves the order unchanged
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
