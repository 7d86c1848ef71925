//! Choice-sequence generator: every random decision of a case is one `draw(n)`; the recorded sequence
//! of draws *is* the case. Shrinking edits the sequence; replay re-runs it.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/1000
    pub fn permille(&mut self, p: u64) -> bool {
        p > 0 && self.below(1000) < p
    }
}

/// Mix several numbers into one hash.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(23);
    z = (z ^ (z >> 33)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    z ^ (z >> 29)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, s.len() as u64)
}

pub struct Source {
    data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub recorded: Vec<u64>,
    /// spans of choices that belong together, (start, end)
    pub spans: Vec<(u32, u32)>,
    open: Vec<u32>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { data: vec![], pos: 0, rng: Some(Rng::new(seed)), recorded: vec![], spans: vec![], open: vec![] }
    }
    /// Replay given choices; beyond the end every draw is 0 (the simplest choice).
    pub fn replay(data: Vec<u64>) -> Self {
        Source { data, pos: 0, rng: None, recorded: vec![], spans: vec![], open: vec![] }
    }
    /// uniform in 0..n; 0 is the simplest
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.data.len() {
            self.data[self.pos].min(n - 1)
        } else if let Some(r) = self.rng.as_mut() {
            r.below(n)
        } else {
            0
        };
        self.pos += 1;
        self.recorded.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability p/1000; false is simplest
    pub fn permille(&mut self, p: u64) -> bool {
        self.draw(1000) >= 1000 - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    /// index by weight; index 0 should be the simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn begin(&mut self) {
        self.open.push(self.recorded.len() as u32);
    }
    pub fn end(&mut self) {
        let s = self.open.pop().unwrap();
        self.spans.push((s, self.recorded.len() as u32));
    }
    /// A "more?" loop helper: draws a length-like decision before each element so that deleting a span
    /// removes an element. Mean length approx `mean`, at most `max`.
    pub fn more(&mut self, count: usize, max: usize, mean: u64) -> bool {
        if count >= max {
            return false;
        }
        self.draw(mean + 1) != 0
    }
}
