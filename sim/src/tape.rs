//! The single source of choice in a simulated run: a seeded generator whose every
//! draw is recorded, so that a run is a pure function of its tape, a tape can be
//! minimised, and a minimised tape replays exactly.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub struct Tape {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    /// the message drawn last, which may come again
    pub last: Option<crate::refws::M>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { rng: Rng::new(seed), replay: None, rec: Vec::new(), last: None }
    }
    pub fn replay(v: Vec<u32>) -> Tape {
        Tape { rng: Rng::new(0), replay: Some(v), rec: Vec::new(), last: None }
    }
    /// A number in 0..n; 0 is always the simplest alternative.
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => ((self.rng.next() >> 32) * n as u64 >> 32) as u32,
        };
        self.rec.push(v);
        v
    }
    /// A replayed tape is used up: every further choice is 0.
    pub fn spent(&self) -> bool {
        self.replay.as_ref().map_or(false, |r| self.rec.len() >= r.len())
    }
    /// True with probability p/1000; false is the simple alternative.
    pub fn chance(&mut self, p: u32) -> bool {
        if p == 0 {
            return false;
        }
        self.choose(1000) >= 1000 - p.min(1000)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.choose((hi - lo + 1) as u32) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len() as u32) as usize]
    }
    /// Index drawn with the given weights (index 0 simplest).
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.choose(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
}
