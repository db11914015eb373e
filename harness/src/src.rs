//! The source of random choices. Every generated case is a pure function of a
//! list of integers, so that a case can be replayed and shrunk.

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
}

fn log_file() -> Option<std::fs::File> {
    std::env::var("PT_LOG").ok().and_then(|p| std::fs::File::create(p).ok())
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn hash_u64s(v: &[u64]) -> u64 {
    let mut h: u64 = 0x1234_5678;
    for x in v {
        h = mix(h ^ *x);
    }
    h
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, rec: vec![], log: log_file() }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(v), pos: 0, rec: vec![], log: log_file() }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
    /// A number in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v >= n { v % n } else { v }
            }
            None => self.raw() % n,
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = std::io::Write::write_all(f, format!("{}\n", v).as_bytes());
        }
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability pct %, false is simpler
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct
    }
    /// Whether to make one more element, expected number about `avg`.
    pub fn more(&mut self, n: usize, max: usize, avg: u64) -> bool {
        n < max && self.below(avg + 1) != 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn bits(&mut self) -> u64 {
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        (b << 32) | a
    }
}
