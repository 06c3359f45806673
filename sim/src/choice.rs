//! The only source of decisions in a simulated run. In search mode the choices come from a PRNG seeded by one
//! integer and are logged; in replay mode they come from the logged sequence. Choice 0 is always the plainest
//! option (no fault, no preemption, stop), which is what the minimiser shrinks towards.

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub const MAX_CHOICES: usize = 300_000;

pub struct Choices {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub log: Vec<u32>,
}

impl Choices {
    pub fn from_seed(seed: u64) -> Choices {
        Choices { rng: Rng(seed), replay: None, pos: 0, log: Vec::new() }
    }
    pub fn from_log(log: Vec<u32>) -> Choices {
        Choices { rng: Rng(0), replay: Some(log), pos: 0, log: Vec::new() }
    }
    /// A value in 0..n.
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 || self.log.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            None => ((self.rng.next() >> 32) * n as u64 >> 32) as u32,
        };
        crate::mirror_choice(self.log.len(), v);
        self.log.push(v);
        v
    }
}

pub fn choose(n: u32) -> u32 {
    unsafe { crate::run::ctx().ch.choose(n) }
}
pub fn range(lo: i64, hi: i64) -> i64 {
    lo + choose((hi - lo + 1) as u32) as i64
}
/// True with probability p/1000; choice 0 is false.
pub fn permille(p: u32) -> bool {
    p > 0 && choose(1000) >= 1000 - p.min(999)
}
/// Index i with probability w[i]/sum; choice 0 is the first index with a positive weight.
pub fn weighted(w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut v = choose(total);
    for (i, &x) in w.iter().enumerate() {
        if v < x {
            return i;
        }
        v -= x;
    }
    0
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize]
}
