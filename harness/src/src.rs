//! Source of random choices.  A pseudo random stream (one independent stream
//! per case, derived from the seed, the check and the case number) or a fixed
//! byte string (coverage guided fuzzing).
#[derive(Clone)]
pub struct Src {
    state: u64,
    bytes: Option<(Vec<u8>, usize)>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Src {
    pub fn new(seed: u64, label: &str, index: u64) -> Self {
        Src {
            state: mix(mix(seed) ^ hash_str(label)) ^ mix(index.wrapping_mul(0x2545F4914F6CDD1D)),
            bytes: None,
        }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        Src {
            state: 0,
            bytes: Some((b.to_vec(), 0)),
        }
    }
    pub fn next(&mut self) -> u32 {
        if let Some((b, pos)) = &mut self.bytes {
            // one byte picks among the (small) alternatives
            let v = b.get(*pos).copied().unwrap_or(0) as u32;
            *pos += 1;
            return v << 24 | v << 16 | v << 8 | v;
        }
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        (mix(self.state) >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u64 * n as u64) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with p percent
    pub fn chance(&mut self, p: u32) -> bool {
        (self.below(100) as u32) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn s(&mut self, v: &[&str]) -> String {
        v[self.below(v.len())].to_string()
    }
    /// index with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = self.below(total.max(1) as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn u64(&mut self) -> u64 {
        (self.next() as u64) << 32 | self.next() as u64
    }
}
