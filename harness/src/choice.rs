//! Choice-sequence based generation: every random decision of a case is one bounded draw.
//! A case is a pure function of its choice sequence, so replay and shrinking are generic.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { prefix: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }
    /// Replays a recorded sequence; draws after its end yield 0 (the simplest choice).
    pub fn replay(prefix: Vec<u64>) -> Self {
        Src { prefix, pos: 0, rng: None, rec: vec![] }
    }
    /// Uniform in 0..n; 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos].min(n - 1)
        } else if let Some(r) = &mut self.rng {
            r.next() % n
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index chosen by weight; put the simplest alternative first.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A "one more element?" decision with the given expected number of elements.
    pub fn more(&mut self, have: usize, max: usize, avg: u64) -> bool {
        have < max && self.chance(avg, avg + 1)
    }
}

/// Minimises a failing choice sequence. `fails` must be deterministic.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    deadline: std::time::Instant,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut tries = 0usize;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if tries >= budget || std::time::Instant::now() > deadline {
            return false;
        }
        tries += 1;
        if let Some(rec) = fails(cand) {
            // keep the actually used choices if this is an improvement
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let key = |v: &Vec<u64>| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
            if key(&rec) < key(best) {
                *best = rec;
                return true;
            }
            let c = cand.to_vec();
            if key(&c) < key(best) {
                *best = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                if !try_it(&c, &mut best) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    try_it(&c, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 1 {
                for nv in [1, v / 2, v - 1] {
                    if i < best.len() && nv < best[i] {
                        let mut c = best.clone();
                        c[i] = nv;
                        if try_it(&c, &mut best) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
        drop(before);
    }
    (best, tries)
}
