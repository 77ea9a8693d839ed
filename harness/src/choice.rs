//! Choice source. Every generator draws small integers from a `Src`; the recorded draws are the
//! test case. Shrinking deletes and lowers draws and replays the generator, so every shrunk case is
//! again a case the generator can produce (0 is the simplest choice everywhere).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h ^ (h >> 29)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>),
    /// replays, then goes on at random
    Extend(Vec<u32>, Rng),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub record: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, record: Vec::new() }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, record: Vec::new() }
    }
    pub fn extend(choices: Vec<u32>, seed: u64) -> Self {
        Src { mode: Mode::Extend(choices, Rng::new(seed)), pos: 0, record: Vec::new() }
    }
    /// A value in 0..n.
    pub fn draw(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => (r.next() >> 33) as u32 % n,
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
            Mode::Extend(c, r) => match c.get(self.pos) {
                Some(v) => v % n,
                None => (r.next() >> 33) as u32 % n,
            },
        };
        self.pos += 1;
        assert!(self.pos < 20_000_000, "a generator does not end");
        self.record.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    /// True with probability p percent; false is the simple choice.
    pub fn chance(&mut self, p: u32) -> bool {
        // drawn so that 0 means false
        self.draw(100) >= 100 - p
    }
    /// True with probability p in a thousand.
    pub fn rarely(&mut self, p: u32) -> bool {
        self.draw(1000) >= 1000 - p
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// List length: mostly short, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        if let Some(n) = crate::dict::fresh_len(self, max) {
            return n;
        }
        let n = match self.weighted(&[30, 26, 18, 12, 8, 5, 1]) {
            k @ 0..=4 => k,
            5 => 5 + self.usize(4),
            _ => 9 + self.usize(32),
        };
        n.min(max)
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
}

/// A variant of `base`: parts overwritten, deleted, inserted, repeated, or taken from `other`.
/// True when it is to be replayed with simplest choices after its end, not random ones.
pub fn mutate(base: &[u32], other: &[u32], r: &mut Rng) -> (Vec<u32>, bool) {
    let mut c = base.to_vec();
    let mut below = |n: usize| (r.next() >> 33) as usize % n.max(1);
    let rounds = [1, 1, 1, 2, 2, 3, 4, 6][below(8)];
    for _ in 0..rounds {
        let n = c.len();
        let size = match below(4) {
            0 => 1,
            1 => 1 + below(4),
            2 => 1 + below(16),
            _ => 1 + below(64),
        };
        let at = below(n + 1);
        let end = (at + size).min(n);
        match below(10) {
            0 | 1 => {
                if at < n {
                    c[at] = below(1 << 30) as u32;
                }
            }
            2 => {
                if at < n {
                    c[at] = below(8) as u32;
                }
            }
            3 => {
                if at < n {
                    c[at] = if below(2) == 0 { c[at].wrapping_add(1) } else { c[at].saturating_sub(1) };
                }
            }
            4 => {
                c.drain(at..end);
            }
            5 => {
                let new: Vec<u32> = (0..size).map(|_| below(1 << 30) as u32).collect();
                c.splice(at..at, new);
            }
            6 => {
                let copy = c[at..end].to_vec();
                c.splice(end..end, copy);
            }
            7 => {
                let copy = c[at..end].to_vec();
                let to = below(n + 1);
                c.splice(to..to, copy);
            }
            8 => {
                let from = below(other.len() + 1);
                let part = other[from..(from + size * 2).min(other.len())].to_vec();
                if below(2) == 0 {
                    c.splice(at..at, part);
                } else {
                    c.splice(at..end, part);
                }
            }
            _ => {
                // all after this anew, or from another
                c.truncate(at);
                if below(2) == 0 {
                    c.extend_from_slice(&other[below(other.len() + 1)..]);
                }
            }
        }
    }
    (c, below(3) == 0)
}

/// Shrinks `choices` while `fails` holds. `fails` returns the choices actually consumed.
pub fn shrink(
    choices: Vec<u32>,
    mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
    max_evals: usize,
    max_time: std::time::Duration,
) -> Vec<u32> {
    let start = std::time::Instant::now();
    let mut best = choices;
    let mut evals = 0usize;
    let less = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>, evals: &mut usize| -> bool {
        if *evals >= max_evals || start.elapsed() > max_time {
            return false;
        }
        *evals += 1;
        if let Some(used) = fails(cand) {
            let mut used = used;
            while used.last() == Some(&0) {
                used.pop();
            }
            if less(&used, best) {
                *best = used;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    attempt(&cand, &mut best, &mut evals);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] {
                        *x = 0;
                    }
                    attempt(&cand, &mut best, &mut evals);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt(&cand, &mut best, &mut evals) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // lower a length while deleting an element that followed it
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for d in 1..=6usize {
                    if i + 1 + d <= best.len() && best.get(i).copied().unwrap_or(0) > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + d);
                        attempt(&cand, &mut best, &mut evals);
                    }
                }
            }
            i += 1;
        }
        if best == before || evals >= max_evals || start.elapsed() > max_time {
            return best;
        }
    }
}
