//! Choice tape: every random decision of a generator is one draw from the tape, so a case is
//! fully described by its tape and can be shrunk by editing it.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (((self.next() >> 32) * u64::from(n)) >> 32) as u32
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= u64::from(b);
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    }
    let mut r = Rng(h);
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Src {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// the given values first, then random ones
    pub fn prefixed(tape: &[u32], seed: u64) -> Self {
        Src { tape: tape.to_vec(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: &[u32]) -> Self {
        Src { tape: tape.to_vec(), pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// uniform draw in 0..n; 0 is by convention the simplest choice
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos].min(n - 1);
            self.tape[self.pos] = v;
            v
        } else {
            let v = match &mut self.rng {
                Some(r) => r.below(n),
                None => 0,
            };
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    /// true with probability num/den (false is the simple choice)
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.idx(xs.len())]
    }
    /// weighted choice, index of the chosen weight
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
}

/// Shrink `tape` while `fails(candidate)` stays true. `fails` returns the normalised tape of the
/// candidate when it still fails.
pub fn shrink<F: FnMut(&[u32]) -> Option<Vec<u32>>>(tape: &[u32], max_runs: usize, mut fails: F) -> Vec<u32> {
    let mut best = tape.to_vec();
    let mut runs = 0usize;
    let key = |t: &[u32]| (t.len(), t.iter().map(|x| u64::from(*x)).sum::<u64>());
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if runs >= max_runs {
                    return best;
                }
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                runs += 1;
                if let Some(t) = fails(&c) {
                    if key(&t) < key(&best) {
                        best = t;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    if runs >= max_runs {
                        return best;
                    }
                    let mut c = best.clone();
                    c[i..end].fill(0);
                    runs += 1;
                    if let Some(t) = fails(&c) {
                        if key(&t) < key(&best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut step = best[i] / 2;
            while best.get(i).copied().unwrap_or(0) > 0 {
                if runs >= max_runs {
                    return best;
                }
                let cand = best[i].saturating_sub(step.max(1));
                let mut c = best.clone();
                c[i] = cand;
                runs += 1;
                match fails(&c) {
                    Some(t) if key(&t) < key(&best) => best = t,
                    _ => {
                        if step <= 1 {
                            break;
                        }
                        step /= 2;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
