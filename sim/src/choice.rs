//! The single source of every decision of a simulated run.
//!
//! A run is a pure function of a sequence of bounded choices. In search mode the choices come from a
//! PRNG seeded with (VERIF_SEED, property, run index); in replay mode from a recorded list, and a list
//! that is too short continues with zeros. Generators are written so that 0 is always the simplest
//! option (no fault, no switch, smallest value), which makes the recorded list directly minimisable.

pub struct Ch {
    state: u64,
    replay: Option<&'static [u64]>,
    pos: usize,
    silent: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}

impl Ch {
    pub fn random(seed: u64) -> Ch {
        Ch { state: seed, replay: None, pos: 0, silent: false }
    }

    pub fn replay(list: &'static [u64]) -> Ch {
        Ch { state: 0, replay: Some(list), pos: 0, silent: false }
    }

    /// the simplest choices, which are not part of the run's record
    pub fn zeros() -> Ch {
        Ch { state: 0, replay: Some(&[]), pos: 0, silent: true }
    }

    /// choices that are a function of the seed alone and not part of the run's record
    pub fn quiet(seed: u64) -> Ch {
        Ch { state: seed, replay: None, pos: 0, silent: true }
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(l) => {
                let v = l.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { n - 1 }
            }
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = mix(self.state);
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        if !self.silent {
            crate::rt::record_choice(v);
        }
        v
    }

    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den; the minimal choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.us(l.len())]
    }

    pub fn bits(&mut self) -> u64 {
        self.below(u64::MAX)
    }

    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    /// a length: mostly small, sometimes around powers of two, rarely up to max
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.weighted(&[40, 30, 16, 8, 6]) {
            0 => self.us(4),
            1 => self.us(12),
            2 => {
                let p = 1usize << self.range(2, 8);
                (p + self.us(3)).saturating_sub(1)
            }
            3 => self.us(300),
            _ => {
                let p = 1usize << self.range(6, 16);
                (p + self.us(5)).saturating_sub(2)
            }
        };
        v.min(max)
    }

    /// log-uniform in 1..=2^maxbits
    pub fn log(&mut self, maxbits: u64) -> u64 {
        let b = self.below(maxbits + 1);
        (1u64 << b) + self.below(1u64 << b)
    }
}
