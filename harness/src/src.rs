//! Choice stream: every random decision of a generator is a `below(n)` draw.
//! The recorded draws are the replayable, shrinkable form of a case.

pub struct Src {
    state: [u64; 4],
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        let mut s = seed;
        let state = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
        Src { state, replay: None, pos: 0, log: vec![] }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src { state: [1, 2, 3, 4], replay: Some(choices), pos: 0, log: vec![] }
    }

    /// Raw draws of the random stream (used to replay a case that never returned).
    pub fn dump(seed: u64, n: usize) -> Vec<u64> {
        let mut s = Src::random(seed);
        (0..n).map(|_| s.next()).collect()
    }

    fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.state;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// A value in 0..n (n > 0). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
            None => self.next() % n,
        };
        self.log.push(v);
        v
    }

    pub fn any_u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }

    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }

    /// True with probability p/q; shrinks towards false.
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.below(q) >= q - p
    }

    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// Index chosen with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }

    /// A count in 0..=max, biased to small values.
    pub fn small(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let a = self.below(max as u64 + 1) as usize;
        let b = self.below(max as u64 + 1) as usize;
        a.min(b)
    }
}

impl Src {
    /// Mostly 0..=max and small, sometimes much more.
    pub fn few(&mut self, max: usize) -> usize {
        if self.chance(1, 12) {
            max + 1 + self.below(2 * max as u64 + 4) as usize
        } else {
            self.small(max)
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    let r = splitmix(&mut x);
    r ^ splitmix(&mut x).rotate_left(17)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// A name that is easily taken for `n`.
pub fn near(s: &mut Src, n: &str) -> String {
    let swap = |c: char| {
        if c.is_ascii_uppercase() {
            c.to_ascii_lowercase()
        } else {
            c.to_ascii_uppercase()
        }
    };
    match s.below(7) {
        0 => n.to_uppercase(),
        1 => {
            let mut c = n.chars();
            let f = c.next().map(swap).unwrap_or('q');
            format!("{}{}", f, c.as_str())
        }
        2 => format!("_{}", n),
        3 => format!("{}_", n),
        4 => format!("{}2", n),
        5 => format!("x{}", n),
        _ if n.len() > 1 => n[..n.len() - 1].to_string(),
        _ => format!("{0}{0}", n),
    }
}
