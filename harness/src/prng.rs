//! Small deterministic PRNG: every random choice of the harness derives from
//! (VERIF_SEED, stream name, case index), so any case can be replayed alone.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn for_case(seed: u64, stream: &str, ix: u64) -> Self {
        Rng::new(seed.wrapping_mul(0x9E37_79B9) ^ hash_str(stream).rotate_left(17) ^ ix.wrapping_mul(0xD134_2543_DE82_EF95))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (((self.u64() >> 32) * (n as u64)) >> 32) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i128, hi: i128) -> i128 {
        if hi <= lo {
            return lo;
        }
        let span = (hi - lo) as u128 + 1;
        let r = ((self.u64() as u128) << 64) | self.u64() as u128;
        lo + (r % span) as i128
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// bytes biased to values with special meaning in the format
    pub fn spicy_bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 40 && self.chance(1, 3) {
            // one byte over and over, or all but for one
            let mut b = vec![*self.pick(&[0u8, 0, 0xff, 0x80, 1, 0x7f, b'a']); n];
            if self.chance(1, 3) {
                let at = self.below(n);
                b[at] = self.u8();
            }
            return b;
        }
        let mut b = self.spicy_each(n);
        if n > 0 && self.chance(1, 12) {
            // marks which readers of text and of files like to interpret
            let m: &[u8] = *self.pick(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xfe\xff", b"0x", b"0X", b"\n", b"\r\n", b" ", b"\0", b"\0\0", b"#!", b"\x1f\x8b", b"\x1b[", b"%", b"\x04\x00", b"\xed\xa0\x80"]);
            let m = &m[..m.len().min(n)];
            let at = if self.chance(1, 2) { 0 } else { n - m.len() };
            b[at..at + m.len()].copy_from_slice(m);
            if self.chance(1, 2) {
                // the rest is plain text
                for (i, x) in b.iter_mut().enumerate() {
                    if i < at || i >= at + m.len() {
                        *x = 0x20 + (*x % 0x5f);
                    }
                }
            }
        }
        b
    }
    fn spicy_each(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| match self.below(10) {
                0 | 1 => 0x00,
                2 => 0xff,
                3 => 0x01,
                4 => 0x80,
                5 => 0x7f,
                6 => self.below(8) as u8,
                _ => self.u8(),
            })
            .collect()
    }
    /// mostly `size(max)`, now and then a length around one of the boundaries
    /// implementations like to have (word, cache line, small-buffer, u8/u16)
    pub fn long(&mut self, max: usize) -> usize {
        if !self.chance(1, 40) {
            return self.size(max);
        }
        let base = *self.pick(&[16usize, 24, 32, 48, 64, 96, 100, 128, 200, 255, 256, 257, 300, 512, 1000, 1024]);
        let base = if self.chance(1, 50) { return self.large() } else { base };
        base + self.below(4) - 1
    }
    /// a length near a power of two (or of ten) from 128 to 131072, now and
    /// then around a mebibyte
    pub fn large(&mut self) -> usize {
        let base = match self.below(24) {
            0 => 1 << 20,
            1 => 100_000,
            2 => 10_000,
            3 => 3 << self.range(6, 15),
            4..=8 => 1 << 16,
            9..=11 => 1 << 15,
            12 => return self.range(30_000, 140_000),
            _ => 1 << self.range(7, 17),
        };
        base + self.below(5) - 2
    }
    /// small-biased size in 0..=max
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 => 0,
            1 => 1.min(max),
            2 => self.range(0, max.min(3)),
            3 | 4 => self.range(0, max.min(12)),
            _ => self.range(0, max),
        }
    }
}

/// An iterator whose size hint is true, but need not be exact.
pub struct Hinted<I> {
    it: std::vec::IntoIter<I>,
    kind: u8,
}
/// the items of `v`, announced in one of several truthful ways
pub fn hinted<I>(r: &mut Rng, v: impl IntoIterator<Item = I>) -> Hinted<I> {
    Hinted { it: v.into_iter().collect::<Vec<I>>().into_iter(), kind: r.below(6) as u8 }
}
impl<I> Iterator for Hinted<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(n)),
            4 => (n / 2, Some(n * 2 + 1)),
            _ => (n, Some(usize::MAX)),
        }
    }
}

/// An owned copy with spare capacity: none, a little, or much more than content.
/// (Chosen by the content, so that a case stays reproducible.)
pub fn roomy<T: Clone>(v: &[T], salt: usize) -> Vec<T> {
    let n = v.len();
    let extra = match (n.wrapping_mul(31) + salt.wrapping_mul(7) + n / 3) % 6 {
        0 | 1 => 0,
        2 => 1 + salt % 3,
        3 => n + 16,
        4 => 8 * n + 64,
        _ => 4096,
    };
    let mut out = Vec::with_capacity(n + extra);
    out.extend_from_slice(v);
    out
}
pub fn roomy_text(s: &str, salt: usize) -> String {
    String::from_utf8(roomy(s.as_bytes(), salt)).unwrap()
}
