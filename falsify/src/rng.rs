//! splitmix64: every case is a pure function of its seed.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let v = self.bytes(N);
        let mut a = [0; N];
        a.copy_from_slice(&v);
        a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A length that favours boundaries: 0,1, powers of two +-1, and uniform up to max.
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(8) {
            0 => self.below(3),
            1 => {
                let p = 1usize << self.below(13);
                match self.below(3) {
                    0 => p - 1,
                    1 => p,
                    _ => p + 1,
                }
            }
            2 => self.below(20),
            3 => self.below(80),
            _ => self.below(max + 1),
        };
        n.min(max)
    }
    /// bytes with structure: random, constant, periodic, text-like, self-copying
    pub fn data(&mut self, max: usize) -> Vec<u8> {
        let mut n = self.len(max);
        if self.one_in(48) {
            // now and then longer than the caller had in mind
            let p = 1usize << *self.pick(&[8, 8, 9, 10, 12, 13, 16]);
            n = p - 1 + self.below(3);
        }
        match self.below(6) {
            0 => vec![self.byte(); n],
            1 => {
                let p = self.range(1, 12);
                let pat = self.bytes(p);
                (0..n).map(|i| pat[i % p]).collect()
            }
            2 => (0..n).map(|_| self.byte() & 3).collect(),
            3 => {
                let mut v: Vec<u8> = vec![];
                while v.len() < n {
                    if v.len() > 4 && self.bool() {
                        let s = self.below(v.len());
                        let l = self.range(1, 40).min(v.len() - s);
                        let c = v[s..s + l].to_vec();
                        v.extend(c);
                    } else {
                        let l = self.range(1, 20);
                        let b = self.bytes(l);
                        v.extend(b);
                    }
                }
                v.truncate(n);
                v
            }
            4 => vec![[0u8, 0xff, 0x80, 0x7f][self.below(4)]; n],
            _ => self.bytes(n),
        }
    }
}
