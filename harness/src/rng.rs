/// xoshiro-style deterministic generator; every random choice of the harness comes from one.
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1_0000_01b3);
    }
    hash64(h)
}
pub fn mix(a: u64, b: u64) -> u64 {
    hash64(a.rotate_left(23) ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(hash64(seed), hash64(seed ^ 0xdead_beef))
    }
    pub fn u64(&mut self) -> u64 {
        let (mut a, b) = (self.0, self.1);
        self.0 = b;
        a ^= a << 23;
        self.1 = a ^ b ^ (a >> 17) ^ (b >> 26);
        self.1.wrapping_add(b)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// 0 <= x < n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 != 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// A number built out of `v`: repeated, swapped, shifted, counted on, cut.
    pub fn knit(&mut self, v: u128) -> u128 {
        let k = *self.pick(&[8u32, 16, 32, 64]);
        let low = v & ((1u128 << k) - 1);
        match self.below(14) {
            0 => (0..128 / k).fold(0, |a, i| a | low << (i * k)),
            1 => low | low << k.min(64),
            2 => low | low << 64,
            3 => v.rotate_left(k),
            4 => v << k,
            5 => v | v << k,
            6 => v.wrapping_add(1),
            7 => v.wrapping_sub(1),
            8 => v.wrapping_neg(),
            9 => !v,
            10 => (!0u128 >> self.below(128)) << self.below(128),
            11 => v.reverse_bits(),
            12 => v.swap_bytes(),
            _ => low | (!v << 64),
        }
    }
    /// The same for lists of words.
    pub fn knit_words(&mut self, w: &mut [u64]) {
        let n = w.len();
        if n == 0 {
            return;
        }
        let (i, j) = (self.below(n), self.below(n));
        match self.below(16) {
            0 => w.fill(w[i]),
            1 => w[j] = w[i],
            2 => w[j] = !w[i],
            3 => w[j] = w[i].wrapping_neg(),
            4 => w.swap(i, j),
            5 => w.reverse(),
            6 => w.rotate_left(i),
            7 => {
                // words which cancel in a sum, or in an exclusive or
                let rest = w.iter().fold(0u64, |a, x| a.wrapping_add(*x)).wrapping_sub(w[i]);
                w[i] = rest.wrapping_neg();
            }
            8 => {
                let rest = w.iter().fold(w[i], |a, x| a ^ *x);
                w[i] = rest;
            }
            9 => w[i] |= w[i] << 32,
            10 => w[i] = w[i].rotate_left(32),
            11 => w[i] = w[i].wrapping_add(1),
            12 => w[i] = w[i].wrapping_sub(1),
            13 => w[i] = w[j] & w[i],
            14 => w[i..].fill(0),
            _ => w[i..].fill(!0),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
