//! Plain Montgomery arithmetic for the three prime fields the repository uses.
//! It is independent of ark-ff on purpose: every operation recorded by the
//! engine is recomputed here and compared with what the real code produced.

pub type V = [u64; 6];
pub const ZEROV: V = [0; 6];

pub const FR: u8 = 0; // BLS12-381 scalar field
pub const GL: u8 = 1; // Goldilocks
pub const FQ: u8 = 2; // BLS12-381 base field
pub const NF: usize = 3;

pub struct Field {
    pub n: usize,
    pub m: V,
    pub inv: u64,
    pub r: V,
    pub r2: V,
    pub name: &'static str,
}

const FR_M: V = [
    0xffffffff00000001,
    0x53bda402fffe5bfe,
    0x3339d80809a1d805,
    0x73eda753299d7d48,
    0,
    0,
];
const GL_M: V = [0xffffffff00000001, 0, 0, 0, 0, 0];
const FQ_M: V = [
    0xb9feffffffffaaab,
    0x1eabfffeb153ffff,
    0x6730d2a0f6b0f624,
    0x64774b84f38512bf,
    0x4b1ba7b6434bacd7,
    0x1a0111ea397fe69a,
];

/// Field id from the low limb and the limb count (usable in const contexts).
pub const fn fid_of(low: u64, n: usize) -> u8 {
    if n == 4 && low == 0xffffffff00000001 {
        FR
    } else if n == 1 && low == 0xffffffff00000001 {
        GL
    } else if n == 6 && low == 0xb9feffffffffaaab {
        FQ
    } else {
        255
    }
}

pub fn fid_of_modulus(m: &[u64]) -> u8 {
    let mut n = m.len();
    while n > 1 && m[n - 1] == 0 {
        n -= 1;
    }
    fid_of(m[0], n)
}

pub fn geq(a: &V, b: &V) -> bool {
    for i in (0..6).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

fn sub_raw(a: &V, b: &V) -> (V, u64) {
    let mut r = ZEROV;
    let mut bor = 0u64;
    for i in 0..6 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bor);
        r[i] = x;
        bor = (b1 | b2) as u64;
    }
    (r, bor)
}

fn add_raw(a: &V, b: &V) -> (V, u64) {
    let mut r = ZEROV;
    let mut c = 0u128;
    for i in 0..6 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c as u64)
}

impl Field {
    fn new(n: usize, m: V, name: &'static str) -> Self {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let inv = inv.wrapping_neg();
        let mut f = Field {
            n,
            m,
            inv,
            r: ZEROV,
            r2: ZEROV,
            name,
        };
        // r = 2^(64 n) mod m by doubling
        let mut x = ZEROV;
        x[0] = 1;
        for _ in 0..64 * n {
            x = f.add(&x, &x);
        }
        f.r = x;
        for _ in 0..64 * n {
            x = f.add(&x, &x);
        }
        f.r2 = x;
        f
    }
    pub fn add(&self, a: &V, b: &V) -> V {
        let (s, c) = add_raw(a, b);
        // a,b < m <= 2^(64 n); for n = 6 there is spare room, for n = 1 limb 1 holds the carry
        debug_assert!(c == 0);
        if geq(&s, &self.m) {
            sub_raw(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &V, b: &V) -> V {
        let (s, bor) = sub_raw(a, b);
        if bor != 0 {
            add_raw(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn neg(&self, a: &V) -> V {
        self.sub(&ZEROV, a)
    }
    pub fn mul(&self, a: &V, b: &V) -> V {
        let n = self.n;
        let mut t = [0u64; 8];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[n] as u128;
            t[n] = c as u64;
            t[n + 1] = (c >> 64) as u64;
            let k = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + k as u128 * self.m[0] as u128) >> 64;
            for j in 1..n {
                c += t[j] as u128 + k as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[n] as u128;
            t[n - 1] = c as u64;
            t[n] = t[n + 1] + (c >> 64) as u64;
        }
        let mut r = ZEROV;
        r[..n].copy_from_slice(&t[..n]);
        let over = t[n] != 0;
        if over || geq(&r, &self.m) {
            let mut x = sub_raw(&r, &self.m).0;
            for k in n..6 {
                x[k] = 0;
            }
            x
        } else {
            r
        }
    }
    pub fn to_mont(&self, a: &V) -> V {
        self.mul(a, &self.r2)
    }
    pub fn to_canon(&self, a: &V) -> V {
        let mut one = ZEROV;
        one[0] = 1;
        self.mul(a, &one)
    }
    pub fn pow(&self, a: &V, e: &V) -> V {
        let mut acc = self.r;
        for i in (0..384).rev() {
            acc = self.mul(&acc, &acc);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                acc = self.mul(&acc, a);
            }
        }
        acc
    }
    pub fn inv(&self, a: &V) -> V {
        let mut two = ZEROV;
        two[0] = 2;
        let e = sub_raw(&self.m, &two).0;
        self.pow(a, &e)
    }
    /// reduce arbitrary limbs (canonical integer) below the modulus
    pub fn reduce(&self, a: &V) -> V {
        // schoolbook: shift-subtract over bits
        let mut acc = ZEROV;
        for i in (0..384).rev() {
            acc = self.add(&acc, &acc);
            if (a[i / 64] >> (i % 64)) & 1 == 1 {
                let mut one = ZEROV;
                one[0] = 1;
                acc = self.add(&acc, &one);
            }
        }
        acc
    }
    pub fn small(&self, canon: &V) -> bool {
        if canon[1..].iter().all(|x| *x == 0) && canon[0] < (1 << 20) {
            return true;
        }
        let ng = sub_raw(&self.m, canon).0;
        ng[1..].iter().all(|x| *x == 0) && ng[0] < (1 << 20)
    }
}

pub fn field(f: u8) -> &'static Field {
    use std::sync::OnceLock;
    static T: OnceLock<[Field; NF]> = OnceLock::new();
    &T.get_or_init(|| {
        [
            Field::new(4, FR_M, "Fr"),
            Field::new(1, GL_M, "Gl"),
            Field::new(6, FQ_M, "Fq"),
        ]
    })[f as usize]
}

pub fn to_dec(v: &V) -> String {
    let mut digits: Vec<u64> = vec![]; // base 1e18
    let mut x = *v;
    loop {
        if x.iter().all(|y| *y == 0) {
            break;
        }
        let mut rem = 0u128;
        for i in (0..6).rev() {
            let cur = (rem << 64) | x[i] as u128;
            x[i] = (cur / 1_000_000_000_000_000_000) as u64;
            rem = cur % 1_000_000_000_000_000_000;
        }
        digits.push(rem as u64);
    }
    if digits.is_empty() {
        return "0".into();
    }
    let mut s = format!("{}", digits.pop().unwrap());
    while let Some(d) = digits.pop() {
        s.push_str(&format!("{:018}", d));
    }
    s
}

pub fn from_dec(s: &str) -> V {
    let mut x = ZEROV;
    for c in s.bytes() {
        let mut carry = (c - b'0') as u128;
        for l in x.iter_mut() {
            let cur = *l as u128 * 10 + carry;
            *l = cur as u64;
            carry = cur >> 64;
        }
    }
    x
}

pub fn to_bytes(v: &V, n: usize) -> Vec<u8> {
    let mut r = Vec::with_capacity(n * 8);
    for l in v.iter().take(n) {
        r.extend_from_slice(&l.to_le_bytes());
    }
    r
}

/// splitmix-style PRF used for every pseudo-random choice (seeded by VERIF_SEED)
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0x1234567);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    mix(h ^ b.len() as u64)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a.rotate_left(17) ^ mix(b))
}
/// pseudo-random field element (Montgomery form), as a function of key
pub fn prf_field(f: u8, key: u64) -> V {
    let fl = field(f);
    let mut v = ZEROV;
    for i in 0..fl.n {
        v[i] = mix(key ^ mix(i as u64 + 77));
    }
    fl.reduce(&v)
}
