//! Reference models used as oracles.  Nothing here is taken from /repo: integers are schoolbook,
//! fields are integers reduced by the prime, curves are the textbook formulas.
pub mod ec;
pub mod poseidon;
pub mod swu;

/// 256-bit little-endian integer.
pub type U = [u64; 4];

/// p = 2^256 - 2^32 - 977: secp256k1's base field, the proof system's scalar field.
pub const P: U = [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX];
/// n: the order of secp256k1, the coordinate field of secq256k1.
pub const N: U = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX];

pub fn le(b: &[u8; 32]) -> U {
    let mut o = [0; 4];
    for i in 0..4 {
        o[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    o
}
pub fn to_le(u: &U) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&u[i].to_le_bytes());
    }
    o
}
pub fn be(b: &[u8; 32]) -> U {
    let mut r = *b;
    r.reverse();
    le(&r)
}
pub fn to_be(u: &U) -> [u8; 32] {
    let mut r = to_le(u);
    r.reverse();
    r
}
pub fn hex(s: &str) -> U {
    let s = s.trim_start_matches("0x");
    let s = format!("{:0>64}", s);
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    be(&b)
}
pub fn u(x: u64) -> U {
    [x, 0, 0, 0]
}
pub fn cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn lt(a: &U, b: &U) -> bool {
    cmp(a, b) == std::cmp::Ordering::Less
}
pub fn is_zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn addc(a: &U, b: &U) -> (U, bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
pub fn subb(a: &U, b: &U) -> (U, bool) {
    let mut o = [0; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let t = a[i] as i128 - b[i] as i128 + br;
        o[i] = t as u64;
        br = t >> 64;
    }
    (o, br != 0)
}
pub fn wide_mul(a: &U, b: &U) -> [u64; 8] {
    let mut o = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += a[i] as u128 * b[j] as u128 + o[i + j] as u128;
            o[i + j] = c as u64;
            c >>= 64;
        }
        o[i + 4] = c as u64;
    }
    o
}
pub fn bit(a: &U, i: usize) -> bool {
    a[i / 64] >> (i % 64) & 1 == 1
}
pub fn bits(a: &U) -> usize {
    (0..256).rev().find(|i| bit(a, *i)).map(|i| i + 1).unwrap_or(0)
}
pub fn shr1(a: &U) -> U {
    let mut o = [0; 4];
    for i in 0..4 {
        o[i] = a[i] >> 1 | if i < 3 { a[i + 1] << 63 } else { 0 };
    }
    o
}

/// A prime modulus m with 2^255 < m < 2^256.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fm {
    pub m: U,
    c: U, // 2^256 - m
}
impl Fm {
    pub const fn raw(m: U, c: U) -> Fm {
        Fm { m, c }
    }
    pub fn red(&self, a: &U) -> U {
        if lt(a, &self.m) {
            *a
        } else {
            subb(a, &self.m).0
        }
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = addc(a, b);
        if c || !lt(&s, &self.m) {
            subb(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (d, br) = subb(a, b);
        if br {
            addc(&d, &self.m).0
        } else {
            d
        }
    }
    pub fn neg(&self, a: &U) -> U {
        self.sub(&[0; 4], a)
    }
    /// Value of a 512-bit integer modulo m: hi*2^256 + lo = hi*c + lo.
    pub fn red512(&self, w: &[u64; 8]) -> U {
        let mut w = *w;
        loop {
            let hi: U = [w[4], w[5], w[6], w[7]];
            let lo: U = [w[0], w[1], w[2], w[3]];
            if is_zero(&hi) {
                let mut r = lo;
                while !lt(&r, &self.m) {
                    r = subb(&r, &self.m).0;
                }
                return r;
            }
            let mut t = wide_mul(&hi, &self.c);
            let mut c = 0u128;
            for i in 0..8 {
                c += t[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 };
                t[i] = c as u64;
                c >>= 64;
            }
            assert_eq!(c, 0);
            w = t;
        }
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.red512(&wide_mul(a, b))
    }
    pub fn sq(&self, a: &U) -> U {
        self.mul(a, a)
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = u(1);
        for i in (0..bits(e)).rev() {
            r = self.sq(&r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// a^-1 by the extended binary GCD (0 for 0).
    pub fn inv(&self, a: &U) -> U {
        if is_zero(a) {
            return [0; 4];
        }
        let (mut x, mut y) = (*a, self.m);
        let (mut r, mut s) = (u(1), u(0));
        let half = |v: &U| -> U {
            if v[0] & 1 == 0 {
                shr1(v)
            } else {
                let (t, c) = addc(v, &self.m);
                let mut h = shr1(&t);
                if c {
                    h[3] |= 1 << 63;
                }
                h
            }
        };
        while x != u(1) && y != u(1) {
            while x[0] & 1 == 0 {
                x = shr1(&x);
                r = half(&r);
            }
            while y[0] & 1 == 0 {
                y = shr1(&y);
                s = half(&s);
            }
            if lt(&x, &y) {
                y = subb(&y, &x).0;
                s = self.sub(&s, &r);
            } else {
                x = subb(&x, &y).0;
                r = self.sub(&r, &s);
            }
        }
        if x == u(1) {
            r
        } else {
            s
        }
    }
    /// Euler's criterion (0 counts as a square).
    pub fn is_square(&self, a: &U) -> bool {
        let e = shr1(&subb(&self.m, &u(1)).0);
        is_zero(a) || self.pow(a, &e) == u(1)
    }
    /// A square root, if there is one (Tonelli-Shanks; any prime).
    pub fn sqrt(&self, a: &U) -> Option<U> {
        if is_zero(a) {
            return Some([0; 4]);
        }
        if !self.is_square(a) {
            return None;
        }
        let one = u(1);
        let mut q = subb(&self.m, &one).0;
        let mut s = 0;
        while q[0] & 1 == 0 {
            q = shr1(&q);
            s += 1;
        }
        let mut z = u(2);
        while self.is_square(&z) {
            z = self.add(&z, &one);
        }
        let mut m = s;
        let mut c = self.pow(&z, &q);
        let mut t = self.pow(a, &q);
        let mut r = self.pow(a, &shr1(&addc(&q, &one).0));
        while t != one {
            let mut i = 0;
            let mut t2 = t;
            while t2 != one {
                t2 = self.sq(&t2);
                i += 1;
            }
            let mut b = c;
            for _ in 0..m - i - 1 {
                b = self.sq(&b);
            }
            m = i;
            c = self.sq(&b);
            t = self.mul(&t, &c);
            r = self.mul(&r, &b);
        }
        Some(r)
    }
    /// Value of little-endian bytes of any length modulo m.
    pub fn from_le_bytes(&self, b: &[u8]) -> U {
        let mut r = [0; 4];
        for x in b.iter().rev() {
            r = self.mul(&r, &u(256));
            r = self.add(&r, &u(*x as u64));
        }
        r
    }
}
/// Integers modulo p.
pub const FP: Fm = Fm::raw(P, [0x1000003D1, 0, 0, 0]);
/// Integers modulo n.
pub const FN: Fm = Fm::raw(N, [0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0]);

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        for f in [FP, FN] {
            assert_eq!(addc(&f.m, &f.c), ([0; 4], true));
            let a = hex("9f3c0e6e2b0d6b3c1f0d4f2c8a7766554433221100ffeeddccbbaa9988776655");
            assert_eq!(f.mul(&a, &f.inv(&a)), u(1));
            assert_eq!(f.inv(&a), f.pow(&a, &subb(&f.m, &u(2)).0));
            let s = f.sq(&a);
            let r = f.sqrt(&s).unwrap();
            assert!(r == a || r == f.neg(&a));
        }
    }
}
