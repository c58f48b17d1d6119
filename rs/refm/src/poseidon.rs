//! Poseidon over F_p, t = 3, alpha = 5, R_F = 8, R_P = 56, constants from the Grain LFSR.
use crate::*;

pub struct Params {
    pub rc: Vec<U>,
    pub mds: [[U; 3]; 3],
}
struct Grain(Vec<bool>);
impl Grain {
    fn new(field: u64, sbox: u64, n: u64, t: u64, rf: u64, rp: u64) -> Grain {
        let mut s = vec![];
        let mut push = |v: u64, k: u32| {
            for i in (0..k).rev() {
                s.push(v >> i & 1 == 1);
            }
        };
        push(field, 2);
        push(sbox, 4);
        push(n, 12);
        push(t, 12);
        push(rf, 10);
        push(rp, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain(s);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let s = &self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.0.remove(0);
        self.0.push(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.step();
            let b = self.step();
            if a {
                return b;
            }
        }
    }
    fn int(&mut self, n: usize) -> U {
        let mut r = [0u64; 4];
        for i in (0..n).rev() {
            if self.bit() {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        r
    }
}
/// The reference script's constants: field elements by rejection, then the Cauchy matrix.
pub fn params() -> Params {
    let mut g = Grain::new(1, 0, 256, 3, 8, 56);
    let mut rc = vec![];
    while rc.len() < 3 * 64 {
        let v = g.int(256);
        if lt(&v, &P) {
            rc.push(v);
        }
    }
    let mut v = vec![];
    for _ in 0..6 {
        v.push(FP.red(&g.int(256)));
    }
    let mut mds = [[[0u64; 4]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            mds[i][j] = FP.inv(&FP.add(&v[i], &v[3 + j]));
        }
    }
    Params { rc, mds }
}
fn sbox(x: &U) -> U {
    let x2 = FP.sq(x);
    FP.mul(&FP.sq(&x2), x)
}
pub fn permute(pa: &Params, mut s: [U; 3]) -> [U; 3] {
    for r in 0..64 {
        for i in 0..3 {
            s[i] = FP.add(&s[i], &pa.rc[3 * r + i]);
        }
        if r < 4 || r >= 60 {
            for i in 0..3 {
                s[i] = sbox(&s[i]);
            }
        } else {
            s[0] = sbox(&s[0]);
        }
        let mut o = [[0u64; 4]; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[i] = FP.add(&o[i], &FP.mul(&pa.mds[i][j], &s[j]));
            }
        }
        s = o;
    }
    s
}
pub fn hash2(pa: &Params, a: &U, b: &U) -> U {
    permute(pa, [u(3), *a, *b])[1]
}
