//! y^2 = x^3 + 7 over F_p (secp256k1) and over F_n (secq256k1).
use crate::*;

#[derive(Clone, Copy, Debug)]
pub struct Curve {
    pub f: Fm,
    pub order: Fm,
}
pub const SECP: Curve = Curve { f: FP, order: FN };
pub const SECQ: Curve = Curve { f: FN, order: FP };

/// None is the point at infinity.
pub type Pt = Option<(U, U)>;

impl Curve {
    pub fn rhs(&self, x: &U) -> U {
        let f = self.f;
        f.add(&f.mul(&f.sq(x), x), &u(7))
    }
    pub fn on(&self, p: &Pt) -> bool {
        match p {
            None => true,
            Some((x, y)) => self.f.sq(y) == self.rhs(x),
        }
    }
    pub fn lift(&self, x: &U, odd: bool) -> Pt {
        let y = self.f.sqrt(&self.rhs(x))?;
        Some((*x, if (y[0] & 1 == 1) == odd { y } else { self.f.neg(&y) }))
    }
    pub fn neg(&self, p: &Pt) -> Pt {
        p.map(|(x, y)| (x, self.f.neg(&y)))
    }
    /// Chord and tangent, affine.
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let f = self.f;
        let (x1, y1) = match p {
            None => return *q,
            Some(v) => *v,
        };
        let (x2, y2) = match q {
            None => return *p,
            Some(v) => *v,
        };
        let l = if x1 == x2 {
            if f.add(&y1, &y2) == [0; 4] {
                return None;
            }
            f.mul(&f.mul(&u(3), &f.sq(&x1)), &f.inv(&f.add(&y1, &y1)))
        } else {
            f.mul(&f.sub(&y2, &y1), &f.inv(&f.sub(&x2, &x1)))
        };
        let x3 = f.sub(&f.sub(&f.sq(&l), &x1), &x2);
        Some((x3, f.sub(&f.mul(&l, &f.sub(&x1, &x3)), &y1)))
    }
    pub fn dbl(&self, p: &Pt) -> Pt {
        self.add(p, p)
    }
    /// Double-and-add over the integer k (not reduced first).
    pub fn mul(&self, k: &U, p: &Pt) -> Pt {
        let mut r = None;
        for i in (0..bits(k)).rev() {
            r = self.dbl(&r);
            if bit(k, i) {
                r = self.add(&r, p);
            }
        }
        r
    }
    /// Sum of k_i * p_i: Jacobian coordinates, 4-bit windows, shared doublings (the affine `mul` above is the definition).
    pub fn msm(&self, t: &[(U, Pt)]) -> Pt {
        let f = self.f;
        let tabs: Vec<(&U, Vec<Jac>)> = t
            .iter()
            .filter_map(|(k, p)| {
                let (x, y) = (*p)?;
                if is_zero(k) {
                    return None;
                }
                let one = (x, y, u(1));
                let mut v = vec![one];
                for i in 1..15 {
                    v.push(jadd(&f, &v[i - 1], &one));
                }
                Some((k, v))
            })
            .collect();
        let top = tabs.iter().map(|(k, _)| bits(k)).max().unwrap_or(0).div_ceil(4);
        let mut r: Jac = (u(1), u(1), u(0));
        for w in (0..top).rev() {
            for _ in 0..4 {
                r = jdbl(&f, &r);
            }
            for (k, v) in &tabs {
                let d = (k[w / 16] >> (4 * (w % 16)) & 15) as usize;
                if d > 0 {
                    r = jadd(&f, &r, &v[d - 1]);
                }
            }
        }
        if is_zero(&r.2) {
            return None;
        }
        let z = f.inv(&r.2);
        let z2 = f.sq(&z);
        Some((f.mul(&r.0, &z2), f.mul(&r.1, &f.mul(&z2, &z))))
    }
    /// SEC1 compressed encoding.
    pub fn compress(&self, p: &Pt) -> Vec<u8> {
        match p {
            None => vec![0],
            Some((x, y)) => {
                let mut v = vec![2 + (y[0] & 1) as u8];
                v.extend_from_slice(&to_be(x));
                v
            }
        }
    }
}
type Jac = (U, U, U);
fn jdbl(f: &Fm, p: &Jac) -> Jac {
    if is_zero(&p.2) || is_zero(&p.1) {
        return (u(1), u(1), u(0));
    }
    let (a, b) = (f.sq(&p.0), f.sq(&p.1));
    let s = f.mul(&f.mul(&u(4), &p.0), &b);
    let m = f.mul(&u(3), &a);
    let x = f.sub(&f.sq(&m), &f.add(&s, &s));
    let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &f.mul(&u(8), &f.sq(&b)));
    (x, y, f.mul(&f.add(&p.1, &p.1), &p.2))
}
fn jadd(f: &Fm, p: &Jac, q: &Jac) -> Jac {
    if is_zero(&p.2) {
        return *q;
    }
    if is_zero(&q.2) {
        return *p;
    }
    let (zp, zq) = (f.sq(&p.2), f.sq(&q.2));
    let (u1, u2) = (f.mul(&p.0, &zq), f.mul(&q.0, &zp));
    let (s1, s2) = (f.mul(&p.1, &f.mul(&zq, &q.2)), f.mul(&q.1, &f.mul(&zp, &p.2)));
    if u1 == u2 {
        return if s1 == s2 { jdbl(f, p) } else { (u(1), u(1), u(0)) };
    }
    let (h, r) = (f.sub(&u2, &u1), f.sub(&s2, &s1));
    let h2 = f.sq(&h);
    let h3 = f.mul(&h2, &h);
    let v = f.mul(&u1, &h2);
    let x = f.sub(&f.sub(&f.sq(&r), &h3), &f.add(&v, &v));
    let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
    (x, y, f.mul(&h, &f.mul(&p.2, &q.2)))
}
pub fn g_secp() -> Pt {
    Some((
        hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
        hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
    ))
}
pub fn g_secq() -> Pt {
    Some((
        hex("76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6"),
        hex("3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f"),
    ))
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn orders() {
        for (c, g) in [(SECP, g_secp()), (SECQ, g_secq())] {
            assert!(c.on(&g));
            assert_eq!(c.mul(&c.order.m, &g), None);
            let ks = [u(0), u(1), u(15), u(16), FP.m, FN.m, subb(&c.order.m, &u(1)).0, hex("9f3c0e6e2b0d6b3c1f0d4f2c8a7766554433221100ffeeddccbbaa9988776655")];
            for (i, k) in ks.iter().enumerate() {
                assert_eq!(c.msm(&[(*k, g)]), c.mul(k, &g));
                let p = c.mul(&u(i as u64), &g);
                assert_eq!(c.msm(&[(*k, g), (ks[7 - i], p), (*k, c.neg(&p))]), c.add(&c.mul(k, &g), &c.add(&c.mul(&ks[7 - i], &p), &c.mul(k, &c.neg(&p)))));
            }
            assert_eq!(c.mul(&u(5), &g), c.add(&c.dbl(&c.dbl(&g)), &g));
        }
    }
}
