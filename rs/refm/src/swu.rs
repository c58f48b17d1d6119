//! Hash-to-curve for secq256k1.
use crate::ec::{Pt, SECQ};
use crate::*;

/// Simplified SWU on y^2 = x^3 + A x + B with Z = -14 (RFC 9380, 6.6.2), then the 3-isogeny to
/// y^2 = x^3 + 7.
pub struct H2C {
    a: U,
    b: U,
    pub z: U,
    k: [U; 13],
}
pub fn h2c() -> H2C {
    let dec = |s: &str| s.bytes().fold(u(0), |a, d| FN.add(&FN.mul(&a, &u(10)), &u((d - b'0') as u64)));
    H2C {
        a: dec("3642995984045157452672683439396299070953881827175886364060394186787010798372"),
        b: u(1771),
        z: FN.neg(&u(14)),
        k: [
            [7679007869575068054, 9522933797269734319, 16397105843297379213, 10248191152060862008],
            [9826996953646961554, 15182850926035153421, 14578491762904662818, 12647934416601614380],
            [12837744973953074055, 3022921441994356503, 9226076221592167090, 5322610924144458968],
            [7679007869575068113, 9522933797269734319, 16397105843297379213, 10248191152060862008],
            [5509687591411919004, 593833991126057235, 2079217350175104065, 3150945307157219731],
            [10055942181862970998, 5902098865151897053, 9296385024764340435, 14583286435933530837],
            [1018159320366879645, 7658288605871115257, 17763531330238827481, 9564978408590137874],
            [14136870513678256585, 7591425463017576710, 7289245881452331409, 6323967208300807190],
            [14802773332216597422, 16078857340678580677, 3084372689655359971, 1069495981486797935],
            [2553960894281893207, 13252224180066972444, 13664254869414482677, 11614616639002310276],
            [17487903423972654314, 10114123023543861660, 12342198062117431905, 4726417960735829596],
            [2523398215118668000, 9249176628478019873, 9442411000583469692, 6856371160381489280],
            [13822214165235121741, 13451932020343611451, 18446744073709551614, 18446744073709551615],
        ],
    }
}
impl H2C {
    pub fn map(&self, v: &U) -> Pt {
        let f = FN;
        let zu2 = f.mul(&self.z, &f.sq(v));
        let t = f.add(&f.sq(&zu2), &zu2);
        let g = |x: &U| f.add(&f.add(&f.mul(&f.sq(x), x), &f.mul(&self.a, x)), &self.b);
        let x1 = if is_zero(&t) {
            f.mul(&self.b, &f.inv(&f.mul(&self.z, &self.a)))
        } else {
            f.mul(&f.mul(&f.neg(&self.b), &f.inv(&self.a)), &f.add(&u(1), &f.inv(&t)))
        };
        let (x, mut y) = match f.sqrt(&g(&x1)) {
            Some(y) => (x1, y),
            None => {
                let x2 = f.mul(&zu2, &x1);
                (x2, f.sqrt(&g(&x2)).unwrap())
            }
        };
        if y[0] & 1 != v[0] & 1 {
            y = f.neg(&y);
        }
        let k = &self.k;
        let poly = |c: &[U], lead: bool| {
            let mut r = if lead { u(1) } else { u(0) };
            for c in c {
                r = f.add(&f.mul(&r, &x), c);
            }
            r
        };
        let px = f.mul(&poly(&k[0..4], false), &f.inv(&poly(&k[4..6], true)));
        let py = f.mul(&y, &f.mul(&poly(&k[6..10], false), &f.inv(&poly(&k[10..13], true))));
        Some((px, py))
    }
    pub fn hash(&self, b: &[u8]) -> Pt {
        SECQ.add(&self.map(&FN.from_le_bytes(&b[..64])), &self.map(&FN.from_le_bytes(&b[64..128])))
    }
}

