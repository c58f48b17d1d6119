// Generated points of secq256k1 and their models.
use proptest::prelude::*;
use primeorder::elliptic_curve::sec1::ToEncodedPoint;
use refm::ec::{g_secq, Pt, SECQ};
use refm::*;
use secq256k1::{AffinePoint, EncodedPoint};
use vk::{gen, B32};

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub enum PS {
    Id,
    Mul(u64, bool),
    Lift(B32, bool),
}
pub fn ps() -> impl Strategy<Value = PS> {
    let n = to_le(&FN.m);
    prop_oneof![
        1 => Just(PS::Id),
        2 => (0u64..20, any::<bool>()).prop_map(|(k, s)| PS::Mul(k, s)),
        1 => (any::<u64>(), any::<bool>()).prop_map(|(k, s)| PS::Mul(k, s)),
        5 => (gen::elem(n), any::<bool>()).prop_map(|(x, s)| PS::Lift(x, s)),
    ]
}
pub fn model(p: &PS) -> Pt {
    match p {
        PS::Id => None,
        PS::Mul(k, s) => {
            let r = SECQ.mul(&u(*k), &g_secq());
            if *s { SECQ.neg(&r) } else { r }
        }
        PS::Lift(x, s) => {
            let mut x = FN.red(&le(&x.0));
            loop {
                if let Some(p) = SECQ.lift(&x, *s) {
                    return Some(p);
                }
                x = FN.add(&x, &u(1));
            }
        }
    }
}
pub fn enc(p: &Pt) -> EncodedPoint {
    match p {
        None => EncodedPoint::identity(),
        Some((x, y)) => EncodedPoint::from_affine_coordinates(&to_be(x).into(), &to_be(y).into(), false),
    }
}
pub fn real(p: &Pt) -> AffinePoint {
    AffinePoint::decompress(enc(p)).unwrap()
}
pub fn back(p: &AffinePoint) -> Pt {
    let e = p.0.to_encoded_point(false);
    if e.is_identity() {
        return None;
    }
    let b = e.as_bytes();
    Some((be(b[1..33].try_into().unwrap()), be(b[33..65].try_into().unwrap())))
}
