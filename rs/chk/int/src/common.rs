// What the checks of the internal algebra and sub-protocols share.
use proptest::prelude::*;
use refm::*;
use spartan_int::scalar::Scalar;
use vk::{gen, B32};
pub fn sc(v: &U) -> Scalar {
    Scalar::from_bytes(&to_le(v)).unwrap()
}
pub fn un(s: &Scalar) -> U {
    le(&s.to_bytes())
}
pub fn scs(v: &[U]) -> Vec<Scalar> {
    v.iter().map(sc).collect()
}
pub fn uns(v: &[Scalar]) -> Vec<U> {
    v.iter().map(un).collect()
}
/// Field elements: 0 and 1 often, edges, small, random.
pub fn fe() -> impl Strategy<Value = B32> + Clone {
    let k = |v: u64| B32(to_le(&u(v)));
    prop_oneof![
        2 => Just(k(0)),
        2 => Just(k(1)),
        1 => Just(B32(to_le(&FP.neg(&u(1))))),
        1 => (0u64..20).prop_map(move |v| k(v)),
        6 => gen::elem(to_le(&P)),
    ]
}
pub fn us(v: &[B32]) -> Vec<U> {
    v.iter().map(|b| le(&b.0)).collect()
}
/// chi_i(r), the first coordinate being the most significant bit.
pub fn chi(i: usize, r: &[U]) -> U {
    let n = r.len();
    (0..n).fold(u(1), |a, j| {
        let b = (i >> (n - 1 - j)) & 1 == 1;
        FP.mul(&a, &if b { r[j] } else { FP.sub(&u(1), &r[j]) })
    })
}
pub fn mle(z: &[U], r: &[U]) -> U {
    assert_eq!(z.len(), 1 << r.len());
    z.iter().enumerate().fold(u(0), |a, (i, v)| FP.add(&a, &FP.mul(v, &chi(i, r))))
}
pub fn dot(a: &[U], b: &[U]) -> U {
    a.iter().zip(b).fold(u(0), |s, (x, y)| FP.add(&s, &FP.mul(x, y)))
}
