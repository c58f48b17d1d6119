//! C03: coordinate field of secq256k1 (integers modulo n).
use ff::{Field, PrimeField};
use secq256k1::field::field_secq::FieldElement;
use secq256k1::field::{BaseField, SqrtRatio};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use vk::*;
use zeroize::Zeroize;
include!("../../../../common/field.rs");
include!("../../../../common/encoding.rs");
include!("../../../../common/coord.rs");

fn main() {
    let mut c = Check::new(
        "C03",
        "operands of the field edge-heavy both as integers and in Montgomery form, equal/negated pairs, squares and \
         non-squares, operation histories over six registers, 32/64-byte strings around 0, the modulus and 2^256; every case \
         is compared with schoolbook integer arithmetic; distinct generated cases count as non-trivial",
    );
    c.scale = 10;
    let to = |x: &FieldElement| le(&BaseField::to_bytes(x));
    let from = |v: &U| <FieldElement as BaseField>::from_bytes(&to_le(v)).unwrap();
    field_suite!(c, FieldElement, FN, to, from);
    encoding_suite!(c, FieldElement, FN);
    coord_suite!(c, FieldElement, FN, |_: &U, _: &U| None);
    //EXTRA
    c.finish()
}
