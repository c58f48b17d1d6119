//! C04: coordinate field of secp256k1 and the curve scalar type (integers modulo p).
use ff::{Field, PrimeField};
use secq256k1::field::field_secp::FieldElement;
use secq256k1::field::{BaseField, SqrtRatio};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use vk::*;
use zeroize::Zeroize;
include!("../../../../common/field.rs");
include!("../../../../common/encoding.rs");
include!("../../../../common/coord.rs");

fn main() {
    let mut c = Check::new(
        "C04",
        "operands of the field edge-heavy both as integers and in Montgomery form, equal/negated pairs, squares and \
         non-squares, operation histories over six registers, 32/64-byte strings around 0, the modulus and 2^256; every case \
         is compared with schoolbook integer arithmetic; distinct generated cases count as non-trivial",
    );
    c.scale = 10;
    let to = |x: &FieldElement| le(&BaseField::to_bytes(x));
    let from = |v: &U| <FieldElement as BaseField>::from_bytes(&to_le(v)).unwrap();
    field_suite!(c, FieldElement, FP, to, from);
    encoding_suite!(c, FieldElement, FP);
    coord_suite!(c, FieldElement, FP, |a: &U, s: &U| if *s == FP.pow(a, &addc(&shr1(&shr1(&FP.m)), &u(1)).0) { Some("field_secp-sqrt-of-nonresidue") } else { None });
    curve_scalar(&mut c);
    c.finish()
}

fn curve_scalar(c: &mut Check) {
    use ff::PrimeFieldBits;
    use primeorder::elliptic_curve::bigint::U256;
    use primeorder::elliptic_curve::{ops::Reduce, IsHigh};
    use secq256k1::{FieldBytes, Scalar, ORDER};
    let m = to_le(&FP.m);
    let from = |v: &U| -> Scalar { Scalar::from_repr(to_be(v).into()).unwrap() };
    let to = |x: &Scalar| le(&x.to_bytes());
    c.sub("scalar_ops", 10_000, 400_000, 8, move || (felem(FP), felem(FP), any::<u8>()), move |(a, b, k), o: &mut Obs| {
        let (ua, mut ub) = (le(&a.0), le(&b.0));
        match k % 8 { 0 => ub = ua, 1 => ub = FP.neg(&ua), 2 => ub = FP.add(&ua, &u(1)), _ => {} }
        if ua == ub { o.class("equal operands") }
        let (x, y) = (from(&ua), from(&ub));
        let (add, sub, mul) = (FP.add(&ua, &ub), FP.sub(&ua, &ub), FP.mul(&ua, &ub));
        same!(to(&(x + y)), add, "a+b");
        same!(to(&(x + &y)), add, "a+&b");
        let mut z = x; z += y; same!(to(&z), add, "a+=b");
        let mut z = x; z += &y; same!(to(&z), add, "a+=&b");
        same!(to(&(x - y)), sub, "a-b");
        same!(to(&(x - &y)), sub, "a-&b");
        let mut z = x; z -= y; same!(to(&z), sub, "a-=b");
        let mut z = x; z -= &y; same!(to(&z), sub, "a-=&b");
        same!(to(&(x * y)), mul, "a*b");
        same!(to(&(x * &y)), mul, "a*&b");
        let mut z = x; z *= y; same!(to(&z), mul, "a*=b");
        let mut z = x; z *= &y; same!(to(&z), mul, "a*=&b");
        same!(to(&-x), FP.neg(&ua), "-a");
        same!(to(&Field::double(&x)), FP.add(&ua, &ua), "double");
        same!(x == y, ua == ub, "equality");
        same!(bool::from(x.ct_eq(&y)), ua == ub, "ct_eq");
        same!(x.cmp(&y), refm::cmp(&ua, &ub), "order");
        same!(to(&Scalar::conditional_select(&x, &y, Choice::from(k & 1))), if k & 1 == 1 { ub } else { ua }, "select");
        same!(bool::from(Field::is_zero(&x)), is_zero(&ua), "is_zero");
        same!(bool::from(PrimeField::is_odd(&x)), ua[0] & 1 == 1, "is_odd");
        same!(bool::from(x.is_high()), lt(&shr1(&FP.m), &ua), "is_high");
        same!(to(&Scalar::from(ua[0])), u(ua[0]), "from u64");
        same!(to(&Scalar::from(ua[0] as u32)), u(ua[0] as u32 as u64), "from u32");
        same!(to(&<Scalar as Field>::zero()), u(0), "zero");
        same!(to(&<Scalar as Field>::one()), u(1), "one");
        same!(to(&Scalar::ZERO), u(0), "ZERO");
        same!(to(&Scalar::ONE), u(1), "ONE");
        Ok(())
    });
    c.sub("scalar_encodings", 20_000, 800_000, 8, move || gen::b256(m), move |b, o: &mut Obs| {
        let v = le(&b.0);
        let be = to_be(&v);
        let ok = lt(&v, &FP.m);
        o.class(if ok { "canonical" } else { "not canonical" });
        let r = Scalar::from_repr(be.into());
        same!(bool::from(r.is_some()), ok, "from_repr");
        let w = U256::from_be_slice(&be);
        same!(Scalar::try_from(w).is_ok(), ok, "try_from");
        same!(to(&<Scalar as Reduce<U256>>::from_uint_reduced(w)), FP.red(&v), "from_uint_reduced");
        if ok {
            let x = r.unwrap();
            same!(to(&x), v, "value");
            same!(x.to_bytes(), b.0, "to_bytes");
            let s: [u8; 32] = x.to_repr().into();
            same!(s, be, "to_repr");
            let s: [u8; 32] = FieldBytes::from(x).into();
            same!(s, be, "into bytes");
            let s: [u8; 32] = FieldBytes::from(&x).into();
            same!(s, be, "ref into bytes");
            same!(U256::from(x), w, "into integer");
            same!(to(&Scalar::try_from(w).unwrap()), v, "try_from value");
            let bits = x.to_le_bits();
            for i in 0..256 {
                same!(bits[i], bit(&v, i), "bit {}", i);
            }
        }
        Ok(())
    });
    c.sub("scalar_constants", 1, 1, 1, || Just(0u8), move |_, _| {
        let s: [u8; 32] = {
            use primeorder::elliptic_curve::bigint::Encoding;
            ORDER.to_le_bytes()
        };
        same!(le(&s), FP.m, "ORDER");
        let bits = Scalar::char_le_bits();
        for i in 0..256 {
            same!(bits[i], bit(&FP.m, i), "bit {} of the characteristic", i);
        }
        Ok(())
    });
}
