//! C05: group law of secq256k1.
use primeorder::elliptic_curve::group::Group;
use primeorder::elliptic_curve::PrimeField;
use secq256k1::{ProjectivePoint, Scalar as CScalar};
use spartan_int::group::{GroupElement, VartimeMultiscalarMul};
use spartan_int::scalar::Scalar;
use vk::*;
include!("../../../../common/points.rs");

fn sc(v: &U) -> Scalar {
    Scalar::from_bytes(&to_le(v)).unwrap()
}
fn cs(v: &U) -> CScalar {
    CScalar::from_repr(to_be(v).into()).unwrap()
}

fn main() {
    let mut c = Check::new(
        "C05",
        "pairs of points (identity, small multiples of the generator, lifted edge x coordinates, equal and opposite pairs), \
         edge-heavy scalars and lists of up to 40 of both; results are compared with affine chord-and-tangent arithmetic over \
         integers; distinct cases count as non-trivial",
    );
    c.assume("projective formulas come from a stand-in for the primeorder dependency; the operators, curve and generator constants, field and scalar conversions under test are /repo's");
    let pm = to_le(&FP.m);
    c.sub("add", 12_000, 400_000, 8, || (ps(), ps(), any::<u8>()), |(a, b, k), o: &mut Obs| {
        let p = model(a);
        let q = match k % 6 { 0 => p, 1 => SECQ.neg(&p), _ => model(b) };
        if p.is_none() || q.is_none() { o.class("identity operand") }
        if p == q { o.class("equal") } else if p == SECQ.neg(&q) { o.class("opposite") }
        let (x, y) = (real(&p), real(&q));
        let (s, d) = (SECQ.add(&p, &q), SECQ.add(&p, &SECQ.neg(&q)));
        ensure!(SECQ.on(&s), "model error");
        same!(back(&(x + y)), s, "p+q");
        same!(back(&(x + &y)), s, "p+&q");
        let mut z = x; z += y; same!(back(&z), s, "p+=q");
        let mut z = x; z += &y; same!(back(&z), s, "p+=&q");
        same!(back(&(x - y)), d, "p-q");
        same!(back(&(x - &y)), d, "p-&q");
        let mut z = x; z -= y; same!(back(&z), d, "p-=q");
        let mut z = x; z -= &y; same!(back(&z), d, "p-=&q");
        same!(back(&-x), SECQ.neg(&p), "-p");
        same!(back(&Group::double(&x)), SECQ.dbl(&p), "double");
        same!(x == y, p == q, "equality");
        same!(bool::from(Group::is_identity(&x)), p.is_none(), "is_identity");
        same!(back(&AffinePoint::from(ProjectivePoint::from(x.0))), p, "projective round trip");
        Ok(())
    });
    c.sub("constants", 1, 1, 1, || Just(0u8), |_, _| {
        same!(back(&AffinePoint::generator()), g_secq(), "generator");
        same!(back(&<AffinePoint as Group>::generator()), g_secq(), "Group::generator");
        same!(back(&AffinePoint::identity()), None, "identity");
        same!(back(&<AffinePoint as Group>::identity()), None, "Group::identity");
        same!(back(&AffinePoint::default()), None, "default");
        Ok(())
    });
    c.sub("mul", 2_400, 100_000, 8, move || (ps(), gen::elem(pm)), |(a, k), o: &mut Obs| {
        let (p, k) = (model(a), le(&k.0));
        if p.is_none() { o.class("identity") }
        if is_zero(&k) { o.class("scalar 0") }
        let want = SECQ.mul(&k, &p);
        let (x, s, t) = (real(&p), sc(&k), cs(&k));
        same!(back(&(x * t)), want, "p*k");
        same!(back(&(&x * t)), want, "&p*k");
        same!(back(&(x * &t)), want, "p*&k");
        let mut z = x; z *= t; same!(back(&z), want, "p*=k");
        let mut z = x; z *= &t; same!(back(&z), want, "p*=&k");
        same!(back(&(x * s)), want, "p*scalar");
        same!(back(&(&x * &s)), want, "&p*&scalar");
        same!(back(&(&x * s)), want, "&p*scalar");
        same!(back(&(x * &s)), want, "p*&scalar");
        same!(back(&(s * x)), want, "scalar*p");
        same!(back(&(&s * &x)), want, "&scalar*&p");
        same!(back(&(&s * x)), want, "&scalar*p");
        same!(back(&(s * &x)), want, "scalar*&p");
        let mut z = x; z *= s; same!(back(&z), want, "p*=scalar");
        let mut z = x; z *= &s; same!(back(&z), want, "p*=&scalar");
        Ok(())
    });
    c.sub("sum", 2_000, 60_000, 8, || prop_oneof![40 => 0usize..8, 1 => 8usize..150].prop_flat_map(|n| prop::collection::vec(ps(), n)), |v: &Vec<PS>, o: &mut Obs| {
        if v.is_empty() { o.class("empty") }
        let m: Vec<Pt> = v.iter().map(model).collect();
        let r: Vec<AffinePoint> = m.iter().map(real).collect();
        let want = m.iter().fold(None, |a, b| SECQ.add(&a, b));
        same!(back(&r.iter().sum::<AffinePoint>()), want, "sum of references");
        same!(back(&r.iter().copied().sum::<AffinePoint>()), want, "sum of values");
        Ok(())
    });
    c.sub("multi_scalar", 400, 12_000, 8, move || prop_oneof![40 => 0usize..24, 1 => 24usize..150].prop_flat_map(move |n| prop::collection::vec((ps(), gen::elem(pm)), n)), |v: &Vec<(PS, B32)>, o: &mut Obs| {
        if v.is_empty() { o.class("empty") }
        if v.len() > 8 { o.class("more than 8 terms") }
        let m: Vec<Pt> = v.iter().map(|x| model(&x.0)).collect();
        let ks: Vec<U> = v.iter().map(|x| le(&x.1 .0)).collect();
        let want = m.iter().zip(&ks).fold(None, |a, (p, k)| SECQ.add(&a, &SECQ.mul(k, p)));
        let got = GroupElement::vartime_multiscalar_mul(ks.iter().map(sc).collect(), m.iter().map(real).collect());
        same!(back(&got), want, "multi-scalar product");
        Ok(())
    });
    c.sub("distributive", 1_500, 50_000, 8, move || (ps(), ps(), gen::elem(pm), gen::elem(pm)), |(a, b, j, k), _| {
        let (x, y) = (real(&model(a)), real(&model(b)));
        let (j, k) = (sc(&le(&j.0)), sc(&le(&k.0)));
        same!((x + y) * j, x * j + y * j, "j(p+q)");
        same!(x * (j + k), x * j + x * k, "(j+k)p");
        same!(x * j * k, x * (j * k), "(jk)p");
        Ok(())
    });
    c.finish()
}
