//! Stand-in for the `primeorder` fork that /repo's secq256k1 depends on and that cannot be
//! fetched here.  Same public surface, generic complete formulas of Renes-Costello-Batina
//! (2015/1060, algorithms 1 and 3), plain double-and-add multiplication.
pub use elliptic_curve::{self, ff::{Field, PrimeField}, PrimeCurve};
use elliptic_curve::{
    bigint::{ArrayEncoding, Encoding},
    generic_array::ArrayLength,
    group,
    ops::LinearCombination,
    rand_core::RngCore,
    sec1::{self, EncodedPoint, FromEncodedPoint, ModulusSize, ToCompactEncodedPoint, ToEncodedPoint, UncompressedPointSize},
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
    zeroize::DefaultIsZeroes,
    AffineArithmetic, AffineXCoordinate, DecompressPoint, FieldBytes, FieldSize, ProjectiveArithmetic, ScalarArithmetic,
};
use std::{
    iter::Sum,
    ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign},
};

pub type Scalar<C> = <C as ScalarArithmetic>::Scalar;

pub trait PrimeCurveParams:
    PrimeCurve
    + AffineArithmetic<AffinePoint = AffinePoint<Self>>
    + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>>
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}

#[derive(Clone, Copy, Debug)]
pub struct AffinePoint<C: PrimeCurveParams> {
    x: C::FieldElement,
    y: C::FieldElement,
    infinity: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct ProjectivePoint<C: PrimeCurveParams> {
    x: C::FieldElement,
    y: C::FieldElement,
    z: C::FieldElement,
}

impl<C: PrimeCurveParams> AffinePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };
    pub fn is_identity(&self) -> Choice {
        Choice::from(self.infinity)
    }
    pub fn to_curve(&self) -> ProjectivePoint<C> {
        ProjectivePoint::from(*self)
    }
}

impl<C: PrimeCurveParams> Default for AffinePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for AffinePoint<C> {}
impl<C: PrimeCurveParams> ConditionallySelectable for AffinePoint<C> {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if choice.into() { *b } else { *a }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for AffinePoint<C> {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.x.ct_eq(&other.x) & self.y.ct_eq(&other.y) & self.infinity.ct_eq(&other.infinity)
    }
}
impl<C: PrimeCurveParams> PartialEq for AffinePoint<C> {
    fn eq(&self, other: &Self) -> bool {
        self.ct_eq(other).into()
    }
}
impl<C: PrimeCurveParams> Eq for AffinePoint<C> {}
impl<C: PrimeCurveParams> AffineXCoordinate<C> for AffinePoint<C> {
    fn x(&self) -> FieldBytes<C> {
        self.x.to_repr()
    }
}
fn rhs<C: PrimeCurveParams>(x: C::FieldElement) -> C::FieldElement {
    x * x * x + C::EQUATION_A * x + C::EQUATION_B
}
impl<C: PrimeCurveParams> DecompressPoint<C> for AffinePoint<C> {
    fn decompress(x_bytes: &FieldBytes<C>, y_is_odd: Choice) -> CtOption<Self> {
        C::FieldElement::from_repr(x_bytes.clone()).and_then(|x| {
            let beta = rhs::<C>(x).sqrt();
            beta.map(|beta| {
                let same = bool::from(beta.is_odd()) == bool::from(y_is_odd);
                Self { x, y: if same { beta } else { -beta }, infinity: 0 }
            })
        })
    }
}
impl<C: PrimeCurveParams> FromEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn from_encoded_point(ep: &EncodedPoint<C>) -> CtOption<Self> {
        match ep.coordinates() {
            sec1::Coordinates::Identity => CtOption::new(Self::IDENTITY, 1.into()),
            sec1::Coordinates::Compact { .. } => CtOption::new(Self::IDENTITY, 0.into()),
            sec1::Coordinates::Compressed { x, y_is_odd } => {
                Self::decompress(x, Choice::from(y_is_odd as u8))
            }
            sec1::Coordinates::Uncompressed { x, y } => C::FieldElement::from_repr(y.clone()).and_then(|y| {
                C::FieldElement::from_repr(x.clone()).and_then(|x| {
                    let on = (y * y).ct_eq(&rhs::<C>(x));
                    CtOption::new(Self { x, y, infinity: 0 }, on)
                })
            }),
        }
    }
}
impl<C: PrimeCurveParams> ToEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
    <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if self.infinity == 1 {
            return EncodedPoint::<C>::default();
        }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}
impl<C: PrimeCurveParams> ToCompactEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
    <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy,
{
    fn to_compact_encoded_point(&self) -> CtOption<EncodedPoint<C>> {
        let p = self.to_encoded_point(true);
        CtOption::new(p, 0.into())
    }
}
impl<C: PrimeCurveParams> Neg for AffinePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, infinity: self.infinity }
    }
}
impl<C: PrimeCurveParams> Neg for &AffinePoint<C> {
    type Output = AffinePoint<C>;
    fn neg(self) -> AffinePoint<C> {
        -*self
    }
}
impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: AffinePoint<C>) -> Self {
        if p.infinity == 1 {
            Self::IDENTITY
        } else {
            Self { x: p.x, y: p.y, z: C::ONE }
        }
    }
}
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: &AffinePoint<C>) -> Self {
        Self::from(*p)
    }
}
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}

impl<C: PrimeCurveParams> ProjectivePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ONE, z: C::ZERO };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, z: C::ONE };

    pub fn to_affine(&self) -> AffinePoint<C> {
        let zinv = self.z.invert();
        if zinv.is_some().into() {
            let zinv = zinv.unwrap();
            AffinePoint { x: self.x * zinv, y: self.y * zinv, infinity: 0 }
        } else {
            AffinePoint::IDENTITY
        }
    }

    /// RCB algorithm 1 (complete addition, any a).
    fn add_pp(&self, o: &Self) -> Self {
        let a = C::EQUATION_A;
        let b3 = C::EQUATION_B + C::EQUATION_B + C::EQUATION_B;
        let mut t0 = self.x * o.x;
        let mut t1 = self.y * o.y;
        let mut t2 = self.z * o.z;
        let mut t3 = self.x + self.y;
        let mut t4 = o.x + o.y;
        t3 = t3 * t4;
        t4 = t0 + t1;
        t3 = t3 - t4;
        t4 = self.x + self.z;
        let mut t5 = o.x + o.z;
        t4 = t4 * t5;
        t5 = t0 + t2;
        t4 = t4 - t5;
        t5 = self.y + self.z;
        let mut x3 = o.y + o.z;
        t5 = t5 * x3;
        x3 = t1 + t2;
        t5 = t5 - x3;
        let mut z3 = a * t4;
        x3 = b3 * t2;
        z3 = x3 + z3;
        x3 = t1 - z3;
        z3 = t1 + z3;
        let mut y3 = x3 * z3;
        t1 = t0 + t0;
        t1 = t1 + t0;
        t2 = a * t2;
        t4 = b3 * t4;
        t1 = t1 + t2;
        t2 = t0 - t2;
        t2 = a * t2;
        t4 = t4 + t2;
        t0 = t1 * t4;
        y3 = y3 + t0;
        t0 = t5 * t4;
        x3 = t3 * x3;
        x3 = x3 - t0;
        t0 = t3 * t1;
        z3 = t5 * z3;
        z3 = z3 + t0;
        Self { x: x3, y: y3, z: z3 }
    }

    /// RCB algorithm 3 (exception-free doubling, any a).
    fn dbl(&self) -> Self {
        let a = C::EQUATION_A;
        let b3 = C::EQUATION_B + C::EQUATION_B + C::EQUATION_B;
        let mut t0 = self.x.square();
        let t1 = self.y.square();
        let mut t2 = self.z.square();
        let mut t3 = self.x * self.y;
        t3 = t3 + t3;
        let mut z3 = self.x * self.z;
        z3 = z3 + z3;
        let mut x3 = a * z3;
        let mut y3 = b3 * t2;
        y3 = x3 + y3;
        x3 = t1 - y3;
        y3 = t1 + y3;
        y3 = x3 * y3;
        x3 = t3 * x3;
        z3 = b3 * z3;
        t2 = a * t2;
        t3 = t0 - t2;
        t3 = a * t3;
        t3 = t3 + z3;
        z3 = t0 + t0;
        t0 = z3 + t0;
        t0 = t0 + t2;
        t0 = t0 * t3;
        y3 = y3 + t0;
        t2 = self.y * self.z;
        t2 = t2 + t2;
        t0 = t2 * t3;
        x3 = x3 - t0;
        z3 = t2 * t1;
        z3 = z3 + z3;
        z3 = z3 + z3;
        Self { x: x3, y: y3, z: z3 }
    }

    fn mul_le(&self, k: &[u8]) -> Self {
        let mut tbl = [Self::IDENTITY; 16];
        for i in 1..16 {
            tbl[i] = if i % 2 == 0 { tbl[i / 2].dbl() } else { tbl[i - 1].add_pp(self) };
        }
        let mut q = Self::IDENTITY;
        for byte in k.iter().rev() {
            for nib in [byte >> 4, byte & 15] {
                q = q.dbl().dbl().dbl().dbl();
                if nib != 0 {
                    q = q.add_pp(&tbl[nib as usize]);
                }
            }
        }
        q
    }
    fn mul_scalar(&self, k: &Scalar<C>) -> Self {
        let u: C::UInt = (*k).into();
        self.mul_le(u.to_le_byte_array().as_slice())
    }
}
impl<C: PrimeCurveParams> Default for ProjectivePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> ConditionallySelectable for ProjectivePoint<C> {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if choice.into() { *b } else { *a }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for ProjectivePoint<C> {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.to_affine().ct_eq(&other.to_affine())
    }
}
impl<C: PrimeCurveParams> PartialEq for ProjectivePoint<C> {
    fn eq(&self, other: &Self) -> bool {
        self.ct_eq(other).into()
    }
}
impl<C: PrimeCurveParams> Eq for ProjectivePoint<C> {}

macro_rules! binop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $rhs:ty, $e:expr) => {
        impl<C: PrimeCurveParams> $tr<$rhs> for ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: $rhs) -> ProjectivePoint<C> {
                let g: fn(&ProjectivePoint<C>, &ProjectivePoint<C>) -> ProjectivePoint<C> = $e;
                g(&self, &ProjectivePoint::from(o))
            }
        }
        impl<C: PrimeCurveParams> $tr<$rhs> for &ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: $rhs) -> ProjectivePoint<C> {
                let g: fn(&ProjectivePoint<C>, &ProjectivePoint<C>) -> ProjectivePoint<C> = $e;
                g(self, &ProjectivePoint::from(o))
            }
        }
        impl<C: PrimeCurveParams> $atr<$rhs> for ProjectivePoint<C> {
            fn $af(&mut self, o: $rhs) {
                *self = *self + { let g: fn(ProjectivePoint<C>) -> ProjectivePoint<C> = binop!(@sgn $tr); g(ProjectivePoint::from(o)) };
            }
        }
    };
    (@sgn Add) => { |x| x };
    (@sgn Sub) => { |x| -x };
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for ProjectivePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        *p
    }
}
binop!(Add, add, AddAssign, add_assign, ProjectivePoint<C>, |a, b| a.add_pp(b));
binop!(Add, add, AddAssign, add_assign, &ProjectivePoint<C>, |a, b| a.add_pp(b));
binop!(Add, add, AddAssign, add_assign, AffinePoint<C>, |a, b| a.add_pp(b));
binop!(Add, add, AddAssign, add_assign, &AffinePoint<C>, |a, b| a.add_pp(b));
binop!(Sub, sub, SubAssign, sub_assign, ProjectivePoint<C>, |a, b| a.add_pp(&-*b));
binop!(Sub, sub, SubAssign, sub_assign, &ProjectivePoint<C>, |a, b| a.add_pp(&-*b));
binop!(Sub, sub, SubAssign, sub_assign, AffinePoint<C>, |a, b| a.add_pp(&-*b));
binop!(Sub, sub, SubAssign, sub_assign, &AffinePoint<C>, |a, b| a.add_pp(&-*b));

impl<C: PrimeCurveParams> Neg for ProjectivePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, z: self.z }
    }
}
impl<C: PrimeCurveParams> Neg for &ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn neg(self) -> ProjectivePoint<C> {
        -*self
    }
}
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = &'a ProjectivePoint<C>>>(iter: I) -> Self {
        iter.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<C: PrimeCurveParams, S: std::borrow::Borrow<Scalar<C>>> Mul<S> for AffinePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        ProjectivePoint::from(self).mul_scalar(k.borrow())
    }
}
impl<C: PrimeCurveParams, S: std::borrow::Borrow<Scalar<C>>> Mul<S> for &AffinePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        ProjectivePoint::from(*self).mul_scalar(k.borrow())
    }
}
impl<C: PrimeCurveParams, S: std::borrow::Borrow<Scalar<C>>> Mul<S> for ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        self.mul_scalar(k.borrow())
    }
}
impl<C: PrimeCurveParams, S: std::borrow::Borrow<Scalar<C>>> Mul<S> for &ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, k: S) -> ProjectivePoint<C> {
        self.mul_scalar(k.borrow())
    }
}
impl<C: PrimeCurveParams, S: std::borrow::Borrow<Scalar<C>>> MulAssign<S> for ProjectivePoint<C> {
    fn mul_assign(&mut self, k: S) {
        *self = self.mul_scalar(k.borrow());
    }
}
impl<C: PrimeCurveParams> group::Group for ProjectivePoint<C> {
    type Scalar = Scalar<C>;
    fn random(mut rng: impl RngCore) -> Self {
        Self::GENERATOR * <Scalar<C> as Field>::random(&mut rng)
    }
    fn identity() -> Self {
        Self::IDENTITY
    }
    fn generator() -> Self {
        Self::GENERATOR
    }
    fn is_identity(&self) -> Choice {
        self.z.ct_eq(&C::ZERO)
    }
    fn double(&self) -> Self {
        self.dbl()
    }
}
impl<C: PrimeCurveParams> group::Curve for ProjectivePoint<C> {
    type AffineRepr = AffinePoint<C>;
    fn to_affine(&self) -> AffinePoint<C> {
        ProjectivePoint::to_affine(self)
    }
}
impl<C: PrimeCurveParams> LinearCombination for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> FromEncodedPoint<C> for ProjectivePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn from_encoded_point(p: &EncodedPoint<C>) -> CtOption<Self> {
        AffinePoint::<C>::from_encoded_point(p).map(ProjectivePoint::from)
    }
}
impl<C: PrimeCurveParams> ToEncodedPoint<C> for ProjectivePoint<C>
where
    FieldSize<C>: ModulusSize,
    <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        self.to_affine().to_encoded_point(compress)
    }
}
#[allow(dead_code)]
fn _unused<C: PrimeCurveParams>()
where
    C::UInt: ArrayEncoding + Encoding,
{
}
