// Shared by C03 and C04: what the coordinate fields offer beyond the common suites.
macro_rules! coord_suite {
    ($c:ident, $T:ty, $F:expr, $known_sqrt:expr) => {{
        let m = to_le(&$F.m);
        let from = |v: &U| <$T as BaseField>::from_bytes(&to_le(v)).unwrap();
        let to = |x: &$T| le(&BaseField::to_bytes(x));
        $c.sub("traits", 8_000, 300_000, 8, move || felem($F), move |a, o: &mut Obs| {
            let ua = le(&a.0);
            let x: $T = from(&ua);
            if ua[0] & 1 == 1 { o.class("odd") }
            same!(to(&<$T as Field>::zero()), u(0), "zero");
            same!(to(&<$T as Field>::one()), u(1), "one");
            same!(to(&<$T>::ZERO), u(0), "ZERO");
            same!(to(&<$T>::ONE), u(1), "ONE");
            same!(bool::from(Field::is_zero(&x)), is_zero(&ua), "is_zero");
            same!(Field::is_zero_vartime(&x), is_zero(&ua), "is_zero_vartime");
            same!(to(&Field::square(&x)), $F.sq(&ua), "square");
            same!(to(&Field::cube(&x)), $F.mul(&$F.sq(&ua), &ua), "cube");
            same!(to(&Field::double(&x)), $F.add(&ua, &ua), "double");
            same!(bool::from(PrimeField::is_odd(&x)), ua[0] & 1 == 1, "is_odd");
            same!(bool::from(PrimeField::is_even(&x)), ua[0] & 1 == 0, "is_even");
            let i = Field::invert(&x);
            same!(bool::from(i.is_some()), !is_zero(&ua), "invertibility");
            if !is_zero(&ua) { same!(to(&i.unwrap()), $F.inv(&ua), "inverse"); }
            Ok(())
        });
        $c.sub("be_encodings", 20_000, 800_000, 8, move || gen::b256(m), move |b, o: &mut Obs| {
            let v = le(&b.0);
            let be = to_be(&v);
            let ok = lt(&v, &$F.m);
            o.class(if ok { "canonical" } else { "not canonical" });
            let r1: CtOption<$T> = <$T as PrimeField>::from_repr(be.into());
            let r2: CtOption<$T> = <$T>::from_sec1(be.into());
            same!(bool::from(r1.is_some()), ok, "from_repr");
            same!(bool::from(r2.is_some()), ok, "from_sec1");
            if ok {
                let (x, y) = (r1.unwrap(), r2.unwrap());
                same!(to(&x), v, "from_repr value");
                same!(to(&y), v, "from_sec1 value");
                same!(x.to_be_bytes(), be, "to_be_bytes");
                let s: [u8; 32] = x.to_sec1().into();
                same!(s, be, "to_sec1");
                let s: [u8; 32] = PrimeField::to_repr(&x).into();
                same!(s, be, "to_repr");
            }
            Ok(())
        });
        $c.sub("sqrt", 2_000, 60_000, 8, move || (felem($F), any::<u8>()), move |(a, k), o: &mut Obs| {
            let mut ua = le(&a.0);
            if k % 3 != 0 { ua = $F.sq(&ua); }
            if k % 8 == 7 { ua = $F.neg(&ua); }
            let x: $T = from(&ua);
            let sq = is_zero(&ua) || $F.is_square(&ua);
            o.class(if is_zero(&ua) { "zero" } else if sq { "square" } else { "non-square" });
            let r: Option<$T> = Field::sqrt(&x).into();
            match r {
                Some(s) if sq => same!($F.sq(&to(&s)), ua, "square of the root"),
                Some(s) => {
                    let known: Option<&str> = $known_sqrt(&ua, &to(&s));
                    match known {
                        Some(sig) => o.known(sig),
                        None => return Err(format!("sqrt of the non-square {:?} returned {:?}", ua, s)),
                    }
                }
                None => ensure!(!sq, "sqrt of the square {:?} reported absent", ua),
            }
            Ok(())
        });
        $c.sub("sqrt_ratio", 300, 12_000, 8, move || (felem($F), felem($F), any::<u8>()), move |(a, b, k), o: &mut Obs| {
            let (mut ua, mut ub) = (le(&a.0), le(&b.0));
            if is_zero(&ub) { ub = u(1) }
            if k % 3 == 0 { ua = $F.mul(&$F.sq(&ua), &ub) } // a ratio that is a square
            let (is_sq, y) = <$T as SqrtRatio>::sqrt_ratio(&from(&ua), &from(&ub));
            let ratio = $F.mul(&ua, &$F.inv(&ub));
            let y2 = $F.sq(&to(&y));
            if is_zero(&ua) {
                o.class("zero");
                same!(y2, u(0), "root of zero");
                return Ok(());
            }
            let sq = $F.is_square(&ratio);
            o.class(if sq { "square" } else { "non-square" });
            same!(bool::from(is_sq), sq, "is the ratio a square");
            if sq {
                same!(y2, ratio, "square of the root");
            } else {
                // y^2 = Z*u/v for the fixed non-square Z that also defines the curve mapping
                let (_, y1) = <$T as SqrtRatio>::sqrt_ratio(&from(&ua), &from(&$F.mul(&ub, &$F.sq(&u(3)))));
                same!(y2, $F.mul(&$F.sq(&to(&y1)), &u(9)), "root of Z times the ratio, scaled");
                ensure!(!$F.is_square(&$F.mul(&y2, &$F.inv(&ratio))), "Z is a square");
            }
            Ok(())
        });
        $c.sub("pow_by_self", 1_000, 40_000, 8, move || (felem($F), gen::elem(m)), move |(a, e), _| {
            let x: $T = from(&le(&a.0));
            let y: $T = from(&le(&e.0));
            same!(to(&x.pow_by_self(&y)), $F.pow(&le(&a.0), &le(&e.0)), "power");
            Ok(())
        });
    }};
}
