// Shared by the field checks.  `T` is the type under test, `M` its model (an Fm); to/from go
// through the little-endian byte encoding, whose own correctness the encoding sub-checks decide.
use proptest::prelude::*;
use refm::*;
use vk::{gen, B32};

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Step {
    op: u8,
    d: u8,
    a: u8,
    b: u8,
    e: B32,
}
/// Canonical values, edge-heavy both as integers and in Montgomery form (v*2^-256 mod m).
pub fn felem(f: Fm) -> impl Strategy<Value = B32> + Clone {
    let m = to_le(&f.m);
    let rinv = f.inv(&f.red(&subb(&u(0), &f.m).0));
    (gen::elem(m), any::<bool>()).prop_map(move |(e, b)| if b { B32(to_le(&f.mul(&le(&e.0), &rinv))) } else { e })
}
pub fn steps(f: Fm, n: usize) -> impl Strategy<Value = (Vec<B32>, Vec<Step>)> {
    let m = to_le(&f.m);
    (
        prop::collection::vec(felem(f), 1..5),
        prop::collection::vec(
            (0u8..22, 0u8..6, 0u8..6, 0u8..6, gen::b256(m)).prop_map(|(op, d, a, b, e)| Step { op, d, a, b, e }),
            1..n,
        ),
    )
}

macro_rules! field_suite {
    ($c:ident, $T:ty, $F:expr, $to:expr, $from:expr) => {{
        let m = to_le(&$F.m);
        let to = $to;
        let from = $from;
        // two operands, every operator and variant
        $c.sub("binary", 40_000, 2_000_000, 8, move || (felem($F), felem($F), any::<u8>()), move |(a, b, k), o: &mut Obs| {
            let (ua, mut ub) = (le(&a.0), le(&b.0));
            match k % 8 { 0 => ub = ua, 1 => ub = $F.neg(&ua), 2 => ub = $F.add(&ua, &u(1)), _ => {} }
            if is_zero(&ua) || is_zero(&ub) { o.class("zero operand") }
            if ua == ub { o.class("equal operands") }
            if addc(&ua, &ub).1 { o.class("sum over 2^256") } else if !lt(&addc(&ua, &ub).0, &$F.m) { o.class("sum in [m,2^256)") }
            let (x, y): ($T, $T) = (from(&ua), from(&ub));
            let add = $F.add(&ua, &ub);
            let sub = $F.sub(&ua, &ub);
            let mul = $F.mul(&ua, &ub);
            same!(to(&(x + y)), add, "a+b");
            same!(to(&(&x + &y)), add, "&a+&b");
            same!(to(&(&x + y)), add, "&a+b");
            same!(to(&(x + &y)), add, "a+&b");
            let mut z = x; z += y; same!(to(&z), add, "a+=b");
            let mut z = x; z += &y; same!(to(&z), add, "a+=&b");
            same!(to(&(x - y)), sub, "a-b");
            same!(to(&(&x - &y)), sub, "&a-&b");
            same!(to(&(&x - y)), sub, "&a-b");
            same!(to(&(x - &y)), sub, "a-&b");
            let mut z = x; z -= y; same!(to(&z), sub, "a-=b");
            let mut z = x; z -= &y; same!(to(&z), sub, "a-=&b");
            same!(to(&(x * y)), mul, "a*b");
            same!(to(&(&x * &y)), mul, "&a*&b");
            same!(to(&(&x * y)), mul, "&a*b");
            same!(to(&(x * &y)), mul, "a*&b");
            let mut z = x; z *= y; same!(to(&z), mul, "a*=b");
            let mut z = x; z *= &y; same!(to(&z), mul, "a*=&b");
            same!(x == y, ua == ub, "a==b");
            same!(x != y, ua != ub, "a!=b");
            same!(x.ct_eq(&y).unwrap_u8(), (ua == ub) as u8, "ct_eq");
            same!(to(&<$T>::conditional_select(&x, &y, Choice::from(0))), ua, "select 0");
            same!(to(&<$T>::conditional_select(&x, &y, Choice::from(1))), ub, "select 1");
            let (mut p, mut q) = (x, y);
            <$T>::conditional_swap(&mut p, &mut q, Choice::from(k & 1));
            let (eu, ev) = if k & 1 == 1 { (ub, ua) } else { (ua, ub) };
            same!((to(&p), to(&q)), (eu, ev), "conditional_swap");
            Ok(())
        });
        $c.sub("unary", 20_000, 1_000_000, 8, move || felem($F), move |a, o: &mut Obs| {
            let ua = le(&a.0);
            let x: $T = from(&ua);
            if is_zero(&ua) { o.class("zero") }
            same!(to(&-x), $F.neg(&ua), "-a");
            same!(to(&-&x), $F.neg(&ua), "-&a");
            same!(to(&x.neg()), $F.neg(&ua), "a.neg()");
            same!(to(&x.double()), $F.add(&ua, &ua), "double");
            same!(to(&x.square()), $F.sq(&ua), "square");
            same!(to(&(x.square() * x)), $F.mul(&$F.sq(&ua), &ua), "square*a");
            same!(to(&x), ua, "identity");
            same!(to(&<$T>::default()), u(0), "default");
            let mut z = x; z.zeroize(); same!(to(&z), u(0), "zeroize");
            Ok(())
        });
        $c.sub("invert", 4_000, 100_000, 8, move || felem($F), move |a, o: &mut Obs| {
            let ua = le(&a.0);
            let x: $T = from(&ua);
            let inv = x.invert();
            if is_zero(&ua) {
                o.class("zero");
                ensure!(!bool::from(inv.is_some()), "zero reported invertible");
                return Ok(());
            }
            ensure!(bool::from(inv.is_some()), "inverse of a non-zero value reported absent");
            same!(to(&inv.unwrap()), $F.inv(&ua), "inverse");
            Ok(())
        });
        $c.sub("pow", 1_500, 60_000, 8, move || (felem($F), gen::b256(m)), move |(a, e), o: &mut Obs| {
            let (ua, ue) = (le(&a.0), le(&e.0));
            if is_zero(&ue) { o.class("exponent 0") }
            if !lt(&ue, &$F.m) { o.class("exponent >= modulus") }
            let x: $T = from(&ua);
            same!(to(&x.pow(&ue)), $F.pow(&ua, &ue), "pow");
            same!(to(&x.pow_vartime(&ue)), $F.pow(&ua, &ue), "pow_vartime");
            Ok(())
        });
        $c.sub("sums", 2_000, 100_000, 8, move || prop_oneof![40 => 0usize..12, 1 => 12usize..300].prop_flat_map(|n| prop::collection::vec(felem($F), n)), move |v: &Vec<B32>, o: &mut Obs| {
            if v.is_empty() { o.class("empty") }
            let xs: Vec<$T> = v.iter().map(|b| from(&le(&b.0))).collect();
            let s = v.iter().fold(u(0), |s, b| $F.add(&s, &le(&b.0)));
            let p = v.iter().fold(u(1), |s, b| $F.mul(&s, &le(&b.0)));
            same!(to(&xs.iter().sum::<$T>()), s, "sum of references");
            same!(to(&xs.iter().copied().sum::<$T>()), s, "sum of values");
            same!(to(&xs.iter().product::<$T>()), p, "product of references");
            same!(to(&xs.iter().copied().product::<$T>()), p, "product of values");
            Ok(())
        });
        // operation histories over a register file: results are fed back, so an internal
        // representation that is reachable only through a sequence of operations is exercised
        $c.sub("programs", 3_000, 120_000, 8, move || steps($F, 40), move |(init, prog), o: &mut Obs| {
            let mut r: Vec<$T> = init.iter().map(|b| from(&le(&b.0))).collect();
            let mut w: Vec<U> = init.iter().map(|b| le(&b.0)).collect();
            r.resize(6, from(&u(1)));
            w.resize(6, u(1));
            if prog.len() > 10 { o.class("more than 10 steps") }
            for (i, s) in prog.iter().enumerate() {
                let (a, b, d) = (s.a as usize, s.b as usize, s.d as usize);
                let (x, y, p, q) = (r[a], r[b], w[a], w[b]);
                let e = le(&s.e.0);
                let (nx, nw): ($T, U) = match s.op {
                    0 | 1 => (x + y, $F.add(&p, &q)),
                    2 | 3 => (x - y, $F.sub(&p, &q)),
                    4 | 5 | 6 => (x * y, $F.mul(&p, &q)),
                    7 => (-x, $F.neg(&p)),
                    8 => (x.double(), $F.add(&p, &p)),
                    9 | 10 => (x.square(), $F.sq(&p)),
                    11 => { let k = [s.e.0[0] as u64, 0, 0, 0]; (x.pow_vartime(&k), $F.pow(&p, &k)) }
                    12 => { if is_zero(&p) { (x, p) } else { (x.invert().unwrap(), $F.inv(&p)) } }
                    13 => (<$T>::from_raw(e), $F.red(&e)),
                    14 => (<$T>::from(e[0]), u(e[0])),
                    15 => { let mut z = x; z += y; z -= &x; (z, q) }
                    16 => { let mut z = x; z *= y; z += &y; (z, $F.add(&$F.mul(&p, &q), &q)) }
                    17 => (<$T>::conditional_select(&x, &y, Choice::from(s.e.0[0] & 1)), if s.e.0[0] & 1 == 1 { q } else { p }),
                    18 => { let mut t = [0u8; 64]; t[..32].copy_from_slice(&s.e.0); t[32..].copy_from_slice(&to_le(&p));
                            (<$T>::from_bytes_wide(&t), $F.from_le_bytes(&t)) }
                    19 => (x - x, u(0)),
                    20 => (x + (-x), u(0)),
                    _ => (x.square() - y.square(), $F.sub(&$F.sq(&p), &$F.sq(&q))),
                };
                r[d] = nx;
                w[d] = nw;
                same!(to(&nx), nw, "step {} (op {})", i, s.op);
                for j in 0..6 {
                    same!(nx == r[j], nw == w[j], "equality with register {} after step {}", j, i);
                }
            }
            Ok(())
        });
    }};
}

