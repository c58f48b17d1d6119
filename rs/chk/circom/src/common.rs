use circ::{broken, fp, get, witness, Honest, Lib, Tpl};
use proptest::prelude::*;
use refm::ec::{Pt, SECP};
use refm::{le, to_le, u, FN, FP, N, P, U};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::Path;
use std::sync::{Arc, Mutex, OnceLock};
use vk::gen::elem;
use vk::*;

const ADD: &str = "eff_ecdsa_membership/secp256k1/add.circom";
const DOUBLE: &str = "eff_ecdsa_membership/secp256k1/double.circom";
const MUL: &str = "eff_ecdsa_membership/secp256k1/mul.circom";
const EFF: &str = "eff_ecdsa_membership/eff_ecdsa.circom";
const TO_ADDR: &str = "eff_ecdsa_membership/eff_ecdsa_to_addr.circom";
const TREE: &str = "eff_ecdsa_membership/tree.circom";
const ETH: &str = "eff_ecdsa_membership/to_address/zk-identity/eth.circom";
const KECCAK: &str = "eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom";
const PKM: &str = "eff_ecdsa_membership/pubkey_membership.circom";
const ADM: &str = "eff_ecdsa_membership/addr_membership.circom";
const POS: &str = "poseidon/poseidon.circom";

/// A circuit of the working tree, parsed once per process.
fn lib(file: &'static str) -> Result<Arc<Lib>, String> {
    static L: OnceLock<Mutex<HashMap<&'static str, Result<Arc<Lib>, String>>>> = OnceLock::new();
    let mut m = L.get_or_init(Default::default).lock().unwrap();
    m.entry(file)
        .or_insert_with(|| circ::load(&Path::new("/repo/packages/circuits").join(file)).map(Arc::new))
        .clone()
}
fn circuit(file: &'static str, name: &str, args: &[u64]) -> Result<(Arc<Lib>, Arc<Tpl>), String> {
    let l = lib(file)?;
    if !fixed(name) && !l.templates.get(name).is_some_and(|d| d.params.len() == args.len()) {
        return Err(format!("{}: template {name} with {} parameters", vk::ABSENT, args.len()));
    }
    let t = l.compile(name, args).map_err(|e| format!("{name} does not compile: {e}"))?;
    Ok((l, t))
}
/// Circuits whose names and inputs callers outside the circuits rely on. The others may be renamed
/// or rearranged; the checks that drive them one by one then have nothing to look at.
fn fixed(name: &str) -> bool {
    ["PubKeyMembership", "AddrMembership"].contains(&name)
}
/// Whether a template has the inputs and outputs a check drives it by.
fn needs(t: &Tpl, name: &str, ins: &In, outs: &[&str]) -> R {
    let same = t.inputs().count() == ins.len() && t.inputs().all(|s| ins.iter().any(|(n, v)| *n == s.name && v.len() == s.len()))
        && outs.iter().all(|o| t.sigs.iter().any(|s| s.name == *o));
    if same || fixed(name) {
        Ok(())
    } else {
        Err(format!("{}: template {name} with these inputs and outputs", vk::ABSENT))
    }
}
type In<'a> = Vec<(&'a str, Vec<U>)>;
/// The honest witness's outputs; an error if a constraint is broken or no witness can be computed.
fn outputs(file: &'static str, name: &str, args: &[u64], ins: &In, outs: &[&str]) -> Result<Vec<Vec<U>>, String> {
    let (l, t) = circuit(file, name, args)?;
    needs(&t, name, ins, outs)?;
    let w = witness(&l, &t, ins, &mut Honest).map_err(|e| format!("{name}: no witness: {e}"))?;
    if let Some(b) = broken(&t, &w) {
        return Err(format!("{name}: the honest witness breaks a constraint: {b}"));
    }
    Ok(outs.iter().map(|o| get(&t, &w, o)).collect())
}
fn le32(m: &U) -> [u8; 32] {
    to_le(m)
}
fn fe() -> impl Strategy<Value = B32> + Clone {
    elem(le32(&P))
}
fn f(b: &B32) -> U {
    le(&b.0)
}
fn sqrt(a: &U) -> Option<U> {
    let e = refm::shr1(&refm::shr1(&refm::addc(&P, &[1, 0, 0, 0]).0));
    // p + 1 overflows nothing: p < 2^256 - 1
    let r = fp::pow(a, &e);
    (fp::mul(&r, &r) == *a).then_some(r)
}
/// A cube root (p = 7 mod 9).
fn cbrt(a: &U) -> Option<U> {
    let (mut q, mut r) = ([0u64; 4], 0u128); // (p + 2) / 9
    let n = refm::addc(&P, &u(2)).0;
    for i in (0..4).rev() {
        r = r << 64 | n[i] as u128;
        q[i] = (r / 9) as u64;
        r %= 9;
    }
    let c = fp::pow(a, &q);
    (fp::mul(&c, &fp::mul(&c, &c)) == *a).then_some(c)
}
fn rhs(x: &U) -> U {
    fp::add(&fp::mul(x, &fp::mul(x, x)), &u(7))
}
fn lift(x: &U, odd: bool) -> Pt {
    let y = sqrt(&rhs(x))?;
    Some((*x, if (y[0] & 1 == 1) == odd { y } else { fp::neg(&y) }))
}
/// The first curve point at or after x.
fn near(x: &U, odd: bool) -> Pt {
    let mut x = *x;
    loop {
        if let Some(p) = lift(&x, odd) {
            return Some(p);
        }
        x = fp::add(&x, &u(1));
    }
}
/// The first curve point whose y is at or after y.
fn near_y(y: &U) -> Pt {
    let mut y = *y;
    loop {
        if let Some(x) = cbrt(&fp::sub(&fp::mul(&y, &y), &u(7))) {
            return Some((x, y));
        }
        y = fp::add(&y, &u(1));
    }
}
fn small(c: i64) -> U {
    if c < 0 {
        fp::neg(&u(c.unsigned_abs()))
    } else {
        u(c as u64)
    }
}
fn xy(p: &Pt) -> (U, U) {
    p.unwrap_or(([0; 4], [0; 4]))
}
/// How a point is made.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Point {
    X(B32, bool),
    Y(B32),
    G(i64),
}
fn point() -> impl Strategy<Value = Point> + Clone {
    prop_oneof![
        6 => (fe(), any::<bool>()).prop_map(|(x, o)| Point::X(x, o)),
        2 => fe().prop_map(Point::Y),
        2 => (1i64..20, any::<bool>()).prop_map(|(k, s)| Point::G(if s { k } else { -k })),
    ]
}
fn make(p: &Point) -> Pt {
    match p {
        Point::X(x, o) => near(&f(x), *o),
        Point::Y(y) => near_y(&f(y)),
        Point::G(k) => {
            let q = SECP.mul(&u(k.unsigned_abs()), &refm::ec::g_secp());
            if *k < 0 {
                SECP.neg(&q)
            } else {
                q
            }
        }
    }
}
/// A second point in some relation to the first.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rel {
    Other(Point),
    Inf,
    Same,
    Neg,
    Times(i64),
    Endo(bool, bool),
    YSum(i64),
    YDiff(i64),
    XSum(i64),
    XDiff(i64),
    XIsY(bool),
}
fn rel() -> impl Strategy<Value = Rel> + Clone {
    prop_oneof![
        6 => point().prop_map(Rel::Other),
        1 => Just(Rel::Inf),
        1 => Just(Rel::Same),
        1 => Just(Rel::Neg),
        2 => (-5i64..6).prop_map(Rel::Times),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Rel::Endo(a, b)),
        2 => (-4i64..5).prop_map(Rel::YSum),
        2 => (-4i64..5).prop_map(Rel::YDiff),
        2 => (-4i64..5).prop_map(Rel::XSum),
        1 => (-4i64..5).prop_map(Rel::XDiff),
        1 => any::<bool>().prop_map(Rel::XIsY),
    ]
}
fn mul_small(k: i64, p: &Pt) -> Pt {
    let q = SECP.mul(&u(k.unsigned_abs()), p);
    if k < 0 {
        SECP.neg(&q)
    } else {
        q
    }
}
/// Finds (P', Q) in the relation, moving P to the next point for which it can hold.
fn pair(p: &Point, r: &Rel) -> (Pt, Pt) {
    let p0 = make(p);
    let beta = {
        let mut g = u(2);
        let e = {
            let (mut q, mut r) = ([0u64; 4], 0u128);
            let n = refm::subb(&P, &u(1)).0;
            for i in (0..4).rev() {
                r = r << 64 | n[i] as u128;
                q[i] = (r / 3) as u64;
                r %= 3;
            }
            q
        };
        loop {
            let b = fp::pow(&g, &e);
            if b != u(1) {
                break b;
            }
            g = fp::add(&g, &u(1));
        }
    };
    let (x, y) = xy(&p0);
    match r {
        Rel::Other(q) => (p0, make(q)),
        Rel::Inf => (p0, None),
        Rel::Same => (p0, p0),
        Rel::Neg => (p0, SECP.neg(&p0)),
        Rel::Times(k) => (p0, mul_small(*k, &p0)),
        Rel::Endo(sq, ng) => {
            let b = if *sq { fp::mul(&beta, &beta) } else { beta };
            let q = Some((fp::mul(&b, &x), y));
            (p0, if *ng { SECP.neg(&q) } else { q })
        }
        Rel::YSum(c) | Rel::YDiff(c) => {
            let mut y = y;
            loop {
                let p = near_y(&y);
                y = xy(&p).1;
                let y2 = if let Rel::YSum(_) = r { fp::sub(&small(*c), &y) } else { fp::add(&small(*c), &y) };
                if let Some(x2) = cbrt(&fp::sub(&fp::mul(&y2, &y2), &u(7))) {
                    // not the same x: pick another cube root
                    let x2 = if Some((x2, y2)) == p || Some((x2, fp::neg(&y2))) == p { fp::mul(&x2, &beta) } else { x2 };
                    return (p, Some((x2, y2)));
                }
                y = fp::add(&y, &u(1));
            }
        }
        Rel::XSum(c) | Rel::XDiff(c) => {
            let mut x = x;
            loop {
                let p = near(&x, y[0] & 1 == 1);
                x = xy(&p).0;
                let x2 = if let Rel::XSum(_) = r { fp::sub(&small(*c), &x) } else { fp::add(&small(*c), &x) };
                if let Some(q) = lift(&x2, c & 1 == 0) {
                    return (p, Some(q));
                }
                x = fp::add(&x, &u(1));
            }
        }
        Rel::XIsY(o) => (p0, near(&y, *o)),
    }
}
/// A scalar with weight on the places where the reduction k = (s + tQ) mod q changes shape.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Scalar {
    Any(B32),
    Near(u8, i64),
    Halves(u8, i64, u8, i64),
}
fn tq() -> U {
    // 2q - 2^256
    refm::subb(&N, &refm::subb(&[0; 4], &N).0).0
}
fn scalar() -> impl Strategy<Value = Scalar> + Clone {
    let d = || prop_oneof![3 => -4i64..5, 1 => -(1i64 << 40)..(1i64 << 40)];
    prop_oneof![
        4 => fe().prop_map(Scalar::Any),
        3 => (0u8..12, d()).prop_map(|(k, d)| Scalar::Near(k, d)),
        4 => (0u8..7, d(), 0u8..7, d()).prop_map(|(a, b, c, e)| Scalar::Halves(a, b, c, e)),
    ]
}
fn sc(s: &Scalar) -> U {
    let off = |a: U, d: i64| {
        if d < 0 {
            refm::subb(&a, &u(d.unsigned_abs())).0
        } else {
            refm::addc(&a, &u(d as u64)).0
        }
    };
    let t = tq();
    let v = match s {
        Scalar::Any(b) => f(b),
        Scalar::Near(k, d) => {
            let base = match k {
                0 => [0; 4],
                1 => P,
                2 => N,
                3 => refm::subb(&N, &t).0,
                4 => [0, 0, 1, 0],
                5 => refm::subb(&[0, 0, 1, 0], &[t[0], t[1], 0, 0]).0,
                6 => refm::shr1(&N),
                7 => refm::shr1(&P),
                8 => t,
                9 => [0, 0, 0, 1 << 63],
                10 => [0, 0, 2, 0],
                _ => refm::shr1(&t),
            };
            off(base, *d)
        }
        Scalar::Halves(a, b, c, e) => {
            let half = |k: u8, d: i64, hi: bool| -> (u64, u64) {
                let pick = |v: U| if hi { (v[2], v[3]) } else { (v[0], v[1]) };
                let neg = |(l, h): (u64, u64)| {
                    let x = ((h as u128) << 64 | l as u128).wrapping_neg();
                    (x as u64, (x >> 64) as u64)
                };
                let (l, h) = match k {
                    0 => (0, 0),
                    1 => pick(N),
                    2 => pick(t),
                    3 => neg(pick(t)),
                    4 => pick(refm::subb(&N, &t).0),
                    5 => pick(P),
                    _ => (d as u64 ^ 0x9E3779B97F4A7C15, (d as u64).wrapping_mul(0xD1342543DE82EF95)),
                };
                let x = ((h as u128) << 64 | l as u128).wrapping_add(d as i128 as u128);
                (x as u64, (x >> 64) as u64)
            };
            let (l, h) = (half(*a, *b, false), half(*c, *e, true));
            [l.0, l.1, h.0, h.1]
        }
    };
    fp::red(v)
}
/// s mod q for s < p < 2q.
fn mod_q(s: &U) -> U {
    FN.red(s)
}
/// A quick scalar multiplication on the curve (cross-checked against `refm::ec`).
fn mulpt(k: &U, p: &Pt) -> Pt {
    // Jacobian double-and-add
    let Some((x, y)) = *p else { return None };
    type J = (U, U, U);
    let m = fp::mul;
    let dbl = |p: &J| -> J {
        if p.2 == [0; 4] || p.1 == [0; 4] {
            return ([0; 4], u(1), [0; 4]);
        }
        let a = m(&p.0, &p.0);
        let b = m(&p.1, &p.1);
        let s = m(&u(4), &m(&p.0, &b));
        let e = m(&u(3), &a);
        let x3 = fp::sub(&m(&e, &e), &fp::add(&s, &s));
        let y3 = fp::sub(&m(&e, &fp::sub(&s, &x3)), &m(&u(8), &m(&b, &b)));
        (x3, y3, m(&u(2), &m(&p.1, &p.2)))
    };
    let add = |p: &J| -> J {
        if p.2 == [0; 4] {
            return (x, y, u(1));
        }
        let z2 = m(&p.2, &p.2);
        let u2 = m(&x, &z2);
        let s2 = m(&y, &m(&z2, &p.2));
        let h = fp::sub(&u2, &p.0);
        let r = fp::sub(&s2, &p.1);
        if h == [0; 4] {
            return if r == [0; 4] { dbl(p) } else { ([0; 4], u(1), [0; 4]) };
        }
        let h2 = m(&h, &h);
        let h3 = m(&h2, &h);
        let v = m(&p.0, &h2);
        let x3 = fp::sub(&fp::sub(&m(&r, &r), &h3), &fp::add(&v, &v));
        let y3 = fp::sub(&m(&r, &fp::sub(&v, &x3)), &m(&p.1, &h3));
        (x3, y3, m(&p.2, &h))
    };
    let mut r: J = ([0; 4], u(1), [0; 4]);
    for i in (0..refm::bits(k)).rev() {
        r = dbl(&r);
        if refm::bit(k, i) {
            r = add(&r);
        }
    }
    if r.2 == [0; 4] {
        return None;
    }
    let zi = fp::inv(&r.2);
    let z2 = m(&zi, &zi);
    Some((m(&r.0, &z2), m(&r.1, &m(&z2, &zi))))
}
/// circ's arithmetic and the quick scalar multiplication against the slow reference model.
fn self_test(c: &mut Check) {
    c.sub("reference-arithmetic", 2000, 20000, 4, || (fe(), fe(), 0u32..300), |(a, b, k): &(B32, B32, u32), _o: &mut Obs| {
        let (a, b) = (f(a), f(b));
        same!(fp::add(&a, &b), FP.add(&a, &b), "add");
        same!(fp::sub(&a, &b), FP.sub(&a, &b), "sub");
        same!(fp::mul(&a, &b), FP.mul(&a, &b), "mul");
        same!(fp::inv(&a), FP.inv(&a), "inv");
        let mut s = a;
        for _ in 0..*k {
            s = refm::shr1(&s);
        }
        same!(fp::shr(&a, *k), s, "shift");
        Ok(())
    });
    c.sub("reference-multiplication", 60, 600, 4, || (scalar(), point()), |(s, p): &(Scalar, Point), _o: &mut Obs| {
        let (s, p) = (sc(s), make(p));
        ensure!(SECP.on(&p), "point not on the curve");
        same!(mulpt(&s, &p), SECP.mul(&s, &p), "s*P");
        Ok(())
    });
}
