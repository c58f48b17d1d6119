//! C06: point encodings.
use spartan_int::group::{CompressedGroup, CompressedGroupExt, DecompressEncodedPoint};
use vk::*;
include!("../../../../common/points.rs");

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Bytes {
    len: u8,
    tag: u8,
    x: B32,
    y: B32,
    fix: u8,
}
fn bytes() -> impl Strategy<Value = Bytes> {
    let n = to_le(&FN.m);
    (0u8..8, prop_oneof![8 => 2u8..5, 2 => 0u8..8, 1 => any::<u8>()], gen::b256(n), gen::b256(n), 0u8..12).prop_map(|(len, tag, x, y, fix)| Bytes { len, tag, x, y, fix })
}

fn main() {
    let mut c = Check::new(
        "C06",
        "points of every kind, and byte strings of the SEC1 shapes with valid and invalid tags, x coordinates on and off the \
         curve and at or above the modulus, uncompressed forms with a right, negated, or wrong y; the oracle decides from \
         the curve equation which strings are encodings; distinct strings count as non-trivial",
    );
    c.assume("SEC1 compact form (tag 5) is left out: the library neither writes nor documents it");
    c.sub("round_trip", 20_000, 600_000, 8, || (ps(), ps()), |(a, b), o: &mut Obs| {
        let (p, q) = (model(a), model(b));
        if p.is_none() { o.class("identity") }
        let (x, y) = (real(&p), real(&q));
        let e = x.compress();
        same!(e.as_bytes().to_vec(), SECQ.compress(&p), "compressed form");
        let d: Option<AffinePoint> = AffinePoint::decompress(e).into();
        same!(d.map(|d| back(&d)), Some(p), "decompress");
        match e.unpack() { Ok(d) => same!(back(&d), p, "unpack"), Err(_) => return Err("unpack refused a point".into()) }
        same!(DecompressEncodedPoint::decompress(&e).map(|d| back(&d)), Some(p), "decompress (group)");
        same!(y.compress() == e, p == q, "distinct points have distinct encodings");
        let bin = bincode::serialize(&e).unwrap();
        let e2: CompressedGroup = bincode::deserialize(&bin).map_err(|e| e.to_string())?;
        same!(e2, e, "serialised form");
        Ok(())
    });
    c.sub("any_string", 40_000, 1_500_000, 8, bytes, |b: &Bytes, o: &mut Obs| {
        let mut x = le(&b.x.0);
        let mut y = le(&b.y.0);
        let lifted = if lt(&x, &FN.m) { SECQ.lift(&x, b.fix & 1 == 1) } else { None };
        if let Some((_, ly)) = lifted {
            match b.fix { 0..=5 => y = ly, 6 => y = FN.add(&ly, &u(1)), 7 => { let (w, c) = addc(&ly, &FN.m); if !c { y = w } }, _ => {} }
        }
        if b.fix == 11 { let (w, c) = addc(&x, &FN.m); if !c { x = w } }
        let mut s = vec![b.tag];
        let len = match (b.tag, b.len) { (2 | 3, 4..=5) => 1, (4, 1..=2) => 4, (_, l) => l };
        match len {
            0 => {}
            1..=3 => s.extend_from_slice(&to_be(&x)),
            4..=6 => { s.extend_from_slice(&to_be(&x)); s.extend_from_slice(&to_be(&y)) }
            _ => s.extend_from_slice(&to_be(&x)[..(b.fix as usize + 20).min(32)]),
        }
        if b.tag == 5 { o.trivial(); return Ok(()) }
        // the oracle
        let want: Option<Pt> = match (s[0], s.len()) {
            (0, 1) => Some(None),
            (2, 33) | (3, 33) => if lt(&x, &FN.m) { SECQ.lift(&x, s[0] == 3).map(Some) } else { None },
            (4, 65) => if lt(&x, &FN.m) && lt(&y, &FN.m) && SECQ.on(&Some((x, y))) { Some(Some((x, y))) } else { None },
            _ => None,
        };
        o.class(match (&want, s[0], s.len()) {
            (Some(None), ..) => "identity", (Some(_), _, 33) => "compressed point", (Some(_), ..) => "uncompressed point",
            (None, 2 | 3, 33) => "compressed, no such point", (None, 4, 65) => "uncompressed, off the curve", _ => "malformed" });
        let e = match EncodedPoint::from_bytes(&s) {
            Ok(e) => e,
            Err(_) => { ensure!(want.is_none(), "encoding refused"); return Ok(()) }
        };
        let d: Option<AffinePoint> = no_panic(|| AffinePoint::decompress(e)).map_err(|e| format!("decompress crashed: {}", e))?.into();
        same!(d.map(|d| back(&d)), want, "decompress");
        let d = no_panic(|| e.unpack()).map_err(|e| format!("unpack crashed: {}", e))?;
        same!(d.ok().map(|d| back(&d)), want, "unpack");
        let d = no_panic(|| DecompressEncodedPoint::decompress(&e)).map_err(|e| format!("decompress (group) crashed: {}", e))?;
        same!(d.map(|d| back(&d)), want, "decompress (group)");
        Ok(())
    });
    c.finish()
}
