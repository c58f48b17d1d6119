//! C01: the proof system's scalar is the field of integers modulo p.
use spartan_int::scalar::{Scalar, ScalarFromPrimitives};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vk::*;
use zeroize::Zeroize;
include!("../../../../common/field.rs");

fn main() {
    let mut c = Check::new(
        "C01",
        "operands below p with weight on limb patterns, 0, p, 2^256 neighbourhoods, equal/negated pairs, and operation \
         histories over six registers; every case is compared with schoolbook integer arithmetic modulo p; distinct \
         generated operand tuples/programs count as non-trivial",
    );
    c.scale = 20;
    c.assume("the model's 256-bit schoolbook arithmetic is right (it is cross-checked by its own algebraic self-tests)");
    let to = |x: &Scalar| le(&x.to_bytes());
    let from = |v: &U| Scalar::from_bytes(&to_le(v)).unwrap();
    field_suite!(c, Scalar, FP, to, from);
    c.sub("batch_invert", 1_500, 60_000, 8, move || prop_oneof![40 => 0usize..9, 1 => 9usize..300].prop_flat_map(|n| prop::collection::vec(felem(FP), n)), move |v: &Vec<B32>, o: &mut Obs| {
        let us: Vec<U> = v.iter().map(|b| le(&b.0)).map(|x| if is_zero(&x) { u(1) } else { x }).collect();
        if us.is_empty() {
            o.class("empty")
        }
        let mut xs: Vec<Scalar> = us.iter().map(from).collect();
        let all = Scalar::batch_invert(&mut xs);
        for (x, w) in xs.iter().zip(&us) {
            same!(to(x), FP.inv(w), "batch inverse of {:?}", w);
        }
        let p = us.iter().fold(u(1), |s, b| FP.mul(&s, b));
        same!(to(&all), FP.inv(&p), "product of the inverses");
        Ok(())
    });
    c.sub("primitives", 300, 3_000, 4, || (0usize..5000, any::<bool>()), move |(n, b), _| {
        same!(to(&n.to_scalar()), u(*n as u64), "usize");
        same!(to(&b.to_scalar()), u(*b as u64), "bool");
        same!(to(&Scalar::zero()), u(0), "zero");
        same!(to(&Scalar::one()), u(1), "one");
        Ok(())
    });
    // the constant printer
    let exe = std::env::var("MONT_PARAMS").ok();
    c.sub("mont_params", 1, 1, 1, || Just(0u8), move |_, o| {
        let exe = match &exe {
            Some(e) => e,
            None => { o.trivial(); return Ok(()) }
        };
        let out = std::process::Command::new(exe).output().map_err(|e| e.to_string())?;
        ensure!(out.status.success(), "the tool failed: {:?}", out.status);
        let txt = String::from_utf8_lossy(&out.stdout).to_string();
        let mut groups: Vec<(String, Vec<u64>)> = vec![];
        for l in txt.lines() {
            let l = l.trim();
            if let Some(h) = l.strip_prefix("//") {
                groups.push((h.trim().to_string(), vec![]));
            } else if let Some(h) = l.strip_prefix("0x") {
                let v = u64::from_str_radix(h.trim_end_matches(','), 16).map_err(|e| e.to_string())?;
                groups.last_mut().ok_or("value before any label")?.1.push(v);
            }
        }
        let r = FP.red(&[0x1000003D1, 0, 0, 0]);
        let r2 = FP.mul(&r, &r);
        let r3 = FP.mul(&r2, &r);
        // -p^-1 mod 2^64 by Newton iteration
        let mut inv = 1u64;
        for _ in 0..7 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(P[0].wrapping_mul(inv)));
        }
        let want = vec![
            ("Modulus".to_string(), P.to_vec()),
            ("R".to_string(), r.to_vec()),
            ("R2".to_string(), r2.to_vec()),
            ("R3".to_string(), r3.to_vec()),
            ("INV".to_string(), vec![inv.wrapping_neg(), 0, 0, 0]),
        ];
        same!(groups, want, "printed constants");
        Ok(())
    });
    c.finish()
}
