//! C08: Poseidon.
use ::poseidon::poseidon_k256::{hash, FieldElement};
use ::poseidon::{Poseidon, PoseidonConstants};
use proptest::prelude::*;
use refm::poseidon::{hash2, params, Params};
use refm::*;
use secq256k1::field::BaseField;
use std::sync::Arc;
use vk::*;

fn fe(v: &U) -> FieldElement {
    FieldElement::from_bytes(&to_le(v)).unwrap()
}
fn un(x: &FieldElement) -> U {
    le(&BaseField::to_bytes(x))
}
fn constants(p: &Params) -> PoseidonConstants<FieldElement> {
    PoseidonConstants::new(
        p.rc.iter().map(fe).collect(),
        p.mds.iter().map(|r| r.iter().map(fe).collect()).collect(),
        8,
        56,
    )
}
/// Permutation with any round numbers and constants (the generic hasher's definition).
fn model(rc: &[U], mds: &[[U; 3]; 3], rf: usize, rp: usize, a: &U, b: &U) -> U {
    let mut s = [u(3), *a, *b];
    for r in 0..rf / 2 * 2 + rp {
        for i in 0..3 {
            s[i] = FP.add(&s[i], &rc[3 * r + i]);
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for i in 0..3 {
            if i == 0 || full {
                let q = FP.sq(&FP.sq(&s[i]));
                s[i] = FP.mul(&q, &s[i]);
            }
        }
        let mut o = [[0u64; 4]; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[i] = FP.add(&o[i], &FP.mul(&mds[i][j], &s[j]));
            }
        }
        s = o;
    }
    s[1]
}

fn main() {
    let mut c = Check::new(
        "C08",
        "pairs of field elements (edge-heavy), histories of hashes on one hasher, and generic hashers with generated constants and \
         round numbers, against a textbook permutation whose constants are regenerated from the Grain parameters; distinct \
         cases count as non-trivial",
    );
    let m = to_le(&FP.m);
    let pa = Arc::new(params());
    let p1 = pa.clone();
    c.sub("digest", 24_000, 800_000, 8, move || (gen::elem(m), gen::elem(m)), move |(a, b), o: &mut Obs| {
        let (ua, ub) = (le(&a.0), le(&b.0));
        if is_zero(&ua) || is_zero(&ub) { o.class("zero input") }
        if ua == ub { o.class("equal inputs") }
        let want = hash2(&p1, &ua, &ub);
        same!(un(&hash(&[fe(&ua), fe(&ub)])), want, "digest");
        same!(un(&hash(&[fe(&ua), fe(&ub)])), want, "digest, computed again");
        Ok(())
    });
    let p2 = pa.clone();
    c.sub("hasher_history", 1_500, 40_000, 8, move || prop_oneof![40 => 1usize..8, 1 => 8usize..150].prop_flat_map(move |n| prop::collection::vec((gen::elem(m), gen::elem(m)), n)), move |v: &Vec<(B32, B32)>, o: &mut Obs| {
        if v.len() > 1 { o.class("hasher used again") }
        let mut h = Poseidon::new(constants(&p2));
        for (i, (a, b)) in v.iter().enumerate() {
            let (ua, ub) = (le(&a.0), le(&b.0));
            same!(un(&h.hash(&[fe(&ua), fe(&ub)])), hash2(&p2, &ua, &ub), "digest number {}", i);
        }
        Ok(())
    });
    c.sub(
        "generic",
        1_500,
        40_000,
        8,
        move || (prop::collection::vec(gen::elem(m), 10), (0usize..4, 0usize..8), gen::elem(m), gen::elem(m), any::<u64>()),
        move |(seed, (hf, rp), a, b, salt), _| {
            let mut x = le(&seed[9].0);
            let n = 3 * (2 * hf + rp);
            let rc: Vec<U> = (0..n).map(|i| { x = FP.add(&FP.mul(&x, &le(&seed[i % 9].0)), &u(*salt)); x }).collect();
            let mut mds = [[[0u64; 4]; 3]; 3];
            for i in 0..9 {
                mds[i / 3][i % 3] = le(&seed[i].0);
            }
            let k = PoseidonConstants::new(rc.iter().map(fe).collect(), mds.iter().map(|r| r.iter().map(fe).collect()).collect(), 2 * hf, *rp);
            let (ua, ub) = (le(&a.0), le(&b.0));
            same!(un(&Poseidon::new(k).hash(&[fe(&ua), fe(&ub)])), model(&rc, &mds, 2 * hf, *rp, &ua, &ub), "digest");
            Ok(())
        },
    );
    c.finish()
}
