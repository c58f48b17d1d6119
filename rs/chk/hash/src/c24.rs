//! C24: the Poseidon and Merkle circuits against the specification and the native hash.
include!("../../circom/src/common.rs");
include!("../../circom/src/sigs.rs");
use ::poseidon::poseidon_k256::{hash, FieldElement};
use secq256k1::field::BaseField;

fn native(a: &U, b: &U) -> U {
    let e = |v: &U| FieldElement::from_bytes(&to_le(v)).unwrap();
    le(&BaseField::to_bytes(&hash(&[e(a), e(b)])))
}
fn merkle(leaf: &U, bits: &[U], sib: &[U]) -> Result<U, String> {
    let ins: In = vec![("leaf", vec![*leaf]), ("pathIndices", bits.to_vec()), ("siblings", sib.to_vec())];
    Ok(outputs(TREE, "MerkleTreeInclusionProof", &[sib.len() as u64], &ins, &["root"])?[0][0])
}
fn main() {
    let mut c = Check::new("C24", "a case is a distinct (inputs) or (leaf, path, siblings, depth); every case evaluates the circuit, checks all its constraints and compares the output");
    c.assume("circom 2 semantics as implemented by our interpreter (rs/circ); circomlib templates as re-written in rs/circ/lib");
    self_test(&mut c);
    c.sub("poseidon", 6000, 100000, 8, || (fe(), fe(), any::<bool>()), |(a, b, same): &(B32, B32, bool), o: &mut Obs| {
        let (a, b) = (f(a), if *same && a.0[0] % 8 == 0 { f(a) } else { f(b) });
        o.class(if a == b { "equal inputs" } else { "different inputs" });
        let want = hash2(&a, &b);
        same!(outputs(POS, "Poseidon", &[], &vec![("inputs", vec![a, b])], &["out"])?[0][0], want, "Poseidon circuit on ({:x?}, {:x?})", a, b);
        same!(native(&a, &b), want, "native Poseidon on ({:x?}, {:x?})", a, b);
        Ok(())
    });
    c.sub("model", 60, 600, 4, || (fe(), fe()), |(a, b): &(B32, B32), _o: &mut Obs| {
        same!(hash2(&f(a), &f(b)), refm::poseidon::hash2(pa(), &f(a), &f(b)), "quick model");
        Ok(())
    });
    c.sub("merkle", 900, 15000, 8, || (fe(), prop_oneof![4 => path(8), 1 => path(24)]), |(leaf, (p, s)): &(B32, (Vec<bool>, Vec<B32>)), o: &mut Obs| {
        let (leaf, s) = (f(leaf), fs(s));
        o.class(if p.is_empty() { "depth 0" } else if p.len() > 8 { "deep" } else { "shallow" });
        same!(merkle(&leaf, &bitsel(p), &s)?, root(&leaf, p, &s), "root at depth {}", p.len());
        Ok(())
    });
    // every path of small trees over one set of leaves: all proofs give the same root
    c.sub("whole-tree", 60, 1000, 8, || (1usize..=4).prop_flat_map(|n| proptest::collection::vec(fe(), 1 << n)), |leaves: &Vec<B32>, _o: &mut Obs| {
        let mut levels = vec![fs(leaves)];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            levels.push(l.chunks(2).map(|c| hash2(&c[0], &c[1])).collect());
        }
        let top = levels.pop().unwrap()[0];
        for i in 0..leaves.len() {
            let path: Vec<bool> = (0..levels.len()).map(|k| i >> k & 1 == 1).collect();
            let sib: Vec<U> = levels.iter().enumerate().map(|(k, l)| l[(i >> k) ^ 1]).collect();
            same!(merkle(&levels[0][i], &bitsel(&path), &sib)?, top, "proof of leaf {} of {}", i, leaves.len());
        }
        Ok(())
    });
    c.sub("path-not-bits", 500, 8000, 8, || (fe(), (1usize..=6).prop_flat_map(|n| (proptest::collection::vec(any::<bool>(), n), proptest::collection::vec(fe(), n), 0..n)), fe(), 0u8..6), |(leaf, (p, s, at), v, how): &(B32, (Vec<bool>, Vec<B32>, usize), B32, u8), o: &mut Obs| {
        let (leaf, s) = (f(leaf), fs(s));
        let v = match how {
            0 => u(2),
            1 => fp::neg(&u(1)),
            2 => fp::inv(&u(2)),
            3 => small(f(v)[0] as u8 as i64 - 128),
            _ => f(v),
        };
        if v == u(0) || v == u(1) {
            o.trivial();
            return Ok(());
        }
        let mut bits = bitsel(p);
        bits[*at] = v;
        let r = merkle(&leaf, &bits, &s);
        ensure!(r.is_err(), "path entry {:x?} at level {} was accepted", v, at);
        Ok(())
    });
    c.finish();
}
