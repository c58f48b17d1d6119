//! C07: hash-to-curve and generators.
use keccak1600::shake256;
use spartan_int::commitments::MultiCommitGens;
use std::collections::HashSet;
use vk::*;
include!("../../../../common/points.rs");

use refm::swu::h2c;
use refm::swu::H2C;
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct In {
    lo: B32,
    hi: B32,
    special: u8,
}
fn half() -> impl Strategy<Value = In> {
    let n = to_le(&FN.m);
    (gen::b256(n), prop_oneof![1 => Just(B32([0; 32])), 3 => gen::b256(n)], 0u8..20).prop_map(|(lo, hi, special)| In { lo, hi, special })
}
fn half_bytes(i: &In, h: &H2C) -> [u8; 64] {
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&i.lo.0);
    o[32..].copy_from_slice(&i.hi.0);
    // exceptional inputs of the map: 0, a multiple of n, and +-sqrt(-1/Z)
    let root = FN.sqrt(&FN.neg(&FN.inv(&h.z)));
    match i.special {
        0 => o = [0; 64],
        1 => { o[..32].copy_from_slice(&to_le(&FN.m)); o[32..].fill(0) }
        2 => if let Some(r) = root { o[..32].copy_from_slice(&to_le(&r)); o[32..].fill(0) },
        3 => if let Some(r) = root { o[..32].copy_from_slice(&to_le(&FN.neg(&r))); o[32..].fill(0) },
        _ => {}
    }
    o
}

fn main() {
    let mut c = Check::new(
        "C07",
        "128-byte strings (edge-heavy halves, halves reducing to 0 and to the exceptional inputs of the map, equal halves) against \
         a textbook simplified-SWU map and isogeny; generator sets for generated labels and sizes against an independent \
         SHAKE256; distinct inputs count as non-trivial",
    );
    c.sub("hash_to_curve", 8_000, 250_000, 8, || (half(), half(), any::<u8>()), |(a, b, k), o: &mut Obs| {
        let h = h2c();
        let mut s = [0u8; 128];
        s[..64].copy_from_slice(&half_bytes(a, &h));
        let second = if k % 10 == 0 { half_bytes(a, &h) } else { half_bytes(b, &h) };
        s[64..].copy_from_slice(&second);
        if s[..64] == s[64..] { o.class("equal halves") }
        if a.special < 2 || b.special < 2 { o.class("a half reduces to zero") }
        let want = h.hash(&s);
        ensure!(SECQ.on(&want), "model error");
        let p = no_panic(|| AffinePoint::from_uniform_bytes(&s)).map_err(|e| format!("mapping crashed: {}", e))?;
        same!(back(&p), want, "mapped point");
        Ok(())
    });
    c.sub(
        "generators",
        240,
        4_000,
        8,
        || (prop::collection::vec(any::<u8>(), 0..40), 0usize..24, 0usize..12, 0usize..40),
        |(label, n, more, at): &(Vec<u8>, usize, usize, usize), o: &mut Obs| {
            let h = h2c();
            if label.is_empty() { o.class("empty label") }
            if *n == 0 { o.class("no generators") }
            let g = MultiCommitGens::new(*n, label);
            let mut seed = label.clone();
            seed.extend_from_slice(&SECQ.compress(&g_secq()));
            let stream = shake256(&seed, 128 * (n + 1));
            same!(g.n, *n, "size");
            same!(g.G.len(), *n, "number of generators");
            let all: Vec<AffinePoint> = g.G.iter().copied().chain([g.h]).collect();
            let mut seen = HashSet::new();
            for (i, p) in all.iter().enumerate() {
                let p = back(p);
                same!(p, h.hash(&stream[128 * i..128 * i + 128]), "generator {}", i);
                ensure!(p.is_some(), "generator {} is the identity", i);
                ensure!(seen.insert(p), "generator {} repeats an earlier one", i);
            }
            let big = MultiCommitGens::new(n + more, label);
            same!(big.G[..*n], g.G[..], "prefix of the larger set");
            let mut other = label.clone();
            if let Some(x) = other.last_mut() { *x = x.wrapping_add(1) } else { other.push(0) }
            let o2 = MultiCommitGens::new(*n, &other);
            for p in o2.G.iter().chain([&o2.h]) {
                ensure!(!seen.contains(&back(p)), "a generator is shared between labels");
            }
            let cl = g.clone();
            same!((cl.n, cl.G.clone(), cl.h), (g.n, g.G.clone(), g.h), "clone");
            let at = at % (n + 1);
            let (l, r) = g.split_at(at);
            same!((l.n, l.G.clone(), l.h), (at, g.G[..at].to_vec(), g.h), "left part");
            same!((r.n, r.G.clone(), r.h), (n - at, g.G[at..].to_vec(), g.h), "right part");
            let s = spartan_int::scalar::Scalar::from(*more as u64 + 2);
            let sg = g.scale(&s);
            for i in 0..*n {
                same!(back(&sg.G[i]), SECQ.mul(&u(*more as u64 + 2), &back(&g.G[i])), "scaled generator");
            }
            same!((sg.n, sg.h), (*n, g.h), "scaled set");
            Ok(())
        },
    );
    // long sets: no repetition among many generators, prefixes agree, and each is where the stream puts it
    c.sub("long_set", 1, 8, 1, || (2100usize..4300, proptest::collection::vec(any::<u32>(), 60)), |(n, at): &(usize, Vec<u32>), _| {
        let n = *n;
        let g = MultiCommitGens::new(n, b"long");
        let all: Vec<AffinePoint> = g.G.iter().copied().chain([g.h]).collect();
        same!(all.len(), n + 1, "number of generators");
        let mut seen = HashSet::new();
        for p in &all {
            ensure!(back(p).is_some() && seen.insert(back(p)), "repeated or identity generator");
        }
        same!(MultiCommitGens::new(n / 3, b"long").G[..], g.G[..n / 3], "prefix");
        let h = h2c();
        let mut seed = b"long".to_vec();
        seed.extend_from_slice(&SECQ.compress(&g_secq()));
        let stream = shake256(&seed, 128 * (n + 1));
        let powers = (5..12).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]);
        for i in at.iter().map(|x| *x as usize % (n + 1)).chain(powers).chain([n - 1, n]) {
            same!(back(&all[i]), h.hash(&stream[128 * i..128 * i + 128]), "generator {} of {}", i, n);
        }
        Ok(())
    });
    c.finish()
}
