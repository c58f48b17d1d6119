//! C22: the client proving interface, end to end.
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use spartan_wasm::wasm;
use vk::*;
include!("../../../common/r1csfile.rs");
include!("../../../common/satsys.rs");

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("c22-{}", std::process::id()))
}
fn circuit(sys: &Sys, np: usize) -> Vec<u8> {
    let p = scratch().join(format!("{:?}.r1cs", std::thread::current().id()));
    std::fs::write(&p, r1cs(sys, &Layout { extra: vec![], order: vec![] })).unwrap();
    bincode::serialize(&circuit_reader::load_as_spartan_inst(p, np)).unwrap()
}
fn pub_bytes(v: &[B32]) -> Vec<u8> {
    v.iter().flat_map(|b| to_be(&le(&b.0))).collect()
}
fn prove(c: &[u8], w: &[u8], p: &[u8]) -> Result<Vec<u8>, String> {
    no_panic(|| wasm::prove(c, w, p).map_err(|_| "prove returned an error".to_string()))?
}
/// true: accepted; false: refused by value, error or abort
fn verify(c: &[u8], proof: &[u8], p: &[u8]) -> bool {
    matches!(no_panic(|| wasm::verify(c, proof, p).unwrap_or(false)), Ok(true))
}
fn e() -> impl Strategy<Value = B32> + Clone {
    let p = to_le(&P);
    prop_oneof![gen::elem(p).boxed(), (0u64..4).prop_map(|x| B32(to_le(&u(x)))).boxed()]
}
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Dmg {
    Xor(u32, u8),
    Set(u32, u8),
    Cut(u32),
    /// copy 32 or 33 bytes over another place
    Copy(u32, u32, u8),
    Remove(u32, u8),
    Insert(u32, u8),
}
fn dmg() -> impl Strategy<Value = Dmg> {
    prop_oneof![
        4 => (any::<u32>(), 1u8..).prop_map(|(i, x)| Dmg::Xor(i, x)),
        2 => (any::<u32>(), (0u32..8).prop_map(|k| 1u8 << k)).prop_map(|(i, x)| Dmg::Xor(i, x)),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(i, x)| Dmg::Set(i, x)),
        1 => any::<u32>().prop_map(Dmg::Cut),
        1 => (any::<u32>(), any::<u32>(), 1u8..66).prop_map(|(i, j, n)| Dmg::Copy(i, j, n)),
        1 => (any::<u32>(), 1u8..66).prop_map(|(i, n)| Dmg::Remove(i, n)),
        1 => (any::<u32>(), 1u8..66).prop_map(|(i, n)| Dmg::Insert(i, n)),
    ]
}
fn damage(p: &[u8], d: &Dmg) -> Vec<u8> {
    let mut v = p.to_vec();
    let n = v.len();
    match d {
        Dmg::Xor(i, x) => v[*i as usize % n] ^= x,
        Dmg::Set(i, x) => v[*i as usize % n] = *x,
        Dmg::Cut(k) => v.truncate(*k as usize % n),
        Dmg::Copy(i, j, l) => {
            let l = (*l as usize).min(n);
            let (i, j) = (*i as usize % (n - l + 1), *j as usize % (n - l + 1));
            v.copy_within(i..i + l, j)
        }
        Dmg::Remove(i, l) => {
            let i = *i as usize % n;
            v.drain(i..(i + *l as usize).min(n));
        }
        Dmg::Insert(i, l) => {
            // not at the very end: trailing bytes are not part of the proof
            let i = *i as usize % n;
            let piece: Vec<u8> = v[i.saturating_sub(*l as usize)..i].to_vec();
            v.splice(i..i, piece);
        }
    }
    v
}
fn input_change(good: &[B32], at: u32, v: &B32, kind: u8) -> Vec<u8> {
    let n = good.len();
    let mut g = good.to_vec();
    let k = at as usize % n;
    match kind % 6 {
        0 => g[k] = *v,
        1 => g.swap(k, (k + 1) % n),
        2 => g[k] = B32(to_le(&FP.add(&le(&g[k].0), &u(1)))),
        3 => g[k] = B32(to_le(&FP.neg(&le(&g[k].0)))),
        4 => g.rotate_left(1),
        _ => {
            // one bit of the encoding
            let mut b = pub_bytes(&g);
            let i = at as usize % (b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
            return b;
        }
    }
    pub_bytes(&g)
}
fn setup(s: &SatSys) -> (Vec<u8>, Vec<u8>, Vec<B32>) {
    (circuit(&s.sys, s.num_pub), wtns(&s.z), s.z[1..1 + s.num_pub].to_vec())
}

fn main() {
    std::fs::create_dir_all(scratch()).unwrap();
    let mut c = Check::new("C22", "a case is a distinct (circuit, witness, public inputs, damage) tuple; changes that leave the bytes as they were are trivial");
    c.assume("merlin, multiexp and the other absent dependencies are replaced by stand-ins with the published behaviour (DESIGN.md)");
    let complete_case = |s: &SatSys, o: &mut Obs| -> R {
        let (circ, w, p) = setup(s);
        if s.sys.cons.is_empty() {
            o.class("no constraint");
        }
        let pb = pub_bytes(&p);
        let proof = prove(&circ, &w, &pb)?;
        ensure!(verify(&circ, &proof, &pb), "an honest proof was refused");
        Ok(())
    };
    c.sub("complete", 240, 8000, 8, || sat_sys(24, 12), complete_case);
    c.sub("complete_larger", 16, 300, 8, || sat_sys(300, 90), complete_case);
    // about the size of the deployed circuits: honest, with another input, and from a wrong witness
    c.sub("full_size", 4, 48, 4, || (any::<u64>(), 4200u32..8300, 1000usize..4100, 1usize..160, any::<u32>(), e()), |&(seed, wires, nc, np, at, v): &(u64, u32, usize, usize, u32, B32), o: &mut Obs| {
        let s = big_sys(seed, wires, nc, np);
        let (circ, w, p) = setup(&s);
        let pb = pub_bytes(&p);
        let proof = prove(&circ, &w, &pb)?;
        ensure!(verify(&circ, &proof, &pb), "an honest proof was refused");
        for k in [at as usize, np - 1] {
            let mut bad = p.clone();
            bad[k % np] = v;
            if bad != p {
                ensure!(!verify(&circ, &proof, &pub_bytes(&bad)), "accepted with another public input {}", k % np);
            }
        }
        let mut z = s.z.clone();
        let k = np + 1 + at as usize % (z.len() - np - 1);
        z[k] = v;
        if !holds(&s.sys, &uz(&z)) {
            o.class("wrong witness");
            if let Ok(proof) = prove(&circ, &wtns(&z), &pb) {
                ensure!(!verify(&circ, &proof, &pb), "a proof of an invalid witness was accepted");
            }
        }
        Ok(())
    });
    c.sub("wrong_inputs", 160, 6000, 8, || (sat_sys(16, 8), vec((any::<u32>(), e(), any::<u8>()), 8)), |(s, ch): &(SatSys, Vec<(u32, B32, u8)>), o: &mut Obs| {
        let (circ, w, p) = setup(s);
        if p.is_empty() {
            o.trivial();
            return Ok(());
        }
        let pb = pub_bytes(&p);
        let proof = prove(&circ, &w, &pb)?;
        for (at, v, k) in ch {
            let bad = input_change(&p, *at, v, *k);
            if bad == pb {
                continue;
            }
            ensure!(!verify(&circ, &proof, &bad), "accepted with public inputs {:02x?} instead of {:02x?}", bad, pb);
        }
        ensure!(!verify(&circ, &proof, &pb[..pb.len() - 1]), "accepted with a truncated list of inputs");
        Ok(())
    });
    c.sub("invalid_witness", 240, 8000, 8, || (sat_sys(16, 8), any::<u32>(), e(), any::<bool>()), |(s, at, v, pubs): &(SatSys, u32, B32, bool), o: &mut Obs| {
        let np = s.num_pub;
        let n = s.z.len();
        let mut z = s.z.clone();
        let k = if *pubs && np > 0 {
            1 + *at as usize % np
        } else if n > np + 1 {
            np + 1 + *at as usize % (n - np - 1)
        } else {
            o.trivial();
            return Ok(());
        };
        z[k] = *v;
        if holds(&s.sys, &uz(&z)) {
            o.trivial();
            return Ok(());
        }
        let circ = circuit(&s.sys, np);
        let pb = pub_bytes(&z[1..1 + np]);
        match prove(&circ, &wtns(&z), &pb) {
            Err(_) => {
                o.class("prover refuses");
                Ok(())
            }
            Ok(proof) => {
                ensure!(!verify(&circ, &proof, &pb), "a proof of an invalid witness was accepted");
                Ok(())
            }
        }
    });
    c.sub("leading_wires", 60, 2000, 8, || (sat_sys(16, 8), vec(e(), 1..6)), |(s, g): &(SatSys, Vec<B32>), o: &mut Obs| {
        // what the file says for wires 0..=num_pub must not replace the constant and the inputs
        let np = s.num_pub;
        let mut bad = s.z[1..1 + np].to_vec();
        let mut w = s.z.clone();
        for (i, v) in g.iter().enumerate() {
            if i < np {
                bad[i] = *v
            }
            if i <= np {
                w[i] = *v
            }
        }
        let mut z = vec![u(1)];
        z.extend(uz(&bad));
        z.extend(uz(&s.z[1 + np..]));
        if holds(&s.sys, &z) {
            o.trivial();
            return Ok(());
        }
        let circ = circuit(&s.sys, np);
        for (wit, p) in [(&s.z, &bad), (&w, &bad)] {
            if let Ok(proof) = prove(&circ, &wtns(wit), &pub_bytes(p)) {
                ensure!(!verify(&circ, &proof, &pub_bytes(p)), "accepted for public inputs that violate the circuit");
            }
        }
        Ok(())
    });
    c.sub("damaged", 120, 4000, 8, || (sat_sys(10, 6), vec(dmg(), 24)), |(s, ds): &(SatSys, Vec<Dmg>), _o: &mut Obs| {
        let (circ, w, p) = setup(s);
        let pb = pub_bytes(&p);
        let proof = prove(&circ, &w, &pb)?;
        for d in ds {
            let bad = damage(&proof, d);
            if bad.starts_with(&proof) {
                continue;
            }
            ensure!(!verify(&circ, &bad, &pb), "a proof damaged by {:?} was accepted", d);
        }
        Ok(())
    });
    c.sub("other_circuit", 80, 3000, 8, || (sat_sys(10, 6), any::<u32>(), 0usize..3, e()), |(s, at, m, v): &(SatSys, u32, usize, B32), o: &mut Obs| {
        let (circ, w, p) = setup(s);
        let pb = pub_bytes(&p);
        let mut sys = s.sys.clone();
        if sys.cons.is_empty() || le(&v.0) == u(0) {
            o.trivial();
            return Ok(());
        }
        let k = *at as usize % sys.cons.len();
        sys.cons[k][*m].push((*at % sys.wires, *v));
        let other = circuit(&sys, s.num_pub);
        let proof = prove(&circ, &w, &pb)?;
        ensure!(!verify(&other, &proof, &pb), "accepted for another circuit");
        Ok(())
    });
    let pa = std::sync::Arc::new(refm::poseidon::params());
    c.sub("hash", 2500, 40000, 8, || (gen::b256(to_le(&P)), gen::b256(to_le(&P)), prop_oneof![6 => Just(64usize), 1 => 0usize..130]), move |(a, b, len): &(B32, B32, usize), o: &mut Obs| {
        let mut inp = [a.0, b.0].concat();
        inp.resize(*len, 0);
        let got = no_panic(|| wasm::poseidon(&inp).ok());
        if *len != 64 || !vk::gen::lt(&a.0, &to_le(&P)) || !vk::gen::lt(&b.0, &to_le(&P)) {
            o.class("not two elements");
            return match got {
                Ok(Some(_)) => Err("a hash of something that is not two field elements".into()),
                _ => Ok(()),
            };
        }
        let want = to_le(&refm::poseidon::hash2(&pa, &le(&a.0), &le(&b.0)));
        same!(got?, Some(want.to_vec()), "poseidon");
        Ok(())
    });
    c.sub("shipped", 1, 1, 1, || Just(0u8), |_: &u8, o: &mut Obs| {
        let d = "/repo/packages/spartan_wasm/test_circuit";
        let (r, w) = (format!("{}/test_circuit.r1cs", d), format!("{}/witness.wtns", d));
        let (rb, wb) = match (std::fs::read(&r), std::fs::read(&w)) {
            (Ok(a), Ok(b)) => (a, b),
            _ => {
                o.trivial();
                return Ok(());
            }
        };
        // header section: 12 bytes of file header, 12 of section header, then the fields
        let at = rb.windows(12).position(|x| x[..4] == [1, 0, 0, 0] && x[4..] == 64u64.to_le_bytes()).ok_or("header section")? + 12;
        let rd = |k: usize| u32::from_le_bytes(rb[at + k..at + k + 4].try_into().unwrap()) as usize;
        let np = rd(40) + rd(44);
        let circ = bincode::serialize(&circuit_reader::load_as_spartan_inst(r.into(), np)).unwrap();
        let vals: Vec<B32> = wb[76..].chunks(32).map(|x| B32(x.try_into().unwrap())).collect();
        let pb = pub_bytes(&vals[1..1 + np]);
        let proof = prove(&circ, &wb, &pb)?;
        ensure!(verify(&circ, &proof, &pb), "the repository's own circuit and witness: honest proof refused");
        for k in 0..np {
            let mut bad = vals[1..1 + np].to_vec();
            bad[k] = B32(to_le(&FP.add(&le(&bad[k].0), &u(1))));
            ensure!(!verify(&circ, &proof, &pub_bytes(&bad)), "public input {} can be changed", k);
        }
        Ok(())
    });
    c.at_exit(|| {
        let _ = std::fs::remove_dir_all(scratch());
    });
    c.finish()
}
