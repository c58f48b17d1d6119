//! Writes /verif/golden/proofs.json: proofs that later versions have to accept.  Run by hand on the
//! original tree; no check runs it.
use chk_spartan::*;
use libspartan::*;
use merlin::Transcript;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use vk::serde_json::{json, Value};

fn main() {
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &[7u8; 32]));
    let mut out: Vec<Value> = vec![];
    let mut shot = |lo, mc, mv, mi, n: usize, snark: bool, out: &mut Vec<Value>| {
        let mut k = 0;
        while k < n {
            let s: SatInst = sat_inst_from(lo, mc, mv, mi).new_tree(&mut r).unwrap().current();
            // (the original could not handle these)
            if s.cons < 2 || s.nnz() < 2 {
                continue;
            }
            let (i, v, x) = (s.inst().unwrap(), asg(&s.vars).unwrap(), asg(&s.inputs).unwrap());
            let bytes = if snark {
                let g = snark_gens(&s);
                let (c, d) = SNARK::encode(&i, &g);
                let p = SNARK::prove(&i, &c, &d, v, &x, &g, &mut Transcript::new(b"golden"));
                p.verify(&c, &x, &mut Transcript::new(b"golden"), &g).unwrap();
                bincode::serialize(&p).unwrap()
            } else {
                let g = nizk_gens(&s);
                let p = NIZK::prove(&i, v, &x, &g, &mut Transcript::new(b"golden"));
                p.verify(&i, &x, &mut Transcript::new(b"golden"), &g).unwrap();
                bincode::serialize(&p).unwrap()
            };
            out.push(json!({"snark": snark, "statement": s, "proof": hexs(&bytes)}));
            k += 1;
        }
    };
    for snark in [false, true] {
        shot(2, 4, 4, 3, 4, snark, &mut out);
        shot(5, 12, 12, 6, 3, snark, &mut out);
        shot(17, 40, 40, 12, 2, snark, &mut out);
        shot(2, 6, 70, 40, 2, snark, &mut out);
    }
    shot(100, 140, 300, 20, 1, false, &mut out);
    std::fs::create_dir_all("/verif/golden").unwrap();
    std::fs::write("/verif/golden/proofs.json", vk::serde_json::to_string(&out).unwrap()).unwrap();
}
