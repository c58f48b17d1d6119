//! C14: SNARK completeness.
use chk_spartan::*;
use libspartan::*;
use merlin::Transcript;
use proptest::prelude::*;
use vk::*;

fn classes(s: &SatInst, o: &mut Obs) {
    if s.cons < 2 {
        o.class("at most one constraint");
    }
    if s.vars.is_empty() {
        o.class("no variable");
    }
    if s.inputs.is_empty() {
        o.class("no input");
    }
    if s.nnz() == 0 {
        o.class("empty matrices");
    }
    if s.inputs.len() + 1 > s.vars.len() {
        o.class("padded for the inputs");
    }
}
/// The parameters are sized from the caller's dimensions, or from the padded ones.
fn gens(s: &SatInst, i: &Instance, padded: bool) -> SNARKGens {
    if padded {
        SNARKGens::new(i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs(), s.nnz())
    } else {
        SNARKGens::new(s.cons, s.vars.len(), s.inputs.len(), s.nnz())
    }
}
fn complete(s: &SatInst, padded: bool, o: &mut Obs) -> R {
    classes(s, o);
    let (i, v, x) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?);
    let g = no_panic(|| gens(s, &i, padded)).map_err(|e| format!("parameters: {}", e))?;
    let (c, d) = no_panic(|| SNARK::encode(&i, &g)).map_err(|e| format!("encode: {}", e))?;
    let p = no_panic(|| SNARK::prove(&i, &c, &d, v, &x, &g, &mut Transcript::new(b"snark"))).map_err(|e| format!("prove: {}", e))?;
    // the verifier makes its own parameters and gets the commitment from its own copy of the instance
    let g2 = no_panic(|| gens(s, &i, !padded)).map_err(|e| format!("verifier's parameters: {}", e))?;
    // (a commitment that differed would be absorbed into the transcript and make the proof fail)
    let (c2, _) = no_panic(|| SNARK::encode(&s.inst().unwrap(), &g2)).map_err(|e| format!("second encode: {}", e))?;
    no_panic(|| p.verify(&c2, &x, &mut Transcript::new(b"snark"), &g2).map_err(|e| format!("verifier refused: {:?}", e)))?
}
/// The same instance with entries of one matrix repeated at the same place, each a part of the value.
fn split(s: &SatInst, k: usize, times: usize, by: u32) -> SatInst {
    let mut t = s.clone();
    let f = &refm::FP;
    let n = s.m[k].len();
    for j in 0..times.min(40) {
        if n == 0 {
            break;
        }
        let at = (by as usize + j * 7) % n;
        let part = refm::u(by as u64 + j as u64);
        let (r, c, v) = t.m[k][at];
        t.m[k][at] = (r, c, B32(refm::to_le(&f.sub(&refm::le(&v.0), &part))));
        t.m[k].push((r, c, B32(refm::to_le(&part))));
    }
    t
}
/// Several statements proved one after the other on one transcript, with one set of parameters each.
fn sequence(v: &(Vec<SatInst>, bool), o: &mut Obs) -> R {
    let (mut tp, mut tv) = (Transcript::new(b"sequence"), Transcript::new(b"sequence"));
    for s in &v.0 {
        classes(s, o);
        let (i, w, x) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?);
        let g = gens(s, &i, v.1);
        let (c, d) = SNARK::encode(&i, &g);
        for _ in 0..2 {
            let p = no_panic(|| SNARK::prove(&i, &c, &d, w.clone(), &x, &g, &mut tp)).map_err(|e| format!("prove: {}", e))?;
            no_panic(|| p.verify(&c, &x, &mut tv, &g).map_err(|e| format!("verifier refused: {:?}", e)))??;
        }
    }
    Ok(())
}
fn main() {
    let mut c = Check::new("C14", "a case is a distinct (instance, satisfying assignment, parameter sizing); instances are satisfied by construction");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.sub("small", 80, 2000, 8, || (sat_inst(9, 9, 9), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    c.sub("tiny", 80, 2000, 8, || (sat_inst(3, 3, 3), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    c.sub("medium", 12, 200, 8, || (sat_inst_from(20, 70, 70, 20), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    c.sub("tall", 6, 100, 8, || (sat_inst_from(33, 140, 3, 3), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    // thousands of matrix entries
    c.sub("full_size", 1, 12, 1, || (any::<u64>(), 513usize..1100, 500usize..1100, 33usize..160), |&(seed, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| complete(&big(seed, nc, nv, ni), false, o));
    c.sub("wide", 8, 100, 8, || (sat_inst(3, 140, 3), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    c.sub("many_inputs", 8, 100, 8, || (sat_inst(9, 3, 70), any::<bool>()), |(s, l): &(SatInst, bool), o: &mut Obs| complete(s, *l, o));
    c.sub(
        "lopsided",
        24,
        400,
        8,
        || (sat_inst(9, 9, 5), 0usize..3, 1usize..40, any::<u32>(), any::<bool>()),
        |(s, k, t, by, l): &(SatInst, usize, usize, u32, bool), o: &mut Obs| complete(&split(s, *k, *t, *by), *l, o),
    );
    c.sub("sequence", 8, 100, 8, || (proptest::collection::vec(sat_inst(4, 4, 4), 1..3), any::<bool>()), sequence);
    c.finish()
}
