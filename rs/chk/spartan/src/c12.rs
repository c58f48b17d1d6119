//! C12: NIZK completeness.
use chk_spartan::*;
use libspartan::*;
use merlin::Transcript;
use proptest::prelude::*;
use vk::*;

const LABELS: [&[u8]; 4] = [b"nizk_example", b"", b"a", b"a longer transcript label, longer than one Strobe block would be if it went on and on and on and on and on and on and on and on and on and on and on and on"];
fn label(k: u8) -> &'static [u8] {
    LABELS[k as usize % LABELS.len()]
}
fn classes(s: &SatInst, o: &mut Obs) {
    if s.cons == 0 {
        o.class("no constraint");
    }
    if s.vars.is_empty() {
        o.class("no variable");
    }
    if s.inputs.is_empty() {
        o.class("no input");
    }
    if s.nnz() == 0 {
        o.class("empty matrices");
    }
    if s.inputs.len() + 1 > s.vars.len() {
        o.class("padded for the inputs");
    }
    if s.inputs.len() + 1 == s.vars.len() {
        o.class("inputs fill the second half");
    }
}
fn complete(s: &SatInst, l: &'static [u8], o: &mut Obs) -> R {
    classes(s, o);
    let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
    let p = nizk_prove(&i, &v, &x, &g, l)?;
    nizk_why(&p, &i, &x, &g, l)
}
fn main() {
    let mut c = Check::new("C12", "a case is a distinct (instance, satisfying assignment, label) tuple; instances are satisfied by construction");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.sub("small", 500, 12000, 8, || (sat_inst(9, 9, 9), any::<u8>()), |(s, l): &(SatInst, u8), o: &mut Obs| complete(s, label(*l), o));
    c.sub("tiny", 200, 4000, 8, || (sat_inst(3, 3, 3), any::<u8>()), |(s, l): &(SatInst, u8), o: &mut Obs| complete(s, label(*l), o));
    c.sub("medium", 40, 800, 8, || (sat_inst_from(20, 70, 70, 20), any::<u8>()), |(s, l): &(SatInst, u8), o: &mut Obs| complete(s, label(*l), o));
    c.sub("large", 8, 80, 8, || (sat_inst_from(100, 600, 600, 100), any::<u8>()), |(s, l): &(SatInst, u8), o: &mut Obs| complete(s, label(*l), o));
    // about the size of the deployed circuits
    c.sub("full_size", 2, 24, 2, || (any::<u64>(), 1000usize..4100, 4097usize..8300, 33usize..160), |&(seed, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| complete(&big(seed, nc, nv, ni), b"full", o));
    c.sub("sequence", 60, 1500, 8, || proptest::collection::vec(sat_inst(5, 6, 4), 1..4), |ss: &Vec<SatInst>, o: &mut Obs| {
        // one transcript carries all the proofs; each statement is also proved twice
        let mut t = Transcript::new(b"sequence");
        let mut ps = vec![];
        for s in ss {
            let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
            for _ in 0..2 {
                ps.push(no_panic(|| NIZK::prove(&i, v.clone(), &x, &g, &mut t))?);
            }
        }
        if ss.len() > 1 {
            o.class("several statements");
        }
        let mut t = Transcript::new(b"sequence");
        for (k, p) in ps.iter().enumerate() {
            let s = &ss[k / 2];
            let (i, x, g) = (s.inst()?, asg(&s.inputs)?, nizk_gens(s));
            no_panic(|| p.verify(&i, &x, &mut t, &g).map_err(|e| format!("proof {} refused: {:?}", k, e)))??;
        }
        Ok(())
    });
    c.sub("partial_assignment", 60, 1500, 8, || sat_inst(6, 9, 6), |s: &SatInst, o: &mut Obs| {
        // trailing zero variables may be left out, and zeros up to the padded length may be given
        let mut s = s.clone();
        let n = s.vars.len();
        for v in s.vars.iter_mut().skip(n / 2) {
            *v = B32([0; 32]);
        }
        if !s.holds(&s.vars, &s.inputs) {
            // keep only the rows that still hold
            let keep: Vec<bool> = (0..s.cons)
                .map(|r| {
                    let mut t = s.clone();
                    for m in t.m.iter_mut() {
                        m.retain(|e| e.0 == r);
                    }
                    t.holds(&t.vars, &t.inputs)
                })
                .collect();
            for m in s.m.iter_mut() {
                m.retain(|e| keep[e.0]);
            }
        }
        classes(&s, o);
        let (i, x, g) = (s.inst()?, asg(&s.inputs)?, nizk_gens(&s));
        let mut long = s.vars.clone();
        long.resize(i.inst.get_num_vars(), B32([0; 32]));
        for v in [&s.vars[..n / 2], &s.vars[..], &long[..]] {
            let p = nizk_prove(&i, &asg(v)?, &x, &g, b"p")?;
            nizk_why(&p, &i, &x, &g, b"p")?;
        }
        Ok(())
    });
    c.sub("synthetic", 24, 300, 8, || (0u32..7, 0u32..7, any::<u32>()), |(c, v, i): &(u32, u32, u32), o: &mut Obs| {
        let (nc, nv) = (1usize << c, 1usize << v);
        if *c == 0 {
            // proving needs at least two constraints; Instance::new pads to that
            o.trivial();
            return Ok(());
        }
        let ni = *i as usize % nv;
        let (inst, vars, inputs) = Instance::produce_synthetic_r1cs(nc, nv, ni);
        let g = NIZKGens::new(nc, nv, ni);
        let p = nizk_prove(&inst, &vars, &inputs, &g, b"s")?;
        nizk_why(&p, &inst, &inputs, &g, b"s")
    });
    c.finish()
}
