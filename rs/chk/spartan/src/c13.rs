//! C13: NIZK soundness.
use chk_spartan::{attack::*, tree, *};
use libspartan::*;
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use refv::prove::Stop;
use tree::{edit, Edit, Kind};
use vk::serde_json::Value;
use vk::*;

const L: &[u8] = b"nizk_example";
struct Run {
    i: Instance,
    v: Assignment,
    x: Assignment,
    g: NIZKGens,
}
fn run(s: &SatInst) -> Result<Run, String> {
    Ok(Run { i: s.inst()?, v: asg(&s.vars)?, x: asg(&s.inputs)?, g: nizk_gens(s) })
}
impl Run {
    fn prove(&self) -> Result<NIZK, String> {
        nizk_prove(&self.i, &self.v, &self.x, &self.g, L)
    }
    fn ok(&self, p: &NIZK) -> bool {
        nizk_verify(p, &self.i, &self.x, &self.g, L)
    }
    fn json_ok(&self, j: &Value) -> bool {
        from_json::<NIZK>(j).map(|p| self.ok(&p)).unwrap_or(false)
    }
}
fn honest(r: &Run) -> Result<Value, String> {
    let j = to_json(&r.prove()?);
    ensure!(r.json_ok(&j), "the honest proof is refused");
    Ok(j)
}

fn main() {
    let mut c = Check::new("C13", "a case is a distinct (instance, assignment, attack); attacks that leave statement and proof as they were are trivial");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.assume("an attack on a true statement that would be accepted for another, also true, statement counts as accepted: proofs are bound to one statement");
    // every element of the proof, every kind of change to it
    let every_element_case = |(s, k0, e): &(SatInst, u32, Edit), o: &mut Obs| -> R {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        let nodes = tree::nodes(&j);
        let large = s.vars.len() > 16;
        for (k, (p, kind)) in nodes.into_iter().enumerate() {
            // of the larger proofs' elements a half
            if large && (k ^ *k0 as usize) & 1 == 0 {
                continue;
            }
            let mut e = e.clone();
            e.kind = ((*k0 as usize / 2 + k) % tree::kinds(kind) as usize) as u8;
            e.other = e.other.wrapping_add(k as u32);
            let mut m = j.clone();
            let what = tree::change(&mut m, &p, kind, &e, &pool);
            if m == j {
                continue;
            }
            o.class(match kind {
                Kind::Scalar => "scalars changed",
                Kind::Point => "points changed",
                Kind::List => "lists changed",
            });
            ensure!(!r.json_ok(&m), "accepted with {}", what);
        }
        Ok(())
    };
    c.sub("every_element", 24, 400, 8, || (sat_inst_from(1, 9, 9, 5), any::<u32>(), edit()), every_element_case);
    c.sub("every_element_larger", 8, 120, 8, || (sat_inst_from(17, 130, 140, 20), any::<u32>(), edit()), every_element_case);
    // what this verifier accepts, the protocol's verifier accepts
    c.sub("reference", 40, 800, 8, || (sat_inst_from(0, 9, 9, 5), edit()), |(s, e): &(SatInst, Edit), o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        ensure!(r.ok(&p), "the honest proof is refused");
        if let Err(w) = ref_nizk(s, &r.i, &p, L) {
            return Err(format!("accepted, but the reference verifier refuses it: {}", w));
        }
        o.class("accepted by both");
        // and a changed proof is refused by both
        let j = to_json(&p);
        let (m, what) = tree::apply(&j, &[e.clone()], &j, true);
        if let (true, Some(q)) = (m != j, from_json::<NIZK>(&m)) {
            ensure!(ref_nizk(s, &r.i, &q, L).is_err() && !r.ok(&q), "accepted with {}", what);
            o.class("refused by both");
        }
        Ok(())
    });
    c.sub("reference_larger", 12, 160, 8, || sat_inst_from(0, 40, 520, 60), |s: &SatInst, o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        ensure!(r.ok(&p), "the honest proof is refused");
        o.class("accepted by both");
        ref_nizk(s, &r.i, &p, L).map_err(|w| format!("accepted, but the reference verifier refuses it: {}", w))
    });
    c.sub("reference_full_size", 16, 200, 8, || (any::<u64>(), 40usize..600, 513usize..4200, 33usize..300), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| {
        let s = big(g, nc, nv, ni);
        let r = run(&s)?;
        let p = r.prove()?;
        ensure!(r.ok(&p), "the honest proof is refused");
        o.class("accepted by both");
        ref_nizk(&s, &r.i, &p, L).map_err(|w| format!("accepted, but the reference verifier refuses it: {}", w))
    });
    c.sub("several_elements", 60, 1500, 8, || (sat_inst(7, 9, 5), vec((vec(edit(), 1..4), any::<bool>()), 16)), |(s, es): &(SatInst, Vec<(Vec<Edit>, bool)>), _o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        for (e, together) in es {
            let (m, what) = tree::apply(&j, e, &pool, *together);
            if m == j {
                continue;
            }
            ensure!(!r.json_ok(&m), "accepted with {}", what);
        }
        Ok(())
    });
    // whole parts of another proof of the same statement
    c.sub("transplant", 30, 600, 8, || (sat_inst_from(1, 7, 9, 5), vec((any::<u32>(), any::<u32>()), 12)), |(s, at): &(SatInst, Vec<(u32, u32)>), _o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        let top: Vec<String> = j.as_object().unwrap().keys().cloned().collect();
        let deep = tree::nodes(&j);
        for (a, b) in at {
            let mut m = j.clone();
            let what;
            if a % 3 == 0 {
                let k = &top[*b as usize % top.len()];
                m[k.as_str()] = pool[k.as_str()].clone();
                what = k.clone();
            } else {
                // an inner object: cut a node's path at a random depth
                let p = &deep[*b as usize % deep.len()].0;
                let cut = 1 + *a as usize % p.len().max(1);
                let p = p[..cut.min(p.len())].to_vec();
                *tree::get_mut(&mut m, &p) = tree::get(&pool, &p).clone();
                what = tree::show(&p);
            }
            if m == j || m == pool {
                continue;
            }
            ensure!(!r.json_ok(&m), "accepted with the part {} of another proof", what);
        }
        Ok(())
    });
    c.sub("unsatisfying", 200, 5000, 8, || (sat_inst_from(1, 7, 9, 5), wit_ch()), |(s, ch): &(SatInst, Ch), o: &mut Obs| {
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let r = run(&t)?;
        match r.prove() {
            Err(_) => o.class("prover refuses"),
            Ok(p) => ensure!(!r.ok(&p), "a proof of a false statement was accepted ({:?})", ch),
        }
        Ok(())
    });
    c.sub("unsatisfiable_row", 100, 2500, 8, || (sat_inst_from(1, 7, 9, 5), any::<u32>(), val(), any::<bool>()), |(s, row, v, extra): &(SatInst, u32, B32, bool), o: &mut Obs| {
        // one row is made to say 1 * 1 = v + 1, or a new last row is
        let mut t = s.clone();
        if le(&v.0) == [0; 4] {
            o.trivial();
            return Ok(());
        }
        let r = if *extra { t.cons += 1; t.cons - 1 } else { *row as usize % t.cons };
        for m in t.m.iter_mut() {
            m.retain(|e| e.0 != r);
        }
        let n = t.vars.len();
        let one = B32(to_le(&u(1)));
        t.m[0].push((r, n, one));
        t.m[1].push((r, n, one));
        t.m[2].push((r, n, B32(to_le(&FP.add(&le(&v.0), &u(1))))));
        if t.cons.is_power_of_two() {
            o.class("no padding rows");
        }
        if r == t.cons - 1 {
            o.class("last row");
        }
        let run = run(&t)?;
        if let Ok(p) = run.prove() {
            ensure!(!run.ok(&p), "an unsatisfiable instance was proved");
        }
        Ok(())
    });
    c.sub("other_inputs", 60, 1500, 8, || (sat_inst(7, 9, 6), vec(inp_ch(), 8)), |(s, chs): &(SatInst, Vec<Ch>), o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for ch in chs {
            let t = apply(s, ch);
            if t.inputs == s.inputs {
                o.class("inputs unchanged");
                continue;
            }
            ensure!(!nizk_verify(&p, &r.i, &asg(&t.inputs)?, &r.g, L), "accepted for other inputs ({:?})", ch);
        }
        // lists of another length, also when only zeros are added or dropped
        let mut longer = s.inputs.clone();
        longer.push(B32([0; 32]));
        ensure!(!nizk_verify(&p, &r.i, &asg(&longer)?, &r.g, L), "accepted with one input more");
        if !s.inputs.is_empty() {
            ensure!(!nizk_verify(&p, &r.i, &asg(&s.inputs[..s.inputs.len() - 1])?, &r.g, L), "accepted with one input less");
        }
        Ok(())
    });
    c.sub("other_instance", 60, 1500, 8, || (sat_inst_from(1, 7, 9, 5), vec(inst_ch(), 8)), |(s, chs): &(SatInst, Vec<Ch>), _o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for ch in chs {
            let t = apply(s, ch);
            if meaning(&t) == meaning(s) {
                continue;
            }
            ensure!(!nizk_verify(&p, &t.inst()?, &r.x, &r.g, L), "accepted for another instance ({:?})", ch);
        }
        Ok(())
    });
    c.sub("other_setting", 40, 1000, 8, || (sat_inst(7, 9, 5), 0usize..40), |(s, nv): &(SatInst, usize), o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for l in [&b"nizk_exampl"[..], b"nizk_example2", b"", b"nizk_examplf"] {
            ensure!(!nizk_verify(&p, &r.i, &r.x, &r.g, l), "accepted under another transcript label");
        }
        {
            let mut t = merlin::Transcript::new(L);
            t.append_message(b"earlier", b"");
            ensure!(!matches!(no_panic(|| p.verify(&r.i, &r.x, &mut t, &r.g).is_ok()), Ok(true)), "accepted on a transcript that already carried a message");
        }
        // the vector generators are determined by half of the number of variables' logarithm
        let half = |n: usize| (n.next_power_of_two().trailing_zeros() as usize + 1) / 2;
        let here = r.i.inst.get_num_vars();
        let there = (*nv).max(1);
        if half(here) != half(there) {
            o.class("other parameters");
            let g = NIZKGens::new(r.i.inst.get_num_cons(), there, 0);
            ensure!(!nizk_verify(&p, &r.i, &r.x, &g, L), "accepted under other parameters");
        }
        Ok(())
    });
    // the prover runs the protocol for one statement and shows the transcript another
    let lie_about_inputs_case = |(s, ch): &(SatInst, Ch), o: &mut Obs| -> R {
        let t = apply(s, ch);
        if t.inputs == s.inputs || t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let (r, x2) = (run(s)?, asg(&t.inputs)?);
        lie_about_inputs(L, &s.inputs, &t.inputs);
        merlin::log_start();
        let p = r.prove();
        let ours = first_challenge(merlin::log_take());
        merlin::hook_append(None);
        merlin::log_start();
        if let Ok(p) = &p {
            nizk_verify(p, &r.i, &x2, &r.g, L);
        }
        if first_challenge(merlin::log_take()) == ours {
            o.class("the lie reaches the challenges");
        }
        ensure!(!nizk_verify(&p?, &r.i, &x2, &r.g, L), "a proof for other inputs, with these inputs in its transcript, was accepted");
        Ok(())
    };
    c.sub("lie_about_inputs", 120, 3000, 8, || (sat_inst_from(1, 7, 9, 6), inp_ch()), lie_about_inputs_case);
    c.sub("lie_about_many_inputs", 24, 400, 8, || (any::<u64>(), 100usize..200, 33usize..300, inp_ch()), move |&(g, nc, ni, ref ch): &(u64, usize, usize, Ch), o: &mut Obs| lie_about_inputs_case(&(big(g, nc, 5, ni), ch.clone()), o));
    // only the last inputs differ, and they are zero in the statement that holds
    c.sub("lie_about_late_inputs", 32, 400, 8, || (any::<u64>(), 100usize..200, 33usize..300, 1usize..4, vec(val(), 3), any::<bool>()), move |&(g, nc, ni, late, ref v, used): &(u64, usize, usize, usize, Vec<B32>, bool), o: &mut Obs| {
        let mut s = big_with(g, nc, 5, ni, ni - late);
        if used {
            // a row that needs each of them to be zero
            for k in 0..late {
                s.m[0].push((s.cons, 5 + 1 + ni - 1 - k, v[k].clone()));
            }
            s.m[1].push((s.cons, 5, B32(refm::to_le(&[1, 0, 0, 0]))));
            s.cons += 1;
        }
        lie_about_inputs_case(&(s, Ch::Inp(ni as u32 - 1 - (g % late as u64) as u32, v[0].clone())), o)
    });
    c.sub("lie_about_instance", 120, 3000, 8, || (sat_inst_from(1, 7, 9, 5), inst_ch()), |(s, ch): &(SatInst, Ch), o: &mut Obs| {
        // `t` is what is claimed and does not hold; the prover uses the instance `s`, which does
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let (r, claimed) = (run(s)?, t.inst()?);
        let (mut j, k) = (to_json(&r.i), to_json(&claimed));
        if j.get("digest").is_none() {
            o.trivial();
            return Ok(());
        }
        j["digest"] = k["digest"].clone();
        let hybrid: Instance = match from_json(&j) {
            Some(i) => i,
            None => return Ok(()),
        };
        let p = nizk_prove(&hybrid, &r.v, &r.x, &r.g, L)?;
        ensure!(!nizk_verify(&p, &claimed, &r.x, &r.g, L), "a proof for another instance, with this instance's digest, was accepted ({:?})", ch);
        Ok(())
    });
    // a prover that keeps every message consistent with the false claim, up to one equation
    let carried_lies_case = |(s, ch, k, seed): &(SatInst, Ch, (u8, u8), u64), o: &mut Obs| -> R {
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let (r, stop) = (run(&t)?, other::nizk_stop(&t, *k));
        match other::nizk(&t, &r.i, stop, *seed, L)? {
            other::Made::Nothing => o.trivial(),
            other::Made::Bytes(b) => {
                o.class(match stop {
                    Stop::Phase1(_) => "a round of the first sum-check",
                    Stop::Eq1 => "the end of the first sum-check",
                    Stop::Product => "the product of the claims",
                    Stop::Phase2(_) => "a round of the second sum-check",
                    Stop::Eq2 => "the end of the second sum-check",
                    Stop::Point(..) => "the claimed point",
                    _ => "the opening of the witness",
                });
                let p = other::decode::<NIZK>(&b).ok_or("the dishonest proof does not decode")?;
                ensure!(!r.ok(&p), "a proof of a false statement was accepted, in which only this fails: {} ({:?})", stop.equation(), stop);
            }
        }
        Ok(())
    };
    c.sub("carried_lies", 300, 8000, 8, || (sat_inst_from(1, 9, 9, 5), wit_ch(), other::stop(), any::<u64>()), carried_lies_case);
    c.sub("carried_lies_larger", 120, 2000, 8, || (sat_inst_from(17, 260, 300, 40), wit_ch(), other::stop(), any::<u64>()), carried_lies_case);
    // towards the size of the deployed circuits
    c.sub("carried_lies_full_size", 16, 240, 8, || ((any::<u64>(), 40usize..1100, 1025usize..4200, 65usize..300), wit_ch(), other::stop(), any::<u64>()), move |&((g, nc, nv, ni), ref ch, k, seed): &((u64, usize, usize, usize), Ch, (u8, u8), u64), o: &mut Obs| carried_lies_case(&(big(g, nc, nv, ni), ch.clone(), k, seed), o));
    // each of its later rounds
    c.sub("carried_lies_rounds_full_size", 48, 600, 8, || ((any::<u64>(), 520usize..1100, 1025usize..8200, 0usize..60), wit_ch(), (prop_oneof![Just(0u8), Just(4u8)], 5u8..14), any::<u64>()), move |&((g, nc, nv, ni), ref ch, k, seed): &((u64, usize, usize, usize), Ch, (u8, u8), u64), o: &mut Obs| carried_lies_case(&(big(g, nc, nv, ni), ch.clone(), k, seed), o));
    // everything but the number of inputs is right
    c.sub("input_count", 40, 1000, 8, || (sat_inst_from(1, 9, 9, 5), 1usize..4, any::<bool>(), vec(val(), 4), any::<u64>()), |(s, e, more, v, seed): &(SatInst, usize, bool, Vec<B32>, u64), o: &mut Obs| {
        // the instance declares more inputs than the proof has, or fewer
        let t = if *more { s.clone() } else { other::declare(s, *e) };
        let mut x = s.inputs.clone();
        if *more {
            x.extend(&v[..*e]);
        }
        let pad = t.vars.len().max(t.inputs.len() + 1).next_power_of_two();
        if x.len() >= pad {
            o.trivial();
            return Ok(());
        }
        let r = run(&t)?;
        match other::count_nizk(&t, &r.i, &x, *seed, L)? {
            None => o.trivial(),
            Some(b) => {
                o.class(if *more { "more inputs than declared" } else { "fewer inputs than declared" });
                let p = other::decode::<NIZK>(&b).ok_or("the proof does not decode")?;
                let x = asg(&x)?;
                ensure!(!nizk_verify(&p, &r.i, &x, &r.g, L), "accepted with {} inputs where the instance has {}", s.inputs.len() + if *more { *e } else { 0 }, t.inputs.len());
            }
        }
        Ok(())
    });
    c.finish()
}
