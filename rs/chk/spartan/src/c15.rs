//! C15: SNARK soundness.
use chk_spartan::{attack::*, tree, *};
use libspartan::*;
use merlin::Transcript;
use proptest::collection::vec;
use proptest::prelude::*;
use refv::prove::Stop;
use refm::*;
use tree::{edit, Edit, Kind};
use vk::serde_json::Value;
use vk::*;

const L: &[u8] = b"snark_example";
struct Run {
    i: Instance,
    v: Assignment,
    x: Assignment,
    g: SNARKGens,
    c: ComputationCommitment,
    d: ComputationDecommitment,
}
fn run(s: &SatInst) -> Result<Run, String> {
    let (i, g) = (s.inst()?, snark_gens(s));
    let (c, d) = no_panic(|| SNARK::encode(&i, &g)).map_err(|e| format!("encode: {}", e))?;
    Ok(Run { i, v: asg(&s.vars)?, x: asg(&s.inputs)?, g, c, d })
}
fn ok(p: &SNARK, c: &ComputationCommitment, x: &Assignment, g: &SNARKGens, l: &'static [u8]) -> bool {
    matches!(no_panic(|| p.verify(c, x, &mut Transcript::new(l), g).is_ok()), Ok(true))
}
impl Run {
    fn prove(&self) -> Result<SNARK, String> {
        no_panic(|| SNARK::prove(&self.i, &self.c, &self.d, self.v.clone(), &self.x, &self.g, &mut Transcript::new(L)))
    }
    fn ok(&self, p: &SNARK) -> bool {
        ok(p, &self.c, &self.x, &self.g, L)
    }
    fn json_ok(&self, j: &Value) -> bool {
        from_json::<SNARK>(j).map(|p| self.ok(&p)).unwrap_or(false)
    }
}
fn honest(r: &Run) -> Result<Value, String> {
    let j = to_json(&r.prove()?);
    ensure!(r.json_ok(&j), "the honest proof is refused");
    Ok(j)
}
/// The node's place without list positions.
fn family(p: &tree::Path) -> String {
    p.iter()
        .map(|s| match s {
            tree::Step::Key(k) => format!(".{}", k),
            tree::Step::At(_) => "[]".to_string(),
        })
        .collect()
}
/// As many steps between two list positions of one parent list as there are lists in it: which list of
/// a tuple a node is in must not be lost, so tuples (short, unequal lists) keep their positions.
fn stratified(j: &Value, pick: u32) -> Vec<(tree::Path, Kind)> {
    let mut by: std::collections::BTreeMap<String, Vec<(tree::Path, Kind)>> = Default::default();
    for (p, k) in tree::nodes(j) {
        // positions above the last one are kept when they are small
        let mut f = format!("{:?}{}", k, family(&p));
        for s in p.iter().take(p.len().saturating_sub(1)) {
            if let tree::Step::At(i) = s {
                if *i < 3 {
                    f += &format!("/{}", i);
                }
            }
        }
        by.entry(f).or_default().push((p, k));
    }
    by.into_values()
        .enumerate()
        .map(|(n, v)| {
            let at = (pick as usize).wrapping_mul(31).wrapping_add(n * 7) % v.len();
            v[at].clone()
        })
        .collect()
}

fn reference(s: &SatInst, o: &mut Obs) -> Result<(Run, SNARK), String> {
    let r = run(s)?;
    let p = r.prove()?;
    ensure!(r.ok(&p), "the honest proof is refused");
    if let Err(w) = ref_snark(s, &r.i, &p, L) {
        return Err(format!("accepted, but the reference verifier refuses it: {}", w));
    }
    o.class("accepted by both");
    Ok((r, p))
}
fn main() {
    let mut c = Check::new("C15", "a case is a distinct (instance, assignment, attack); attacks that leave statement and proof as they were are trivial");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.assume("an attack on a true statement that would be accepted for another, also true, statement counts as accepted: proofs are bound to one statement");
    c.sub("every_element", 8, 300, 8, || (sat_inst_from(1, 6, 6, 4), any::<u32>(), edit()), |(s, k0, e): &(SatInst, u32, Edit), o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        for (k, (p, kind)) in stratified(&j, *k0).into_iter().enumerate() {
            let mut e = e.clone();
            e.kind = ((*k0 as usize + k) % tree::kinds(kind) as usize) as u8;
            e.other = e.other.wrapping_add(k as u32);
            let mut m = j.clone();
            let what = tree::change(&mut m, &p, kind, &e, &pool);
            if m == j {
                continue;
            }
            o.class(match kind {
                Kind::Scalar => "scalars changed",
                Kind::Point => "points changed",
                Kind::List => "lists changed",
            });
            ensure!(!r.json_ok(&m), "accepted with {}", what);
        }
        Ok(())
    });
    // what this verifier accepts, the protocol's verifier accepts with its own commitment to the instance
    c.sub("reference", 16, 400, 8, || (sat_inst_from(0, 7, 7, 5), edit()), |(s, e): &(SatInst, Edit), o: &mut Obs| {
        let (r, p) = reference(s, o)?;
        let j = to_json(&p);
        let (m, what) = tree::apply(&j, &[e.clone()], &j, true);
        if let (true, Some(q)) = (m != j, from_json::<SNARK>(&m)) {
            ensure!(ref_snark(s, &r.i, &q, L).is_err() && !r.ok(&q), "accepted with {}", what);
            o.class("refused by both");
        }
        Ok(())
    });
    c.sub("reference_larger", 4, 80, 8, || sat_inst_from(0, 30, 150, 20), |s: &SatInst, o: &mut Obs| reference(s, o).map(|_| ()));
    // every list, every kind of change to it
    c.sub("reference_full_size", 4, 40, 4, || (any::<u64>(), 130usize..300, 300usize..1100, 33usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| reference(&big(g, nc, nv, ni), o).map(|_| ()));
    c.sub("every_list", 8, 200, 8, || (sat_inst_from(1, 6, 6, 4), any::<u32>(), edit()), |(s, k0, e): &(SatInst, u32, Edit), o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        for (k, (p, _)) in stratified(&j, *k0).into_iter().filter(|n| n.1 == Kind::List).enumerate() {
            for kind in [[0u8, 2], [7, 3], [6, 7]][(*k0 as usize / 7 + k) % 3] {
                let mut e = e.clone();
                e.kind = kind;
                e.other = e.other.wrapping_add(k as u32);
                let mut m = j.clone();
                let what = tree::change(&mut m, &p, Kind::List, &e, &pool);
                if m == j {
                    // an empty list: something is put into it
                    let l = tree::get_mut(&mut m, &p).as_array_mut().unwrap();
                    if !l.is_empty() {
                        continue;
                    }
                    l.push(tree::of_scalar(&u(kind as u64)));
                    if from_json::<SNARK>(&m).is_none() {
                        continue;
                    }
                    o.class("empty list filled");
                    ensure!(!r.json_ok(&m), "accepted with an element in the empty list {}", tree::show(&p));
                    continue;
                }
                o.class("lists changed");
                ensure!(!r.json_ok(&m), "accepted with {}", what);
            }
        }
        Ok(())
    });
    c.sub("several_elements", 32, 800, 8, || (sat_inst(5, 6, 4), vec((vec(edit(), 1..4), any::<bool>()), 24)), |(s, es): &(SatInst, Vec<(Vec<Edit>, bool)>), _o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        for (e, together) in es {
            let (m, what) = tree::apply(&j, e, &pool, *together);
            if m == j {
                continue;
            }
            ensure!(!r.json_ok(&m), "accepted with {}", what);
        }
        Ok(())
    });
    // two scalars changed so that their sum, product or exchange stays the same
    c.sub("compensated", 32, 800, 8, || (sat_inst_from(1, 5, 6, 4), vec((any::<u32>(), 1u32..9, 0u8..3, val()), 24)), |(s, es): &(SatInst, Vec<(u32, u32, u8, B32)>), o: &mut Obs| {
        let r = run(s)?;
        let j = honest(&r)?;
        let sc: Vec<tree::Path> = tree::nodes(&j).into_iter().filter(|n| n.1 == Kind::Scalar).map(|n| n.0).collect();
        for (at, d, how, v) in es {
            let (a, b) = (&sc[*at as usize % sc.len()], &sc[(*at as usize + *d as usize) % sc.len()]);
            let (x, y) = (tree::scalar(tree::get(&j, a)), tree::scalar(tree::get(&j, b)));
            let k = le(&v.0);
            let (x2, y2) = match how {
                0 => (FP.add(&x, &k), FP.sub(&y, &k)),
                1 if !is_zero(&k) => (FP.mul(&x, &k), FP.mul(&y, &if d % 2 == 0 { k } else { FP.inv(&k) })),
                _ => (y, x),
            };
            let mut m = j.clone();
            *tree::get_mut(&mut m, a) = tree::of_scalar(&x2);
            *tree::get_mut(&mut m, b) = tree::of_scalar(&y2);
            if m == j {
                continue;
            }
            o.class("pairs changed");
            ensure!(!r.json_ok(&m), "accepted with {} and {} changed together", tree::show(a), tree::show(b));
        }
        Ok(())
    });
    c.sub("transplant", 16, 400, 8, || (sat_inst_from(1, 5, 6, 4), vec((any::<u32>(), any::<u32>()), 24)), |(s, at): &(SatInst, Vec<(u32, u32)>), _o: &mut Obs| {
        let r = run(s)?;
        let (j, pool) = (honest(&r)?, to_json(&r.prove()?));
        let deep = tree::nodes(&j);
        for (a, b) in at {
            let mut m = j.clone();
            let p = &deep[*b as usize % deep.len()].0;
            let p = p[..(1 + *a as usize % p.len().max(1)).min(p.len())].to_vec();
            *tree::get_mut(&mut m, &p) = tree::get(&pool, &p).clone();
            if m == j || m == pool {
                continue;
            }
            ensure!(!r.json_ok(&m), "accepted with the part {} of another proof", tree::show(&p));
        }
        Ok(())
    });
    c.sub("unsatisfying", 60, 2000, 8, || (sat_inst_from(1, 6, 6, 4), wit_ch()), |(s, ch): &(SatInst, Ch), o: &mut Obs| {
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let r = run(&t)?;
        match r.prove() {
            Err(_) => o.class("prover refuses"),
            Ok(p) => ensure!(!r.ok(&p), "a proof of a false statement was accepted ({:?})", ch),
        }
        Ok(())
    });
    c.sub("other_inputs", 24, 600, 8, || (sat_inst(5, 6, 6), vec(inp_ch(), 8)), |(s, chs): &(SatInst, Vec<Ch>), o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for ch in chs {
            let t = apply(s, ch);
            if t.inputs == s.inputs {
                o.class("inputs unchanged");
                continue;
            }
            ensure!(!ok(&p, &r.c, &asg(&t.inputs)?, &r.g, L), "accepted for other inputs ({:?})", ch);
        }
        let mut longer = s.inputs.clone();
        longer.push(B32([0; 32]));
        ensure!(!ok(&p, &r.c, &asg(&longer)?, &r.g, L), "accepted with one input more");
        if !s.inputs.is_empty() {
            ensure!(!ok(&p, &r.c, &asg(&s.inputs[..s.inputs.len() - 1])?, &r.g, L), "accepted with one input less");
        }
        Ok(())
    });
    c.sub("other_commitment", 24, 600, 8, || (sat_inst_from(1, 6, 6, 4), vec(inst_ch(), 4)), |(s, chs): &(SatInst, Vec<Ch>), _o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for ch in chs {
            let t = apply(s, ch);
            if meaning(&t) == meaning(s) {
                continue;
            }
            let q = run(&t)?;
            ensure!(!ok(&p, &q.c, &r.x, &r.g, L), "accepted for another commitment ({:?})", ch);
            ensure!(!ok(&p, &q.c, &r.x, &q.g, L), "accepted for another commitment and its parameters ({:?})", ch);
        }
        Ok(())
    });
    c.sub("other_setting", 16, 400, 8, || sat_inst(5, 6, 4), |s: &SatInst, _o: &mut Obs| {
        let r = run(s)?;
        let p = r.prove()?;
        for l in [&b"snark_exampl"[..], b"snark_example2", b""] {
            ensure!(!ok(&p, &r.c, &r.x, &r.g, l), "accepted under another transcript label");
        }
        let mut t = merlin::Transcript::new(L);
        t.append_message(b"earlier", b"");
        ensure!(!matches!(no_panic(|| p.verify(&r.c, &r.x, &mut t, &r.g).is_ok()), Ok(true)), "accepted on a transcript that already carried a message");
        Ok(())
    });
    // The prover holds a satisfiable instance `s` and proves it under the commitment to `t`, for which the statement is false.
    c.sub("lie_about_instance", 60, 2000, 8, || (sat_inst_from(1, 6, 6, 4), inst_ch(), 0u8..3), |(s, ch, how): &(SatInst, Ch, u8), o: &mut Obs| {
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) || s.nnz().max(2).next_power_of_two() != t.nnz().max(2).next_power_of_two() {
            o.trivial();
            return Ok(());
        }
        let (r, q) = (run(s)?, run(&t)?);
        let p = match how {
            // matrix evaluations of `s`, evaluation argument for `t`
            0 => no_panic(|| SNARK::prove(&r.i, &q.c, &q.d, r.v.clone(), &r.x, &r.g, &mut Transcript::new(L))),
            // everything about `s`, only the commitment is that to `t`
            1 => no_panic(|| SNARK::prove(&r.i, &q.c, &r.d, r.v.clone(), &r.x, &r.g, &mut Transcript::new(L))),
            // the evaluations of `s` put into a proof for `t` made with an unsatisfying assignment
            _ => no_panic(|| SNARK::prove(&q.i, &q.c, &q.d, r.v.clone(), &r.x, &r.g, &mut Transcript::new(L))),
        };
        match p {
            Err(_) => o.class("prover refuses"),
            Ok(p) => {
                o.class("proof made");
                ensure!(!ok(&p, &q.c, &r.x, &q.g, L), "a proof for another instance was accepted ({:?}, {})", ch, how)
            }
        }
        Ok(())
    });
    let lie_about_inputs_case = |(s, ch): &(SatInst, Ch), o: &mut Obs| -> R {
        let t = apply(s, ch);
        if t.inputs == s.inputs || t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let (r, x2) = (run(s)?, asg(&t.inputs)?);
        lie_about_inputs(L, &s.inputs, &t.inputs);
        let p = r.prove();
        merlin::hook_append(None);
        ensure!(!ok(&p?, &r.c, &x2, &r.g, L), "a proof for other inputs, with these inputs in its transcript, was accepted");
        Ok(())
    };
    c.sub("lie_about_inputs", 40, 1200, 8, || (sat_inst_from(1, 5, 6, 6), inp_ch()), lie_about_inputs_case);
    c.sub("lie_about_many_inputs", 8, 120, 8, || (any::<u64>(), 60usize..130, 33usize..180, inp_ch()), move |&(g, nc, ni, ref ch): &(u64, usize, usize, Ch), o: &mut Obs| lie_about_inputs_case(&(big(g, nc, 5, ni), ch.clone()), o));
    // only the last inputs differ, and they are zero in the statement that holds
    c.sub("lie_about_late_inputs", 16, 200, 8, || (any::<u64>(), 60usize..130, 33usize..180, 1usize..4, vec(val(), 3), any::<bool>()), move |&(g, nc, ni, late, ref v, used): &(u64, usize, usize, usize, Vec<B32>, bool), o: &mut Obs| {
        let mut s = big_with(g, nc, 5, ni, ni - late);
        if used {
            // a row that needs each of them to be zero
            for k in 0..late {
                s.m[0].push((s.cons, 5 + 1 + ni - 1 - k, v[k].clone()));
            }
            s.m[1].push((s.cons, 5, B32(refm::to_le(&[1, 0, 0, 0]))));
            s.cons += 1;
        }
        lie_about_inputs_case(&(s, Ch::Inp(ni as u32 - 1 - (g % late as u64) as u32, v[0].clone())), o)
    });
    // a prover that keeps every message consistent with the false claim, up to one equation
    let carried_lies_case = |(s, ch, k, seed): &(SatInst, Ch, (u8, u8), u64), o: &mut Obs| -> R {
        let t = apply(s, ch);
        if t.holds(&t.vars, &t.inputs) {
            o.trivial();
            return Ok(());
        }
        let (r, stop) = (run(&t)?, other::snark_stop(&t, *k));
        match other::snark(&t, &r.i, stop, *seed, L)? {
            other::Made::Nothing => o.trivial(),
            other::Made::Bytes(b) => {
                o.class(match stop {
                    Stop::Halves => "the matrices' values",
                    Stop::DotLayer => "the inner products",
                    Stop::DotFinal => "the factors of the inner products",
                    Stop::Val => "the opening of the entries",
                    Stop::Sets => "the memory's sets",
                    Stop::Set(_, Some(_)) => "a layer of a set's product",
                    Stop::Set(_, None) => "the elements of a set",
                    Stop::Audit | Stop::Addr(true) => "the opening of the timestamps",
                    Stop::Addr(false) => "the opening of the addresses",
                    Stop::Deref => "the opening of the values read",
                    _ => "the satisfiability proof",
                });
                let p = other::decode::<SNARK>(&b).ok_or("the dishonest proof does not decode")?;
                ensure!(!r.ok(&p), "a proof of a false statement was accepted, in which only this fails: {} ({:?})", stop.equation(), stop);
            }
        }
        Ok(())
    };
    c.sub("carried_lies", 240, 5000, 8, || (sat_inst_from(1, 7, 7, 5), wit_ch(), other::stop(), any::<u64>()), carried_lies_case);
    c.sub("carried_lies_larger", 56, 800, 8, || (sat_inst_from(17, 40, 140, 12), wit_ch(), other::stop(), any::<u64>()), carried_lies_case);
    // each layer of each memory set's product
    c.sub("carried_lies_layers", 56, 800, 8, || (sat_inst_from(17, 40, 140, 12), wit_ch(), (6u8..10, any::<u8>()), any::<u64>()), carried_lies_case);
    // towards the size of the deployed circuits
    c.sub("carried_lies_full_size", 8, 120, 8, || ((any::<u64>(), 130usize..300, 300usize..1100, 33usize..160), wit_ch(), other::stop(), any::<u64>()), move |&((g, nc, nv, ni), ref ch, k, seed): &((u64, usize, usize, usize), Ch, (u8, u8), u64), o: &mut Obs| carried_lies_case(&(big(g, nc, nv, ni), ch.clone(), k, seed), o));
    c.sub("carried_lies_layers_full_size", 32, 400, 8, || ((any::<u64>(), 130usize..300, 300usize..1100, 0usize..60), wit_ch(), (6u8..10, 6u8..13), any::<u64>()), move |&((g, nc, nv, ni), ref ch, k, seed): &((u64, usize, usize, usize), Ch, (u8, u8), u64), o: &mut Obs| carried_lies_case(&(big(g, nc, nv, ni), ch.clone(), k, seed), o));
    // everything but the number of inputs is right
    c.sub("input_count", 24, 500, 8, || (sat_inst_from(1, 6, 6, 4), 1usize..4, any::<bool>(), vec(val(), 4), any::<u64>()), |(s, e, more, v, seed): &(SatInst, usize, bool, Vec<B32>, u64), o: &mut Obs| {
        // the instance declares more inputs than the proof has, or fewer
        let t = if *more { s.clone() } else { other::declare(s, *e) };
        let mut x = s.inputs.clone();
        if *more {
            x.extend(&v[..*e]);
        }
        let pad = t.vars.len().max(t.inputs.len() + 1).next_power_of_two();
        if x.len() >= pad {
            o.trivial();
            return Ok(());
        }
        let r = run(&t)?;
        match other::count_snark(&t, &r.i, &x, *seed, L)? {
            None => o.trivial(),
            Some(b) => {
                o.class(if *more { "more inputs than declared" } else { "fewer inputs than declared" });
                let p = other::decode::<SNARK>(&b).ok_or("the proof does not decode")?;
                let x = asg(&x)?;
                ensure!(!ok(&p, &r.c, &x, &r.g, L), "accepted with {} inputs where the instance has {}", s.inputs.len() + if *more { *e } else { 0 }, t.inputs.len());
            }
        }
        Ok(())
    });
    c.finish()
}
