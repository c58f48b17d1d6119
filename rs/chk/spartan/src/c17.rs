//! C17: blinding.
use chk_spartan::*;
use libspartan::*;
use merlin::Transcript;
use proptest::prelude::*;
use refm::ec::SECQ;
use refm::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use tree::{Kind, Path, Step};
use vk::serde_json::Value;
use vk::*;

const L: &[u8] = b"hiding";
enum Setup {
    Nizk(NIZKGens),
    Snark(SNARKGens, ComputationCommitment, ComputationDecommitment),
}
struct Run {
    i: Instance,
    v: Assignment,
    x: Assignment,
    u: Setup,
}
fn run(s: &SatInst, snark: bool) -> Result<Run, String> {
    let i = s.inst()?;
    let u = if snark {
        let g = snark_gens(s);
        let (c, d) = no_panic(|| SNARK::encode(&i, &g))?;
        Setup::Snark(g, c, d)
    } else {
        Setup::Nizk(nizk_gens(s))
    };
    Ok(Run { i, v: asg(&s.vars)?, x: asg(&s.inputs)?, u })
}
impl Run {
    /// The part of a proof that depends on the witness.
    fn prove(&self) -> Result<Value, String> {
        let mut t = Transcript::new(L);
        let j = no_panic(|| match &self.u {
            Setup::Nizk(g) => to_json(&NIZK::prove(&self.i, self.v.clone(), &self.x, g, &mut t)),
            Setup::Snark(g, c, d) => to_json(&SNARK::prove(&self.i, c, d, self.v.clone(), &self.x, g, &mut t)),
        })?;
        match j.get("r1cs_sat_proof") {
            Some(p) => Ok(p.clone()),
            None => Err("the proof has no part r1cs_sat_proof".into()),
        }
    }
}
fn wide(u: &U) -> Vec<u8> {
    let mut b = to_le(u).to_vec();
    b.resize(64, 0);
    b
}
fn mix(seed: u64, k: u64) -> U {
    let mut s = seed ^ k.wrapping_mul(0xD1342543DE82EF95);
    let mut n = || {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    FP.red(&[n(), n(), n(), n() >> 1])
}
/// Draws the verifier's challenges from `seed`; with a tape, also the prover's random values:
/// the k-th is tape(k).  Returns how many of the latter were drawn.
fn forced<T>(seed: u64, tape: Option<Box<dyn Fn(u64) -> U>>, f: impl FnOnce() -> T) -> (T, u64) {
    let (ours, theirs) = (Rc::new(Cell::new(0u64)), Cell::new(0u64));
    let o2 = ours.clone();
    merlin::hook_challenge(Some(Box::new(move |name, _, len| {
        if len != 64 {
            return None;
        }
        if name == L {
            theirs.set(theirs.get() + 1);
            Some(wide(&mix(seed, theirs.get())))
        } else {
            tape.as_ref().map(|t| {
                let k = o2.get();
                o2.set(k + 1);
                wide(&t(k))
            })
        }
    })));
    let r = f();
    merlin::hook_challenge(None);
    (r, ours.get())
}
/// All points and scalars with their places.
fn elements(j: &Value) -> Vec<(Path, Kind)> {
    tree::nodes(j).into_iter().filter(|n| n.1 != Kind::List).collect()
}
fn point_diff(a: &Value, b: &Value) -> refm::ec::Pt {
    match (tree::point(a), tree::point(b)) {
        (Some(x), Some(y)) => SECQ.add(&y, &SECQ.neg(&x)),
        _ => None,
    }
}
fn hex(p: &refm::ec::Pt) -> String {
    tree::of_point(p).as_str().unwrap().to_string()
}
/// How a point or scalar moved between two proofs, up to sign; None if it did not.
fn moved(a: &Value, b: &Value, k: Kind) -> Option<String> {
    if a == b {
        return None;
    }
    Some(match k {
        Kind::Scalar => {
            let d = FP.sub(&tree::scalar(b), &tree::scalar(a));
            let n = FP.neg(&d);
            format!("{:?}", if lt(&d, &n) { d } else { n })
        }
        _ => {
            let d = point_diff(a, b);
            // (the sign of y is left out)
            hex(&d)[2..].to_string()
        }
    })
}
fn keys(p: &Path) -> Vec<&str> {
    p.iter()
        .filter_map(|s| match s {
            Step::Key(k) => Some(k.as_str()),
            _ => None,
        })
        .collect()
}
/// Commitments that carry their own blinding value (the others are first messages of sub-proofs,
/// which the answers determine).
fn is_commitment(p: &Path) -> bool {
    let k = keys(p);
    let last = *k.last().unwrap_or(&"");
    k.first() == Some(&"comm_vars") || k.first() == Some(&"claims_phase2") || ["comm_polys", "comm_evals", "comm_vars_at_ry", "L_vec", "R_vec"].contains(&last)
}
/// Rank over the field, by elimination.
fn rank(mut m: Vec<Vec<U>>) -> (usize, Option<usize>) {
    let n = m.len();
    let mut at: Vec<usize> = vec![];
    for r in 0..n {
        // reduce row r by the earlier pivots
        for q in 0..r {
            if at[q] == usize::MAX {
                continue;
            }
            let f = m[r][at[q]];
            if is_zero(&f) {
                continue;
            }
            let (a, b) = m.split_at_mut(r);
            for (x, y) in b[0].iter_mut().zip(a[q].iter()) {
                *x = FP.sub(x, &FP.mul(&f, y));
            }
        }
        match m[r].iter().position(|x| !is_zero(x)) {
            None => return (r, Some(r)),
            Some(c) => {
                let inv = FP.inv(&m[r][c]);
                for x in m[r].iter_mut() {
                    if !is_zero(x) {
                        *x = FP.mul(x, &inv);
                    }
                }
                at.push(c);
            }
        }
    }
    (n, None)
}
fn main() {
    let mut c = Check::new("C17", "a case is a distinct (statement, witness, challenges); its proofs are compared element by element");
    c.assume("merlin and getrandom are replaced by stand-ins that can record and fix challenges, prover randomness and operating-system entropy (DESIGN.md)");
    c.assume("blinding is judged through how proof elements move when randomness moves; leaks that need more than linear relations are not looked for");
    // ordinary use: two proofs have nothing in common
    let fresh = |(s, snark): &(SatInst, bool), o: &mut Obs| -> R {
        o.class(if *snark { "SNARK" } else { "NIZK" });
        let r = run(s, *snark)?;
        let mut seen: HashMap<String, String> = HashMap::new();
        for n in 0..2 {
            let j = r.prove()?;
            for (p, _) in elements(&j) {
                let v = tree::get(&j, &p).to_string();
                if let Some(q) = seen.insert(v, format!("{} of proof {}", tree::show(&p), n)) {
                    return Err(format!("{} of proof {} equals {}", tree::show(&p), n, q));
                }
            }
        }
        Ok(())
    };
    c.sub("fresh", 200, 5000, 8, || (sat_inst(9, 12, 6), Just(false)), fresh);
    c.sub("fresh_snark", 24, 400, 8, || (sat_inst(6, 7, 5), Just(true)), fresh);
    c.sub("fresh_larger", 24, 400, 8, || (sat_inst_from(0, 40, 300, 20), Just(false)), fresh);
    c.sub("fresh_full_size", 2, 24, 2, || (any::<u64>(), 1usize..300, 4097usize..8300, 0usize..40), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| fresh(&(big(g, nc, nv, ni), false), o));
    // same challenges, other randomness: every element moves, no two by the same amount
    let moves = |(s, seed, snark): &(SatInst, u64, bool), o: &mut Obs| -> R {
        o.class(if *snark { "SNARK" } else { "NIZK" });
        if s.vars.iter().all(|v| v.0 == [0; 32]) {
            o.class("all variables zero");
        }
        let r = run(s, *snark)?;
        let (a, b) = (forced(*seed, None, || r.prove()).0?, forced(*seed, None, || r.prove()).0?);
        let mut by: HashMap<String, Path> = HashMap::new();
        for (p, k) in elements(&a) {
            o.class(if k == Kind::Point { "points" } else { "scalars" });
            match moved(tree::get(&a, &p), tree::get(&b, &p), k) {
                None => return Err(format!("{} is the same in two proofs made with the same challenges", tree::show(&p))),
                Some(d) => {
                    if let Some(q) = by.insert(d, p.clone()) {
                        return Err(format!("{} and {} are blinded by the same amount", tree::show(&p), tree::show(&q)));
                    }
                }
            }
        }
        Ok(())
    };
    c.sub("moves", 120, 3000, 8, || (sat_inst(9, 12, 6), any::<u64>(), Just(false)), moves);
    c.sub("moves_larger", 16, 300, 8, || (sat_inst_from(0, 40, 300, 20), any::<u64>(), Just(false)), moves);
    c.sub("moves_full_size", 2, 24, 2, || (any::<u64>(), 1usize..300, 4097usize..8300, 0usize..40), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| moves(&(big(g, nc, nv, ni), g, false), o));
    c.sub("moves_snark", 16, 300, 8, || (sat_inst(6, 7, 5), any::<u64>(), Just(true)), moves);
    // the prover's random values one by one
    c.sub("each_random_value", 16, 400, 8, || (sat_inst(5, 7, 4), any::<u64>()), |(s, seed): &(SatInst, u64), o: &mut Obs| {
        let r = run(s, false)?;
        let (base, n) = {
            let sd = *seed;
            let (b, n) = forced(sd, Some(Box::new(move |k| mix(sd ^ 77, k))), || r.prove());
            (b?, n)
        };
        if n == 0 {
            o.trivial();
            o.class("the prover's randomness is not drawn from a transcript");
            return Ok(());
        }
        let el = elements(&base);
        let comm: Vec<usize> = (0..el.len()).filter(|i| el[*i].1 == Kind::Point && is_commitment(&el[*i].0)).collect();
        let scal: Vec<usize> = (0..el.len()).filter(|i| el[*i].1 == Kind::Scalar).collect();
        let mut rows: BTreeMap<usize, Vec<U>> = scal.iter().chain(comm.iter()).map(|i| (*i, vec![[0; 4]; n as usize])).collect();
        let mut unit: HashMap<usize, refm::ec::Pt> = HashMap::new();
        let mut mixed = std::collections::HashSet::new();
        for k in 0..n {
            let sd = *seed;
            let (j, m) = forced(sd, Some(Box::new(move |q| if q == k { FP.add(&mix(sd ^ 77, q), &u(1)) } else { mix(sd ^ 77, q) })), || r.prove());
            let j = j?;
            same!(m, n, "the number of random values drawn depends on a random value");
            o.class("random values moved");
            let mut by: HashMap<String, usize> = HashMap::new();
            for (i, (p, kind)) in el.iter().enumerate() {
                let (a, b) = (tree::get(&base, p), tree::get(&j, p));
                let d = match moved(a, b, *kind) {
                    None => continue,
                    Some(d) => d,
                };
                if let Some(q) = by.insert(d.clone(), i) {
                    return Err(format!("{} and {} both move by the same amount with one random value", tree::show(p), tree::show(&el[q].0)));
                }
                match kind {
                    Kind::Scalar => rows.get_mut(&i).unwrap()[k as usize] = FP.sub(&tree::scalar(b), &tree::scalar(a)),
                    _ => {
                        if comm.contains(&i) {
                            // its blinding value is multiplied by a fixed generator
                            let d = point_diff(a, b);
                            let e = unit.entry(i).or_insert(d);
                            let row = &mut rows.get_mut(&i).unwrap()[k as usize];
                            if *e == d {
                                *row = u(1)
                            } else if *e == SECQ.neg(&d) {
                                *row = FP.neg(&u(1))
                            } else {
                                mixed.insert(i);
                            }
                        }
                    }
                }
            }
        }
        ensure!(!scal.is_empty(), "no scalar in the proof");
        o.class(if comm.is_empty() { "only answers" } else { "commitments and answers" });
        // given the challenges, commitments and answers are independent and uniform
        rows.retain(|i, _| !mixed.contains(i));
        if !mixed.is_empty() {
            o.class("commitments with several blinding values left out");
        }
        let order: Vec<usize> = rows.keys().copied().collect();
        if let (_, Some(at)) = rank(rows.values().cloned().collect()) {
            return Err(format!("{} follows from the elements before it (its randomness is used elsewhere)", tree::show(&el[order[at]].0)));
        }
        Ok(())
    });
    // no proof without it
    c.sub("no_entropy", 24, 400, 8, || (sat_inst(5, 7, 4), any::<bool>(), any::<bool>()), |(s, snark, before): &(SatInst, bool, bool), o: &mut Obs| {
        let r = run(s, *snark)?;
        if *before {
            r.prove()?;
            o.class("after a proof");
        }
        getrandom::vk_fail(true);
        let p = r.prove();
        getrandom::vk_fail(false);
        ensure!(p.is_err(), "a proof was made although the operating system gave no entropy");
        r.prove().map(|_| ())
    });
    // operating-system entropy
    c.sub("entropy", 8, 300, 8, || (sat_inst(5, 7, 4), any::<u64>(), any::<bool>()), |(s, seed, snark): &(SatInst, u64, bool), o: &mut Obs| {
        let r = run(s, *snark)?;
        for n in 0..2 {
            getrandom::vk_record_start();
            r.prove()?;
            let got = getrandom::vk_record_take().len();
            ensure!(got >= 32, "proof {} was made with {} bytes of entropy", n, got);
        }
        let len = {
            getrandom::vk_record_start();
            r.prove()?;
            getrandom::vk_record_take().len()
        };
        let ent: Vec<u8> = (0..len).map(|k| mix(*seed, k as u64)[0] as u8).collect();
        let with = |b: &Vec<u8>| {
            getrandom::vk_bytes(Some(b.clone()));
            let p = forced(*seed, None, || r.prove()).0;
            getrandom::vk_bytes(None);
            p
        };
        let base = with(&ent)?;
        if with(&ent)? != base {
            o.class("randomness beyond the entropy asked for");
            return Ok(());
        }
        let mut used = 0;
        for k in 0..len.min(if *snark { 40 } else { 96 }) {
            let mut e = ent.clone();
            e[k] ^= 1 << (seed.wrapping_add(k as u64) % 8);
            let j = with(&e)?;
            let mut stay = None;
            for (p, _) in elements(&base) {
                if tree::get(&base, &p) == tree::get(&j, &p) {
                    stay = Some(p)
                }
            }
            if stay.is_none() {
                used += 1;
            }
        }
        o.class("entropy bytes flipped");
        ensure!(used >= 32, "only {} bytes of the entropy have an influence on every element", used);
        Ok(())
    });
    c.finish()
}
