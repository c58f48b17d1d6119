//! C16: Fiat-Shamir: what the challenges depend on.
use chk_spartan::{attack::*, *};
use libspartan::*;
use merlin::{Op, Transcript};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::{BTreeMap, HashMap};
use refv::prove::Stop;
use tree::Kind;
use vk::serde_json::Value;
use vk::*;

const L: &[u8] = b"binding";

/// A proof of either kind with what it takes to verify it.
enum Setup {
    Nizk(NIZKGens),
    Snark(SNARKGens, ComputationCommitment, ComputationDecommitment),
}
struct Run {
    i: Instance,
    v: Assignment,
    x: Assignment,
    u: Setup,
}
fn run(s: &SatInst, snark: bool) -> Result<Run, String> {
    let i = s.inst()?;
    let u = if snark {
        let g = snark_gens(s);
        let (c, d) = no_panic(|| SNARK::encode(&i, &g)).map_err(|e| format!("encode: {}", e))?;
        Setup::Snark(g, c, d)
    } else {
        Setup::Nizk(nizk_gens(s))
    };
    Ok(Run { i, v: asg(&s.vars)?, x: asg(&s.inputs)?, u })
}
type Msg = (Vec<u8>, Vec<u8>, bool);
/// What happened on the transcript with the given id.
fn on(log: Vec<merlin::Entry>, id: u64) -> Vec<Msg> {
    log.into_iter()
        .filter(|e| e.id == id)
        .filter_map(|e| match e.op {
            Op::Append(l, m) => Some((l, m, false)),
            Op::Challenge(l, m) => Some((l, m, true)),
            _ => None,
        })
        .collect()
}
impl Run {
    /// The serialised proof (bytes and tree) and what the prover did on the transcript.
    fn prove(&self) -> Result<(Vec<u8>, Value, Vec<Msg>), String> {
        merlin::log_start();
        let mut t = Transcript::new(L);
        let id = t.log_id();
        let r = no_panic(|| match &self.u {
            Setup::Nizk(g) => {
                let p = NIZK::prove(&self.i, self.v.clone(), &self.x, g, &mut t);
                (bincode::serialize(&p).unwrap(), to_json(&p))
            }
            Setup::Snark(g, c, d) => {
                let p = SNARK::prove(&self.i, c, d, self.v.clone(), &self.x, g, &mut t);
                (bincode::serialize(&p).unwrap(), to_json(&p))
            }
        });
        let log = on(merlin::log_take(), id);
        let (b, j) = r?;
        Ok((b, j, log))
    }
    /// Whether the proof is accepted and what the verifier did on the transcript.
    fn verify(&self, p: &[u8], l: &'static [u8]) -> (bool, Vec<Msg>) {
        merlin::log_start();
        let mut t = Transcript::new(l);
        let id = t.log_id();
        let r = no_panic(|| match &self.u {
            Setup::Nizk(g) => bincode::deserialize::<NIZK>(p).unwrap().verify(&self.i, &self.x, &mut t, g).is_ok(),
            Setup::Snark(g, c, _) => bincode::deserialize::<SNARK>(p).unwrap().verify(c, &self.x, &mut t, g).is_ok(),
        });
        (matches!(r, Ok(true)), on(merlin::log_take(), id))
    }
}
fn first(m: &[Msg]) -> Option<&Vec<u8>> {
    m.iter().find(|m| m.2).map(|m| &m.1)
}
fn challenges(m: &[Msg]) -> Vec<&Vec<u8>> {
    m.iter().filter(|m| m.2).map(|m| &m.1).collect()
}
fn bytes_of(v: &Value, k: Kind) -> Vec<u8> {
    match k {
        Kind::Scalar => v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => {
            let s = v.as_str().unwrap();
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
        }
    }
}
/// Scalars that are answers to the last challenge of their sub-protocol, or repeat challenges: nothing has
/// to depend on them.
fn is_answer(p: &tree::Path) -> bool {
    let keys: Vec<&str> = p
        .iter()
        .filter_map(|s| match s {
            tree::Step::Key(k) => Some(k.as_str()),
            _ => None,
        })
        .collect();
    let last = *keys.last().unwrap_or(&"");
    let z = last.len() <= 7 && last.starts_with('z');
    z || last == "r"
}
fn main() {
    let mut c = Check::new("C16", "a case is a distinct (statement, proof) run whose transcript is recorded, with a change to the statement where one is named; every position of the transcript is looked at");
    c.assume("merlin is replaced by a stand-in with the published construction that also records what is absorbed (DESIGN.md)");
    let golden: Vec<Value> = {
        let f = std::path::Path::new(&std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("golden/proofs.json");
        vk::serde_json::from_slice(&std::fs::read(f).expect("golden proofs")).expect("golden proofs")
    };
    let n = golden.len();
    c.sub("earlier_proofs", n as u32 * 2, n as u32 * 8, 8, move || 0..n, move |k: &usize, o: &mut Obs| {
        let g = &golden[*k];
        let s: SatInst = vk::serde_json::from_value(g["statement"].clone()).unwrap();
        let h = g["proof"].as_str().unwrap();
        let p: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let snark = g["snark"].as_bool().unwrap();
        o.class(if snark { "SNARK" } else { "NIZK" });
        let r = run(&s, snark)?;
        ensure!(r.verify(&p, b"golden").0, "a proof made by an earlier version is refused (number {})", k);
        Ok(())
    });
    // proofs by another prover of the same protocol (rs/refv), and another verifier's opinion of proofs made here
    let both = |(s, snark, seed): &(SatInst, bool, u64), o: &mut Obs| -> R {
        o.class(if *snark { "SNARK" } else { "NIZK" });
        let r = run(s, *snark)?;
        let theirs = if *snark { other::snark(s, &r.i, Stop::Honest, *seed, L)? } else { other::nizk(s, &r.i, Stop::Honest, *seed, L)? };
        if let other::Made::Bytes(b) = theirs {
            ensure!(r.verify(&b, L).0, "the reference prover's honest proof is refused");
        }
        let (b, _, _) = r.prove()?;
        let back = |e: String| format!("the reference verifier refuses a proof made here: {}", e);
        if *snark {
            ref_snark(s, &r.i, &other::decode(&b).ok_or("does not decode")?, L).map_err(back)
        } else {
            ref_nizk(s, &r.i, &other::decode(&b).ok_or("does not decode")?, L).map_err(back)
        }
    };
    c.sub("other_prover_nizk", 60, 1500, 8, || (sat_inst(9, 12, 9), Just(false), any::<u64>()), both);
    c.sub("other_prover_nizk_larger", 8, 150, 8, || (sat_inst_from(10, 70, 200, 50), Just(false), any::<u64>()), both);
    c.sub("other_prover_snark", 24, 600, 8, || (sat_inst(7, 9, 9), Just(true), any::<u64>()), both);
    c.sub("other_prover_snark_larger", 6, 80, 8, || (sat_inst_from(10, 40, 70, 30), Just(true), any::<u64>()), both);
    c.sub("other_prover_nizk_full_size", 2, 24, 2, || (any::<u64>(), 40usize..600, 4097usize..8300, 65usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| both(&(big(g, nc, nv, ni), false, g), o));
    c.sub("other_prover_snark_full_size", 1, 20, 1, || (any::<u64>(), 130usize..300, 300usize..1100, 33usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| both(&(big(g, nc, nv, ni), true, g), o));
    // every message and challenge of prover and verifier
    let record = |(s, snark): &(SatInst, bool), o: &mut Obs| -> R {
        o.class(if *snark { "SNARK" } else { "NIZK" });
        let r = run(s, *snark)?;
        let (b, j, ours) = r.prove()?;
        let (okay, theirs) = r.verify(&b, L);
        ensure!(okay, "the honest proof is refused");
        for (k, (a, b)) in ours.iter().zip(theirs.iter()).enumerate() {
            ensure!(a == b, "prover and verifier differ at transcript entry {}: {} / {}", k, String::from_utf8_lossy(&a.0), String::from_utf8_lossy(&b.0));
        }
        same!(ours.len(), theirs.len(), "prover and verifier transcripts have different lengths");
        // no challenge value comes twice
        let ch = challenges(&theirs);
        let mut seen = std::collections::HashSet::new();
        for x in &ch {
            ensure!(seen.insert((*x).clone()), "a challenge comes twice");
        }
        let begin = theirs.iter().position(|m| m.2).ok_or("no challenge at all")?;
        let end = theirs.iter().rposition(|m| m.2).unwrap();
        // the inputs, all of them and in order, before the first challenge
        let mut at = 0;
        for (k, x) in s.inputs.iter().enumerate() {
            match theirs[at..begin].iter().position(|m| m.1[..] == x.0[..]) {
                Some(d) => at += d + 1,
                None => return Err(format!("public input {} of {} is not absorbed before the first challenge", k, s.inputs.len())),
            }
        }
        // how often each message is absorbed before the last challenge
        let mut absorbed: HashMap<&[u8], usize> = HashMap::new();
        for m in theirs[..end].iter().filter(|m| !m.2) {
            *absorbed.entry(&m.1).or_insert(0) += 1;
        }
        let mut need: BTreeMap<Vec<u8>, (usize, String)> = Default::default();
        for (p, k) in tree::nodes(&j) {
            if k == Kind::List || (k == Kind::Scalar && is_answer(&p)) {
                continue;
            }
            let v = bytes_of(tree::get(&j, &p), k);
            o.class(if k == Kind::Point { "points looked for" } else { "scalars looked for" });
            let e = need.entry(v).or_insert((0, tree::show(&p)));
            e.0 += 1;
        }
        for (v, (n, p)) in &need {
            let have = absorbed.get(&v[..]).copied().unwrap_or(0);
            ensure!(have >= *n, "{} is in the proof {} time(s) and absorbed {} time(s)", p, n, have);
        }
        Ok(())
    };
    c.sub("record_nizk", 120, 3000, 8, || (sat_inst(9, 12, 9), Just(false)), record);
    c.sub("record_nizk_larger", 16, 300, 8, || (sat_inst_from(10, 70, 200, 50), Just(false)), record);
    c.sub("record_snark", 40, 800, 8, || (sat_inst(7, 9, 9), Just(true)), record);
    c.sub("record_snark_larger", 8, 100, 8, || (sat_inst_from(10, 40, 70, 30), Just(true)), record);
    c.sub("record_nizk_full_size", 2, 24, 2, || (any::<u64>(), 40usize..600, 4097usize..8300, 65usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| record(&(big(g, nc, nv, ni), false), o));
    c.sub("record_snark_full_size", 1, 20, 1, || (any::<u64>(), 513usize..900, 300usize..1100, 33usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| record(&(big(g, nc, nv, ni), true), o));
    // one change to the statement, and the first challenge is another
    let change = |(s, chs, snark): &(SatInst, Vec<Ch>, bool), o: &mut Obs| -> R {
        o.class(if *snark { "SNARK" } else { "NIZK" });
        let r = run(s, *snark)?;
        let (b, _, ours) = r.prove()?;
        let here = first(&ours).ok_or("no challenge")?;
        for ch in chs {
            let t = apply(s, ch);
            if meaning(&t) == meaning(s) && t.inputs == s.inputs && t.cons == s.cons && t.vars.len() == s.vars.len() {
                continue;
            }
            let q = run(&t, *snark)?;
            let (_, theirs) = q.verify(&b, L);
            match first(&theirs) {
                None => o.class("refused before the first challenge"),
                Some(there) => {
                    o.class("first challenges compared");
                    ensure!(here != there, "the first challenge is the same for another statement ({:?})", ch);
                }
            }
        }
        for l in [&b"bindin"[..], b"binding2", b""] {
            let (_, theirs) = r.verify(&b, l);
            ensure!(first(&theirs) != Some(here), "the first challenge is the same under another label");
        }
        Ok(())
    };
    let all = || prop_oneof![3 => inst_ch().boxed(), 2 => inp_ch().boxed()];
    c.sub("statement_nizk", 60, 1500, 8, move || (sat_inst_from(1, 7, 9, 6), vec(all(), 10), Just(false)), change);
    c.sub("statement_nizk_inputs", 40, 1000, 8, move || (sat_inst_from(1, 4, 4, 40), vec(inp_ch(), 10), Just(false)), change);
    c.sub("statement_nizk_full_size", 4, 60, 4, move || (any::<u64>(), 900usize..2500, 1usize..300, 65usize..160, vec(all(), 8)), move |&(g, nc, nv, ni, ref chs): &(u64, usize, usize, usize, Vec<Ch>), o: &mut Obs| change(&(big(g, nc, nv, ni), chs.clone(), false), o));
    c.sub("statement_snark", 24, 600, 8, move || (sat_inst_from(1, 7, 9, 6), vec(all(), 5), Just(true)), change);
    // dimensions: the same entries in an instance of another shape
    c.sub("shape", 60, 1500, 8, || (sat_inst_from(1, 7, 9, 4), 0u8..2, any::<bool>()), |(s, how, snark): &(SatInst, u8, bool), o: &mut Obs| {
        let mut t = s.clone();
        match how {
            // twice as many constraints
            0 => t.cons = s.cons.max(2).next_power_of_two() * 2,
            // twice as many variables: the constant and the inputs move along
            _ => {
                let (old, new) = (s.vars.len(), s.vars.len().max(s.inputs.len() + 1).next_power_of_two() * 2);
                t.vars.resize(new, B32([0; 32]));
                for m in t.m.iter_mut() {
                    for e in m.iter_mut() {
                        if e.1 >= old {
                            e.1 += new - old
                        }
                    }
                }
            }
        }
        let (r, q) = (run(s, *snark)?, run(&t, *snark)?);
        let (a, b) = (r.prove()?.2, q.prove()?.2);
        o.class("first challenges compared");
        ensure!(first(&a).is_some() && first(&a) != first(&b), "the first challenge is the same for another shape");
        Ok(())
    });
    // a proof element is changed: every challenge after it is another
    c.sub("message", 40, 1000, 8, || (sat_inst_from(1, 6, 7, 4), vec(tree::edit(), 12), any::<u8>()), |(s, es, k): &(SatInst, Vec<tree::Edit>, u8), o: &mut Obs| {
        let snark = k % 4 == 0;
        let r = run(s, snark)?;
        let (b, j, _) = r.prove()?;
        let (_, base) = r.verify(&b, L);
        let nodes: Vec<_> = tree::nodes(&j).into_iter().filter(|n| n.1 == Kind::Point).collect();
        for e in es {
            let (p, kind) = nodes[e.at as usize % nodes.len()].clone();
            let mut m = j.clone();
            let old = bytes_of(tree::get(&j, &p), kind);
            let mut e = e.clone();
            e.kind = [0u8, 2, 3][e.kind as usize % 3];
            tree::change(&mut m, &p, kind, &e, &j);
            if m == j {
                continue;
            }
            let enc = if snark { from_json::<SNARK>(&m).map(|p| bincode::serialize(&p).unwrap()) } else { from_json::<NIZK>(&m).map(|p| bincode::serialize(&p).unwrap()) };
            let enc = match enc {
                Some(e) => e,
                None => continue,
            };
            let at = match base.iter().rposition(|x| !x.2 && x.1 == old) {
                Some(a) => a,
                None => return Err(format!("{} is not absorbed", tree::show(&p))),
            };
            let (okay, log) = r.verify(&enc, L);
            ensure!(!okay, "accepted with {} changed", tree::show(&p));
            // the k-th challenge after the place of the change, in both runs
            let before = base[..at].iter().filter(|x| x.2).count();
            let (x, y) = (challenges(&base), challenges(&log));
            for k in before..x.len().min(y.len()) {
                o.class("later challenges compared");
                ensure!(x[k] != y[k], "challenge {} does not depend on {}", k, tree::show(&p));
            }
        }
        Ok(())
    });
    // the same statement twice on one transcript: the second run depends on the first
    c.sub("sequence", 24, 500, 8, || (sat_inst_from(1, 5, 6, 4), any::<u8>()), |(s, k): &(SatInst, u8), _o: &mut Obs| {
        let r = run(s, k % 4 == 0)?;
        merlin::log_start();
        let mut t = Transcript::new(L);
        let id = t.log_id();
        let p = no_panic(|| {
            for _ in 0..2 {
                match &r.u {
                    Setup::Nizk(g) => drop(NIZK::prove(&r.i, r.v.clone(), &r.x, g, &mut t)),
                    Setup::Snark(g, c, d) => drop(SNARK::prove(&r.i, c, d, r.v.clone(), &r.x, g, &mut t)),
                }
            }
        });
        let log = on(merlin::log_take(), id);
        p?;
        let mut seen = std::collections::HashSet::new();
        for x in challenges(&log) {
            ensure!(seen.insert(x.clone()), "a challenge comes twice");
        }
        Ok(())
    });
    c.finish()
}
