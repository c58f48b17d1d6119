//! C20: serialisation of proofs, instances and assignments.
use chk_spartan::*;
use libspartan::*;
use merlin::Transcript;
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use vk::serde_json::Value;
use vk::*;

const L: &[u8] = b"serialised";
fn enc<T: serde::Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).unwrap()
}
/// None: not decoded (an error or an abort)
fn dec<T: serde::de::DeserializeOwned>(b: &[u8]) -> Option<T> {
    no_panic(|| bincode::deserialize::<T>(b).ok()).ok().flatten()
}
/// Bytes, JSON and a reader, back to the same bytes.
fn round<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, what: &str) -> Result<T, String> {
    let b = enc(x);
    same!(bincode::serialized_size(x).unwrap(), b.len() as u64, "{}: serialized size", what);
    let y: T = no_panic(|| bincode::deserialize(&b)).map_err(|e| format!("{}: decoding {}", what, e))?.map_err(|e| format!("{}: does not decode: {}", what, e))?;
    same!(enc(&y), b, "{}: decoded value serialises differently", what);
    let z: T = no_panic(|| bincode::deserialize_from(&b[..])).map_err(|e| format!("{}: decoding {}", what, e))?.map_err(|e| format!("{}: does not decode from a reader: {}", what, e))?;
    same!(enc(&z), b, "{}: value decoded from a reader serialises differently", what);
    let j = to_json(x);
    let w: T = from_json(&j).ok_or(format!("{}: does not decode from JSON", what))?;
    same!(enc(&w), b, "{}: value decoded from JSON serialises differently", what);
    let t = vk::serde_json::to_string(x).unwrap();
    let v: T = no_panic(|| vk::serde_json::from_str(&t)).map_err(|e| format!("{}: decoding {}", what, e))?.map_err(|e| format!("{}: does not decode from text: {}", what, e))?;
    same!(enc(&v), b, "{}: value decoded from text serialises differently", what);
    Ok(y)
}
fn sat(i: &Instance, v: &Assignment, x: &Assignment) -> String {
    match no_panic(|| i.is_sat(v, x)) {
        Ok(r) => format!("{:?}", r),
        Err(e) => format!("panic {}", e),
    }
}
fn snark_ok(p: &SNARK, c: &ComputationCommitment, x: &Assignment, g: &SNARKGens) -> bool {
    matches!(no_panic(|| p.verify(c, x, &mut Transcript::new(L), g).is_ok()), Ok(true))
}
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Dmg {
    Xor(u32, u8),
    Set(u32, u8),
    Cut(u32),
    Copy(u32, u32, u8),
    Remove(u32, u8),
    Insert(u32, u8),
    /// a canonical scalar somewhere made non-canonical
    AddP(u32),
    Swap(u32, u32),
}
fn dmg() -> impl Strategy<Value = Dmg> {
    prop_oneof![
        4 => (any::<u32>(), 1u8..).prop_map(|(i, x)| Dmg::Xor(i, x)),
        3 => (any::<u32>(), (0u32..8).prop_map(|k| 1u8 << k)).prop_map(|(i, x)| Dmg::Xor(i, x)),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(i, x)| Dmg::Set(i, x)),
        1 => any::<u32>().prop_map(Dmg::Cut),
        1 => (any::<u32>(), any::<u32>(), 1u8..80).prop_map(|(i, j, n)| Dmg::Copy(i, j, n)),
        1 => (any::<u32>(), 1u8..80).prop_map(|(i, n)| Dmg::Remove(i, n)),
        1 => (any::<u32>(), 1u8..80).prop_map(|(i, n)| Dmg::Insert(i, n)),
        1 => any::<u32>().prop_map(Dmg::AddP),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(i, j)| Dmg::Swap(i, j)),
    ]
}
fn damage(p: &[u8], d: &Dmg) -> Vec<u8> {
    let mut v = p.to_vec();
    let n = v.len();
    match d {
        Dmg::Xor(i, x) => v[*i as usize % n] ^= x,
        Dmg::Set(i, x) => v[*i as usize % n] = *x,
        Dmg::Cut(k) => v.truncate(*k as usize % n),
        Dmg::Copy(i, j, l) => {
            let l = (*l as usize).min(n);
            let (i, j) = (*i as usize % (n - l + 1), *j as usize % (n - l + 1));
            v.copy_within(i..i + l, j)
        }
        Dmg::Remove(i, l) => {
            let i = *i as usize % n;
            v.drain(i..(i + *l as usize).min(n));
        }
        Dmg::Insert(i, l) => {
            let i = *i as usize % n;
            let piece: Vec<u8> = v[i.saturating_sub(*l as usize)..i].to_vec();
            v.splice(i..i, piece);
        }
        Dmg::AddP(i) => {
            let i = *i as usize % n.saturating_sub(31).max(1);
            if i + 32 <= n {
                let x = le(&v[i..i + 32].try_into().unwrap());
                let (s, c) = add4(&x, &P);
                if !c {
                    v[i..i + 32].copy_from_slice(&to_le(&s));
                }
            }
        }
        Dmg::Swap(i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let l = 32.min(n - i.max(j));
            for k in 0..l {
                v.swap(i + k, j + k);
            }
        }
    }
    v
}
fn add4(a: &U, b: &U) -> (U, bool) {
    let mut o = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
fn main() {
    let mut c = Check::new("C20", "a case is a distinct (statement, damage list); damage that leaves the bytes as they were, or that decodes to the same value, is trivial");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.assume("an instance whose unused matrix dimensions or whose row or column count (within the same power of two) differ is the same statement");
    c.assume("bytes after the end of an encoding, and field elements written as value + p, decode to the same value and are no corruption");
    let round_trip_case = |(s, other, short): &(SatInst, Vec<B32>, bool), o: &mut Obs| -> R {
        let (i, v, x) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?);
        let (i2, v2, x2) = (round(&i, "instance")?, round(&v, "assignment")?, round(&x, "inputs")?);
        same!(to_json(&i2), to_json(&i), "the decoded instance");
        same!((i2.inst.get_num_cons(), i2.inst.get_num_vars(), i2.inst.get_num_inputs()), (i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs()), "dimensions");
        // satisfiability
        let mut w: Vec<B32> = other[..s.vars.len().min(other.len())].to_vec();
        if *short {
            w.pop();
        }
        let y = asg(&w)?;
        for a in [&v, &y, &x] {
            for b in [&x, &y] {
                let e = sat(&i, a, b);
                if e == "Ok(true)" {
                    o.class("satisfied");
                }
                same!(sat(&i2, a, b), e.clone(), "satisfiability of the decoded instance");
                same!(sat(&i2, &round(a, "assignment")?, &round(b, "assignment")?), e, "satisfiability with decoded assignments");
            }
        }
        same!(sat(&i2, &v2, &x2), sat(&i, &v, &x), "satisfiability");
        Ok(())
    };
    c.sub("round_trip", 200, 5000, 8, || (sat_inst(9, 12, 6), vec(val(), 12), any::<bool>()), round_trip_case);
    c.sub("round_trip_larger", 16, 300, 8, || (sat_inst_from(20, 140, 300, 70), vec(val(), 12), any::<bool>()), round_trip_case);
    // about the size of the deployed circuits
    c.sub("round_trip_full_size", 3, 48, 3, || (any::<u64>(), 1000usize..4100, 1000usize..8300, 33usize..160, vec(val(), 12), any::<bool>()), move |&(g, nc, nv, ni, ref w, short): &(u64, usize, usize, usize, Vec<B32>, bool), o: &mut Obs| round_trip_case(&(big(g, nc, nv, ni), w.clone(), short), o));
    let proof_nizk_case = |s: &SatInst, _o: &mut Obs| -> R {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
        let (i2, v2, x2) = (round(&i, "instance")?, round(&v, "assignment")?, round(&x, "inputs")?);
        let p = nizk_prove(&i, &v, &x, &g, L)?;
        let p2 = round(&p, "proof")?;
        for (what, p, i, x) in [("decoded proof", &p2, &i, &x), ("decoded instance", &p, &i2, &x), ("decoded inputs", &p, &i, &x2), ("everything decoded", &p2, &i2, &x2)] {
            nizk_why(p, i, x, &g, L).map_err(|e| format!("{}: {}", what, e))?;
        }
        let q = nizk_prove(&i2, &v2, &x2, &g, L)?;
        nizk_why(&q, &i, &x, &g, L).map_err(|e| format!("proof made from decoded parts: {}", e))
    };
    c.sub("proof_nizk", 120, 3000, 8, || sat_inst(9, 12, 6), proof_nizk_case);
    c.sub("proof_nizk_larger", 8, 120, 8, || sat_inst_from(20, 140, 300, 70), proof_nizk_case);
    c.sub("proof_nizk_full_size", 1, 20, 1, || (any::<u64>(), 1000usize..4100, 4097usize..8300, 33usize..160), move |&(g, nc, nv, ni): &(u64, usize, usize, usize), o: &mut Obs| proof_nizk_case(&big(g, nc, nv, ni), o));
    let proof_snark_case = |s: &SatInst, _o: &mut Obs| -> R {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, snark_gens(s));
        let i2 = round(&i, "instance")?;
        let ((c, d), (c2, _)) = (SNARK::encode(&i, &g), SNARK::encode(&i2, &g));
        let p = no_panic(|| SNARK::prove(&i, &c, &d, v, &x, &g, &mut Transcript::new(L)))?;
        let p2 = round(&p, "proof")?;
        ensure!(snark_ok(&p2, &c, &x, &g), "the decoded proof is refused");
        ensure!(snark_ok(&p, &c2, &x, &g), "refused with the commitment to the decoded instance");
        ensure!(snark_ok(&p2, &c2, &round(&x, "inputs")?, &g), "refused with everything decoded");
        Ok(())
    };
    c.sub("proof_snark", 24, 500, 8, || sat_inst(6, 7, 5), proof_snark_case);
    c.sub("proof_snark_larger", 4, 60, 8, || sat_inst_from(20, 40, 140, 30), proof_snark_case);
    // damaged proofs
    c.sub("damaged_nizk", 80, 3000, 8, || (sat_inst(6, 9, 5), vec(dmg(), 24)), |(s, ds): &(SatInst, Vec<Dmg>), o: &mut Obs| {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
        let b = enc(&nizk_prove(&i, &v, &x, &g, L)?);
        for d in ds {
            let m = damage(&b, d);
            if let Some(p) = dec::<NIZK>(&m) {
                let same = enc(&p) == b;
                o.class(if same { "decodes to the same" } else { "decodes to something else" });
                let a = nizk_verify(&p, &i, &x, &g, L);
                ensure!(same || !a, "a damaged proof was accepted ({:?})", d);
                ensure!(!same || a, "a proof that decodes to the same is refused ({:?})", d);
            } else {
                o.class("does not decode");
            }
        }
        Ok(())
    });
    c.sub("damaged_snark", 24, 800, 8, || (sat_inst(5, 6, 4), vec(dmg(), 24)), |(s, ds): &(SatInst, Vec<Dmg>), o: &mut Obs| {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, snark_gens(s));
        let (c, d) = SNARK::encode(&i, &g);
        let b = enc(&no_panic(|| SNARK::prove(&i, &c, &d, v, &x, &g, &mut Transcript::new(L)))?);
        for d in ds {
            let m = damage(&b, d);
            if let Some(p) = dec::<SNARK>(&m) {
                let same = enc(&p) == b;
                o.class(if same { "decodes to the same" } else { "decodes to something else" });
                let a = snark_ok(&p, &c, &x, &g);
                ensure!(same || !a, "a damaged proof was accepted ({:?})", d);
                ensure!(!same || a, "a proof that decodes to the same is refused ({:?})", d);
            } else {
                o.class("does not decode");
            }
        }
        Ok(())
    });
    // every prefix
    c.sub("truncated", 40, 1000, 8, || (sat_inst(6, 9, 5), any::<u32>()), |(s, from): &(SatInst, u32), o: &mut Obs| {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
        let p = nizk_prove(&i, &v, &x, &g, L)?;
        let (b, ib, xb) = (enc(&p), enc(&i), enc(&x));
        let cuts = |n: usize| {
            let step = (n / 150).max(1);
            (0..n).filter(move |k| k % step == *from as usize % step || *k + 40 > n || *k < 40)
        };
        for k in cuts(b.len()) {
            o.class("prefixes");
            if let Some(q) = dec::<NIZK>(&b[..k]) {
                ensure!(!nizk_verify(&q, &i, &x, &g, L), "the first {} of {} bytes of a proof verify", k, b.len());
            }
        }
        for k in cuts(ib.len()) {
            o.class("prefixes");
            if let Some(q) = dec::<Instance>(&ib[..k]) {
                ensure!(!nizk_verify(&p, &q, &x, &g, L), "a proof verifies for the first {} of {} bytes of the instance", k, ib.len());
            }
        }
        for k in cuts(xb.len()) {
            o.class("prefixes");
            if let Some(q) = dec::<Assignment>(&xb[..k]) {
                ensure!(!nizk_verify(&p, &i, &q, &g, L), "a proof verifies for the first {} of {} bytes of the inputs", k, xb.len());
            }
        }
        Ok(())
    });
    // damaged statements
    c.sub("damaged_instance", 120, 4000, 8, || (sat_inst(6, 9, 5), vec(dmg(), 24)), |(s, ds): &(SatInst, Vec<Dmg>), o: &mut Obs| {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
        let p = nizk_prove(&i, &v, &x, &g, L)?;
        let b = enc(&i);
        for d in ds {
            let m = damage(&b, d);
            if let Some(q) = dec::<Instance>(&m) {
                let same = enc(&q) == b;
                o.class(if same { "decodes to the same" } else { "decodes to something else" });
                let a = nizk_verify(&p, &q, &x, &g, L);
                if !same && a && statement(&to_json(&q)) == statement(&to_json(&i)) {
                    o.class("the same matrices in another encoding");
                    continue;
                }
                if !same && a {
                    let (j, k) = (to_json(&i), to_json(&q));
                    return Err(format!("a proof was accepted for a damaged instance ({:?}): {}", d, diff(&j, &k, String::new())));
                }
                ensure!(!same || a, "refused for an instance that decodes to the same ({:?})", d);
            } else {
                o.class("does not decode");
            }
        }
        Ok(())
    });
    c.sub("damaged_inputs", 80, 3000, 8, || (sat_inst(4, 6, 9), vec(dmg(), 12)), |(s, ds): &(SatInst, Vec<Dmg>), o: &mut Obs| {
        let (i, v, x, g) = (s.inst()?, asg(&s.vars)?, asg(&s.inputs)?, nizk_gens(s));
        let p = nizk_prove(&i, &v, &x, &g, L)?;
        let b = enc(&x);
        for d in ds {
            if let Some(q) = dec::<Assignment>(&damage(&b, d)) {
                let same = enc(&q) == b;
                o.class(if same { "decodes to the same" } else { "decodes to something else" });
                same!(nizk_verify(&p, &i, &q, &g, L), same, "verification with damaged inputs ({:?})", d);
            } else {
                o.class("does not decode");
            }
        }
        Ok(())
    });
    c.finish()
}
/// What an instance says: entries and digest.  The matrices' own dimensions are not used after
/// construction, and the numbers of rows and columns only count rounded up to a power of two.
fn statement(j: &Value) -> Value {
    let mut j = j.clone();
    if let Some(i) = j.get_mut("inst").and_then(|i| i.as_object_mut()) {
        for k in ["A", "B", "C"] {
            if let Some(m) = i.get_mut(k).and_then(|m| m.as_object_mut()) {
                m.remove("num_vars_x");
                  m.remove("num_vars_y");
                let mut sum: std::collections::BTreeMap<(u64, u64), U> = Default::default();
                for e in m.get("M").and_then(|m| m.as_array()).into_iter().flatten() {
                    if let (Some(r), Some(c), true) = (e["row"].as_u64(), e["col"].as_u64(), tree::is_scalar(&e["val"])) {
                        let x = sum.entry((r, c)).or_insert([0; 4]);
                        *x = FP.add(x, &FP.red(&tree::scalar(&e["val"])));
                    }
                }
                sum.retain(|_, v| !is_zero(v));
                let list: Vec<Value> = sum.iter().map(|((r, c), v)| Value::from(format!("{} {} {:?}", r, c, v))).collect();
                m.insert("M".into(), Value::Array(list));
            }
        }
        for k in ["num_cons", "num_vars"] {
            if let Some(n) = i.get(k).and_then(|n| n.as_u64()) {
                i.insert(k.into(), Value::from(64 - n.saturating_sub(1).leading_zeros()));
            }
        }
    }
    j
}
/// The first difference of two trees.
fn diff(a: &Value, b: &Value, at: String) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().find_map(|(k, v)| if y.get(k) != Some(v) { Some(diff(v, y.get(k).unwrap_or(&Value::Null), format!("{}.{}", at, k))) } else { None }).unwrap_or(at),
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(k, (v, w))| if v != w { Some(diff(v, w, format!("{}[{}]", at, k))) } else { None }).unwrap_or(at)
        }
        _ => at,
    }
}
