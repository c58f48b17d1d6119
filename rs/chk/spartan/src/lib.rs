//! What the proof-system checks share.
#![allow(non_snake_case)]
include!("../../../common/satinst.rs");
use libspartan::{NIZKGens, SNARKGens, NIZK, SNARK};
use merlin::Transcript;
use vk::serde_json::{json, Value};
pub mod attack;
pub mod other;
pub mod tree;

pub fn nizk_gens(s: &SatInst) -> NIZKGens {
    let i = s.inst().unwrap();
    NIZKGens::new(i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs())
}
pub fn nizk_prove(i: &Instance, v: &Assignment, x: &Assignment, g: &NIZKGens, label: &'static [u8]) -> Result<NIZK, String> {
    vk::no_panic(|| NIZK::prove(i, v.clone(), x, g, &mut Transcript::new(label)))
}
/// true: accepted; refusal may be an error or an abort
pub fn nizk_verify(p: &NIZK, i: &Instance, x: &Assignment, g: &NIZKGens, label: &'static [u8]) -> bool {
    matches!(vk::no_panic(|| p.verify(i, x, &mut Transcript::new(label), g).is_ok()), Ok(true))
}
pub fn nizk_why(p: &NIZK, i: &Instance, x: &Assignment, g: &NIZKGens, label: &'static [u8]) -> Result<(), String> {
    vk::no_panic(|| p.verify(i, x, &mut Transcript::new(label), g).map_err(|e| format!("verifier refused: {:?}", e)))?
}
pub fn to_json<T: serde::Serialize>(x: &T) -> Value {
    vk::serde_json::to_value(x).unwrap()
}
/// None: does not decode (an error or an abort)
pub fn from_json<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    vk::no_panic(|| vk::serde_json::from_value::<T>(v.clone()).ok()).ok().flatten()
}
pub fn snark_gens(s: &SatInst) -> SNARKGens {
    let i = s.inst().unwrap();
    // the padding entries of tiny instances count as well
    SNARKGens::new(i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs(), s.nnz().max(2))
}
pub fn hexs(b: &[u8]) -> Value {
    json!(b.iter().map(|x| format!("{:02X}", x)).collect::<String>())
}
pub type Snark = SNARK;

/// The instance as written down and as the library serialises it, entry for entry.
fn ref_inst(s: &SatInst, i: &Instance) -> Result<(refv::Inst, Vec<u8>), String> {
    let mine = refv::Inst::new(s.cons, s.vars.len(), s.inputs.len(), [0, 1, 2].map(|k| s.m[k].iter().map(|(r, c, v)| (*r, *c, refm::le(&v.0))).collect()));
    let b = bincode::serialize(i).map_err(|e| e.to_string())?;
    let (theirs, digest) = refv::Inst::read(&mut refv::Rd(&b))?;
    if (mine.cons, mine.vars, mine.inputs) != (theirs.cons, theirs.vars, theirs.inputs) {
        return Err(format!("the instance's sizes are {:?}", (theirs.cons, theirs.vars, theirs.inputs)));
    }
    for k in 0..3 {
        if refv::Inst::canon(&mine.m[k]) != refv::Inst::canon(&theirs.m[k]) {
            return Err(format!("matrix {} is not the one asked for", k));
        }
    }
    Ok((theirs, digest))
}
/// What the reference verifier (rs/refv) says of a proof of this statement.
pub fn ref_nizk(s: &SatInst, i: &Instance, p: &NIZK, label: &'static [u8]) -> Result<(), String> {
    let (inst, digest) = ref_inst(s, i)?;
    let x: Vec<refm::U> = s.inputs.iter().map(|b| refm::le(&b.0)).collect();
    refv::nizk(&inst, &digest, &x, label, &bincode::serialize(p).map_err(|e| e.to_string())?)
}
/// The same for committed instances; the reference computes the commitment (it is absorbed, so another one is not accepted).
pub fn ref_snark(s: &SatInst, i: &Instance, p: &SNARK, label: &'static [u8]) -> Result<(), String> {
    let (inst, _) = ref_inst(s, i)?;
    let x: Vec<refm::U> = s.inputs.iter().map(|b| refm::le(&b.0)).collect();
    let nnz = s.nnz().max(2);
    let cm = inst.commitment(&inst.sparse_gens(nnz));
    refv::snark(&inst, &cm, &x, nnz, label, &bincode::serialize(p).map_err(|e| e.to_string())?)
}
