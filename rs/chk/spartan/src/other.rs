//! Proofs by the reference provers (rs/refv): an honest one, and ones that carry a false claim up to one equation.
use super::*;
use proptest::prelude::*;
use refv::prove::{self, Rng, Stop};

pub enum Made {
    /// the lie has nowhere to go
    Nothing,
    Bytes(Vec<u8>),
}
fn us(v: &[B32]) -> Vec<refm::U> {
    v.iter().map(|b| refm::le(&b.0)).collect()
}
use vk::B32;
/// A proof of the statement (instance `s.inst()`, inputs `s.inputs`) by one who has `s.vars`; the reference verifier
/// must find that exactly the equation `stop` fails.
pub fn nizk(s: &SatInst, i: &Instance, stop: Stop, seed: u64, label: &'static [u8]) -> Result<Made, String> {
    let (inst, digest) = ref_inst(s, i)?;
    let x = us(&s.inputs);
    let p = match prove::nizk(&inst, &digest, &us(&s.vars), &x, label, stop, &mut Rng(seed)) {
        Some(p) => p,
        None => return Ok(Made::Nothing),
    };
    only(refv::all_failures(|| refv::nizk(&inst, &digest, &x, label, &p)), stop)?;
    Ok(Made::Bytes(p))
}
pub fn snark(s: &SatInst, i: &Instance, stop: Stop, seed: u64, label: &'static [u8]) -> Result<Made, String> {
    let (inst, _) = ref_inst(s, i)?;
    let (x, nnz) = (us(&s.inputs), s.nnz().max(2));
    let cm = inst.commitment(&inst.sparse_gens(nnz));
    let p = match prove::snark(&inst, &cm, &us(&s.vars), &x, nnz, label, stop, &mut Rng(seed)) {
        Some(p) => p,
        None => return Ok(Made::Nothing),
    };
    only(refv::all_failures(|| refv::snark(&inst, &cm, &x, nnz, label, &p)), stop)?;
    Ok(Made::Bytes(p))
}
/// A proof made with another number of inputs than the instance declares.
pub fn count_nizk(s: &SatInst, i: &Instance, x: &[B32], seed: u64, label: &'static [u8]) -> Result<Option<Vec<u8>>, String> {
    let (mut inst, digest) = ref_inst(s, i)?;
    let x = us(x);
    let p = match prove::nizk(&inst, &digest, &us(&s.vars), &x, label, Stop::Honest, &mut Rng(seed)) {
        Some(p) => p,
        None => return Ok(None),
    };
    let f = refv::all_failures(|| refv::nizk(&inst, &digest, &x, label, &p));
    if f.len() != 1 || !f[0].contains("inputs for") {
        return Err(format!("HARNESS: another number of inputs breaks {:?}", f));
    }
    // everything else about it is right
    inst.inputs = x.len();
    let f = refv::all_failures(|| refv::nizk(&inst, &digest, &x, label, &p));
    if !f.is_empty() {
        return Err(format!("HARNESS: with that number of inputs, {:?} fails", f));
    }
    Ok(Some(p))
}
pub fn count_snark(s: &SatInst, i: &Instance, x: &[B32], seed: u64, label: &'static [u8]) -> Result<Option<Vec<u8>>, String> {
    let (inst, _) = ref_inst(s, i)?;
    let (x, nnz) = (us(x), s.nnz().max(2));
    let cm = inst.commitment(&inst.sparse_gens(nnz));
    let p = match prove::snark(&inst, &cm, &us(&s.vars), &x, nnz, label, Stop::Honest, &mut Rng(seed)) {
        Some(p) => p,
        None => return Ok(None),
    };
    let f = refv::all_failures(|| refv::snark(&inst, &cm, &x, nnz, label, &p));
    if f.len() != 1 || !f[0].contains("inputs for") {
        return Err(format!("HARNESS: another number of inputs breaks {:?}", f));
    }
    Ok(Some(p))
}
/// `s` with `extra` inputs declared beyond those it has; the constraints are as they were.
pub fn declare(s: &SatInst, extra: usize) -> SatInst {
    let mut t = s.clone();
    t.inputs.extend((0..extra).map(|_| B32(refm::to_le(&refm::u(0)))));
    t
}
fn only(f: Vec<String>, stop: Stop) -> Result<(), String> {
    let want = stop.equation();
    let good = if stop == Stop::Honest { f.is_empty() } else { f.len() == 1 && f[0].contains(&want) };
    if good {
        Ok(())
    } else {
        Err(format!("HARNESS: the reference prover's lie {:?} breaks {:?}", stop, f))
    }
}
pub fn decode<T: serde::de::DeserializeOwned>(b: &[u8]) -> Option<T> {
    vk::no_panic(|| bincode::deserialize::<T>(b).ok()).ok().flatten()
}
pub fn stop() -> impl Strategy<Value = (u8, u8)> {
    (any::<u8>(), any::<u8>())
}
/// The lies a NIZK of this instance can tell.
pub fn nizk_stop(s: &SatInst, (k, n): (u8, u8)) -> Stop {
    let cons = s.cons.max(2).next_power_of_two().trailing_zeros() as usize;
    let vars = s.vars.len().max(s.inputs.len() + 1).next_power_of_two().trailing_zeros() as usize + 1;
    match k % 10 {
        8 => Stop::Point(false, n as usize),
        9 => Stop::Point(true, n as usize),
        0 | 1 => Stop::Phase1(n as usize % cons),
        2 => Stop::Eq1,
        3 => Stop::Product,
        4 | 5 => Stop::Phase2(n as usize % vars),
        6 => Stop::Eq2,
        _ => Stop::Open,
    }
}
/// The lies a proof for a committed instance can tell after that.
pub fn snark_stop(s: &SatInst, (k, n): (u8, u8)) -> Stop {
    let n = n as usize;
    let cons = s.cons.max(2).next_power_of_two().trailing_zeros() as usize;
    let vars = s.vars.len().max(s.inputs.len() + 1).next_power_of_two().trailing_zeros() as usize + 1;
    let ops = s.nnz().max(2).next_power_of_two().trailing_zeros() as usize;
    match k % 19 {
        14 => Stop::Deref,
        15 => Stop::Addr(false),
        16 => Stop::Addr(true),
        0 => Stop::Halves,
        1 => Stop::DotLayer,
        2 => Stop::DotFinal,
        3 => Stop::Val,
        4 => Stop::Sets,
        5 => Stop::Audit,
        6..=9 => {
            let w = k % 4;
            let l = if w == 1 || w == 2 { ops } else { cons.max(vars) };
            Stop::Set(w, Some(n % l))
        }
        10..=13 => Stop::Set(k % 4, None),
        // (the last two are for a verifier that has the instance)
        _ => nizk_stop(s, (n as u8 % 8, k)),
    }
}
