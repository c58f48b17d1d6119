//! Changes to statements and witnesses, and dishonest provers.
use crate::{val, SatInst};
use proptest::prelude::*;
use refm::*;
use vk::B32;

/// Changes to a statement or a witness.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub enum Ch {
    Var(u32, B32),
    Inp(u32, B32),
    SwapInp(u32, u32),
    Ent(u8, u32, B32),
    Add(u8, u32, u32, B32),
    Drop(u8, u32),
    Move(u8, u32, u32),
    SwapMat(u8),
    ScaleRow(u8, u32, B32),
}
pub fn apply(s: &SatInst, c: &Ch) -> SatInst {
    let mut s = s.clone();
    let n = s.vars.len() + 1 + s.inputs.len();
    let pick = |i: u32, n: usize| if n == 0 { None } else { Some(i as usize % n) };
    match c {
        Ch::Var(i, v) => {
            if let Some(k) = pick(*i, s.vars.len()) {
                s.vars[k] = *v
            }
        }
        Ch::Inp(i, v) => {
            if let Some(k) = pick(*i, s.inputs.len()) {
                s.inputs[k] = *v
            }
        }
        Ch::SwapInp(i, j) => {
            if let (Some(a), Some(b)) = (pick(*i, s.inputs.len()), pick(*j, s.inputs.len())) {
                s.inputs.swap(a, b)
            }
        }
        Ch::Ent(k, i, v) => {
            let m = &mut s.m[*k as usize];
            if let Some(i) = pick(*i, m.len()) {
                m[i].2 = *v
            }
        }
        Ch::Add(k, r, c, v) => {
            if s.cons > 0 {
                s.m[*k as usize].push((*r as usize % s.cons, *c as usize % n, *v))
            }
        }
        Ch::Drop(k, i) => {
            let m = &mut s.m[*k as usize];
            if let Some(i) = pick(*i, m.len()) {
                m.remove(i);
            }
        }
        Ch::Move(k, i, c) => {
            let m = &mut s.m[*k as usize];
            if let Some(i) = pick(*i, m.len()) {
                m[i].1 = *c as usize % n
            }
        }
        Ch::SwapMat(k) => s.m.swap(*k as usize, (*k as usize + 1) % 3),
        Ch::ScaleRow(k, i, v) => {
            let m = &mut s.m[*k as usize];
            if let Some(i) = pick(*i, m.len()) {
                let r = m[i].0;
                for e in m.iter_mut() {
                    if e.0 == r {
                        e.2 = B32(to_le(&FP.mul(&le(&e.2 .0), &le(&v.0))))
                    }
                }
            }
        }
    }
    s
}
pub fn inst_ch() -> impl Strategy<Value = Ch> {
    let u = || any::<u32>();
    prop_oneof![
        2 => (0u8..3, u(), val()).prop_map(|(a, b, c)| Ch::Ent(a, b, c)),
        2 => (0u8..3, u(), u(), val()).prop_map(|(a, b, c, d)| Ch::Add(a, b, c, d)),
        1 => (0u8..3, u()).prop_map(|(a, b)| Ch::Drop(a, b)),
        1 => (0u8..3, u(), u()).prop_map(|(a, b, c)| Ch::Move(a, b, c)),
        1 => (0u8..3).prop_map(Ch::SwapMat),
        1 => (0u8..3, u(), val()).prop_map(|(a, b, c)| Ch::ScaleRow(a, b, c)),
    ]
}
pub fn wit_ch() -> impl Strategy<Value = Ch> {
    let u = || any::<u32>();
    prop_oneof![
        3 => (u(), val()).prop_map(|(a, b)| Ch::Var(a, b)),
        2 => (u(), val()).prop_map(|(a, b)| Ch::Inp(a, b)),
        1 => (u(), u()).prop_map(|(a, b)| Ch::SwapInp(a, b)),
    ]
}
pub fn inp_ch() -> impl Strategy<Value = Ch> {
    let u = || any::<u32>();
    prop_oneof![3 => (u(), val()).prop_map(|(a, b)| Ch::Inp(a, b)), 1 => (u(), u()).prop_map(|(a, b)| Ch::SwapInp(a, b))]
}
/// The matrices as the instance holds them: zero entries and repeated positions add nothing new.
pub fn meaning(s: &SatInst) -> Vec<std::collections::BTreeMap<(usize, usize), U>> {
    s.m.iter()
        .map(|m| {
            let mut o = std::collections::BTreeMap::new();
            for (r, c, v) in m {
                let e = o.entry((*r, *c)).or_insert([0u64; 4]);
                *e = FP.add(e, &le(&v.0));
            }
            o.retain(|_, v| !is_zero(v));
            o
        })
        .collect()
}
/// Makes the prover absorb `b` wherever it would absorb `a` (both are lists of field elements).
pub fn lie_about_inputs(transcript: &'static [u8], a: &[B32], b: &[B32]) {
    // the inputs are absorbed one by one between two markers under the label "input"
    let (a, b) = (a.to_vec(), b.to_vec());
    let at = std::cell::Cell::new(0usize);
    merlin::hook_append(Some(Box::new(move |name, label, msg| {
        if name != transcript || label != b"input" || msg.len() != 32 {
            return None;
        }
        let k = at.get();
        at.set(k + 1);
        if k < a.len() && msg == &a[k].0[..] {
            Some(b[k].0.to_vec())
        } else {
            None
        }
    })));
}
pub fn first_challenge(log: Vec<merlin::Entry>) -> Option<Vec<u8>> {
    let id = log.iter().find_map(|e| match &e.op {
        merlin::Op::Append(l, _) if l == b"input" => Some(e.id),
        _ => None,
    })?;
    log.into_iter().find_map(|e| match e.op {
        merlin::Op::Challenge(_, c) if e.id == id => Some(c),
        _ => None,
    })
}

