//! C11: instance construction and satisfiability checking.
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use vk::*;
include!("../../../common/satinst.rs");

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Ch {
    None,
    Var(u32, B32),
    Inp(u32, B32),
    /// add to one entry's value
    Ent(u8, u32, B32),
    Move(u8, u32, u32),
    SwapMat(u8),
}
fn ch() -> impl Strategy<Value = Ch> {
    prop_oneof![
        2 => Just(Ch::None),
        2 => (any::<u32>(), val()).prop_map(|(a, b)| Ch::Var(a, b)),
        2 => (any::<u32>(), val()).prop_map(|(a, b)| Ch::Inp(a, b)),
        2 => (0u8..3, any::<u32>(), val()).prop_map(|(a, b, c)| Ch::Ent(a, b, c)),
        1 => (0u8..3, any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| Ch::Move(a, b, c)),
        1 => (0u8..3).prop_map(Ch::SwapMat),
    ]
}
fn apply(s: &SatInst, c: &Ch) -> SatInst {
    let mut s = s.clone();
    let n = s.vars.len() + 1 + s.inputs.len();
    match c {
        Ch::None => {}
        Ch::Var(i, v) => {
            let n = s.vars.len();
            if n > 0 {
                s.vars[*i as usize % n] = *v
            }
        }
        Ch::Inp(i, v) => {
            let n = s.inputs.len();
            if n > 0 {
                s.inputs[*i as usize % n] = *v
            }
        }
        Ch::Ent(k, i, v) => {
            let m = &mut s.m[*k as usize];
            if !m.is_empty() {
                let i = *i as usize % m.len();
                m[i].2 = *v
            }
        }
        Ch::Move(k, i, c) => {
            let m = &mut s.m[*k as usize];
            if !m.is_empty() {
                let i = *i as usize % m.len();
                m[i].1 = *c as usize % n
            }
        }
        Ch::SwapMat(k) => s.m.swap(*k as usize, (*k as usize + 1) % 3),
    }
    s
}
fn err_name<T>(r: Result<T, impl std::fmt::Debug>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}
fn sat_case(s: &SatInst, c: &Ch, o: &mut Obs) -> R {
    let s = apply(s, c);
    let want = s.holds(&s.vars, &s.inputs);
    o.class(if want { "satisfied" } else { "violated" });
    if s.cons < 2 {
        o.class("at most one constraint");
    }
    if s.inputs.len() + 1 > s.vars.len() {
        o.class("padded for the inputs");
    }
    let inst = s.inst()?;
    let got = inst.is_sat(&asg(&s.vars)?, &asg(&s.inputs)?).map_err(|e| format!("is_sat refused: {:?}", e))?;
    same!(got, want, "satisfied");
    Ok(())
}
fn main() {
    let mut c = Check::new("C11", "a case is a distinct (instance, assignment, change); instances are satisfied by construction and then changed");
    c.sub("satisfied", 40000, 1500000, 8, || (sat_inst(7, 9, 9), ch()), |(s, h): &(SatInst, Ch), o: &mut Obs| sat_case(s, h, o));
    c.sub("satisfied_larger", 2000, 40000, 8, || (sat_inst(70, 140, 30), ch()), |(s, h): &(SatInst, Ch), o: &mut Obs| sat_case(s, h, o));
    c.sub("satisfied_full_size", 60, 1500, 8, || (any::<u64>(), 1usize..6000, 0usize..6000, 0usize..200, ch()), |&(seed, nc, nv, ni, ref h): &(u64, usize, usize, usize, Ch), o: &mut Obs| sat_case(&big(seed, nc, nv, ni), h, o));
    c.sub("bad_entries", 20000, 400000, 8,
        || (sat_inst(6, 6, 4), vec((0u8..3, any::<u32>(), 0u8..8, any::<u32>(), gen::b256(to_le(&P))), 1..4)),
        |(s, bad): &(SatInst, Vec<(u8, u32, u8, u32, B32)>), o: &mut Obs| {
            let (nc, nv, ni) = (s.cons, s.vars.len(), s.inputs.len());
            let width = nv + 1 + ni;
            let mut s = s.clone();
            let (mut idx, mut sca) = (false, false);
            for (k, at, kind, x, v) in bad {
                // small excesses are the interesting ones: padding makes room for them
                let small = *x as usize % 5;
                let (mut r, mut c, mut v) = (if nc > 0 { *at as usize % nc } else { 0 }, *x as usize % width, *v);
                match kind {
                    0 => r = nc + small,
                    1 => c = width + small,
                    2 => r = usize::MAX - small,
                    3 => c = usize::MAX - small,
                    4 => v = B32(to_le(&addc(&P, &u(*x as u64)).0)),
                    5 => r = nc,
                    6 => c = width,
                    _ => {}
                }
                idx |= r >= nc || c >= width;
                sca |= !gen::lt(&v.0, &to_le(&P));
                let m = &mut s.m[*k as usize];
                let p = *at as usize % (m.len() + 1);
                m.insert(p, (r, c, v));
            }
            let got = err_name(libspartan::Instance::new(nc, nv, ni, &s.ents(0), &s.ents(1), &s.ents(2)));
            match (idx, sca) {
                (false, false) => {
                    o.class("valid");
                    same!(got, "Ok".to_string(), "construction of a valid instance");
                }
                (true, false) => same!(got, "InvalidIndex".to_string(), "index out of range"),
                (false, true) => same!(got, "InvalidScalar".to_string(), "coefficient not below the modulus"),
                (true, true) => ensure!(got == "InvalidIndex" || got == "InvalidScalar", "bad index and bad coefficient: {}", got),
            }
            Ok(())
        });
    c.sub("lengths", 20000, 300000, 8, || (sat_inst(5, 9, 5), vec(val(), 0..20), vec(val(), 9), 0usize..8), |(s, v, i, k): &(SatInst, Vec<B32>, Vec<B32>, usize), o: &mut Obs| {
        // mostly the right number of inputs
        let mut i = i.clone();
        i.truncate(match k { 0 => 0, 1 => 9, 2 => s.inputs.len().saturating_sub(1), 3 => s.inputs.len() + 1, _ => s.inputs.len() });
        let (i, mut v) = (&i, v.clone());
        if *k > 5 {
            // a satisfying assignment, possibly lengthened or shortened
            let n = v.len();
            v = s.vars.iter().chain(v.iter()).cloned().take(s.vars.len().saturating_sub(2) + n % 5).collect();
        }
        let v = &v;
        let nv = s.vars.len();
        let padded = nv.max(s.inputs.len() + 1).next_power_of_two();
        let inst = s.inst()?;
        let got = inst.is_sat(&asg(v)?, &asg(i)?);
        let name = match &got {
            Ok(b) => format!("Ok({})", b),
            Err(e) => format!("{:?}", e),
        };
        let bad_i = i.len() != s.inputs.len();
        let bad_v = v.len() > padded;
        if bad_i || bad_v {
            o.class("refused");
            ensure!(
                bad_i && name == "InvalidNumberOfInputs" || bad_v && name == "InvalidNumberOfVars",
                "{} variables (instance: {} padded to {}), {} inputs (instance: {}): {}", v.len(), nv, padded, i.len(), s.inputs.len(), name
            );
            return Ok(());
        }
        // a shorter list stands for one padded with zeros; entries that no column refers to are ignored
        let mut used = v.clone();
        used.truncate(nv);
        let want = format!("Ok({})", s.holds(&used, i));
        ensure!(name == want || v.len() != nv && name == "InvalidNumberOfVars", "{} of {} variables: got {}, expected {}", v.len(), nv, name, want);
        Ok(())
    });
    c.sub("assignment", 20000, 300000, 4, || vec(gen::b256(to_le(&P)), 0..6), |v: &Vec<B32>, o: &mut Obs| {
        let ok = v.iter().all(|b| gen::lt(&b.0, &to_le(&P)));
        let got = err_name(libspartan::Assignment::new(&v.iter().map(|b| b.0).collect::<Vec<_>>()));
        if !ok {
            o.class("not canonical");
        }
        same!(got, if ok { "Ok".to_string() } else { "InvalidScalar".to_string() }, "assignment");
        Ok(())
    });
    c.sub("synthetic", 60, 600, 4, || (0u32..7, 0u32..7, any::<u32>(), any::<u64>()), |(c, v, i, seed): &(u32, u32, u32, u64), _o: &mut Obs| {
        let (nc, nv) = (1usize << c, 1usize << v);
        let ni = *i as usize % nv;
        getrandom::vk_seed(Some(*seed));
        let (inst, vars, inputs) = libspartan::Instance::produce_synthetic_r1cs(nc, nv, ni);
        getrandom::vk_seed(None);
        same!((inst.inst.get_num_cons(), inst.inst.get_num_vars(), inst.inst.get_num_inputs()), (nc, nv, ni), "dimensions");
        same!(inst.is_sat(&vars, &inputs).ok(), Some(true), "synthetic instance and assignment");
        Ok(())
    });
    c.finish()
}
