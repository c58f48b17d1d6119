//! C10: the instance made from a circuit file means what the file means.
use circuit_reader::load_as_spartan_inst;
use libspartan::{Assignment, Instance};
use proptest::prelude::*;
use refm::*;
use vk::*;
include!("../../../common/r1csfile.rs");
include!("../../../common/satsys.rs");

/// What is changed between the satisfying assignment and the one that is checked.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Mutn {
    None,
    Wire(u32, B32),
    Pub(u32, B32),
    /// the witness's own copies of the constant and the public wires
    Leading(Vec<B32>),
    /// swap two public inputs / two wires
    SwapPub(u32, u32),
    SwapWire(u32, u32),
    Coeff(u32, u8, u32, B32),
}
fn mutn() -> impl Strategy<Value = Mutn> {
    let e = || {
        let p = to_le(&P);
        prop_oneof![gen::elem(p).boxed(), (0u64..4).prop_map(|x| B32(to_le(&u(x)))).boxed()]
    };
    prop_oneof![
        2 => Just(Mutn::None),
        2 => (any::<u32>(), e()).prop_map(|(w, v)| Mutn::Wire(w, v)),
        3 => (any::<u32>(), e()).prop_map(|(w, v)| Mutn::Pub(w, v)),
        3 => proptest::collection::vec(e(), 1..8).prop_map(Mutn::Leading),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Mutn::SwapPub(a, b)),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Mutn::SwapWire(a, b)),
        1 => (any::<u32>(), 0u8..3, any::<u32>(), e()).prop_map(|(c, m, t, v)| Mutn::Coeff(c, m, t, v)),
    ]
}
/// The system, public inputs and witness wires of the case.
fn apply(s: &SatSys, m: &Mutn) -> (Sys, Vec<B32>, Vec<B32>) {
    let mut sys = s.sys.clone();
    let np = s.num_pub;
    let mut inputs = s.z[1..1 + np].to_vec();
    let mut wit = s.z.clone();
    let n = wit.len();
    match m {
        Mutn::None => {}
        Mutn::Wire(w, v) => {
            if n > np + 1 {
                wit[np + 1 + *w as usize % (n - np - 1)] = *v
            }
        }
        Mutn::Pub(w, v) => {
            if np > 0 {
                inputs[*w as usize % np] = *v
            }
        }
        Mutn::Leading(vs) => {
            for (i, v) in vs.iter().enumerate() {
                if i <= np {
                    wit[i] = *v
                }
            }
        }
        Mutn::SwapPub(a, b) => {
            if np > 0 {
                inputs.swap(*a as usize % np, *b as usize % np)
            }
        }
        Mutn::SwapWire(a, b) => {
            let k = n - np - 1;
            if k > 0 {
                wit.swap(np + 1 + *a as usize % k, np + 1 + *b as usize % k)
            }
        }
        Mutn::Coeff(c, m, t, v) => {
            if !sys.cons.is_empty() {
                let k = *c as usize % sys.cons.len();
                let l = &mut sys.cons[k][*m as usize];
                if !l.is_empty() {
                    let i = *t as usize % l.len();
                    l[i].1 = *v
                }
            }
        }
    }
    (sys, inputs, wit)
}
fn assign(v: &[B32]) -> Result<Assignment, String> {
    Assignment::new(&v.iter().map(|b| b.0).collect::<Vec<_>>()).map_err(|e| format!("assignment refused: {:?}", e))
}
fn expected(sys: &Sys, inputs: &[B32], wit: &[B32]) -> bool {
    let mut z = vec![u(1)];
    z.extend(uz(inputs));
    z.extend(uz(&wit[1 + inputs.len()..]));
    holds(sys, &z)
}
fn judge(inst: &Instance, sys: &Sys, inputs: &[B32], wit: &[B32], what: &str) -> R {
    let got = inst.is_sat(&assign(wit)?, &assign(inputs)?).map_err(|e| format!("{}: is_sat refused: {:?}", what, e))?;
    same!(got, expected(sys, inputs, wit), "{}: satisfied", what);
    Ok(())
}
fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("c10-{}", std::process::id()))
}
fn load(sys: &Sys, l: &Layout, np: usize) -> Instance {
    let p = scratch().join(format!("{:?}.r1cs", std::thread::current().id()));
    std::fs::write(&p, r1cs(sys, l)).unwrap();
    load_as_spartan_inst(p, np)
}
fn case(s: &SatSys, l: &Layout, m: &Mutn, o: &mut Obs) -> R {
    let (sys, inputs, wit) = apply(s, m);
    if sys.cons.is_empty() {
        o.class("no constraint");
    }
    if s.num_pub == 0 {
        o.class("no public input");
    }
    let e = expected(&sys, &inputs, &wit);
    o.class(if e { "satisfied" } else { "violated" });
    let inst = load(&sys, l, s.num_pub);
    judge(&inst, &sys, &inputs, &wit, "converted instance")?;
    let bytes = bincode::serialize(&inst).map_err(|e| e.to_string())?;
    let back: Instance = bincode::deserialize(&bytes).map_err(|e| format!("does not decode: {}", e))?;
    judge(&back, &sys, &inputs, &wit, "decoded instance")?;
    same!(bincode::serialize(&back).unwrap(), bytes, "re-encoding");
    Ok(())
}

fn main() {
    std::fs::create_dir_all(scratch()).unwrap();
    let mut c = Check::new("C10", "a case is a distinct (constraint system, file layout, change) triple; the assignment is satisfying by construction and then changed");
    c.assume("the file writer in common/r1csfile.rs follows the iden3 r1cs format description");
    c.sub("meaning", 12000, 300000, 8, || (sat_sys(12, 6), layout(), mutn()), |(s, l, m): &(SatSys, Layout, Mutn), o: &mut Obs| case(s, l, m, o));
    c.sub("larger", 400, 8000, 8, || (sat_sys(140, 70), layout(), mutn()), |(s, l, m): &(SatSys, Layout, Mutn), o: &mut Obs| case(s, l, m, o));
    c.sub("many", 8, 48, 4, || (any::<u64>(), 65400u32..66000, 0u8..2, any::<u32>(), layout(), 0u8..3), |(seed, n, what, np, l, change): &(u64, u32, u8, u32, Layout, u8), o: &mut Obs| {
        // more wires, constraints or terms than 16 bits count
        let v = stretch(*seed, *n as usize);
        let mut z: Vec<U> = v.iter().map(|x| [*x, x.rotate_left(9), !x, x >> 3]).collect();
        z[0] = u(1);
        let np = *np as usize % if *change == 1 { 40 } else { *n as usize };
        let f = &FP;
        let term = |x: u64, k: &U| ((x % *n as u64) as u32, B32(to_le(k)));
        let cons = match what {
            // k * wire = wire
            0 => v.iter().map(|x| {
                let (a, b) = (x % *n as u64, x.rotate_left(20) % *n as u64);
                [vec![term(a, &u(1))], vec![term(0, &u(1))], vec![term(b, &f.mul(&z[a as usize], &f.inv(&z[b as usize])))]]
            }).collect::<Vec<_>>(),
            // a sum over all wires
            _ => {
                let row: Vec<_> = (0..*n as u64).map(|w| term(w, &[v[w as usize], 0, 0, 1])).collect();
                let sum = dot(&row, &z);
                vec![[row, vec![term(0, &u(1))], vec![term(*n as u64 - 1, &f.mul(&sum, &f.inv(&z[*n as usize - 1])))]]]
            }
        };
        o.class(if *what == 0 { "constraints" } else { "terms of a constraint" });
        let s = Sys { wires: *n, pub_out: 0, pub_in: np as u32, prv_in: 0, labels: *n as u64, cons, map: (0..*n as u64).collect() };
        let b = |z: &[U]| z.iter().map(|x| B32(to_le(x))).collect::<Vec<_>>();
        let (mut inputs, mut wit) = (b(&z[1..1 + np]), b(&z));
        match change {
            1 if np > 0 => inputs[np - 1] = B32(to_le(&u(3))),
            2 => *wit.last_mut().unwrap() = B32(to_le(&u(3))),
            _ => {}
        }
        judge(&load(&s, l, np), &s, &inputs, &wit, "converted instance")
    });
    let bin = std::env::var("GEN_SPARTAN_INST").unwrap_or_default();
    c.sub("tool", 160, 1500, 8, || (sat_sys(12, 6), layout(), mutn(), any::<bool>()), move |(s, l, m, rel): &(SatSys, Layout, Mutn, bool), o: &mut Obs| {
        if bin.is_empty() {
            o.trivial();
            return Ok(());
        }
        let (sys, inputs, wit) = apply(s, m);
        let stem = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-");
        let (i, out) = (scratch().join(format!("t{}.r1cs", stem)), scratch().join(format!("t{}.circuit", stem)));
        std::fs::write(&i, r1cs(&sys, l)).unwrap();
        // an earlier, longer output must not show through
        std::fs::write(&out, vec![0xabu8; 20000]).unwrap();
        let (ai, ao) = if *rel {
            (i.file_name().unwrap().to_owned().into(), out.file_name().unwrap().to_owned().into())
        } else {
            (i.clone(), out.clone())
        };
        let st = std::process::Command::new(&bin)
            .args([ai.as_os_str(), ao.as_os_str(), std::ffi::OsStr::new(&s.num_pub.to_string())])
            .current_dir(scratch())
            .output()
            .map_err(|e| e.to_string())?;
        ensure!(st.status.success(), "gen_spartan_inst failed: {}", String::from_utf8_lossy(&st.stderr));
        let bytes = std::fs::read(&out).unwrap();
        let inst: Instance = bincode::deserialize(&bytes).map_err(|e| format!("the tool's output does not decode: {}", e))?;
        judge(&inst, &sys, &inputs, &wit, "instance on disk")?;
        same!(bytes, bincode::serialize(&load(&sys, l, s.num_pub)).unwrap(), "bytes on disk");
        Ok(())
    });
    c.at_exit(|| {
        let _ = std::fs::remove_dir_all(scratch());
    });
    c.finish()
}
