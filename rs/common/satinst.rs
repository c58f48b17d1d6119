// R1CS instances in Spartan's own column layout, z = (vars, 1, inputs), with a satisfying assignment.
use libspartan::{Assignment, Instance};
type Ent = (usize, usize, [u8; 32]);
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct SatInst {
    pub cons: usize,
    pub vars: Vec<vk::B32>,
    pub inputs: Vec<vk::B32>,
    /// (row, column, value) in the order they are handed over
    pub m: [Vec<(usize, usize, vk::B32)>; 3],
}
impl SatInst {
    pub fn ents(&self, k: usize) -> Vec<Ent> {
        self.m[k].iter().map(|(r, c, v)| (*r, *c, v.0)).collect()
    }
    pub fn inst(&self) -> Result<Instance, String> {
        Instance::new(self.cons, self.vars.len(), self.inputs.len(), &self.ents(0), &self.ents(1), &self.ents(2))
            .map_err(|e| format!("construction refused: {:?}", e))
    }
    pub fn z(&self, vars: &[vk::B32], inputs: &[vk::B32]) -> Vec<refm::U> {
        let mut z: Vec<refm::U> = vars.iter().map(|b| refm::le(&b.0)).collect();
        z.resize(self.vars.len(), [0; 4]);
        z.push([1, 0, 0, 0]);
        z.extend(inputs.iter().map(|b| refm::le(&b.0)));
        z
    }
    /// The definition: (A.z)*(B.z) = (C.z), row by row.
    pub fn holds(&self, vars: &[vk::B32], inputs: &[vk::B32]) -> bool {
        let f = &refm::FP;
        let z = self.z(vars, inputs);
        let mut acc = vec![[[0u64; 4]; 3]; self.cons];
        for k in 0..3 {
            for (r, c, v) in &self.m[k] {
                acc[*r][k] = f.add(&acc[*r][k], &f.mul(&refm::le(&v.0), &z[*c]));
            }
        }
        acc.iter().all(|a| f.mul(&a[0], &a[1]) == a[2])
    }
    pub fn nnz(&self) -> usize {
        self.m.iter().map(|m| m.len()).max().unwrap()
    }
}
pub fn asg(v: &[vk::B32]) -> Result<Assignment, String> {
    Assignment::new(&v.iter().map(|b| b.0).collect::<Vec<_>>()).map_err(|e| format!("assignment refused: {:?}", e))
}
pub fn val() -> impl proptest::strategy::Strategy<Value = vk::B32> + Clone {
    use proptest::prelude::*;
    prop_oneof![
        2 => vk::gen::elem(refm::to_le(&refm::P)).boxed(),
        1 => (0u64..4).prop_map(|x| vk::B32(refm::to_le(&refm::u(x)))).boxed()
    ]
}
/// Up to the given numbers of constraints, variables and inputs.
pub fn sat_inst(mc: usize, mv: usize, mi: usize) -> impl proptest::strategy::Strategy<Value = SatInst> {
    sat_inst_from(0, mc, mv, mi)
}
pub fn sat_inst_from(lo: usize, mc: usize, mv: usize, mi: usize) -> impl proptest::strategy::Strategy<Value = SatInst> {
    use proptest::collection::vec;
    use proptest::prelude::*;
    let lc = vec((any::<u32>(), val()), 0..4);
    // a row that constrains nothing non-zero, now and then
    let row = prop_oneof![8 => [lc.clone(), lc.clone(), lc].boxed(), 1 => Just([vec![], vec![], vec![]]).boxed()];
    (lo..=mc, 0..=mv, 0..=mi, vec(val(), mv), vec(val(), mi), vec((row, any::<u32>()), mc), 0u8..4, any::<u64>()).prop_map(
        |(nc, nv, ni, mut vars, mut inputs, mut rows, style, mix)| {
            let f = &refm::FP;
            vars.truncate(nv);
            inputs.truncate(ni);
            rows.truncate(nc);
            let mut s = SatInst { cons: nc, vars, inputs, m: [vec![], vec![], vec![]] };
            let z = s.z(&s.vars, &s.inputs);
            let n = z.len();
            for (i, (mut l, fix)) in rows.into_iter().enumerate() {
                for k in 0..3 {
                    for t in l[k].iter_mut() {
                        t.0 %= n as u32;
                    }
                    if style != 3 {
                        l[k].sort_by_key(|t| t.0);
                        l[k].dedup_by_key(|t| t.0);
                    }
                }
                let at = {
                    let c = fix as usize % n;
                    if refm::is_zero(&z[c]) { nv } else { c }
                };
                l[2].retain(|t| t.0 as usize != at);
                let ev = |l: &Vec<(u32, vk::B32)>| l.iter().fold([0; 4], |a, (c, v)| f.add(&a, &f.mul(&refm::le(&v.0), &z[*c as usize])));
                let need = f.sub(&f.mul(&ev(&l[0]), &ev(&l[1])), &ev(&l[2]));
                let k = f.mul(&need, &f.inv(&z[at]));
                if !refm::is_zero(&k) {
                    l[2].push((at as u32, vk::B32(refm::to_le(&k))));
                }
                for k in 0..3 {
                    s.m[k].extend(l[k].iter().map(|(c, v)| (i, *c as usize, *v)));
                }
            }
            if style == 2 {
                // entries in no particular order
                for (k, m) in s.m.iter_mut().enumerate() {
                    let mut x = mix ^ k as u64;
                    for i in (1..m.len()).rev() {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        m.swap(i, (x >> 33) as usize % (i + 1));
                    }
                }
            }
            s
        },
    )
}
/// A satisfied instance of about the size of the deployed circuits, grown from a seed: replays stay small.
#[allow(dead_code)]
pub fn big(seed: u64, nc: usize, nv: usize, ni: usize) -> SatInst {
    big_with(seed, nc, nv, ni, ni)
}
/// The same, with zero for every input from `live` on.
#[allow(dead_code)]
pub fn big_with(seed: u64, nc: usize, nv: usize, ni: usize, live: usize) -> SatInst {
    let f = &refm::FP;
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    let mut rnd = move || {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    };
    let mut value = |small: u64| -> refm::U {
        if rnd() % 8 < small {
            return [rnd() % 4, 0, 0, 0];
        }
        f.add(&[rnd(), rnd(), rnd(), rnd() >> 1], &[0; 4])
    };
    let vars: Vec<refm::U> = (0..nv).map(|_| value(3)).collect();
    let inputs: Vec<refm::U> = (0..ni).map(|_| value(2)).enumerate().map(|(i, v)| if i < live { v } else { [0; 4] }).collect();
    let b = |u: &refm::U| vk::B32(refm::to_le(u));
    let mut s = SatInst { cons: nc, vars: vars.iter().map(b).collect(), inputs: inputs.iter().map(b).collect(), m: [vec![], vec![], vec![]] };
    let z = s.z(&s.vars, &s.inputs);
    let n = z.len() as u64;
    for r in 0..nc {
        let mut ev = [[0u64; 4]; 3];
        for k in 0..3 {
            for j in 0..1 + value(0)[0] % 2 {
                // the first rows use the last columns, and every row some column of its own
                let c = (if j == 0 { n - 1 - (r as u64 * 3 + k as u64) % n } else { value(0)[0] % n }) as usize;
                if k == 2 && c == nv {
                    continue;
                }
                let v = value(3);
                if s.m[k].iter().rev().take(2).any(|e| e.0 == r && e.1 == c) {
                    continue;
                }
                ev[k] = f.add(&ev[k], &f.mul(&v, &z[c]));
                s.m[k].push((r, c, b(&v)));
            }
        }
        let need = f.sub(&f.mul(&ev[0], &ev[1]), &ev[2]);
        s.m[2].push((r, nv, b(&need)));
    }
    s
}
