// Constraint systems together with an assignment that satisfies them, by construction.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct SatSys {
    pub sys: Sys,
    /// wire values; z[0] = 1
    pub z: Vec<vk::B32>,
    pub num_pub: usize,
}
pub fn uz(z: &[vk::B32]) -> Vec<refm::U> {
    z.iter().map(|b| refm::le(&b.0)).collect()
}
/// `max_wires` >= 2.
pub fn sat_sys(max_wires: u32, max_cons: usize) -> impl proptest::strategy::Strategy<Value = SatSys> {
    use proptest::prelude::*;
    let p = refm::to_le(&refm::P);
    let val = prop_oneof![2 => vk::gen::elem(p).boxed(), 1 => (0u64..4).prop_map(|x| vk::B32(refm::to_le(&refm::u(x)))).boxed()];
    let term = (any::<u32>(), val.clone());
    let lc = proptest::collection::vec(term, 0..5);
    (
        1u32..=max_wires,
        proptest::collection::vec(val, max_wires as usize),
        proptest::collection::vec(([lc.clone(), lc.clone(), lc], any::<u32>(), any::<bool>()), 0..=max_cons),
        any::<u32>(),
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(wires, mut z, cons, np, dup)| {
            let f = &refm::FP;
            z.truncate(wires as usize);
            z[0] = vk::B32(refm::to_le(&refm::u(1)));
            let zu = uz(&z);
            let num_pub = (np % wires) as usize;
            let cons = cons
                .into_iter()
                .map(|(mut c, fix, merge)| {
                    for l in c.iter_mut() {
                        for t in l.iter_mut() {
                            t.0 %= wires;
                        }
                        // circom writes each wire once per combination; repeated wires are kept
                        // in some cases, since the format allows them
                        if !(dup && merge) {
                            l.sort_by_key(|t| t.0);
                            l.dedup_by_key(|t| t.0);
                        }
                    }
                    let w = {
                        let w = fix % wires;
                        if refm::is_zero(&zu[w as usize]) { 0 } else { w }
                    };
                    c[2].retain(|t| t.0 != w);
                    let rest = dot(&c[2], &zu);
                    let need = f.sub(&f.mul(&dot(&c[0], &zu), &dot(&c[1], &zu)), &rest);
                    let k = f.mul(&need, &f.inv(&zu[w as usize]));
                    if !refm::is_zero(&k) {
                        c[2].push((w, vk::B32(refm::to_le(&k))));
                    }
                    c
                })
                .collect::<Vec<_>>();
            let map = (0..wires as u64).collect();
            let pub_out = (np >> 16) % (num_pub as u32 + 1);
            let sys = Sys { wires, pub_out, pub_in: num_pub as u32 - pub_out, prv_in: wires - 1 - num_pub as u32, labels: wires as u64, cons, map };
            SatSys { sys, z, num_pub }
        })
}
/// A satisfied system of about the size of the deployed circuits, grown from a seed; every wire occurs if there
/// are at least a third as many constraints.
#[allow(dead_code)]
pub fn big_sys(seed: u64, wires: u32, cons: usize, num_pub: usize) -> SatSys {
    let f = &refm::FP;
    let mut x = seed;
    let mut rnd = move || {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    };
    let mut value = move |small: u64| -> refm::U {
        if rnd() % 8 < small {
            return [rnd() % 4, 0, 0, 0];
        }
        [rnd(), rnd(), rnd(), rnd() >> 1]
    };
    let b = |u: &refm::U| vk::B32(refm::to_le(u));
    let mut z: Vec<refm::U> = (0..wires).map(|_| value(3)).collect();
    z[0] = refm::u(1);
    let cons = (0..cons)
        .map(|r| {
            let mut c: [Vec<(u32, vk::B32)>; 3] = [vec![], vec![], vec![]];
            for k in 0..3 {
                let own = wires - 1 - ((r * 3 + k) as u32) % wires;
                let mut at = vec![own];
                if value(0)[0] % 2 == 0 {
                    at.push((value(0)[0] % wires as u64) as u32);
                }
                at.sort();
                at.dedup();
                c[k] = at.into_iter().filter(|w| k != 2 || *w != 0).map(|w| (w, b(&value(3)))).collect();
            }
            let need = f.sub(&f.mul(&dot(&c[0], &z), &dot(&c[1], &z)), &dot(&c[2], &z));
            c[2].insert(0, (0, b(&need)));
            c
        })
        .collect::<Vec<_>>();
    let sys = Sys { wires, pub_out: 0, pub_in: num_pub as u32, prv_in: wires - 1 - num_pub as u32, labels: wires as u64, cons, map: (0..wires as u64).collect() };
    SatSys { sys, z: z.iter().map(b).collect(), num_pub }
}
