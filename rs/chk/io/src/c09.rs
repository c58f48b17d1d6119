//! C09: the R1CS file reader.
use circuit_reader_int::circom_reader::{from_reader, load_r1cs_from_bin, load_r1cs_from_bin_file};
use ff::PrimeField;
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use secq256k1::AffinePoint as G1;
use std::io::Cursor;
use vk::*;
include!("../../../common/r1csfile.rs");

fn coeff() -> impl Strategy<Value = B32> + Clone {
    gen::elem(to_le(&P))
}
fn sys() -> impl Strategy<Value = Sys> {
    let lc = vec((prop_oneof![4 => 0u32..8, 1 => any::<u32>()], coeff()), 0..6);
    let long = vec((any::<u32>(), coeff()), 0..40);
    let lc = prop_oneof![12 => lc.boxed(), 1 => long.boxed()];
    (
        prop_oneof![3 => 1u32..12, 1 => 1u32..300],
        any::<u32>(),
        any::<u32>(),
        prop_oneof![1 => 0u32..10, 1 => any::<u32>()],
        prop_oneof![1 => 0u64..10, 1 => any::<u64>()],
        vec([lc.clone(), lc.clone(), lc], 0..6),
        vec(any::<u64>(), 300),
    )
        .prop_map(|(wires, po, pi, prv_in, labels, cons, mut map)| {
            let po = po % wires;
            let pi = pi % (wires - po);
            map.truncate(wires as usize);
            map[0] = 0;
            Sys { wires, pub_out: po, pub_in: pi, prv_in, labels, cons, map }
        })
}
type Con = (Vec<(usize, <G1 as secq256k1::affine::Group>::Scalar)>, Vec<(usize, <G1 as secq256k1::affine::Group>::Scalar)>, Vec<(usize, <G1 as secq256k1::affine::Group>::Scalar)>);
fn same_cons(got: &[Con], s: &Sys) -> R {
    same!(got.len(), s.cons.len(), "number of constraints");
    for (i, (g, w)) in got.iter().zip(&s.cons).enumerate() {
        for (m, (g, w)) in [(&g.0, &w[0]), (&g.1, &w[1]), (&g.2, &w[2])].into_iter().enumerate() {
            same!(g.len(), w.len(), "terms in constraint {} matrix {}", i, m);
            for (t, (g, w)) in g.iter().zip(w).enumerate() {
                same!(g.0, w.0 as usize, "wire of constraint {} matrix {} term {}", i, m, t);
                let r: [u8; 32] = g.1.to_repr().into();
                same!(be(&r), le(&w.1 .0), "coefficient of constraint {} matrix {} term {}", i, m, t);
            }
        }
    }
    Ok(())
}
fn read_equals(bytes: &[u8], s: &Sys) -> R {
    let f = match from_reader::<G1, _>(Cursor::new(bytes)) {
        Ok(f) => f,
        Err(e) => return Err(format!("refused: {}", e)),
    };
    equals(&f, s)
}
fn equals(f: &circuit_reader_int::circom_reader::R1CSFile<<G1 as secq256k1::affine::Group>::Scalar>, s: &Sys) -> R {
    let h = &f.header;
    same!(f.version, 1, "version");
    same!(h.field_size, 32, "field size");
    same!(h.prime_size, to_le(&P).to_vec(), "prime");
    same!(h.n_wires, s.wires, "wires");
    same!(h.n_pub_out, s.pub_out, "public outputs");
    same!(h.n_pub_in, s.pub_in, "public inputs");
    same!(h.n_prv_in, s.prv_in, "private inputs");
    same!(h.n_labels, s.labels, "labels");
    same!(h.n_constraints as usize, s.cons.len(), "constraint count");
    same_cons(&f.constraints, s)?;
    same!(f.wire_mapping, s.map, "wire map");
    Ok(())
}

/// Damage that a reader must refuse.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Bad {
    Magic(usize, u8),
    Version(u32),
    FieldSize(u32),
    Prime(usize, u8),
    PrimeOf(u32),
    HeaderSize(i64),
    MapShort(u32),
    MapLong(u32),
    Map0(u64),
    NoSection(usize),
}
fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![
        2 => (0usize..4, 1u8..).prop_map(|(i, x)| Bad::Magic(i, x)),
        2 => prop_oneof![Just(0u32), Just(2), Just(257), 2u32..].prop_map(Bad::Version),
        1 => prop_oneof![Just(31u32), Just(8), Just(40), Just(64), Just(33), 0u32..32, 33u32..100].prop_map(Bad::FieldSize),
        2 => (0usize..32, 1u8..).prop_map(|(i, x)| Bad::Prime(i, x)),
        1 => (0u32..4).prop_map(Bad::PrimeOf),
        1 => prop_oneof![Just(-1i64), Just(1), Just(8), Just(-8), Just(32)].prop_map(Bad::HeaderSize),
        1 => (1u32..4).prop_map(Bad::MapShort),
        1 => (1u32..4).prop_map(Bad::MapLong),
        1 => (1u64..).prop_map(Bad::Map0),
        1 => (0usize..3).prop_map(Bad::NoSection),
    ]
}
fn prime_of(k: u32) -> [u8; 32] {
    match k {
        0 => to_le(&N),
        1 => to_le(&hex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001")), // bn128
        2 => to_be(&P),
        _ => to_le(&subb(&P, &u(2)).0),
    }
}
fn damage(s: &Sys, l: &Layout, b: &Bad) -> Option<Vec<u8>> {
    let mut s = s.clone();
    let mut prime = to_le(&P).to_vec();
    match b {
        Bad::FieldSize(n) => prime.resize(*n as usize, 0),
        Bad::Prime(i, x) => prime[*i] ^= x,
        Bad::PrimeOf(k) => prime = prime_of(*k).to_vec(),
        Bad::MapShort(k) => {
            if s.map.len() <= *k as usize {
                return None;
            }
            s.map.truncate(s.map.len() - *k as usize)
        }
        Bad::MapLong(k) => s.map.extend(std::iter::repeat(7).take(*k as usize)),
        Bad::Map0(x) => s.map[0] = *x,
        _ => {}
    }
    let mut secs = vec![(1, header_section(&s, &prime)), (2, constraint_section(&s)), (3, map_section(&s))];
    if let Bad::HeaderSize(d) = b {
        let n = (secs[0].1.len() as i64 + d) as usize;
        secs[0].1.resize(n, 0);
    }
    if let Bad::NoSection(k) = b {
        secs.remove(*k);
    }
    secs.extend(l.extra.iter().cloned());
    let mut f = file(secs, &l.order);
    match b {
        Bad::Magic(i, x) => f[*i] ^= x,
        Bad::Version(v) => f[4..8].copy_from_slice(&v.to_le_bytes()),
        _ => {}
    }
    Some(f)
}

fn main() {
    let mut c = Check::new("C09", "a case is a distinct file (systems with at least one coefficient, or a damaged file); files without any term are trivial");
    c.assume("the file writer in common/r1csfile.rs follows the iden3 r1cs format description");
    c.sub("exact", 12000, 400000, 8, || (sys(), layout()), |(s, l): &(Sys, Layout), o: &mut Obs| {
        if s.cons.iter().all(|c| c.iter().all(|l| l.is_empty())) {
            o.trivial();
        }
        if !l.extra.is_empty() {
            o.class("unknown sections");
        }
        let bytes = r1cs(s, l);
        if bytes[12..16] != 1u32.to_le_bytes() {
            o.class("header not first");
        }
        read_equals(&bytes, s)
    });
    c.sub("counts", 3000, 60000, 8, || (sys(), layout()), |(s, l): &(Sys, Layout), _o: &mut Obs| {
        let (r, map) = load_r1cs_from_bin::<G1, _>(Cursor::new(r1cs(s, l)));
        same!(r.num_inputs, (1 + s.pub_in + s.pub_out) as usize, "num_inputs");
        same!(r.num_variables, s.wires as usize, "num_variables");
        same!(r.num_aux, (s.wires - 1 - s.pub_in - s.pub_out) as usize, "num_aux");
        same!(map, s.map.iter().map(|x| *x as usize).collect::<Vec<_>>(), "wire map");
        same_cons(&r.constraints, s)
    });
    let dir = std::env::temp_dir().join(format!("c09-{}", std::process::id()));
    let dir2 = dir.clone();
    std::fs::create_dir_all(&dir).unwrap();
    c.sub("from_disk", 200, 2000, 4, || (sys(), layout()), move |(s, l): &(Sys, Layout), _o: &mut Obs| {
        // larger than one buffered read, so that seeking over sections crosses buffers
        let mut l = l.clone();
        l.extra.push((1000, std::iter::repeat(0x5a).take(20000).collect()));
        let p = dir.join(format!("{:?}.r1cs", std::thread::current().id()));
        std::fs::write(&p, r1cs(s, &l)).unwrap();
        let (r, _) = load_r1cs_from_bin_file::<G1>(&p);
        same!(r.num_variables, s.wires as usize, "num_variables");
        same_cons(&r.constraints, s)
    });
    c.sub("long_sections", 1500, 20000, 8, || (sys(), layout(), vec((any::<u8>(), 0u64..5000), 1..4)), |(s, l, more): &(Sys, Layout, Vec<(u8, u64)>), o: &mut Obs| {
        // unknown sections of 2 GiB, 4 GiB and more, before and between the others
        let mut l = l.clone();
        let mut holes = vec![];
        for (i, (k, d)) in more.iter().enumerate() {
            let t = 300 + i as u32;
            l.extra.push((t, vec![7; *d as usize % 9]));
            let base: u64 = [0, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 3 << 31, 1 << 52, 1 << 16][*k as usize % 8];
            holes.push((t, if *k & 8 == 0 { base + d } else { base.saturating_sub(*d) }));
        }
        o.class(if holes.iter().any(|h| h.1 >= 1 << 31) { "a section of 2 GiB or more" } else { "short" });
        match from_reader::<G1, _>(sparse(sections(s, &l), &l.order, &holes)) {
            Ok(f) => equals(&f, s),
            Err(e) => Err(format!("refused: {}", e)),
        }
    });
    c.sub("many", 12, 64, 4, || (any::<u64>(), 65000u32..67000, 0u8..3, layout()), |(seed, n, what, l): &(u64, u32, u8, Layout), o: &mut Obs| {
        // more wires, constraints or terms than 16 bits count
        let v = stretch(*seed, *n as usize);
        let term = |x: u64| ((x % *n as u64) as u32, B32(to_le(&[x, x.rotate_left(9), !x, x >> 3])));
        let cons = match what {
            0 => vec![],
            1 => v.iter().map(|x| [vec![term(*x)], vec![], if x & 1 == 0 { vec![term(!x)] } else { vec![] }]).collect(),
            _ => vec![[v.iter().map(|x| term(*x)).collect(), vec![], v.iter().map(|x| term(!x)).collect()]],
        };
        o.class(["wires", "constraints", "terms of a constraint"][*what as usize]);
        let mut map: Vec<u64> = v.clone();
        map[0] = 0;
        let s = Sys { wires: *n, pub_out: v[1] as u32 % (*n / 2), pub_in: v[2] as u32 % (*n / 2), prv_in: 3, labels: v[3], cons, map };
        read_equals(&r1cs(&s, l), &s)
    });
    c.sub("refused", 8000, 200000, 8, || (sys(), layout(), bad()), |(s, l, b): &(Sys, Layout, Bad), o: &mut Obs| {
        let f = match damage(s, l, b) {
            Some(f) => f,
            None => {
                o.trivial();
                return Ok(());
            }
        };
        match no_panic(|| from_reader::<G1, _>(Cursor::new(&f)).is_ok()) {
            Ok(true) => Err(format!("a file with {:?} was accepted", b)),
            Ok(false) => {
                o.class("error");
                Ok(())
            }
            Err(_) => {
                o.class("abort");
                Ok(())
            }
        }
    });
    c.sub("truncated", 6000, 150000, 8, || (sys(), layout(), any::<u32>(), any::<bool>()), |(s, l, cut, near): &(Sys, Layout, u32, bool), o: &mut Obs| {
        let f = r1cs(s, l);
        let keep = if *near { f.len() - 1 - (*cut as usize % f.len().min(40)) } else { *cut as usize % f.len() };
        match no_panic(|| from_reader::<G1, _>(Cursor::new(&f[..keep])).ok()) {
            Ok(Some(r)) => {
                // only the tail of an unread section may be missing
                o.class("read in full");
                equals(&r, s).map_err(|e| format!("truncated to {} of {} bytes, accepted with wrong content: {}", keep, f.len(), e))
            }
            _ => Ok(()),
        }
    });
    c.sub("noncanonical", 2000, 40000, 4, || (sys(), layout(), 0u64..(1u64 << 32) + 977, any::<u32>(), 0usize..3), |(s, l, d, at, m): &(Sys, Layout, u64, u32, usize), o: &mut Obs| {
        // a coefficient of p + d: an error, or the value it denotes, but nothing else
        if s.cons.is_empty() {
            o.trivial();
            return Ok(());
        }
        let mut raw = s.clone();
        let mut red = s.clone();
        let k = *at as usize % s.cons.len();
        raw.cons[k][*m].push((1, B32(to_le(&addc(&P, &u(*d)).0))));
        red.cons[k][*m].push((1, B32(to_le(&u(*d)))));
        match no_panic(|| from_reader::<G1, _>(Cursor::new(r1cs(&raw, l))).ok()) {
            Ok(Some(r)) => same_cons(&r.constraints, &red),
            _ => {
                o.class("refused");
                Ok(())
            }
        }
    });
    c.at_exit(move || {
        let _ = std::fs::remove_dir_all(&dir2);
    });
    c.finish()
}
