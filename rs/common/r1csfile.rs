// A constraint system and its .r1cs / .wtns encodings, written from the iden3 format descriptions.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Sys {
    pub wires: u32,
    pub pub_out: u32,
    pub pub_in: u32,
    pub prv_in: u32,
    pub labels: u64,
    pub cons: Vec<[Vec<(u32, vk::B32)>; 3]>,
    pub map: Vec<u64>,
}
/// How the file is laid out: extra sections of unknown type, and the order of all sections.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Layout {
    pub extra: Vec<(u32, Vec<u8>)>,
    pub order: Vec<u32>,
}
pub fn header_section(s: &Sys, prime: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend((prime.len() as u32).to_le_bytes());
    o.extend(prime);
    for x in [s.wires, s.pub_out, s.pub_in, s.prv_in] {
        o.extend(x.to_le_bytes());
    }
    o.extend(s.labels.to_le_bytes());
    o.extend((s.cons.len() as u32).to_le_bytes());
    o
}
pub fn constraint_section(s: &Sys) -> Vec<u8> {
    let mut o = vec![];
    for c in &s.cons {
        for l in c {
            o.extend((l.len() as u32).to_le_bytes());
            for (w, k) in l {
                o.extend(w.to_le_bytes());
                o.extend(k.0);
            }
        }
    }
    o
}
pub fn map_section(s: &Sys) -> Vec<u8> {
    s.map.iter().flat_map(|m| m.to_le_bytes()).collect()
}
/// The file, with the sections in the layout's order.
pub fn file(secs: Vec<(u32, Vec<u8>)>, order: &[u32]) -> Vec<u8> {
    let mut secs: Vec<(u64, (u32, Vec<u8>))> =
        secs.into_iter().enumerate().map(|(i, s)| (*order.get(i).unwrap_or(&0) as u64 * 64 + i as u64, s)).collect();
    secs.sort_by_key(|s| s.0);
    let mut o = b"r1cs".to_vec();
    o.extend(1u32.to_le_bytes());
    o.extend((secs.len() as u32).to_le_bytes());
    for (_, (t, b)) in secs {
        o.extend(t.to_le_bytes());
        o.extend((b.len() as u64).to_le_bytes());
        o.extend(b);
    }
    o
}
pub fn sections(s: &Sys, l: &Layout) -> Vec<(u32, Vec<u8>)> {
    let mut v = vec![
        (1, header_section(s, &refm::to_le(&refm::P))),
        (2, constraint_section(s)),
        (3, map_section(s)),
    ];
    v.extend(l.extra.iter().cloned());
    v
}
pub fn r1cs(s: &Sys, l: &Layout) -> Vec<u8> {
    file(sections(s, l), &l.order)
}
pub fn wtns(vals: &[vk::B32]) -> Vec<u8> {
    let mut o = b"wtns".to_vec();
    for x in [2u32, 2, 1] {
        o.extend(x.to_le_bytes());
    }
    o.extend(40u64.to_le_bytes());
    o.extend(32u32.to_le_bytes());
    o.extend(refm::to_le(&refm::P));
    o.extend((vals.len() as u32).to_le_bytes());
    o.extend(2u32.to_le_bytes());
    o.extend((vals.len() as u64 * 32).to_le_bytes());
    for v in vals {
        o.extend(v.0);
    }
    o
}
pub fn layout() -> impl proptest::strategy::Strategy<Value = Layout> {
    use proptest::prelude::*;
    (
        proptest::collection::vec((4u32..200, proptest::collection::vec(any::<u8>(), 0..80)), 0..4),
        prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(0u32..8, 7)],
    )
        .prop_map(|(mut extra, order)| {
            // real files carry at most one section of each type
            extra.sort_by_key(|e| e.0);
            extra.dedup_by_key(|e| e.0);
            Layout { extra, order }
        })
}
/// Evaluates a linear combination over `z`.
pub fn dot(l: &[(u32, vk::B32)], z: &[refm::U]) -> refm::U {
    let f = &refm::FP;
    l.iter().fold([0; 4], |a, (w, k)| f.add(&a, &f.mul(&refm::le(&k.0), &z[*w as usize])))
}
pub fn holds(s: &Sys, z: &[refm::U]) -> bool {
    let f = &refm::FP;
    s.cons.iter().all(|c| f.mul(&dot(&c[0], z), &dot(&c[1], z)) == dot(&c[2], z))
}

/// A reader over bytes with long runs of zero bytes in between, as in a sparse file.
pub struct Sparse {
    /// (position, bytes), in order
    segs: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}
impl Sparse {
    pub fn new() -> Sparse {
        Sparse { segs: vec![], len: 0, pos: 0 }
    }
    pub fn put(&mut self, b: &[u8]) {
        self.segs.push((self.len, b.to_vec()));
        self.len += b.len() as u64;
    }
    pub fn hole(&mut self, n: u64) {
        self.len += n;
    }
}
impl std::io::Read for Sparse {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.len || out.is_empty() {
            return Ok(0);
        }
        let n = match self.segs.iter().find(|(at, b)| self.pos < at + b.len() as u64) {
            Some((at, b)) if *at <= self.pos => {
                let k = (self.pos - at) as usize;
                let n = out.len().min(b.len() - k);
                out[..n].copy_from_slice(&b[k..k + n]);
                n
            }
            next => {
                let end = next.map(|(at, _)| *at).unwrap_or(self.len);
                let n = (out.len() as u64).min(end - self.pos) as usize;
                out[..n].fill(0);
                n
            }
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let p = match to {
            Start(p) => p as i128,
            Current(d) => self.pos as i128 + d as i128,
            End(d) => self.len as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
/// The file, with some unknown sections made longer by that many zero bytes.
pub fn sparse(secs: Vec<(u32, Vec<u8>)>, order: &[u32], more: &[(u32, u64)]) -> Sparse {
    let mut secs: Vec<(u64, (u32, Vec<u8>))> =
        secs.into_iter().enumerate().map(|(i, s)| (*order.get(i).unwrap_or(&0) as u64 * 64 + i as u64, s)).collect();
    secs.sort_by_key(|s| s.0);
    let mut o = Sparse::new();
    o.put(b"r1cs");
    o.put(&1u32.to_le_bytes());
    o.put(&(secs.len() as u32).to_le_bytes());
    for (_, (t, b)) in secs {
        let hole = more.iter().find(|m| m.0 == t).map(|m| m.1).unwrap_or(0);
        o.put(&t.to_le_bytes());
        o.put(&(b.len() as u64 + hole).to_le_bytes());
        o.put(&b);
        o.hole(hole);
    }
    o
}
/// Many values from a seed, for files with more entries than 16 bits count.
pub fn stretch(seed: u64, n: usize) -> Vec<u64> {
    let mut x = seed | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        })
        .collect()
}
