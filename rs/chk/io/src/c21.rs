//! C21: the witness file parser.
use ff::PrimeField;
use proptest::collection::vec;
use proptest::prelude::*;
use refm::*;
use spartan_wasm::wasm::{load_witness_from_bin_reader, F1};
use std::io::Read;
use vk::*;
include!("../../../common/r1csfile.rs");

/// A reader that hands out at most `step` bytes at a time.
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn vals() -> impl Strategy<Value = Vec<B32>> {
    let e = gen::elem(to_le(&P));
    prop_oneof![8 => vec(e.clone(), 0..12), 1 => vec(e, 0..80)]
}
fn parse(b: &[u8], step: usize) -> Result<Option<Vec<U>>, String> {
    no_panic(|| {
        let r = if step == 0 { load_witness_from_bin_reader::<F1, _>(b) } else { load_witness_from_bin_reader::<F1, _>(Slow(b, step)) };
        r.ok().map(|v| {
            v.iter()
                .map(|x| {
                    let r: [u8; 32] = x.to_repr().into();
                    be(&r)
                })
                .collect()
        })
    })
}
fn want(v: &[B32]) -> Vec<U> {
    v.iter().map(|b| le(&b.0)).collect()
}
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
enum Bad {
    Magic(usize, u8),
    Version(u32),
    Sections(u32),
    Type1(u32),
    Size1(u64),
    FieldSize(u32),
    Prime(usize, u8),
    PrimeOf(u32),
    Type2(u32),
    Size2(u64),
    Len(u32),
}
fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![
        (0usize..4, 1u8..).prop_map(|(i, x)| Bad::Magic(i, x)),
        prop_oneof![Just(3u32), 3u32..].prop_map(Bad::Version),
        prop_oneof![Just(0u32), Just(1), Just(3), 3u32..].prop_map(Bad::Sections),
        prop_oneof![Just(0u32), Just(2), 2u32..].prop_map(Bad::Type1),
        prop_oneof![Just(0u64), Just(39), Just(41), Just(40 + (1 << 32)), 41u64..].prop_map(Bad::Size1),
        prop_oneof![Just(0u32), Just(8), Just(31), Just(33), Just(64), Just(32 + 65536)].prop_map(Bad::FieldSize),
        (0usize..32, 1u8..).prop_map(|(i, x)| Bad::Prime(i, x)),
        (0u32..4).prop_map(Bad::PrimeOf),
        prop_oneof![Just(0u32), Just(1), Just(3), 3u32..].prop_map(Bad::Type2),
        prop_oneof![Just(32u64), Just(1), Just(31), Just(1 << 32), Just(1 << 63), 1u64..].prop_map(Bad::Size2),
        (1u32..5).prop_map(Bad::Len),
    ]
}
fn damage(v: &[B32], b: &Bad) -> Vec<u8> {
    let mut f = wtns(v);
    let mut put = |at: usize, x: &[u8]| f[at..at + x.len()].copy_from_slice(x);
    let n = v.len() as u64;
    match b {
        Bad::Magic(i, x) => f[*i] ^= x,
        Bad::Version(x) => put(4, &x.to_le_bytes()),
        Bad::Sections(x) => put(8, &x.to_le_bytes()),
        Bad::Type1(x) => put(12, &x.to_le_bytes()),
        Bad::Size1(x) => put(16, &x.to_le_bytes()),
        Bad::FieldSize(x) => put(24, &x.to_le_bytes()),
        Bad::Prime(i, x) => f[28 + *i] ^= x,
        Bad::PrimeOf(k) => put(
            28,
            &match k {
                0 => to_le(&N),
                1 => to_le(&hex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001")),
                2 => to_be(&P),
                _ => to_le(&subb(&P, &u(2)).0),
            },
        ),
        Bad::Type2(x) => put(64, &x.to_le_bytes()),
        Bad::Size2(d) => put(68, &(n * 32).wrapping_add(*d).to_le_bytes()),
        // the count disagrees with the section size
        Bad::Len(d) => put(60, &(n as u32 + d).to_le_bytes()),
    }
    f
}
fn main() {
    let mut c = Check::new("C21", "a case is a distinct witness file; files of an empty witness are trivial");
    c.assume("the file writer in common/r1csfile.rs follows the iden3 wtns format description");
    c.sub("exact", 40000, 900000, 8, || (vals(), 0usize..40, 1u32..3), |(v, step, ver): &(Vec<B32>, usize, u32), o: &mut Obs| {
        if v.is_empty() {
            o.trivial();
        }
        let mut f = wtns(v);
        f[4..8].copy_from_slice(&ver.to_le_bytes());
        match parse(&f, *step)? {
            Some(got) => {
                same!(got, want(v), "witness");
                Ok(())
            }
            None => Err("a well-formed file was refused".into()),
        }
    });
    c.sub("many", 8, 64, 4, || (any::<u64>(), 65000usize..67000, 0usize..5000), |(seed, n, step): &(u64, usize, usize), _o: &mut Obs| {
        // more values than 16 bits count
        let v: Vec<B32> = stretch(*seed, *n).iter().map(|x| B32(to_le(&[*x, x.rotate_left(9), !x, x >> 3]))).collect();
        match parse(&wtns(&v), *step)? {
            Some(got) => {
                ensure!(got == want(&v), "{} values read differ", n);
                Ok(())
            }
            None => Err("a well-formed file was refused".into()),
        }
    });
    c.sub("refused", 12000, 300000, 8, || (vals(), bad()), |(v, b): &(Vec<B32>, Bad), o: &mut Obs| {
        o.class(if v.is_empty() { "empty witness" } else { "some values" });
        match parse(&damage(v, b), 0) {
            Ok(Some(w)) => Err(format!("a file with {:?} was accepted as {} values", b, w.len())),
            _ => Ok(()),
        }
    });
    c.sub("truncated", 12000, 300000, 8, || (vals(), any::<u32>()), |(v, cut): &(Vec<B32>, u32), _o: &mut Obs| {
        let f = wtns(v);
        let keep = *cut as usize % f.len();
        match parse(&f[..keep], 0) {
            Ok(Some(_)) => Err(format!("a file cut to {} of {} bytes was accepted", keep, f.len())),
            _ => Ok(()),
        }
    });
    c.sub("noncanonical", 3000, 60000, 4, || (vals(), 0u64..(1u64 << 32) + 977, any::<u32>()), |(v, d, at): &(Vec<B32>, u64, u32), o: &mut Obs| {
        if v.is_empty() {
            o.trivial();
            return Ok(());
        }
        let k = *at as usize % v.len();
        let (mut raw, mut red) = (v.clone(), v.clone());
        raw[k] = B32(to_le(&addc(&P, &u(*d)).0));
        red[k] = B32(to_le(&u(*d)));
        match parse(&wtns(&raw), 0) {
            Ok(Some(w)) => {
                same!(w, want(&red), "a value of p + {} was read as something else", d);
                Ok(())
            }
            _ => {
                o.class("refused");
                Ok(())
            }
        }
    });
    c.finish()
}
