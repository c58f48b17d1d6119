//! C02: encodings of the proof system's scalar.
use spartan_int::scalar::{Scalar, ScalarBytes, ScalarBytesFromScalar};
use subtle::CtOption;
use vk::*;
use proptest::prelude::*;
use refm::*;
#[path = "../../../../common/encoding.rs"]
#[macro_use]
mod encoding;

fn main() {
    let mut c = Check::new(
        "C02",
        "32- and 64-byte strings with weight on limb patterns and on the neighbourhoods of 0, p and 2^256; distinct strings \
         count as non-trivial",
    );
    c.scale = 20;
    encoding_suite!(c, Scalar, FP);
    let m = to_le(&FP.m);
    c.sub("to_curve_scalar", 20_000, 500_000, 8, move || prop::collection::vec(gen::elem(m), 0..6), move |v: &Vec<B32>, o: &mut Obs| {
        if v.is_empty() {
            o.class("empty")
        }
        let xs: Vec<Scalar> = v.iter().map(|b| Scalar::from_bytes(&b.0).unwrap()).collect();
        for (x, b) in xs.iter().zip(v) {
            let s: ScalarBytes = Scalar::decompress_scalar(x);
            same!(s.to_bytes(), b.0, "curve scalar of {:?}", b);
        }
        let w = Scalar::decompress_vector(&xs);
        same!(w.len(), v.len(), "length");
        for (s, b) in w.iter().zip(v) {
            same!(s.to_bytes(), b.0, "curve scalar of {:?} in a vector", b);
        }
        Ok(())
    });
    c.sub("random", 300, 20_000, 8, || any::<u64>(), |seed, _| {
        struct Rng(u64, Vec<u64>);
        impl rand_core::RngCore for Rng {
            fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
            fn next_u64(&mut self) -> u64 {
                self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = self.0;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                let z = z ^ (z >> 31);
                self.1.push(z);
                z
            }
            fn fill_bytes(&mut self, d: &mut [u8]) {
                for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]) }
            }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
        }
        impl rand_core::CryptoRng for Rng {}
        let mut r = Rng(*seed, vec![]);
        let a = Scalar::random(&mut r);
        let b = Scalar::random(&mut r);
        ensure!(refm::lt(&le(&a.to_bytes()), &P), "sampled value is not canonical");
        ensure!(a != b, "two samples from a running generator are equal");
        ensure!(r.1.len() >= 8, "two samples consumed only {} words of entropy", r.1.len());
        Ok(())
    });
    c.finish()
}
