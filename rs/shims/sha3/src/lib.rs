//! Stand-in for sha3 0.8's Shake256.
pub use digest;
use keccak1600::Sponge;
#[derive(Clone)]
pub struct Shake256(Sponge);
impl Default for Shake256 {
    fn default() -> Self {
        Shake256(Sponge::new(136, 0x1f))
    }
}
impl digest::Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        self.0.absorb(data.as_ref())
    }
}
pub struct Sha3XofReader(Sponge);
impl digest::XofReader for Sha3XofReader {
    fn read(&mut self, b: &mut [u8]) {
        self.0.squeeze(b)
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.squeeze(b);
        Ok(b.len())
    }
}
impl digest::ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(self) -> Sha3XofReader {
        Sha3XofReader(self.0)
    }
}
