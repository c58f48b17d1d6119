//! Stand-in for the part of digest 0.8 that /repo uses.
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
    fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self
    where
        Self: Sized,
    {
        self.input(data);
        self
    }
}
pub trait XofReader {
    fn read(&mut self, buffer: &mut [u8]);
}
pub trait ExtendableOutput: Sized {
    type Reader: XofReader;
    fn xof_result(self) -> Self::Reader;
    fn vec_result(self, n: usize) -> Vec<u8> {
        let mut buf = vec![0u8; n];
        self.xof_result().read(&mut buf);
        buf
    }
}
