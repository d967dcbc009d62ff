//! stand-in for the two traits of digest 0.8 that are used
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
    fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self
    where
        Self: Sized,
    {
        self.input(data);
        self
    }
}
pub trait ExtendableOutput {
    type Reader: XofReader;
    fn xof_result(self) -> Self::Reader;
}
pub trait XofReader {
    fn read(&mut self, buffer: &mut [u8]);
}
