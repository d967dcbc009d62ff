//! Shake256 as a random oracle: the output is an unpredictable function of all input and of the position read
pub use digest::{ExtendableOutput, Input, XofReader};
#[derive(Default, Clone)]
pub struct Shake256 {
    data: Vec<u8>,
}
impl Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        self.data.extend_from_slice(data.as_ref());
    }
}
pub struct Sha3XofReader {
    data: Vec<u8>,
    pos: u64,
}
impl ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(self) -> Sha3XofReader {
        Sha3XofReader { data: self.data, pos: 0 }
    }
}
impl XofReader for Sha3XofReader {
    fn read(&mut self, buffer: &mut [u8]) {
        for b in buffer.iter_mut() {
            let mut h = 0xcbf29ce484222325u64 ^ (self.pos / 8).wrapping_mul(0x9e3779b97f4a7c15);
            for &x in &self.data {
                h ^= x as u64;
                h = h.wrapping_mul(0x100000001b3).rotate_left(17);
            }
            h ^= h >> 31;
            h = h.wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 33;
            *b = (h >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        XofReader::read(self, buf);
        Ok(buf.len())
    }
}
