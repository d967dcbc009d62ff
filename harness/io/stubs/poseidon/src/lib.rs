pub mod poseidon_k256 {
    #[derive(Clone, Copy)]
    pub struct FieldElement(pub [u8; 32]);
    pub static mut SEEN: [[u8; 32]; 2] = [[0; 32]; 2];
    pub static mut CALLS: u64 = 0;
    pub static mut RESULT: [u8; 32] = [0; 32];
    impl FieldElement {
        pub fn from_bytes(b: &[u8; 32]) -> Option<FieldElement> {
            if secq256k1::canonical(b) {
                Some(FieldElement(*b))
            } else {
                None
            }
        }
        pub fn from_str_vartime(_: &str) -> Option<FieldElement> {
            None
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }
    pub fn hash<const N: usize>(x: &[FieldElement; N]) -> FieldElement {
        unsafe {
            CALLS += 1;
            for i in 0..N {
                if i < 2 {
                    SEEN[i] = x[i].0;
                }
            }
            FieldElement(RESULT)
        }
    }
}
