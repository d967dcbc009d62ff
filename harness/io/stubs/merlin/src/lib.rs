pub struct Transcript(pub &'static [u8]);
impl Transcript {
    pub fn new(l: &'static [u8]) -> Transcript {
        Transcript(l)
    }
}
