//! Merlin transcript as a random oracle: a challenge is a fresh variable named by everything absorbed before it
#[derive(Clone)]
pub struct Transcript {
    hist: Vec<u8>,
    pub id: usize,
    pub n_msg: usize,
}
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn h(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript {
            hist: vec![],
            id: NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst),
            n_msg: 0,
        };
        symcore::log(format!("TNEW {} {}", t.id, String::from_utf8_lossy(label)));
        t.absorb(b"dom-sep", label);
        t
    }
    fn absorb(&mut self, label: &[u8], msg: &[u8]) {
        self.hist.extend_from_slice(&(label.len() as u32).to_le_bytes());
        self.hist.extend_from_slice(label);
        self.hist.extend_from_slice(&(msg.len() as u32).to_le_bytes());
        self.hist.extend_from_slice(msg);
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        symcore::log(format!("TMSG {} {} {}", self.id, String::from_utf8_lossy(label).replace(' ', "_"), h(message)));
        symcore::tlog(self.id, symcore::TEv::Msg(String::from_utf8_lossy(label).to_string(), message.to_vec()));
        self.absorb(label, message);
        self.n_msg += 1;
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let mut key = self.hist.clone();
        key.extend_from_slice(label);
        key.extend_from_slice(&(dest.len() as u32).to_le_bytes());
        let c = symcore::oracle("ch", &key);
        symcore::log(format!("TCHAL {} {} {}", self.id, String::from_utf8_lossy(label).replace(' ', "_"), c.0));
        symcore::tlog(self.id, symcore::TEv::Chal(c.0));
        for b in dest.iter_mut() {
            *b = 0;
        }
        let v = symcore::to_le(&symcore::val(c));
        let n = dest.len().min(32);
        dest[..n].copy_from_slice(&v[..n]);
        self.absorb(b"challenge", label);
    }
}
