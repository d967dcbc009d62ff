//! Stand-in for the proof system: `Instance::new` records what it is given.
use serde::{Deserialize, Serialize};
pub type Entry = (usize, usize, [u8; 32]);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Instance {
    pub inst: Shape,
    #[serde(skip)]
    pub m: [Vec<Entry>; 3],
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub num_cons: usize,
    pub num_vars: usize,
    pub num_inputs: usize,
}
impl Shape {
    pub fn get_num_cons(&self) -> usize {
        self.num_cons
    }
    pub fn get_num_vars(&self) -> usize {
        self.num_vars
    }
    pub fn get_num_inputs(&self) -> usize {
        self.num_inputs
    }
}
#[derive(Clone, Debug)]
pub struct R1CSError;
impl Instance {
    pub fn new(num_cons: usize, num_vars: usize, num_inputs: usize, a: &[Entry], b: &[Entry], c: &[Entry]) -> Result<Instance, R1CSError> {
        Ok(Instance { inst: Shape { num_cons, num_vars, num_inputs }, m: [a.to_vec(), b.to_vec(), c.to_vec()] })
    }
}
/// everything the proof system is handed, in order, as words
pub static mut LOG: Vec<u64> = Vec::new();
pub static mut VERDICT: bool = false;
pub const PROOF: u64 = 0x70726f6f66;
#[allow(static_mut_refs)]
pub fn log(w: u64) {
    unsafe { LOG.push(w) }
}
fn log_bytes(b: &[u8; 32]) {
    for i in 0..4 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        log(u64::from_le_bytes(w));
    }
}
fn log_shape(c: &Instance) {
    log(c.inst.num_cons as u64);
    log(c.inst.num_vars as u64);
    log(c.inst.num_inputs as u64);
}
#[derive(Clone, Debug)]
pub struct Assignment(Vec<[u8; 32]>);
impl Assignment {
    pub fn new(v: &[[u8; 32]]) -> Result<Assignment, R1CSError> {
        for b in v {
            if !secq256k1::canonical(b) {
                return Err(R1CSError);
            }
        }
        Ok(Assignment(v.to_vec()))
    }
    fn log(&self) {
        log(self.0.len() as u64);
        for b in &self.0 {
            log_bytes(b);
        }
    }
}
pub struct NIZKGens([usize; 3]);
impl NIZKGens {
    pub fn new(a: usize, b: usize, c: usize) -> NIZKGens {
        NIZKGens([a, b, c])
    }
    fn log(&self) {
        for x in self.0 {
            log(x as u64);
        }
    }
}
fn log_transcript(t: &merlin::Transcript) {
    log(t.0.len() as u64);
    for b in t.0 {
        log(*b as u64);
    }
}
#[derive(Serialize, Deserialize)]
pub struct NIZK(pub u64);
impl NIZK {
    pub fn prove(c: &Instance, v: Assignment, i: &Assignment, g: &NIZKGens, t: &mut merlin::Transcript) -> NIZK {
        log(1);
        log_transcript(t);
        log_shape(c);
        g.log();
        i.log();
        v.log();
        NIZK(PROOF)
    }
    pub fn verify(&self, c: &Instance, i: &Assignment, t: &mut merlin::Transcript, g: &NIZKGens) -> Result<(), R1CSError> {
        log(2);
        log_transcript(t);
        log_shape(c);
        g.log();
        i.log();
        log(self.0);
        if unsafe { VERDICT } {
            Ok(())
        } else {
            Err(R1CSError)
        }
    }
}
