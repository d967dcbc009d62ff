use symfe::Fe;

fn main() {
    let a = Fe::var("in0");
    let b = Fe::var("in1");
    poseidon::poseidon_k256::hash(&[a, b]).out("hash");
    // a second hash must not depend on the first
    poseidon::poseidon_k256::hash(&[a, b]).out("again");
    symfe::dump();
}
