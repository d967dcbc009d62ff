//! Harness: uniform entry points (words in, words out) over the binary-format readers of /repo.
#![allow(clippy::all, unused)]
#[path = "../gen/reader/lib.rs"]
pub mod reader;
#[path = "../gen/wasm.rs"]
pub mod wasm;
#[path = "../gen/math.rs"]
pub mod math;
use math::Math;
use reader::verif::{data, Out};
use secq256k1::Scalar;

type H = unsafe extern "C" fn(*const u64, *mut u64);
macro_rules! harness {
    ($($name:ident |$i:ident, $o:ident| $body:block)*) => {
        $(#[no_mangle] pub unsafe extern "C" fn $name($i: *const u64, $o: *mut u64) $body)*
        static TABLE: &[(&str, H)] = &[$((stringify!($name), $name)),*];
    };
}
harness! {
    h_parse |i, o| { reader::verif::parse(i, o) }
    h_parse_gap |i, o| { reader::verif::parse_gap(i, o) }
    h_load |i, o| { reader::verif::load(i, o) }
    h_convert |i, o| { reader::verif::convert(i, o) }
    h_wtns |i, o| {
        let mut o = Out(o, 0);
        match wasm::load_witness_from_bin_reader::<Scalar, _>(std::io::Cursor::new(data(i))) {
            Err(_) => o.w(2),
            Ok(v) => {
                o.w(1);
                o.w(v.len() as u64);
                for x in &v {
                    o.b(&x.0);
                }
            }
        }
    }
    g_prove |i, o| {
        // num_cons, num_vars, num_inputs, public input bytes (as words), witness values (as words)
        let shape = [*i as usize, *i.add(1) as usize, *i.add(2) as usize];
        let npub = *i.add(3) as usize;
        let nwit = *i.add(4) as usize;
        let pubs = bytes_of(i.add(5), 4 * npub);
        let vals = bytes_of(i.add(5 + 4 * npub), 4 * nwit);
        let mut w: Vec<u8> = b"wtns".to_vec();
        for x in [2u32, 2, 1] { w.extend_from_slice(&x.to_le_bytes()); }
        w.extend_from_slice(&40u64.to_le_bytes());
        w.extend_from_slice(&32u32.to_le_bytes());
        for x in secq256k1::PRIME { w.extend_from_slice(&x.to_le_bytes()); }
        w.extend_from_slice(&(nwit as u32).to_le_bytes());
        w.extend_from_slice(&2u32.to_le_bytes());
        w.extend_from_slice(&(32 * nwit as u64).to_le_bytes());
        w.extend_from_slice(&vals);
        let circ = circuit(shape);
        let r = wasm::prove(&circ, &w, &pubs);
        let mut o = Out(o, 0);
        match r {
            Err(_) => o.w(2),
            Ok(p) => {
                o.w(1);
                o.w(p.len() as u64);
                for b in &p { o.w(*b as u64); }
            }
        }
        logged(&mut o);
    }
    g_verify |i, o| {
        let shape = [*i as usize, *i.add(1) as usize, *i.add(2) as usize];
        let npub = *i.add(3) as usize;
        libspartan::VERDICT = *i.add(4) & 1 == 1;
        let proof = (*i.add(5)).to_le_bytes();
        let pubs = bytes_of(i.add(6), 4 * npub);
        let circ = circuit(shape);
        let r = wasm::verify(&circ, &proof, &pubs);
        let mut o = Out(o, 0);
        match r {
            Err(_) => o.w(2),
            Ok(p) => o.w(p as u64),
        }
        logged(&mut o);
    }
    g_poseidon |i, o| {
        let b = bytes_of(i, 8);
        poseidon::poseidon_k256::RESULT.copy_from_slice(&bytes_of(i.add(8), 4));
        let r = wasm::poseidon(&b);
        let mut o = Out(o, 0);
        match r {
            Err(_) => o.w(2),
            Ok(p) => {
                o.w(1);
                o.w(p.len() as u64);
                for c in p.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); o.w(u64::from_le_bytes(w)); }
            }
        }
        o.w(poseidon::poseidon_k256::CALLS);
        o.b(&poseidon::poseidon_k256::SEEN[0]);
        o.b(&poseidon::poseidon_k256::SEEN[1]);
        poseidon::poseidon_k256::CALLS = 0;
    }
    h_pow2 |i, o| { *o = (*i as usize).pow2() as u64; }
    h_log2 |i, o| { *o = (*i as usize).log_2() as u64; }
    h_sqrt |i, o| { *o = (*i as usize).square_root() as u64; }
    h_bits |i, o| {
        let v = (*i as usize).get_bits(*i.add(1) as usize);
        *o = v.len() as u64;
        for (k, b) in v.iter().enumerate() {
            *o.add(1 + k) = *b as u64;
        }
    }
}

unsafe fn bytes_of(p: *const u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(8 * n);
    for k in 0..n {
        v.extend_from_slice(&(*p.add(k)).to_le_bytes());
    }
    v
}
fn circuit(s: [usize; 3]) -> Vec<u8> {
    bincode::serialize(&libspartan::Instance { inst: libspartan::Shape { num_cons: s[0], num_vars: s[1], num_inputs: s[2] }, m: [vec![], vec![], vec![]] }).unwrap()
}
#[allow(static_mut_refs)]
unsafe fn logged(o: &mut Out) {
    o.w(libspartan::LOG.len() as u64);
    for x in &libspartan::LOG {
        o.w(*x);
    }
    libspartan::LOG.clear();
}

#[inline(never)]
fn main() {
    use std::io::BufRead;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut it = l.split_whitespace();
        let Some(name) = it.next() else { continue };
        let (_, f) = TABLE.iter().find(|t| t.0 == name).expect("entry point");
        let mut inp: Vec<u64> = it.map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        inp.push(0);
        let mut out = vec![0u64; 4096];
        unsafe { f(inp.as_ptr(), out.as_mut_ptr()) };
        println!("{}", out.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "));
    }
}
