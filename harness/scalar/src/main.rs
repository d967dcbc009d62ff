//! Harness: uniform entry points (words in, words out) over the real scalar field implementation.
//! An element is passed as its in-memory words (W of them), so that no private item is needed.
#![allow(clippy::all, unused)]
#[path = "/repo/packages/Spartan-secq/src/scalar/scalar.rs"]
pub mod scalar;
use scalar::Scalar;
use std::mem::{size_of, MaybeUninit};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

const W: usize = size_of::<Scalar>() / 8;

#[inline(always)]
unsafe fn get(i: *const u64, k: usize) -> Scalar {
    std::ptr::read_unaligned(i.add(k * W) as *const Scalar)
}
#[inline(always)]
unsafe fn put(o: *mut u64, k: usize, s: Scalar) {
    std::ptr::write_unaligned(o.add(k * W) as *mut Scalar, s)
}
unsafe fn put_bytes(o: *mut u64, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), o as *mut u8, b.len());
}
unsafe fn get_bytes<const N: usize>(i: *const u64) -> [u8; N] {
    std::ptr::read_unaligned(i as *const [u8; N])
}

type H = unsafe extern "C" fn(*const u64, *mut u64);
macro_rules! harness {
    ($($name:ident ($nin:expr, $nout:expr) |$i:ident, $o:ident| $body:block)*) => {
        $(#[no_mangle] pub unsafe extern "C" fn $name($i: *const u64, $o: *mut u64) $body)*
        static TABLE: &[(&str, H, usize, usize)] = &[$((stringify!($name), $name, $nin, $nout)),*];
    };
}

struct WordRng(*const u64, usize, usize);
impl rand_core::RngCore for WordRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        // one little-endian stream; running off its end is a failure of the harness, seen as an abort
        assert!(self.1 + dest.len() <= self.2);
        unsafe { std::ptr::copy_nonoverlapping((self.0 as *const u8).add(self.1), dest.as_mut_ptr(), dest.len()) };
        self.1 += dest.len();
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for WordRng {}

#[inline(never)]
fn list(i: *const u64, n: usize) -> Vec<Scalar> {
    (0..n).map(|k| unsafe { get(i, k) }).collect()
}

#[no_mangle]
pub extern "C" fn h_words() -> usize { W }

harness! {
    h_add_rr(2*W, W) |i, o| { put(o, 0, &get(i, 0) + &get(i, 1)) }
    h_add_vr(2*W, W) |i, o| { put(o, 0, get(i, 0) + &get(i, 1)) }
    h_add_rv(2*W, W) |i, o| { put(o, 0, &get(i, 0) + get(i, 1)) }
    h_add_vv(2*W, W) |i, o| { put(o, 0, get(i, 0) + get(i, 1)) }
    h_add_av(2*W, W) |i, o| { let mut x = get(i, 0); x += get(i, 1); put(o, 0, x) }
    h_add_ar(2*W, W) |i, o| { let mut x = get(i, 0); x += &get(i, 1); put(o, 0, x) }
    h_add_fn(2*W, W) |i, o| { put(o, 0, Scalar::add(&get(i, 0), &get(i, 1))) }
    h_sub_rr(2*W, W) |i, o| { put(o, 0, &get(i, 0) - &get(i, 1)) }
    h_sub_vr(2*W, W) |i, o| { put(o, 0, get(i, 0) - &get(i, 1)) }
    h_sub_rv(2*W, W) |i, o| { put(o, 0, &get(i, 0) - get(i, 1)) }
    h_sub_vv(2*W, W) |i, o| { put(o, 0, get(i, 0) - get(i, 1)) }
    h_sub_av(2*W, W) |i, o| { let mut x = get(i, 0); x -= get(i, 1); put(o, 0, x) }
    h_sub_ar(2*W, W) |i, o| { let mut x = get(i, 0); x -= &get(i, 1); put(o, 0, x) }
    h_sub_fn(2*W, W) |i, o| { put(o, 0, Scalar::sub(&get(i, 0), &get(i, 1))) }
    h_neg_r(W, W) |i, o| { put(o, 0, -&get(i, 0)) }
    h_neg_v(W, W) |i, o| { put(o, 0, -get(i, 0)) }
    h_neg_fn(W, W) |i, o| { put(o, 0, Scalar::neg(&get(i, 0))) }
    h_double(W, W) |i, o| { put(o, 0, get(i, 0).double()) }
    h_mul_rr(2*W, W) |i, o| { put(o, 0, &get(i, 0) * &get(i, 1)) }
    h_mul_vr(2*W, W) |i, o| { put(o, 0, get(i, 0) * &get(i, 1)) }
    h_mul_rv(2*W, W) |i, o| { put(o, 0, &get(i, 0) * get(i, 1)) }
    h_mul_vv(2*W, W) |i, o| { put(o, 0, get(i, 0) * get(i, 1)) }
    h_mul_av(2*W, W) |i, o| { let mut x = get(i, 0); x *= get(i, 1); put(o, 0, x) }
    h_mul_ar(2*W, W) |i, o| { let mut x = get(i, 0); x *= &get(i, 1); put(o, 0, x) }
    h_mul_fn(2*W, W) |i, o| { put(o, 0, Scalar::mul(&get(i, 0), &get(i, 1))) }
    h_square(W, W) |i, o| { put(o, 0, get(i, 0).square()) }
    // encodings
    h_from_bytes(4, 1 + W) |i, o| {
        let r = Scalar::from_bytes(&get_bytes::<32>(i));
        *o = r.is_some().unwrap_u8() as u64;
        put(o.add(1), 0, r.unwrap_or(Scalar::zero()));
    }
    h_from_bytes_un(4, W) |i, o| { put(o, 0, Scalar::from_bytes(&get_bytes::<32>(i)).unwrap()) }
    h_to_bytes(W, 4) |i, o| { put_bytes(o, &get(i, 0).to_bytes()) }
    h_to_bytes_from(W, 4) |i, o| { let b: [u8; 32] = (&get(i, 0)).into(); put_bytes(o, &b) }
    h_eq(2*W, 1) |i, o| { *o = (get(i, 0) == get(i, 1)) as u64 }
    h_ne(2*W, 1) |i, o| { *o = (get(i, 0) != get(i, 1)) as u64 }
    h_ct_eq(2*W, 1) |i, o| { *o = get(i, 0).ct_eq(&get(i, 1)).unwrap_u8() as u64 }
    // reductions
    h_from_u64(1, W) |i, o| { put(o, 0, Scalar::from(*i)) }
    h_from_raw(4, W) |i, o| { put(o, 0, Scalar::from_raw([*i, *i.add(1), *i.add(2), *i.add(3)])) }
    h_from_bytes_wide(8, W) |i, o| { put(o, 0, Scalar::from_bytes_wide(&get_bytes::<64>(i))) }
    h_random(8, 1 + W) |i, o| { let mut r = WordRng(i, 0, 64); let s = Scalar::random(&mut r); *o = r.1 as u64; put(o.add(1), 0, s) }
    // constants
    h_zero(0, W) |i, o| { put(o, 0, Scalar::zero()) }
    h_one(0, W) |i, o| { put(o, 0, Scalar::one()) }
    h_default(0, W) |i, o| { put(o, 0, Scalar::default()) }
    // selection etc.
    h_select(2*W + 1, W) |i, o| { put(o, 0, Scalar::conditional_select(&get(i, 0), &get(i, 1), Choice::from((*i.add(2*W) & 1) as u8))) }
    h_assign(2*W + 1, W) |i, o| { let mut x = get(i, 0); x.conditional_assign(&get(i, 1), Choice::from((*i.add(2*W) & 1) as u8)); put(o, 0, x) }
    h_swap(2*W + 1, 2*W) |i, o| {
        let mut x = get(i, 0); let mut y = get(i, 1);
        Scalar::conditional_swap(&mut x, &mut y, Choice::from((*i.add(2*W) & 1) as u8)); put(o, 0, x); put(o, 1, y)
    }
    h_zeroize(W, W) |i, o| { use zeroize::Zeroize; let mut x = get(i, 0); x.zeroize(); put(o, 0, x) }
    h_clone(W, W) |i, o| { put(o, 0, get(i, 0).clone()) }
    h_sum0(0, W) |i, o| { put(o, 0, list(i, 0).iter().sum()) }
    h_sum1(W, W) |i, o| { put(o, 0, list(i, 1).iter().sum()) }
    h_sum2(2*W, W) |i, o| { put(o, 0, list(i, 2).iter().sum()) }
    h_sum3(3*W, W) |i, o| { put(o, 0, list(i, 3).iter().sum()) }
    h_sum4v(4*W, W) |i, o| { put(o, 0, list(i, 4).into_iter().sum()) }
    h_prod0(0, W) |i, o| { put(o, 0, list(i, 0).iter().product()) }
    h_prod1(W, W) |i, o| { put(o, 0, list(i, 1).iter().product()) }
    h_prod2(2*W, W) |i, o| { put(o, 0, list(i, 2).iter().product()) }
    h_prod3(3*W, W) |i, o| { put(o, 0, list(i, 3).iter().product()) }
    h_prod4v(4*W, W) |i, o| { put(o, 0, list(i, 4).into_iter().product()) }
    h_debug(W, 10) |i, o| {
        // text goes to a fixed buffer: length, then the bytes
        let mut b = Buf([0; 72], 0);
        use std::fmt::Write;
        let r = write!(b, "{:?}", get(i, 0));
        *o = if r.is_ok() { b.1 as u64 } else { u64::MAX };
        put_bytes(o.add(1), &b.0);
    }
    // powers and inverses
    h_pow(W + 4, W) |i, o| { put(o, 0, get(i, 0).pow(&[*i.add(W), *i.add(W+1), *i.add(W+2), *i.add(W+3)])) }
    h_pow_vartime(W + 4, W) |i, o| { put(o, 0, get(i, 0).pow_vartime(&[*i.add(W), *i.add(W+1), *i.add(W+2), *i.add(W+3)])) }
    h_invert(W, 1 + W) |i, o| {
        let r = get(i, 0).invert();
        *o = r.is_some().unwrap_u8() as u64;
        put(o.add(1), 0, r.unwrap_or(Scalar::zero()));
    }
    h_batch0(0, W) |i, o| { batch(i, o, 0) }
    h_batch1(W, 2*W) |i, o| { batch(i, o, 1) }
    h_batch2(2*W, 3*W) |i, o| { batch(i, o, 2) }
    h_batch3(3*W, 4*W) |i, o| { batch(i, o, 3) }
    h_batch4(4*W, 5*W) |i, o| { batch(i, o, 4) }
    h_batch5(5*W, 6*W) |i, o| { batch(i, o, 5) }
    // serde
    h_ser(W, 14) |i, o| { ser(i, o) }
    h_de(8, 1 + W) |i, o| { de(i, o) }
}

struct Buf([u8; 72], usize);
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.1 < 72 { self.0[self.1] = b; }
            self.1 += 1;
        }
        Ok(())
    }
}

unsafe fn batch(i: *const u64, o: *mut u64, n: usize) {
    let mut v = list(i, n);
    let r = Scalar::batch_invert(&mut v);
    for k in 0..n { put(o, k, v[k]); }
    put(o, n, r);
}

// ---- models used only by the symbolic runs; natively they are never called
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn verif_note(which: u64, p: *const u8, n: usize) { std::ptr::read_volatile(&which); }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn verif_word(k: u64) -> u64 { std::ptr::read_volatile(&k) }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn verif_inv(i: *const u64, o: *mut u64) { std::ptr::read_volatile(&i); }
/// stands for num_bigint_dig's mod_inverse: notes its operands, answers with a chosen result
#[no_mangle] #[inline(never)]
pub fn model_mod_inverse(g: std::borrow::Cow<num_bigint_dig::BigUint>, n: std::borrow::Cow<num_bigint_dig::BigUint>) -> Option<num_bigint_dig::BigInt> {
    let mut gb = [0u8; 64];
    let mut nb = [0u8; 64];
    digits(&g, &mut gb);
    digits(&n, &mut nb);
    unsafe {
        verif_note(0, gb.as_ptr(), 64);
        verif_note(1, nb.as_ptr(), 64);
        if verif_word(0) == 0 { return None; }
        let mut r = [0u8; 32];
        for k in 0..4 { r[8 * k..8 * k + 8].copy_from_slice(&verif_word(1 + k as u64).to_le_bytes()); }
        Some(num_bigint_dig::BigInt::from_biguint(num_bigint_dig::Sign::Plus, num_bigint_dig::BigUint::from_bytes_le(&r)))
    }
}
fn digits(g: &num_bigint_dig::BigUint, o: &mut [u8; 64]) {
    let b = g.to_bytes_le();
    for (k, x) in b.iter().enumerate() { if k < 64 { o[k] = *x; } }
}
#[no_mangle] #[inline(never)]
pub unsafe fn model_invert(x: &Scalar) -> subtle::CtOption<Scalar> {
    let mut o = [0u64; W];
    verif_inv(x as *const Scalar as *const u64, o.as_mut_ptr());
    subtle::CtOption::new(get(o.as_ptr(), 0), Choice::from(1))
}
static KEEP: &[fn(std::borrow::Cow<num_bigint_dig::BigUint>, std::borrow::Cow<num_bigint_dig::BigUint>) -> Option<num_bigint_dig::BigInt>] = &[model_mod_inverse];
static KEEP2: &[unsafe fn(&Scalar) -> subtle::CtOption<Scalar>] = &[model_invert];
#[no_mangle]
pub fn h_keep(i: usize) -> usize { KEEP[i] as usize + KEEP2[i] as usize }

include!("serde_rec.rs");

fn main() {
    use std::io::BufRead;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut it = l.split_whitespace();
        let Some(name) = it.next() else { continue };
        let (_, f, ni, no) = TABLE.iter().find(|t| t.0 == name).expect("entry point");
        let mut inp: Vec<u64> = it.map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        assert_eq!(inp.len(), *ni);
        inp.push(0);
        let mut out = vec![0u64; *no + 1];
        unsafe { f(inp.as_ptr(), out.as_mut_ptr()) };
        println!("{}", out[..*no].iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "));
    }
}
