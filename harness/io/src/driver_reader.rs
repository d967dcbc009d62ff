
#[doc(hidden)]
pub mod verif {
    use super::circom_reader::{from_reader, load_r1cs_from_bin, Constraint};
    use super::*;
    use secq256k1::Scalar;
    use std::io::Cursor;

    pub struct Out(pub *mut u64, pub usize);
    impl Out {
        pub fn w(&mut self, v: u64) {
            unsafe { *self.0.add(self.1) = v };
            self.1 += 1;
        }
        pub fn b(&mut self, b: &[u8; 32]) {
            for i in 0..4 {
                self.w(u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()));
            }
        }
    }
    pub unsafe fn data<'a>(i: *const u64) -> &'a [u8] {
        std::slice::from_raw_parts(i.add(1) as *const u8, *i as usize)
    }
    fn cons(o: &mut Out, cs: &[Constraint<Scalar>]) {
        o.w(cs.len() as u64);
        for (a, b, c) in cs {
            for v in [a, b, c] {
                o.w(v.len() as u64);
                for (i, f) in v.iter() {
                    o.w(*i as u64);
                    o.b(&f.0);
                }
            }
        }
    }
    /// a reader that hands out at most 7 bytes a call, of a file with a stretch of `len` zero bytes at offset `at` that is not stored
    pub struct Gap<'a> {
        d: &'a [u8],
        at: u64,
        len: u64,
        pos: u64,
    }
    impl<'a> std::io::Read for Gap<'a> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.pos >= self.at && self.pos < self.at + self.len {
                let n = std::cmp::min(b.len() as u64, self.at + self.len - self.pos) as usize;
                for x in b[..n].iter_mut() {
                    *x = 0;
                }
                self.pos += n as u64;
                return Ok(n);
            }
            let before = self.pos < self.at;
            let k = if before { self.pos } else { self.pos - self.len };
            let end = if before { self.at } else { self.d.len() as u64 };
            if k >= end {
                return Ok(0);
            }
            let n = std::cmp::min(std::cmp::min(b.len() as u64, end - k), 7) as usize;
            b[..n].copy_from_slice(&self.d[k as usize..k as usize + n]);
            self.pos += n as u64;
            Ok(n)
        }
    }
    impl<'a> std::io::Seek for Gap<'a> {
        fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
            let (b, k) = match p {
                std::io::SeekFrom::Start(n) => {
                    self.pos = n;
                    return Ok(n);
                }
                std::io::SeekFrom::End(k) => (self.d.len() as u64 + self.len, k),
                std::io::SeekFrom::Current(k) => (self.pos, k),
            };
            match b.checked_add_signed(k) {
                Some(n) => {
                    self.pos = n;
                    Ok(n)
                }
                None => Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before the start")),
            }
        }
    }
    /// the first 16 bytes give the place and the length of the gap, the others are the file without it
    pub unsafe fn parse_gap(i: *const u64, o: *mut u64) {
        let d = data(i);
        let at = u64::from_le_bytes(d[..8].try_into().unwrap());
        let len = u64::from_le_bytes(d[8..16].try_into().unwrap());
        parse_from(Gap { d: &d[16..], at, len, pos: 0 }, o)
    }
    pub unsafe fn parse(i: *const u64, o: *mut u64) {
        parse_from(Cursor::new(data(i)), o)
    }
    /// out[0]: 1 = parsed, 2 = error
    unsafe fn parse_from<R: std::io::Read + std::io::Seek>(r: R, o: *mut u64) {
        let mut o = Out(o, 0);
        match from_reader::<AffinePoint, _>(r) {
            Err(_) => o.w(2),
            Ok(f) => {
                o.w(1);
                let h = &f.header;
                for v in [f.version as u64, h.field_size as u64, h.n_wires as u64, h.n_pub_out as u64, h.n_pub_in as u64, h.n_prv_in as u64, h.n_labels, h.n_constraints as u64] {
                    o.w(v);
                }
                o.w(h.prime_size.len() as u64);
                for c in h.prime_size.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..c.len()].copy_from_slice(c);
                    o.w(u64::from_le_bytes(b));
                }
                cons(&mut o, &f.constraints);
                o.w(f.wire_mapping.len() as u64);
                for m in &f.wire_mapping {
                    o.w(*m);
                }
            }
        }
    }
    pub unsafe fn load(i: *const u64, o: *mut u64) {
        let mut o = Out(o, 0);
        let (r, m) = load_r1cs_from_bin::<AffinePoint, _>(Cursor::new(data(i)));
        o.w(1);
        o.w(r.num_inputs as u64);
        o.w(r.num_aux as u64);
        o.w(r.num_variables as u64);
        cons(&mut o, &r.constraints);
        o.w(m.len() as u64);
        for m in &m {
            o.w(*m as u64);
        }
    }
    /// in: constraints, then per constraint and per vector the number of terms and the terms; num_variables, num_inputs, public
    pub unsafe fn convert(i: *const u64, o: *mut u64) {
        let mut o = Out(o, 0);
        let mut k = 0;
        let mut next = || {
            let v = *i.add(k);
            k += 1;
            v
        };
        let n = next();
        let num_variables = next() as usize;
        let num_inputs = next() as usize;
        let public = next() as usize;
        let mut constraints = Vec::new();
        for _ in 0..n {
            let mut v = [Vec::new(), Vec::new(), Vec::new()];
            for x in v.iter_mut() {
                for _ in 0..next() {
                    let w = next() as usize;
                    let mut b = [0u8; 32];
                    for j in 0..4 {
                        b[8 * j..8 * j + 8].copy_from_slice(&next().to_le_bytes());
                    }
                    x.push((w, Scalar(b)));
                }
            }
            let [a, b, c] = v;
            constraints.push((a, b, c));
        }
        let r = R1CS { num_inputs, num_aux: 0, num_variables, constraints };
        let inst = convert_to_spartan_r1cs(&r, public);
        o.w(inst.inst.num_cons as u64);
        o.w(inst.inst.num_vars as u64);
        o.w(inst.inst.num_inputs as u64);
        for m in &inst.m {
            o.w(m.len() as u64);
            for (r, c, b) in m {
                o.w(*r as u64);
                o.w(*c as u64);
                o.b(b);
            }
        }
    }
}
