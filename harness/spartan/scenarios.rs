fn scenario(name: &str, n: &[usize]) {
  match name {
    "poly" => sc_poly(n[0]),
    "unipoly" => sc_unipoly(n[0]),
    "commit" => sc_commit(n[0]),
    "points" => sc_points(),
    "polycommit" => sc_polycommit(n[0], n[1] == 1),
    "gens" => sc_gens(n[0]),
    "sum_cubic" => sc_sum_cubic(n[0]),
    "sum_batched" => sc_sum_batched(n[0], n[1], n[2]),
    "sum_verify" => sc_sum_verify(n[0], n[1]),
    "zk_quad" => sc_zk_quad(n[0]),
    "zk_cubic" => sc_zk_cubic(n[0]),
    "zk_verify" => sc_zk_verify(n[0], n[1]),
    "knowledge" => sc_knowledge(),
    "equality" => sc_equality(),
    "product" => sc_product(),
    "dotprod" => sc_dotprod(n[0]),
    "dotlog" => sc_dotlog(n[0]),
    "instance" => sc_instance(n[0], n[1], n[2]),
    "refuse" => sc_refuse(n[0], n[1], n[2]),
    "synth" => sc_synth(n[0], n[1], n[2]),
    "nizk" => sc_nizk(n[0], n[1], n[2]),
    "nizk_verify" => sc_nizk_verify(n[0], n[1], n[2]),
    "circuit" => sc_circuit(n[0]),
    "prodproof" => sc_prodproof(n[0]),
    "prodbatch" => sc_prodbatch(n[0], n[1], n[2]),
    "sparse" => sc_sparse(n[0], n[1], n[2]),
    "sparse_proof" => sc_sparse_proof(n[0], n[1], n[2]),
    "snark" => sc_snark(n[0], n[1], n[2]),
    "transcript" => sc_transcript(),
    "hide_nizk" => sc_hide_nizk(n[0], n[1], n[2]),
    "hide_snark" => sc_hide_snark(n[0], n[1], n[2]),
    _ => panic!("no such scenario"),
  }
}

// ---------------------------------------------------------------- C15
fn sc_poly(ell: usize) {
  let n = 1usize << ell;
  let r = vs("r", ell);
  let x = vs("x", ell);
  let t = s("t");
  let z = vs("z", n);
  let ev = EqPolynomial::new(r.clone()).evals();
  fact("eq table length", ev.len() == n);
  for i in 0..n {
    ceq(&format!("eq table [{}]", i), ev[i], chi(&r, i));
  }
  let mut p = one();
  for i in 0..ell {
    p = p * (r[i] * x[i] + (one() - r[i]) * (one() - x[i]));
  }
  if let Some(e) = must("eq evaluate", || EqPolynomial::new(r.clone()).evaluate(&x)) {
    ceq("eq evaluate", e, p);
  }
  let (l, rr) = EqPolynomial::new(r.clone()).compute_factored_evals();
  fact("factored lengths", l.len() * rr.len() == n && l.len() == 1 << (ell / 2));
  for i in 0..l.len() {
    for j in 0..rr.len() {
      ceq(&format!("factored [{}][{}]", i, j), l[i] * rr[j], chi(&r, i * rr.len() + j));
    }
  }
  let mut idp = zero();
  for i in 0..ell {
    idp = idp + k(1 << (ell - 1 - i)) * r[i];
  }
  ceq("identity polynomial", IdentityPolynomial::new(ell).evaluate(&r), idp);
  // linear in the number of variables, so the sizes of real instances are within reach
  let big = 8 * ell + 3;
  let rb = vs("rb", big);
  let xb = vs("xb", big);
  let (mut idp, mut pb) = (zero(), one());
  for i in 0..big {
    idp = idp + k(1u64 << (big - 1 - i)) * rb[i];
    pb = pb * (rb[i] * xb[i] + (one() - rb[i]) * (one() - xb[i]));
  }
  if let Some(v) = must("identity polynomial, many variables", || IdentityPolynomial::new(big).evaluate(&rb)) {
    ceq("identity polynomial, many variables", v, idp);
  }
  if let Some(v) = must("eq evaluate, many variables", || EqPolynomial::new(rb.clone()).evaluate(&xb)) {
    ceq("eq evaluate, many variables", v, pb);
  }
  let d = DensePolynomial::new(z.clone());
  fact("number of variables", d.get_num_vars() == ell && d.len() == n);
  ceq("evaluate", d.evaluate(&r), mle(&z, &r));
  for b in 0..n {
    let bits: Vec<Scalar> = (0..ell).map(|j| k(((b >> (ell - 1 - j)) & 1) as u64)).collect();
    ceq(&format!("evaluate at index {}", b), d.evaluate(&bits), z[b]);
    ceq(&format!("index {}", b), d[b], z[b]);
  }
  // evaluation by folding, from either end
  let mut top = d.clone();
  let mut bot = d.clone();
  for j in 0..ell {
    let zs: Vec<Scalar> = (0..top.len()).map(|i| top[i]).collect();
    let h = top.len() / 2;
    top.bound_poly_var_top(&r[j]);
    fact("folding halves", top.len() == h && top.get_num_vars() == ell - 1 - j);
    for i in 0..h {
      ceq("fold top", top[i], (one() - r[j]) * zs[i] + r[j] * zs[i + h]);
    }
    let zs: Vec<Scalar> = (0..bot.len()).map(|i| bot[i]).collect();
    bot.bound_poly_var_bot(&r[ell - 1 - j]);
    fact("folding halves", bot.len() == h && bot.get_num_vars() == ell - 1 - j);
    for i in 0..h {
      ceq("fold bottom", bot[i], (one() - r[ell - 1 - j]) * zs[2 * i] + r[ell - 1 - j] * zs[2 * i + 1]);
    }
    if j + 1 < ell {
      let c2 = top.clone();
      fact("copy of a folded polynomial", c2.len() == top.len() && c2.get_num_vars() == top.get_num_vars());
      ceq("evaluate a folded polynomial", c2.evaluate(&r[j + 1..].to_vec()), mle(&z, &r));
    }
  }
  ceq("fold all top", top[0], mle(&z, &r));
  ceq("fold all bottom", bot[0], mle(&z, &r));
  let lr = EqPolynomial::compute_factored_lens(ell);
  fact("factored lens", lr.0 + lr.1 == ell);
  let lv = vs("L", 1 << lr.0);
  let b = d.bound(&lv);
  fact("bound length", b.len() == 1 << lr.1);
  for i in 0..b.len() {
    let mut e = zero();
    for j in 0..lv.len() {
      e = e + lv[j] * z[j * b.len() + i];
    }
    ceq("bound", b[i], e);
  }
  if ell > 0 {
    if let Some((a, bb)) = must("split", || d.split(n / 2)) {
      fact("split lengths", a.len() == n / 2 && bb.len() == n / 2);
      for i in 0..n / 2 {
        ceq("split left", a[i], z[i]);
        ceq("split right", bb[i], z[n / 2 + i]);
      }
      let mut j = a.clone();
      j.extend(&bb);
      fact("extend length", j.len() == n && j.get_num_vars() == ell);
      ceq("extend", j.evaluate(&r), mle(&z, &r));
    }
    let d2 = DensePolynomial::new(vs("w", n));
    let d3 = DensePolynomial::new(vs("u", n));
    let m = DensePolynomial::merge(vec![&d, &d2, &d3].into_iter());
    fact("merge length", m.len() == 4 * n && m.get_num_vars() == ell + 2);
    for i in 0..n {
      ceq("merge", m[i], z[i]);
      ceq("merge", m[n + i], d2[i]);
      ceq("merge", m[2 * n + i], d3[i]);
      ceq("merge", m[3 * n + i], zero());
    }
  }
  let u: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { (7 * i + 3) % 11 } else { usize::MAX >> ((i * 5) % 33) }).collect();
  let du = DensePolynomial::from_usize(&u);
  for i in 0..n {
    ceq("from_usize", du[i], k(u[i] as u64));
  }
  let _ = t;
}

// ---------------------------------------------------------------- C16
fn sc_unipoly(n: usize) {
  let e = vs("e", n);
  let r = s("r");
  let p = match must("from_evals", || UniPoly::from_evals(&e)) {
    Some(p) => p,
    None => return,
  };
  let v = p.as_vec();
  fact("degree", p.degree() == n - 1 && v.len() == n);
  let at = |x: Scalar, v: &[Scalar]| {
    let mut a = zero();
    for i in (0..v.len()).rev() {
      a = a * x + v[i];
    }
    a
  };
  for i in 0..n {
    ceq(&format!("value at {}", i), p.evaluate(&k(i as u64)), e[i]);
    ceq(&format!("coefficients at {}", i), at(k(i as u64), &v), e[i]);
  }
  ceq("evaluate", p.evaluate(&r), at(r, &v));
  ceq("eval at zero", p.eval_at_zero(), e[0]);
  ceq("eval at one", p.eval_at_one(), e[1]);
  let cmp = p.compress();
  let w = cmp.decompress(&(e[0] + e[1])).as_vec();
  fact("restored degree", w.len() == n);
  for i in 0..n {
    ceq(&format!("restored coefficient {}", i), w[i], v[i]);
  }
  let hint = s("hint");
  let q = cmp.decompress(&hint);
  ceq("restored polynomial sums to the hint", q.eval_at_zero() + q.eval_at_one(), hint);
  let u = q.as_vec();
  for i in 0..n {
    if i != 1 {
      ceq("kept coefficient", u[i], v[i]);
    }
  }
  let lv = tree(&p.compress());
  fact("what is sent", leaves(&lv["coeffs_except_linear_term"]).len() == n - 1);
  let gs = gens(n);
  let b = s("b");
  ceq("commitment", g(&p.commit(&gs, &b)), com(&gs, &v, b));
  let mut t = tr();
  p.append_to_transcript(b"poly", &mut t);
  t.challenge_scalar(b"c");
  let mut sp = Spec::new(&t);
  sp.scs("coefficient", &v);
  sp.chal("c");
  fact("FS: round polynomial absorbed", sp.bad.is_empty());
}

// ---------------------------------------------------------------- C27
fn sc_commit(n: usize) {
  let gs = gens(n);
  let x = vs("x", n);
  let y = vs("y", n);
  let (a, b, cc) = (s("a"), s("b"), s("c"));
  ceq("vector commitment", g(&x.commit(&a, &gs)), com(&gs, &x, a));
  ceq("slice commitment", g(&x[..].commit(&a, &gs)), com(&gs, &x, a));
  let sum: Vec<Scalar> = (0..n).map(|i| x[i] + cc * y[i]).collect();
  ceq(
    "linear",
    g(&sum.commit(&(a + cc * b), &gs)),
    g(&(x.commit(&a, &gs) + cc * y.commit(&b, &gs))),
  );
  if n == 1 {
    ceq("scalar commitment", g(&x[0].commit(&a, &gs)), com(&gs, &x, a));
  }
  let sc = gs.scale(&cc);
  fact("scaled size", sc.n == n && sc.G.len() == n);
  ceq("scaled blind", g(&sc.h), g(&gs.h));
  for i in 0..n {
    ceq("scaled", g(&sc.G[i]), cc * g(&gs.G[i]));
  }
  for m in 0..=n {
    let (l, r) = gs.split_at(m);
    fact("split sizes", l.n == m && r.n == n - m && l.G.len() == m && r.G.len() == n - m);
    ceq("split blind", g(&l.h), g(&gs.h));
    ceq("split blind", g(&r.h), g(&gs.h));
    for i in 0..n {
      ceq("split", g(if i < m { &l.G[i] } else { &r.G[i - m] }), g(&gs.G[i]));
    }
    ceq("parts", g(&(x[..m].commit(&a, &l) + x[m..].commit(&b, &r))), com(&gs, &x, a + b));
  }
  let cl = gs.clone();
  fact("copy", cl.n == n && (0..n).all(|i| g(&cl.G[i]).id() == g(&gs.G[i]).id()) && g(&cl.h).id() == g(&gs.h).id());
  // group operations the commitments are built from
  let pp: Vec<GroupElement> = vs("P", n).iter().map(|q| pt(*q)).collect();
  let xs: Vec<Scalar> = x.clone();
  let e: Vec<Scalar> = pp.iter().map(g).collect();
  ceq("multi-scalar product", g(&GroupElement::vartime_multiscalar_mul(xs.clone(), pp.clone())), dot(&xs, &e));
  let mut q = pp[0];
  q *= &xs[0];
  ceq("point times scalar", g(&q), e[0] * xs[0]);
  let mut q = pp[0];
  q *= xs[0];
  ceq("point times scalar", g(&q), e[0] * xs[0]);
  ceq("point times scalar", g(&(pp[0] * xs[0])), e[0] * xs[0]);
  ceq("point times scalar", g(&(pp[0] * &xs[0])), e[0] * xs[0]);
  ceq("point times scalar", g(&(&pp[0] * &xs[0])), e[0] * xs[0]);
  ceq("scalar times point", g(&(xs[0] * pp[0])), e[0] * xs[0]);
  ceq("scalar times point", g(&(&xs[0] * &pp[0])), e[0] * xs[0]);
  ceq("scalar times point", g(&(xs[0] * &pp[0])), e[0] * xs[0]);
  let cpt = pp[0].compress();
  ceq("compressed point", g(&cpt.unpack().unwrap()), e[0]);
  ceq("compressed point", g(&DecompressEncodedPoint::decompress(&cpt).unwrap()), e[0]);
  // wrong lengths are not silently accepted
  for m in [0, n - 1, n + 1] {
    let y = vs("v", m);
    if m != n {
      let r = symcore::scoped(|| catch(|| y.commit(&a, &gs)).is_ok());
      fact(&format!("commitment to {} entries with {} generators refused", m, n), !r);
      let r = symcore::scoped(|| catch(|| GroupElement::vartime_multiscalar_mul(y.clone(), pp.clone())).is_ok());
      fact(&format!("product of {} scalars and {} points refused", m, n), !r);
    }
  }
}
/// encodings of points, and one that is no encoding of a point
fn sc_points() {
  let x = s("x");
  let e = pt(x).compress();
  match catch(|| e.unpack()) {
    Ok(Ok(p)) => {
      ceq("PT: unpacking gives the encoded point", g(&p), x);
      fact("PT: and that point has this encoding", p.compress().as_bytes() == e.as_bytes());
    }
    _ => fact("PT: the encoding of a point is refused", false),
  }
  match catch(|| DecompressEncodedPoint::decompress(&e)) {
    Ok(Some(p)) => ceq("PT: decompressing gives the encoded point", g(&p), x),
    _ => fact("PT: the encoding of a point does not decompress", false),
  }
  let b = secq256k1::EncodedPoint::bad();
  match catch(|| b.unpack()) {
    Ok(Err(ProofVerifyError::DecompressionError(t))) => {
      let t: &[u8] = t.as_ref();
      fact("PT: the error names the encoding", t == b.as_bytes())
    }
    Ok(Err(_)) => fact("PT: an error for an encoding of no point", true),
    Ok(Ok(_)) => fact("PT: unpacking gives a point for an encoding of no point", false),
    Err(m) => fact(&format!("PT: unpacking an encoding of no point panics: {}", m.chars().take(60).collect::<String>()), false),
  }
  match catch(|| DecompressEncodedPoint::decompress(&b).is_none()) {
    Ok(t) => fact("PT: an encoding of no point decompresses to nothing", t),
    Err(m) => fact(&format!("PT: decompressing an encoding of no point panics: {}", m.chars().take(60).collect::<String>()), false),
  }
}
fn sc_gens(n: usize) {
  let mk = |n: usize, l: &'static [u8]| MultiCommitGens::new(n, l);
  let a = mk(n, b"label");
  let b = mk(n, b"label");
  let o = mk(n, b"other");
  fact("sizes", a.n == n && a.G.len() == n);
  let ids = |x: &MultiCommitGens| {
    let mut v: Vec<Id> = x.G.iter().map(|q| q.0 .0).collect();
    v.push(x.h.0 .0);
    v
  };
  let (ia, ib, io) = (ids(&a), ids(&b), ids(&o));
  fact("same label, same generators", ia == ib);
  for i in 0..ia.len() {
    for j in 0..i {
      fact(&format!("generators {} and {} differ", i, j), ia[i] != ia[j]);
    }
    fact("another label, other generators", !ia.contains(&io[i]));
    let v: Scalar = Scalar::of(ia[i]);
    fact("generator hashed from the label", !symcore::is_const(v.id()));
  }
  let pc = PolyCommitmentGens::new(n, b"label");
  let need = 1usize << (n - n / 2);
  fact("polynomial commitment generators", pc.gens.gens_n.n == need && pc.gens.gens_1.n == 1);
  let ip = ids(&pc.gens.gens_n);
  let i1 = ids(&pc.gens.gens_1);
  fact("blind generator shared", ip[need] == i1[1]);
  fact("value generator is separate", !ip.contains(&i1[0]));
}
fn sc_polycommit(ell: usize, zk: bool) {
  let n = 1usize << ell;
  let z = vs("z", n);
  let r = vs("r", ell);
  let gs = PolyCommitmentGens::new(ell, b"gens");
  let d = DensePolynomial::new(z.clone());
  let mut tp = tape();
  let (cm, bl) = match must("commit", || if zk { d.commit(&gs, Some(&mut tp)) } else { d.commit(&gs, None) }) {
    Some(x) => x,
    None => return,
  };
  let cs = leaves(&tree(&cm)["C"]);
  let (ls, rs) = (1usize << (ell / 2), 1usize << (ell - ell / 2));
  fact("number of row commitments", cs.len() == ls);
  if !zk {
    for i in 0..ls {
      ceq("row commitment", cs[i], com(&gs.gens.gens_n, &z[i * rs..(i + 1) * rs], zero()));
    }
  } else {
    // the blinds are fresh variables, one per row
    for i in 0..ls {
      let b = cs[i] - com(&gs.gens.gens_n, &z[i * rs..(i + 1) * rs], zero());
      let _ = b;
    }
  }
  let v = mle(&z, &r);
  let bv = s("bv");
  let mut tp = tape();
  let mut pt_ = tr();
  let (proof, cv) = match must("prove", || {
    if zk {
      PolyEvalProof::prove(&d, Some(&bl), &r, &v, Some(&bv), &gs, &mut pt_, &mut tp)
    } else {
      PolyEvalProof::prove(&d, None, &r, &v, None, &gs, &mut pt_, &mut tp)
    }
  }) {
    Some(x) => x,
    None => return,
  };
  ceq("committed value", c(&cv), com(&gs.gens.gens_1, &[v], if zk { bv } else { zero() }));
  let mut vt = tr();
  must_ok("verify", || proof.verify(&gs, &mut vt, &r, &cv, &cm));
  same_state("polynomial evaluation proof", &mut pt_, &mut vt);
  if !zk {
    let mut vt = tr();
    must_ok("verify plain", || proof.verify_plain(&gs, &mut vt, &r, &v, &cm));
  }
  // acceptance of an arbitrary proof
  let t = freshen(&tree(&proof), "p");
  let tc = freshen(&tree(&cm), "cm");
  let cr = leaves(&tc["C"]);
  let cval = s("Cv");
  let l = chis(&r[..ell / 2]);
  let rv = chis(&r[ell / 2..]);
  let cl = dot(&l, &cr);
  accept_iff(
    "polynomial evaluation proof",
    |tx| back::<PolyEvalProof>(&t).verify(&gs, tx, &r, &cp(cval), &back::<PolyCommitment>(&tc)),
    |sp, _| spec_dotlog(sp, "", &t["proof"], &gs.gens, &rv, cl, cval),
  );
  let value = s("value");
  accept_iff(
    "plain polynomial evaluation proof",
    |tx| back::<PolyEvalProof>(&t).verify_plain(&gs, tx, &r, &value, &back::<PolyCommitment>(&tc)),
    |sp, _| spec_dotlog(sp, "", &t["proof"], &gs.gens, &rv, cl, value * g(&gs.gens.gens_1.G[0])),
  );
  shapes("polynomial evaluation proof", &t, &[], |v, tx| {
    back::<PolyEvalProof>(v).verify(&gs, tx, &r, &cp(cval), &back::<PolyCommitment>(&tc))
  });
  shapes("polynomial commitment", &tc, &[], |v, tx| {
    back::<PolyEvalProof>(&t).verify(&gs, tx, &r, &cp(cval), &back::<PolyCommitment>(v))
  });
}

// ---------------------------------------------------------------- C19
fn sc_knowledge() {
  let gs = gens(1);
  let (x, r) = (s("x"), s("r"));
  let mut p = tr();
  let mut tp = tape();
  if let Some((proof, cm)) = must("prove", || KnowledgeProof::prove(&gs, &mut p, &mut tp, &x, &r)) {
    ceq("commitment", c(&cm), com(&gs, &[x], r));
    let mut v = tr();
    must_ok("verify", || proof.verify(&gs, &mut v, &cm));
    same_state("knowledge proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let cv = s("C");
    accept_iff(
      "knowledge proof",
      |tx| back::<KnowledgeProof>(&t).verify(&gs, tx, &cp(cv)),
      |sp, _| spec_knowledge(sp, "", &t, &gs, cv),
    );
    shapes("knowledge proof", &t, &[], |v, tx| back::<KnowledgeProof>(v).verify(&gs, tx, &cp(cv)));
  }
}
fn spec_knowledge(sp: &mut Spec, n: &str, t: &Value, gs: &MultiCommitGens, cv: Scalar) {
  let (al, z1, z2) = (leaf(&t["alpha"]), leaf(&t["z1"]), leaf(&t["z2"]));
  sp.p(&format!("{}C", n), cv);
  sp.p(&format!("{}alpha", n), al);
  let ch = sp.chal(&format!("{}c", n));
  sp.eq(&format!("{}knowledge", n), com(gs, &[z1], z2), ch * cv + al);
}
fn sc_equality() {
  let gs = gens(1);
  let (x, r1, r2) = (s("x"), s("r1"), s("r2"));
  let mut p = tr();
  let mut tp = tape();
  if let Some((proof, c1, c2)) = must("prove", || EqualityProof::prove(&gs, &mut p, &mut tp, &x, &r1, &x, &r2)) {
    ceq("commitment 1", c(&c1), com(&gs, &[x], r1));
    ceq("commitment 2", c(&c2), com(&gs, &[x], r2));
    let mut v = tr();
    must_ok("verify", || proof.verify(&gs, &mut v, &c1, &c2));
    same_state("equality proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let (a, b) = (s("A"), s("B"));
    accept_iff(
      "equality proof",
      |tx| back::<EqualityProof>(&t).verify(&gs, tx, &cp(a), &cp(b)),
      |sp, _| spec_equality(sp, "", &t, &gs, a, b),
    );
    shapes("equality proof", &t, &[], |v, tx| back::<EqualityProof>(v).verify(&gs, tx, &cp(a), &cp(b)));
  }
}
fn spec_equality(sp: &mut Spec, n: &str, t: &Value, gs: &MultiCommitGens, a: Scalar, b: Scalar) {
  let (al, z) = (leaf(&t["alpha"]), leaf(&t["z"]));
  sp.p(&format!("{}C1", n), a);
  sp.p(&format!("{}C2", n), b);
  sp.p(&format!("{}alpha", n), al);
  let ch = sp.chal(&format!("{}c", n));
  sp.eq(&format!("{}equality", n), z * g(&gs.h), ch * (a - b) + al);
}
fn sc_product() {
  let gs = gens(1);
  let (x, y, rx, ry, rz) = (s("x"), s("y"), s("rx"), s("ry"), s("rz"));
  let mut p = tr();
  let mut tp = tape();
  let z = x * y;
  if let Some((proof, cx, cy, cz)) =
    must("prove", || ProductProof::prove(&gs, &mut p, &mut tp, &x, &rx, &y, &ry, &z, &rz))
  {
    ceq("commitment x", c(&cx), com(&gs, &[x], rx));
    ceq("commitment y", c(&cy), com(&gs, &[y], ry));
    ceq("commitment z", c(&cz), com(&gs, &[z], rz));
    let mut v = tr();
    must_ok("verify", || proof.verify(&gs, &mut v, &cx, &cy, &cz));
    same_state("product proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let (a, b, d) = (s("X"), s("Y"), s("Z"));
    accept_iff(
      "product proof",
      |tx| back::<ProductProof>(&t).verify(&gs, tx, &cp(a), &cp(b), &cp(d)),
      |sp, _| spec_product(sp, "", &t, &gs, a, b, d),
    );
    shapes("product proof", &t, &["z: one element", "z: empty"], |v, tx| {
      back::<ProductProof>(v).verify(&gs, tx, &cp(a), &cp(b), &cp(d))
    });
  }
}
fn spec_product(sp: &mut Spec, n: &str, t: &Value, gs: &MultiCommitGens, x: Scalar, y: Scalar, z: Scalar) {
  let (al, be, de) = (leaf(&t["alpha"]), leaf(&t["beta"]), leaf(&t["delta"]));
  let zz = leaves(&t["z"]);
  for (m, v) in [("X", x), ("Y", y), ("Z", z), ("alpha", al), ("beta", be), ("delta", de)] {
    sp.p(&format!("{}{}", n, m), v);
  }
  let ch = sp.chal(&format!("{}c", n));
  sp.eq(&format!("{}product x", n), al + ch * x, com(gs, &[zz[0]], zz[1]));
  sp.eq(&format!("{}product y", n), be + ch * y, com(gs, &[zz[2]], zz[3]));
  sp.eq(&format!("{}product z", n), de + ch * z, zz[2] * x + zz[4] * g(&gs.h));
}
fn sc_dotprod(n: usize) {
  let (g1, gn) = (gens1(), gens(n));
  let (x, a) = (vs("x", n), vs("a", n));
  let (bx, by) = (s("bx"), s("by"));
  let y = dot(&x, &a);
  ceq("dot product", DotProductProof::compute_dotproduct(&x, &a), y);
  ceq("dot product", DotProductProofLog::compute_dotproduct(&x, &a), y);
  let mut p = tr();
  let mut tp = tape();
  if let Some((proof, cx, cy)) =
    must("prove", || DotProductProof::prove(&g1, &gn, &mut p, &mut tp, &x, &bx, &a, &y, &by))
  {
    ceq("commitment x", c(&cx), com(&gn, &x, bx));
    ceq("commitment y", c(&cy), com(&g1, &[y], by));
    let mut v = tr();
    must_ok("verify", || proof.verify(&g1, &gn, &mut v, &a, &cx, &cy));
    same_state("dot product proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let (cx, cy) = (s("Cx"), s("Cy"));
    accept_iff(
      "dot product proof",
      |tx| back::<DotProductProof>(&t).verify(&g1, &gn, tx, &a, &cp(cx), &cp(cy)),
      |sp, _| spec_dotprod(sp, "", &t, &g1, &gn, &a, cx, cy),
    );
    shapes("dot product proof", &t, &[], |v, tx| {
      back::<DotProductProof>(v).verify(&g1, &gn, tx, &a, &cp(cx), &cp(cy))
    });
  }
}
fn gens1() -> MultiCommitGens {
  MultiCommitGens { n: 1, G: vec![pt(s("Gv"))], h: pt(s("H1")) }
}
fn spec_dotprod(
  sp: &mut Spec,
  n: &str,
  t: &Value,
  g1: &MultiCommitGens,
  gn: &MultiCommitGens,
  a: &[Scalar],
  cx: Scalar,
  cy: Scalar,
) {
  let (de, be) = (leaf(&t["delta"]), leaf(&t["beta"]));
  let (z, zd, zb) = (leaves(&t["z"]), leaf(&t["z_delta"]), leaf(&t["z_beta"]));
  sp.p(&format!("{}Cx", n), cx);
  sp.p(&format!("{}Cy", n), cy);
  sp.scs(&format!("{}a", n), a);
  sp.p(&format!("{}delta", n), de);
  sp.p(&format!("{}beta", n), be);
  let ch = sp.chal(&format!("{}c", n));
  sp.eq(&format!("{}dot product x", n), ch * cx + de, com(gn, &z, zd));
  sp.eq(&format!("{}dot product y", n), ch * cy + be, com(g1, &[dot(&z, a)], zb));
}
fn dgens(n: usize) -> DotProductProofGens {
  DotProductProofGens::new(n, b"dot")
}
fn sc_dotlog(n: usize) {
  let gs = dgens(n);
  let (x, a) = (vs("x", n), vs("a", n));
  let (bx, by) = (s("bx"), s("by"));
  let y = dot(&x, &a);
  let mut p = tr();
  let mut tp = tape();
  if let Some((proof, cx, cy)) =
    must("prove", || DotProductProofLog::prove(&gs, &mut p, &mut tp, &x, &bx, &a, &y, &by))
  {
    ceq("commitment x", c(&cx), com(&gs.gens_n, &x, bx));
    ceq("commitment y", c(&cy), com(&gs.gens_1, &[y], by));
    let mut v = tr();
    must_ok("verify", || proof.verify(n, &gs, &mut v, &a, &cx, &cy));
    same_state("logarithmic dot product proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let (cx, cy) = (s("Cx"), s("Cy"));
    accept_iff(
      "logarithmic dot product proof",
      |tx| back::<DotProductProofLog>(&t).verify(n, &gs, tx, &a, &cp(cx), &cp(cy)),
      |sp, _| spec_dotlog(sp, "", &t, &gs, &a, cx, cy),
    );
    shapes("logarithmic dot product proof", &t, &[], |v, tx| {
      back::<DotProductProofLog>(v).verify(n, &gs, tx, &a, &cp(cx), &cp(cy))
    });
  }
}
fn spec_dotlog(sp: &mut Spec, n: &str, t: &Value, gs: &DotProductProofGens, a: &[Scalar], cx: Scalar, cy: Scalar) {
  let len = a.len();
  let m = lg(len);
  let (lv, rv) = (leaves(&t["bullet_reduction_proof"]["L_vec"]), leaves(&t["bullet_reduction_proof"]["R_vec"]));
  let (de, be, z1, z2) = (leaf(&t["delta"]), leaf(&t["beta"]), leaf(&t["z1"]), leaf(&t["z2"]));
  sp.p(&format!("{}Cx", n), cx);
  sp.p(&format!("{}Cy", n), cy);
  sp.scs(&format!("{}a", n), a);
  let r = sp.chal(&format!("{}r", n));
  let mut u = vec![];
  for i in 0..m {
    sp.p(&format!("{}L[{}]", n, i), lv[i]);
    sp.p(&format!("{}R[{}]", n, i), rv[i]);
    u.push(sp.chal(&format!("{}u[{}]", n, i)));
  }
  sp.p(&format!("{}delta", n), de);
  sp.p(&format!("{}beta", n), be);
  let ch = sp.chal(&format!("{}c", n));
  let inv: Vec<Scalar> = u.iter().map(|x| Scalar::of(symcore::inv(x.id()))).collect();
  // folding the vectors round by round: low half by u^-1, high half by u
  let mut sv = vec![one()];
  for i in 0..m {
    let mut w = vec![];
    for x in &sv {
      w.push(*x * inv[i]);
      w.push(*x * u[i]);
    }
    sv = w;
  }
  let mut ghat = zero();
  let mut ahat = zero();
  for i in 0..len {
    ghat = ghat + sv[i] * g(&gs.gens_n.G[i]);
    ahat = ahat + sv[i] * a[i];
  }
  let mut gam = cx + r * cy;
  for i in 0..m {
    gam = gam + u[i] * u[i] * lv[i] + inv[i] * inv[i] * rv[i];
  }
  let lhs = (gam * ch + be) * ahat + de;
  let rhs = (ghat + r * g(&gs.gens_1.G[0]) * ahat) * z1 + g(&gs.gens_1.h) * z2;
  sp.eq(&format!("{}inner product", n), lhs, rhs);
}

// ---------------------------------------------------------------- C17
fn sc_sum_cubic(m: usize) {
  let n = 1usize << m;
  let (a, b, d) = (vs("a", n), vs("b", n), vs("c", n));
  for variant in 0..2 {
    let comb = |x: &Scalar, y: &Scalar, z: &Scalar| -> Scalar {
      if variant == 0 {
        x * y * z
      } else {
        x * (y * z - k(3) * y) + z
      }
    };
    let claim: Scalar = (0..n).map(|i| comb(&a[i], &b[i], &d[i])).sum();
    let (mut pa, mut pb, mut pc) =
      (DensePolynomial::new(a.clone()), DensePolynomial::new(b.clone()), DensePolynomial::new(d.clone()));
    let mut p = tr();
    if let Some((proof, r, fin)) = must("prove", || {
      SumcheckInstanceProof::prove_cubic(&claim, m, &mut pa, &mut pb, &mut pc, comb, &mut p)
    }) {
      fact("rounds", r.len() == m && fin.len() == 3);
      let want = [mle(&a, &r), mle(&b, &r), mle(&d, &r)];
      for i in 0..3 {
        ceq("folded table", fin[i], want[i]);
      }
      let mut v = tr();
      if let Some((e, r2)) = must_ok("verify", || proof.verify(claim, m, 3, &mut v)) {
        fact("same point", r2.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
        ceq("final claim", e, comb(&want[0], &want[1], &want[2]));
      }
      same_state("sum-check", &mut p, &mut v);
    }
  }
}
fn sc_sum_batched(m: usize, np: usize, ns: usize) {
  let n = 1usize << m;
  let comb = |x: &Scalar, y: &Scalar, z: &Scalar| -> Scalar { x * y * z };
  let tab = |l: &str, q: usize| -> Vec<Vec<Scalar>> { (0..q).map(|i| vs(&format!("{}{}_", l, i), n)).collect() };
  let (a, b) = (tab("a", np), tab("b", np));
  let cpar = vs("c", n);
  let (u, v, w) = (tab("u", ns), tab("v", ns), tab("w", ns));
  let co = vs("k", np + ns);
  let mut claim = zero();
  for i in 0..np {
    for j in 0..n {
      claim = claim + co[i] * a[i][j] * b[i][j] * cpar[j];
    }
  }
  for i in 0..ns {
    for j in 0..n {
      claim = claim + co[np + i] * u[i][j] * v[i][j] * w[i][j];
    }
  }
  let polys = |x: &Vec<Vec<Scalar>>| -> Vec<DensePolynomial> { x.iter().map(|z| DensePolynomial::new(z.clone())).collect() };
  let (mut pa, mut pb, mut pu, mut pv, mut pw) = (polys(&a), polys(&b), polys(&u), polys(&v), polys(&w));
  let mut pc = DensePolynomial::new(cpar.clone());
  let mut p = tr();
  let r = must("prove", || {
    let mut ra: Vec<&mut DensePolynomial> = pa.iter_mut().collect();
    let mut rb: Vec<&mut DensePolynomial> = pb.iter_mut().collect();
    let mut ru: Vec<&mut DensePolynomial> = pu.iter_mut().collect();
    let mut rv: Vec<&mut DensePolynomial> = pv.iter_mut().collect();
    let mut rw: Vec<&mut DensePolynomial> = pw.iter_mut().collect();
    SumcheckInstanceProof::prove_cubic_batched(
      &claim,
      m,
      (&mut ra, &mut rb, &mut pc),
      (&mut ru, &mut rv, &mut rw),
      &co,
      comb,
      &mut p,
    )
  });
  if let Some((proof, r, prod, dotp)) = r {
    fact("rounds", r.len() == m);
    let mut fin = zero();
    for i in 0..np {
      ceq("folded a", prod.0[i], mle(&a[i], &r));
      ceq("folded b", prod.1[i], mle(&b[i], &r));
      fin = fin + co[i] * prod.0[i] * prod.1[i] * prod.2;
    }
    ceq("folded c", prod.2, mle(&cpar, &r));
    for i in 0..ns {
      ceq("folded u", dotp.0[i], mle(&u[i], &r));
      ceq("folded v", dotp.1[i], mle(&v[i], &r));
      ceq("folded w", dotp.2[i], mle(&w[i], &r));
      fin = fin + co[np + i] * dotp.0[i] * dotp.1[i] * dotp.2[i];
    }
    let mut v = tr();
    if let Some((e, r2)) = must_ok("verify", || proof.verify(claim, m, 3, &mut v)) {
      fact("same point", r2.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
      ceq("final claim", e, fin);
    }
    same_state("batched sum-check", &mut p, &mut v);
  }
}
fn honest_sum(m: usize, deg: usize) -> Value {
  // shape of a proof: m rounds of deg transmitted coefficients
  let x: Vec<CompressedUniPoly> = (0..m).map(|_| UniPoly::from_evals(&vs("e", deg + 1)).compress()).collect();
  tree(&SumcheckInstanceProof::new(x))
}
fn spec_sum(sp: &mut Spec, n: &str, t: &Value, claim: Scalar, m: usize) -> (Scalar, Vec<Scalar>) {
  let mut e = claim;
  let mut r = vec![];
  for i in 0..m {
    let co = leaves(&t["compressed_polys"][i]["coeffs_except_linear_term"]);
    // the linear coefficient is what makes the values at 0 and 1 sum to the claim
    let mut lin = e - co[0] - co[0];
    for x in &co[1..] {
      lin = lin - *x;
    }
    sp.scs(&format!("{}round {} coefficient", n, i), &co);
    let ri = sp.chal(&format!("{}round {}", n, i));
    let mut v = co[0] + lin * ri;
    let mut pw = ri * ri;
    for x in &co[1..] {
      v = v + *x * pw;
      pw = pw * ri;
    }
    e = v;
    r.push(ri);
  }
  (e, r)
}
fn sc_sum_verify(m: usize, deg: usize) {
  let t = freshen(&honest_sum(m, deg), "p");
  let claim = s("claim");
  accept_iff(
    "sum-check",
    |tx| back::<SumcheckInstanceProof>(&t).verify(claim, m, deg, tx),
    |sp, (e, r)| {
      let (e2, r2) = spec_sum(sp, "", &t, claim, m);
      ceq("claim passed on", *e, e2);
      fact("point passed on", r.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
    },
  );
  shapes("sum-check", &t, &[], |v, tx| back::<SumcheckInstanceProof>(v).verify(claim, m, deg, tx));
}
fn sc_zk_quad(m: usize) {
  let n = 1usize << m;
  let (a, b) = (vs("a", n), vs("b", n));
  let comb = |x: &Scalar, y: &Scalar| -> Scalar { x * y };
  let claim: Scalar = (0..n).map(|i| comb(&a[i], &b[i])).sum();
  let bc = s("bc");
  let (g1, gn) = (gens1(), gens(3));
  let (mut pa, mut pb) = (DensePolynomial::new(a.clone()), DensePolynomial::new(b.clone()));
  let (mut p, mut tp) = (tr(), tape());
  if let Some((proof, r, fin, bl)) = must("prove", || {
    ZKSumcheckInstanceProof::prove_quad(&claim, &bc, m, &mut pa, &mut pb, comb, &g1, &gn, &mut p, &mut tp)
  }) {
    let want = [mle(&a, &r), mle(&b, &r)];
    fact("claims", fin.len() == 2 && r.len() == m);
    for i in 0..2 {
      ceq("folded table", fin[i], want[i]);
    }
    zk_tail(&proof, claim, bc, m, 2, &g1, &gn, &mut p, &r, comb(&want[0], &want[1]), bl);
  }
}
fn sc_zk_cubic(m: usize) {
  let n = 1usize << m;
  let (a, b, d, e) = (vs("a", n), vs("b", n), vs("c", n), vs("d", n));
  let comb = |x: &Scalar, y: &Scalar, z: &Scalar, w: &Scalar| -> Scalar { x * (y * z - w) };
  let claim: Scalar = (0..n).map(|i| comb(&a[i], &b[i], &d[i], &e[i])).sum();
  let bc = s("bc");
  let (g1, gn) = (gens1(), gens(4));
  let mut q: Vec<DensePolynomial> = [&a, &b, &d, &e].iter().map(|x| DensePolynomial::new(x.to_vec())).collect();
  let (mut p, mut tp) = (tr(), tape());
  if let Some((proof, r, fin, bl)) = must("prove", || {
    let mut it = q.iter_mut();
    let (pa, pb, pc, pd) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    ZKSumcheckInstanceProof::prove_cubic_with_additive_term(
      &claim, &bc, m, pa, pb, pc, pd, comb, &g1, &gn, &mut p, &mut tp,
    )
  }) {
    let want = [mle(&a, &r), mle(&b, &r), mle(&d, &r), mle(&e, &r)];
    fact("claims", fin.len() == 4 && r.len() == m);
    for i in 0..4.min(fin.len()) {
      ceq("folded table", fin[i], want[i]);
    }
    zk_tail(&proof, claim, bc, m, 3, &g1, &gn, &mut p, &r, comb(&want[0], &want[1], &want[2], &want[3]), bl);
  }
}
fn zk_tail(
  proof: &ZKSumcheckInstanceProof,
  claim: Scalar,
  bc: Scalar,
  m: usize,
  deg: usize,
  g1: &MultiCommitGens,
  gn: &MultiCommitGens,
  p: &mut Transcript,
  r: &[Scalar],
  fin: Scalar,
  bl: Scalar,
) {
  let cc = cp(com(g1, &[claim], bc));
  let mut v = tr();
  if let Some((ce, r2)) = must_ok("verify", || proof.verify(&cc, m, deg, g1, gn, &mut v)) {
    fact("same point", r2.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
    ceq("final commitment", c(&ce), com(g1, &[fin], bl));
  }
  same_state("zero-knowledge sum-check", p, &mut v);
}
fn honest_zk(m: usize, deg: usize) -> Value {
  let (g1, gn) = (gens1(), gens(deg + 1));
  let x = vs("hx", deg + 1);
  let mut ps = vec![];
  let mut cs = vec![];
  let (mut p, mut tp) = (tr(), tape());
  for _ in 0..m {
    let (q, cx, _) = DotProductProof::prove(&g1, &gn, &mut p, &mut tp, &x, &one(), &x, &one(), &one());
    ps.push(q);
    cs.push(cx);
  }
  tree(&ZKSumcheckInstanceProof::new(cs.clone(), cs, ps))
}
fn spec_zk(
  sp: &mut Spec,
  n: &str,
  t: &Value,
  claim: Scalar,
  m: usize,
  deg: usize,
  g1: &MultiCommitGens,
  gn: &MultiCommitGens,
) -> (Scalar, Vec<Scalar>) {
  let (cpo, cev) = (leaves(&t["comm_polys"]), leaves(&t["comm_evals"]));
  let mut cl = claim;
  let mut r = vec![];
  for i in 0..m {
    sp.p(&format!("{}comm_poly[{}]", n, i), cpo[i]);
    let ri = sp.chal(&format!("{}round {}", n, i));
    sp.p(&format!("{}comm_claim[{}]", n, i), cl);
    sp.p(&format!("{}comm_eval[{}]", n, i), cev[i]);
    let w = sp.chals(&format!("{}weights {}", n, i), 2);
    // <coefficients, (2,1,..,1)> is the sum of the values at 0 and 1; <coefficients, powers of r> the value at r
    let mut a = vec![];
    let mut pw = one();
    for j in 0..=deg {
      a.push(w[0] * if j == 0 { k(2) } else { one() } + w[1] * pw);
      pw = pw * ri;
    }
    let target = w[0] * cl + w[1] * cev[i];
    spec_dotprod(sp, &format!("{}proof[{}] ", n, i), &t["proofs"][i], g1, gn, &a, cpo[i], target);
    cl = cev[i];
    r.push(ri);
  }
  (cl, r)
}
fn sc_zk_verify(m: usize, deg: usize) {
  let (g1, gn) = (gens1(), gens(deg + 1));
  let t = freshen(&honest_zk(m, deg), "p");
  let cc = s("Cc");
  accept_iff(
    "zero-knowledge sum-check",
    |tx| back::<ZKSumcheckInstanceProof>(&t).verify(&cp(cc), m, deg, &g1, &gn, tx),
    |sp, (e, r)| {
      let (e2, r2) = spec_zk(sp, "", &t, cc, m, deg, &g1, &gn);
      ceq("commitment passed on", c(e), e2);
      fact("point passed on", r.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
    },
  );
  shapes("zero-knowledge sum-check", &t, &[], |v, tx| {
    back::<ZKSumcheckInstanceProof>(v).verify(&cp(cc), m, deg, &g1, &gn, tx)
  });
}

// ---------------------------------------------------------------- C18
type Ent = (usize, usize, Scalar);
fn bytes_of(m: &[Ent]) -> Vec<(usize, usize, [u8; 32])> {
  m.iter().map(|&(r, q, v)| (r, q, v.to_bytes())).collect()
}
/// entries: every position, and some positions twice
fn entries(l: &str, nc: usize, cols: usize) -> Vec<Ent> {
  let mut m = vec![];
  for i in 0..nc {
    for j in 0..cols {
      m.push((i, j, s(&format!("{}{}_{}", l, i, j))));
    }
  }
  if nc > 0 {
    m.push((nc - 1, cols - 1, s(&format!("{}dup", l))));
  }
  m
}
fn row(m: &[Ent], i: usize, z: &[Scalar]) -> Scalar {
  let mut e = zero();
  for &(r, q, v) in m {
    if r == i {
      e = e + v * z[q];
    }
  }
  e
}
fn asn(x: &[Scalar]) -> Assignment {
  Assignment::new(&x.iter().map(|y| y.to_bytes()).collect::<Vec<_>>()).unwrap()
}
fn pow2(n: usize) -> usize {
  n.next_power_of_two()
}
fn sc_instance(nc: usize, nv: usize, ni: usize) {
  let cols = nv + 1 + ni;
  let (a, b, d) = (entries("A", nc, cols), entries("B", nc, cols), entries("C", nc, cols));
  let inst = match must("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(Ok(x)) => x,
    Some(Err(e)) => return fact(&format!("instance refused: {:?}", e), false),
    None => return,
  };
  let i = &inst.inst;
  let (pv, pc) = (i.get_num_vars(), i.get_num_cons());
  fact("padded variables", pv >= nv && pv > ni && pow2(pv) == pv && pv < 2 * (nv.max(ni + 1)));
  fact("padded constraints", pc >= nc && pc >= 2 && pow2(pc) == pc && (nc < 3 || pc < 2 * nc));
  fact("inputs kept", i.get_num_inputs() == ni);
  let (v, inp) = (vs("v", nv), vs("i", ni));
  let mut z = v.clone();
  z.push(one());
  z.extend(&inp);
  // the verdict, given as many variables as the circuit has and given them padded
  for padded in [false, true] {
    let mut vv = v.clone();
    if padded {
      vv.resize(pv, zero());
    }
    let (va, ia) = (asn(&vv), asn(&inp));
    symcore::assume(Some(vec![]));
    symcore::log("PATH satisfied".into());
    let r = catch(|| inst.is_sat(&va, &ia));
    let cnt = symcore::decisions();
    symcore::assume(None);
    symcore::log("ENDPATH satisfied ok".into());
    fact("satisfied when every row holds", matches!(r, Ok(Ok(true))));
    for j in 0..nc {
      symcore::spec_eq(&format!("row_{}", j), (row(&a, j, &z) * row(&b, j, &z)).id(), row(&d, j, &z).id());
    }
    symcore::log("ENDSPEC satisfied".into());
    for q in 0..cnt {
      let r = symcore::scoped(|| {
        let mut script = vec![true; q];
        script.push(false);
        symcore::assume(Some(script));
        let r = catch(|| inst.is_sat(&va, &ia));
        symcore::assume(None);
        r
      });
      fact(&format!("not satisfied when comparison {} fails", q), matches!(r, Ok(Ok(false))));
    }
  }
  // wrong numbers of values
  let r = inst.is_sat(&asn(&vs("w", pv + 1)), &asn(&inp));
  fact("too many variables refused", matches!(r, Err(R1CSError::InvalidNumberOfInputs)));
  let r = inst.is_sat(&asn(&v), &asn(&vs("w", ni + 1)));
  fact("too many inputs refused", matches!(r, Err(R1CSError::InvalidNumberOfInputs)));
  if ni > 0 {
    let r = inst.is_sat(&asn(&v), &asn(&vs("w", ni - 1)));
    fact("too few inputs refused", matches!(r, Err(R1CSError::InvalidNumberOfInputs)));
  }
  if nv > 0 {
    let short = v[..nv - 1].to_vec();
    let mut z2 = short.clone();
    z2.push(zero());
    z2.push(one());
    z2.extend(&inp);
    let (va, ia) = (asn(&short), asn(&inp));
    symcore::assume(Some(vec![]));
    symcore::log("PATH short".into());
    let r = catch(|| inst.is_sat(&va, &ia));
    symcore::assume(None);
    symcore::log("ENDPATH short ok".into());
    fact("missing variables count as zero", matches!(r, Ok(Ok(true))));
    for j in 0..nc {
      symcore::spec_eq(&format!("row_{}", j), (row(&a, j, &z2) * row(&b, j, &z2)).id(), row(&d, j, &z2).id());
    }
    symcore::log("ENDSPEC short".into());
  }
  // the matrices as the proof system uses them: z = (variables padded, 1, inputs, padding)
  let mut zp = v.clone();
  zp.resize(pv, zero());
  zp.push(one());
  zp.extend(&inp);
  zp.resize(2 * pv, zero());
  let place = |q: usize| if q < nv { q } else { q - nv + pv };
  if let Some((ma, mb, mc)) = must("multiply_vec", || i.multiply_vec(pc, 2 * pv, &zp)) {
    for (l, m, e) in [("A", &ma, &a), ("B", &mb, &b), ("C", &mc, &d)] {
      fact("product length", m.len() == pc);
      for j in 0..pc {
        ceq(&format!("{}z[{}]", l, j), m[j], if j < nc { row(e, j, &z) } else { zero() });
      }
    }
  }
  let ev = vs("e", pc);
  if let Some((ma, mb, mc)) = must("eval table", || i.compute_eval_table_sparse(pc, 2 * pv, &ev)) {
    for (l, m, e) in [("A", &ma, &a), ("B", &mb, &b), ("C", &mc, &d)] {
      fact("table length", m.len() == 2 * pv);
      for q in 0..2 * pv {
        let mut w = zero();
        for &(r, cc, x) in e.iter() {
          if place(cc) == q {
            w = w + ev[r] * x;
          }
        }
        ceq(&format!("{} table [{}]", l, q), m[q], w);
      }
    }
  }
  let (rx, ry) = (vs("x", lg(pc)), vs("y", lg(2 * pv)));
  if let Some((ea, eb, ec)) = must("evaluate", || i.evaluate(&rx, &ry)) {
    for (l, m, e) in [("A", ea, &a), ("B", eb, &b), ("C", ec, &d)] {
      let mut w = zero();
      for &(r, cc, x) in e.iter() {
        w = w + x * chi(&rx, r) * chi(&ry, place(cc));
      }
      ceq(&format!("{} at (rx,ry)", l), m, w);
    }
  }
}
/// indices and values that must be refused
fn sc_refuse(nc: usize, nv: usize, ni: usize) {
  let cols = nv + 1 + ni;
  let one_b = one().to_bytes();
  let good = (0usize, 0usize, one_b);
  let q_bytes: [u8; 32] = {
    let mut b = [0xffu8; 32];
    b[..8].copy_from_slice(&symcore::Q[0].to_le_bytes());
    b
  };
  let mut over = q_bytes;
  over[31] = 0xff;
  for which in 0..3 {
    let mk = |e: (usize, usize, [u8; 32])| {
      let mut m = [vec![], vec![], vec![]];
      if nc > 0 {
        m[which].push(good);
      }
      m[which].push(e);
      symcore::scoped(|| catch(|| Instance::new(nc, nv, ni, &m[0], &m[1], &m[2]).map(|_| ())))
    };
    for r in [nc, nc + 1, 2 * nc + 3, usize::MAX] {
      fact(&format!("row {} of {} refused in matrix {}", r, nc, which), matches!(mk((r, 0, one_b)), Ok(Err(R1CSError::InvalidIndex))));
    }
    if nc > 0 {
      for q in [cols, cols + 1, 2 * cols + 3, usize::MAX] {
        fact(&format!("column {} of {} refused in matrix {}", q, cols, which), matches!(mk((0, q, one_b)), Ok(Err(R1CSError::InvalidIndex))));
      }
      for v in [q_bytes, [0xff; 32]] {
        fact(&format!("non-canonical value refused in matrix {}", which), matches!(mk((nc - 1, cols - 1, v)), Ok(Err(R1CSError::InvalidScalar))));
      }
      fact(&format!("last position accepted in matrix {}", which), matches!(mk((nc - 1, cols - 1, one_b)), Ok(Ok(()))));
    }
  }
  let bad = Assignment::new(&[one_b, q_bytes]);
  fact("non-canonical assignment refused", matches!(bad, Err(R1CSError::InvalidScalar)));
}
fn sc_synth(nc: usize, nv: usize, ni: usize) {
  if let Some((inst, vars, inp)) = must("produce_synthetic_r1cs", || Instance::produce_synthetic_r1cs(nc, nv, ni)) {
    let r = must("is_sat", || inst.is_sat(&vars, &inp));
    fact("synthetic instance is satisfied", matches!(r, Some(Ok(true))));
    let (v, i) = (leaves(&tree(&vars)["assignment"]), leaves(&tree(&inp)["assignment"]));
    fact("synthetic sizes", v.len() == nv && i.len() == ni);
  }
}

// ---------------------------------------------------------------- C20
/// a satisfied system: row i says (A_i z)(B_i z) = z_{out(i)} with A_i, B_i over the other columns
fn satisfied(nc: usize, nv: usize, ni: usize) -> (Vec<Ent>, Vec<Ent>, Vec<Ent>, Vec<Scalar>, Vec<Scalar>) {
  let cols = nv + 1 + ni;
  let outs: Vec<usize> = (0..nc).map(|i| i % nv.max(1)).collect();
  let mut z: Vec<Option<Scalar>> = vec![None; cols];
  z[nv] = Some(one());
  for i in 0..ni {
    z[nv + 1 + i] = Some(s(&format!("in{}", i)));
  }
  for j in nc..nv {
    z[j] = Some(s(&format!("w{}", j)));
  }
  if nv == 0 {
    z = z;
  }
  let (mut a, mut b, mut d) = (vec![], vec![], vec![]);
  for i in 0..nc {
    // rows may use what is already defined
    let known: Vec<usize> = (0..cols).filter(|j| z[*j].is_some()).collect();
    let mut av = zero();
    let mut bv = zero();
    for (x, j) in known.iter().enumerate() {
      if (x + i) % 2 == 0 || x + 1 == known.len() {
        let e = s(&format!("A{}_{}", i, j));
        a.push((i, *j, e));
        av = av + e * z[*j].unwrap();
      }
      if (x + i) % 3 != 1 || x == 0 {
        let e = s(&format!("B{}_{}", i, j));
        b.push((i, *j, e));
        bv = bv + e * z[*j].unwrap();
      }
    }
    if nv > 0 && i < nv {
      z[outs[i]] = Some(av * bv);
      d.push((i, outs[i], one()));
    } else {
      // more rows than variables: the right side is a multiple of the constant
      d.push((i, nv, av * bv));
    }
  }
  let v: Vec<Scalar> = (0..nv).map(|j| z[j].unwrap()).collect();
  let inp: Vec<Scalar> = (0..ni).map(|j| z[nv + 1 + j].unwrap()).collect();
  (a, b, d, v, inp)
}
fn sc_nizk(nc: usize, nv: usize, ni: usize) {
  let (a, b, d, v, inp) = satisfied(nc, nv, ni);
  let inst = match must_ok("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(x) => x,
    None => return,
  };
  let gs = NIZKGens::new(nc, nv, ni);
  let (va, ia) = (asn(&v), asn(&inp));
  let r = must("is_sat", || inst.is_sat(&va, &ia));
  fact("instance is satisfied", matches!(r, Some(Ok(true))));
  let mut p = tr();
  if let Some(proof) = must("prove", || NIZK::prove(&inst, va.clone(), &ia, &gs, &mut p)) {
    let mut v = tr();
    must_ok("verify", || proof.verify(&inst, &ia, &mut v, &gs));
    same_state("NIZK", &mut p, &mut v);
    // through the wire format
    let by = bincode::serialize(&proof).unwrap();
    let q: NIZK = bincode::deserialize(&by).unwrap();
    let mut v = tr();
    must_ok("verify the decoded proof", || q.verify(&inst, &ia, &mut v, &gs));
    // other public inputs
    for j in 0..ni {
      let mut i2 = inp.clone();
      i2[j] = s("other");
      let r = symcore::scoped(|| {
        let mut t = tr();
        outcome(&catch(|| q.verify(&inst, &asn(&i2), &mut t, &gs)))
      });
      fact(&format!("another value of input {} is not accepted", j), r != "ok");
    }
    // every component of the proof, replaced
    let tr0 = tree(&proof);
    let mut paths = vec![];
    walk(&tr0, &mut vec![], &mut |p, v| {
      if v.is_string() {
        paths.push((p.to_vec(), v.as_str().unwrap()[..2].to_string()));
      }
    });
    for (p, kind) in paths {
      let r = symcore::scoped(|| {
        let mut v = tr0.clone();
        *at(&mut v, &p) = Value::String(format!("{}{}", kind, symcore::var("changed").0));
        let mut t = tr();
        outcome(&catch(|| back::<NIZK>(&v).verify(&inst, &ia, &mut t, &gs)))
      });
      fact(&format!("{} replaced is not accepted", p.join(".")), r != "ok");
    }
    // another instance
    let mut a2 = a.clone();
    a2[0].2 = s("otherA");
    let r = symcore::scoped(|| {
      let i2 = Instance::new(nc, nv, ni, &bytes_of(&a2), &bytes_of(&b), &bytes_of(&d)).unwrap();
      let mut t = tr();
      outcome(&catch(|| q.verify(&i2, &ia, &mut t, &gs)))
    });
    fact("the proof is not accepted for another instance", r != "ok");
  }
}
fn spec_r1cs(
  sp: &mut Spec,
  t: &Value,
  gs: &RGens,
  nv: usize,
  nc: usize,
  input: &[Scalar],
  evals: &[Scalar],
) -> (Vec<Scalar>, Vec<Scalar>) {
  let (mx, my) = (lg(nc), lg(2 * nv));
  sp.scs("input", input);
  let cv = leaves(&t["comm_vars"]["C"]);
  sp.ps("comm_vars", &cv);
  let tau = sp.chals("tau", mx);
  let (c1, rx) = spec_zk(sp, "phase 1 ", &t["sc_proof_phase1"], zero(), mx, 3, &gs.g1, &gs.g4);
  let cl = leaves(&t["claims_phase2"]);
  spec_knowledge(sp, "Cz ", &t["pok_claims_phase2"][0], &gs.g1, cl[2]);
  spec_product(sp, "Az Bz ", &t["pok_claims_phase2"][1], &gs.g1, cl[0], cl[1], cl[3]);
  let mut eq = one();
  for i in 0..mx {
    eq = eq * (rx[i] * tau[i] + (one() - rx[i]) * (one() - tau[i]));
  }
  spec_equality(sp, "phase 1 claim ", &t["proof_eq_sc_phase1"], &gs.g1, eq * (cl[3] - cl[2]), c1);
  let rr = sp.chals("r_ABC", 3);
  let claim2 = rr[0] * cl[0] + rr[1] * cl[1] + rr[2] * cl[2];
  let (c2, ry) = spec_zk(sp, "phase 2 ", &t["sc_proof_phase2"], claim2, my, 2, &gs.g1, &gs.g3);
  let cvr = leaf(&t["comm_vars_at_ry"]);
  let y = &ry[1..];
  let l = chis(&y[..y.len() / 2]);
  spec_dotlog(sp, "evaluation ", &t["proof_eval_vars_at_ry"]["proof"], &gs.gp, &chis(&y[y.len() / 2..]), dot(&l, &cv), cvr);
  let mut pin = chi(y, 0);
  for i in 0..input.len() {
    pin = pin + input[i] * chi(y, i + 1);
  }
  let cz = (one() - ry[0]) * cvr + ry[0] * pin * g(&gs.gp.gens_1.G[0]);
  let want = (rr[0] * evals[0] + rr[1] * evals[1] + rr[2] * evals[2]) * cz;
  spec_equality(sp, "phase 2 claim ", &t["proof_eq_sc_phase2"], &gs.g1, want, c2);
  (rx, ry)
}
/// the generators a proof of this size is checked with, derived the way their users do
struct RGens {
  g1: MultiCommitGens,
  g3: MultiCommitGens,
  g4: MultiCommitGens,
  gp: DotProductProofGens,
}
fn rgens(nv: usize) -> RGens {
  let l = b"gens_r1cs_sat";
  let pc = PolyCommitmentGens::new(lg(nv), l);
  RGens { g1: pc.gens.gens_1.clone(), g3: MultiCommitGens::new(3, l), g4: MultiCommitGens::new(4, l), gp: pc.gens }
}
fn sc_nizk_verify(nc: usize, nv: usize, ni: usize) {
  let (a, b, d, v, inp) = satisfied(nc, nv, ni);
  let inst = match must_ok("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(x) => x,
    None => return,
  };
  let gs = NIZKGens::new(nc, nv, ni);
  let (va, ia) = (asn(&v), asn(&inp));
  let honest = match must("prove", || NIZK::prove(&inst, va.clone(), &ia, &gs, &mut tr())) {
    Some(x) => x,
    None => return,
  };
  let t = freshen(&tree(&honest), "p");
  let (pv, pc) = (inst.inst.get_num_vars(), inst.inst.get_num_cons());
  let input = vs("pub", ni);
  let ia = asn(&input);
  let rg = rgens(pv);
  let place = |q: usize| if q < nv { q } else { q - nv + pv };
  accept_iff(
    "NIZK",
    |tx| back::<NIZK>(&t).verify(&inst, &ia, tx, &gs),
    |sp, _| {
      let (cx, cy) = (leaves(&t["r"][0]), leaves(&t["r"][1]));
      let mut ev = vec![];
      for m in [&a, &b, &d] {
        let mut w = zero();
        for &(r, q, x) in m.iter() {
          w = w + x * chi(&cx, r) * chi(&cy, place(q));
        }
        ev.push(w);
      }
      let dig: Vec<u8> = inst.inst.get_digest();
      sp.raw("instance digest", dig);
      let (rx, ry) = spec_r1cs(sp, &t["r1cs_sat_proof"], &rg, pv, pc, &input, &ev);
      for i in 0..rx.len() {
        sp.eq(&format!("claimed rx[{}]", i), cx[i], rx[i]);
      }
      for i in 0..ry.len() {
        sp.eq(&format!("claimed ry[{}]", i), cy[i], ry[i]);
      }
    },
  );
  shapes("NIZK", &t, &[], |v, tx| {
    let p: NIZK = serde_json::from_value(v.clone()).map_err(|_| ProofVerifyError::InternalError)?;
    p.verify(&inst, &ia, tx, &gs)
  });
  // wrong number of public inputs
  for m in [ni + 1, ni + 2] {
    let r = symcore::scoped(|| {
      symcore::assume(Some(vec![]));
      let mut tx = tr();
      let r = outcome(&catch(|| back::<NIZK>(&t).verify(&inst, &asn(&vs("pp", m)), &mut tx, &gs)));
      symcore::assume(None);
      r
    });
    fact(&format!("{} public inputs instead of {} are not accepted", m, ni), r != "ok");
  }
}

// ---------------------------------------------------------------- C28
fn sc_circuit(m: usize) {
  let n = 1usize << m;
  let z = vs("z", n);
  let d = DensePolynomial::new(z.clone());
  if let Some(pc) = must("product circuit", || ProductCircuit::new(&d)) {
    let mut p = one();
    for x in &z {
      p = p * *x;
    }
    ceq("product of all inputs", pc.evaluate(), p);
  }
  let (l, r, w) = (vs("l", n), vs("r", n), vs("w", n));
  let mk = |x: &Vec<Scalar>| DensePolynomial::new(x.clone());
  let mut dp = DotProductCircuit::new(mk(&l), mk(&r), mk(&w));
  let term = |i: usize| l[i] * r[i] * w[i];
  let mut e = zero();
  for i in 0..n {
    e = e + term(i);
  }
  ceq("weighted dot product", dp.evaluate(), e);
  if m > 0 {
    let (a, b) = dp.split();
    let (mut x, mut y) = (zero(), zero());
    for i in 0..n / 2 {
      x = x + term(i);
      y = y + term(n / 2 + i);
    }
    ceq("left half", a.evaluate(), x);
    ceq("right half", b.evaluate(), y);
  }
}
fn sc_prodproof(m: usize) {
  let n = 1usize << m;
  let z = vs("z", n);
  let d = DensePolynomial::new(z.clone());
  let mut ci = ProductCircuit::new(&d);
  let ev = ci.evaluate();
  let mut p = tr();
  if let Some((proof, cl, r)) = must("prove", || ProductCircuitEvalProof::prove(&mut ci, &mut p)) {
    let mut v = tr();
    if let Some((cl2, r2)) = must("verify", || proof.verify(ev, n, &mut v)) {
      ceq("claims agree", cl, cl2);
      fact("same point", r.len() == m && r2.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
      ceq("claim is the input polynomial's value", cl2, mle(&z, &r2));
    }
    same_state("product circuit proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let e = s("eval");
    accept_iff(
      "product circuit proof",
      |tx| Ok::<_, ()>(back::<ProductCircuitEvalProof>(&t).verify(e, n, tx)),
      |sp, (cl, r)| {
        let mut claim = e;
        let mut rand: Vec<Scalar> = vec![];
        for i in 0..m {
          let q = &t["proof"][i];
          let (last, rp) = spec_sum(sp, &format!("layer {} ", i), &q["proof"], claim, i);
          let cs = leaves(&q["claims"]);
          sp.scs(&format!("layer {} claims", i), &cs[..2]);
          let mut eq = one();
          for j in 0..i {
            eq = eq * (rand[j] * rp[j] + (one() - rand[j]) * (one() - rp[j]));
          }
          sp.eq(&format!("layer {}", i), cs[0] * cs[1] * eq, last);
          let rl = sp.chal(&format!("layer {}", i));
          claim = (one() - rl) * cs[0] + rl * cs[1];
          rand = std::iter::once(rl).chain(rp).collect();
        }
        ceq("claim passed on", *cl, claim);
        fact("point passed on", r.len() == m && (0..m).all(|i| r[i].id() == rand[i].id()));
      },
    );
  }
}
/// several product circuits and weighted dot products in one proof
fn sc_prodbatch(m: usize, np: usize, nd: usize) {
  let n = 1usize << m;
  let z: Vec<Vec<Scalar>> = (0..np).map(|i| vs(&format!("z{}_", i), n)).collect();
  let dl: Vec<[Vec<Scalar>; 3]> = (0..nd)
    .map(|i| [vs(&format!("l{}_", i), n / 2), vs(&format!("r{}_", i), n / 2), vs(&format!("w{}_", i), n / 2)])
    .collect();
  let mut pcs: Vec<ProductCircuit> = z.iter().map(|x| ProductCircuit::new(&DensePolynomial::new(x.clone()))).collect();
  let mut dcs: Vec<DotProductCircuit> = dl
    .iter()
    .map(|x| {
      let mk = |y: &Vec<Scalar>| DensePolynomial::new(y.clone());
      DotProductCircuit::new(mk(&x[0]), mk(&x[1]), mk(&x[2]))
    })
    .collect();
  let pe: Vec<Scalar> = pcs.iter().map(|x| x.evaluate()).collect();
  let de: Vec<Scalar> = dcs.iter().map(|x| x.evaluate()).collect();
  let mut p = tr();
  if let Some((proof, r)) = must("prove", || {
    ProductCircuitEvalProofBatched::prove(&mut pcs.iter_mut().collect(), &mut dcs.iter_mut().collect(), &mut p)
  }) {
    let mut v = tr();
    if let Some((cl, cd, r2)) = must("verify", || proof.verify(&pe, &de, n, &mut v)) {
      fact("same point", r.len() == m && r2.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
      fact("claims", cl.len() == np && cd.len() == 3 * (nd / 2));
      for i in 0..np {
        ceq("claim is the input polynomial's value", cl[i], mle(&z[i], &r2));
      }
      for i in 0..nd / 2 {
        for q in 0..3 {
          // the two halves are one polynomial with the first variable added
          let mut both = dl[2 * i][q].clone();
          both.extend(&dl[2 * i + 1][q]);
          ceq("dot product claim", cd[3 * i + q], mle(&both, &r2));
        }
      }
    }
    same_state("batched product circuit proof", &mut p, &mut v);
    let t = freshen(&tree(&proof), "p");
    let (e, f) = (vs("pe", np), vs("de", nd));
    accept_iff(
      "batched product circuit proof",
      |tx| Ok::<_, ()>(back::<ProductCircuitEvalProofBatched>(&t).verify(&e, &f, n, tx)),
      |sp, (cl, cd, r)| {
        let (cl2, cd2, r2) = spec_prodbatch(sp, "", &t, &e, &f, m);
        for i in 0..np {
          ceq("claim passed on", cl[i], cl2[i]);
        }
        fact("dot product claims passed on", cd.len() == cd2.len());
        for i in 0..cd2.len() {
          ceq("dot product claim passed on", cd[i], cd2[i]);
        }
        fact("point passed on", r.len() == m && (0..m).all(|i| r[i].id() == r2[i].id()));
      },
    );
    shapes("batched product circuit proof", &t, &["claims_dotp: "], |v, tx| {
      Ok::<_, ()>(back::<ProductCircuitEvalProofBatched>(v).verify(&e, &f, n, tx))
    });
  }
}
fn spec_prodbatch(
  sp: &mut Spec,
  n: &str,
  t: &Value,
  e: &[Scalar],
  f: &[Scalar],
  m: usize,
) -> (Vec<Scalar>, Vec<Scalar>, Vec<Scalar>) {
  let np = e.len();
  let mut claims = e.to_vec();
  let mut rand: Vec<Scalar> = vec![];
  let mut cd = vec![];
  for i in 0..m {
    let q = &t["proof"][i];
    if i == m - 1 {
      claims.extend(f);
    }
    let co = sp.chals(&format!("{}layer {} coefficients", n, i), claims.len());
    let (last, rp) = spec_sum(sp, &format!("{}layer {} ", n, i), &q["proof"], dot(&co, &claims), i);
    let (l, r) = (leaves(&q["claims_prod_left"]), leaves(&q["claims_prod_right"]));
    sp.scs(&format!("{}layer {} left", n, i), &l[..np]);
    sp.scs(&format!("{}layer {} right", n, i), &r[..np]);
    let mut eq = one();
    for j in 0..i {
      eq = eq * (rand[j] * rp[j] + (one() - rand[j]) * (one() - rp[j]));
    }
    let mut want = zero();
    for j in 0..np {
      want = want + co[j] * l[j] * r[j] * eq;
    }
    let mut d3: Vec<Vec<Scalar>> = vec![];
    if i == m - 1 && !f.is_empty() {
      for x in 0..3 {
        d3.push(leaves(&t["claims_dotp"][x]));
        sp.scs(&format!("{}dot product claims {}", n, x), &d3[x][..f.len()]);
      }
      for j in 0..f.len() {
        want = want + co[np + j] * d3[0][j] * d3[1][j] * d3[2][j];
      }
    }
    sp.eq(&format!("{}layer {}", n, i), want, last);
    let rl = sp.chal(&format!("{}layer {}", n, i));
    claims = (0..np).map(|j| l[j] + rl * (r[j] - l[j])).collect();
    if !d3.is_empty() {
      for j in 0..f.len() / 2 {
        for x in 0..3 {
          cd.push(d3[x][2 * j] + rl * (d3[x][2 * j + 1] - d3[x][2 * j]));
        }
      }
    }
    rand = std::iter::once(rl).chain(rp).collect();
  }
  (claims, cd, rand)
}
fn smat(l: &str, mx: usize, my: usize, nz: usize) -> Vec<Ent> {
  let (rows, cols) = (1usize << mx, 1usize << my);
  (0..nz).map(|i| ((3 * i + 1 + i / 3) % rows, (5 * i + 2 + i / 2) % cols, s(&format!("{}{}", l, i)))).collect()
}
fn spoly(m: &[Ent], mx: usize, my: usize) -> SparseMatPolynomial {
  SparseMatPolynomial::new(mx, my, m.iter().map(|&(r, q, v)| SparseMatEntry::new(r, q, v)).collect())
}
fn smle(m: &[Ent], rx: &[Scalar], ry: &[Scalar]) -> Scalar {
  let mut w = zero();
  for &(r, q, v) in m {
    w = w + v * chi(rx, r) * chi(ry, q);
  }
  w
}
fn sc_sparse(mx: usize, my: usize, nz: usize) {
  let (rows, cols) = (1usize << mx, 1usize << my);
  let m: Vec<Vec<Ent>> = ["A", "B", "C"].iter().enumerate().map(|(i, l)| smat(l, mx, my, nz + i)).collect();
  let ps: Vec<SparseMatPolynomial> = m.iter().map(|x| spoly(x, mx, my)).collect();
  let (rx, ry) = (vs("x", mx), vs("y", my));
  if let Some(ev) = must("multi_evaluate", || SparseMatPolynomial::multi_evaluate(&[&ps[0], &ps[1], &ps[2]], &rx, &ry)) {
    fact("one value per matrix", ev.len() == 3);
    for i in 0..3 {
      ceq("value", ev[i], smle(&m[i], &rx, &ry));
    }
  }
  let z = vs("z", cols);
  let e = vs("e", rows);
  for i in 0..3 {
    fact("entries rounded up", ps[i].get_num_nz_entries() == pow2(m[i].len()));
    let p = ps[i].multiply_vec(rows, cols, &z);
    fact("rows", p.len() == rows);
    for j in 0..rows {
      ceq("matrix times vector", p[j], row(&m[i], j, &z));
    }
    let t = ps[i].compute_eval_table_sparse(&e, rows, cols);
    fact("columns", t.len() == cols);
    for j in 0..cols {
      let mut w = zero();
      for &(r, q, v) in &m[i] {
        if q == j {
          w = w + e[r] * v;
        }
      }
      ceq("vector times matrix", t[j], w);
    }
  }
  // sparse polynomial of the public inputs
  let zz = vs("q", 3.min(cols));
  let sp = SparsePolynomial::new(my, zz.iter().enumerate().map(|(i, v)| SparsePolyEntry::new((2 * i + 1) % cols, *v)).collect());
  let mut w = zero();
  for (i, v) in zz.iter().enumerate() {
    w = w + *v * chi(&ry, (2 * i + 1) % cols);
  }
  ceq("sparse polynomial", sp.evaluate(&ry), w);
}
fn sc_sparse_proof(mx: usize, my: usize, nz: usize) {
  let m: Vec<Vec<Ent>> = ["A", "B", "C"].iter().map(|l| smat(l, mx, my, nz)).collect();
  let ps: Vec<SparseMatPolynomial> = m.iter().map(|x| spoly(x, mx, my)).collect();
  let gs = SparseMatPolyCommitmentGens::new(b"sparse", mx, my, nz, 3);
  let (cm, dense) = match must("commit", || SparseMatPolynomial::multi_commit(&[&ps[0], &ps[1], &ps[2]], &gs)) {
    Some(x) => x,
    None => return,
  };
  let (rx, ry) = (vs("x", mx), vs("y", my));
  let ev: Vec<Scalar> = m.iter().map(|x| smle(x, &rx, &ry)).collect();
  let (mut p, mut tp) = (tr(), tape());
  if let Some(proof) = must("prove", || SparseMatPolyEvalProof::prove(&dense, &rx, &ry, &ev, &gs, &mut p, &mut tp)) {
    let mut v = tr();
    must_ok("verify", || proof.verify(&cm, &rx, &ry, &ev, &gs, &mut v));
    same_state("sparse evaluation proof", &mut p, &mut v);
    for j in 0..3 {
      let mut e2 = ev.clone();
      e2[j] = s("otherval");
      let r = symcore::scoped(|| {
        let mut t = tr();
        outcome(&catch(|| proof.verify(&cm, &rx, &ry, &e2, &gs, &mut t)))
      });
      fact(&format!("another value of matrix {} is not accepted", j), r != "ok");
    }
    let t = freshen(&tree(&proof), "p");
    let ct = freshen(&tree(&cm), "cm");
    let e = vs("ev", 3);
    let num = |x: &Value| x.as_u64().unwrap() as usize;
    let (nops, ncells) = (num(&ct["num_ops"]), num(&ct["num_mem_cells"]));
    fact("sizes in the commitment", nops == pow2(nz) && ncells == 1 << mx.max(my) && num(&ct["batch_size"]) == 3);
    accept_iff(
      "sparse evaluation proof",
      |tx| back::<SparseMatPolyEvalProof>(&t).verify(&back(&ct), &rx, &ry, &e, &gs, tx),
      |sp, _| spec_sparse(sp, &t, &ct, &rx, &ry, &e, &b"sparse"[..], nz),
    );
    shapes("sparse evaluation proof", &t, &[], |v, tx| {
      let p: SparseMatPolyEvalProof = serde_json::from_value(v.clone()).map_err(|_| ProofVerifyError::InternalError)?;
      p.verify(&back(&ct), &rx, &ry, &e, &gs, tx)
    });
  }
}
fn bind(sp: &mut Spec, n: &str, evals: &[Scalar]) -> (Scalar, Vec<Scalar>) {
  let mut v = evals.to_vec();
  v.resize(pow2(v.len()), zero());
  sp.scs(&format!("{}claimed values", n), &v);
  let ch = sp.chals(&format!("{}combination", n), lg(v.len()));
  (mle(&v, &ch), ch)
}
fn spec_open(sp: &mut Spec, n: &str, t: &Value, pc: &Value, gs: &DotProductProofGens, pnt: &[Scalar], val: Scalar) {
  let cs = leaves(&pc["C"]);
  let l = chis(&pnt[..pnt.len() / 2]);
  let r = chis(&pnt[pnt.len() / 2..]);
  spec_dotlog(sp, n, &t["proof"], gs, &r, dot(&l, &cs), val * g(&gs.gens_1.G[0]));
}
fn spec_sparse(
  sp: &mut Spec,
  t: &Value,
  ct: &Value,
  rx: &[Scalar],
  ry: &[Scalar],
  e: &[Scalar],
  label: &'static [u8],
  nz: usize,
) {
  let mm = rx.len().max(ry.len());
  let ext = |r: &[Scalar]| {
    let mut v = vec![zero(); mm - r.len()];
    v.extend(r);
    v
  };
  let (rx, ry) = (ext(rx), ext(ry));
  let mo = lg(pow2(nz));
  let go = PolyCommitmentGens::new(mo + 4, label).gens;
  let gm = PolyCommitmentGens::new(mm + 1, label).gens;
  let gd = PolyCommitmentGens::new(mo + 3, label).gens;
  let cd = &t["comm_derefs"]["comm_ops_val"];
  sp.ps("dereferenced values", &leaves(&cd["C"]));
  let rh = sp.chals("hash", 2);
  let net = &t["poly_eval_network_proof"];
  let pl = &net["proof_prod_layer"];
  let hl = &net["proof_hash_layer"];
  let mut ini = vec![];
  for side in ["eval_row", "eval_col"] {
    let q = &pl[side];
    let (i0, rd, wr, au) = (leaf(&q[0]), leaves(&q[1]), leaves(&q[2]), leaf(&q[3]));
    sp.sc(&format!("{} init", side), i0);
    sp.scs(&format!("{} read", side), &rd);
    sp.scs(&format!("{} write", side), &wr);
    sp.sc(&format!("{} audit", side), au);
    sp.eq(&format!("{} multiset", side), i0 * wr[0] * wr[1] * wr[2], rd[0] * rd[1] * rd[2] * au);
    ini.push((i0, rd, wr, au));
  }
  let (dl, dr) = (leaves(&pl["eval_val"][0]), leaves(&pl["eval_val"][1]));
  let mut dc = vec![];
  for i in 0..3 {
    sp.sc("dot product left", dl[i]);
    sp.sc("dot product right", dr[i]);
    sp.eq(&format!("value of matrix {}", i), dl[i] + dr[i], e[i]);
    dc.push(dl[i]);
    dc.push(dr[i]);
  }
  let mut pr = vec![];
  for x in &ini {
    pr.extend(&x.1);
    pr.extend(&x.2);
  }
  let (co, cdp, ro) = spec_prodbatch(sp, "ops ", &pl["proof_ops"], &pr, &dc, mo);
  let (cmem, _, rm) =
    spec_prodbatch(sp, "mem ", &pl["proof_mem"], &[ini[0].0, ini[0].3, ini[1].0, ini[1].3], &[], mm);
  // hash layer
  let (dv_r, dv_c) = (leaves(&hl["eval_derefs"][0]), leaves(&hl["eval_derefs"][1]));
  let mut all = dv_r.clone();
  all.extend(&dv_c);
  let (v, ch) = bind(sp, "derefs ", &all);
  let p: Vec<Scalar> = ch.into_iter().chain(ro.iter().cloned()).collect();
  sp.sc("derefs joint value", v);
  spec_open(sp, "derefs ", &hl["proof_derefs"]["proof_derefs"], cd, &gd, &p, v);
  let vals = leaves(&hl["eval_val"]);
  for i in 0..3 {
    sp.eq(&format!("row value {}", i), cdp[3 * i], dv_r[i]);
    sp.eq(&format!("column value {}", i), cdp[3 * i + 1], dv_c[i]);
    sp.eq(&format!("entry value {}", i), cdp[3 * i + 2], vals[i]);
  }
  let side = |n: &str| (leaves(&hl[n][0]), leaves(&hl[n][1]), leaf(&hl[n][2]));
  let (ra, rt, rau) = side("eval_row");
  let (ca, ct_, cau) = side("eval_col");
  let all: Vec<Scalar> = [&ra, &rt, &ca, &ct_, &vals].iter().flat_map(|x| x.iter().cloned()).collect();
  let (v, ch) = bind(sp, "ops ", &all);
  let p: Vec<Scalar> = ch.into_iter().chain(ro.iter().cloned()).collect();
  sp.sc("ops joint value", v);
  spec_open(sp, "ops ", &hl["proof_ops"], &ct["comm_comb_ops"], &go, &p, v);
  let (v, ch) = bind(sp, "mem ", &[rau, cau]);
  let p: Vec<Scalar> = ch.into_iter().chain(rm.iter().cloned()).collect();
  sp.sc("mem joint value", v);
  spec_open(sp, "mem ", &hl["proof_mem"], &ct["comm_comb_mem"], &gm, &p, v);
  // every claim of the product layer is the hash of what was opened
  let hash = |a: Scalar, v: Scalar, t: Scalar| t * rh[0] * rh[0] + v * rh[0] + a - rh[1];
  let mut addr = zero();
  for i in 0..mm {
    addr = addr + k(1 << (mm - 1 - i)) * rm[i];
  }
  for (w, (r, ad, ts, au, dv)) in [(&rx, &ra, &rt, rau, &dv_r), (&ry, &ca, &ct_, cau, &dv_c)].into_iter().enumerate() {
    let mut eq = one();
    for i in 0..mm {
      eq = eq * (r[i] * rm[i] + (one() - r[i]) * (one() - rm[i]));
    }
    let n = if w == 0 { "row" } else { "column" };
    sp.eq(&format!("{} init", n), cmem[2 * w], hash(addr, eq, zero()));
    sp.eq(&format!("{} audit", n), cmem[2 * w + 1], hash(addr, eq, au));
    for i in 0..3 {
      sp.eq(&format!("{} read {}", n, i), co[6 * w + i], hash(ad[i], dv[i], ts[i]));
      sp.eq(&format!("{} write {}", n, i), co[6 * w + 3 + i], hash(ad[i], dv[i], ts[i] + one()));
    }
  }
}
fn sc_snark(nc: usize, nv: usize, ni: usize) {
  let (a, b, d, v, inp) = satisfied(nc, nv, ni);
  let nz = a.len().max(b.len()).max(d.len());
  let inst = match must_ok("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(x) => x,
    None => return,
  };
  let gs = SNARKGens::new(nc, nv, ni, nz);
  let (cm, dec) = match must("encode", || SNARK::encode(&inst, &gs)) {
    Some(x) => x,
    None => return,
  };
  let (va, ia) = (asn(&v), asn(&inp));
  let mut p = tr();
  if let Some(proof) = must("prove", || SNARK::prove(&inst, &cm, &dec, va, &ia, &gs, &mut p)) {
    let mut v = tr();
    must_ok("verify", || proof.verify(&cm, &ia, &mut v, &gs));
    same_state("SNARK", &mut p, &mut v);
    for j in 0..ni {
      let mut i2 = inp.clone();
      i2[j] = s("other");
      let r = symcore::scoped(|| {
        let mut t = tr();
        outcome(&catch(|| proof.verify(&cm, &asn(&i2), &mut t, &gs)))
      });
      fact(&format!("another value of input {} is not accepted", j), r != "ok");
    }
    let t = freshen(&tree(&proof), "p");
    let input = vs("pub", ni);
    let ia = asn(&input);
    let (pv, pc) = (inst.inst.get_num_vars(), inst.inst.get_num_cons());
    let rg = rgens(pv);
    let ct = tree(&cm.comm)["comm"].clone();
    accept_iff(
      "SNARK",
      |tx| back::<SNARK>(&t).verify(&cm, &ia, tx, &gs),
      |sp, _| {
        sp.raw("number of constraints", (pc as u64).to_le_bytes().to_vec());
        sp.raw("number of variables", (pv as u64).to_le_bytes().to_vec());
        sp.raw("number of inputs", (ni as u64).to_le_bytes().to_vec());
        sp.ps("comm_comb_ops", &leaves(&ct["comm_comb_ops"]["C"]));
        sp.ps("comm_comb_mem", &leaves(&ct["comm_comb_mem"]["C"]));
        let ev = leaves(&t["inst_evals"]);
        let (rx, ry) = spec_r1cs(sp, &t["r1cs_sat_proof"], &rg, pv, pc, &input, &ev);
        sp.scs("matrix values", &ev);
        spec_sparse(sp, &t["r1cs_eval_proof"]["proof"], &ct, &rx, &ry, &ev, &b"gens_r1cs_eval"[..], nz);
      },
    );
    if nc < 4 {
      shapes("SNARK", &t, &[], |x, tx| back::<SNARK>(x).verify(&cm, &ia, tx, &gs));
    }
  }
}

// ---------------------------------------------------------------- C21
fn sc_transcript() {
  // each append adds its own message, framed by its label, and challenges depend on all of them
  let x = vs("x", 3);
  let p = vs("P", 2);
  let mut base = tr();
  base.append_scalar(b"s", &x[0]);
  base.append_point(b"p", &cp(p[0]));
  let reference = base.challenge_scalar(b"c");
  let variants: Vec<(&str, Box<dyn Fn(&mut Transcript)>)> = vec![
    ("another scalar", Box::new({ let x = x.clone(); let p = p.clone(); move |t: &mut Transcript| { t.append_scalar(b"s", &x[1]); t.append_point(b"p", &cp(p[0])); } })),
    ("another point", Box::new({ let x = x.clone(); let p = p.clone(); move |t: &mut Transcript| { t.append_scalar(b"s", &x[0]); t.append_point(b"p", &cp(p[1])); } })),
    ("another order", Box::new({ let x = x.clone(); let p = p.clone(); move |t: &mut Transcript| { t.append_point(b"p", &cp(p[0])); t.append_scalar(b"s", &x[0]); } })),
    ("another label", Box::new({ let x = x.clone(); let p = p.clone(); move |t: &mut Transcript| { t.append_scalar(b"z", &x[0]); t.append_point(b"p", &cp(p[0])); } })),
    ("a protocol name", Box::new({ let x = x.clone(); let p = p.clone(); move |t: &mut Transcript| { t.append_protocol_name(b"n"); t.append_scalar(b"s", &x[0]); t.append_point(b"p", &cp(p[0])); } })),
    ("a missing point", Box::new({ let x = x.clone(); move |t: &mut Transcript| { t.append_scalar(b"s", &x[0]); } })),
  ];
  for (n, f) in &variants {
    let mut t = tr();
    f(&mut t);
    let y = t.challenge_scalar(b"c");
    fact(&format!("FS: challenge depends on {}", n), y.id() != reference.id());
  }
  let mut t = tr();
  t.append_scalar(b"s", &x[0]);
  t.append_point(b"p", &cp(p[0]));
  fact("FS: challenges are reproducible", t.challenge_scalar(b"c").id() == reference.id());
  fact("FS: consecutive challenges differ", t.challenge_scalar(b"c").id() != reference.id());
  let mut t = tr();
  let v = t.challenge_vector(b"v", 3);
  fact("FS: challenge vector", v.len() == 3 && v[0].id() != v[1].id() && v[1].id() != v[2].id() && v[0].id() != v[2].id());
  let mut t = tr();
  x.append_to_transcript(b"v", &mut t);
  x[..1].append_to_transcript(b"v", &mut t);
  t.challenge_scalar(b"c");
  let mut sp = Spec::new(&t);
  sp.scs("entry", &x);
  sp.chal("c");
  fact("FS: every entry of a vector is absorbed", sp.bad.is_empty());
  // where a vector ends is part of what is absorbed
  let ends = |cut: usize| {
    let mut t = tr();
    x[..cut].append_to_transcript(b"v", &mut t);
    x[cut..].append_to_transcript(b"v", &mut t);
    t.challenge_scalar(b"c").id()
  };
  fact("FS: the boundary between vectors is absorbed", ends(1) != ends(2));
  // randomness of the prover
  let (mut a, mut b) = (RandomTape::new(b"proof"), RandomTape::new(b"proof"));
  let (u, w) = (a.random_scalar(b"r"), a.random_scalar(b"r"));
  fact("blinds drawn one after the other differ", u.id() != w.id());
  fact("two proofs use different blinds", b.random_scalar(b"r").id() != u.id());
  let q = a.random_vector(b"v", 3);
  fact("a vector of blinds", q.len() == 3 && q[0].id() != q[1].id() && q[1].id() != q[2].id());
}

// ---------------------------------------------------------------- C37
/// everything the verifier gets to see
fn shown(v: &Value) {
  walk(v, &mut vec![], &mut |p, v| {
    if let Some(t) = v.as_str() {
      if t.len() > 2 && (t.starts_with("#s") || t.starts_with("#p")) {
        symcore::log(format!("ELEM {} {}", p.join("."), t[2..].trim_start_matches('x')));
      }
    }
  });
}
fn satisfied_flat(nc: usize, nv: usize, ni: usize) -> (Vec<Ent>, Vec<Ent>, Vec<Ent>, Vec<Scalar>, Vec<Scalar>) {
  let cols = nv + 1 + ni;
  let outs: Vec<usize> = (0..nc).map(|i| i % nv.max(1)).collect();
  let mut z: Vec<Option<Scalar>> = vec![None; cols];
  z[nv] = Some(one());
  for i in 0..ni {
    z[nv + 1 + i] = Some(s(&format!("in{}", i)));
  }
  for j in nc..nv {
    z[j] = Some(s(&format!("w{}", j)));
  }
  if nv == 0 {
    z = z;
  }
  let (mut a, mut b, mut d) = (vec![], vec![], vec![]);
  let known: Vec<usize> = (0..cols).filter(|j| z[*j].is_some()).collect();
  for i in 0..nc {
    // rows use free values only
    let mut av = zero();
    let mut bv = zero();
    for (x, j) in known.iter().enumerate() {
      if (x + i) % 2 == 0 || x + 1 == known.len() {
        let e = s(&format!("A{}_{}", i, j));
        a.push((i, *j, e));
        av = av + e * z[*j].unwrap();
      }
      if (x + i) % 3 != 1 || x == 0 {
        let e = s(&format!("B{}_{}", i, j));
        b.push((i, *j, e));
        bv = bv + e * z[*j].unwrap();
      }
    }
    if nv > 0 && i < nv {
      z[outs[i]] = Some(av * bv);
      d.push((i, outs[i], one()));
    } else {
      // more rows than variables: the right side is a multiple of the constant
      d.push((i, nv, av * bv));
    }
  }
  let v: Vec<Scalar> = (0..nv).map(|j| z[j].unwrap()).collect();
  let inp: Vec<Scalar> = (0..ni).map(|j| z[nv + 1 + j].unwrap()).collect();
  (a, b, d, v, inp)
}
fn sc_hide_nizk(nc: usize, nv: usize, ni: usize) {
  let (a, b, d, v, inp) = if nv > 8 { satisfied_flat(nc, nv, ni) } else { satisfied(nc, nv, ni) };
  let inst = match must_ok("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(x) => x,
    None => return,
  };
  let gs = NIZKGens::new(nc, nv, ni);
  let (va, ia) = (asn(&v), asn(&inp));
  let mut p = tr();
  if let Some(proof) = must("prove", || NIZK::prove(&inst, va, &ia, &gs, &mut p)) {
    shown(&tree(&proof));
  }
}
fn sc_hide_snark(nc: usize, nv: usize, ni: usize) {
  let (a, b, d, v, inp) = if nv > 8 { satisfied_flat(nc, nv, ni) } else { satisfied(nc, nv, ni) };
  let nz = a.len().max(b.len()).max(d.len());
  let inst = match must_ok("new", || Instance::new(nc, nv, ni, &bytes_of(&a), &bytes_of(&b), &bytes_of(&d))) {
    Some(x) => x,
    None => return,
  };
  let gs = SNARKGens::new(nc, nv, ni, nz);
  let (cm, dec) = match must("encode", || SNARK::encode(&inst, &gs)) {
    Some(x) => x,
    None => return,
  };
  let (va, ia) = (asn(&v), asn(&inp));
  let mut p = tr();
  if let Some(proof) = must("prove", || SNARK::prove(&inst, &cm, &dec, va, &ia, &gs, &mut p)) {
    shown(&tree(&proof));
  }
}
