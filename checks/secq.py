"""C12, C13: the fields, scalars and hash to curve of packages/secq256k1."""
import os
import re
import shutil
import time

import z3

import scalar as S
import smt
import symex
import terms as T
import vlib
from vlib import Broken, RNG

SRC = vlib.REPO + "/packages/secq256k1"
P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
SHIMS = os.path.join(vlib.ROOT, "harness/shims")


def crate(work, name="secq"):
    """copy of the harness with a copy of the crate's current sources beside it"""
    d = os.path.join(work, name)
    shutil.rmtree(d, True)
    h = os.path.join(vlib.ROOT, "harness", name)
    os.makedirs(d + "/src")
    os.makedirs(d + "/secq256k1")
    shutil.copytree(SRC + "/src", d + "/secq256k1/src")
    for a, b in (("Cargo.toml", "Cargo.toml"), ("secq256k1.toml", "secq256k1/Cargo.toml")):
        open(os.path.join(d, b), "w").write(open(os.path.join(h, a)).read().replace("SHIMS", SHIMS))
    return d, h


def load(c):
    d, h = crate(vlib.workdir())
    t = open(h + "/src/field.in").read()
    fields = "".join(re.sub(r"\bX(?=_| \{)", x, t).replace("FILE", f) for x, f in (("p", "field_secp"), ("q", "field_secq")))
    open(d + "/src/main.rs", "w").write(open(h + "/src/main.in").read().replace("//FIELDS", fields))
    hn = vlib.Harness(d, "h_secq", vlib.workdir())
    c.log("harness built in %.1fs" % hn.build_s)
    return hn


NAMES = {"p": "field_secp", "q": "field_secq"}
MOD = {"p": P, "q": N}


# prime factors of p - 1 and n - 1
FACTORS = {"p": [2, 3, 7, 13441, 205115282021455665897114700593932402728804164701536103180137503955397371],
           "q": [2, 3, 149, 631, 107361793816595537, 174723607534414371449, 341948486974166000522343609283189]}


def use(c, h, x, exports):
    """the field's modulus becomes the one the shared machinery works with"""
    S.Q = MOD[x]
    S.RI = pow(S.R, -1, S.Q)
    return S.Field(c, h, [x + "_" + e for e in exports], S.Q, x + "_words")


def sp(x):
    return r"^<secq256k1::field::%s::FieldElement>::" % NAMES[x]


ADDS = ["add_rr", "add_vr", "add_rv", "add_vv", "add_av", "add_ar", "add_fn"]
SUBS = [a.replace("add", "sub") for a in ADDS]
MULS = [a.replace("add", "mul") for a in ADDS]
NEGS = ["neg_r", "neg_v", "neg_fn"]


def c12(c):
    h = load(c)
    c.bounds += ["none on values: all canonical operands, all 32-byte strings, all 64-, 256- and 512-bit integers, both fields", "sums and products: lists of 0..4 elements",
                 "rejection sampling: the first two 32-byte draws"]
    c.assumptions += ["elements are in-memory words in Montgomery form with R=2^256; the fifth word is zero",
                      "the missing primeorder crate (a git dependency) is replaced by a stand-in with the same items; field code does not depend on its behaviour"]
    for x in "pq":
        c.log("field of order %#x" % MOD[x])
        DEC = ["from_bytes", "from_sec1", "from_repr"]
        ENC = ["to_bytes", "to_bytes_from", "to_be_bytes", "to_sec1", "to_repr"]
        SUM, PROD = ["sum0", "sum1", "sum2", "sum3", "sum4v"], ["prod0", "prod1", "prod2", "prod3", "prod4v"]
        ZERO, ONE = ["zero", "zero_c", "zero_tr", "default"], ["one", "one_c", "one_tr"]
        F = use(c, h, x, ADDS + SUBS + MULS + NEGS + ["double", "double_tr", "square", "square_tr", "cube", "eq", "ne", "ct_eq", "is_zero", "is_zero_vartime", "is_odd",
                         "from_u64", "from_raw", "from_bytes_wide", "random", "random_tr", "gen", "root", "s", "select", "assign", "swap", "zeroize", "clone"]
                + DEC + [d + "_un" for d in DEC] + ENC + SUM + PROD + ZERO + ONE)
        Pv = S.Prover(c, F)
        n = lambda l: [x + "_" + e for e in l]
        for f in n(ADDS):
            Pv.prove(S.Op(f, S.AB, S.p_add, lambda a, b: a + b, desc="a+b mod the prime"))
        for f in n(SUBS):
            Pv.prove(S.Op(f, S.AB, S.p_sub, lambda a, b: a - b, desc="a-b mod the prime"))
        for f in n(NEGS):
            Pv.prove(S.Op(f, S.A, S.p_neg, lambda a: -a, desc="-a mod the prime"))
        for f in n(["double", "double_tr"]):
            Pv.prove(S.Op(f, S.A, S.p_dbl, lambda a: 2 * a, desc="2a mod the prime"))
        for f in n(MULS):
            Pv.prove(S.Op(f, S.AB, S.p_mul, lambda a, b: a * b, scale=S.R, desc="a*b/R mod the prime (Montgomery product)"))
        for f in n(["square", "square_tr"]):
            Pv.prove(S.Op(f, S.A, S.p_sq, lambda a: a * a, scale=S.R, desc="a^2/R mod the prime"))
        for d in n(DEC):
            S.decoding(c, F, Pv, d, d + "_un")
        for f in n(ENC):
            Pv.prove(S.Op(f, S.A, lambda L, v: v[0], lambda a: a, scale=S.R, wres=4, desc="the canonical value of the element"))
        S.equality(c, F, ((x + "_eq", 0), (x + "_ne", 1), (x + "_ct_eq", 0)))
        co, ci = lambda L, v: L.pscale(v[0], S.R), lambda v: v * S.R
        Pv.prove(S.Op(x + "_from_u64", [("u", "v", 1)], co, ci, desc="v mod the prime"))
        Pv.prove(S.Op(x + "_from_raw", [("u", "v", 4)], co, ci, desc="v mod the prime (256-bit v)"))
        Pv.prove(S.Op(x + "_from_bytes_wide", [("u", "v", 8)], co, ci, desc="v mod the prime (512-bit v)"))
        Pv.prove(S.Op(x + "_random", [("u", "v", 8)], co, ci, ofs=1, flag={0: 64}, desc="the 64 bytes drawn, reduced mod the prime"))
        for f in n(ZERO):
            S.const_check(c, F, f, 0)
        for f in n(ONE):
            S.const_check(c, F, f, S.R % S.Q)
        constants(c, F, x)
        rejection(c, F, x)
        parity(c, F, x)
        S.selections(c, F, x + "_")
        S.folds(c, F, n(SUM), n(PROD), sp(x))


def parity(c, F, x):
    """is_odd and is_zero: through the canonical value, whose computation is decided by the encodings"""
    W = F.W
    for f, what in (("is_zero", "zero"), ("is_zero_vartime", "zero")):
        f = x + "_" + f
        a = F.elem("a")
        outs, why = S.run_or_none(F, f, a, 1)
        z = 1
        for w in a[:4]:
            z = T.and_(1, z, T.eq(64, w, 0))
        cl = None if outs is None else [(o.state.pc, T.eq(64, o.value[0], T.zext(64, z, 1)) if o.kind == "ret" else 0) for o in outs]

        def oracle(w, r):
            if r == "panic" or r[0] != int(not any(w)):
                return "%#x gives %s" % (S.unmont(w), r)
        cases = [F.celem(v) for v in S.edges(S.Q)]
        S.decide(c, F, f + ": exactly for zero", cl, lambda m: [[m.get("a%d" % i, 0) for i in range(4)] + [0] * (W - 4)], cases, f, oracle, why)
    f = x + "_is_odd"
    a = F.elem("a")
    # against the encoding, decided above: the same reduction gives the same terms
    enc, why = S.run_or_none(F, x + "_to_bytes", a, 4)
    outs, why = S.run_or_none(F, f, a, 1) if enc is not None else (None, why)
    cl = None
    if outs is not None and len(enc) == 1 and enc[0].kind == "ret":
        cl = [(o.state.pc, T.eq(64, o.value[0], T.zext(64, T.extract(enc[0].value[0], 0, 1, 64), 1)) if o.kind == "ret" else 0) for o in outs]

    def oracle(w, r):
        if r == "panic" or r[0] != S.unmont(w) & 1:
            return "is_odd(%#x) gives %s" % (S.unmont(w), r)
    cases = [F.celem(S.mont(v)) for v in S.edges(S.Q)] + [F.celem(S.mont(S.rnd())) for _ in range(300)]
    S.decide(c, F, f + ": the parity of the canonical value", cl, lambda m: cases, cases, f, oracle, why)


def constants(c, F, x):
    q = S.Q
    s = 0
    while (q - 1) >> s & 1 == 0:
        s += 1
    r = F.h.native(x + "_s", [])
    ok = r == [s, 256, 255]
    if not ok:
        c.violation("%s declares two-adicity, bits and capacity %r; the modulus has %r" % (NAMES[x], r, [s, 256, 255]), {"entry": x + "_s"}, key="constants-" + x)
    c.obligation("%s: declared two-adicity and sizes are those of the modulus" % NAMES[x], "holds" if ok else "violated")
    g = S.unmont(F.h.native(x + "_gen", []))
    ok = all(pow(g, (q - 1) // f, q) != 1 for f in FACTORS[x])
    if not ok:
        c.violation("%s: the declared generator %d does not generate the multiplicative group" % (NAMES[x], g), {"entry": x + "_gen"})
    c.obligation("%s: the declared generator has order q-1" % NAMES[x], "holds" if ok else "violated")
    w = S.unmont(F.h.native(x + "_root", []))
    ok = pow(w, 1 << s, q) == 1 and pow(w, 1 << s - 1, q) != 1
    if not ok:
        c.violation("%s: the declared root of unity %#x does not have order 2^%d" % (NAMES[x], w, s), {"entry": x + "_root"})
    c.obligation("%s: the declared root of unity has order 2^%d" % (NAMES[x], s), "holds" if ok else "violated")


def rejection(c, F, x):
    """Field::random: the first canonical draw; two draws are modelled"""
    W = F.W
    f = x + "_random_tr"
    v = [T.var("v%d" % k, 64) for k in range(8)]
    dec = []
    why = None
    for k in (0, 4):
        o, why = S.run_or_none(F, x + "_from_bytes", v[k:k + 4], 1 + W)
        dec.append(o[0].value if o and len(o) == 1 and o[0].kind == "ret" else None)
    outs, w2 = S.run_or_none(F, f, v, 1 + W, merge=False)
    cl = None
    ok = [S.lt_const(v[k:k + 4], S.Q) for k in (0, 4)]
    if outs is not None and None not in dec:
        cl = []
        for o in outs:
            if o.kind != "ret":
                # the source of randomness is exhausted: only after two rejected draws
                cl.append((o.state.pc, T.not_(T.or_(1, ok[0], ok[1]))))
                continue
            n = o.value[0]
            for first in (1, 0):
                want = dec[0 if first else 1][1:]
                g = T.eq(64, n, 32 if first else 64)
                for a, b in zip(o.value[1:], want):
                    g = T.and_(1, g, T.eq(64, a, b))
                cond = ok[0] if first else T.and_(1, T.not_(ok[0]), ok[1])
                cl.append((o.state.pc, T.or_(1, T.not_(cond), g)))

    def oracle(w, r):
        a, b = S.unwords(w[:4]), S.unwords(w[4:])
        want = (32, a) if a < S.Q else (64, b) if b < S.Q else None
        if want and (r == "panic" or r[0] != want[0] or not S.elem_ok(F, r[1:], want[1])):
            return "draws %#x, %#x give %s" % (a, b, r)
    top = 2**256 - 1
    cases = [S.words(a, 4) + S.words(b, 4) for a in (0, 1, S.Q - 1, S.Q, S.Q + 1, top) for b in (0, 5, S.Q - 1)]
    S.decide(c, F, f + ": the first draw that is a canonical encoding", cl, lambda m: [[m.get("v%d" % k, 0) for k in range(8)]], cases, f, oracle, why or w2)


# ------------------------------------------------------------------ powers, inverses, roots
def spx(x):
    return r"^<secq256k1::field::%s::FieldElement(?: as [^>]*)?>::" % NAMES[x]


class Dlog:
    """Nonzero elements by their discrete logarithm.  With q-1 = 2^s m (m odd) the multiplicative group is the product of
    its 2-part (logarithm to a fixed generator w of it: s bits, a bit-vector term) and its odd part (a formal linear form
    over the symbols, mod m).  A value is a list of (guard, 2-part, odd part).  In memory it is a tagged handle; real
    constants stay as they are."""
    TAG = 0xD10C << 48

    def __init__(self, x):
        self.x, self.q = x, MOD[x]
        self.s = 0
        while (self.q - 1) >> self.s & 1 == 0:
            self.s += 1
        self.m = (self.q - 1) >> self.s
        self.objs = []
        self.consts = {}         # constant -> value
        g = 2
        while pow(g, (self.q - 1) // 2, self.q) == 1:
            g += 1
        self.w = pow(g, self.m, self.q)
        self.hits = 0
        self.unknown = []

    def lo(self, c):
        t, k = 1, 0
        c = pow(c, self.m, self.q)
        while t != c:
            t, k = t * self.w % self.q, k + 1
        return k

    def const(self, c, hi=None):
        if c not in self.consts:
            if hi is None:
                hi = {} if pow(c, 1 << self.s, self.q) == 1 else {"c%x" % c: 1}
            self.consts[c] = [(1, self.lo(c), hi)]
        return self.consts[c]

    def sym(self, name):
        return [(1, T.var("%s_lo%d" % (name, self.s), self.s), {name: 1})]

    def words(self, v):
        self.objs.append(v)
        return [len(self.objs) - 1, 0, 0, 0, self.TAG]

    def get(self, e, st, p):
        ws = [e.load_int(st, p + 8 * i, 8) for i in range(5)]
        if isinstance(ws[4], int) and ws[4] == self.TAG:
            return self.objs[ws[0]]
        if all(isinstance(w, int) for w in ws):
            return S.unmont(ws)
        raise symex.Unsupported("an element that is neither a constant nor a tracked value")

    def put(self, e, st, p, v):
        for i, w in enumerate(S.words(S.mont(v), 5) if isinstance(v, int) else self.words(v)):
            e.store_int(st, p + 8 * i, 8, w)

    def val(self, v):
        return self.const(v) if isinstance(v, int) else v

    def norm(self, alts):
        by = {}
        for g, lo, hi in alts:
            if isinstance(g, int) and not g:
                continue
            k = tuple(sorted(hi.items()))
            if k in by:
                g0, lo0, _ = by[k]
                by[k] = (T.or_(1, g0, g), T.ite(self.s, g, lo, lo0) if not (isinstance(lo, int) and isinstance(lo0, int) and lo == lo0) else lo, hi)
            else:
                by[k] = (g, lo, hi)
        return list(by.values())

    def hadd(self, a, b, k=1):
        r = dict(a)
        for n, c in b.items():
            r[n] = (r.get(n, 0) + k * c) % self.m
        return {n: c for n, c in r.items() if c}

    def mul(self, a, b):
        self.hits += 1
        if isinstance(a, int) and isinstance(b, int):
            return a * b % self.q
        if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
            return 0
        if isinstance(a, int) and a == 1:
            return b
        if isinstance(b, int) and b == 1:
            return a
        a, b = self.val(a), self.val(b)
        return self.norm([(T.and_(1, g, h), T.add(self.s, x, y), self.hadd(p, q)) for g, x, p in a for h, y, q in b if not self.disjoint(g, h)])

    def disjoint(self, g, h):
        if isinstance(g, int) or isinstance(h, int):
            return False
        n = T.not_(g)
        return n is h or (not isinstance(n, int) and n.id == h.id)

    def select(self, a, b, c):
        if isinstance(c, int):
            return b if c & 1 else a
        if a == b:
            return a
        if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
            raise symex.Unsupported("selection between zero and a nonzero value")
        n = T.not_(c)
        return self.norm([(T.and_(1, n, g), x, p) for g, x, p in self.val(a) if not self.disjoint(n, g)] + [(T.and_(1, c, g), x, p) for g, x, p in self.val(b) if not self.disjoint(c, g)])

    def eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return int(a == b)
        if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
            return 0
        r = 0
        for g, x, p in self.val(a):
            for h, y, q in self.val(b):
                if self.disjoint(g, h):
                    continue
                if self.hadd(p, q, -1):
                    raise symex.Unsupported("comparison of values with different odd parts")
                r = T.or_(1, r, T.and_(1, T.and_(1, g, h), T.eq(self.s, x, y)))
        return r

    def hooks(self):
        p = spx(self.x)

        def two(f):
            def h(e, st, a):
                self.put(e, st, a[0], f(self.get(e, st, a[1]), self.get(e, st, a[2])))
                return 0
            return h

        def sq(e, st, a):
            v = self.get(e, st, a[1])
            self.put(e, st, a[0], self.mul(v, v))
            return 0

        def bit(v):
            return v if isinstance(v, int) else T.extract(v, 0, 1, v.w)

        def sel(e, st, a):
            self.put(e, st, a[0], self.select(self.get(e, st, a[1]), self.get(e, st, a[2]), bit(a[3])))
            return 0

        def ceq(e, st, a):
            r = self.eq(self.get(e, st, a[0]), self.get(e, st, a[1]))
            return r if isinstance(r, int) else T.zext(8, r, 1)

        def isz(e, st, a):
            r = self.eq(self.get(e, st, a[0]), 0)
            return r if isinstance(r, int) else T.zext(8, r, 1)

        def lin(f):
            def h(e, st, a):
                vs = [self.get(e, st, q) for q in a[1:]]
                if all(isinstance(v, int) for v in vs):
                    self.put(e, st, a[0], f(*vs) % self.q)
                    return 0
                raise symex.Unsupported("addition of tracked values")
            return h
        return {p + "mul$": two(self.mul), p + "square$": sq, p + "conditional_select$": sel, p + "ct_eq$": ceq, p + "is_zero$": isz,
                p + "add$": lin(lambda a, b: a + b), p + "sub$": lin(lambda a, b: a - b), p + "neg$": lin(lambda a: -a)}

    def claim_eq(self, a, b):
        """one-bit term: the two values are equal (formal in the odd part)"""
        r = 0
        for g, x, p in self.val(a):
            for h, y, q in self.val(b):
                if self.disjoint(g, h) or self.hadd(p, q, -1):
                    continue
                r = T.or_(1, r, T.and_(1, T.and_(1, g, h), T.eq(self.s, x, y)))
        return r


def c29(c):
    h = load(c)
    c.bounds += ["exponents: none (all 256-bit exponents, all bases)", "inverses, square roots, ratios: none (all elements and pairs, zero included)", "batch inversion: lists of 0..4 elements"]
    c.assumptions += ["field multiplication, squaring, constants and encodings are as decided by C12",
                      "num_bigint_dig's mod_inverse(g, n) returns Some(r), 0<=r<n, g*r=1 mod n, exactly when g and n are coprime",
                      "k256's Scalar::sqrt returns a root of its argument exactly when there is one; k256::Scalar::from_repr and to_bytes are executed, not assumed",
                      "multiplicative group of the field: the product of its 2-part and its odd part (q-1 = 2^s m, m odd)"]
    for x in "pq":
        c.log("field of order %#x" % MOD[x])
        EXP = ["pow", "powby", "invert", "invert_tr", "sqrt", "ratio", "to_bytes", "from_sec1_un", "to_repr", "from_bytes"] + ["batch%d" % k for k in range(5)]
        S.Q = MOD[x]
        F = S.Field(c, h, [x + "_" + e for e in EXP] + ["model_mod_inverse", x + "_model_invert", "verif_note", "verif_word", "verif_inv", "model_ksqrt"], S.Q, x + "_words")
        S.powers(c, F, (x + "_pow",), spx(x))
        powby(c, F, x)
        S.batches(c, F, [x + "_batch%d" % k for k in range(5)], spx(x), "@%s_model_invert" % x)
        for f in ("invert", "invert_tr"):
            if x == "p":
                S.invert(c, F, x + "_" + f, spx(x))
            else:
                chain(c, F, x, x + "_" + f)
        (proot if x == "p" else qroot)(c, F, x)
        ratio(c, F, x)


def powby(c, F, x):
    """pow_by_self: the exponent is the canonical value of an element"""
    W = F.W
    D = S.Domain(W, S.R % S.Q)
    f = x + "_powby"
    v = [T.var("by%d" % k, 64) for k in range(4)]
    b = F.elem("b")
    seen = []

    def tob(e, st, a):
        for k in range(W):
            w = e.load_int(st, a[1] + 8 * k, 8)
            if not (w is b[k] or w == b[k]):
                raise symex.Unsupported("encoding of something else than the exponent")
        seen.append(1)
        for k in range(4):
            e.store_int(st, a[0] + 8 * k, 8, v[k])
        return 0
    hooks = dict(D.mult_hooks(spx(x)))
    hooks[spx(x) + "to_bytes$"] = tob
    outs, why = S.run_or_none(F, f, D.words(1) + b, W, hooks=hooks)
    byv = 0
    for i, w in enumerate(v):
        byv = T.concat(w, 64, byv, 64 * i) if i else w
    cl = None
    if outs is not None and seen:
        cl = [(o.state.pc, T.eq(D.N, D.unwords(o.value), T.zext(D.N, byv, 256)) if o.kind == "ret" else 0) for o in outs]

    def oracle(w, r):
        a, e = S.unmont(w[:W]), S.unmont(w[W:])
        if r == "panic" or not S.elem_ok(F, r, pow(a, e, S.Q)):
            return "%#x to the power %#x gives %s" % (a, e, r)
    cases = [F.celem(S.mont(a)) + F.celem(S.mont(e)) for e in (0, 1, 2, 3, S.Q - 1, S.Q - 2, S.rnd(), 1 << 64, 1 << 200) for a in (0, 1, 2, S.Q - 1, S.rnd())]
    S.decide(c, F, f + ": the base to the power of the exponent's canonical value", cl, lambda m: [F.celem(S.mont(a)) + F.celem(S.mont(S.unwords([m.get("by%d" % i, 0) for i in range(4)]) % S.Q)) for a in (2, 3)],
             cases, f, oracle, why)


def inv_oracle(F):
    def oracle(w, r):
        a = S.unmont(w)
        if r == "panic":
            return "invert(%#x) panics" % a
        if a == 0:
            return None if r[0] == 0 else "inverting zero is reported as successful"
        if r[0] != 1 or not S.elem_ok(F, r[1:], pow(a, -1, S.Q)):
            return "invert(%#x) gives %s" % (a, r)
    return oracle


def dl_run(c, F, x, f, ins, nout):
    """run in the logarithm domain; inputs: symbol names or integers"""
    D = Dlog(x)
    ws = []
    for i in ins:
        ws += F.celem(S.mont(i)) if isinstance(i, int) else D.words(D.sym(i))
    outs, why = S.run_or_none(F, f, ws, nout, hooks=D.hooks(), merge=False)
    if outs is not None and not D.hits:
        outs, why = None, "no field operation seen"
    return D, outs, why


def result(D, ws):
    if isinstance(ws[4], int) and ws[4] == D.TAG:
        return D.objs[ws[0]]
    if all(isinstance(w, int) for w in ws):
        return S.unmont(ws)
    return None


def chain(c, F, x, f):
    cases = [F.celem(S.mont(v)) for v in S.edges(S.Q)]
    orc = inv_oracle(F)
    D, outs, why = dl_run(c, F, x, f, ["a"], 1 + F.W)
    cl = None
    if outs is not None:
        cl = []
        for o in outs:
            r = result(D, o.value[1:]) if o.kind == "ret" else None
            if r is None or r == 0:
                cl.append((o.state.pc, 0))
                continue
            cl.append((o.state.pc, T.and_(1, T.eq(64, o.value[0], 1), D.claim_eq(D.mul(r, D.sym("a")), 1))))
    S.decide(c, F, f + ": the inverse, for every nonzero element", cl, lambda m: cases, cases, f, orc, why)
    D, outs, why = dl_run(c, F, x, f, [0], 1 + F.W)
    cl = None if outs is None else [(o.state.pc, T.eq(64, o.value[0], 0) if o.kind == "ret" else 0) for o in outs]
    S.decide(c, F, f + ": zero has no inverse", cl, lambda m: cases, [F.celem(0)], f, orc, why)


def root_oracle(F):
    def oracle(w, r):
        a = S.unmont(w)
        if r == "panic":
            return "sqrt(%#x) panics" % a
        sq = a == 0 or pow(a, (S.Q - 1) // 2, S.Q) == 1
        if r[0] != int(sq):
            return "sqrt(%#x) is %s, but the element is %sa square" % (a, "some" if r[0] else "none", "" if sq else "not ")
        if sq and S.unmont(r[1:]) ** 2 % S.Q != a:
            return "sqrt(%#x) gives %#x" % (a, S.unmont(r[1:]))
    return oracle


def proot(c, F, x):
    f = x + "_sqrt"
    cases = [F.celem(S.mont(v)) for v in S.edges(S.Q) + list(range(20))]
    orc = root_oracle(F)
    D, outs, why = dl_run(c, F, x, f, ["a"], 1 + F.W)
    cl = None
    if outs is not None:
        cl = []
        for o in outs:
            r = result(D, o.value[1:]) if o.kind == "ret" else None
            # a none result may hold anything
            sq = T.not_(T.extract(D.sym("a")[0][1], 0, 1, D.s)) if D.s > 1 else T.not_(D.sym("a")[0][1])
            g = T.eq(64, o.value[0], T.zext(64, sq, 1)) if o.kind == "ret" else 0
            root = 0 if r is None or r == 0 else D.claim_eq(D.mul(r, r), D.sym("a"))
            cl.append((o.state.pc, T.and_(1, g, T.or_(1, T.not_(sq), root))))
    S.decide(c, F, f + ": a root exactly for squares, for every nonzero element", cl, lambda m: cases, cases, f, orc, why)
    D, outs, why = dl_run(c, F, x, f, [0], 1 + F.W)
    cl = None if outs is None else [(o.state.pc, T.eq(64, o.value[0], 1) if o.kind == "ret" and result(D, o.value[1:]) == 0 else 0) for o in outs]
    S.decide(c, F, f + ": the root of zero is zero", cl, lambda m: cases, [F.celem(0)], f, orc, why)


def qroot(c, F, x):
    """through k256's Scalar: what is handed over and what comes back"""
    f = x + "_sqrt"
    W = F.W
    cases = [F.celem(S.mont(v)) for v in S.edges(S.Q) + list(range(20))]
    orc = root_oracle(F)
    v = [T.var("v%d" % k, 64) for k in range(4)]
    r = [T.var("r%d" % k, 64) for k in range(4)]
    some = 0
    a = F.elem("a")

    def tob(e, st, args):
        for k in range(W):
            w = e.load_int(st, args[1] + 8 * k, 8)
            if not (w is a[k] or w == a[k]):
                raise symex.Unsupported("encoding of something else than the argument")
        for k in range(4):
            e.store_int(st, args[0] + 8 * k, 8, v[k])
        return 0

    def note(e, st, args):
        st.data["arg"] = rdw(e, st, args[1])
        return 0

    def word(e, st, args):
        return some if args[0] == 0 else r[args[0] - 1]
    hooks = {r"BaseField>::to_bytes$": tob, r"^<k256::.*Scalar as ff::Field>::sqrt$": lambda e, st, a: symex.Redirect("@model_ksqrt", a),
             r"^verif_note$": note, r"^verif_word$": word}
    dec, why = S.run_or_none(F, x + "_from_sec1_un", r, W, pre=[S.lt_const(r, N)])
    cl, w2 = None, why
    if dec is not None and len(dec) == 1 and dec[0].kind == "ret":
        cl = []
        for some in (0, 1):
            outs, w2 = S.run_or_none(F, f, a, 1 + W, hooks=hooks, merge=False, pre=[S.lt_const(v, N), S.lt_const(r, N)])
            if outs is None:
                cl = None
                break
            for o in outs:
                if o.kind != "ret" or "arg" not in o.state.data:
                    cl.append((o.state.pc, 0))
                    continue
                g = T.eq(64, o.value[0], some)
                for p, q in zip(o.state.data["arg"], v):
                    g = T.and_(1, g, T.eq(64, p, q))
                for p, q in zip(o.value[1:], dec[0].value if some else ()):
                    g = T.and_(1, g, T.eq(64, p, q))
                cl.append((o.state.pc, g))
    S.decide(c, F, f + ": the argument's value goes to the root computation, its answer comes back", cl, lambda m: cases, cases, f, orc, w2)


def rdw(e, st, p):
    return [e.load_int(st, p + 8 * k, 8) for k in range(4)]


def ratio(c, F, x):
    """sqrt_ratio(u, v): (u/v is a square, root of u/v or of Z u/v)"""
    f = x + "_ratio"
    W, q = F.W, S.Q
    cs = [S.unmont(F.h.native(x + "_c%d" % k, [])) for k in (3, 4, 5, 6, 7)]
    Z = cs[4] ** 2 * pow(cs[3], -1, q) % q if cs[3] else 0
    if x == "q":
        zi = F.h.native("s_iso", [2])
        want = S.unmont(zi)
    else:
        want = q - 11
    okz = Z == want and pow(Z, (q - 1) // 2, q) == q - 1
    if not okz:
        c.violation("%s: the constants of the square-root ratio belong to Z=%#x; the map to the curve uses %#x, a non-square" % (NAMES[x], Z, want), {"entry": x + "_c7"})
    c.obligation("%s: the constants belong to the non-square Z of the map to the curve" % NAMES[x], "holds" if okz else "violated")

    def oracle(w, r):
        u, v = S.unmont(w[:W]), S.unmont(w[W:])
        if r == "panic":
            return "sqrt_ratio(%#x, %#x) panics" % (u, v)
        y = S.unmont(r[1:])
        if v == 0:
            return None
        t = u * pow(v, -1, q) % q
        sq = t == 0 or pow(t, (q - 1) // 2, q) == 1
        if t and r[0] != int(sq):
            return "sqrt_ratio(%#x, %#x) says %s" % (u, v, "square" if r[0] else "not a square")
        if y * y % q != (t if sq else want * t % q):
            return "sqrt_ratio(%#x, %#x) gives the root %#x" % (u, v, y)
    small = [0, 1, 2, 3, 5, 7, q - 1, q - 2, (q - 1) // 2]
    s = 0
    while (q - 1) >> s & 1 == 0:
        s += 1
    g = S.unmont(F.h.native(x + "_root", []))
    powers = [pow(g, k, q) for k in range(1 << s)]
    cases = [F.celem(S.mont(a)) + F.celem(S.mont(b)) for a in small + [S.rnd() for _ in range(5)] + powers for b in small[1:4] + [S.rnd()]]
    D = Dlog(x)
    if cs[3] and cs[4] and Z:
        # the odd parts of the constants in terms of Z: checked by raising to 2^s
        zh = "Z"
        D.consts[Z] = [(1, D.lo(Z), {zh: 1})]
        for k in ((D.m + 1) // 2, 1, 2, (D.m - 1) // 2):
            if pow(cs[4], 1 << D.s, q) == pow(pow(Z, 1 << D.s, q), k, q):
                D.consts[cs[4]] = [(1, D.lo(cs[4]), {zh: k})]
                break
    u, v = D.sym("u"), D.sym("v")
    ws = D.words(u) + D.words(v)
    outs, why = S.run_or_none(F, f, ws, 1 + W, hooks=D.hooks(), merge=False)
    cl = None
    if outs is not None and D.hits and okz:
        cl = []
        for o in outs:
            r = result(D, o.value[1:]) if o.kind == "ret" else None
            if r is None or isinstance(r, int):
                cl.append((o.state.pc, 0))
                continue
            par = T.xor(D.s, u[0][1], v[0][1])
            sq = T.not_(T.extract(par, 0, 1, D.s) if D.s > 1 else par)
            rv = D.mul(D.mul(r, r), v)
            g = T.eq(64, o.value[0], T.zext(64, sq, 1))
            g = T.and_(1, g, T.ite(1, sq, D.claim_eq(rv, u), D.claim_eq(rv, D.mul(Z, u))))
            cl.append((o.state.pc, g))
    S.decide(c, F, f + ": squareness and root, for all nonzero u, v", cl, lambda m: cases, cases, f, oracle, why)
    D, outs, why = dl_run(c, F, x, f, [0, "v"], 1 + W)
    cl = None
    if outs is not None:
        cl = [(o.state.pc, 1 if o.kind == "ret" and isinstance(result(D, o.value[1:]), int) and result(D, o.value[1:]) == 0 else 0) for o in outs]
    S.decide(c, F, f + ": the root of 0/v is zero", cl, lambda m: cases, cases, f, oracle, why)


# ------------------------------------------------------------------ C30: scalars of the curve group
BW = 258
DONE = set()      # path and claim terms already decided (terms are shared: the operator forms mostly give the same ones)


def val(ws):
    r, w = ws[0], 64
    for x in ws[1:]:
        r = T.concat(x, 64, r, w)
        w += 64
    return T.zext(BW, r, w)


def c30(c):
    h = load(c)
    c.bounds += ["none on values: all operands below the group order, all 256-bit integers", "products: against the field product decided by C12", "rejection sampling: the first two 32-byte draws"]
    c.assumptions += ["the missing primeorder crate is replaced by a stand-in; elliptic-curve's ScalarCore and crypto-bigint are the real crates and are encoded with the code"]
    VS = ["s_" + a + b for a in ("add", "sub", "mul") for b in ("", "_r", "_a", "_ar")]
    use(c, h, "p", ["mul_vv"])
    names = VS + ["s_neg", "s_double", "s_from_u64", "s_from_u32", "s_bytes", "s_from_repr", "s_zero", "s_zero_tr", "s_default", "s_one", "s_one_tr", "s_gen", "s_root", "s_s", "s_char",
                  "s_bits", "s_is_zero", "s_is_odd", "s_is_high", "s_eq", "s_ct_eq", "s_select", "s_to_uint", "s_try_uint", "s_reduce", "s_to_fb", "s_random"]
    F = S.Field(c, h, names + ["p_mul_vv", "p_from_bytes_un", "p_to_be_bytes"], P, "s_words")
    top = 2**256 - 1
    edge = sorted({0, 1, 2, 3, 5, P - 1, P - 2, P // 2, P // 2 + 1, P // 2 - 1, 2**255, 2**64 - 1, 2**64, 2**128, 2**192, 2**192 - 1, 2**32 + 976, 2**32 + 977, 2**256 - 2**64, P - 2**64} | {S.rnd() for _ in range(6)})
    edge = [e for e in edge if e < P]
    full = edge + [P, P + 1, top, P + 2**32, top - 1]

    def case(f, ins, nout, spec, ref, what, timeout=200):
        """ins: per operand "c" (below p), "u" (any 256-bit integer) or a number of words; spec: terms -> claim; ref: integers -> expected words"""
        ws, groups, pre, k = [], [], [], 0
        for i in ins:
            n = i if isinstance(i, int) else 4
            g = [T.var("v%d" % (k + j), 64) for j in range(n)]
            k += n
            ws += g
            groups.append(g)
            if i == "c":
                pre.append(S.lt_const(g, P))
        outs, why = S.run_or_none(F, f, ws, nout, pre=pre)
        cl = None if outs is None else [(o.state.pc, spec(groups, o.value) if o.kind == "ret" else 0) for o in outs]

        def oracle(w, r):
            a, j = [], 0
            for i in ins:
                n = i if isinstance(i, int) else 4
                a.append(S.unwords(w[j:j + n]))
                j += n
            want = ref(*a)
            if want is not None and (r == "panic" or r != want):
                return "%s(%s) gives %s" % (f, ", ".join(hex(x) for x in a), r if r == "panic" else [hex(x) for x in r])
        lists = [[S.words(v, 4) for v in (edge if i == "c" else full)] if not isinstance(i, int) else [[v & (2**64 - 1)] * i for v in (0, 1, 2**32, 2**64 - 1, 2**63, 12345678901)] for i in ins]
        cases = [[]]
        for l in lists:
            cases = [x + y for x in cases for y in l]
        if len(cases) > 1500:
            cases = [cases[j] for j in sorted(RNG.sample(range(len(cases)), 1500))]
        decide(c, F, f + ": " + what, cl, lambda m: [[m.get("v%d" % j, 0) for j in range(k)]], cases, f, oracle, why, timeout)

    E = lambda a, b: T.eq(BW, a, b)
    A = lambda a, b: T.add(BW, a, b)
    W4 = lambda v: S.words(v, 4)
    red = lambda x: T.ite(BW, T.ult(BW, x, P), x, T.sub(BW, x, P))
    bit = lambda b: T.zext(64, b, 1)
    CC = ["c", "c"]
    for s in ("", "_r", "_a", "_ar"):
        case("s_add" + s, CC, 4, lambda g, o: T.and_(1, T.ult(BW, val(o), P), T.or_(1, E(A(val(g[0]), val(g[1])), val(o)), E(A(val(g[0]), val(g[1])), A(P, val(o))))),
             lambda a, b: W4((a + b) % P), "the sum modulo the group order")
    for s in ("", "_r", "_a", "_ar"):
        case("s_sub" + s, CC, 4, lambda g, o: T.and_(1, T.ult(BW, val(o), P), T.or_(1, E(A(val(o), val(g[1])), val(g[0])), E(A(val(o), val(g[1])), A(P, val(g[0]))))),
             lambda a, b: W4((a - b) % P), "the difference modulo the group order")
    case("s_neg", ["c"], 4, lambda g, o: E(val(o), red(T.sub(BW, P, val(g[0])))), lambda a: W4(-a % P), "the negative modulo the group order")
    case("s_double", ["c"], 4, lambda g, o: E(val(o), red(A(val(g[0]), val(g[0])))), lambda a: W4(2 * a % P), "twice the scalar modulo the group order")
    case("s_from_u64", [1], 4, lambda g, o: E(val(o), T.zext(BW, g[0][0], 64)), lambda a: W4(a), "the integer itself")
    case("s_from_u32", [1], 4, lambda g, o: E(val(o), T.zext(BW, T.trunc(32, g[0][0], 64), 32)), lambda a: W4(a & 0xffffffff), "the integer itself")
    for f in ("s_bytes", "s_bits", "s_to_uint", "s_to_fb"):
        case(f, ["c"], 4, lambda g, o: E(val(o), val(g[0])), lambda a: W4(a), "the scalar's value")
    for f, other in (("s_from_repr", 0), ("s_try_uint", 1)):
        case(f, ["u"], 5, lambda g, o, other=other: T.and_(1, T.eq(64, o[0], bit(T.ult(BW, val(g[0]), P))), E(val(o[1:]), T.ite(BW, T.ult(BW, val(g[0]), P), val(g[0]), other))),
             lambda a, other=other: [int(a < P)] + W4(a if a < P else other), "accepted exactly below the group order")
    case("s_reduce", ["u"], 4, lambda g, o: E(val(o), red(val(g[0]))), lambda a: W4(a % P), "the integer modulo the group order")
    case("s_is_zero", ["c"], 1, lambda g, o: T.eq(64, o[0], bit(E(val(g[0]), 0))), lambda a: [int(a == 0)], "exactly for zero")
    case("s_is_odd", ["c"], 1, lambda g, o: T.eq(64, o[0], bit(T.extract(g[0][0], 0, 1, 64))), lambda a: [a & 1], "the parity of the value")
    case("s_is_high", ["c"], 1, lambda g, o: T.eq(64, o[0], bit(T.ult(BW, P // 2, val(g[0])))), lambda a: [int(a > P // 2)], "exactly above half the group order")
    for f in ("s_eq", "s_ct_eq"):
        case(f, CC, 1, lambda g, o: T.eq(64, o[0], bit(E(val(g[0]), val(g[1])))), lambda a, b: [int(a == b)], "exactly for equal scalars")
    case("s_select", CC + [1], 4, lambda g, o: E(val(o), T.ite(BW, T.extract(g[2][0], 0, 1, 64), val(g[1]), val(g[0]))), lambda a, b, k: W4(b if k & 1 else a), "the chosen operand")
    rev = lambda ws: [swap(x) for x in reversed(ws)]

    def rnd_spec(g, o):
        x, y = (val(rev(k)) for k in g)
        ok = T.ult(BW, x, P)
        return T.ite(1, ok, T.and_(1, T.eq(64, o[0], 32), E(val(o[1:]), x)), T.or_(1, T.not_(T.ult(BW, y, P)), T.and_(1, T.eq(64, o[0], 64), E(val(o[1:]), y))))

    def rnd_ref(a, b):
        a, b = (int.from_bytes(k.to_bytes(32, "little"), "big") for k in (a, b))
        return [32] + W4(a) if a < P else [64] + W4(b) if b < P else None
    random_case(c, F, rnd_spec, rnd_ref)
    for f, v in (("s_zero", 0), ("s_zero_tr", 0), ("s_default", 0), ("s_one", 1), ("s_one_tr", 1), ("s_char", P)):
        S.const_check(c, F, f, v)
    r = h.native("s_s", [])
    ok = r == [1, 256, 255]
    if not ok:
        c.violation("Scalar declares two-adicity, bits and capacity %r; the group order has [1, 256, 255]" % r, {"entry": "s_s"})
    c.obligation("Scalar: declared two-adicity and sizes are those of the group order", "holds" if ok else "violated")
    g = S.unwords(h.native("s_gen", []))
    ok = all(pow(g, (P - 1) // f, P) != 1 for f in FACTORS["p"])
    if not ok:
        c.violation("Scalar: the declared generator %d does not generate the multiplicative group" % g, {"entry": "s_gen"})
    c.obligation("Scalar: the declared generator has order p-1", "holds" if ok else "violated")
    w = S.unwords(h.native("s_root", []))
    if w != P - 1:
        c.violation("Scalar: the declared root of unity %#x is not the element of order 2" % w, {"entry": "s_root"})
    c.obligation("Scalar: the declared root of unity has order 2", "holds" if w == P - 1 else "violated")
    products(c, F)


def swap(x):
    r, w = T.extract(x, 56, 8, 64), 8
    for k in range(6, -1, -1):
        r = T.concat(T.extract(x, 8 * k, 8, 64), 8, r, w)
        w += 8
    return r


def decide(c, F, name, cl, mc, cases, f, oracle, why, timeout):
    """as S.decide, with a longer limit and claims that are one-bit terms over whole operands"""
    t0 = time.time()
    verdict = "holds" if cl is not None else "unknown"
    for pc, claim in cl or ():
        if isinstance(claim, int) and claim == 1:
            continue
        key = (tuple(p.id for p in pc if not isinstance(p, int)), claim if isinstance(claim, int) else claim.id)
        if key in DONE:
            continue
        r, m = smt.solve([p for p in pc if not isinstance(p, int)] + [T.not_(claim)], int(1000 * max(5, min(timeout, c.left() - 60))))
        if r == "unsat":
            DONE.add(key)
            continue
        verdict, why = "unknown", (why or "") + " solver: " + r
        if r == "sat":
            if S.try_cases(c, F, f, mc(m or {}), oracle, name):
                c.obligation(name, "violated")
                return
            why += " (counterexample does not reproduce)"
    if verdict == "holds":
        c.obligation(name, "holds", time.time() - t0)
    elif S.try_cases(c, F, f, cases, oracle, name):
        c.obligation(name, "violated")
    else:
        c.obligation(name, "reduced", time.time() - t0, (why or "").strip())


def random_case(c, F, spec, ref):
    f = "s_random"
    v = [T.var("v%d" % k, 64) for k in range(8)]
    outs, why = S.run_or_none(F, f, v, 5, merge=False)
    cl = None
    if outs is not None:
        cl = []
        for o in outs:
            rej = [T.not_(T.ult(BW, val([swap(x) for x in reversed(v[k:k + 4])]), P)) for k in (0, 4)]
            cl.append((o.state.pc, spec([v[:4], v[4:]], o.value) if o.kind == "ret" else T.and_(1, *rej)))

    def oracle(w, r):
        want = ref(S.unwords(w[:4]), S.unwords(w[4:]))
        if want is not None and r != want:
            return "draws %s give %s" % ([hex(x) for x in w], r)
    top = 2**256 - 1
    be = lambda x: S.words(int.from_bytes(x.to_bytes(32, "big"), "little"), 4)
    cases = [be(a) + be(b) for a in (0, 1, P - 1, P, P + 1, top) for b in (0, 5, P - 1)]
    decide(c, F, f + ": the first draw below the group order", cl, lambda m: [[m.get("v%d" % k, 0) for k in range(8)]], cases, f, oracle, why, 100)


def products(c, F):
    """Scalar products go through field_secp: decoding, product and encoding there are decided by C12; here the scalar's
    words must reach the decoder, the decoded operands the product, and its encoding the result"""
    a = [T.var("v%d" % k, 64) for k in range(4)]
    b = [T.var("v%d" % k, 64) for k in range(4, 8)]
    memo = {}

    def mul(e, st, args):
        x, y = (tuple(rdw(e, st, p)) for p in args[1:3])
        k = tuple(sorted((x, y), key=repr_key))
        hit = memo.get(k)
        for k2 in () if hit else list(memo):
            # the same operands under the path condition
            for u, v in (k2, k2[::-1]):
                g = 1
                for p, q in zip(x + y, u + v):
                    g = T.and_(1, g, T.eq(64, p, q))
                if not isinstance(g, int) and smt.solve([p for p in st.pc if not isinstance(p, int)] + [T.not_(g)], 20000)[0] == "unsat":
                    hit = memo[k2]
            if hit:
                break
        if not hit:
            hit = memo[k] = [T.var("m%d_%d" % (len(memo), j), 64) for j in range(4)]
        for j, t in enumerate(hit + [0]):
            e.store_int(st, args[0] + 8 * j, 8, t)
        return None
    hooks = {sp("p") + "mul$": mul}
    why = None
    ops = []
    for g in (a, b):
        o, why = S.run_or_none(F, "p_from_bytes_un", g, 5, hooks=hooks, pre=[S.lt_const(g, P)])
        ops.append(o[0].value[-5:] if o and len(o) == 1 and o[0].kind == "ret" else None)
    res = enc = None
    if None not in ops:
        o, why = S.run_or_none(F, "p_mul_vv", ops[0] + ops[1], 5, hooks=hooks)
        if o and len(o) == 1 and o[0].kind == "ret" and all(getattr(t, "op", "") == "var" for t in o[0].value[:4]):
            o, why = S.run_or_none(F, "p_to_be_bytes", o[0].value, 4, hooks=hooks)
            if o and len(o) == 1 and o[0].kind == "ret":
                enc = o[0].value
                for k, t in enumerate(enc):
                    if not isinstance(t, int):
                        t._z = z3.BitVec("enc%d" % k, 64)      # any value will do: what the encoding computes is C12's
    edge = [0, 1, 2, 3, P - 1, P - 2, P // 2, 2**255, 2**64, 2**128 + 5] + [S.rnd() for _ in range(20)]
    cases = [S.words(x, 4) + S.words(y, 4) for x in edge for y in edge]

    def oracle(w, r):
        x, y = S.unwords(w[:4]), S.unwords(w[4:])
        if r == "panic" or S.unwords(r) != x * y % P:
            return "%#x * %#x gives %s" % (x, y, r if r == "panic" else hex(S.unwords(r)))
    for s in ("", "_r", "_a", "_ar"):
        f = "s_mul" + s
        cl, w2 = None, why
        if enc is not None:
            outs, w2 = S.run_or_none(F, f, a + b, 4, hooks=hooks, pre=[S.lt_const(a, P), S.lt_const(b, P), S.lt_const(enc, P)])
            if outs is not None:
                cl = []
                for o in outs:
                    g = 1 if o.kind == "ret" else 0
                    for p, q in zip(o.value or (), enc):
                        g = T.and_(1, g, T.eq(64, p, q))
                    cl.append((o.state.pc, g))
        decide(c, F, f + ": the product modulo the group order", cl, lambda m: cases, cases, f, oracle, w2, 100)


def repr_key(t):
    return [(0, x) if isinstance(x, int) else (1, x.id if hasattr(x, "id") else id(x)) for x in t]
