"""C01..C07: the scalar field (packages/Spartan-secq/src/scalar/scalar.rs).

The real file is compiled into a harness, its LLVM IR is executed symbolically for all inputs, and the results are
compared with arithmetic modulo q by an integer encoding decided by z3 (see lia.py)."""
import itertools
import re
import time

import lia
import smt
import symex
import terms as T
import vlib
from vlib import Broken, RNG

Q = 2**256 - 2**32 - 977
R = 2**256
RI = pow(R, -1, Q)
M64 = 2**64 - 1


def words(v, n):
    return [v >> 64 * i & M64 for i in range(n)]


def unwords(ws):
    return sum(w << 64 * i for i, w in enumerate(ws))


class Field:
    """symbolic runs of harness entry points; Q is the modulus, elements are W words in Montgomery form"""

    def __init__(self, c, h, exports, Q=Q, wname="h_words"):
        self.c, self.h, self.Q = c, h, Q
        self.mod = h.module(exports + [wname])
        o, e = self.run_raw(wname, [], 0, noargs=True)
        self.W = o[0].value
        self.fixed = {}

    def run_raw(self, fname, inw, nout, merge=True, hooks=None, noargs=False, eng=None, pre=()):
        e = eng or symex.Engine(self.mod, merge=merge)
        if eng is None:
            e.alloc_limit = 1 << 20
            for k, v in (hooks or {}).items():
                e.dem_hooks.append((re.compile(k), v))
        e.deadline = time.time() + max(5, min(300, self.c.left()))
        st = symex.State()
        args = []
        if not noargs:
            pi = e.new_obj(st, 8 * (len(inw) + 1), "zero", "in")
            for i, v in enumerate(inw):
                e.store_int(st, pi + 8 * i, 8, v)
            po = e.new_obj(st, 8 * (nout + 1), "zero", "out")
            args = [pi, po]
        for p in pre:
            if not isinstance(p, int):
                st.pc.append(p)
        if st.pc:
            r, m = smt.solve(st.pc, 20000)
            st.model = m if r == "sat" else None
        e.start(fname, args, st)
        outs = e.run(st)
        self.c.use_engine(e)
        self.c.paths += len(outs)
        for o in outs:
            if o.kind == "ret" and not noargs:
                o.value = [e.load_int(o.state, po + 8 * i, 8) for i in range(nout)]
        return outs, e

    def elem(self, name):
        return [T.var("%s%d" % (name, i), 64) for i in range(4)] + [0] * (self.W - 4)

    def celem(self, v):
        return words(v, self.W)


def lval(L, ws):
    p = {}
    for i, w in enumerate(ws):
        p = L.padd(p, L.conv(w), 1 << 64 * i)
    return p


class Op:
    """one entry point with its specification.
    ins: list of ('e', name) canonical element | ('u', name, n words) any integer
    out: words of the result element start at `ofs`;   spec(vals) -> residue wanted, as function of input integers
    (in Montgomery form for elements), given both as polynomial (spec_poly) and on integers (spec_int)"""

    def __init__(self, fname, ins, spec_poly, spec_int, scale=1, ofs=0, nout=None, desc="", wres=None, usepre=False, flag=None):
        self.fname, self.ins, self.spec_poly, self.spec_int, self.scale, self.ofs, self.nout, self.desc = (
            fname, ins, spec_poly, spec_int, scale, ofs, nout, desc)
        self.wres = wres        # words of the result; None: those of an element
        self.flag = flag        # {output index: value} every run must show
        self.usepre = usepre    # the precondition is needed for the run itself


EDGE = None


def edges(q):
    ls = [0, 1, 2, M64, M64 - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 977]
    vs = {0, 1, 2, 3, q - 1, q - 2, q - 3, (q - 1) // 2, (q + 1) // 2, R % q, R * R % q, (R % q) - 1, q - R % q, 2**255, 2**255 - 1, 2**128, 2**128 - 1,
          2**192 - 1, 2**192, q - 2**64, q - 2**128, q - 2**192, 2**64 - 1, 2**64, 2**252}
    for k in range(4):
        for x in ls:
            vs.add(x << 64 * k)
            vs.add((q - 1) ^ (x << 64 * k))
            vs.add(q - 1 - (x << 64 * k))
    return sorted(v for v in vs if 0 <= v < q)


class Prover:
    def __init__(self, c, F):
        self.c, self.F = c, F
        self.done = {}
        self.Q = F.Q

    def wres(self, op):
        return op.wres or self.F.W

    def flags_ok(self, op, out):
        return all(out[k] == v for k, v in (op.flag or {}).items())


    def inputs(self, op):
        F = self.F
        ws, names, pre = [], [], []
        for i in op.ins:
            if i[0] == "e":
                v = F.elem(i[1])
            elif i[0] == "k":
                v = list(i[3])
            else:
                v = [T.var("%s%d" % (i[1], k), 64) for k in range(i[2])]
            names.append(v)
            ws += v
        return ws, names

    def conc(self, op, vals):
        ws = []
        for i, v in zip(op.ins, vals):
            ws += words(v, self.F.W if i[0] == "e" else i[2])
        return ws

    def nout(self, op):
        return op.nout if op.nout is not None else op.ofs + self.wres(op)

    def canon_pre(self, op, names):
        """path condition: element inputs are canonical"""
        pre = []
        for i, v in zip(op.ins, names):
            if i[0] in "ec":
                pre.append(lt_const(v[:4], self.Q))
        return pre

    def prove(self, op):
        c = self.c
        ws, names = self.inputs(op)
        t0 = time.time()
        try:
            outs, e = self.F.run_raw(op.fname, ws, self.nout(op), pre=self.canon_pre(op, names) if op.usepre else ())
        except (symex.Unsupported, symex.Limit) as ex:
            outs = None
            why = repr(ex)
        if outs is None or len(outs) != 1 or outs[0].kind != "ret":
            if outs is not None:
                why = "%d paths (%s)" % (len(outs), ",".join(sorted({o.kind for o in outs})))
            return self.hunt(op, "symbolic run: " + why, {})
        out = outs[0].value
        key = tuple(x.id if not isinstance(x, int) else ("c", x) for x in out) + (op.desc,)
        if key in self.done:
            v = self.done[key]
            c.obligation(op.fname + " == " + op.desc, v, note="identical term as an earlier obligation")
            return v
        self.validate(op, ws, out)
        s0 = lia.STATS["solver_s"]
        L = lia.Lia()
        res = L_out = None
        fails = {}
        try:
            ivals = [lval(L, n) for n in names]
            pre = []
            maxs = []
            for i, v in zip(op.ins, ivals):
                mx = self.Q - 1 if i[0] in "ec" else (1 << 64 * i[2]) - 1
                maxs.append(mx)
                pre.append(L.z(v) <= mx)
            vr = lval(L, out[op.ofs:op.ofs + self.wres(op)])
            if op.scale != 1 and len(ivals) >= 1 and any(len(m) > 1 for m in op.spec_poly(L, ivals)):
                if len(ivals) == 1:
                    pre += L.mul_bounds(ivals[0], maxs[0], ivals[0], maxs[0])
                else:
                    pre += L.mul_bounds(ivals[0], maxs[0], ivals[1], maxs[1])
            qs = [("flag %d" % k, L.boolean(T.not_(T.eq(64, out[k], w)))) for k, w in (op.flag or {}).items()]
            qs += [("canonical result", L.z(vr) >= self.Q),
                  ("congruence", L.not_congruent(L.pscale(vr, op.scale), op.spec_poly(L, ivals), self.Q))]
            for nm, q in qs:
                r = L.check_real(pre + [q], int(min(90, max(10, c.left() / 3)) * 1000))
                if r != "unsat":
                    fails[nm] = r
        except NotImplementedError as ex:
            fails["encoding"] = repr(ex)
        if L.overapprox:
            c.extra.setdefault("overapproximated", []).extend(L.overapprox[:5])
        if not fails:
            self.done[key] = "holds"
            c.obligation("%s == %s, canonical, for all canonical operands" % (op.fname, op.desc), "holds", lia.STATS["solver_s"] - s0)
            return "holds"
        v = self.hunt(op, "full-width query: %r" % fails, fails)
        self.done[key] = v
        return v

    def validate(self, op, ws, out, n=4):
        """encoding vs native on concrete inputs"""
        c = self.c
        E = edges(self.Q)
        reqs, envs = [], []
        for _ in range(n):
            vals = []
            for i in op.ins:
                if i[0] == "k":
                    vals.append(unwords(i[3]))
                elif i[0] in "ec":
                    vals.append(RNG.choice(E) if RNG.random() < .5 else RNG.randrange(self.Q))
                else:
                    vals.append(RNG.randrange(1 << 64 * i[2]))
            w = self.conc(op, vals)
            reqs.append((op.fname, w))
            envs.append({t.aux[0]: x for t, x in zip(ws, w) if not isinstance(t, int)})
        nat = self.F.h.native_many(reqs)
        for (f, w), en, r in zip(reqs, envs, nat):
            if r == "panic" or r == "timeout":
                continue
            got = [T.evaluate(t, en) for t in out]
            if got != r[:len(got)]:
                raise Broken("encoding of %s disagrees with the native code on %r: %r vs %r" % (f, w, got, r))
            c.validated += 1

    def oracle_ok(self, op, vals, res):
        if res == "panic" or res == "timeout":
            return False
        v = unwords(res[op.ofs:op.ofs + self.wres(op)])
        return self.flags_ok(op, res) and v < self.Q and (v * op.scale - op.spec_int(*vals)) % self.Q == 0

    def report(self, op, vals, res):
        dev = self.F.h.native(op.fname, self.conc(op, vals), self.F.h.dev_bin())
        self.c.violation("%s on %s gives %s, expected the canonical residue of %s" % (op.fname, [hex(v) for v in vals], res if isinstance(res, str) else hex(unwords(res[op.ofs:op.ofs + self.wres(op)])), op.desc),
                         {"entry": op.fname, "inputs": [hex(v) for v in vals], "release": res, "dev": dev, "modulus": hex(self.Q), "representation": "Montgomery words, R=2^256"})
        self.c.obligation(op.fname + " == " + op.desc, "violated")
        return "violated"

    def hunt(self, op, why, fails):
        """the solver did not prove the obligation: look for a real counterexample"""
        c = self.c
        c.log("%s: %s; looking for a concrete counterexample" % (op.fname, why))
        E = edges(self.Q)
        lists = []
        for i in op.ins:
            lists.append([unwords(i[3])] if i[0] == "k" else E if i[0] in "ec" else uedges(i[2]))
        # candidates at the boundaries of the encoding's case splits
        if len(op.ins) == 1:
            cands = [(v,) for v in lists[0]] + [(v,) for v in grid(self.Q if op.ins[0][0] in "ec" else 1 << 64 * op.ins[0][2])]
        else:
            cands = list(itertools.product(lists[0], lists[1]))
        for k in range(0, len(cands), 4000):
            reqs = [(op.fname, self.conc(op, v)) for v in cands[k:k + 4000]]
            for v, r in zip(cands[k:k + 4000], self.F.h.native_many(reqs)):
                if not self.oracle_ok(op, v, r):
                    return self.report(op, v, r)
        # rare branches of the computation, reached by bit-vector queries with one operand fixed
        r = self.rare(op, time.time() + min(120, max(20, c.left() * .3)))
        if r:
            return self.report(op, *r)
        # one operand fixed: exact linear integer queries over all values of the other
        decided = 0
        total = 0
        t_end = time.time() + min(200, max(20, c.left() * .5))
        if len(op.ins) == 2:
            fixes = [{k: v} for v in interesting(self.Q) for k in (0, 1)]
        else:
            fixes = [{}]
            if op.ins[0][0] in "ec":
                fixes += [{0: {i: lv for i in range(4) if pat >> i & 1}} for pat in range(1, 15) for lv in (0, M64)]
        whole = False
        total = len(fixes)
        for f, r in vlib.pmap(lambda f: self.exact(op, f, 60000 if f == {} else 20000), fixes, t_end,
                              stop=lambda r: isinstance(r, tuple) or (r == "unsat" and len(op.ins) == 1 and False)):
            if isinstance(r, tuple):
                return self.report(op, *r)
            decided += r == "unsat"
            whole = whole or (f == {} and r == "unsat")
        if whole:
            c.obligation("%s == %s, for all operands (exact integer query)" % (op.fname, op.desc), "holds")
            return "holds"
        c.obligation("%s == %s" % (op.fname, op.desc), "reduced",
                     note="%s; decided for all values of one operand with the other fixed to %d of %d values; no counterexample" % (why, decided, total))
        return "reduced"

    def sym(self, op, fix):
        F = self.F
        names, ws = [], []
        for k, i in enumerate(op.ins):
            n = F.W if i[0] == "e" else i[2]
            if i[0] == "k":
                names.append(list(i[3]))
                ws += i[3]
                continue
            v = F.elem(i[1]) if i[0] == "e" else [T.var("%s%d" % (i[1], j), 64) for j in range(n)]
            f = fix.get(k)
            if isinstance(f, int):
                v = words(f, n)
            elif f:
                v = [f.get(j, x) for j, x in enumerate(v)]
            names.append(v)
            ws += v
        return names, ws

    def rare(self, op, t_end):
        """conditions inside the computed terms that ordinary operands do not make true (or false): ask the
        bit-vector solver for operands that do, and try them natively"""
        q = self.Q
        fixes = [{}, {1: 1}, {0: 1}, {1: R % q}, {1: q - 1}] if len(op.ins) == 2 else [{}]
        for fix in fixes:
            names, ws = self.sym(op, fix)
            try:
                outs, e = self.F.run_raw(op.fname, ws, self.nout(op))
            except (symex.Unsupported, symex.Limit):
                continue
            pre = [lt_const([x for x in v[:4]], q) for i, v in zip(op.ins, names) if i[0] in "ec"]
            conds = {}
            for o in outs:
                roots = [x for x in (o.value or []) if not isinstance(x, int)] + [p for p in o.state.pc if not isinstance(p, int)]
                for t in subterms(roots):
                    if t.op in ("eq", "ult", "slt"):
                        conds[t.id] = t
            envs = []
            E = edges(q)
            for _ in range(40):
                en = {}
                for i, v in zip(op.ins, names):
                    if i[0] == "k":
                        continue
                    x = RNG.choice(E) if RNG.random() < .5 else RNG.randrange(q if i[0] in "ec" else 1 << 64 * i[2])
                    for t, w in zip(v, words(x, len(v))):
                        if not isinstance(t, int):
                            en[t.aux[0]] = w
                envs.append(en)
            todo = []
            for t in sorted(conds.values(), key=lambda t: t.id):
                seen = {T.evaluate(t, en) for en in envs}
                for want in (0, 1):
                    if want not in seen:
                        todo.append(t if want else T.not_(t))
            # equalities first: carries that never happen are unsatisfiable and slow to refute
            todo.sort(key=lambda t: (t.op != "eq", t.id))
            def one(t, pre=pre, names=names):
                r, m = smt.solve(pre + [t], 20000)
                if r != "sat":
                    return None
                vals = [unwords([x if isinstance(x, int) else m.get(x.aux[0], 0) for x in v]) for v in names]
                if all(i[0] in "uk" or v < q for i, v in zip(op.ins, vals)):
                    res = self.F.h.native(op.fname, self.conc(op, vals))
                    if not self.oracle_ok(op, vals, res):
                        return vals, res
                return None
            for it, v in vlib.pmap(one, todo, min(t_end, time.time() + 60), stop=lambda v: True):
                if v:
                    return v
            if time.time() > t_end:
                break
        return None

    def exact(self, op, fix, timeout):
        """exact query with some operand (or limbs) fixed -> 'unsat' | 'unknown' | (vals, native result)"""
        F = self.F
        names, ws = self.sym(op, fix)
        try:
            outs, e = F.run_raw(op.fname, ws, self.nout(op))
        except (symex.Unsupported, symex.Limit):
            return "unknown"
        verdict = "unsat"
        for o in outs:
            L = lia.Lia()
            try:
                ivals = [lval(L, n) for n in names]
                pre = [L.z(v) <= self.Q - 1 for i, v in zip(op.ins, ivals) if i[0] in "ec"]
                pre += [L.boolean(p) for p in o.state.pc]
                if o.kind == "ret":
                    vr = lval(L, o.value[op.ofs:op.ofs + self.wres(op)])
                    qs = [L.boolean(T.not_(T.eq(64, o.value[k], w))) for k, w in (op.flag or {}).items()]
                    qs += [L.z(vr) >= self.Q, L.not_congruent(L.pscale(vr, op.scale), op.spec_poly(L, ivals), self.Q)]
                else:
                    qs = [L.z({(): 1}) >= 0]
                for q in qs:
                    r, m = L.check(pre + [q], timeout)
                    if r == "sat":
                        env = L.model_env(m)
                        vals = []
                        for i, n in zip(op.ins, names):
                            vals.append(unwords([x if isinstance(x, int) else env.get(x.aux[0], 0) for x in n]))
                        if all(i[0] in "uk" or v < self.Q for i, v in zip(op.ins, vals)):
                            res = F.h.native(op.fname, self.conc(op, vals))
                            if not self.oracle_ok(op, vals, res):
                                return vals, res
                        verdict = "unknown"
                    elif r != "unsat":
                        verdict = "unknown"
            except NotImplementedError:
                verdict = "unknown"
        return verdict


def subterms(roots):
    seen = set()
    out = []
    stack = list(roots)
    while stack:
        t = stack.pop()
        if isinstance(t, int) or t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(t.args)
    return out


def uedges(n):
    top = 1 << 64 * n
    vs = {0, 1, 2, Q, Q - 1, Q + 1, top - 1, top - 2, top >> 1, R, R - 1, R * R - 1, 2 * Q, R - Q}
    for k in range(n):
        for x in (1, M64, 1 << 63):
            vs.add(x << 64 * k)
            vs.add((top - 1) ^ (x << 64 * k))
    return sorted(v for v in vs if 0 <= v < top)


def grid(top):
    ls = [0, 1, M64, M64 - 1, 1 << 63, (1 << 63) - 1, 0xffffffff, 1 << 32, 0xaaaaaaaaaaaaaaaa]
    out = []
    n = ((top - 1).bit_length() + 63) // 64
    if n > 4:
        ls = [0, 1, M64]
    for t in itertools.product(ls, repeat=n):
        v = unwords(t)
        if v < top:
            out.append(v)
    return out


def interesting(q):
    return [1, q - 1, 2, R % q, R * R % q, q - 2, M64 << 192 | 1, M64, M64 << 64, M64 << 128, (1 << 64) - 1 << 192, q - (1 << 64), 2**255, 2**255 - 1, 1 << 64, 1 << 128, 1 << 192, (q - 1) // 2, 2**192 - 1, q >> 64 << 64, q >> 128 << 128, 0]


def lt_const(limbs, q):
    """term: the four-limb value is below q"""
    r = 0
    for i, w in enumerate(limbs):
        k = q >> 64 * i & M64
        r = T.or_(1, T.ult(64, w, k), T.and_(1, T.eq(64, w, k), r))
    return r


def load(c, exports, name="h_scalar", crate="scalar"):
    w = vlib.workdir()
    h = vlib.Harness(crate, name, w)
    c.log("harness built in %.1fs" % h.build_s)
    return Field(c, h, exports)


ADDS = ["h_add_rr", "h_add_vr", "h_add_rv", "h_add_vv", "h_add_av", "h_add_ar", "h_add_fn"]
SUBS = [x.replace("add", "sub") for x in ADDS]
MULS = [x.replace("add", "mul") for x in ADDS]
NEGS = ["h_neg_r", "h_neg_v", "h_neg_fn"]

AB = [("e", "a"), ("e", "b")]
A = [("e", "a")]


def p_add(L, v):
    return L.padd(v[0], v[1])


def p_sub(L, v):
    return L.padd(v[0], v[1], -1)


def p_neg(L, v):
    return L.pscale(v[0], -1)


def p_dbl(L, v):
    return L.pscale(v[0], 2)


def p_mul(L, v):
    return L.pmul(v[0], v[1])


def p_sq(L, v):
    return L.pmul(v[0], v[0])


def c01(c):
    F = load(c, ADDS + SUBS + NEGS + ["h_double"])
    P = Prover(c, F)
    c.bounds.append("none on values: all canonical operands (words 0..3 symbolic 64-bit, value below q)")
    c.assumptions.append("elements are in-memory words in Montgomery form with R=2^256; unused high words are zero")
    for f in ADDS:
        P.prove(Op(f, AB, p_add, lambda a, b: a + b, desc="a+b mod q"))
    for f in SUBS:
        P.prove(Op(f, AB, p_sub, lambda a, b: a - b, desc="a-b mod q"))
    for f in NEGS:
        P.prove(Op(f, A, p_neg, lambda a: -a, desc="-a mod q"))
    P.prove(Op("h_double", A, p_dbl, lambda a: 2 * a, desc="2a mod q"))


def c02(c):
    F = load(c, MULS + ["h_square"])
    P = Prover(c, F)
    c.bounds.append("none on values: all canonical operands")
    c.assumptions.append("elements are in-memory words in Montgomery form with R=2^256; unused high words are zero")
    for f in MULS:
        P.prove(Op(f, AB, p_mul, lambda a, b: a * b, scale=R, desc="a*b/R mod q (Montgomery product)"))
    P.prove(Op("h_square", A, p_sq, lambda a: a * a, scale=R, desc="a^2/R mod q"))


def bv_check(c, F, name, claim, pre, ws, fname, expect, timeout=60000):
    """claim: a one-bit term that must always be 1 (under pre); counterexamples are replayed natively through `expect`
    (words -> None if the native result is right, else text)"""
    t0 = time.time()
    r, m = smt.solve([p for p in pre if not isinstance(p, int)] + [T.not_(claim)], timeout) if not (isinstance(claim, int) and claim == 1) else ("unsat", None)
    if r == "unsat":
        c.obligation(name, "holds", time.time() - t0)
        return True
    if r == "sat":
        w = [x if isinstance(x, int) else (m or {}).get(x.aux[0], 0) for x in ws]
        bad = expect(w)
        if bad:
            c.violation("%s: %s" % (name, bad), {"entry": fname, "words": [hex(x) for x in w]})
            c.obligation(name, "violated")
            return False
        raise Broken("%s: the solver's counterexample %r does not reproduce natively" % (name, w))
    c.obligation(name, "reduced", time.time() - t0, "solver gave no answer")
    return None


def c03(c):
    F = load(c, ["h_from_bytes", "h_from_bytes_un", "h_to_bytes", "h_to_bytes_from", "h_eq", "h_ne", "h_ct_eq"])
    P = Prover(c, F)
    c.bounds.append("none on values: all 2^256 byte strings, all canonical elements and pairs of elements")
    decoding(c, F, P, "h_from_bytes", "h_from_bytes_un")
    for f in ("h_to_bytes", "h_to_bytes_from"):
        P.prove(Op(f, A, lambda L, v: v[0], lambda a: a, scale=R, wres=4, desc="the canonical little-endian value of the element"))
    equality(c, F, (("h_eq", 0), ("h_ne", 1), ("h_ct_eq", 0)))


def decoding(c, F, P, fn, fun):
    """decoding: accepted exactly when below the modulus"""
    ws = [T.var("v%d" % k, 64) for k in range(4)]
    nm = fn.split("_", 1)[1]
    outs, e = F.run_raw(fn, ws, 1 + F.W)
    ok = len(outs) == 1 and outs[0].kind == "ret"
    if ok:
        o = outs[0].value

        def expect(w):
            r = F.h.native(fn, w)
            v = unwords(w)
            want = int(v < Q)
            if r == "panic" or r[0] != want:
                return nm + "(%#x) gives %s, but the value is %s the modulus" % (v, r, "below" if want else "not below")
        bv_check(c, F, nm + " accepts exactly the integers below the modulus", T.eq(64, o[0], T.zext(64, lt_const(ws, Q), 1)), [], ws, fn, expect)
    else:
        for o in outs:
            if o.kind != "ret":
                r, m = smt.solve(o.state.pc, 30000)
                w = [(m or {}).get(x.aux[0], 0) for x in ws]
                if r == "sat" and F.h.native(fn, w) == "panic":
                    c.violation(nm + " panics on %#x" % unwords(w), {"entry": fn, "words": [hex(x) for x in w]})
                    break
            else:
                claim = T.eq(64, o.value[0], T.zext(64, lt_const(ws, Q), 1))

                def expect(w):
                    r = F.h.native(fn, w)
                    v = unwords(w)
                    if r == "panic" or r[0] != int(v < Q):
                        return nm + "(%#x) gives %s" % (v, r)
                bv_check(c, F, nm + " accepts exactly the integers below the modulus (one path)", claim, o.state.pc, ws, fn, expect)
    P.prove(Op(fun, [("c", "v", 4)], lambda L, v: L.pscale(v[0], R), lambda v: v * R, usepre=True, desc="the residue of a canonical encoding"))


def equality(c, F, fs):
    a, b = F.elem("a"), F.elem("b")
    same = 1
    for x, y in zip(a[:4], b[:4]):
        same = T.and_(1, same, T.eq(64, x, y))
    for f, neg in fs:
        outs, e = F.run_raw(f, a + b, 1)
        for o in outs:
            want = T.zext(64, T.not_(same) if neg else same, 1)

            def expect(w, f=f, neg=neg):
                r = F.h.native(f, w)
                if r == "panic" or r[0] != int((w[:4] == w[F.W:F.W + 4]) != bool(neg)):
                    return "%s gives %s" % (f, r)
            if o.kind != "ret":
                bv_check(c, F, f + " does not panic", 0, o.state.pc, a + b, f, expect)
                continue
            bv_check(c, F, f + " decides equality of residues", T.eq(64, o.value[0], want), o.state.pc, a + b, f, expect)


def const_check(c, F, fname, value):
    outs, e = F.run_raw(fname, [], F.W)
    got = [o.value for o in outs]
    if len(got) == 1 and outs[0].kind == "ret" and all(isinstance(x, int) for x in got[0]):
        if got[0] == words(value, F.W):
            c.obligation("%s is %#x" % (fname, value), "holds")
            return
    r = F.h.native(fname, [])
    if r != words(value, F.W):
        c.violation("%s gives %s" % (fname, r), {"entry": fname})
        c.obligation(fname, "violated")
    else:
        c.obligation(fname, "holds", note="native constant")


def c04(c):
    F = load(c, ["h_from_u64", "h_from_raw", "h_from_bytes_wide", "h_random", "h_zero", "h_one"])
    P = Prover(c, F)
    c.bounds.append("none on values: all 64-, 256- and 512-bit inputs")
    sp = lambda L, v: L.pscale(v[0], R)
    si = lambda v: v * R
    P.prove(Op("h_from_u64", [("u", "v", 1)], sp, si, desc="v mod q"))
    P.prove(Op("h_from_raw", [("u", "v", 4)], sp, si, desc="v mod q (256-bit v)"))
    P.prove(Op("h_from_bytes_wide", [("u", "v", 8)], sp, si, desc="v mod q (512-bit v)"))
    P.prove(Op("h_random", [("u", "v", 8)], sp, si, ofs=1, flag={0: 64}, desc="the 64 bytes drawn, reduced mod q"))
    const_check(c, F, "h_zero", 0)
    const_check(c, F, "h_one", R % Q)


# ------------------------------------------------------------------ compositional runs
# Scalar::mul and Scalar::square are proved separately (C02), Scalar::add/sub/neg/double by C01.  Routines built
# from them are run with these calls replaced by their meaning in a free group: an element is represented by its
# exponent (multiplicative) or coefficient (additive), a 64*W-bit integer held in its words.

def rd(e, st, p, n):
    v = 0
    for i in range(n):
        w = e.load_int(st, p + 8 * i, 8)
        v = T.concat(w, 64, v, 64 * i) if i else w
    return v


def wr(e, st, p, v, n):
    for i in range(n):
        e.store_int(st, p + 8 * i, 8, T.extract(v, 64 * i, 64, 64 * n) if not isinstance(v, int) else v >> 64 * i & M64)


def dadd(N, x, y):
    for a, b in ((x, y), (y, x)):
        if isinstance(b, int) and b < 1 << min(T.tz_of(a), N):
            return T.or_(N, a, b)
    return T.add(N, x, y)


class Domain:
    def __init__(self, W, one):
        self.W, self.N, self.one = W, 64 * W, one       # one: words (as integer) that represent exponent 0
        self.hits = set()

    def get(self, e, st, p):
        return self.unwords([e.load_int(st, p + 8 * i, 8) for i in range(self.W)])

    def put(self, e, st, p, v):
        for i, w in enumerate(self.words(v)):
            e.store_int(st, p + 8 * i, 8, w)

    def words(self, v):
        return [T.xor(64, T.extract(v, 64 * i, 64, self.N) if not isinstance(v, int) else v >> 64 * i & M64, self.one >> 64 * i & M64) for i in range(self.W)]

    def unwords(self, ws):
        v = 0
        for i, w in enumerate(ws):
            w = T.xor(64, w, self.one >> 64 * i & M64)
            v = T.concat(w, 64, v, 64 * i) if i else w
        return v

    def binop(self, name, f):
        def h(e, st, a):
            self.hits.add(name)
            if len(a) == 3:
                self.put(e, st, a[0], f(self.get(e, st, a[1]), self.get(e, st, a[2])))
            else:
                self.put(e, st, a[0], f(self.get(e, st, a[1])))
            return 0
        return h

    def mult_hooks(self, p=r"^<h_scalar::scalar::Scalar>::"):
        N = self.N
        return {p + "mul$": self.binop("mul", lambda x, y: dadd(N, x, y)), p + "square$": self.binop("square", lambda x: T.shl(N, x, 1))}

    def add_hooks(self, p=r"^<h_scalar::scalar::Scalar>::"):
        N = self.N
        return {p + "add$": self.binop("add", lambda x, y: T.add(N, x, y)), p + "sub$": self.binop("sub", lambda x, y: T.sub(N, x, y)),
                p + "neg$": self.binop("neg", lambda x: T.sub(N, 0, x)), p + "double$": self.binop("double", lambda x: T.shl(N, x, 1))}


def try_cases(c, F, fname, cases, oracle, name):
    """native replay: cases of word lists; oracle(words, result) -> None or text"""
    for w, r in zip(cases, F.h.native_many([(fname, w) for w in cases])):
        bad = oracle(w, r)
        if bad:
            c.violation("%s: %s" % (name, bad), {"entry": fname, "words": [hex(x) for x in w], "result": r if isinstance(r, str) else [hex(x) for x in r]})
            return True
    return False


def decide(c, F, name, outs_claims, model_case, cases, fname, oracle, why=None):
    """outs_claims: list of (path condition, claim) or None if the run failed.
    A counterexample is turned into native words by model_case(model) and replayed, then the edge cases are tried."""
    t0 = time.time()
    verdict = "holds"
    if outs_claims is None:
        verdict = "unknown"
    else:
        for pc, claim in outs_claims:
            if isinstance(claim, int) and claim == 1:
                c.trivial = getattr(c, "trivial", 0) + 1
                continue
            r, m = smt.solve([p for p in pc if not isinstance(p, int)] + [T.not_(claim)], 60000)
            if r == "unsat":
                continue
            verdict = "unknown"
            if r == "sat" and model_case:
                cs = model_case(m or {})
                if cs and try_cases(c, F, fname, cs, oracle, name):
                    c.obligation(name, "violated")
                    return "violated"
                why = (why or "") + " (abstract counterexample does not reproduce)"
            else:
                why = (why or "") + " solver: " + r
    if verdict == "holds":
        c.obligation(name, "holds", time.time() - t0)
        return verdict
    if try_cases(c, F, fname, cases, oracle, name):
        c.obligation(name, "violated")
        return "violated"
    c.obligation(name, "reduced", time.time() - t0, (why or "").strip())
    return "reduced"


def mont(v):
    return v % Q * R % Q


def unmont(w):
    return unwords(w) * pow(R, -1, Q) % Q


def run_or_none(F, *a, **k):
    try:
        return F.run_raw(*a, **k)[0], None
    except (symex.Unsupported, symex.Limit) as ex:
        return None, repr(ex)


def elem_ok(F, ws, v):
    return unwords(ws) == mont(v)


def rnd():
    return RNG.randrange(1, Q)


def c05(c):
    F = load(c, ["h_pow", "h_pow_vartime", "h_invert"] + ["h_batch%d" % k for k in range(6)] + ["model_invert", "model_mod_inverse", "verif_note", "verif_word", "verif_inv"])
    W = F.W
    D = Domain(W, R % Q)
    c.bounds += ["exponents: none (all 256-bit exponents, all bases)", "batch inversion: lists of 0..5 elements", "inversion: none"]
    c.assumptions += ["field multiplication and squaring are as decided by C02", "num_bigint_dig's mod_inverse(g, n) returns Some(r), 0<=r<n, g*r=1 mod n, exactly when g and n are coprime",
                      "to_bytes / from_bytes_wide are as decided by C03 and C04"]
    powers(c, F, ("h_pow", "h_pow_vartime"))
    batches(c, F, ["h_batch%d" % n for n in range(6)])
    invert(c, F)


SP = r"^<h_scalar::scalar::Scalar>::"


def powers(c, F, fs, sp=SP):
    W = F.W
    D = Domain(W, R % Q)
    for f in fs:
        by = [T.var("by%d" % i, 64) for i in range(4)]
        outs, why = run_or_none(F, f, D.words(1) + by, W, hooks=D.mult_hooks(sp))
        byv = 0
        for i, w in enumerate(by):
            byv = T.concat(w, 64, byv, 64 * i) if i else w
        cl = None
        if outs is not None and D.hits:
            cl = [(o.state.pc, T.eq(D.N, D.unwords(o.value), T.zext(D.N, byv, 256)) if o.kind == "ret" else 0) for o in outs]

        def oracle(w, r):
            a, e = unmont(w[:W]), unwords(w[W:])
            if r == "panic" or not elem_ok(F, r, pow(a, e, Q)):
                return "%#x to the power %#x gives %s" % (a, e, r if isinstance(r, str) else hex(unmont(r)))

        def mc(m):
            e = [m.get("by%d" % i, 0) for i in range(4)]
            return [F.celem(mont(a)) + e for a in (2, rnd(), rnd(), Q - 1, 0)]
        es = [0, 1, 2, 3, Q - 1, Q - 2, Q, (Q - 1) // 2, 2**256 - 1, 2**255, 2**64, 2**64 - 1, 2**128, 2**192, 2**63] + [1 << k for k in range(0, 256, 7)] + [RNG.randrange(2**256) for _ in range(20)]
        cases = [F.celem(mont(a)) + words(e, 4) for e in es for a in (0, 1, 2, Q - 1, rnd())]
        decide(c, F, f + ": the base to the given power, for every base and 256-bit exponent", cl, mc, cases, f, oracle, why)


def batches(c, F, fs, sp=SP, model="@model_invert"):
    W = F.W
    for n, f in enumerate(fs):
        D = Domain(W, R % Q)
        xs = []
        for k in range(n):
            v = 0
            for i in range(W):
                w = T.var("x%d_%d" % (k, i), 64)
                v = T.concat(w, 64, v, 64 * i) if i else w
            xs.append(v)
        hooks = dict(D.mult_hooks(sp))
        seen = []

        def inv(e, st, a):
            seen.append(1)
            D.put(e, st, a[1], T.sub(D.N, 0, D.get(e, st, a[0])))
            return 0
        hooks[sp + "invert$"] = lambda e, st, a: symex.Redirect(model, a)
        hooks[r"^verif_inv$"] = inv
        outs, why = run_or_none(F, f, [w for x in xs for w in D.words(x)], W * (n + 1), hooks=hooks)
        cl = None
        if outs is not None and seen:
            cl = []
            tot = 0
            for x in xs:
                tot = T.add(D.N, tot, x)
            for o in outs:
                if o.kind != "ret":
                    cl.append((o.state.pc, 0))
                    continue
                g = 1
                for k, x in enumerate(xs):
                    g = T.and_(1, g, T.eq(D.N, D.unwords(o.value[k * W:(k + 1) * W]), T.sub(D.N, 0, x)))
                g = T.and_(1, g, T.eq(D.N, D.unwords(o.value[n * W:]), T.sub(D.N, 0, tot)))
                cl.append((o.state.pc, g))

        def oracle(w, r, n=n):
            vs = [unmont(w[k * W:(k + 1) * W]) for k in range(n)]
            if r == "panic":
                return "batch_invert(%s) panics" % [hex(v) for v in vs]
            p = 1
            for k, v in enumerate(vs):
                i = pow(v, -1, Q)
                p = p * i % Q
                if not elem_ok(F, r[k * W:(k + 1) * W], i):
                    return "batch_invert(%s): element %d becomes %#x" % ([hex(v) for v in vs], k, unmont(r[k * W:(k + 1) * W]))
            if not elem_ok(F, r[n * W:], p):
                return "batch_invert(%s) returns %#x" % ([hex(v) for v in vs], unmont(r[n * W:]))
        pool = [1, 2, Q - 1, RI, R % Q, 3]
        cases = [[w for v in [RNG.choice(pool) if RNG.random() < .4 else rnd() for _ in range(n)] for w in F.celem(mont(v))] for _ in range(60 if n else 1)]
        cases += [[w for _ in range(n) for w in F.celem(mont(v))] for v in pool]
        decide(c, F, f + ": every element inverted, product of the inverses returned", cl, lambda m, cases=cases: cases, cases, f, oracle, why)


def invert(c, F, f="h_invert", S=SP):
    W = F.W

    def oracle(w, r):
        a = unmont(w)
        if r == "panic":
            return "invert(%#x) panics" % a
        if a == 0:
            return None if r[0] == 0 else "inverting zero is reported as successful"
        if r[0] != 1 or not elem_ok(F, r[1:], pow(a, -1, Q)):
            return "invert(%#x) gives %s" % (a, hex(unmont(r[1:])) if r[0] else "none")
    E = edges(Q)
    cases = [F.celem(mont(v)) for v in E] + [F.celem(v) for v in E] + [F.celem(mont(pow(v, -1, Q))) for v in E if v]
    bs = [[T.var("g%d" % k, 64) for k in range(4)], [T.var("r%d" % k, 64) for k in range(4)]]
    for phase in (0, 1):
        name = ("inversion hands the element's value and the modulus to the inverse computation and reports failure exactly when that fails, for every element"
                if phase == 0 else "inversion returns the residue of the computed inverse, for every inverse")
        rec = {"hit": 0}

        def tob(e, st, a):
            v = bs[0] if phase == 0 else words(5, 4)
            for k in range(4):
                e.store_int(st, a[0] + 8 * k, 8, v[k])
            return 0

        def note(e, st, a):
            rec["hit"] += 1
            st.data["n%d" % a[0]] = rd(e, st, a[1], 8)
            return 0

        def word(e, st, a):
            if a[0] == 0:
                return T.zext(64, T.var("some", 1), 1) if phase == 0 else 1
            return words(pow(5, -1, Q), 4)[a[0] - 1] if phase == 0 else bs[1][a[0] - 1]

        def wide(n):
            def h(e, st, a):
                # the result stands for the integer read; a value of more than 256 bits is not expected here
                v = rd(e, st, a[1], n)
                ok = T.eq(64 * n - 256, T.extract(v, 256, 64 * n - 256, 64 * n), 0) if n > 4 else 1
                st.data["fit"] = T.and_(1, st.data.get("fit", 1), ok)
                wr(e, st, a[0], T.extract(v, 0, 256, 64 * n) if n > 4 else v, 4)
                for k in range(4, W):
                    e.store_int(st, a[0] + 8 * k, 8, 0)
                return 0
            return h
        hooks = {S + "to_bytes$": tob, r"mod_inverse::mod_inverse$": lambda e, st, a: symex.Redirect("@model_mod_inverse", a),
                 r"^verif_note$": note, r"^verif_word$": word, S + "from_bytes_wide$": wide(8), S + "from_raw$": wide(4)}
        pre = [T.or_(1, T.not_(T.eq(64, bs[phase][3], 0)), 1)]
        outs, why = run_or_none(F, f, F.elem("a"), 1 + W, merge=False, hooks=hooks)
        cl = None
        if outs is not None and rec["hit"]:
            cl = []
            g = 0
            for i, w in enumerate(bs[phase]):
                g = T.concat(w, 64, g, 64 * i) if i else w
            some = T.var("some", 1)
            for o in outs:
                if o.kind != "ret" or "n0" not in o.state.data:
                    cl.append((o.state.pc, 0))
                    continue
                d, v = o.state.data, o.value
                if phase == 0:
                    q = T.and_(1, T.eq(512, d["n0"], T.zext(512, g, 256)), T.eq(512, d["n1"], Q))
                    q = T.and_(1, q, T.eq(64, v[0], T.zext(64, some, 1)))
                else:
                    q = T.and_(1, T.eq(64, v[0], 1), d.get("fit", 0))
                    for k in range(4):
                        q = T.and_(1, q, T.eq(64, v[1 + k], bs[1][k]))
                    for k in range(4, W):
                        q = T.and_(1, q, T.eq(64, v[1 + k], 0))
                cl.append((o.state.pc, q))

        def mc(m):
            v = unwords([m.get("%s%d" % ("gr"[phase], k), 0) for k in range(4)]) % Q
            r = [F.celem(mont(v)), F.celem(0)]
            if v:
                r.append(F.celem(mont(pow(v, -1, Q))))
            return r
        decide(c, F, name, cl, mc, cases, f, oracle, why)


def c06(c):
    F = load(c, ["h_ser", "h_de"])
    W = F.W
    P = Prover(c, F)
    c.bounds += ["element value: none", "input sequences of length 0..40, failing nowhere or at any of the first 34 positions"]
    P.prove(Op("h_ser", A, lambda L, v: v[0], lambda a: a, scale=R, ofs=4, wres=4, nout=14, flag={0: 1, 1: 32, 2: 32, 3: 1}, desc="a 32-element sequence holding the element's encoding"))
    data = [T.var("d%d" % k, 64) for k in range(6)]
    ref = None
    lens = sorted(set(range(0, 41)))
    cases = [(n, 99) for n in lens] + [(40, k) for k in range(35)] + [(k, k) for k in range(0, 35, 5)]
    for n, fail in cases:
        name = "reading a sequence of %d elements%s" % (n, "" if fail == 99 else ", element %d failing" % fail)
        short = n < 32 or fail < 32
        outs, why = run_or_none(F, "h_de", data + [n, fail], 1 + W)

        def oracle(w, r, short=short, name=name):
            if r == "panic":
                return "panics"
            if short:
                return None if r[0] == 0 else "succeeds"
            v = unwords(w[:4])
            if r[0] != 1 and v < Q:
                return "fails"
            if v < Q and not elem_ok(F, r[1:], v):
                return "gives %#x" % unmont(r[1:])
        samp = [words(v, 4) + [M64, 7] + [n, fail] for v in (0, 1, Q - 1, 2**255, 0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20, rnd())]
        cl = None
        if outs is not None:
            cl = []
            for o in outs:
                if o.kind != "ret":
                    cl.append((o.state.pc, 0))
                elif short:
                    cl.append((o.state.pc, T.eq(64, o.value[0], 0)))
                else:
                    q = T.or_(1, T.eq(64, o.value[0], 1), T.not_(lt_const(data[:4], Q)))
                    if len(outs) == 1:
                        key = tuple(x if isinstance(x, int) else -x.id for x in o.value[1:])
                        if ref is None:
                            ref = key
                            P.prove(Op("h_de", [("c", "d", 4), ("k", "k", 4, [0, 0, n, 99])], lambda L, v: L.pscale(v[0], R), lambda v, k: v * R, ofs=1, flag={0: 1}, usepre=True, desc="the element encoded by the 32 elements"))
                        elif key != ref:
                            q = 0
                    cl.append((o.state.pc, q))
        decide(c, F, name + (": error" if short else ": accepted"), cl, lambda m, n=n, fail=fail: [[m.get("d%d" % k, 0) for k in range(6)] + [n, fail]] + samp, samp, "h_de", oracle, why)


def c07(c):
    SUM, PROD = ["h_sum0", "h_sum1", "h_sum2", "h_sum3", "h_sum4v"], ["h_prod0", "h_prod1", "h_prod2", "h_prod3", "h_prod4v"]
    F = load(c, ["h_select", "h_assign", "h_swap", "h_zeroize", "h_clone", "h_default", "h_debug"] + SUM + PROD)
    c.bounds += ["selection, erasure, text: none", "sums and products: lists of 0..4 elements"]
    c.assumptions += ["addition and multiplication are as decided by C01 and C02; to_bytes by C03"]
    selections(c, F)
    folds(c, F, SUM, PROD)
    debug(c, F)


def selections(c, F, x="h_"):
    W = F.W
    a = [T.var("a%d" % i, 64) for i in range(W)]
    b = [T.var("b%d" % i, 64) for i in range(W)]
    ch = T.var("ch", 64)
    bit = T.extract(ch, 0, 1, 64)
    sel = [T.ite(64, bit, y, x) for x, y in zip(a, b)]
    les = [T.ite(64, bit, x, y) for x, y in zip(a, b)]
    want = {x + "select": (a + b + [ch], sel), x + "assign": (a + b + [ch], sel), x + "swap": (a + b + [ch], sel + les),
            x + "clone": (a, a), x + "zeroize": (a, [0] * W), x + "default": ([], [0] * W)}
    for f, (ins, exp) in want.items():
        outs, why = run_or_none(F, f, ins, len(exp))
        cl = None
        if outs is not None:
            cl = []
            for o in outs:
                g = 1 if o.kind == "ret" else 0
                for k, (x, y) in enumerate(zip(o.value or [], exp)):
                    if k % W < 4:
                        g = T.and_(1, g, T.eq(64, x, y))
                cl.append((o.state.pc, g))

        def oracle(w, r, f=f, ins=ins, exp=exp):
            env = {t.aux[0]: v for t, v in zip(ins, w)}
            e = [T.evaluate(t, env) if not isinstance(t, int) else t for t in exp]
            if r == "panic" or any(x != y for k, (x, y) in enumerate(zip(r, e)) if k % W < 4):
                return "on %s gives %s" % ([hex(x) for x in w], r)

        def mc(m, ins=ins):
            return [[m.get(t.aux[0], 0) for t in ins]]
        samp = [[RNG.choice([0, 1, M64, RNG.randrange(2**64)]) for _ in ins] for _ in range(50)]
        decide(c, F, f + ": exact for all operands", cl, mc, samp, f, oracle, why)


def folds(c, F, SUM, PROD, sp=SP):
    W = F.W
    for fs, one, isum in ((SUM, 0, True), (PROD, R % Q, False)):
        for n, f in enumerate(fs):
            D = Domain(W, one)
            xs = []
            for k in range(n):
                v = 0
                for i in range(W):
                    w = T.var("x%d_%d" % (k, i), 64)
                    v = T.concat(w, 64, v, 64 * i) if i else w
                xs.append(v)
            outs, why = run_or_none(F, f, [w for x in xs for w in D.words(x)], W, hooks=D.add_hooks(sp) if isum else D.mult_hooks(sp))
            cl = None
            if outs is not None and (D.hits or n < 2):
                tot = 0
                for x in xs:
                    tot = T.add(D.N, tot, x)
                cl = [(o.state.pc, T.eq(D.N, D.unwords(o.value), tot) if o.kind == "ret" else 0) for o in outs]

            def oracle(w, r, n=n, isum=isum):
                vs = [unmont(w[k * W:(k + 1) * W]) for k in range(n)]
                e = 0 if isum else 1
                for v in vs:
                    e = (e + v if isum else e * v) % Q
                if r == "panic" or not elem_ok(F, r, e):
                    return "%s of %s gives %s" % ("sum" if isum else "product", [hex(v) for v in vs], r if isinstance(r, str) else hex(unmont(r)))
            cases = [[w for v in [RNG.choice([0, 1, 2, Q - 1, Q - 2, (Q + 1) // 2, rnd()]) for _ in range(n)] for w in F.celem(mont(v))] for _ in range(200 if n else 1)]
            decide(c, F, f + ": fold over %d elements" % n, cl, lambda m, cases=cases: cases, cases, f, oracle, why)


def debug(c, F):
    """text: one byte of the encoding symbolic at a time (the others fixed), to_bytes replaced by its result"""
    W = F.W
    hexd = lambda n: T.ite(8, T.ult(8, n, 10), T.add(8, n, 48), T.add(8, n, 87))
    base = words(0x0f1e2d3c4b5a69788796a5b4c3d2e1f0112233445566778899aabbccddeeff00, 4)
    hit = []
    res = []

    def oracle(w, r):
        want = "0x%064x" % unmont(w)
        got = "panic" if r == "panic" else b"".join(x.to_bytes(8, "little") for x in r[1:])[:min(72, r[0])].decode("latin1")
        if got != want:
            return "an element of value %s prints as %s" % (want, got)
    cases = [F.celem(mont(v)) for v in edges(Q)]
    bad = None
    for pos in range(32):
        x = T.var("x", 8)

        def tob(e, st, a):
            hit.append(1)
            for k in range(4):
                e.store_int(st, a[0] + 8 * k, 8, base[k])
            e.store_int(st, a[0] + pos, 1, x)
            return 0
        outs, why = run_or_none(F, "h_debug", F.elem("a"), 10, hooks={r"^<h_scalar::scalar::Scalar>::to_bytes$": tob}, merge=False)
        cl = None
        if outs is not None and hit:
            cl = []
            bs = [base[k // 8] >> 8 * (k % 8) & 255 for k in range(32)]
            bs[pos] = x
            txt = [48, 120]
            for bb in reversed(bs):
                for nib in (T.lshr(8, bb, 4) if not isinstance(bb, int) else bb >> 4, T.and_(8, bb, 15)):
                    txt.append(hexd(nib) if not isinstance(nib, int) else ord("0123456789abcdef"[nib]))
            txt += [0] * 6
            for o in outs:
                if o.kind != "ret":
                    cl.append((o.state.pc, 0))
                    continue
                g = T.eq(64, o.value[0], 66)
                for k in range(9):
                    v = 0
                    for i in range(8):
                        v = T.concat(txt[8 * k + i], 8, v, 8 * i) if i else txt[8 * k + i]
                    g = T.and_(1, g, T.eq(64, o.value[1 + k], v))
                cl.append((o.state.pc, g))

        def mc(m, pos=pos):
            v = unwords(base) & ~(255 << 8 * pos) | m.get("x", 0) << 8 * pos
            return [F.celem(mont(v % Q))] + cases
        r = decide(c, F, "text of an element, byte %d of the encoding arbitrary" % pos, cl, mc, cases if pos == 0 else cases[:5], "h_debug", oracle, why)
        if r == "violated":
            return
