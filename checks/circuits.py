"""C22-C24 (and the circuit half of C14): the circom circuits."""
import itertools
import os
import random
import sys
import time
import circom
import ff
import fieldcase as fc
import vlib
from circom import P, Poly, Circuit, Program, CircomError
from fieldcase import Case, RF, Solver, V, K

QUICK = vlib.TIER == "quick"
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
DIR = vlib.REPO + "/packages/circuits"
ECD = DIR + "/eff_ecdsa_membership"
STATS = ff.STATS


# ---------------------------------------------------------------- the curve, as specified
def inv(x): return pow(x, P - 2, P)


def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * inv(2 * a[1]) % P
    else:
        l = (b[1] - a[1]) * inv(b[0] - a[0]) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def pmul(k, a):
    r = None
    while k:
        if k & 1:
            r = padd(r, a)
        a = padd(a, a)
        k >>= 1
    return r


def xy(a): return (0, 0) if a is None else a


def ypt(x):
    t = (x**3 + 7) % P
    y = pow(t, (P + 1) // 4, P)
    return y if y * y % P == t else None


def cuberoot(a):
    if a == 0:
        return 0
    if pow(a, (P - 1) // 3, P) != 1:
        return None
    r = pow(a, (P + 2) // 9, P)
    assert r**3 % P == a and P % 9 == 7
    return r


# facts about the curve used by the case split (all decided by Euler's criterion)
assert pow(7, (P - 1) // 2, P) == P - 1          # no point has x = 0
assert pow(P - 7, (P - 1) // 3, P) != 1          # no point has y = 0


def program(f):
    try:
        return Program(os.path.join(ECD, f))
    except (OSError, CircomError) as e:
        raise vlib.Broken("%s: %s" % (f, e))


def lib(prog, extra=None):
    """abstract templates: circomlib's (not shipped), unless the tree has a definition of its own"""
    d = {n: f for n, f in fc.LIB.items() if n not in prog.tem}
    d.update(extra or {})
    return d


# ---------------------------------------------------------------- C22
def sample(case, rng):
    """numbers for the base variables of a case -> dict or None"""
    for _ in range(400):
        vals, ok = {}, True
        subst = dict(case.zeros)
        pend = [v for v in case.v]
        for _ in range(6):
            rest = []
            for v in pend:
                if v in subst:
                    try:
                        vals[v] = fc.evaluate(subst[v], vals)
                    except KeyError:
                        rest.append(v)
                elif v in case.rules:
                    k, rep = case.rules[v]
                    try:
                        t = fc.evaluate(rep, vals)
                    except KeyError:
                        rest.append(v)
                        continue
                    if k == 2:
                        y = pow(t, (P + 1) // 4, P)
                        if y * y % P != t:
                            ok = False
                        vals[v] = y if rng.random() < 0.5 else P - y
                    elif k == 3:
                        r = cuberoot(t)
                        if r is None:
                            ok = False
                            r = 0
                        vals[v] = r
                    else:
                        ok = False
                else:
                    vals[v] = rng.choice([0, 1, 2, 3, rng.randrange(P)]) if v.startswith("free:") and rng.random() < 0.4 else rng.randrange(P)
            pend = rest
        if pend:
            # the other way round: ordinates first, abscissae as cube roots
            vals = {v: rng.randrange(P) for v in case.v if v not in subst and not v.startswith("x")}
            for v in case.v:
                if v in subst:
                    try:
                        vals[v] = fc.evaluate(subst[v], vals)
                    except KeyError:
                        pass
            for v in case.v:
                if v.startswith("x") and "y" + v[1:] in vals:
                    vals[v] = cuberoot((vals["y" + v[1:]]**2 - 7) % P)
            if any(vals.get(v) is None for v in case.v):
                continue
            ok = all(pow(vals[v], k, P) == fc.evaluate(r, vals) for v, (k, r) in case.rules.items()) and all(vals[v] == fc.evaluate(r, vals) for v, r in case.zeros)
        if not ok:
            continue
        if all(fc.evaluate(z, vals) for z in case.nz):
            return vals
    return None


def concrete(circ, sig):
    """do these signal values satisfy every constraint and every contract?"""
    for p, w in circ.all_constraints():
        if p.eval(sig):
            return False
    for n, p in fc.gate_defs(circ).items():
        if sig[n] != p.eval(sig):
            return False
    for c in circ.comps:
        if c.tname == "IsZero" and sig[circ.signame(c.sig["out"])] != int(c.sig["in"].eval(sig) == 0):
            return False
        if c.tname == "IsEqual" and sig[circ.signame(c.sig["out"])] != int((c.sig["in"][0] - c.sig["in"][1]).eval(sig) == 0):
            return False
    return True


def numbers(solver, vals):
    out = {}
    for n, x in solver.env.items():
        d = fc.evaluate(x.d, vals)
        if d == 0:
            return None
        out[n] = fc.evaluate(x.n, vals) * inv(d) % P
    return out


class Gadget:
    def __init__(self, c, prog, tname):
        self.c, self.t = c, tname
        try:
            self.circ = Circuit(prog, tname, abstract=lib(prog))
        except CircomError as e:
            raise vlib.Broken("%s: %s" % (tname, e))
        c.encoded |= {"%s::%s" % (os.path.relpath(prog.where[t], DIR), t) for t in self.circ.templates}
        c.instrs += len(self.circ.all_constraints()) + len(self.circ.comps)

    def check(self, case, spec, depth=0):
        """spec: case -> (outX, outY) as RF; every solution of the constraints has these outputs, and there is one"""
        c, nm = self.c, "%s [%s]" % (self.t, case.name)
        c.paths += 1
        s = Solver(self.circ, case.copy())
        try:
            s.run()
        except fc.Dead:
            self.complete(case, nm, depth)
            return
        except fc.Undecided as u:
            self.splits(case, spec, depth, u, nm)
            return
        except ff.TooBig:
            c.obligation(nm, "reduced", note="expression too large")
            return
        cs = s.cs
        try:
            want = spec(cs)
            for o, w in zip(("outX", "outY"), want):
                self.goal(s, cs, o, w, nm, want)
            if depth == 0 and want[0].d != {(): 0}:
                ox, oy = s.env["main.outX"], s.env["main.outY"]
                inf = not ox.n and not oy.n
                if not inf:
                    lhs, rhs = oy * oy, ox * ox * ox + RF(cs, K(7))
                    if lhs.d != rhs.d:
                        l, r = cs.mul(lhs.n, rhs.d), cs.mul(rhs.n, lhs.d)
                    else:
                        l, r = lhs.n, rhs.n
                    if len(l) < 5000:
                        v = zq(l, r)
                        if v == "unsat":
                            c.obligation(nm + ": the output is on the curve", "holds")
        except ff.TooBig:
            c.obligation(nm, "reduced", note="expression too large")
        self.complete(case, nm, depth)

    def goal(self, s, cs, o, w, nm, want):
        got = s.env.get("main." + o)
        if got is None:
            self.c.obligation(nm + ": " + o, "error", note="the output has no value")
            return
        l, r = cs.mul(got.n, w.d), cs.mul(w.n, got.d)
        if zq(l, r) == "unsat":
            self.c.obligation("%s: every solution has the right %s" % (nm, o), "holds")
            return
        rng = random.Random(vlib.SEED * 7919 + 1)
        for _ in range(30):
            vals = sample(cs, rng)
            if vals is None:
                break
            sig = numbers(s, vals)
            if sig is None or not concrete(self.circ, sig):
                continue
            ref = [fc.evaluate(x.n, vals) * inv(fc.evaluate(x.d, vals)) % P for x in want]
            got = [sig["main.outX"], sig["main.outY"]]
            if ref != got:
                self.bad("%s accepts a wrong result: %s" % (self.t, nm), sig, ref)
                return
        self.c.obligation("%s: %s" % (nm, o), "reduced", note="differs symbolically, no concrete assignment found")

    def bad(self, what, sig, ref):
        ins = {k: hex(v) for k, v in sig.items() if k.count(".") == 1}
        self.c.validated += 1
        self.c.obl.append({"name": what, "verdict": "violated", "solver_s": 0, "note": ""})
        if len(self.c.viol) < 5:
            self.c.violation(what, {"template": self.t, "signals": ins, "group result": [hex(x) for x in ref]}, key=what)

    def splits(self, case, spec, depth, u, nm):
        if u.poly is None or depth > 3:
            self.c.obligation(nm, "reduced", note="undecided: %s" % (u.why or fc.show(u.poly)))
            return
        if any(x.startswith("free:") for m in u.poly for x, _ in m):
            # the free signal may be chosen: it joins the base variables of the case
            case = case.copy()
            for m in u.poly:
                for x, _ in m:
                    if x.startswith("free:") and x not in case.v:
                        case.v.append(x)
                        case.inputs[x[5:]] = V(x)
        try:
            a, b = fc.split(case, u.poly)
        except ff.TooBig:
            a = b = None
        if b is None:
            self.c.obligation(nm, "reduced", note="cannot split on %s" % fc.show(u.poly))
            return
        if a is None:
            self.c.obligation(nm, "reduced", note="cannot solve %s = 0" % fc.show(u.poly))
        else:
            self.check(a, spec, depth + 1)
        self.check(b, spec, depth + 1)

    def complete(self, case, nm, depth):
        """the assignments written in the circuit satisfy its constraints"""
        s = Solver(self.circ, case.copy())
        try:
            rows = s.hints()
        except (fc.Undecided, ff.TooBig) as u:
            p = getattr(u, "poly", None)
            if p is not None and depth < 3 and not any(x.startswith("free:") for m in p for x, _ in m):
                try:
                    a, b = fc.split(case, p)
                except ff.TooBig:
                    a = b = None
                if a is not None:
                    self.complete(a, nm + " / " + a.name, depth + 1)
                    self.complete(b, nm + " / " + b.name, depth + 1)
                    return
            self.c.obligation(nm + ": honest witness", "reduced", note="undecided %s" % getattr(u, "why", ""))
            return
        rng = random.Random(vlib.SEED)
        for w, x in rows:
            if zq(x.n, {}) == "unsat":
                continue
            for _ in range(20):
                vals = sample(s.cs, rng)
                sig = numbers(s, vals) if vals else None
                if sig and not concrete(self.circ, sig):
                    self.bad("%s refuses its own witness: %s" % (self.t, nm), sig, [])
                    return
            self.c.obligation(nm + ": honest witness", "reduced", note="constraint not shown")
            return
        self.c.obligation(nm + ": the witness the circuit computes satisfies it", "holds")


def zq(l, r):
    """z3: can the two polynomials (normal forms) differ?"""
    names = {}
    f = lambda d: {0 if m == () else names.setdefault(m, len(names) + 1): c for m, c in d.items()}
    l, r = f(l), f(r)
    if l == r and len(l) > 400:
        ff.STATS["queries"] += 1
        ff.STATS["unsat"] += 1
        return "unsat"
    return ff.zquery(l, r)


XP, YP, XQ, YQ = V("xP"), V("yP"), V("xQ"), V("yQ")


def cub(x):
    n = x[0]
    return {((n, 3),): 1, (): 7}


def pt(which):
    if which == "P":
        return {"yP": (2, {(("xP", 3),): 1, (): 7})}
    return {"yQ": (2, {(("xQ", 3),): 1, (): 7})}


def ins(px, py, qx=None, qy=None):
    d = {"main.xP": px, "main.yP": py}
    if qx is not None:
        d.update({"main.xQ": qx, "main.yQ": qy})
    return d


def neg(d): return {m: -c % P for m, c in d.items()}


def cases():
    dx = fc.add(XP, XQ, -1)
    both = dict(pt("P"), **pt("Q"))

    def dbl(cs):
        x, y = RF(cs, XP_(cs)), RF(cs, YP_(cs))
        l = RF(cs, cs.mul(K(3), cs.mul(XP_(cs), XP_(cs)))) * RF(cs, cs.mul(K(2), YP_(cs))).inv()
        ox = l * l - x - x
        return ox, l * (x - ox) - y

    def XP_(cs): return cs.inputs["main.xP"]
    def YP_(cs): return cs.inputs["main.yP"]

    def gen(cs):
        i = {k[5:]: RF(cs, v) for k, v in cs.inputs.items()}
        l = (i["yQ"] - i["yP"]) * (i["xQ"] - i["xP"]).inv()
        ox = l * l - i["xP"] - i["xQ"]
        return ox, l * (i["xP"] - ox) - i["yP"]

    def which(p):
        return lambda cs: tuple(RF(cs, cs.inputs["main.%s%s" % (a, p)]) for a in "xy")

    def inf(cs): return RF(cs, {}), RF(cs, {})
    doubling = [(Case(["xP", "yP"], pt("P"), [XP, YP], ins(XP, YP), "P on the curve"), dbl)]
    incomplete = [(Case(["xP", "yP", "xQ", "yQ"], both, [dx, XP, XQ, YP, YQ], ins(XP, YP, XQ, YQ), "xP != xQ"), gen)]
    complete = [
        (Case([], {}, [], ins({}, {}, {}, {}), "P = Q = O"), inf),
        (Case(["xQ", "yQ"], pt("Q"), [XQ, YQ], ins({}, {}, XQ, YQ), "P = O"), which("Q")),
        (Case(["xP", "yP"], pt("P"), [XP, YP], ins(XP, YP, {}, {}), "Q = O"), which("P")),
        (Case(["xP", "yP", "xQ", "yQ"], both, [dx, XP, XQ, YP, YQ], ins(XP, YP, XQ, YQ), "xP != xQ"), gen),
        (Case(["xP", "yP"], pt("P"), [XP, YP], ins(XP, YP, XP, YP), "P = Q"), dbl),
        (Case(["xP", "yP"], pt("P"), [XP, YP], ins(XP, YP, XP, neg(YP)), "P = -Q"), inf),
    ]
    return {"Secp256k1Double": ("secp256k1/double.circom", doubling), "Secp256k1AddIncomplete": ("secp256k1/add.circom", incomplete),
            "Secp256k1AddComplete": ("secp256k1/add.circom", complete)}


def c22(c):
    c.bounds.append("no bound: every point of the curve (cases: either or both infinite, equal, opposite, different x) and every value of every internal signal")
    c.assumptions += CIRC_ASSUME
    for t, (f, cl) in cases().items():
        g = Gadget(c, program(f), t)
        for case, spec in cl:
            g.check(case, spec)
            c.samples.append("%s: %s" % (t, case.name))


CIRC_ASSUME = [
    "circomlib (not shipped with the tree) behaves as documented: IsZero and IsEqual decide, the gates are their polynomials, Num2Bits decomposes",
    "7 is not a square and -7 not a cube mod p (checked at run time), so no point of the curve has x = 0 or y = 0",
    "circom's run time gives 0 for division by 0",
]


# ---------------------------------------------------------------- C23: the scalar
class Ints:
    """field signals as integers in [0, p), constraints as linear integer arithmetic; bits of Num2Bits in runs"""

    def __init__(self, circ, goal_bits, given, defer=False):
        import z3
        self.defer, self.conds = defer, []
        self.z3, self.circ = z3, circ
        self.s = z3.Solver()
        self.s.set("timeout", 120000)
        self.env, self.n = {}, 0
        self.bits = {}            # bit signal -> (component index, bit)
        self.need = {}            # component index -> set of boundaries
        self.bool = set()
        self.sides = []           # (name, z3 condition) preconditions of contracts
        for i, c in enumerate(circ.comps):
            if c.tname == "Num2Bits":
                for j, b in enumerate(c.sig["out"]):
                    self.bits[circ.signame(b)] = (i, j)
        self.defs = dict(circ.defs)
        self.defs.update(fc.gate_defs(circ))
        self.runs = {}
        self.given = given
        self.out = [self.resolve(b) for b in goal_bits]
        for k, p in enumerate(self.out):
            for v in p.vars():
                if v in self.bits:
                    i, j = self.bits[v]
                    prev = self.out[k - 1] if k else None
                    cont = prev is not None and len(p.d) == 1 and len(prev.d) == 1 and list(prev.d) == [(self.bitname(i, j - 1),)] and prev.d[list(prev.d)[0]] == p.d[(v,)]
                    nxt = self.out[k + 1] if k + 1 < len(self.out) else None
                    contn = nxt is not None and len(p.d) == 1 and len(nxt.d) == 1 and list(nxt.d) == [(self.bitname(i, j + 1),)] and nxt.d[list(nxt.d)[0]] == p.d[(v,)]
                    if not cont:
                        self.need.setdefault(i, set()).add(j)
                    if not contn:
                        self.need.setdefault(i, set()).add(j + 1)
        outdefs = {v for b in goal_bits for v in b.vars()}
        for n, p in list(self.defs.items()) + [(None, p) for p, _ in circ.cons] + [(None, q) for c in circ.comps for x in c.sig for q in fc_flat(c.sig[x]) if c.kind[x] == "input"]:
            if n in outdefs:
                continue
            for v in p.vars():
                if v in self.bits:
                    i, j = self.bits[v]
                    self.need.setdefault(i, set()).update((j, j + 1))

    def bitname(self, i, j):
        o = self.circ.comps[i].sig["out"]
        return self.circ.signame(o[j]) if 0 <= j < len(o) else None

    def resolve(self, p):
        """through definitions down to a bit of a decomposition (outputs only)"""
        for _ in range(50):
            vs = [v for v in p.vars() if v in self.circ.defs]
            if not vs:
                return p
            q = Poly.of(0)
            for m, k in p.d.items():
                t = Poly.of(k)
                for v in m:
                    t = t * (self.circ.defs[v] if v in self.circ.defs else Poly.var(v))
                q = q + t
            p = q
        return p

    def fresh(self, lo, hi, nm="t"):
        self.n += 1
        x = self.z3.Int("%s!%d" % (nm, self.n))
        self.s.add(x >= lo, x < hi)
        return x

    def sig(self, v):
        if v in self.env:
            return self.env[v]
        z3 = self.z3
        if v in self.given:
            x = self.given[v]
        elif v in self.bits:
            i, j = self.bits[v]
            x = self.chunk(i, j, j + 1)
        elif v in self.defs:
            x = self.lin(self.defs[v])
        elif self.defer and v in self.circ.hints:
            x = self.hint(*self.circ.hints[v][:3])
        else:
            x = self.tests(v)
            if x is None:
                x = self.fresh(0, P, v)
        self.env[v] = x
        return x

    def isbool(self, v):
        """is the signal 0 or 1 by construction?"""
        if v in self.bool:
            return True
        r = False
        if v in self.bits:
            r = True
        elif v in self.defs:
            d = self.defs[v].d
            r = False
            if len(self.defs[v].vars()) <= 2 and all(self.isbool(x) for x in self.defs[v].vars()):
                vs = sorted(self.defs[v].vars())
                r = all(self.defs[v].eval(dict(zip(vs, z))) in (0, 1) for z in itertools.product((0, 1), repeat=len(vs)))
        else:
            r = any(self.circ.signame(c.sig["out"]) == v for c in self.circ.comps if c.tname in ("IsZero", "IsEqual", "LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan"))
        if r:
            self.bool.add(v)
        return r

    def term(self, m):
        """a monomial as an integer term with its value range [lo, hi]"""
        z3 = self.z3
        if len(m) == 1:
            x = self.sig(m[0])
            return x
        bs = [v for v in m if self.isbool(v)]
        if len(bs) < len(m) - 1:
            raise fc.Undecided(None, "product of %s" % "*".join(m))
        rest = [v for v in m if not self.isbool(v)]
        y = self.sig(rest[0]) if rest else z3.IntVal(1)
        return z3.If(z3.And([self.sig(b) == 1 for b in set(bs)]), y, z3.IntVal(0))

    def lin(self, p):
        """value in [0, p) of a polynomial"""
        z3 = self.z3
        if p.const() is not None:
            return z3.IntVal(p.const())
        if len(p.d) == 1 and list(p.d.values()) == [1]:
            return self.term(list(p.d)[0])
        t, npos, nneg = [], 0, 0
        for m, k in p.d.items():
            k = circom.sgn(k)
            t.append(z3.IntVal(k) if m == () else k * self.term(m))
            if k < 0:
                nneg += 1
            else:
                npos += 1
        x = self.fresh(0, P)
        q = z3.Int("q!%d" % self.n)
        big = all(abs(circom.sgn(k)) < 2**140 for k in p.d.values())
        self.s.add(x == z3.Sum(t) + P * q)
        return x

    def chunk(self, i, a, b):
        """bits a..b-1 of decomposition i as a number"""
        if (i, a, b) in self.runs:
            return self.runs[(i, a, b)]
        z3 = self.z3
        c = self.circ.comps[i]
        n = len(c.sig["out"])
        cuts = sorted({0, n} | self.need.get(i, set()) | {a, b})
        cuts = [x for x in cuts if 0 <= x <= n]
        t = self.lin(c.sig["in"])
        if self.defer:
            self.conds.append(("%s fits %d bits" % (c.name, n), t < 2**n))
        elif n >= 256:
            j = self.fresh(0, (2**n - 1) // P + 1, "alias")
            t = t + P * j
        xs = []
        for u, v in zip(cuts, cuts[1:]):
            x = self.fresh(0, P if self.defer and v == n else 2**(v - u), "bits")
            self.runs[(i, u, v)] = x
            xs.append(x * 2**u)
        self.s.add(t == z3.Sum(xs))
        if (i, a, b) not in self.runs:
            raise fc.Undecided(None, "bits %d..%d" % (a, b))
        return self.runs[(i, a, b)]

    def tests(self, v):
        z3 = self.z3
        for c in self.circ.comps:
            if "out" not in c.sig or isinstance(c.sig["out"], list) or self.circ.signame(c.sig["out"]) != v:
                continue
            if c.tname == "IsZero":
                return z3.If(self.lin(c.sig["in"]) == 0, z3.IntVal(1), z3.IntVal(0))
            a, b = self.lin(c.sig["in"][0]), self.lin(c.sig["in"][1])
            if c.tname == "IsEqual":
                return z3.If(a == b, z3.IntVal(1), z3.IntVal(0))
            n = c.args[0]
            if c.tname in ("GreaterThan", "GreaterEqThan"):
                a, b = b, a
            if c.tname.endswith("EqThan"):
                # LessEqThan(a, b) is LessThan(a, b + 1)
                d = a + 2**n - b - 1
            else:
                d = a + 2**n - b
            # LessThan: bits of a + 2^n - b in n + 1 bits (it does not exist outside); result is 1 - bit n
            w = self.fresh(0, P if self.defer else 2**(n + 1), "cmp")
            if self.defer:
                self.conds.append(("%s in range" % c.name, w < 2**(n + 1)))
            q = self.z3.Int("q!cmp%d" % self.n)
            self.s.add(w == d + P * q, q >= -1, q <= 1)
            return z3.If(w >= 2**n, z3.IntVal(0), z3.IntVal(1))
        return None

    def hint(self, e, sc, cc):
        z3 = self.z3
        if e[0] == "bin":
            r = self.rhs(e[3], sc, cc)
            l = self.rhs(e[2], sc, cc)
            if l is not None and r is not None:
                return z3.IntVal(circom.arith(e[1], l, r))
            if e[1] in ("&", "*") and r is None and l is not None:
                return self.hint(("bin", e[1], e[3], e[2]), sc, cc)
            a = self.hint(e[2], sc, cc)
            if e[1] == ">>" and r is not None:
                return self.cut(a, r)[1]
            if e[1] == "&" and r is not None and r & (r + 1) == 0:
                return self.cut(a, r.bit_length())[0]
            if e[1] == "\\" and r and r & (r - 1) == 0:
                return self.cut(a, r.bit_length() - 1)[1]
            if e[1] == "%" and r and r & (r - 1) == 0:
                return self.cut(a, r.bit_length() - 1)[0]
            if e[1] in "+-" or e[1] == "*" and r is not None:
                b = self.hint(e[3], sc, cc)
                x = self.fresh(0, P)
                q = z3.Int("q!h%d" % self.n)
                self.s.add(x == (a + b if e[1] == "+" else a - b if e[1] == "-" else a * r) + P * q)
                return x
            raise fc.Undecided(None, "operator %s in an assignment" % e[1])
        if e[0] == "cond":
            raise fc.Undecided(None, "conditional assignment")
        v = self.circ.value(e, sc, cc)
        return self.lin(Poly.of(v))

    def rhs(self, e, sc, cc):
        try:
            v = self.circ.value(e, sc, cc)
        except CircomError:
            return None
        v = v.const() if isinstance(v, Poly) else v
        return v if isinstance(v, int) else None

    def cut(self, a, k):
        lo, hi = self.fresh(0, 2**k, "lo"), self.fresh(0, 2**(256 - k), "hi")
        self.s.add(a == lo + hi * 2**k)
        return lo, hi

    def build(self):
        z3 = self.z3
        for i, c in enumerate(self.circ.comps):
            if c.tname == "Num2Bits":
                self.chunk(i, *sorted(sorted({0, len(c.sig["out"])} | self.need.get(i, set())))[:2])
            elif "out" in c.sig and not isinstance(c.sig["out"], list):
                self.sig(self.circ.signame(c.sig["out"]))
        outs = {v for v in self.circ.defs if v.startswith("main.out")}
        for p, w in self.circ.cons:
            if self.defer:
                self.conds.append(("constraint of " + w, self.lin(p) == 0))
            else:
                self.s.add(self.lin(p) == 0)
        for n in self.circ.defs:
            if n not in outs:
                self.sig(n)
        t, k = [], 0
        while k < len(self.out):
            p = self.out[k]
            (m, f), = p.d.items() if len(p.d) == 1 else [((), None)]
            if f != 1 or m[0] not in self.bits:
                t.append(self.lin(p) * 2**k)
                k += 1
                continue
            i, j = self.bits[m[0]]
            e = 1
            while k + e < len(self.out) and list(self.out[k + e].d.items()) == [((self.bitname(i, j + e),), 1)]:
                e += 1
            cuts = sorted({0, len(self.circ.comps[i].sig["out"])} | self.need.get(i, set()))
            for u, v in zip(cuts, cuts[1:]):
                if u >= j and v <= j + e:
                    t.append(self.chunk(i, u, v) * 2**(k + u - j))
            k += e
        return z3.Sum(t)

    def query(self, *conds):
        t0 = time.time()
        self.s.push()
        self.s.add(*conds)
        v = str(self.s.check())
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        STATS[v] = STATS.get(v, 0) + 1
        m = self.s.model() if v == "sat" else None
        self.s.pop()
        return v, m


def fc_flat(x): return circom.flat(x)


def num2bits(c, t, j=0):
    return [(t + P * j) >> i & 1 for i in range(len(c.sig["out"]))]


def witness(circ, inputs, force=None, alias=None):
    """concrete witness from the circuit's own assignments (force: signals given other values); None if a component refuses"""
    sig = dict(inputs)
    force = force or {}
    defs = dict(circ.defs)
    defs.update(fc.gate_defs(circ))
    todo = list(defs) + list(circ.hints)
    comps = [c for c in circ.comps if c.tname in ("Num2Bits", "IsZero", "IsEqual", "LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan")]
    have = lambda p: all(v in sig for v in p.vars())
    for _ in range(len(todo) + len(comps) + 5):
        rest = []
        for n in todo:
            if n in defs:
                if have(defs[n]):
                    sig[n] = defs[n].eval(sig)
                    continue
            elif n in force:
                sig[n] = force[n] % P
                continue
            else:
                try:
                    sig[n] = circ.hint_value(n, sig)
                    continue
                except KeyError:
                    pass
            rest.append(n)
        crest = []
        for c in comps:
            i = c.sig["in"]
            if not all(have(x) for x in fc_flat(i)):
                crest.append(c)
                continue
            if c.tname == "Num2Bits":
                t = i.eval(sig)
                n = len(c.sig["out"])
                if t >> n:
                    return None
                for b, x in zip(c.sig["out"], num2bits(c, t, (alias or {}).get(c.name, 0))):
                    sig[circ.signame(b)] = x
                continue
            if c.tname == "IsZero":
                v = int(i.eval(sig) == 0)
            else:
                a, b = i[0].eval(sig), i[1].eval(sig)
                if c.tname == "IsEqual":
                    v = int(a == b)
                else:
                    n = c.args[0]
                    if c.tname.startswith("Greater"):
                        a, b = b, a
                    w = (a + 2**n - b - (1 if "Eq" in c.tname else 0)) % P
                    if w >> (n + 1):
                        return None
                    v = 1 - (w >> n)
            sig[circ.signame(c.sig["out"])] = v
        if len(rest) == len(todo) and len(crest) == len(comps):
            break
        todo, comps = rest, crest
    if todo or comps:
        return None
    return sig if all(p.eval(sig) == 0 for p, _ in circ.cons) else None


def settle(circ):
    """an assigned signal that a linear constraint determines is defined by it; -> the assigned signals no constraint determines in this way"""
    free = []
    for h in list(circ.hints):
        for i, (p, w) in enumerate(circ.cons):
            k = p.d.get((h,))
            if k and not any(h in m and m != (h,) for m in p.d):
                q = pow(k, P - 2, P)
                rest = Poly({m: -v * q % P for m, v in p.d.items() if m != (h,)})
                seen, st = set(), list(rest.vars())
                while st:
                    v = st.pop()
                    if v not in seen:
                        seen.add(v)
                        if v in circ.defs:
                            st += circ.defs[v].vars()
                if h not in seen:
                    circ.defs[h] = rest
                    del circ.cons[i], circ.hints[h]
                    break
        else:
            free.append(h)
    return free


def forge(c, nm, full, inputs, outs, ref, free):
    """other values for assigned signals that satisfy every constraint and give another output"""
    rng = random.Random(vlib.SEED + 9)
    honest = witness(full, inputs)
    for h in free[:12] + (rng.sample(free[12:], min(6, len(free) - 12)) if len(free) > 12 else []):
        o = honest[h] if honest and h in honest else 1
        for v in (0, 1, -o % P, o + 1, rng.randrange(P)):
            w = witness(full, inputs, {h: v})
            if w is not None and [w[x] for x in outs] != list(ref):
                why = "%s is assigned but not constrained: another value of it satisfies every constraint and gives another result" % h
                c.validated += 1
                c.obl.append({"name": "%s: %s" % (nm, why), "verdict": "violated", "solver_s": 0, "note": ""})
                c.violation("%s: %s" % (nm, why), {"inputs": {x: hex(y) for x, y in inputs.items()}, "set": {h: hex(v)}, "circuit": [hex(w[x]) for x in outs], "right": [hex(x) for x in ref]}, key=nm + " free")
                return True
    return False


def kcheck(c, prog):
    """-> offset t such that the bits out[] of K() are those of (s + t) mod n"""
    try:
        circ = Circuit(prog, "K", abstract=lib(prog))
    except CircomError as e:
        raise vlib.Broken("K: %s" % e)
    c.encoded.add("mul.circom::K")
    c.instrs += len(circ.all_constraints()) + len(circ.comps)
    out = circ.main.sig["out"]
    if len(out) != 256:
        c.obligation("K has 256 output bits", "reduced", note="%d bits" % len(out))
        return None
    val = lambda sig: sum(sig[circ.signame(b)] << i for i, b in enumerate(out))
    rng = random.Random(vlib.SEED)
    offs = {}
    for s in [rng.randrange(2**255, N) for _ in range(3)]:
        w = witness(circ, {"main.s": s})
        if w:
            t = (val(w) - s) % N
            offs[t] = offs.get(t, 0) + 1
            c.validated += 1
    if not offs:
        c.violation("K: the circuit's own witness is refused for ordinary scalars", {"s": hex(s)}, key="K witness")
        c.obl.append({"name": "K witness", "verdict": "violated", "solver_s": 0, "note": ""})
        return None
    t = max(offs, key=offs.get)
    import z3

    def bad(what, s, w, key):
        c.obl.append({"name": what, "verdict": "violated", "solver_s": 0, "note": ""})
        c.violation(what, {"s": hex(s), "signals": {k: hex(v) for k, v in (w or {}).items() if k.count(".") == 1 and "[" not in k}, "bits give": hex(val(w)) if w else None,
                           "should give": hex((s + t) % N)}, key=key)

    # every solution
    try:
        I = Ints(circ, out, {"main.s": z3.Int("s")})
        s = z3.Int("s")
        I.s.add(s >= 0, s < N)
        hs = [h for h in circ.hints]
        total = I.build()
    except fc.Undecided as u:
        c.obligation("K: out = bits of (s + t) mod n", "reduced", note="undecided: %s" % u.why)
        return t
    k = z3.Int("k")
    I.s.add(k >= 0, k <= 3)
    right = z3.Or([total == s + t - N * j for j in range(0, 2)])
    v, m = I.query(z3.Or(z3.Not(right), total >= N, total < 0))
    if v == "sat":
        sv = m.eval(s, model_completion=True).as_long()
        force = {h: m.eval(I.sig(h), model_completion=True).as_long() for h in hs if h in I.env}
        alias = {}
        w = witness(circ, {"main.s": sv}, force)
        if w is None or val(w) == (sv + t) % N:
            # a decomposition may use the second representative
            for i, cc in enumerate(circ.comps):
                if cc.tname == "Num2Bits" and len(cc.sig["out"]) >= 256:
                    for al in itertools.product((0, 1), repeat=1):
                        w2 = witness(circ, {"main.s": sv}, force, {cc.name: 1})
                        if w2 and val(w2) != (sv + t) % N:
                            w = w2
        if w is not None and val(w) != (sv + t) % N:
            bad("K accepts bits that are not those of (s + t) mod n", sv, w, "K accepts")
        else:
            c.obligation("K: out = bits of (s + t) mod n", "reduced", note="the solver's model does not replay")
    else:
        c.obligation("K: every solution has out = bits of (s + t) mod n, 0 <= s < n", "holds" if v == "unsat" else "reduced", note="" if v == "unsat" else v)
    khonest(c, circ, t, val, bad)
    return t


def khonest(c, circ, t, val, bad):
    """the witness the circuit computes satisfies every constraint, and every value is in the range its component needs"""
    import z3
    s = z3.Int("s")
    try:
        H = Ints(circ, circ.main.sig["out"], {"main.s": s}, defer=True)
        H.s.add(s >= 0, s < N)
        H.build()
    except fc.Undecided as u:
        c.obligation("K: honest witness", "reduced", note="undecided: %s" % u.why)
        return
    for name, cond in H.conds:
        v, m = H.query(z3.Not(cond))
        if v == "sat":
            sv = m.eval(s, model_completion=True).as_long()
            if witness(circ, {"main.s": sv}) is None:
                bad("K refuses its own witness (%s)" % name, sv, None, "K refuses")
                return
            v = "the solver's model does not replay (s = %x)" % sv
        c.obligation("K: honest witness: " + name, "holds" if v == "unsat" else "reduced", note="" if v == "unsat" else v)


# ---------------------------------------------------------------- C23: double-and-add, in the group
POINT2 = SIG2 = fc.SIG([("xP", []), ("yP", []), ("xQ", []), ("yQ", [])], [("outX", []), ("outY", [])])
GROUP = {"Secp256k1Double": fc.SIG([("xP", []), ("yP", [])], [("outX", []), ("outY", [])]), "Secp256k1AddIncomplete": POINT2, "Secp256k1AddComplete": POINT2,
         "K": fc.SIG([("s", [])], [("out", [256])]),
         "Secp256k1Mul": fc.SIG([("scalar", []), ("xP", []), ("yP", [])], [("outX", []), ("outY", [])])}


class Expand:
    """polynomials in terms of leaves (signals without a definition)"""
    def __init__(self, circ):
        self.c = circ
        self.defs = dict(circ.defs)
        self.defs.update(fc.gate_defs(circ))
        self.memo = {}

    def sig(self, v):
        if v not in self.memo:
            self.memo[v] = self.poly(self.defs[v]) if v in self.defs else Poly.var(v)
        return self.memo[v]

    def poly(self, p):
        if p.const() is not None:
            return p
        out = Poly.of(0)
        for m, k in p.d.items():
            t = Poly.of(k)
            for v in m:
                t = t * self.sig(v)
            out = out + t
        return out


class Elem:
    """an element of the group: basis point -> polynomial in bits (integers)"""
    def __init__(self, d): self.d = {b: {m: c for m, c in q.items() if c} for b, q in d.items()}

    def __add__(self, o):
        r = {b: dict(q) for b, q in self.d.items()}
        for b, q in o.d.items():
            t = r.setdefault(b, {})
            for m, c in q.items():
                t[m] = t.get(m, 0) + c
        return Elem(r)

    def times(self, bits):
        """multiply by a polynomial in bits"""
        r = {}
        for b, q in self.d.items():
            t = r.setdefault(b, {})
            for m, c in q.items():
                for n, e in bits.items():
                    k = m | n
                    t[k] = t.get(k, 0) + c * e
        return Elem(r)


class Group:
    def __init__(self, c, circ, points, bits, name):
        self.c, self.circ, self.x, self.name = c, circ, Expand(circ), name
        self.pts = list(points)           # (xsig, ysig, Elem)
        self.bits = set(bits)             # signals known to be 0 or 1

    def interpret(self, px, py):
        """the group element with these coordinates, or None; px, py expanded"""
        bs = sorted((px.vars() | py.vars()) & self.bits)
        if len(bs) > 6:
            return None
        coords = {v for a, b, _ in self.pts for v in (a, b)}
        if not (px.vars() | py.vars()) <= set(bs) | coords:
            return None
        vals = {}
        for z in itertools.product((0, 1), repeat=len(bs)):
            env = dict(zip(bs, z))
            sub = lambda p: self.sub(p, env)
            x, y = sub(px), sub(py)
            if not x.d and not y.d:
                vals[z] = (None, 0)
                continue
            hit = None
            for i, (a, b, e) in enumerate(self.pts):
                if x.d == {(a,): 1}:
                    if y.d == {(b,): 1}:
                        hit = (i, 1)
                    elif y.d == {(b,): P - 1}:
                        hit = (i, -1)
            if hit is None:
                return None
            vals[z] = hit
        # interpolate: sum over points of (polynomial in the bits) * point
        r = Elem({})
        for i in {h[0] for h in vals.values() if h[0] is not None}:
            q = {}
            for z, (j, sg) in vals.items():
                if j != i:
                    continue
                t = {frozenset(): sg}
                for b, v in zip(bs, z):
                    t2 = {}
                    for m, k in t.items():
                        if v:
                            t2[m | {b}] = t2.get(m | {b}, 0) + k
                        else:
                            t2[m] = t2.get(m, 0) + k
                            t2[m | {b}] = t2.get(m | {b}, 0) - k
                    t = t2
                for m, k in t.items():
                    q[m] = q.get(m, 0) + k
            r = r + self.pts[i][2].times(q)
        return r

    @staticmethod
    def sub(p, env):
        d = {}
        for m, k in p.d.items():
            n = tuple(v for v in m if v not in env)
            for v in m:
                if v in env:
                    k = k * env[v]
            d[n] = d.get(n, 0) + k
        return Poly(d)

    def run(self):
        """go through the abstract components; -> list of those that could not be interpreted"""
        pend = [k for k in self.circ.comps if k.tname in GROUP and k.tname != "K"]
        self.inc = []
        while pend:
            rest = []
            for k in pend:
                pair = lambda a: self.interpret(self.x.poly(k.sig["x" + a]), self.x.poly(k.sig["y" + a]))
                a = pair("P")
                if a is None:
                    rest.append(k)
                    continue
                if k.tname == "Secp256k1Double":
                    r = a + a
                    self.inc.append((k.name, [a]))
                elif k.tname == "Secp256k1Mul":
                    r = self.mul(k, a)
                    if r is None:
                        rest.append(k)
                        continue
                else:
                    b = pair("Q")
                    if b is None:
                        rest.append(k)
                        continue
                    r = a + b
                    if k.tname == "Secp256k1AddIncomplete":
                        self.inc.append((k.name, [a, b]))
                self.pts.append((self.circ.signame(k.sig["outX"]), self.circ.signame(k.sig["outY"]), r))
            if len(rest) == len(pend):
                return rest
            pend = rest
        return []

    def mul(self, k, a):
        sc = self.x.poly(k.sig["scalar"])
        if list(a.d) and all(set(q) <= {frozenset()} for q in a.d.values()) and len(sc.d) == 1 and list(sc.d.values()) == [1] and len(list(sc.d)[0]) == 1:
            v = list(sc.d)[0][0]
            return Elem({b: {frozenset([v]): q[frozenset()]} for b, q in a.d.items() if q})
        return None


def intlin(z3, q, env):
    """polynomial in bits as an integer term; products of bits are bits of their own (more values: sound)"""
    t = []
    for m, c in q.items():
        if not m:
            t.append(z3.IntVal(c))
        else:
            t.append(c * env(m))
    return z3.Sum(t) if t else z3.IntVal(0)


def nondegenerate(c, g, basis):
    """incomplete additions: neither operand is the identity and they are not equal or opposite (mod n), for all bits"""
    import z3
    s = z3.Solver()
    s.set("timeout", 60000)
    names = {}

    def env(m):
        if m not in names:
            names[m] = z3.Int("b%d" % len(names))
            s.add(names[m] >= 0, names[m] <= 1)
        return names[m]
    bad, n = [], 0
    for name, ops in g.inc:
        co = []
        for e in ops:
            if set(b for b, q in e.d.items() if q) - {basis}:
                bad.append((name, "operand not a multiple of the point"))
                break
            co.append(e.d.get(basis, {}))
        else:
            forms = list(co)
            if len(co) == 2:
                for sg in (1, -1):
                    d = dict(co[0])
                    for m, k in co[1].items():
                        d[m] = d.get(m, 0) + sg * k
                    forms.append(d)
            for d in forms:
                n += 1
                t = [k * (z3.IntVal(1) if not m else env(m)) for m, k in d.items()]
                t = z3.Sum(t) if t else z3.IntVal(0)
                t0 = time.time()
                s.push()
                s.add(z3.Or(t == 0, t >= N, t <= -N))
                v = str(s.check())
                s.pop()
                STATS["queries"] += 1
                STATS["solver_s"] += time.time() - t0
                STATS[v] = STATS.get(v, 0) + 1
                if v != "unsat":
                    bad.append((name, v))
    return n, bad


def bits_of(circ):
    r = []
    for k in circ.comps:
        if k.tname == "K":
            r += [circ.signame(b) for b in k.sig["out"]]
        if k.tname in ("IsZero", "IsEqual", "LessThan", "GreaterThan", "GreaterEqThan", "LessEqThan"):
            r.append(circ.signame(k.sig["out"]))
        if k.tname == "Num2Bits":
            r += [circ.signame(b) for b in k.sig["out"]]
    return r


def c23(c):
    c.assumptions += CIRC_ASSUME + ["the point gadgets compute the group law (C22); the point multiplied has order n (every finite point of the curve has, n being prime)"]
    c.bounds.append("no bound on the scalar (0 <= s < n), the points or the internal signals; the loops are unrolled completely")
    prog = program("secp256k1/mul.circom")
    t = kcheck(c, prog)
    mulcheck(c, prog, t)
    ecdsa(c)


def point_out(c, g, circ, nm):
    return g.interpret(g.x.poly(circ.main.sig["outX"]), g.x.poly(circ.main.sig["outY"]))


def mulcheck(c, prog, t):
    ab = {k: v for k, v in GROUP.items() if k != "Secp256k1Mul"}
    try:
        circ = Circuit(prog, "Secp256k1Mul", abstract=lib(prog, ab))
    except CircomError as e:
        raise vlib.Broken("Secp256k1Mul: %s" % e)
    c.encoded.add("mul.circom::Secp256k1Mul")
    c.instrs += len(circ.defs) + len(circ.comps)
    free = settle(circ)
    ks = [k for k in circ.comps if k.tname == "K"]
    g = Group(c, circ, [("main.xP", "main.yP", Elem({"P": {frozenset(): 1}}))], bits_of(circ), "Mul")
    if len(ks) != 1 or t is None:
        c.obligation("Secp256k1Mul", "reduced", note="%d components K" % len(ks))
        return
    arg = g.x.poly(ks[0].sig["s"])
    rest = g.run()
    out = point_out(c, g, circ, "Mul") if not rest else None
    c.paths += len(g.inc)
    decided = False
    if out is not None and circ.cons:
        what = "further constraints: %s" % [w for p, w in circ.cons][:2]
    elif out is not None and arg.d == {("main.scalar",): 1}:
        want = {frozenset(): -t}
        for i, b in enumerate(ks[0].sig["out"]):
            want[frozenset([circ.signame(b)])] = 1 << i
        got = out.d.get("P", {})
        names = {}
        key = lambda d: {0 if not m else names.setdefault(m, len(names) + 1): k % N for m, k in d.items() if k % N}
        v = zq_mod(key(got), key(want), N)
        if v == "unsat":
            c.obligation("Secp256k1Mul: the result is (sum of 2^i out[i] - t) P = scalar * P", "holds")
            n, bad = nondegenerate(c, g, "P")
            if not bad:
                c.obligation("Secp256k1Mul: no incomplete addition or doubling meets an exceptional case (%d conditions)" % n, "holds")
                return
            what = bad
        else:
            what = "the result is another multiple"
    elif arg.d != {("main.scalar",): 1}:
        what = "K is given %s" % arg
    else:
        what = "not a combination of known points: %s" % ", ".join(k.name for k in rest[:3])
    # confirm on numbers: the circuit run on a point and a scalar
    rng = random.Random(vlib.SEED)
    for i in range(14):
        s = [1, 2, 3, N - 1, 2**128, 2**128 - 5][i] if i < 6 else rng.randrange(1, N)
        p = None
        while p is None:
            x = rng.randrange(P)
            y = ypt(x)
            p = (x, y) if y else None
        r = run_mul(prog, s, p)
        ref = xy(pmul(s, p))
        if free and i in (6, 7) and _mul[id(prog)] and forge(c, "Secp256k1Mul", _mul[id(prog)], {"main.scalar": s, "main.xP": p[0], "main.yP": p[1]}, ["main.outX", "main.outY"], ref, free):
            return
        if r is not None and r != ref:
            w = "Secp256k1Mul: wrong result (%s)" % (what if isinstance(what, str) else "; ".join("%s: %s" % b for b in what[:3]))
            c.validated += 1
            c.obl.append({"name": w, "verdict": "violated", "solver_s": 0, "note": ""})
            c.violation(w, {"scalar": hex(s), "point": [hex(z) for z in p], "circuit": [hex(z) for z in r] if r else "no witness", "group": [hex(z) for z in ref]}, key="mul")
            return
    c.obligation("Secp256k1Mul", "reduced", note="not shown, and no failing run found: %s" % str(what)[:200])


def zq_mod(l, r, q):
    old = ff.Q
    ff.Q = q
    try:
        return ff.zquery(l, r)
    finally:
        ff.Q = old


def run_full(circ, inputs):
    """numbers through every component (circomlib's contracts)"""
    return witness(circ, inputs)


_mul = {}


def run_mul(prog, s, p):
    key = id(prog)
    if key not in _mul:
        try:
            _mul[key] = Circuit(prog, "Secp256k1Mul", abstract=lib(prog))
        except CircomError:
            _mul[key] = None
    circ = _mul[key]
    if circ is None:
        return None
    w = witness(circ, {"main.scalar": s, "main.xP": p[0], "main.yP": p[1]})
    return (w["main.outX"], w["main.outY"]) if w else ()


def ecdsa(c):
    prog = program("eff_ecdsa.circom")
    try:
        circ = Circuit(prog, "EfficientECDSA", abstract=lib(prog, GROUP))
    except CircomError as e:
        raise vlib.Broken("EfficientECDSA: %s" % e)
    c.encoded.add("eff_ecdsa.circom::EfficientECDSA")
    free = settle(circ)
    one = {frozenset(): 1}
    g = Group(c, circ, [("main.Tx", "main.Ty", Elem({"T": one})), ("main.Ux", "main.Uy", Elem({"U": one}))], bits_of(circ) + ["main.s"], "ECDSA")
    g.bits.discard("main.s")
    rest = g.run()
    nm = "EfficientECDSA: pubKey = s * T + U"
    out = None if rest else g.interpret(g.x.poly(circ.main.sig["pubKeyX"]), g.x.poly(circ.main.sig["pubKeyY"]))
    c.paths += 1
    if out is not None and circ.cons:
        what = "further constraints: %s" % [w for p, w in circ.cons][:2]
    elif out is not None:
        want = {"T": {frozenset(["main.s"]): 1}, "U": one}
        names = {}
        key = lambda e: {names.setdefault((b, m), len(names) + 1): k % N for b, q in e.items() for m, k in q.items() if k % N}
        deg = [k for k, ops in g.inc]
        if zq_mod(key(out.d), key(want), N) == "unsat":
            if not deg:
                c.obligation(nm, "holds")
                return
            what = "%s is exceptional for some points" % deg[0]
        else:
            what = "another combination of T and U"
    else:
        what = "not a combination of T and U"
    rng = random.Random(vlib.SEED + 5)
    full = None
    try:
        full = Circuit(prog, "EfficientECDSA", abstract=lib(prog))
    except CircomError:
        pass
    G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
    for i in range(8):
        s, a, b = (rng.randrange(1, N) for _ in range(3))
        T = pmul(a, G)
        # ordinary, U = s T (doubling), U = -s T (infinity), U = O
        U = [pmul(b, G), pmul(a * s % N, G), pmul(-a * s % N, G), None][i % 4]
        w = witness(full, {"main.s": s, "main.Tx": T[0], "main.Ty": T[1], "main.Ux": xy(U)[0], "main.Uy": xy(U)[1]}) if full else None
        ref = xy(padd(pmul(s, T), U))
        got = (w["main.pubKeyX"], w["main.pubKeyY"]) if w else None
        if full and free and i < 4 and got == ref and forge(c, nm, full, {"main.s": s, "main.Tx": T[0], "main.Ty": T[1], "main.Ux": xy(U)[0], "main.Uy": xy(U)[1]}, ["main.pubKeyX", "main.pubKeyY"], ref, free):
            return
        if full and got != ref:
            c.validated += 1
            c.obl.append({"name": nm, "verdict": "violated", "solver_s": 0, "note": what})
            c.violation(nm + ": " + what, {"s": hex(s), "T": [hex(z) for z in T], "U": [hex(z) for z in xy(U)], "circuit": [hex(z) for z in got] if got else "no witness", "group": [hex(z) for z in ref]}, key="ecdsa")
            return
    c.obligation(nm, "reduced", note="not shown, and no failing run found: " + what)


# ---------------------------------------------------------------- C24: membership
UF = {"Poseidon": fc.SIG([("inputs", [2])], [("out", [])])}
ECDSA = {"EfficientECDSA": fc.SIG([("s", []), ("Tx", []), ("Ty", []), ("Ux", []), ("Uy", [])], [("pubKeyX", []), ("pubKeyY", [])])}
ADDR = {"PubkeyToAddress": fc.SIG([("pubkeyBits", [512])], [("address", [])])}


class Terms:
    """uninterpreted components: an output is named by the normal forms of the inputs (bits satisfy b^2 = b)"""
    def __init__(self, circ, names, bits):
        self.c, self.bits, self.names = circ, set(bits), names
        self.x = Expand(circ)
        self.key, self.ren = {}, {}        # (template, out signal, input forms) -> canonical variable; signal -> form
        self.pending = [k for k in circ.comps if k.tname in names]

    def reduce(self, p):
        d = {}
        for m, k in p.d.items():
            n = []
            for v in m:
                if v in self.bits and v in n:
                    continue
                n.append(v)
            t = tuple(sorted(n))
            d[t] = d.get(t, 0) + k
        return Poly(d)

    def apply(self, tname, out, forms):
        k = (tname, out) + tuple(tuple(sorted(f.d.items())) for f in forms)
        if k not in self.key:
            self.key[k] = Poly.var("%s#%d.%s" % (tname, len(self.key), out))
        return self.key[k]

    def form(self, p):
        """expanded, components replaced by their terms; None while one is not known yet"""
        q = self.x.poly(Poly.of(p))
        outs = {self.c.signame(s) for k in self.pending for n, kd in k.kind.items() if kd == "output" for s in circom.flat(k.sig[n])}
        if q.vars() & outs:
            return None
        t = Poly.of(0)
        for m, k in q.d.items():
            y = Poly.of(k)
            for v in m:
                y = y * self.ren.get(v, Poly.var(v))
            t = t + y
        return self.reduce(t)

    def run(self):
        prog = True
        while self.pending and prog:
            prog = False
            for k in list(self.pending):
                fs = [self.form(s) for n, kd in k.kind.items() if kd == "input" for s in circom.flat(k.sig[n])]
                if any(f is None for f in fs):
                    continue
                self.pending.remove(k)
                tn = k.tname if k.tname != "Num2Bits" or list(k.args) == [256] else "Num2Bits%d" % k.args[0]
                for n, kd in k.kind.items():
                    if kd == "output":
                        for s in circom.flat(k.sig[n]):
                            nm = self.c.signame(s)
                            self.ren[nm] = self.apply(tn, nm[len(k.name) + 1:], fs)
                prog = True


def fold(t, leaf, bits, sibs):
    h = leaf
    for b, s in zip(bits, sibs):
        b, s = Poly.var(b), Poly.var(s)
        l, r = t.reduce(h + b * (s - h)), t.reduce(s + b * (h - s))
        h = t.apply("Poseidon", "out", [l, r])
    return h


def same(a, b):
    return zq(a.d and {m: k for m, k in a.d.items()} or {}, b.d) == "unsat"


def boolean(c, circ, t, bits, nm):
    """each bit can only be 0 or 1"""
    ok = True
    for b in bits:
        got = False
        for p, _ in circ.cons:
            q = t.x.poly(p)
            if q.vars() == {b}:
                k = q.d.get((b, b), 0)
                if k and zq(q.d, {(b, b): k, (b,): -k % P}) == "unsat":
                    got = True
        if not got:
            ok = False
            c.log("%s: no constraint makes %s Boolean" % (nm, b))
    return ok


def pos_hash(prog):
    circ = Circuit(prog, "Poseidon")
    i = [circ.signame(s) for s in circ.main.sig["inputs"]]
    o = circ.signame(circ.main.sig["out"])
    return lambda a, b: witness(circ, {i[0]: a, i[1]: b})[o]


def others(circ, t, handled):
    """constraints besides the expected ones must hold by themselves"""
    bad = []
    for p, w in circ.cons:
        f = t.form(p)
        if f is None:
            bad.append(w)
        elif any(same(f, h) or same(f, -h) for h in handled):
            continue
        elif f.d:
            vs = f.vars()
            if len(vs) == 1 and vs <= t.bits and zq(f.d, {}) == "unsat":
                continue
            bad.append("%s: %s = 0" % (w, repr(f)[:80]))
    return bad


def tree(c, n):
    prog = program("tree.circom")
    nm = "MerkleTreeInclusionProof(%d)" % n
    try:
        circ = Circuit(prog, "MerkleTreeInclusionProof", [n], abstract=lib(prog, UF))
    except CircomError as e:
        raise vlib.Broken("%s: %s" % (nm, e))
    c.encoded.add("tree.circom::MerkleTreeInclusionProof")
    c.instrs += len(circ.defs) + len(circ.cons)
    c.paths += 1
    idx = [circ.signame(s) for s in circ.main.sig["pathIndices"]]
    sib = [circ.signame(s) for s in circ.main.sig["siblings"]]
    free = settle(circ)
    t = Terms(circ, UF, idx)
    isbool = boolean(c, circ, t, idx, nm)
    t.run()
    got = t.form(circ.main.sig["root"])
    want = fold(t, Poly.var("main.leaf"), idx, sib)
    ok = got is not None and same(got, want)
    extra = others(circ, t, [])
    if ok:
        c.obligation(nm + ": root = fold of the leaf along the path", "holds")
    if isbool:
        c.obligation(nm + ": every path index is 0 or 1", "holds")
    if ok and isbool and not extra:
        c.obligation(nm + ": nothing else is required", "holds")
        return
    if free and got is not None and search(c, nm, t, inputs_of(circ), idx, got - want, [(t.form(p), w) for p, w in circ.cons], free, None, isbool, not t.pending):
        return
    treebad(c, prog, nm, n, idx, sib, ok, isbool, extra)


def treebad(c, prog, nm, n, idx, sib, ok, isbool, extra):
    full = Circuit(prog, "MerkleTreeInclusionProof", [n], abstract=lib(prog))
    H = pos_hash(prog)
    rng = random.Random(vlib.SEED)
    for k in range(min(2**n, 16) + 6):
        bits = [k >> i & 1 for i in range(n)]
        if k >= min(2**n, 16):
            bits = [rng.choice([0, 1]) for _ in range(n)]
            if not isbool:
                bits[rng.randrange(n)] = rng.randrange(2, P)
        s = [rng.randrange(P) for _ in range(n)]
        leaf = rng.randrange(P)
        w = witness(full, dict(zip(idx + sib + ["main.leaf"], bits + s + [leaf])))
        why = None
        if any(b not in (0, 1) for b in bits):
            if w is not None:
                why = "a path index that is not 0 or 1 is accepted"
        else:
            h = leaf
            for b, x in zip(bits, s):
                h = H(x, h) if b else H(h, x)
            if w is None:
                why = "an honest path is refused"
            elif w[full.signame(full.main.sig["root"])] != h:
                why = "the root is not the fold of the leaf along the path"
        if why:
            c.validated += 1
            c.obl.append({"name": nm + ": " + why, "verdict": "violated", "solver_s": 0, "note": ""})
            c.violation("%s: %s" % (nm, why), {"leaf": hex(leaf), "pathIndices": [hex(b) for b in bits], "siblings": [hex(x) for x in s]}, key=why)
            return
    c.obligation(nm, "reduced", note="not shown, no failing assignment found (root %s, Boolean %s, %s)" % (ok, isbool, extra[:2]))


def top(c, f, tname, n, addr):
    """the whole circuit: the key from the signature, its hash or address as leaf, the root compared"""
    prog = program(f)
    nm = "%s(%d)" % (tname, n)
    ab = dict(UF, **ECDSA, **ADDR)
    try:
        circ = Circuit(prog, tname, [n], abstract=lib(prog, ab))
    except CircomError as e:
        raise vlib.Broken("%s: %s" % (nm, e))
    c.encoded.add("%s::%s" % (f, tname))
    c.instrs += len(circ.defs) + len(circ.cons)
    c.paths += 1
    idx = [circ.signame(s) for s in circ.main.sig["pathIndices"]]
    sib = [circ.signame(s) for s in circ.main.sig["siblings"]]
    abs_ = dict(ab)
    if addr:
        abs_["Num2Bits"] = None
    free = settle(circ)
    t = Terms(circ, abs_, idx)
    isbool = boolean(c, circ, t, idx, nm)
    t.run()
    v = lambda n: Poly.var("main." + n)
    key = [t.apply("EfficientECDSA", o, [v(x) for x in ("s", "Tx", "Ty", "Ux", "Uy")]) for o in ("pubKeyX", "pubKeyY")]
    if addr:
        bx = [t.apply("Num2Bits", "out[%d]" % i, [key[0]]) for i in range(256)]
        by = [t.apply("Num2Bits", "out[%d]" % i, [key[1]]) for i in range(256)]
        leaf = t.apply("PubkeyToAddress", "address", by + bx)
    else:
        leaf = t.apply("Poseidon", "out", key)
    goal = fold(t, leaf, idx, sib) - v("root")
    forms = [(t.form(p), w) for p, w in circ.cons]
    ok = any(q is not None and (same(q, goal) or same(q, -goal)) for q, _ in forms)
    extra = others(circ, t, [goal])
    if ok:
        c.obligation(nm + ": root = fold of the %s of s T + U along the path" % ("address" if addr else "hash"), "holds")
    if isbool:
        c.obligation(nm + ": every path index is 0 or 1", "holds")
    if ok and isbool and not extra:
        c.obligation(nm + ": nothing else is required", "holds")
        return
    topbad(c, circ, prog, nm, t, n, idx, sib, addr, goal, forms, ok, isbool, extra, free)


class Refused(Exception):
    pass


def search(c, nm, t, inputs, idx, goal, forms, free, root, isbool, full=True):
    """an assignment of numbers on which the constraints and the goal disagree.  Components are random functions of their
    inputs, except where one is given the value 0 or 1; `root` and signals no constraint determines are chosen to satisfy
    the constraints if they can be."""
    rng = random.Random(vlib.SEED + 3)
    forms = [f for f, _ in forms if f is not None]
    bykey = {list(v.d)[0][0]: k for k, v in t.key.items()}
    fed = set()         # what the components see
    for k in bykey.values():
        for f in k[2:]:
            fed |= Poly(dict(f)).vars()
    occ = set().union(*[f.vars() for f in forms]) if forms else set()
    special = [(None, None)] * 24 + [(v, x) for v in sorted(occ - set(idx))[:40] for x in (0, 1)]

    def trial(vals, sp, match):
        memo = dict(vals)
        over = {}
        if sp[0] is not None:
            (over if sp[0] in bykey else memo)[sp[0]] = sp[1]

        def ev(p):
            r = 0
            for m, k in p.d.items():
                for v in m:
                    k = k * val(v) % P
                r += k
            return r % P

        def val(v):
            if v in memo:
                return memo[v]
            if v in over:
                return over[v]
            k = bykey[v]
            a = tuple(ev(Poly(dict(f))) for f in k[2:])
            if k[0].startswith("Num2Bits"):
                n, x = int(k[0][8:] or 256), a[0]
                if n > 256:
                    x += P          # the other representative
                if x >> n:
                    raise Refused()
                memo[v] = x >> int(k[1][4:-1]) & 1
            else:
                memo[v] = random.Random(repr((k[0], k[1], a))).randrange(P)
            return memo[v]

        def solve(f, vs):
            for u in vs:
                ms = [m for m in f.d if u in m]
                if not ms or any(m.count(u) > 2 for m in ms) or u in fed:
                    continue
                y = []
                for memo[u] in (0, 1, 2):
                    y.append(ev(f))
                a = (y[2] - 2 * y[1] + y[0]) * pow(2, P - 2, P) % P
                b, d = (y[1] - y[0] - a) % P, y[0]
                rs = []
                if a:
                    e = (b * b - 4 * a * d) % P
                    q = pow(e, (P + 1) // 4, P)
                    if q * q % P == e:
                        rs = [(x - b) * pow(2 * a, P - 2, P) % P for x in (q, -q)]
                elif b:
                    rs = [-d * pow(b, P - 2, P) % P]
                memo[u] = rng.randrange(P)
                for memo[u] in rs:
                    if match or ev(goal):
                        break
                if rs:
                    return True
            return False
        try:
            if match and root:
                solve(goal, [root])
            elif not match:
                for _ in range(2):
                    for f in forms:
                        if ev(f):
                            solve(f, ([root] if root else []) + free)
            return all(ev(f) == 0 for f in forms), ev(goal) == 0
        except Refused:
            return None if not match else (False, ev(goal) == 0)
    if any(f is None for f in (goal,)):
        return False
    for k, sp in enumerate(special):
        vals = {i: rng.randrange(P) for i in inputs}
        for b in idx:
            vals[b] = rng.randrange(2)
        for h in free:
            vals[h] = rng.choice([0, 1, rng.randrange(P)])
        nonbool = False
        if k < 24 and k % 3 == 2 and not isbool:
            vals[rng.choice(idx)] = rng.randrange(2, P)
            nonbool = True
        match = k < 24 and k % 3 == 0
        try:
            r = trial(vals, sp, match)
        except KeyError:
            return False
        if r is None:
            continue
        why = None
        if nonbool and r[0]:
            why = "a path index that is not 0 or 1 is accepted"
        elif not nonbool and r[0] and not r[1]:
            why = "accepted although the root does not match" if root else "the result is not the specified one"
        elif not nonbool and r[1] and not r[0] and not free and full:
            why = "refused although the root matches" if root else "refused"
        if why:
            c.validated += 1
            c.obl.append({"name": nm + ": " + why, "verdict": "violated", "solver_s": 0, "note": ""})
            c.violation("%s: %s" % (nm, why), {"inputs": {x: hex(y) for x, y in vals.items()}, "with": {str(sp[0]): sp[1]} if sp[0] else {}, "not constrained": free[:5],
                                               "note": "signature, hash and address components stand for functions of their inputs"}, key=nm + why)
            return True
    return False


def inputs_of(circ): return [circ.signame(s) for x, k in circ.main.kind.items() if k == "input" for s in circom.flat(circ.main.sig[x])]


def topbad(c, circ, prog, nm, t, n, idx, sib, addr, goal, forms, ok, isbool, extra, free):
    if not search(c, nm, t, inputs_of(circ), idx, goal, forms, free, "main.root", isbool, not t.pending):
        c.obligation(nm, "reduced", note="not shown, no failing assignment found (goal %s, Boolean %s, %s; open %s)" % (ok, isbool, extra[:2], [k.name for k in t.pending][:2]))


def to_addr(c):
    """EfficientECDSAToAddr: the address of s T + U"""
    prog = program("eff_ecdsa_to_addr.circom")
    ab = dict(ECDSA, **ADDR)
    try:
        circ = Circuit(prog, "EfficientECDSAToAddr", [], abstract=lib(prog, ab))
    except CircomError as e:
        raise vlib.Broken("EfficientECDSAToAddr: %s" % e)
    c.encoded.add("eff_ecdsa_to_addr.circom::EfficientECDSAToAddr")
    c.paths += 1
    free = settle(circ)
    t = Terms(circ, dict(ab, Num2Bits=None), [])
    t.run()
    v = lambda n: Poly.var("main." + n)
    key = [t.apply("EfficientECDSA", o, [v(x) for x in ("s", "Tx", "Ty", "Ux", "Uy")]) for o in ("pubKeyX", "pubKeyY")]
    bits = [t.apply("Num2Bits", "out[%d]" % i, [k]) for k in (key[1], key[0]) for i in range(256)]
    want = t.apply("PubkeyToAddress", "address", bits)
    got = t.form(circ.main.sig["addr"])
    nm = "EfficientECDSAToAddr: addr = address of s T + U"
    if got is not None and same(got, want) and not circ.cons:
        c.obligation(nm, "holds")
        return
    if got is not None and search(c, nm, t, inputs_of(circ), [], got - want, [(t.form(p), w) for p, w in circ.cons], free, None, True, not t.pending):
        return
    c.obligation(nm, "reduced", note="not shown")


def public(c, f):
    """the public signals of an instance are root, Tx, Ty, Ux, Uy in this order (circom orders them as the template declares them)"""
    try:
        prog = Program(os.path.join(DIR, "instances", f))
    except (OSError, CircomError) as e:
        c.obligation("instance " + f, "reduced", note=str(e)[:100])
        return
    if not prog.main:
        c.obligation("instance " + f, "reduced", note="no main component")
        return
    pub, e = prog.main
    n = 0
    try:
        args = [x[1] for x in e[2]]
        tn = e[1]
        circ = Circuit(prog, tn, args, abstract=lib(prog, dict(UF, **ECDSA, **ADDR)))
    except (CircomError, IndexError, TypeError) as x:
        c.obligation("instance " + f, "reduced", note=str(x)[:100])
        return
    c.encoded.add("instances/" + f)
    order = [k for k, kd in circ.main.kind.items() if kd == "output"] + [k for k, kd in circ.main.kind.items() if kd == "input" and k in pub]
    if order == ["root", "Tx", "Ty", "Ux", "Uy"]:
        c.obligation("instance %s: the public signals are root, Tx, Ty, Ux, Uy" % f, "holds")
    else:
        c.obl.append({"name": "instance " + f, "verdict": "violated", "solver_s": 0, "note": ""})
        c.violation("instance %s: the public signals are %s instead of root, Tx, Ty, Ux, Uy" % (f, ", ".join(order)), {"public": order}, key="public " + f)


def c24(c):
    c.assumptions += CIRC_ASSUME[:1] + ["the hash is a function of its two inputs (C14), EfficientECDSA of its five (C23)", "PubkeyToAddress is a function of its 512 input bits (which function: C35)"]
    d = [1, 2, 3, 20] if QUICK else list(range(1, 33))
    c.bounds.append("depths %s; every leaf, sibling and path index, Boolean or not" % d)
    for n in d:
        tree(c, n)
    for n in ([2, 20] if QUICK else [1, 2, 5, 10, 20, 32]):
        top(c, "pubkey_membership.circom", "PubKeyMembership", n, False)
        top(c, "addr_membership.circom", "AddrMembership", n, True)
    to_addr(c)
    for f in ("pubkey_membership.circom", "addr_membership.circom"):
        public(c, f)
    c.samples += ["MerkleTreeInclusionProof(%d)" % n for n in d[:4]]
