"""Deciding what a system of field constraints forces, case by case.

A case gives the inputs as polynomials in base variables, relations (a power of a variable rewritten to a polynomial, such as
y^2 -> x^3+7) and polynomials known not to vanish.  Signals are solved for in turn (a constraint linear in one unknown whose
coefficient is known not to vanish), zero tests are decided or split, and what stays undetermined is an arbitrary element."""
import itertools
import ff
from circom import P, Poly


def zero(): return {}


class Case:
    def __init__(self, variables, rules=None, nonzero=(), inputs=None, name=""):
        self.v = list(variables)
        self.rules = dict(rules or {})        # var -> (power, poly)
        self.nz = list(nonzero)
        self.inputs = dict(inputs or {})
        self.name = name
        self.zeros = []

    # polynomials: {exponents as sorted tuple ((var, e), ...): coeff}
    def red(self, d):
        """normal form"""
        for _ in range(400):
            bad = None
            for m in d:
                for v, e in m:
                    r = self.rules.get(v)
                    if r and e >= r[0]:
                        bad = v
                        break
                if bad:
                    break
            if not bad:
                return d
            k, rep = self.rules[bad]
            out = {}
            for m, c in d.items():
                e = dict(m).get(bad, 0)
                if e < k:
                    out[m] = (out.get(m, 0) + c) % P
                    continue
                rest = tuple((v, x) if v != bad else (v, x - k) for v, x in m if v != bad or x > k)
                for n, f in rep.items():
                    q = mm(rest, n)
                    out[q] = (out.get(q, 0) + c * f) % P
            d = {m: c for m, c in out.items() if c}
        raise ff.TooBig()

    def mul(self, a, b):
        if len(a) * len(b) > 3000000:
            raise ff.TooBig()
        out = {}
        for m, c in a.items():
            for n, e in b.items():
                q = mm(m, n)
                out[q] = out.get(q, 0) + c * e
        return self.red({m: c % P for m, c in out.items() if c % P})

    def copy(self):
        x = Case(self.v, self.rules, self.nz, self.inputs, self.name)
        x.zeros = list(self.zeros)
        return x

    def is_zero(self, a):
        return not a

    def is_nonzero(self, a):
        if not a:
            return False
        if set(a) == {()}:
            return True
        for k in range(1, 5):
            for comb in itertools.combinations_with_replacement(range(len(self.nz)), k):
                pr = {(): 1}
                for i in comb:
                    pr = self.mul(pr, self.nz[i])
                if set(pr) == set(a):
                    m = next(iter(a))
                    f = a[m] * pow(pr[m], P - 2, P) % P
                    if all(a[x] == f * pr[x] % P for x in a):
                        return True
        return False


def mm(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def add(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        x = (d.get(m, 0) + k * c) % P
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return d


def V(n): return {((n, 1),): 1}
def K(c): return {(): c % P} if c % P else {}


class RF:
    """num/den in a case; den is known not to vanish"""
    def __init__(self, cs, n, d=None):
        self.cs, self.n, self.d = cs, cs.red(n), d if d is not None else {(): 1}

    def same(self, o): return self.d == o.d

    def __add__(self, o):
        if self.same(o):
            return RF(self.cs, add(self.n, o.n), self.d)
        m = self.cs.mul
        if set(o.d) == {()}:
            return RF(self.cs, add(self.n, m(o.n, self.d), pow(o.d[()], P - 2, P)), self.d)
        if set(self.d) == {()}:
            return o + self
        return RF(self.cs, add(m(self.n, o.d), m(o.n, self.d)), m(self.d, o.d))

    def __neg__(self): return RF(self.cs, {m: -c % P for m, c in self.n.items()}, self.d)
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        if not self.n or not o.n:
            return RF(self.cs, {})
        m = self.cs.mul
        return RF(self.cs, m(self.n, o.n), self.d if set(o.d) == {()} and o.d[()] == 1 else o.d if set(self.d) == {()} and self.d[()] == 1 else m(self.d, o.d))

    def inv(self):
        return RF(self.cs, self.d, self.n)


class Undecided(Exception):
    def __init__(self, poly, why=""):
        self.poly, self.why = poly, why


class Dead(Exception):
    """the case cannot satisfy the constraints"""


GATES = {
    "AND": lambda a: a["a"] * a["b"], "OR": lambda a: a["a"] + a["b"] - a["a"] * a["b"],
    "XOR": lambda a: a["a"] + a["b"] - Poly.of(2) * a["a"] * a["b"], "NOT": lambda a: Poly.of(1) - a["in"],
    "NAND": lambda a: Poly.of(1) - a["a"] * a["b"], "NOR": lambda a: Poly.of(1) - a["a"] - a["b"] + a["a"] * a["b"],
}
SIG = lambda ins, outs: (lambda *a: dict([(n, ("input", d(*a) if callable(d) else d)) for n, d in ins] + [(n, ("output", d(*a) if callable(d) else d)) for n, d in outs]))
LIB = {
    "IsZero": SIG([("in", [])], [("out", [])]), "IsEqual": SIG([("in", [2])], [("out", [])]),
    "AND": SIG([("a", []), ("b", [])], [("out", [])]), "OR": SIG([("a", []), ("b", [])], [("out", [])]),
    "XOR": SIG([("a", []), ("b", [])], [("out", [])]), "NAND": SIG([("a", []), ("b", [])], [("out", [])]),
    "NOR": SIG([("a", []), ("b", [])], [("out", [])]), "NOT": SIG([("in", [])], [("out", [])]),
    "Num2Bits": SIG([("in", [])], [("out", lambda n: [n])]), "Num2Bits_strict": SIG([("in", [])], [("out", [254])]),
    "Bits2Num": SIG([("in", lambda n: [n])], [("out", [])]),
    "LessThan": SIG([("in", [2])], [("out", [])]), "GreaterThan": SIG([("in", [2])], [("out", [])]),
    "LessEqThan": SIG([("in", [2])], [("out", [])]), "GreaterEqThan": SIG([("in", [2])], [("out", [])]),
    "Mux1": SIG([("c", [2]), ("s", [])], [("out", [])]), "MultiMux1": SIG([("c", lambda n: [n, 2]), ("s", [])], [("out", lambda n: [n])]),
}
for _n in ("LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan"):
    LIB[_n] = (lambda f: (lambda n: f()))(LIB[_n])


def gate_defs(circ):
    """components whose outputs are polynomials of their inputs, as definitions {output signal: poly over input signals}"""
    d = {}
    for c in circ.comps:
        if c.tname in GATES:
            d[circ.signame(c.sig["out"])] = GATES[c.tname]({n: x for n, x in c.sig.items()})
        elif c.tname == "Mux1":
            d[circ.signame(c.sig["out"])] = (c.sig["c"][1] - c.sig["c"][0]) * c.sig["s"] + c.sig["c"][0]
        elif c.tname == "MultiMux1":
            for i, o in enumerate(c.sig["out"]):
                d[circ.signame(o)] = (c.sig["c"][i][1] - c.sig["c"][i][0]) * c.sig["s"] + c.sig["c"][i][0]
        elif c.tname == "Bits2Num":
            t = Poly.of(0)
            for i, x in enumerate(c.sig["in"]):
                t = t + x * (1 << i)
            d[circ.signame(c.sig["out"])] = t
    return d


class Solver:
    def __init__(self, circ, case):
        self.c, self.cs = circ, case
        self.env = {k: RF(case, v) for k, v in case.inputs.items()}
        self.free, self.how = [], {}

    def ev(self, poly):
        """-> RF or None when a signal is unknown"""
        t = RF(self.cs, {})
        for m, k in poly.d.items():
            x = RF(self.cs, K(k))
            for v in m:
                if v not in self.env:
                    return None
                x = x * self.env[v]
            t = t + x
        return t

    def zero_tests(self):
        for c in self.c.comps:
            if c.tname == "IsZero":
                yield self.c.signame(c.sig["out"]), c.sig["in"]
            elif c.tname == "IsEqual":
                yield self.c.signame(c.sig["out"]), c.sig["in"][0] - c.sig["in"][1]

    def decide(self, rf):
        if self.cs.is_zero(rf.n):
            return True
        if self.cs.is_nonzero(rf.n):
            return False
        return None

    def run(self):
        """solve everything; raises Undecided(poly) when a case split is needed, Dead when the case is impossible"""
        defs = [(n, v) for n, v in list(self.c.defs.items()) + list(gate_defs(self.c).items())]
        tests = list(self.zero_tests())
        cons = [p for p, _ in self.c.cons]
        other = [c for c in self.c.comps if c.tname not in GATES and c.tname not in ("IsZero", "IsEqual", "Mux1", "MultiMux1", "Bits2Num")]
        if other:
            raise Undecided(None, "component %s" % other[0].tname)
        pend = [("d", n, v) for n, v in defs] + [("t", n, v) for n, v in tests] + [("c", None, p) for p in cons]
        while pend:
            prog, rest, und, split = False, [], None, None
            for it in pend:
                k, n, p = it
                if k == "d":
                    x = self.ev(p)
                    if x is None:
                        rest.append(it)
                    elif n in self.env:
                        rest.append(("c", None, Poly.var(n) - p))
                        prog = True
                    else:
                        self.env[n] = x
                        prog = True
                    continue
                if k == "t":
                    x = self.ev(p)
                    z = None if x is None else self.decide(x)
                    if x is not None and z is None:
                        und = und or x.n
                    if z is None:
                        rest.append(it)
                    else:
                        self.env[n] = RF(self.cs, K(1 if z else 0))
                        prog = True
                    continue
                unk = {v for v in p.vars() if v not in self.env}
                if not unk:
                    x = self.ev(p)
                    z = self.decide(x)
                    if z is True:
                        prog = True
                    elif z is False:
                        raise Dead()
                    else:
                        split = split or x.n
                        rest.append(it)
                    continue
                if len(unk) == 1:
                    u = next(iter(unk))
                    if all(m.count(u) <= 1 for m in p.d):
                        a = self.ev(Poly({tuple(v for v in m if v != u): k for m, k in p.d.items() if u in m}))
                        b = self.ev(Poly({m: k for m, k in p.d.items() if u not in m}))
                        z = self.decide(a)
                        if z is False:
                            self.env[u] = -(b * a.inv())
                            prog = True
                            continue
                        if z is True:
                            w = self.decide(b)
                            if w is True:
                                prog = True
                                continue
                            if w is False:
                                raise Dead()
                            split = split or b.n
                        else:
                            split = split or a.n
                    rest.append(it)
                    continue
                rest.append(it)
            pend = rest
            if prog:
                continue
            s = und or split
            if s is not None:
                raise Undecided(s)
            unk = [n for n in self.c.order if n not in self.env and n in self.c.hints]
            if not unk:
                raise Undecided(None, "signals cannot be solved for")
            self.setfree(unk[0])
        for n in self.c.hints:
            if n not in self.env:
                self.setfree(n)

    def setfree(self, n):
        self.free.append(n)
        v = "free:" + n
        if v not in self.cs.v:
            self.cs.v.append(v)
        self.env[n] = RF(self.cs, V(v))

    def hints(self):
        """the honest witness: every signal from its assignment; -> list of (signal or constraint, RF that must vanish)"""
        self.env = {k: RF(self.cs, v) for k, v in self.cs.inputs.items()}
        defs = dict(self.c.defs)
        defs.update(gate_defs(self.c))
        tests = dict(self.zero_tests())
        todo = list(defs) + list(tests) + list(self.c.hints)
        while todo:
            rest = []
            for n in todo:
                if n in defs:
                    x = self.ev(defs[n])
                elif n in tests:
                    x = self.ev(tests[n])
                    if x is not None:
                        z = self.decide(x)
                        if z is None:
                            raise Undecided(x.n)
                        x = RF(self.cs, K(1 if z else 0))
                else:
                    ex, sc, c, i = self.c.hints[n]
                    x = self.hev(ex, sc, c)
                if x is None:
                    rest.append(n)
                else:
                    self.env[n] = x
            if len(rest) == len(todo):
                raise Undecided(None, "assignments cannot be ordered")
            todo = rest
        return [(w, self.ev(p)) for p, w in self.c.cons]

    def hev(self, e, sc, c):
        if e[0] == "bin" and e[1] in "+-*/":
            a, b = self.hev(e[2], sc, c), self.hev(e[3], sc, c)
            if a is None or b is None:
                return None
            if e[1] == "/":
                z = self.decide(b)
                if z is None:
                    raise Undecided(b.n)
                return RF(self.cs, {}) if z else a * b.inv()     # circom's run time inverts 0 to 0
            return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
        if e[0] == "un" and e[1] == "-":
            a = self.hev(e[2], sc, c)
            return None if a is None else -a
        if e[0] == "cond":
            z = self.hev(e[1], sc, c)
            if z is None:
                return None
            d = self.decide(z)
            if d is None:
                raise Undecided(z.n)
            return self.hev(e[3] if d else e[2], sc, c)
        if e[0] == "bin" and e[1] in ("==", "!="):
            a, b = self.hev(e[2], sc, c), self.hev(e[3], sc, c)
            if a is None or b is None:
                return None
            d = self.decide(a - b)
            if d is None:
                raise Undecided((a - b).n)
            return RF(self.cs, K(int(d == (e[1] == "=="))))
        v = self.c.value(e, sc, c)
        if isinstance(v, list):
            raise Undecided(None, "array in an assignment")
        return self.ev(Poly.of(v))


def split(cs, poly):
    """-> (case with poly = 0 or None when no variable can be solved for, case with poly != 0)"""
    b = cs.copy()
    b.nz.append(poly)
    b.name += " and %s != 0" % show(poly)
    for v in sorted({x for m in poly for x, _ in m}, key=lambda x: (not x.startswith("free:"), not x.startswith("y"), x)):
        lin = {m: c for m, c in poly.items() if any(x == v for x, _ in m)}
        if list(lin) == [((v, 1),)]:
            k = lin[((v, 1),)]
            rep = {m: c * pow(-k, P - 2, P) % P for m, c in poly.items() if m not in lin}
            a = cs.copy()
            old = a.rules.pop(v, None)
            a.zeros.append((v, rep))
            sub = lambda d: a.red(subst(a, d, v, rep))
            if old:
                # v^k = q becomes rep^k = q: solve it for a power of another variable
                t = {(): 1}
                for _ in range(old[0]):
                    t = a.mul(t, rep)
                rel = add(t, old[1], -1)
                pick = None
                for m, c in rel.items():
                    if len(m) == 1 and all(dict(n).get(m[0][0], 0) < m[0][1] for n in rel if n != m) and m[0][0] not in a.rules:
                        pick = (m, c)
                        break
                if pick is None:
                    return None, b
                m, c = pick
                a.rules[m[0][0]] = (m[0][1], {n: -f * pow(c, P - 2, P) % P for n, f in rel.items() if n != m})
            a.rules = {x: (e, subst(a, q, v, rep)) for x, (e, q) in a.rules.items()}
            a.nz = [sub(x) for x in a.nz]
            a.inputs = {s: sub(x) for s, x in a.inputs.items()}
            a.name += " and %s = 0" % show(poly)
            return a, b
    return None, b


def subst(cs, d, v, rep):
    out = {}
    for m, c in d.items():
        e = dict(m).get(v, 0)
        t = {tuple((x, k) for x, k in m if x != v): c}
        for _ in range(e):
            t = cs.mul(t, rep)
        out = add(out, t)
    return out


def show(d):
    s = " + ".join(("%d" % (c if c < P // 2 else c - P) if abs(c if c < P // 2 else c - P) != 1 or not m else "-" if c != 1 else "") + "*".join(v + ("^%d" % e if e > 1 else "") for v, e in m) for m, c in sorted(d.items()))
    return s if len(s) < 90 else s[:87] + "..."


def evaluate(d, vals):
    t = 0
    for m, c in d.items():
        for v, e in m:
            c = c * pow(vals[v], e, P) % P
        t += c
    return t % P
