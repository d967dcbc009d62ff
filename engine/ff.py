"""Identities over F_q between expressions recorded by the symbolic driver.

An expression DAG over variables is put in polynomial normal form (Laurent monomials, coefficients mod q); whether two
expressions can differ is then a question to the SMT solver in which every distinct monomial is an arbitrary element of
F_q.  That is exact for equality (two polynomials are equal as functions on F_q^n when their normal forms agree, and the
degrees here are far below q, so the converse holds too), and the solver's model gives the differing monomial.
Sub-expressions shared by both sides may be left opaque (they become variables): that only makes the claim stronger."""
import random
import sys
import time

Q = 2**256 - 2**32 - 977
STATS = {"queries": 0, "solver_s": 0.0, "sat": 0, "unsat": 0, "unknown": 0}
sys.setrecursionlimit(100000)
SH = 10            # bits per exponent in a packed monomial
LIMIT = 400000


class TooBig(Exception):
    pass


def zquery(l, r, q=Q):
    """can sum(l[m]*x_m) differ from sum(r[m]*x_m) mod q for some x? -> 'unsat' (no), 'sat'"""
    import z3
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 60000)
    ms = sorted(set(l) | set(r))
    xs = {}
    tl, tr = [], []
    for m in ms:
        x = 1 if m == 0 else xs.setdefault(m, z3.Int("m%d" % len(xs)))
        if m in l:
            tl.append(l[m] * x)
        if m in r:
            tr.append(r[m] * x)
    k, d = z3.Ints("k d")
    s.add(z3.Sum(tl + [z3.IntVal(0)]) - z3.Sum(tr + [z3.IntVal(0)]) == q * k + d, d > 0, d < q)
    for x in xs.values():
        s.add(x >= 0, x < q)
    v = str(s.check())
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    STATS[v] += 1
    return v


class Dag:
    def __init__(self, text):
        self.op, self.a, self.b, self.name, self.val0 = [], [], [], {}, {}
        self.events = []
        self.msgs = {}        # transcript -> list of ('m', label, bytes) | ('c', label, id)
        for l in text.split("\n"):
            f = l.split(" ")
            if f[0] == "N":
                self.op.append(f[2])
                if f[2] == "k":
                    self.a.append(int(f[3], 16)); self.b.append(0)
                elif f[2] == "v":
                    self.a.append(0); self.b.append(0)
                    self.name[len(self.op) - 1] = f[3]
                    self.val0[len(self.op) - 1] = int(f[4], 16)
                elif f[2] in "ni":
                    self.a.append(int(f[3])); self.b.append(0)
                else:
                    self.a.append(int(f[3])); self.b.append(int(f[4]))
            elif f[0] == "TMSG":
                self.msgs.setdefault(int(f[1]), []).append(("m", f[2], f[3] if len(f) > 3 else ""))
            elif f[0] == "TCHAL":
                self.msgs.setdefault(int(f[1]), []).append(("c", f[2], int(f[3])))
            elif l and f[0] != "TNEW":
                self.events.append(f)
        self.n = len(self.op)
        self.rng = random.Random(7)
        self._memo = {}

    # ---- numeric evaluation
    def cone(self, roots, cut=frozenset()):
        seen, st = set(), list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            o = self.op[x]
            if x in cut or o in "kv":
                continue
            st.append(self.a[x])
            if o in "+-*":
                st.append(self.b[x])
        return sorted(seen)

    def evaluate(self, order, cut, base=None):
        v = {}
        for x in order:
            o = self.op[x]
            if o == "k":
                v[x] = self.a[x]
            elif x in cut or o == "v":
                v[x] = base[x] if base and x in base else self.rng.randrange(1, Q)
            elif o == "+":
                v[x] = (v[self.a[x]] + v[self.b[x]]) % Q
            elif o == "-":
                v[x] = (v[self.a[x]] - v[self.b[x]]) % Q
            elif o == "*":
                v[x] = v[self.a[x]] * v[self.b[x]] % Q
            elif o == "n":
                v[x] = -v[self.a[x]] % Q
            else:
                v[x] = pow(v[self.a[x]], Q - 2, Q)
        return v

    def values(self, over=None):
        base = dict(self.val0)
        for k, x in (over or {}).items():
            base[k] = x
        return self.evaluate(range(self.n), frozenset(), base)

    # ---- normal forms
    def poly(self, roots, cut=frozenset(), limit=LIMIT):
        """-> ({root: {packed monomial: coeff}}, variable list)"""
        idx, P = {}, {}
        order = self.cone(roots, cut)
        vs = []

        def var(x):
            idx[x] = len(vs)
            vs.append(x)
            return {1 << (SH * idx[x]): 1}
        tot = 0
        for x in order:
            o = self.op[x]
            if o == "k":
                P[x] = {0: self.a[x]} if self.a[x] % Q else {}
            elif x in cut or o == "v":
                P[x] = var(x)
            elif o in "+-":
                r = dict(P[self.a[x]])
                s = 1 if o == "+" else -1
                for m, c in P[self.b[x]].items():
                    t = (r.get(m, 0) + s * c) % Q
                    if t:
                        r[m] = t
                    else:
                        r.pop(m, None)
                P[x] = r
            elif o == "*":
                A, B = P[self.a[x]], P[self.b[x]]
                if len(A) * len(B) > 20 * limit:
                    raise TooBig()
                if len(A) > len(B):
                    A, B = B, A
                r = {}
                for m1, c1 in A.items():
                    for m2, c2 in B.items():
                        m = m1 + m2
                        r[m] = r.get(m, 0) + c1 * c2
                P[x] = {m: c % Q for m, c in r.items() if c % Q}
            elif o == "n":
                P[x] = {m: Q - c for m, c in P[self.a[x]].items()}
            else:
                A = P[self.a[x]]
                if len(A) == 1:
                    (m, c), = A.items()
                    P[x] = {-m: pow(c, Q - 2, Q)}
                else:
                    P[x] = var(x)
            tot += len(P[x])
            if tot > 8 * limit:
                raise TooBig()
        return {r: P[r] for r in roots}, vs

    def _common(self, a, b):
        ca = self.cone([a]); cb = set(self.cone([b]))
        return [x for x in ca if x in cb and self.op[x] not in "kv"]

    def choose_cut(self, a, b):
        """the most opaque set of shared sub-expressions under which the identity still holds numerically"""
        common = self._common(a, b)

        def cutset(t):
            return frozenset(x for x in common if x < t)

        def ok(cut):
            order = self.cone([a, b], cut)
            v = self.evaluate(order, cut)
            return v[a] == v[b]
        if not ok(frozenset()):
            return None
        if ok(frozenset(common)):
            return frozenset(common)
        lo, hi = 0, len(common)      # cut common[:lo] works, common[:hi] does not
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if ok(frozenset(common[:mid])):
                lo = mid
            else:
                hi = mid
        cut = set(common[:lo])
        # then try to keep further shared nodes opaque
        for x in common[lo:][-60:]:
            if x in cut:
                continue
            if ok(frozenset(cut | {x})):
                cut.add(x)
        return frozenset(cut)

    def prove_eq(self, a, b):
        """-> 'holds' | 'differs' | 'toobig'"""
        if a == b:
            return "holds"
        key = (min(a, b), max(a, b))
        if key in self._memo:
            return self._memo[key]
        r = self._prove(a, b)
        self._memo[key] = r
        return r

    def _prove(self, a, b):
        cut = self.choose_cut(a, b)
        if cut is None:
            return "differs"
        try:
            P, vs = self.poly([a, b], cut)
        except TooBig:
            return "toobig"
        v = zquery(P[a], P[b])
        return {"unsat": "holds", "sat": "differs"}.get(v, "toobig")

    # ---- equation systems
    def implied(self, asm, goal, extra_cut=frozenset()):
        """is goal (pair) a consequence of the equations asm (pairs)? linear combinations with constant multipliers.
        -> ('holds', multipliers) | ('unknown', None)"""
        pairs = list(asm) + [goal]
        roots = sorted({x for p in pairs for x in p})
        order = self.cone(roots, extra_cut)
        k = len(asm)
        if k == 0:
            return (self.prove_eq(*goal), [])
        rows = []
        for _ in range(k + 3):
            v = self.evaluate(order, extra_cut)
            rows.append([(v[x] - v[y]) % Q for x, y in pairs])
        lam = solve_linear([r[:k] for r in rows], [r[k] for r in rows])
        if lam is None:
            return ("unknown", None)
        use = [i for i in range(k) if lam[i]]
        sub = [asm[i] for i in use] + [goal]
        rts = sorted({x for p in sub for x in p})
        cut = self.span_cut(sub, [lam[i] for i in use], rts)
        try:
            P, vs = self.poly(rts, cut)
        except TooBig:
            return ("toobig", lam)
        l, r = {}, {}
        for i, (x, y) in zip(use, sub):
            for m, c in P[x].items():
                l[m] = l.get(m, 0) + lam[i] * c % Q
            for m, c in P[y].items():
                l[m] = l.get(m, 0) - lam[i] * c % Q
        gx, gy = goal
        for m, c in P[gx].items():
            r[m] = r.get(m, 0) + c
        for m, c in P[gy].items():
            r[m] = r.get(m, 0) - c
        v = zquery(l, r)
        return ({"unsat": "holds"}.get(v, "unknown"), lam)

    def span_cut(self, pairs, lam, roots):
        """shared sub-expressions that may stay opaque"""
        cones = [set(self.cone(list(p))) for p in pairs]
        common = [x for x in sorted(set.union(*cones)) if self.op[x] not in "kv" and sum(x in c for c in cones) > 1]

        def ok(cut):
            v = self.evaluate(self.cone(roots, cut), cut)
            s = sum(c * (v[x] - v[y]) for c, (x, y) in zip(lam, pairs)) % Q
            x, y = pairs[-1]
            return (s - v[x] + v[y]) % Q == 0
        if ok(frozenset(common)):
            return frozenset(common)
        lo, hi = 0, len(common)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if ok(frozenset(common[:mid])):
                lo = mid
            else:
                hi = mid
        return frozenset(common[:lo]) if ok(frozenset(common[:lo])) else frozenset()


def solve_linear(M, y):
    """a solution x of M x = y mod q, or None"""
    n, k = len(M), len(M[0])
    A = [list(r) + [v] for r, v in zip(M, y)]
    piv, row = [], 0
    for c in range(k):
        p = next((i for i in range(row, n) if A[i][c] % Q), None)
        if p is None:
            continue
        A[row], A[p] = A[p], A[row]
        iv = pow(A[row][c], Q - 2, Q)
        A[row] = [x * iv % Q for x in A[row]]
        for i in range(n):
            if i != row and A[i][c]:
                f = A[i][c]
                A[i] = [(x - f * z) % Q for x, z in zip(A[i], A[row])]
        piv.append(c)
        row += 1
        if row == n:
            break
    for i in range(row, n):
        if A[i][k] % Q:
            return None
    x = [0] * k
    for i, c in enumerate(piv):
        x[c] = A[i][k] % Q
    return x
