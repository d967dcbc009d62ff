"""Integer back end: terms -> linear integer arithmetic over z3 Ints.

Machine words become mathematical integers; wrap-around, truncation and shifts introduce bounded integer quotients;
products of two symbolic words are expanded into monomials, and every monomial of degree >= 2 becomes a fresh bounded
integer (a sound abstraction: anything proved holds for every value the monomials can take)."""
import time
import z3
import terms as T
from terms import Term, isc, mask

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "sat": 0, "unsat": 0}


class Lia:
    def __init__(self):
        self.atoms = []     # z3 Int
        self.lo = []
        self.hi = []
        self.names = []
        self.cons = []      # z3 constraints
        self.memo = {}      # term id -> poly
        self.bmemo = {}
        self.dm = {}
        self.monos = {}
        self.monoatom = {}
        self.overapprox = []
        self.keep = []
        self.defs = {}      # atom -> ('div', poly, M) | ('bit', term) | ('ite', cond term, p1, p2) | ('mono', m) | ('over',)
        self.acons = {}     # atom -> list of defining constraints

    # polynomials: dict {tuple(sorted atom ids): coef}
    def atom(self, name, lo, hi):
        i = len(self.atoms)
        v = z3.Int("%s_%d" % (name, i))
        self.atoms.append(v)
        self.lo.append(lo)
        self.hi.append(hi)
        self.names.append(name)
        if lo is not None:
            self.cons.append(v >= lo)
        if hi is not None:
            self.cons.append(v <= hi)
        return i

    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + k * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pscale(a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    @staticmethod
    def pmul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                x = r.get(k, 0) + c * d
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return r

    @staticmethod
    def const(c):
        return {(): c} if c else {}

    def mono_bounds(self, m):
        lo, hi = 1, 1
        for i in m:
            a, b = self.lo[i], self.hi[i]
            cs = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(cs), max(cs)
        return lo, hi

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            a, b = self.mono_bounds(m)
            if c >= 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def mono(self, m):
        """z3 expression of a monomial"""
        if len(m) == 1:
            return self.atoms[m[0]]
        v = self.monos.get(m)
        if v is None:
            lo, hi = self.mono_bounds(m)
            i = self.atom("prod", lo, hi)
            self.defs[i] = ("mono", m)
            v = self.monos[m] = self.atoms[i]
            self.monoatom[m] = i
        return v

    def z(self, p):
        ts = []
        c0 = 0
        for m, c in p.items():
            if m == ():
                c0 = c
            else:
                e = self.mono(m)
                ts.append(e if c == 1 else e * c)
        if not ts:
            return z3.IntVal(c0)
        if c0:
            ts.append(z3.IntVal(c0))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def key(self, p):
        return tuple(sorted(p.items()))

    def divmod(self, p, s, tlo=None, thi=None):
        """(quotient, remainder) of p by 2^s; tlo..thi is a known range of p"""
        M = 1 << s
        blo, bhi = self.bounds(p)
        tlo = blo if tlo is None else max(tlo, blo)
        thi = bhi if thi is None else min(thi, bhi)
        if tlo >> s == thi >> s:
            k = tlo >> s
            return self.const(k), self.padd(p, self.const(k), -M)
        # pull out the part that is divisible
        qp, rp = {}, {}
        for m, c in p.items():
            q, r = divmod(c, M)
            if q:
                qp[m] = q
            if r:
                rp[m] = r
        if not rp:
            return qp, {}
        g = s
        for c in p.values():
            g = min(g, (c & -c).bit_length() - 1)
            if not g:
                break
        if g:
            # a common power of two: same quotient with smaller numbers
            q2, r2 = self.divmod({m: c >> g for m, c in p.items()}, s - g, -(-tlo >> g), thi >> g)
            return q2, self.pscale(r2, 1 << g)
        if tlo >= -M and thi < M and tlo < 0:
            # only the sign matters: use the smallest power of two with the same quotient
            s0 = max((-tlo - 1).bit_length(), max(thi, 0).bit_length())
            if s0 < s:
                e = self.divmod(p, s0, tlo, thi)[0]
                return e, self.padd(p, e, -M)
        # the quotient of p itself (range tlo..thi), as one atom
        k = (self.key(p), s)
        e = self.dm.get(k)
        if e is None:
            k2 = (self.key(rp), s)
            e2 = self.dm.get(k2) if qp else None
            if e2 is not None:
                # floor(p / 2^s) = qp + floor(rp / 2^s), with a range that is known
                e = self.padd(qp, e2)
                if e:
                    at = max(i for m in e for i in m) if any(e) else None
                    if at is not None:
                        ze = self.z(e)
                        self.acons.setdefault(at, []).extend([ze >= tlo >> s, ze <= thi >> s])
            else:
                lo2, hi2 = self.bounds(rp)
                i = self.atom("q", tlo >> s, thi >> s)
                e = {(i,): 1}
                r = self.padd(p, e, -M)
                zr = self.z(r)
                self.defs[i] = ("div", p, M)
                self.acons[i] = [zr >= 0, zr <= M - 1]
                if qp:
                    self.dm[k2] = self.padd(e, qp, -1)
            self.dm[k] = e
        return e, self.padd(p, e, -M)

    pull = False

    def wrap(self, p, w, lo=None, hi=None):
        return self.divmod(p, w, lo, hi)[1]

    def conv(self, t):
        if isc(t):
            return self.const(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = []
            for i, a in enumerate(x.args):
                if type(a) is Term and a.id not in self.memo:
                    if x.op == "ite" and i == 0:
                        continue
                    todo.append(a)
            if todo and x.op not in ("eq", "ult", "slt"):
                stack.extend(todo)
                continue
            self.memo[x.id] = self.conv1(x)
            self.keep.append(x)
            stack.pop()
        return self.memo[t.id]

    def fresh_over(self, x, why):
        self.overapprox.append(why)
        i = self.atom("over", 0, x.hi)
        return {(i,): 1}

    def bit(self, x):
        """0/1 polynomial of a width-1 term"""
        if x.op == "ult":
            d = self.padd(self.conv(x.args[0]), self.conv(x.args[1]), -1)
            lo, hi = self.bounds(d)
            lo, hi = max(lo, -T.hi_of(x.args[1])), min(hi, T.hi_of(x.args[0]))
            if lo >= 0:
                return {}
            if hi < 0:
                return self.const(1)
            s0 = max((-lo - 1).bit_length(), hi.bit_length())
            return self.pscale(self.divmod(d, s0, lo, hi)[0], -1)
        if x.op == "xor" and isc(x.args[1]) and x.args[1] == 1:
            return self.padd(self.const(1), self.conv(x.args[0]), -1)
        b = self.boolean(x)
        i = self.atom("b", 0, 1)
        self.defs[i] = ("bit", x)
        self.acons[i] = [(self.atoms[i] == 1) == b]
        return {(i,): 1}

    def conv1(self, x):
        o, w, A = x.op, x.w, x.args
        if o in ("eq", "ult", "slt") or (w == 1 and o in ("and", "or", "xor", "ite")):
            return self.bit(x)
        p = [self.conv(a) if not (o == "ite" and i == 0) else None for i, a in enumerate(A)]
        if o == "var":
            i = self.atom(x.aux[0], 0, x.hi)
            return {(i,): 1}
        if o == "add":
            return self.wrap(self.padd(p[0], p[1]), w, 0, T.hi_of(A[0]) + T.hi_of(A[1]))
        if o == "sub":
            return self.wrap(self.padd(p[0], p[1], -1), w, -T.hi_of(A[1]), T.hi_of(A[0]))
        if o == "mul":
            return self.wrap(self.pmul(p[0], p[1]), w, 0, T.hi_of(A[0]) * T.hi_of(A[1]))
        if o == "zext":
            return p[0]
        if o == "trunc" and A[0].op == "sub":
            # (x - y mod 2^fw) mod 2^w = (x - y) mod 2^w
            u, v = A[0].args
            return self.wrap(self.padd(self.conv(u), self.conv(v), -1), w, -T.hi_of(v), T.hi_of(u))
        if o == "trunc":
            return self.divmod(p[0], w, 0, T.hi_of(A[0]))[1]
        if o == "lshr" and isc(A[1]):
            return self.divmod(p[0], A[1], 0, T.hi_of(A[0]))[0]
        if o == "shl" and isc(A[1]):
            return self.wrap(self.pscale(p[0], 1 << A[1]), w, 0, T.hi_of(A[0]) << A[1])
        if o == "concat":
            return self.padd(self.pscale(p[0], 1 << x.aux), p[1])
        if o == "sext":
            fw = A[0].w
            q, _ = self.divmod(p[0], fw - 1, 0, T.hi_of(A[0]))
            return self.padd(p[0], q, (1 << w) - (1 << fw))
        if o == "ite":
            if isc(A[1]) and isc(A[2]):
                b = self.conv(A[0])
                return self.padd(self.const(A[2]), b, A[1] - A[2])
            c = self.boolean(A[0])
            i = self.atom("ite", 0, max(T.hi_of(A[1]), T.hi_of(A[2])))
            self.defs[i] = ("ite", A[0], p[1], p[2])
            self.acons[i] = [z3.Implies(c, self.atoms[i] == self.z(p[1])), z3.Implies(z3.Not(c), self.atoms[i] == self.z(p[2]))]
            return {(i,): 1}
        if o == "or":
            for a, b, pa, pb in ((A[0], A[1], p[0], p[1]), (A[1], A[0], p[1], p[0])):
                if not isc(a) or True:
                    tz = T.tz_of(a)
                    if T.hi_of(b) < (1 << min(tz, w)):
                        return self.padd(pa, pb)
            return self.padd(self.padd(p[0], p[1]), self.and_poly(x, A, p, w), -1)
        if o == "xor":
            if isc(A[1]) and A[1] == mask(w):
                return self.padd(self.const(mask(w)), p[0], -1)
            return self.padd(self.padd(p[0], p[1]), self.and_poly(x, A, p, w), -2)
        if o == "and":
            return self.and_poly(x, A, p, w)
        if o in ("udiv", "urem") and isc(A[1]) and A[1]:
            d = A[1]
            lo, hi = self.bounds(p[0])
            k = (self.key(p[0]), "d", d)
            e = self.dm.get(k)
            if e is None:
                i = self.atom("dq", 0, hi // d)
                e = self.dm[k] = {(i,): 1}
                zr = self.z(self.padd(p[0], e, -d))
                self.defs[i] = ("div", p[0], d)
                self.acons[i] = [zr >= 0, zr <= d - 1]
            return e if o == "udiv" else self.padd(p[0], e, -d)
        return self.fresh_over(x, o)

    def and_poly(self, x, A, p, w):
        if isc(A[1]) or isc(A[0]):
            c, q = (A[1], p[0]) if isc(A[1]) else (A[0], p[1])
            # runs of ones
            res = {}
            i = 0
            runs = []
            while c >> i:
                if c >> i & 1:
                    j = i
                    while c >> j & 1:
                        j += 1
                    runs.append((i, j - i))
                    i = j
                else:
                    i += 1
            if len(runs) <= 8:
                for lo, ln in runs:
                    u = self.divmod(q, lo, 0, mask(w))[0] if lo else q
                    u = self.divmod(u, ln, 0, mask(w) >> lo)[1] if lo + ln < w else u
                    res = self.padd(res, u, 1 << lo)
                return res
        return self.fresh_over(x, "and")

    def boolean(self, t):
        if isc(t):
            return z3.BoolVal(bool(t))
        r = self.bmemo.get(t.id)
        if r is not None:
            return r
        o, A = t.op, t.args
        if o == "eq":
            r = self.z(self.conv(A[0])) == self.z(self.conv(A[1]))
        elif o == "ult":
            r = self.z(self.padd(self.conv(A[0]), self.conv(A[1]), -1)) <= -1
        elif o == "slt":
            aw = next(a.w for a in A if type(a) is Term)

            def sg(a):
                pa = self.conv(a)
                q, _ = self.divmod(pa, aw - 1)
                return self.padd(pa, q, -(1 << aw))
            r = self.z(self.padd(sg(A[0]), sg(A[1]), -1)) <= -1
        elif o == "xor" and isc(A[1]):
            r = z3.Not(self.boolean(A[0])) if A[1] else self.boolean(A[0])
        elif o == "xor":
            r = z3.Xor(self.boolean(A[0]), self.boolean(A[1]))
        elif o == "and":
            r = z3.And(self.boolean(A[0]), self.boolean(A[1]))
        elif o == "or":
            r = z3.Or(self.boolean(A[0]), self.boolean(A[1]))
        elif o == "ite":
            r = z3.If(self.boolean(A[0]), self.boolean(A[1]), self.boolean(A[2]))
        else:
            r = self.z(self.conv(t)) == 1
        self.bmemo[t.id] = r
        self.keep.append(t)
        return r

    # ------------------------------------------------------------------ queries
    def zatoms(self, e, out):
        """atom indices occurring in a z3 expression"""
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                i = self.index.get(x.decl().name())
                if i is not None:
                    out.add(i)
            else:
                stack.extend(x.children())
        return out

    def check(self, extra, timeout_ms=60000, full=False):
        """lazy: start from the goal; add the definition of an atom only when a model contradicts it.
        'unsat' is sound (a subset of the constraints is already contradictory); 'sat' models satisfy all of them."""
        self.index = {str(v): i for i, v in enumerate(self.atoms)}
        t_end = time.time() + timeout_ms / 1000
        s = z3.SolverFor("QF_LIA")
        active, work = set(), set()
        for e in extra:
            s.add(e)
            self.zatoms(e, work)
        defined = set()
        its = 0
        while True:
            new = work - active
            while new:
                for i in new:
                    active.add(i)
                    if self.lo[i] is not None:
                        s.add(self.atoms[i] >= self.lo[i])
                    if self.hi[i] is not None:
                        s.add(self.atoms[i] <= self.hi[i])
                new = work - active
            left = int((t_end - time.time()) * 1000)
            if left <= 0:
                STATS["unknown"] += 1
                return "unknown", None
            s.set("timeout", left)
            t0 = time.time()
            r = s.check()
            STATS["queries"] += 1
            STATS["solver_s"] += time.time() - t0
            its += 1
            if self.trace:
                print("   it", its, str(r), "active", len(active), "defined", len(defined), "%.2fs" % (time.time() - t0))
            if r != z3.sat:
                STATS[str(r)] += 1
                return str(r), None
            m = s.model()
            vals = self.forward(m, active)
            bad = [i for i in active if i in self.acons and i not in defined
                   and m.eval(self.atoms[i], model_completion=True).as_long() != vals[i]]
            if not bad:
                STATS["sat"] += 1
                return "sat", vals
            bad.sort(reverse=True)
            for i in bad[:self.batch]:
                defined.add(i)
                for c in self.acons[i]:
                    s.add(c)
                    self.zatoms(c, work)

    trace = False
    batch = 6

    def forward(self, m, active):
        """values of all atoms: inputs and products from the model (inputs not constrained: 0), the rest computed"""
        vals = {}

        def need(i):
            d = self.defs.get(i)
            if d is None or d[0] == "mono" and i in active:
                return ()
            if d[0] == "mono":
                return d[1]
            if d[0] == "div":
                return self.pdeps(d[1])
            if d[0] == "bit":
                return self.bdeps(d[1])
            return tuple(self.bdeps(d[1])) + tuple(self.pdeps(d[2])) + tuple(self.pdeps(d[3]))
        for i0 in range(len(self.atoms)):
            stack = [i0]
            while stack:
                i = stack[-1]
                if i in vals:
                    stack.pop()
                    continue
                todo = [j for j in need(i) if j not in vals]
                if todo:
                    stack.extend(todo)
                    continue
                stack.pop()
                d = self.defs.get(i)
                if d is None or (d[0] == "mono" and i in active):
                    vals[i] = m.eval(self.atoms[i], model_completion=True).as_long() if i in active else max(self.lo[i] or 0, 0)
                elif d[0] == "mono":
                    v = 1
                    for j in d[1]:
                        v *= vals[j]
                    vals[i] = v
                elif d[0] == "div":
                    vals[i] = self.pev(d[1], vals) // d[2]
                elif d[0] == "bit":
                    vals[i] = self.bev(d[1], vals)
                else:
                    vals[i] = self.pev(d[2] if self.bev(d[1], vals) else d[3], vals)
        return vals

    def pdeps(self, p):
        return tuple({(m[0] if len(m) == 1 else self.monoidx(m)) for m in p if m})

    def monoidx(self, m):
        self.mono(m)
        return self.monoatom[m]

    def bdeps(self, t):
        if isc(t):
            return ()
        o, A = t.op, t.args
        if o in ("eq", "ult", "slt"):
            return tuple(set(self.pdeps(self.conv(A[0])) + self.pdeps(self.conv(A[1]))))
        if (o in ("xor", "and", "or") and t.w == 1) or o == "ite":
            return tuple(set(sum((self.bdeps(a) for a in A), ())))
        return self.pdeps(self.conv(t))

    def pev(self, p, vals):
        r = 0
        for m, c in p.items():
            if len(m) == 0:
                r += c
            elif len(m) == 1:
                r += c * vals[m[0]]
            else:
                r += c * vals[self.monoidx(m)]
        return r

    def bev(self, t, vals):
        if isc(t):
            return t
        o, A = t.op, t.args
        if o == "eq":
            return int(self.pev(self.conv(A[0]), vals) == self.pev(self.conv(A[1]), vals))
        if o == "ult":
            return int(self.pev(self.conv(A[0]), vals) < self.pev(self.conv(A[1]), vals))
        if o == "slt":
            aw = next(a.w for a in A if type(a) is Term)
            x, y = self.pev(self.conv(A[0]), vals), self.pev(self.conv(A[1]), vals)
            return int(T.sgn(x, aw) < T.sgn(y, aw))
        if o in ("xor", "and", "or") and t.w == 1:
            x, y = self.bev(A[0], vals), self.bev(A[1], vals)
            return x ^ y if o == "xor" else x & y if o == "and" else x | y
        if o == "ite":
            return self.bev(A[1], vals) if self.bev(A[0], vals) else self.bev(A[2], vals)
        return self.pev(self.conv(t), vals)

    def mul_bounds(self, p, pmax, q, qmax):
        """facts about the product of two polynomials with 0 <= p <= pmax, 0 <= q <= qmax"""
        pq = self.pmul(p, q)
        z = self.z(pq)
        return [z >= 0, z <= self.z(self.pscale(p, qmax)), z <= self.z(self.pscale(q, pmax)),
                z >= self.z(self.padd(self.padd(self.pscale(p, qmax), self.pscale(q, pmax)), self.const(pmax * qmax), -1))]

    def check_real(self, extra, timeout_ms=60000, enum=16):
        """relaxation: atoms range over the reals, except that atoms with at most `enum` integer values take one of
        them.  'unsat' is sound; anything else is reported as 'unknown'."""
        self.index = {str(v): i for i, v in enumerate(self.atoms)}
        self.reals = getattr(self, "reals", {})
        t_end = time.time() + timeout_ms / 1000
        sub = []
        for i in range(len(self.reals), len(self.atoms)):
            self.reals[i] = z3.Real("r%d" % i)
        sub = [(z3.ToReal(self.atoms[i]), self.reals[i]) for i in range(len(self.atoms))]

        def conv(e):
            return self.toreal(e)
        s = z3.SolverFor("QF_LRA")
        active, work, defined = set(), set(), set()
        for e in extra:
            self.zatoms(e, work)
            s.add(conv(e))
        its = 0
        while True:
            # definitions of every active atom, transitively
            for i in sorted(work - active):
                active.add(i)
                v = self.reals[i]
                lo, hi = self.lo[i], self.hi[i]
                if hi - lo < (1 if self.defs.get(i, ("",))[0] == "mono" else enum):
                    s.add(z3.Or(*[v == k for k in range(lo, hi + 1)]) if hi > lo else v == lo)
                else:
                    s.add(v >= lo, v <= hi)
                for c in self.acons.get(i, ()):
                    self.zatoms(c, work)
                    s.add(conv(c))
            if not (work - active):
                break
        left = int((t_end - time.time()) * 1000)
        s.set("timeout", max(left, 1))
        t0 = time.time()
        r = s.check()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unsat:
            STATS["unsat"] += 1
            return "unsat"
        STATS["unknown"] += 1
        return "unknown" if r == z3.unknown else "relaxed-sat"

    def toreal(self, e):
        c = self.rcache = getattr(self, "rcache", {})
        k = e.get_id()
        if k in c:
            return c[k][1]
        if z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            i = self.index.get(e.decl().name())
            r = self.reals[i] if i is not None else e
        else:
            ch = [self.toreal(x) for x in e.children()]
            d = e.decl().kind()
            if not ch:
                r = e
            elif d == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif d == z3.Z3_OP_MUL:
                r = ch[0] * ch[1]
            elif d == z3.Z3_OP_LE:
                r = ch[0] <= ch[1]
            elif d == z3.Z3_OP_GE:
                r = ch[0] >= ch[1]
            elif d == z3.Z3_OP_LT:
                r = ch[0] < ch[1]
            elif d == z3.Z3_OP_GT:
                r = ch[0] > ch[1]
            elif d == z3.Z3_OP_EQ:
                r = ch[0] == ch[1]
            elif d == z3.Z3_OP_NOT:
                # integers: not(x == y) and strict comparisons keep their integer meaning
                # (operands are taken from the integer formula: z3's Python operators may swap sides)
                y = e.children()[0]
                yc = y.children()
                if z3.is_le(y):
                    r = self.toreal(yc[0]) >= self.toreal(yc[1]) + 1
                elif z3.is_ge(y):
                    r = self.toreal(yc[0]) + 1 <= self.toreal(yc[1])
                elif z3.is_eq(y) and z3.is_arith(yc[0]):
                    l, rr = self.toreal(yc[0]), self.toreal(yc[1])
                    r = z3.Or(l + 1 <= rr, l >= rr + 1)
                else:
                    r = z3.Not(ch[0])
            elif d == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif d == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            elif d == z3.Z3_OP_IMPLIES:
                r = z3.Implies(ch[0], ch[1])
            elif d == z3.Z3_OP_XOR:
                r = z3.Xor(ch[0], ch[1])
            elif d == z3.Z3_OP_ITE:
                r = z3.If(ch[0], ch[1], ch[2])
            elif d == z3.Z3_OP_UMINUS:
                r = -ch[0]
            elif d == z3.Z3_OP_SUB:
                r = ch[0] - ch[1]
            elif d == z3.Z3_OP_IFF:
                r = ch[0] == ch[1]
            else:
                raise NotImplementedError(e.decl().name())
        c[k] = (e, r)
        return r

    def model_env(self, m):
        return {n: m[i] for i, n in reversed(list(enumerate(self.names))) if i not in self.defs}

    def not_congruent(self, p, q, modulus):
        """constraint: p != q (mod modulus), p and q polynomials"""
        return self.split(self.padd(p, q, -1), modulus, 5)

    def split(self, d, modulus, depth):
        """not (d == 0 mod modulus); if-then-else atoms of d are resolved by cases, so that the coefficients of each
        case can be reduced"""
        ites = sorted({i for m in d for i in m if self.defs.get(i, ("",))[0] == "ite"})
        if ites and depth:
            cond = self.defs[ites[-1]][1]
            same = [i for i in ites if self.defs[i][1] is cond]
            out = []
            for k in (2, 3):
                dd = {}
                for m, c in d.items():
                    t = {(): c}
                    for i in m:
                        t = self.pmul(t, self.defs[i][k] if i in same else {(i,): 1})
                    dd = self.padd(dd, t)
                b = self.boolean(cond)
                out.append(z3.And(b if k == 2 else z3.Not(b), self.split(dd, modulus, depth - 1)))
            return z3.Or(*out)
        d = {m: (c + modulus // 2) % modulus - modulus // 2 for m, c in d.items() if c % modulus}
        if not d:
            return z3.BoolVal(False)
        lo, hi = self.bounds(d)
        i = self.atom("cq", lo // modulus, hi // modulus)
        e = self.padd(d, {(i,): 1}, -modulus)
        ze = self.z(e)
        return z3.And(ze >= 1, ze <= modulus - 1)
