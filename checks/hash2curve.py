"""C13: hashing to the curve.  The real from_uniform_bytes is executed symbolically with field elements as nodes of an
expression graph over the two hashed inputs; tests on elements (zero, parity, squareness) are boolean atoms.  Every
consistent assignment of the atoms gives rational functions over F_n, compared with the specification by z3."""
import itertools
import re
import time

import ff
import scalar as S
import secq
import smt
import symex
import terms as T
from vlib import RNG

N = secq.N
TAG = 0x4E0D << 48


# ------------------------------------------------------------------ polynomials in u over F_n
def padd(a, b, k=1):
    n = max(len(a), len(b))
    r = [((a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0)) % N for i in range(n)]
    while r and not r[-1]:
        r.pop()
    return r


def pmul(a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    r = [x % N for x in r]
    while r and not r[-1]:
        r.pop()
    return r


def pdivmod(a, b):
    a = list(a)
    q = [0] * max(0, len(a) - len(b) + 1)
    iv = pow(b[-1], -1, N)
    while len(a) >= len(b):
        c = a[-1] * iv % N
        o = len(a) - len(b)
        q[o] = c
        for i, x in enumerate(b):
            a[o + i] = (a[o + i] - c * x) % N
        while a and not a[-1]:
            a.pop()
    return q, a


def pgcd(a, b):
    while b:
        a, b = b, pdivmod(a, b)[1]
    return pmul(a, [pow(a[-1], -1, N)]) if a else a


class Unk(Exception):
    pass


class El:
    """(p + q r) / d with polynomials p, q, d in u; r is the root of the case at hand"""
    def __init__(self, p, q=(), d=(1,)):
        self.p, self.q, self.d = list(p), list(q), list(d)

    def reduce(self):
        g = pgcd(pgcd(self.p, self.q), self.d) if self.p or self.q else self.d
        if len(g) > 1:
            self.p, self.q, self.d = (pdivmod(x, g)[0] if x else [] for x in (self.p, self.q, self.d))
        return self


class Case:
    """one assignment of the atoms: field elements become El"""
    def __init__(self, dom, u, nonzero):
        self.dom, self.u, self.nz = dom, u, nonzero
        self.rr = None         # r^2 as an El
        self.root = None       # the node r
        self.env = {}          # atom name -> 0/1
        self.memo = {}
        self.note = None

    def add(self, a, b, k=1):
        return El(padd(pmul(a.p, b.d), pmul(b.p, a.d), k), padd(pmul(a.q, b.d), pmul(b.q, a.d), k), pmul(a.d, b.d)).reduce()

    def mul(self, a, b):
        p, q, d = pmul(a.p, b.p), padd(pmul(a.p, b.q), pmul(a.q, b.p)), pmul(a.d, b.d)
        rr = pmul(a.q, b.q)
        if rr:
            s = self.rr
            p = padd(pmul(p, s.d), pmul(rr, s.p))
            q, d = pmul(q, s.d), pmul(d, s.d)
        return El(p, q, d).reduce()

    def inv(self, a):
        if not self.nonzero(a):
            raise Unk("inverse of a value not shown to be nonzero")
        if not a.q:
            return El(a.d, (), a.p)
        if not a.p:
            t = self.mul(El((), a.q, a.d), El((), [1]))       # q rr / d
            return self.mul(El((), [1]), self.inv(t))
        raise Unk("inverse of a sum with a root")

    def neg(self, a):
        return El([-x % N for x in a.p], [-x % N for x in a.q], a.d)

    def zero(self, a):
        return not a.p and not a.q

    def nonzero(self, a):
        """is a nonzero in every instance of the case?"""
        if a.q:
            return not a.p and self.nonzero(El(a.q, (), a.d)) and self.nonzero(self.rr)
        p = a.p
        if not p:
            return False
        for k in self.nz:
            while len(p) > 1:
                g = pgcd(p, k)
                if len(g) < 2:
                    break
                p = pdivmod(p, g)[0]
        if len(p) == 1:
            return True
        for f in self.lemmas():
            # powers of x - x0, x0 not the abscissa of a point of the auxiliary curve
            t = f
            for _ in range(8):
                x, y = self.mul(t, El([1])), a
                c = None
                l, r = pmul(x.p, y.d), pmul(y.p, x.d)
                if len(l) == len(r):
                    c = r[-1] * pow(l[-1], -1, N) % N
                    if padd(r, l, -c % N) == [] or not padd(r, pmul(l, [c]), -1):
                        return True
                t = self.mul(t, f)
        return False

    def lemmas(self):
        return self.dom.lemmas(self)

    def node(self, i):
        if i in self.memo:
            return self.memo[i]
        st = [i]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            o = self.dom.nodes[x]
            k = o[0]
            if k == "k":
                r = El([o[1]] if o[1] else [])
            elif k == "v":
                if o[1] != self.dom.which:
                    raise Unk("value of the other input")
                r = El([0, 1]) if self.u is None else El([self.u] if self.u else [])
            elif k == "r":
                self.setroot(x)
                r = El((), [1])
            else:
                deps = o[1:] if k != "?" else (o[2] if not self.term(o[1]) else o[3],)
                miss = [y for y in deps if y not in self.memo]
                if miss:
                    st += miss
                    continue
                v = [self.memo[y] for y in deps]
                r = self.add(v[0], v[1]) if k == "+" else self.mul(v[0], v[1]) if k == "*" else self.neg(v[0]) if k == "n" else self.inv(v[0]) if k == "i" else v[0]
            self.memo[x] = r
            st.pop()
        return self.memo[i]

    def term(self, t):
        return t & 1 if isinstance(t, int) else T.evaluate(t, self.env)

    def setroot(self, x):
        if self.root == x:
            return
        if self.root is not None:
            raise Unk("more than one root")
        _, a, b = self.dom.nodes[x]
        n, d = self.node(a), self.node(b)
        if n.q or d.q:
            raise Unk("root of a root")
        self.quot = self.mul(n, self.inv(d))
        s = self.env["s%d" % x]
        self.rr = self.quot if s else self.mul(El([self.dom.Z]), self.quot)
        self.root = x


class Dom:
    def __init__(self, consts):
        self.A, self.B, self.Z, self.k = consts
        self.nodes, self.ids, self.enc, self.atoms, self.events = [], {}, {}, {}, []
        self.which = None

    def mk(self, *k):
        n = self.nodes
        if k[0] in "+*n" and all(n[a][0] == "k" for a in k[1:]):
            v = [n[a][1] for a in k[1:]]
            return self.mk("k", (v[0] + v[1] if k[0] == "+" else v[0] * v[1] if k[0] == "*" else -v[0]) % N)
        if k not in self.ids:
            self.ids[k] = len(n)
            n.append(k)
        return self.ids[k]

    def atom(self, kind, node):
        nm = "%s%d" % (kind, node)
        self.atoms[nm] = (kind, node)
        return T.var(nm, 1)

    # ---- memory
    def get(self, e, st, p):
        ws = [e.load_int(st, p + 8 * i, 8) for i in range(5)]
        if isinstance(ws[4], int) and ws[4] == TAG and isinstance(ws[0], int):
            return ws[0]
        if all(isinstance(w, int) for w in ws):
            return self.mk("k", S.unwords(ws) * pow(2**256, -1, N) % N)
        k = tuple(w if isinstance(w, int) else w.id for w in ws[:4])
        if k in self.enc and isinstance(ws[4], int) and ws[4] == 0:
            # the canonical words of a value, taken as an in-memory element
            return self.mk("*", self.enc[k], self.mk("k", pow(2**256, -1, N)))
        raise symex.Unsupported("an element that is neither a constant nor a tracked value")

    def put(self, e, st, p, i):
        o = self.nodes[i]
        for j, w in enumerate(S.words(o[1] * 2**256 % N, 5) if o[0] == "k" else [i, 0, 0, 0, TAG]):
            e.store_int(st, p + 8 * j, 8, w)

    def encode(self, st, i):
        if self.nodes[i][0] == "k":
            return S.words(self.nodes[i][1], 4)
        ws = [T.var("enc%d_%d" % (i, j), 64) for j in range(4)]
        self.enc[tuple(w.id for w in ws)] = i
        c = S.lt_const(ws, N)
        if all(c is not p for p in st.pc):
            st.pc.append(c)
            st.model = None
        return ws

    def hooks(self):
        p = secq.spx("q")

        def op(f):
            def h(e, st, a):
                self.put(e, st, a[0], f(*[self.get(e, st, q) for q in a[1:]]))
                return 0
            return h
        mk = self.mk

        def sel(e, st, a):
            c = a[3] & 1 if isinstance(a[3], int) else T.extract(a[3], 0, 1, a[3].w)
            x, y = self.get(e, st, a[1]), self.get(e, st, a[2])
            self.put(e, st, a[0], (y if c else x) if isinstance(c, int) else x if x == y else mk("?", c, x, y))
            return 0

        def z(e, st, i):
            o = self.nodes[i]
            return int(o[1] == 0) if o[0] == "k" else self.atom("z", i)

        def out(r):
            return r if isinstance(r, int) else T.zext(8, r, 1)

        def isodd(e, st, a):
            i = self.get(e, st, a[0])
            o = self.nodes[i]
            return o[1] & 1 if o[0] == "k" else T.zext(8, self.atom("o", i), 1)

        def ratio(e, st, a):
            i = mk("r", self.get(e, st, a[0]), self.get(e, st, a[1]))
            self.put(e, st, a[2], i)
            e.store_int(st, a[2] + 40, 8, T.zext(64, self.atom("s", i), 1))
            return 0

        def inverse(e, st, a):
            i = self.get(e, st, a[0])
            t = z(e, st, i)
            if isinstance(t, int):
                self.put(e, st, a[1], mk("k", pow(self.nodes[i][1], N - 2, N)))
                e.store_int(st, a[1] + 40, 8, 1 - t)
            else:
                self.put(e, st, a[1], mk("i", i))
                e.store_int(st, a[1] + 40, 8, T.zext(64, T.not_(t), 1))
            return 0

        def wide(e, st, a):
            ws = [e.load_int(st, a[1] + 8 * j, 8) for j in range(8)]
            self.put(e, st, a[0], mk("v", tuple(w if isinstance(w, int) else w.id for w in ws)))
            return 0

        def enc(big):
            def h(e, st, a):
                ws = self.encode(st, self.get(e, st, a[1]))
                if big:
                    ws = [int.from_bytes(w.to_bytes(8, "little"), "big") if isinstance(w, int) else secq.swap(w) for w in reversed(ws)]
                for j, w in enumerate(ws):
                    e.store_int(st, a[0] + 8 * j, 8, w)
                return 0
            return h

        def eq(e, st, a):
            return out(z(e, st, mk("+", self.get(e, st, a[0]), mk("n", self.get(e, st, a[1])))))

        def addp(e, st, a):
            pts = []
            for q in a[1:3]:
                pts.append((self.get(e, st, q), self.get(e, st, q + 40), e.load_int(st, q + 80, 1)))
            st.data["sum"] = st.data.get("sum", ()) + (tuple(pts),)
            n = len(st.data["sum"])
            self.put(e, st, a[0], mk("v", "sumx%d" % n))
            self.put(e, st, a[0] + 40, mk("v", "sumy%d" % n))
            e.store_int(st, a[0] + 80, 1, 0)
            return 0
        return {p + "mul$": op(lambda x, y: mk("*", *sorted((x, y)))), p + "square$": op(lambda x: mk("*", x, x)), p + "add$": op(lambda x, y: mk("+", *sorted((x, y)))),
                p + "double$": op(lambda x: mk("+", x, x)), p + "sub$": op(lambda x, y: mk("+", *sorted((x, mk("n", y))))), p + "neg$": op(lambda x: mk("n", x)),
                p + "cube$": op(lambda x: mk("*", x, mk("*", x, x))),
                p + "conditional_select$": sel, p + "is_zero$": lambda e, st, a: out(z(e, st, self.get(e, st, a[0]))), p + "is_odd$": isodd, p + "ct_eq$": eq,
                p + "from_bytes_wide$": wide, p + "to_be_bytes$": enc(True), p + "to_bytes$": enc(False),
                p + "sqrt_ratio$": lambda e, st, a: symex.Redirect("@model_ratio", a), r"^verif_ratio$": ratio,
                p + "invert$": lambda e, st, a: symex.Redirect("@model_inverse", a), r"^verif_inverse$": inverse,
                r"^primeorder::addp(::<.*>)?$": addp}

    # ---- the specification (RFC 9380: simplified SWU, isogeny map), in the elements of a case
    def spec(self, c):
        K = lambda v: El([v % N] if v % N else [])
        u = El([0, 1]) if c.u is None else El([c.u] if c.u else [])
        zu2 = c.mul(K(self.Z), c.mul(u, u))
        t = c.add(c.mul(zu2, zu2), zu2)
        x1 = c.mul(c.mul(K(-self.B), K(pow(self.A, -1, N))), c.add(K(1), c.inv(t))) if not c.zero(t) else K(self.B * pow(self.Z * self.A, -1, N))
        return u, zu2, x1, c.mul(zu2, x1)

    def g(self, c, x):
        K = lambda v: El([v % N] if v % N else [])
        return c.add(c.add(c.mul(x, c.mul(x, x)), c.mul(K(self.A), x)), K(self.B))

    def iso(self, c, x):
        K = lambda v: El([v % N] if v % N else [])
        x2 = c.mul(x, x)
        x3 = c.mul(x2, x)
        f = lambda a, b, d, e: c.add(c.add(c.mul(a, x3), c.mul(b, x2)), c.add(c.mul(d, x), e))
        k = [K(v) for v in self.k]
        return f(k[0], k[1], k[2], k[3]), f(K(0), K(1), k[4], k[5]), f(k[6], k[7], k[8], k[9]), f(K(1), k[10], k[11], k[12])

    def lemmas(self, c):
        """x - x0 for the zeros x0 of the isogeny's denominators; none is the abscissa of a point"""
        if "lem" not in c.__dict__:
            c.lem = []
            x = c.__dict__.get("xref")
            if x is not None and self.x0 is not None:
                c.lem = [c.add(x, El([-self.x0 % N]))]
        return c.lem


def root(a):
    """a root of a in F_n, or None"""
    a %= N
    if a == 0:
        return 0
    if pow(a, (N - 1) // 2, N) != 1:
        return None
    # Tonelli-Shanks
    s, m = 0, N - 1
    while m % 2 == 0:
        s, m = s + 1, m // 2
    z = next(z for z in range(2, 99) if pow(z, (N - 1) // 2, N) != 1)
    c, t, r, k = pow(z, m, N), pow(a, m, N), pow(a, (m + 1) // 2, N), s
    while t != 1:
        i, w = 0, t
        while w != 1:
            i, w = i + 1, w * w % N
        b = pow(c, 1 << k - i - 1, N)
        r, c, k = r * b % N, b * b % N, i
        t = t * c % N
    return r


def native_spec(consts, b):
    """the specified point of 128 bytes, by numbers: (x, y) or None for the point at infinity"""
    A, B, Z, k = consts
    q = []
    for h in (b[:64], b[64:]):
        u = int.from_bytes(h, "little") % N
        z = Z * u * u % N
        t = (z * z + z) % N
        x = -B * pow(A, -1, N) * (1 + pow(t, -1, N)) % N if t else B * pow(Z * A, -1, N) % N
        g = lambda x: (x**3 + A * x + B) % N
        y = root(g(x))
        if y is None:
            x = z * x % N
            y = root(g(x))
        if y is None:
            return "undefined"
        if y & 1 != u & 1:
            y = -y % N
        xn, xd = k[0] * x**3 + k[1] * x * x + k[2] * x + k[3], x * x + k[4] * x + k[5]
        yn, yd = k[6] * x**3 + k[7] * x * x + k[8] * x + k[9], x**3 + k[10] * x * x + k[11] * x + k[12]
        q.append((xn * pow(xd, -1, N) % N, y * yn * pow(yd, -1, N) % N))
    (a, b), (c, d) = q
    if a == c:
        if (b + d) % N == 0:
            return None
        l = 3 * a * a * pow(2 * b, -1, N) % N
    else:
        l = (d - b) * pow(c - a, -1, N) % N
    x = (l * l - a - c) % N
    return x, (l * (a - x) - b) % N


def poly(l):
    return {i: v for i, v in enumerate(l) if v}


def same(a, b):
    """equality of two elements, decided by z3 over the monomials in u (and the root)"""
    for x, y in ((pmul(a.p, b.d), pmul(b.p, a.d)), (pmul(a.q, b.d), pmul(b.q, a.d))):
        if ff.zquery(poly(x), poly(y), N) != "unsat":
            return False
    return True


def c13(c):
    h = secq.load(c)
    c.bounds += ["none on values: all pairs of field elements, as rational functions over F_n; the exceptional inputs separately"]
    c.assumptions += ["field operations, encodings and byte reduction as decided by C12; inversion and the square-root ratio as decided by C29",
                      "the missing primeorder crate is replaced by a stand-in with textbook affine arithmetic; the sum of the two mapped points is taken to be what it computes",
                      "-1 is the negative of an odd number exactly when the number is even, below an odd modulus"]
    S.Q, S.RI = N, pow(2**256, -1, N)
    F = S.Field(c, h, ["s_uniform_raw", "model_ratio", "model_inverse", "verif_ratio", "verif_inverse", "q_words"], N, "q_words")
    cs = [S.unmont(h.native("s_iso", [k])) for k in range(16)]
    consts = (cs[0], cs[1], cs[2], cs[3:])
    curve(c, h)
    cases = inputs(consts)

    def oracle(w, r):
        b = b"".join(x.to_bytes(8, "little") for x in w)
        want = native_spec(consts, b)
        got = r if r == "panic" else None if r[0] else (S.unwords(r[1:5]), S.unwords(r[5:9]))
        if want == "undefined":
            return "the constants of the map do not define a point for these bytes"
        if got != want:
            return "the bytes hash to %s, the specified point is %s" % (got if got == "panic" else got and [hex(x) for x in got], want and [hex(x) for x in want])

    def done(name, ok, t0, why=None):
        if ok:
            c.obligation(name, "holds", time.time() - t0)
            return
        if name not in tried:
            tried.append(name)
            if len(tried) == 1:
                tried.append(S.try_cases(c, F, "s_uniform", cases, oracle, name))
        c.obligation(name, "violated" if tried[1] else "reduced", time.time() - t0, str(why or "")[:300])
    tried = []
    t0 = time.time()
    D = Dom(consts)
    D.x0 = None
    ws = [T.var("v%d" % k, 64) for k in range(16)]
    nodes = [tuple(w.id for w in ws[8 * k:8 * k + 8]) for k in (0, 1)]
    outs, why = S.run_or_none(F, "s_uniform_raw", ws, 11, hooks=D.hooks(), merge=False)
    lemma(c, D, done)
    if outs is None:
        for nm in ("first", "second"):
            done("%s mapped point" % nm, False, t0, why)
    else:
        for k, nm in ((0, "first"), (1, "second")):
            t0 = time.time()
            D.which = nodes[k]
            try:
                bad = [b for o in outs for b in half(D, o, k)]
            except Exception as ex:
                bad = [repr(ex)]
            done("the %s half of the bytes maps to the specified point, which is on the curve" % nm, not bad, t0, "; ".join(bad[:3]))
        ok = [o for o in outs if o.kind == "ret"]
        good = len(ok) > 0
        for o in ok:
            s = o.state.data.get("sum", ())
            v = o.value
            good = good and len(s) == 1 and v[0] == 0 and all(isinstance(v[j], int) and v[j + 4] == TAG and D.nodes[v[j]] == ("v", n) for j, n in ((1, "sumx1"), (6, "sumy1")))
            good = good and all(isinstance(p[2], int) and p[2] == 0 or smt.solve([x for x in o.state.pc if not isinstance(x, int)] + [T.not_(T.eq(8, p[2], 0))], 20000)[0] == "unsat" for p in s[0])
        done("the result is the sum of the two mapped points", good, t0)
        c.paths += len(outs)
    done("native cross-check: the exceptional and %d other inputs" % (len(cases)), not (tried[1] if len(tried) > 1 else S.try_cases(c, F, "s_uniform", cases, oracle, "hash to curve")), t0)


def half(D, o, k):
    """complaints about one path, as far as the k-th half of the input goes"""
    pc = [p for p in o.state.pc if not isinstance(p, int)]
    mine = {}

    def cone(i):
        seen, st = set(), [i]
        vs = set()
        ats = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = D.nodes[x]
            if n[0] == "v":
                vs.add(n[1])
            elif n[0] == "r":
                ats.add("s%d" % x)
                st += n[1:]
            elif n[0] == "?":
                st += n[2:]
                for v in T.variables([n[1]]):
                    if v not in ats:
                        ats.add(v)
                        st.append(D.atoms[v][1])
            elif n[0] != "k":
                st += n[1:]
        return vs, ats
    for nm, (kind, i) in D.atoms.items():
        vs, ats = cone(i)
        if vs == {D.which}:
            mine[nm] = (kind, i)
    cond = []
    for p in pc:
        vs = set(T.variables([p]))
        if vs and vs <= set(mine):
            cond.append(p)
    s = o.state.data.get("sum", ())
    if o.kind == "ret":
        if len(s) != 1:
            return ["%d point additions" % len(s)]
        X, Y = s[0][k][0], s[0][k][1]
        for i in (X, Y):
            if cone(i)[0] - {D.which}:
                return ["a mapped point depends on both halves"]
    else:
        # a panic: its last condition must be about one half; that half's cases exclude it
        vs = [set(T.variables([p])) & set(D.atoms) for p in pc]
        last = [v for v in vs if v]
        if last and not last[-1] <= set(mine):
            return []
        X = Y = None
    need = set(itertools.chain.from_iterable(T.variables([p]) for p in cond))
    for i in (X, Y):
        if i is not None:
            need |= cone(i)[1]
    order, st = [], sorted(need, key=lambda n: mine[n][1])
    full = set()

    def visit(n):
        if n in full:
            return
        full.add(n)
        for m in sorted(cone(mine[n][1])[1], key=lambda a: mine[a][1]):
            if m != n:
                visit(m)
        order.append(n)
    for n in st:
        visit(n)
    bad = []
    for u, nz in us(D):
        search(D, Case(D, u, nz), order, mine, cond, X, Y, bad)
    return bad


def us(D):
    """the generic input (u nonzero, Z u^2 + 1 nonzero) and the exceptional ones"""
    r = [(None, [[0, 1], [1, 0, D.Z]]), (0, [])]
    w = root(-pow(D.Z, -1, N))
    if w is not None:
        r += [(w, []), (N - w, [])]
    return r


def search(D, c0, order, mine, cond, X, Y, bad, k=0):
    """all consistent assignments of the atoms, in order of dependence"""
    if len(bad) > 3:
        return
    for p in cond:
        if set(T.variables([p])) <= set(c0.env) and not T.evaluate(p, c0.env):
            return
    if k == len(order):
        if X is None:
            bad.append("a panic is not excluded: u=%s %r" % (c0.u, c0.env))
        else:
            b = compare(D, c0, X, Y)
            if b:
                bad.append("%s (u=%s %r)" % (b, c0.u, c0.env))
        return
    nm = order[k]
    kind, i = mine[nm]
    for v in possible(D, c0, kind, i):
        c = Case(D, c0.u, c0.nz)
        c.__dict__.update(c0.__dict__)
        c.env, c.memo = dict(c0.env), dict(c0.memo)
        c.env[nm] = v
        if kind == "s":
            reference(D, c, i)
        if kind == "o" and c0.note:
            c.par = dict(c0.__dict__.get("par", {}))
            c.par[c0.note[0]] = v ^ c0.note[1]
        search(D, c, order, mine, cond, X, Y, bad, k + 1)


def reference(D, c, i):
    """once the squareness is chosen: the specified point of the auxiliary curve, up to the sign of y"""
    u, zu2, x1, x2 = D.spec(c)
    c.setroot(i)
    if not same(c.quot, D.g(c, x1)):
        raise Unk("the square root taken is not that of g(x1)")
    s = c.env["s%d" % i]
    c.xref = x1 if s else x2
    c.__dict__.pop("lem", None)
    # y up to sign: the root r of g(x1), or (Z u^2) u r with r^2 = Z g(x1)
    c.yref = El((), [1]) if s else c.mul(c.mul(zu2, u), El((), [1]))
    if not same(c.mul(c.yref, c.yref), D.g(c, c.xref)):
        raise Unk("the specified point is not on the auxiliary curve")


def possible(D, c, kind, i):
    c.note = None
    if kind == "s":
        n, d = c.node(D.nodes[i][1]), c.node(D.nodes[i][2])
        q = c.mul(n, c.inv(d))
        if not q.q and len(q.p) < 2 and len(q.d) == 1:
            v = (q.p[0] if q.p else 0) * pow(q.d[0], -1, N) % N
            return [int(v == 0 or pow(v, (N - 1) // 2, N) == 1)]
        return [1, 0]
    v = c.node(i)
    if kind == "z":
        if c.zero(v):
            return [1]
        return [0] if c.nonzero(v) else [0, 1]
    # parity
    if not v.q and len(v.p) < 2 and len(v.d) == 1:
        return [(v.p[0] if v.p else 0) * pow(v.d[0], -1, N) % N & 1]
    u = El([0, 1]) if c.u is None else El([c.u])
    for nm, ref in (("u", u), ("y", c.__dict__.get("yref"))):
        for sg in (0, 1):
            if ref is not None and same(v, c.neg(ref) if sg else ref):
                c.note = (nm, sg)
                par = c.__dict__.get("par", {})
                return [par[nm] ^ sg] if nm in par else [0, 1]
    return [0, 1]


def compare(D, c, X, Y):
    if "xref" not in c.__dict__:
        return "no square root was taken"
    xn, xd, yn, yd = D.iso(c, c.xref)
    x = c.mul(xn, c.inv(xd))
    par = dict(c.__dict__.get("par", {}))
    if c.u is not None:
        par["u"] = c.u & 1
    if not same(c.node(X), x):
        return "x differs from the specified one"
    y = c.mul(c.yref, c.mul(yn, c.inv(yd)))
    b = El([7])
    if not same(c.mul(y, y), c.add(c.mul(x, c.mul(x, x)), b)):
        return "the specified point is not on the curve"
    v = c.node(Y)
    if c.zero(v) and c.zero(y):
        return None
    if "u" not in par or "y" not in par:
        return "the sign does not depend on both parities"
    want = y if par["u"] == par["y"] else c.neg(y)
    if not same(v, want):
        return "y differs from the specified one" + (" in sign" if same(v, c.neg(want)) else "")


def lemma(c, D, done):
    """the isogeny's denominators vanish at one abscissa, which no point of the auxiliary curve has"""
    t0 = time.time()
    k = D.k
    x0 = -k[4] * pow(2, -1, N) % N
    ok = ff.zquery(poly([k[5], k[4], 1]), poly(pmul([-x0 % N, 1], [-x0 % N, 1])), N) == "unsat"
    ok = ok and ff.zquery(poly([k[12], k[11], k[10], 1]), poly(pmul(pmul([-x0 % N, 1], [-x0 % N, 1]), [-x0 % N, 1])), N) == "unsat"
    g = (x0**3 + D.A * x0 + D.B) % N
    ok = ok and g != 0 and pow(g, (N - 1) // 2, N) != 1
    if ok:
        D.x0 = x0
    done("the isogeny has no pole on the auxiliary curve", ok, t0)
    t0 = time.time()
    # the isogeny maps the auxiliary curve into the curve: identity in x (with u for x), y^2 = g(x)
    cc = Case(D, None, [])
    cc.nonzero = lambda a: bool(a.p)
    x = El([0, 1])
    xn, xd, yn, yd = D.iso(cc, x)
    X, Yr = cc.mul(xn, cc.inv(xd)), cc.mul(yn, cc.inv(yd))
    ok = same(cc.mul(D.g(cc, x), cc.mul(Yr, Yr)), cc.add(cc.mul(X, cc.mul(X, X)), El([7])))
    done("the isogeny maps the auxiliary curve to the curve", ok, t0)
    t0 = time.time()
    Z = D.Z
    done("Z is not a square", pow(Z, (N - 1) // 2, N) == N - 1, t0)


def curve(c, h):
    w = h.native("s_curve", [])
    a, b, x, y = (S.unmont(w[5 * k:5 * k + 5]) for k in range(4))
    bad = None
    if (a, b) != (0, 7):
        bad = "the declared curve equation has a=%#x, b=%#x" % (a, b)
    elif (y * y - x**3 - 7) % N:
        bad = "the declared generator is not on the curve"
    o = h.native("s_order", [])
    if not bad and (S.unwords(o[:4]) != secq.P or S.unwords(o[4:]) != secq.P):
        bad = "the declared group order is %#x" % S.unwords(o[:4])
    if not bad and mul((x, y), secq.P) is not None:
        bad = "the declared generator does not have the group order"
    if bad:
        c.violation(bad, {"entry": "s_curve"})
    c.obligation("curve equation, generator and order", "violated" if bad else "holds")


def mul(p, k):
    r = None
    for b in bin(k)[2:]:
        r = addn(r, r)
        if b == "1":
            r = addn(r, p)
    return r


def addn(p, q):
    if p is None or q is None:
        return p or q
    (a, b), (c, d) = p, q
    if a == c:
        if (b + d) % N == 0:
            return None
        l = 3 * a * a * pow(2 * b, -1, N) % N
    else:
        l = (d - b) * pow(c - a, -1, N) % N
    x = (l * l - a - c) % N
    return x, (l * (a - x) - b) % N


def inputs(consts):
    A, B, Z, k = consts
    us = [0, 1, 2, 3, N - 1, N - 2, N, N + 1, 2**512 - 1]
    w = root(-pow(Z, -1, N))
    if w is not None:
        us += [w, N - w]
    us += [RNG.randrange(2**512) for _ in range(12)]
    r = []
    for a in us:
        for b in us[:3] + [us[-1], a]:
            r.append(S.words(a, 8) + S.words(b, 8))
    return r


# ------------------------------------------------------------------ C31: the group operators
def c31(c):
    h = secq.load(c)
    c.bounds += ["none on operands: the coordinates and scalars are arbitrary; lists of 0 to 3 points"]
    c.assumptions += ["point addition and scalar multiplication themselves belong to the primeorder crate (a git dependency that is not available); its stand-in is called with the operands checked here",
                      "field operations as decided by C12"]
    S.Q, S.RI = N, pow(2**256, -1, N)
    Pt, Qt = (1, 0), (0, 1)
    exp = {}
    for s in ("", "_r", "_a", "_ar"):
        exp["g_add" + s] = (1, 1)
        exp["g_sub" + s] = (1, -1)
    exp.update({"g_neg": (-1, 0), "g_double": (2, 0), "g_from": (1, 0), "g_identity": (0, 0), "g_identity_tr": (0, 0), "g_default": (0, 0), "g_generator": "G", "g_generator_tr": "G"})
    for k, v in enumerate(((0, 0), (1, 0), (1, 1), (1, 2))):
        exp["g_sum%d" % k] = exp["g_sum%dr" % k] = v
    for s in ("", "_s", "_r", "_a", "_ar"):
        exp["g_mul" + s] = "kP"
    F = S.Field(c, h, list(exp) + ["g_is_identity", "q_words"], N, "q_words")
    G = tuple(S.unmont(w) for w in (h.native("s_curve", [])[10:15], h.native("s_curve", [])[15:20]))
    kw = [T.var("k%d" % j, 64) for j in range(4)]
    pool = [G]
    for _ in range(5):
        pool.append(addn(pool[-1], G))
    big = mul(G, 0x1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcdef)
    pool.append(big)
    enc = lambda p: [w for v in p for w in S.words(S.mont(v), 5)] + [0] if p else S.words(0, 10) + [1]
    cases2 = [enc(p) + enc(q) for p in pool + [None] for q in pool + [None] + [(pool[0][0], -pool[0][1] % N)]]
    ks = [0, 1, 2, 3, secq.P - 1, secq.P // 2, 2**255 + 12345]
    for f, want in exp.items():
        t0 = time.time()
        D = Dom((0, 7, 0, ()))
        table = {}
        nm = {}
        for k, x in enumerate("PQ"):
            nm[x] = (D.mk("v", "x" + x), D.mk("v", "y" + x))
            table[nm[x]] = (1, 0) if k == 0 else (0, 1)

        def point(e, st, p, nm=nm, D=D, table=table):
            inf = e.load_int(st, p + 80, 1)
            if not isinstance(inf, int):
                raise symex.Unsupported("symbolic infinity flag")
            if inf:
                return (0, 0)
            return look(D, table, D.get(e, st, p), D.get(e, st, p + 40))

        def store(e, st, p, v, D=D, table=table):
            n = len(D.nodes)
            k = (D.mk("v", "sx%d" % n), D.mk("v", "sy%d" % n))
            table[k] = v
            D.put(e, st, p, k[0])
            D.put(e, st, p + 40, k[1])
            e.store_int(st, p + 80, 1, 1 if v == (0, 0) else 0)
            return 0

        def addp(e, st, a):
            x, y = point(e, st, a[1]), point(e, st, a[2])
            if "str" in (type(x).__name__, type(y).__name__):
                if (0, 0) in (x, y):
                    return store(e, st, a[0], x if y == (0, 0) else y)
                raise symex.Unsupported("sum with a multiple")
            return store(e, st, a[0], (x[0] + y[0], x[1] + y[1]))

        def mulp(e, st, a):
            x = point(e, st, a[1])
            k = [e.load_int(st, a[2] + 8 * j, 8) for j in range(4)]
            return store(e, st, a[0], "kP" if x == (1, 0) and all(p is q for p, q in zip(k, kw)) else "?")
        hooks = D.hooks()
        hooks.pop(r"^primeorder::addp(::<.*>)?$")
        hooks[r"^primeorder::addp(::<.*>)?$"] = addp
        hooks[r"^primeorder::mulp(::<.*>)?$"] = mulp
        ws = []
        if f not in ("g_identity", "g_identity_tr", "g_default", "g_generator", "g_generator_tr"):
            for x in "PQ":
                for i in nm[x]:
                    ws += [i, 0, 0, 0, TAG]
                ws.append(0)
        if want == "kP":
            ws += kw
        outs, why = S.run_or_none(F, f, ws, 11, hooks=hooks, merge=False)
        good = outs is not None and len(outs) > 0
        for o in outs or ():
            if o.kind != "ret" or not isinstance(o.value[10], int):
                good = False
                continue
            if o.value[10]:
                r = (0, 0)
            elif all(isinstance(w, int) for w in o.value) and o.value[4] != TAG:
                r = "G" if (S.unmont(o.value[:5]), S.unmont(o.value[5:10])) == G else "?"
            else:
                r = look(D, table, *(o.value[j] if o.value[j + 4] == TAG else -1 for j in (0, 5)))
            good = good and r == want
        c.paths += len(outs or ())
        if want in ("G", "kP"):
            cs = [enc(p) + enc(G) + S.words(k, 4) for p in pool for k in ks] if want == "kP" else [[]]
        else:
            cs = cases2 if ws else [[]]

        def oracle(w, r, want=want):
            P1, Q1 = (dec(w[11 * k:11 * k + 11]) if w else None for k in (0, 1))
            e = G if want == "G" else mul(P1, S.unwords(w[22:])) if want == "kP" and P1 else None
            if isinstance(want, tuple):
                for p, n in ((P1, want[0]), (Q1, want[1])):
                    for _ in range(abs(n)):
                        e = addn(e, p if n > 0 or p is None else (p[0], -p[1] % N))
            if r == "panic" or dec(r) != e:
                return "gives %s" % (r if r == "panic" else dec(r),)
        name = "%s: %s" % (f, {"G": "the generator", "kP": "the multiple by the scalar"}.get(want, "%d P %+d Q" % want if isinstance(want, tuple) else want))
        # equality of integer combinations is decided by the solver for all coefficients' values
        if good and isinstance(want, tuple):
            good = ff.zquery({1: want[0] % N, 2: want[1] % N}, {1: r[0] % N, 2: r[1] % N}, N) == "unsat"
        if good:
            c.obligation(name, "holds", time.time() - t0)
        elif S.try_cases(c, F, f, cs, oracle, name):
            c.obligation(name, "violated")
        else:
            c.obligation(name, "reduced", time.time() - t0, str(why or "")[:200])
    # is_identity: the infinity flag
    inf = T.var("inf", 64)
    ws = [1, 0, 0, 0, 0, 2, 0, 0, 0, 0, T.and_(64, inf, 1)] + [0] * 11
    outs, why = S.run_or_none(F, "g_is_identity", ws, 1)
    cl = None if outs is None else [(o.state.pc, T.eq(64, o.value[0], T.and_(64, inf, 1)) if o.kind == "ret" else 0) for o in outs]
    S.decide(c, F, "g_is_identity: exactly the point at infinity", cl, lambda m: cases2, cases2, "g_is_identity", lambda w, r: None if r != "panic" and r[0] == w[10] else "gives %s" % r, why)


def look(D, table, x, y):
    if (x, y) in table:
        return table[(x, y)]
    if isinstance(y, int) and 0 <= y < len(D.nodes) and D.nodes[y][0] == "n" and (x, D.nodes[y][1]) in table:
        v = table[(x, D.nodes[y][1])]
        return (-v[0], -v[1]) if isinstance(v, tuple) else "?"
    return "?"


def dec(w):
    return None if w[10] else (S.unmont(w[:5]), S.unmont(w[5:10]))
