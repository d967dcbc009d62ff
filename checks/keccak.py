"""C35: the Ethereum address computed in the circuit is Keccak-256 of the public key.

The circom templates are elaborated with symbolic bits: every signal becomes a Boolean term over the inputs (the value any
satisfying witness must have, all signals being defined by constraints), and z3 decides equality with the specification."""
import hashlib
import os
import random
import time
import circom
import circuits as ck
import ff
import fieldcase as fc
import vlib
import z3
from circom import P, Poly, Circuit, Program, CircomError

QUICK = vlib.TIER == "quick"
MAIN = os.path.join(vlib.REPO, "packages/circuits/eff_ecdsa_membership/to_address/zk-identity/eth.circom")


# ---------------------------------------------------------------- Keccak, as specified (FIPS 202, with the original padding)
def rho_offsets():
    o, x, y = {(0, 0): 0}, 1, 0
    for t in range(24):
        o[x, y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return o


def round_constants():
    r, bits = 1, []
    for _ in range(255):
        bits.append(r & 1)
        r <<= 1
        if r & 256:
            r ^= 0x171
    return [[(z, bits[(j + 7 * ir) % 255]) for j, z in enumerate((0, 1, 3, 7, 15, 31, 63))] for ir in range(24)]


RHO, RCS = rho_offsets(), round_constants()


def spec_round(ir, a, xor, land, one):
    """a: 1600 bits, lane x + 5 y at 64 (x + 5 y)"""
    A = lambda x, y, z: a[64 * (x % 5 + 5 * (y % 5)) + z % 64]
    C = {}
    for x in range(5):
        for z in range(64):
            v = A(x, 0, z)
            for y in range(1, 5):
                v = xor(v, A(x, y, z))
            C[x, z] = v
    B = {}
    for x in range(5):
        for z in range(64):
            d = xor(C[(x - 1) % 5, z], C[(x + 1) % 5, (z - 1) % 64])
            for y in range(5):
                B[y, (2 * x + 3 * y) % 5, (z + RHO[x, y]) % 64] = xor(A(x, y, z), d)
    out = [None] * 1600
    for x in range(5):
        for y in range(5):
            for z in range(64):
                out[64 * (x + 5 * y) + z] = xor(B[x, y, z], land(xor(B[(x + 1) % 5, y, z], one), B[(x + 2) % 5, y, z]))
    for z, b in RCS[ir]:
        if b:
            out[z] = xor(out[z], one)
    return out


_x, _a = (lambda a, b: a ^ b), (lambda a, b: a & b)


def spec_f(s):
    for i in range(24):
        s = spec_round(i, s, _x, _a, 1)
    return s


def spec_keccak(bits, nout, domain=1):
    assert len(bits) <= 1080 and len(bits) % 8 == 0
    s = list(bits) + [domain >> i & 1 for i in range(8)]
    s += [0] * (1600 - len(s))
    s[1087] ^= 1
    return spec_f(s)[:nout]


def tobits(b): return [x >> i & 1 for x in b for i in range(8)]


def frombits(v): return bytes(sum(v[8 * i + j] << j for j in range(8)) for i in range(len(v) // 8))


def invert_round(ir, s, lin={}):
    """the state a round maps to s"""
    s = list(s)
    for z, b in RCS[ir]:
        s[z] ^= b
    tab = {}
    for v in range(32):
        r = [v >> i & 1 for i in range(5)]
        tab[tuple(r[x] ^ ((r[(x + 1) % 5] ^ 1) & r[(x + 2) % 5]) for x in range(5))] = r
    B = {}
    for y in range(5):
        for z in range(64):
            r = tab[tuple(s[64 * (x + 5 * y) + z] for x in range(5))]
            for x in range(5):
                B[x, y, z] = r[x]
    t = [0] * 1600
    for x in range(5):
        for y in range(5):
            for z in range(64):
                t[64 * (x + 5 * y) + z] = B[y, (2 * x + 3 * y) % 5, (z + RHO[x, y]) % 64]
    # theta: t[x,y,z] = a[x,y,z] + d[x,z]; column parities of a from those of t (320 unknowns)
    if not lin:
        rows = []
        for x in range(5):
            for z in range(64):
                v = (1 << (64 * x + z)) ^ (1 << (64 * ((x - 1) % 5) + z)) ^ (1 << (64 * ((x + 1) % 5) + (z - 1) % 64))
                rows.append([v, 1 << (64 * x + z)])
        for c in range(320):
            k = next(i for i in range(c, 320) if rows[i][0] >> c & 1)
            rows[c], rows[k] = rows[k], rows[c]
            for i in range(320):
                if i != c and rows[i][0] >> c & 1:
                    rows[i][0] ^= rows[c][0]
                    rows[i][1] ^= rows[c][1]
        lin["m"] = [r[1] for r in rows]
    par = 0
    for x in range(5):
        for z in range(64):
            p = 0
            for y in range(5):
                p ^= t[64 * (x + 5 * y) + z]
            par |= p << (64 * x + z)
    c = [bin(m & par).count("1") & 1 for m in lin["m"]]
    for x in range(5):
        for y in range(5):
            for z in range(64):
                t[64 * (x + 5 * y) + z] ^= c[64 * ((x - 1) % 5) + z] ^ c[64 * ((x + 1) % 5) + (z - 1) % 64]
    return t


# ---------------------------------------------------------------- Boolean terms
class Bits:
    def __init__(self):
        self.t = [("c", 0, 0), ("c", 1, 0)]
        self.h = {}
        self.z = {}

    def mk(self, k):
        n = self.h.get(k)
        if n is None:
            n = self.h[k] = len(self.t)
            self.t.append(k)
        return n

    def var(self, name): return self.mk(("v", name, 0))

    def xor(self, a, b):
        if a == b: return 0
        if a == 0: return b
        if b == 0: return a
        return self.mk(("x", min(a, b), max(a, b)))

    def land(self, a, b):
        if a == b: return a
        if a == 0 or b == 0: return 0
        if a == 1: return b
        if b == 1: return a
        return self.mk(("a", min(a, b), max(a, b)))

    def cone(self, roots):
        seen, st = set(), list(roots)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            o, a, b = self.t[n]
            if o in "xa":
                st += [a, b]
        return sorted(seen)

    def z3(self, roots):
        for n in self.cone([r for r in roots if r not in self.z]):
            if n in self.z:
                continue
            o, a, b = self.t[n]
            self.z[n] = z3.BoolVal(bool(a)) if o == "c" else z3.Bool(str(a)) if o == "v" else z3.Xor(self.z[a], self.z[b]) if o == "x" else z3.And(self.z[a], self.z[b])
        return [self.z[r] for r in roots]

    def eval(self, roots, env):
        v = {}
        for n in self.cone(roots):
            o, a, b = self.t[n]
            v[n] = a if o == "c" else (env[a] if a in env or not isinstance(a, tuple) else random.getrandbits(1)) if o == "v" else v[a] ^ v[b] if o == "x" else v[a] & v[b]
        return [v[r] for r in roots]


GATE2 = {"XOR": [0, 1, 1, 0], "AND": [0, 0, 0, 1], "OR": [0, 1, 1, 1], "NAND": [1, 1, 1, 0], "NOR": [1, 0, 0, 0]}
SIG = fc.SIG
LIB = {n: SIG([("a", []), ("b", [])], [("out", [])]) for n in GATE2}
LIB.update({
    "NOT": SIG([("in", [])], [("out", [])]), "ShR": SIG([("in", lambda n, r: [n])], [("out", lambda n, r: [n])]),
    "Xor3": SIG([("a", lambda n: [n]), ("b", lambda n: [n]), ("c", lambda n: [n])], [("out", lambda n: [n])]),
    "Num2Bits": fc.LIB["Num2Bits"], "Bits2Num": fc.LIB["Bits2Num"],
})


class NotBits(Exception):
    pass


class Run:
    """evaluate a template over symbolic bits; mods: template name -> (signature, function(args, {input: [nodes]}) -> {output: [nodes]})"""

    def __init__(self, B, prog, tname, args, inputs, mods=None):
        self.B, self.mods = B, mods or {}
        ab = {n: f for n, f in LIB.items() if n not in prog.tem}
        ab.update({n: m[0] for n, m in self.mods.items()})
        ab.pop(tname, None)
        self.circ = c = Circuit(prog, tname, args, abstract=ab)
        self.val, self.of = {}, {}
        for k in c.comps:
            for n, kd in k.kind.items():
                if kd == "output":
                    for s in circom.flat(k.sig[n]):
                        self.of[c.signame(s)] = k
        self.defs = dict(c.defs)
        self.cons = list(c.cons)
        free = []
        for n in c.hints:
            for i, (p, w) in enumerate(self.cons):
                if (n,) in p.d and not any(n in m and m != (n,) for m in p.d):
                    k = pow(p.d[(n,)], P - 2, P)
                    self.defs[n] = Poly({m: -v * k % P for m, v in p.d.items() if m != (n,)})
                    del self.cons[i]
                    break
            else:
                free.append(n)      # chosen by the prover
        for n, vs in inputs.items():
            ss = circom.flat(c.main.sig[n])
            if len(ss) != len(vs):
                raise NotBits("%s has %d elements" % (n, len(ss)))
            for s, v in zip(ss, vs):
                self.val[c.signame(s)] = v
        for n in free:
            self.val.setdefault(n, B.var(("free", n)))
        self.free = free

    def out(self, name):
        ns = [self.circ.signame(s) for s in circom.flat(self.circ.main.sig[name])]
        self.solve(ns)
        return [self.val[n] for n in ns]

    def needs(self, n):
        if n in self.of:
            k = self.of[n]
            return [self.circ.signame(s) for m, kd in k.kind.items() if kd == "input" for s in circom.flat(k.sig[m])]
        if n not in self.defs:
            raise NotBits("%s has no value" % n)
        return self.defs[n].vars()

    def solve(self, names):
        st = list(names)
        open_ = set()
        while st:
            n = st[-1]
            if n in self.val:
                st.pop()
                continue
            todo = [m for m in self.needs(n) if m not in self.val]
            if todo:
                if n in open_:
                    raise NotBits("circular definition of " + n)
                open_.add(n)
                st += todo
                continue
            st.pop()
            open_.discard(n)
            if n in self.of:
                self.comp(self.of[n])
            else:
                self.val[n] = self.poly(self.defs[n])

    def poly(self, p):
        """the value of a polynomial of the signals: a bit, or a polynomial of bits"""
        d = p.d
        if len(d) == 1:
            (m, k), = d.items()
            if m == () and k in (0, 1):
                return k
            if len(m) == 1 and k == 1:
                return self.val[m[0]]
        if not d:
            return 0
        vs = sorted(p.vars())
        vals = [self.val[v] for v in vs]
        if any(isinstance(v, Poly) for v in vals):
            q = Poly.of(0)
            for m, k in d.items():
                t = Poly.of(k)
                for v in m:
                    w = self.val[v]
                    t = t * (w if isinstance(w, Poly) else Poly.var(w))
                q = q + t
            return q
        ns = sorted({v for v in vals if v > 1})
        if len(ns) <= 8:
            tab = []
            for a in range(1 << len(ns)):
                e = {0: 0, 1: 1}
                e.update({n: a >> i & 1 for i, n in enumerate(ns)})
                x = 0
                for m, k in d.items():
                    for v in m:
                        k = k * e[self.val[v]]
                    x += k
                tab.append(x % P)
            if all(x < 2 for x in tab):
                return self.table(ns, tab)
        q = {}
        for m, k in d.items():
            m = [self.val[v] for v in m]
            if 0 in m:
                continue
            m = tuple(sorted({v for v in m if v > 1}))
            q[m] = q.get(m, 0) + k
        return Poly(q)

    def table(self, ns, tab):
        tab = list(tab)
        for i in range(len(ns)):
            for a in range(len(tab)):
                if a >> i & 1:
                    tab[a] ^= tab[a ^ (1 << i)]
        r = 0
        for a, x in enumerate(tab):
            if x:
                t = 1
                for i, n in enumerate(ns):
                    if a >> i & 1:
                        t = self.B.land(t, n)
                r = self.B.xor(r, t)
        return r

    def comp(self, k):
        c, B = self.circ, self.B
        get = lambda n: [self.val[c.signame(s)] for s in circom.flat(k.sig[n])]
        ins = {n: get(n) for n, kd in k.kind.items() if kd == "input"}
        if k.tname != "Num2Bits" and any(isinstance(v, Poly) for l in ins.values() for v in l):
            raise NotBits("%s is given a value that is not a bit" % k.name)
        t = k.tname
        if t in self.mods:
            res = self.mods[t][1](tuple(k.args), ins)
        elif t in GATE2:
            a, b = ins["a"][0], ins["b"][0]
            g = GATE2[t]
            m = [g[0], g[1] ^ g[0], g[2] ^ g[0], g[0] ^ g[1] ^ g[2] ^ g[3]]
            r = m[0]
            for x, y in ((m[1], b), (m[2], a), (m[3], B.land(a, b))):
                if x:
                    r = B.xor(r, y)
            res = {"out": [r]}
        elif t == "NOT":
            res = {"out": [B.xor(ins["in"][0], 1)]}
        elif t == "ShR":
            n, r = k.args
            res = {"out": [ins["in"][i + r] if i + r < n else 0 for i in range(n)]}
        elif t == "Xor3":
            res = {"out": [B.xor(B.xor(a, b), x) for a, b, x in zip(ins["a"], ins["b"], ins["c"])]}
        elif t == "Bits2Num":
            q = {}
            for i, v in enumerate(ins["in"]):
                if v:
                    m = (v,) if v > 1 else ()
                    q[m] = q.get(m, 0) + 2**i
            res = {"out": [Poly({m: x % P for m, x in q.items()})]}
        elif t == "Num2Bits":
            v = ins["in"][0]
            nm = repr(v) if isinstance(v, Poly) else str(B.t[v][1])
            res = {"out": [B.var("%s.%d" % (nm, i)) for i in range(k.args[0])]}
        else:
            raise NotBits("component " + t)
        for n, vs in res.items():
            for s, v in zip(circom.flat(k.sig[n]), vs):
                self.val[c.signame(s)] = v

    def checks(self):
        """constraints that do not hold by themselves"""
        bad = []
        for p, w in self.cons:
            self.solve(p.vars())
            q = self.poly(p)
            if q != 0 and not (isinstance(q, Poly) and not q.d):
                bad.append(w)
        return bad


class UF:
    """a template standing for a function of its arguments and inputs"""
    def __init__(self, B, name, ins, outs):
        self.B, self.name, self.ins, self.outs, self.k = B, name, ins, outs, {}

    def dims(self, which, args): return [(n, d(*args) if callable(d) else d) for n, d in which]

    def sig(self, *args):
        return dict([(n, ("input", d)) for n, d in self.dims(self.ins, args)] + [(n, ("output", d)) for n, d in self.dims(self.outs, args)])

    def __call__(self, args, ins):
        key = args + tuple(tuple(ins[n]) for n, _ in self.ins)
        i = self.k.setdefault(key, len(self.k))
        return {n: [self.B.var("%s#%d.%s[%d]" % (self.name, i, n, j)) for j in range(d[0] if d else 1)] for n, d in self.dims(self.outs, args)}


SIZES = {
    "KeccakfRound": ([("in", [1600])], [("out", [1600])]), "Keccakf": ([("in", [1600])], [("out", [1600])]),
    "Keccak": ([("in", lambda n, m: [n])], [("out", lambda n, m: [m])]),
}
PROG = None


def prog():
    global PROG
    if PROG is None:
        try:
            PROG = Program(MAIN)
        except (OSError, CircomError) as e:
            raise vlib.Broken("eth.circom: %s" % e)
    return PROG


def has(n): return n in prog().tem


def decide(B, got, want, group=64):
    """-> None, or an assignment on which the two differ (by z3)"""
    for i in range(0, len(want), group):
        g, w = B.z3(got[i:i + group]), B.z3(want[i:i + group])
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(z3.Or([z3.Xor(a, b) for a, b in zip(g, w)]))
        t0 = time.time()
        r = s.check()
        ff.STATS["queries"] += 1
        ff.STATS["solver_s"] += time.time() - t0
        ff.STATS[str(r)] += 1
        if r == z3.unknown:
            raise NotBits("the solver gave no answer")
        if r == z3.sat:
            m = s.model()
            return {d.name(): int(z3.is_true(m[d])) for d in m.decls()}
    return None


def one_round(r):
    """KeccakfRound(r) against the specified round -> (verdict, counterexample, stats)"""
    t0 = time.time()
    B = Bits()
    v = [B.var("s%d" % i) for i in range(1600)]
    try:
        run = Run(B, prog(), "KeccakfRound", [r], {"in": v})
        got = run.out("out")
        if any(isinstance(x, Poly) for x in got):
            raise NotBits("an output is not a bit")
        bad = run.checks()
        if bad:
            return "reduced", "constraints that need not hold: %s" % bad[:2], {}
        ce = decide(B, got, spec_round(r, v, B.xor, B.land, 1))
    except (NotBits, CircomError) as e:
        return "reduced", str(e), {}
    st = {"defs": len(run.defs), "tem": sorted(run.circ.templates), "s": time.time() - t0}
    if ce is None:
        return "holds", None, st
    return "differs", [ce.get("s%d" % i, 0) for i in range(1600)], st


# ---------------------------------------------------------------- running the templates on numbers
class Concrete:
    def __init__(self):
        self.cache, self.free = {}, []

    def dag(self, name, args):
        k = (name,) + tuple(args)
        if k not in self.cache:
            B = Bits()
            mods = {}
            sub = {"Keccakf": ["KeccakfRound"], "Keccak": ["Keccakf"], "PubkeyToAddress": ["Keccak"]}.get(name, [])
            for s in sub:
                if has(s):
                    u = UF(B, s, *SIZES[s])
                    calls = []
                    mods[s] = (u.sig, lambda a, i, u=u, s=s, calls=calls: self.call(B, u, s, a, i))
            self.calls = []
            n = {"KeccakfRound": 1600, "Keccakf": 1600, "Keccak": args[0] if args else 0, "PubkeyToAddress": 512}[name]
            inn = "pubkeyBits" if name == "PubkeyToAddress" else "in"
            saved, self.calls = getattr(self, "calls", None), []
            run = Run(B, prog(), name, list(args), {inn: [B.var(i) for i in range(n)]}, mods)
            out = run.out("address" if name == "PubkeyToAddress" else "out")
            if run.free and run.checks():
                raise NotBits("constraints that need not hold")
            self.free = self.free or run.free
            self.cache[k] = (B, out, self.calls)
            self.calls = saved
        return self.cache[k]

    def call(self, B, u, s, a, ins):
        o = u(a, ins)
        self.calls.append((s, a, ins["in"], o["out"]))
        return o

    def __call__(self, name, args, bits):
        B, out, calls = self.dag(name, args)
        env = dict(enumerate(bits))
        # calls are recorded in the order they are evaluated, so the inputs of each are known
        for s, a, i, o in calls:
            r = self(s, a, B.eval(i, env))
            for n, b in zip(o, r):
                env[B.t[n][1]] = b
        if len(out) == 1 and isinstance(out[0], Poly):
            q, ns = out[0], sorted({v for m in out[0].d for v in m})
            e = dict(zip(ns, B.eval(ns, env)))
            x = 0
            for m, k in q.d.items():
                for v in m:
                    k *= e[v]
                x += k
            return x % P
        if name == "PubkeyToAddress":
            return B.eval(out, env)[0]
        return B.eval(out, env)


def address(x, y):
    d = frombits(spec_keccak(tobits(x.to_bytes(32, "big") + y.to_bytes(32, "big")), 256))
    return int.from_bytes(d[12:], "big")


def confirm(c, what, state=None, sizes=()):
    """a failing run of the templates, from inputs"""
    rng = random.Random(vlib.SEED)
    random.seed(vlib.SEED)
    con = Concrete()

    def info(d):
        if con.free:
            d["chosen by the prover"] = "%d signals no constraint determines, such as %s: random bits here" % (len(con.free), con.free[0])
        return d
    try:
        if state is not None and has("Keccakf"):
            got = con("Keccakf", (), state)
            c.validated += 1
            if got != spec_f(state):
                c.violation("%s: Keccakf of the state given is not Keccak-f[1600] of it" % what, info({"state": frombits(state).hex(), "circuit": frombits(got).hex(), "specified": frombits(spec_f(state)).hex()}), key=what)
                return True
        for k in range(4):
            x = [1, 2**256 - 1, rng.randrange(P), rng.randrange(P)][k]
            y = [2, 2**255 + 1, rng.randrange(P), rng.randrange(P)][k]
            n = y + (x << 256)
            got = con("PubkeyToAddress", (), [n >> i & 1 for i in range(512)])
            c.validated += 1
            if got != address(x, y):
                c.violation("%s: the address of a key is wrong" % what, info({"x": hex(x), "y": hex(y), "circuit": hex(got), "address": hex(address(x, y))}), key=what)
                return True
        if has("Keccak"):
            for n, m in sizes:
                b = [rng.randrange(2) for _ in range(n)]
                got = con("Keccak", (n, m), b)
                c.validated += 1
                if got != spec_keccak(b, m):
                    c.violation("%s: Keccak(%d, %d) of the message given is wrong" % (what, n, m), info({"message": frombits(b).hex(), "circuit": frombits(got).hex(), "hash": frombits(spec_keccak(b, m)).hex()}), key=what)
                    return True
    except (NotBits, CircomError, KeyError) as e:
        c.log("no failing run: %s" % e)
    return False


def c35(c):
    assert frombits(spec_keccak(tobits(b"abc"), 256, 6)) == hashlib.sha3_256(b"abc").digest(), "the reference is wrong"
    assert frombits(spec_keccak([], 256)).hex().startswith("c5d2460186f7233c"), "the reference is wrong"
    s = [random.Random(3).randrange(2) for _ in range(1600)]
    assert invert_round(5, spec_round(5, s, _x, _a, 1)) == s
    c.assumptions += ["circomlib's gates, Xor3, ShR, Num2Bits and Bits2Num (not shipped) compute what they are documented to compute, and the input bits are Boolean (constrained by the caller)",
                      "the interpretation of circom is engine/circom.py's; no circom compiler is available"]
    sizes = [(8, 256), (512, 256), (1072, 256), (1080, 256), (512, 512)] if QUICK else [(n, 256) for n in range(8, 1081, 8)] + [(512, m) for m in (8, 64, 128, 512, 1088, 1600)]
    c.bounds.append("all 24 rounds over all 2^1600 states; one-block messages of %s bits (input, output), every message; every 512 key bits" % (sizes if QUICK else "8..1080"))
    p = prog()
    fail = []

    def note(name, verdict, why=""):
        c.obl.append({"name": name, "verdict": verdict, "solver_s": 0, "note": why})
        c.log(name, verdict, why)
    # the rounds
    if has("KeccakfRound"):
        res = vlib.pmap(one_round, list(range(24)), time.time() + c.left() * 0.5)
        got = dict(res)
        for r in range(24):
            v = got.get(r)
            nm = "KeccakfRound(%d) is round %d of Keccak-f[1600]" % (r, r)
            if v is None:
                note(nm, "reduced", "not reached in the time given")
                continue
            verdict, ce, st = v
            if st:
                c.paths += 1
                c.instrs += st["defs"]
                c.encoded |= {"to_address::" + t for t in st["tem"]}
            if verdict == "differs":
                for i in reversed(range(r)):
                    ce = invert_round(i, ce)
                fail.append((nm, ce))
            elif verdict != "holds":
                fail.append((nm, None))
                c.log(nm, ce)
            else:
                note(nm, "holds")
    # the permutation, the hash and the address on top of them
    def level(nm, tname, args, inn, n, outn, sub, want):
        B = Bits()
        mods, fs = {}, {}
        for s_ in sub:
            if has(s_):
                u = fs[s_] = UF(B, s_, *SIZES[s_])
                mods[s_] = (u.sig, u)
        try:
            if sub and not mods:
                raise NotBits("no template " + sub[0])
            run = Run(B, p, tname, list(args), {inn: [B.var("i%d" % i) for i in range(n)]}, mods)
            got = run.out(outn)
            c.paths += 1
            c.instrs += len(run.defs)
            c.encoded |= {"to_address::" + t for t in run.circ.templates}
            w = want(B, fs, [B.var("i%d" % i) for i in range(n)])
            bad = run.checks()
            if bad:
                raise NotBits("constraints that need not hold: %s" % bad[:2])
            if len(got) == 1 and isinstance(got[0], Poly):
                # a number: weights of single bits, each compared
                q = got[0].d
                if any(len(m) > 1 for m in q) or len(q) != len(w) or () in q:
                    raise NotBits("the number is not a sum of bits")
                byw = {k: m[0] for m, k in q.items()}
                got = [byw.get(2**i, 0) for i in range(len(w))]
                if len(byw) != len(q):
                    raise NotBits("two bits of the number have the same weight")
            if any(isinstance(x, Poly) for x in got) or len(got) != len(w):
                raise NotBits("an output is not a bit")
            if decide(B, got, w) is None:
                note(nm, "holds")
                return
            fail.append((nm, None))
        except (NotBits, CircomError, KeyError) as e:
            c.log(nm, "not shown:", e)
            fail.append((nm, None))

    def chain(B, f, v):
        for i in range(24):
            v = f["KeccakfRound"]((i,), {"in": v})["out"]
        return v
    if has("Keccakf"):
        level("Keccakf is its 24 rounds in order", "Keccakf", (), "in", 1600, "out", ["KeccakfRound"], chain)
    if has("Keccak"):
        for n, m in sizes:
            def want(B, f, v, n=n, m=m):
                s_ = v + [1] + [0] * (1600 - n - 1)
                s_[1087] = B.xor(s_[1087], 1)
                return f["Keccakf"]((), {"in": s_})["out"][:m]
            level("Keccak(%d, %d) pads, permutes and truncates" % (n, m), "Keccak", (n, m), "in", n, "out", ["Keccakf"], want)
    if not has("PubkeyToAddress"):
        raise vlib.Broken("no template PubkeyToAddress")

    def wantaddr(B, f, v):
        d = f["Keccak"]((512, 256), {"in": [v[8 * (63 - i) + j] for i in range(64) for j in range(8)]})["out"]
        return [d[8 * (31 - i) + j] for i in range(20) for j in range(8)]
    level("PubkeyToAddress is the last 20 bytes of Keccak-256 of x || y", "PubkeyToAddress", (), "pubkeyBits", 512, "address", ["Keccak"], wantaddr)
    if has("FlattenPubkey"):
        for nb, k in ((64, 4), (86, 3), (256, 1), (128, 2)) + (() if QUICK else ((43, 6), (32, 8), (8, 32), (100, 3))):
            flatten(c, p, nb, k, note)
    for nm, st in fail:
        if not c.viol and confirm(c, nm, st, sizes):
            note(nm, "violated")
        elif c.viol:
            note(nm, "violated")
        else:
            note(nm, "reduced", "not shown, and no failing run found")
    c.samples += ["KeccakfRound(0)", "PubkeyToAddress()"]


def flatten(c, p, nb, k, note):
    nm = "FlattenPubkey(%d, %d) lists the bits of y, then of x" % (nb, k)
    B = Bits()
    try:
        run = Run(B, p, "FlattenPubkey", [nb, k], {"chunkedPubkey": [B.var("c%d" % i) for i in range(2 * k)]})
        got = run.out("pubkeyBits")
        bad = run.checks()
        if bad or any(isinstance(x, Poly) for x in got):
            raise NotBits("not bits")
        want = []
        for row in (1, 0):
            want += [B.var("c%d.%d" % (row * k + i // nb, i % nb)) for i in range(256)]
        ce = decide(B, got, want)
    except (NotBits, CircomError) as e:
        note(nm, "reduced", str(e))
        return
    c.paths += 1
    c.encoded.add("to_address::FlattenPubkey")
    if ce is None:
        note(nm, "holds")
        return
    i = next(i for i in range(512) if got[i] != want[i])
    note(nm, "violated")
    c.violation("%s: bit %d of the result is not that of the key" % (nm, i), {"numBits": nb, "k": k, "bit": i, "taken from": str(B.t[got[i]][1]), "should be": str(B.t[want[i]][1])}, key=nm)
