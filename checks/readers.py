"""C08, C09, C10, C11, C26: the binary readers (packages/circuit_reader, packages/spartan_wasm/src/wasm.rs) and the
integer helpers of Spartan (math.rs).  The real files are compiled into a harness whose LLVM IR is executed
symbolically on files whose contents are variables; the parsed structure is compared with the file by z3."""
import hashlib
import itertools
import os
import re
import shutil
import struct
import time

import smt
import symex
import terms as T
import vlib
from vlib import Broken, RNG

P = 2**256 - 2**32 - 977
PW = [P >> 64 * i & 2**64 - 1 for i in range(4)]
PK = vlib.REPO + "/packages/"


def harness(c):
    work = vlib.workdir()
    d = os.path.join(work, "io-crate")
    shutil.rmtree(d, True)
    shutil.copytree(os.path.join(vlib.ROOT, "harness/io"), d)
    shutil.copytree(PK + "circuit_reader/src", d + "/gen/reader")
    shutil.rmtree(d + "/gen/reader/bin", True)
    with open(d + "/gen/reader/lib.rs", "a") as f:
        f.write(open(d + "/src/driver_reader.rs").read())
    shutil.copy(PK + "spartan_wasm/src/wasm.rs", d + "/gen/wasm.rs")
    shutil.copy(PK + "Spartan-secq/src/math.rs", d + "/gen/math.rs")
    return vlib.Harness(d, "h_io", work)


class File:
    """bytes of a file; symbolic fields are variables"""

    def __init__(self):
        self.b = []
        self.vars = []
        self.pre = []

    def raw(self, bs):
        self.b += list(bs)
        return self

    def int(self, v, n):
        if isinstance(v, str):
            v = T.var(v, 8 * n)
            self.vars.append(v)
        if type(v) is int:
            self.raw(v.to_bytes(n, "little"))
        else:
            self.raw([T.extract(v, 8 * i, 8, 8 * n) for i in range(n)])
        return v


def lt_prime(ws):
    """ws (4 words, little-endian) < P"""
    lt = 0
    for w, p in zip(ws, PW):
        lt = T.or_(1, T.ult(64, w, p), T.and_(1, T.eq(64, w, p), lt))
    return lt


class Runner:
    def __init__(self, c, h, exports):
        self.c, self.h = c, h
        self.mod = h.module(exports)

    def run(self, fname, data, nout, length=None, pre=(), header=True, alloc_limit=1 << 18, conc_limit=300, raw_words=None, max_steps=None):
        e = symex.Engine(self.mod, merge=False)
        e.max_steps = max_steps or e.max_steps
        e.alloc_limit = alloc_limit
        e.conc_limit = conc_limit
        e.sym_alloc = "max"
        # any hash function is a correct one for a map: all keys collide
        e.dem_hooks.append((re.compile(r"DefaultHasher as core::hash::Hasher>::finish|SipHasher13 as core::hash::Hasher>::finish|BuildHasher>::hash_one"), lambda eng, st, a: 0))
        e.deadline = time.time() + max(5, min(400, self.c.left()))
        st = symex.State()
        if raw_words is not None:
            pi = e.new_obj(st, 8 * (len(raw_words) + 1), "zero", "in")
            for k, w in enumerate(raw_words):
                e.store_int(st, pi + 8 * k, 8, w)
        else:
            pi = e.new_obj(st, 8 + len(data), "zero", "file")
            e.store_int(st, pi, 8, len(data) if length is None else length)
            for k, b in enumerate(data):
                e.store_int(st, pi + 8 + k, 1, b)
        po = e.new_obj(st, 8 * (nout + 1), "zero", "out")
        for p in pre:
            if not isinstance(p, int):
                st.pc.append(p)
        if st.pc:
            r, m = smt.solve(st.pc, 20000)
            if r == "unsat":
                return [], e
            st.model = m if r == "sat" else None
        e.start(fname, [pi, po], st)
        outs = e.run(st)
        self.c.use_engine(e)
        self.c.paths += len(outs)
        for o in outs:
            if o.kind == "ret":
                o.value = [e.load_int(o.state, po + 8 * i, 8) for i in range(nout)]
        return outs, e

    def native(self, fname, env, data, length=None, raw_words=None):
        """the same input, concrete, on the compiled program"""
        def ev(x):
            return x if type(x) is int else T.evaluate(x, env)
        if raw_words is not None:
            ws = [ev(w) for w in raw_words]
        else:
            n = ev(len(data) if length is None else length)
            bs = bytes(ev(b) for b in data)[:n]
            ws = [n] + [int.from_bytes(bs[i:i + 8], "little") for i in range(0, len(bs), 8)]
        r = self.h.native(fname, ws)
        self.c.validated += 1
        return r, ws


def default_env(ts):
    return {n: 0 for n in T.variables(ts)}


class Env(dict):
    def __missing__(self, k):
        return 0


# -------------------------------------------------------------------- C08 / C09
def some(name, n):
    """a fixed value for a content field that is not symbolic"""
    if name.startswith("n_pub") or name == "map0":
        return 0
    return int.from_bytes(hashlib.sha256(name.encode()).digest()[:n], "little") >> (1 if name[0] == "c" else 0)


class Layout:
    """an R1CS file: concrete shape, symbolic contents"""

    def __init__(self, order=(1, 2, 3), extra=(), shape=(((1,), (1,), (1,)),), nwires=2, sym=(), over=None, between=0, tag="", named=None, pad1=0):
        # named: only these content fields are symbolic
        self.gap, self.pad1 = None, pad1
        self.order, self.extra, self.shape, self.nwires = order, extra, shape, nwires
        over = over or {}
        f = self.f = File()
        if named is not None:
            fint = f.int
            f.int = lambda v, n: fint(v if v in named or type(v) is int else some(v, n), n)
        if any(x[2] == "gap" for x in extra):
            f.raw([0] * 16)
        g = lambda k, d, n: f.int(k if k in sym else over.get(k, d), n)      # noqa: E731
        self.magic = g("magic", 0x73633172, 4)
        self.version = g("version", 1, 4)
        secs = [s for s in order]
        for pos, k, n in sorted(extra, reverse=True):
            secs.insert(pos, ("x", k, n))
        self.nsec = g("num_sections", len(secs), 4)
        self.types, self.sizes, self.off = {}, {}, {}
        for s in secs:
            name = s if isinstance(s, int) else None
            if name is None:
                _, k, n = s
                f.int(k, 4)
                if n == "gap":
                    self.gap = f.int("gap", 8)
                    at = len(f.b) - 16
                    f.b[:16] = [at >> 8 * i & 255 for i in range(8)] + f.b[-8:]
                    continue
                f.int(n, 8)
                f.raw([T.var("gap%d" % (len(f.b) + i), 8) for i in range(n)])
                continue
            self.types[s] = g("type%d" % s, s, 4)
            size = {1: 64, 2: self.csize(), 3: 8 * nwires}[s]
            self.sizes[s] = g("size%d" % s, size, 8)
            self.off[s] = len(f.b)
            getattr(self, "sec%d" % s)(f, g)
        self.pre = f.pre

    def csize(self):
        return sum(4 + 36 * n[0] if isinstance(n, tuple) else 4 + 36 * n for c in self.shape for n in c)

    def sec1(self, f, g):
        self.fs = g("field_size", 32, 4)
        self.prime = [f.int("prime%d" % i, 8) for i in range(4)]
        self.hw = g("n_wires", self.nwires, 4)
        self.po, self.pi, self.pv = f.int("n_pub_out", 4), f.int("n_pub_in", 4), f.int("n_prv_in", 4)
        self.labels = f.int("n_labels", 8)
        self.ncons = g("n_constraints", len(self.shape), 4)
        f.raw([T.var("pad%d" % i, 8) for i in range(self.pad1)])

    def sec2(self, f, g):
        self.cons = []
        self.counts = []
        for i, c in enumerate(self.shape):
            vs = []
            for j, n in enumerate(c):
                n = n[0] if isinstance(n, tuple) else n
                self.counts.append(g("n_terms%d_%d" % (i, j), n, 4))
                v = []
                for k in range(n):
                    w = f.int("w%d_%d_%d" % (i, j, k), 4)
                    v.append((w, [f.int("c%d_%d_%d_%d" % (i, j, k, q), 8) for q in range(4)]))
                vs.append(v)
            self.cons.append(vs)

    def sec3(self, f, g):
        self.map = [f.int("map%d" % i, 8) for i in range(self.nwires)]

    # conditions under which the file is well formed, by field
    def wf(self):
        r = {"magic": T.eq(32, self.magic, 0x73633172), "version": T.eq(32, self.version, 1),
             "field size": T.eq(32, self.fs, 32),
             "header section size": T.eq(64, self.sizes[1], 64),
             "wire map size": T.eq(64, self.sizes[3], T.mul(64, T.zext(64, self.hw, 32) if type(self.hw) is not int else self.hw, 8))}
        r["first map entry"] = T.eq(64, self.map[0], 0) if self.map else 0
        for i, c in enumerate(self.cons):
            for j, v in enumerate(c):
                for k, (w, co) in enumerate(v):
                    r["coefficient %d.%d.%d below the prime" % (i, j, k)] = lt_prime(co)
        return r

    def header_out(self):
        return [1, z(self.version, 32), z(self.fs, 32), z(self.hw, 32), z(self.po, 32), z(self.pi, 32), z(self.pv, 32), self.labels, z(self.ncons, 32),
                32] + self.prime

    def cons_out(self):
        r = [len(self.cons)]
        for c in self.cons:
            for v in c:
                r.append(len(v))
                for w, co in v:
                    r += [z(w, 32)] + co
        return r

    def out(self):
        return self.header_out() + self.cons_out() + [len(self.map)] + self.map

    def counts_ok(self):
        """1 + public inputs + public outputs do not exceed the wires"""
        s = T.add(64, T.add(64, z(self.po, 32), z(self.pi, 32)), 1)
        return T.not_(T.ult(64, z(self.hw, 32), s))


def z(t, w):
    return t if type(t) is int else T.zext(64, t, w) if w < 64 else t


def all_(cs):
    r = 1
    for x in cs:
        r = T.and_(1, r, x)
    return r


def decide(c, R, name, fname, L, outs, want_ok, expect, tot=None, length=None, nout=0):
    """every run either ends with the expected output under want_ok, or reports an error under not want_ok"""
    t0 = time.time()
    res = "holds"
    note = ""
    for o in outs:
        if o.kind == "ret":
            tag = o.value[0]
            if tag == 1:
                bad = [(T.not_(want_ok), "a malformed file is accepted")]
                bad += [(T.not_(T.eq(64, a, b)), "output word %d is not what the file says" % i)
                        for i, (a, b) in enumerate(zip(o.value, expect)) if not (a is b) and a != b]
            elif tag == 2:
                bad = [(want_ok, "a well-formed file is rejected")]
            else:
                raise Broken("%s: unexpected result tag %r" % (name, tag))
        elif o.kind in ("panic", "hugealloc", "unreachable", "oob", "memerr") or o.kind:
            bad = [(1, "reading ends in %s at %s" % (o.kind, str(o.where)[:160]))]
        for cond, what in bad:
            if type(cond) is int and not cond:
                continue
            r, m = smt.solve(o.state.pc + [cond], 60000)
            if r == "unsat":
                continue
            if r == "unknown":
                res, note = "reduced", "solver undecided: " + what
                continue
            env = Env(m)
            if o.kind in ("limit", "unsupported"):
                c.obligation(name, "reduced", time.time() - t0, "%s: %s" % (o.kind, str(o.where)[:200]))
                return False
            # replay on the compiled program
            got, ws = R.native(fname, env, L.f.b, length)
            exp = [T.evaluate(x, env) if type(x) is not int else x for x in expect]
            ok = T.evaluate(want_ok, env) if type(want_ok) is not int else want_ok
            if ok:
                real = got == "panic" or got[:len(exp)] != exp
            else:
                real = got == "panic" or got[0] != 2
            if real:
                c.obligation(name, "violated", time.time() - t0, what)
                c.violation("%s: %s" % (name, what), {"entry": fname, "words": ["%x" % x for x in ws], "got": got if got == "panic" else got[:len(exp) + 4], "expected": exp if ok else "error"})
                return True
            if o.kind == "hugealloc":
                # the allocation succeeded natively; still decided by memory available: recorded
                res, note = "reduced", "allocation sized by the file"
                continue
            raise Broken("%s: the counterexample does not replay (%s; native %s)" % (name, what, str(got)[:80]))
    if not outs:
        raise Broken(name + ": no run")
    c.obligation(name, res, time.time() - t0, note)
    return False


SHAPE2 = (((1,), (2,), (0,)), ((0,), (1,), (1,)))


def c08(c):
    h = harness(c)
    R = Runner(c, h, ["h_parse", "h_load", "h_parse_gap"])
    cases = []
    for order in itertools.permutations((1, 2, 3)):
        cases.append(("sections in order %s" % (order,), dict(order=order)))
    for pos in range(4):
        cases.append(("unknown section at position %d" % pos, dict(extra=((pos, 4 + pos, 5 + pos),))))
    cases += [("two unknown sections", dict(order=(3, 1, 2), extra=((0, 9, 3), (2, 4, 1)))),
              ("no constraints", dict(shape=())), ("two constraints", dict(shape=SHAPE2, nwires=3)),
              ("long vectors", dict(shape=(((3,), (0,), (4,)),), nwires=4)),
              ("empty vectors", dict(shape=(((0,), (0,), (0,)),), nwires=1))]
    if vlib.TIER == "thorough":
        for n in range(2, 7):
            cases.append(("%d constraints" % n, dict(shape=tuple((((i % 3),), ((i + 1) % 3,), ((i + 2) % 3,)) for i in range(n)), nwires=n)))
        cases.append(("vector of 12", dict(shape=(((12,), (1,), (12,)),), nwires=12)))
    c.bounds.append("files of the listed shapes (section order, number of constraints and terms, number of wires); every count, index, coefficient, label, prime byte and gap byte is symbolic")
    # unknown sections of any size up to 2^62 bytes, in every place
    for pos in range(4):
        name = "parse: unknown section of any size at position %d" % pos
        L = Layout(order=(2, 1, 3), extra=((pos, 4 + pos, "gap"),))
        ok = all_(list(L.wf().values()) + [L.counts_ok()])
        exp = L.out()
        outs, e = R.run("h_parse_gap", L.f.b, len(exp) + 4, pre=[ok, T.ult(64, L.gap, 1 << 62)])
        if decide(c, R, name, "h_parse_gap", L, outs, ok, exp):
            return
    c.bounds.append("unknown sections up to 2^62 bytes; long vectors, many constraints and many wires: 1027 of each with the last ones symbolic")
    # more elements than are reserved ahead
    m = 1027
    for name, kw in (("1027 terms", dict(shape=(((1,), (m,), (1,)),), named=("w0_1_%d" % (m - 1), "w0_1_0", "w0_2_0") + tuple("c0_1_%d_%d" % (m - 1, q) for q in range(4)))),
                     ("1027 constraints", dict(shape=(((0,), (0,), (0,)),) * (m - 1) + (((0,), (1,), (0,)),), named=("w%d_1_0" % (m - 1),))),
                     ("1027 wires", dict(nwires=m, named=("map%d" % (m - 1), "map1", "n_labels")))):
        L = Layout(**kw)
        ok = all_(list(L.wf().values()) + [L.counts_ok()])
        exp = L.out()
        outs, e = R.run("h_parse", L.f.b, len(exp) + 4, pre=[ok], max_steps=20000000)
        if decide(c, R, "parse: " + name, "h_parse", L, outs, ok, exp):
            return
    for name, kw in cases:
        L = Layout(**kw)
        ok = all_(list(L.wf().values()) + [L.counts_ok()])
        pre = [ok]
        exp = L.out()
        outs, e = R.run("h_parse", L.f.b, len(exp) + 4, pre=pre)
        if decide(c, R, "parse: " + name, "h_parse", L, outs, ok, exp):
            return
        exp2 = [1, T.add(64, T.add(64, z(L.po, 32), z(L.pi, 32)), 1), 0, L.nwires] + L.cons_out() + [len(L.map)] + L.map
        exp2[2] = T.sub(64, L.nwires, exp2[1])
        outs, e = R.run("h_load", L.f.b, len(exp2) + 4, pre=pre)
        if decide(c, R, "load: " + name, "h_load", L, outs, ok, exp2):
            return
        # the encoding against the compiled program, on a random file
        env = rand_env(L, pre)
        o = [o for o in outs if o.kind == "ret" and all(T.evaluate(p, env) for p in o.state.pc)]
        got, _ = R.native("h_load", env, L.f.b)
        if len(o) != 1 or got == "panic" or [T.evaluate(x, env) if type(x) is not int else x for x in o[0].value[:len(exp2)]] != got[:len(exp2)]:
            raise Broken("encoding and compiled program differ on a random file")
        c.samples.append("parse: " + name)


def rand_env(L, pre):
    env = Env()
    for n, v in T.variables(L.f.b + list(pre)).items():
        env[n] = RNG.randrange(1 << v.w)
    env["map0"] = 0
    env["n_pub_in"] = env["n_pub_out"] = 0
    return env


def c09(c):
    h = harness(c)
    R = Runner(c, h, ["h_parse", "h_load"])
    c.bounds.append("files of up to 2 constraints, 2 terms per vector and 3 wires in three section orders; in each case one or two structural fields "
                    "(magic, version, section count, section types, section sizes, field size, counts) or the file length are symbolic over their full width "
                    "together with every content byte; allocations above 256 KiB driven by the file alone are failures")
    S = dict(shape=(((1,), (1,), (0,)),), nwires=2)
    jobs = []

    def parse(name, sym, kw=S, **rest):
        jobs.append((name, sym, dict(kw), rest))
    parse("magic and version", ("magic", "version"))
    parse("field size", ("field_size",))
    parse("field size with matching section size", ("field_size", "size1"), dict(S, order=(2, 3, 1)))
    for n in (0, 16, 31, 33, 48, 64):
        parse("%d-byte field with a header section as long" % n, (), dict(S, order=(2, 3, 1), over={"field_size": n, "size1": 32 + n}, pad1=max(0, n - 32)))
    parse("header section size", ("size1",), dict(S, order=(2, 3, 1)))
    parse("header section size, header first", ("size1",), near=True)
    parse("wire map size and wire count", ("size3", "n_wires"))
    parse("wire map size, map first", ("size3",), dict(S, order=(3, 1, 2), over={"num_sections": 3}), near=True)
    parse("constraint count", ("n_constraints",))
    parse("constraint count, constraints last", ("n_constraints",), dict(S, order=(1, 3, 2)))
    parse("term count", ("n_terms0_1",))
    parse("term count, constraints last", ("n_terms0_0",), dict(S, order=(1, 3, 2)))
    parse("coefficients", (), dict(shape=SHAPE2, nwires=2))
    for i in (1, 2, 3):
        parse("type of section %d" % i, ("type%d" % i,))
    parse("types of two sections", ("type1", "type3"))
    parse("section count", ("num_sections",))
    parse("no wires", (), dict(shape=(), nwires=0))
    for order in ((1, 2, 3), (3, 2, 1)) if vlib.TIER == "quick" else list(itertools.permutations((1, 2, 3))):
        parse("file cut short, sections %s" % (order,), (), dict(S, order=order), cut=True)
    if vlib.TIER == "thorough":
        parse("file cut short, two constraints", (), dict(shape=SHAPE2, nwires=3), cut=True)
        parse("all three section types", ("type1", "type2", "type3"))
    t_end = time.time() + c.left() - 60

    def work(j):
        name, sym, kw, rest = j
        return corrupt(c, R, name, sym, kw, **rest)
    for j, r in vlib.pmap(work, jobs, t_end):
        if r is None:
            c.obligation(j[0], "error", note="the run failed")
            continue
        res, dt, note, viol, nout, enc, ins, val = r
        c.obligation(j[0], res, dt, note)
        c.paths += nout
        c.encoded |= enc
        c.instrs += ins
        c.validated += val
        c.samples.append(j[0])
        for what, rep in viol:
            c.violation("%s: %s" % (j[0], what), rep)
    done = {o["name"] for o in c.obl}
    for j in jobs:
        if j[0] not in done:
            c.obligation(j[0], "reduced", note="out of time")


def reference(bs):
    """what the format says about a concrete file: None (malformed) or the expected output words"""
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(bs):
            raise ValueError
        r = bs[pos:pos + n]
        pos += n
        return int.from_bytes(r, "little")
    try:
        if bs[:4] != b"r1cs" or len(bs) < 4:
            return None
        pos = 4
        if take(4) != 1:
            return None
        n = take(4)
        sec = {}
        for _ in range(n):
            ty, sz = take(4), take(8)
            sec[ty] = (pos, sz)
            pos += sz
        pos, sz = sec[1]
        fs = take(4)
        if fs != 32 or sz != 64:
            return None
        prime = [take(8) for _ in range(4)]
        nw, po, pi, pv, lab, nc = take(4), take(4), take(4), take(4), take(8), take(4)
        out = [1, 1, fs, nw, po, pi, pv, lab, nc, 32] + prime
        if 1 + po + pi > nw:
            return None
        pos, sz = sec[2]
        out.append(nc)
        for _ in range(nc):
            for _ in range(3):
                k = take(4)
                out.append(k)
                for _ in range(k):
                    out.append(take(4))
                    co = take(32)
                    if co >= P:
                        return None
                    out += [co >> 64 * i & 2**64 - 1 for i in range(4)]
        pos, sz = sec[3]
        if sz != 8 * nw or nw == 0:
            return None
        m = [take(8) for _ in range(nw)]
        if m[0] != 0:
            return None
        return out + [nw] + m
    except (ValueError, KeyError, MemoryError):
        return None


def corrupt(c, R, name, sym, kw, cut=False, near=False):
    """one family of files.  For every run: an accepted file has the structure the format demands, and the output is
    what the file holds; a run that neither accepts nor reports an error is a failure."""
    t0 = time.time()
    L = Layout(sym=sym, **kw)
    data = L.f.b
    length = len(data)
    pre = []
    if cut:
        length = T.var("length", 64)
        pre.append(T.ule(64, length, len(data)))
    if near:
        k = sym[0]
        v = {"size1": L.sizes.get(1), "size3": L.sizes.get(3)}[k]
        d = 64 if k == "size1" else 8 * L.nwires
        pre.append(T.or_(1, T.or_(1, T.eq(64, v, d), T.eq(64, v, d - 8)) if k == "size1" else T.eq(64, v, d), T.and_(1, T.ult(64, len(data) + 8, v), T.ult(64, v, 1 << 63))))
    nout = 400
    outs, e = R.run("h_parse", data, nout, length=length, pre=pre)
    viol = []
    res, note = "holds", ""
    seen = 0
    acc = 0
    bounds_vars = [v for v in (L.magic, L.version, L.nsec, L.fs, L.hw, L.ncons, length, *L.types.values(), *L.sizes.values(), *L.counts) if type(v) is not int]

    def replay(env, what, o):
        got, ws = R.native("h_parse", env, data, length)
        n = ws[0]
        bs = b"".join(w.to_bytes(8, "little") for w in ws[1:])[:n]
        ref = reference(bs)
        if (ref is None and got != "panic" and got[0] == 2) or (ref is not None and got != "panic" and got[:len(ref)] == ref):
            return False
        viol.append((what, {"entry": "h_parse", "file": bs.hex(), "got": got if got == "panic" else got[:60], "expected": ref or "error"}))
        return True
    for o in outs:
        if viol:
            break
        if o.kind == "ret" and o.value[0] == 2:
            # an error: the file must not be well formed; checked on the structural conditions
            if not sym and not cut:
                cond = all_(list(L.wf().values()) + [L.counts_ok()])
                r, m = smt.solve(o.state.pc + [cond], 30000)
                if r == "sat" and not replay(Env(m), "a well-formed file is rejected", o):
                    raise Broken("%s: rejection does not replay" % name)
                if r == "unknown":
                    res, note = "reduced", "solver undecided"
            continue
        if o.kind == "ret" and o.value[0] == 1:
            acc += 1
            # the structural fields this run accepts: enumerate them with the solver; for each the format fixes the result
            conds = list(o.state.pc)
            for it in range(40):
                r, m = smt.solve(conds, 60000)
                if r == "unsat":
                    break
                if r == "unknown":
                    res, note = "reduced", "solver undecided"
                    break
                env = Env(m)
                fixed = [T.eq(v.w, v, env[v.aux[0]]) for v in bounds_vars]
                sub = {v.aux[0]: env[v.aux[0]] for v in bounds_vars}
                exp = sym_reference(data, T.evaluate(length, env) if type(length) is not int else length, env, fixed)
                if exp is None:
                    if replay(env, "a malformed file is accepted", o):
                        break
                    raise Broken("%s: acceptance does not replay (%s)" % (name, sub))
                wf, words = exp
                ok = True
                for cond, what in [(T.not_(wf), "a malformed file is accepted")] + [
                        (T.not_(T.eq(64, a, b)), "output word %d is not what the file says" % i) for i, (a, b) in enumerate(zip(o.value, words)) if not (a is b) and a != b]:
                    if type(cond) is int and not cond:
                        continue
                    r, m = smt.solve(conds + fixed + [cond], 60000)
                    if r == "unknown":
                        res, note = "reduced", "solver undecided"
                    if r == "sat":
                        if replay(Env(m), what, o):
                            ok = False
                            break
                        raise Broken("%s: counterexample does not replay: %s" % (name, what))
                seen += 1
                if not ok:
                    break
                if not fixed:
                    break
                conds.append(T.not_(all_(fixed)))
            else:
                # more structures than enumerated: those left must differ only in a field without influence
                res, note = "reduced", "more than 40 accepted structures on one run"
            continue
        if o.kind in ("limit", "unsupported", "deadline"):
            res, note = "reduced", "%s %s" % (o.kind, str(o.where)[:160])
            continue
        r, m = smt.solve(o.state.pc, 60000)
        if r == "unsat":
            continue
        if r == "unknown":
            res, note = "reduced", "solver undecided"
            continue
        if o.kind == "hugealloc":
            big = T.ult(64, 1 << 40, o.value) if type(o.value) is not int else 1
            r2, m2 = smt.solve(o.state.pc + [big], 30000)
            if r2 == "sat":
                m = m2
        what = "reading ends in %s: %s" % (o.kind, str(o.where)[:200])
        if replay(Env(m), what, o):
            continue
        if o.kind == "hugealloc":
            res, note = "reduced", "an allocation sized by the file alone (%s)" % str(o.where)[:100]
            continue
        raise Broken("%s: %s does not replay" % (name, what))
    if viol:
        res = "violated"
    if not outs:
        raise Broken(name + ": no run")
    kinds = {}
    for o in outs:
        k = o.kind if o.kind != "ret" else "ret%s" % (o.value[0],)
        kinds[k] = kinds.get(k, 0) + 1
    note = (note + " runs %s, accepted structures %d" % (kinds, seen)).strip()
    return res, time.time() - t0, note, viol[:1], len(outs), e.encoded, e.instr_count, c.validated


def sym_reference(data, length, sub, fixed):
    """`reference` on a file with structure fixed by `sub` and symbolic contents: None or (well-formedness, words)"""
    bs = data[:length]
    pos = 0
    conds = []

    def take(n, sym=False):
        nonlocal pos
        if pos + n > len(bs):
            raise ValueError
        r = 0
        xs = bs[pos:pos + n]
        pos += n
        if all(type(x) is int for x in xs):
            return int.from_bytes(bytes(xs), "little")
        t = xs[0]
        for k, x in enumerate(xs[1:]):
            t = T.concat(x, 8, t, 8 * (k + 1))
        if sym:
            return t
        if T.isc(t):
            return t
        v = T.evaluate(t, sub)
        fixed.append(T.eq(8 * n, t, v))
        return v
    try:
        if take(4) != 0x73633172 or take(4) != 1:
            return None
        n = take(4)
        sec = {}
        for _ in range(n):
            ty, sz = take(4), take(8)
            sec[ty] = (pos, sz)
            pos += sz
        pos, sz = sec[1]
        fs = take(4)
        if fs != 32 or sz != 64:
            return None
        prime = [take(8, True) for _ in range(4)]
        nw, po, pi, pv, lab, nc = take(4), take(4, True), take(4, True), take(4, True), take(8, True), take(4)
        out = [1, 1, fs, nw, z(po, 32), z(pi, 32), z(pv, 32), lab, nc, 32] + prime
        conds.append(T.not_(T.ult(64, nw, T.add(64, 1, T.add(64, z(po, 32), z(pi, 32))))))
        pos, sz = sec[2]
        out.append(nc)
        for _ in range(nc):
            for _ in range(3):
                k = take(4)
                out.append(k)
                for _ in range(k):
                    out.append(z(take(4, True), 32))
                    co = [take(8, True) for _ in range(4)]
                    conds.append(lt_prime(co))
                    out += co
        pos, sz = sec[3]
        if sz != 8 * nw or nw == 0:
            return None
        m = [take(8, True) for _ in range(nw)]
        conds.append(T.eq(64, m[0], 0))
        return all_(conds), out + [nw] + m
    except (ValueError, KeyError):
        return None


# -------------------------------------------------------------------- C10
def c10(c):
    h = harness(c)
    R = Runner(c, h, ["h_convert"])
    shapes = [(), ((1, 1, 1),), ((2, 0, 3), (0, 1, 1)), ((1, 2, 0), (2, 1, 1), (0, 0, 1)), ((3, 3, 3), (0, 0, 0), (1, 0, 2), (1, 1, 1))]
    if vlib.TIER == "thorough":
        shapes += [tuple((i % 4, (i + 1) % 3, (i + 2) % 5) for i in range(n)) for n in (8, 16)]
    c.bounds.append("circuits of %s constraints (terms per vector %s); wire indices, coefficients, declared wires, inputs and public inputs symbolic (64 bit)" % (
        [len(s) for s in shapes], shapes))
    for sh in shapes:
        nv, ni, pub = T.var("num_variables", 64), T.var("num_inputs", 64), T.var("num_pub_inputs", 64)
        words = [len(sh), nv, ni, pub]
        m = [[], [], []]
        pre = []
        for i, cns in enumerate(sh):
            for j, n in enumerate(cns):
                words.append(n)
                for k in range(n):
                    w = T.var("w%d_%d_%d" % (i, j, k), 64)
                    co = [T.var("c%d_%d_%d_%d" % (i, j, k, q), 64) for q in range(4)]
                    words += [w] + co
                    pre.append(lt_prime(co))
                    m[j].append((i, w, co))
        outs, e = R.run("h_convert", None, 4000, raw_words=words)
        exp = [len(sh), nv, pub]
        for v in m:
            exp.append(len(v))
            for i, w, co in v:
                exp += [i, w] + co
        name = "conversion of %s" % (sh,)
        t0 = time.time()
        for o in outs:
            conds = []
            if o.kind != "ret":
                conds = [(1, "conversion ends in %s: %s" % (o.kind, str(o.where)[:150]))]
            else:
                # entries of one matrix may come in any order; the built-in order is tried first
                conds = [(T.not_(T.eq(64, a, b)), "word %d of the instance" % k) for k, (a, b) in enumerate(zip(o.value, exp)) if not (a is b) and a != b]
                if conds and same_entries(o.value, exp):
                    conds = []
            for cond, what in conds:
                if type(cond) is int and not cond:
                    continue
                r, mod = smt.solve(o.state.pc + pre + [cond], 60000)
                if r == "unsat":
                    continue
                if r == "unknown":
                    c.obligation(name, "reduced", time.time() - t0, "solver undecided")
                    continue
                env = Env(mod)
                got, ws = R.native("h_convert", env, None, raw_words=words)
                ex = [x if type(x) is int else T.evaluate(x, env) for x in exp]
                if got != "panic" and (got[:len(ex)] == ex or same_entries(got, ex)):
                    raise Broken("counterexample does not replay: " + what)
                c.obligation(name, "violated", time.time() - t0, what)
                c.violation("%s: %s" % (name, what), {"entry": "h_convert", "words": ["%x" % x for x in ws], "got": got if got == "panic" else got[:len(ex)], "expected": ex})
                return
        c.obligation(name, "holds", time.time() - t0)
        env = {n: RNG.randrange(1 << v.w) for n, v in T.variables([w for w in words if type(w) is not int]).items()}
        got, _ = R.native("h_convert", env, None, raw_words=words)
        o = [o for o in outs if all(T.evaluate(p, env) for p in o.state.pc)]
        if len(o) != 1 or got == "panic" or [x if type(x) is int else T.evaluate(x, env) for x in o[0].value[:len(exp)]] != got[:len(exp)]:
            raise Broken("encoding and compiled program differ on a random circuit")
        c.samples.append(name)


def same_entries(out, exp):
    """the three lists of entries as multisets (words may be terms, compared structurally)"""
    if out[:3] != exp[:3] and not all(a is b or (type(a) is int and a == b) for a, b in zip(out[:3], exp[:3])):
        return False
    try:
        i, k = 3, 3
        for _ in range(3):
            n, n2 = out[i], exp[k]
            if n != n2:
                return False
            key = lambda ws: tuple(w if type(w) is int else ("t", w.id) for w in ws)     # noqa: E731
            a = sorted((key(out[i + 1 + 6 * j:i + 7 + 6 * j]) for j in range(n)), key=repr)
            b = sorted((key(exp[k + 1 + 6 * j:k + 7 + 6 * j]) for j in range(n)), key=repr)
            if a != b:
                return False
            i += 1 + 6 * n
            k += 1 + 6 * n
        return True
    except TypeError:
        return False


# -------------------------------------------------------------------- C11
def c11(c):
    h = harness(c)
    R = Runner(c, h, ["h_pow2", "h_log2", "h_bits", "h_sqrt"])
    n = T.var("n", 64)

    def one(name, fname, words, nout, pre, exp, deep=None):
        t0 = time.time()
        try:
            outs, e = R.run(fname, None, nout, raw_words=words, pre=pre)
        except (symex.Unsupported, symex.Limit) as ex:
            return fallback(name, fname, words, pre, exp, t0, repr(ex))
        if any(o.kind in ("limit", "unsupported") for o in outs):
            return fallback(name, fname, words, pre, exp, t0, str([o.where for o in outs if o.kind != "ret"][:1]))
        if not outs:
            raise Broken(name + ": no run")
        for o in outs:
            if o.kind != "ret":
                conds = [(1, "ends in %s: %s" % (o.kind, str(o.where)[:150]))]
            else:
                conds = [(T.not_(T.eq(64, a, b)), "result %d" % k) for k, (a, b) in enumerate(zip(o.value, exp))]
            for cond, what in conds:
                if type(cond) is int and not cond:
                    continue
                r, m = smt.solve(o.state.pc + list(pre) + [cond], 120000)
                if r == "unsat":
                    continue
                if r == "unknown":
                    c.obligation(name, "reduced", time.time() - t0, "solver undecided")
                    return
                env = Env(m)
                got, ws = R.native(fname, env, None, raw_words=words)
                ex = [x if type(x) is int else T.evaluate(x, env) for x in exp]
                if got != "panic" and got[:len(ex)] == ex:
                    raise Broken("counterexample does not replay: %s %s" % (name, what))
                c.obligation(name, "violated", time.time() - t0, what)
                c.violation("%s: %s" % (name, what), {"entry": fname, "words": ["%x" % x for x in ws], "got": got if got == "panic" else got[:len(ex)], "expected": ex})
                return
        c.obligation(name, "holds", time.time() - t0, "%d runs" % len(outs))
        c.samples.append(name)
    def fallback(name, fname, words, pre, exp, t0, why):
        # outside the encoding: boundary values on the compiled program, reported as reduced strength unless one fails
        vs = sorted({v & 2**64 - 1 for k in range(65) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
        for v in vs:
            env = Env(n=v)
            if not all(p if type(p) is int else T.evaluate(p, env) for p in pre):
                continue
            got, ws = R.native(fname, env, None, raw_words=words)
            ex = [x if type(x) is int else T.evaluate(x, env) for x in exp]
            if got == "panic" or got[:len(ex)] != ex:
                c.obligation(name, "violated", time.time() - t0, "on %d" % v)
                c.violation("%s: wrong on %d" % (name, v), {"entry": fname, "words": ["%x" % x for x in ws], "got": got if got == "panic" else got[:len(ex)], "expected": ex})
                return
        c.obligation(name, "reduced", time.time() - t0, "not encodable (%s); boundary values only" % why[:150])
    c.bounds.append("pow2: every exponent below 64; log_2: every positive 64-bit number; get_bits: every 64-bit number and every width up to 64; square_root: every number below 2^52")
    one("pow2", "h_pow2", [n], 1, [T.ult(64, n, 64)], [T.shl(64, 1, n)])
    # least k with 2^k >= n
    k = 0
    for i in range(64):
        k = T.add(64, k, T.zext(64, T.ult(64, 1 << i, n), 1))
    one("log_2", "h_log2", [n], 1, [T.not_(T.eq(64, n, 0))], [k])
    for w in range(65):
        one("get_bits %d" % w, "h_bits", [n, w], w + 1, [], [w] + [T.zext(64, T.extract(n, w - 1 - i, 1, 64), 1) for i in range(w)])
    sqrt(c, R, n)
    for f, ws in [("h_pow2", [RNG.randrange(64)]), ("h_log2", [RNG.randrange(1, 1 << 64)]), ("h_bits", [RNG.randrange(1 << 64), 17])]:
        outs, _ = R.run(f, None, 20, raw_words=ws)
        got, _ = R.native(f, {}, None, raw_words=ws)
        if outs[0].value[:18] != got[:18]:
            raise Broken("encoding and compiled program differ")


def sqrt(c, R, n):
    """the integer square root for every n below 2^52"""
    import fp
    t0 = time.time()
    name = "square_root"
    import math
    try:
        outs, e = R.run("h_sqrt", None, 1, raw_words=[n], pre=[T.ult(64, n, 1 << 52)])
    except (symex.Unsupported, symex.Limit) as ex:
        outs = None
        why = repr(ex)
    if outs is None or any(o.kind in ("limit", "unsupported") for o in outs):
        vs = sorted(set(fp.cand()))
        for v, got in zip(vs, R.h.native_many([("h_sqrt", [v]) for v in vs])):
            if got == "panic" or got[0] != math.isqrt(v):
                return fail_sqrt(c, R, name, v, t0)
        c.obligation(name, "reduced", time.time() - t0, "not encodable; boundary values only")
        return
    for o in outs:
        if o.kind != "ret":
            r, m = smt.solve(o.state.pc + [T.ult(64, n, 1 << 52)], 20000)
            if r == "sat":
                return fail_sqrt(c, R, name, m["n"], t0)
            continue
        r, m = fp.floor_sqrt(o.value[0], n, o.state.pc)
        if r == "holds":
            continue
        if r == "sat":
            return fail_sqrt(c, R, name, m, t0)
        c.obligation(name, "reduced", time.time() - t0, str(m))
        return
    c.obligation(name, "holds", time.time() - t0, "%d runs" % len(outs))


def fail_sqrt(c, R, name, v, t0):
    import math
    got, ws = R.native("h_sqrt", {}, None, raw_words=[v])
    if got != "panic" and got[0] == math.isqrt(v):
        raise Broken("square_root: counterexample %d does not replay" % v)
    c.obligation(name, "violated", time.time() - t0)
    c.violation("square_root(%d)" % v, {"entry": "h_sqrt", "n": v, "got": got if got == "panic" else got[0], "expected": math.isqrt(v)})


# -------------------------------------------------------------------- C26
def c26(c):
    h = harness(c)
    R = Runner(c, h, ["h_wtns"])
    c.bounds.append("witness files of up to %d values; every header field symbolic over its full width (magic, version, section count, types and sizes, field size, count), "
                    "every prime and value byte symbolic, and the file length symbolic" % (4 if vlib.TIER == "quick" else 8))
    D = dict(magic=0x736e7477, version=2, nsec=2, type1=1, size1=40, fs=32, n=0, type2=2, size2=0)
    W = dict(magic=4, version=4, nsec=4, type1=4, size1=8, fs=4, n=4, type2=4, size2=8)

    def build(nv, sym):
        f = File()
        d = dict(D, n=nv, size2=32 * nv)
        v = {}
        for k in ("magic", "version", "nsec", "type1", "size1", "fs"):
            v[k] = f.int(k if k in sym else d[k], W[k])
        f.raw([T.var("prime%d" % i, 8) for i in range(32)])
        for k in ("n", "type2", "size2"):
            v[k] = f.int(k if k in sym else d[k], W[k])
        vals = [[f.int("v%d_%d" % (i, q), 8) for q in range(4)] for i in range(nv)]
        return f, v, vals, d

    def go(name, nv, sym, cut=False):
        t0 = time.time()
        f, v, vals, d = build(nv, sym)
        length = T.var("length", 64) if cut else len(f.b)
        pre = [T.ule(64, length, len(f.b))] if cut else []
        wf = [T.ule(32, v["version"], 2) if k == "version" else T.eq(8 * W[k], v[k], d[k]) for k in D]
        wf = [x for x in wf]
        wf += [lt_prime(x) for x in vals]
        if cut:
            wf.append(T.eq(64, length, len(f.b)))
        strict = all_(wf)
        # a smaller count with the matching section size is a well-formed file with trailing bytes
        exp = [1, nv] + [x for y in vals for x in y]
        outs, e = R.run("h_wtns", f.b, len(exp) + 8, length=length, pre=pre)
        L = type("L", (), {"f": f})

        def replay(env, what):
            got, ws = R.native("h_wtns", env, f.b, length)
            bs = b"".join(w.to_bytes(8, "little") for w in ws[1:])[:ws[0]]
            ref = wref(bs)
            if ref is None:
                good = got == "panic" or got[0] != 1
            else:
                good = got != "panic" and got[:len(ref)] == ref
            if good:
                return False
            c.obligation(name, "violated", time.time() - t0, what)
            c.violation("%s: %s" % (name, what), {"entry": "h_wtns", "file": bs.hex(), "got": got if got == "panic" else got[:40], "expected": ref or "no witness"})
            return True
        for o in outs:
            acc = o.kind == "ret" and o.value[0] == 1
            if acc:
                # structure accepted by this run, one at a time
                bv = [x for x in v.values() if type(x) is not int] + ([length] if cut else [])
                conds = list(o.state.pc) + pre
                for _ in range(40):
                    r, m = smt.solve(conds, 60000)
                    if r != "sat":
                        break
                    env = Env(m)
                    fixed = [T.eq(x.w, x, env[x.aux[0]]) for x in bv]
                    cnt = env["n"] if "n" in sym else nv
                    head = {k: (env[k] if k in sym else d[k]) for k in D}
                    need = 12 + 12 + 40 + 12 + 32 * cnt
                    ln = env["length"] if cut else len(f.b)
                    okh = head["magic"] == D["magic"] and head["version"] <= 2 and head["nsec"] == 2 and head["type1"] == 1 and head["size1"] == 40 \
                        and head["fs"] == 32 and head["type2"] == 2 and head["size2"] == 32 * cnt and ln >= need
                    if not okh:
                        if replay(env, "a malformed witness file is accepted"):
                            return
                        raise Broken("acceptance does not replay")
                    ex = [1, cnt] + [x for y in vals[:cnt] for x in y]
                    bad = [(T.not_(all_([lt_prime(x) for x in vals[:cnt]])), "a value outside the field is accepted")]
                    bad += [(T.not_(T.eq(64, a, b)), "output word %d" % i) for i, (a, b) in enumerate(zip(o.value, ex)) if not (a is b) and a != b]
                    for cond, what in bad:
                        if type(cond) is int and not cond:
                            continue
                        r, m = smt.solve(conds + fixed + [cond], 60000)
                        if r == "sat":
                            if replay(Env(m), what):
                                return
                            raise Broken("counterexample does not replay")
                        if r == "unknown":
                            c.obligation(name, "reduced", time.time() - t0, "undecided")
                            return
                    if not fixed:
                        break
                    # the version is the only header field with several accepted values
                    conds.append(T.not_(all_(fixed)))
                continue
            if o.kind in ("limit", "unsupported"):
                c.obligation(name, "reduced", time.time() - t0, str(o.where)[:200])
                return
            # not accepted (an error, or the documented panic): the file must not be well formed
            r, m = smt.solve(o.state.pc + pre + [strict], 60000)
            if r == "sat":
                if o.kind == "hugealloc":
                    continue
                if replay(Env(m), "a well-formed witness file is rejected (%s %s)" % (o.kind, str(o.where)[:100])):
                    return
                raise Broken("rejection does not replay: %s %s" % (o.kind, o.where))
            if o.kind in ("memerr", "oob"):
                raise Broken("memory error: %s" % o.where)
        c.obligation(name, "holds", time.time() - t0, "%d runs" % len(outs))
        c.samples.append(name)
    for nv in range(5 if vlib.TIER == "quick" else 9):
        go("%d values" % nv, nv, ())
        go("%d values, cut short" % nv, nv, (), cut=True)
        for s in D:
            go("%d values, any %s" % (nv, s), nv, (s,))
        go("%d values, any count and section size" % nv, nv, ("n", "size2"))
        go("%d values, any header" % nv, nv, ("magic", "version", "nsec", "type1", "size1", "fs", "type2"))


def wref(bs):
    try:
        u4 = lambda o: struct.unpack_from("<I", bs, o)[0]      # noqa: E731
        u8 = lambda o: struct.unpack_from("<Q", bs, o)[0]      # noqa: E731
        if bs[:4] != b"wtns" or u4(4) > 2 or u4(8) != 2 or u4(12) != 1 or u8(16) != 40 or u4(24) != 32:
            return None
        n = u4(60)
        if u4(64) != 2 or u8(68) != 32 * n or len(bs) < 76 + 32 * n:
            return None
        out = [1, n]
        for i in range(n):
            v = int.from_bytes(bs[76 + 32 * i:108 + 32 * i], "little")
            if v >= P:
                return None
            out += [v >> 64 * k & 2**64 - 1 for k in range(4)]
        return out
    except struct.error:
        return None


def c33(c):
    """the glue between the client and the proof system: spartan_wasm's prove, verify and poseidon"""
    h = harness(c)
    R = Runner(c, h, ["g_prove", "g_verify", "g_poseidon"])
    deep = vlib.TIER == "thorough"
    label = {}
    c.assumptions += ["the proof system, transcript and hash function are stand-ins that record what they are handed; bincode and byteorder are the real crates"]
    c.bounds += ["public inputs: 0..%d values, witness: 0..%d values, all bytes symbolic; declared sizes symbolic (64 bit) except the number of public inputs" % ((6, 6) if deep else (5, 3))]

    def words(n, k):
        return [[T.var("%s%d_%d" % (n, i, q), 64) for q in range(4)] for i in range(k)]

    def compare(name, entry, ws, pre, expect, nout, wf=None):
        """expect(label) -> list of words; wf: condition under which an answer is required (None: always)"""
        t0 = time.time()
        outs, e = R.run(entry, None, nout, raw_words=ws, pre=pre, alloc_limit=1 << 18)
        done = False
        for o in outs:
            conds = []
            if o.kind != "ret":
                conds = [(1, "ends in %s: %s" % (o.kind, str(o.where)[:150]))]
            else:
                ex = expect(o.value)
                conds = [(T.not_(T.eq(64, a, b)), "word %d of the observed calls" % k) for k, (a, b) in enumerate(zip(o.value, ex)) if not (a is b) and not (type(a) is int and a == b)]
            for cond, what in conds:
                if type(cond) is int and not cond:
                    continue
                r, mod = smt.solve(o.state.pc + list(pre) + [cond] + ([wf] if wf is not None and type(wf) is not int else []), 60000)
                if r == "unsat":
                    continue
                if r == "unknown":
                    c.obligation(name, "reduced", time.time() - t0, "solver undecided")
                    done = True
                    continue
                env = Env(mod)
                got, cw = R.native(entry, env, None, raw_words=ws)
                ex = None if got == "panic" else [x if type(x) is int else T.evaluate(x, env) for x in expect(got)]
                if got != "panic" and got[:len(ex)] == ex:
                    raise Broken("counterexample does not replay: " + what)
                c.obligation(name, "violated", time.time() - t0, what)
                c.violation("%s: %s" % (name, what), {"entry": entry, "words": ["%x" % x for x in cw], "got": got if got == "panic" else got[:len(ex)], "expected": ex})
                return False
        if not outs:
            raise Broken("no run of %s reaches its end" % entry)
        if not done:
            c.obligation(name, "holds", time.time() - t0)
        env = {}
        for n, v in T.variables([w for w in ws if type(w) is not int]).items():
            env[n] = RNG.randrange(1 << (v.w - (16 if n.endswith("_3") else 0)))
        got, _ = R.native(entry, env, None, raw_words=ws)
        ex = got if got == "panic" else [x if type(x) is int else T.evaluate(x, env) for x in expect(got)]
        if got == "panic" or got[:len(ex)] != ex:
            raise Broken("encoding and compiled program differ on a random input of " + name)
        return True

    def logged(got, at, kind, rest):
        """[len, kind, label...]: the label is whatever the code uses, but one and the same for proving and verifying"""
        n = got[at + 2]
        if type(n) is not int or n > 64:
            n = 0
        lab = tuple(got[at + 3:at + 3 + n])
        if all(type(x) is int for x in lab):
            label.setdefault(kind, lab)
        want = list(label.get(3 - kind, lab))
        body = [kind, len(want)] + want + rest
        return [len(body)] + body

    for ni, nw in [(0, 0), (1, 1), (2, 3), (5, 2)] + ([(3, 6), (6, 4)] if deep else []):
        nc, nv = T.var("num_cons", 64), T.var("num_vars", 64)
        pubs, wit = words("pub", ni), words("wit", nw)
        flat = [x for p in pubs for x in p]
        wflat = [x for p in wit for x in p]
        pre = [lt_prime(x) for x in pubs + wit]
        proof = 0x70726f6f66
        if not compare("prove hands over circuit, witness and public inputs (%d inputs, %d witness values)" % (ni, nw), "g_prove",
                       [nc, nv, ni, ni, nw] + flat + wflat, pre,
                       lambda got: [1, 8] + list(proof.to_bytes(8, "little")) + logged(got, 10, 1, [nc, nv, ni, nc, nv, ni, ni] + flat + [nw] + wflat), 400):
            return
        ok, pid = T.var("accepted", 64), T.var("proof", 64)
        if not compare("verify hands over circuit, proof and public inputs and returns the verdict (%d inputs)" % ni, "g_verify",
                       [nc, nv, ni, ni, T.and_(64, ok, 1), pid] + flat, pre[:ni],
                       lambda got: [T.and_(64, ok, 1)] + logged(got, 1, 2, [nc, nv, ni, nc, nv, ni, ni] + flat + [pid]), 400):
            return
    x, r = words("x", 2), words("r", 1)[0]
    compare("poseidon hashes the two numbers in order and returns the digest", "g_poseidon", x[0] + x[1] + r, [lt_prime(v) for v in x + [r]],
            lambda got: [1, 32] + r + [1] + x[0] + x[1], 20)


def c34(c):
    """circuit wires 0 (the constant one) and 1..public inputs must be the instance's constant and input columns"""
    h = harness(c)
    R = Runner(c, h, ["h_convert"])
    shapes = [((1, 1, 1),), ((2, 0, 1), (0, 1, 2))] + ([((1, 2, 1), (3, 1, 1), (0, 2, 2))] if vlib.TIER == "thorough" else [])
    c.bounds.append("circuits of %s terms per vector; wire indices, coefficients, declared wires and public inputs symbolic (64 bit, counts below 2^32)" % (shapes,))
    c.assumptions.append("an instance of V variables and k inputs is evaluated on (variables, 1, inputs): column V is the constant, columns V+1.. are the inputs (C10 and C15 concern that evaluation)")
    for sh in shapes:
        t0 = time.time()
        nv, ni, pub = T.var("num_variables", 64), T.var("num_inputs", 64), T.var("num_pub_inputs", 64)
        words, pre, wires = [len(sh), nv, ni, pub], [T.ult(64, nv, 1 << 32), T.ult(64, pub, 1 << 32), T.ult(64, ni, 1 << 32), T.ult(64, pub, nv)], [[], [], []]
        for i, cns in enumerate(sh):
            for j, n in enumerate(cns):
                words.append(n)
                for k in range(n):
                    w = T.var("w%d_%d_%d" % (i, j, k), 64)
                    co = [T.var("c%d_%d_%d_%d" % (i, j, k, q), 64) for q in range(4)]
                    words += [w] + co
                    pre += [lt_prime(co), T.ult(64, w, nv)]
                    wires[j].append(w)
        name = "public wires are input columns in circuits of %s terms" % (sh,)
        outs, e = R.run("h_convert", None, 4000, raw_words=words, pre=pre)
        verdict = "holds"
        for o in outs:
            if o.kind != "ret":
                continue          # C10 decides whether the conversion completes
            V = o.value[1]
            linked, same, at = [], [], 3
            for v in wires:
                if o.value[at] != len(v):
                    c.obligation(name, "reduced", time.time() - t0, "entries are not one per term")
                    return
                at += 1
                for w in v:
                    col = o.value[at + 1]
                    linked.append(T.and_(1, T.or_(1, T.ult(64, pub, w), T.eq(64, col, T.add(64, V, w))), T.or_(1, T.ule(64, w, pub), T.ult(64, col, V))))
                    same.append(T.eq(64, col, w))
                    at += 6
            good = all_(linked)
            for extra, key in (([T.not_(all_(same))], "other"), ([], "identity")):
                cond = [T.not_(good)] + extra
                if any(type(x) is int and not x for x in cond):
                    continue
                r, mod = smt.solve(o.state.pc + pre + [x for x in cond if type(x) is not int], 60000)
                if r == "unsat":
                    continue
                if r == "unknown":
                    verdict = "reduced"
                    continue
                env = Env(mod)
                got, cw = R.native("h_convert", env, None, raw_words=words)
                # the concrete instance: columns against wires
                p2, at, bad, ident = T.evaluate(pub, env), 3, False, True
                for v in wires:
                    at += 1
                    for w in v:
                        ww, col = T.evaluate(w, env), got[at + 1]
                        bad |= (col != got[1] + ww) if ww <= p2 else col >= got[1]
                        ident &= col == ww
                        at += 6
                if not bad:
                    raise Broken("counterexample does not replay")
                what = "the constant wire and the public inputs of a circuit become ordinary variables of the proving instance, so a proof does not bind the public inputs" if ident else \
                    "a wire of the circuit becomes a wrong column of the proving instance"
                nvio = len(c.viol)
                c.violation("%s: %s" % (name, what), {"entry": "h_convert", "words": ["%x" % x for x in cw], "got": got[:at]}, key="wires-become-variables" if ident else "other")
                verdict = "violated" if len(c.viol) > nvio else "known"
                break
        c.obligation(name, verdict, time.time() - t0)
