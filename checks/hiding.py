"""C37: what a proof shows does not depend on the witness.

The prover runs over symbolic values (see spartan.py).  Every element of the proof is then a polynomial in the values
the prover drew from its random tape and in the free part of the witness (challenges, generators and the circuit's
coefficients are numbers here).  Elements are solved one after the other for a tape value that occurs in them only
linearly with a constant coefficient: for every witness this is a bijection between those tape values and those
elements, so the elements are uniform.  What is left must be a function of the elements and public values alone:
the solver is asked whether two witnesses can give different values."""
import os
import random
import re
import tempfile
import time

import ff
import sbuild
import spartan
import vlib
from vlib import Broken

Q = ff.Q
QUICK = vlib.TIER == "quick"
LIMIT = 60000


class Big(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        t = (r.get(m, 0) + k * c) % Q
        if t:
            r[m] = t
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 20 * LIMIT:
        raise Big()
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            r[k] = (r.get(k, 0) + c * e) % Q
    if len(r) > LIMIT:
        raise Big()
    return {m: c for m, c in r.items() if c}


def vars_of(p): return {v for m in p for v in m}


def subst(p, x, q):
    """p with x replaced by the polynomial q"""
    out, pw = {}, {}
    for m, c in p.items():
        k = m.count(x)
        if not k:
            out[m] = (out.get(m, 0) + c) % Q
            continue
        if k not in pw:
            y = q
            for _ in range(k - 1):
                y = pmul(y, q)
            pw[k] = y
        rest = tuple(v for v in m if v != x)
        for n, e in pw[k].items():
            t = tuple(sorted(rest + n)) if rest and n else rest or n
            out[t] = (out.get(t, 0) + c * e) % Q
    if len(out) > LIMIT:
        raise Big()
    return {m: c for m, c in out.items() if c}


class Run:
    """one run of the prover"""

    def __init__(self, s, args, timeout, env=None, raw=()):
        rc, txt, err = s.run(*args, timeout=timeout, env=env)
        self.rc, self.err = rc, err
        self.d = d = ff.Dag(txt)
        self.elems = [(f[1], int(f[2])) for f in d.events if f[0] == "ELEM"]
        # the transcript of the proof itself is not a source of secrets
        main = next((int(f.split(" ")[1]) for f in txt.split("\n") if f.startswith("TNEW ") and f.endswith(" t")), None)
        self.facts = [f[2].replace("_", " ") for f in d.events if f[0] == "FACT" and f[1] != "true"]
        rnd = {x for x, n in d.name.items() if re.match(r"rnd(#|$)", n)}
        self.rnd = rnd
        self.val = d.values()
        dep = set(rnd)          # everything computed from the operating system's randomness
        for x in range(d.n):
            if d.op[x] not in "kv" and (d.a[x] in dep or d.op[x] in "+-*" and d.b[x] in dep):
                dep.add(x)
        seeds = {self.val[x].to_bytes(32, "little").hex() for x in dep}
        self.tape = set(rnd)
        for t, ms in d.msgs.items():
            ok = False
            for m in ms:
                if m[0] == "m":
                    ok = ok or t in raw or any(m[2][i:i + 64] in seeds for i in range(0, len(m[2]) - 63, 2))
                elif ok and t != main:
                    self.tape.add(m[2])
        self.chal = {m[2] for ms in d.msgs.values() for m in ms if m[0] == "c"} - self.tape
        self.wit = {x for x, n in d.name.items() if re.match(r"w\d+(#|$)", n)}

    def polys(self):
        d = self.d
        roots = [x for _, x in self.elems]
        P = {}
        sym = self.tape | self.wit
        for x in d.cone(roots):
            o = d.op[x]
            if x in sym:
                P[x] = {(x,): 1}
                continue
            if o in "kv":
                P[x] = {(): self.val[x]} if self.val[x] else {}
                continue
            A = P[d.a[x]]
            if o == "n":
                P[x] = {m: Q - c for m, c in A.items()}
            elif o in "+-":
                P[x] = padd(A, P[d.b[x]], 1 if o == "+" else -1)
            elif o == "*":
                P[x] = pmul(A, P[d.b[x]])
            else:
                if set(A) - {()}:
                    raise Big()     # an inverse of something secret
                P[x] = {(): pow(A[()], Q - 2, Q)}
        return P


def reduce(run, P, c):
    """-> pivots [(element name, tape variable)], leftovers [(name, polynomial)]; ('E', k) stands for element k"""
    names, cur = [], []
    seen = set()
    for n, x in run.elems:
        if x in seen:
            continue
        seen.add(x)
        names.append(n)
        cur.append(dict(P[x]))
    K = lambda k: 10**9 + k
    tape = set(run.tape)
    pend = set(range(len(cur)))
    piv = []
    while True:
        best = None
        for k in pend:
            p = cur[k]
            cnt = {}
            for m in p:
                for v in set(m):
                    if v in tape:
                        cnt[v] = cnt.get(v, 0) + 1
            for v, n in cnt.items():
                if n == 1 and (v,) in p:
                    # a value that occurs in few other elements keeps the substitution small
                    w = (len(p), v)
                    if best is None or w < best[0]:
                        best = (w, k, v)
        if best is None:
            break
        _, k, v = best
        p = cur[k]
        i = pow(p[(v,)], Q - 2, Q)
        q = {m: -e * i % Q for m, e in p.items() if m != (v,)}
        q[(K(k),)] = i
        pend.discard(k)
        for j in pend:
            cur[j] = subst(cur[j], v, q)
        piv.append((k, v))
    return names, piv, [(k, cur[k]) for k in sorted(pend)], K


def depends(p, wit):
    """can p differ for two witnesses? the solver's answer"""
    idx = {}

    def key(m, other):
        k = tuple((v, other and v in wit) for v in m)
        return 0 if not k else idx.setdefault(k, len(idx) + 1)
    l = {key(m, False): c for m, c in p.items()}
    r = {key(m, True): c for m, c in p.items()}
    return ff.zquery(l, r)


def ev(p, val):
    t = 0
    for m, c in p.items():
        for v in m:
            c = c * val[v] % Q
        t += c
    return t % Q


def job(a):
    s, args, t_end = a
    nm = " ".join(map(str, args))
    rows = []

    def add(name, verdict, note="", rep=None):
        rows.append(("%s: %s" % (nm, name), verdict, note, rep))
    t0 = time.time()
    left = lambda: max(10, t_end - time.time())
    try:
        r = Run(s, args, left())
    except Exception as e:
        add("run", "reduced", repr(e)[:120])
        return rows, {}
    if r.rc or not r.elems:
        add("the prover finishes", "violated" if r.rc or r.facts else "reduced", "the prover ends abnormally: %s" % (r.facts[:1] or r.err[-200:]), {"scenario": args})
        return rows, {}
    if not r.tape:
        # bytes straight from the operating system differ from run to run
        o = Run(s, args, left())
        raw = {t for t in r.d.msgs if any(a[0] == "m" and a[2] != b[2] for a, b in zip(r.d.msgs[t], o.d.msgs.get(t, [])))}
        if raw:
            r = Run(s, args, left(), None, raw)
    info = {"nodes": r.d.n, "elements": len(r.elems), "tape": len(r.tape), "witness": len(r.wit)}
    try:
        P = r.polys()
        names, piv, rest, K = reduce(r, P, None)
    except Big:
        add("elimination", "reduced", "expressions too large or an inverse of a secret")
        return rows, info
    val = dict(r.val)
    first = {}
    for n, x in r.elems:
        first.setdefault(x, n)
    ids = list(first)
    for k in range(len(ids)):
        val[K(k)] = r.val[ids[k]]
    add("%d of %d elements are uniform for every witness (one tape value each)" % (len(piv), len(names)), "holds")
    tape = {v for p in P.values() for v in vars_of(p)} & r.tape
    for k, p in rest:
        if not (vars_of(p) & r.wit):
            if time.time() > t_end:
                add(names[k], "reduced", "out of time")
                continue
            add("%s is a function of the other elements" % names[k], "holds" if depends(p, r.wit) == "unsat" else "reduced")
            continue
        if depends(p, r.wit) == "unsat":
            add("%s is a function of the other elements" % names[k], "holds")
            continue
        if vars_of(p) & r.tape:
            add("%s is a function of the other elements" % names[k], "reduced", "depends on the witness and on tape values without a constant coefficient")
            continue
        # the real prover on another witness, with the same challenges and another tape
        rng = random.Random(vlib.SEED + k)
        ch = {r.d.name[x]: rng.randrange(1, Q) for x in (r.wit | r.tape)}      # values of the variables in the second run
        ok, note = False, "no replay"
        with tempfile.NamedTemporaryFile("w", suffix=".vals", delete=False) as f:
            for x, v in r.d.val0.items():
                f.write("%s %x\n" % (r.d.name[x], ch.get(r.d.name[x], v)))
        try:
            o = Run(s, args, left(), {"VALS": f.name})
            if not o.rc and [n for n, _ in o.elems] == [n for n, _ in r.elems]:
                # a relation that holds between the elements of this proof and its witness, and with no other witness
                v2 = {K(i): o.val[dict(o.elems and [(n, x) for n, x in o.elems])[names[i]]] for i in range(len(ids))}
                by = {n: x for x, n in o.d.name.items()}
                w2 = {x: o.val[by[r.d.name[x]]] for x in r.wit if r.d.name[x] in by}
                mine = ev(p, {**v2, **w2})
                other = ev(p, {**v2, **{x: val[x] for x in r.wit}})
                e = v2[K(k)]
                ok = mine == e and other != e
                note = {"element": names[k], "witness of this proof": {r.d.name[x]: hex(w2[x]) for x in w2}, "other witness": {r.d.name[x]: hex(val[x]) for x in w2},
                        "value in the proof": hex(e), "value the relation gives for its witness": hex(mine), "for the other witness": hex(other)}
        except Exception as e:
            note = repr(e)[:200]
        finally:
            os.unlink(f.name)
        name = "%s does not depend on the witness" % names[k]
        if ok:
            add(name, "violated", "the proof tells witnesses apart: %s, given the other elements, depends on the witness and is not masked" % names[k], dict(note, scenario=args))
        else:
            add(name, "reduced", "the difference does not replay: %s" % (note,))
    info["secs"] = time.time() - t0
    return rows, info


def c37(c):
    names = ["hide_nizk", "hide_snark"]
    work = vlib.workdir()
    dropped = []
    try:
        s = sbuild.Spartan(work, names)
    except Broken as e:
        s = sbuild.Spartan(work, names[:1])
        dropped = names[1:]
        c.obligation("scenario hide_snark", "reduced", note="the scenario does not compile against this tree")
    z = [(1, 2, 0), (2, 4, 1), (1, 4, 1), (4, 8, 2), (8, 16, 3), (2, 16, 1)] + ([] if QUICK else [(16, 32, 3), (2, 32, 1), (32, 64, 2), (64, 128, 5)])
    jobs = [("hide_nizk", *x) for x in z] + [("hide_snark", *x) for x in ([(2, 4, 1)] if QUICK else [(2, 4, 1), (4, 8, 2), (8, 16, 3)])]
    jobs = [j for j in jobs if j[0] not in dropped]
    c.encoded |= spartan.functions(["lib.rs", "r1csproof.rs", "sumcheck.rs", "dense_mlpoly.rs", "nizk/mod.rs", "nizk/bullet.rs", "commitments.rs", "random.rs", "transcript.rs"])
    c.bounds.append("instances (constraints, variables, inputs) in %s; every free witness variable and every tape value arbitrary; challenges, generators and coefficients of the circuit at one generic value each" % z)
    c.assumptions += spartan.COMMON[:2] + ["the random tape's outputs are independent and uniform once operating-system randomness has been absorbed into it", "the operating system's random numbers are uniform"]
    t_end = time.time() + c.left() * 0.9
    res = vlib.pmap(job, [(s, j, t_end) for j in jobs], t_end + 20)
    done = set()
    for it, v in res:
        nm = " ".join(map(str, it[1]))
        done.add(it[1])
        if v is None:
            c.obligation(nm, "error", note="the worker failed")
            continue
        rows, info = v
        c.paths += 1
        c.instrs += info.get("nodes", 0)
        c.validated += 1
        for name, verdict, note, rep in rows:
            c.obl.append({"name": name, "verdict": verdict, "solver_s": 0, "note": note})
            if verdict == "violated":
                c.log("violated:", name)
                if len(c.viol) < 6:
                    c.violation("%s [%s]" % (note, nm), rep, key=name)
            elif verdict != "holds":
                c.log("%s: %s (%s)" % (verdict, name, note))
        c.log(nm, info)
    for j in jobs:
        if j not in done:
            c.obligation(" ".join(map(str, j)), "reduced", note="not reached in the time given")
    c.samples += [" ".join(map(str, j)) for j in jobs]
