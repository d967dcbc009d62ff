"""C15-C21, C27, C28: the Spartan crate run over symbolic field elements.

The crate's sources are compiled as they are, with the scalar type (and the group, represented by discrete logarithms)
replaced by values that record the expression they were computed with.  One run of a scenario is a symbolic execution:
every comparison the code makes becomes a path condition, every result an expression.  What has to hold is then an
identity over F_q, or the equivalence of the verifier's path condition with the equations of the protocol, for all
values of all variables."""
import os
import random
import re
import tempfile
import time

import ff
import sbuild
import vlib
from vlib import Broken

Q = ff.Q
QUICK = vlib.TIER == "quick"
SRC = vlib.REPO + "/packages/Spartan-secq/src"


def refute(d, prem, goal, tries=6):
    """values of the variables under which every premise holds and the goal does not (None: not found)"""
    rng = random.Random(5)
    roots = sorted({x for p in prem + [goal] for x in p})
    order = d.cone(roots)
    vs = [x for x in order if d.op[x] == "v"]
    free = [x for x in vs if not re.match(r"(chal|c\d|oracle)", d.name[x])] or vs
    for _ in range(tries):
        base = {x: rng.randrange(1, Q) for x in vs}
        used, done, ok = set(), [], True

        def diff(p):
            v = d.evaluate(d.cone(list(p)), frozenset(), base)
            return (v[p[0]] - v[p[1]]) % Q
        for p in prem:
            if diff(p) == 0:
                done.append(p)
                continue
            cv = set(d.cone(list(p)))
            solved = False
            cand = [x for x in reversed(free) if x in cv and x not in used] + [x for x in reversed(vs) if x in cv and x not in used and x not in free]
            for x in cand[:60]:
                old = base[x]
                f0 = diff(p)
                base[x] = (old + 1) % Q
                f1 = diff(p)
                s = (f1 - f0) % Q
                if s == 0:
                    base[x] = old
                    continue
                base[x] = (old - f0 * pow(s, Q - 2, Q)) % Q
                if diff(p) == 0 and all(diff(q) == 0 for q in done):
                    used.add(x)
                    solved = True
                    break
                base[x] = old
            if not solved:
                ok = False
                break
            done.append(p)
        if ok and diff(goal) != 0:
            return base
    return None


class Runner:
    def __init__(self, c, names):
        self.c, self.dropped = c, []
        work = vlib.workdir()
        try:
            self.s = sbuild.Spartan(work, names)
        except Broken as e:
            # some item the scenarios use may have another name or signature now: build what still can be built
            good = []
            for n in names:
                try:
                    sbuild.Spartan(work, [n])
                    good.append(n)
                except Broken:
                    self.dropped.append(n)
            if not good:
                raise e
            self.s = sbuild.Spartan(work, good)
        c.log("built the crate over symbolic scalars in %.1f s" % self.s.build_s)
        for n in self.dropped:
            c.obligation("scenario " + n, "reduced", note="the scenario does not compile against this tree")

    def one(self, job):
        """-> list of (name, verdict, note, replay)"""
        args, want, t_end = job
        out = []
        nm = " ".join(map(str, args))
        t0 = time.time()
        try:
            rc, txt, err = self.s.run(*args, timeout=max(10, min(280, t_end - t0)))
        except Exception as e:
            return [(nm, "reduced", "no answer in time: %s" % repr(e)[:80], None)], {"nodes": 0, "cmp": 0, "secs": time.time() - t0, "ne": []}
        rep = {"scenario": list(args), "how": "h_spartan " + nm}
        if rc:
            return [(nm, "violated", "the run ends abnormally (%d): %s" % (rc, err[-200:]), rep)], {"nodes": 0, "cmp": 0, "secs": 0, "ne": []}
        d = ff.Dag(txt)
        info = {"nodes": d.n, "cmp": 0, "ne": [], "paths": 1}
        path, asm, specs, inspec = None, [], [], False
        todo = []

        def late():
            return time.time() > t_end

        def add(name, verdict, note="", r=None):
            out.append(("%s: %s" % (nm, name), verdict, note, r))
        for f in d.events:
            k = f[0]
            if k == "PATH":
                path, asm, specs = f[1], [], []
            elif k == "ENDPATH":
                pass
            elif k == "ENDSPEC":
                todo.append((path, asm, specs))
                path = None
            elif k == "ASM":
                info["cmp"] += 1
                asm.append((int(f[1]), int(f[2])))
            elif k == "SPEC":
                specs.append((int(f[1]), int(f[2]), f[3]))
            elif k in ("CHECK", "DIFF", "FACT", "EQ"):
                todo.append(f)
            elif k == "NE":
                info["cmp"] += 1
                info["ne"].append(f[3] if len(f) > 3 else "")
            elif k == "REJ":
                info["paths"] += 1
            elif k == "SHAPES" and want != "main":
                info["paths"] += int(f[2]) + int(f[3])
            elif k == "SHAPES":
                info["paths"] += int(f[2]) + int(f[3])
                add(f[1] + ": %s malformed variants refused, %s differing only in elements that are never read" % (f[2], f[3]), "holds")
        seen = set()
        for f in todo:
            if isinstance(f, tuple):
                self.path(d, f, args, add, late, want)
                continue
            k = f[0]
            if k == "FACT":
                kind = f[2][:2] if f[2][:3] in ("FS:", "PT:") else "main"
                if want != kind:
                    continue
                t = f[2].replace("_", " ")
                add(t, "holds" if f[1] == "true" else "violated", "" if f[1] == "true" else t, rep)
            elif (want == "PT") != (f[-1].startswith("PT:") and k in ("CHECK", "DIFF")):
                continue
            elif want == "FS" and not (k == "EQ" and f[-1] == "encode"):
                continue
            elif k == "DIFF":
                v = d.values()
                add(f[3], "violated", f[3].replace("_", " "), dict(rep, name=f[3], left=hex(v[int(f[1])]), right=hex(v[int(f[2])])))
            else:
                info["cmp"] += k == "EQ"
                key = (k, f[1], f[2])
                if key in seen:
                    continue
                seen.add(key)
                name = f[3] if len(f) > 3 else "comparison"
                if late():
                    add(name, "reduced", "out of time")
                    continue
                r = d.prove_eq(int(f[1]), int(f[2]))
                if r == "holds":
                    add(("path: " if k == "EQ" else "") + name, "holds")
                elif r == "toobig":
                    add(name, "reduced", "expression too large")
                else:
                    # equal for these values only: another assignment shows the difference on the real code
                    rc, t2, _ = self.s.run(*args, env={"SEED": "90071"})
                    if k == "CHECK" and ("DIFF %s %s %s" % (f[1], f[2], f[3])) in t2:
                        add(f[3], "violated", f[3].replace("_", " "), dict(rep, seed=90071))
                    else:
                        add(name, "reduced", "the run depends on a coincidence of values")
        info["secs"] = time.time() - t0
        info["ne"] = sorted(set(info["ne"]))
        info["stats"] = None
        return out, info

    def path(self, d, item, args, add, late, want):
        if want != "main":
            return
        path, asm, specs = item
        sp = [(a, b) for a, b, _ in specs]
        t = path.replace("_", " ")
        gone = 0
        for what, prem, goals in (("accepted, although not", asm, [((a, b), n) for a, b, n in specs]),
                                  ("compared, although not required", sp, [(p, "comparison %d" % i) for i, p in enumerate(asm)])):
            for goal, n in goals:
                n = n.replace("_", " ")
                if late():
                    add("%s (%s)" % (n, t), "reduced", "out of time")
                    continue
                if d.prove_eq(*goal) == "holds" if not prem else False:
                    add(n, "holds")
                    continue
                r, lam = d.implied(prem, goal)
                if r == "holds":
                    add("%s %s" % (t if prem is sp else "accepted only if", n), "holds")
                    continue
                if r == "differs" and not prem:
                    r = "unknown"
                if r == "toobig":
                    add("%s (%s)" % (n, t), "reduced", "expression too large")
                    continue
                ce = refute(d, prem, goal)
                if ce is None:
                    add("%s (%s)" % (n, t), "reduced", "neither derived nor refuted")
                    continue
                ok, rep = self.replay(d, args, path, ce, prem is asm, n)
                if ok:
                    gone += 1
                    msg = "%s accepted although '%s' does not hold" % (t, n) if prem is asm else "%s refused (%s) although every equation of the protocol holds" % (t, n)
                    add(n, "violated", msg, rep)
                else:
                    add("%s (%s)" % (n, t), "reduced", "the counterexample does not replay: %s" % rep)
                if gone > 2:
                    return

    def replay(self, d, args, path, ce, accepted, name):
        with tempfile.NamedTemporaryFile("w", suffix=".vals", delete=False) as f:
            for x, v in d.val0.items():
                f.write("%s %x\n" % (d.name[x], ce.get(x, v)))
        try:
            rc, txt, err = self.s.run(*args, env={"VALS": f.name, "REPLAY": "1"})
        finally:
            os.unlink(f.name)
        res = [l for l in txt.split("\n") if l.startswith("REPLAY " + path + " ")]
        if not res:
            return False, "no replay (%d) %s" % (rc, err[-100:])
        o = res[0].split(" ", 2)[2]
        false = [l[12:] for l in txt.split("\n") if l.startswith("RSPEC false " + path + "/")]
        rep = {"scenario": list(args), "values": {d.name[x]: "%x" % ce.get(x, v) for x, v in d.val0.items()}, "verifier": o, "equations that fail": false[:10]}
        if accepted:
            return (o == "ok" and bool(false)), rep if o == "ok" else "verifier: " + o
        return (o != "ok"), rep if o != "ok" else "the verifier accepts these values"

    def go(self, jobs, want="main"):
        c = self.c
        jobs = [j for j in jobs if j[0] not in self.dropped]
        t_end = time.time() + c.left() * 0.95
        res = vlib.pmap(self.one, [(j, want, t_end) for j in jobs], t_end + 15)
        done = {tuple(it[0]) for it, v in res}
        ne = set()
        for it, v in res:
            if v is None:
                c.obligation(" ".join(map(str, it[0])), "error", note="the worker failed")
                continue
            rows, info = v
            c.paths += info.get("paths", 0)
            c.instrs += info.get("nodes", 0)
            c.validated += 1
            ne |= {"%s: %s" % (it[0][0], x) for x in info["ne"]}
            tot = {"holds": 0}
            for name, verdict, note, rep in rows:
                c.obl.append({"name": name, "verdict": verdict, "solver_s": 0, "note": note})
                if verdict == "violated":
                    c.log("violated:", name)
                    if len(c.viol) < 6:
                        c.violation("%s [%s]" % (note, name.split(":")[0]), rep, key=name)
                elif verdict != "holds":
                    c.log("%s: %s (%s)" % (verdict, name, note))
                    tot[verdict] = tot.get(verdict, 0) + 1
                else:
                    tot["holds"] += 1
            c.log("%s: %s; %d nodes, %.1f s" % (" ".join(map(str, it[0])), tot, info["nodes"], info["secs"]))
        for j in jobs:
            if tuple(j) not in done:
                c.obligation(" ".join(map(str, j)), "reduced", note="not reached in the time given")
        c.extra["path conditions that are not equations (values that must differ)"] = sorted(ne)
        c.extra["runs"] = len(done)
        c.samples += [" ".join(map(str, j)) for j in jobs[:8]]

    def describe(self, files, text):
        self.c.encoded |= functions(files)
        self.c.bounds.append(text)
        self.c.assumptions += COMMON


COMMON = [
    "the scalar field (C01-C03, C07) and the group (points are represented by their discrete logarithm) behave as a field and as a group of the same order",
    "challenges, generators and blinds are independent variables: each is a fresh variable determined by what was absorbed before it",
    "comparisons of unequal expressions are assumed unequal (values in which they coincide are excluded, or are the accepting path of a verifier)",
]


def functions(files):
    r = set()
    for f in files:
        try:
            t = open(os.path.join(SRC, f)).read()
        except OSError:
            continue
        t = t.split("#[cfg(test)]")[0]
        r |= {"%s::%s" % (f, m) for m in re.findall(r"\bfn (\w+)", t)}
    return r


def pick(q, t):
    return list(q) if QUICK else list(q) + [x for x in t if x not in q]


def c15(c):
    r = Runner(c, ["poly"])
    n = range(6 if QUICK else 8)
    r.describe(["dense_mlpoly.rs"], "number of variables 0..%d (equality and identity polynomials also %s); every coefficient and coordinate arbitrary" % (n[-1], ", ".join(str(8 * k + 3) for k in n if k < 8)))
    r.go([("poly", k) for k in n])


def c16(c):
    r = Runner(c, ["unipoly"])
    r.describe(["unipoly.rs"], "degrees 2 and 3 (the only ones the code supports); every value arbitrary")
    r.go([("unipoly", 3), ("unipoly", 4)])


def c17(c):
    r = Runner(c, ["sum_cubic", "sum_batched", "sum_verify", "zk_quad", "zk_cubic", "zk_verify"])
    M = 3 if QUICK else 5
    j = [("sum_cubic", m) for m in range(1, M + 1)]
    j += [("sum_batched", m, a, b) for m in range(1, M) for a in (1, 2) for b in (0, 1, 2)]
    for m in range(0, M + 1):
        for dg in (2, 3):
            j += [("sum_verify", m, dg)] + ([("zk_verify", m, dg)] if m else [])
    j += [(k, m) for k in ("zk_quad", "zk_cubic") for m in range(1, M + 1)]
    r.describe(["sumcheck.rs", "unipoly.rs", "nizk/mod.rs", "commitments.rs"], "up to %d rounds, degrees 2 and 3, up to 2 instances of each kind in a batch" % M)
    r.go(j)


def c18(c):
    r = Runner(c, ["instance", "refuse", "synth"])
    j = [("instance", *x) for x in pick([(0, 1, 0), (1, 1, 0), (2, 1, 0), (1, 0, 0), (3, 2, 1), (2, 3, 1), (4, 4, 3), (5, 3, 4), (1, 2, 5), (8, 8, 7)], [(9, 5, 2), (3, 9, 3), (2, 2, 9), (16, 16, 15)])]
    j += [("refuse", *x) for x in [(1, 1, 0), (2, 2, 1), (4, 4, 2), (3, 5, 0)]]
    j += [("synth", *x) for x in [(2, 1, 0), (4, 4, 2), (8, 8, 3)]]
    r.describe(["lib.rs", "r1csinstance.rs"], "up to %s; all matrix entries (every position and one position twice), assignments and inputs arbitrary" % ("8 constraints, 8 variables, 7 inputs" if QUICK else "16 constraints, 16 variables, 15 inputs"))
    r.go(j)


def c19(c):
    r = Runner(c, ["knowledge", "equality", "product", "dotprod", "dotlog"])
    j = [("knowledge",), ("equality",), ("product",)]
    j += [("dotprod", n) for n in range(1, 5 if QUICK else 9)]
    j += [("dotlog", n) for n in ((1, 2, 4, 8) if QUICK else (1, 2, 4, 8, 16))]
    r.describe(["nizk/mod.rs", "nizk/bullet.rs", "commitments.rs"], "vectors of up to %d (dot product) and %d (logarithmic) elements; every response, commitment and challenge arbitrary" % (4 if QUICK else 8, 8 if QUICK else 16))
    r.go(j)


def c20(c):
    r = Runner(c, ["nizk", "nizk_verify", "snark"])
    z = pick([(2, 1, 0), (1, 1, 0), (2, 2, 1), (4, 4, 2)], [(3, 3, 2), (8, 4, 3), (4, 8, 1)])
    j = [("nizk_verify", *x) for x in z] + [("nizk", *x) for x in z]
    j += [("snark", *x) for x in pick([(2, 1, 0), (2, 2, 1)], [(4, 4, 2)])]
    r.describe(["lib.rs", "r1csproof.rs", "r1csinstance.rs", "sumcheck.rs", "dense_mlpoly.rs", "nizk/mod.rs", "nizk/bullet.rs", "sparse_mlpoly.rs", "product_tree.rs", "transcript.rs", "random.rs"],
               "instances (constraints, variables, inputs) in %s; every proof element, input, assignment and challenge arbitrary" % z)
    r.go(j)


def c21(c):
    names = ["transcript", "knowledge", "equality", "product", "dotprod", "dotlog", "polycommit", "sum_verify", "zk_verify", "zk_quad", "zk_cubic", "sum_cubic", "sum_batched", "nizk_verify", "nizk", "snark", "prodproof", "prodbatch", "sparse_proof"]
    r = Runner(c, names)
    j = [("transcript",), ("knowledge",), ("equality",), ("product",), ("dotprod", 3), ("dotlog", 4), ("polycommit", 3, 0), ("polycommit", 2, 1),
         ("sum_verify", 3, 3), ("zk_verify", 3, 3), ("zk_quad", 2), ("zk_cubic", 2), ("sum_cubic", 2), ("sum_batched", 2, 2, 2), ("nizk", 2, 2, 1), ("nizk_verify", 2, 2, 1), ("nizk_verify", 4, 4, 2),
         ("snark", 2, 2, 1), ("prodproof", 3), ("prodbatch", 2, 2, 2), ("sparse_proof", 1, 1, 2)]
    if not QUICK:
        j += [("dotlog", 8), ("snark", 4, 4, 2), ("sparse_proof", 2, 2, 4), ("nizk_verify", 8, 4, 3)]
    r.describe(["transcript.rs", "random.rs", "lib.rs", "r1csproof.rs", "sumcheck.rs", "nizk/mod.rs", "nizk/bullet.rs", "dense_mlpoly.rs", "sparse_mlpoly.rs", "product_tree.rs"], "the protocols of C17, C19, C20, C27 and C28 at small sizes; every absorbed value arbitrary")
    r.go(j, "FS")


def c27(c):
    r = Runner(c, ["commit", "gens", "polycommit"])
    j = [("commit", n) for n in (1, 2, 3, 4, 8)] + [("gens", n) for n in (1, 2, 4, 8)]
    j += [("polycommit", e, z) for e in range(0, 5 if QUICK else 7) for z in (0, 1)]
    r.describe(["commitments.rs", "dense_mlpoly.rs", "group.rs", "nizk/mod.rs", "nizk/bullet.rs"], "vectors of up to 8 scalars, polynomials of up to %d variables; every value arbitrary" % (4 if QUICK else 6))
    r.go(j)


def c28(c):
    r = Runner(c, ["circuit", "prodproof", "prodbatch", "sparse", "sparse_proof"])
    j = [("circuit", m) for m in range(1, 5)] + [("prodproof", m) for m in range(1, 4 if QUICK else 5)]
    j += [("prodbatch", m, a, b) for m in (1, 2) for a in (1, 2) for b in (0, 2)]
    j += [("sparse", *x) for x in [(1, 1, 1), (1, 1, 2), (2, 2, 3), (2, 1, 4)]]
    j += [("sparse_proof", *x) for x in pick([(1, 1, 2), (2, 2, 3)], [(2, 2, 4), (1, 1, 4)])]
    r.describe(["product_tree.rs", "sparse_mlpoly.rs", "sumcheck.rs", "dense_mlpoly.rs"], "product trees of up to 16 leaves, batches of 2 products and 2 dot products, 3 sparse matrices of up to 4x4 with up to %d entries" % (3 if QUICK else 4))
    r.go(j)


def c38(c):
    r = Runner(c, ["points", "knowledge", "equality", "product", "dotprod", "dotlog", "polycommit", "zk_verify", "nizk_verify", "nizk", "snark", "prodbatch", "sparse_proof"])
    j = [("points",), ("knowledge",), ("equality",), ("product",), ("dotprod", 3), ("dotlog", 4), ("polycommit", 3, 0), ("polycommit", 4, 0), ("zk_verify", 3, 3), ("zk_verify", 2, 2), ("nizk_verify", 2, 2, 1), ("nizk", 2, 2, 1), ("nizk_verify", 4, 4, 2),
         ("snark", 2, 2, 1), ("sparse_proof", 1, 1, 2)]
    if not QUICK:
        j += [("dotlog", 16), ("snark", 4, 4, 2), ("sparse_proof", 2, 2, 4), ("nizk_verify", 8, 8, 3)]
    r.describe(["group.rs", "errors.rs", "lib.rs", "r1csproof.rs", "sumcheck.rs", "nizk/mod.rs", "nizk/bullet.rs", "dense_mlpoly.rs", "sparse_mlpoly.rs"],
               "proofs of the listed sizes with any one point replaced by an encoding of no point, every other element arbitrary; every comparison that the verifier makes taken as passed")
    r.go(j, "PT")
