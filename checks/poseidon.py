"""C14: the native Poseidon hash and the circuit's are the same function, and that of the specification."""
import os
import random
import re
import shutil
import subprocess
import time
import circom
import circuits
import ff
import powform
import vlib
from circom import P, Circuit, CircomError
from vlib import Broken


def build(work):
    d = os.path.join(work, "poseidon")
    shutil.copytree(os.path.join(vlib.ROOT, "harness/poseidon"), d)
    shutil.copytree(vlib.REPO + "/packages/poseidon/src", d + "/src")
    for f in ("Cargo.toml", "stub/Cargo.toml"):
        t = open(os.path.join(d, f)).read().replace("SHIMS", os.path.join(vlib.ROOT, "harness/shims"))
        open(os.path.join(d, f), "w").write(t)
    tg = os.path.join(work, "target-poseidon")
    e = vlib.env(target=tg)
    e["RUSTFLAGS"] = "--cap-lints=allow"
    p = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode:
        raise Broken("the Poseidon harness does not build:\n" + p.stderr[-3000:])
    p = subprocess.run([os.path.join(tg, "debug/h_poseidon")], capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise Broken("the Poseidon harness fails: " + p.stderr[-500:])
    return p.stdout


class Rec:
    """what symfe recorded"""
    def __init__(self, text, mod=P):
        self.n, self.out, self.asked, self.mod = {}, {}, [], mod
        for l in text.split("\n"):
            f = l.split(" ")
            if f[0] == "N":
                self.n[int(f[1])] = f[2:]
            elif f[0] == "OUT":
                self.out[f[1]] = int(f[2])
            elif f[0] == "ASK":
                self.asked.append(f[1:])

    def value(self, i, leaf, add, mul, pw, inv=None, sqrt=None, memo=None):
        """evaluate node i in any domain"""
        memo = {} if memo is None else memo
        todo = [i]
        while todo:
            x = todo[-1]
            if x in memo:
                todo.pop()
                continue
            f = self.n[x]
            if f[0] == "k":
                memo[x] = leaf("k", int(f[1], 16))
            elif f[0] == "d":
                memo[x] = leaf("k", int(f[1]))
            elif f[0] == "v":
                memo[x] = leaf("v", f[1])
            else:
                deps = [int(f[1])] + ([int(f[2])] if f[0] in "+-*/" else [])
                miss = [y for y in deps if y not in memo]
                if miss:
                    todo += miss
                    continue
                a = memo[deps[0]]
                b = memo[deps[1]] if len(deps) > 1 else None
                memo[x] = add(a, b, 1) if f[0] == "+" else add(a, b, -1) if f[0] == "-" else mul(a, b) if f[0] == "*" else pw(a, int(f[2], 16)) if f[0] == "^" else inv(b) if f[0] == "/" else sqrt(a)
            todo.pop()
        return memo[i]

    def number(self, i, env):
        p = self.mod
        return self.value(i, lambda k, v: v % p if k == "k" else env[v], lambda a, b, s: (a + s * b) % p, lambda a, b: a * b % p, lambda a, k: pow(a, k, p), lambda a: pow(a, p - 2, p))


def circuit_form(circ, F, sig, memo):
    todo = [sig]
    while todo:
        s = todo[-1]
        if s in memo:
            todo.pop()
            continue
        if s not in circ.defs:
            memo[s] = F.var(s)
            continue
        p = circ.defs[s]
        miss = [v for v in p.vars() if v not in memo]
        if miss:
            todo += miss
            continue
        t = {}
        for m, k in p.d.items():
            x = F.const(k)
            for v in m:
                x = F.mul(x, memo[v])
            t = F.add(t, x)
        memo[s] = t
        todo.pop()
    return memo[sig]


def function(circ_prog, name):
    """value of a circom function without parameters"""
    c = Circuit.__new__(Circuit)
    c.pr, c.abs, c.steps = circ_prog, {}, 0
    try:
        c.run(circ_prog.fun[name][1], [{}], circom.Comp("f", "f", []))
    except circom.Ret as r:
        return r.v


def spec(F, x, rk, mds, full=8, partial=56, tag=3, alpha=5):
    """Poseidon, width 3 (Grassi et al.), output the second element of the state"""
    st = [F.const(tag), x[0], x[1]]
    for r in range(full + partial):
        st = [F.add(s, F.const(rk[3 * r + i])) for i, s in enumerate(st)]
        f = r < full // 2 or r >= full // 2 + partial
        st = [F.pow(s, alpha) if f or i == 0 else s for i, s in enumerate(st)]
        n = []
        for i in range(3):
            t = {}
            for j in range(3):
                t = F.add(t, st[j], mds[i][j])
            n.append(t)
        st = n
    return st[1]


class Nums:
    """the same operations on numbers"""
    const = staticmethod(lambda k: k % P)
    add = staticmethod(lambda a, b, k=1: ((a if a != {} else 0) + k * b) % P)
    pow = staticmethod(lambda a, k: pow(a, k, P))


def c14(c):
    c.bounds.append("no bound: every pair of field elements; all 64 rounds unrolled")
    c.assumptions += ["field arithmetic of the native element type is exact (C12)", "the round constants and the matrix of the circuit are the intended ones (their generation script is not run)"]
    txt = build(vlib.workdir())
    rec = Rec(txt)
    prog = circuits.program("../poseidon/poseidon.circom")
    try:
        circ = Circuit(prog, "Poseidon", abstract={})
    except CircomError as e:
        raise Broken("Poseidon: %s" % e)
    c.encoded |= {"poseidon.circom::" + t for t in circ.templates} | {"poseidon/lib.rs::" + f for f in ("hash", "add_constants", "matrix_mul", "full_round", "partial_round")} | {"poseidon_k256.rs::hash", "k256_consts.rs"}
    c.instrs += len(circ.defs) + len(rec.n)
    c.paths += 2
    ins = [circ.signame(x) for x in circ.main.sig["inputs"]]
    rk, mds = function(prog, "ROUND_KEYS"), function(prog, "MDS_MATRIX")
    if rec.asked:
        c.obligation("the native hash does not branch on values", "reduced", note="%d questions" % len(rec.asked))
    free = circuits.settle(circ) if circ.hints else []
    osig = circ.signame(circ.main.sig["out"])
    name = "every signal of the circuit is constrained to its value"
    if free:
        e = dict(zip(ins, (5, 7)))
        w = circuits.witness(circ, e)
        if w is None:
            c.obligation(name, "reduced", note="%d assigned signals without a determining constraint" % len(free))
        elif not circuits.forge(c, "Poseidon", circ, e, [osig], [w[osig]], free):
            c.obligation(name, "reduced", note="%d assigned signals without a determining constraint" % len(free))
    else:
        c.obligation(name, "holds")
    if circ.cons:
        name = "the circuit consists of definitions"
        bad = [e for e in ((5, 7), (0, 0), (P - 1, 2), (1 << 200, 3 << 190)) if circuits.witness(circ, dict(zip(ins, e))) is None]
        if bad:
            c.validated += 1
            c.obl.append({"name": name, "verdict": "violated", "solver_s": 0, "note": ""})
            c.violation("the circuit refuses a pair of field elements", {"inputs": [hex(z) for z in bad[0]]}, key="refuses")
        else:
            c.obligation(name, "reduced", note="%d further constraints" % len(circ.cons))
    F = powform.Forms()
    x = [F.var("in0"), F.var("in1")]
    memo = {ins[0]: x[0], ins[1]: x[1]}
    nat = {k: rec.value(i, lambda t, v: F.const(v) if t == "k" else F.var(v), F.add, F.mul, F.pow) for k, i in rec.out.items()}
    cir = circuit_form(circ, F, circ.signame(circ.main.sig["out"]), memo)
    ref = spec(F, x, rk, mds) if len(rk) >= 192 and len(mds) == 3 else None
    sh = lambda d: {k + 1: v for k, v in d.items()}
    rng = random.Random(vlib.SEED)
    for name, a, b, side in (("the native hash equals the circuit's output", nat["hash"], cir, ("n", "c")),
                             ("the native hash follows the specification", nat["hash"], ref, ("n", "s")),
                             ("the circuit follows the specification", cir, ref, ("c", "s")),
                             ("hashing again gives the same value", nat["again"], nat["hash"], ("a", "n"))):
        if b is None:
            c.obligation(name, "reduced", note="no constants")
            continue
        v = ff.zquery(sh(a), sh(b))
        if v == "unsat":
            c.obligation(name, "holds")
            continue
        for k in range(8):
            e = [rng.randrange(P), rng.randrange(P)] if k else [0, 0]
            num = {}
            for q in side:
                if q == "n" or q == "a":
                    num[q] = rec.number(rec.out["hash" if q == "n" else "again"], {"in0": e[0], "in1": e[1]})
                elif q == "s":
                    num[q] = spec(Nums, e, rk, mds)
                else:
                    w = circuits.witness(circ, dict(zip(ins, e)))
                    num[q] = w[circ.signame(circ.main.sig["out"])] if w else None
            c.validated += 1
            if len(set(num.values())) > 1:
                c.obl.append({"name": name, "verdict": "violated", "solver_s": 0, "note": ""})
                c.violation("not so: " + name, {"inputs": [hex(z) for z in e], "values": {q: hex(z) if z is not None else None for q, z in num.items()}}, key=name)
                break
        else:
            c.obligation(name, "reduced", note="forms differ, values agree")
    # layers
    layers(c, prog)


def layers(c, prog):
    """S-box, constants and mixing of the circuit on their own"""
    F = powform.Forms()
    rk, mds = function(prog, "ROUND_KEYS"), function(prog, "MDS_MATRIX")
    for t, args, want in (("SBox", [], lambda x: [F.pow(x[0], 5)]), ("MatrixMul", [], lambda x: [F.add(F.add(F.scale(x[0], m[0]), F.scale(x[1], m[1])), F.scale(x[2], m[2])) for m in mds]),
                          ("AddRoundConst", [0], lambda x: [F.add(x[i], F.const(rk[i])) for i in range(3)]), ("AddRoundConst", [189], lambda x: [F.add(x[i], F.const(rk[189 + i])) for i in range(3)])):
        try:
            k = Circuit(prog, t, args)
        except CircomError as e:
            c.obligation("layer " + t, "reduced", note=str(e))
            continue
        ins = [n for n in k.main.kind if k.main.kind[n] == "input"]
        outs = [n for n in k.main.kind if k.main.kind[n] == "output"]
        i = [k.signame(s) for n in ins for s in circom.flat(k.main.sig[n])]
        memo = {}
        got = [circuit_form(k, F, k.signame(s), memo) for n in outs for s in circom.flat(k.main.sig[n])]
        exp = want([F.var(s) for s in i])
        ok = len(got) == len(exp) and all(ff.zquery({x + 1: v for x, v in a.items()}, {x + 1: v for x, v in b.items()}) == "unsat" for a, b in zip(got, exp))
        c.obligation("layer %s%s" % (t, args or ""), "holds" if ok else "reduced", note="" if ok else "the layer alone is another function")
