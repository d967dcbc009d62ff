"""C25, C32: the TypeScript client.  The library's TypeScript is compiled with its operators and conditions redirected
into a symbolic runtime (ts/sym.js) and run by node, so that integers, bytes, hex strings and booleans are solver terms;
branches are explored by re-execution with z3 deciding feasibility, and every obligation is a z3 query.  elliptic and
bn.js are stand-ins with linear combinations of abstract group elements.  A counterexample is replayed on the code
compiled without the redirection."""
import json
import os
import random
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import smt
import vlib
from vlib import Broken

TS = os.path.join(vlib.ROOT, "ts")
REPO = vlib.REPO
FIELDS = ["merkleRoot", "Tx", "Ty", "Ux", "Uy"]


def node(job, timeout):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", dir=vlib.workdir(), delete=False) as f:
        json.dump(job, f)
    t0 = time.time()
    try:
        p = subprocess.run(["node", "--stack-size=4000", os.path.join(TS, "run.js"), REPO, "@" + f.name], capture_output=True, text=True, timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "fails": [], "error": "no answer in %d s" % timeout, "s": time.time() - t0}
    finally:
        os.unlink(f.name)
    try:
        o = json.loads(p.stdout.strip().split("\n")[-1])
    except (ValueError, IndexError):
        o = {"status": "error", "fails": [], "error": (p.stderr or p.stdout)[-400:]}
    o["s"] = time.time() - t0
    return o


def rnd_model(o, rng):
    m = {}
    for n, b in o.get("vars", []):
        v = rng.getrandbits(b)
        if rng.random() < 0.3:
            v &= (1 << rng.randrange(1, b + 1)) - 1
        m[n] = str(v)
    return m


def run(c, jobs):
    """jobs: [(name, job, fields to free one at a time when the joint case is out of reach)]"""
    smt_q = smt.STATS
    files = set()
    rng = random.Random(vlib.SEED)
    reported = []

    deep = vlib.TIER == "thorough"

    def one(j):
        name, job, split = j
        o = node(job, 600 if deep else min(45, c.left() - 60))
        if o["status"] in ("unsupported", "timeout") and split:
            if c.left() < 120:
                return o
            with ThreadPoolExecutor(4) as px:
                parts = list(px.map(lambda f: node(dict(job, only=f), 900 if deep else min(100, c.left() - 60)), split))
            bad = [p for p in parts if p["status"] != "ok"]
            r = dict(bad[0] if bad else parts[0])
            for k in ("paths", "queries", "ms", "obligations", "terms"):
                r[k] = sum(p.get(k, 0) for p in parts)
            r["split"] = len(split)
            return r
        return o
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    for (name, job, split), o in zip(jobs, res):
        c.paths += o.get("paths", 0)
        c.instrs += o.get("terms", 0)
        files |= set(o.get("files", []))
        smt_q["queries"] += o.get("queries", 0)
        smt_q["solver_s"] += o.get("ms", 0) / 1000
        smt_q["unsat"] += o.get("obligations", 0) - len(o["fails"])
        smt_q["sat"] += len(o["fails"])
        if o["status"] == "ok":
            c.obligation(name + ({0: "", 1: " (numbers of full length)"}.get(o.get("split", 0), " (one number at a time short, the others of full length)")), "holds", o.get("ms", 0) / 1000, "%d paths, %d obligations" % (o.get("paths", 0), o.get("obligations", 0)))
            continue
        hit = None
        models = [f["model"] for f in o["fails"] if f.get("model")][:3] + [rnd_model(o, rng) for _ in range(4)]
        for m in models:
            r = node(dict(job, model=m), 60)
            c.validated += 1
            if r["status"] == "fail":
                hit = r
                break
        if hit:
            what = hit["fails"][0]["what"]
            if (job["task"], what) not in reported:
                reported.append((job["task"], what))
                c.violation("%s: %s" % (name, what), {"job": job, "input": hit.get("model", m), "fails": [f["what"] for f in hit["fails"]]}, key="%s:%s" % (job["task"], what))
            c.obligation(name, "violated", o.get("ms", 0) / 1000, what)
        else:
            c.obligation(name, "reduced", o.get("ms", 0) / 1000, "%s %s" % (o["status"], (o.get("error") or (o["fails"] and o["fails"][0]["what"]) or "")[:300]))
    # the symbolic runtime agrees with node on concrete data: obligations evaluated on random inputs of the real code
    for (name, job, split), o in zip(jobs, res):
        if o["status"] != "ok" or c.left() < 60:
            continue
        m = rnd_model(o, rng)
        m["wasm_throws"] = 0
        r = node(dict(job, model=m), 60)
        c.validated += 1
        if r["status"] == "fail":
            what = r["fails"][0]["what"]
            c.violation("%s: %s (found on a run of the real code, not by the solver)" % (name, what), {"job": job, "input": r.get("model", m)}, key="%s:%s" % (job["task"], what))
            c.obligation(name + " native agreement", "violated")
    c.encoded |= files
    c.assumptions += ["elliptic computes group operations correctly (products with the precomputed generator only for non-negative scalars) and pointFromX yields the point with the given abscissa and parity or throws; bn.js integers are exact",
                      "node's Buffer, Uint8Array and BigInt behave as modelled (compared with node on concrete runs of the same obligations)",
                      "derived points are finite: 1 <= r < n and the message hash is not a multiple of n"]


def c25(c):
    Ls = [32] if vlib.TIER == "quick" else [0, 1, 31, 32, 33, 64]
    jobs = []
    for L in [0, 1, 32, 33] if vlib.TIER == "quick" else [0, 1, 2, 16, 31, 32, 33, 64, 100]:
        jobs.append(("serialization layout and read-back, %d-byte message hash" % L, {"task": "ser", "arg": L}, FIELDS + ["r", "v"] if L == 32 else ["none"]))
        jobs.append(("deserialization, %d-byte message hash" % L, {"task": "deser", "arg": L}, FIELDS + ["r", "v"] if L == 32 else ["none"]))
    for n in [1, 2, 3, 32]:
        jobs.append(("integer/byte conversions, %d bytes" % n, {"task": "utils", "arg": n}, None))
    for L in Ls:
        jobs.append(("derived points, %d-byte message hash" % L, {"task": "compute", "arg": [L, False]}, ["none"]))
        jobs.append(("derived points for other recovery values, %d-byte message hash" % L, {"task": "compute", "arg": [L, True]}, ["none"]))
        jobs.append(("public-input check accepts exactly the derived points, %d-byte message hash" % L, {"task": "check", "arg": [L, False]}, ["none"]))
        jobs.append(("public-input check for other recovery values, %d-byte message hash" % L, {"task": "check", "arg": [L, True]}, ["none"]))
        jobs.append(("verifier accepts exactly a right proof with right public input, %d-byte message hash" % L, {"task": "verify", "arg": [L, False]}, ["none"]))
        jobs.append(("verifier for other recovery values, %d-byte message hash" % L, {"task": "verify", "arg": [L, True]}, ["none"]))
    c.bounds += ["values: every 256-bit integer and byte; r in 1..n-1 for the derived points", "message hash lengths: those named in the obligations"]
    run(c, jobs)


def c32(c):
    jobs = [("prover hands over what the signature and Merkle proof say, %d-byte message hash" % L, {"task": "prove", "arg": [L]}, ["none"]) for L in ([32] if vlib.TIER == "quick" else [0, 1, 32, 33])]
    jobs += [("signature parsing", {"task": "sig"}, None)]
    jobs += [("hash of %d numbers and public-key hash" % n, {"task": "poseidon", "arg": n}, ["x%d" % i for i in range(n)]) for n in ([1, 2, 3] if vlib.TIER == "quick" else [0, 1, 2, 3, 5, 8])]
    c.bounds += ["values: every 256-bit integer and byte; Merkle proofs of two levels (passed through unread)", "message hash lengths and hash arities named in the obligations"]
    c.assumptions += ["@ethereumjs/util's fromRpcSig splits the signature; snarkjs and the WebAssembly module are observed through their arguments"]
    run(c, jobs)


def c36(c):
    deep = vlib.TIER == "thorough"
    jobs = []
    for d in [1, 2, 3] if not deep else [1, 2, 3, 4, 5]:
        for ops in [[], [-1], [-1, -1], [-1, -1, 0], [-1, -1, -1], [-1, -1, -1, 1], [-1, 0, -1], [-1, -1, -1, -1, 2]]:
            if sum(o < 0 for o in ops) <= 2 ** d:
                jobs.append(("tree of depth %d after %s" % (d, " ".join("insert" if o < 0 else "delete(%d)" % o for o in ops) or "nothing"), {"task": "tree", "arg": [d, ops]}, None))
    c.bounds += ["leaves, looked-up value and other root: every 256-bit number; the hash: any function", "depths and sequences of operations: those named in the obligations"]
    run(c, jobs)
    c.assumptions[-3:] = ["@zk-kit/incremental-merkle-tree (not shipped) behaves as documented: a stand-in with its interface", c.assumptions[-2]]
