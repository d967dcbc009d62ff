"""Shared machinery of the checks: building a harness to LLVM IR, running the native harness, evidence, verdicts."""
import atexit
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
RNG = random.Random(SEED)
STABLE = "stable-x86_64-unknown-linux-gnu"
REPO = os.environ.get("VERIF_REPO", "/repo")     # the variable is for experiments only


class Broken(Exception):
    """the check itself cannot answer"""


def workdir():
    keep = os.environ.get("VERIF_WORK")
    if keep:
        os.makedirs(keep, exist_ok=True)
        return keep
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="run-", dir=os.path.join(ROOT, "work"))
    atexit.register(shutil.rmtree, d, True)
    return d


def env(toolchain=STABLE, target=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if target:
        e["CARGO_TARGET_DIR"] = target
    return e


def llvm_bin():
    p = os.path.join(os.path.expanduser("~"), ".rustup/toolchains", STABLE, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    if not os.path.exists(os.path.join(p, "opt")):
        p = glob.glob("/root/.rustup/toolchains/%s/lib/rustlib/*/bin" % STABLE)[0]
    return p


class Harness:
    """a harness crate built from /repo's current tree: native binary and LLVM IR of the whole program"""

    def __init__(self, crate, name, work, exports=None, extra=(), opt=("sroa",)):
        self.crate, self.name = os.path.join(ROOT, "harness", crate), name
        self.work = work
        self.target = os.path.join(work, "target-" + name)
        t0 = time.time()
        for f in glob.glob(self.target + "/release/deps/*.lto.input.bc"):
            os.unlink(f)
        cmd = ["cargo", "rustc", "--release", "--offline", "--bin", name] + list(extra) + ["--", "-C", "save-temps", "-C", "symbol-mangling-version=v0", "-A", "warnings"]
        # a fresh unit even when the target directory is kept
        os.utime(os.path.join(self.crate, "src/main.rs"))
        p = subprocess.run(cmd, cwd=self.crate, env=env(target=self.target), capture_output=True, text=True)
        if p.returncode:
            raise Broken("harness %s does not build:\n%s" % (name, p.stderr[-6000:]))
        bc = glob.glob(self.target + "/release/deps/%s-*lto.input.bc" % name)
        if len(bc) != 1:
            raise Broken("expected one whole-program bitcode file, found %r" % bc)
        self.bc = bc[0]
        self.bin = os.path.join(self.target, "release", name)
        self.build_s = time.time() - t0
        self._mods = {}

    def module(self, exports, passes=("sroa",)):
        import ir
        key = (tuple(exports), tuple(passes))
        m = self._mods.get(key)
        if m:
            return m
        ll = os.path.join(self.work, "%s-%d.ll" % (self.name, len(self._mods)))
        pl = "internalize,globaldce" + (",function(%s)" % ",".join(passes) if passes else "")
        p = subprocess.run([os.path.join(llvm_bin(), "opt"), "-passes=" + pl, "-internalize-public-api-list=" + ",".join(exports), self.bc, "-S", "-o", ll],
                           capture_output=True, text=True)
        if p.returncode:
            raise Broken("opt: " + p.stderr[-2000:])
        m = self._mods[key] = ir.Module(ll)
        return m

    def dev_bin(self):
        """the same harness in the dev profile (overflow checks and debug assertions on)"""
        cmd = ["cargo", "build", "--offline", "--bin", self.name]
        p = subprocess.run(cmd, cwd=self.crate, env=env(target=self.target), capture_output=True, text=True)
        if p.returncode:
            raise Broken("dev build of %s: %s" % (self.name, p.stderr[-3000:]))
        return os.path.join(self.target, "debug", self.name)

    def native(self, fname, words, binary=None, timeout=60):
        """-> list of output words, or the string 'panic'/'timeout'"""
        line = fname + " " + " ".join("%x" % w for w in words) + "\n"
        try:
            p = subprocess.run([binary or self.bin], input=line, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout"
        if p.returncode:
            return "panic"
        return [int(x, 16) for x in p.stdout.split()]

    def native_many(self, reqs, binary=None, timeout=300):
        """reqs: [(fname, words)] none of which panics -> list of outputs"""
        inp = "".join(f + " " + " ".join("%x" % w for w in ws) + "\n" for f, ws in reqs)
        p = subprocess.run([binary or self.bin], input=inp, capture_output=True, text=True, timeout=timeout)
        if p.returncode:
            return [self.native(f, ws, binary) for f, ws in reqs]
        return [[int(x, 16) for x in l.split()] for l in p.stdout.split("\n")[:len(reqs)]]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.paths = 0
        self.instrs = 0
        self.validated = 0
        self.obl = []          # every obligation and its outcome
        self.samples = []
        self.assumptions = []
        self.encoded = set()
        self.bounds = []
        self.extra = {}
        self.viol = []
        self.known = load_known().get(pid, [])
        self.known_hit = []
        self.replays = os.path.join(ROOT, "evidence", "replay")
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "100000"))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def obligation(self, name, verdict, solver_s=0.0, note=""):
        self.obl.append({"name": name, "verdict": verdict, "solver_s": round(solver_s, 3), "note": note})
        if verdict not in ("holds",):
            self.log("obligation %s: %s %s" % (name, verdict, note))

    def violation(self, what, replay, key=None):
        """replay: JSON-able description of the concrete failing case, already reproduced against the real code"""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.viol)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "case": replay}, f, indent=1, default=str)
        self.viol.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  " + what, flush=True)

    def use_engine(self, e):
        self.encoded |= e.encoded
        self.instrs += e.instr_count
        return e

    def finish(self):
        import smt
        st = {"queries": 0, "solver_s": 0.0, "sat": 0, "unsat": 0, "unknown": 0}
        mods = [smt.STATS]
        for n in ("lia", "ff"):
            if n in sys.modules and hasattr(sys.modules[n], "STATS"):
                mods.append(sys.modules[n].STATS)
        for m in mods:
            for k in st:
                st[k] += m.get(k, 0)
        st["solver_s"] = round(st["solver_s"], 2)
        cov = {"states": self.paths, "transitions": self.instrs, "traces_validated_against_impl": self.validated,
               "samples": self.samples[:8] or [o["name"] for o in self.obl[:5]],
               "functions_encoded": sorted(self.encoded)[:400], "functions_encoded_count": len(self.encoded),
               "bounds": self.bounds, "solver": st,
               "obligations": len(self.obl), "discharged": sum(o["verdict"] == "holds" for o in self.obl),
               "obligation_list": self.obl,
               "explanation": "states = symbolic end states (paths or merged paths) examined; transitions = IR instructions "
                              "(or constraints) executed symbolically; traces_validated = concrete runs on which encoding and native code were compared"}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        bad = [o for o in self.obl if o["verdict"] not in ("holds", "reduced", "violated", "known")]
        self.log("done: %d obligations, %d hold, %d reduced, %d violations" % (
            len(self.obl), sum(o["verdict"] == "holds" for o in self.obl), sum(o["verdict"] == "reduced" for o in self.obl), len(self.viol)))
        if self.viol:
            return 1
        if bad:
            self.log("undecided: %s" % ", ".join(o["name"] for o in bad))
            return 2
        return 0


def load_known():
    """known-findings.txt: lines  'property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing"""
    r = {}
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            l = l.strip()
            if not l.startswith("property="):
                continue
            a, b, what = l.split(" ", 2)
            r.setdefault(a[9:], []).append({"key": b[4:], "what": what})
    except FileNotFoundError:
        pass
    return r


def main(pid, fn):
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    c = Check(pid)
    try:
        fn(c)
    except Broken as e:
        print("BROKEN: %s" % e, flush=True)
        c.obligation("check", "error", note=str(e)[:500])
    except Exception as e:      # an internal error must not look like an answer
        import traceback
        traceback.print_exc()
        c.obligation("check", "error", note=repr(e)[:500])
    return c.finish()


def pmap(fn, items, t_end, stop=None, procs=8):
    """run fn(item) in forked children, at most `procs` at a time; yields (item, result) as they finish (None on
    failure); ends early at t_end or once stop(result) is true.  Solver statistics of the children are added up."""
    import pickle
    import select
    import signal
    items = list(items)
    items.reverse()
    running = {}
    res = []
    try:
        while items or running:
            while items and len(running) < procs and time.time() < t_end:
                it = items.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 1
                    try:
                        reset_stats()
                        out = pickle.dumps((fn(it), get_stats()))
                        with os.fdopen(w, "wb") as f:
                            f.write(out)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (pid, it, [])
            if not running:
                break
            left = t_end - time.time()
            if left <= 0:
                break
            rd, _, _ = select.select(list(running), [], [], min(left, 1))
            for r in rd:
                b = os.read(r, 1 << 20)
                pid, it, buf = running[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    v, st = pickle.loads(b"".join(buf))
                    add_stats(st)
                except Exception:
                    v = None
                res.append((it, v))
                if stop and v is not None and stop(v):
                    return res
    finally:
        for r, (pid, it, _b) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(r)
    return res


def _statmods():
    return [sys.modules[n] for n in ("smt", "lia", "ff") if n in sys.modules and hasattr(sys.modules[n], "STATS")]


def reset_stats():
    for m in _statmods():
        for k in m.STATS:
            m.STATS[k] = 0


def get_stats():
    return {m.__name__: dict(m.STATS) for m in _statmods()}


def add_stats(st):
    for n, d in st.items():
        for k, v in d.items():
            sys.modules[n].STATS[k] += v
