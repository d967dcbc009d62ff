"""Builds the Spartan sources of /repo over symbolic scalars and runs scenarios of the driver."""
import os
import re
import shutil
import subprocess
import time
import vlib
from vlib import Broken

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "packages/Spartan-secq")     # the variable is for experiments only


def items(text):
    """top-level items of the scenario file: [(name, text)]"""
    out, cur = [], []
    for l in text.split("\n"):
        if cur or l.strip():
            cur.append(l)
        if l == "}" or (len(cur) == 1 and l.startswith("type ") and l.endswith(";")):
            body = "\n".join(cur)
            m = re.search(r"^(?:fn|struct|type|trait|enum) (\w+)|^impl (?:\w+ for )?(\w+)", body, re.M)
            out.append((m.group(1) or "impl " + m.group(2), body))
            cur = []
    return out


def prune(text, names):
    if names is None:
        return text
    its = items(text)
    by = {}
    for n, b in its:
        by.setdefault(n, []).append(b)
    arms = [l for l in by["scenario"][0].split("\n")]
    keep = []
    for l in arms:
        m = re.match(r'\s*"(\w+)" =>', l)
        if not m or m.group(1) in names:
            keep.append(l)
    by["scenario"] = ["\n".join(keep)]
    need, todo = set(), ["scenario"]
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.add(n)
        for b in by[n]:
            ws = set(re.findall(r"\w+", b))
            todo += [k for k in by if k in ws]
        if n in by and "impl " + n in by:
            todo.append("impl " + n)
    # implementations of a trait for types of the crate go with the trait
    out = []
    for n, b in its:
        m = re.search(r"^impl (\w+) for (\w+)", b, re.M)
        if n == "scenario":
            out.append(by["scenario"][0])
        elif n in need or (m and m.group(1) in need):
            out.append(b)
    return "\n".join(out) + "\n"


class Spartan:
    """names: the scenarios to build (None: all).  Only what these use is compiled, so that a check depends on as few
    items of the crate as possible."""

    def __init__(self, work, names=None):
        self.work = work
        self.build(names)

    def build(self, names):
        work = self.work
        self.dir = os.path.join(work, "spartan")
        shutil.rmtree(self.dir, True)
        os.makedirs(self.dir)
        shutil.copytree(SRC + "/src", self.dir + "/src")
        shutil.rmtree(self.dir + "/src/bin", True)
        shutil.copy(SRC + "/README.md", self.dir)
        h = os.path.join(vlib.ROOT, "harness/spartan")
        toml = open(h + "/Cargo.toml").read().replace("SHIMS", os.path.join(vlib.ROOT, "harness/shims"))
        open(self.dir + "/Cargo.toml", "w").write(toml)
        lock = os.path.join(h, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, self.dir)
        shutil.copy(h + "/main.rs", self.dir)
        # the field element type is replaced by symbolic values; everything else is the repository's source
        shutil.copy(h + "/sym_scalar.rs", self.dir + "/src/scalar/scalar.rs")
        shutil.copy(h + "/driver.rs", self.dir + "/src/verif_driver.rs")
        open(self.dir + "/src/verif_scenarios.rs", "w").write(prune(open(h + "/scenarios.rs").read(), names))
        with open(self.dir + "/src/lib.rs", "a") as f:
            f.write("\n#[doc(hidden)]\n#[allow(missing_docs)]\npub mod verif_driver;\n")
        t0 = time.time()
        self.target = os.path.join(work, "target-spartan")
        e = vlib.env(target=self.target)
        e["RUSTFLAGS"] = "--cap-lints=allow"
        p = subprocess.run(["cargo", "build", "--offline"], cwd=self.dir, env=e, capture_output=True, text=True)
        if p.returncode:
            raise Broken("the Spartan harness does not build:\n" + p.stderr[-5000:])
        self.bin = os.path.join(self.target, "debug/h_spartan")
        self.build_s = time.time() - t0

    def run(self, *args, timeout=300, env=None):
        e = dict(os.environ)
        for k in ("SEED", "OVER", "VALS", "REPLAY"):
            e.pop(k, None)
        e.update(env or {})
        p = subprocess.run([self.bin] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout, p.stderr
