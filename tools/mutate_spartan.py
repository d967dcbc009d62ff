"""Sensitivity experiment (not a check): mutate the Spartan sources in scratch copies and see which scenarios notice.
usage: mutate_spartan.py <count> <seed> [file ...]"""
import os
import random
import re
import shutil
import sys
import time
ROOT = "/verif"
sys.path[:0] = [ROOT + "/engine", ROOT + "/checks"]
os.environ["VERIF_BUDGET"] = "200"
FILES = sys.argv[3:] or ["dense_mlpoly.rs", "unipoly.rs", "commitments.rs", "sumcheck.rs", "nizk/mod.rs", "nizk/bullet.rs", "lib.rs", "r1csinstance.rs", "r1csproof.rs",
                         "product_tree.rs", "sparse_mlpoly.rs", "transcript.rs", "group.rs", "timer.rs", "random.rs", "math.rs"]
SRC = "/repo/packages/Spartan-secq"
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\.rev\(\)", ""), (r" == ", " != "), (r" < ", " <= "), (r" >= ", " > "), (r"left", "right"), (r"right", "left"), (r"_A", "_B"), (r"_B", "_C"),
       (r"\+=", "-="), (r"pow2\(\)", "log_2()"), (r"\brx\b", "ry"), (r"\bry\b", "rx"), (r"L_", "R_"), (r"&&", "||"), (r"len\(\) / 2", "len()"), (r"\bzero\(\)", "one()"), (r"\bone\(\)", "zero()"),
       (r"poly_A", "poly_B"), (r"row", "col"), (r"read", "write"), (r"eval_point_2", "eval_point_3"), (r"Az", "Bz"), (r"Bz", "Cz"), (r"blind_x", "blind_y"), (r"\.next_power_of_two\(\)", "")]


def candidates():
    out = []
    for f in FILES:
        t = open(SRC + "/src/" + f).read().split("#[cfg(test)]")[0].split("\n")
        for i, l in enumerate(t):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "fn ", "pub fn", "pub struct", "struct", "impl", "mod ", "pub mod", "timer.", "let timer")):
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    out.append((f, i, l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]))
            if s.endswith(";") and ("append" in s or "assert" in s) and s.count("(") == s.count(")"):
                out.append((f, i, ""))
                if "append" in s:
                    out.append((f, i, ""))
    return out


JOBS = {
    "C15": [("poly", 2), ("poly", 3)], "C16": [("unipoly", 3), ("unipoly", 4)],
    "C17": [("sum_cubic", 2), ("sum_batched", 2, 2, 1), ("sum_verify", 2, 3), ("zk_quad", 2), ("zk_cubic", 2), ("zk_verify", 2, 3)],
    "C18": [("instance", 0, 1, 0), ("instance", 3, 2, 1), ("instance", 2, 3, 4), ("refuse", 3, 5, 2), ("synth", 4, 4, 2)],
    "C19": [("knowledge",), ("equality",), ("product",), ("dotprod", 3), ("dotlog", 4)],
    "C20": [("nizk", 2, 2, 1), ("nizk_verify", 2, 2, 1), ("snark", 2, 1, 0)],
    "C27": [("commit", 3), ("gens", 4), ("polycommit", 2, 0), ("polycommit", 3, 1)],
    "C28": [("circuit", 3), ("prodproof", 2), ("prodbatch", 2, 2, 2), ("sparse", 2, 1, 3), ("sparse_proof", 1, 1, 2)],
    "C21": [("transcript",)],
}


def trial(job):
    n, (f, i, new) = job
    import vlib
    import spartan
    d = "/tmp/mut/%d" % (n % 8 if False else n)
    os.makedirs(d)
    shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns("target"))
    p = d + "/src/src/" + f
    t = open(p).read().split("\n")
    old = t[i]
    t[i] = new
    open(p, "w").write("\n".join(t))
    slot = "/tmp/mut/slot%d" % SLOT[0] if False else d + "/w"
    os.environ["VERIF_SPARTAN_SRC"] = d + "/src"
    os.environ["VERIF_WORK"] = slot
    import sbuild
    sbuild.SRC = d + "/src"
    shutil.copytree("/tmp/mut/base", slot, copy_function=shutil.copy2)
    res = ""
    try:
        c = vlib.Check("X")
        c.log = lambda *a: None
        c.replays = d + "/replay"
        try:
            s = sbuild.Spartan(slot)
        except vlib.Broken as e:
            return f, i, old, new, "nobuild"
        r = spartan.Runner.__new__(spartan.Runner)
        r.c, r.dropped, r.s = c, [], s
        hit = {}
        for pid, jobs in JOBS.items():
            for j in jobs:
                rows, info = r.one((j, "all", time.time() + 25))
                for name, v, note, rep in rows:
                    if v != "holds":
                        q = "C21" if "FS:" in name else pid
                        hit.setdefault((q, v), (name + " | " + note)[:110])
        res = ";".join("%s %s" % k for k in hit) or "SURVIVES"
    except Exception as e:
        res = "error " + repr(e)[:100]
    finally:
        shutil.rmtree(d, True)
    return f, i, old, new, res


SLOT = [0]
if __name__ == "__main__":
    import vlib
    import sbuild
    shutil.rmtree("/tmp/mut", True)
    os.makedirs("/tmp/mut/base")
    sbuild.Spartan("/tmp/mut/base")
    shutil.rmtree("/tmp/mut/base/spartan")
    cs = candidates()
    random.Random(int(sys.argv[2])).shuffle(cs)
    print(len(cs), "candidates", flush=True)
    cs = cs[:int(sys.argv[1])]
    res = vlib.pmap(trial, list(enumerate(cs)), time.time() + 3000)
    cnt = {}
    for _, v in res:
        if v is None:
            continue
        f, i, old, new, r = v
        k = r if r in ("nobuild", "SURVIVES") else "error" if r.startswith("error") else "violated" if "violated" in r else "reduced"
        cnt[k] = cnt.get(k, 0) + 1
        if k in ("SURVIVES", "reduced", "error"):
            print(k, f, i + 1, "|", old.strip(), "=>", new.strip(), "|", r if k != "SURVIVES" else "", flush=True)
    print(cnt)
    shutil.rmtree("/tmp/mut", True)
