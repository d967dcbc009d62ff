"""Integer square root through IEEE double precision: the correctly rounded root as integers, one query per exponent."""
import math
import time
import z3
import smt
import terms as T

STATS = smt.STATS


def is_plain(t, n):
    """t = truncation of the double square root of the double nearest to n"""
    if type(t) is int or t.op != "f2i" or t.w != 64 or t.aux != (False, 64):
        return False
    r = t.args[0]
    if type(r) is int or r.op != "fsqrt" or r.w != 64:
        return False
    i = r.args[0]
    return type(i) is not int and i.op == "i2f" and i.w == 64 and i.aux == (False, 64) and i.args[0] is n


def _q(cs, timeout=60000):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*cs)
    t0 = time.time()
    r = str(s.check())
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    return r, s.model() if r == "sat" else None


def floor_sqrt(t, n, pc):
    """is t = floor(sqrt(n)) on every n satisfying pc, n < 2^52?  ('holds', None) | ('sat', value of n) | ('unknown', why)"""
    # likely counterexamples first: a refutation needs no proof
    for v in cand():
        if all(T.evaluate(p, {"n": v}) for p in pc) and (t if type(t) is int else T.evaluate(t, {"n": v})) != math.isqrt(v):
            return "sat", v
    if not is_plain(t, n):
        # any other shape: exact semantics in the solver
        s = t if type(t) is not int else T.zext(64, t, 64)
        sq = T.mul(64, s, s)
        s1 = T.add(64, s, 1)
        bad = T.or_(1, T.ult(64, n, sq), T.or_(1, T.not_(T.ult(64, n, T.mul(64, s1, s1))), T.not_(T.ult(64, s, 1 << 26))))
        r, m = smt.solve(pc + [T.ult(64, n, 1 << 52), bad], 120000)
        return {"unsat": ("holds", None), "sat": ("sat", (m or {}).get("n", 0)), "unknown": ("unknown", "floating-point query undecided")}[r]
    # n < 2^52 is exact as a double.  Its root lies in [2^k, 2^(k+1)) for one k < 26 (or n = 0) and the rounded root is
    # m / D with D = 2^(52-k), 2^52 <= m <= 2^53 the integer nearest to D sqrt(n).  The truncation is s = floor(m / D).
    if T.evaluate(t, {"n": 0}) != 0:
        return "sat", 0
    for k in range(26):
        D = 1 << 52 - k
        N, m, s, r = z3.Ints("N m s r")
        base = [N >= 1 << 2 * k, N < 1 << 2 * k + 2, m >= 1 << 52, m <= 1 << 53,
                4 * N * D * D >= (2 * m - 1) * (2 * m - 1), 4 * N * D * D <= (2 * m + 1) * (2 * m + 1),
                m == s * D + r, r >= 0, r < D]
        # s^2 <= N: a smaller N has D sqrt(N) more than 1/2 below s D
        a, _ = _q([N >= 1 << 2 * k, N < 1 << 2 * k + 2, s >= 1 << k, s <= 1 << k + 1, N <= s * s - 1,
                   4 * N * D * D >= (2 * s * D - 1) * (2 * s * D - 1)])
        # and m >= s D puts the rounding interval there
        b, _ = _q([m >= s * D, s >= 1, (2 * m - 1) * (2 * m - 1) < (2 * s * D - 1) * (2 * s * D - 1)])
        # N < (s+1)^2: otherwise D sqrt(N) >= (s+1) D, an integer above m by at least 1
        d, _ = _q([N >= (s + 1) * (s + 1), s >= 0, r >= 0, r < D, m == s * D + r, 4 * N * D * D <= (2 * m + 1) * (2 * m + 1)])
        if (a, b, d) != ("unsat",) * 3:
            return "unknown", "exponent %d: %s" % (k, (a, b, d))
    return "holds", None


def cand():
    for e in range(27):
        for x in ((1 << e) - 1, 1 << e, (1 << e) + 1, (3 << e) // 2, (1 << 26) - (1 << e)):
            for v in (x * x - 1, x * x, x * x + 1, x * x + x, x * x + 2 * x):
                if 0 <= v < 1 << 52:
                    yield v
    for i in range(24):
        yield from (v for v in (2**52 - 1 - i, i))
