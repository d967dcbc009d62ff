"""Bit-vector back end: terms -> z3."""
import time
import z3
from terms import Term, isc, variables

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "sat": 0, "unsat": 0}


def conv(t, w):
    if type(t) is int:
        return z3.BitVecVal(t, w)
    if t._z is not None:
        return t._z
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if type(a) is Term and a._z is None]
        if todo:
            stack.extend(todo)
            continue
        x._z = _conv1(x)
        stack.pop()
    return t._z


def _conv1(x):
    o, w = x.op, x.w
    A = x.args
    if o == "var":
        return z3.BitVec(x.aux[0], w)

    def c(i, ww=w):
        a = A[i]
        return z3.BitVecVal(a, ww) if type(a) is int else a._z
    if o == "add":
        return c(0) + c(1)
    if o == "sub":
        return c(0) - c(1)
    if o == "mul":
        return c(0) * c(1)
    if o == "and":
        return c(0) & c(1)
    if o == "or":
        return c(0) | c(1)
    if o == "xor":
        return c(0) ^ c(1)
    if o == "shl":
        return c(0) << c(1)
    if o == "lshr":
        return z3.LShR(c(0), c(1))
    if o == "ashr":
        return c(0) >> c(1)
    if o == "udiv":
        return z3.UDiv(c(0), c(1))
    if o == "urem":
        return z3.URem(c(0), c(1))
    if o == "sdiv":
        return c(0) / c(1)
    if o == "srem":
        return z3.SRem(c(0), c(1))
    if o == "zext":
        return z3.ZeroExt(w - A[0].w, c(0))
    if o == "sext":
        return z3.SignExt(w - A[0].w, c(0))
    if o == "trunc":
        return z3.Extract(w - 1, 0, c(0))
    if o == "concat":
        return z3.Concat(c(0, w - x.aux), c(1, x.aux))
    if o == "ite":
        return z3.If(c(0, 1) == z3.BitVecVal(1, 1), c(1), c(2))
    one, zer = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    aw = next((a.w for a in A if type(a) is Term), w)
    if o == "eq":
        return z3.If(c(0, aw) == c(1, aw), one, zer)
    if o == "ult":
        return z3.If(z3.ULT(c(0, aw), c(1, aw)), one, zer)
    if o == "slt":
        return z3.If(c(0, aw) < c(1, aw), one, zer)
    F = {64: z3.Float64(), 32: z3.Float32(), 1: None}
    rm = z3.RNE()

    def fl(i, ww):
        return z3.fpBVToFP(c(i, ww), F[ww])
    if o == "i2f":
        a = c(0, x.aux[1])
        return z3.fpToIEEEBV(z3.fpSignedToFP(rm, a, F[w]) if x.aux[0] else z3.fpUnsignedToFP(rm, a, F[w]))
    if o == "f2i":
        f = fl(0, x.aux[1])
        so = F[x.aux[1]]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if x.aux[0] else (0, (1 << w) - 1)
        conv_ = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w)) if x.aux[0] else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w))
        return z3.If(z3.fpIsNaN(f), z3.BitVecVal(0, w), z3.If(z3.fpLEQ(f, z3.FPVal(lo, so)), z3.BitVecVal(lo, w),
                     z3.If(z3.fpGEQ(f, z3.FPVal(hi, so)), z3.BitVecVal(hi, w), conv_)))
    if o == "fsqrt":
        return z3.fpToIEEEBV(z3.fpSqrt(rm, fl(0, w)))
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        g = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[o]
        return z3.fpToIEEEBV(g(rm, fl(0, w), fl(1, w)))
    if o == "fcmp":
        p, ww = x.aux
        a, b = fl(0, ww), fl(1, ww)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b), "le": z3.fpLEQ(a, b),
                "ne": z3.Not(z3.fpEQ(a, b))}
        r = nan if p == "uno" else z3.Not(nan) if p == "ord" else z3.Or(nan, base[p[1:]]) if p[0] == "u" else z3.And(z3.Not(nan), base[p[1:]])
        return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    raise NotImplementedError(o)


def has_fp(ts):
    import terms
    seen, stack = set(), [t for t in ts if type(t) is Term]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in terms.FOPS:
            return True
        stack.extend(a for a in x.args if type(a) is Term)
    return False


def as_bool(t):
    if type(t) is int:
        return z3.BoolVal(bool(t))
    z = conv(t, 1)
    # If(c,1,0)==1 -> c
    if z.decl().kind() == z3.Z3_OP_ITE:
        a, b = z.arg(1), z.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return z.arg(0) if a.as_long() == 1 and b.as_long() == 0 else z3.Not(z.arg(0)) if a.as_long() == 0 and b.as_long() == 1 else z == z3.BitVecVal(1, 1)
    return z == z3.BitVecVal(1, 1)


def solve(conds, timeout_ms=20000, want_model=True, tactic=None):
    """conds: width-1 terms.  Returns ('sat', model dict) | ('unsat', None) | ('unknown', None)"""
    conds = [c for c in conds if not (type(c) is int and c)]
    if any(type(c) is int for c in conds):
        return "unsat", None
    s = (z3.Solver() if has_fp(conds) else z3.SolverFor("QF_BV")) if tactic is None else tactic.solver()
    s.set("timeout", int(timeout_ms))
    vs = variables(conds)
    for v in vs.values():
        if v.hi < (1 << v.w) - 1:
            s.add(z3.ULE(conv(v, v.w), z3.BitVecVal(v.hi, v.w)))
    for c in conds:
        s.add(as_bool(c))
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if r == z3.sat:
        STATS["sat"] += 1
        m = s.model()
        env = {}
        for n, v in vs.items():
            e = m.eval(conv(v, v.w), model_completion=True)
            env[n] = e.as_long()
        return "sat", env
    if r == z3.unsat:
        STATS["unsat"] += 1
        return "unsat", None
    STATS["unknown"] += 1
    return "unknown", None
