"""Hash-consed bit-vector terms.  A value is a Python int (a constant) or a Term.
Widths of constants are carried by context.  Booleans are width-1 vectors."""


import math
import struct


class Term:
    __slots__ = ("op", "w", "args", "id", "aux", "_z", "tz", "hi")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]
_vars = {}


def _mk(op, w, args, aux=None):
    key = (op, w, aux) + tuple((a if type(a) is int else (a.id,)) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.w, t.args, t.aux = op, w, args, aux
        t.id = _next[0]
        _next[0] += 1
        t._z = None
        t.tz, t.hi = _bounds(op, w, args, aux)
        _table[key] = t
    return t


def reset():
    _table.clear()
    _vars.clear()


def hi_of(x):
    return x if type(x) is int else x.hi


def tz_of(x):
    if type(x) is int:
        return 1 << 20 if x == 0 else (x & -x).bit_length() - 1
    return x.tz


def _bounds(op, w, args, aux):
    """(number of known trailing zero bits, unsigned upper bound)"""
    m = (1 << w) - 1
    tz, hi = 0, m
    if op == "zext":
        return tz_of(args[0]), hi_of(args[0])
    if op == "trunc":
        h = hi_of(args[0])
        return min(tz_of(args[0]), w), min(h, m)
    if op == "add":
        h = hi_of(args[0]) + hi_of(args[1])
        return min(tz_of(args[0]), tz_of(args[1]), w), min(h, m)
    if op == "mul":
        h = hi_of(args[0]) * hi_of(args[1])
        return min(tz_of(args[0]) + tz_of(args[1]), w), min(h, m)
    if op == "sub":
        return min(tz_of(args[0]), tz_of(args[1]), w), m
    if op == "and":
        return max(min(tz_of(args[0]), w), min(tz_of(args[1]), w)), min(hi_of(args[0]), hi_of(args[1]))
    if op in ("or", "xor"):
        h = max(hi_of(args[0]), hi_of(args[1]))
        return min(tz_of(args[0]), tz_of(args[1]), w), min((1 << h.bit_length()) - 1, m)
    if op == "shl" and type(args[1]) is int:
        h = hi_of(args[0]) << args[1]
        return min(tz_of(args[0]) + args[1], w), min(h, m)
    if op == "lshr":
        if type(args[1]) is int:
            return max(tz_of(args[0]) - args[1], 0), hi_of(args[0]) >> args[1]
        return 0, hi_of(args[0])
    if op == "udiv":
        if type(args[1]) is int and args[1]:
            return 0, hi_of(args[0]) // args[1]
        return 0, m
    if op == "urem":
        if type(args[1]) is int and args[1]:
            return 0, min(hi_of(args[0]), args[1] - 1)
        return 0, m
    if op == "concat":
        t = tz_of(args[1])
        return (t if t < aux else min(w, aux + tz_of(args[0]))), min(m, (hi_of(args[0]) << aux) + hi_of(args[1]))
    if op == "ite":
        return min(tz_of(args[1]), tz_of(args[2]), w), max(hi_of(args[1]), hi_of(args[2]))
    if op == "var" and aux is not None and type(aux) is tuple and len(aux) == 2:
        return 0, min(m, aux[1])
    return tz, hi


def var(name, w, hi=None):
    t = _vars.get(name)
    if t is None:
        t = _mk("var", w, (), (name, (1 << w) - 1 if hi is None else hi))
        _vars[name] = t
    assert t.w == w
    return t


_fresh = [0]


def fresh(prefix, w, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), w, hi)


def isc(x):
    return type(x) is int


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def add(w, a, b):
    if isc(a):
        if isc(b):
            return (a + b) & mask(w)
        a, b = b, a
    if isc(b):
        if b == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(w, a.args[0], (a.args[1] + b) & mask(w))
        return _mk("add", w, (a, b))
    for x, y in ((a, b), (b, a)):
        t = tz_of(x)
        if t and hi_of(y) < (1 << min(t, w)):
            r = _join(w, x, y)
            if r is not None:
                return r
    if a.id > b.id:
        a, b = b, a
    return _mk("add", w, (a, b))


def sub(w, a, b):
    if isc(b):
        if isc(a):
            return (a - b) & mask(w)
        if b == 0:
            return a
        return add(w, a, (-b) & mask(w)) if False else _mk("sub", w, (a, b))
    if a is b:
        return 0
    return _mk("sub", w, (a, b))


def mul(w, a, b):
    if isc(a):
        if isc(b):
            return (a * b) & mask(w)
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return _mk("mul", w, (a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", w, (a, b))


def udiv(w, a, b):
    if isc(b) and b == 1:
        return a
    if isc(a) and isc(b) and b:
        return a // b
    if isc(b) and b and b & (b - 1) == 0:
        return lshr(w, a, b.bit_length() - 1)
    return _mk("udiv", w, (a, b))


def urem(w, a, b):
    if isc(a) and isc(b) and b:
        return a % b
    if isc(b) and b and b & (b - 1) == 0:
        return and_(w, a, b - 1)
    return _mk("urem", w, (a, b))


def sdiv(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return _mk("sdiv", w, (a, b))


def srem(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return _mk("srem", w, (a, b))


def _as_mask(w, x):
    """x is all-ones or zero: return the width-1 condition (1 = all ones), else None"""
    if isc(x):
        if x == 0:
            return 0
        if x == mask(w):
            return 1
        return None
    if x.op == "ite":
        a, b = x.args[1], x.args[2]
        if isc(a) and isc(b) and {a, b} == {0, mask(w)}:
            return x.args[0] if a else not_(x.args[0])
    if x.op == "sext" and (x.args[0].w == 1):
        return x.args[0]
    if x.op == "sub" and isc(x.args[0]) and x.args[0] == 0 and hi_of(x.args[1]) <= 1:
        return trunc(1, x.args[1], w)
    if x.op == "sub" and isc(x.args[1]) and x.args[1] == 1 and hi_of(x.args[0]) <= 1:
        return not_(trunc(1, x.args[0], w))
    if x.op == "add" and isc(x.args[1]) and x.args[1] == mask(w) and hi_of(x.args[0]) <= 1:
        return not_(trunc(1, x.args[0], w))
    if x.op == "xor" and isc(x.args[1]) and x.args[1] == mask(w):
        c = _as_mask(w, x.args[0])
        return None if c is None else not_(c)
    return None


def and_(w, a, b):
    if isc(a):
        if isc(b):
            return a & b
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if b & (b + 1) == 0:  # low mask
            k = b.bit_length()
            if a.hi <= b:
                return a
            return zext(w, trunc(k, a, w), k)
        c = _as_mask(w, a)
        if c is not None:
            return ite(w, c, b, 0)
        if a.op == "and" and isc(a.args[1]):
            return and_(w, a.args[0], a.args[1] & b)
        return _mk("and", w, (a, b))
    if a is b:
        return a
    if w > 1:
        for x, y in ((a, b), (b, a)):
            c = _as_mask(w, x)
            if c is not None:
                return ite(w, c, y, 0)
    else:
        if (a.op == "xor" and isc(a.args[1]) and a.args[0] is b) or (b.op == "xor" and isc(b.args[1]) and b.args[0] is a):
            return 0
    if a.id > b.id:
        a, b = b, a
    return _mk("and", w, (a, b))


def or_(w, a, b):
    if isc(a):
        if isc(b):
            return a | b
        a, b = b, a
    if isc(b):
        if b == 0:
            return a
        if b == mask(w):
            return b
        return _mk("or", w, (a, b))
    if a is b:
        return a
    if w == 1:
        if (a.op == "xor" and isc(a.args[1]) and a.args[0] is b) or (b.op == "xor" and isc(b.args[1]) and b.args[0] is a):
            return 1
    # disjoint bits: re-assemble concatenations
    for x, y in ((a, b), (b, a)):
        t = tz_of(x)
        if t and hi_of(y) < (1 << min(t, w)):
            r = _join(w, x, y)
            if r is not None:
                return r
    if a.id > b.id:
        a, b = b, a
    return _mk("or", w, (a, b))


def _join(w, hi, lo):
    """hi has k trailing zero bits and lo < 2^k; recognise hi:lo as one extract"""
    # view hi as concat(h, zeros k)
    k = None
    if hi.op == "shl" and isc(hi.args[1]):
        k = hi.args[1]
    elif hi.op == "mul" and isc(hi.args[1]) and hi.args[1] & (hi.args[1] - 1) == 0:
        k = hi.args[1].bit_length() - 1
    if k is not None and k < w:
        h = hi.args[0]
        if hi_of(lo) < (1 << k):
            l = trunc(k, lo, w)
            hw = w - k
            hh = trunc(hw, h, w)
            if not isc(l) and not isc(hh):
                return concat(hh, hw, l, k)
    return None


def xor(w, a, b):
    if isc(a):
        if isc(b):
            return a ^ b
        a, b = b, a
    if isc(b):
        if b == 0:
            return a
        if a.op == "xor" and isc(a.args[1]):
            return xor(w, a.args[0], a.args[1] ^ b)
        if a.op == "ite" and all(isc(z) or (z.op == "xor" and isc(z.args[1])) for z in a.args[1:]):
            return ite(w, a.args[0], xor(w, a.args[1], b), xor(w, a.args[2], b))
        return _mk("xor", w, (a, b))
    if a is b:
        return 0
    # a ^ (mask & (a ^ b)) conditional select
    for x, y in ((a, b), (b, a)):
        if y.op == "ite" and isc(y.args[2]) and y.args[2] == 0:
            z = y.args[1]
            if not isc(z) and z.op == "xor":
                if z.args[0] is x:
                    return ite(w, y.args[0], z.args[1], x)
                if z.args[1] is x:
                    return ite(w, y.args[0], z.args[0], x)
            if not isc(z) and z is x:
                return ite(w, y.args[0], 0, x)
        if y.op == "xor" and not isc(y.args[1]):
            if y.args[0] is x:
                return y.args[1]
            if y.args[1] is x:
                return y.args[0]
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", w, (a, b))


def not_(a):
    return xor(1, a, 1)


def shl(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        if isc(a):
            return (a << b) & mask(w)
        if a.op == "shl" and isc(a.args[1]):
            return shl(w, a.args[0], a.args[1] + b)
        return _mk("shl", w, (a, b))
    return _mk("shl", w, (a, b))


def lshr(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        if isc(a):
            return a >> b
        if a.hi < (1 << b):
            return 0
        if a.op == "lshr" and isc(a.args[1]):
            return lshr(w, a.args[0], a.args[1] + b)
        if a.op == "zext":
            iw = a.args[0].w
            return zext(w, lshr(iw, a.args[0], b), iw)
        if a.op == "or" and isc(a.args[1]) and a.args[1] >> b == 0:
            return lshr(w, a.args[0], b)
        if a.op == "sub" and hi_of(a.args[0]) < (1 << b) and hi_of(a.args[1]) <= (1 << b):
            # borrow word of a widened subtraction: all ones or zero
            return ite(w, ult(w, a.args[0], a.args[1]), mask(w - b), 0)
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(w, a.args[0], a.args[1] >> b, a.args[2] >> b)
        if a.op == "concat":
            h, l = a.args
            lw = a.aux
            if b >= lw:
                return zext(w, lshr(w - lw, h, b - lw), w - lw)
        if a.op == "shl" and isc(a.args[1]) and hi_of(a.args[0]) << a.args[1] <= mask(w):
            k = a.args[1]
            return lshr(w, a.args[0], b - k) if b >= k else shl(w, a.args[0], k - b)
        return _mk("lshr", w, (a, b))
    return _mk("lshr", w, (a, b))


def ashr(w, a, b):
    if isc(b):
        if isc(a):
            return (sgn(a, w) >> min(b, w - 1)) & mask(w)
        if b == 0:
            return a
        if a.hi < (1 << (w - 1)):
            return lshr(w, a, b)
    return _mk("ashr", w, (a, b))


def zext(w, a, fw):
    if isc(a) or w == fw:
        return a
    if a.op == "zext":
        return zext(w, a.args[0], a.args[0].w)
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        return ite(w, a.args[0], a.args[1], a.args[2])
    if a.op == "trunc" and a.args[0].w == w and a.args[0].hi <= mask(fw):
        return a.args[0]
    return _mk("zext", w, (a,))


def sext(w, a, fw):
    if isc(a):
        return sgn(a, fw) & mask(w)
    if w == fw:
        return a
    if a.hi < (1 << (fw - 1)):
        return zext(w, a, fw)
    if fw == 1:
        return ite(w, a, mask(w), 0)
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        return ite(w, a.args[0], sext(w, a.args[1], fw), sext(w, a.args[2], fw))
    return _mk("sext", w, (a,))


def trunc(w, a, fw):
    if isc(a):
        return a & mask(w)
    if w == fw:
        return a
    o = a.op
    if o in ("zext", "sext"):
        iw = a.args[0].w
        if iw == w:
            return a.args[0]
        if iw > w:
            return trunc(w, a.args[0], iw)
        return zext(w, a.args[0], iw) if o == "zext" else sext(w, a.args[0], iw)
    if o == "trunc":
        return trunc(w, a.args[0], a.args[0].w)
    if o == "concat":
        h, l = a.args
        lw = a.aux
        if w <= lw:
            return trunc(w, l, lw)
        return concat(trunc(w - lw, h, fw - lw), w - lw, l, lw)
    if o == "shl" and isc(a.args[1]) and a.args[1] >= w:
        return 0
    if o == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(w, a.args[0], trunc(w, a.args[1], fw), trunc(w, a.args[2], fw))
    if o in ("and", "or", "xor") and isc(a.args[1]):
        f = {"and": and_, "or": or_, "xor": xor}[o]
        return f(w, trunc(w, a.args[0], fw), a.args[1] & mask(w))
    return _mk("trunc", w, (a,))


def extract(a, lo, w, fw):
    """bits lo..lo+w-1 of a (width fw)"""
    if isc(a):
        return (a >> lo) & mask(w)
    if lo == 0:
        return trunc(w, a, fw)
    if a.op == "concat":
        h, l = a.args
        lw = a.aux
        if lo >= lw:
            return extract(h, lo - lw, w, fw - lw)
        if lo + w <= lw:
            return extract(l, lo, w, lw)
    if a.op == "zext":
        iw = a.args[0].w
        if lo >= iw:
            return 0
        if lo + w <= iw:
            return extract(a.args[0], lo, w, iw)
    if a.op == "shl" and isc(a.args[1]) and lo >= a.args[1]:
        return extract(a.args[0], lo - a.args[1], w, fw)
    if a.op == "or" and isc(a.args[1]) and a.args[1] >> lo & mask(w) == 0:
        return extract(a.args[0], lo, w, fw)
    return trunc(w, lshr(fw, a, lo), fw)


def _slice(x):
    """view a term as (base, lo, width)"""
    if x.op == "trunc":
        y = x.args[0]
        if y.op == "lshr" and isc(y.args[1]):
            return y.args[0], y.args[1], x.w
        return y, 0, x.w
    if x.op == "lshr" and isc(x.args[1]):
        return x.args[0], x.args[1], None  # zero-filled
    return x, 0, x.w


def concat(h, hw, l, lw):
    w = hw + lw
    if isc(h) and isc(l):
        return (h << lw) | l
    if isc(h) and h == 0:
        return zext(w, l, lw)
    if not isc(h) and not isc(l):
        hb, hlo, hwid = _slice(h)
        lb, llo, lwid = _slice(l)
        if hb is not lb and hwid is not None:
            # pieces of a truncation are pieces of what was truncated
            if hb.op == "trunc" and hb.args[0] is lb:
                hb = lb
            elif lb.op == "trunc" and lb.args[0] is hb:
                lb = hb
        if hb is lb and lwid == lw and hlo == llo + lw:
            if hwid == hw:
                return extract(hb, llo, w, hb.w)
            if hwid is None and h.w == hw:
                # zero-filled top of base
                if hb.w == w:
                    return lshr(hb.w, hb, llo)
        if l.op == "concat":
            h2, l2 = l.args
            l2w = l.aux
            if not isc(h2):
                j = concat(h, hw, h2, lw - l2w)
                if isc(j) or j.op != "concat":
                    return concat(j, w - l2w, l2, l2w)
        if h.op == "concat":
            h2, l2 = h.args
            l2w = h.aux
            if not isc(l2):
                j = concat(l2, l2w, l, lw)
                if isc(j) or j.op != "concat":
                    return concat(h2, hw - l2w, j, lw + l2w)
        # conditional pieces with the same condition
        if l.op == "ite" and h.op == "trunc" and hb.op == "ite" and hb.args[0] is l.args[0]:
            return ite(w, l.args[0], *(concat(extract(x, hlo, hw, hb.w), hw, y, lw) for x, y in zip(hb.args[1:], l.args[1:])))
        if h.op == "ite" and l.op == "ite" and h.args[0] is l.args[0]:
            return ite(w, h.args[0], concat(h.args[1], hw, l.args[1], lw), concat(h.args[2], hw, l.args[2], lw))
        if h.op == "zext" and h.args[0].w < hw:
            iw = h.args[0].w
            return zext(w, concat(h.args[0], iw, l, lw), iw + lw)
    if not isc(h) and isc(l) and h.op == "ite" and isc(h.args[1]) and isc(h.args[2]):
        return ite(w, h.args[0], concat(h.args[1], hw, l, lw), concat(h.args[2], hw, l, lw))
    return _mk("concat", w, (h, l), lw)


def ite(w, c, a, b):
    if isc(c):
        return a if c else b
    if a is b or (isc(a) and isc(b) and a == b):
        return a
    if c.op == "xor" and isc(c.args[1]):
        return ite(w, c.args[0], b, a)
    if w == 1:
        if isc(a):
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if isc(b):
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if isc(a) and isc(b) and b == 0 and a == 1:
        return zext(w, c, 1)
    if not isc(a) and a.op == "or" and isc(a.args[1]) and a.args[0] is b and a.args[1] & (a.args[1] - 1) == 0:
        k = a.args[1].bit_length() - 1
        if tz_of(b) > k:
            return or_(w, b, shl(w, zext(w, c, 1), k))
    if not isc(a) and a.op == "ite" and a.args[0] is c:
        return ite(w, c, a.args[1], b)
    if not isc(b) and b.op == "ite" and b.args[0] is c:
        return ite(w, c, a, b.args[2])
    return _mk("ite", w, (c, a, b))


def eq(w, a, b):
    if isc(a):
        if isc(b):
            return int(a == b)
        a, b = b, a
    if a is b:
        return 1
    if isc(b):
        if a.hi < b:
            return 0
        if w == 1:
            return a if b else not_(a)
        t = a.tz
        if t and b & mask(min(t, w)):
            return 0
        if a.op == "zext":
            iw = a.args[0].w
            return eq(iw, a.args[0], b)
        if a.op == "ite":
            c, x, y = a.args
            if isc(x) and isc(y):
                return c if x == b else (not_(c) if y == b else 0)
            if isc(x) and x != b:
                return and_(1, not_(c), eq(w, y, b))
            if isc(y) and y != b:
                return and_(1, c, eq(w, x, b))
        if a.op == "xor" and isc(a.args[1]):
            return eq(w, a.args[0], a.args[1] ^ b)
        if a.op == "add" and isc(a.args[1]):
            return eq(w, a.args[0], (b - a.args[1]) & mask(w))
        if a.op == "or" and b == 0:
            return and_(1, eq(w, a.args[0], 0), eq(w, a.args[1], 0))
        if a.op == "xor" and b == 0:
            return eq(w, a.args[0], a.args[1])
        if a.op == "concat" and b == 0:
            return and_(1, eq(w - a.aux, a.args[0], 0), eq(a.aux, a.args[1], 0))
        if a.op == "sext" and a.args[0].w == 1:
            if b == 0:
                return not_(a.args[0])
            if b == mask(w):
                return a.args[0]
            return 0
        return _mk("eq", 1, (a, b))
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0].w, a.args[0], b.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ult(w, a, b):
    if isc(a) and isc(b):
        return int(a < b)
    if a is b:
        return 0
    if isc(b):
        if b == 0:
            return 0
        if a.hi < b:
            return 1
        if b == 1:
            return eq(w, a, 0)
    if isc(a) and hi_of(b) <= a:
        return 0
    if not isc(a) and a.op == "zext":
        iw = a.args[0].w
        if isc(b):
            return ult(iw, a.args[0], b) if b <= mask(iw) else 1
        if b.op == "zext" and b.args[0].w == iw:
            return ult(iw, a.args[0], b.args[0])
    if isc(a) and b.op == "zext":
        iw = b.args[0].w
        return ult(iw, a, b.args[0]) if a <= mask(iw) else 0
    return _mk("ult", 1, (a, b))


def ule(w, a, b):
    return not_(ult(w, b, a))


def slt(w, a, b):
    if isc(a) and isc(b):
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return 0
    h = 1 << (w - 1)
    if hi_of(a) < h and hi_of(b) < h:
        return ult(w, a, b)
    if isc(b) and b == 0:
        return extract(a, w - 1, 1, w)
    if isc(a) and a == mask(w):
        return not_(extract(b, w - 1, 1, w))
    return _mk("slt", 1, (a, b))


def sle(w, a, b):
    return not_(slt(w, b, a))


def show(t, depth=6):
    if isc(t):
        return hex(t)
    if t.op == "var":
        return t.aux[0]
    if depth == 0:
        return "..."
    return "(%s.%d %s)" % (t.op, t.w, " ".join(show(a, depth - 1) for a in t.args))


FOPS = {"i2f", "f2i", "fsqrt", "fcmp", "fadd", "fsub", "fmul", "fdiv"}


# ---------------------------------------------------------------- floating point (IEEE bits as words; round to nearest even)
def fop(op, w, *args, aux=None):
    if all(type(a) is int for a in args):
        return _fev(op, w, args, aux)
    return _mk(op, w, args, aux)


def _fl(b, w):
    return struct.unpack("<d" if w == 64 else "<f", b.to_bytes(w // 8, "little"))[0]


def _fbits(x, w):
    try:
        return int.from_bytes(struct.pack("<d" if w == 64 else "<f", x), "little")
    except OverflowError:
        return int.from_bytes(struct.pack("<f", math.inf if x > 0 else -math.inf), "little")


def _fev(op, w, v, aux):
    if op == "i2f":
        i = sgn(v[0], aux[1]) if aux[0] else v[0]
        if w == 64:
            return _fbits(float(i), 64)
        # to the nearest single directly (through a double would round twice)
        s = -1 if i < 0 else 1
        i = abs(i)
        k = max(0, i.bit_length() - 24)
        q, r = i >> k, i & (1 << k) - 1
        if k and (r > 1 << k - 1 or (r == 1 << k - 1 and q & 1)):
            q += 1
        return _fbits(float(s * (q << k)), 32)
    if op == "f2i":
        f = _fl(v[0], aux[1])
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if aux[0] else (0, mask(w))
        if f != f:
            return 0
        return (lo if f <= lo else hi if f >= hi else int(f)) & mask(w)
    if op == "fsqrt":
        f = _fl(v[0], w)
        return _fbits(math.sqrt(f) if f >= 0 else math.nan, w)
    if op == "fcmp":
        x, y = _fl(v[0], aux[1]), _fl(v[1], aux[1])
        nan = x != x or y != y
        return int({"oeq": x == y, "ogt": x > y, "oge": x >= y, "olt": x < y, "ole": x <= y, "one": x != y and not nan,
                    "ord": not nan, "ueq": nan or x == y, "ugt": nan or x > y, "uge": nan or x >= y, "ult": nan or x < y,
                    "ule": nan or x <= y, "une": x != y, "uno": nan}[aux[0]])
    x, y = _fl(v[0], w), _fl(v[1], w)
    r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y if y else math.copysign(math.inf, x) if x else math.nan}[op]()
    return _fbits(r, w)


def evaluate(t, env, memo=None):
    """concrete value of t under env: name -> int (missing = 0)"""
    if isc(t):
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if type(a) is Term and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        v = [a if type(a) is int else memo[a.id] for a in x.args]
        memo[x.id] = _ev(x, v, env)
        stack.pop()
    return memo[t.id]


def _ev(x, v, env):
    o, w = x.op, x.w
    m = (1 << w) - 1
    if o == "var":
        return env.get(x.aux[0], 0) & m
    if o == "add":
        return (v[0] + v[1]) & m
    if o == "sub":
        return (v[0] - v[1]) & m
    if o == "mul":
        return (v[0] * v[1]) & m
    if o == "and":
        return v[0] & v[1]
    if o == "or":
        return v[0] | v[1]
    if o == "xor":
        return v[0] ^ v[1]
    if o == "shl":
        return (v[0] << v[1]) & m if v[1] < w else 0
    if o == "lshr":
        return v[0] >> v[1] if v[1] < w else 0
    if o == "ashr":
        return (sgn(v[0], w) >> min(v[1], w - 1)) & m
    if o == "zext":
        return v[0]
    if o == "sext":
        return sgn(v[0], x.args[0].w) & m
    if o == "trunc":
        return v[0] & m
    if o == "concat":
        return (v[0] << x.aux) | v[1]
    if o == "ite":
        return v[1] if v[0] else v[2]
    if o == "eq":
        return int(v[0] == v[1])
    if o == "ult":
        return int(v[0] < v[1])
    if o == "slt":
        aw = next(a.w for a in x.args if type(a) is Term)
        return int(sgn(v[0], aw) < sgn(v[1], aw))
    if o == "udiv":
        return v[0] // v[1] if v[1] else m
    if o == "urem":
        return v[0] % v[1] if v[1] else v[0]
    if o == "sdiv":
        return sdiv(w, v[0], v[1]) if v[1] else (1 if sgn(v[0], w) < 0 else m)
    if o == "srem":
        return srem(w, v[0], v[1]) if v[1] else v[0]
    if o in FOPS:
        return _fev(o, w, v, x.aux)
    raise NotImplementedError(o)


def variables(ts):
    seen, out, stack = set(), {}, [t for t in ts if type(t) is Term]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out[x.aux[0]] = x
        stack.extend(a for a in x.args if type(a) is Term)
    return out
