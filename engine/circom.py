"""A front end for the part of circom the circuits use: parser and elaborator.

Elaboration unrolls loops and instantiates components; what is left is a list of constraints (polynomials over named signals
that must vanish mod p), witness hints, and components of templates that are left abstract (their contracts are supplied by
the check: circomlib's gadgets, and the repository's own gadgets where they are proved separately)."""
import os
import re

P = 2**256 - 2**32 - 977
TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(\"[^\"]*\"|0x[0-9a-fA-F]+|\d+|[A-Za-z_$][\w$]*|<==|==>|<--|-->|===|\*\*=|<<=|>>=|\*\*|&&|\|\||<<|>>|<=|>=|==|!=|\+\+|--|[-+*/\\%&|^]=|[-+*/\\%&|^~!<>=?:;,.(){}\[\]])", re.S)


class CircomError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise CircomError("cannot read %r" % text[i:i + 30])
        i = m.end()
        if m.group(1):
            out.append(m.group(1))
    return out


BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!=", "<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]
# circom: comparison binds looser than | ^ & as in C? its grammar puts comparison below bit operations
BIN = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def want(self, x):
        if self.peek() != x:
            raise CircomError("expected %s, found %s (after %s)" % (x, self.peek(), " ".join(self.t[max(0, self.i - 8):self.i])))
        self.i += 1

    def got(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def file(self):
        inc, tem, fun, main = [], {}, {}, None
        while self.peek() is not None:
            k = self.next()
            if k == "pragma":
                while self.next() != ";":
                    pass
            elif k == "include":
                inc.append(self.next()[1:-1])
                self.want(";")
            elif k in ("template", "function"):
                while self.peek() in ("custom", "parallel"):
                    self.next()
                n = self.next()
                self.want("(")
                ps = []
                while not self.got(")"):
                    ps.append(self.next())
                    self.got(",")
                (tem if k == "template" else fun)[n] = (ps, self.block())
            elif k == "component":
                self.want("main")
                pub = []
                if self.got("{"):
                    self.want("public"); self.want("[")
                    while not self.got("]"):
                        pub.append(self.next())
                        self.got(",")
                    self.want("}")
                self.want("=")
                main = (pub, self.expr())
                self.want(";")
            else:
                raise CircomError("unexpected %s" % k)
        return inc, tem, fun, main

    def block(self):
        self.want("{")
        r = []
        while not self.got("}"):
            r.append(self.stmt())
        return ("block", r)

    def stmt(self):
        k = self.peek()
        if k == "{":
            return self.block()
        if k == "if":
            self.next(); self.want("(")
            c = self.expr(); self.want(")")
            a = self.stmt()
            b = self.stmt() if self.got("else") else None
            return ("if", c, a, b)
        if k == "for":
            self.next(); self.want("(")
            a = self.simple(); self.want(";")
            c = self.expr(); self.want(";")
            s = self.simple(); self.want(")")
            return ("for", a, c, s, self.stmt())
        if k == "while":
            self.next(); self.want("(")
            c = self.expr(); self.want(")")
            return ("for", None, c, None, self.stmt())
        if k == "return":
            self.next()
            e = self.expr(); self.want(";")
            return ("return", e)
        if k in ("assert", "log"):
            self.next(); self.want("(")
            a = []
            while not self.got(")"):
                a.append(self.expr())
                self.got(",")
            self.want(";")
            return (k, a)
        if k == ";":
            self.next()
            return ("block", [])
        s = self.simple()
        self.want(";")
        return s

    def dims(self):
        d = []
        while self.got("["):
            d.append(self.expr()); self.want("]")
        return d

    def simple(self):
        k = self.peek()
        if k == "signal":
            self.next()
            kind = self.next() if self.peek() in ("input", "output") else "mid"
            if self.peek() == "{":
                while self.next() != "}":
                    pass
            r = []
            while True:
                n = self.next()
                d = self.dims()
                r.append(("signal", kind, n, d))
                if self.peek() in ("<==", "<--"):
                    o = self.next()
                    r.append(("sig", o, ("id", n, []), self.expr()))
                if not self.got(","):
                    break
            return ("seq", r)
        if k in ("var", "component"):
            self.next()
            r = []
            while True:
                n = self.next()
                d = self.dims()
                r.append(("decl", k, n, d, self.expr() if self.got("=") else None))
                if not self.got(","):
                    break
            return ("seq", r)
        a = self.expr()
        o = self.peek()
        if o in ("<==", "<--", "==="):
            self.next()
            return ("sig", o, a, self.expr())
        if o in ("==>", "-->"):
            self.next()
            return ("sig", "<==" if o == "==>" else "<--", self.expr(), a)
        if o in ("++", "--"):
            self.next()
            return ("assign", a, ("bin", o[0], a, ("num", 1)))
        if o == "=":
            self.next()
            return ("assign", a, self.expr())
        if o and o.endswith("=") and o[:-1] in ("+", "-", "*", "/", "\\", "%", "&", "|", "^", "**", "<<", ">>"):
            self.next()
            return ("assign", a, ("bin", o[:-1], a, self.expr()))
        return ("expr", a)

    def expr(self):
        c = self.binary(0)
        if self.got("?"):
            a = self.expr(); self.want(":")
            return ("cond", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek() in BIN[lv]:
            o = self.next()
            a = ("bin", o, a, self.binary(lv + 1))
        return a

    def unary(self):
        if self.peek() in ("-", "!", "~"):
            o = self.next()
            return ("un", o, self.unary())
        if self.peek() == "parallel":
            self.next()
        return self.post(self.primary())

    def primary(self):
        k = self.next()
        if k == "(":
            r = [self.expr()]
            while self.got(","):
                r.append(self.expr())
            self.want(")")
            return r[0] if len(r) == 1 else ("tuple", r)
        if k == "[":
            r = []
            while not self.got("]"):
                r.append(self.expr())
                self.got(",")
            return ("array", r)
        if re.match(r"0x|\d", k):
            return ("num", int(k, 0))
        if not re.match(r"[A-Za-z_$]", k):
            raise CircomError("unexpected %s in an expression" % k)
        if self.peek() == "(":
            self.next()
            a = []
            while not self.got(")"):
                a.append(self.expr())
                self.got(",")
            if self.peek() == "(":
                self.next()
                ins = []
                while not self.got(")"):
                    if self.peek(1) == "<==":
                        n = self.next(); self.next()
                        ins.append((n, self.expr()))
                    else:
                        ins.append((None, self.expr()))
                    self.got(",")
                return ("anon", k, a, ins)
            return ("call", k, a)
        return ("id", k, [])

    def post(self, e):
        while True:
            if self.got("["):
                i = self.expr(); self.want("]")
                e = ("id", e[1], e[2] + [("ix", i)]) if e[0] == "id" else ("index", e, i)
            elif self.got("."):
                e = ("id", e[1], e[2] + [("mem", self.next())])
            else:
                return e


class Program:
    def __init__(self, main_file):
        self.tem, self.fun, self.main, self.missing = {}, {}, None, []
        self.files, self.where = [], {}
        self.load(os.path.realpath(main_file), True)

    def load(self, path, top=False):
        if path in self.files:
            return
        if not os.path.exists(path):
            self.missing.append(path)
            return
        self.files.append(path)
        inc, tem, fun, main = Parser(open(path).read()).file()
        self.tem.update(tem); self.fun.update(fun)
        for n in list(tem) + list(fun):
            self.where[n] = path
        if top:
            self.main = main
        for i in inc:
            self.load(os.path.realpath(os.path.join(os.path.dirname(path), i)))


class Poly:
    """polynomial over signals mod p: {(sorted signal names): coefficient}"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {m: c % P for m, c in d.items() if c % P}

    @staticmethod
    def of(x):
        return x if isinstance(x, Poly) else Poly({(): x})

    @staticmethod
    def var(n):
        return Poly({(n,): 1})

    def __add__(self, o):
        o = Poly.of(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return Poly(d)
    __rmul__ = __mul__

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def vars(self):
        return {v for m in self.d for v in m}

    def eval(self, env):
        t = 0
        for m, c in self.d.items():
            for v in m:
                c = c * env[v] % P
            t += c
        return t % P

    def __repr__(self):
        return " + ".join("%s%s" % ("" if c == 1 and m else c if c < P // 2 else c - P, "".join("*" + v for v in m)) for m, c in self.d.items()) or "0"


class Comp:
    def __init__(self, name, tname, args):
        self.name, self.tname, self.args = name, tname, args
        self.sig = {}         # name -> nested signals
        self.kind = {}
        self.abstract = False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def nest(dims, f, ix=()):
    if not dims:
        return f(ix)
    return [nest(dims[1:], f, ix + (i,)) for i in range(dims[0])]


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


class Circuit:
    """elaborate template `name` of the program; abstract: template name -> (args -> {signal: ('input'|'output', dims)})"""

    def __init__(self, prog, name, args=(), abstract=None, root="main"):
        self.pr, self.abs = prog, abstract or {}
        self.cons = []        # (poly, where)   poly must vanish
        self.defs = {}        # signal -> poly (a <== e)
        self.hints = {}       # signal -> ast closure
        self.order = []
        self.comps = []       # abstract components in creation order
        self.templates = set()
        self.steps = 0
        self.nanon = 0
        self.main = self.instance(name, list(args), root)

    def instance(self, name, args, path):
        c = Comp(path, name, args)
        if name in self.abs:
            c.abstract = True
            for s, (kind, dims) in self.abs[name](*args).items():
                c.kind[s] = kind
                c.sig[s] = nest(dims, lambda ix, s=s: Poly.var(path + "." + s + "".join("[%d]" % i for i in ix)))
            self.comps.append(c)
            return c
        if name not in self.pr.tem:
            raise CircomError("template %s is not available" % name)
        self.templates.add(name)
        ps, body = self.pr.tem[name]
        if len(ps) != len(args):
            raise CircomError("%s takes %d arguments" % (name, len(ps)))
        sc = [dict(zip(ps, args))]
        self.run(body, sc, c)
        return c

    # ---- statements
    def run(self, s, sc, c):
        self.steps += 1
        k = s[0]
        if k in ("block", "seq"):
            if k == "block":
                sc.append({})
            for x in s[1]:
                self.run(x, sc, c)
            if k == "block":
                sc.pop()
        elif k == "signal":
            _, kind, n, d = s
            dims = [self.num(x, sc, c) for x in d]
            c.kind[n] = kind
            c.sig[n] = nest(dims, lambda ix: Poly.var(c.name + "." + n + "".join("[%d]" % i for i in ix)))
        elif k == "decl":
            _, kind, n, d, e = s
            dims = [self.num(x, sc, c) for x in d]
            v = nest(dims, lambda ix: 0 if kind == "var" else None)
            sc[-1][n] = v
            if e is not None:
                sc[-1][n] = self.value(e, sc, c, c.name + "." + n)
        elif k == "assign":
            if s[1][0] == "tuple":
                v = self.value(s[2], sc, c)
                for t, x in zip(s[1][1], v):
                    self.setvar(t, x, sc, c)
            else:
                name = None
                if s[2][0] == "call":
                    name = c.name + "." + self.label(s[1], sc, c)
                self.setvar(s[1], self.value(s[2], sc, c, name), sc, c)
        elif k == "sig":
            self.connect(s, sc, c)
        elif k == "if":
            if self.num(s[1], sc, c):
                self.run(s[2], sc, c)
            elif s[3]:
                self.run(s[3], sc, c)
        elif k == "for":
            sc.append({})
            if s[1]:
                self.run(s[1], sc, c)
            n = 0
            while self.num(s[2], sc, c):
                self.run(s[4], sc, c)
                if s[3]:
                    self.run(s[3], sc, c)
                n += 1
                if n > 100000:
                    raise CircomError("loop too long")
            sc.pop()
        elif k == "return":
            raise Ret(self.value(s[1], sc, c))
        elif k == "assert":
            v = self.value(s[1][0], sc, c)
            if isinstance(v, int) and not v:
                raise CircomError("assertion fails")
        elif k == "expr":
            self.value(s[1], sc, c)
        elif k != "log":
            raise CircomError("statement " + k)

    def label(self, e, sc, c):
        return e[1] + "".join("[%d]" % self.num(a[1], sc, c) if a[0] == "ix" else "." + a[1] for a in e[2])

    def setvar(self, e, v, sc, c):
        if e[1] == "_":
            return
        for d in reversed(sc):
            if e[1] in d:
                break
        else:
            raise CircomError("unknown variable " + e[1])
        if not e[2]:
            d[e[1]] = v
            return
        x = d[e[1]]
        ix = [self.num(a[1], sc, c) for a in e[2]]
        for i in ix[:-1]:
            x = x[i]
        if ix[-1] >= len(x):
            raise CircomError("index out of range")
        x[ix[-1]] = v

    def connect(self, s, sc, c):
        _, op, l, r = s
        if l[0] == "tuple":
            vs = self.value(r, sc, c)
            for t, v in zip(l[1], vs):
                if t != ("id", "_", []):
                    self.wire(op, flat(self.value(t, sc, c)), flat(v), c, None)
            return
        if op == "===":
            a, b = flat(self.value(l, sc, c)), flat(self.value(r, sc, c))
            if len(a) != len(b):
                raise CircomError("sizes differ")
            for x, y in zip(a, b):
                self.cons.append((Poly.of(x) - y, c.name))
            return
        tgt = flat(self.value(l, sc, c))
        if op == "<--":
            env = [dict(d) for d in sc]
            src = None
            for i, t in enumerate(tgt):
                n = self.signame(t)
                self.hints[n] = (r, env, c, i if len(tgt) > 1 else None)
                self.order.append(n)
            return
        self.wire(op, tgt, flat(self.value(r, sc, c)), c, None)

    def wire(self, op, tgt, src, c, _):
        if len(tgt) != len(src):
            raise CircomError("sizes differ")
        for t, v in zip(tgt, src):
            n = self.signame(t)
            if n in self.defs or n in self.hints:
                raise CircomError("signal %s is assigned twice" % n)
            if op == "<==":
                self.defs[n] = Poly.of(v)
                self.order.append(n)

    @staticmethod
    def signame(t):
        if isinstance(t, Poly) and len(t.d) == 1:
            (m, k), = t.d.items()
            if len(m) == 1 and k == 1:
                return m[0]
        raise CircomError("not a signal: %r" % t)

    # ---- expressions
    def num(self, e, sc, c):
        v = self.value(e, sc, c)
        if isinstance(v, Poly):
            v = v.const()
        if not isinstance(v, int):
            raise CircomError("not a compile-time constant: %r" % (e,))
        return v

    def value(self, e, sc, c, name=None):
        self.steps += 1
        k = e[0]
        if k == "num":
            return e[1] % P
        if k == "id":
            return self.ident(e, sc, c)
        if k == "bin":
            a, b = self.value(e[2], sc, c), self.value(e[3], sc, c)
            return self.binop(e[1], a, b)
        if k == "un":
            a = self.value(e[2], sc, c)
            if isinstance(a, Poly) and a.const() is not None:
                a = a.const()
            if e[1] == "-":
                return -a if isinstance(a, Poly) else -a % P
            if isinstance(a, Poly):
                raise CircomError("operator %s on a signal" % e[1])
            return int(not a) if e[1] == "!" else ~a % P
        if k == "cond":
            return self.value(e[2] if self.num(e[1], sc, c) else e[3], sc, c)
        if k == "array":
            return [self.value(x, sc, c) for x in e[1]]
        if k == "tuple":
            return [self.value(x, sc, c) for x in e[1]]
        if k == "index":
            return self.value(e[1], sc, c)[self.num(e[2], sc, c)]
        if k == "call":
            args = [self.value(x, sc, c) for x in e[2]]
            if e[1] in self.pr.fun:
                ps, body = self.pr.fun[e[1]]
                try:
                    self.run(body, [dict(zip(ps, args))], c)
                except Ret as r:
                    return r.v
                raise CircomError("function without a result")
            if name is None:
                self.nanon += 1
                name = "%s.c%d" % (c.name, self.nanon)
            return self.instance(e[1], args, name)
        if k == "anon":
            self.nanon += 1
            x = self.instance(e[1], [self.value(a, sc, c) for a in e[2]], "%s.c%d" % (c.name, self.nanon))
            ins = [n for n, kd in x.kind.items() if kd == "input"]
            for i, (n, ex) in enumerate(e[3]):
                self.wire("<==", flat(x.sig[n or ins[i]]), flat(self.value(ex, sc, c)), c, None)
            outs = [x.sig[n] for n, kd in x.kind.items() if kd == "output"]
            return outs[0] if len(outs) == 1 else outs
        raise CircomError("expression " + k)

    def ident(self, e, sc, c):
        _, n, acc = e
        for d in reversed(sc):
            if n in d:
                v = d[n]
                break
        else:
            if n not in c.sig:
                raise CircomError("unknown name %s" % n)
            v = c.sig[n]
        for kind, a in acc:
            if kind == "ix":
                i = self.num(a, sc, c)
                if not isinstance(v, list) or i >= len(v):
                    raise CircomError("index out of range: %s[%d]" % (n, i))
                v = v[i]
            else:
                if not isinstance(v, Comp) or a not in v.sig:
                    raise CircomError("no signal %s in %s" % (a, n))
                v = v.sig[a]
        return v

    def binop(self, o, a, b):
        if isinstance(a, Poly) and a.const() is not None:
            a = a.const()
        if isinstance(b, Poly) and b.const() is not None:
            b = b.const()
        if isinstance(a, int) and isinstance(b, int):
            return arith(o, a, b)
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/" and isinstance(b, int):
            return a * pow(b, P - 2, P)
        if o == "**" and isinstance(b, int) and b < 6:
            r = Poly.of(1)
            for _ in range(b):
                r = r * a
            return r
        raise CircomError("operator %s on a signal" % o)

    # ---- concrete witness
    def hint_value(self, n, env):
        ex, sc, c, i = self.hints[n]
        v = self.ceval(ex, sc, c, env)
        return flat(v)[i] if i is not None else v

    def ceval(self, e, sc, c, env):
        k = e[0]
        if k == "bin":
            return arith(e[1], self.ceval(e[2], sc, c, env), self.ceval(e[3], sc, c, env))
        if k == "un":
            a = self.ceval(e[2], sc, c, env)
            return -a % P if e[1] == "-" else int(not a) if e[1] == "!" else ~a % P
        if k == "cond":
            return self.ceval(e[2] if self.ceval(e[1], sc, c, env) else e[3], sc, c, env)
        v = self.value(e, sc, c)
        return [x.eval(env) if isinstance(x, Poly) else x for x in flat(v)] if isinstance(v, list) else v.eval(env) if isinstance(v, Poly) else v

    def all_constraints(self):
        r = [(Poly.var(n) - v, n) for n, v in self.defs.items()]
        return r + self.cons


def sgn(a):
    return a if a <= P // 2 else a - P


def arith(o, a, b):
    if o == "+": return (a + b) % P
    if o == "-": return (a - b) % P
    if o == "*": return a * b % P
    if o == "/": return a * pow(b, P - 2, P) % P
    if o == "\\": return a // b
    if o == "%": return a % b
    if o == "**": return pow(a, b, P)
    if o == "&": return a & b
    if o == "|": return (a | b) % P
    if o == "^": return (a ^ b) % P
    if o == "<<": return (a << b) % 2**256 % P if b < 256 else 0
    if o == ">>": return a >> b if b < 256 else 0
    if o == "<": return int(sgn(a) < sgn(b))
    if o == ">": return int(sgn(a) > sgn(b))
    if o == "<=": return int(sgn(a) <= sgn(b))
    if o == ">=": return int(sgn(a) >= sgn(b))
    if o == "==": return int(a == b)
    if o == "!=": return int(a != b)
    if o == "&&": return int(bool(a) and bool(b))
    if o == "||": return int(bool(a) or bool(b))
    raise CircomError("operator " + o)
