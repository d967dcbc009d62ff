"""Parser for the textual LLVM IR the harness crates compile to (lazy: a function body is parsed on first use)."""
import re
import subprocess

TOK = re.compile(r'''
  c"(?:[^"])*" | "(?:[^"])*"
 | [%@]"(?:[^"])*" | [%@][-\w.$]+
 | ![\w."]* | \#\d+
 | -?0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+
 | [A-Za-z_][\w.]*
 | \.\.\. | [\[\]{}()<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# types: int n>0 = iN ; 'ptr' ; 'void' ; 'double' ; 'float'; ('s', packed, (types)) ; ('a', n, t) ; ('v', n, t); 'other'


def size_align(t):
    if type(t) is int:
        if t <= 8:
            return 1, 1
        if t <= 16:
            return 2, 2
        if t <= 32:
            return 4, 4
        if t <= 64:
            return 8, 8
        n = (t + 7) // 8
        n = (n + 15) // 16 * 16
        return n, 16
    if t == "ptr" or t == "double":
        return 8, 8
    if t == "float":
        return 4, 4
    if t[0] == "a":
        s, a = size_align(t[2])
        return s * t[1], a
    if t[0] == "v":
        if type(t[2]) is int and t[2] == 1:
            return (t[1] + 7) // 8, (t[1] + 7) // 8
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if t[0] == "s":
        off, al = 0, 1
        for e in t[2]:
            s, a = size_align(e)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise IRError("size of %r" % (t,))


def field_offset(t, i):
    off = 0
    for k, e in enumerate(t[2]):
        s, a = size_align(e)
        if t[1]:
            a = 1
        off = (off + a - 1) // a * a
        if k == i:
            return off
        off += s
    raise IRError("field")


class G:
    """reference to a global symbol plus byte offset"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off


UNDEF = object()


class P:
    def __init__(self, s, mod):
        self.t = TOK.findall(s)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %s got %s in %s" % (x, y, " ".join(self.t)[:300]))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            t = int(x[1:])
        elif x in ("ptr", "void", "double", "float", "metadata", "label", "token", "half"):
            t = x
            if x == "ptr" and self.peek() == "addrspace":
                self.next(); self.exp("("); self.next(); self.exp(")")
        elif x == "[":
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]")
            t = ("a", n, e)
        elif x == "{":
            fs = []
            while not self.acc("}"):
                fs.append(self.type()); self.acc(",")
            t = ("s", False, tuple(fs))
        elif x == "<":
            if self.acc("{"):
                fs = []
                while not self.acc("}"):
                    fs.append(self.type()); self.acc(",")
                self.exp(">")
                t = ("s", True, tuple(fs))
            else:
                n = int(self.next()); self.exp("x"); e = self.type(); self.exp(">")
                t = ("v", n, e)
        elif x[0] == "%":
            t = self.mod.named_type(x)
        else:
            raise IRError("type %s in %s" % (x, " ".join(self.t)[:300]))
        # function type (for varargs callee)
        if self.peek() == "(" and t != "metadata" and False:
            pass
        return t

    ATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
            "inreg", "nofree", "returned", "immarg", "dead_on_unwind", "writable", "allocptr", "nest", "swiftself",
            "allocalign", "dead_on_return", "noext"}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR:
                self.next()
            elif x in ("align",):
                self.next()
                if self.acc("("):
                    self.next(); self.exp(")")
                else:
                    self.next()
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "elementtype",
                       "initializes", "memory", "nofpclass", "preallocated", "inalloca", "byref"):
                self.next()
                self.paren()
            elif x is not None and x[0] == "#":
                self.next()
            elif x is not None and x[0] == '"':
                self.next()
                if self.acc("="):
                    self.next()
            else:
                return

    def paren(self):
        if self.peek() != "(":
            return
        d = 0
        while True:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    return

    def value(self, t):
        """an operand of type t: int | str(register) | G | list (aggregate) | UNDEF"""
        x = self.next()
        c = x[0]
        if c == "%":
            return x
        if c == "@":
            return G(x)
        if c.isdigit() or (c == "-" and len(x) > 1):
            if t in ("double", "float"):
                return self.fp(x, t)
            if type(t) is not int:
                raise IRError("const %s of type %r" % (x, t))
            return int(x) & ((1 << t) - 1)
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x in ("null",):
            return 0
        if x in ("undef", "poison"):
            return UNDEF
        if x == "zeroinitializer":
            return zero(t)
        if x == "none":
            return UNDEF
        if x == "splat":
            self.exp("(")
            e = self.type()
            v = self.value(e)
            self.exp(")")
            return [v] * t[1]
        if c == "c" and len(x) > 1 and x[1] == '"':
            return list(cstr(x[2:-1]))
        if x == "{" or x == "[" or x == "<":
            close = {"{": "}", "[": "]", "<": ">"}[x]
            packed = False
            if x == "<" and self.acc("{"):
                packed = True
                close = "}"
            vs = []
            while not self.acc(close):
                e = self.type()
                vs.append(self.value(e))
                self.acc(",")
            if packed:
                self.exp(">")
            return vs
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.paren()
            self.exp("(")
            bt = self.type(); self.exp(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.acc(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(")")
            if type(base) is int:
                return base + gep_const(bt, idx)
            return G(base.name, base.off + gep_const(bt, idx))
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext"):
            self.exp("(")
            ft = self.type()
            v = self.value(ft)
            self.exp("to")
            self.type()
            self.exp(")")
            return v
        if x in ("sub", "add"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.exp("(")
            ft = self.type(); a = self.value(ft); self.exp(",")
            ft = self.type(); b = self.value(ft); self.exp(")")
            raise IRError("constant expression " + x)
        if x.startswith("0x"):
            return self.fp(x, t)
        raise IRError("value %s in %s" % (x, " ".join(self.t)[:300]))

    def fp(self, x, t):
        import struct
        if x.startswith("0x"):
            return int(x[2:], 16)
        return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def cstr(s):
    out = bytearray()
    i = 0
    b = s.encode("latin1")
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def zero(t):
    if type(t) is int or t in ("ptr", "double", "float"):
        return 0
    if t[0] in ("a", "v"):
        return [zero(t[2]) for _ in range(t[1])] if t[1] <= 1 << 16 else ("zeros", t)
    return [zero(e) for e in t[2]]


def gep_const(bt, idx):
    off = 0
    t = bt
    for k, (it, v) in enumerate(idx):
        if type(v) is not int:
            raise IRError("gep const")
        if type(it) is int and v >> (it - 1):
            v -= 1 << it
        if k == 0:
            off += v * size_align(t)[0]
        elif t[0] in ("a", "v"):
            t = t[2]
            off += v * size_align(t)[0]
        else:
            off += field_offset(t, v)
            t = t[2][v]
    return off


class Func:
    __slots__ = ("name", "dem", "params", "ret", "lines", "mod", "blocks", "entry", "parsed", "pdom", "nparams", "sret")


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}
        self.types = {}
        self.aliases = {}
        txt = open(path, encoding="latin1").read().split("\n")
        i, n = 0, len(txt)
        while i < n:
            l = txt[i]
            if l.startswith("define"):
                j = i + 1
                while txt[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                f = Func()
                f.name = "@" + m.group(1)
                f.lines = (l, txt[i + 1:j])
                f.mod = self
                f.parsed = False
                f.dem = None
                self.funcs[f.name] = f
                i = j
            elif l.startswith("@"):
                k = l.index(" = ")
                self.globals[l[:k]] = l[k + 3:]
            elif l.startswith("%"):
                k = l.index(" = type ")
                self.types[l[:k]] = l[k + 8:]
            i += 1
        names = [f for f in self.funcs if f[1:3] == "_R" or f[1:3] == "_Z"]
        p = subprocess.run(["c++filt"], input="\n".join(x[1:] for x in names), capture_output=True, text=True)
        dem = re.sub(r"\[[0-9a-f]{14,16}\]", "", p.stdout).split("\n")
        for nme, d in zip(names, dem):
            self.funcs[nme].dem = d
        for f in self.funcs.values():
            if f.dem is None:
                f.dem = f.name[1:]

    def named_type(self, x):
        t = self.types.get(x)
        if t is None or t == "opaque":
            raise IRError("named type " + x)
        return P(t, self).type()

    def parse(self, f):
        if f.parsed:
            return f
        head, body = f.lines
        m = head.index(f.name + "(")
        p = P(head[m + len(f.name):], self)
        p.exp("(")
        params = []
        while not p.acc(")"):
            if p.peek() == "...":
                p.next()
                continue
            t = p.type()
            p.attrs()
            nm = None
            if p.peek() is not None and p.peek()[0] == "%":
                nm = p.next()
            params.append((t, nm))
            p.acc(",")
        # unnamed parameters are %0, %1...
        k = 0
        ps = []
        for t, nm in params:
            if nm is None:
                nm = "%%%d" % k
            if nm[1:].isdigit():
                k = int(nm[1:]) + 1
            ps.append((t, nm))
        f.params = ps
        blocks = {}
        order = []
        cur = None
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l or l[0] == ";":
                continue
            if l[0] != " ":
                nm = l.split(":")[0]
                if nm.startswith('"'):
                    pass
                cur = "%" + nm
                blocks[cur] = []
                order.append(cur)
                continue
            s = l.strip()
            if s.startswith(";") or s.startswith("#dbg"):
                continue
            if cur is None:
                cur = "%entry-implicit"
                # implicit entry label number = number of unnamed params
                cur = "%%%d" % k
                blocks[cur] = []
                order.append(cur)
            if s.startswith("switch") or " = landingpad" in s or s.startswith("invoke") or " = invoke" in s:
                if s.startswith("switch"):
                    while "]" not in body[i - 1]:
                        s += " " + body[i].strip()
                        i += 1
                else:
                    while i < len(body) and body[i].startswith("          "):
                        s += " " + body[i].strip()
                        i += 1
            ins = self.instr(s)
            if ins is not None:
                blocks[cur].append(ins)
        f.blocks = blocks
        f.entry = order[0]
        f.parsed = True
        f.pdom = None
        f.lines = None
        return f

    BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
           "fadd", "fsub", "fmul", "fdiv"}
    CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "fptoui", "sitofp", "fptosi", "addrspacecast"}
    FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz",
             "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak"}

    def instr(self, s):
        p = P(s, self)
        dest = None
        if p.t[0][0] == "%" and p.peek(1) == "=":
            dest = p.next()
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in self.BIN:
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            return ("bin", dest, op, t, a, b)
        if op == "icmp" or op == "fcmp":
            while p.peek() in self.FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            return (op, dest, pred, t, a, b)
        if op in self.CASTS:
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.exp("to")
            t2 = p.type()
            return ("cast", dest, op, t, a, t2)
        if op == "load":
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            p.exp(",")
            p.type()
            return ("load", dest, t, p.value("ptr"))
        if op == "store":
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.type()
            return ("store", None, t, v, p.value("ptr"))
        if op == "getelementptr":
            while p.peek() in self.FLAGS:
                p.next()
            bt = p.type()
            p.exp(",")
            p.type()
            base = p.value("ptr")
            idx = []
            while p.acc(","):
                if p.peek() is None or p.peek()[0] == "!":
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            # flatten
            off = 0
            dyn = []
            t = bt
            for k, (it, v) in enumerate(idx):
                if k == 0:
                    sc = size_align(t)[0]
                elif t[0] in ("a", "v"):
                    t = t[2]
                    sc = size_align(t)[0]
                else:
                    off += field_offset(t, v)
                    t = t[2][v]
                    continue
                if type(v) is int:
                    if v >> (it - 1):
                        v -= 1 << it
                    off += v * sc
                elif type(v) is str:
                    dyn.append((it, v, sc))
                else:
                    raise IRError("gep " + s)
            return ("gep", dest, base, off, tuple(dyn))
        if op == "alloca":
            t = p.type()
            n = 1
            if p.acc(","):
                if type(p.peek()) is str and p.peek()[0] == "i" and p.peek()[1:].isdigit():
                    it = p.type()
                    n = p.value(it)
            return ("alloca", dest, size_align(t)[0] * n if type(n) is int else None)
        if op == "phi":
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.exp("[")
                v = p.value(t)
                p.exp(",")
                inc[p.next()] = v
                p.exp("]")
                if not p.acc(","):
                    break
                if p.peek() is None or p.peek()[0] == "!":
                    break
            return ("phi", dest, t, inc)
        if op == "br":
            if p.acc("label"):
                return ("jmp", None, p.next())
            t = p.type()
            c = p.value(t)
            p.exp(","); p.exp("label"); a = p.next()
            p.exp(","); p.exp("label"); b = p.next()
            return ("br", None, c, a, b)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.exp(","); p.exp("label")
            d = p.next()
            p.exp("[")
            cases = []
            while not p.acc("]"):
                t2 = p.type()
                cv = p.value(t2)
                p.exp(","); p.exp("label")
                cases.append((cv, p.next()))
            return ("switch", None, t, v, d, tuple(cases))
        if op == "ret":
            t = p.type()
            return ("ret", None, t, None if t == "void" else p.value(t))
        if op == "unreachable":
            return ("unreachable", None)
        if op == "resume":
            return ("unreachable", None)
        if op == "landingpad":
            return ("landingpad", dest)
        if op == "select":
            while p.peek() in self.FLAGS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.exp(",")
            t = p.type()
            a = p.value(t)
            p.exp(",")
            t = p.type()
            b = p.value(t)
            return ("select", dest, ct, c, t, a, b)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            ix = []
            while p.acc(","):
                if p.peek()[0] == "!":
                    break
                ix.append(int(p.next()))
            return ("extractvalue", dest, v, tuple(ix), t)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            et = p.type()
            e = p.value(et)
            ix = []
            while p.acc(","):
                if p.peek()[0] == "!":
                    break
                ix.append(int(p.next()))
            return ("insertvalue", dest, t, v, e, tuple(ix))
        if op == "freeze":
            t = p.type()
            return ("freeze", dest, t, p.value(t))
        if op == "fence":
            return None
        if op == "fneg":
            t = p.type()
            return ("unsupported", dest, s)
        if op in ("call", "invoke"):
            while p.peek() in self.FLAGS or p.peek() in ("fastcc", "coldcc", "ccc", "preserve_mostcc"):
                p.next()
            p.attrs()
            rt = p.type()
            if p.peek() == "(":  # explicit function type
                p.paren()
            if p.peek() == "asm":
                p.next()
                while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                    p.next()
                a1 = p.next(); p.exp(","); a2 = p.next()
                callee = ("asm", a1, a2)
            else:
                callee = p.value("ptr")
            p.exp("(")
            args = []
            while not p.acc(")"):
                t = p.type()
                if t == "metadata":
                    # skip
                    d = 0
                    while True:
                        x = p.peek()
                        if d == 0 and x in (",", ")"):
                            break
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                        p.next()
                    p.acc(",")
                    continue
                p.attrs()
                v = p.value(t)
                args.append((t, v))
                p.acc(",")
            nxt = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next(); p.exp("label")
                nxt = p.next()
            return ("call", dest, rt, callee, tuple(args), nxt)
        if op == "atomicrmw":
            while p.peek() in self.FLAGS:
                p.next()
            o = p.next()
            p.type()
            ptr = p.value("ptr")
            p.exp(",")
            t = p.type()
            return ("atomicrmw", dest, o, ptr, t, p.value(t))
        if op == "cmpxchg":
            while p.peek() in self.FLAGS:
                p.next()
            p.type()
            ptr = p.value("ptr")
            p.exp(",")
            t = p.type(); a = p.value(t); p.exp(",")
            t = p.type(); b = p.value(t)
            return ("cmpxchg", dest, ptr, t, a, b)
        if op == "extractelement":
            t = p.type(); v = p.value(t); p.exp(","); it = p.type()
            return ("extractelement", dest, v, p.value(it))
        if op == "insertelement":
            t = p.type(); v = p.value(t); p.exp(","); et = p.type(); e = p.value(et); p.exp(","); it = p.type()
            return ("insertelement", dest, t, v, e, p.value(it))
        if op == "shufflevector":
            t = p.type(); a = p.value(t); p.exp(",")
            t2 = p.type(); b = p.value(t2); p.exp(",")
            mt = p.type()
            return ("shufflevector", dest, t, a, b, p.value(mt))
        return ("unsupported", dest, s)
