"""Symbolic executor for LLVM IR (Rust whole-program IR).  Pointers are integers (object id << 32 | offset);
every machine word is an int or a Term.  Branches on symbolic conditions fork, or - in merge mode - both sides are
run to the join point and the states merged with if-then-else terms."""
import re
import struct
import sys
import time

import terms as T
from terms import Term, isc
import smt
import ir
from ir import G, UNDEF, size_align

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Limit(Exception):
    pass


class Obj:
    __slots__ = ("size", "cells", "own", "init", "owner", "freed", "ro", "name")

    def __init__(self, size, owner, init=None, name=""):
        self.size = size
        self.cells = {}      # off -> (nbytes, value)
        self.own = {}        # byte off -> cell off (only for bytes covered)
        self.init = init     # bytes | None(undef) | 'zero'
        self.owner = owner
        self.freed = False
        self.ro = False
        self.name = name

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.size, o.cells, o.own, o.init, o.owner, o.freed, o.ro, o.name = (
            self.size, dict(self.cells), dict(self.own), self.init, owner, self.freed, self.ro, self.name)
        return o

    def _clear(self, off, n):
        """remove coverage of [off, off+n), splitting partially covered cells"""
        own, cells = self.own, self.cells
        done = set()
        for b in range(off, off + n):
            c = own.get(b)
            if c is None or c in done:
                continue
            done.add(c)
            k, v = cells.pop(c)
            for i in range(c, c + k):
                del own[i]
            if c < off or c + k > off + n:
                for i in range(c, c + k):
                    if i < off or i >= off + n:
                        cells[i] = (1, T.extract(v, (i - c) * 8, 8, k * 8) if v is not UNDEF else UNDEF)
                        own[i] = i

    def store(self, off, n, v):
        cur = self.cells.get(off)
        if cur is not None and cur[0] == n:
            self.cells[off] = (n, v)
            return
        self._clear(off, n)
        self.cells[off] = (n, v)
        own = self.own
        for i in range(off, off + n):
            own[i] = off

    def load(self, off, n):
        cur = self.cells.get(off)
        if cur is not None and cur[0] == n:
            return cur[1]
        c = self.own.get(off)
        if c is not None:
            k, v = self.cells[c]
            if c + k >= off + n:
                return UNDEF if v is UNDEF else T.extract(v, (off - c) * 8, n * 8, k * 8)
        # assemble from pieces
        val, bits = 0, 0
        i = off
        undef = 0
        while i < off + n:
            c = self.own.get(i)
            if c is None:
                if self.init is None:
                    undef += 1
                    b = 0
                elif self.init == "zero":
                    b = 0
                else:
                    b = self.init[i]
                val = T.concat(b, 8, val, bits) if bits else b
                bits += 8
                i += 1
                continue
            k, v = self.cells[c]
            take = min(c + k, off + n) - i
            if v is UNDEF:
                undef += take
                p = 0
            else:
                p = T.extract(v, (i - c) * 8, take * 8, k * 8)
            val = T.concat(p, take * 8, val, bits) if bits else p
            bits += take * 8
            i += take
        if undef == n:
            return UNDEF
        return val

    def pieces(self, off, n):
        """list of (relative offset, nbytes, value) covering [off, off+n)"""
        out = []
        i = off
        end = off + n
        while i < end:
            c = self.own.get(i)
            if c is None:
                j = i + 1
                while j < end and j not in self.own:
                    j += 1
                if self.init is None:
                    out.append((i - off, j - i, UNDEF))
                elif self.init == "zero":
                    for q in range(i, j, 8):
                        out.append((q - off, min(8, j - q), 0))
                else:
                    for q in range(i, j, 8):
                        k = min(8, j - q)
                        out.append((q - off, k, int.from_bytes(self.init[q:q + k], "little")))
                i = j
                continue
            k, v = self.cells[c]
            take = min(c + k, end) - i
            if take == k:
                out.append((i - off, k, v))
            else:
                out.append((i - off, take, UNDEF if v is UNDEF else T.extract(v, (i - c) * 8, take * 8, k * 8)))
            i += take
        return out


class Frame:
    __slots__ = ("f", "block", "idx", "regs", "prev", "dest", "nxt", "allocas", "uid", "hook")

    def clone(self):
        x = Frame.__new__(Frame)
        x.f, x.block, x.idx, x.prev, x.dest, x.nxt, x.uid, x.hook = (
            self.f, self.block, self.idx, self.prev, self.dest, self.nxt, self.uid, self.hook)
        x.regs = dict(self.regs)
        x.allocas = list(self.allocas)
        return x


class State:
    _n = 0
    __slots__ = ("frames", "mem", "pc", "model", "uid", "nextobj", "steps", "log", "data", "forks", "alloc_as")

    def __init__(self):
        State._n += 1
        self.uid = State._n
        self.frames = []
        self.mem = {}
        self.pc = []
        self.model = {}
        self.nextobj = 0x2F5C_0001    # unlikely as a data word
        self.steps = 0
        self.log = []
        self.data = {}
        self.forks = 0
        self.alloc_as = None

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.nextobj = self.nextobj
        s.steps = self.steps
        s.log = list(self.log)
        s.data = dict(self.data)
        s.forks = self.forks
        s.alloc_as = self.alloc_as
        # both sides must copy before writing
        State._n += 1
        self.uid = State._n
        return s


class Outcome:
    __slots__ = ("kind", "state", "value", "where")

    def __init__(self, kind, state, value=None, where=None):
        self.kind, self.state, self.value, self.where = kind, state, value, where

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.value, self.where)


class Terminated(Exception):
    def __init__(self, kind, where, value=None):
        self.kind, self.where, self.value = kind, where, value


PANIC = re.compile(r"^(core::panicking::|core::panicking::panic_fmt|std::panicking::|__rustc::rust_begin_unwind|__rustc::__rust_start_panic|"
                   r"std::process::abort|std::alloc::rust_oom|alloc::alloc::handle_alloc_error|std::sys::.*abort_internal|"
                   r"core::result::unwrap_failed|core::option::(unwrap|expect)_failed|core::cell::panic_|"
                   r"core::slice::index::slice_|core::slice::index::.*fail|core::str::slice_error_fail|alloc::raw_vec::(handle_error|capacity_overflow)|"
                   r"std::thread::local::panic_access_error|rust_panic)")


class Engine:
    def __init__(self, mod, merge=False, max_steps=5_000_000, branch_timeout_ms=4000, assume_feasible=False, verbose=False):
        self.mod = mod
        self.merge = merge
        self.max_steps = max_steps
        self.branch_timeout = branch_timeout_ms
        self.assume_feasible = assume_feasible
        self.verbose = verbose
        self.gaddr = {}
        self.gobj = {}
        self.faddr = {}
        self.gnext = 0x7000_0000
        self.base_mem = {}
        self.hooks = {}       # exact llvm symbol -> handler(engine, state, args) -> value | Outcome control
        self.dem_hooks = []   # (compiled regex, handler)
        self._hookcache = {}
        self.nbranch = 0
        self.nfork = 0
        self.nmerge = 0
        self.encoded = set()
        self.alloc_limit = 1 << 24
        self.conc_limit = 64
        self.instr_count = 0
        self.deadline = None
        self.D = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}
        self.uid = 0
        self.sym_alloc = None
        self.path_limit = None

    # ---------------------------------------------------------------- globals
    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        self.gnext += 1
        a = self.gnext << 32
        self.gaddr[name] = a
        if name in self.mod.funcs:
            self.faddr[a] = name
            return a
        d = self.mod.globals.get(name)
        if d is None:
            # external function or data
            self.faddr[a] = name
            return a
        if re.match(r"(?:[\w ]+ )?(?:unnamed_addr )?alias ", d) or " alias " in d[:60]:
            m = re.search(r"alias .*?, ptr (@\S+)", d)
            r = self.global_addr(m.group(1).rstrip(","))
            self.gaddr[name] = r
            return r
        m = re.match(r"(.*?)\b(constant|global) ", d)
        if "external " in m.group(1) or "extern_weak" in m.group(1):
            self.faddr[a] = name
            return a
        p = ir.P(d[m.end():], self.mod)
        t = p.type()
        v = p.value(t)
        size = size_align(t)[0]
        o = Obj(size, -1, None, name)
        self.gobj[a >> 32] = o
        self._ginit(o, 0, t, v)
        o.ro = m.group(2) == "constant"
        self.base_mem[a >> 32] = o
        return a

    def _ginit(self, o, off, t, v):
        if type(v) is tuple and v[0] == "zeros":
            o.init = "zero"
            return
        if v is UNDEF:
            return
        if type(v) is list and v and t[0] == "a" and t[2] == 8 and all(type(x) is int for x in v):
            n = len(v)
            if off == 0 and n == o.size:
                o.init = bytes(v)
                return
            b = bytes(v)
            for q in range(0, n, 8):
                o.store(off + q, min(8, n - q), int.from_bytes(b[q:q + 8], "little"))
            return
        if type(v) is G:
            o.store(off, 8, self.global_addr(v.name) + v.off)
            return
        if type(v) is list:
            if t[0] == "a" or t[0] == "v":
                s = size_align(t[2])[0]
                for i, e in enumerate(v):
                    self._ginit(o, off + i * s, t[2], e)
            else:
                for i, e in enumerate(v):
                    self._ginit(o, off + ir.field_offset(t, i), t[2][i], e)
            return
        n = size_align(t)[0]
        o.store(off, n, v)

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, init=None, name=""):
        k = st.nextobj
        st.nextobj += 1
        st.mem[k] = Obj(size, st.uid, init, name)
        return k << 32

    def robj(self, st, addr, n, what):
        k = addr >> 32
        o = st.mem.get(k)
        if o is None:
            o = self.base_mem.get(k)
            if o is None:
                raise Terminated("memerr", "%s at invalid address %#x" % (what, addr))
        off = addr & 0xFFFFFFFF
        if o.freed:
            raise Terminated("memerr", "%s after free" % what)
        if off + n > o.size:
            raise Terminated("memerr", "%s of %d bytes at offset %d of a %d-byte object %s" % (what, n, off, o.size, o.name))
        return o, off

    def wobj(self, st, addr, n, what="store"):
        o, off = self.robj(st, addr, n, what)
        if o.owner != st.uid:
            o = o.clone(st.uid)
            st.mem[addr >> 32] = o
        return o, off

    def store_bytes(self, st, addr, data):
        o, off = self.wobj(st, addr, len(data))
        for q in range(0, len(data)):
            o.store(off + q, 1, data[q])

    def load_bytes(self, st, addr, n):
        o, off = self.robj(st, addr, n, "load")
        return [o.load(off + i, 1) for i in range(n)]

    def load_int(self, st, addr, n):
        o, off = self.robj(st, addr, n, "load")
        return self.und(o.load(off, n), n * 8)

    def store_int(self, st, addr, n, v):
        o, off = self.wobj(st, addr, n)
        o.store(off, n, v)

    def und(self, v, w):
        if v is UNDEF:
            return T.fresh("undef", w)
        return v

    # ---------------------------------------------------------------- values
    def val(self, regs, v):
        t = type(v)
        if t is str:
            return regs[v]
        if t is int:
            return v
        if t is G:
            return self.global_addr(v.name) + v.off
        if t is list:
            return [self.val(regs, x) for x in v]
        return v

    # ---------------------------------------------------------------- solving
    def feasible(self, st, cond):
        """can cond hold on this path?  -> (bool, model)"""
        if isc(cond):
            return bool(cond), st.model
        try:
            if st.model is not None and T.evaluate(cond, st.model):
                return True, st.model
        except NotImplementedError:
            pass
        r, m = smt.solve(self.relevant(st.pc, cond), self.branch_timeout)
        if r == "sat":
            mm = dict(st.model) if st.model else {}
            mm.update(m)
            if all(T.evaluate(c, mm) for c in st.pc) and T.evaluate(cond, mm):
                return True, mm
            r, m = smt.solve(st.pc + [cond], self.branch_timeout)
            if r == "sat":
                return True, m
        if r == "unknown":
            return True, None
        return False, None

    def relevant(self, pc, cond):
        vs = set(T.variables([cond]))
        cs = [(c, set(self._vars(c))) for c in pc]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c, v in cs:
                if v & vs:
                    vs |= v
                    out.append(c)
                    ch = True
                else:
                    rest.append((c, v))
            cs = rest
        return out + [cond]

    _vc = {}

    def _vars(self, c):
        if isc(c):
            return ()
        r = self._vc.get(c.id)
        if r is None or r[0] is not c:
            r = (c, tuple(T.variables([c])))
            self._vc[c.id] = r
        return r[1]

    def assume(self, st, cond):
        """conjoin; returns False when infeasible"""
        ok, m = self.feasible(st, cond)
        if not ok:
            return False
        if not isc(cond):
            st.pc.append(cond)
            st.model = m
        return True

    def concretize(self, st, term, limit=None):
        """fork st over all values of term -> [(state, value)] (st itself is reused for the last one)"""
        if isc(term):
            return [(st, term)]
        limit = limit or self.conc_limit
        out = []
        cur = st
        w = term.w
        while True:
            ok = True
            if cur.model is None:
                r, m = smt.solve(cur.pc, self.branch_timeout * 5)
                if r != "sat":
                    if r == "unsat":
                        break
                    raise Limit("cannot decide path feasibility")
                cur.model = m
            v = T.evaluate(term, cur.model)
            ne = T.not_(T.eq(w, term, v))
            ok, m = self.feasible(cur, ne)
            if not ok:
                cur.pc.append(T.eq(w, term, v)) if not isc(T.eq(w, term, v)) else None
                out.append((cur, v))
                break
            other = cur.clone()
            self.nfork += 1
            cur.pc.append(T.eq(w, term, v))
            out.append((cur, v))
            other.pc.append(ne)
            other.model = m
            cur = other
            if len(out) > limit:
                raise Limit("more than %d values for a concretised word" % limit)
        return out

    def unique(self, st, term):
        """the only value of term on this path, or None"""
        if st.model is None:
            return None
        v = T.evaluate(term, st.model)
        ok, _ = self.feasible(st, T.not_(T.eq(term.w, term, v)))
        return None if ok else v

    # ---------------------------------------------------------------- calls
    def push_call(self, st, fname, args, dest, nxt, hook=None):
        f = self.mod.parse(self.mod.funcs[fname])
        self.encoded.add(f.dem)
        fr = Frame()
        fr.f = f
        fr.block = f.blocks[f.entry]
        fr.idx = 0
        fr.prev = None
        fr.regs = {}
        self.cur_block_name(fr, f.entry)
        for (t, nm), a in zip(f.params, args):
            fr.regs[nm] = a
        fr.dest = dest
        fr.nxt = nxt
        fr.allocas = []
        self.uid += 1
        fr.uid = self.uid
        fr.hook = hook
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Terminated("limit", "call depth")

    def cur_block_name(self, fr, name):
        fr.regs["__b"] = name

    def start(self, fname, args, st=None):
        st = st or State()
        self.push_call(st, fname if fname[0] == "@" else "@" + fname, args, None, None)
        return st

    def find_hook(self, name):
        h = self._hookcache.get(name, 0)
        if h != 0:
            return h
        h = self.hooks.get(name)
        if h is None:
            f = self.mod.funcs.get(name)
            d = f.dem if f else name[1:]
            if PANIC.match(d):
                def h(eng, st, args, d=d):
                    raise Terminated("panic", self.backtrace(st) + " -> " + d)
            else:
                for rx, hh in self.dem_hooks:
                    if rx.search(d):
                        h = hh
                        break
        self._hookcache[name] = h
        return h

    def backtrace(self, st):
        return " > ".join(fr.f.dem[:100] for fr in st.frames[-4:])

    # ---------------------------------------------------------------- driver
    def run(self, st, stop=None):
        """explore; returns list of Outcomes.  stop=(frame uid, block name): also returns states arriving there
        as Outcome('stop')."""
        work = [st] if not isinstance(st, list) else list(st)
        done = []
        while work:
            s = work.pop()
            try:
                r = self.run_one(s, stop)
            except Terminated as e:
                done.append(Outcome(e.kind, s, e.value, e.where))
                continue
            if isinstance(r, Outcome):
                done.append(r)
            else:
                for x in r:
                    if isinstance(x, Outcome):
                        done.append(x)
                    else:
                        work.append(x)
            if self.path_limit and len(done) > self.path_limit:
                raise Limit("more than %d paths" % self.path_limit)
        return done

    def run_one(self, st, stop):
        D = self.D
        steps = 0
        while True:
            fr = st.frames[-1]
            ins = fr.block[fr.idx]
            fr.idx += 1
            steps += 1
            if steps & 0x3FF == 0:
                st.steps += 1024
                self.instr_count += 1024
                if st.steps > self.max_steps:
                    raise Terminated("limit", "step limit: " + self.backtrace(st))
                if self.deadline and time.time() > self.deadline:
                    raise Limit("time limit")
            r = D[ins[0]](st, fr, ins)
            if r is not None:
                if r is True:  # control transfer: check stop
                    if stop is not None:
                        g = self.at_stop(st, stop)
                        if g:
                            return Outcome("stop", st)
                    continue
                return r

    def at_stop(self, st, stop):
        uid, blk = stop
        if blk is None:
            # stop when frame uid has returned
            return all(f.uid != uid for f in st.frames)
        top = st.frames[-1]
        return top.uid == uid and top.regs["__b"] == blk

    def goto(self, st, fr, target):
        f = fr.f
        cur = fr.regs["__b"]
        b = f.blocks[target]
        fr.prev = cur
        fr.block = b
        fr.regs["__b"] = target
        # phis
        i = 0
        n = len(b)
        if b[0][0] == "phi":
            vals = []
            while i < n and b[i][0] == "phi":
                ins = b[i]
                vals.append((ins[1], self.val(fr.regs, ins[3][cur])))
                i += 1
            for d, v in vals:
                fr.regs[d] = v
        fr.idx = i
        return True

    # ---------------------------------------------------------------- instructions
    def op_bin(self, st, fr, ins):
        _, dest, op, t, a, b = ins
        regs = fr.regs
        a = regs[a] if type(a) is str else self.val(regs, a)
        b = regs[b] if type(b) is str else self.val(regs, b)
        if type(t) is int:
            regs[dest] = self.bin(op, t, a, b)
        elif t == "double":
            regs[dest] = self.fbin(op, a, b)
        elif t == "float":
            regs[dest] = T.fop(op, 32, a, b)
        elif type(t) is tuple and t[0] == "v":
            if a is UNDEF or b is UNDEF:
                raise Unsupported("undef vector")
            regs[dest] = [self.bin(op, t[2], x, y) for x, y in zip(a, b)]
        else:
            raise Unsupported("bin on %r" % (t,))

    def fbin(self, op, a, b):
        if not (isc(a) and isc(b)):
            return T.fop(op, 64, a, b)
        x, y = struct.unpack("<dd", struct.pack("<QQ", a, b))
        r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
        return struct.unpack("<Q", struct.pack("<d", r))[0]

    BINF = {"add": T.add, "sub": T.sub, "mul": T.mul, "udiv": T.udiv, "urem": T.urem, "sdiv": T.sdiv, "srem": T.srem,
            "and": T.and_, "or": T.or_, "xor": T.xor, "shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}

    def bin(self, op, w, a, b):
        if a is UNDEF:
            a = T.fresh("undef", w)
        if b is UNDEF:
            b = T.fresh("undef", w)
        return self.BINF[op](w, a, b)

    def op_icmp(self, st, fr, ins):
        _, dest, pred, t, a, b = ins
        regs = fr.regs
        a = regs[a] if type(a) is str else self.val(regs, a)
        b = regs[b] if type(b) is str else self.val(regs, b)
        if type(t) is tuple:
            regs[dest] = [self.icmp(pred, t[2] if type(t[2]) is int else 64, x, y) for x, y in zip(a, b)]
            return
        regs[dest] = self.icmp(pred, 64 if t == "ptr" else t, a, b)

    def icmp(self, p, w, a, b):
        if a is UNDEF:
            a = T.fresh("undef", w)
        if b is UNDEF:
            b = T.fresh("undef", w)
        if p == "eq":
            return T.eq(w, a, b)
        if p == "ne":
            return T.not_(T.eq(w, a, b))
        if p == "ult":
            return T.ult(w, a, b)
        if p == "ugt":
            return T.ult(w, b, a)
        if p == "ule":
            return T.ule(w, a, b)
        if p == "uge":
            return T.ule(w, b, a)
        if p == "slt":
            return T.slt(w, a, b)
        if p == "sgt":
            return T.slt(w, b, a)
        if p == "sle":
            return T.sle(w, a, b)
        return T.sle(w, b, a)

    def op_fcmp(self, st, fr, ins):
        _, dest, pred, t, a, b = ins
        a, b = self.val(fr.regs, a), self.val(fr.regs, b)
        if t not in ("double", "float"):
            raise Unsupported("fcmp")
        if not (isc(a) and isc(b)) or t == "float":
            fr.regs[dest] = T.fop("fcmp", 1, a, b, aux=(pred, T_w(t)))
            return
        x, y = struct.unpack("<dd", struct.pack("<QQ", a, b))
        nan = x != x or y != y
        r = {"oeq": x == y, "ogt": x > y, "oge": x >= y, "olt": x < y, "ole": x <= y, "one": x != y and not nan,
             "ord": not nan, "ueq": nan or x == y, "ugt": nan or x > y, "uge": nan or x >= y, "ult": nan or x < y,
             "ule": nan or x <= y, "une": x != y, "uno": nan}[pred]
        fr.regs[dest] = int(r)

    def op_cast(self, st, fr, ins):
        _, dest, op, t, a, t2 = ins
        regs = fr.regs
        a = self.val(regs, a)
        if a is UNDEF:
            regs[dest] = UNDEF
            return
        if op == "zext":
            if type(t) is int:
                regs[dest] = T.zext(t2, a, t)
            else:
                regs[dest] = [T.zext(t2[2], x, t[2]) for x in a]
        elif op == "trunc":
            if type(t) is int:
                regs[dest] = T.trunc(t2, a, t)
            else:
                regs[dest] = [T.trunc(t2[2], x, t[2]) for x in a]
        elif op == "sext":
            if type(t) is int:
                regs[dest] = T.sext(t2, a, t)
            else:
                regs[dest] = [T.sext(t2[2], x, t[2]) for x in a]
        elif op == "ptrtoint":
            regs[dest] = a if t2 == 64 else T.trunc(t2, a, 64)
        elif op == "inttoptr":
            regs[dest] = a if t == 64 else T.zext(64, a, t)
        elif op == "bitcast":
            if type(t) is tuple and type(t2) is int:
                ew = t[2]
                v = 0
                bits = 0
                for x in a:
                    x = self.und(x, ew)
                    v = T.concat(x, ew, v, bits) if bits else x
                    bits += ew
                regs[dest] = v
            elif type(t) is int and type(t2) is tuple:
                ew = t2[2]
                regs[dest] = [T.extract(a, i * ew, ew, t) for i in range(t2[1])]
            elif type(t) is tuple and type(t2) is tuple:
                ew, e2 = t[2], t2[2]
                tot = ew * t[1]
                v, bits = 0, 0
                for x in a:
                    x = self.und(x, ew)
                    v = T.concat(x, ew, v, bits) if bits else x
                    bits += ew
                regs[dest] = [T.extract(v, i * e2, e2, tot) for i in range(t2[1])]
            else:
                regs[dest] = a
        elif op in ("uitofp", "sitofp"):
            if not isc(a) or t2 != "double":
                regs[dest] = T.fop("i2f", T_w(t2), a, aux=(op == "sitofp", t))
                return
            x = float(a if op == "uitofp" else T.sgn(a, t))
            regs[dest] = struct.unpack("<Q", struct.pack("<d", x))[0]
        elif op in ("fptoui", "fptosi"):
            if not isc(a) or t != "double":
                regs[dest] = T.fop("f2i", t2, a, aux=(op == "fptosi", T_w(t)))
                return
            x = struct.unpack("<d", struct.pack("<Q", a))[0]
            regs[dest] = int(x) & T.mask(t2)
        else:
            raise Unsupported(op)

    def op_load(self, st, fr, ins):
        _, dest, t, p = ins
        regs = fr.regs
        p = regs[p] if type(p) is str else self.val(regs, p)
        if type(p) is not int:
            return self.sym_load(st, fr, ins, p)
        regs[dest] = self.load_t(st, p, t)

    def load_t(self, st, p, t):
        if type(t) is int:
            n = (t + 7) // 8
            o, off = self.robj(st, p, n, "load")
            v = o.load(off, n)
            if t & 7 and v is not UNDEF:
                v = T.trunc(t, v, n * 8)
            return v
        if t == "ptr" or t == "double":
            o, off = self.robj(st, p, 8, "load")
            return o.load(off, 8)
        if t == "float":
            o, off = self.robj(st, p, 4, "load")
            return o.load(off, 4)
        if t[0] in ("a", "v"):
            s = size_align(t[2])[0]
            return [self.load_t(st, p + i * s, t[2]) for i in range(t[1])]
        return [self.load_t(st, p + ir.field_offset(t, i), e) for i, e in enumerate(t[2])]

    def sym_addr_values(self, st, p, limit=600):
        """feasible concrete values of a symbolic address"""
        if p is UNDEF:
            raise Terminated("memerr", "access through undefined pointer")
        vals = []
        conds = list(st.pc)
        while True:
            r, m = smt.solve(conds, self.branch_timeout * 5)
            if r == "unsat":
                return vals
            if r == "unknown":
                raise Limit("symbolic address")
            v = T.evaluate(p, m)
            vals.append(v)
            conds.append(T.not_(T.eq(64, p, v)))
            if len(vals) > limit:
                raise Limit("symbolic address with more than %d values" % limit)

    def sym_load(self, st, fr, ins, p):
        _, dest, t, _p = ins
        if type(t) is int and p is not UNDEF:
            vals = self.sym_addr_values(st, p)
            res = None
            w = t
            for v in sorted(vals, reverse=True):
                x = self.load_t(st, v, t)
                x = self.und(x, w)
                res = x if res is None else T.ite(w, T.eq(64, p, v), x, res)
            fr.regs[dest] = res
            return None
        return self.fork_on(st, fr, p)

    def fork_on(self, st, fr, term):
        """concretise term by forking and re-execute the current instruction with the value substituted"""
        if term is UNDEF:
            raise Terminated("memerr", "use of undefined value")
        fr.idx -= 1
        res = self.concretize(st, term)
        out = []
        for s, v in res:
            f2 = s.frames[-1]
            for k, x in list(f2.regs.items()):
                if x is term:
                    f2.regs[k] = v
            out.append(s)
        return out

    def op_store(self, st, fr, ins):
        _, _d, t, v, p = ins
        regs = fr.regs
        p = regs[p] if type(p) is str else self.val(regs, p)
        if type(p) is not int:
            return self.fork_on(st, fr, p)
        self.store_t(st, p, t, self.val(regs, v))

    def store_t(self, st, p, t, v):
        if type(t) is int:
            n = (t + 7) // 8
            o, off = self.wobj(st, p, n)
            if t & 7 and v is not UNDEF:
                v = T.zext(n * 8, v, t)
            o.store(off, n, v)
        elif t == "ptr" or t == "double":
            o, off = self.wobj(st, p, 8)
            o.store(off, 8, v)
        elif t == "float":
            o, off = self.wobj(st, p, 4)
            o.store(off, 4, v)
        elif t[0] in ("a", "v"):
            s = size_align(t[2])[0]
            for i in range(t[1]):
                self.store_t(st, p + i * s, t[2], UNDEF if v is UNDEF else v[i])
        else:
            for i, e in enumerate(t[2]):
                self.store_t(st, p + ir.field_offset(t, i), e, UNDEF if v is UNDEF else v[i])

    def op_gep(self, st, fr, ins):
        _, dest, base, off, dyn = ins
        regs = fr.regs
        b = regs[base] if type(base) is str else self.val(regs, base)
        if b is UNDEF:
            regs[dest] = UNDEF
            return
        r = T.add(64, b, off & T.mask(64)) if off else b
        for it, v, sc in dyn:
            x = regs[v]
            if x is UNDEF:
                regs[dest] = UNDEF
                return
            if it != 64:
                x = T.sext(64, x, it)
            r = T.add(64, r, T.mul(64, x, sc))
        regs[dest] = r

    def op_alloca(self, st, fr, ins):
        _, dest, size = ins
        if size is None:
            raise Unsupported("dynamic alloca")
        a = self.new_obj(st, size, None, fr.f.dem[:60])
        fr.allocas.append(a >> 32)
        fr.regs[dest] = a

    def op_phi(self, st, fr, ins):
        raise Unsupported("phi not at block start")

    def op_jmp(self, st, fr, ins):
        return self.goto(st, fr, ins[2])

    def op_br(self, st, fr, ins):
        _, _d, c, a, b = ins
        c = fr.regs[c] if type(c) is str else self.val(fr.regs, c)
        if type(c) is int:
            return self.goto(st, fr, a if c else b)
        if c is UNDEF:
            c = T.fresh("undef", 1)
        if a == b:
            return self.goto(st, fr, a)
        return self.branch(st, fr, [(c, a), (T.not_(c), b)])

    def branch(self, st, fr, alts):
        """alts: [(cond, target)] mutually exclusive and exhaustive"""
        self.nbranch += 1
        feas = []
        for c, tgt in alts:
            ok, m = self.feasible(st, c)
            if ok:
                feas.append((c, tgt, m))
        if not feas:
            raise Terminated("infeasible", "")
        if len(feas) == 1:
            c, tgt, m = feas[0]
            return self.goto(st, fr, tgt)
        self.nfork += len(feas) - 1
        sts = []
        stop = None
        if self.merge:
            p = self.postdom(fr.f, fr.regs["__b"])
            stop = (fr.uid, p)
        npc = len(st.pc)
        for i, (c, tgt, m) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.clone()
            sts.append(s)
        for s, (c, tgt, m) in zip(sts, feas):
            s.pc.append(c)
            s.model = m
            s.forks += 1
            self.goto(s, s.frames[-1], tgt)
        if not self.merge:
            return sts
        outs = []
        todo = []
        for s in sts:
            if self.at_stop(s, stop):
                outs.append(Outcome("stop", s))
            else:
                todo.append(s)
        outs += self.run(todo, stop)
        arr = [o.state for o in outs if o.kind == "stop"]
        rest = [o for o in outs if o.kind != "stop"]
        merged = self.merge_states(arr, npc)
        return rest + merged

    def merge_states(self, arr, npc):
        res = []
        for s in arr:
            for i, r in enumerate(res):
                m = self.merge2(r, s, npc)
                if m is not None:
                    res[i] = m
                    self.nmerge += 1
                    break
            else:
                res.append(s)
        return res

    def conj(self, cs):
        r = 1
        for c in cs:
            r = T.and_(1, r, c)
        return r

    def merge2(self, A, B, npc):
        if len(A.frames) != len(B.frames):
            return None
        for x, y in zip(A.frames, B.frames):
            if x.uid != y.uid or x.block is not y.block or x.idx != y.idx:
                return None
        # common prefix of pc
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] is B.pc[k]:
            k += 1
        ca, cb = self.conj(A.pc[k:]), self.conj(B.pc[k:])
        # registers
        newregs = []
        for x, y in zip(A.frames, B.frames):
            types = reg_types(x.f)
            upd = {}
            for n, v in x.regs.items():
                if n not in y.regs:
                    continue
                u = y.regs[n]
                if v is u or (type(v) is int and type(u) is int and v == u) or type(v) is str:
                    upd[n] = v
                    continue
                m = self.merge_val(ca, v, u, types.get(n))
                if m is None:
                    return None
                upd[n] = m[0]
            newregs.append(upd)
        newmem = {}
        for key in set(A.mem) | set(B.mem):
            oa, ob = A.mem.get(key), B.mem.get(key)
            if oa is ob:
                continue
            if oa is None or ob is None:
                base = self.base_mem.get(key)
                if base is None:
                    newmem[key] = oa or ob
                    continue
                oa = oa or base
                ob = ob or base
            if oa.size != ob.size or oa.freed != ob.freed:
                if oa.name == ob.name == "":
                    pass
                return None
            o = oa.clone(-2)
            ks = set(oa.cells) | set(ob.cells)
            diff = False
            for c in ks:
                x, y = oa.cells.get(c), ob.cells.get(c)
                if x is y or (x and y and x[0] == y[0] and (x[1] is y[1] or (type(x[1]) is int and type(y[1]) is int and x[1] == y[1]))):
                    continue
                n = (x or y)[0]
                # byte-align both views
                va, vb = oa.load(c, n), ob.load(c, n)
                if va is UNDEF or vb is UNDEF:
                    o.store(c, n, vb if va is UNDEF else va)
                    continue
                if n == 8 and type(va) is int and type(vb) is int and va != vb and (va >> 32 or vb >> 32) and (self.isptr(A, va) or self.isptr(B, vb)):
                    return None
                o.store(c, n, T.ite(n * 8, ca, va, vb))
            newmem[key] = o
        for x, upd in zip(A.frames, newregs):
            x.regs = upd
        for key, o in newmem.items():
            A.mem[key] = o
        State._n += 1
        A.uid = State._n
        A.nextobj = max(A.nextobj, B.nextobj)
        d = T.or_(1, ca, cb)
        A.pc = A.pc[:k] + ([] if isc(d) else [d])
        A.steps = max(A.steps, B.steps)
        if A.model is None:
            A.model = B.model
        A.log = A.log + [x for x in B.log if x not in A.log]
        return A

    def isptr(self, st, v):
        return (v >> 32) in st.mem or (v >> 32) in self.base_mem or (v >> 32 << 32) in self.faddr

    def merge_val(self, c, v, u, t):
        """value of a register of IR type t: v when c, else u"""
        if v is UNDEF:
            return (u,)
        if u is UNDEF:
            return (v,)
        if type(v) is list:
            out = []
            for i, (x, y) in enumerate(zip(v, u)):
                if x is y or (type(x) is int and type(y) is int and x == y):
                    out.append(x)
                    continue
                et = None
                if t is not None:
                    et = t[2] if t[0] in ("a", "v") else t[2][i]
                m = self.merge_val(c, x, y, et)
                if m is None:
                    return None
                out.append(m[0])
            return (out,)
        if type(v) is Term or type(u) is Term:
            w = v.w if type(v) is Term else u.w
        else:
            if t is None:
                return None
            w = T_w(t)
            if type(w) is not int:
                return None
        return (T.ite(w, c, v, u),)

    def op_switch(self, st, fr, ins):
        _, _d, t, v, d, cases = ins
        v = self.val(fr.regs, v)
        if type(v) is int:
            for cv, tgt in cases:
                if cv == v:
                    return self.goto(st, fr, tgt)
            return self.goto(st, fr, d)
        if v is UNDEF:
            v = T.fresh("undef", t)
        by = {}
        other = 1
        for cv, tgt in cases:
            e = T.eq(t, v, cv)
            by[tgt] = T.or_(1, by.get(tgt, 0), e)
            other = T.and_(1, other, T.not_(e))
        by[d] = T.or_(1, by.get(d, 0), other)
        alts = [(c, tgt) for tgt, c in by.items() if not (isc(c) and c == 0)]
        if len(alts) == 1:
            return self.goto(st, fr, alts[0][1])
        return self.branch(st, fr, alts)

    def op_ret(self, st, fr, ins):
        _, _d, t, v = ins
        v = None if v is None else self.val(fr.regs, v)
        if fr.hook:
            v2 = fr.hook(self, st, v)
            if v2 is not None:
                v = v2
        for k in fr.allocas:
            st.mem.pop(k, None)
        st.frames.pop()
        if not st.frames:
            return Outcome("ret", st, v)
        up = st.frames[-1]
        if fr.dest is not None:
            up.regs[fr.dest] = v
        if fr.nxt is not None:
            return self.goto(st, up, fr.nxt)
        return True

    def op_unreachable(self, st, fr, ins):
        raise Terminated("unreachable", self.backtrace(st))

    def op_landingpad(self, st, fr, ins):
        raise Unsupported("landingpad reached")

    def op_select(self, st, fr, ins):
        _, dest, ct, c, t, a, b = ins
        regs = fr.regs
        c = self.val(regs, c)
        a = self.val(regs, a)
        b = self.val(regs, b)
        if type(c) is int:
            regs[dest] = a if c else b
            return
        if type(c) is list:
            regs[dest] = [self.sel(T_w(t[2]), ci, x, y) for ci, x, y in zip(c, a, b)]
            return
        if c is UNDEF:
            c = T.fresh("undef", 1)
        if type(t) is tuple:
            if a is UNDEF or b is UNDEF:
                regs[dest] = a if b is UNDEF else b
                return
            ts = [t[2]] * t[1] if t[0] in ("a", "v") else t[2]
            regs[dest] = [self.sel(T_w(tt), c, x, y) for tt, x, y in zip(ts, a, b)]
            return
        if t == "ptr" and not (isc(a) and isc(b) and a == b):
            # avoid symbolic pointers: fork
            if a is UNDEF or b is UNDEF:
                regs[dest] = a if b is UNDEF else b
                return
            okt, mt = self.feasible(st, c)
            okf, mf = self.feasible(st, T.not_(c))
            if not okt or not okf:
                regs[dest] = a if okt else b
                return
            if self.merge:
                regs[dest] = T.ite(64, c, a, b)
                return
            s2 = st.clone()
            self.nfork += 1
            st.pc.append(c)
            st.model = mt
            st.frames[-1].regs[dest] = a
            s2.pc.append(T.not_(c))
            s2.model = mf
            s2.frames[-1].regs[dest] = b
            return [st, s2]
        regs[dest] = self.sel(T_w(t), c, a, b)

    def sel(self, w, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return T.ite(w, c, a, b)

    def op_extractvalue(self, st, fr, ins):
        _, dest, v, ix, t = ins
        v = self.val(fr.regs, v)
        for i in ix:
            v = UNDEF if v is UNDEF else v[i]
        fr.regs[dest] = v

    def op_insertvalue(self, st, fr, ins):
        _, dest, t, v, e, ix = ins
        v = self.val(fr.regs, v)
        e = self.val(fr.regs, e)
        fr.regs[dest] = self.insval(t, v, e, ix)

    def insval(self, t, v, e, ix):
        n = t[1] if t[0] in ("a", "v") else len(t[2])
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(ix) == 1:
            v[ix[0]] = e
        else:
            tt = t[2] if t[0] in ("a", "v") else t[2][ix[0]]
            v[ix[0]] = self.insval(tt, v[ix[0]], e, ix[1:])
        return v

    def op_freeze(self, st, fr, ins):
        _, dest, t, v = ins
        v = self.val(fr.regs, v)
        if v is UNDEF and (type(t) is int or t == "ptr"):
            v = T.fresh("undef", 64 if t == "ptr" else t)
        fr.regs[dest] = v

    def op_extractelement(self, st, fr, ins):
        _, dest, v, i = ins
        v, i = self.val(fr.regs, v), self.val(fr.regs, i)
        if not isc(i):
            raise Unsupported("symbolic vector index")
        fr.regs[dest] = v[i] if v is not UNDEF else UNDEF

    def op_insertelement(self, st, fr, ins):
        _, dest, t, v, e, i = ins
        v, e, i = self.val(fr.regs, v), self.val(fr.regs, e), self.val(fr.regs, i)
        v = [UNDEF] * t[1] if v is UNDEF else list(v)
        v[i] = e
        fr.regs[dest] = v

    def op_shufflevector(self, st, fr, ins):
        _, dest, t, a, b, m = ins
        a, b = self.val(fr.regs, a), self.val(fr.regs, b)
        n = t[1]
        a = [UNDEF] * n if a is UNDEF else a
        b = [UNDEF] * n if b is UNDEF else b
        ab = a + b
        fr.regs[dest] = [UNDEF if x is UNDEF else ab[x] for x in m]

    def op_atomicrmw(self, st, fr, ins):
        _, dest, o, p, t, v = ins
        p = self.val(fr.regs, p)
        v = self.val(fr.regs, v)
        if not isc(p):
            return self.fork_on(st, fr, p)
        tt = 64 if t == "ptr" else t
        old = self.und(self.load_t(st, p, t), tt)
        if o == "xchg":
            new = v
        elif o in ("add", "sub", "and", "or", "xor"):
            new = self.bin(o, tt, old, v)
        elif o == "umax":
            new = T.ite(tt, T.ult(tt, old, v), v, old)
        elif o == "umin":
            new = T.ite(tt, T.ult(tt, v, old), v, old)
        else:
            raise Unsupported("atomicrmw " + o)
        self.store_t(st, p, t, new)
        if dest:
            fr.regs[dest] = old

    def op_cmpxchg(self, st, fr, ins):
        _, dest, p, t, a, b = ins
        p, a, b = self.val(fr.regs, p), self.val(fr.regs, a), self.val(fr.regs, b)
        tt = 64 if t == "ptr" else t
        old = self.und(self.load_t(st, p, t), tt)
        c = T.eq(tt, old, a)
        self.store_t(st, p, t, T.ite(tt, c, b, old))
        fr.regs[dest] = [old, c]

    def op_unsupported(self, st, fr, ins):
        raise Unsupported(ins[2])

    def op_call(self, st, fr, ins):
        _, dest, rt, callee, args, nxt = ins
        regs = fr.regs
        if type(callee) is G:
            name = callee.name
        elif type(callee) is tuple and callee[0] == "asm":
            # empty asm barriers (black_box): memory clobber only
            if callee[1] in ('""',):
                if dest:
                    regs[dest] = self.val(regs, args[0][1]) if args else 0
                return None
            raise Unsupported("asm " + callee[1])
        else:
            a = self.val(regs, callee)
            if type(a) is not int:
                return self.fork_on(st, fr, a)
            name = self.faddr.get(a)
            if name is None:
                raise Terminated("memerr", "call through invalid pointer %#x" % a)
        if name[1] == "l" and name.startswith("@llvm."):
            r = self.intrinsic(st, fr, name, dest, rt, args)
            if r is not None:
                return r
            if nxt is not None:
                return self.goto(st, fr, nxt)
            return None
        vals = [regs[v] if type(v) is str else self.val(regs, v) for _t, v in args]
        h = self.find_hook(name)
        if h is not None:
            r = h(self, st, vals)
            if type(r) is Redirect:
                self.push_call(st, r.name, r.args if r.args is not None else vals, dest, nxt)
                return None
            if type(r) is Fork:
                out = []
                for s, v in r.alts:
                    if dest:
                        s.frames[-1].regs[dest] = v
                    if nxt is not None:
                        self.goto(s, s.frames[-1], nxt)
                    out.append(s)
                return out
            if r is PASS:
                self.push_call(st, name, vals, dest, nxt)
                return None
            if dest:
                regs[dest] = r
            if nxt is not None:
                return self.goto(st, fr, nxt)
            return None
        if name in self.mod.funcs:
            self.push_call(st, name, vals, dest, nxt)
            return None
        r = self.external(st, fr, name[1:], vals, dest)
        if r is not None:
            return r
        if nxt is not None:
            return self.goto(st, fr, nxt)
        return None

    # ---------------------------------------------------------------- externals
    def alloc_size(self, st, fr, size):
        if st.alloc_as and st.alloc_as[0] is size:
            n, st.alloc_as = st.alloc_as[1], None
            return n
        if isc(size):
            if size > self.alloc_limit:
                raise Terminated("hugealloc", "allocation of %d bytes: %s" % (size, self.backtrace(st)), size)
            return None
        # symbolic size: look for a huge one first (reported as its own outcome), then enumerate the small ones
        big = T.ult(64, self.alloc_limit, size)
        okb, mb = self.feasible(st, big)
        out = []
        if okb:
            s2 = st.clone()
            s2.pc.append(big)
            s2.model = mb
            out.append(Outcome("hugealloc", s2, size, self.backtrace(st)))
            if not self.assume(st, T.not_(big)):
                return out
        if self.sym_alloc == "max" and self.unique(st, size) is None:
            # one object of the largest size; writes past the requested size are not told apart (safe Rust collections)
            if out:
                fr.idx -= 1
                st.alloc_as = (size, self.alloc_limit)
                return out + [st]
            return self.alloc_limit
        return out + self.fork_on(st, fr, size)

    def external(self, st, fr, n, a, dest):
        regs = fr.regs
        if n in ("malloc", "calloc"):
            size = a[0] if n == "malloc" else T.mul(64, a[0], a[1])
            r = self.alloc_size(st, fr, size)
            if type(r) is int:
                size = r
            elif r is not None:
                return r
            regs[dest] = self.new_obj(st, size, "zero" if n == "calloc" else None, "heap")
            return None
        if n in ("posix_memalign",):
            r = self.alloc_size(st, fr, a[2])
            if type(r) is int:
                a = [a[0], a[1], r]
            elif r is not None:
                return r
            self.store_t(st, a[0], "ptr", self.new_obj(st, a[2], None, "heap"))
            regs[dest] = 0
            return None
        if n == "aligned_alloc":
            r = self.alloc_size(st, fr, a[1])
            if type(r) is int:
                a = [a[0], r]
            elif r is not None:
                return r
            regs[dest] = self.new_obj(st, a[1], None, "heap")
            return None
        if n == "realloc":
            r = self.alloc_size(st, fr, a[1])
            if type(r) is int:
                a = [a[0], r]
            elif r is not None:
                return r
            if not isc(a[0]):
                return self.fork_on(st, fr, a[0])
            p = self.new_obj(st, a[1], None, "heap")
            o, off = self.robj(st, a[0], 0, "realloc")
            k = min(o.size, a[1])
            self.memcpy(st, p, a[0], k)
            self.free(st, a[0])
            regs[dest] = p
            return None
        if n == "free":
            if not isc(a[0]):
                return self.fork_on(st, fr, a[0])
            if a[0]:
                self.free(st, a[0])
            return None
        if n in ("memcmp", "bcmp"):
            if not isc(a[2]):
                return self.fork_on(st, fr, a[2])
            for x in (a[0], a[1]):
                if not isc(x):
                    return self.fork_on(st, fr, x)
            k = a[2]
            if k == 0:
                regs[dest] = 0
                return None
            if n == "bcmp":
                e = 1
                i = 0
                oa, fa = self.robj(st, a[0], k, "memcmp")
                ob, fb = self.robj(st, a[1], k, "memcmp")
                while i < k:
                    c = 8 if k - i >= 8 else 4 if k - i >= 4 else 1
                    e = T.and_(1, e, T.eq(c * 8, self.und(oa.load(fa + i, c), c * 8), self.und(ob.load(fb + i, c), c * 8)))
                    i += c
                regs[dest] = T.zext(32, T.not_(e), 1)
                return None
            x, y = self.load_bytes(st, a[0], k), self.load_bytes(st, a[1], k)
            r = 0
            for i in reversed(range(k)):
                xi, yi = self.und(x[i], 8), self.und(y[i], 8)
                r = T.ite(32, T.eq(8, xi, yi), r, T.sub(32, T.zext(32, xi, 8), T.zext(32, yi, 8)))
            regs[dest] = r
            return None
        if n == "memchr":
            raise Unsupported("memchr")
        if n == "strlen":
            i = 0
            while True:
                b = self.load_int(st, a[0] + i, 1)
                if not isc(b):
                    raise Unsupported("strlen of symbolic string")
                if b == 0:
                    break
                i += 1
            regs[dest] = i
            return None
        if n in ("abort",):
            raise Terminated("panic", self.backtrace(st) + " -> abort")
        if n in ("getrandom", ):
            for i in range(a[1]):
                self.store_int(st, a[0] + i, 1, 0)
            regs[dest] = a[1]
            return None
        if n == "syscall":
            # getrandom(buf, len, flags)
            if a[0] == 318:
                for i in range(a[2]):
                    self.store_int(st, a[1] + i, 1, 0)
                regs[dest] = a[2]
                return None
        if n == "__cxa_thread_atexit_impl":
            if dest:
                regs[dest] = 0
            return None
        if n in ("write", "writev"):
            raise Unsupported("write")
        if n == "sqrt":
            if isc(a[0]):
                x = struct.unpack("<d", struct.pack("<Q", a[0]))[0]
                regs[dest] = struct.unpack("<Q", struct.pack("<d", x ** 0.5))[0]
                return None
        raise Unsupported("external call to %s in %s" % (n, self.backtrace(st)))

    def free(self, st, p):
        o, off = self.robj(st, p, 0, "free")
        if off:
            raise Terminated("memerr", "free of interior pointer")
        o, _ = self.wobj(st, p, 0, "free")
        o.freed = True
        o.cells = {}
        o.own = {}

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.robj(st, s, n, "memcpy source")
        ps = so.pieces(soff, n)
        do, doff = self.wobj(st, d, n, "memcpy destination")
        for r, k, v in ps:
            if v is UNDEF:
                do._clear(doff + r, k)
                if do.init is not None:
                    do.store(doff + r, k, UNDEF)
            else:
                do.store(doff + r, k, v)

    def intrinsic(self, st, fr, name, dest, rt, args):
        regs = fr.regs
        n = name[6:]
        if n.startswith(("lifetime", "dbg.", "assume", "experimental.noalias", "invariant", "donothing", "prefetch", "x86.sse2.pause")):
            return None
        vals = [self.val(regs, v) for _t, v in args]
        b = n.split(".")[0]
        if b in ("memcpy", "memmove"):
            for x in (2, 0, 1):
                if not isc(vals[x]):
                    if vals[x] is UNDEF:
                        raise Terminated("memerr", "memcpy undef")
                    return self.fork_on(st, fr, vals[x])
            self.memcpy(st, vals[0], vals[1], vals[2])
            return None
        if b == "memset":
            for x in (2, 0):
                if not isc(vals[x]):
                    return self.fork_on(st, fr, vals[x])
            k = vals[2]
            if k == 0:
                return None
            o, off = self.wobj(st, vals[0], k, "memset")
            v = vals[1]
            if off == 0 and k == o.size and v == 0:
                o.cells = {}
                o.own = {}
                o.init = "zero"
                return None
            if isc(v):
                for q in range(0, k, 8):
                    c = min(8, k - q)
                    o.store(off + q, c, int.from_bytes(bytes([v]) * c, "little"))
            else:
                for q in range(k):
                    o.store(off + q, 1, v)
            return None
        w = rt if type(rt) is int else None
        V = [UNDEF if v is UNDEF else v for v in vals]
        t0 = args[0][0] if args else None
        if type(t0) is int:
            V = [self.und(v, t) if type(t) is int else v for v, (t, _x) in zip(V, args)]
        if n.startswith(("uadd.with", "usub.with", "umul.with", "sadd.with", "ssub.with", "smul.with")):
            w = t0
            x, y = V
            if n[0] == "u":
                if n.startswith("uadd"):
                    r = T.add(w, x, y)
                    if T.hi_of(x) + T.hi_of(y) <= T.mask(w):
                        o = 0
                    else:
                        o = T.ult(w, r, x) if not isc(x) or True else 0
                    if isc(x) and isc(y):
                        o = int(x + y > T.mask(w))
                    elif isc(x) and not isc(o):
                        o = T.ult(w, r, x)
                elif n.startswith("usub"):
                    r = T.sub(w, x, y)
                    o = T.ult(w, x, y)
                else:
                    r = T.mul(w, x, y)
                    if T.hi_of(x) * T.hi_of(y) <= T.mask(w):
                        o = 0
                    else:
                        p = T.mul(2 * w, T.zext(2 * w, x, w), T.zext(2 * w, y, w))
                        o = T.not_(T.eq(w, T.extract(p, w, w, 2 * w), 0))
            else:
                ex = 2 * w if n.startswith("smul") else w + 1
                f = {"a": T.add, "s": T.sub, "m": T.mul}[n[1]]
                r = f(w, x, y)
                big = f(ex, T.sext(ex, x, w), T.sext(ex, y, w))
                o = T.not_(T.eq(ex, big, T.sext(ex, r, w)))
            regs[dest] = [r, o]
            return None
        if b in ("umax", "umin", "smax", "smin"):
            x, y = V
            if type(rt) is tuple:
                ww = rt[2]
                regs[dest] = [T.ite(ww, T.ult(ww, p, q) if b[0] == "u" else T.slt(ww, p, q), q if b[1:] == "max" else p, p if b[1:] == "max" else q) for p, q in zip(x, y)]
                return None
            c = T.ult(w, x, y) if b[0] == "u" else T.slt(w, x, y)
            regs[dest] = T.ite(w, c, y, x) if b[1:] == "max" else T.ite(w, c, x, y)
            return None
        if n.startswith("usub.sat"):
            regs[dest] = T.ite(w, T.ult(w, V[0], V[1]), 0, T.sub(w, V[0], V[1]))
            return None
        if n.startswith(("ssub.sat", "sadd.sat")):
            x, y = T.sext(w + 1, V[0], w), T.sext(w + 1, V[1], w)
            r = T.sub(w + 1, x, y) if n[1:4] == "sub" else T.add(w + 1, x, y)
            lo, hi = 1 << w - 1, (1 << w - 1) - 1
            ov = T.not_(T.eq(1, T.extract(r, w, 1, w + 1), T.extract(r, w - 1, 1, w + 1)))
            regs[dest] = T.ite(w, ov, T.ite(w, T.extract(r, w, 1, w + 1), lo, hi), T.trunc(w, r, w + 1))
            return None
        if n.startswith("uadd.sat"):
            s = T.add(w, V[0], V[1])
            regs[dest] = T.ite(w, T.ult(w, s, V[0]), T.mask(w), s)
            return None
        if b in ("fshl", "fshr"):
            x, y, s = V
            if not isc(s):
                if x is y and b == "fshl":
                    s2 = T.urem(w, s, w)
                    regs[dest] = T.or_(w, T.shl(w, x, s2), T.lshr(w, x, T.urem(w, T.sub(w, w, s2), w)))
                    return None
                raise Unsupported("symbolic funnel shift")
            s %= w
            if b == "fshl":
                regs[dest] = x if s == 0 else T.or_(w, T.shl(w, x, s), T.lshr(w, y, w - s))
            else:
                regs[dest] = y if s == 0 else T.or_(w, T.shl(w, x, w - s), T.lshr(w, y, s))
            return None
        if b == "bswap":
            x = V[0]
            v = 0
            for i in range(w // 8):
                byte = T.extract(x, i * 8, 8, w)
                v = T.concat(v, i * 8, byte, 8) if i else byte
            regs[dest] = v
            return None
        if b == "bitreverse":
            x = V[0]
            v = 0
            for i in range(w):
                bit = T.extract(x, i, 1, w)
                v = T.concat(v, i, bit, 1) if i else bit
            regs[dest] = v
            return None
        if b == "ctpop":
            x = V[0]
            v = 0
            for i in range(w):
                v = T.add(w, v, T.zext(w, T.extract(x, i, 1, w), 1))
            regs[dest] = v
            return None
        if b == "ctlz":
            x = V[0]
            if isc(x):
                regs[dest] = w - x.bit_length()
                return None
            v = w
            for i in range(w):
                v = T.ite(w, T.extract(x, i, 1, w), w - 1 - i, v)
            regs[dest] = v
            return None
        if b == "cttz":
            x = V[0]
            if isc(x):
                regs[dest] = w if x == 0 else (x & -x).bit_length() - 1
                return None
            v = w
            for i in reversed(range(w)):
                v = T.ite(w, T.extract(x, i, 1, w), i, v)
            regs[dest] = v
            return None
        if b == "abs":
            regs[dest] = T.ite(w, T.slt(w, V[0], 0), T.sub(w, 0, V[0]), V[0])
            return None
        if b in ("ucmp", "scmp"):
            ww = t0
            f = T.ult if b == "ucmp" else T.slt
            regs[dest] = T.ite(w, f(ww, V[0], V[1]), T.mask(w), T.ite(w, T.eq(ww, V[0], V[1]), 0, 1))
            return None
        if n.startswith("is.constant"):
            regs[dest] = 0
            return None
        if b == "expect":
            regs[dest] = V[0]
            return None
        if b == "threadlocal":
            regs[dest] = V[0]
            return None
        if n.startswith("ptrmask"):
            regs[dest] = T.and_(64, V[0], V[1])
            return None
        if b in ("trap",):
            raise Terminated("panic", self.backtrace(st) + " -> trap")
        if b in ("ceil", "floor", "sqrt", "trunc", "fabs", "round"):
            x = vals[0]
            if not isc(x) or rt != "double":
                if b == "sqrt":
                    regs[dest] = T.fop("fsqrt", T_w(rt), x)
                    return None
                raise Unsupported("symbolic " + name)
            import math
            f = struct.unpack("<d", struct.pack("<Q", x))[0]
            r = {"ceil": math.ceil, "floor": math.floor, "sqrt": math.sqrt, "trunc": math.trunc, "fabs": abs}[b](f)
            regs[dest] = struct.unpack("<Q", struct.pack("<d", float(r)))[0]
            return None
        if n.startswith(("fptoui.sat", "fptosi.sat")):
            x = vals[0]
            if not isc(x) or "f32" in n:
                regs[dest] = T.fop("f2i", w, x, aux=(n.startswith("fptosi"), 32 if "f32" in n else 64))
                return None
            f = struct.unpack("<d", struct.pack("<Q", x))[0]
            if f != f:
                r = 0
            elif n[3] == "t" and n.startswith("fptoui"):
                r = 0 if f <= 0 else T.mask(w) if f >= 2.0 ** w else int(f)
            else:
                lo, hi = -(1 << w - 1), (1 << w - 1) - 1
                r = lo if f <= lo else hi if f >= hi else int(f)
            regs[dest] = r & T.mask(w)
            return None
        if b == "vector" and "reduce" in n:
            x = V[0]
            op = n.split(".")[2]
            et = t0[2]
            r = x[0]
            for y in x[1:]:
                if op in ("add", "and", "or", "xor", "mul"):
                    r = self.bin(op, et, r, y)
                elif op in ("umax", "umin"):
                    c = T.ult(et, r, y)
                    r = T.ite(et, c, y, r) if op == "umax" else T.ite(et, c, r, y)
                else:
                    raise Unsupported(name)
            regs[dest] = r
            return None
        raise Unsupported("intrinsic " + name)

    # ---------------------------------------------------------------- post-dominators
    def postdom(self, f, block):
        """immediate post-dominator of block in f among paths that can return; None = function exit"""
        if f.pdom is None:
            f.pdom = compute_pdom(f)
        return f.pdom.get(block)


_regtypes = {}


def reg_types(f):
    r = _regtypes.get(f.name)
    if r is not None and r[0] is f:
        return r[1]
    d = {nm: t for t, nm in f.params}
    for blk in f.blocks.values():
        for i in blk:
            o = i[0]
            if o in ("bin",):
                d[i[1]] = i[3]
            elif o in ("icmp", "fcmp"):
                d[i[1]] = ("v", i[3][1], 1) if type(i[3]) is tuple else 1
            elif o == "cast":
                d[i[1]] = i[5]
            elif o in ("load", "phi", "freeze", "insertvalue", "insertelement"):
                d[i[1]] = i[2]
            elif o in ("gep", "alloca"):
                d[i[1]] = "ptr"
            elif o == "select":
                d[i[1]] = i[4]
            elif o == "call" and i[1]:
                d[i[1]] = i[2]
            elif o == "extractvalue":
                t = i[4]
                for k in i[3]:
                    t = t[2] if t[0] in ("a", "v") else t[2][k]
                d[i[1]] = t
            elif o == "atomicrmw":
                d[i[1]] = i[4]
            elif o == "cmpxchg":
                d[i[1]] = ("s", i[3], [i[3], 1])
    _regtypes[f.name] = (f, d)
    return d


class Redirect:
    def __init__(self, name, args=None):
        self.name, self.args = name, args


class Fork:
    def __init__(self, alts):
        self.alts = alts


PASS = object()


def T_w(t):
    return 64 if t in ("ptr", "double") else 32 if t == "float" else t


def succs(b):
    i = b[-1]
    if i[0] == "jmp":
        return [i[2]]
    if i[0] == "br":
        return [i[3], i[4]]
    if i[0] == "switch":
        return [i[4]] + [t for _c, t in i[5]]
    if i[0] == "call" and i[5] is not None:
        return [i[5]]
    return []


def compute_pdom(f):
    names = list(f.blocks)
    succ = {n: list(dict.fromkeys(succs(f.blocks[n]))) for n in names}
    EXIT = None
    pred = {}
    rets = [n for n in names if f.blocks[n][-1][0] == "ret"]
    for n in rets:
        succ[n] = [EXIT]
    # blocks that can reach a return
    for n, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(n)
    reach = {EXIT}
    w = [EXIT]
    while w:
        x = w.pop()
        for p in pred.get(x, ()):
            if p not in reach:
                reach.add(p)
                w.append(p)
    # reverse post-order on the reverse graph
    order, seen = [], set()
    stack = [(EXIT, iter(pred.get(EXIT, ())))]
    seen.add(EXIT)
    while stack:
        n, it = stack[-1]
        for p in it:
            if p not in seen:
                seen.add(p)
                stack.append((p, iter(pred.get(p, ()))))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    idom = {EXIT: EXIT}

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for n in order:
            if n is EXIT:
                continue
            new = "none"
            for s in succ[n]:
                if s in idom and s in reach:
                    new = s if new == "none" else inter(new, s)
            if new != "none" and idom.get(n, "none") != new:
                idom[n] = new
                ch = True
    return {n: idom.get(n) for n in names}
