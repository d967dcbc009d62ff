"""Normal form for computations made of linear layers and powers: a value is a linear form over atoms, an atom is a variable,
a power of a (normalised) linear form, or a product of different forms.  Two values with the same normal form are equal."""
from circom import P
import sys
sys.setrecursionlimit(200000)


class Forms:
    def __init__(self, mod=P):
        self.p = mod
        self.ids, self.form = {}, []        # atom key <-> id
        self.vals = {}

    def atom(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.form)
            self.form.append(key)
        return {self.ids[key]: 1}

    def var(self, n): return self.atom(("v", n))
    def const(self, k): return {-1: k % self.p} if k % self.p else {}

    def add(self, a, b, k=1):
        d = dict(a)
        for x, c in b.items():
            t = (d.get(x, 0) + k * c) % self.p
            if t:
                d[x] = t
            else:
                d.pop(x, None)
        return d

    def scale(self, a, k): return {x: c * k % self.p for x, c in a.items()} if k % self.p else {}

    def base(self, a):
        """a = c * L^k with L normalised -> (c, key of L, k)"""
        if len(a) == 1:
            (x, c), = a.items()
            if x != -1 and self.form[x][0] == "p":
                return c, self.form[x][1], self.form[x][2]
        m = min(a)
        c = a[max(a)]
        i = pow(c, self.p - 2, self.p)
        return c, tuple(sorted((x, v * i % self.p) for x, v in a.items())), 1

    def power(self, key, k):
        return dict(key) if k == 1 else self.atom(("p", key, k))

    def mul(self, a, b):
        if not a or not b:
            return {}
        if set(a) == {-1}:
            return self.scale(b, a[-1])
        if set(b) == {-1}:
            return self.scale(a, b[-1])
        c, l, i = self.base(a)
        d, m, j = self.base(b)
        if l == m:
            return self.scale(self.power(l, i + j), c * d)
        return self.scale(self.atom(("m",) + tuple(sorted([(l, i), (m, j)], key=repr))), c * d)

    def pow(self, a, k):
        if k == 0:
            return self.const(1)
        if not a or set(a) == {-1}:
            return self.const(pow(a.get(-1, 0), k, self.p))
        c, l, i = self.base(a)
        return self.scale(self.power(l, i * k), pow(c, k, self.p))
