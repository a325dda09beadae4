"""Random interpretation of the analysis' values.

The analysis compares a computed value with the one a rule asks for. If both have the same normal
form the obligation holds. If they do not, the difference is interpreted: the opaque inputs of the
two expressions (account fields, arguments, results of calls that are not looked into) get small
random values, uninterpreted functions are tables that respect equality of their arguments, and
arithmetic is evaluated. An interpretation under which the rule is broken, that also satisfies
every condition of the path and every no-overflow fact, is the witness of a violation. Two
expressions that are merely written differently never get one.
"""
import random
import time
from terms import *

RANGE = {s: ((0, (1 << n) - 1) if s in UNSIGNED else (-(1 << (n - 1)), (1 << (n - 1)) - 1)) for s, n in BITS.items() if s not in ("bool", "char")}
CONSTOPS = {"key", "str", "const", "constopq", "static", "fn", "fnv", "zerokey", "unit", "emptyarr", "sizeof"}
BOOLOPS = {"signed", "typed", "program", "present", "system", "validacct", "exists", "contains", "fxlt", "fxeq", "fxovf", "flt", "fle", "feq", "bool"}


class Abort(Exception):
    """the interpretation divides by zero or leaves a type"""


class Model:
    def __init__(self, rnd, size):
        self.rnd, self.size = rnd, size
        self.num = {}
        self.bools = {}
        self.ids = {}
        self.names = {}
        self.tok = {}
        self.memo = {}

    # -- tokens for values that are not numbers
    def token(self, key):
        t = self.tok.get(key)
        if t is None:
            t = self.tok[key] = ("t", len(self.tok))
            self.names[t] = key
        return t

    def arg(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, Node):
            return self.node(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def key(self, t):
        return (t.op,) + tuple(self.arg(a) for a in t.args)

    def rand(self, ty):
        r = self.rnd.random()
        n = self.size
        lo, hi = RANGE.get(ty, RANGE["i64"])
        v = 0 if r < 0.12 else 1 if r < 0.22 else self.rnd.choice((1000, 250000, 500000, 1000000)) if r < 0.28 else self.rnd.randint(0, 4) if r < 0.5 else self.rnd.randint(0, n) if r < 0.93 else self.rnd.randint(0, n * n)
        if lo < 0 and self.rnd.random() < 0.12:
            v = -v
        return max(lo, min(hi, v))

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev_(t)
        return r

    def ev_(self, t):
        o, a = t.op, t.args
        if o == "int" or o == "bool":
            return a[0]
        if o == "poly":
            s = 0
            for m, c in a[0]:
                for x in m:
                    v = self.ev(x)
                    if not isinstance(v, int):
                        v = self.ident(v)
                    c *= v
                s += c
            return s
        if o == "mul":
            return self.ev(a[0]) * self.ev(a[1])
        if o == "neg":
            return min(self.ev(a[0]), 0)
        if o in ("div", "rem"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0:
                raise Abort()
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if o == "div" else x - q * y
        if o in ("bitand", "bitor", "bitxor", "shl", "shr"):
            x, y = self.ev(a[0]), self.ev(a[1])
            n = a[2]
            if o == "bitand":
                return x & y
            if o == "bitor":
                return x | y
            if o == "bitxor":
                return x ^ y
            if o == "shr":
                return x >> (y % n)
            r = (x << (y % n)) & ((1 << n) - 1)
            if t.ty and t.ty[0] == "i" and r >> (n - 1):
                r -= 1 << n
            return r
        if o == "trunc":
            x = self.ev(a[0])
            if not isinstance(x, int):
                x = self.ident(x)
            r = x & ((1 << a[1]) - 1)
            if a[2] == "int" and r >> (a[1] - 1):
                r -= 1 << a[1]
            return r
        if o == "pow":
            y = self.ev(a[1])
            if y < 0 or y > 64:
                raise Abort()
            return self.ev(a[0]) ** y
        if o == "leading_zeros":
            return BITS[a[1]] - (self.ev(a[0]) & ((1 << BITS[a[1]]) - 1)).bit_length()
        if o == "ovf":
            lo, hi = RANGE[a[1]]
            return not lo <= self.ev(a[0]) <= hi
        if o == "sat":
            lo, hi = RANGE[a[1]]
            return max(lo, min(hi, self.ev(a[0])))
        if o == "eqc":
            return self.numv(a[0]) == a[1]
        if o == "ltc":
            return self.numv(a[0]) < a[1]
        if o == "eq":
            return self.same(a[0], a[1])
        if o == "discr":
            k = self.key(t)
            v = self.num.get(k)
            if v is None:
                v = self.num[k] = self.rnd.choice(DISCR.get(t, (0, 1)))
                self.names[k] = t
            return v
        if t.ty in RANGE:
            k = self.key(t)
            v = self.num.get(k)
            if v is None:
                v = self.rand(t.ty)
                if o == "fld" and a[1] in POS:
                    v = max(abs(v), POS[a[1]])
                self.num[k] = v
                self.names[k] = t
            return v
        if o in BOOLOPS or t.ty == "bool":
            k = self.key(t)
            v = self.bools.get(k)
            if v is None:
                v = self.bools[k] = self.rnd.random() < 0.5
            return v
        return self.token(self.key(t))

    def numv(self, t):
        v = self.ev(t)
        return v if isinstance(v, int) else self.ident(v)

    def ident(self, tok):
        """identity of a non-numeric value (a key): two may coincide"""
        v = self.ids.get(tok)
        if v is None:
            k = self.names.get(tok, (None,))
            if k[0] in CONSTOPS:
                v = -1 - tok[1]
            else:
                v = self.rnd.randint(1, 1 << 40) if self.rnd.random() < 0.8 else self.rnd.randint(1, 4)
            self.ids[tok] = v
        return v

    def same(self, x, y):
        a, b = self.ev(x), self.ev(y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == b or self.ident(a) == self.ident(b)
        if isinstance(a, tuple):
            a = self.ident(a)
        if isinstance(b, tuple):
            b = self.ident(b)
        return a == b

    def boolv(self, t):
        """truth of a diagram variable"""
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        k = ("b", v)
        r = self.bools.get(k)
        if r is None:
            r = self.bools[k] = self.rnd.random() < 0.5
        return r

    def node(self, n):
        while n.leaf is None:
            n = n.hi if self.boolv(n.var) else n.lo
        return self.ev(n.leaf)

    # -- repairs
    def assign(self, t, v, d=0):
        o, a = t.op, t.args
        if d > 12 or o in ("int", "bool"):
            return False
        if o == "poly":
            p = dict(a[0])
            ms = [m for m in p if m]
            self.rnd.shuffle(ms)
            cur = self.ev(t)
            for m in ms:
                i = self.rnd.randrange(len(m))
                x = m[i]
                k = p[m]
                for j, y in enumerate(m):
                    if j != i:
                        k *= self.numv(y)
                if k == 0 or m.count(x) > 1:
                    continue
                want = self.numv(x) + (v - cur) // k
                if self.assign(x, want, d + 1):
                    return True
            return False
        if o == "neg":
            if v > 0:
                return False
            return self.assign(a[0], v if v < 0 else self.rnd.randint(0, 5), d + 1)
        if o == "div":
            y = self.ev(a[1])
            if y == 0:
                return self.assign(a[1], self.rnd.randint(1, 4), d + 1)
            return self.assign(a[0], v * y + (self.rnd.randrange(abs(y)) if v >= 0 else 0), d + 1)
        if o == "trunc":
            return self.assign(a[0], v, d + 1)
        if o == "sat":
            return self.assign(a[0], v, d + 1)
        if o in ("rem",):
            return self.assign(a[0], v, d + 1)
        if o in ("bitand", "bitor", "bitxor", "shl", "shr", "pow", "mul", "leading_zeros", "ovf"):
            return self.assign(a[0], self.rnd.randint(0, self.size), d + 1)
        k = self.key(t)
        if t.ty in RANGE:
            lo, hi = RANGE[t.ty]
            if o == "fld" and a[1] in POS:
                lo = POS[a[1]]
            if not lo <= v <= hi:
                return False
            if o == "discr" and v not in DISCR.get(t, (v,)):
                return False
            self.num[k] = v
            self.names[k] = t
        else:
            tok = self.token(k)
            if k[0] in CONSTOPS:
                return False
            self.ids[tok] = v
        self.memo = {}
        return True

    def repair(self, t, want):
        o, a = t.op, t.args
        try:
            if o == "eqc":
                return self.assign(a[0], a[1] if want else a[1] + self.rnd.choice((-1, 1, 2, 5)))
            if o == "ltc":
                return self.assign(a[0], a[1] - self.rnd.choice((1, 1, 2, 3, 10)) if want else a[1] + self.rnd.choice((0, 0, 1, 2, 10)))
            if o == "eq":
                x, y = self.ev(a[0]), self.ev(a[1])
                if isinstance(x, int) and not isinstance(y, int):
                    a, x, y = (a[1], a[0]), y, x
                if isinstance(x, int):
                    return self.assign(a[0], y if want else y + 1) or self.assign(a[1], x)
                if want:
                    if isinstance(y, int):
                        self.ids[x] = y
                    else:
                        p, q = (x, y) if self.names[y][0] in CONSTOPS or self.rnd.random() < 0.5 else (y, x)
                        if self.names[p][0] in CONSTOPS:
                            return False
                        self.ids[p] = self.ident(q)
                else:
                    p = y if isinstance(y, tuple) and self.names[x][0] in CONSTOPS else x
                    self.ids[p] = self.rnd.randint(1, 1 << 40)
                self.memo = {}
                return True
            if o == "ovf":
                lo, hi = RANGE[a[1]]
                return self.assign(a[0], (hi + 1 if self.rnd.random() < 0.7 else lo - 1) if want else self.rnd.randint(0, 50))
            k = self.key(t)
            if o in BOOLOPS or t.ty == "bool":
                self.bools[k] = want
            else:
                self.bools[("b", self.ev(t))] = want
            self.memo = {}
            return True
        except Abort:
            return False


def randpath(n, goal, rnd, memo):
    """a random path of a boolean diagram to TRUE"""
    lits = []
    while n.leaf is None:
        ch = [(c, v) for c, v in ((n.hi, True), (n.lo, False)) if c is not DF]
        c, v = rnd.choice(ch) if len(ch) > 1 else ch[0]
        lits.append((n.var, v))
        n = c
    return lits


class Limits:
    def __init__(self, seconds=6.0, tries=4000, seed=1):
        self.seconds, self.tries, self.seed = seconds, tries, seed


def find(bad, facts=(), limits=None, accept=None):
    """an interpretation under which the diagram `bad` is true; facts: [(condition, value, type)]
    -> Model or None"""
    if bad is DF:
        return None
    lim = limits or Limits()
    rnd = random.Random(lim.seed)
    t0 = time.time()
    n = 0
    while time.time() - t0 < lim.seconds and n < lim.tries:
        n += 1
        M = Model(rnd, rnd.choice((3, 6, 12, 40, 1000)))
        try:
            if not (guided(bad, M, rnd) if n % 4 else solve(M, randpath(bad, TRUE, rnd, None), rnd)):
                continue
            if not M.node(bad):
                continue
            ok = True
            for c, v, ty in facts:
                if ty in RANGE and M.node(c):
                    x = M.node(v)
                    lo, hi = RANGE[ty]
                    if isinstance(x, int) and not lo <= x <= hi:
                        ok = False
                        break
            if ok and (accept is None or accept(M)):
                return M
        except Abort:
            continue
    return None


def guided(bad, M, rnd, steps=120):
    """follow the interpretation through the diagram and repair it where it leaves the way to TRUE"""
    for _ in range(steps):
        M.memo = {}
        un = []
        n = bad
        while n.leaf is None:
            try:
                v = M.boolv(n.var)
            except Abort:
                v = None
            c = n.hi if v else n.lo
            if v is None or c is DF or rnd.random() < 0.01 and (n.lo if v else n.hi) is not DF:
                want = n.hi is not DF and (v is None or not v or n.lo is DF)
                un.append((n.var, want))
                c = n.hi if want else n.lo
            n = c
        if not un:
            return True
        a, v = rnd.choice(un)
        if not M.repair(a, v):
            fixdiv(M, a, rnd)
    return False


def solve(M, lits, rnd, steps=160):
    for _ in range(steps):
        M.memo = {}
        un = []
        for a, v in lits:
            try:
                if M.boolv(a) != v:
                    un.append((a, v))
            except Abort:
                un.append((a, v))
        if not un:
            return True
        a, v = rnd.choice(un)
        if not M.repair(a, v):
            # division by zero somewhere below: move a divisor
            fixdiv(M, a, rnd)
    return False


def fixdiv(M, t, rnd, d=0):
    for x in t.args:
        if isinstance(x, T):
            if x.op in ("div", "rem"):
                try:
                    if M.ev(x.args[1]) == 0:
                        M.assign(x.args[1], rnd.randint(1, 3))
                except Abort:
                    pass
            if d < 8:
                fixdiv(M, x, rnd, d + 1)
        elif isinstance(x, tuple):
            for m in x:
                if isinstance(m, tuple):
                    for y in m[0] if m and isinstance(m[0], tuple) else ():
                        if isinstance(y, T):
                            if y.op in ("div", "rem"):
                                try:
                                    if M.ev(y.args[1]) == 0:
                                        M.assign(y.args[1], rnd.randint(1, 3))
                                except Abort:
                                    pass
                            if d < 8:
                                fixdiv(M, y, rnd, d + 1)


def witness(M, terms, limit=14):
    """readable values of the inputs the terms depend on"""
    out = []
    seen = set()

    def go(t, d):
        if not isinstance(t, T) or t in seen or d > 30:
            if isinstance(t, tuple):
                for x in t:
                    go(x, d + 1)
            return
        seen.add(t)
        if t.op in ("int", "bool"):
            return
        if t.ty in RANGE and t.op not in ("poly", "neg", "div", "rem", "trunc", "sat", "mul", "bitand", "bitor", "bitxor", "shl", "shr", "pow", "leading_zeros"):
            try:
                out.append("%s=%s" % (show(t)[-90:], M.ev(t)))
            except Abort:
                pass
            return
        for x in t.args:
            go(x, d + 1)
    for t in terms:
        go(t, 0)
    return out[:limit]
