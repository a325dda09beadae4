"""Value domain of the analysis.

T      interned scalar terms. Integer arithmetic is kept in polynomial normal form over opaque
       atoms; min / max / saturating subtraction are rewritten to one atom, neg(d) = min(d, 0).
Node   decision diagrams over comparison atoms whose leaves are terms: a value that depends on
       the branch taken. Booleans are diagrams with the leaves TRUE and FALSE. Diagrams are
       reduced and ordered, so equal functions of the atoms are the same object.
"""
import sys
from math import gcd

sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "args", "id", "ty", "depth")

    def __repr__(self):
        return show(self)


DISCR = {}  # discriminant term -> tuple of possible values
_T = {}
_TN = [0]


def mk(op, *args, ty=None):
    k = (op, args)
    t = _T.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        t.id = _TN[0]
        _TN[0] += 1
        _T[k] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
_INT = {}


def num(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = mk("int", n)
    return t


ZERO, ONE = num(0), num(1)


# ---- polynomials -------------------------------------------------------------------------
# dict {monomial: coefficient}; a monomial is a tuple of atom terms sorted by id

def topoly(t):
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(p.items(), key=lambda x: tuple(a.id for a in x[0]))))


def padd(a, b, k=1):
    if a.op == "int" and b.op == "int":
        return num(a.args[0] + k * b.args[0])
    p = topoly(a)
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + k * c
    return frompoly(p)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    if a.op == "int" and b.op == "int":
        return num(a.args[0] * b.args[0])
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 400:
        return mk("mul", *sorted((a, b), key=lambda x: x.id))
    r = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * d
    return frompoly(r)


def lead(t):
    """(sign of the leading coefficient)"""
    p = topoly(t)
    best = None
    for m, c in p.items():
        if m == ():
            continue
        k = (len(m), tuple(a.id for a in m))
        if best is None or k > best[0]:
            best = (k, c)
    if best is None:
        return 1 if p.get((), 0) >= 0 else -1
    return 1 if best[1] > 0 else -1


def neg0(d):
    """min(d, 0), canonical"""
    if d.op == "int":
        return num(min(d.args[0], 0))
    if nonneg(d):
        return ZERO
    m = psub(ZERO, d)
    if nonneg(m):
        return d
    if lead(d) < 0:
        return padd(d, neg0_(m))
    return neg0_(d)


def neg0_(d):
    p = topoly(d)
    g = 0
    for c in p.values():
        g = gcd(g, abs(c))
    if g > 1:
        return frompoly({(mk("neg", frompoly({m: c // g for m, c in p.items()})),): g})
    return mk("neg", d)


def pmin(a, b):
    if a is b:
        return a
    return padd(b, neg0(psub(a, b)))


def pmax(a, b):
    if a is b:
        return a
    return psub(padd(a, b), pmin(a, b))


UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "bool": 1, "char": 32}


_nn = set()
_facts = []    # sums that are known not to be negative


POS = {}    # fields a run may take as bounded from below: name -> 0 or 1


def sign(t):
    """1: never negative, -1: never positive, 0: unknown (an atom)"""
    if t.ty in UNSIGNED or t in _nn:
        return 1
    if t.op == "fld" and t.args[1] in POS:
        return 1
    if t.op == "neg":
        return -1
    if t.op == "div":
        x, y = t.args[0], t.args[1]
        if nonneg(y):
            return 1 if nonneg(x) else -1 if nonneg(psub(ZERO, x)) else 0
    if t.op == "mul":
        return 1 if nonneg(t.args[0]) and nonneg(t.args[1]) else 0
    if t.op == "discr":
        v = DISCR.get(t)
        return 1 if v and min(v) >= 0 else 0
    return 0


_fuel = [0]
_notnn = set()


def forget():
    """the known signs have changed"""
    _notnn.clear()


def nonneg(t, d=0):
    """never negative, by its form"""
    if t.op == "int":
        return t.args[0] >= 0
    if t in _nn:
        return True
    if t in _notnn:
        return False
    top = _fuel[0] == 0
    if top:
        _fuel[0] = 160
    elif _fuel[0] == 1:
        return False
    else:
        _fuel[0] -= 1
    try:
        r = nonneg_(t, d)
    finally:
        if top:
            _fuel[0] = 0
    if r:
        _nn.add(t)
    elif top:
        _notnn.add(t)
    return r


def nonneg_(t, d):
    if t.op != "poly":
        return sign(t) > 0
    rest = []
    negs = []
    for m, c in t.args[0]:
        s = 1 if c > 0 else -1
        for a in m:
            s *= sign(a)
            if a.op == "neg" and a not in negs:
                negs.append(a)
        if s <= 0:
            rest.append((m, c))
    if not rest:
        return True
    if d > 5:
        return False
    m, c = rest[0]
    for f in _facts:
        for g, k in f.args[0]:
            # t - q * f, with q chosen to remove this term
            if k < 0 and c % k == 0 and all(m.count(a) >= g.count(a) for a in set(g)):
                l = list(m)
                for a in g:
                    l.remove(a)
                if all(sign(a) > 0 for a in l) and nonneg(psub(t, pmul(frompoly({tuple(l): c // k}), f)), d + 1):
                    return True
    if not negs or len(negs) > 4:
        return False
    # t = A + B * min(x, 0): between A and A + B*x
    n = negs[0]
    A, B = {}, {}
    for m, c in t.args[0]:
        k = m.count(n)
        if k > 1:
            return False
        if k:
            l = list(m)
            l.remove(n)
            B[tuple(l)] = c
        else:
            A[m] = c
    A, B = frompoly(A), frompoly(B)
    w = padd(A, pmul(B, n.args[0]))
    if nonneg(psub(ZERO, B), d + 1):
        return nonneg(A, d + 1) or nonneg(w, d + 1)
    return nonneg(A, d + 1) and nonneg(w, d + 1)


# ---- decision diagrams -------------------------------------------------------------------

class Node:
    __slots__ = ("var", "hi", "lo", "leaf", "id")

    def __repr__(self):
        return showd(self)


_N = {}
_NN = [0]


def _mkn(key, var, hi, lo, leaf):
    n = _N.get(key)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo, n.leaf = var, hi, lo, leaf
        n.id = _NN[0]
        _NN[0] += 1
        _N[key] = n
    return n


_LEAF = {}


def L(t):
    n = _LEAF.get(t)
    if n is None:
        n = _LEAF[t] = _mkn(("L", t), None, None, None, t)
    return n


def mkn(var, hi, lo):
    if hi is lo:
        return hi
    if hi.leaf is not None and lo.leaf is not None and (var.op == "ltc" or var.op == "eqc"):
        h, l = hi.leaf, lo.leaf
        if h is not TRUE and h is not FALSE and isarith(h) and isarith(l):
            d = psub(h, l)
            q = psub(var.args[0], num(var.args[1]))
            if var.op == "ltc":
                # q < 0 ? h : l
                if d is q:
                    return L(pmin(h, l))
                if psub(ZERO, d) is q:
                    return L(pmax(h, l))
            else:
                # q == 0 ? h : l  where h and l agree when q is zero
                n = neg0(q)
                for k in (d, psub(ZERO, d)):
                    if k is q or k is n or k is psub(q, n) or k is psub(n, psub(q, n)):
                        return lo
    return _mkn((var, hi, lo), var, hi, lo, None)


NONARITH = {"bool", "ref", "fn", "str", "key", "agg"}


def isarith(t):
    return t.op in ("int", "poly") or (t.op not in NONARITH and t.ty in BITS)


DT, DF = L(TRUE), L(FALSE)


def D(n):
    return L(num(n))


def atom(t):
    return _mkn((t, DT, DF), t, DT, DF, None)


def topvar(*ns):
    b = None
    for n in ns:
        if n.leaf is None and (b is None or n.var.id < b.id):
            b = n.var
    return b


def cof(n, v):
    if n.leaf is None and n.var is v:
        return n.hi, n.lo
    return n, n


_ite = {}


def ite(f, g, h):
    if f is DT:
        return g
    if f is DF:
        return h
    if g is h:
        return g
    if g is DT and h is DF:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is None:
        v = topvar(f, g, h)
        if v is None:
            raise ValueError("ite on non-boolean %r" % f)
        f1, f0 = cof(f, v)
        g1, g0 = cof(g, v)
        h1, h0 = cof(h, v)
        r = _ite[k] = mkn(v, ite(f1, g1, h1), ite(f0, g0, h0))
    return r


def NOT(f):
    return ite(f, DF, DT)


def AND(*fs):
    r = DT
    for f in fs:
        r = ite(r, f, DF)
    return r


def OR(*fs):
    r = DF
    for f in fs:
        r = ite(r, DT, f)
    return r


def IMP(a, b):
    return ite(a, b, DT)


def IFF(a, b):
    return ite(a, b, NOT(b))


_res = {}


def restrict(f, c):
    """f simplified using that c holds"""
    if c is DT or f.leaf is not None:
        return f
    if c is DF:
        return f
    k = (f, c)
    r = _res.get(k)
    if r is None:
        v = topvar(f, c)
        c1, c0 = cof(c, v)
        if f.var is not v:
            r = restrict(f, OR(c1, c0))
        elif c1 is DF:
            r = restrict(f.lo, c0)
        elif c0 is DF:
            r = restrict(f.hi, c1)
        else:
            r = mkn(v, restrict(f.hi, c1), restrict(f.lo, c0))
        _res[k] = r
    return r


def apply(fn, *ns):
    """map a function of leaf terms over diagrams; fn returns a T or a Node"""
    memo = {}

    def go(ns):
        r = memo.get(ns)
        if r is not None:
            return r
        v = topvar(*ns)
        if v is None:
            r = fn(*[n.leaf for n in ns])
            if isinstance(r, T):
                r = L(r)
        else:
            hs, ls = [], []
            for n in ns:
                h, l = cof(n, v)
                hs.append(h)
                ls.append(l)
            r = ite(atom(v), go(tuple(hs)), go(tuple(ls)))
        memo[ns] = r
        return r

    return go(tuple(ns))


def leaves(n, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if n in seen:
        return out
    seen.add(n)
    if n.leaf is not None:
        out.append(n.leaf)
    else:
        leaves(n.hi, out, seen)
        leaves(n.lo, out, seen)
    return out


def cubes(n, limit=2000):
    """paths [(literals, leaf)] of a diagram"""
    res = []

    def go(n, lits):
        if len(res) >= limit:
            return
        if n.leaf is not None:
            res.append((lits, n.leaf))
            return
        go(n.hi, lits + ((n.var, True),))
        go(n.lo, lits + ((n.var, False),))

    go(n, ())
    return res


def support(n, seen=None, out=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if n in seen or n.leaf is not None:
        return out
    seen.add(n)
    out.add(n.var)
    support(n.hi, seen, out)
    support(n.lo, seen, out)
    return out


# ---- comparisons --------------------------------------------------------------------------

def _norm(t):
    p = topoly(t)
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, abs(c))
    return p, g


SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
CH = {}  # base form -> constants compared with, in order of discovery


def _base(p):
    """p = s * q - c with q free of constants and gcd 1 after scaling; -> (q, c) for the form q ? c"""
    d = topoly(p)
    c = -d.pop((), 0)
    return frompoly(d), c


def _eqc(q, c):
    """q == c; equalities of one form with different constants exclude each other"""
    ch = CH.setdefault(q, [])
    if c not in ch:
        ch.append(c)
    r = DT
    for k in ch:
        a = atom(mk("eqc", q, k))
        if k == c:
            return AND(r, a)
        r = AND(r, NOT(a))


def unscale(p):
    """without the factors that are known to be positive"""
    if not POS or p.op != "poly":
        return p
    d = topoly(p)
    while True:
        ms = list(d)
        f = next((a for a in ms[0] if a.op == "fld" and POS.get(a.args[1]) == 1 and all(a in m for m in ms)), None)
        if f is None:
            return frompoly(d)
        e = {}
        for m, c in d.items():
            l = list(m)
            l.remove(f)
            e[tuple(l)] = c
        d = e


def rng(t):
    """bounds of a sum, by the types of its parts; None: unknown"""
    if t.op == "int":
        return t.args[0], t.args[0]
    if t.op != "poly":
        if t.ty in UNSIGNED:
            return 0, (1 << BITS[t.ty]) - 1
        if t.ty in SIGNED:
            h = 1 << (BITS[t.ty] - 1)
            return (0 if sign(t) > 0 else -h), h - 1
        return None
    a = b = 0
    for m, c in t.args[0]:
        if len(m) > 1:
            return None
        u, v = rng(m[0]) or (None, None) if m else (1, 1)
        if u is None:
            return None
        a += c * (u if c > 0 else v)
        b += c * (v if c > 0 else u)
    return a, b


def halves(p, w):
    """p = w * a + b by its coefficients, the constant reduced; None if there is no part a"""
    a, b = {}, {}
    for m, c in topoly(p).items():
        if m == ():
            q, r = divmod(c, w)
            if q:
                a[m] = q
            if r:
                b[m] = r
        elif c % w == 0:
            a[m] = c // w
        else:
            b[m] = c
    if not any(a):
        return None
    return frompoly(a), frompoly(b)


W64 = 1 << 64


def lex(p):
    """p = 2^64 * a + b with b smaller than 2^64 in size: decided by a unless a is 0; None: not of this form"""
    if p.op != "poly" or not any(c % W64 == 0 for m, c in p.args[0] if m):
        return None
    h = halves(p, W64)
    for b in (0, W64):
        a, l = psub(h[0], num(-1 if b else 0)), psub(h[1], num(b))
        r = rng(l)
        if r and -W64 < r[0] and r[1] < W64:
            return a, l
    return None


def lt0(p):
    """p < 0 as a diagram (integers)"""
    p = unscale(p)
    if p.op == "int":
        return DT if p.args[0] < 0 else DF
    h = lex(p)
    if h:
        return ite(lt0(h[0]), DT, AND(eq0(h[0]), lt0(h[1])))
    if nonneg(p):
        return DF
    m = psub(ZERO, p)
    if nonneg(psub(m, num(1))):
        return DT
    sgn = lead(p)
    if sgn < 0:
        p = m
    # p < 0 if sgn > 0, else p > 0
    d, g = _norm(p)
    q, c = _base(p)
    if g > 1:
        q = frompoly({k: v // g for k, v in d.items() if k != ()})
        # q < c/g  <=>  q < ceil(c/g) ;  q > c/g  <=>  q > floor(c/g)
        c = -((-c) // g) if sgn > 0 else c // g
    if q.ty in SIGNED:
        h = 1 << (SIGNED[q.ty] - 1)
        if sgn < 0 and c >= h - 1 or sgn > 0 and c <= -h:
            return DF
        if sgn < 0 and c < -h or sgn > 0 and c > h - 1:
            return DT
    if sgn < 0 and c == -1:
        return NOT(ltc(q, 0))
    return ltc(q, c) if sgn > 0 else NOT(OR(ltc(q, c), eq0(q) if c == 0 else _eqc(q, c)))


def ltc(q, c):
    """q < c, in terms of a comparison with one canonical constant per neighbourhood"""
    nn = nonneg(q)
    if nn:
        if c <= 0:
            return DF
        if c == 1:
            return eq0(q)
    if c == 1:
        return OR(eq0(q), ltc(q, 0))
    if c >= 0 and not nn and nonneg(psub(ZERO, q)):
        return DT if c > 0 else NOT(eq0(q))
    e = eq0(q) if c == 0 else _eqc(q, c)
    return AND(NOT(e), atom(mk("ltc", q, c)))


def lt(a, b):
    return lt0(psub(a, b))


def eq0(p):
    p = unscale(p)
    if p.op == "int":
        return DT if p.args[0] == 0 else DF
    h = lex(p)
    if h:
        return AND(eq0(h[0]), eq0(h[1]))
    if p.op == "fld" and POS.get(p.args[1]) == 1:
        return DF
    if p.op == "poly":
        ms = p.args[0]
        if len(ms) == 1 and len(ms[0][0]) > 1:
            return OR(*[eq0(a) for a in ms[0][0]])
        if all((c > 0) == (ms[0][1] > 0) for _, c in ms) and len(ms) > 1 and all(m == () or all(sign(a) > 0 for a in m) for m, _ in ms):
            # a sum of values that are not negative
            r = DT
            for m, _ in ms:
                r = AND(r, DF if m == () else OR(*[eq0(a) for a in m]))
            return r
    if lead(p) < 0:
        p = psub(ZERO, p)
    d, g = _norm(p)
    q, c = _base(p)
    if g > 1:
        if c % g:
            return DF
        q = frompoly({k: v // g for k, v in d.items() if k != ()})
        c //= g
    if q.op == "neg" and c == 0:
        return NOT(lt0(q.args[0]))
    if q.op == "div" and c == 0 and POS and q.args[1].op == "fld" and POS.get(q.args[1].args[1]) == 1:
        for a in (q.args[0], psub(ZERO, q.args[0])):
            if nonneg(a):
                return lt0(psub(a, q.args[1]))
    if nonneg(q) and c < 0:
        return DF
    return _eqc(q, c)


DISTINCT = {"int", "bool", "key", "str", "fn"}


def eq(a, b):
    if a is b:
        return DT
    if a.op in ("bool",) or b.op in ("bool",):
        x = DT if a is TRUE else DF if a is FALSE else atom(a)
        y = DT if b is TRUE else DF if b is FALSE else atom(b)
        return IFF(x, y)
    if isarith(a) and isarith(b):
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and x.op == "discr":
                return isdiscr(x, y.args[0])
        return eq0(psub(a, b))
    if a.op in DISTINCT and b.op in DISTINCT and a.op == b.op:
        return DF
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and x.op == "discr":
            return isdiscr(x, y.args[0])
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


def isdiscr(t, v):
    vals = DISCR.get(t)
    if vals is None:
        return atom(mk("eq", t, num(v)))
    if v not in vals:
        return DF
    r = DT
    for w in vals[:-1]:
        a = atom(mk("eq", t, num(w)))
        if w == v:
            return AND(r, a)
        r = AND(r, NOT(a))
    return r


def deq(a, b):
    return apply(eq, a, b)


def dlt(a, b):
    return apply(lt, a, b)


def rebuild(t, x, v, memo):
    """the term with x replaced by v, in normal form; a T, or a Node for comparisons"""
    r = memo.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if t is x:
        r = v
    elif o in ("int", "bool", "sym", "str", "key"):
        r = t
    elif o == "poly":
        r = ZERO
        for m, c in a[0]:
            y = num(c)
            for z in m:
                y = pmul(y, rebuild(z, x, v, memo))
            r = padd(r, y)
    else:
        def sub(z):
            if isinstance(z, T):
                return rebuild(z, x, v, memo)
            if isinstance(z, tuple):
                return tuple(sub(w) for w in z)
            return z
        b = tuple(sub(z) for z in a)
        if b == a:
            r = t
        elif any(isinstance(z, Node) for z in b):
            r = t
        elif o == "eqc":
            r = eq0(psub(b[0], num(b[1])))
        elif o == "ltc":
            r = lt0(psub(b[0], num(b[1])))
        elif o == "eq":
            r = eq(b[0], b[1])
        elif o == "neg":
            r = neg0(b[0])
        elif o in ("div", "rem") and b[0].op == "int" and b[1].op == "int" and b[1].args[0]:
            u, w = b[0].args[0], b[1].args[0]
            q = abs(u) // abs(w)
            q = q if (u < 0) == (w < 0) else -q
            r = num(q if o == "div" else u - q * w)
        else:
            r = mk(o, *b, ty=t.ty)
    memo[t] = r
    return r


def substitute(n, x, v):
    """the diagram with the atom x replaced by the term v"""
    tm, dm = {}, {}

    def go(n):
        r = dm.get(n)
        if r is None:
            if n.leaf is not None:
                y = rebuild(n.leaf, x, v, tm)
                r = y if isinstance(y, Node) else L(y)
            else:
                y = rebuild(n.var, x, v, tm)
                r = ite(y if isinstance(y, Node) else atom(y), go(n.hi), go(n.lo))
            dm[n] = r
        return r
    return go(n)


def propagate(n, rounds=12):
    """n, using on each path the equalities of inputs with constants that hold there"""
    done = set()
    for _ in range(rounds):
        a = None
        for v in sorted(support(n), key=lambda t: t.id):
            if v.op == "eqc" and v not in done and v.args[0].op in ("phi", "fld", "sym"):
                a = v
                break
        if a is None:
            return n
        done.add(a)
        x = atom(a)
        h, l = AND(n, x), AND(n, NOT(x))
        if h is DF:
            continue
        n = OR(AND(substitute(h, a.args[0], num(a.args[1])), x), l)
        if n is DF:
            return n
    return n


def size(n, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen or x.leaf is not None:
            continue
        seen.add(x.id)
        st += [x.hi, x.lo]
    return len(seen)


UNKNOWN = set()     # results of calls the analysis knows nothing about
FALLIBLE = set()    # those that say whether the call succeeded


def unknown(v):
    """a comparison that involves such a result, other than whether the call succeeded"""
    if v.op == "eq" and v.args[0].op == "discr" and v.args[0].args[0] in FALLIBLE:
        return False
    return any(t in UNKNOWN for t in subterms(v))


def settled(n):
    """n where it holds whatever those results are"""
    for v in sorted((v for v in support(n) if unknown(v)), key=lambda t: t.id):
        n = AND(substitute_atom(n, v, DT), substitute_atom(n, v, DF))
        if n is DF:
            return n
    return n


def substitute_atom(n, v, b):
    memo = {}

    def go(x):
        if x.leaf is not None or x.var.id > v.id:
            return x
        if x in memo:
            return memo[x]
        if x.var is v:
            r = x.hi if b is DT else x.lo
        else:
            r = ite(atom(x.var), go(x.hi), go(x.lo))
        memo[x] = r
        return r
    return go(n)


def closure(n):
    """n with what comparisons of one form with different constants say about each other"""
    forms = {}
    for v in support(n):
        if v.op in ("ltc", "eqc"):
            forms.setdefault(v.args[0], []).append(v)
    for q in sorted(forms, key=lambda t: t.id):
        vs = forms[q]
        for a in vs:
            if a.op != "ltc":
                continue
            for b in vs:
                if b.op == "ltc" and b.args[1] < a.args[1]:
                    n = AND(n, IMP(atom(b), atom(a)))
                elif b.op == "eqc":
                    n = AND(n, IMP(atom(b), atom(a) if b.args[1] < a.args[1] else NOT(atom(a))))
                if n is DF:
                    return n
    return n


def split(n, fuel=24, bound=6000):
    """n with the minima in its comparisons resolved by cases"""
    for _ in range(fuel):
        if n is DF or size(n) > bound:
            return n
        best = None
        for v in support(n):
            if v.op in ("eqc", "ltc"):
                for t in subterms(v):
                    if t.op == "neg" and (best is None or t.id < best.id):
                        best = t
        if best is None:
            return n
        c = lt0(best.args[0])
        n = OR(AND(c, substitute(n, best, best.args[0])), AND(NOT(c), substitute(n, best, ZERO)))
    return n


_base_t = [0, 0]


def mark():
    _base_t[:] = [_TN[0], _NN[0]]


def reset():
    """forget the terms of earlier analyses, so that one run does not depend on another"""
    n, m = _base_t
    for d in (_T, _INT):
        for k in [k for k, t in d.items() if t.id >= n]:
            del d[k]
    for d in (_N, _LEAF):
        for k in [k for k, t in d.items() if t.id >= m]:
            del d[k]
    for d in (_ite, _res, CH, DISCR):
        d.clear()
    _nn.clear()
    UNKNOWN.clear()
    FALLIBLE.clear()
    forget()
    del _facts[:]
    POS.clear()


# ---- printing -----------------------------------------------------------------------------

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, Node):
            return showd(t)
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "bool":
        return str(a[0]).lower()
    if o == "poly":
        s = []
        for m, c in a[0]:
            ms = "*".join(show(x, d + 1) for x in m)
            s.append(str(c) if not m else ms if c == 1 else "-" + ms if c == -1 else "%d*%s" % (c, ms))
        return "(" + " + ".join(s) + ")"
    if o == "fld":
        return show(a[0], d + 1) + "." + str(a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "as":
        return "%s::%s" % (show(a[0], d + 1), a[1])
    if o == "sym":
        return str(a[0])
    if o == "ltc":
        return "%s < %d" % (show(a[0], d + 1), a[1])
    if o == "eqc":
        return "%s == %d" % (show(a[0], d + 1), a[1])
    if o == "eq":
        return "%s == %s" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "phi":
        return "phi<%s>" % (a[1],)
    return "%s(%s)" % (o, ",".join(show(x, d + 1) for x in a))


def showd(n, limit=12):
    if n.leaf is not None:
        return show(n.leaf)
    cs = cubes(n, limit)
    out = []
    for lits, leaf in cs:
        out.append("[%s] -> %s" % (" & ".join(("" if v else "!") + "{" + show(a) + "}" for a, v in lits), show(leaf)))
    return "ITE{" + " ; ".join(out) + ("..." if len(cs) >= limit else "") + "}"


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, Node):
        for l in leaves(t):
            subterms(l, seen)
        for v in support(t):
            subterms(v, seen)
        return seen
    if t in seen:
        return seen
    seen.add(t)
    todo = list(t.args)
    while todo:
        a = todo.pop()
        if isinstance(a, (T, Node)):
            subterms(a, seen)
        elif isinstance(a, tuple):
            todo += a
    return seen
