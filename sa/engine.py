"""Abstract interpreter over monomorphised MIR.

A whole-function, interprocedural, flow-sensitive analysis. Each function body is evaluated once
in the domain of terms.py: branches are joined with decision diagrams (gated values), loops are
summarised by replacing what an iteration changes with fresh header values, and calls are inlined
(or modelled, see models.py). Nothing is executed and no solver is involved; the result is, for
each root function, the guarded log of effects it can have, the conditions under which each is
reached, and the final symbolic state.
"""
import json
import re
from fractions import Fraction
import terms
from terms import *


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.insts = d["insts"]
        self.types = d["types"]
        self.files = d["files"]
        self.consts = {n: c for n, c in d["consts"]}
        self.by_path = {}
        for i in self.insts:
            self.by_path.setdefault(i["path"], []).append(i)
        self.tyid = {}
        for n, t in enumerate(self.types):
            self.tyid.setdefault(t["s"], n)
        self.loops_cache = {}

    def loc(self, sp):
        f = self.files[sp[0]] if sp else "?"
        return "%s:%d" % (f.replace("/repo/", ""), sp[1])

    def fn(self, path, full=None):
        c = [i for i in self.by_path.get(path, []) if i.get("body")]
        if full:
            c = [i for i in c if full in i["full"]]
        if len(c) != 1:
            raise Missing("function %s: %d candidates" % (path, len(c)))
        return c[0]

    def find(self, rx, local=True):
        r = re.compile(rx)
        return [i for i in self.insts if i.get("body") and (i["local"] or not local) and r.search(i["full"])]


class Missing(Exception):
    """An anchor of the analysis is not in the program."""


# ---- cells --------------------------------------------------------------------------------

class Sym:
    """unexpanded aggregate named by the leaf terms of base"""
    __slots__ = ("base", "ty")

    def __init__(self, base, ty):
        self.base, self.ty = base, ty


class SV:
    __slots__ = ("f", "base", "ty")

    def __init__(self, f, base, ty):
        self.f, self.base, self.ty = f, base, ty


class EV:
    __slots__ = ("d", "p", "base", "ty")

    def __init__(self, d, p, base, ty):
        self.d, self.p, self.base, self.ty = d, p, base, ty


class AV:
    __slots__ = ("base", "lit", "w", "ty")

    # base: Node of terms, or None; lit: tuple of cells, or ("rep", cell), or None
    # w: tuple of (guard, idx Node, cell), oldest first
    def __init__(self, base, lit, w, ty):
        self.base, self.lit, self.w, self.ty = base, lit, w, ty


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b) or isinstance(a, Node):
        return False
    if isinstance(a, Sym):
        return a.base is b.base
    if isinstance(a, SV):
        return a.base is b.base and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, EV):
        return (a.d is b.d and a.base is b.base and a.p.keys() == b.p.keys()
                and all(a.p[v].keys() == b.p[v].keys() and all(same(a.p[v][k], b.p[v][k]) for k in a.p[v]) for v in a.p))
    if isinstance(a, AV):
        if a.base is not b.base or len(a.w) != len(b.w):
            return False
        if a.lit is not b.lit:
            if a.lit is None or b.lit is None or len(a.lit) != len(b.lit):
                return False
            for x, y in zip(a.lit, b.lit):
                if x == "rep" or y == "rep":
                    if x != y:
                        return False
                elif not same(x, y):
                    return False
        return all(x is y or (x[0] is y[0] and x[1] is y[1] and same(x[2], y[2])) for x, y in zip(a.w, b.w))
    return a == b


class State:
    __slots__ = ("pc", "fr", "ob")

    def __init__(self, pc, fr, ob):
        self.pc, self.fr, self.ob = pc, fr, ob

    def copy(self):
        return State(self.pc, {k: dict(v) for k, v in self.fr.items()}, dict(self.ob))


class Effect:
    __slots__ = ("kind", "guard", "args", "site", "stack", "loops", "seq", "ops")

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.args, self.site)


class LoopInfo:
    __slots__ = ("key", "fn", "site", "entry", "head", "back", "exits", "effects", "phis", "stack", "pc0", "backs")


VIEW_SHARED = {"tag", "event_type"}
ATOMIC_ADTS = (
    "solana_program::pubkey::Pubkey", "anchor_lang::prelude::Pubkey",
    "anchor_lang::prelude::AccountLoader", "anchor_lang::accounts::account_loader::AccountLoader",
    "anchor_lang::prelude::Signer", "anchor_lang::prelude::Account", "anchor_lang::prelude::Program",
    "anchor_lang::prelude::UncheckedAccount", "anchor_lang::prelude::SystemAccount", "anchor_lang::prelude::Sysvar",
    "anchor_lang::error::Error", "anchor_lang::prelude::AccountInfo", "std::string::String",
    "std::fmt::Arguments", "core::fmt::rt::Argument", "anchor_lang::prelude::Rent",
    "anchor_lang::prelude::ProgramError", "std::cell::Ref", "std::cell::RefMut", "std::boxed::Box",
    "fixed::types::I80F48", "fixed::types::U64F64", "std::rc::Rc", "std::cell::RefCell",
    "std::num::TryFromIntError", "std::collections::BTreeMap", "std::collections::BTreeSet", "std::io::Error",
    "std::io::Cursor",
)


class Engine:
    def __init__(self, prog, opaque=(), models=None, maxdepth=60):
        import models as M
        self.p = prog
        self.types = prog.types
        self.models = M.build()
        self.mcache = {}
        self.opaque = [re.compile(x) for x in opaque]
        self.opq_cache = {}
        self.effects = []
        self.loopinfos = []
        self.panics = []
        self.fresh = 0
        self.frame_no = 0
        self.stack = []
        self.loopstack = []
        self.unmodelled = {}
        self.inlined = set()
        self.maxdepth = maxdepth
        self.callhook = None
        self.nblocks = 0
        self.ret_guard = None
        self.abort = True   # an error that is only propagated ends the transaction: such paths are cut
        self.trace = False
        self.errcut = []    # (condition, site) of the cut paths
        self.ovf = []       # (condition, value, type): arithmetic that aborts unless it fits
        self.hooks = []     # (regex, function) run when a call is reached, before it is analysed
        self.affine = True  # look for affine relations between what a loop changes
        self.relations = []
        self.xmodels = []   # (regex, model) of this run, before the general ones
        self.searches = {}
        self.peel = None
        self.ninv = False
        self.cut = 0
        self.curpc = None
        self.subfacts = "all"  # unsigned arithmetic that returns is not negative
        self.ctx_accounts = None

    # ---- types
    def t(self, ty):
        return self.types[ty]

    def is_atomic(self, ty):
        t = self.t(ty)
        k = t["k"]
        if k == "adt":
            p = t["path"]
            if p in ATOMIC_ADTS:
                return True
            if t["kind"] == "union":
                return True
            return False
        return k not in ("tuple", "array", "closure", "slice")

    def scal_ty(self, ty):
        t = self.t(ty)
        return t["s"] if t["k"] in ("int", "uint", "bool", "char", "float") else None

    def sym(self, base, ty):
        """cell for a symbolic value of type ty named by diagram base"""
        if ty is None:
            return base
        if self.is_atomic(ty):
            s = self.scal_ty(ty)
            if s:
                for l in leaves(base):
                    if l.ty is None:
                        l.ty = s
            if s == "bool":
                return apply(lambda x: DT if x is TRUE else DF if x is FALSE else atom(x), base)
            return base
        t = self.t(ty)
        if t["k"] == "array" or t["k"] == "slice":
            return AV(base, None, (), ty)
        if t["k"] == "tuple" and not t["of"]:
            return SV({}, None, ty)
        return Sym(base, ty)

    def freshsym(self, what, ty):
        self.fresh += 1
        return self.sym(L(mk("fresh", what, self.fresh)), ty)

    def variant_vals(self, ty):
        return [int(v["discr"]) for v in self.t(ty)["variants"]]

    def discr_of(self, c):
        if isinstance(c, EV):
            return c.d
        if isinstance(c, SV) and not c.f and c.base is None and c.ty is not None and self.t(c.ty)["k"] == "adt":
            return D(self.variant_vals(c.ty)[0])
        if isinstance(c, Sym):
            vals = tuple(self.variant_vals(c.ty))

            def f(x):
                if len(vals) == 1:
                    return num(vals[0])
                d = mk("discr", x, ty="i64")
                DISCR[d] = vals
                return d
            return apply(f, c.base)
        if isinstance(c, Node):
            def g(x):
                return mk("discr", x, ty="i64")
            return apply(g, c)
        raise Unsupported("discriminant of %r" % c)

    # ---- projection on cells
    def field(self, c, name, fty, variant=None):
        if isinstance(c, Sym) or ((isinstance(c, SV) and name not in c.f) and c.base is not None) or \
                (isinstance(c, EV) and name not in c.p.get(variant, {}) and c.base is not None):
            def f(x):
                if variant is not None:
                    x = mk("as", x, variant)
                return mk("fld", x, name)
            return self.sym(apply(f, c.base), fty)
        if isinstance(c, SV):
            r = c.f.get(name)
            if r is None:
                if name in VIEW_SHARED:
                    for k, v in c.f.items():
                        if isinstance(k, str) and k.startswith("cast:") and not isinstance(v, Node):
                            return self.field(v, name, fty)
                return self.freshsym("undef." + str(name), fty)
            return r
        if isinstance(c, EV):
            r = c.p.get(variant, {}).get(name)
            if r is None:
                return self.freshsym("undef." + str(name), fty)
            return r
        if isinstance(c, Node):
            # wrappers around pointers (Box, Unique, NonNull, RefMut): transparent
            def g(x):
                if x.op in ("ref", "fresh", "phi", "acc") or (x.ty is None and x.op in ("call", "fld", "sym", "idx", "deref")):
                    if name in ("0", "pointer", "value") or name == 0:
                        return x
                return mk("fld", x if variant is None else mk("as", x, variant), name)
            return self.sym(apply(g, c), fty)
        raise Unsupported("field %s of %s" % (name, type(c)))

    def setfield(self, c, name, val, variant=None):
        if isinstance(c, Sym):
            t = self.t(c.ty)
            if variant is not None:
                c = EV(self.discr_of(c), {}, c.base, c.ty)
            else:
                c = SV({}, c.base, c.ty)
        if isinstance(c, SV):
            f = dict(c.f)
            f[name] = val
            if name in VIEW_SHARED:
                for k, v in list(f.items()):
                    if isinstance(k, str) and k.startswith("cast:"):
                        f[k] = self.setfield(v, name, val)
            elif isinstance(name, str) and name.startswith("cast:"):
                for k in list(f):
                    if k != name and isinstance(k, str) and k.startswith("cast:"):
                        del f[k]
                for s in VIEW_SHARED:
                    if isinstance(val, SV) and s in val.f:
                        f[s] = val.f[s]
            return SV(f, c.base, c.ty)
        if isinstance(c, EV):
            p = dict(c.p)
            q = dict(p.get(variant, {}))
            q[name] = val
            p[variant] = q
            return EV(c.d, p, c.base, c.ty)
        if isinstance(c, Node):
            return SV({name: val}, c, None)
        raise Unsupported("setfield on %s" % type(c))

    def elem_ty(self, ty):
        t = self.t(ty) if ty is not None else None
        if t and t["k"] in ("array", "slice"):
            return t["of"]
        return None

    def index(self, c, i, ety):
        """i: Node"""
        if isinstance(c, Sym) or isinstance(c, Node):
            b = c.base if isinstance(c, Sym) else c
            return self.sym(apply(lambda x, y: mk("idx", x, y), b, i), ety)
        if not isinstance(c, AV):
            raise Unsupported("index on %s" % type(c))
        if c.base is not None:
            r = self.sym(apply(lambda x, y: mk("idx", x, y), c.base, i), ety)
        elif c.lit and c.lit[0] == "rep":
            r = c.lit[1]
        elif c.lit:
            if i.leaf is not None and i.leaf.op == "int" and 0 <= i.leaf.args[0] < len(c.lit):
                r = c.lit[i.leaf.args[0]]
            else:
                r = c.lit[-1]
                for k in range(len(c.lit) - 2, -1, -1):
                    r = self.join(c.lit[k], r, deq(i, D(k)))
        else:
            r = self.freshsym("undef[]", ety)
        for g, j, v in c.w:
            cond = AND(g, deq(i, j))
            r = self.join(v, r, cond)
        return r

    def setindex(self, c, i, val, ety):
        if isinstance(c, (Sym, Node)):
            c = AV(c.base if isinstance(c, Sym) else c, None, (), c.ty if isinstance(c, Sym) else None)
        if c.lit and c.lit[0] != "rep" and not c.w and i.leaf is not None and i.leaf.op == "int":
            k = i.leaf.args[0]
            if 0 <= k < len(c.lit):
                lit = list(c.lit)
                lit[k] = val
                return AV(c.base, tuple(lit), c.w, c.ty)
        w = c.w
        w = tuple(x for x in w if not (x[1] is i))
        return AV(c.base, c.lit, w + ((DT, i, val),), c.ty)

    # ---- joins
    def join(self, a, b, g):
        """a if g else b"""
        if a is b or g is DT:
            return a
        if g is DF:
            return b
        if isinstance(a, Node) and isinstance(b, Node):
            return ite(g, a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.base is b.base:
                return a
            return Sym(ite(g, a.base, b.base), a.ty)
        if isinstance(a, Node) and isinstance(b, Sym):
            return Sym(ite(g, a, b.base), b.ty)
        if isinstance(a, Sym) and isinstance(b, Node):
            return Sym(ite(g, a.base, b), a.ty)
        if isinstance(a, (EV, Sym)) and isinstance(b, (EV, Sym)) and (isinstance(a, EV) or isinstance(b, EV)):
            da, db = self.discr_of(a), self.discr_of(b)
            ty = a.ty if a.ty is not None else b.ty
            pa = a.p if isinstance(a, EV) else {}
            pb = b.p if isinstance(b, EV) else {}
            p = {}
            for v in set(pa) | set(pb):
                q = {}
                for k in list(pa.get(v, {})) + [k for k in pb.get(v, {}) if k not in pa.get(v, {})]:
                    x, y = pa.get(v, {}).get(k), pb.get(v, {}).get(k)
                    if x is None:
                        x = self._basefield(a, v, k, ty, y)
                    if y is None:
                        y = self._basefield(b, v, k, ty, x)
                    q[k] = self.join(x, y, g)
                p[v] = q
            return EV(ite(g, da, db), p, self._joinbase(a.base, b.base, g), ty)
        if isinstance(a, (SV, Sym)) and isinstance(b, (SV, Sym)):
            fa = a.f if isinstance(a, SV) else {}
            fb = b.f if isinstance(b, SV) else {}
            ty = a.ty if a.ty is not None else b.ty
            q = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                x, y = fa.get(k), fb.get(k)
                if x is None:
                    x = self._basefield(a, None, k, ty, y)
                if y is None:
                    y = self._basefield(b, None, k, ty, x)
                q[k] = self.join(x, y, g)
            return SV(q, self._joinbase(a.base, b.base, g), ty)
        if isinstance(a, AV) and isinstance(b, AV):
            n = 0
            while n < len(a.w) and n < len(b.w) and (a.w[n] is b.w[n] or (a.w[n][0] is b.w[n][0] and a.w[n][1] is b.w[n][1] and same(a.w[n][2], b.w[n][2]))):
                n += 1
            if a.base is b.base and (a.lit is b.lit):
                ng = NOT(g)
                w = a.w[:n] + tuple((AND(x[0], g), x[1], x[2]) for x in a.w[n:]) + tuple((AND(x[0], ng), x[1], x[2]) for x in b.w[n:])
                return AV(a.base, a.lit, w, a.ty)
            if a.lit and b.lit and a.lit[0] != "rep" and b.lit[0] != "rep" and len(a.lit) == len(b.lit) and not a.w and not b.w:
                return AV(None, tuple(self.join(x, y, g) for x, y in zip(a.lit, b.lit)), (), a.ty)
            if a.base is not None and b.base is not None and not a.w and not b.w:
                return AV(ite(g, a.base, b.base), None, (), a.ty)
            # differing origins: name the two arrays and select
            return AV(ite(g, self._name(a), self._name(b)), None, (), a.ty)
        if isinstance(a, AV) or isinstance(b, AV):
            def nm(x):
                return self._name(x) if isinstance(x, AV) else x.base if isinstance(x, Sym) else x
            if all(isinstance(x, (AV, Sym, Node)) for x in (a, b)):
                return AV(ite(g, nm(a), nm(b)), None, (), a.ty if isinstance(a, AV) else b.ty)
        if isinstance(a, Node) and isinstance(b, (SV, EV)):
            return self.join(self._wrap(a, b), b, g)
        if isinstance(b, Node) and isinstance(a, (SV, EV)):
            return self.join(a, self._wrap(b, a), g)
        raise Unsupported("join %s %s" % (type(a), type(b)))

    def _wrap(self, n, like):
        return Sym(n, like.ty)

    def _name(self, a):
        if a.base is not None and not a.w:
            return a.base
        self.fresh += 1
        return L(mk("arr", self.fresh, self._akey(a)))

    def _akey(self, a):
        return id(a)

    def _joinbase(self, a, b, g):
        if a is None:
            return b
        if b is None:
            return a
        return ite(g, a, b)

    def _basefield(self, c, v, k, ty, like):
        if c.base is None:
            return like
        fty = self.like_ty(ty, v, k, like)
        if fty is None:
            return like
        return self.field(Sym(c.base, ty), k, fty, v)

    def like_ty(self, ty, v, k, like):
        if isinstance(k, str) and k.startswith("cast:"):
            return self.p.tyid.get(k[5:])
        if ty is not None:
            t = self.t(ty)
            if t["k"] == "adt" and t["variants"]:
                for n, ft, _ in t["variants"][v or 0]["fields"]:
                    if n == k:
                        return ft
            if t["k"] in ("tuple", "closure"):
                return t["of"][int(k)]
        if isinstance(like, (Sym, SV, EV, AV)) and like.ty is not None:
            return like.ty
        return None

    def joinstates(self, sts):
        sts = [s for s in sts if s.pc is not DF]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        s = sts[0].copy()
        for o in sts[1:]:
            g = s.pc
            npc = OR(s.pc, o.pc)
            # choose a small gate: s.pc simplified on the union
            gate = restrict(g, npc)
            for fr in list(s.fr):
                if fr not in o.fr:
                    continue
                a, b = s.fr[fr], o.fr[fr]
                if a is b:
                    continue
                for k in set(a) | set(b):
                    x, y = a.get(k), b.get(k)
                    if x is y:
                        continue
                    if x is None:
                        a[k] = y
                    elif y is not None and not same(x, y):
                        a[k] = self.join(x, y, gate)
            for k in set(s.ob) | set(o.ob):
                x, y = s.ob.get(k), o.ob.get(k)
                if x is y:
                    continue
                if x is None:
                    x = self.obj_default(k)
                if y is None:
                    y = self.obj_default(k)
                if x is None:
                    s.ob[k] = y
                elif y is not None and not same(x, y):
                    s.ob[k] = self.join(x, y, gate)
            s.pc = npc
        return s

    # ---- memory
    def obj_default(self, root):
        if root[0] == "ptr" and root[1].op == "deref" and root[1].args[0].op == "acc":
            return L(root[1].args[0])   # a box is the account in it
        if root[0] in ("ptr", "acct"):
            return self.sym(L(root[1] if root[0] == "ptr" else mk("data", root[1])), root[2])
        return None

    def getobj(self, st, root):
        c = st.ob.get(root)
        if c is None:
            c = self.obj_default(root)
            if c is None:
                raise Unsupported("no object %r" % (root,))
            st.ob[root] = c
        return c

    def root_get(self, st, root):
        if root[0] == "loc":
            c = st.fr[root[1]].get(root[2])
            if c is None:
                c = st.fr[root[1]][root[2]] = self.undef(root[3])
            return c
        return self.getobj(st, root)

    def undef(self, ty):
        t = self.t(ty)
        if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["kind"] == "struct" and not self.is_atomic(ty)):
            return SV({}, None, ty)
        return self.freshsym("uninit", ty)

    def root_set(self, st, root, c):
        if root[0] == "loc":
            st.fr[root[1]][root[2]] = c
        else:
            st.ob[root] = c

    # path elements: ("f", name, ty, variant) ("i", Node, ety) ("c", tyname, ty)
    def rd(self, c, path):
        for e in path:
            if e[0] == "f":
                c = self.field(c, e[1], e[2], e[3])
            elif e[0] == "i":
                c = self.index(c, e[1], e[2])
            elif e[0] == "c":
                c = self.castview(c, e[1], e[2])
            elif e[0] == "u":
                c = self.upcast(c, e[1], e[2])
            elif e[0] == "sub":
                c = self.subslice(c, e)
        return c

    def upcast(self, v, frm, to):
        """a node or event seen as its untyped container"""
        fs = {"cast:" + self.t(frm)["s"]: v}
        for n, ft, _ in self.t(to)["variants"][0]["fields"]:
            if n in VIEW_SHARED:
                fs[n] = self.field(v, n, ft)
        return SV(fs, None, to)

    def subslice(self, c, e):
        return self.sym(apply(lambda x: mk("sub", x, e[1], e[2], e[3]), self._name(c) if isinstance(c, AV) else c if isinstance(c, Node) else c.base), e[4])

    def castview(self, c, name, ty):
        k = "cast:" + name
        if isinstance(c, SV):
            if k in c.f:
                v = c.f[k]
            elif c.base is not None:
                v = Sym(apply(lambda x: mk("fld", x, k), c.base), ty)
            else:
                v = self.freshsym("view." + name, ty)
            if isinstance(v, (Sym, SV)):
                for s in VIEW_SHARED:
                    if s in c.f:
                        v = self.setfield(v, s, c.f[s])
            return v
        if isinstance(c, Sym):
            return self.viewsym(c, name, ty)
        if isinstance(c, Node):
            return Sym(apply(lambda x: mk("fld", x, k), c), ty)
        raise Unsupported("castview %s" % type(c))

    def viewsym(self, c, name, ty):
        k = "cast:" + name
        v = Sym(apply(lambda x: mk("fld", x, k), c.base), ty)
        t = self.t(c.ty)
        for n, ft, _ in t["variants"][0]["fields"]:
            if n in VIEW_SHARED:
                v = self.setfield(v, n, self.field(c, n, ft))
        return v

    def wr(self, c, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            sub = self.field(c, e[1], e[2], e[3]) if len(path) > 1 else None
            return self.setfield(c, e[1], self.wr(sub, path[1:], val), e[3])
        if e[0] == "i":
            sub = self.index(c, e[1], e[2]) if len(path) > 1 else None
            return self.setindex(c, e[1], self.wr(sub, path[1:], val), e[2])
        if e[0] == "c":
            sub = self.castview(c, e[1], e[2])
            return self.setfield(c, "cast:" + e[1], self.wr(sub, path[1:], val))
        if e[0] == "u":
            new = self.wr(self.upcast(c, e[1], e[2]), path[1:], val)
            return self.castview(new, self.t(e[1])["s"], e[1])
        if e[0] == "sub":
            return self.freshsym("subwrite", e[4])
        raise Unsupported("write path %r" % (e,))

    def deref(self, st, ptr, pty):
        """ptr: Node; -> list of (guard, root, path)"""
        if not isinstance(ptr, Node):
            raise Unsupported("deref of %s" % type(ptr))
        ptr = restrict(ptr, st.pc)
        out = []

        def go(n, g):
            if n.leaf is not None:
                t = n.leaf
                if t.op == "ref":
                    out.append((g, t.args[0], t.args[1]))
                else:
                    out.append((g, ("ptr", deref(t), pty), ()))
                return
            go(n.hi, AND(g, atom(n.var)))
            go(n.lo, AND(g, NOT(atom(n.var))))

        go(ptr, DT)
        # merge same targets
        m = {}
        order = []
        for g, r, p in out:
            k = (r, p)
            if k in m:
                m[k] = OR(m[k], g)
            else:
                m[k] = g
                order.append(k)
        return [(m[k], k[0], k[1]) for k in order]

    def place(self, st, fr, body, pl):
        """-> list of (guard, root, path)"""
        l = pl[0]
        ty = body["locals"][l][0]
        targets = [(DT, ("loc", fr, l, ty), ())]
        variant = None
        for e in pl[1:]:
            k = e[0]
            if k == "d":
                nt = []
                pt = self.t(ty)
                to = pt.get("to")
                if to is None and pt["k"] == "adt":
                    to = pt["args"][0] if pt["args"] else ty
                for g, r, p in targets:
                    c = self.rd(self.root_get(st, r), p)
                    if not isinstance(c, Node):
                        c = self.as_node(c)
                    for g2, r2, p2 in self.deref(st, c, to):
                        nt.append((AND(g, g2), r2, p2))
                targets = nt
                ty = to
                variant = None
            elif k == "f":
                targets = [(g, r, p + (("f", e[2], e[3], variant),)) for g, r, p in targets]
                ty = e[3]
                variant = None
            elif k == "v":
                variant = e[1]
            elif k == "i":
                idx = self.rd(self.root_get(st, ("loc", fr, e[1], 0)), ())
                idx = restrict(idx, st.pc)
                ety = self.elem_ty(ty)
                targets = [(g, r, p + (("i", idx, ety),)) for g, r, p in targets]
                ty = ety
            elif k == "ci":
                ety = self.elem_ty(ty)
                if e[3]:
                    nt = []
                    for g, r, p in targets:
                        n = self.length(st, ty, r, p)
                        nt.append((g, r, p + (("i", apply(lambda x: psub(x, num(e[1])), n), ety),)))
                    targets = nt
                else:
                    targets = [(g, r, p + (("i", D(e[1]), ety),)) for g, r, p in targets]
                ty = ety
            elif k == "ss":
                targets = [(g, r, p + (("sub", e[1], e[2], e[3], ty),)) for g, r, p in targets]
            else:
                pass
        return targets, ty

    def length(self, st, ty, r, p):
        t = self.t(ty)
        if t["k"] == "array" and t["len"] is not None:
            return D(t["len"])
        c = self.rd(self.root_get(st, r), p)
        return self.lenof(c)

    def lenof(self, c):
        if isinstance(c, AV):
            if c.lit and c.lit[0] != "rep":
                return D(len(c.lit))
            if c.ty is not None and self.t(c.ty)["k"] == "array" and self.t(c.ty)["len"] is not None:
                return D(self.t(c.ty)["len"])
            if c.base is not None:
                return apply(lambda x: mk("len", x, ty="usize"), c.base)
            return L(mk("len", "anon", ty="usize"))
        if isinstance(c, Sym):
            return apply(lambda x: mk("len", x, ty="usize"), c.base)
        if isinstance(c, Node):
            return apply(lambda x: num(len(x.args[0])) if x.op == "str" else mk("len", x, ty="usize"), c)
        raise Unsupported("len of %s" % type(c))

    def as_node(self, c):
        if isinstance(c, Sym):
            return c.base
        if isinstance(c, SV):
            # single-pointer wrappers
            vals = list(c.f.values())
            if len(vals) >= 1:
                return self.as_node(vals[0])
            if c.base is not None:
                return c.base
        if isinstance(c, Node):
            return c
        raise Unsupported("as_node %s" % type(c))

    def read(self, st, targets):
        r = None
        for g, root, path in reversed(targets):
            c = self.rd(self.root_get(st, root), path)
            r = c if r is None else self.join(c, r, g)
        return r

    def write(self, st, targets, val):
        one = len(targets) == 1
        for g, root, path in targets:
            old = self.root_get(st, root)
            if one or g is DT:
                new = self.wr(old, path, val)
            else:
                new = self.wr(old, path, self.join(val, self.rd(old, path), g))
            self.root_set(st, root, new)

    def readplace(self, st, fr, body, pl):
        tg, ty = self.place(st, fr, body, pl)
        return self.read(st, tg), ty

    # reading / writing through a reference value
    def load(self, st, ptr, ty):
        return self.read(st, self.deref(st, ptr, ty))

    def store(self, st, ptr, ty, val):
        self.write(st, self.deref(st, ptr, ty), val)

    # ---- operands
    def constval(self, st, v, ty):
        t = self.t(ty)
        if "int" in v:
            n = int(v["int"])
            if t["k"] == "bool":
                return DT if n else DF
            return D(n)
        if "float" in v:
            return L(mk("float", float(v["float"]), ty="f64"))
        if "zst" in v:
            if t["k"] == "fndef":
                return L(mk("fn", t["path"]))
            if t["k"] == "adt" and t["kind"] == "enum":
                return self.freshsym("zst", ty)
            return SV({}, None, ty)
        if "agg" in v:
            if self.is_atomic(ty):
                return L(mk("key", json.dumps(v)))
            if t["k"] == "tuple":
                return SV({str(i): self.constval(st, x, t["of"][i]) for i, x in enumerate(v["agg"])}, None, ty)
            var = t["variants"][v["variant"]]
            fs = {f[0]: self.constval(st, x, f[1]) for f, x in zip(var["fields"], v["agg"])}
            if t["kind"] == "enum":
                return EV(D(int(var["discr"])), {v["variant"]: fs}, None, ty)
            return SV(fs, None, ty)
        if "arr" in v:
            ety = t.get("of")
            if ety is None:
                return L(mk("const", json.dumps(v)))
            if len(v["arr"]) == 0:
                return AV(L(mk("emptyarr")), None, (), ty)
            return AV(None, tuple(self.constval(st, x, ety) for x in v["arr"]), (), ty)
        if "str" in v:
            return L(mk("str", v["str"]))
        if "ref" in v:
            key = ("const", json.dumps(v["ref"]), t.get("to"))
            if st is not None and key not in st.ob:
                if "static" in v["ref"]:
                    st.ob[key] = self.sym(L(mk("static", v["ref"]["static"])), t["to"])
                else:
                    st.ob[key] = self.constval(st, v["ref"], t["to"])
            return L(mk("ref", key, ()))
        if "fnptr" in v:
            return L(mk("fnv", v["fnptr"]))
        return self.sym(L(mk("constopq", json.dumps(v))), ty)

    def operand(self, st, fr, body, o):
        if "p" in o:
            c, ty = self.readplace(st, fr, body, o["p"])
            if isinstance(c, Node):
                c = restrict(c, st.pc)
            return c
        if "fn" in o:
            return L(mk("fnv", o["fn"])) if o["fn"] is not None else L(mk("fn", o["path"]))
        return self.constval(st, o["v"], o["c"])

    def optype(self, body, o):
        if "p" in o:
            pl = o["p"]
            ty = body["locals"][pl[0]][0]
            for e in pl[1:]:
                if e[0] == "d":
                    t = self.t(ty)
                    ty = t.get("to", t["args"][0] if t.get("args") else None)
                elif e[0] == "f":
                    ty = e[3]
                elif e[0] in ("i", "ci"):
                    ty = self.elem_ty(ty)
            return ty
        return o["c"]

    # ---- rvalues
    def binop(self, op, a, b, ty):
        s = self.t(ty)["s"]
        fl = self.t(ty)["k"] == "float"
        if op.endswith("WithOverflow"):
            v = self.binop(op[:-12], a, b, ty)
            return SV({"0": v, "1": DF}, None, None)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if not isinstance(a, Node) or not isinstance(b, Node):
            raise Unsupported("binop %s on %s %s" % (op, type(a), type(b)))
        if fl:
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                def f(x, y):
                    if x.op == "float" and y.op == "float":
                        u, w = x.args[0], y.args[0]
                        return DT if {"Lt": u < w, "Le": u <= w, "Gt": u > w, "Ge": u >= w, "Eq": u == w, "Ne": u != w}[op] else DF
                    if op in ("Gt", "Ge"):
                        x, y = y, x
                    o = {"Lt": "flt", "Gt": "flt", "Le": "fle", "Ge": "fle", "Eq": "feq", "Ne": "feq"}[op]
                    r = atom(mk(o, x, y))
                    return NOT(r) if op == "Ne" else r
                return apply(f, a, b)

            def g(x, y):
                if op in ("Add", "Mul") and x.id > y.id:
                    x, y = y, x
                return mk("f" + op.lower(), x, y, ty="f64")
            return apply(g, a, b)
        if op in ("Eq", "Ne"):
            if self.t(ty)["k"] == "bool":
                r = IFF(a, b)
            else:
                r = deq(a, b)
            return NOT(r) if op == "Ne" else r
        if op == "Lt":
            return dlt(a, b)
        if op == "Gt":
            return dlt(b, a)
        if op == "Le":
            return NOT(dlt(b, a))
        if op == "Ge":
            return NOT(dlt(a, b))
        if self.t(ty)["k"] == "bool":
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op == "BitXor":
                return NOT(IFF(a, b))
        if op == "Add":
            return apply(padd, a, b)
        if op == "Sub":
            return apply(psub, a, b)
        if op == "Mul":
            return apply(pmul, a, b)
        return apply(lambda x, y: self.bitop(op, x, y, s), a, b)

    def bitop(self, op, x, y, s):
        n = BITS.get(s, 64)
        if x.op == "int" and y.op == "int":
            u, w = x.args[0], y.args[0]
            if op == "Div" and w:
                q = abs(u) // abs(w)
                return num(q if (u < 0) == (w < 0) else -q)
            if op == "Rem" and w:
                q = abs(u) % abs(w)
                return num(q if u >= 0 else -q)
            if op == "BitAnd":
                return num(u & w)
            if op == "BitOr":
                return num(u | w)
            if op == "BitXor":
                return num(u ^ w)
            if op == "Shl":
                r = (u << w) & ((1 << n) - 1)
                if s[0] == "i" and r >> (n - 1):
                    r -= 1 << n
                return num(r)
            if op == "Shr":
                return num(u >> w)
        if op == "Div" and y is ONE:
            return x
        r = self.bits(op, x, y, s, n)
        if r is not None:
            return r
        if op in ("BitAnd", "BitOr", "BitXor") and x.id > y.id:
            x, y = y, x
        if op == "Div" and s not in UNSIGNED and lead(x) < 0:   # truncating division is odd
            return psub(ZERO, self.bitop(op, psub(ZERO, x), y, s))
        if op in ("Div", "Rem"):
            n = 0   # the quotient does not depend on the width
        return mk(op.lower(), x, y, n, ty=s)

    def within(self, x, hi):
        """0 <= x < hi, by its form or on this path"""
        r = rng(x)
        if r and 0 <= r[0] and r[1] < hi:
            return True
        pc = self.curpc
        if pc is None:
            return False
        d = psub(num(hi - 1), x)
        return (r and r[1] < hi or nonneg(d) or AND(pc, lt0(d)) is DF) and (nonneg(x) or AND(pc, lt0(x)) is DF)

    def bits(self, op, x, y, s, n):
        """bit operations that are arithmetic: shifts by a constant, or-ing parts that do not overlap"""
        if op in ("Shl", "Shr") and y.op == "int" and 0 <= y.args[0] < n and s in UNSIGNED:
            w = 1 << y.args[0]
            if op == "Shl":
                return pmul(x, num(w)) if self.within(x, 1 << (n - y.args[0])) else None
            h = halves(x, w)
            if h and self.within(h[1], w):
                return h[0]
        if op in ("BitOr", "BitXor"):
            if x is ZERO or y is ZERO:
                return padd(x, y)
            for a, b in ((x, y), (y, x)):
                g = 0
                for c in topoly(a).values():
                    g = gcd(g, abs(c))
                g &= -g
                if g > 1 and self.within(b, g):
                    return padd(a, b)
        if op == "BitAnd":
            for a, b in ((x, y), (y, x)):
                if a.op == "int" and a.args[0] and a.args[0] & (a.args[0] + 1) == 0:
                    h = halves(b, a.args[0] + 1)
                    if h and self.within(h[1], a.args[0] + 1):
                        return h[1]
        return None

    def unop(self, op, a, ty):
        t = self.t(ty)
        if op == "Not":
            if t["k"] == "bool":
                return NOT(a)
            n = BITS[t["s"]]

            def f(x):
                if x.op == "int":
                    if t["k"] == "uint":
                        return num(((1 << n) - 1) ^ x.args[0])
                    return num(~x.args[0])
                if t["k"] == "uint":
                    return psub(num((1 << n) - 1), x)
                return psub(num(-1), x)
            return apply(f, a)
        if op == "Neg":
            if t["k"] == "float":
                return apply(lambda x: mk("fneg", x, ty="f64"), a)
            return apply(lambda x: psub(ZERO, x), a)
        if op == "PtrMetadata":
            # length of a slice behind a pointer
            def g(x):
                if x.op == "ref":
                    return None
                return mk("len", mk("deref", x), ty="usize")
            return a
        raise Unsupported("unop " + op)

    def cast(self, st, kind, a, fty, tty):
        f, t = self.t(fty), self.t(tty)
        if kind.startswith("IntToInt"):
            if f["k"] == "bool":
                return ite(a, D(1), D(0))
            if not isinstance(a, Node):
                a = self.discr_of(a)
            fb, tb = BITS.get(f["s"], 64), BITS.get(t["s"], 64)
            if t["k"] == "char" or f["k"] == "char":
                return a

            def g(x):
                if x.op == "int":
                    r = x.args[0] & ((1 << tb) - 1)
                    if t["k"] == "int" and r >> (tb - 1):
                        r -= 1 << tb
                    return num(r)
                if tb >= fb:
                    return x
                if x.op == "discr":
                    return x
                if x.ty in BITS and BITS[x.ty] <= tb and x.ty in UNSIGNED:
                    return x
                if t["s"] in UNSIGNED and x.op == "poly" and any(y.op == "neg" for y in subterms(x)):
                    # a minimum or maximum that stays in the range
                    if propagate(split(lt0(x))) is DF and propagate(split(lt0(psub(num((1 << tb) - 1), x)))) is DF:
                        return x
                if t["s"] in UNSIGNED:
                    h = halves(x, 1 << tb)
                    if self.within(h[1] if h else x, 1 << tb):
                        return h[1] if h else x
                return mk("trunc", x, tb, t["k"], ty=t["s"])
            self.curpc = st.pc
            return apply(g, a)
        if kind.startswith("IntToFloat"):
            return apply(lambda x: mk("i2f", x, t["s"], ty=t["s"]), a)
        if kind.startswith("FloatToInt"):
            return apply(lambda x: mk("f2i", x, t["s"], ty=t["s"]), a)
        if kind.startswith("FloatToFloat"):
            return apply(lambda x: x if t["s"] == "f64" else mk("f2f", x, t["s"], ty=t["s"]), a)
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind.startswith("Subtype"):
            return a
        if kind.startswith("Transmute"):
            if isinstance(a, Node):
                if self.is_atomic(tty) or t["k"] in ("ref", "ptr"):
                    return a
                if t["k"] == "adt" and t["kind"] == "enum":
                    # u8 -> fieldless enum
                    return EV(a, {}, None, tty)
                return self.sym(apply(lambda x: mk("transmute", x, t["s"]), a), tty)
            if t["k"] in ("ref", "ptr"):
                return self.as_node(a)
            if isinstance(a, (EV,)) and t["k"] in ("int", "uint"):
                return a.d
            return self.freshsym("transmute", tty)
        if kind.startswith("Pointer") or kind.startswith("BoxDeref"):
            return a
        if t["k"] in ("ref", "ptr") and isinstance(a, Node):
            return a
        raise Unsupported("cast " + kind)

    def rvalue(self, st, fr, body, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, body, rv[1])
        if k == "bin":
            a = self.operand(st, fr, body, rv[2])
            b = self.operand(st, fr, body, rv[3])
            if not isinstance(a, Node) and rv[1] in ("Eq", "Ne", "Lt"):
                a, b = self.as_node(a), self.as_node(b)
            self.curpc = st.pc
            r = self.binop(rv[1], a, b, rv[4])
            if rv[1].endswith("WithOverflow"):
                self.ovf.append((st.pc, r.f["0"], self.t(rv[4])["s"]))
                if self.subfacts and self.t(rv[4])["k"] == "uint" and (self.subfacts == "all" or rv[1].startswith("Sub")):
                    st.pc = AND(st.pc, NOT(apply(lt0, r.f["0"])))
            return r
        if k == "un":
            a = self.operand(st, fr, body, rv[2])
            if rv[1] == "PtrMetadata":
                return self.ptrmeta(st, a, rv[3])
            return self.unop(rv[1], a, rv[3])
        if k == "ref" or k == "reborrow":
            tg, ty = self.place(st, fr, body, rv[2])
            n = None
            for g, root, path in reversed(tg):
                if root[0] == "ptr" and not path and root[1].op == "deref":
                    x = L(root[1].args[0])
                else:
                    x = L(mk("ref", root, path))
                n = x if n is None else ite(g, x, n)
            return n
        if k == "cast":
            a = self.operand(st, fr, body, rv[2])
            if len(rv) > 5 and rv[5] is not None:
                if self.t(rv[3])["k"] == "closure":
                    return L(mk("clofn", rv[5]))
                return L(mk("fnv", rv[5]))
            return self.cast(st, rv[1], a, rv[3], rv[4])
        if k == "discr":
            c, _ = self.readplace(st, fr, body, rv[1])
            d = self.discr_of(c)
            return restrict(d, st.pc)
        if k == "agg":
            vals = [self.operand(st, fr, body, o) for o in rv[4]]
            t = self.t(rv[2])
            if rv[1] == "array":
                if not vals:
                    return AV(L(mk("emptyarr")), None, (), rv[2])
                return AV(None, tuple(vals), (), rv[2])
            if rv[1] in ("tuple", "closure"):
                return SV({str(i): v for i, v in enumerate(vals)}, None, rv[2])
            if rv[1] == "adt":
                if self.is_atomic(rv[2]):
                    return vals[0] if len(vals) == 1 and isinstance(vals[0], Node) else self.freshsym("agg", rv[2])
                var = t["variants"][rv[3]]
                fs = {f[0]: v for f, v in zip(var["fields"], vals)}
                if t["kind"] == "enum":
                    return EV(D(int(var["discr"])), {rv[3]: fs} if fs else {}, None, rv[2])
                return SV(fs, None, rv[2])
            return self.freshsym("agg", rv[2])
        if k == "repeat":
            v = self.operand(st, fr, body, rv[1])
            return AV(None, ("rep", v), (), dty)
        return self.freshsym("rv", dty)

    def ptrmeta(self, st, a, pty):
        to = self.t(pty).get("to")
        res = None
        for g, r, p in reversed(self.deref(st, a, to)):
            c = self.rd(self.root_get(st, r), p)
            n = self.lenof(c)
            res = n if res is None else ite(g, n, res)
        return res

    # ---- loops
    def cfg(self, inst):
        r = self.p.loops_cache.get(inst["id"])
        if r is None:
            r = self.p.loops_cache[inst["id"]] = analyse_cfg(inst["body"])
        return r

    def note(self, kind, st, args, site, ops=None):
        e = Effect()
        e.kind, e.guard, e.args, e.site = kind, st.pc, args, site
        e.stack = tuple(self.stack)
        e.loops = tuple(self.loopstack)
        e.seq = len(self.effects)
        e.ops = ops
        self.effects.append(e)
        return e

    def propagated(self, inst, t):
        """is the result of this call only propagated with `?` or returned"""
        dest, target = t[3], t[4]
        if len(dest) != 1 or target is None:
            return False
        d = dest[0]
        b = target
        for _ in range(4):
            blk = inst["body"][b]
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1].get("p") == [d]:
                    if len(s[1]) != 1:
                        return False
                    d = s[1][0]
                elif mentions(s, d):
                    return False
            k = blk["t"][0]
            if k[0] == "call":
                return k[1].get("path") == "std::ops::Try::branch" and k[2][0].get("p") == [d]
            if k[0] == "return":
                return d == 0
            if k[0] == "goto":
                b = k[1]
            elif k[0] == "drop":
                b = k[2]
            else:
                return False
        return False

    def is_result(self, ty):
        t = self.t(ty)
        return t["k"] == "adt" and t["path"] == "std::result::Result" and self.t(t["args"][1])["s"].endswith("anchor_lang::error::Error")

    def call_inst(self, st, inst, args, site=None, prop=False):
        """inline inst; -> (state or None, return cell)"""
        saved = self.abort
        self.abort = saved and prop
        try:
            return self.call_inst_(st, inst, args, site)
        finally:
            self.abort = saved

    def call_inst_(self, st, inst, args, site=None):
        if len(self.stack) > self.maxdepth or self.stack.count(inst["path"]) > 3:
            raise Unsupported("inline depth at " + inst["path"])
        self.frame_no += 1
        fr = self.frame_no
        self.inlined.add(inst["id"])
        n = inst["nargs"]
        st.fr[fr] = {}
        if len(args) != n:
            if inst.get("spread") is not None or "{closure" in inst["path"]:
                # rust-call: last argument is a tuple of the real arguments
                if inst.get("spread") is None:
                    tup = args[-1]
                    tys = [inst["locals"][i][0] for i in range(len(args), n + 1)]
                    args = list(args[:-1]) + [self.field(tup, str(i), ty) for i, ty in enumerate(tys)]
                else:
                    k = inst["spread"]
                    extra = args[k - 1:]
                    args = list(args[:k - 1]) + [SV({str(i): v for i, v in enumerate(extra)}, None, inst["locals"][k][0])]
            if len(args) != n:
                raise Unsupported("arity %s %d %d" % (inst["path"], len(args), n))
        for i, a in enumerate(args):
            st.fr[fr][i + 1] = a
        self.stack.append(inst["path"])
        outs = self.region(inst, fr, {0: [st]}, None)
        self.stack.pop()
        rets = outs.get("ret", [])
        s = self.joinstates(rets)
        if s is None:
            return None, None
        rv = s.fr[fr].get(0)
        if rv is None:
            rv = self.undef(inst["locals"][0][0])
        del s.fr[fr]
        return s, rv

    def region(self, inst, fr, incoming, loop):
        """evaluate the blocks of a function body, or of one loop of it"""
        order, loops, inloop = self.cfg(inst)
        body = inst["body"]
        outs = {}
        inc = {k: list(v) for k, v in incoming.items()}
        inside = loops[loop] if loop is not None else None
        first = True
        skip = set()
        for b in order:
            if inside is not None and b not in inside:
                continue
            if b in skip or b not in inc:
                continue
            if b in loops and b != loop:
                st = self.joinstates(inc[b])
                if st is None:
                    skip |= loops[b]
                    continue
                res = self.do_loop(inst, fr, b, st)
                skip |= loops[b]
                for tgt, sts in res.items():
                    if tgt == "ret":
                        outs.setdefault("ret", []).extend(sts)
                    elif inside is not None and (tgt not in inside or tgt == loop):
                        outs.setdefault(tgt, []).extend(sts)
                    else:
                        inc.setdefault(tgt, []).extend(sts)
                continue
            st = self.joinstates(inc[b])
            if st is None:
                continue
            for tgt, s in self.block(inst, fr, b, st):
                if s is None or s.pc is DF:
                    continue
                if tgt == "ret":
                    outs.setdefault("ret", []).append(s)
                elif inside is not None and (tgt not in inside or tgt == loop):
                    outs.setdefault(tgt, []).append(s)
                else:
                    inc.setdefault(tgt, []).append(s)
        return outs

    def unrolled(self, inst, fr, h, st):
        """the executions that pass the head of the loop at most peel + 1 times, exactly"""
        outs = {}
        for i in range(self.peel + 1):
            self.loopstack.append(((inst["id"], h, i), inst["path"], h))
            o = self.region(inst, fr, {h: [st]}, h)
            self.loopstack.pop()
            backs = o.pop(h, [])
            for k, v in o.items():
                outs.setdefault(k, []).extend(v)
            st = self.joinstates(backs)
            if st is None:
                break
        else:
            self.cut += 1
        return outs

    def do_loop(self, inst, fr, h, st0):
        if self.peel is not None:
            return self.unrolled(inst, fr, h, st0)
        key = (inst["id"], h, len(self.stack), self.frame_no)
        site = self.p.loc(inst["body"][h]["t"][1])
        havoc = {}
        rels = {}
        tried = not self.affine
        known, facts = set(terms._nn), list(terms._facts)
        signs = None if self.ninv else set()
        fresh0, frame0 = self.fresh, self.frame_no
        for it in range(14):
            self.fresh, self.frame_no = fresh0, frame0
            st = st0.copy()
            for (root, path), ty in havoc.items():
                self.apply_havoc(st, root, path, key)
            for (root, path), e in rels.items():
                self.root_set(st, root, self.wr(self.root_get(st, root), path, e))
            terms._nn.clear()
            terms._nn.update(known)
            terms._facts[:] = facts
            terms.forget()
            for k in signs or ():
                x = self.rd(self.root_get(st, k[0]), k[1]).leaf
                terms._nn.add(x)
                if x.op == "poly":
                    terms._facts.append(x)
            head = st.copy()
            marks = [len(x) for x in (self.effects, self.loopinfos, self.panics, self.ovf, self.errcut, self.relations)]
            ne = marks[0]
            self.loopstack.append((key, inst["path"], h))
            outs = self.region(inst, fr, {h: [st]}, h)
            self.loopstack.pop()
            backs = outs.pop(h, [])
            back = self.joinstates([s.copy() for s in backs])
            new = {}
            if back is not None:
                self.diff(head, back, new)
            new = {k: v for k, v in new.items() if k not in havoc}
            if self.trace:
                print("loop", site, it, [self.locname(st0, *k) for k in new])
            if not new:
                if back is None:
                    break
                bad = [k for k in rels if not self.rel_holds(k, rels[k], head, back)]
                if not bad and tried:
                    if signs is None:
                        signs = self.find_signs(st0, head, havoc)
                        if not signs:
                            break
                    else:
                        neg = [k for k in signs if AND(back.pc, apply(lt0, self.rd(self.root_get(back, k[0]), k[1]))) is not DF]
                        if not neg:
                            break
                        if self.trace:
                            print('signs lost', [(self.locname(st0, *k), showd(self.rd(self.root_get(back, k[0]), k[1]), 2)[:6000]) for k in neg])
                        signs -= set(neg)
                if bad:
                    for k in bad:
                        del rels[k]
                elif not tried:
                    tried = True
                    rels = self.find_affine(st0, head, back, havoc)
                    if not rels and signs is not None:
                        break
            havoc.update(new)
            # drop paths below a havocked prefix
            for (r, p) in list(havoc):
                for n in range(len(p)):
                    if (r, p[:n]) in havoc:
                        havoc.pop((r, p), None)
                        break
            for x, n in zip((self.effects, self.loopinfos, self.panics, self.ovf, self.errcut, self.relations), marks):
                del x[n:]
        else:
            raise Unsupported("loop at %s does not stabilise" % site)
        li = LoopInfo()
        li.key, li.fn, li.site = key, inst["path"], site
        li.entry, li.head, li.back, li.exits = st0, head, back, outs
        li.backs = backs
        li.effects = self.effects[ne:]
        li.phis = list(havoc)
        li.stack = tuple(self.stack)
        li.pc0 = st0.pc
        self.loopinfos.append(li)
        for k, e in rels.items():
            self.relations.append((site, self.locname(st0, *k), e))
        return outs

    # affine relations (Karr): deltas of the loop variables over one iteration, as polynomials;
    # variables whose delta is a linear combination of the deltas of others are expressed by them
    def numeric_paths(self, st, root, path, out, exprs=False):
        if root[0] == "loc" and root[1] not in st.fr:
            return
        c = self.rd(self.root_get(st, root), path)

        def go(c, path):
            if isinstance(c, Node):
                if c.leaf is not None and isarith(c.leaf) and (exprs or c.leaf.op in ("phi", "fld")):
                    out.append((root, path, c.leaf))
            elif isinstance(c, SV):
                for k, v in c.f.items():
                    if not str(k).startswith("cast:"):
                        go(v, path + (("f", k, None, None),))
        go(c, path)

    def find_signs(self, st0, head, havoc):
        """loop variables that are not negative before the loop: candidates for staying so"""
        vs = []
        for root, path in havoc:
            self.numeric_paths(head, root, path, vs, True)
        out = set()
        for root, path, x in vs:
            try:
                v = self.rd(self.root_get(st0, root), path)
            except (Unsupported, KeyError):
                continue
            if isinstance(v, Node) and not nonneg(x) and all(isarith(l) for l in leaves(v)) and AND(st0.pc, apply(lt0, v)) is DF:
                out.add((root, path))
        return out

    def find_affine(self, st0, head, back, havoc):
        vs = []
        for root, path in havoc:
            self.numeric_paths(head, root, path, vs)
        vs.sort(key=lambda x: 0 if x[0] == ("obj", "ghost") else 1 if x[0][0] == "loc" else 2 if x[0][0] == "obj" else 3)
        vs = vs[:36]
        if len(vs) < 2:
            return {}
        deltas = []
        for root, path, ph in vs:
            b = self.rd(self.root_get(back, root), path)
            if not isinstance(b, Node):
                return {}
            deltas.append(apply(lambda x: psub(x, ph), restrict(b, back.pc)))
        n = 1
        rows = set()
        DEAD = mk("dead")
        tup = apply(lambda *xs: mk("tup", *xs), *deltas)
        tup = ite(back.pc, tup, L(DEAD))
        for l in leaves(tup):
            if l is DEAD:
                continue
            ps = [topoly(x) for x in l.args]
            for m_ in set(k for p in ps for k in p):
                rows.add(tuple(p.get(m_, 0) for p in ps))
        piv, R = rref([list(r) for r in rows if any(r)], len(vs))
        rels = {}
        for j, (root, path, ph) in enumerate(vs):
            if j in piv or root == ("obj", "ghost"):
                continue
            cs = [(R[k][j], piv[k]) for k in range(len(piv)) if R[k][j]]
            if any(c.denominator != 1 for c, _ in cs):
                continue
            try:
                e = self.rd(self.root_get(st0, root), path)
                for c, k in cs:
                    e0 = self.rd(self.root_get(st0, vs[k][0]), vs[k][1])
                    e = apply(lambda x, y: padd(x, psub(vs[k][2], y), int(c)), e, e0)
            except (Unsupported, KeyError):
                continue
            rels[(root, path)] = e
        return rels

    def rel_holds(self, k, e, head, back):
        root, path = k
        b = self.rd(self.root_get(back, root), path)
        # the expression with the variables replaced by their values after the iteration
        sub = {}
        for r2, p2 in set((r, p) for r, p, _ in self.rel_vars(head, e)):
            pass
        vals = {ph: self.rd(self.root_get(back, r2), p2) for r2, p2, ph in self.rel_vars(head, e)}

        def f(x):
            r = L(num(0))
            for m_, c in topoly(x).items():
                t = D(c)
                for a in m_:
                    t = apply(pmul, t, vals.get(a, L(a)))
                r = apply(padd, r, t)
            return r
        want = apply(f, e)
        d = apply(psub, restrict(b, back.pc), want)
        return ite(back.pc, d, D(0)) is D(0)

    def rel_vars(self, head, e):
        phis = set()
        for l in leaves(e):
            for m_ in topoly(l):
                phis.update(a for a in m_)
        out = []
        for k, c in self._phi_index(head):
            if c in phis:
                out.append((k[0], k[1], c))
        return out

    def _phi_index(self, head):
        res = []

        def go(root, c, path):
            if isinstance(c, Node):
                if c.leaf is not None and c.leaf.op in ("phi", "fld"):
                    res.append(((root, path), c.leaf))
            elif isinstance(c, SV):
                for k, v in c.f.items():
                    if not str(k).startswith("cast:"):
                        go(root, v, path + (("f", k, None, None),))
        for fr in head.fr:
            for k, c in head.fr[fr].items():
                go(("loc", fr, k, None), c, ())
        for r, c in head.ob.items():
            go(r, c, ())
        return res

    def apply_havoc(self, st, root, path, key):
        if root[0] == "loc" and root[1] not in st.fr:
            return
        old = self.rd(self.root_get(st, root), path)
        name = self.locname(st, root, path)
        t = mk("phi", key, name)
        new = self.havoc_like(old, t)
        self.root_set(st, root, self.wr(self.root_get(st, root), path, new))

    def havoc_like(self, old, t):
        if isinstance(old, Node):
            for l in leaves(old):
                if l.ty in BITS:
                    t.ty = l.ty
                    break
                if l in (TRUE, FALSE):
                    return atom(t)
            if t.ty is None and any(l.op in ("int", "poly") for l in leaves(old)):
                t.ty = "i64"
            return L(t)
        if isinstance(old, AV):
            return AV(L(t), None, (), old.ty)
        if isinstance(old, (Sym, EV)):
            return Sym(L(t), old.ty)
        if isinstance(old, SV):
            return SV({k: self.havoc_like(v, mk("fld", t, k)) for k, v in old.f.items()}, L(t) if old.base is not None else None, old.ty)
        raise Unsupported("havoc %s" % type(old))

    def locname(self, st, root, path):
        p = "".join("." + str(e[1]) if e[0] == "f" else "[..]" if e[0] == "i" else ":" + str(e[1]) if e[0] in "cu" else "[sub]" for e in path)
        if root[0] == "loc":
            return "f%d._%d%s" % (root[1], root[2], p)
        return "%s%s" % (show(root[1]) if isinstance(root[1], T) else str(root), p)

    def diff(self, a, b, out):
        for fr in a.fr:
            x, y = a.fr[fr], b.fr.get(fr)
            if y is None:
                continue
            for k in x:
                if k in y and not same(x[k], y[k]):
                    self.celldiff(x[k], y[k], ("loc", fr, k, None), (), out)
        for r in b.ob:
            y = b.ob[r]
            x = a.ob.get(r)
            if x is None:
                x = self.obj_default(r)
                if x is None:
                    continue
            if not same(x, y):
                self.celldiff(x, y, r, (), out)

    def celldiff(self, x, y, root, path, out):
        if same(x, y):
            return
        if isinstance(x, (Sym, SV)) and isinstance(y, SV) and (x.base is y.base):
            ty = y.ty if y.ty is not None else x.ty
            fx = x.f if isinstance(x, SV) else {}
            keys = list(dict.fromkeys(list(fx) + list(y.f)))
            tys = {k: self.like_ty(ty, None, k, y.f.get(k, fx.get(k))) for k in keys}
            if all(v is not None or k in fx and k in y.f for k, v in tys.items()):
                for k in keys:
                    cx = fx[k] if k in fx else self.field(x, k, tys[k]) if not str(k).startswith("cast:") else self.castview(x, k[5:], tys[k])
                    cy = y.f[k] if k in y.f else self.field(y, k, tys[k])
                    e = ("c", k[5:], tys[k]) if isinstance(k, str) and k.startswith("cast:") else ("f", k, tys[k], None)
                    self.celldiff(cx, cy, root, path + (e,), out)
                return
        if isinstance(x, EV) and isinstance(y, EV) and x.d is y.d and x.base is y.base and x.ty is not None:
            for v in set(x.p) | set(y.p):
                for k in set(x.p.get(v, {})) | set(y.p.get(v, {})):
                    cx, cy = x.p.get(v, {}).get(k), y.p.get(v, {}).get(k)
                    if cx is None or cy is None:
                        out[(root, path)] = 1
                        return
                    self.celldiff(cx, cy, root, path + (("f", k, self.like_ty(x.ty, v, k, cx), v),), out)
            return
        out[(root, path)] = 1

    # ---- blocks
    def block(self, inst, fr, b, st):
        body = inst
        blk = inst["body"][b]
        st = st.copy() if False else st
        self.nblocks += 1
        for s in blk["s"]:
            if s[0] == "=":
                tg, ty = self.place(st, fr, body, s[1])
                v = self.rvalue(st, fr, body, s[2], ty)
                self.write(st, tg, v)
            elif s[0] == "setd":
                tg, ty = self.place(st, fr, body, s[1])
                c = self.read(st, tg)
                var = self.t(ty)["variants"][s[2]]
                if isinstance(c, EV):
                    c = EV(D(int(var["discr"])), c.p, c.base, c.ty)
                else:
                    c = EV(D(int(var["discr"])), {}, c.base if isinstance(c, Sym) else None, ty)
                self.write(st, tg, c)
        t, sp = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            if self.abort and self.is_result(inst["locals"][0][0]):
                r = st.fr[fr].get(0)
                if isinstance(r, (EV, Sym)):
                    ok = apply(lambda x: eq(x, ZERO), self.discr_of(r))
                    bad = AND(st.pc, NOT(ok))
                    if bad is not DF:
                        self.errcut.append((bad, self.p.loc(sp), inst["path"]))
                        st.pc = AND(st.pc, ok)
                        if st.pc is DF:
                            return []
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k in ("unreachable", "unwind"):
            return []
        if k == "assert":
            return [(t[3], st)]
        if k == "switch":
            d = self.operand(st, fr, body, t[1])
            tt = self.t(t[2])
            if not isinstance(d, Node):
                d = self.discr_of(d)
            res = []
            rest = st.pc
            groups = {}
            for v, tb in t[3]:
                v = int(v)
                if tt["k"] == "bool":
                    g = d if v else NOT(d)
                else:
                    g = apply(lambda x: eq(x, num(v)), d)
                cond = AND(rest, g)
                if cond is not DF:
                    groups[tb] = OR(groups.get(tb, DF), cond)
                rest = AND(rest, NOT(g))
            if rest is not DF:
                groups[t[4]] = OR(groups.get(t[4], DF), rest)
            n = len(groups)
            for i, (tb, cond) in enumerate(groups.items()):
                s = st.copy() if i < n - 1 else st
                if i < n - 1:
                    pass
                s.pc = cond
                res.append((tb, s))
            # the copies above were taken before st.pc was overwritten for the last one
            return res
        if k == "call":
            return self.call(inst, fr, st, t, sp)
        raise Unsupported("terminator " + k)

    def is_opaque(self, f):
        k = f["full"] if "full" in f else f["path"]
        r = self.opq_cache.get(k)
        if r is None:
            r = self.opq_cache[k] = any(x.search(f["path"]) or x.search(f.get("rpath", "")) for x in self.opaque)
        return r

    def call(self, inst, fr, st, t, sp):
        f, args, dest, target, dty = t[1], t[2], t[3], t[4], t[5]
        site = self.p.loc(sp)
        if f["kind"] == "indirect":
            fv = self.operand(st, fr, inst, f["op"])
            vals = [self.operand(st, fr, inst, a) for a in args]
            s, rv = self.call_value(st, fv, vals, dty, site)
        else:
            if self.hooks:
                for rx, hook in self.hooks:
                    if rx.search(f["path"]) or rx.search(f.get("rpath") or ""):
                        vals = [self.operand(st, fr, inst, a) for a in args]
                        hook(self, st, f, vals, site, [self.optype(inst, a) for a in args])
            model = self.model_for(f)
            if model is None and not self.is_opaque(f) and f["inst"] is not None and self.p.insts[f["inst"]].get("body"):
                ci = self.p.insts[f["inst"]]
                vals = [self.operand(st, fr, inst, a) for a in args]
                if f["path"].startswith("std::ops::Fn") and "{closure" in ci["path"]:
                    tup = vals[1]
                    vals = [self.closure_self(st, ci, vals[0])] + [self.field(tup, str(i), ci["locals"][i + 2][0]) for i in range(ci["nargs"] - 1)]
                s, rv = self.call_inst(st, ci, vals, site, self.propagated(inst, t))
            else:
                if model is not None:
                    lazy = getattr(model, "lazy", False)
                    vals = None if lazy else [self.operand(st, fr, inst, a) for a in args]
                    C = Call(self, st, f, vals, dty, site, [self.optype(inst, a) for a in args], inst)
                    rv = model(C)
                    s = C.st
                    if rv is NotImplemented and f["inst"] is not None and self.p.insts[f["inst"]].get("body") and not self.is_opaque(f):
                        s, rv = self.call_inst(C.st, self.p.insts[f["inst"]], vals, site)
                    elif rv is NotImplemented:
                        s, rv = self.opaque_call(st, f, vals, dty, site, [self.optype(inst, a) for a in args])
                else:
                    vals = [self.operand(st, fr, inst, a) for a in args]
                    s, rv = self.opaque_call(st, f, vals, dty, site, [self.optype(inst, a) for a in args])
        if s is None or target is None:
            return []
        tg, ty = self.place(s, fr, inst, dest)
        self.write(s, tg, rv)
        return [(target, s)]

    def call_value(self, st, fv, vals, dty, site):
        """call through a function value (diagram of function terms)"""
        fv = restrict(fv, st.pc)
        outs = []
        cs = cubes(fv)
        for n, (lits, leaf) in enumerate(cs):
            g = DT
            for a, v in lits:
                g = AND(g, atom(a) if v else NOT(atom(a)))
            s = st.copy()
            s.pc = AND(st.pc, g)
            if s.pc is DF:
                continue
            if leaf.op == "fnv" and self.p.insts[leaf.args[0]].get("body"):
                s2, rv = self.call_inst(s, self.p.insts[leaf.args[0]], list(vals), site)
            elif leaf.op == "clofn" and self.p.insts[leaf.args[0]].get("body"):
                s2, rv = self.call_inst(s, self.p.insts[leaf.args[0]], [SV({}, None, None)] + list(vals), site)
            else:
                s2, rv = s, self.freshsym("indirect", dty)
                UNKNOWN.add(mk("fresh", "indirect", self.fresh))
            if s2 is not None:
                outs.append((s2, rv))
        if not outs:
            return None, None
        st2, rv = outs[0]
        for s3, r3 in outs[1:]:
            g = restrict(st2.pc, OR(st2.pc, s3.pc))
            rv = self.join(rv, r3, g)
            st2 = self.joinstates([st2, s3])
        return st2, rv

    def call_closure(self, st, clo, cloty, args, site, byref=True):
        """call a closure value; cloty its type id"""
        t = self.t(cloty)
        if t["k"] == "ref":
            t = self.t(t["to"])
        n = t.get("inst")
        if n is not None and self.p.insts[n].get("body"):
            c = [self.p.insts[n]]
        else:
            c = [i for i in self.p.by_path.get(t["path"], []) if i.get("body") and not i["kind"].startswith("Shim")]
        if t["k"] == "fndef":
            if c:
                return self.call_inst(st, c[0], list(args), site)
            return st, None
        if not c:
            return st, None
        inst = c[0]
        selfv = self.closure_self(st, inst, clo)
        if inst["nargs"] != 1 + len(args):
            tup = SV({str(i): v for i, v in enumerate(args)}, None, None)
            return self.call_inst(st, inst, [selfv, tup], site)
        return self.call_inst(st, inst, [selfv] + list(args), site)

    def closure_self(self, st, inst, clo):
        a1 = self.t(inst["locals"][1][0])
        if a1["k"] != "ref" or (isinstance(clo, Node) and any(l.op == "ref" for l in leaves(clo))):
            return clo
        root = ("obj", "clo%d" % self.nextid())
        st.ob[root] = clo
        return L(mk("ref", root, ()))

    def nextid(self):
        self.fresh += 1
        return self.fresh

    def model_for(self, f):
        k = f.get("full") or f["path"]
        r = self.mcache.get(k, 0)
        if r != 0:
            return r
        r = None
        for rx, m in self.xmodels + self.models:
            if rx.search(k) or (f.get("rpath") and rx.search(f["rpath"])):
                r = m
                break
        self.mcache[k] = r
        return r

    def deepterm(self, st, c, ty=None, depth=0):
        """a term naming the value of a cell (following references), for opaque calls"""
        if isinstance(c, Node):
            c = restrict(c, st.pc)

            def f(x):
                if x.op == "ref":
                    if depth > 3:
                        return mk("refto", str(x.args[0]), str(x.args[1]))
                    try:
                        return self.deepterm(st, self.rd(self.root_get(st, x.args[0]), x.args[1]), None, depth + 1)
                    except Unsupported:
                        return mk("refto", str(x.args[0]), str(x.args[1]))
                return x
            r = apply(f, c)
            return r
        if isinstance(c, Sym):
            return c.base
        if isinstance(c, SV):
            ks = list(c.f)
            parts = [self.deepterm(st, c.f[k], None, depth + 1) for k in ks]
            if c.base is not None:
                ks = ["*"] + ks
                parts = [c.base] + parts
            if not parts:
                return L(mk("unit"))
            if sum(len(leaves(p)) for p in parts) > 40:
                return L(mk("big", self.nextid()))
            return apply(lambda *xs: mk("agg", *[z for k, x in zip(ks, xs) for z in (k, x)]), *parts)
        if isinstance(c, EV):
            parts = [c.d]
            ks = ["d"]
            for v in sorted(c.p):
                for k in c.p[v]:
                    ks.append("%s.%s" % (v, k))
                    parts.append(self.deepterm(st, c.p[v][k], None, depth + 1))
            if sum(len(leaves(p)) for p in parts) > 40:
                return L(mk("big", self.nextid()))
            return apply(lambda *xs: mk("agg", *[z for k, x in zip(ks, xs) for z in (k, x)]), *parts)
        if isinstance(c, AV):
            if c.base is not None and not c.w:
                return c.base
            if c.lit and c.lit[0] != "rep" and not c.w and len(c.lit) <= 40:
                parts = [self.deepterm(st, x, None, depth + 1) for x in c.lit]
                return apply(lambda *xs: mk("lit", *xs), *parts)
            if c.lit and c.lit[0] == "rep" and not c.w:
                return apply(lambda x: mk("rep", x), self.deepterm(st, c.lit[1], None, depth + 1))
            return self._name(c)
        return L(mk("opq", self.nextid()))

    def opaque_call(self, st, f, vals, dty, site, atys):
        name = f["path"]
        self.unmodelled[f.get("full", name)] = self.unmodelled.get(f.get("full", name), 0) + 1
        fallible = self.t(dty).get("path") == "std::result::Result"
        known = self.is_opaque(f)       # left out on purpose: the rules speak about its results
        e = self.note("call", st, (name,) + tuple(vals), site, f)
        hasmut = False
        for v, ty in zip(vals, atys):
            t = self.t(ty) if ty is not None else {}
            if t.get("k") in ("ref", "ptr") and t.get("mut"):
                hasmut = True
        parts = [self.deepterm(st, v) for v in vals]
        n = 1
        for p in parts:
            n *= max(1, len(leaves(p)))
        if n > 64:
            res = self.freshsym("call:" + name, dty)
            if not known:
                UNKNOWN.add(mk("fresh", "call:" + name, self.fresh))
                if fallible:
                    FALLIBLE.add(mk("fresh", "call:" + name, self.fresh))
        else:
            nid = self.nextid() if hasmut else 0
            gens = tuple(f.get("gen", ()))

            def mkc(*xs):
                r = mk("call", name, gens, nid, *xs)
                if not known:
                    UNKNOWN.add(r)
                    if fallible:
                        FALLIBLE.add(r)
                return r
            base = apply(mkc, *parts) if parts else L(mkc())
            res = self.sym(base, dty)
        e.args = e.args + ("=>", res)
        # havoc through &mut
        for v, ty in zip(vals, atys):
            t = self.t(ty) if ty is not None else {}
            if t.get("k") in ("ref", "ptr") and t.get("mut") and isinstance(v, Node):
                for g, r, p in self.deref(st, v, t["to"]):
                    try:
                        old = self.rd(self.root_get(st, r), p)
                    except Unsupported:
                        continue
                    hv = mk("havoc", name, self.nextid())
                    if not known:
                        UNKNOWN.add(hv)
                    new = self.havoc_like(old, hv)
                    self.write(st, [(g, r, p)] if g is DT else [(g, r, p), (DF, r, p)], new)
        if "!" == self.t(dty)["s"]:
            return None, None
        return st, res

    # ---- roots
    def run(self, inst, args=None, setup=None, pc=DT):
        st = State(pc, {}, {})
        if args is None:
            args = []
            for i in range(inst["nargs"]):
                ty, nm = inst["locals"][i + 1]
                args.append(self.argsym(st, nm or "a%d" % i, ty))
        if setup:
            setup(self, st, args)
        s, rv = self.call_inst(st, inst, args, None, True)
        return s, rv

    def argsym(self, st, name, ty):
        t = self.t(ty)
        if t["k"] == "ref":
            to = t["to"]
            tt = self.t(to)
            root = ("obj", name)
            st.ob[root] = self.sym(L(mk("sym", name)), to)
            return L(mk("ref", root, ()))
        return self.sym(L(mk("sym", name)), ty)


def mentions(s, d):
    def go(x):
        if isinstance(x, dict):
            return any(go(v) for k, v in x.items() if k in ("p",)) or (x.get("p") or [None])[0] == d
        if isinstance(x, list):
            return any(go(v) for v in x)
        return False
    return (isinstance(s[1], list) and s[1] and s[1][0] == d) or go(s[2:])


def rref(rows, n):
    """reduced row echelon form over the rationals; -> (pivot columns, rows)"""
    rows = [[Fraction(x) for x in r] for r in rows]
    piv, out = [], []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        d = rows[r][c]
        rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                k = rows[i][c]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    return piv, rows[:r]


class Call:
    """context handed to a model"""

    def __init__(self, E, st, f, args, dty, site, atys, inst):
        self.E, self.st, self.f, self.args, self.dty, self.site, self.atys, self.inst = E, st, f, args, dty, site, atys, inst

    def ty(self, s):
        return self.E.p.tyid[s]

    def pointee(self, i):
        return self.E.t(self.atys[i]).get("to")

    def load(self, i):
        """value behind the reference argument i"""
        return self.E.load(self.st, self.args[i], self.pointee(i))

    def store(self, i, v):
        self.E.store(self.st, self.args[i], self.pointee(i), v)

    def some(self, v):
        t = self.E.t(self.dty)
        return EV(D(1), {1: {"0": v}}, None, self.dty)

    def none(self):
        return EV(D(0), {}, None, self.dty)

    def ok(self, v):
        return EV(D(0), {0: {"0": v}}, None, self.dty)

    def opt(self, cond, v):
        """Some(v) if cond else None"""
        return EV(ite(cond, D(1), D(0)), {1: {"0": v}}, None, self.dty)

    def payload(self, variant=1):
        t = self.E.t(self.dty)
        return t["variants"][variant]["fields"][0][1]


def deref(t):
    """what t points to; the key field of an account points to its key"""
    if t.op == "fld" and t.args[1] == "key" and t.args[0].op == "acc":
        return mk("keyof", t.args[0])
    return mk("deref", t)


def analyse_cfg(body):
    n = len(body)
    succ = []
    for b in body:
        t = b["t"][0]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[3]] + [t[4]]
        elif k == "drop":
            s = [t[2]]
        elif k == "assert":
            s = [t[3]]
        elif k == "call":
            s = [t[4]] if t[4] is not None else []
        else:
            s = []
        succ.append(list(dict.fromkeys(s)))
    # iterative DFS postorder
    color = [0] * n
    post = []
    backs = []
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        v, it = stack[-1]
        for w in it:
            if color[w] == 0:
                color[w] = 1
                stack.append((w, iter(succ[w])))
                break
            elif color[w] == 1:
                backs.append((v, w))
        else:
            color[v] = 2
            post.append(v)
            stack.pop()
    order = post[::-1]
    pred = [[] for _ in range(n)]
    for v in order:
        for w in succ[v]:
            pred[w].append(v)
    loops = {}
    for v, h in backs:
        s = loops.setdefault(h, {h})
        wl = [v]
        while wl:
            x = wl.pop()
            if x in s:
                continue
            s.add(x)
            wl.extend(pred[x])
    # blocks outside the loop must come after it: stable order with loops contiguous
    inloop = {}
    for h, s in loops.items():
        for x in s:
            inloop.setdefault(x, []).append(h)
    return order, loops, inloop
