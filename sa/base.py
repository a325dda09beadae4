"""Obligations, reporting and the runs the rules share."""
import json
import os
import re
import time
from terms import *
import engine as EN
from engine import Engine, Prog, Missing, Unsupported, SV, EV, AV, Sym
import interp
import extract
import models
import terms

terms.mark()

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FNS = "state::orderbook::book::Orderbook::<'a>::"
BOOK = [r"state::orderbook::bookside::BookSide::(?!side$)", r"BookSideIter.*::next$"]
ORACLE = [r"Market::oracle_price_lots"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Obligation:
    __slots__ = ("rule", "inst", "status", "site", "text", "detail")


class Check:
    """one run of one property"""

    def __init__(self, prop, prog=None):
        self.prop = prop
        self.P = prog or Prog(extract.dump())
        self.obs = []
        self.counts = {}
        self.fns = set()
        self.runs = 0
        self.t0 = time.time()
        self.assume = []
        self.entries = {}
        self.notes = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def require(self, cond, msg):
        if not cond:
            raise Missing(msg)

    def engine(self, opaque=(), **kw):
        E = Engine(self.P, opaque=opaque)
        for k, v in kw.items():
            setattr(E, k, v)
        self.runs += 1
        return E

    def done(self, E):
        self.fns |= E.inlined
        self.count("blocks evaluated", E.nblocks)
        self.count("effects", len(E.effects))
        self.count("loops summarised", len(E.loopinfos))

    def ob(self, rule, inst, status, site="", text="", detail=None):
        o = Obligation()
        o.rule, o.inst, o.status, o.site, o.text, o.detail = rule, inst, status, site, text, detail
        self.obs.append(o)
        return o

    minima = False      # try to resolve minima by cases
    only = None         # (rule, instance) pairs of interest
    seconds = 6.0       # for the search of one counterexample

    def never(self, rule, inst, bad, E=None, site="", text="", show_=(), seconds=None, assume=()):
        """obligation: the diagram `bad` has no interpretation"""
        seconds = seconds or self.seconds
        if self.only is not None and (rule, inst) not in self.only:
            return self.ob(rule, inst, "skipped", site, text)
        for a in list(assume):
            bad = AND(bad, a)
        if bad is not DF:
            bad = closure(propagate(bad))
        if bad is not DF and self.minima:
            alt = split(bad)
            bad = DF if alt is DF or closure(alt) is DF else bad
        if bad is DF:
            return self.ob(rule, inst, "proved", site, text)
        facts = E.ovf if E is not None else ()
        M = interp.find(bad, facts, interp.Limits(seconds=seconds, seed=SEED))
        if M is None:
            return self.ob(rule, inst, "undecided", site, text, {"left": showd(bad, 2)[:1500]})
        if UNKNOWN and any(unknown(v) for v in support(bad)):
            # only what does not depend on calls the analysis does not know
            left = settled(bad)
            M = interp.find(left, facts, interp.Limits(seconds=seconds, seed=SEED)) if left is not DF else None
            if M is None:
                return self.ob(rule, inst, "undecided", site, text, {"left": "depends on a call that is not modelled: " + showd(bad, 2)[:1500]})
            bad = left
        lits = []
        n = bad
        while n.leaf is None:
            v = M.boolv(n.var)
            lits.append(("" if v else "not ") + show(n.var)[:200])
            n = n.hi if v else n.lo
        d = {"path": lits[-25:]}
        vals = []
        for s in show_:
            x = s[1]
            try:
                vals.append("%s = %s = %s" % (s[0], M.node(x), showd(x, 1)[:200]))
            except interp.Abort:
                pass
        d["values"] = vals
        d["inputs"] = interp.witness(M, [l for s in show_ for l in leaves(s[1])] + [n_ for n_ in support(bad)][:40])
        return self.ob(rule, inst, "refuted", site, text, d)

    def holds(self, rule, inst, pc, cond, E=None, site="", text="", **kw):
        """obligation: cond wherever pc"""
        return self.never(rule, inst, AND(pc, NOT(cond)), E, site, text, **kw)

    def equal(self, rule, inst, pc, got, want, E=None, site="", text="", **kw):
        """obligation: the two values agree wherever pc"""
        if got is want:
            return self.ob(rule, inst, "proved", site, text)
        if self.only is not None and (rule, inst) not in self.only:
            return self.ob(rule, inst, "skipped", site, text)
        got, want = restrict(got, pc), restrict(want, pc)
        if got is want:
            return self.ob(rule, inst, "proved", site, text)
        n = len(leaves(got)) * len(leaves(want))
        if n > 40000:
            return self.ob(rule, inst, "undecided", site, text, {"left": "%d cases" % n})
        return self.never(rule, inst, AND(pc, NOT(deqb(got, want))), E, site, text, show_=[("got", got), ("want", want)], **kw)

    def fact(self, rule, inst, ok, site="", text="", detail=None):
        return self.ob(rule, inst, "proved" if ok else "refuted", site, text, detail)

    # ---- results
    def bad(self):
        return [o for o in self.obs if o.status == "refuted"]

    def undecided(self):
        return [o for o in self.obs if o.status == "undecided"]


def isbool(n):
    return all(l is TRUE or l is FALSE for l in leaves(n))


def deqb(a, b):
    if isbool(a) and isbool(b):
        return IFF(a, b)
    return deq(a, b)


# ---- arithmetic on diagrams ----------------------------------------------------------------
def add(*xs):
    r = D(0)
    for x in xs:
        r = apply(padd, r, N(x))
    return r


def sub(a, b):
    return apply(psub, N(a), N(b))


def mul(*xs):
    r = D(1)
    for x in xs:
        r = apply(pmul, r, N(x))
    return r


def N(x):
    return D(x) if isinstance(x, int) else L(x) if isinstance(x, T) else x


def dmin(a, b):
    return apply(pmin, N(a), N(b))


def dmax(a, b):
    return apply(pmax, N(a), N(b))


def div(E, a, b, ty="i64"):
    return apply(lambda x, y: E.bitop("Div", x, y, ty), N(a), N(b))


def IS(d, v):
    """discriminant diagram equals v"""
    return apply(lambda x: eq(x, num(v)), d)


def imp(pc, c):
    return AND(pc, NOT(c)) is DF


def get(E, c, path, ty=None):
    """field of a cell by dotted name; 'a.b', '1:x' for field x of variant 1"""
    for nm in path.split("."):
        v = None
        if ":" in nm:
            v, nm = nm.split(":")
            v = int(v)
        fty = E.like_ty(c.ty, v, nm, None) if not isinstance(c, Node) else None
        if fty is None and not isinstance(c, Node):
            raise Missing("field %s of %s" % (nm, E.t(c.ty)["s"] if c.ty is not None else "?"))
        c = E.field(c, nm, fty, v)
    return c


class Entry:
    """analysis of one instruction of the program"""

    def __init__(self, K, name, opaque=None, xmodels=(), setup=None, hooks=(), fresh=True):
        self.K, self.name = K, name
        if fresh:
            terms.reset()
        P = K.P
        E = self.E = K.engine(opaque=(BOOK + ORACLE) if opaque is None else opaque)
        E.xmodels = [(re.compile(a), b) for a, b in xmodels]
        E.hooks = [(re.compile(a), b) for a, b in hooks]
        inst = P.fn("__private::__global::" + name)
        self.st, self.rv = E.run(inst, setup=setup)
        if self.st is None:
            raise Missing("instruction %s never succeeds" % name)
        self.pc = self.st.pc
        K.done(E)
        self.accs = {}
        if E.ctx_accounts is None:
            raise Missing("instruction %s: accounts not recognised" % name)
        for n, c in E.ctx_accounts.f.items():
            if isinstance(c, Node) and c.leaf is not None and c.leaf.op == "acc":
                self.accs[n] = (c.leaf, DT)
            elif isinstance(c, EV):
                x = c.p.get(1, {}).get("0")
                if isinstance(x, Node) and x.leaf is not None:
                    self.accs[n] = (x.leaf, atom(mk("present", x.leaf)))
            elif isinstance(c, Node):
                # boxed, or chosen between outcomes of the same initialisation
                ls = [l for l in leaves(c)]
                self.accs[n] = (ls[0], DT)
        self.types = {}
        for n, (a, _) in self.accs.items():
            s = E.accttypes.get(a)
            if s:
                m = re.search(r"(AccountLoader|Account)<'_, (.*?)>+$", s)
                self.types[n] = m.group(2) if m else s

    def loc(self):
        return self.K.P.loc(self.K.P.fn("__private::__global::" + self.name)["body"][0]["t"][1])

    def acc(self, n):
        if n not in self.accs:
            raise Missing("instruction %s: no account %s" % (self.name, n))
        return self.accs[n][0]

    def of_type(self, suffix):
        return [n for n in self.accs if self.types.get(n, "").endswith(suffix)]

    def one(self, suffix):
        r = self.of_type(suffix)
        if len(r) != 1:
            raise Missing("instruction %s: %d accounts of type %s" % (self.name, len(r), suffix))
        return r[0]

    def key(self, n):
        return L(mk("keyof", self.acc(n)))

    def dataty(self, n):
        s = self.types[n]
        t = self.K.P.tyid.get(s)
        if t is None:
            c = [i for k, i in self.K.P.tyid.items() if k.endswith(s)]
            t = c[0]
        return t

    def old(self, n, path):
        ty = self.dataty(n)
        return get(self.E, self.E.sym(L(mk("data", self.acc(n))), ty), path)

    def cell(self, n, st=None):
        ty = self.dataty(n)
        return self.E.getobj((st or self.st), ("acct", self.acc(n), ty))

    def new(self, n, path, st=None):
        return get(self.E, self.cell(n, st), path)

    def signed(self, n):
        a, p = self.accs[n]
        return AND(p, atom(mk("signed", a)))

    def signers(self):
        return [n for n in self.accs if self.E.accttypes.get(self.accs[n][0], "").startswith("anchor_lang::prelude::Signer")]

    def now(self):
        return L(mk("fld", mk("sysvar", "anchor_lang::prelude::Clock"), "unix_timestamp", ty="i64"))

    def ix(self, path):
        ty = None
        for s, i in self.K.P.tyid.items():
            pass
        c = Sym(L(mk("sym", "ix")), self.ixty())
        return get(self.E, c, path)

    def ixty(self):
        nm = "instruction::" + "".join(w.capitalize() for w in self.name.split("_"))
        t = self.K.P.tyid.get(nm)
        if t is None:
            raise Missing("arguments type " + nm)
        return t

    def transfers(self):
        return [e for e in self.E.effects if e.kind == "transfer"]


class Fn:
    """analysis of one function on its own, for any arguments"""

    def __init__(self, K, path, setup=None, opaque=(), subfacts="sub", pos=(), peel=None, hooks=(), xmodels=(), fresh=True, inst=None, pc=DT):
        if fresh:
            terms.reset()
        self.K, self.path = K, path
        E = self.E = K.engine(opaque=list(opaque))
        terms.POS.update(dict(pos))
        E.subfacts, E.peel, E.ninv = subfacts, peel, bool(pos)
        E.hooks = [(re.compile(a), b) for a, b in hooks]
        E.xmodels = [(re.compile(a), b) for a, b in xmodels]
        self.inst = inst = inst or K.P.fn(path)
        self.names = [inst["locals"][i + 1][1] or "a%d" % i for i in range(inst["nargs"])]
        self.tys = {n: inst["locals"][i + 1][0] for i, n in enumerate(self.names)}
        self.pre = setup

        def su(E, st, args):
            self.args = args
            if setup:
                setup(self, E, st, args)
        self.st, self.rv = E.run(inst, setup=su, pc=pc)
        K.done(E)
        if self.st is None:
            raise Missing("%s never returns" % path)
        self.pc = self.st.pc
        self.loc = K.P.loc(inst["body"][0]["t"][1])

    def ty(self, n):
        t = self.E.t(self.tys[n])
        return t["to"] if t["k"] == "ref" else self.tys[n]

    def old(self, n, path=""):
        c = self.E.sym(L(mk("sym", n)), self.ty(n))
        return get(self.E, c, path) if path else c

    def new(self, n, path=""):
        c = self.st.ob[("obj", n)]
        return get(self.E, c, path) if path else c

    def changes(self, n):
        return changes(self.E, self.old(n), self.new(n))

    def unchanged(self, n, except_, rule, text):
        """of this argument only the listed parts change"""
        left = [c for c in self.changes(n) if not any(c[0] == a or c[0].startswith(a + ".") for a in except_)]
        if not left:
            self.K.ob(rule, n, "proved", self.loc, text)
        for p, a, b in left:
            if isinstance(a, Node) and isinstance(b, Node):
                self.K.equal(rule, "%s %s" % (n, p), self.pc, b, a, self.E, self.loc, text)
            else:
                self.K.fact(rule, "%s %s" % (n, p), False, self.loc, text)


ENTRY_RX = re.compile(r"^__private::__global::([a-z_0-9]+)$")


def entrypoints(P):
    return sorted(m.group(1) for m in (ENTRY_RX.match(p) for p in P.by_path) if m)

ZKEY = mk("zerokey")
terms.mark()


def keyeq(a, b):
    return deq(N(a), N(b))


def isset(x):
    """an optional key that is configured"""
    return NOT(keyeq(x, L(ZKEY)))


def signed_by(e, key):
    """some account of the instruction has signed and has this key"""
    c = DF
    for a in support(e.pc):
        if a.op == "signed":
            c = OR(c, AND(atom(a), keyeq(L(mk("keyof", a.args[0])), key)))
    return c


def owner_or_delegate(e, o):
    ow, de = e.old(o, "owner"), e.old(o, "delegate.key")
    return OR(signed_by(e, ow), AND(isset(de), signed_by(e, de)))


def market_expired(e, m):
    """the market's expiry time is set and has passed"""
    t = e.old(m, "time_expiry")
    return AND(NOT(deq(t, D(0))), dlt(t, e.now()))


ORDER_IX = ("place_order", "place_order_pegged", "place_orders", "cancel_all_and_place_orders", "edit_order", "edit_order_pegged")
CANCEL_IX = ("cancel_order", "cancel_order_by_client_order_id", "cancel_all_orders")


def changes(E, old, new, path=""):
    """parts of a value that differ: (path, old, new)"""
    if EN.same(old, new):
        return []
    ty = getattr(new, "ty", None) or getattr(old, "ty", None)
    t = E.t(ty) if ty is not None and not isinstance(new, Node) else None
    if t and not isinstance(new, (AV, EV)) and t.get("variants") and len(t["variants"]) == 1:
        out = []
        for f in t["variants"][0]["fields"]:
            a, b = E.field(old, f[0], f[1]), E.field(new, f[0], f[1])
            out += changes(E, a, b, path + "." + f[0] if path else f[0])
        return out
    return [(path, old, new)]


def frame(K, e, n, allowed, rule, inst, text, st=None):
    """of this account only the listed parts change"""
    E = e.E
    ty = e.dataty(n)
    old = E.sym(L(mk("data", e.acc(n))), ty)
    new = e.cell(n, st)
    K.require(E.t(ty).get("variants"), "type of account %s" % n)
    left = [c for c in changes(E, old, new) if not any(c[0] == a or c[0].startswith(a + ".") for a in allowed)]
    if not left:
        K.ob(rule, inst, "proved", e.loc(), text)
    for p, a, b in left:
        if isinstance(a, Node) and isinstance(b, Node):
            K.equal(rule, "%s %s" % (inst, p), e.pc, b, a, E, e.loc(), text)
        else:
            K.fact(rule, "%s %s" % (inst, p), False, e.loc(), text)
    return left




def cases(x):
    """the leaves of a diagram with the condition of each"""
    out = {}
    for c, l in cubes(x):
        g = DT
        for v, b in c:
            g = AND(g, atom(v) if b else NOT(atom(v)))
        out[l] = OR(out.get(l, DF), g)
    return [(g, l) for l, g in out.items()]


def logs(e, suffix):
    return [x for x in e.E.effects if x.kind == "log" and x.args[0].endswith(suffix)]
