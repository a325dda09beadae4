"""Analysis of placing an order in the matching engine, one configuration at a time, with counters of what happened.

Counters (all in units the caller of the engine sees): filled base lots and quote lots, quote lots filled against the
own account, rebates granted, number of fills, number of fills queued, number of orders dropped."""
from itertools import zip_longest
from base import *

CONFIGS = [(0, None), (1, None), (2, 0), (2, 2), (2, 4), (3, 0), (3, 2), (3, 4), (4, None)]
PNAME = {0: "market", 1: "ioc", 2: "fixed", 3: "pegged", 4: "fok"}
ONAME = {None: "", 0: " limit", 2: " post-only", 4: " post-only-slide"}
SNAME = ("bid", "ask")


def label(side, params, ooa):
    return "%s %s%s%s" % (SNAME[side], PNAME[params[0]], ONAME[params[1]], "" if ooa else " without account")


# the caller checks the arguments, the market's creation its parameters, the posting of an order its quantity
POSITIVE = {"quantity": 1, "price_lots": 1, "max_base_lots": 0, "max_quote_lots_including_fees": 0,
            "base_lot_size": 1, "quote_lot_size": 1, "taker_fee": 0}


class Event:
    """a fill, or a resting order taken off the book, where it is booked: at once with an account, or put in the queue"""

    def __init__(self, e):
        self.kind, self.site, self.guard = e.kind, e.site, e.guard
        self.ev, self.st, self.how, self.acc, self.accty = e.args

    def old(self, n):
        return self.st.ob[("obj", "ghost")].f[n]


def resting(E, ev, name="maker"):
    """the resting order an event is about: the item of the book it was read from; None if it cannot be told"""
    items = set()
    for l in leaves(get(E, ev, name)):
        t = l
        if t.op == "fld" and t.args[0].op == "deref":
            items.add(t.args[0].args[0])
        else:
            return None
    if len(items) != 1:
        return None
    t = items.pop()
    if t.op == "fld" and t.args[1] == "node":
        return t.args[0]
    return None


def source(v):
    """the resting order a value was read from, None if it cannot be told"""
    bs = set()
    for l in leaves(v):
        if l.op != "fld" or l.args[0].op not in ("deref", "fld", "as"):
            return None
        bs.add(l.args[0])
    return bs.pop() if len(bs) == 1 else None


def account_of(acc, key, mine=None):
    """the account a reference points to has this key"""
    own = DF
    for l in leaves(acc):
        if l.op != "ref":
            continue
        r = l.args[0]
        if r == ("obj", "ooa") and mine is not None:
            c = keyeq(mine, key)
        elif r[0] == "acct":
            c = OR(keyeq(L(mk("keyof", r[1])), key), keyeq(L(mk("deref", mk("fld", r[1], "key"))), key))
        else:
            continue
        own = OR(own, AND(apply(lambda x: DT if x is l else DF, acc), c))
    return own


def isitem(b):
    """the item of the walk over the book this resting order belongs to"""
    if b is not None and b.op == "deref" and b.args[0].op == "fld" and b.args[0].args[1] == "node":
        return b.args[0].args[0]
    return None


def invalid(it):
    return NOT(IS(L(mk("discr", mk("fld", it, "state"))), 0))


def of(b, name, ty=None):
    """field of a resting order"""
    return L(mk("fld", b, name, ty=ty or LEAFTY.get(name)))


LEAFTY = {"quantity": "i64", "owner_slot": "u8", "client_order_id": "u64", "timestamp": "u64", "peg_limit": "i64", "key": "u128", "time_in_force": "u16"}


class OrderRun:
    def __init__(self, K, side, params, ooa, counters=(), opaque=BOOK, hooks=(), self_trade=None, subfacts="sub", extra=None, peel=None, xmodels=()):
        terms.reset()
        self.K, self.side, self.params, self.ooa = K, side, params, ooa
        P = K.P
        self.label = label(side, params, ooa)
        E = self.E = K.engine(opaque=opaque)
        E.subfacts = subfacts
        E.peel = peel
        E.ninv = True
        terms.POS.update(POSITIVE)
        inst = self.inst = P.fn(FNS + "new_order")
        self.names = [inst["locals"][i + 1][1] for i in range(inst["nargs"])]
        self.tys = {n: inst["locals"][i + 1][0] for i, n in enumerate(self.names)}
        self.counters = counters
        self.leafty = P.tyid["state::orderbook::nodes::LeafNode"]
        hs = []
        if counters:
            hs = [(r"OpenOrdersAccount::execute_maker$", self.h_maker), (r"EventHeap::push_back$", self.h_push)]
        if "dropped" in counters:
            hs += [(r"OpenOrdersAccount::cancel_order$", self.h_cancel)]
        self.calls = {}
        hs += [(a, b or self.h_call) for a, b in hooks]
        E.hooks = [(re.compile(a), b) for a, b in hs]
        E.xmodels = [(re.compile(a), b) for a, b in xmodels]
        self.events = []
        self.self_trade = self_trade
        self.extra = extra
        self.st, self.rv = E.run(inst, setup=self.setup)
        K.done(E)
        if self.st is None:
            self.pc = DF
            return
        self.pc = self.st.pc
        for e in E.effects:
            if e.kind in ("fill", "out"):
                self.events.append(Event(e))
            if e.kind == "callto":
                self.calls.setdefault(e.args[0], []).append((e.site, e.guard, e.args[1], e.args[2]))

    def setup(self, E, st, args):
        P = self.K.P
        oty = P.tyid["state::orderbook::order::Order"]
        o = st.ob[("obj", "order")]
        ty = lambda n: E.like_ty(oty, None, n, None)
        o = E.setfield(o, "side", EV(D(self.side), {}, None, ty("side")))
        if self.self_trade is not None:
            o = E.setfield(o, "self_trade_behavior", EV(D(self.self_trade), {}, None, ty("self_trade_behavior")))
        pt = ty("params")
        pb = E.field(o, "params", pt)
        v, ot = self.params
        vals = E.variant_vals(pt)
        pl = {}
        if ot is not None:
            for n, ft, _ in E.t(pt)["variants"][v]["fields"]:
                if n == "order_type":
                    pl = {v: {"order_type": EV(D(ot), {}, None, ft)}}
        o = E.setfield(o, "params", EV(D(vals[v]), pl, pb.base, pt))
        st.ob[("obj", "order")] = o
        i = self.names.index("open_orders_account")
        oa = self.tys["open_orders_account"]
        if self.ooa:
            t = E.t(E.t(oa)["variants"][1]["fields"][0][1])
            inner = t.get("to") or t["args"][0]
            self.ooaty = inner
            st.ob[("obj", "ooa")] = E.sym(L(mk("sym", "ooa")), inner)
            args[i] = EV(D(1), {1: {"0": L(mk("ref", ("obj", "ooa"), ()))}}, None, oa)
        else:
            args[i] = EV(D(0), {}, None, oa)
        self.args = args
        if self.counters:
            st.ob[("obj", "ghost")] = SV({c: D(0) for c in self.counters}, None, None)
        if self.extra:
            self.extra(self, E, st, args)

    # ---- counters
    def bump(self, st, name, by, when=DT):
        if name not in self.counters:
            return
        g = st.ob[("obj", "ghost")]
        f = dict(g.f)
        by = restrict(by, st.pc)
        f[name] = ite(AND(st.pc, when), add(f[name], by), f[name]) if when is not DT else add(f[name], by)
        st.ob[("obj", "ghost")] = SV(f, None, None)

    def fill(self, E, st, ev, direct):
        q, p = get(E, ev, "quantity"), get(E, ev, "price")
        self.bump(st, "base", q)
        self.bump(st, "fills", D(1))
        if not direct:
            self.bump(st, "queued", D(1))
        own = keyeq(get(E, ev, "maker"), get(E, ev, "taker")) if self.ooa else DF
        self.bump(st, "selfquote", ite(own, mul(q, p), D(0)))
        self.bump(st, "otherquote", ite(own, D(0), mul(q, p)))
        if "rebate" in self.counters:
            mf = self.market("maker_fee")
            n = div(E, mul(q, p, self.market("quote_lot_size"), ite(dlt(mf, D(0)), sub(D(0), mf), mf)), D(1000000))
            fl = div(E, mul(q, p, self.market("quote_lot_size"), mf), D(1000000))
            self.bump(st, "makerfee", ite(OR(own, dlt(mf, D(1))), D(0), fl if direct else D(0)))
            self.bump(st, "rebate", ite(OR(own, dlt(D(0), mf)), D(0), n))

    def h_call(self, E, st, f, vals, site, atys):
        """remember a call with its arguments, by name"""
        fn = [i for i in self.K.P.by_path.get(f["path"], []) if i.get("body")]
        if not fn or fn[0]["nargs"] != len(vals):
            return
        names = [fn[0]["locals"][i + 1][1] or "a%d" % i for i in range(fn[0]["nargs"])]
        E.note("callto", st, (f["path"].split("::")[-1], st.copy(), dict(zip(names, vals)), dict(zip(names, atys))), site)

    def h_maker(self, E, st, f, vals, site, atys):
        ev = E.load(st, vals[2], E.t(atys[2])["to"])
        if not self.ooa:    # a wallet is not an open orders account
            st.pc = AND(st.pc, NOT(keyeq(get(E, ev, "maker"), get(E, ev, "taker"))))
        E.note("fill", st, (ev, st.copy(), "maker", vals[0], E.t(atys[0])["to"]), site)
        self.fill(E, st, ev, True)

    def h_cancel(self, E, st, f, vals, site, atys):
        """the funds of a resting order are released: (account, slot, quantity)"""
        E.note("release", st, (vals[0], vals[1], vals[2], st.copy()), site)
        self.drop(st, source(vals[1]))

    def drop(self, st, b):
        it = isitem(b)
        if it is not None:
            self.bump(st, "dropped", ite(invalid(it), D(1), D(0)))

    def h_push(self, E, st, f, vals, site, atys):
        ev = vals[1]
        if E.t(atys[1])["k"] == "ref":
            ev = E.load(st, vals[1], E.t(atys[1])["to"])
        for kind in ("Fill", "Out"):
            k = "cast:state::orderbook::heap::%sEvent" % kind
            if isinstance(ev, SV) and k in ev.f:
                E.note(kind.lower(), st, (ev.f[k], st.copy(), "queue", None, None), site)
                if kind == "Fill":
                    self.fill(E, st, ev.f[k], False)
                elif "dropped" in self.counters:
                    self.drop(st, source(get(E, ev.f[k], "owner")))
                return
        raise Missing("event put into the queue at %s" % site)

    # ---- values
    def sym(self, name):
        return L(mk("sym", name))

    def market(self, path):
        return get(self.E, self.E.sym(L(mk("sym", "open_book_market")), self.E.t(self.tys["open_book_market"])["to"]), path)

    def order(self, path):
        return get(self.E, self.E.sym(L(mk("sym", "order")), self.E.t(self.tys["order"])["to"]), path)

    def owner(self):
        return self.E.sym(L(mk("sym", "owner")), self.E.t(self.tys["owner"])["to"])

    def oracle(self):
        """the oracle price, if there is one"""
        t = self.tys["oracle_price_lots"]
        return self.E.field(self.E.sym(L(mk("sym", "oracle_price_lots")), t), "0", self.E.like_ty(t, 1, "0", None), 1)

    def limit_price(self):
        """the price the order states; None for a market order"""
        k = self.params[0]
        if k == 0:
            return None
        if k == 3:
            return add(self.oracle(), self.order("params.3:price_offset_lots"))
        return self.order("params.%d:price_lots" % k)

    def price(self):
        """the price the order takes effect at: post-only-slide stays one lot clear of the best opposing order"""
        lim = self.limit_price()
        if self.params[1] != 4:
            return lim
        best = [e.args[-1] for e in self.E.effects if e.kind == "call" and e.args[0].endswith("::best_price")]
        if len(best) != 1:
            raise Missing("best opposing price of a sliding order")
        b, t = best[0], best[0].ty
        x = self.E.field(b, "0", self.E.like_ty(t, 1, "0", None), 1)
        return ite(IS(self.E.discr_of(b), 0), lim, dmin(lim, sub(x, D(1))) if self.side == 0 else dmax(lim, add(x, D(1))))

    def taker_fee(self):
        o = mul(self.ghost("otherquote"), self.market("quote_lot_size"))
        return div(self.E, add(mul(o, self.market("taker_fee")), D(999999)), D(1000000))

    def maker_fee_on(self, amount):
        """the maker fee on an amount, rounded up; nothing when makers get a rebate"""
        mf = self.market("maker_fee")
        return ite(dlt(D(0), mf), div(self.E, add(mul(amount, mf), D(999999)), D(1000000)), D(0))

    def inserts(self):
        """where the order is put on the book: (site, guard, side of the book, tree, resting order)"""
        out = []
        for site, g, st, v in self.calls.get("insert_leaf", []):
            sides = set()
            for l in leaves(v["self"]):
                sides.add(1 if "self.asks" in show(l) else 0 if "self.bids" in show(l) else None)
            out.append((site, g, sides, v["component"], self.E.load(st, v["new_leaf"], self.leafty), st))
        return out

    def items(self):
        """the orders read from the book, in order"""
        its = []
        for e in self.E.effects:
            if e.kind == "call" and e.args[0].endswith("Iterator::next"):
                r = e.args[-1]
                b = getattr(r, "base", None)
                if b is not None and b.leaf is not None:
                    its.append(mk("fld", mk("as", b.leaf, 1), "0"))
        return its

    def ghost(self, n):
        return self.st.ob[("obj", "ghost")].f[n]

    def res(self, n):
        E = self.E
        t = E.t(self.inst["locals"][0][0])["variants"][0]["fields"][0][1]
        return get(E, E.field(self.rv, "0", t, 0), n)

    def new(self, root, path):
        return get(self.E, self.st.ob[("obj", root)], path)


class Part(Check):
    """obligations of one run, kept apart until they are confirmed"""

    def __init__(self, K):
        self.__dict__.update(K.__dict__)
        self.__dict__.pop("ob", None)
        self.obs = []
        self.counts = K.counts


class Loops:
    """decides obligations about code with loops: proved for any number of iterations from the loop summaries;
    an obligation that is not proved counts as broken only if it is broken on executions with few iterations, which
    are analysed without summaries"""

    def __init__(self, K, peels=(0, 1, 2), budget=420, enough=4):
        self.K, self.peels, self.budget, self.enough = K, peels, budget, enough
        self.left = []
        self.t0 = time.time()

    def run(self, make, rules, cost=0):
        K = self.K
        S = Part(K)
        try:
            R = make(None)
            rules(S, R)
            K.runs, K.fns = S.runs, S.fns
        except Unsupported as e:
            # no summary: only the bounded runs can tell
            S.obs = []
            K.notes.append("no loop summary: %s" % e)
            self.left.append((cost, make, rules, None))
            return
        un = {(o.rule, o.inst): o for o in S.obs if o.status != "proved"}
        K.obs += [o for o in S.obs if o.status == "proved"]
        if un:
            self.left.append((cost, make, rules, un))

    def close(self):
        K = self.K
        todo = sorted(self.left, key=lambda x: x[0])
        groups = {}
        for it in todo:
            groups.setdefault(it[0], []).append(it)
        mixed = [x for g in zip_longest(*groups.values()) for x in g if x is not None]
        for k in self.peels:
            # first a few of each kind with more iterations, then the others
            if k == 0:
                self.confirm(mixed, 0)
            elif k == 1:
                self.confirm(mixed[:6], 1)
            else:
                self.confirm([x for x in mixed if x[0] == 0][:3], k)
        if 1 in self.peels:
            self.confirm(mixed[6:], 1)
        for _, _, _, un in todo:
            for o in (un or {}).values():
                o.status = "undecided"
                o.detail = {"left": str(o.detail)[:1500]}
                K.obs.append(o)

    def confirm(self, items, k):
        K = self.K
        for it in items:
            cost, make, rules, un = it
            if len(K.bad()) >= self.enough or time.time() - self.t0 > self.budget:
                return
            if un is not None and not un:
                continue
            S = Part(K)
            S.seconds = 3.0
            try:
                R = make(k)
                if un is not None:
                    S.only = set(un)
                rules(S, R)
            except Unsupported as e:
                K.notes.append("bounded run: %s" % e)
                continue
            bad = {(o.rule, o.inst): o for o in S.obs if o.status == "refuted"}
            if un is None:
                K.obs += list(bad.values())
                continue
            for key, o in bad.items():
                if key in un:
                    K.obs.append(o)
                    del un[key]


def all_orders(K, rules, counters, sides=(0, 1), configs=CONFIGS, accounts=(True, False), peels=(0, 1, 2), **kw):
    D_ = Loops(K, peels)
    for side in sides:
        for params in configs:
            for ooa in accounts:
                D_.run(lambda k, a=(side, params, ooa): OrderRun(K, a[0], a[1], a[2], counters, peel=k, **kw), rules, 0 if params[0] in (0, 1, 4) else 1)
    D_.close()


# ---- what happens to the book, on executions that match at most one order
def book_after(K, side, params, counters, lab="", **kw):
    try:
        R = OrderRun(K, side, params, True, counters, peel=1, **kw)
    except Unsupported as e:
        K.notes.append("bounded run: %s" % e)
        return
    applied(K, R, (R.label + " " + lab).strip())


def fills_of(R):
    for e in R.events:
        if e.kind == "fill":
            s = source(get(R.E, e.ev, "maker"))
            if isitem(s) is not None:
                yield e, s, get(R.E, e.ev, "quantity")


def released(R, s):
    """conditions under which the funds of a resting order are released as a whole"""
    gs = [DF]
    for e in R.E.effects:
        if e.kind == "release" and source(e.args[1]) is s:
            gs.append(e.guard)
        if e.kind == "out" and source(get(R.E, e.args[0], "owner")) is s:
            gs.append(e.guard)
    return OR(*gs)


def applied(K, R, lab=None):
    """executions with at most one matched order: what happens to the book"""
    E, pc, lab = R.E, R.pc, lab or R.label
    book = opposing(R)
    removes, nodes, gone_ = [], [], {}
    for e in E.effects:
        if e.kind != "call":
            continue
        n = e.args[0].split("::")[-1]
        if n in ("remove_by_key",):
            removes.append((e, e.args[1], e.args[2], e.args[3]))
        if n == "node_mut":
            nodes.append((e, e.args[1], e.args[2], e.args[-1]))
    for e, s, q in fills_of(R):
        w = "%s %s at most one match" % (lab, e.how)
        it = isitem(s)
        out = deq(q, of(s, "quantity"))
        gone = DF
        for c, b, tree, key in removes:
            gone = OR(gone, AND(c.guard, book(b), deq(key, of(s, "key")), sametree(E, tree, it)))
        K.holds("removed from the book", w, AND(pc, e.guard, out), gone, E, e.site, "an order filled as a whole is removed from its side of the book")
        K.never("removed from the book", w + " partly", AND(pc, e.guard, NOT(out), gone), E, e.site, "an order filled partly is not removed")
        gone_[s] = OR(*[AND(c.guard, apply(lambda l: DT if l is of(s, "key").leaf else DF, key)) for c, _, _, key in removes] or [DF])
        red = DF
        for c, b, h, r in nodes:
            x = written(E, R.st, r, h)
            if x is not None:
                red = OR(red, AND(c.guard, book(b), deq(h, L(mk("fld", mk("fld", it, "handle"), "node", ty="u32"))), deq(x, sub(of(s, "quantity"), q))))
        K.holds("reduced on the book", w, AND(pc, e.guard, NOT(out)), red, E, e.site, "what rests of the order afterwards is what it had less the fill")
        K.count("fills on the book")
    for e in E.effects:
        s = None
        if e.kind == "release":
            s = source(e.args[1])
        elif e.kind == "out":
            s = source(get(E, e.args[0], "owner"))
        if s is None or isitem(s) is None:
            continue
        gone = DF
        for c, b, tree, key in removes:
            gone = OR(gone, AND(c.guard, book(b), deq(key, of(s, "key")), sametree(E, tree, isitem(s))))
        gone_[s] = OR(*[AND(c.guard, apply(lambda l: DT if l is of(s, "key").leaf else DF, key)) for c, _, _, key in removes] or [DF])
        K.holds("removed from the book", "%s %s at most one match" % (lab, e.kind), AND(pc, e.guard), gone, E, e.site, "an order whose funds are released is removed from its side of the book")
    for s, g in gone_.items():
        why = OR(released(R, s), *[AND(e.guard, deq(q, of(s, "quantity"))) for e, t, q in fills_of(R) if t is s])
        K.holds("removed for a reason", "%s at most one match" % lab, AND(pc, g), why, E, K.P.loc(R.inst["body"][0]["t"][1]), "an order is removed only when it was filled as a whole or its funds are released")


def opposing(R):
    want = "bids" if R.side else "asks"

    def f(v):
        if not isinstance(v, Node):
            return DT
        return apply(lambda l: DT if any(want in [a for a in t.args if isinstance(a, str)] for t in subterms(l)) else DF, v)
    return f


def sametree(E, tree, it):
    d = E.discr_of(tree) if isinstance(tree, (Sym, EV)) else tree
    return deq(d, L(mk("discr", mk("fld", mk("fld", it, "handle"), "order_tree"))))


def written(E, st, r, h):
    """the quantity the leaf reached through a call's result has at the end"""
    l = r.base.leaf if isinstance(r, Sym) else None
    for k, v in st.ob.items():
        t = k[1].leaf if isinstance(k[1], Node) else k[1]
        if k[0] == "ptr" and l is not None and t is not None and l in subterms(t):
            for n, x in getattr(v, "f", {}).items():
                if n.startswith("cast:") and isinstance(x, SV) and "quantity" in x.f:
                    return x.f["quantity"]
    return None
