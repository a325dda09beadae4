"""Resting orders are met best price first, and in order of arrival at the same price."""
from itertools import product
from base import *
from order import *
import models

FLOOR = 200
W = 1 << 64
TOP = (1 << 63) - 1
SKIP = 2        # pegged orders without a price that are passed over, exactly analysed up to this number
PEEL = SKIP + 2
NEXT = "<state::orderbook::bookside_iterator::BookSideIter<'a> as std::iter::Iterator>::next"
TREENEXT = r"<state::orderbook::ordertree_iterator::OrderTreeIter<.*> as (std|core)::iter::Iterator>::next$"


def check(K):
    K.assume += ["orders of one book have different sequence numbers (arrival rules)", "up to %d pegged orders in a row that have no price at present" % SKIP,
                 "each of the two lists of a side is sorted (tree rules)"]
    for side in (0, 1):
        for fixed in (True, False):
            walk(K, side, fixed, None, False)
            for k in range(SKIP + 1):
                for sk in product(("low", "high"), repeat=k):
                    for last in (True, False):
                        walk(K, side, fixed, sk, last)
            for pegged in (None, "a", "low", "high"):
                worst(K, side, fixed, pegged, True)
            worst(K, side, fixed, "a", False)
    all_orders(K, arrival, (), configs=[(2, 0), (3, 0)], accounts=(True,), hooks=[(r"BookSide::insert_leaf$", None)],
               xmodels=[(r"OpenOrdersAccount::(cancel_order|execute_taker|execute_maker|add_order)$", models.unit)])


def arrival(K, R):
    """orders are numbered as they come"""
    E, pc, lab = R.E, R.pc, R.label
    bid, peg = R.side == 0, R.params[0] == 3
    ins = R.inserts()
    K.require(ins, "resting of %s orders not seen" % lab)
    seq = R.market("seq_num")
    last = R.new("open_book_market", "seq_num")
    pd = add(sub(R.price(), R.oracle()), D(1 << 63)) if peg else R.price()
    n = add(seq, D(1))
    key = apply(lambda x, y: E.bitop("BitOr", x, y, "u128"), apply(lambda x: E.bitop("Shl", x, num(64), "u128"), pd), sub(D(W - 1), n) if bid else n)
    for site, g, sides, tree, leaf, st in ins:
        K.equal("order of arrival", lab, g, get(E, leaf, "key"), key, E, site, "the id orders by price and then by arrival, with a number higher than all before it")
        K.holds("order of arrival", lab + " remembered", AND(pc, g), NOT(dlt(last, n)), E, site, "the number is not given again")
    K.never("order of arrival", lab + " market", AND(pc, dlt(last, seq)), E, "", "numbers never go back")


class Items:
    """the orders of one side, fixed (0) and pegged (1), each list best first"""

    def __init__(self, K, E, fixed, skipped, last):
        self.E = E
        self.leafty = K.P.tyid["state::orderbook::nodes::LeafNode"]
        self.skipped, self.last, self.fixed = skipped or (), last, fixed

    def has(self, w, n):
        if n == 0 and w == 0:
            return DT if self.fixed else DF
        return DF if w and not self.last and n >= len(self.skipped) else DT

    def price(self, w, n):
        s = lambda ty: L(mk("sym", "price%d.%d" % (w, n), ty=ty))
        if w and n < len(self.skipped):
            return sub(D(0), s("u64")) if self.skipped[n] == "low" else add(D(TOP), s("u64"))
        return s("i64" if w else "u64")

    def hi(self, w, n):
        return add(sub(self.price(w, n), O()), D(1 << 63)) if w else self.price(w, n)

    def lo(self, w, n):
        return L(mk("sym", "seq%d.%d" % (w, n), ty="u64"))

    def handle(self, w, n):
        return L(mk("sym", "handle%d.%d" % (w, n), ty="u32"))

    def leaf(self, w, n):
        c = self.E.sym(L(mk("sym", "leaf%d.%d" % (w, n))), self.leafty)
        return self.E.setfield(c, "key", add(mul(self.hi(w, n), D(W)), self.lo(w, n)))

    def ref(self, w, n):
        return L(mk("ref", ("obj", "leaf%d.%d" % (w, n)), ()))

    def facts(self):
        """prices are encoded in 64 bits; an order that is not passed over has a price"""
        r = DT
        for n in range(PEEL + 1):
            h = self.hi(1, n)
            r = AND(r, NOT(dlt(h, D(0))), NOT(dlt(D(W - 1), h)))
        P = self.price(1, len(self.skipped))
        if self.last:
            r = AND(r, dlt(D(0), P), dlt(P, D(TOP)))
        return r

    def option(self, st, ty, w, n):
        """the n-th order of a list, or none"""
        tup = self.E.t(ty)["variants"][1]["fields"][0][1]
        st.ob.setdefault(("obj", "leaf%d.%d" % (w, n)), self.leaf(w, n))
        return EV(ite(self.has(w, n), D(1), D(0)), {1: {"0": SV({"0": self.handle(w, n), "1": self.ref(w, n)}, None, tup)}}, None, ty)


def O():
    return L(mk("sym", "oracle", ty="i64"))


def fields(E, ty):
    return {f[0]: f[1] for f in E.t(ty)["variants"][0]["fields"]}


def walk(K, side, fixed, skipped, last):
    oracle = skipped is not None
    k = len(skipped or ())
    w0 = "%ss, %s fixed, %s" % (SNAME[side], "a" if fixed else "no",
                                "no oracle" if not oracle else "%s%s pegged" % ("".join("one with too %s a price, " % s for s in skipped), "a" if last else "no"))
    box = {}

    def nxt(C):
        E, st, I = C.E, C.st, box["I"]
        c = C.load(0)
        t = E.field(c, "order_tree", None)
        K.require(t is box["t1"] or t is box["t0"], "list the iterator walks")
        w = 1 if t is box["t1"] else 0
        g = st.ob[("obj", "ghost")]
        pos = g.f["pos%d" % w]
        cur = E.field(c, "next_leaf", box["opt"])
        some = IS(E.discr_of(cur), 1)
        st.ob[("obj", "ghost")] = SV(dict(g.f, **{"pos%d" % w: ite(some, add(pos, D(1)), pos)}), None, None)
        new = I.option(st, box["opt"], w, PEEL + 1)
        for n in range(PEEL + 1, 0, -1):
            new = E.join(I.option(st, box["opt"], w, n), new, deq(pos, D(n - 1)))
        C.store(0, E.setfield(c, "next_leaf", E.join(new, cur, some)))
        return cur

    def su(F, E, st, args):
        I = box["I"] = Items(K, E, fixed, skipped, last)
        c = st.ob[("obj", "self")]
        fs = fields(E, F.ty("self"))
        K.require("fixed_iter" in fs and "oracle_pegged_iter" in fs and "oracle_price_lots" in fs, "the two lists of a book side")
        it = fs["fixed_iter"]
        box["opt"] = fields(E, it)["next_leaf"]
        st.ob[("obj", "ghost")] = SV({"pos0": D(0), "pos1": D(0)}, None, None)
        for w, n in ((0, "fixed_iter"), (1, "oracle_pegged_iter")):
            x = E.field(c, n, it)
            t = box["t%d" % w] = L(mk("ref", ("obj", "tree%d" % w), ()))
            for f, v in (("order_tree", t), ("next_leaf", I.option(st, box["opt"], w, 0)), ("left", D(1 - side)), ("right", D(side))):
                x = E.setfield(x, f, v)
            c = E.setfield(c, n, x)
        oty = fs["oracle_price_lots"]
        op = EV(D(1), {1: {"0": O()}}, None, oty) if oracle else EV(D(0), {}, None, oty)
        st.ob[("obj", "self")] = E.setfield(c, "oracle_price_lots", op)
        st.pc = AND(st.pc, I.facts())
    F = Fn(K, NEXT, setup=su, peel=PEEL, xmodels=[(TREENEXT, nxt)])
    E, pc, I = F.E, F.pc, box["I"]
    K.minima = True
    now = F.old("self", "now_ts")
    some = IS(E.discr_of(F.rv), 1)
    pos = [F.st.ob[("obj", "ghost")].f["pos%d" % w] for w in (0, 1)]

    def got(inst, g, w, n):
        item = get(E, F.rv, "1:0")
        P = I.price(w, n)
        K.holds("best first", inst, g, AND(some, deq(get(E, item, "handle.node"), I.handle(w, n)), deq(get(E, item, "node"), I.ref(w, n)), deq(E.discr_of(get(E, item, "handle.order_tree")), D(w))),
                E, F.loc, "the best order that can be matched at present comes next")
        h = AND(g, some)
        K.equal("its price", inst, h, get(E, item, "price_lots"), P, E, F.loc, "a fixed order has its own price, a pegged one the oracle's price and its offset")
        leaf = I.leaf(w, n)
        tif, ts, pl = get(E, leaf, "time_in_force"), get(E, leaf, "timestamp"), get(E, leaf, "peg_limit")
        dead = AND(dlt(D(0), tif), NOT(dlt(now, add(ts, tif))))
        if w:
            dead = OR(dead, AND(NOT(deq(pl, D(-1))), dlt(pl, P) if side == 0 else dlt(P, pl)))
        K.equal("whether it can be matched", inst, h, E.discr_of(get(E, item, "state")), ite(dead, D(1), D(0)), E, F.loc, "an order that has expired or is beyond its peg limit is not matched, any other is")
        K.equal("nothing left out", inst + " taken", h, pos[w], D(n + 1), E, F.loc, "an order is returned once and those behind it are still to come")
        if w:
            K.equal("nothing left out", inst + " fixed", h, pos[0], D(0), E, F.loc, "no fixed order is passed over")
        else:
            K.never("nothing left out", inst + " pegged", AND(h, dlt(D(k), pos[1])), E, F.loc, "no pegged order that can be matched is passed over")
    if fixed and oracle and last:
        P, fp, lf, lk = I.price(1, k), I.price(0, 0), I.lo(0, 0), I.lo(1, k)
        better = OR(dlt(P, fp), AND(deq(P, fp), dlt(lk, lf))) if side == 0 else OR(dlt(fp, P), AND(deq(P, fp), dlt(lf, lk)))
        h = AND(pc, NOT(deq(lf, lk)))
        got(w0 + ", fixed is better", AND(h, better), 0, 0)
        got(w0 + ", pegged is better", AND(h, NOT(better)), 1, k)
    elif fixed:
        got(w0, pc, 0, 0)
    elif oracle and last:
        got(w0, pc, 1, k)
    else:
        K.holds("nothing left out", w0, pc, NOT(some), E, F.loc, "nothing comes after the last order")
    K.count("situations")


def worst(K, side, fixed, pegged, oracle):
    """making room on a full book"""
    w0 = "%ss, %s fixed, %s pegged, %s oracle" % (SNAME[side], "a" if fixed else "no", pegged or "no", "with" if oracle else "no")
    box = {}

    def find(C):
        I, E = box["I"], C.E
        r = C.load(1)
        w = next((i for i in (0, 1) if EN.same(r, box["roots"][i])), None)
        K.require(w is not None, "tree whose worst order is looked for")
        return I.option(C.st, C.dty, w, 0)

    def rem(C):
        C.E.note("removed", C.st, tuple(C.args[1:]), C.site)
        return C.opt(atom(mk("removed")), C.E.sym(L(mk("sym", "removedleaf")), C.payload(1)))

    def su(F, E, st, args):
        I = box["I"] = Items(K, E, fixed, (pegged,) if pegged in ("low", "high") else (), pegged == "a")
        I.has = lambda w, n: DT if (fixed, pegged)[w] else DF
        c = st.ob[("obj", "self")]
        nodes = E.setfield(E.field(c, "nodes", fields(E, F.ty("self"))["nodes"]), "order_tree_type", D(side))
        c = st.ob[("obj", "self")] = E.setfield(c, "nodes", nodes)
        rt = fields(E, F.ty("self"))["roots"]
        rs = E.field(c, "roots", rt)
        box["roots"] = [E.index(rs, D(i), E.elem_ty(rt)) for i in (0, 1)]
        oty = F.tys["oracle_price_lots"]
        args[F.names.index("oracle_price_lots")] = EV(D(1), {1: {"0": O()}}, None, oty) if oracle else EV(D(0), {}, None, oty)
        st.pc = AND(st.pc, I.facts())
    F = Fn(K, "state::orderbook::bookside::BookSide::remove_worst", setup=su,
           xmodels=[(r"OrderTreeNodes::find_worst$", find), (r"BookSide::remove_by_key$", rem), (r"OrderTreeNodes::remove_by_key$", rem)])
    E, pc, I = F.E, F.pc, box["I"]
    K.minima = True
    rem_ = [e for e in E.effects if e.kind == "removed"]
    some = IS(E.discr_of(F.rv), 1)

    def got(inst, g, w):
        P = I.price(w, 0)
        if w and pegged == "low":
            P = D(1)
        if w and pegged == "high":
            P = D(TOP)
        K.holds("worst makes room", inst, g, OR(*[e.guard for e in rem_]), E, F.loc, "the worst order of the side makes room")
        for e in rem_:
            K.equal("worst makes room", inst + " key", AND(g, e.guard), e.args[1], get(E, I.leaf(w, 0), "key"), E, e.site, "the order that makes room is the worst of the side")
            t = e.args[0]
            if not (isinstance(t, Node) and any(l.op == "ref" for l in leaves(t))):
                K.equal("worst makes room", inst + " tree", AND(g, e.guard), E.discr_of(t), D(w), E, e.site, "the order that makes room is removed from its tree")
            K.equal("worst makes room", inst + " price", AND(g, e.guard, some), get(E, F.rv, "1:0.1"), P, E, e.site, "the price compared with is that of the order that makes room")
    if fixed and oracle and pegged:
        P = {"a": I.price(1, 0), "low": D(1), "high": D(TOP)}[pegged]
        fp, lf, lk = I.price(0, 0), I.lo(0, 0), I.lo(1, 0)
        better = OR(dlt(P, fp), AND(deq(P, fp), dlt(lk, lf))) if side == 0 else OR(dlt(fp, P), AND(deq(P, fp), dlt(lf, lk)))
        h = AND(pc, NOT(deq(lf, lk)))
        got(w0 + ", fixed is worse", AND(h, NOT(better)), 0)
        got(w0 + ", pegged is worse", AND(h, better), 1)
    elif fixed:
        got(w0, pc, 0)
    elif oracle and pegged:
        got(w0, pc, 1)
    else:
        K.never("worst makes room", w0, AND(pc, OR(some, *[e.guard for e in rem_])), E, F.loc, "nothing is removed from an empty side")
    K.count("situations")
