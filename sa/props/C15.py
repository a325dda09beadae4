"""Orders reach the book as they were submitted."""
import itertools
from base import *
from order import SNAME
from summ import NEW_ORDER
from props.C14 import MODELS

FLOOR = 90
# public order types: Limit 0, ImmediateOrCancel 1, PostOnly 2, Market 3, PostOnlySlide 4, FillOrKill 5
# instruction: (arguments, order types taken, pegged, account)
ONE = {"place_order": ("args", (0, 1, 2, 3, 4, 5), False, True), "place_order_pegged": ("args", (0, 2, 4), True, True),
       "place_take_order": ("args", (1, 3, 5), False, False),
       "edit_order": ("place_order", (0, 1, 2, 3, 4, 5), False, True), "edit_order_pegged": ("place_order", (0, 2, 4), True, True)}
PARAMS = ("Market", "ImmediateOrCancel", "Fixed", "OraclePegged", "FillOrKill")
PEEL = 2


def check(K):
    K.minima = True
    K.assume += ["the clock of a running cluster is positive"]
    for n in ONE:
        single(K, n)
    for n in ("place_orders", "cancel_all_and_place_orders"):
        batch(K, n)


def variants(E, K, ty):
    r = {v["name"]: i for i, v in enumerate(E.t(ty)["variants"])}
    K.require(set(PARAMS) <= set(r), "kinds of orders")
    return r


def single(K, n):
    arg, types, peg, account = ONE[n]
    e = Entry(K, n, xmodels=[NEW_ORDER] + MODELS)
    E = e.E
    ix = lambda f: e.ix(arg + "." + f)
    ps = [x for x in E.effects if x.kind == "new_order"]
    K.require(ps, "%s: no order is placed" % n)
    m = e.one("Market")
    now = e.now()
    if n.startswith("place_take"):
        exp, dead = D(0), DF
    else:
        exp = ix("expiry_timestamp")
        dead = AND(NOT(deq(exp, D(0))), NOT(dlt(now, exp)))
    R = "submitted as given"
    edit = n.startswith("edit")
    for i, x in enumerate(ps):
        a, o, g = x.args, x.args["order"], x.guard
        for f in ("side", "self_trade_behavior"):
            if f == "self_trade_behavior" and not account:
                continue
            K.equal(R, "%s %s" % (n, f), g, E.discr_of(get(E, o, f)), E.discr_of(ix(f)), E, x.site, "the order has the %s it was submitted with" % f.replace("_", " "))
        if account:
            K.equal(R, n + " client id", g, get(E, o, "client_order_id"), ix("client_order_id"), E, x.site, "the order has the client id it was submitted with")
        K.equal(R, n + " quote limit", g, get(E, o, "max_quote_lots_including_fees"), ix("max_quote_lots_including_fees"), E, x.site, "the order has the quote limit it was submitted with")
        if edit:
            cs = [y for y in E.effects if y.kind == "cancel_all_orders"]
            K.require(len(cs) == 1, "%s: one cancelling" % n)
            got = L(mk("sym", "cancelled%d" % cs[0].args[0]["#"], ty="i64"))
            filled = sub(e.ix("expected_cancel_size"), got)
            K.equal("edited size", n, g, get(E, o, "max_base_lots"), sub(ix("max_base_lots"), filled), E, x.site, "an edited order is smaller by what was filled of the order it replaces")
            K.holds("edited size", n + " filled", g, AND(dlt(D(0), filled), NOT(dlt(ix("max_base_lots"), filled))), E, x.site, "an edited order is placed only for what is left of it")
            K.holds("edited size", n + " placed", AND(e.pc, NOT(dead), dlt(D(0), filled), dlt(filled, ix("max_base_lots"))), OR(*[y.guard for y in ps]), E, e.loc(), "what is left of an edited order is placed")
        else:
            K.equal(R, n + " base limit", g, get(E, o, "max_base_lots"), ix("max_base_lots"), E, x.site, "the order has the base limit it was submitted with")
        K.holds("limits are not negative", n, g, AND(NOT(dlt(get(E, o, "max_base_lots"), D(0))), NOT(dlt(get(E, o, "max_quote_lots_including_fees"), D(0)))), E, x.site, "limits of an order are not negative")
        tif = get(E, o, "time_in_force")
        left = sub(exp, now)
        want = ite(deq(exp, D(0)), D(0), dmin(left, D(65535)))
        K.equal("lifetime", n, AND(g, NOT(dlt(now, D(0)))), tif, want, E, x.site, "an order lives until its expiry, or at most 65535 seconds, or for ever")
        K.never("lifetime", n + " expired", AND(g, NOT(dlt(now, D(0))), dead), E, x.site, "an order that has expired is not placed")
        pr = get(E, o, "params")
        V = variants(E, K, pr.ty)
        d = E.discr_of(pr)
        if peg:
            v = V["OraclePegged"]
            K.holds("kind", n, g, IS(d, v), E, x.site, "a pegged order is placed as a pegged order")
            for f in ("price_offset_lots", "peg_limit"):
                K.equal(R, "%s %s" % (n, f), g, get(E, pr, "%d:%s" % (v, f)), ix(f), E, x.site, "the order has the %s it was submitted with" % f.replace("_", " "))
            K.holds("valid prices", n, g, dlt(D(0), ix("peg_limit")), E, x.site, "peg limits are positive")
            orc = [k for k in e.accs if k == "oracle_a"]
            K.require(orc, "%s: oracle" % n)
            K.holds("valid prices", n + " oracle", g, e.accs["oracle_a"][1], E, x.site, "a pegged order needs the price it is pegged to")
        else:
            K.holds("valid prices", n, g, NOT(dlt(ix("price_lots"), D(1))), E, x.site, "prices are positive")
        t = E.discr_of(ix("order_type"))
        for k in range(6):
            gk = AND(g, IS(t, k))
            if k not in types:
                K.never("kind", "%s type %d" % (n, k), gk, E, x.site, "this type of order is refused")
                continue
            K.require(AND(gk) is not DF, "%s: orders of type %d are never placed" % (n, k))
            v = V["OraclePegged" if peg else {1: "ImmediateOrCancel", 3: "Market", 5: "FillOrKill"}.get(k, "Fixed")]
            K.holds("kind", "%s type %d" % (n, k), gk, IS(d, v), E, x.site, "an order is placed as the kind it was submitted as")
            if k in (0, 2, 4):
                K.equal("kind", "%s type %d posting" % (n, k), gk, E.discr_of(get(E, pr, "%d:order_type" % v)), D(k), E, x.site, "an order is posted as the type it was submitted as")
            if k != 3 and not peg:
                K.equal(R, "%s price, type %d" % (n, k), gk, get(E, pr, "%d:price_lots" % v), ix("price_lots"), E, x.site, "the order has the price it was submitted with")
        surroundings(K, e, x, n, account, ix("limit"), m)
        for y in ps[:i]:
            K.never("placed once", n + " twice", AND(e.pc, x.guard, y.guard), E, x.site, "an order is placed once")
    placed = OR(*[x.guard for x in ps])
    if not edit:
        K.holds("placed once", n, AND(e.pc, NOT(dead)), placed, E, e.loc(), "success means that the order was placed unless it has expired")
    # an order that has expired changes nothing
    if dead is not DF:
        q = AND(e.pc, dead, NOT(dlt(now, D(0))))
        for x in E.effects:
            if x.kind in ("transfer", "new_order", "cancel_all_orders", "cancel_order", "sol", "log"):
                K.never("expired changes nothing", "%s %s" % (n, x.kind), AND(q, x.guard), E, x.site, "an order that has expired is skipped")


def batch(K, n):
    """several orders at once: analysed exactly for lists of at most two orders"""
    def su(E, st, args):
        E.peel = PEEL
    e = Entry(K, n, xmodels=[NEW_ORDER] + MODELS, setup=su)
    E = e.E
    ps = [x for x in E.effects if x.kind == "new_order"]
    K.require(len(ps) == PEEL, "%s: orders are placed one after the other" % n)
    m = e.one("Market")
    now = e.now()
    some = AND(e.pc, NOT(dlt(now, D(0))))
    t = E.discr_of(e.ix("orders_type"))
    bls, qls = e.old(m, "base_lot_size"), e.old(m, "quote_lot_size")
    top = D((1 << 63) - 1)
    for x in ps:
        surroundings(K, e, x, n, True, e.ix("limit"), m)
    R = "submitted as given"
    for nb, na in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2)):
        w = "%s of %d bids, %d asks" % (n, nb, na)
        lens = AND(deq(vlen(E, e.ix("bids")), D(nb)), deq(vlen(E, e.ix("asks")), D(na)))
        K.require(AND(some, lens) is not DF, "%s never succeeds" % w)
        rank, alive = D(0), []
        for p in range(nb + na):
            side = 0 if p < nb else 1
            s = item(E, e.ix("bids" if side == 0 else "asks"), p if side == 0 else p - nb)
            exp = get(E, s, "expiry_timestamp")
            live = OR(deq(exp, D(0)), dlt(now, exp))
            for j, x in enumerate(ps[:p + 1]):
                o, g, v = x.args["order"], AND(x.guard, lens, live, deq(rank, D(j)), NOT(dlt(now, D(0)))), "%s, order %d" % (w, p)
                if g is DF:
                    continue
                K.equal(R, v + " side", g, E.discr_of(get(E, o, "side")), D(side), E, x.site, "an order of a batch is on the side it was submitted for")
                K.equal(R, v + " client id", g, get(E, o, "client_order_id"), D(p), E, x.site, "orders of a batch are numbered as submitted")
                K.equal(R, v + " self trade", g, E.discr_of(get(E, o, "self_trade_behavior")), D(1), E, x.site, "orders of a batch cancel own orders they meet")
                K.equal("lifetime", v, g, get(E, o, "time_in_force"), ite(deq(exp, D(0)), D(0), dmin(sub(exp, now), D(65535))), E, x.site, "an order lives until its expiry, or at most 65535 seconds, or for ever")
                K.holds("valid prices", v, g, NOT(dlt(get(E, s, "price_lots"), D(1))), E, x.site, "prices are positive")
                K.holds("limits are not negative", v, g, NOT(dlt(get(E, s, "max_quote_lots_including_fees"), D(0))), E, x.site, "limits of an order are not negative")
                pr = get(E, o, "params")
                V = variants(E, K, pr.ty)
                for k in range(6):
                    vi = V[{1: "ImmediateOrCancel", 3: "Market", 5: "FillOrKill"}.get(k, "Fixed")]
                    gk = AND(g, IS(t, k))
                    K.require(gk is not DF, "%s: orders of type %d are never placed" % (n, k))
                    K.holds("kind", "%s type %d" % (v, k), gk, IS(E.discr_of(pr), vi), E, x.site, "an order is placed as the kind it was submitted as")
                    if k in (0, 2, 4):
                        K.equal("kind", "%s type %d posting" % (v, k), gk, E.discr_of(get(E, pr, "%d:order_type" % vi)), D(k), E, x.site, "an order is posted as the type it was submitted as")
                    if k != 3:
                        K.equal(R, "%s price, type %d" % (v, k), gk, get(E, pr, "%d:price_lots" % vi), get(E, s, "price_lots"), E, x.site, "the order has the price it was submitted with")
                # what the person can still pay for
                pos = get(E, x.args["ooa"], "position")
                spent = {0: D(0), 1: D(0)}
                for y in ps[:j]:
                    r = y.args["res"]
                    ys = E.discr_of(get(E, y.args["order"], "side"))
                    amt = {0: add(*[get(E, r, f) for f in ("total_quote_taken_native", "posted_quote_native", "taker_fees", "maker_fees")]),
                           1: add(*[get(E, r, f) for f in ("total_base_taken_native", "posted_base_native")])}
                    for q in (0, 1):
                        spent[q] = ite(AND(y.guard, IS(ys, q)), add(spent[q], amt[q]), spent[q])
                mb, mq = get(E, o, "max_base_lots"), get(E, o, "max_quote_lots_including_fees")
                given = get(E, s, "max_quote_lots_including_fees")
                base, quote = div(E, top, bls), given
                if side == 1:
                    base = dmin(base, div(E, sub(add(e.old("user_base_account", "0.amount"), get(E, pos, "base_free_native")), spent[1]), bls, "u64"))
                else:
                    have = div(E, sub(add(e.old("user_quote_account", "0.amount"), get(E, pos, "quote_free_native")), spent[0]), qls, "u64")
                    quote = dmin(given, dmin(div(E, top, qls), have))
                K.equal("paid from what is there", v + " base", g, mb, base, E, x.site, "an order of a batch is limited by the base its owner has left")
                K.equal("paid from what is there", v + " quote", g, mq, quote, E, x.site, "an order of a batch is limited by what was submitted and by the quote its owner has left")
            for j, x in enumerate(ps[:p + 1]):
                K.holds("placed once", "%s, order %d as %d" % (w, p, j), AND(some, lens, live, deq(rank, D(j))), x.guard, E, x.site, "every order of the batch that has not expired is placed")
            alive.append(live)
            rank = ite(live, add(rank, D(1)), rank)
        for j, x in enumerate(ps):
            for c in itertools.product((0, 1), repeat=nb + na):
                if sum(c) <= j:
                    g = AND(x.guard, lens, *[a if b else NOT(a) for a, b in zip(alive, c)])
                    K.never("placed once", "%s, no more than %d (%s)" % (w, j, "".join(map(str, c))), AND(g, NOT(dlt(now, D(0)))), E, x.site, "no other order is placed")
        K.count("batches")


def vlen(E, v):
    return models.vparts(E, v)[1]


def item(E, v, i):
    a = models.vparts(E, v)[0]
    return E.index(a, D(i), E.t(v.ty)["args"][0])


def surroundings(K, e, x, n, account, limit, m):
    """what accompanies the order"""
    E, a, g = e.E, x.args, x.guard
    R = "placed for its owner"
    K.equal(R, n + " match limit", g, a["limit"], limit, E, x.site, "no more orders are matched than the caller allows")
    ow = E.load(a["st"], a["owner"], None) if False else deref(E, a["st"], a["owner"])
    if account:
        oo = e.one("OpenOrdersAccount")
        K.holds(R, n + " owner", g, keyeq(ow, e.key(oo)), E, x.site, "the order belongs to the account that was given")
        K.holds(R, n + " account", g, IS(E.discr_of(a["open_orders_account"]), 1), E, x.site, "the order is booked with the account that was given")
    else:
        K.holds(R, n + " owner", g, keyeq(ow, e.key("signer")), E, x.site, "the order belongs to the person who signed")
        K.holds(R, n + " account", g, IS(E.discr_of(a["open_orders_account"]), 0), E, x.site, "the order is booked with no account")
    K.equal(R, n + " time", AND(g, NOT(dlt(e.now(), D(0)))), a["now_ts"], e.now(), E, x.site, "the order is matched at the current time")
    K.holds(R, n + " market", g, keyeq(deref(E, a["st"], a["market_pk"]), e.key(m)), E, x.site, "the order is placed on the market that was given")
    K.never("open market", n, AND(g, market_expired(e, m)), E, x.site, "no order is placed on a market that has expired")


def deref(E, st, p):
    r = None
    for g, root, pa in E.deref(st, p, None):
        c = E.rd(E.root_get(st, root), pa)
        c = L(c) if isinstance(c, T) else c
        if not isinstance(c, Node):
            c = E.deepterm(st, c)
        r = c if r is None else ite(g, c, r)
    return r
