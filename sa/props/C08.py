"""Each kind of order keeps its promise: post-only never takes, immediate kinds never rest, fill-or-kill is all or nothing."""
from base import *
from order import *

FLOOR = 100
COUNTERS = ("base", "fills", "selfquote", "otherquote")


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS, hooks=[(r"BookSide::insert_leaf$", None)])
    kinds(K)


def one(K, R):
    E, pc, lab = R.E, R.pc, R.label
    loc = K.P.loc(R.inst["body"][0]["t"][1])
    kind, ot = R.params
    rests = kind in (2, 3)
    ins = R.inserts()
    posted = OR(*[g for _, g, _, _, _, _ in ins]) if ins else DF
    rid = R.res("order_id")
    if ot in (2, 4):
        for e in R.events:
            if e.kind == "fill":
                K.never("post-only never takes", lab + " " + e.how, e.guard, E, e.site, "a post-only order takes nothing from the book")
        for n in ("total_base_taken_native", "total_quote_taken_native", "taker_fees"):
            K.equal("post-only never takes", "%s %s" % (lab, n), pc, R.res(n), D(0), E, loc, "a post-only order pays nothing and receives nothing")
    if not rests or not R.ooa:
        for site, g, _, _, _, _ in ins:
            K.never("never rests", lab, g, E, site, "market, immediate-or-cancel and fill-or-kill orders, and orders without account, never rest on the book")
        for n in ("posted_base_native", "posted_quote_native", "maker_fees"):
            K.equal("never rests", "%s %s" % (lab, n), pc, R.res(n), D(0), E, loc, "nothing is reserved for an order that does not rest")
        K.holds("never rests", lab + " id", pc, IS(E.discr_of(rid), 0), E, loc, "no order id is returned for an order that does not rest")
    if kind == 4:
        K.equal("all or nothing", lab, pc, R.ghost("base"), R.order("max_base_lots"), E, loc, "a fill-or-kill order succeeds only when filled completely")
    if not rests or not R.ooa:
        return
    K.require(ins, "resting of %s orders not seen" % lab)
    # an order id is returned exactly when the order rests
    K.holds("order id when resting", lab, AND(pc, posted), IS(E.discr_of(rid), 1), E, loc, "the id of a resting order is returned")
    K.never("order id when resting", lab + " only", AND(pc, IS(E.discr_of(rid), 1), NOT(posted)), E, loc, "no id without a resting order")
    # what could be matched is not put on the book
    lim = R.limit_price()
    its = R.items()
    own = lambda it: keyeq(L(mk("fld", mk("deref", mk("fld", it, "node")), "owner")), R.owner())
    val = lambda it: eqd(E, it, "state")
    rb = dlt(R.ghost("base"), R.order("max_base_lots"))
    mq = R.order("max_quote_lots_including_fees")
    if R.side == 0 and ot == 0:
        mq = div(E, mul(mq, D(1000000)), add(D(1000000), R.market("taker_fee")), "i128")
    rq = dlt(add(R.ghost("selfquote"), R.ghost("otherquote")), mq)
    if ot == 4:
        return
    for i, it in enumerate(its):
        p = L(mk("fld", it, "price_lots", ty="i64"))
        some = NOT(IS(L(mk("discr", it.args[0].args[0])), 0))
        within = NOT(dlt(lim, p)) if R.side == 0 else NOT(dlt(p, lim))
        g = AND(posted, some, val(it), NOT(own(it)), within, rb, rq)
        if E.peel is not None:
            for o in its[:i]:
                g = AND(g, val(o), NOT(own(o)))
            g = AND(g, deq(R.ghost("fills"), D(i)))
        elif len(its) > 1:
            return
        K.never("never rests while it could be matched", lab, g, E, loc, "an order is not put on the book at a price at which a resting order could still be matched", show_=[("resting", p), ("limit", lim)])


def eqd(E, it, name):
    return IS(L(mk("discr", mk("fld", it, name))), 0)


def kinds(K):
    """the kind a caller asks for is the kind of order placed"""
    F = Fn(K, "state::orderbook::order_type::PlaceOrderType::to_post_order_type")
    E = F.E
    d = E.discr_of(F.old("self"))
    r = E.discr_of(F.rv)
    for v, w in ((0, 0), (2, 2), (4, 4)):
        t = E.t(E.t(F.inst["locals"][0][0])["variants"][0]["fields"][0][1])
        x = E.field(F.rv, "0", E.t(F.inst["locals"][0][0])["variants"][0]["fields"][0][1], 0)
        K.equal("kind asked for", "type %d" % v, AND(F.pc, IS(d, v)), E.discr_of(x), D(w), E, F.loc, "limit, post-only and post-only-slide keep their meaning")
    for v in (1, 3, 5):
        K.never("kind asked for", "type %d" % v, AND(F.pc, IS(d, v), IS(r, 0)), E, F.loc, "other types cannot become resting orders")
