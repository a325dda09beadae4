"""Every fill respects the limits of the order that takes."""
from base import *
from order import *

FLOOR = 100
COUNTERS = ("base", "fills", "selfquote", "otherquote")


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS)


def one(K, R):
    K.minima = True
    E, pc, lab = R.E, R.pc, R.label
    bid = R.side == 0
    lim = R.limit_price()
    fills = [e for e in R.events if e.kind == "fill"]
    if R.params[1] in (2, 4):
        return
    K.require(fills, "no fill seen for %s" % lab)
    maxb, maxq = R.order("max_base_lots"), R.order("max_quote_lots_including_fees")
    if bid:
        maxq = div(E, mul(maxq, D(1000000)), add(D(1000000), R.market("taker_fee")), "i128")
    for i, e in enumerate(fills):
        g, where = e.guard, "%s %s" % (lab, e.how)
        q, p = get(E, e.ev, "quantity"), get(E, e.ev, "price")
        if lim is not None:
            K.never("within the limit price", where, AND(g, dlt(lim, p) if bid else dlt(p, lim)), E, e.site, "nothing is bought above or sold below the limit of the order", show_=[("price", p), ("limit", lim)])
        K.never("within the base limit", where, AND(g, dlt(maxb, add(e.old("base"), q))), E, e.site, "the fills of an order never exceed its base quantity", show_=[("quantity", q)])
        tot = add(e.old("selfquote"), e.old("otherquote"), mul(q, p))
        K.never("within the quote limit", where, AND(g, dlt(maxq, tot)), E, e.site, "the quote filled, with the taker fee for a buyer, never exceeds the order's quote limit", show_=[("quote", tot), ("limit", maxq)])
        K.never("fills something", where, AND(g, dlt(q, D(1))), E, e.site, "a fill is of at least one lot", show_=[("quantity", q)])
        K.holds("within the match limit", where, g, dlt(e.old("fills"), R.sym("limit")), E, e.site, "no more orders are matched than the caller allows")
        it = resting(E, e.ev)
        if it is not None:
            rp = L(mk("fld", it, "price_lots", ty="i64"))
            rq = L(mk("fld", mk("deref", mk("fld", it, "node")), "quantity", ty="i64"))
            K.equal("price of the resting order", where, g, p, rp, E, e.site, "a fill happens at the price of the resting order")
            K.never("within the resting quantity", where, AND(g, dlt(rq, q)), E, e.site, "a fill never exceeds what is resting", show_=[("quantity", q), ("resting", rq)])
        K.equal("side and taker", where + " side", g, get(E, e.ev, "taker_side"), D(R.side), E, e.site, "a fill names the taker's side")
        K.equal("side and taker", where + " taker", g, get(E, e.ev, "taker"), R.owner(), E, e.site, "a fill names the taker")
        K.equal("side and taker", where + " client id", g, get(E, e.ev, "taker_client_order_id"), R.order("client_order_id"), E, e.site, "a fill names the taker's order")

