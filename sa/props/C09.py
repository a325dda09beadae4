"""Trading with oneself follows the behaviour the order asks for."""
from base import *
from order import *

FLOOR = 60
COUNTERS = ("base", "fills", "dropped", "selfquote", "otherquote")
NAME = ("decrement", "cancel", "abort")


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    for b in (0, 1, 2):
        all_orders(K, one, COUNTERS, configs=[(0, None), (1, None), (2, 0), (3, 0), (4, None)], accounts=(True,), self_trade=b)
    for side in (0, 1):
        for params in ((1, None), (2, 0)):
            book_after(K, side, params, COUNTERS, NAME[1], self_trade=1)


def one(K, R):
    E, pc, b = R.E, R.pc, R.self_trade
    lab = "%s %s" % (R.label, NAME[b])
    loc = K.P.loc(R.inst["body"][0]["t"][1])
    fills = [e for e in R.events if e.kind == "fill"]
    K.require(fills, "no fill seen for %s" % lab)
    me = R.owner()
    for e in fills:
        own = keyeq(get(E, e.ev, "maker"), me)
        K.equal("taker named", lab + " " + e.how, e.guard, get(E, e.ev, "taker"), me, E, e.site, "a fill names the account that takes")
        if b:
            K.never("no trade with oneself", lab + " " + e.how, AND(e.guard, own), E, e.site, "an order set to cancel or abort never trades with an order of the same account")
    rel = [e for e in E.effects if e.kind == "release"]
    its = R.items()
    for e in rel:
        acc, slot, qty, st = e.args
        s = source(slot)
        it = isitem(s)
        if it is None:
            continue
        bad = invalid(it)
        if b != 1:
            K.holds("own orders stay", lab + " " + e.site.split(":")[0], e.guard, bad, E, e.site, "only expired or invalid orders are taken off the book without a trade")
        else:
            K.holds("own orders cancelled", lab + " owner", AND(e.guard, NOT(bad)), keyeq(of(s, "owner"), me), E, e.site, "only orders of the taking account are cancelled")
            K.equal("own orders cancelled", lab + " quantity", AND(e.guard, NOT(bad)), qty, of(s, "quantity"), E, e.site, "an order that is cancelled releases its whole quantity")
    if b == 1:
        K.require(any(isitem(source(e.args[1])) is not None for e in rel), "no cancellation of own orders seen for %s" % lab)
    if b == 0 or not its or (E.peel is None and len(its) > 1):
        return
    # an own order that could be matched is not passed over
    lim = R.limit_price()
    mq = R.order("max_quote_lots_including_fees")
    if R.side == 0:
        mq = div(E, mul(mq, D(1000000)), add(D(1000000), R.market("taker_fee")), "i128")
    own = lambda it: keyeq(of(mk("deref", mk("fld", it, "node")), "owner"), me)
    for i, it in enumerate(its):
        p = L(mk("fld", it, "price_lots", ty="i64"))
        some = NOT(IS(L(mk("discr", it.args[0].args[0])), 0))
        within = DT if lim is None else NOT(dlt(lim, p)) if R.side == 0 else NOT(dlt(p, lim))
        g = AND(pc, some, NOT(invalid(it)), own(it), within, dlt(R.ghost("base"), R.order("max_base_lots")), dlt(R.ghost("fills"), R.sym("limit")))
        g = AND(g, dlt(add(R.ghost("selfquote"), R.ghost("otherquote")), mq), NOT(dlt(mq, add(R.ghost("selfquote"), R.ghost("otherquote"), p))))
        if E.peel is not None:
            for o in its[:i]:
                g = AND(g, NOT(invalid(o)), NOT(own(o)))
            g = AND(g, deq(R.ghost("fills"), D(i)))
        K.never("own order not passed over", lab, g, E, loc, "an order of the same account that could be matched is cancelled, or aborts the order, as asked for", show_=[("resting", p)])
