"""Orders that leave the book without a trade release their funds exactly once, to their owner."""
from base import *
from order import *

FLOOR = 60
COUNTERS = ("base", "fills", "dropped")
CONF = [(0, None), (1, None), (2, 0), (2, 4), (3, 0), (4, None)]


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS, configs=CONF)
    for side in (0, 1):
        for params in ((1, None), (2, 0)):
            book_after(K, side, params, COUNTERS)


def one(K, R):
    E, pc, lab = R.E, R.pc, R.label
    loc = K.P.loc(R.inst["body"][0]["t"][1])
    outs = []       # (resting order, guard, site, kind)
    me = R.owner()
    for e in E.effects:
        if e.kind == "release":
            acc, slot, qty, st = e.args
            s = source(slot)
            if s is None:
                continue
            w = "%s %s" % (lab, tell(s))
            outs.append((s, e.guard, e.site, "account"))
            K.equal("whole quantity released", w, e.guard, qty, of(s, "quantity"), E, e.site, "the whole remaining quantity of the order is released")
            own = account_of(acc, of(s, "owner"), me)
            K.holds("released to the owner", w, e.guard, own, E, e.site, "the account credited is the one the order belongs to")
            K.count("releases at once")
    for e in R.events:
        if e.kind != "out":
            continue
        s = source(get(E, e.ev, "owner"))
        if s is None:
            continue
        w = "%s %s" % (lab, tell(s))
        outs.append((s, e.guard, e.site, "queue"))
        it = isitem(s)
        K.equal("whole quantity released", w + " queued", e.guard, get(E, e.ev, "quantity"), of(s, "quantity"), E, e.site, "the event carries the whole remaining quantity")
        K.equal("released to the owner", w + " slot", e.guard, get(E, e.ev, "owner_slot"), of(s, "owner_slot"), E, e.site, "the event names the slot of the order")
        K.equal("released to the owner", w + " side", e.guard, get(E, e.ev, "side"), D(1 - R.side if it is not None else R.side), E, e.site, "the event names the side of the book the order rested on")
        K.count("releases queued")
    # an order is released once
    for i in range(len(outs)):
        for j in range(i):
            a, b = outs[i], outs[j]
            if a[0] is b[0]:
                K.never("released once", "%s %s %s/%s" % (lab, tell(a[0]), b[3], a[3]), AND(a[1], b[1]), E, a[2], "an order is released by one event only")
    # only orders that may not be matched, or own orders on request
    for s, g, site, how in outs:
        it = isitem(s)
        if it is not None:
            self_ = AND(keyeq(of(s, "owner"), me), IS(E.discr_of(E.field(E.sym(L(mk("sym", "order")), E.t(R.tys["order"])["to"]), "self_trade_behavior", E.like_ty(E.t(R.tys["order"])["to"], None, "self_trade_behavior", None))), 1)) if R.ooa else DF
            K.holds("only orders that cannot be matched", "%s %s %s" % (lab, how, site.split(":")[0]), g, OR(invalid(it), self_), E, site, "a valid order of somebody else stays on the book")
    # fills only with valid orders
    for e in R.events:
        if e.kind == "fill":
            s = source(get(E, e.ev, "maker"))
            it = isitem(s)
            if it is not None:
                K.never("no fill of an expired order", "%s %s" % (lab, e.how), AND(e.guard, invalid(it)), E, e.site, "an order that has expired or whose peg limit is exceeded is never filled")
    # at most five per order placed
    for e in E.effects:
        st = e.args[3] if e.kind == "release" else e.args[1] if e.kind == "out" else None
        if st is None:
            continue
        s = source(e.args[1]) if e.kind == "release" else source(get(E, e.args[0], "owner"))
        it = isitem(s)
        if it is not None:
            K.holds("at most five dropped", "%s %s" % (lab, e.kind), AND(e.guard, invalid(it)), dlt(st.ob[("obj", "ghost")].f["dropped"], D(5)), E, e.site, "one order drops at most five expired orders")
    # orders taken off to make room
    for e in E.effects:
        if e.kind == "call" and re.search(r"BookSide::(remove_one_expired|remove_worst)$", e.args[0]):
            r = e.args[-1]
            name = e.args[0].split("::")[-1]
            some = NOT(IS(E.discr_of(r), 0))
            seen = OR(*([g for s, g, _, _ in outs if isitem(s) is None and r.base.leaf in subterms(s)] or [DF]))
            if name == "remove_worst":
                wp, p = get(E, r, "1:0.1"), R.price()
                if p is not None:
                    K.holds("room only for a better price", lab, AND(pc, e.guard, some), dlt(wp, p) if R.side == 0 else dlt(p, wp), E, e.site, "the worst order of a full book makes room only for an order with a better price")
            K.holds("released once", "%s %s" % (lab, name), AND(pc, e.guard, some), seen, E, e.site, "an order taken off to make room is released")


def tell(s):
    if isitem(s) is not None:
        return "matched"
    for t in subterms(s):
        if t.op == "call":
            return t.args[0].split("::")[-1]
    return "other"
