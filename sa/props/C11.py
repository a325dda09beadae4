"""What is filled is taken off the book, and each fill is booked once with the order it filled."""
from base import *
from order import *

FLOOR = 150
COUNTERS = ("base", "fills", "queued", "dropped")
CONF = [(0, None), (1, None), (2, 0), (3, 0), (4, None)]
BOUNDED = [(0, None), (1, None), (2, 0)]


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS, configs=CONF)
    for side in (0, 1):
        for params in BOUNDED:
            book_after(K, side, params, COUNTERS)


def one(K, R):
    K.minima = True
    E, pc, lab = R.E, R.pc, R.label
    fs = list(fills_of(R))
    K.require(fs, "no fill seen for %s" % lab)
    for e, s, q in fs:
        g, w = e.guard, "%s %s" % (lab, e.how)
        out = deq(q, of(s, "quantity"))
        K.holds("gone if filled", w, AND(g, out), deq(get(E, e.ev, "maker_out"), D(1)), E, e.site, "a fill of the whole resting order says that the order is gone")
        K.holds("gone if filled", w + " partly", AND(g, NOT(out)), deq(get(E, e.ev, "maker_out"), D(0)), E, e.site, "a fill of a part of the resting order leaves the order with its owner")
        for f, n in (("maker_slot", "owner_slot"), ("maker_client_order_id", "client_order_id"), ("maker_timestamp", "timestamp"), ("peg_limit", "peg_limit"), ("maker", "owner")):
            K.equal("names the resting order", "%s %s" % (w, f), g, get(E, e.ev, f), of(s, n), E, e.site, "a fill names owner, slot, client id, time and peg limit of the order it filled")
        if e.how == "maker":
            K.holds("booked with its owner", w, g, account_of(e.acc, of(s, "owner")), E, e.site, "a fill booked at once goes to the account of the order's owner")
        K.count("fills")
    for i, (a, s, q) in enumerate(fs):
        for b, t, _ in fs[:i]:
            if s is t:
                K.never("booked once", "%s %s/%s" % (lab, b.how, a.how), AND(a.guard, b.guard), E, a.site, "a fill is either booked at once or queued")
    # what the walk collects: orders to take off, orders to reduce
    dels, chg = {}, {}
    for e in E.effects:
        if e.kind == "push" and isinstance(e.args[1], SV):
            for n, x in e.args[1].f.items():
                s = source(x) if isinstance(x, Node) else None
                if s is not None and isitem(s) is not None and all(l.args[1] == "key" for l in leaves(x)):
                    dels.setdefault(s, []).append((e, x))
                elif isinstance(x, Sym) and x.base.leaf is not None and x.base.leaf.op == "fld" and x.base.leaf.args[1] == "handle":
                    chg.setdefault(x.base.leaf.args[0], []).append((e, [v for v in e.args[1].f.values() if v is not x]))
    if dels and chg:
        for e, s, q in fs:
            w = "%s %s" % (lab, e.how)
            out = deq(q, of(s, "quantity"))
            later = AND(e.guard)
            K.holds("taken off if filled", w, AND(later, out), OR(*[d.guard for d, _ in dels.get(s, [])] or [DF]), E, e.site, "an order filled as a whole is collected to be taken off the book")
            K.holds("reduced if partly filled", w, AND(later, NOT(out)), OR(*[c.guard for c, _ in chg.get(isitem(s), [])] or [DF]), E, e.site, "an order filled partly is collected to be reduced")
            for c, vs in chg.get(isitem(s), []):
                for v in vs:
                    K.equal("reduced by the fill", w, AND(e.guard, c.guard), v, sub(of(s, "quantity"), q), E, c.site, "the order is reduced by what was filled")
            K.never("taken off if filled", w + " reduced", AND(e.guard, OR(*[d.guard for d, _ in dels.get(s, [])] or [DF]), NOT(out)), E, e.site, "an order filled partly stays on the book")
