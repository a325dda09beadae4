"""The part of an order that rests: its size, its place in the book, what is locked for it and how the account remembers it."""
from base import *
from order import *
import models

FLOOR = 100
COUNTERS = ("base", "fills", "selfquote", "otherquote")
CONF = [(2, 0), (2, 2), (2, 4), (3, 0), (3, 2), (3, 4)]
# what these do to the account is established by other rules
APART = [(r"OpenOrdersAccount::(cancel_order|execute_taker)$", models.unit)]


def check(K):
    K.assume += ["resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS, configs=CONF, accounts=(True,), hooks=[(r"BookSide::insert_leaf$", None)], xmodels=APART)
    slots(K)


def one(K, R):
    E, pc, lab = R.E, R.pc, R.label
    bid = R.side == 0
    K.minima = True
    peg = R.params[0] == 3
    ins = R.inserts()
    K.require(ins, "resting of %s orders not seen" % lab)
    bls, qls = R.market("base_lot_size"), R.market("quote_lot_size")
    price = R.price()
    pl = R.order("params.3:peg_limit") if peg else D(-1)
    lock = ite(NOT(deq(pl, D(-1))), pl, price) if peg and bid else price
    taken = add(R.ghost("selfquote"), R.ghost("otherquote"))
    feelots = div(E, sub(add(R.taker_fee(), qls), D(1)), qls)
    rem = sub(sub(R.order("max_quote_lots_including_fees"), taken), feelots)
    rem = sub(rem, R.maker_fee_on(rem))
    want = dmin(sub(R.order("max_base_lots"), R.ghost("base")), div(E, rem, lock))
    seq = add(R.market("seq_num"), D(1))
    pd = add(sub(price, R.oracle()), D(1 << 63)) if peg else price
    low = sub(D((1 << 64) - 1), seq) if bid else seq
    key = apply(lambda x, y: E.bitop("BitOr", x, y, "u128"), apply(lambda x: E.bitop("Shl", x, num(64), "u128"), pd), low)
    for site, g, sides, tree, leaf, st in ins:
        q = get(E, leaf, "quantity")
        K.fact("side of the book", lab, sides == {R.side}, site, "a bid rests among the bids, an ask among the asks")
        K.equal("kind of price", lab, g, E.discr_of(tree), D(1 if peg else 0), E, site, "pegged orders rest with the pegged orders")
        K.equal("resting quantity", lab, g, q, want, E, site, "what rests is what the base limit and the quote limit, less fees, leave")
        K.never("resting quantity", lab + " positive", AND(g, dlt(q, D(1))), E, site, "nothing empty rests on the book")
        for f, w in (("owner", R.owner()), ("time_in_force", R.order("time_in_force")), ("peg_limit", pl), ("client_order_id", R.order("client_order_id")), ("timestamp", R.sym("now_ts"))):
            K.equal("resting order", "%s %s" % (lab, f), g, get(E, leaf, f), w, E, site, "the resting order has the attributes the caller gave")
        K.equal("order id", lab, g, get(E, leaf, "key"), key, E, site, "the id orders by price and then by arrival")
        rid = R.res("order_id")
        K.equal("order id", lab + " returned", AND(pc, g), E.field(rid, "0", E.like_ty(rid.ty, 1, "0", None), 1), get(E, leaf, "key"), E, site, "the id returned is the id on the book")
        if peg:
            K.never("within the peg limit", lab, AND(g, NOT(deq(pl, D(-1))), dlt(pl, price) if bid else dlt(price, pl)), E, site, "a pegged order is not placed beyond its limit")
        # results and locked amounts
        h = AND(pc, g)
        pq = mul(q, lock, qls)
        fee = R.maker_fee_on(pq) if bid else D(0)
        K.equal("amounts to deposit", lab + " base", h, R.res("posted_base_native"), mul(q, bls), E, site, "base reported for what rests")
        K.equal("amounts to deposit", lab + " quote", h, R.res("posted_quote_native"), pq, E, site, "quote reported for what rests, at the price it is locked at")
        K.equal("amounts to deposit", lab + " maker fees", h, R.res("maker_fees"), fee, E, site, "a bid pays its maker fee up front")
        d = lambda p: sub(R.new("ooa", "position." + p), get(E, old(R), "position." + p))
        for p, w in (("locked_maker_fees", fee), ("bids_base_lots", q if bid else D(0)), ("bids_quote_lots", mul(q, lock) if bid else D(0)), ("asks_base_lots", D(0) if bid else q)):
            K.equal("locked for the order", "%s %s" % (lab, p), h, d(p), w, E, site, "the account records what is locked for the order")
        # the slot
        oo = R.new("ooa", "open_orders")
        s = E.index(oo, get(E, leaf, "owner_slot"), E.elem_ty(oo.ty))
        for f, w in (("is_free", D(0)), ("side_and_tree", D(R.side + (2 if peg else 0))), ("id", get(E, leaf, "key")), ("client_id", R.order("client_order_id")), ("locked_price", lock)):
            K.equal("slot of the order", "%s %s" % (lab, f), h, get(E, s, f), w, E, site, "the account's slot describes the resting order")
    gone = AND(pc, NOT(OR(*[g for _, g, _, _, _, _ in ins])))
    o0, o1 = get(E, old(R), "position"), get(E, R.st.ob[("obj", "ooa")], "position")
    for p, a, b in changes(E, o0, o1):
        K.equal("nothing locked without resting", "%s %s" % (lab, p), gone, b, a, E, "", "an order that does not rest locks nothing")
        if p not in ("locked_maker_fees", "bids_base_lots", "bids_quote_lots", "asks_base_lots"):
            K.equal("locked for the order", "%s %s" % (lab, p), pc, b, a, E, "", "resting changes nothing else of the position")


def old(R):
    return R.E.sym(L(mk("sym", "ooa")), R.ooaty)


def slots(K):
    """a new order gets a slot that is free"""
    F = Fn(K, "state::open_orders_account::OpenOrdersAccount::next_order_slot")
    E = F.E
    ok = AND(F.pc, IS(E.discr_of(F.rv), 0))
    i = E.field(F.rv, "0", E.like_ty(F.rv.ty, 0, "0", None), 0)
    oo = F.old("self", "open_orders")
    s = E.index(oo, i, E.elem_ty(oo.ty))
    K.never("free slot", "in range", AND(ok, NOT(dlt(i, D(24)))), E, F.loc, "the slot exists")
    K.never("free slot", "free", AND(ok, deq(get(E, s, "is_free"), D(0))), E, F.loc, "the slot is not used by another order")
