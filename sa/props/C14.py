"""Cancelling releases exactly what the order has locked, and cancels exactly the orders asked for."""
from base import *
from order import SNAME
import models

FLOOR = 40
OOA = "state::open_orders_account::OpenOrdersAccount::"
BOOKFN = "state::orderbook::book::Orderbook::<'a>::"
POSITIVE = {"base_quantity": 1, "base_lot_size": 1, "quote_lot_size": 1, "locked_price": 1}
SLOTS = 24
LIMITS = (1, 2, 255)


def check(K):
    K.assume += ["a resting order has a positive quantity and was locked at a positive price (posting rules), lot sizes are positive (creation rules)",
                 "arithmetic overflow aborts (overflow-checks in the release profile)"]
    for side in (0, 1):
        release(K, side)
    one(K)
    asked(K)
    total(K)
    for side in (None, 0, 1):
        for client in (False, True):
            for lim in LIMITS:
                select(K, side, client, lim)


def release(K, side):
    F = Fn(K, OOA + "cancel_order", pos=POSITIVE)
    E, slot, q = F.E, F.old("slot"), F.old("base_quantity")
    oo = F.old("self", "open_orders")
    o = E.index(oo, slot, E.elem_ty(oo.ty))
    sat = get(E, o, "side_and_tree")
    pc = AND(F.pc, OR(deq(sat, D(side)), deq(sat, D(side + 2))))
    K.require(pc is not DF, "cancelling of a %s never succeeds" % SNAME[side])
    bls, qls, mf = (F.old("market", n) for n in ("base_lot_size", "quote_lot_size", "maker_fee"))
    lp = get(E, o, "locked_price")
    quote = mul(q, lp, qls)
    fee = ite(dlt(D(0), mf), div(E, add(mul(quote, mf), D(999999)), D(1000000)), D(0))
    if side == 0:
        want = {"quote_free_native": add(quote, fee), "locked_maker_fees": sub(D(0), fee), "bids_base_lots": sub(D(0), q), "bids_quote_lots": sub(D(0), mul(q, lp)),
                "base_free_native": D(0), "asks_base_lots": D(0)}
    else:
        want = {"base_free_native": mul(q, bls), "asks_base_lots": sub(D(0), q), "quote_free_native": D(0), "locked_maker_fees": D(0), "bids_base_lots": D(0), "bids_quote_lots": D(0)}
    for n, x in want.items():
        K.equal("released", "%s %s" % (SNAME[side], n), pc, sub(F.new("self", "position." + n), F.old("self", "position." + n)), x, E, F.loc, "cancelling frees what was locked for the order, at the price it was locked at, with its fee")
    n = F.new("self", "open_orders")
    s = E.index(n, slot, E.elem_ty(n.ty))
    K.equal("slot freed", SNAME[side], pc, get(E, s, "is_free"), D(1), E, F.loc, "the slot of a cancelled order is free again")
    K.never("only used slots", SNAME[side], AND(pc, deq(get(E, o, "is_free"), D(1))), E, F.loc, "a free slot cannot be cancelled")
    other = L(mk("sym", "another", ty="u8"))
    a, b = E.index(n, other, E.elem_ty(n.ty)), E.index(oo, other, E.elem_ty(oo.ty))
    for f in ("is_free", "id", "client_id", "locked_price", "side_and_tree"):
        K.equal("other slots kept", "%s %s" % (SNAME[side], f), AND(pc, NOT(deq(other, slot))), get(E, a, f), get(E, b, f), E, F.loc, "cancelling touches only the slot of the order")
    F.unchanged("self", ["position." + x for x in want] + ["open_orders"], "only the order", "cancelling changes nothing else of the account")


def one(K):
    """taking one order off the book"""
    seen = []

    def h_rel(E, st, f, vals, site, atys):
        E.note("release", st, (vals[0], vals[1], vals[2], st.copy()), site)
    F = Fn(K, BOOKFN + "cancel_order", opaque=BOOK, hooks=[(r"OpenOrdersAccount::cancel_order$", h_rel)], xmodels=[(r"OpenOrdersAccount::cancel_order$", models.unit)])
    E, pc = F.E, F.pc
    rem = [e for e in E.effects if e.kind == "call" and e.args[0].endswith("::remove_by_key")]
    rel = [e for e in E.effects if e.kind == "release"]
    K.require(rem and rel, "removal and release of a cancelled order not seen")
    sat = E.discr_of(F.old("side_and_tree"))
    isside = lambda s: OR(deq(sat, D(s)), deq(sat, D(s + 2)))
    ok = DF
    for e in rem:
        b, tree, key = e.args[1], e.args[2], e.args[3]
        for s, n in ((0, "bids"), (1, "asks")):
            on = apply(lambda l: DT if any(n in [a for a in t.args if isinstance(a, str)] for t in subterms(l)) else DF, b)
            K.never("own side of the book", "not %s" % n, AND(pc, e.guard, isside(s), NOT(on)), E, e.site, "an order is cancelled on the side it rests on")
        K.equal("own side of the book", "tree", AND(pc, e.guard), ite(OR(deq(sat, D(2)), deq(sat, D(3))), D(1), D(0)), E.discr_of(tree) if not isinstance(tree, Node) else tree, E, e.site, "an order is cancelled in the tree it rests in")
        K.equal("the order asked for", "id", AND(pc, e.guard), key, F.old("order_id"), E, e.site, "the order removed is the one named")
        r = e.args[-1]
        leaf = get(E, r, "1:0")
        eo = F.old("expected_owner")
        K.holds("the order asked for", "owner", AND(pc, e.guard, IS(E.discr_of(eo), 1)), keyeq(get(E, leaf, "owner"), get(E, eo, "1:0")), E, e.site, "an order of another account is not cancelled")
        for x in rel:
            acc, slot, qty, st = x.args
            K.equal("released as it rested", "slot", AND(x.guard, e.guard), slot, get(E, leaf, "owner_slot"), E, x.site, "the slot released is that of the order")
            K.equal("released as it rested", "quantity", AND(x.guard, e.guard), qty, get(E, leaf, "quantity"), E, x.site, "the quantity released is what was resting")
        ok = OR(ok, e.guard)
    K.holds("removed and released", "removed", pc, ok, E, F.loc, "success means that the order was removed")
    K.holds("removed and released", "released", pc, OR(*[x.guard for x in rel]), E, F.loc, "success means that the order was released")
    for i, x in enumerate(rel):
        for y in rel[:i]:
            K.never("removed and released", "once", AND(pc, x.guard, y.guard), E, x.site, "an order is released once")


def select(K, side, client, lim):
    """which orders of the account are cancelled: analysed exactly for all slots of an account"""
    w = "%s%s, limit %d" % ("any side" if side is None else SNAME[side] + "s", ", by client id" if client else "", lim)
    calls = []

    def cancel(C):
        E = C.E
        E.note("cancel", C.st, (C.args[1], C.args[2], C.args[3], C.args[5] if len(C.args) > 5 else None), C.site)
        pl = C.payload(0)
        leaf = E.setfield(E.sym(L(mk("sym", "cancelled")), pl), "quantity", D(0))
        return C.ok(leaf)

    def su(F, E, st, args):
        for n, v, mkv in (("side_to_cancel_option", side is not None, lambda t: EV(D(side), {}, None, t)), ("client_id_option", client, lambda t: L(mk("sym", "wanted", ty="u64")))):
            K.require(n in F.names, "argument %s of cancelling all orders" % n)
            t = F.tys[n]
            args[F.names.index(n)] = EV(D(1), {1: {"0": mkv(E.t(t)["variants"][1]["fields"][0][1])}}, None, t) if v else EV(D(0), {}, None, t)
        K.require("limit" in F.names, "limit of cancelling all orders")
        args[F.names.index("limit")] = D(lim)
    F = Fn(K, BOOKFN + "cancel_all_orders", setup=su, peel=SLOTS + 1, opaque=BOOK, xmodels=[(r"Orderbook::<'_>::cancel_order$", cancel), (r"Orderbook::<'a>::cancel_order$", cancel)])
    E, pc = F.E, F.pc
    cs = [e for e in E.effects if e.kind == "cancel"]
    K.require(cs, "cancelling of orders not seen (%s)" % w)
    oo = F.old("open_orders_account", "open_orders")
    cnt = D(0)
    for j in range(SLOTS):
        o = E.index(oo, D(j), E.elem_ty(oo.ty))
        sat = get(E, o, "side_and_tree")
        want = NOT(deq(get(E, o, "is_free"), D(1)))
        if side is not None:
            want = AND(want, OR(deq(sat, D(side)), deq(sat, D(side + 2))))
        if client:
            want = AND(want, deq(get(E, o, "client_id"), L(mk("sym", "wanted", ty="u64"))))
        want = AND(want, dlt(cnt, D(lim)))
        idj = get(E, o, "id")
        got = DF
        for e in cs:
            isj = apply(lambda l: DT if l is idj.leaf else DF, e.args[1])
            got = OR(got, AND(e.guard, isj))
            g = AND(pc, e.guard, isj)
            if g is not DF:
                s = e.args[2]
                K.equal("where it rests", "%s slot %d" % (w, j), g, E.discr_of(s) if not isinstance(s, Node) else s, sat, E, e.site, "an order is cancelled where the account's slot says it rests")
        K.holds("all orders asked for", "%s slot %d" % (w, j), AND(pc, want), got, E, F.loc, "every order of the account that was asked for is cancelled, up to the limit")
        K.never("only orders asked for", "%s slot %d" % (w, j), AND(pc, got, NOT(want)), E, F.loc, "no other order is cancelled, and none beyond the limit")
        cnt = ite(want, add(cnt, D(1)), cnt)
    K.count("slots", SLOTS)


def total(K):
    """what is reported as cancelled, for any number of orders"""
    def cancel(C):
        E = C.E
        n = E.nextid()
        leaf = E.sym(L(mk("sym", "cancelled%d" % n)), C.payload(0))
        g = C.st.ob[("obj", "ghost")].f["total"]
        C.st.ob[("obj", "ghost")] = SV({"total": add(g, get(E, leaf, "quantity"))}, None, None)
        return C.ok(leaf)

    def su(F, E, st, args):
        st.ob[("obj", "ghost")] = SV({"total": D(0)}, None, None)
    F = Fn(K, BOOKFN + "cancel_all_orders", setup=su, opaque=BOOK, xmodels=[(r"Orderbook::<'_>::cancel_order$", cancel), (r"Orderbook::<'a>::cancel_order$", cancel)])
    E = F.E
    K.equal("total of what was cancelled", "all orders", F.pc, get(E, F.rv, "0:0"), F.st.ob[("obj", "ghost")].f["total"], E, F.loc, "the quantity reported is the sum of what was cancelled")


def note(kind, E, C):
    fn = [i for i in E.p.by_path.get(BOOKFN + kind, []) if i.get("body")]
    if not fn:
        raise Missing("function " + kind)
    names = [fn[0]["locals"][i + 1][1] for i in range(fn[0]["nargs"])]
    n = E.nextid()
    E.note(kind, C.st, (dict(zip(names, C.args), **{"#": n}), C.st.copy()), C.site)
    return n


def m_all(C):
    n = note("cancel_all_orders", C.E, C)
    return EV(ite(atom(mk("cancelok", n)), D(0), D(1)), {0: {"0": L(mk("sym", "cancelled%d" % n, ty="i64"))}, 1: {"0": L(mk("err", "cancel"))}}, None, C.dty)


def m_one(C):
    n = note("cancel_order", C.E, C)
    return EV(ite(atom(mk("cancelok", n)), D(0), D(1)), {0: {"0": C.E.sym(L(mk("sym", "cancelled%d" % n)), C.payload(0))}, 1: {"0": L(mk("err", "cancel"))}}, None, C.dty)


MODELS = [(r"Orderbook::<.*>::cancel_all_orders$", m_all), (r"Orderbook::<.*>::cancel_order$", m_one)]
# instruction: (side, client id, limit) it asks for; None any
ASKED = {"cancel_order_by_client_order_id": (None, "client_order_id", 255), "cancel_all_orders": ("side_option", None, "limit"), "prune_orders": (None, None, "limit"),
         "cancel_all_and_place_orders": (None, None, 255), "edit_order": (None, "client_order_id", 255), "edit_order_pegged": (None, "client_order_id", 255)}


def asked(K):
    from summ import NEW_ORDER
    for n, (side, client, lim) in ASKED.items():
        e = Entry(K, n, xmodels=[NEW_ORDER] + MODELS)
        E = e.E
        cs = [x for x in E.effects if x.kind == "cancel_all_orders"]
        K.require(cs, "%s: no cancelling seen" % n)
        if n.startswith("edit"):
            for x in E.effects:
                if x.kind == "new_order":
                    K.holds("cancels what is asked for", n, x.guard, OR(*[y.guard for y in cs]), E, x.site, "the new order is placed only after cancelling")
        else:
            K.holds("cancels what is asked for", n, e.pc, OR(*[x.guard for x in cs]), E, e.loc(), "the instruction succeeds only after cancelling")
        for x in cs:
            a, st = x.args
            L_ = a["limit"]
            K.equal("cancels what is asked for", n + " limit", x.guard, L_, D(lim) if isinstance(lim, int) else e.ix(lim), E, x.site, "as many orders are cancelled as asked for")
            s = a["side_to_cancel_option"]
            if side is None:
                K.holds("cancels what is asked for", n + " side", x.guard, IS(E.discr_of(s), 0), E, x.site, "orders of both sides are cancelled")
            else:
                w = e.ix(side)
                K.equal("cancels what is asked for", n + " side", x.guard, E.discr_of(s), E.discr_of(w), E, x.site, "orders of the side asked for are cancelled")
                K.equal("cancels what is asked for", n + " which side", AND(x.guard, IS(E.discr_of(w), 1)), E.discr_of(get(E, s, "1:0")), E.discr_of(get(E, w, "1:0")), E, x.site, "orders of the side asked for are cancelled")
            c = a["client_id_option"]
            if client is None:
                K.holds("cancels what is asked for", n + " client id", x.guard, IS(E.discr_of(c), 0), E, x.site, "orders are cancelled whatever their client id")
            else:
                K.holds("cancels what is asked for", n + " by client id", x.guard, IS(E.discr_of(c), 1), E, x.site, "only orders with the client id are cancelled")
                K.equal("cancels what is asked for", n + " client id", x.guard, get(E, c, "1:0"), e.ix(client), E, x.site, "only orders with the client id are cancelled")
        K.count("cancelling instructions")
    for n in ("place_order", "place_order_pegged", "place_orders", "place_take_order"):
        e = Entry(K, n, xmodels=[NEW_ORDER] + MODELS)
        for x in e.E.effects:
            if x.kind in ("cancel_all_orders", "cancel_order"):
                K.never("cancels what is asked for", n, x.guard, e.E, x.site, "the instruction cancels nothing on request")
        K.count("other instructions")
    e = Entry(K, "cancel_order", xmodels=MODELS)
    E = e.E
    cs = [x for x in E.effects if x.kind == "cancel_order"]
    K.require(cs, "cancel_order: no cancelling seen")
    K.holds("cancels what is asked for", "cancel_order", e.pc, OR(*[x.guard for x in cs]), E, e.loc(), "the instruction succeeds only after cancelling")
    o = e.one("OpenOrdersAccount")
    for x in cs:
        a, st = x.args
        K.equal("cancels what is asked for", "cancel_order id", x.guard, a["order_id"], e.ix("order_id"), E, x.site, "the order cancelled is the order asked for")
        ow = a["expected_owner"]
        K.holds("cancels what is asked for", "cancel_order owner", x.guard, AND(IS(E.discr_of(ow), 1), keyeq(get(E, ow, "1:0"), e.key(o))), E, x.site, "the order belongs to the account")
