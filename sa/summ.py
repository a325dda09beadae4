"""Summary of placing an order, used where the caller of the matching engine is analysed.

What the summary leaves out is established by the analysis of the matching engine itself (frame
rules in props that analyse `new_order`): of the market only the fields below change, of the
account of the person placing the order only its position and its order slots.
"""
from base import *

MARKET_CHANGES = ("seq_num", "fees_accrued", "referrer_rebates_accrued", "maker_volume", "taker_volume_wo_oo")
OOA_CHANGES = ("position", "open_orders")


def new_order(C):
    E = C.E
    fn = [i for i in E.p.by_path.get(FNS + "new_order", []) if i.get("body")]
    if not fn:
        raise Missing("the matching function")
    names = [fn[0]["locals"][i + 1][1] for i in range(fn[0]["nargs"])]
    a = dict(zip(names, C.args))
    tys = dict(zip(names, C.atys))
    n = E.nextid()
    tag = mk("placed", n)
    res = E.sym(L(tag), C.payload(0))
    pre = {}
    order = E.load(C.st, a["order"], E.t(tys["order"])["to"])
    args = {"order": order, "res": res, "n": n, "names": names, "raw": a, "st": C.st.copy()}
    for nm in names:
        if nm not in ("order", "self"):
            args[nm] = a[nm]
    # the market
    mp, mty = a["open_book_market"], E.t(tys["open_book_market"])["to"]
    m = E.load(C.st, mp, mty)
    for f in MARKET_CHANGES:
        fty = E.like_ty(mty, None, f, None)
        if fty is None:
            raise Missing("market field " + f)
        m = E.setfield(m, f, E.sym(L(mk("after", tag, "market", f)), fty))
    E.store(C.st, mp, mty, m)
    # the account, when there is one
    o = a["open_orders_account"]
    oty = E.t(tys["open_orders_account"])
    inner = oty["variants"][1]["fields"][0][1]
    p = E.field(o, "0", inner, 1)
    some = deq(E.discr_of(o), D(1))
    to = E.t(inner).get("to") or E.t(inner)["args"][0]
    if AND(C.st.pc, some) is not DF and isinstance(p, Node) and any(l.op == "ref" for l in leaves(p)):
        for g, r, pa in E.deref(C.st, p, to):
            g = AND(g, some)
            c = E.rd(E.root_get(C.st, r), pa)
            args["ooa"] = c
            c2 = c
            for f in OOA_CHANGES:
                c2 = E.setfield(c2, f, E.sym(L(mk("after", tag, "account", f)), E.like_ty(to, None, f, None)))
            E.root_set(C.st, r, E.wr(E.root_get(C.st, r), pa, E.join(c2, c, g) if g is not DT else c2))
    # heap
    hp, hty = a["event_heap"], E.t(tys["event_heap"])["to"]
    args["heap_before"] = E.load(C.st, hp, hty)
    E.store(C.st, hp, hty, E.sym(L(mk("after", tag, "heap", "")), hty))
    E.note("new_order", C.st, args, C.site)
    okv = EV(ite(atom(mk("placeok", tag)), D(0), D(1)), {0: {"0": res}, 1: {"0": L(mk("err", "place"))}}, None, C.dty)
    return okv


NEW_ORDER = (r"Orderbook::<.*>::new_order", new_order)
