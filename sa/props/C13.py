"""Booking a fill with its maker moves exactly the filled amounts."""
from base import *
from order import SNAME

FLOOR = 40
OOA = "state::open_orders_account::OpenOrdersAccount::"
POSITIVE = {"quantity": 1, "price": 1, "base_lot_size": 1, "quote_lot_size": 1}
LOTS = ("bids_base_lots", "bids_quote_lots", "asks_base_lots")
MONEY = ("base_free_native", "quote_free_native", "locked_maker_fees", "referrer_rebates_available", "maker_volume")


def check(K):
    K.assume += ["a fill has a positive quantity and price and lot sizes are positive (fill and creation rules)",
                 "the slot a fill names holds the order it filled (rules about fills and slots)",
                 "arithmetic overflow aborts (overflow-checks in the release profile)"]
    for side in (0, 1):
        maker(K, side)


def feeof(E, mf, amount, up=False):
    return div(E, add(mul(amount, mf), D(999999 if up else 0)), D(1000000))


def maker(K, side):
    """side: the side of the maker's order"""
    def su(F, E, st, args):
        fty = F.ty("fill")
        c = st.ob[("obj", "fill")]
        st.ob[("obj", "fill")] = E.setfield(c, "taker_side", D(1 - side))
    F = Fn(K, OOA + "execute_maker", setup=su, pos=POSITIVE)
    E, pc = F.E, F.pc
    K.minima = True
    q, p, peg = F.old("fill", "quantity"), F.old("fill", "price"), F.old("fill", "peg_limit")
    bls, qls, mf = F.old("market", "base_lot_size"), F.old("market", "quote_lot_size"), F.old("market", "maker_fee")
    self_ = keyeq(F.old("fill", "maker"), F.old("fill", "taker"))
    gone = deq(F.old("fill", "maker_out"), D(1))
    oo = F.old("self", "open_orders")
    slot = F.old("fill", "maker_slot")
    sat = get(E, E.index(oo, slot, E.elem_ty(oo.ty)), "side_and_tree")
    right = OR(deq(sat, D(side)), deq(sat, D(side + 2)))
    quote = mul(q, p, qls)
    pos = dlt(D(0), mf)
    fee = ite(AND(pos, NOT(self_)), feeof(E, mf, quote), D(0))
    reb = ite(OR(pos, self_), D(0), feeof(E, sub(D(0), mf), quote))
    if side == 0:
        pegged = NOT(deq(peg, D(-1)))
        lock = ite(pegged, peg, p)
        atlock = mul(q, peg, qls)
        lfee = ite(pegged, ite(pos, feeof(E, mf, atlock), D(0)), fee)
        want = {"base_free_native": mul(q, bls),
                "quote_free_native": add(reb, ite(pegged, sub(add(atlock, lfee), add(quote, fee)), D(0))),
                "locked_maker_fees": sub(D(0), lfee),
                "bids_base_lots": sub(D(0), q), "bids_quote_lots": sub(D(0), mul(q, lock)), "asks_base_lots": D(0)}
    else:
        want = {"base_free_native": D(0), "quote_free_native": sub(add(quote, reb), fee), "locked_maker_fees": D(0),
                "bids_base_lots": D(0), "bids_quote_lots": D(0), "asks_base_lots": sub(D(0), q)}
    want["referrer_rebates_available"] = fee
    want["maker_volume"] = quote
    TXT = {"base_free_native": "a buyer receives the base filled, a seller none",
           "quote_free_native": "a seller receives the quote less its fee or plus its rebate, a buyer its rebate and what was locked beyond the price of the fill",
           "locked_maker_fees": "the fee locked for what was filled is used up",
           "referrer_rebates_available": "the maker fee becomes a rebate to claim", "maker_volume": "the volume grows by the quote filled"}
    for w, g in (("filled completely", gone), ("filled partly", NOT(gone))):
        h = AND(pc, g, right)
        for n, x in want.items():
            K.equal("booked " + n, "%s %s" % (SNAME[side], w), h, sub(F.new("self", "position." + n), F.old("self", "position." + n)), x, E, F.loc, TXT.get(n, "what was locked for the filled part is no longer locked"))
        for n, x in (("maker_volume", quote), ("fees_accrued", fee), ("referrer_rebates_accrued", fee)):
            K.equal("market's " + n, "%s %s" % (SNAME[side], w), h, sub(F.new("market", n), F.old("market", n)), x, E, F.loc, "the market records the same volume and fee")
    h = AND(pc, right)
    n = F.new("self", "open_orders")
    s = E.index(n, slot, E.elem_ty(n.ty))
    K.equal("slot freed", SNAME[side] + " filled completely", AND(h, gone), get(E, s, "is_free"), D(1), E, F.loc, "the slot of an order that is gone is free again")
    for f in ("is_free", "id", "client_id", "locked_price", "side_and_tree"):
        K.equal("slot kept", "%s %s" % (SNAME[side], f), AND(h, NOT(gone)), get(E, s, f), get(E, E.index(oo, slot, E.elem_ty(oo.ty)), f), E, F.loc, "an order filled partly keeps its slot")
    other = L(mk("sym", "another", ty="u8"))
    a, b = E.index(n, other, E.elem_ty(n.ty)), E.index(oo, other, E.elem_ty(oo.ty))
    for f in ("is_free", "id", "client_id", "locked_price", "side_and_tree"):
        K.equal("other slots kept", "%s %s" % (SNAME[side], f), AND(h, NOT(deq(other, slot))), get(E, a, f), get(E, b, f), E, F.loc, "a fill touches only the slot of the order it filled")
    F.unchanged("self", ["position." + x for x in want] + ["open_orders"], "only the fill", "a fill changes nothing else of the account")
    F.unchanged("market", ["maker_volume", "fees_accrued", "referrer_rebates_accrued"], "only the fill", "a fill changes nothing else of the market")
    # the report
    for e in E.effects:
        if e.kind == "log" and e.args[0].endswith("FillLog"):
            v = e.args[1]
            for f, src in (("taker_side", "taker_side"), ("maker_slot", "maker_slot"), ("timestamp", "timestamp"), ("seq_num", "market_seq_num"), ("maker", "maker"), ("maker_client_order_id", "maker_client_order_id"),
                           ("maker_timestamp", "maker_timestamp"), ("taker", "taker"), ("taker_client_order_id", "taker_client_order_id"), ("price", "price"), ("quantity", "quantity")):
                K.equal("fill reported", "%s %s" % (SNAME[side], f), AND(e.guard, pc), get(E, v, f), D(1 - side) if src == "taker_side" else F.old("fill", src), E, e.site, "the fill reported is the fill booked")
            K.equal("fill reported", SNAME[side] + " maker fee", AND(e.guard, pc), get(E, v, "maker_fee"), fee, E, e.site, "the fee reported is the fee charged")
            K.count("fill logs")
