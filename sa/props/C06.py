"""What a taker pays, receives and is charged follows from the fills of the order, in every configuration of the order."""
from base import *
from order import *
import summ

FLOOR = 100
COUNTERS = ("base", "fills", "selfquote", "otherquote", "rebate", "makerfee")
OOA = "state::open_orders_account::OpenOrdersAccount::"


def check(K):
    K.assume += ["a trader's wallet key is not the key of an open orders account",
                 "arithmetic overflow aborts (overflow-checks in the release profile)",
                 "resting orders have a positive quantity and price (posting rules), order arguments are not negative (argument rules), lot sizes are positive and the taker fee is not negative (creation rules)"]
    all_orders(K, one, COUNTERS, hooks=[(r"OpenOrdersAccount::execute_taker$", None)])
    credit(K)


def one(K, R):
    E, pc = R.E, R.pc
    if pc is DF:
        raise Missing("order kind %s never succeeds" % R.label)
    lab = R.label
    loc = K.P.loc(R.inst["body"][0]["t"][1])
    bls, qls = R.market("base_lot_size"), R.market("quote_lot_size")
    G = lambda n: R.ghost(n)
    res = lambda n: R.res(n)
    base, quote = mul(G("base"), bls), mul(add(G("selfquote"), G("otherquote")), qls)
    K.equal("base taken is the sum of the fills", lab, pc, res("total_base_taken_native"), base, E, loc, "the base taken is the filled base lots")
    K.equal("quote taken is the sum of the fills", lab, pc, res("total_quote_taken_native"), quote, E, loc, "the quote taken is filled base times each maker's price")
    other = mul(G("otherquote"), qls)
    fee = div(E, add(mul(other, R.market("taker_fee")), D(999999)), D(1000000))
    K.equal("taker fee", lab, pc, res("taker_fees"), fee, E, loc, "the fee is the taker rate on the quote traded with others, rounded up")
    rest = sub(fee, ite(dlt(D(0), other), G("rebate"), D(0)))
    K.equal("fee left after maker rebates", lab, pc, res("referrer_amount"), rest, E, loc, "what is not passed on to makers is the referrer's")
    # the market's own books
    K.equal("fees accrued", lab, pc, sub(R.new("open_book_market", "fees_accrued"), R.market("fees_accrued")), add(rest, G("makerfee")), E, loc, "the market accrues the taker fee less maker rebates, and the maker fees of fills settled at once")
    K.equal("rebates accrued", lab, pc, sub(R.new("open_book_market", "referrer_rebates_accrued"), R.market("referrer_rebates_accrued")), add(rest if R.ooa else D(0), G("makerfee")), E, loc, "what an account may claim later is recorded as owed by the market")
    K.equal("volume without account", lab, pc, sub(R.new("open_book_market", "taker_volume_wo_oo"), R.market("taker_volume_wo_oo")), D(0) if R.ooa else quote, E, loc, "volume of takers without account")
    for p, a, b in changes(E, E.sym(L(mk("sym", "open_book_market")), E.t(R.tys["open_book_market"])["to"]), R.st.ob[("obj", "open_book_market")]):
        if p not in summ.MARKET_CHANGES:
            if isinstance(a, Node) and isinstance(b, Node):
                K.equal("market otherwise unchanged", lab + " " + p, pc, b, a, E, loc, "placing an order changes only volumes, fees and the sequence number of a market")
            else:
                K.fact("market otherwise unchanged", lab + " " + p, False, loc, "placing an order changes only volumes, fees and the sequence number of a market")
    # the credit of the taker, where it happens
    took = OR(dlt(D(0), base), dlt(D(0), quote))
    if R.ooa:
        for site, g, st, v in R.calls.get("execute_taker", []):
            gh = st.ob[("obj", "ghost")].f
            K.holds("taker side", "%s" % lab, g, deqb(E.discr_of(v["taker_side"]), D(R.side)), E, site, "the account is credited for the side of its order")
            for a, w in (("base_native", base), ("quote_native", quote), ("taker_fees", fee), ("referrer_amount", rest)):
                K.equal("credited " + a, lab, g, v[a], w, E, site, "the account is credited what was taken")
        if R.calls.get("execute_taker"):
            seen = OR(*[g for _, g, _, _ in R.calls["execute_taker"]])
            K.holds("credited whenever something was taken", lab, AND(pc, took), seen, E, loc, "a taker with an account is credited")
    # the report of the whole order
    paid, got = (add(quote, fee), base) if R.side == 0 else (base, sub(quote, fee))
    for e in [x for x in E.effects if x.kind == "log" and x.args[0].endswith("TotalOrderFillEvent")]:
        v = e.args[1]
        for f, w in (("total_quantity_paid", paid), ("total_quantity_received", got), ("fees", fee), ("side", D(R.side))):
            K.equal("reported " + f, lab, e.guard, get(E, v, f), w, E, e.site, "the totals reported for the order are what was paid and received")


def credit(K):
    F = Fn(K, OOA + "execute_taker")
    n = lambda a: F.old(a)
    for side in (0, 1):
        s = IS(F.E.discr_of(F.old("taker_side")), side)
        pc = AND(F.pc, s)
        d = lambda p: sub(F.new("self", "position." + p), F.old("self", "position." + p))
        w = {"base_free_native": n("base_native") if side == 0 else D(0),
             "quote_free_native": D(0) if side == 0 else sub(n("quote_native"), n("taker_fees")),
             "taker_volume": n("quote_native"), "referrer_rebates_available": n("referrer_amount")}
        for p, x in w.items():
            K.equal("credit of the taker", "%s %s" % (SNAME[side], p), pc, d(p), x, F.E, F.loc, "a buyer receives the base, a seller the quote less the fee; rebates are booked once")
        K.equal("credit of the taker", "%s market rebates" % SNAME[side], pc, sub(F.new("market", "referrer_rebates_accrued"), F.old("market", "referrer_rebates_accrued")), n("referrer_amount"), F.E, F.loc, "the market owes what the account may claim")
    F.unchanged("self", ["position." + p for p in w], "only the credit", "taking changes nothing else of the account")
    F.unchanged("market", ["referrer_rebates_accrued"], "only the credit", "taking changes nothing else of the market")
