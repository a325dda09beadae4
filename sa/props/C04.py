"""Life cycle of a market: trading and depositing only before expiry, forced settlement, pruning and closing only
after it, leaving (cancel, settle, event processing) always; closing only when nothing is left."""
from base import *
from summ import NEW_ORDER

FLOOR = 35
OO = "open_orders_account::OpenOrdersAccount"
BEFORE = ORDER_IX + ("place_take_order", "deposit", "refill", "set_market_expired")
AFTER = ("prune_orders", "close_market", "settle_funds_expired")
ALWAYS = CANCEL_IX + ("settle_funds", "consume_events", "consume_given_events", "sweep_fees")


def check(K):
    K.assume += ["the clock sysvar is the time of execution"]
    for n in BEFORE + AFTER + ALWAYS:
        e = Entry(K, n, xmodels=[NEW_ORDER])
        m = e.one("state::market::Market")
        ex = market_expired(e, m)
        if n in ORDER_IX + ("place_take_order",):
            ps = [x for x in e.E.effects if x.kind == "new_order"]
            K.require(ps, "order placement in %s" % n)
            for x in ps:
                K.holds("only before expiry", n, AND(e.pc, x.guard), NOT(ex), e.E, x.site, "no order enters the matching engine once the market's expiry time has passed")
            for x in e.transfers():
                K.holds("only before expiry", n + " transfer", AND(e.pc, x.guard), NOT(ex), e.E, x.site, "no tokens move once the market's expiry time has passed")
        elif n in BEFORE:
            K.holds("only before expiry", n, e.pc, NOT(ex), e.E, e.loc(), "fails once the market's expiry time has passed")
        if n in AFTER:
            K.holds("only after expiry", n, e.pc, ex, e.E, e.loc(), "fails while the market is active")
        if n in ALWAYS:
            t = e.old(m, "time_expiry").leaf
            dep = [a for a in support(e.pc) if t in subterms(a)]
            K.fact("expiry does not block leaving", n, not dep, e.loc(), "success does not depend on the expiry time of the market", {"conditions": [show(a) for a in dep][:4]} if dep else None)
        if n == "set_market_expired":
            new = e.new(m, "time_expiry")
            K.holds("expiring takes effect at once", n, e.pc, AND(NOT(deq(new, D(0))), dlt(new, D(0))), e.E, e.loc(), "the stored expiry lies before every possible time")
            frame(K, e, m, ("time_expiry",), "expiring changes nothing else", n, "only the expiry time of the market changes")
        else:
            K.equal("expiry time is fixed", n, e.pc, e.new(m, "time_expiry"), e.old(m, "time_expiry"), e.E, e.loc(), "no other instruction moves the expiry time") if n != "close_market" else None
        if n == "close_market":
            closing(K, e, m)
    e = Entry(K, "close_open_orders_account")
    o = e.one(OO)
    for f in ("bids_base_lots", "asks_base_lots", "base_free_native", "quote_free_native", "locked_maker_fees", "referrer_rebates_available", "penalty_heap_count"):
        K.holds("an account is closed only when empty", f, e.pc, deq(e.old(o, "position." + f), D(0)), e.E, e.loc(), "nothing is locked, free or owed in a closed account")
    K.holds("an account is closed only when empty", "bids_quote_lots", e.pc, OR(deq(e.old(o, "version"), D(0)), deq(e.old(o, "position.bids_quote_lots"), D(0))), e.E, e.loc(),
            "no bid quantity is locked in a closed account (tracked since version 1)")
    cl = [x for x in e.E.effects if x.kind == "close"]
    K.fact("closing closes the account", "open orders account", [x for x in cl if x.args[0].leaf is e.acc(o)] != [] and len(cl) == 1, e.loc(), "exactly the open orders account is closed")
    e = Entry(K, "close_open_orders_indexer")
    x = e.one("OpenOrdersIndexer")
    K.holds("an indexer is closed only when empty", "addresses", e.pc, eq(mk("len", e_arr(e, x)), num(0)), e.E, e.loc(), "no open orders account is left in a closed indexer")


def e_arr(e, x):
    for a in support(e.pc):
        for s in subterms(a):
            if s.op == "len" and mk("data", e.acc(x)) in subterms(s):
                return s.args[0]
    return mk("none")


def closing(K, e, m):
    E = e.E
    for f in ("base_deposit_total", "quote_deposit_total", "fees_available", "referrer_rebates_accrued"):
        K.holds("a market is closed only when empty", f, e.pc, deq(e.old(m, f), D(0)), E, e.loc(), "no deposit, fee or rebate is left in a closed market")
    for side in ("bids", "asks"):
        c = DF
        for x in E.effects:
            if x.kind == "call" and x.args[0].endswith("BookSide::is_empty"):
                for g, l in cases(x.args[1]):
                    if l.op == "ref" and l.args[0][0] == "acct":
                        c = OR(c, AND(g, x.args[3], keyeq(L(mk("keyof", l.args[0][1])), e.old(m, side))))
        K.holds("a market is closed only when empty", side, e.pc, c, E, e.loc(), "the market's %s are empty" % side)
    h = e.one("heap::EventHeap")
    K.holds("a market is closed only when empty", "event queue", e.pc, AND(keyeq(e.key(h), e.old(m, "event_heap")), deq(e.old(h, "header.count"), D(0))), E, e.loc(), "the market's event queue is empty")
    cl = {l: x for x in E.effects if x.kind == "close" for l in leaves(x.args[0])}
    for f in ("bids", "asks", "event_heap"):
        c = OR(*[keyeq(L(mk("keyof", a)), e.old(m, f)) for a in cl])
        K.holds("closing closes the accounts", f, e.pc, c, E, e.loc(), "the market's %s account is closed with it" % f)
    K.fact("closing closes the accounts", "market", e.acc(m) in cl and len(cl) == 4, e.loc(), "the market account is closed")
