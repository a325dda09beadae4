"""Every instruction works on the accounts that belong to the market it names: book sides, event queue, oracles,
vaults, authority and open orders accounts are the recorded ones, and never one in place of the other."""
from base import *
from summ import NEW_ORDER

FLOOR = 60
OO = "open_orders_account::OpenOrdersAccount"


def check(K):
    K.assume += ["the loader of an account checks the owning program and the type tag"]
    for n in entrypoints(K.P):
        if n in ("create_market", "create_open_orders_indexer", "close_open_orders_indexer", "stub_oracle_create", "stub_oracle_set", "stub_oracle_close", "set_delegate",
                 "close_open_orders_account", "create_open_orders_account"):
            continue
        seen = []
        e = Entry(K, n, xmodels=[NEW_ORDER], hooks=[(r"Market::oracle_price_lots$", lambda E, st, f, vals, site, atys: oracles(E, st, vals, site, atys, seen))])
        m = e.one("state::market::Market")
        one(K, e, n, m)
        # a loop is evaluated several times: the last evaluation of each call counts
        last = {}
        for x in seen:
            last[x[0]] = x
        if n in ORDER_IX + ("place_take_order",):
            K.require(last, "oracle price read in %s" % n)
        for site, pc, args in last.values():
            for i, f in ((0, "oracle_a.key"), (1, "oracle_b.key")):
                pres, cs = args[i]
                K.holds("named oracle is given", "%s %s" % (n, f[:8]), AND(pc, isset(e.old(m, f))), pres, e.E, site, "an oracle the market names is not left out")
                K.require(cs, "oracle account in %s" % n)
                for g, accs in cs:
                    K.require(len(accs) == 1, "oracle account in %s" % n)
                    K.holds("oracle belongs to the market", "%s %s" % (n, f[:8]), AND(pc, pres, g), keyeq(L(mk("keyof", accs[0])), e.old(m, f)), e.E, site,
                            "the oracle account read is the one the market names in this place")


def oracles(E, st, vals, site, atys, seen):
    out = []
    for i in (1, 2):
        o = vals[i]
        t = E.t(atys[i])["variants"][1]["fields"][0][1]
        p = E.field(o, "0", t, 1)
        cs = []
        for g, r, pa in E.deref(st, p, E.t(t)["to"]):
            sub = set()
            cellterms(E.rd(E.root_get(st, r), pa), sub)
            cs.append((g, sorted((x for x in sub if x.op == "acc"), key=lambda x: x.id)))
        out.append((deq(E.discr_of(o), D(1)), cs))
    seen.append((site, st.pc, out))


def cellterms(c, out):
    if isinstance(c, Node):
        out |= subterms(c)
    elif isinstance(c, SV):
        for x in c.f.values():
            cellterms(x, out)
        if c.base is not None:
            cellterms(c.base, out)
    elif isinstance(c, EV):
        cellterms(c.d, out)
        for v in c.p.values():
            for x in v.values():
                cellterms(x, out)
    elif isinstance(c, Sym):
        out |= subterms(c.base)


def refs(x):
    """accounts a reference may point into"""
    return [(g, l.args[0][1]) for g, l in cases(x) if l.op == "ref" and l.args[0][0] == "acct"]


def kis(e, a, m, f):
    return keyeq(L(mk("keyof", a)), e.old(m, f))


def one(K, e, n, m):
    E = e.E
    bs = lambda a: OR(kis(e, a, m, "bids"), kis(e, a, m, "asks"))
    for x in E.effects:
        if x.kind == "load":
            how, a, ty = x.args
            for g, l in cases(a):
                name = next((k for k, (y, _) in e.accs.items() if y is l), None)
                if ty.endswith("bookside::BookSide"):
                    K.holds("book side belongs to the market", "%s %s" % (n, name), AND(x.guard, g), bs(l), E, x.site, "the loaded book side is one of the market's two")
                elif ty.endswith("heap::EventHeap"):
                    K.holds("event queue belongs to the market", "%s %s" % (n, name), AND(x.guard, g), kis(e, l, m, "event_heap"), E, x.site, "the loaded event queue is the market's")
                elif ty.endswith(OO) and name:
                    K.holds("open orders account belongs to the market", "%s %s" % (n, name), AND(e.pc, g), keyeq(e.old(name, "market"), e.key(m)), E, x.site,
                            "the open orders account was created for this market")
        if x.kind == "new_order":
            a = x.args
            st = a["st"]
            self_ = loadself(K, e, x)
            for side in ("bids", "asks"):
                r = refs(self_[side])
                K.require(r, "book side %s given to the matching engine in %s" % (side, n))
                for g, l in r:
                    K.holds("matching engine gets the right side", "%s %s" % (n, side), AND(x.guard, g), kis(e, l, m, side), E, x.site,
                            "the %s given to the matching engine are the market's %s" % (side, side))
            for g, l in refs(a["open_book_market"]):
                K.holds("matching engine gets the market", n, AND(x.guard, g), keyeq(L(mk("keyof", l)), e.key(m)), E, x.site, "the market given is the instruction's")
            for g, l in refs(a["event_heap"]):
                K.holds("matching engine gets the event queue", n, AND(x.guard, g), kis(e, l, m, "event_heap"), E, x.site, "the event queue given is the market's")
            K.equal("matching engine gets the market's key", n, x.guard, key_at(e, x, a["market_pk"]), e.key(m), E, x.site, "the key given is the market's")
            if e.of_type(OO):
                o = e.one(OO)
                p = E.field(a["open_orders_account"], "0", None, 1)
                K.holds("orders are placed for the account", n, x.guard, deq(E.discr_of(a["open_orders_account"]), D(1)), E, x.site, "the order is placed for an open orders account")
                for g, l in refs(p):
                    K.holds("orders are placed for the account", n + " which", AND(x.guard, g), keyeq(L(mk("keyof", l)), e.key(o)), E, x.site, "it is the instruction's account")
                K.equal("orders carry the account's key", n, x.guard, key_at(e, x, a["owner"]), e.key(o), E, x.site, "the owner recorded in the order is that account")
            else:
                K.holds("no account takes part", n, x.guard, deq(E.discr_of(a["open_orders_account"]), D(0)), E, x.site, "a take order has no open orders account")
    for x in E.effects:
        if x.kind == "call" and re.search(r"BookSide::(remove_by_key|insert_leaf|remove_worst|remove_one_expired|is_empty)$", x.args[0]):
            for g, l in refs(x.args[1]):
                K.holds("book side belongs to the market", "%s %s" % (n, x.args[0].split("::")[-1]), AND(x.guard, g), bs(l), E, x.site, "the changed book side is one of the market's two")


def loadself(K, e, x):
    E = e.E
    P = K.P
    fn = P.fn(FNS + "new_order")
    ty = E.t(fn["locals"][1][0])
    c = E.load(x.args["st"], x.args["raw"]["self"], ty["to"])
    return {s: E.field(c, s, None) for s in ("bids", "asks")}


def key_at(e, x, p):
    E = e.E
    fn = e.K.P.fn(FNS + "new_order")
    names = [fn["locals"][i + 1][1] for i in range(fn["nargs"])]
    ty = E.t(fn["locals"][names.index("market_pk") + 1][0])["to"]
    return E.load(x.args["st"], p, ty)
