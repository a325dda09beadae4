"""For every instruction, success implies the signature the action needs: owner or named delegate for orders and
settlement, owner for delegate changes and closing, the configured administrator for administrative actions,
and every token transfer out of a wallet is authorised by a signer of the instruction, out of a vault by the market."""
from base import *
from summ import NEW_ORDER

FLOOR = 45
OWNER = ("set_delegate", "close_open_orders_account")
ADMIN = {"sweep_fees": "collect_fee_admin", "close_market": "close_market_admin.key", "prune_orders": "close_market_admin.key",
         "set_market_expired": "close_market_admin.key", "settle_funds_expired": "close_market_admin.key"}
OPEN = ("deposit", "refill", "create_market", "create_open_orders_indexer", "create_open_orders_account", "stub_oracle_create", "place_take_order",
        "consume_events", "consume_given_events")


def check(K):
    K.assume += ["an account marked as signer has signed the transaction (runtime)", "derived addresses of different seeds differ"]
    names = entrypoints(K.P)
    for n in names:
        e = Entry(K, n, xmodels=[NEW_ORDER])
        ms = e.of_type("state::market::Market")
        m = ms[0] if len(ms) == 1 else None
        oos = e.of_type("open_orders_account::OpenOrdersAccount")
        if n in ORDER_IX + CANCEL_IX + ("settle_funds",):
            K.holds("owner or delegate signs", n, e.pc, owner_or_delegate(e, e.one("open_orders_account::OpenOrdersAccount")), e.E, e.loc(),
                    "the account's owner, or the delegate its owner named, has signed")
        if n in OWNER:
            K.holds("owner signs", n, e.pc, signed_by(e, e.old(e.one("open_orders_account::OpenOrdersAccount"), "owner")), e.E, e.loc(), "the owner of the account has signed")
        if n in ("stub_oracle_set", "stub_oracle_close"):
            K.holds("owner signs", n, e.pc, signed_by(e, e.old(e.one("oracle::StubOracle"), "owner")), e.E, e.loc(), "the owner of the stub oracle has signed")
        if n in ADMIN:
            a = e.old(m, ADMIN[n])
            K.holds("administrator signs", n, e.pc, signed_by(e, a), e.E, e.loc(), "the market's administrator for this action has signed")
            if ADMIN[n].endswith(".key"):
                K.holds("administrator is configured", n, e.pc, isset(a), e.E, e.loc(), "the market has such an administrator")
        if n in ORDER_IX + ("place_take_order",):
            a = e.old(m, "open_orders_admin.key")
            K.holds("gatekeeper signs", n, e.pc, IMP(isset(a), signed_by(e, a)), e.E, e.loc(), "a configured order administrator has signed")
        if n in ("consume_events", "consume_given_events"):
            a = e.old(m, "consume_events_admin.key")
            K.holds("gatekeeper signs", n, e.pc, IMP(isset(a), signed_by(e, a)), e.E, e.loc(), "a configured event administrator has signed")
        if n in ("close_open_orders_account", "close_open_orders_indexer", "create_open_orders_account", "create_open_orders_indexer"):
            pda(K, e, n)
        # transfers
        for t in e.transfers():
            if t.args["kind"] != "token":
                continue   # the system program itself demands the payer's signature
            K.require(m, "token transfer without a market in %s" % n)
            auth = t.args["authority"]
            sig = apply(lambda x: atom(mk("signed", x)), auth)
            if True:
                vb, vq = e.old(m, "market_base_vault"), e.old(m, "market_quote_vault")
                frm = t.args["from"]
                fromvault = apply(lambda x: OR(eq(mk("keyof", x), vb.leaf), eq(mk("keyof", x), vq.leaf)), frm)
                ma = apply(lambda x: eq(mk("keyof", x), e.old(m, "market_authority").leaf), auth)
                seeds = not any(l.op == "nosigner" for l in leaves(t.args["signer"]))
                K.holds("transfer is authorised", "%s %s" % (n, nm(e, t)), t.guard, OR(sig, AND(fromvault, ma, DT if seeds else DF)), e.E, t.site,
                        "a wallet pays only with its signature, a vault only with the market's authority")
        if n not in ORDER_IX + CANCEL_IX + OWNER + OPEN and n not in ADMIN and n not in ("settle_funds", "stub_oracle_set", "stub_oracle_close", "close_open_orders_indexer"):
            raise Missing("instruction %s has no authorisation rule" % n)


def nm(e, t):
    def who(a):
        ns = []
        for l in leaves(a):
            for k, (x, _) in e.accs.items():
                if x is l:
                    ns.append(k)
        return "|".join(sorted(ns)) or "?"
    return "%s->%s" % (who(t.args["from"]), who(t.args["to"]))


def pda(K, e, n):
    """the indexer's address is derived from a signing owner"""
    a = e.acc("open_orders_indexer")
    tag = mk("lit", *[num(b) for b in b"OpenOrdersIndexer"])
    ok = DF
    for c in support(e.pc):
        if c.op == "eq" and mk("keyof", a) in c.args:
            sub = set(subterms([x for x in c.args if x is not mk("keyof", a)][0]))
            for g in support(e.pc):
                if g.op == "signed" and mk("keyof", g.args[0]) in sub and tag in sub:
                    ok = OR(ok, AND(atom(c), atom(g)))
    K.holds("derived from the signing owner", n, e.pc, ok, e.E, e.loc(), "the indexer is the one derived from an owner who has signed")
