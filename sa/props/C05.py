"""Settlement pays out exactly the free balances, to accounts the owner controls or chose, once."""
from base import *

FLOOR = 40
OO = "open_orders_account::OpenOrdersAccount"


def check(K):
    K.assume += ["a token transfer moves the stated amount (SPL token)", "arithmetic overflow aborts (overflow-checks in the release profile)",
                 "the accounts of one instruction that are checked to be different roles do not alias"]
    for n in ("settle_funds", "settle_funds_expired"):
        e = Entry(K, n)
        E = e.E
        m, o = e.one("state::market::Market"), e.one(OO)
        P = lambda f: e.old(o, "position." + f)
        PN = lambda f: e.new(o, "position." + f)
        M, MN = lambda f: e.old(m, f), lambda f: e.new(m, f)
        toks = [t for t in e.transfers() if t.args["kind"] == "token"]
        lams = [t for t in e.transfers() if t.args["kind"] != "token"]
        rounding = AND(dlt(D(0), M("maker_fee")), deq(P("bids_base_lots"), D(0)))
        referrer = add(P("referrer_rebates_available"), ite(rounding, P("locked_maker_fees"), D(0)))
        has_ref = e.accs["referrer_account"][1] if "referrer_account" in e.accs else None
        K.require(has_ref is not None, "optional referrer account")
        user = {"base": [], "quote": []}
        refs = []
        for t in toks:
            frm, to = t.args["from"], t.args["to"]
            K.require(to.leaf is not None and frm.leaf is not None, "fixed accounts in a settlement transfer")
            name = next((k for k, (y, _) in e.accs.items() if y is to.leaf), "?")
            tok = None
            for k in ("base", "quote"):
                if imp(t.guard, keyeq(L(mk("keyof", frm.leaf)), M("market_%s_vault" % k))):
                    tok = k
            K.fact("paid from a vault", "%s %s" % (n, name), tok is not None, t.site, "settlement pays out of the market's vaults")
            if tok is None:
                continue
            if name == "referrer_account":
                K.fact("referrer is paid in quote", n, tok == "quote", t.site)
                refs.append(t)
                continue
            user[tok].append(t)
            # who gets it
            so = OR(*[AND(atom(a), keyeq(L(mk("keyof", a.args[0])), e.old(o, "owner"))) for a in support(e.pc) if a.op == "signed"])
            if n == "settle_funds_expired":
                so = DF
            K.holds("destination is the owner's choice", "%s %s" % (n, tok), t.guard, OR(so, keyeq(e.old(name, "0.owner"), e.old(o, "owner"))), E, t.site,
                    "without the owner's signature the funds go to a token account of the owner")
        for tok in ("base", "quote"):
            tot = add(*[ite(t.guard, t.args["amount"], D(0)) for t in user[tok]])
            K.equal("free balance is paid in full", "%s %s" % (n, tok), e.pc, tot, P(tok + "_free_native"), E, user[tok][0].site if user[tok] else e.loc(),
                    "the %s paid out is the free balance" % tok)
            K.equal("free balance is paid once", "%s %s" % (n, tok), e.pc, PN(tok + "_free_native"), D(0), E, e.loc(), "nothing stays claimable after settlement")
        K.equal("rebates are paid once", n, e.pc, PN("referrer_rebates_available"), D(0), E, e.loc(), "no rebate stays claimable after settlement")
        K.equal("rounding is released once", n, e.pc, PN("locked_maker_fees"), ite(rounding, D(0), P("locked_maker_fees")), E, e.loc(),
                "fees locked for orders are released only when no bid is left and makers pay")
        tot = add(*[ite(t.guard, t.args["amount"], D(0)) for t in refs])
        K.equal("referrer is paid the rebates", n, e.pc, tot, ite(has_ref, referrer, D(0)), E, refs[0].site if refs else e.loc(), "a referrer receives the accrued rebates and rounding")
        K.equal("rebates become fees otherwise", n, e.pc, MN("fees_available"), add(M("fees_available"), ite(has_ref, D(0), referrer)), E, e.loc(), "without referrer they become fees of the market")
        K.equal("referrer statistics", n, e.pc, MN("fees_to_referrers"), add(M("fees_to_referrers"), ite(has_ref, referrer, D(0))), E, e.loc(), "the total paid to referrers is recorded")
        K.equal("accrued rebates decrease", n, e.pc, MN("referrer_rebates_accrued"), sub(M("referrer_rebates_accrued"), P("referrer_rebates_available")), E, e.loc(),
                "the market's outstanding rebates fall by what was available")
        K.equal("base total", n, e.pc, MN("base_deposit_total"), sub(M("base_deposit_total"), P("base_free_native")), E, e.loc(), "the recorded base deposits fall by what is paid")
        K.equal("quote total", n, e.pc, MN("quote_deposit_total"), sub(M("quote_deposit_total"), add(P("quote_free_native"), ite(has_ref, referrer, D(0)))), E, e.loc(),
                "the recorded quote deposits fall by what is paid")
        # penalty
        tot = add(*[ite(t.guard, t.args["amount"], D(0)) for t in lams])
        K.equal("penalty is paid", n, e.pc, tot, mul(D(500), P("penalty_heap_count")), E, lams[0].site if lams else e.loc(), "500 lamports are paid for every counted event")
        for t in lams:
            K.holds("penalty goes to the market", n, t.guard, deq(apply(lambda x: mk("keyof", x), t.args["to"]), e.key(m)), E, t.site, "the penalty is paid to the market account")
        K.equal("penalty is paid once", n, e.pc, PN("penalty_heap_count"), D(0), E, e.loc(), "the count starts again")
        frame(K, e, o, ("position.base_free_native", "position.quote_free_native", "position.referrer_rebates_available", "position.locked_maker_fees", "position.penalty_heap_count"),
              "nothing else of the account changes", n, "orders, lots and volumes stay")
        frame(K, e, m, ("fees_to_referrers", "fees_available", "quote_deposit_total", "base_deposit_total", "referrer_rebates_accrued"),
              "nothing else of the market changes", n, "other market data stay")
        lg = logs(e, "SettleFundsLog")
        K.require(lg, "settlement log")
        for x in lg:
            c = x.args[1]
            K.equal("settlement log", n + " base", x.guard, get(E, c, "base_native"), P("base_free_native"), E, x.site, "the log reports the base paid")
            K.equal("settlement log", n + " quote", x.guard, get(E, c, "quote_native"), P("quote_free_native"), E, x.site, "the log reports the quote paid")
            K.equal("settlement log", n + " rebate", x.guard, get(E, c, "referrer_rebate"), referrer, E, x.site, "the log reports the rebate")
            K.equal("settlement log", n + " account", x.guard, get(E, c, "open_orders_account"), e.key(o), E, x.site, "the log names the account")
