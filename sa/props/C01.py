"""Every instruction: the sum of the token transfers into and out of each of the market's two vaults
equals the change of the deposit total recorded for that vault, for all arguments and account contents."""
from base import *
from summ import NEW_ORDER

FLOOR = 45


def vaults(e):
    m = e.of_type("state::market::Market")
    if len(m) != 1:
        return None
    return m[0]


def ledger(K, e, m):
    """signed sum of transfers per vault"""
    E = e.E
    res = {}
    for tok in ("base", "quote"):
        v = e.old(m, "market_%s_vault" % tok)
        o = e.old(m, "market_%s_vault" % ("quote" if tok == "base" else "base"))
        tot = D(0)
        for t in e.transfers():
            if t.args["kind"] != "token":
                continue
            for side, s in (("from", -1), ("to", 1)):
                a = t.args[side]
                # the account is this vault only where the instruction has checked so
                is_v = apply(lambda x: eq(mk("keyof", x), v.leaf), a)
                is_o = apply(lambda x: eq(mk("keyof", x), o.leaf), a)
                c = AND(t.guard, is_v)
                amt = ite(c, t.args["amount"], D(0))
                tot = add(tot, amt) if s > 0 else sub(tot, amt)
        res[tok] = tot
    return res


def distinct(e, m):
    """the two vaults differ, and an account not checked to be a vault is not one"""
    bv, qv = e.old(m, "market_base_vault").leaf, e.old(m, "market_quote_vault").leaf
    c = DT
    pc = e.pc
    seen = set()
    for t in e.transfers():
        for side in ("from", "to"):
            for x in leaves(t.args[side]) if isinstance(t.args[side], Node) else ():
                if x in seen:
                    continue
                seen.add(x)
                b, q = eq(mk("keyof", x), bv), eq(mk("keyof", x), qv)
                bound = imp(pc, OR(b, q))
                if bound:
                    c = AND(c, NOT(AND(b, q)))
                else:
                    c = AND(c, NOT(b), NOT(q))
    return c


def check(K):
    K.assume += ["the two vaults of a market are different token accounts", "a token account that the instruction does not check to be a vault is not one",
                 "a token transfer moves the stated amount (SPL token)", "arithmetic overflow aborts (overflow-checks in the release profile)"]
    names = entrypoints(K.P)
    K.require(len(names) >= 28, "instructions: %d" % len(names))
    for n in names:
        e = Entry(K, n, xmodels=[NEW_ORDER])
        m = vaults(e)
        ts = [t for t in e.transfers() if t.args["kind"] == "token"]
        K.count("token transfers", len(ts))
        own = {x.site for x in e.E.effects if x.kind == "call" and "Instruction::new_with_bytes" in x.args[0] and show(x.args[1]) == "static(ID)"}
        others = [x for x in e.E.effects if x.kind == "spl" or (x.kind == "invoke" and x.site not in own)]
        for x in others:
            K.fact("no other movement of tokens", "%s %s" % (n, x.args[0]), False, x.site, "tokens only move through plain transfers")
        if m is None:
            K.fact("no transfer without a market", n, not ts, ts[0].site if ts else e.loc(), "an instruction that names no market moves no tokens")
            continue
        if n == "create_market":
            for tok in ("base", "quote"):
                K.equal("a new market starts empty", "%s %s" % (n, tok), e.pc, e.new(m, tok + "_deposit_total"), D(0), e.E, e.loc(), "recorded deposits start at zero")
            K.fact("no transfer at creation", n, not ts, e.loc())
            continue
        led = ledger(K, e, m)
        d = distinct(e, m)
        for tok in ("base", "quote"):
            delta = sub(e.new(m, tok + "_deposit_total"), e.old(m, tok + "_deposit_total"))
            site = ts[0].site if ts else e.loc()
            K.equal("vault movement equals recorded change", "%s %s" % (n, tok), AND(e.pc, d), delta, led[tok], e.E, site,
                    "the recorded %s deposits change by exactly what the transfers move" % tok)
