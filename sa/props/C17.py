"""A market is created only with sound parameters, and exactly as asked for."""
from base import *

FLOOR = 50
SCALE = 1000000
PLAIN = ("quote_lot_size", "base_lot_size", "maker_fee", "taker_fee", "time_expiry")
KEYS = ("market_authority", "collect_fee_admin", "bids", "asks", "event_heap", "base_mint", "quote_mint", "market_base_vault", "market_quote_vault")
OPTIONS = ("open_orders_admin", "consume_events_admin", "close_market_admin", "oracle_a", "oracle_b")
ZERO = ("seq_num", "fees_accrued", "fees_to_referrers", "maker_volume", "taker_volume_wo_oo", "base_deposit_total", "quote_deposit_total", "fees_available", "referrer_rebates_accrued")
NONE = 65535


def known(a):
    return atom(mk("oracleknown", mk("fld", a, "key")))


def otype(E, a):
    return E.discr_of(E.sym(L(mk("oracletype", mk("fld", a, "key"))), oty(E)))


def oty(E):
    return [i for n, i in E.p.tyid.items() if n.endswith("oracle::OracleType")][0]


def kind(C):
    """the kind of an oracle account: recognised or not, and which"""
    E, k = C.E, get(C.E, C.load(0), "key")
    ok = apply(lambda x: atom(mk("oracleknown", x)), k)
    return EV(ite(ok, D(0), D(1)), {0: {"0": E.sym(apply(lambda x: mk("oracletype", x), k), C.payload(0))}, 1: {"0": E.sym(L(mk("sym", "unknownoracle")), C.payload(1))}}, None, C.dty)


def check(K):
    K.assume += ["accounts handed over for the books and the event heap are zeroed (the runtime zeroes them when they are allocated)", "the associated token program creates the vault it is asked for"]
    e = Entry(K, "create_market", xmodels=[(r"oracle::determine_oracle_type", kind)])
    E, pc, m, at = e.E, e.pc, e.one("state::market::Market"), e.loc()
    new = lambda n: e.new(m, n)
    for n in PLAIN:
        K.equal("as asked", n, pc, new(n), e.ix(n), E, at, "the market stores the parameter it was created with")
    for n in KEYS:
        K.equal("as asked", n, pc, new(n), e.key(n), E, at, "the market is tied to the account that was handed over")
    for n in OPTIONS:
        a, there = e.accs[n]
        K.equal("as asked", n, pc, new(n + ".key"), ite(there, e.key(n), L(mk("zerokey"))), E, at, "the market stores the account if one was given, and none otherwise")
    for s in ("base", "quote"):
        K.equal("as asked", s + "_decimals", pc, new(s + "_decimals"), dec(e, s + "_mint"), E, at, "decimals are those of the mint")
    cf = e.ix("oracle_config.conf_filter")
    K.equal("as asked", "conf_filter", pc, new("oracle_config.conf_filter"), cf, E, at, "the allowed deviation of the oracle is stored")
    st = e.ix("oracle_config.max_staleness_slots")
    K.equal("as asked", "max_staleness_slots", pc, new("oracle_config.max_staleness_slots"), ite(deq(E.discr_of(st), D(1)), E.field(st, "0", E.t(st.ty)["variants"][1]["fields"][0][1], 1), D(-1)), E, at,
            "the allowed age of the oracle price is stored, and is unlimited if none is given")
    K.equal("as asked", "registration_time", pc, new("registration_time"), e.now(), E, at, "the time of creation is recorded")
    for n in ZERO:
        K.equal("starts empty", n, pc, new(n), D(0), E, at, "all counters and totals of a new market are zero")
    mf, tf = e.ix("maker_fee"), e.ix("taker_fee")
    K.never("sound fees", "taker fee not negative", AND(pc, dlt(tf, D(0))), E, at, "no market pays takers")
    K.never("sound fees", "taker fee at most everything", AND(pc, dlt(D(SCALE), tf)), E, at, "no fee exceeds what is traded")
    K.never("sound fees", "maker fee at most everything", AND(pc, dlt(D(SCALE), mf)), E, at, "no fee exceeds what is traded")
    K.never("sound fees", "rebate covered", AND(pc, dlt(add(mf, tf), D(0)), dlt(mf, D(0))), E, at, "what a maker gets back never exceeds what the taker pays")
    for n in ("quote_lot_size", "base_lot_size"):
        K.never("sound lots", n, AND(pc, dlt(e.ix(n), D(1))), E, at, "lot sizes are positive")
    ex = e.ix("time_expiry")
    K.never("sound expiry", "in the future", AND(pc, NOT(deq(ex, D(0))), NOT(dlt(e.now(), ex))), E, at, "a market that expires does so in the future")
    K.never("sound mints", "different", AND(pc, eqkey(e.key("base_mint"), e.key("quote_mint"))), E, at, "base and quote are different tokens")
    (a, pa), (b, pb) = e.accs["oracle_a"], e.accs["oracle_b"]
    za, zb = (eqkey(e.key(n), L(mk("zerokey"))) for n in ("oracle_a", "oracle_b"))
    oa, ob = AND(pa, NOT(za)), AND(pb, NOT(zb))
    K.never("sound oracles", "no second without a first", AND(pc, ob, NOT(oa)), E, at, "a second oracle needs a first one")
    K.never("sound oracles", "different", AND(pc, oa, ob, eqkey(e.key("oracle_a"), e.key("oracle_b"))), E, at, "the two oracles are different accounts")
    K.holds("sound oracles", "first recognised", AND(pc, oa), known(a), E, at, "the oracle is of a kind that can be read")
    K.holds("sound oracles", "second recognised", AND(pc, oa, ob), known(b), E, at, "the oracle is of a kind that can be read")
    K.holds("sound oracles", "same kind", AND(pc, oa, ob), deq(otype(E, a), otype(E, b)), E, at, "both oracles are of the same kind")
    for n, t in (("bids", 0), ("asks", 1)):
        K.equal("books and heap", n, pc, e.new(n, "nodes.order_tree_type"), D(t), E, at, "each side of the book knows which side it is")
    for n, x in (("free_head", 0), ("used_head", NONE), ("count", 0), ("seq_num", 0)):
        K.equal("books and heap", "event heap " + n, pc, e.new("event_heap", "header." + n), D(x), E, at, "the event heap starts empty")
    authority(K, e, m)
    made = [(x, E.deepterm(e.st, x.args[1])) for x in E.effects if x.kind == "call" and "associated_token::create" in x.args[0]]
    for s in ("base", "quote"):
        ok, other = [], []
        for x, t in made:
            d = parts(t.leaf)
            if d.get("associated_token") is e.acc("market_%s_vault" % s):
                (ok if d.get("authority") is e.acc("market_authority") and d.get("mint") is e.acc(s + "_mint") and AND(pc, NOT(x.guard)) is DF else other).append(x)
        K.fact("vaults", s, bool(ok) and not other, at, "the %s vault is created for the market's authority and the %s mint" % (s, s), {"made": [show(t.leaf)[:300] for _, t in made]} if not ok or other else None)


def dec(e, n):
    return L(mk("fld", mk("fld", mk("data", e.acc(n)), "0"), "decimals", ty="u8"))


def eqkey(a, b):
    return deq(a, b)


def authority(K, e, m):
    """the stored bump and the stored authority belong to the same address derived from the market"""
    E = e.E
    f = lambda x: x.op == "pure" and "find_program_address" in x.args[0]
    b = restrict(e.new(m, "bump"), e.pc)
    src = {s for l in leaves(b) for s in subterms(l) if f(s)}
    ok = b.leaf is not None and len(src) == 1 and mk("keyof", e.acc(m)) in subterms(b.leaf)
    K.fact("authority", "bump", ok, e.loc(), "the stored bump is that of an address derived from the market")
    if ok:
        t = src.pop()
        K.holds("authority", "address", e.pc, deq(L(mk("fld", t, "0")), e.key("market_authority")), E, e.loc(), "the authority of the market is the address derived from it")


def parts(t):
    """all named parts of an aggregate, also of those inside"""
    r = {}
    if t is not None and t.op == "agg":
        for k, v in zip(t.args[::2], t.args[1::2]):
            r[k] = v
            if getattr(v, "op", None) == "agg":
                r.update(parts(v))
    return r
