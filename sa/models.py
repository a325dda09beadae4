"""Summaries of external functions for the abstract interpreter.

A model receives a Call and returns the result cell (or NotImplemented to fall back to an opaque
call). Order matters: first match wins.
"""
import re
from terms import *
import engine as EN

_M = []


def m(*rx):
    def d(f):
        for r in rx:
            _M.append((re.compile(r), f))
        return f
    return d


def build():
    return list(_M)


def unit(C):
    return EN.SV({}, None, C.dty)


# ---- diverging -----------------------------------------------------------------------------
@m(r"^core::panicking::", r"^std::rt::(begin_panic|panic_fmt)", r"^core::option::unwrap_failed", r"^core::option::expect_failed",
   r"^core::result::unwrap_failed", r"^std::option::expect_failed", r"^std::option::unwrap_failed", r"^std::result::unwrap_failed",
   r"^core::slice::index::slice_", r"^std::process::abort", r"^core::intrinsics::(unreachable|abort)", r"^core::hint::unreachable_unchecked")
def diverge(C):
    C.E.panics.append((C.st.pc, C.site))
    C.st = None
    return None


# ---- errors, formatting, logging ------------------------------------------------------------
@m(r"^<anchor_lang::error::Error as std::convert::From<anchor_lang::error::AnchorError>>::from")
def err_from(C):
    c = C.E.field(C.args[0], "error_code_number", C.E.p.tyid["u32"])
    return apply(lambda x: mk("err", x), c)


@m(r"^<anchor_lang::error::Error as std::convert::From<.*>>::from$")
def err_from2(C):
    a = C.args[0]
    if isinstance(a, EN.EV):
        return apply(lambda x: mk("err", x), a.d)
    if isinstance(a, Node):
        return apply(lambda x: x if x.op == "err" else mk("err", x), a)
    return L(mk("err", "other"))


@m(r"^anchor_lang::error::Error::(with_|log)", r"^<anchor_lang::error::Error as .*>::(with_|clone)")
def err_id(C):
    if C.dty is not None and C.E.t(C.dty)["s"] == "()":
        return unit(C)
    return C.args[0]


@m(r"^<.* as std::string::ToString>::to_string$", r"^std::fmt::format$", r"^core::fmt::rt::", r"^std::fmt::Arguments", r"^core::fmt::Arguments",
   r"^std::hint::must_use", r"^anchor_lang::error::ErrorCode::name", r"^error::OpenBookError::name$", r"^std::fmt::rt::", r"^anchor_lang::error::.*::name$",
   r"^alloc::fmt::format", r"^std::string::String::(new|from)", r"^<std::string::String as std::convert::From", r"^std::alloc::")
def fmt(C):
    return C.E.sym(L(mk("text")), C.dty)


@m(r"^solana_program::log::sol_log$", r"^solana_program::log::sol_log_64", r"^anchor_lang::prelude::msg", r"^solana_program::msg", r"^anchor_lang::solana_program::log::sol_log", r"^solana_program::log::sol_log_compute_units")
def noop(C):
    return unit(C)


@m(r"^logs::emit_stack")
def emit(C):
    C.E.note("log", C.st, (C.E.t(C.atys[0])["s"], C.args[0]), C.site)
    return unit(C)


# ---- integers -------------------------------------------------------------------------------
def ity(C, i=0):
    t = C.E.t(C.atys[i])
    while t["k"] == "ref":
        t = C.E.t(t["to"])
    return t["s"]


def rng(s):
    n = BITS[s]
    return (0, (1 << n) - 1) if s[0] == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def ovf(t, s):
    """condition: the exact result t does not fit the type s"""
    if t.op == "int":
        lo, hi = rng(s)
        return DF if lo <= t.args[0] <= hi else DT
    if t.ty == s:
        return DF
    return atom(mk("ovf", t, s))


def under(t, s):
    return lt0(t) if s[0] == "u" else None


INT = r"(?:core|std)::num::<impl ([ui](?:8|16|32|64|128|size))>::"


def arith(name, a, b):
    return apply({"add": padd, "sub": psub, "mul": pmul}[name], a, b)


@m(INT + r"checked_(add|sub|mul)$")
def checked(C):
    op = C.f["path"].rsplit("_", 1)[1]
    s = ity(C)
    r = arith(op, C.args[0], C.args[1])
    if op == "sub" and s[0] == "u":
        bad = apply(lt0, r)
    else:
        bad = apply(lambda x: ovf(x, s), r)
    return C.opt(NOT(bad), r)


@m(INT + r"checked_(div|rem)$")
def checkeddiv(C):
    op = C.f["path"].rsplit("_", 1)[1].capitalize()
    s = ity(C)
    r = apply(lambda x, y: C.E.bitop(op, x, y, s), C.args[0], C.args[1])
    return C.opt(NOT(deq(C.args[1], D(0))), r)


@m(INT + r"saturating_(add|sub|mul)$")
def saturating(C):
    op = C.f["path"].rsplit("_", 1)[1]
    s = ity(C)
    r = arith(op, C.args[0], C.args[1])
    if op == "sub" and s[0] == "u":
        return apply(lambda x, y: pmax(psub(x, y), ZERO), C.args[0], C.args[1])
    lo, hi = rng(s)
    return apply(lambda x: ite(lt0(psub(x, num(lo))), D(lo), ite(lt0(psub(num(hi), x)), D(hi), L(x))), r)


@m(INT + r"wrapping_(add|sub|mul)$", INT + r"unchecked_(add|sub|mul)$")
def wrapping(C):
    return arith(C.f["path"].rsplit("_", 1)[1], C.args[0], C.args[1])


@m(INT + r"wrapping_neg$")
def wneg(C):
    return apply(lambda x: psub(ZERO, x), C.args[0])


@m(INT + r"overflowing_(add|sub|mul)$")
def overflowing(C):
    op = C.f["path"].rsplit("_", 1)[1]
    s = ity(C)
    r = arith(op, C.args[0], C.args[1])
    bad = apply(lt0, r) if op == "sub" and s[0] == "u" else apply(lambda x: ovf(x, s), r)
    return EN.SV({"0": r, "1": bad}, None, C.dty)


@m(INT + r"abs_diff$")
def absdiff(C):
    return apply(lambda x, y: psub(pmax(x, y), pmin(x, y)), C.args[0], C.args[1])


@m(INT + r"(abs|unsigned_abs|wrapping_abs)$")
def absm(C):
    x = C.args[0]
    return ite(dlt(x, D(0)), apply(lambda y: psub(ZERO, y), x), x)


@m(INT + r"is_positive$")
def ispos(C):
    return dlt(D(0), C.args[0])


@m(INT + r"is_negative$")
def isneg(C):
    return dlt(C.args[0], D(0))


@m(INT + r"signum$")
def signum(C):
    return ite(dlt(C.args[0], D(0)), D(-1), ite(deq(C.args[0], D(0)), D(0), D(1)))


@m(INT + r"(leading_zeros|trailing_zeros|count_ones|swap_bytes|to_le_bytes|to_be_bytes|from_le_bytes|from_be_bytes|to_ne_bytes|rotate_left)$")
def intopq(C):
    nm = C.f["path"].rsplit("::", 1)[1]
    a = C.E.deepterm(C.st, C.args[0])
    s = ity(C)
    r = apply(lambda x: mk(nm, x, s), a)
    return C.E.sym(r, C.dty)


@m(INT + r"pow$")
def powm(C):
    def f(x, y):
        if y.op == "int" and 0 <= y.args[0] <= 8:
            r = ONE
            for _ in range(y.args[0]):
                r = pmul(r, x)
            return r
        return mk("pow", x, y, ty=ity(C))
    return apply(f, C.args[0], C.args[1])


@m(r"^std::cmp::(min|max)::<[ui](8|16|32|64|128|size)>$", r"^<[ui](8|16|32|64|128|size) as std::cmp::Ord>::(min|max)$")
def minmax(C):
    nm = C.f["path"].rsplit("::", 1)[1]
    return apply(pmin if nm == "min" else pmax, C.args[0], C.args[1])


@m(r"^<[ui](8|16|32|64|128|size) as std::cmp::Ord>::clamp$")
def clamp(C):
    return apply(lambda x, lo, hi: pmin(pmax(x, lo), hi), *C.args)


@m(r"^<[ui](8|16|32|64|128|size) as std::cmp::Ord>::cmp$")
def cmpm(C):
    a, b = C.load(0), C.load(1)
    return EN.EV(ite(dlt(a, b), D(-1), ite(deq(a, b), D(0), D(1))), {}, None, C.dty)


@m(r"^<[ui](8|16|32|64|128|size) as std::cmp::PartialOrd>::partial_cmp$")
def pcmpm(C):
    a, b = C.load(0), C.load(1)
    return C.some(EN.EV(ite(dlt(a, b), D(-1), ite(deq(a, b), D(0), D(1))), {}, None, C.payload()))


@m(r"^<[ui](8|16|32|64|128|size) as std::cmp::Partial(Eq|Ord)(<.*>)?>::(eq|ne|lt|le|gt|ge)$", r"^<bool as std::cmp::PartialEq>::(eq|ne)$", r"^<char as std::cmp::PartialEq>::(eq|ne)$")
def cmpops(C):
    a, b = C.load(0), C.load(1)
    op = C.f["path"].rsplit("::", 1)[1]
    return {"eq": lambda: deqb(a, b), "ne": lambda: NOT(deqb(a, b)), "lt": lambda: dlt(a, b), "gt": lambda: dlt(b, a),
            "le": lambda: NOT(dlt(b, a)), "ge": lambda: NOT(dlt(a, b))}[op]()


def isb(n):
    return all(x in (TRUE, FALSE) for x in leaves(n))


def deqb(a, b):
    if isb(a) and isb(b):
        return IFF(a, b)
    return deq(a, b)


@m(r"^<&?(mut )?&.* as std::cmp::PartialEq<&.*>>::(eq|ne)$", r"^<&.* as std::cmp::PartialEq>::(eq|ne)$", r"^std::cmp::impls::<impl .*PartialEq<&.*>>::(eq|ne)$")
def refeq(C):
    # compare what the references point to
    op = C.f["path"].rsplit("::", 1)[1]
    a, b = C.load(0), C.load(1)
    ta, tb = C.E.t(C.pointee(0)), C.E.t(C.pointee(1))
    if isinstance(a, Node) and isinstance(b, Node) and ta["k"] == "ref" and tb["k"] == "ref":
        a = C.E.load(C.st, a, ta["to"])
        b = C.E.load(C.st, b, tb["to"])
        r = celleq(C, a, b)
        if r is not None:
            return NOT(r) if op == "ne" else r
    return NotImplemented


@m(r"^<(anchor_lang::prelude::|solana_program::pubkey::)?Pubkey as std::cmp::PartialEq>::(eq|ne)$",
   r"^<anchor_lang::prelude::Pubkey as std::cmp::PartialEq>::(eq|ne)$", r"^<\[.*\] as std::cmp::PartialEq.*>::(eq|ne)$", r"^<.*Pubkey as std::cmp::PartialEq.*>::(eq|ne)$",
   r"^<(pyth_sdk_solana|switchboard).* as std::cmp::PartialEq>::(eq|ne)$")
def keyeq(C):
    op = C.f["path"].rsplit("::", 1)[1]
    r = celleq(C, C.load(0), C.load(1))
    if r is None:
        return NotImplemented
    return NOT(r) if op == "ne" else r


def celleq(C, a, b):
    E = C.E
    if isinstance(a, EN.EV) or isinstance(b, EN.EV):
        return deq(E.discr_of(a), E.discr_of(b)) if all(not getattr(x, "p", None) for x in (a, b)) else None
    ta = E.deepterm(C.st, a)
    tb = E.deepterm(C.st, b)
    if isb(ta) and isb(tb):
        return IFF(ta, tb)
    return deq(ta, tb)


@m(r"^std::convert::num::<impl std::convert::TryFrom<", r"^<[ui](8|16|32|64|128|size) as std::convert::TryInto<[ui](8|16|32|64|128|size)>>::try_into$",
   r"^<[ui](8|16|32|64|128|size) as std::convert::TryFrom<[ui](8|16|32|64|128|size)>>::try_from$")
def tryint(C):
    s = C.E.t(C.atys[0])["s"]
    t = C.E.t(C.payload(0))["s"]
    a = C.args[0]
    bad = DF
    if t[0] == "u" and s[0] != "u":
        bad = apply(lt0, a)
    # values that exceed the range of a narrower type are reported as an error as well
    if BITS[t] < BITS[s] or (BITS[t] == BITS[s] and t[0] == "i" and s[0] == "u"):
        bad = OR(bad, apply(lambda x: ovf(x, t) if not fits(x, t) else DF, a))
    return EN.EV(ite(bad, D(1), D(0)), {0: {"0": a}, 1: {"0": L(mk("tryfromint"))}}, None, C.dty)


def fits(x, t):
    if x.op == "int":
        lo, hi = rng(t)
        return lo <= x.args[0] <= hi
    if x.ty in BITS and x.ty != "bool":
        if x.ty == t:
            return True
        lo, hi = rng(t)
        l2, h2 = rng(x.ty)
        return lo <= l2 and h2 <= hi
    return False


@m(r"^<[ui](8|16|32|64|128|size) as std::convert::(From|Into)<([ui](8|16|32|64|128|size))>>::(from|into)$", r"^std::convert::num::<impl std::convert::From<[ui].*>::from$")
def fromint(C):
    return C.args[0]


@m(r"^<[ui](8|16|32|64|128|size) as std::convert::From<bool>>::from$", r"^<bool as std::convert::Into<[ui].*>>::into$", r"^std::convert::num::<impl std::convert::From<bool>")
def frombool(C):
    return ite(C.args[0], D(1), D(0))


@m(r"^<char as std::convert::From<u8>>::from")
def fromchar(C):
    return C.args[0]


@m(r"^<([ui](8|16|32|64|128|size)|bool) as std::default::Default>::default$")
def defint(C):
    return DF if C.E.t(C.dty)["s"] == "bool" else D(0)


@m(r"^<\[.*; \d+\] as std::default::Default>::default$", r"as bytemuck::Zeroable>::zeroed$", r"^std::mem::zeroed", r"^core::mem::zeroed", r"^bytemuck::Zeroable::zeroed")
def zeroed(C):
    return zerocell(C.E, C.dty)


def zerocell(E, ty):
    t = E.t(ty)
    k = t["k"]
    if k in ("int", "uint", "char"):
        return D(0)
    if k == "bool":
        return DF
    if k == "array":
        return EN.AV(None, ("rep", zerocell(E, t["of"])), (), ty)
    if k == "tuple":
        return EN.SV({str(i): zerocell(E, x) for i, x in enumerate(t["of"])}, None, ty)
    if k == "adt" and t["kind"] == "struct" and not E.is_atomic(ty):
        return EN.SV({n: zerocell(E, ft) for n, ft, _ in t["variants"][0]["fields"]}, None, ty)
    if k == "adt" and t["path"].endswith("Pubkey"):
        return L(ZEROKEY)
    return L(mk("zero", t["s"]))


ZEROKEY = mk("zerokey")


@m(r"^<(anchor_lang::prelude::)?.*Pubkey as std::default::Default>::default$")
def defkey(C):
    return L(ZEROKEY)


@m(r"^std::mem::size_of", r"^core::mem::size_of")
def sizeof(C):
    t = C.E.t(C.f["gen"][0])
    return D(t["size"]) if "size" in t else L(mk("sizeof", t["s"], ty="usize"))


@m(r"^std::mem::(drop|forget)", r"^core::mem::drop")
def drop(C):
    return unit(C)


# ---- clone / copy / borrow identities ----------------------------------------------------------
@m(r" as std::clone::Clone>::clone$", r"^std::clone::impls::<impl std::clone::Clone for ")
def clone(C):
    if C.E.t(C.atys[0])["k"] != "ref":
        return C.args[0]
    return C.load(0)


@m(r"^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^<std::boxed::Box<.*> as std::(ops::Deref|convert::AsRef|ops::DerefMut|borrow::Borrow|convert::AsMut).*$",
   r"^<std::rc::Rc<.*> as std::ops::Deref>::deref$")
def wrapderef(C):
    # arg: &RefMut<T>; value of the wrapper is the reference itself
    v = C.load(0)
    return v if isinstance(v, Node) else C.E.as_node(v)


@m(r"^std::cell::Ref(Mut)?::<.*>::(map|clone)")
def refmap(C):
    if len(C.args) == 2:
        s, r = C.E.call_closure(C.st, C.args[1], C.atys[1], [C.args[0]], C.site)
        C.st = s
        return r
    return C.load(0)


@m(r"^std::boxed::Box::<.*>::new$")
def boxnew(C):
    root = ("obj", "box%d" % C.E.nextid())
    C.st.ob[root] = C.args[0]
    return L(mk("ref", root, ()))


@m(r"^<std::string::String as std::ops::Deref>::deref", r"^core::str::<impl str>::(as_bytes|as_ptr)$", r"^std::string::String::as_(str|bytes)$", r"^<&?\[.*\] as std::convert::AsRef<.*>>::as_ref$", r"^<str as std::convert::AsRef<.*>>::as_ref$",
   r"^core::array::<impl \[.*\]>::as_slice$", r"^std::slice::<impl \[.*\]>::as_ref", r"as std::convert::AsRef<\[u8\]>>::as_ref$")
def ident(C):
    return C.args[0]


# ---- anchor accounts ---------------------------------------------------------------------------
ACC = r"(?:anchor_lang::prelude::|anchor_lang::accounts::\w+::)?(?:AccountLoader|Account|Signer|Program|UncheckedAccount|SystemAccount|AccountInfo|Sysvar|InterfaceAccount)(?:<.*>)?"


def acct(C, i=0):
    v = C.args[i]
    t = C.E.t(C.atys[i])
    while t["k"] == "ref":
        v = C.E.load(C.st, v, t["to"])
        t = C.E.t(t["to"])
    while t["k"] == "adt" and t["path"] == "std::boxed::Box":
        # a box is the reference to its content
        if any(l.op == "ref" for l in leaves(v)):
            v = C.E.load(C.st, v, t["args"][0])
        t = C.E.t(t["args"][0])
    return v if isinstance(v, Node) else C.E.as_node(v)


def keyof(a):
    return apply(lambda x: mk("keyof", x), a)


@m(r"^<" + ACC + r" as anchor_lang::Key>::key$", r"^<std::boxed::Box<.*> as anchor_lang::Key>::key$")
def keym(C):
    return keyof(acct(C))


@m(r"^<(anchor_lang::prelude::)?Pubkey as anchor_lang::Key>::key$", r"^<.*Pubkey as anchor_lang::Key>::key$")
def keykey(C):
    return C.load(0)


@m(r"^anchor_lang::prelude::" + r"(Signer|UncheckedAccount|SystemAccount|AccountInfo|Account|AccountLoader|Program)(::<.*>)?::(key|unsigned_key|signer_key)$")
def keyref(C):
    a = acct(C)
    to = C.E.t(C.dty).get("to")
    if to is None:
        return keyof(a)
    return apply(lambda x: mk("ref", ("ptr", mk("keyof", x), to), ()), a)


@m(r"^<.* as anchor_lang::ToAccountInfos<.*>>::to_account_infos$")
def toais(C):
    return C.E.freshsym("infos", C.dty)


@m(r"^<.* as anchor_lang::ToAccountInfo<.*>>::to_account_info$")
def toai(C):
    return acct(C)


@m(r"^<" + ACC + r" as std::convert::AsRef<anchor_lang::prelude::AccountInfo<.*>>>::as_ref$", r"^<anchor_lang::prelude::(UncheckedAccount|Signer|SystemAccount|Program)<.*> as std::ops::Deref>::deref$")
def aideref(C):
    a = acct(C)
    to = C.E.t(C.dty)["to"]
    return apply(lambda x: mk("ref", ("ptr", x, to), ()), a)


@m(r"^<anchor_lang::prelude::Account<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def accderef(C):
    a = acct(C)
    to = C.E.t(C.dty)["to"]
    return apply(lambda x: mk("ref", ("acct", x, to), ()), a)


@m(r"^<anchor_spl::token::(TokenAccount|Mint) as std::ops::Deref>::deref$")
def spldref(C):
    to = C.E.t(C.dty)["to"]

    def f(x):
        if x.op == "ref":
            return mk("ref", x.args[0], x.args[1] + (("f", "0", to, None),))
        return mk("ref", ("ptr", EN.deref(x), to), ())
    return apply(f, C.args[0])


@m(r"^anchor_lang::prelude::AccountLoader::<.*>::(load|load_mut|load_init)$")
def loaderload(C):
    a = acct(C)
    nm = C.f["path"].rsplit("::", 1)[1]
    inner = C.f["gen"][0]
    C.E.note("load", C.st, (nm, a, C.E.t(inner)["s"]), C.site)
    return C.ok(apply(lambda x: mk("ref", ("acct", x, inner), ()), a))


@m(r"^anchor_lang::prelude::Account(Loader)?::<.*>::try_from(_unchecked)?$")
def loadertry(C):
    i = len(C.args) - 1
    a = acct(C, i)
    C.E.accttypes = getattr(C.E, "accttypes", {})
    for l in leaves(a):
        C.E.accttypes.setdefault(l, C.E.t(C.payload(0))["s"])
    C.E.note("tryload", C.st, (a, C.E.t(C.f["gen"][0])["s"]), C.site)
    ok = apply(lambda x: atom(mk("validacct", x, C.E.t(C.f["gen"][0])["s"])), a)
    return EN.EV(ite(ok, D(0), D(1)), {0: {"0": a}, 1: {"0": L(mk("err", "account"))}}, None, C.dty)


@m(r"^<anchor_lang::prelude::Clock as .*>::get$", r"^<anchor_lang::prelude::Rent as .*>::get$", r"^<solana_program::clock::Clock as .*>::get$")
def clockget(C):
    return C.ok(C.E.sym(L(mk("sysvar", C.E.t(C.payload(0))["s"])), C.payload(0)))


ACCT_TY = re.compile(r"^(?:std::boxed::Box<)?(?:anchor_lang::prelude::|anchor_lang::accounts::\w+::)(AccountLoader|Account|Signer|Program|UncheckedAccount|SystemAccount|AccountInfo|Sysvar)<(.*)$")


@m(r"^<instruction::.* as anchor_lang::AnchorDeserialize>::deserialize$")
def ixargs(C):
    return C.ok(C.E.sym(L(mk("sym", "ix")), C.payload(0)))


@m(r"^<.* as anchor_lang::Accounts<.*>>::try_accounts$")
def tryacc(C):
    E = C.E
    s = E.t(C.f["gen"][0])["s"] if C.f["gen"] else ""
    full = C.f["full"]
    s = full[1:].split(" as anchor_lang::Accounts")[0]
    opt = False
    if s.startswith("std::option::Option<"):
        opt = True
        s = s[len("std::option::Option<"):-1]
    mm = ACCT_TY.match(s)
    if not mm:
        return NotImplemented
    E.acctno = getattr(E, "acctno", 0) + 1
    x = mk("acc", E.acctno)
    kind = mm.group(1)
    E.accttypes = getattr(E, "accttypes", {})
    E.accttypes[x] = s
    pl = C.payload(0)
    cond = DT
    if kind == "Signer":
        cond = atom(mk("signed", x))
    elif kind == "Program":
        cond = atom(mk("program", x, mm.group(2)))
    elif kind in ("AccountLoader", "Account"):
        cond = atom(mk("typed", x, s))
    elif kind == "SystemAccount":
        cond = atom(mk("system", x))
    cell = L(x)
    if opt:
        present = atom(mk("present", x))
        C.st.pc = AND(C.st.pc, IMP(present, cond))
        return C.ok(EN.EV(ite(present, D(1), D(0)), {1: {"0": cell}}, None, pl))
    C.st.pc = AND(C.st.pc, cond)
    return C.ok(cell)


@m(r"^anchor_lang::context::Context::<.*>::new$")
def ctxnew(C):
    t = C.E.t(C.dty)
    names = [f[0] for f in t["variants"][0]["fields"]]
    args = list(C.args)
    if C.E.ctx_accounts is None:
        C.E.ctx_accounts = C.E.load(C.st, C.args[1], C.pointee(1))
    by = {"program_id": 0, "accounts": 1, "remaining_accounts": 2, "bumps": 3}
    return EN.SV({n: args[by[n]] for n in names if n in by}, None, C.dty)


@m(r"^<.* as anchor_lang::AccountsClose<.*>>::close$")
def closem(C):
    C.E.note("close", C.st, (acct(C, 0), acct(C, 1)), C.site)
    return C.ok(EN.SV({}, None, C.payload(0)))


@m(r"^<.* as anchor_lang::AccountsExit<.*>>::exit$")
def exitm(C):
    if C.f["inst"] is not None and C.E.p.insts[C.f["inst"]].get("body"):
        s, r = C.E.call_inst(C.st, C.E.p.insts[C.f["inst"]], C.args, C.site)
        C.st = s
        return r
    return C.ok(EN.SV({}, None, C.payload(0)))


# ---- cross-program calls ------------------------------------------------------------------------
@m(r"^anchor_lang::context::CpiContext::<.*>::(new|new_with_signer)$")
def cpinew(C):
    signer = C.E.deepterm(C.st, C.args[2]) if len(C.args) > 2 else L(mk("nosigner"))
    return EN.SV({"program": C.args[0], "accounts": C.args[1], "signer_seeds": signer}, None, C.dty)


@m(r"^anchor_lang::context::CpiContext::<.*>::with_signer$")
def cpisign(C):
    return C.E.setfield(C.args[0], "signer_seeds", C.E.deepterm(C.st, C.args[1]))


@m(r"^anchor_spl::token::transfer$", r"^anchor_lang::system_program::transfer$", r"^anchor_spl::token::transfer_checked$")
def transfer(C):
    E = C.E
    kind = "token" if "anchor_spl" in C.f["path"] else "lamports"
    cpi = C.args[0]
    acc = cpi.f["accounts"]
    g = lambda n: acc.f.get(n) if isinstance(acc, EN.SV) else None
    E.note("transfer", C.st, {"kind": kind, "from": g("from"), "to": g("to"), "authority": g("authority"), "amount": C.args[1],
                              "signer": cpi.f["signer_seeds"], "program": cpi.f["program"]}, C.site)
    return C.ok(EN.SV({}, None, C.payload(0)))


@m(r"^anchor_spl::token::(close_account|burn|mint_to|approve|set_authority)$")
def splother(C):
    C.E.note("spl", C.st, (C.f["path"],) + tuple(C.args), C.site)
    return C.ok(EN.SV({}, None, C.payload(0)))


@m(r"^solana_program::program::invoke(_signed)?(_unchecked)?$")
def invoke(C):
    C.E.note("invoke", C.st, (C.f["path"],) + tuple(C.args), C.site)
    return C.ok(EN.SV({}, None, C.payload(0)))


# ---- bytemuck -----------------------------------------------------------------------------------
@m(r"^bytemuck::(try_)?cast_(ref|mut)::<")
def castref(C):
    to = C.f["gen"][1]
    name = C.E.t(to)["s"]
    frm = C.E.t(C.f["gen"][0])["s"]

    def f(x):
        if x.op == "ref":
            r, p = x.args
        else:
            r, p = ("ptr", EN.deref(x), C.f["gen"][0]), ()
        if p and p[-1][0] == "c" and viewof(frm) is not None and name.endswith("AnyNode") or (p and p[-1][0] == "c" and name.endswith("AnyEvent")):
            return mk("ref", r, p[:-1])
        if name.endswith(("AnyNode", "AnyEvent")):
            return mk("ref", r, p + (("u", C.f["gen"][0], to),))
        return mk("ref", r, p + (("c", name, to),))
    return apply(f, C.args[0])


def viewof(s):
    return s.rsplit("::", 1)[1] if s.endswith(("Node", "Event")) else None


@m(r"^bytemuck::cast::<")
def castval(C):
    frm, to = C.f["gen"][0], C.f["gen"][1]
    name = C.E.t(to)["s"]
    if name.endswith(("AnyNode", "AnyEvent")):
        return upcast(C.E, C.args[0], frm, to)
    return C.E.castview(C.args[0], name, to)


def upcast(E, v, frm, to):
    return E.upcast(v, frm, to)


@m(r"^bytemuck::from_bytes(_mut)?::<")
def frombytes(C):
    a = C.E.deepterm(C.st, C.args[0])
    to = C.E.t(C.dty)["to"]
    return apply(lambda x: mk("ref", ("ptr", mk("bytes_as", x, C.E.t(to)["s"]), to), ()), a)


# ---- slices, vectors, iterators -------------------------------------------------------------------
def refpath(x, e, ty=None):
    if x.op == "ref":
        return mk("ref", x.args[0], x.args[1] + (e,))
    return mk("ref", ("ptr", EN.deref(x), ty), (e,))


@m(r"^core::slice::<impl \[.*\]>::len$")
def slicelen(C):
    return C.E.ptrmeta(C.st, C.args[0], C.atys[0])


@m(r"^core::slice::<impl \[.*\]>::is_empty$")
def sliceempty(C):
    return deq(C.E.ptrmeta(C.st, C.args[0], C.atys[0]), D(0))


def vparts(E, v):
    """(array cell, length) of a vector value"""
    if isinstance(v, EN.SV) and "arr" in v.f:
        return v.f["arr"], v.f["len"]
    b = v.base if isinstance(v, (EN.Sym, EN.SV)) else v
    a = EN.AV(apply(lambda x: mk("fld", x, "arr"), b), None, (), None)
    return a, apply(lambda x: mk("len", mk("fld", x, "arr"), ty="usize"), b)


def mkvec(arr, n, ty):
    return EN.SV({"arr": arr, "len": n}, None, ty)


EMPTY = mk("emptyarr")


@m(r"^std::vec::Vec::<.*>::(new|with_capacity)$", r"^<std::vec::Vec<.*> as std::default::Default>::default$")
def vecnew(C):
    return mkvec(EN.AV(L(EMPTY), None, (), None), D(0), C.dty)


@m(r"^std::vec::Vec::<.*>::len$")
def veclen(C):
    return vparts(C.E, C.load(0))[1]


@m(r"^std::vec::Vec::<.*>::is_empty$")
def vecempty(C):
    return deq(vparts(C.E, C.load(0))[1], D(0))


@m(r"^std::vec::Vec::<.*>::push$")
def vecpush(C):
    v = C.load(0)
    arr, n = vparts(C.E, v)
    C.E.note("push", C.st, (C.args[0], C.args[1], n), C.site)
    C.store(0, mkvec(C.E.setindex(arr, n, C.args[1], C.f["gen"][0]), apply(lambda x: padd(x, ONE), n), v.ty if not isinstance(v, Node) else None))
    return unit(C)


@m(r"^std::vec::Vec::<.*>::pop$")
def vecpop(C):
    v = C.load(0)
    arr, n = vparts(C.E, v)
    e = deq(n, D(0))
    n1 = apply(lambda x: psub(x, ONE), n)
    el = C.E.index(arr, n1, C.payload())
    C.store(0, mkvec(arr, ite(e, D(0), n1), v.ty if not isinstance(v, Node) else None))
    return C.opt(NOT(e), el)


@m(r"^std::vec::Vec::<.*>::(remove|swap_remove)$")
def vecremove(C):
    v = C.load(0)
    arr, n = vparts(C.E, v)
    el = C.E.index(arr, C.args[1], C.dty)
    C.E.note("vecremove", C.st, (C.args[0], C.args[1], el), C.site)
    b = C.E._name(arr) if isinstance(arr, EN.AV) else arr
    C.store(0, mkvec(EN.AV(apply(lambda x, i: mk("removed", x, i), b, C.args[1]), None, (), None), apply(lambda x: psub(x, ONE), n), v.ty if not isinstance(v, Node) else None))
    return el


@m(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<.*>::as_(mut_)?slice$")
def vecderef(C):
    return apply(lambda x: refpath(x, ("f", "arr", None, None), C.pointee(0)), C.args[0])


@m(r"^core::slice::<impl \[.*\]>::iter(_mut)?$", r"^<&.*(Vec<.*>|\[.*\]) as std::iter::IntoIterator>::into_iter$", r"^core::array::.*IntoIterator for &.*into_iter$")
def sliceiter(C):
    a = C.args[0]
    t = C.E.t(C.pointee(0))
    if t["k"] == "adt":
        a = apply(lambda x: refpath(x, ("f", "arr", None, None), C.pointee(0)), a)
        n = vparts(C.E, C.load(0))[1]
    elif t["k"] == "array":
        n = D(t["len"])
    else:
        n = slicelenof(C, a)
    return EN.SV({"ref": a, "i": D(0), "n": n}, None, C.dty)


def slicelenof(C, a):
    res = None
    to = C.pointee(0)
    for g, r, p in reversed(C.E.deref(C.st, a, to)):
        if p and p[-1][0] == "f" and p[-1][1] == "arr":
            n = vparts(C.E, C.E.rd(C.E.root_get(C.st, r), p[:-1]))[1]
        else:
            n = C.E.lenof(C.E.rd(C.E.root_get(C.st, r), p))
        res = n if res is None else ite(g, n, res)
    return res


@m(r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$")
def slicenext(C):
    it = C.load(0)
    if not isinstance(it, EN.SV) or "i" not in it.f:
        return NotImplemented
    i, n = it.f["i"], it.f["n"]
    C.st.pc = AND(C.st.pc, NOT(dlt(n, i)))
    more = NOT(deq(i, n))
    ety = C.E.t(C.payload())["to"]
    el = apply(lambda r, j: refpath(r, ("i", L(j), ety), None), it.f["ref"], i)
    C.store(0, EN.SV({"ref": it.f["ref"], "i": apply(lambda m_, x, y: padd(x, ONE) if m_ is TRUE else x, more, i, n), "n": n}, None, it.ty))
    return C.opt(more, el)


@m(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$", r"^<\[.*; \d+\] as std::iter::IntoIterator>::into_iter$", r"^core::array::<impl .*IntoIterator for \[.*into_iter$")
def vecinto(C):
    v = C.args[0]
    t = C.E.t(C.atys[0])
    if t["k"] == "array":
        return EN.SV({"arr": v, "i": D(0), "n": D(t["len"])}, None, C.dty)
    arr, n = vparts(C.E, v)
    return EN.SV({"arr": arr, "i": D(0), "n": n}, None, C.dty)


@m(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$", r"^<std::array::IntoIter<.*> as std::iter::Iterator>::next$")
def vecintonext(C):
    it = C.load(0)
    if not isinstance(it, EN.SV) or "i" not in it.f:
        return NotImplemented
    i, n = it.f["i"], it.f["n"]
    more = dlt(i, n)
    el = C.E.index(it.f["arr"], i, C.payload())
    C.store(0, EN.SV({"arr": it.f["arr"], "i": apply(lambda m_, x: padd(x, ONE) if m_ is TRUE else x, more, i), "n": n}, None, it.ty))
    return C.opt(more, el)


@m(r"^<std::iter::Chain<std::vec::IntoIter<.*>, std::vec::IntoIter<.*>> as std::iter::Iterator>::next$")
def chainnext(C):
    """one owned sequence after the other"""
    E = C.E
    it = C.load(0)
    t = E.t(C.pointee(0))
    fty = {n: ft for n, ft, _ in t["variants"][0]["fields"]}
    xs = []
    for n in ("a", "b"):
        o = E.field(it, n, fty[n])
        x = o.p.get(1, {}).get("0") if isinstance(o, EN.EV) and isinstance(o.d, Node) and o.d is D(1) else None
        if not isinstance(x, EN.SV) or "i" not in x.f:
            return NotImplemented
        xs.append((n, x))
    before, res, more = DT, None, DF
    new = {}
    for n, x in xs:
        m_ = AND(before, dlt(x.f["i"], x.f["n"]))
        el = E.index(x.f["arr"], x.f["i"], C.payload())
        res = el if res is None else E.join(el, res, m_)
        new[n] = EN.EV(D(1), {1: {"0": EN.SV({"arr": x.f["arr"], "i": ite(m_, apply(lambda v: padd(v, ONE), x.f["i"]), x.f["i"]), "n": x.f["n"]}, None, x.ty)}}, None, fty[n])
        more = OR(more, m_)
        before = AND(before, NOT(m_))
    C.store(0, EN.SV(new, None, it.ty))
    return C.opt(more, res)


@m(r"as std::iter::IntoIterator>::into_iter$", r"^<I as std::iter::IntoIterator>::into_iter$")
def intoid(C):
    if C.f["inst"] is not None and C.E.p.insts[C.f["inst"]].get("local"):
        return NotImplemented
    return C.args[0]


@m(r"^<std::ops::Range<[ui].*> as std::iter::Iterator>::next$")
def rangenext(C):
    it = C.load(0)
    ety = C.payload()
    s, e = C.E.field(it, "start", ety), C.E.field(it, "end", ety)
    more = dlt(s, e)
    C.store(0, EN.SV({"start": ite(more, apply(lambda x: padd(x, ONE), s), s), "end": e}, None, C.pointee(0)))
    return C.opt(more, s)


@m(r"^std::ops::Range::<[ui].*>::contains")
def rangecontains(C):
    r = C.load(0)
    ety = C.E.p.tyid[C.E.t(C.f["gen"][0])["s"]]
    s, e = C.E.field(r, "start", ety), C.E.field(r, "end", ety)
    x = C.load(1)
    return AND(NOT(dlt(x, s)), dlt(x, e))


@m(r"^std::ops::RangeInclusive::<[ui].*>::new$")
def rinew(C):
    return EN.SV({"start": C.args[0], "end": C.args[1], "exhausted": DF}, None, C.dty)


@m(r"^std::ops::RangeInclusive::<[ui].*>::contains")
def ricontains(C):
    r = C.load(0)
    ety = C.E.p.tyid[C.E.t(C.f["gen"][0])["s"]]
    s, e = C.E.field(r, "start", ety), C.E.field(r, "end", ety)
    x = C.load(1)
    return AND(NOT(dlt(x, s)), NOT(dlt(e, x)))


@m(r"^<\[.*\] as std::ops::Index(Mut)?<std::ops::Range.*>>::index(_mut)?$", r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<std::ops::Range.*>>::index(_mut)?$", r"^core::slice::index::<impl .*>::index(_mut)?$", r"^std::array::<impl .*Index.*>::index(_mut)?$")
def sliceindex(C):
    rt = C.E.t(C.atys[1])
    if rt["k"] in ("uint", "int"):
        ety = C.E.t(C.dty)["to"]
        return apply(lambda x, i: refpath(x, ("i", L(i), ety), C.pointee(0)), C.args[0], C.args[1])
    if rt["s"].endswith("RangeFull"):
        return C.args[0]
    r = C.E.deepterm(C.st, C.args[1])
    a = C.E.deepterm(C.st, C.args[0])
    to = C.E.t(C.dty)["to"]
    return apply(lambda x, y: mk("ref", ("ptr", mk("subslice", x, y), to), ()), a, r)


@m(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$")
def vecindex(C):
    ety = C.E.t(C.dty)["to"]

    def f(x, i):
        y = refpath(x, ("f", "arr", None, None), C.pointee(0))
        return mk("ref", y.args[0], y.args[1] + (("i", L(i), ety),))
    return apply(f, C.args[0], C.args[1])


@m(r"^core::slice::<impl \[.*\]>::get(_mut)?(::<usize>)?$")
def sliceget(C):
    if C.E.t(C.atys[1])["k"] != "uint":
        return NotImplemented
    n = slicelenof(C, C.args[0])
    ety = C.E.t(C.payload())["to"]
    return C.opt(dlt(C.args[1], n), apply(lambda x, i: refpath(x, ("i", L(i), ety), C.pointee(0)), C.args[0], C.args[1]))


@m(r"^core::slice::<impl \[.*\]>::(first|last)(_mut)?$")
def slicefirst(C):
    n = slicelenof(C, C.args[0])
    ety = C.E.t(C.payload())["to"]
    i = D(0) if "first" in C.f["path"] else apply(lambda x: psub(x, ONE), n)
    return C.opt(NOT(deq(n, D(0))), apply(lambda x, j: refpath(x, ("i", L(j), ety), C.pointee(0)), C.args[0], i))


@m(r"^core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$")
def copyslice(C):
    v = C.E.deepterm(C.st, C.args[1])
    for g, r, p in C.E.deref(C.st, C.args[0], C.pointee(0)):
        if r[0] == "ptr" and r[1].op == "subslice":
            C.E.note("copyslice", C.st, (r[1], v), C.site)
        else:
            C.E.write(C.st, [(g, r, p)], EN.AV(v, None, (), None))
    return unit(C)


@m(r"^core::slice::<impl \[.*\]>::(contains)$")
def slicecontains(C):
    a = C.E.deepterm(C.st, C.args[0])
    b = C.E.deepterm(C.st, C.args[1])
    return apply(lambda x, y: atom(mk("contains", x, y)), a, b)


# quantifiers over a sequence: named by what is asked about a generic element
ADAPT = {"std::iter::Filter": "filter", "std::iter::Map": "map", "std::iter::Enumerate": "enumerate", "std::iter::Copied": "copied", "std::iter::Cloned": "copied"}


def pipe(C, st, it, ity, k, depth=0):
    """generic element of an iterator pipeline over a slice or range
    -> (state, element cell, element type, condition that it is yielded, index term, lower, upper) or None"""
    E = C.E
    t = E.t(ity)
    if t["k"] == "ref" or t["k"] == "ptr":
        if not isinstance(it, Node):
            return None
        return pipe(C, st, E.load(st, it, t["to"]), t["to"], k, depth)
    if isinstance(it, EN.SV) and "ref" in it.f and "n" in it.f:
        ety = t["args"][0]
        el = apply(lambda r: refpath(r, ("i", L(k), ety), None), it.f["ref"])
        return st, el, None, DT, it.f["i"], it.f["n"]
    if isinstance(it, EN.SV) and "arr" in it.f and "i" in it.f and "n" in it.f:
        return st, E.index(it.f["arr"], L(k), t["args"][0]), t["args"][0], DT, it.f["i"], it.f["n"]
    if t["k"] == "adt" and t["path"] == "std::ops::Range":
        e = t["args"][0]
        return st, L(k), e, DT, E.field(it, "start", e), E.field(it, "end", e)
    a = ADAPT.get(t.get("path"))
    if a is None or depth > 6:
        return None
    fs = t["variants"][0]["fields"]
    fty = {n: ft for n, ft, _ in fs}
    inner = pipe(C, st, E.field(it, "iter" if "iter" in fty else "it", fty.get("iter", fty.get("it"))), fty.get("iter", fty.get("it")), k, depth + 1)
    if inner is None:
        return None
    st, el, ety, cond, lo, hi = inner
    if a == "enumerate":
        return st, EN.SV({"0": apply(lambda x: psub(k, x), lo), "1": el}, None, None), None, cond, lo, hi
    if a == "copied":
        return st, E.load(st, el, C.E.t(ity)["args"][1] if len(t["args"]) > 1 else None), None, cond, lo, hi
    cn = "predicate" if a == "filter" else "f"
    clo, cty = E.field(it, cn, fty[cn]), fty[cn]
    arg = el
    if a == "filter":
        root = ("obj", "elt%d" % E.nextid())
        st.ob[root] = el
        arg = L(mk("ref", root, ()))
    pc = st.pc
    st.pc = AND(pc, cond)
    if st.pc is DF:
        return None
    s, r = E.call_closure(st, clo, cty, [arg], C.site)
    if s is None or r is None:
        return None
    s.pc = pc
    if a == "filter":
        return s, el, ety, AND(cond, r), lo, hi
    return s, r, None, cond, lo, hi


PIPE = r"^<(?:std::slice::Iter(?:Mut)?|std::iter::(?:Filter|Map|Enumerate|Copied|Cloned)|std::ops::Range|std::vec::IntoIter)<.*> as std::iter::Iterator>::"


@m(PIPE + r"(position|find|any|all|find_map|count)(::<.*>)?$")
def sliceq(C):
    """search through a sequence: answered by a generic element that satisfies what was asked"""
    E = C.E
    nm = C.f["path"].rsplit("::", 1)[1]
    byref = E.t(C.atys[0])["k"] == "ref"
    it = C.load(0) if byref else C.args[0]
    ity = C.pointee(0) if byref else C.atys[0]
    pc = C.st.pc
    k = mk("at", "%s@%s#%d" % (nm, C.site, E.nextid()), ty="usize")
    pp = pipe(C, C.st.copy(), it, ity, k)
    if pp is None:
        return NotImplemented
    s, el, _, cond, lo, hi = pp
    if nm == "count":
        r = mk("count", k, ty="usize")
        E.searches[k] = (nm, None, lo, hi, cond, C.site, pc)
        return L(r)
    arg = el
    if nm == "find":
        root = ("obj", "elt%d" % E.nextid())
        s.ob[root] = el
        arg = L(mk("ref", root, ()))
    s.pc = AND(pc, cond)
    if s.pc is DF:
        r = DF
        s.pc = pc
    else:
        s2, r = E.call_closure(s, C.args[1], C.atys[1], [arg], C.site)
        if s2 is None or r is None:
            return NotImplemented
        s = s2
    # s differs from the entry state only if the closure has side effects
    s.pc = pc
    C.st = s
    if nm == "find_map":
        body = AND(cond, deq(E.discr_of(r), D(1)))
    else:
        body = AND(cond, r) if nm != "all" else AND(cond, NOT(r))
    body = restrict(body, pc)
    found = mk("exists", k)
    E.searches[k] = (nm, None, lo, hi, body, C.site, pc)
    f = atom(found)
    C.st.pc = AND(C.st.pc, IMP(f, AND(body, dlt(L(k), hi), NOT(dlt(L(k), lo)))))
    if nm in ("any", "all"):
        return f if nm == "any" else NOT(f)
    if nm == "position":
        return C.opt(f, apply(lambda x: psub(k, x), lo))
    if nm == "find_map":
        pl = C.E.field(r, "0", C.payload(), 1)
        return C.opt(f, pl)
    return C.opt(f, el)


@m(r"^<(&mut )?&(mut )?.* as std::ops::Deref(Mut)?>::deref(_mut)?$")
def refderef(C):
    return C.load(0)


@m(r"^<.* as std::iter::Iterator>::(filter|map|enumerate|copied|cloned|chain|take|skip|rev|zip|filter_map|take_while|skip_while|peekable|step_by)(::<.*>)?$")
def adapter(C):
    """constructors of iterator adapters: a struct of the arguments"""
    E = C.E
    nm = C.f["path"].rsplit("::", 1)[1]
    t = E.t(C.dty)
    if t["k"] != "adt" or not t["variants"] or t.get("path", "").startswith("itertools"):
        return NotImplemented
    fs = [(n, ft) for n, ft, _ in t["variants"][0]["fields"]]
    v = {}
    args = list(C.args)
    for n, ft in fs:
        if n in ("iter", "it"):
            v[n] = args[0]
        elif n in ("f", "predicate", "n"):
            v[n] = args[1]
        elif n == "count":
            v[n] = D(0)
        elif n == "flag":
            v[n] = DF
        elif n in ("a", "b") and nm in ("chain", "zip"):
            x = args[0] if n == "a" else args[1]
            if nm == "chain":
                o = E.t(ft)
                inner = o["variants"][1]["fields"][0][1]
                if n == "b" and E.t(C.atys[1])["s"] != E.t(inner)["s"]:
                    if E.t(C.atys[1]).get("path") != "std::vec::Vec":
                        return NotImplemented
                    arr, ln = vparts(E, x)
                    x = EN.SV({"arr": arr, "i": D(0), "n": ln}, None, inner)
                x = EN.EV(D(1), {1: {"0": x}}, None, ft)
            v[n] = x
        else:
            return NotImplemented
    return EN.SV(v, None, C.dty)


@m(r"Pubkey::to_bytes$", r"Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$")
def tobytes(C):
    return C.args[0] if C.E.t(C.dty)["k"] == "ref" else C.E.sym(apply(lambda x: mk("bytes", x), C.E.deepterm(C.st, C.args[0])), C.dty)


@m(r"Pubkey::(find_program_address|create_program_address|try_find_program_address|create_with_seed)$", r"^anchor_lang::prelude::Rent::(is_exempt|minimum_balance)$",
   r"AccountInfo::<.*>::(lamports|data_len|try_data_len|data_is_empty|try_lamports)$", r"^std::collections::BTreeSet::<.*>::(new|contains|len|is_empty)", r"::try_to_vec$",
   r"as anchor_lang::Discriminator>::discriminator$", r"as std::convert::TryFrom<&\[u8\]>>::try_from$", r"^std::cell::RefCell::<.*>::(try_borrow|borrow)$", r"AccountInfo::<.*>::try_borrow_(data|lamports)$",
   r"^std::slice::<impl \[.*\]>::to_vec$", r"^std::string::String::(is_empty|len)$", r"^std::string::String::as_", r"^core::str::<impl str>::(len|is_empty)$")
def pure(C):
    """result depends on the arguments only, no effect"""
    parts = [C.E.deepterm(C.st, a) for a in C.args]
    n = 1
    for p in parts:
        n *= max(1, len(leaves(p)))
    if n > 64:
        return C.E.freshsym("call:" + C.f["path"], C.dty)
    nm = C.f["path"]
    base = apply(lambda *xs: mk("pure", nm, *xs), *parts) if parts else L(mk("pure", nm))
    return C.E.sym(base, C.dty)


@m(r"^std::collections::BTreeSet::<.*>::(insert|remove)", r"^solana_program::program::set_return_data", r"Box<anchor_lang::error::AnchorError> as std::ops::Drop>::drop")
def ignored(C):
    if C.E.t(C.dty)["s"] == "()":
        return unit(C)
    return C.E.freshsym("ignored", C.dty)


@m(r"^itertools::Itertools::(unique|collect_vec)", r"^<.* as itertools::Itertools>::")
def itert(C):
    return NotImplemented


# ---- fixed point -----------------------------------------------------------------------------------
@m(r"^fixed::types::(I80F48|U64F64)::(from_num|to_num|from_bits|to_bits|ceil|floor|checked_from_num|checked_to_num|checked_mul|checked_div|checked_add|checked_sub|round|is_negative|is_positive)",
   r"^<fixed::types::(I80F48|U64F64) as std::ops::(Mul|Div|Add|Sub|Neg)(<.*>)?>::\w+$")
def fixedop(C):
    nm = C.f["path"].rsplit("::", 1)[1]
    full = C.f["full"]
    ty = "U64F64" if "U64F64" in full else "I80F48"
    parts = [C.E.deepterm(C.st, a) for a in C.args]
    base = nm.replace("checked_", "")
    dst = ""
    if base == "to_num":
        dst = C.E.t(C.payload() if nm.startswith("checked") else C.dty)["s"]
    r = apply(lambda *xs: mk("fx_" + base, ty, dst, *xs), *parts)
    if nm.startswith("checked_"):
        ok = apply(lambda x: NOT(atom(mk("fxovf", x))), r)
        return C.opt(ok, C.E.sym(r, C.payload()))
    return C.E.sym(r, C.dty)


@m(r"^<fixed::types::(I80F48|U64F64) as std::cmp::Partial(Ord|Eq)>::(eq|ne|lt|le|gt|ge)$")
def fixedcmp(C):
    a, b = C.load(0), C.load(1)
    op = C.f["path"].rsplit("::", 1)[1]

    def f(x, y):
        if op in ("eq", "ne"):
            if x is y:
                return DT if op == "eq" else DF
            r = atom(mk("fxeq", *sorted((x, y), key=lambda z: z.id)))
            return r if op == "eq" else NOT(r)
        if op == "lt":
            return atom(mk("fxlt", x, y))
        if op == "gt":
            return atom(mk("fxlt", y, x))
        if op == "le":
            return NOT(atom(mk("fxlt", y, x)))
        return NOT(atom(mk("fxlt", x, y)))
    return apply(f, a, b)
