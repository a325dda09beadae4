"""The event heap: events leave it in the order they came, none is lost, none comes twice."""
from base import *

FLOOR = 300
SLOTS = 600
NONE = 65535
HEAP = "state::orderbook::heap::EventHeap::"
NEXT = "<state::orderbook::heap::EventHeapIterator<'a> as std::iter::Iterator>::next"


class Nodes:
    """a heap with some nodes told apart: links: place -> (place before, place after), None if not known"""

    def __init__(self, F, E, links, count, head, free):
        self.F, self.E, self.count, self.head, self.free = F, E, count, D(head), D(free)
        h = F.old("self", "header")
        for f, x in (("count", count), ("used_head", self.head), ("free_head", self.free)):
            h = E.setfield(h, f, x)
        c = F.old("self", "nodes")
        self.elem = E.elem_ty(c.ty)
        for i, (p, n) in links.items():
            v = E.index(c, D(i), self.elem)
            for f, x in (("prev", p), ("next", n)):
                if x is not None:
                    v = E.setfield(v, f, D(x))
            c = E.setindex(c, D(i), v, self.elem)
        if free != NONE:
            v = E.setfield(E.index(c, self.free, self.elem), "prev", D(NONE))
            c = E.setindex(c, self.free, v, self.elem)
        self.nodes = c
        self.cell = E.setfield(E.setfield(F.old("self"), "header", h), "nodes", self.nodes)

    def node(self, i, new):
        return self.E.index(self.F.new("self", "nodes") if new else self.nodes, i, self.elem)

    def old(self, i, f):
        return get(self.E, self.node(i, False), f)

    def new(self, i, f):
        return get(self.E, self.node(i, True), f)

    def hdr(self, f, new=False):
        return self.F.new("self", "header." + f) if new else get(self.E, self.cell, "header." + f)

    def event(self, i, new=False):
        return self.E.deepterm(self.F.st, get(self.E, self.node(i, new), "event"))


# places of the nodes told apart: the first few, the last ones, any
PLACES = ((0, 1, 2, 3, 4), (599, 598, 0, 1, 597), (17, 4, 599, 300, 0), (1, 599, 7, 0, 42), (5, 0, 599, 1, 2))


def run(K, fn, links, count, head, free, args=(), low=None):
    box = []

    def su(F, E, st, a):
        c = D(count) if low is None else L(mk("sym", "count", ty="u16"))
        if low is not None:
            st.pc = AND(st.pc, NOT(dlt(c, D(low))), NOT(dlt(D(count), c)))
        box.append(Nodes(F, E, links, c, head, free))
        st.ob[("obj", "self")] = box[0].cell
        for n, v in args:
            a[F.names.index(n)] = v
    return Fn(K, HEAP + fn, setup=su), box[0]


def check(K):
    K.assume += ["the heap is well formed before: free nodes form a chain, used nodes a ring of `count` nodes starting at the oldest (shown for a new heap and kept by every operation)"]
    init(K)
    for pl in PLACES:
        f, h, t, n = pl[:4]
        for head in (h, t, n, pl[4]):
            delete(K, (NONE,) + pl[1:], False, {h: (t, n), t: (None, h), n: (h, None)}, SLOTS, None, head, h, "one of a full heap from %d" % head)
        push(K, pl, {f: (None, None)}, 0, None, NONE, NONE, "into an empty heap")
        push(K, pl, {h: (h, h)}, 1, None, h, h, "behind one")
        push(K, pl, {h: (t, None), t: (None, h)}, SLOTS - 1, 2, h, t, "behind several")
        s, p, n = h, t, pl[3]
        for pop in (True, False):
            delete(K, pl, pop, {s: (s, s)}, 1, None, s, s, "the last")
            delete(K, pl, pop, {s: (p, p), p: (s, s)}, 2, None, s, s, "the older of two")
            delete(K, pl, pop, {s: (p, n), p: (None, s), n: (s, None)}, SLOTS, 3, s, s, "the oldest of several")
        delete(K, pl, False, {s: (p, p), p: (s, s)}, 2, None, p, s, "the younger of two")
        delete(K, pl, False, {s: (p, n), p: (None, s), n: (s, None)}, SLOTS, 3, n, s, "the youngest of several")
        delete(K, pl, False, {s: (p, n), p: (None, s), n: (s, None)}, SLOTS, 3, p, s, "the second of several")
        delete(K, pl, False, {s: (p, n), p: (None, s), n: (s, None)}, SLOTS, 4, pl[4], s, "one in between")
    refused(K)
    reading(K)


def sayer(K, rule, lab, pc, E, at):
    return lambda i, a, b, t: K.equal(rule, "%s %s" % (lab, i), pc, a, b, E, at, t)


def push(K, pl, links, count, low, h, t, lab):
    f = pl[0]
    F, n = run(K, "push_back", links, count, h, f, low=low)
    E, pc, at = F.E, F.pc, F.loc
    say = sayer(K, "adding", "%s at %d" % (lab, f), pc, E, at)
    say("event", n.event(D(f), True), E.deepterm(F.st, F.old("value")), "the event is stored as it is")
    say("count", n.hdr("count", True), add(n.count, D(1)), "the heap has one event more")
    say("number", n.hdr("seq_num", True), add(n.hdr("seq_num"), D(1)), "events are numbered without gaps")
    say("free", n.hdr("free_head", True), n.old(D(f), "next"), "the place used is no longer free, all other free places still are")
    say("oldest", n.hdr("used_head", True), D(f if h == NONE else h), "the oldest event stays the oldest")
    link = "the new event is linked in as the youngest, between the youngest and the oldest before"
    say("prev", n.new(D(f), "prev"), D(f if h == NONE else t), link)
    say("next", n.new(D(f), "next"), D(f if h == NONE else h), link)
    if h != NONE:
        say("oldest prev", n.new(D(h), "prev"), D(f), link)
        say("youngest next", n.new(D(t), "next"), D(f), link)
    others(K, "adding", "%s at %d" % (lab, f), F, n, f, h, t)


def others(K, rule, lab, F, n, s, nx, pv):
    E, at, o = F.E, F.loc, L(mk("sym", "othernode", ty="u16"))
    w = AND(F.pc, NOT(deq(o, D(s))))
    K.equal(rule, lab + " other events", w, n.event(o, True), n.event(o), E, at, "other events stay as they are")
    K.equal(rule, lab + " other prev", AND(w, NOT(deq(o, D(nx)))), n.new(o, "prev"), n.old(o, "prev"), E, at, "other places stay linked as they are")
    K.equal(rule, lab + " other next", AND(w, NOT(deq(o, D(pv)))), n.new(o, "next"), n.old(o, "next"), E, at, "other places stay linked as they are")


def delete(K, pl, pop, links, count, low, head, s, what):
    fr = pl[0]
    F, n = run(K, "pop_front" if pop else "delete_slot", links, count, head, fr, args=() if pop else (("slot", D(s)),), low=low)
    E, pc, at = F.E, F.pc, F.loc
    lab = "%s, %s at %d" % ("taking" if pop else "removing", what, s)
    ok = deq(E.discr_of(F.rv), D(0))
    K.holds("removing", lab + " possible", pc, ok, E, at, "an event that is there can be removed")
    pc = AND(pc, ok)
    K.require(pc is not DF, "removing of events not seen")
    p, x = links[s]
    say = sayer(K, "removing", lab, pc, E, at)
    got = E.field(F.rv, "0", E.t(F.rv.ty)["variants"][0]["fields"][0][1], 0)
    say("event", E.deepterm(F.st, got), n.event(D(s)), "the event removed is the one asked for")
    say("count", n.hdr("count", True), sub(n.count, D(1)), "the heap has one event less")
    say("number", n.hdr("seq_num", True), n.hdr("seq_num"), "numbers of events are not given back")
    say("free", n.hdr("free_head", True), D(s), "the place is free again")
    say("free next", n.new(D(s), "next"), D(fr), "all places free before stay free")
    say("free prev", n.new(D(s), "prev"), D(NONE), "the place is known to be free")
    say("oldest", n.hdr("used_head", True), D(NONE) if count == 1 else D(x if head == s else head), "the next event becomes the oldest if the oldest is removed")
    if count > 1:
        say("prev next", n.new(D(p), "next"), D(x), "the neighbours of the event become neighbours")
        say("next prev", n.new(D(x), "prev"), D(p), "the neighbours of the event become neighbours")
    others(K, "removing", lab, F, n, s, x, p)


def refused(K):
    """what must not work"""
    for what, fn, links, count, low, head, args in (
            ("adding to a full heap", "push_back", {0: (5, 5), 5: (0, 0)}, SLOTS, None, 0, ()),
            ("removing a free place", "delete_slot", {0: (5, 5), 5: (0, 0)}, SLOTS - 1, 2, 0, (("slot", D(7)),)),
            ("removing outside the heap", "delete_slot", {0: (5, 5), 5: (0, 0)}, SLOTS, 2, 0, (("slot", add(L(mk("sym", "beyond", ty="u32")), D(SLOTS))),)),
            ("removing from an empty heap", "delete_slot", {}, 0, None, NONE, (("slot", L(mk("sym", "place", ty="u16"))),)),
            ("taking from an empty heap", "pop_front", {}, 0, None, NONE, ())):
        try:
            F, n = run(K, fn, links, count, head, 7, args=args, low=low)
        except Missing:
            K.ob("refused", what, "proved", "", "fails")
            continue
        bad = F.pc if fn == "push_back" else AND(F.pc, deq(F.E.discr_of(F.rv), D(0)))
        K.never("refused", what, bad, F.E, F.loc, "fails")


def init(K):
    F = Fn(K, HEAP + "init", peel=SLOTS + 1)
    E, pc, at = F.E, F.pc, F.loc
    nodes = F.new("self", "nodes")
    at_ = lambda i, f: get(E, E.index(nodes, i, E.elem_ty(F.old("self", "nodes").ty)), f)
    for f, x in (("free_head", 0), ("used_head", NONE), ("count", 0), ("seq_num", 0)):
        K.equal("new heap", f, pc, F.new("self", "header." + f), D(x), E, at, "a new heap is empty")
    bad = [i for i in range(SLOTS) if at_(D(i), "prev") is not D(NONE)]
    K.fact("new heap", "all free", not bad, at, "all places of a new heap are free", {"places": bad[:5]} if bad else None)
    seen, i = [], F.new("self", "header.free_head")
    while i.leaf is not None and i is not D(NONE) and len(seen) <= SLOTS and i not in seen:
        seen.append(i)
        i = at_(i, "next")
    K.fact("new heap", "chain", i is D(NONE) and len(seen) == SLOTS, at, "the free places of a new heap form one chain of all places", {"length": len(seen)} if len(seen) != SLOTS else None)


def reading(K):
    """walking from the oldest to the youngest"""
    def su(F, E, st, args):
        h = heap(F)
        st.pc = AND(st.pc, NOT(dlt(D(SLOTS), get(E, h, "header.count"))), dlt(F.old("self", "slot"), D(SLOTS)))
    F = Fn(K, NEXT, setup=su)
    E, at, h = F.E, F.loc, heap(F)
    i, s, c = F.old("self", "index"), F.old("self", "slot"), get(E, h, "header.count")
    d = E.discr_of(F.rv)
    K.holds("reading", "ends", AND(F.pc, deq(i, c)), deq(d, D(0)), E, at, "the walk ends after all events")
    some = AND(F.pc, NOT(deq(i, c)))
    K.holds("reading", "continues", some, deq(d, D(1)), E, at, "the walk does not end before all events are seen")
    nodes = get(E, h, "nodes")
    node = E.index(nodes, s, E.elem_ty(nodes.ty))
    K.equal("reading", "forward", some, F.new("self", "slot"), get(E, node, "next"), E, at, "the walk goes from older to younger events")
    K.equal("reading", "counted", some, F.new("self", "index"), add(i, D(1)), E, at, "each step is counted")
    tup = E.t(F.rv.ty)["variants"][1]["fields"][0][1]
    got = E.field(F.rv, "0", tup, 1)
    K.equal("reading", "place", some, get(E, got, "1"), s, E, at, "the place of the event is told")


def heap(F):
    return F.E.sym(apply(lambda x: mk("deref", x), F.old("self", "heap")), F.K.P.tyid["state::orderbook::heap::EventHeap"])
