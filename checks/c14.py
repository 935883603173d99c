"""No live message can crash the engine."""
from engine import report
from engine.values import *
from . import common, engine_, history, lang

RULE = ("Abstract interpretation of the engine's message entry with an arbitrary text, on engines playing every node the language can make, on an "
        "empty engine, after an edit, after a rejected edit and after a reset: each lookup of a chain, position or node and each construct that "
        "can panic is an obligation. Each node's own handling of messages is analysed in every state any history of blocks and messages can "
        "bring it to (fixpoint).")
ENTRY = "glicol::Engine::send_msg"


def run(P):
    c = report.Check("C14", RULE)
    f = engine_.fn(P, ENTRY)
    for what, W, st in engines(P):
        send(c, f, W, what, st)
    made, other = [], []
    hs, other = history.histories(P)
    for m, h in hs:
        c.count("nodes_made")
        send(c, f, m.W, "playing " + m.label(), m.st)
        for (fn, kind, where), met in h.met.items():
            for what, o in met:
                if not what.startswith("message") or kind.startswith("overflow"):
                    continue
                c.count("node_obligations")
                c.require(not o["bad"], "%s: %s on a message, in %s" % (m.kw.lower(), kind, fn), "%s (%s)" % (fn, common.rel(where)),
                          o["bad"] and "%s, %s: %s (%s)" % (m.label(), what, o["bad"][0][1], o["bad"][0][0]))
    c.floor("engine_states", 80)
    c.floor("nodes_made", 75)
    c.floor("engine_obligations", 2)
    return c.finish(P)


def engines(P):
    """engine states other than those playing a single node"""
    W = engine_.World(P)
    st = W.configure(W.fresh()[0])
    yield "empty", W, st

    def const(n):
        return W.component("ConstSig", value=n)

    def mul(n):
        return W.component("Mul", param=("Ref", n))
    one = [s for s, ok, _ in W.update(st, {"out": [const("v"), mul("~a")], "~a": [const("w")]}) if ok]
    for s in one:
        yield "playing two chains", W, s
        for s2, ok, _ in W.update(s, {"out": [const("u"), const("v"), mul("~b")], "~b": [const("w")]}):
            yield "after an edit", W, s2
        for s2, ok, _ in W.update(s, {"out": [const("v"), mul("~gone")]}):
            yield "after a rejected edit", W, s2
        for s2, ok, _ in W.update(s, {}):
            yield "after removing every chain", W, s2
        for s2, _ in W.I.run(engine_.fn(P, "glicol::Engine::reset"), [Ref(("eng",), (), None)], s.copy()):
            yield "after a reset", W, s2


def send(c, f, W, what, st):
    c.count("engine_states")
    W.I.epoch += 1
    old, W.I.obls = W.I.obls, {}
    unm = dict(W.I.unmodelled)
    r = W.I.run(f, [Ref(("eng",), (), None), S("msg", W.I.T_str)], st.copy())
    c.require(bool(r), "no message handling returns", common.where(f), "engine %s" % what)
    for (fn, kind, where), o in W.I.obls.items():
        if kind.startswith("overflow"):
            continue
        c.count("engine_obligations")
        c.require(o["status"] == "proved", "%s on a message, in %s" % (kind, fn), "%s (%s)" % (fn, common.rel(where)),
                  "engine %s: %s (%s)" % (what, o["detail"], o["status"]))
    for n, k in W.I.unmodelled.items():
        if unm.get(n) != k:
            c.sample("taken_as_anything", "%s, engine %s" % (n, what))
    W.I.obls = old
