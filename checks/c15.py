"""No division by zero, no empty delay line."""
from engine import report
from . import common, history

RULE = ("Abstract interpretation with integer intervals of creating every node the engine can make and of every history of blocks, live messages "
        "and tempo changes after that (fixpoint): each integer division, remainder and each delay line built or read is an obligation that the "
        "divisor or the length is at least one; all numbers written in code, sent or heard are arbitrary.")
KINDS = ("div0", "rem0", "ringempty")


def run(P):
    c = report.Check("C15", RULE)
    hs, other = history.histories(P)
    seen = set()
    for m, h in hs:
        c.count("nodes_made")
        c.count("analysed_situations", h.runs)
        for (fn, kind, where), met in h.met.items():
            if kind not in KINDS:
                continue
            seen.add((fn, kind, where))
            bad = [(w, d) for w, o in met for st, d in o["bad"]]
            c.require(not bad, "%s: %s in %s" % (m.kw.lower(), kind, fn), "%s (%s)" % (fn, common.rel(where)),
                      bad and "%s: the %s may be zero (%s)" % (m.label(), "length" if kind == "ringempty" else "divisor", bad[0][0]))
        obls(c, m.kw, m.label(), m.W.I.obls, seen)
    for o in other:
        obls(c, o.kw, o.label(), o.W.I.obls, seen)
    c.count("sites", len(seen))
    c.floor("sites", 15)
    c.floor("nodes_made", 75)
    c.assume("the sample rate set on the engine is at least 1")
    return c.finish(P)


def obls(c, kw, label, met, seen):
    for (fn, kind, where), o in met.items():
        if kind in KINDS:
            seen.add((fn, kind, where))
            c.require(o["status"] == "proved", "%s: %s in %s" % (kw.lower(), kind, fn), "%s (%s)" % (fn, common.rel(where)),
                      "%s: creating the node: the %s may be zero" % (label, "length" if kind == "ringempty" else "divisor"))
