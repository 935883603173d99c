"""Rendering copes with any wiring."""
import re
from engine import report
from . import common, history

RULE = ("Abstract interpretation of the rendering entry of every node the engine makes, over all histories of blocks and live messages (fixpoint "
        "from the state the engine creates), with 0 to 3 inputs, each mono or stereo, and chains referred to twice: every index into the inputs, "
        "the remembered order, a channel list or a block, every lookup of an input and every unwrap met on the way must be in range; any "
        "construct certain to panic is a violation whatever it reads.")
OWN = re.compile(r"length (?!\d+$)")       # a list of the node's own, whose length is not fixed by the wiring


def about_wiring(kind, status, detail):
    if kind.startswith("overflow"):
        return False
    if status == "failed":
        return True
    if kind == "bounds" or " of a list of length " in detail:
        return OWN.search(detail) is None
    if kind == "mapindex":
        return " in self" not in detail
    return kind not in ("underflow", "div0", "rem0", "ringempty")


def run(P):
    c = report.Check("C11", RULE)
    hs, other = history.histories(P)
    for m, h in hs:
        c.count("nodes_made")
        c.count("analysed_situations", h.runs)
        for (fn, kind, where), met in h.met.items():
            if kind.startswith("overflow"):
                continue
            bad = None
            block = False
            for what, o in met:
                if what.startswith("message"):
                    continue
                block = True
                for st, d in o["bad"]:
                    if about_wiring(kind, st, d):
                        bad = bad or (what, st, d)
            if not block:
                continue
            if any(st != "proved" for w, o in met for st, _ in o["bad"]) and bad is None:
                c.count("own_data_not_decided")
                c.sample("own_data_not_decided", "%s: %s at %s" % (m.label(), met[0][1]["detail"], common.rel(where)))
                continue
            c.require(bad is None, "%s: %s while rendering, in %s" % (m.kw.lower(), kind, fn), "%s (%s)" % (fn, common.rel(where)),
                      bad and "%s, %s: %s (%s)" % (m.label(), bad[0], bad[2], bad[1]))
        if h.proc is None:
            c.require(False, "%s: no rendering entry" % m.kw.lower(), m.name, "not found")
    c.floor("nodes_made", 75)
    c.floor("obligations", 500)
    c.assume("a node has at most 3 inputs of at most 2 channels; chains referred to twice by the same node are one input")
    c.assume("indices into a node's own lists of unbounded length (sample data, running notes, script variables) are counted as own_data_not_decided, not judged")
    return c.finish(P)
