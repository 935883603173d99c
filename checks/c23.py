"""Unknown sample and reference names are reported before anything plays."""
from engine import absint, report
from engine.values import *
from . import lang, programs
from .c03 import WHERE

RULE = ("Abstract interpretation of the engine update for every node description that names chains or samples, with each name in turn missing: on a "
        "fresh engine, on one already playing another program, on one that had the sample or chain until this edit, and with the fault in a "
        "later chain, in both iteration orders of the chain tables. Every outcome must be a rejection carrying the missing name; with all "
        "names present no outcome is a rejection for a missing name, every connection starts at an existing chain, and the created node holds "
        "the data of each sample it names.")


def run(P):
    c = report.Check("C23", RULE)
    for kw, shape, comp in lang.components(absint.Interp(P)):
        for rev in (False, True):
            b = programs.Bench(P, rev=rev)
            comp2, refs, samples = lang.named(b.I, comp)
            if kw == "Lpf":
                samples = []          # a symbol in a filter pattern is a value, not a sample
            if not refs and not samples:
                continue
            if not rev:
                c.count("descriptions_naming_something")
            one(c, b, kw, shape, comp2, refs, samples)
    c.floor("descriptions_naming_something", 30)
    c.floor("missing_names", 100)
    c.floor("accepted", 50)
    return c.finish(P)


def one(c, b, kw, shape, comp, refs, samples):
    names = list(dict.fromkeys(refs))
    sources = {r: [b.const("r" + r[1:])] for r in names}

    def load(st, missing=()):
        for s in samples:
            if s not in missing:
                st = b.sample(st, s)
        return st
    full = dict({"out": [b.const("first"), comp]}, **sources)
    good = b.update(load(b.start), full)
    if not any(ok for _s, ok, _v in good):
        c.count("descriptions_not_supported")
        return
    for s, ok, v in good:
        if ok:
            ends = {k for ks in b.chains(s).values() for k in ks}
            c.count("accepted")
            c.require(all(x in ends for x, y in b.W.edges(s)), "%s: a connection from nowhere" % kw.lower(), WHERE, "%s" % shape)
            have = b.I.label_names(b.W.node(s, b.chains(s)["out"][1]))
            for n in samples:
                c.require("data:" + n in have, "%s: a sample named in code does not reach the node" % kw.lower(), WHERE, "%s: %s" % (shape, n))
        else:
            msg = show(v, 8)
            c.require(not any(n in msg for n in names + samples), "%s: rejected with all names present" % kw.lower(), WHERE, "%s: %s" % (shape, msg))
    playing = b.accepted(load(b.start), {"out": [b.const("old"), b.mul("older")], "~z": [b.const("hidden")]})
    before = [s for s, ok, _ in good if ok]
    for n in dict.fromkeys(samples):
        for what, st in (("on a fresh engine", b.start), ("while something plays", b.accepted(b.start, {"out": [b.const("old")]}))):
            missing(c, b, kw, shape, "sample", n, what, load(st, (n,)), full)
        late = dict({"~z": [b.const("q")], "a": [b.const("q")]}, **full)
        missing(c, b, kw, shape, "sample", n, "beside good chains", load(b.start, (n,)), late)
    for n in names:
        part = {k: v for k, v in full.items() if k != n}
        for what, st in [("on a fresh engine", load(b.start)), ("while something plays", playing)] + [("when its chain is removed", s) for s in before]:
            missing(c, b, kw, shape, "reference", n, what, st, part)
        missing(c, b, kw, shape, "reference", n, "beside good chains", load(b.start), dict({"a": [b.const("q")]}, **part))


def missing(c, b, kw, shape, kind, n, when, st, prog):
    c.count("missing_names")
    rs = b.update(st, prog)
    for s, ok, v in rs:
        c.require(ok is False and "'%s'" % n.replace("\\", "\\\\") in show(v, 10) or ok is False and n in show(v, 10),
                  "%s: an unknown %s is not reported" % (kw.lower(), kind), WHERE, lambda: "%s %s, %s missing: %s" % (shape, when, n, show(v, 6)))
    c.require(bool(rs), "%s: no outcome" % kw.lower(), WHERE, "%s %s" % (shape, when))
