"""Every reference written in a program is honoured, in written order."""
from engine import absint, report
from engine.values import *
from . import common, lang, programs
from .c03 import WHERE, dedup, diff

RULE = ("Abstract interpretation of the engine update (graph, chain table and edge list followed exactly; parameters symbolic) for every node "
        "description that takes references: created on a fresh engine, kept while another node of the chain changes, kept while a referred "
        "chain is extended, moved to another position, and written twice in one chain with the references exchanged; in both iteration orders "
        "of the chain tables. Each written reference must be one connection from the last node of the named chain into the node, and the node "
        "must remember the connections in written order behind its main input.")


def run(P):
    c = report.Check("C02", RULE)
    for kw, shape, comp in lang.components(absint.Interp(P)):
        for rev in (False, True):
            b = programs.Bench(P, rev=rev)
            comp2, refs, samples = lang.named(b.I, comp)
            if not refs:
                continue
            scenarios(c, b, kw, shape, comp2, refs, samples)
            if len(refs) > 1:
                comp3, refs3, _ = lang.named(b.I, comp, same=True)
                scenarios(c, b, kw, shape + " naming one chain twice", comp3, refs3, samples)
    loose(c, P)
    c.floor("descriptions_with_references", 25)
    c.floor("kept", 100)
    c.assume("a sequence that names one chain several times is one connection, as it selects between the chains it names")
    return c.finish(P)


def scenarios(c, b, kw, shape, comp, refs, samples):
    st = b.start
    for s in samples:
        st = b.sample(st, s)
    if not b.I.map_rev:
        c.count("descriptions_with_references")
    sources = {r: [b.const("r" + r[1:])] for r in dict.fromkeys(refs)}
    longer = {r: [b.const("r" + r[1:]), b.mul("s" + r[1:])] for r in sources}
    prog = dict({"out": [b.const("first"), comp, b.mul("last")]}, **sources)
    s1 = verify(c, b, kw, shape, st, prog, "when created")
    verify(c, b, kw, shape, st, dict({"out": [comp]}, **longer), "when created alone")
    if s1 is None:
        return
    key = b.chains(s1)["out"][1]
    for what, p, pos in (("kept while a later node changes", dict({"out": [b.const("first"), comp, b.mul("last2")]}, **sources), 1),
                         ("kept while an earlier node changes", dict({"out": [b.const("first2"), comp, b.mul("last")]}, **sources), 1),
                         ("kept while a node is put before it", dict({"out": [b.const("first"), b.mul("new"), comp, b.mul("last")]}, **sources), 2),
                         ("kept while the referred chains are extended", dict({"out": [b.const("first"), comp, b.mul("last")]}, **longer), 1),
                         ("kept at the front", dict({"out": [comp, b.mul("last")]}, **sources), 0),
                         ("kept in an unchanged program", prog, 1)):
        s2 = verify(c, b, kw, shape, s1, p, what)
        if s2 is not None and b.chains(s2)["out"][pos] is key:
            c.count("kept")
    if len(dict.fromkeys(refs)) > 1 and kw != "Seq":
        back = dict(zip(sources, reversed(list(sources))))
        other = lang_swap(comp, back)
        p = dict({"out": [b.const("first"), comp, other, b.mul("last")]}, **sources)
        s2 = verify(c, b, kw, shape, s1, p, "beside one with the references exchanged")
        p = dict({"out": [b.const("first"), other, comp, b.mul("last")]}, **sources)
        verify(c, b, kw, shape, s2 or s1, p, "exchanged with it")


def lang_swap(v, m):
    if isinstance(v, K) and isinstance(v.v, str) and v.v in m:
        return K(m[v.v], v.ty)
    if isinstance(v, Agg):
        return Agg(v.ty, tuple(lang_swap(x, m) for x in v.fs))
    if isinstance(v, En):
        return En(v.ty, tuple((k, tuple(lang_swap(x, m) for x in fs)) for k, fs in v.alts))
    if isinstance(v, SeqX):
        return SeqX(tuple(lang_swap(x, m) for x in v.es))
    return v


def verify(c, b, kw, shape, st, prog, when):
    out = None
    for s, ok, v in b.update(st, prog):
        if not ok:
            continue
        out = s
        want, order = programs.expected_edges(b, prog, lambda x: dedup(b, x))
        got = b.edges(s)
        c.require(got == want, "%s: references %s" % (kw.lower(), when), WHERE, lambda: "%s %s: %s" % (kw.lower(), shape, diff(got, want)))
        for i, comp in enumerate(prog["out"]):
            have = b.order(s, b.chains(s)["out"][i])
            if have is not None and programs.written_refs(comp):
                c.require(have == order[("out", i)], "%s: order of references %s" % (kw.lower(), when), WHERE,
                          lambda: "%s %s: hears %s, written %s" % (kw.lower(), shape, have, order[("out", i)]))
    return out


def loose(c, P):
    """a reference ending in two dots stands for every chain of that prefix"""
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        prog = {"out": [b.const("v"), b.mix("~a..")], "~a": [b.const("w")], "~ab": [b.const("x"), b.mul("y")], "~b": [b.const("z")]}
        for s, ok, v in b.update(b.start, prog):
            got = sorted(x for x, y in b.edges(s) if y == ("out", 1))
            want = sorted([("out", 0), ("~a", 0), ("~ab", 1)])
            c.require(ok and got == want, "mix: a reference to all chains of a prefix", WHERE, lambda: "hears %s, written %s" % (got, want))
