"""Every edit to a program is noticed."""
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, programs
from .c03 import WHERE

RULE = ("Abstract interpretation of the engine update (graph, chain table, node states and edge list followed exactly; two parameters of different "
        "names are different values, equality of descriptions as the program itself defines it): for every node description and each of its parameters in turn, and for "
        "descriptions exchanged for another shape or keyword, playing the old program and then evaluating the changed one must lead to the engine "
        "a new one reaches with the changed program, up to node identities; likewise for every pair of programs of the family. Nodes and chains "
        "not in the new program must be gone from the graph and the chain table.")


def run(P):
    c = report.Check("C21", RULE)
    comps = lang.components(absint.Interp(P))
    prev = None
    for kw, shape, comp in comps:
        b = programs.Bench(P)
        comp, refs, samples = lang.named(b.I, comp)
        variants = list(changed(b, comp))
        st = b.start
        for s in list(samples) + [s + "'" for s in samples]:
            st = b.sample(st, s)
        c.count("descriptions")
        s1 = first_ok(b, st, program(b, comp))
        if s1 is None:
            prev = None
            continue
        c.count("descriptions_accepted")
        for leaf, v in variants:
            edit(c, b, kw, st, s1, v, "%s: a change of %s" % (kw.lower(), leaf), shape, len(variants))
        if prev is not None:
            k2, p2, smp = prev
            st2 = st
            for s in smp:
                st2 = b.sample(st2, s)
            s1 = first_ok(b, st2, program(b, comp))
            edit(c, b, kw, st2, s1, p2, "%s exchanged for %s" % (kw.lower(), k2.lower()), shape, 1)
        prev = (kw, comp, samples)
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        fam = programs.family(b)
        firsts = [(n, p, b.accepted(b.start, p)) for n, p in fam]
        for n, p, s in firsts:
            for m, q, t in firsts:
                c.count("program_pairs")
                want = b.canon(t)
                for s2, ok, v in b.update(s, q):
                    c.require(ok is True and b.canon(s2) == want, "%s edited to %s" % (n, m), WHERE,
                              lambda: "%s instead of %s" % (b.canon(s2)[1:], want[1:]))
    c.floor("descriptions_accepted", 75)
    c.floor("parameters_changed", 150)
    c.floor("program_pairs", 1000)
    return c.finish(P)


def program(b, comp):
    p = {"out": [b.const("first"), comp, b.mul("last")]}
    for r in dict.fromkeys(programs.written_refs(comp)):
        p[r] = [b.const("r" + r[1:])]
    return p


def first_ok(b, st, prog):
    for s, ok, v in b.update(st, prog):
        if ok:
            return s
    return None


def edit(c, b, kw, st, s1, comp2, what, shape, n):
    q = program(b, comp2)
    t = first_ok(b, st, q)
    if t is None:
        return
    c.count("parameters_changed")
    want = b.canon(t)
    rs = b.update(s1, q)
    for s2, ok, v in rs:
        if ok is False and any(ok2 is False for _s, ok2, _v in b.update(st, q)):
            continue
        got = b.canon(s2)
        c.require(ok is True and got == want, what, WHERE,
                  lambda: "%s: %s" % (shape, [(k, show(got[0][k][1], 7)[:300] if isinstance(got[0][k][1], V) else got[0][k][1], "instead of", show(x[1], 7)[:300] if isinstance(x[1], V) else x[1]) for k, x in want[0].items() if got[0].get(k) != x][:2] or got[1:]))


def changed(b, comp):
    """(name of the parameter, description with that one parameter changed)"""
    leaves_ = []

    def walk(v):
        if isinstance(v, S) or isinstance(v, K) and isinstance(v.v, str):
            leaves_.append(v)
        elif isinstance(v, Agg):
            for x in v.fs:
                walk(x)
        elif isinstance(v, En):
            for _k, fs in v.alts:
                for x in fs:
                    walk(x)
        elif isinstance(v, SeqX):
            for x in v.es:
                walk(x)
    walk(comp)
    for l in dict.fromkeys(leaves_):
        new = S(l.name + "'", l.ty) if isinstance(l, S) else K(l.v + "'", l.ty)
        yield (l.name if isinstance(l, S) else "the name %s" % l.v), replace(comp, l, new)


def replace(v, old, new):
    if v is old:
        return new
    if isinstance(v, Agg):
        return Agg(v.ty, tuple(replace(x, old, new) for x in v.fs))
    if isinstance(v, En):
        return En(v.ty, tuple((k, tuple(replace(x, old, new) for x in fs)) for k, fs in v.alts))
    if isinstance(v, SeqX):
        return SeqX(tuple(replace(x, old, new) for x in v.es))
    return v
