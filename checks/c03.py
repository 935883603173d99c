"""Signals are routed exactly as the chains are written."""
from engine import report
from engine.values import *
from . import common, programs

RULE = ("Abstract interpretation of the engine update (graph, chain table and edge list followed exactly; parameters symbolic): for every program "
        "of the family, on a fresh engine and after every other program of the family, and for every node description of the language inside a "
        "chain, in both iteration orders of the chain tables, the resulting connections must be exactly those the text stands for, and each "
        "node must remember its inputs as main input first, then the referenced ones as written. A constant must stand in the chain table where it "
        "is written and nowhere else.")


def run(P):
    c = report.Check("C03", RULE)
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        fam = programs.family(b)
        first = {}
        for n, p in fam:
            c.count("programs")
            s = verify(c, b, b.start, p, "on a fresh engine")
            if s is not None:
                first[n] = s
        for n, s in first.items():
            for m, p in fam:
                c.count("edits")
                verify(c, b, s, p, "after %s" % programs.text(dict(fam)[n]))
    for kw, b, comp, prog in every_description(P):
        if verify(c, b, b.start, prog, "on a fresh engine", False) is not None:
            c.count("descriptions")
    c.floor("programs", 40)
    c.floor("edits", 900)
    c.floor("descriptions", 75)
    c.assume("programs of the family: up to three chains of up to four nodes; what happens to longer ones is the same loop taken again")
    return c.finish(P)


def every_description(P):
    from . import lang
    from engine import absint
    for kw, shape, comp in lang.components(absint.Interp(P)):
        b = programs.Bench(P)
        comp, refs, samples = lang.named(b.I, comp)
        st = b.start
        for s in samples:
            st = b.sample(st, s)
        b.start = st
        prog = {"out": [b.const("first"), comp, b.mul("last")]}
        for i, r in enumerate(dict.fromkeys(refs)):
            prog[r] = [b.const("r%d" % i), b.mul("s%d" % i)]
        yield kw, b, comp, prog


WHERE = "glicol::Engine::update_with_code (rs/main/src/lib.rs)"


def verify(c, b, st, prog, when, accept=True):
    out = None
    for s, ok, v in b.update(st, prog):
        if not ok:
            continue
        out = s
        want, order = programs.expected_edges(b, prog, lambda x: dedup(b, x))
        got = b.edges(s)
        what = "%s, %s" % (programs.text(prog), when)
        c.require(set(got) == set(want), "connections of %s" % shape(prog), WHERE, lambda: "%s: %s" % (what, diff(got, want)))
        misplaced(c, b, s, prog, what)
        for (n, i), o in order.items():
            key = b.chains(s)[n][i] if n in b.chains(s) and i < len(b.chains(s)[n]) else None
            if key is None:
                c.require(False, "chain table of %s" % shape(prog), WHERE, "%s: %s has no node %d" % (what, n, i))
                continue
            have = b.order(s, key)
            if have is not None:
                c.require(have == o, "input order in %s" % shape(prog), WHERE, lambda: "%s: node %d of %s hears %s, written %s" % (what, i, n, have, o))
    c.require(out is not None or not accept, "acceptance of %s" % shape(prog), WHERE, lambda: "%s, %s: not accepted" % (programs.text(prog), when))
    return out


def misplaced(c, b, s, prog, what):
    """the table the connections are named by has its nodes where they are written: told by the constants among them"""
    const = b.const("alone")
    if not hasattr(b, "const_type"):
        st = b.accepted(b.start, {"out": [const]})
        b.const_type = b.inner(st, b.chains(st)["out"][0])[1]
    chains = b.chains(s)
    for n, cs in prog.items():
        for i, comp in enumerate(cs):
            if n not in chains or i >= len(chains[n]):
                continue
            written = comp.alts[0][0] == const.alts[0][0]
            made = b.inner(s, chains[n][i])[1] == b.const_type
            c.require(written == made, "place of nodes in %s" % shape(prog), WHERE,
                      lambda: "%s: node %d of %s is %s constant" % (what, i, n, "a" if made else "no"))


def dedup(b, comp):
    r = programs.written_refs(comp)
    return list(dict.fromkeys(r)) if b.I.variants(comp.ty)[comp.alts[0][0]][0] == "Seq" else r


def shape(prog):
    return "; ".join("%s of %d" % (n, len(cs)) for n, cs in sorted(prog.items())) or "the empty program"


def diff(got, want):
    return "extra %s, missing %s" % (sorted(set(got) - set(want), key=repr), sorted(set(want) - set(got), key=repr))
