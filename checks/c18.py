"""Every node keyword creates the node it names."""
from engine import peg, report
from engine.values import *
from . import parsing, spelled
from .c05 import read

RULE = ("For every spelling of every keyword a program `first >> keyword parameters >> last` with the digits of its numbers left open is parsed "
        "with the grammar read as data; the parser is interpreted abstractly on the pairs and the engine on what it returns. The chain must then "
        "hold exactly the node of that name between its neighbours; an unsupported keyword must be refused, by the grammar, the parser or the engine, "
        "with an error.")
WHERE = "rs/main/src/util.rs"


def leading(G, e, seen=()):
    """the literals an expression can begin with"""
    k = e[0]
    if k == "lit":
        return {e[1]}
    if k == "alt":
        return set().union(*(leading(G, x, seen) for x in e[1]))
    if k == "seq":
        out = set()
        for x in e[1]:
            out |= leading(G, x, seen)
            if not G.nullable(x):
                break
        return out
    if k == "rep":
        return leading(G, e[1], seen)
    if k == "ref" and e[1] in G.rules and e[1] not in seen:
        return leading(G, G.rules[e[1]].expr, seen + (e[1],))
    return set()


def run(P):
    c = report.Check("C18", RULE)
    G = parsing.grammar()
    known = {row.split()[0] for row, _k, _s in spelled.ROWS} | {"["}
    for r in G.refs(G.rules["node"].expr) if "node" in G.rules else ():
        for lit in sorted(leading(G, G.rules[r].expr)):
            if len(lit) > 1 and lit.replace("_", "").isalpha():
                c.count("keywords_in_the_grammar")
                if lit not in known:
                    c.count("keywords_without_expectation")
    for row, kind, _settings in spelled.ROWS:
        c.count("ways_of_writing")
        one(c, P, G, row, kind)
    c.floor("ways_of_writing", 70)
    c.floor("keywords_in_the_grammar", 40)
    c.floor("nodes_made", 60)
    c.floor("refused", 6)
    return c.finish(P)


def one(c, P, G, row, kind):
    w = spelled.Written("out: sig 1.5 >> %s >> mul 2.5" % row)
    chains, why = read(P, G, w)
    if chains is None:
        if kind is None and ("not accepted" in why or "the parser answers error" in why):
            c.count("refused")
            return
        c.require(False, "%s: read" % row, "rs/parser/src/glicol.pest", "`%s`: %s" % (w.shown, why))
        return
    pl = spelled.Played(P, {}, ())
    for n in ("~ra", "~rb", "~a"):
        if n in row:
            chains[n] = [pl.bench.const("v" + n)]
    pl = spelled.Played(P, chains, [s for s in ("\\sa", "\\sb") if s in row])
    bad = [o for o in pl.bad if o.get("kind") == "panic"]
    if kind is None:
        c.require(pl.refused() and not bad, "%s: refused" % row, WHERE, lambda: "`%s` is not supported; the engine answers %s" % (w.shown, [show(v, 4) for _s, _ok, v in pl.results]))
        c.count("refused")
        return
    st = pl.accepted()
    c.require(st is not None, "%s: accepted" % row, WHERE, lambda: "`%s`: the engine answers %s" % (w.shown, [show(v, 5) for _s, _ok, v in pl.results]))
    if st is None:
        return
    c.count("nodes_made")
    got = [n for n, _v in pl.nodes(st, "out")]
    c.require(got == ["ConstSig", kind, "Mul"], "%s: node" % row, WHERE, lambda: "`%s` makes %s, named %s" % (w.shown, got, kind))
