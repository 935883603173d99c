"""Parsing any text ends in a program or an error, never a crash."""
from engine import absint, peg, report
from engine.callgraph import CallGraph, is_panic
from engine.values import *
from . import c26, common, effects, engine_, parsing

RULE = ("The grammar file is read: it has no recursive rule and no repetition whose body can match nothing. Then the code that turns pairs into a program is "
        "interpreted abstractly over every pair tree the grammar allows: each node rule with each of its sequences of child pairs, uniform lists of any length, "
        "mixed lists of up to two repetitions, all texts arbitrary, numbers that parse and numbers that do not. Every construct on the way that can panic or read "
        "memory before it is written is an obligation; every loop of that code must be driven by a finite iterator or a counter.")
WHERE = "%s (rs/parser/src/glicol.pest)"


def run(P):
    c = report.Check("C12", RULE)
    G = parsing.grammar()
    c.count("grammar_rules", len(G.rules))
    for r in G.recursive():
        c.violation("recursive rule %s" % r, WHERE % r, "the rule can reach itself, so the depth of the parse is the length of the text")
    for r in G.order:
        for x in G.refs(G.rules[r].expr):
            c.require(x in G.rules or x in peg.BUILTIN, "unknown rule %s" % x, WHERE % r, "the rule is used but not defined")
        for e in G.reps(G.rules[r].expr):
            c.count("repetitions")
            c.require(e[3] is not None or not G.nullable(e[1]), "endless repetition in %s" % r, WHERE % r, "the repeated part can match nothing")
    get_ast = engine_.fn(P, "glicol_parser::get_ast")
    runs = [("a text of %s" % (" and ".join(sh[1]) or "nothing"), {"block": sh, "node": ("list", ("speed",))}) for sh in G.shapes("block")]
    for k in G.shapes("node"):
        for sh in G.shapes(k[1][0]):
            runs.append(("%s with %s" % (k[1][0], " ".join(sh[1]) if sh[0] == "list" else "a list of %s" % sh[1]),
                         {"block": ("list", ("line", "EOI")), "node": k, k[1][0]: sh}))
    analysed, sites, asked, ext = set(), set(), {}, {}
    for what, fixed in runs:
        c.count("pair_trees")
        ob = parsing.Lazy(P, G, 2, fixed)
        I = absint.Interp(P, obs=ob, budget=4000000)
        rs = I.run(get_ast, [S("code", get_ast.locals[1])], absint.State())
        analysed |= I.analysed
        for k, n in ob.seen.items():
            asked[k] = asked.get(k, 0) + n
        for k, n in I.unmodelled.items():
            ext[k] = ext.get(k, 0) + n
        c.require(bool(rs), "no outcome for %s" % what, "glicol_parser::get_ast (rs/parser/src/lib.rs)", "no path of the parser returns for %s" % what)
        for (fn, kind, where), o in I.obls.items():
            if kind.startswith("overflow"):
                continue
            c.count("panic_obligations", o["n"])
            sites.add((fn, kind))
            c.require(not o["bad"], "%s in %s" % (kind, fn), "%s (%s)" % (fn, common.rel(where)),
                      lambda: "%s: %s (%s), called from %s" % (what, o["bad"][0][1], o["bad"][0][0], " < ".join((o["chain"] or ["?"])[1:4])))
    c.count("obligation_sites", len(sites))
    # loops and recursion of the parser's own code
    CG = CallGraph(P)
    par, _unk = CG.reach([get_ast], lambda f: is_panic(f) or f.crate in effects.SCRIPT or parsing.generated(f))
    for i in sorted(par):
        f = P.fns.get(i)
        if f is None or not f.has_body or f.crate != "glicol_parser" or parsing.generated(f):
            continue
        c.count("functions")
        bad, ok = c26.faults(P, f)
        c.count("loops", len(ok) + sum(1 for k, _w, _y in bad if k == "loop"))
        for kind, where, why in bad:
            c.violation("%s in %s" % (kind, f.short), where, why)
    c.sample("pest_calls", asked)
    c.sample("library_calls_assumed_total", sorted(ext))
    c.floor("grammar_rules", 80)
    c.floor("pair_trees", 60)
    c.floor("panic_obligations", 1000)
    c.floor("functions", 60)
    c.assume("pest parses any text in finite time and hands out exactly the pairs its grammar describes, with spans that lie inside the text")
    c.assume("fasteval returns from evaluating any text")
    return c.finish(P)
