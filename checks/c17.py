"""No hidden inputs; random generators are seeded from the engine or the program."""
import re
from engine import absint, report
from engine.callgraph import CallGraph, is_panic
from engine.values import *
from . import common, effects, lang

RULE = ("Effect analysis over the call graph of everything the workspace contains: no clock, operating-system randomness, environment, process or thread "
        "identity, no iteration over randomly seeded hash collections, no addresses turned into numbers, no mutable statics. "
        "Abstract interpretation of node construction and messages: the seed of every random generator is the engine seed (choose), the written number (noise) "
        "or a constant.")
NOISE = re.compile(r"^dasp_signal::noise$")


def run(P):
    c = report.Check("C17", RULE)
    G = CallGraph(P)
    ctl = {f.short.rsplit("::", 1)[1]: f for f in P.fns.values() if f.short.startswith("vharness::control::hidden_") and f.kind == "item" and "{" not in f.short}
    for n, f in sorted(ctl.items()):
        c.count("positive_controls")
        c.require(bool(problems(P, G, [f])[0]), "control %s not recognised" % n, f.short, "the rule does not see a hidden input planted for it")
    c.floor("positive_controls", 10)
    roots = [f for f in P.fns.values() if f.crate in effects.WORKSPACE and f.has_body and f.kind == "item"]
    c.count("workspace_functions", len(roots))
    c.floor("workspace_functions", 300)
    bad, par = problems(P, G, roots)
    c.count("functions_reachable", len(par))
    for what, where in bad:
        c.require(False, what, where, "the result would depend on something other than program, inputs and seed")
    c.count("obligations", len(par))
    c.count("discharged", len(par) - len(bad))
    seeds(P, c)
    c.assume("what a user's script asks the rhai and fasteval interpreters to do is outside the property")
    c.assume("hashbrown's default hasher has fixed keys (no random state is created in this build: randomness crates would be seen in the call graph)")
    return c.finish(P)


def problems(P, G, roots):
    cut = lambda f: is_panic(f) or f.crate in effects.SCRIPT or effects.hidden(f)
    par, unk = G.reach(roots, cut)
    bad = []
    for i in par:
        f = P.fns.get(i)
        if f is None or is_panic(f):
            continue
        if effects.hidden(f):
            bad.append(("hidden input: %s" % re.sub(r"[<(].*", "", f.short.lstrip("<")), " -> ".join(G.path(par, i)[-5:])))
        if f.crate in effects.WORKSPACE + ("vharness",) and f.has_body:
            for o in G.targets(f)[0]:
                g = P.fns.get(o)
                if g is None:
                    continue
                if effects.HASHITER.search(g.short) and "hashbrown" not in g.short:
                    bad.append(("iterates a randomly ordered collection", "%s -> %s" % (f.short, g.short)))
                if effects.HASHSEED.search(g.short) and "hashbrown" not in g.short:
                    bad.append(("uses a randomly seeded hasher", "%s -> %s" % (f.short, g.short)))
            for what in body_facts(f):
                if not (f.crate == "wasmhost" and "ENGINE" in what[1]):
                    bad.append((what[0], "%s: %s" % (f.short, what[1])))
    return bad, par


def body_facts(f):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "static":
                out.append(("uses shared state", x.get("name", "?")))
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            if len(x) > 1 and x[0] == "cast" and isinstance(x[1], str) and "Expose" in x[1]:
                out.append(("turns an address into a number", "pointer cast"))
            if len(x) > 0 and x[0] == "tls":
                out.append(("uses shared state", "thread local"))
            for v in x:
                walk(v)
    for stmts, t, _s in f.blocks:
        for s in stmts:
            if s[0] == "=":
                walk(s)
        walk(t)
    return out


class Seeds:
    def __init__(self):
        self.seen = []

    def on_call(self, I, fn, decl, vals, st, fr, b):
        if NOISE.match(fn.short):
            self.seen.append((vals[0], fr.fn))
        return None


def seeds(P, c):
    got = {}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        o = Seeds()
        lang.make(P, kw, shape, comp, inner=lambda: o)
        c.count("descriptions_analysed")
        for v, site in o.seen:
            c.count("generators_created")
            src = {s.name for s in leaves(v)}
            got.setdefault(kw, set()).add(frozenset(src))
            want = {"Choose": {"seed"}, "Noise": {"c.seed"}}.get(kw, set())
            c.require(src == want, "%s: generator seeded wrongly" % kw.lower(), common.where(site),
                      "seed depends on %s, expected %s" % (sorted(src) or "a constant", sorted(want) or "a constant"))
    for kw in ("Choose", "Noise"):
        c.require(kw in got, "%s: no seeded generator" % kw.lower(), "main/src/util.rs", "the node is built without a seeded generator")
    # messages: a generator replaced by a message is seeded by the message's own value
    u8 = next(t.id for t in P.tys.values() if t.s == "u8")
    for name, n in sorted(common.nodes(P).items()):
        g = n.fns.get(("send_msg", 128))
        if g is None:
            continue
        o = Seeds()
        for pos in range(4):
            common.run_msg(P, g, lambda I: common.message(I, "SetToNumber", K(pos, u8), S("value", I.T_f32)), obs=o)
        for v, site in o.seen:
            c.count("generators_created")
            src = {s.name for s in leaves(v)}
            c.require(src == {"value"}, "%s: generator reseeded wrongly by a message" % n.name, common.where(site), "seed depends on %s" % sorted(src))
    c.floor("generators_created", 4)
