"""Reset brings the engine back to its initial state."""
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, programs

RULE = ("Abstract interpretation of the engine's reset (graph, chain table and node states followed exactly) from engines with any sample rate, "
        "tempo, seed and amplitude that loaded samples and played, edited or had rejected programs, and rendered blocks: every part of the engine must "
        "equal that of a newly created engine given the same sample rate, up to the identities of nodes and bookkeeping no operation reads "
        "before writing; and each later program must lead to the same engine as on a new one.")


def run(P):
    c = report.Check("C20", RULE)
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        W, I = b.W, b.I
        reset = engine_.fn(P, "glicol::Engine::reset")
        new = W.call1(W.fresh()[0], "glicol::Engine::set_sr", S("sr", None))
        fam = programs.family(b)
        states = [("a configured engine", b.start)]
        amp = [n for n in ("glicol::Engine::set_track_amp",) if n in P.by_short]
        s = b.start
        for n in amp:
            s = W.call1(s, n, S("amp", None))
        s = b.sample(s, "\\s0")
        states.append(("an engine with a sample", s))
        for n, p in fam:
            states.append((n, b.accepted(s, p)))
        more = []
        for n, st in states[2:]:
            more += [("%s, then a rejected edit" % n, x) for x, ok, _ in b.update(st, {"out": [b.const("v"), b.mul("~gone")]})]
            more += [("%s, then a block" % n, x) for x, _ in I.run(engine_.fn(P, "glicol::Engine::next_block"), [Ref(("eng",), (), None), SeqX(())], st.copy())]
        states += more
        later = [p for _n, p in fam[::4]] + [{"out": [b.const("v"), b.mul("~input")]}]
        want = [b.canon(b.accepted(new, p)) for p in later]
        for what, st in states:
            c.count("engines_reset")
            rs = I.run(reset, [Ref(("eng",), (), None)], st.copy())
            c.require(bool(rs), "reset does not return", common.where(reset), what)
            for s, _ in rs:
                same(c, b, reset, new, s, what)
                c.require(b.canon(s) == b.canon(new), "nodes, connections or chains differ from a new engine's", common.where(reset),
                          lambda: "%s: %s instead of %s" % (what, b.canon(s)[1:], b.canon(new)[1:]))
                for p, w in zip(later, want):
                    for s2, ok, v in b.update(s, p):
                        c.require(ok is True and b.canon(s2) == w, "a later program behaves differently from one on a new engine", common.where(reset),
                                  lambda: "%s, then %s" % (what, programs.text(p)))
                for name in ("\\s0",):
                    for s2, ok, v in b.update(s, {"out": [W.component("Sp", sample_sym=K(name, I.T_str))]}):
                        c.require(ok is False, "a sample survives", common.where(reset), what)
    c.floor("engines_reset", 100)
    return c.finish(P)


def same(c, b, reset, new, s, what):
    e0, e1 = new.mem[("eng",)], s.mem[("eng",)]
    for i, f in enumerate(b.I.field_names(e0.ty)):
        x, y = e0.fs[i], e1.fs[i]
        if f == "context":
            parts(c, b, reset, x, y, what)
            continue
        if mentions_nodes(b, x):
            continue                # compared up to identities through the chains
        c.require(alike(x, y), "%s differs from a new engine's" % f, common.where(reset), lambda: "%s: %s instead of %s" % (what, show(y, 5), show(x, 5)))


def parts(c, b, reset, x, y, what):
    for i, f in enumerate(b.I.field_names(x.ty)):
        if f == "graph" or mentions_nodes(b, x.fs[i]):
            continue
        if not isinstance(x.fs[i], (K, S, O, MapX, SeqX, En)):
            continue                # the graph walker's own buffers: reset at the start of every walk
        c.require(alike(x.fs[i], y.fs[i]), "%s differs from a new engine's" % f, common.where(reset),
                  lambda: "%s: %s instead of %s" % (what, show(y.fs[i], 5), show(x.fs[i], 5)))


def mentions_nodes(b, v):
    keys = set(b.builtin)

    def f(x, d=0):
        if x in keys:
            return True
        if isinstance(x, MapX):
            return any(f(k) or f(w) for k, w in x.es)
        if isinstance(x, SeqX):
            return any(f(k) for k in x.es)
        if isinstance(x, Agg):
            return any(f(k) for k in x.fs)
        return False
    return f(v)


def alike(x, y):
    if isinstance(x, MapX) and isinstance(y, MapX):
        return dict(x.es) == dict(y.es)
    return x is y
