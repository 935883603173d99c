"""A rejected update changes nothing that is playing."""
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, programs
from .c03 import WHERE

RULE = ("Abstract interpretation of the engine update (graph, chain table, node states and edge list followed exactly; parameters symbolic) for "
        "programs rejected in every way the update can reject: syntax error, unknown reference, unknown sample, unsupported description, placed in "
        "a new chain, an edited chain, a kept node whose source is dropped and beside chains that are added, removed or edited in the same text; from a fresh engine, "
        "from every program of the family and from an engine with an earlier rejection; in both iteration orders of the chain tables. At every "
        "rejection everything rendering and messages read must equal what it was before (nodes, their states, connections, chain table), and each "
        "later program (an edit, the program playing, nothing at all) must lead to the same engine as if nothing had been rejected.")


def run(P):
    c = report.Check("C01", RULE)
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        fam = programs.family(b)
        states = [("a fresh engine", b.start)]
        for n, p in fam:
            states.append((programs.text(p), b.accepted(b.start, p)))
        bad = faulty(b)
        b.read = read_by_playing(b)
        c.count("engine_parts_read_while_playing", len(b.read))
        for (what, st), own in zip(states, [None] + [p for _n, p in fam]):
            later = [dict(fam)["a reference in an edited chain"], own or {}, {}]
            clean = [b.canon(b.accepted(st, p)) for p in later]
            for name, p in bad + losing(own or {}):
                c.count("rejections_tried")
                for s, ok, v in b.update(st, p):
                    if not c.require(ok is False, "%s: accepted" % name, WHERE, "after %s" % what):
                        continue
                    same(c, b, st, s, name, what)
                    for q, want in zip(later, clean):
                        for s2, ok2, v2 in b.update(s, q):
                            c.require(ok2 is True and b.canon(s2) == want, "%s: a later program behaves differently" % name, WHERE,
                                      lambda: "after %s, then %s" % (what, programs.text(q)))
        # two rejections in a row, then good, then a rejection
        st = states[3][1]
        for n1, p1 in bad:
            for s1, ok, _ in b.update(st, p1):
                for n2, p2 in bad:
                    c.count("rejections_tried")
                    for s2, ok2, _ in b.update(s1, p2):
                        same(c, b, st, s2, "%s after another rejection" % n2, n1)
    every_sample(c, P)
    c.floor("rejections_tried", 300)
    c.floor("engine_parts_read_while_playing", 4)
    return c.finish(P)


def read_by_playing(b):
    """parts of the engine that rendering and messages look at"""
    I = b.I
    st = b.accepted(b.start, {"out": [b.const("v"), b.mul("w")]})
    I.reads = set()
    bt = engine_.fn(b.P, "glicol::Engine::next_block")
    I.run(bt, [Ref(("eng",), (), None), SeqX(())], st.copy())
    I.run(engine_.fn(b.P, "glicol::Engine::send_msg"), [Ref(("eng",), (), None), S("msg", I.T_str)], st.copy())
    out = {p for r, p in I.reads if r == ("eng",)}
    I.reads = None
    return out


def faulty(b):
    """programs the engine rejects"""
    k, m = b.const, b.mul
    sample = b.W.component("Sp", sample_sym=K("\\none", b.I.T_str))
    adc = b.W.component("Adc", port="c.port")
    out = [("syntax error", None)]
    for kind, x in (("unknown reference", m("~gone")), ("unknown sample", sample), ("unsupported node", adc)):
        out += [
            (kind + " in a new chain", {"zz": [k("new"), x]}),
            (kind + " beside the old program", {"out": [k("v"), m("w")], "zz": [k("new"), x]}),
            (kind + " in an edited chain", {"out": [k("v"), m("w3"), x]}),
            (kind + " with chains changed and removed", {"out": [k("other"), m("w")], "~a": [k("w"), x], "~n": [k("n")]}),
            (kind + " first in its chain", {"out": [x, k("v"), m("w")], "b": [k("z2")]}),
        ]
    return out


def losing(prog):
    """the program without a chain it still refers to: rejected, though nothing in it is new"""
    out = []
    for r in prog:
        rest = {n: cs for n, cs in prog.items() if n != r}
        if any(r in programs.written_refs(x) for cs in rest.values() for x in cs):
            out.append(("a chain still referred to is dropped", rest))
            out.append(("a chain still referred to is dropped, another shortened", {n: [x for x in cs if r in programs.written_refs(x)] or cs for n, cs in rest.items()}))
    return out


def same(c, b, before, after, name, what):
    W = b.W
    e0, e1 = before.mem[("eng",)], after.mem[("eng",)]
    names = b.I.field_names(e0.ty)
    for i, f in enumerate(names):
        if ("f", i) not in b.read or f == "context":
            continue
        c.require(eq(b, e0.fs[i], e1.fs[i]), "%s: %s changes" % (name, f), WHERE,
                  lambda: "after %s: %s becomes %s" % (what, show(e0.fs[i], 6), show(e1.fs[i], 6)))
    x0, x1 = W.get(before, "context"), W.get(after, "context")
    for i, f in enumerate(b.I.field_names(x0.ty)):
        if f == "graph":
            continue
        c.require(eq(b, x0.fs[i], x1.fs[i]), "%s: %s changes" % (name, f), WHERE, lambda: "after %s" % what)
    n0, n1 = b.nodes(before), b.nodes(after)
    c.require(set(n0) == set(n1), "%s: the set of nodes changes" % name, WHERE,
              lambda: "after %s: gone %s, left over %s" % (what, [show(k, 2) for k in n0 if k not in n1], [show(k, 2) for k in n1 if k not in n0]))
    for k in n0:
        if k in n1:
            c.require(n0[k] is n1[k], "%s: a playing node changes" % name, WHERE, lambda: "after %s: %s becomes %s" % (what, show(n0[k], 6)[:200], show(n1[k], 6)[:200]))
    c.require(W.edges(before) == W.edges(after), "%s: the connections change" % name, WHERE, lambda: "after %s" % what)


def eq(b, x, y):
    if isinstance(x, MapX) and isinstance(y, MapX):
        return dict(x.es) == dict(y.es)
    return x is y


def every_sample(c, P):
    """each description naming a sample or chain that does not exist, on an engine playing something"""
    for kw, shape, comp in lang.components(absint.Interp(P)):
        b = programs.Bench(P)
        comp, refs, samples = lang.named(b.I, comp)
        if not refs and not samples:
            continue
        b.read = read_by_playing(b)
        st = b.accepted(b.start, {"out": [b.const("v"), b.mul("~a")], "~a": [b.const("w")]})
        for s, ok, v in b.update(st, {"out": [b.const("v"), comp], "~n": [b.const("n")]}):
            if ok is False:
                c.count("descriptions_rejected")
                same(c, b, st, s, "%s with an unknown name" % kw.lower(), shape)
    c.floor("descriptions_rejected", 30)
