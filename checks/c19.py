"""Musical time advances once per frame: how far every clock and phase moves in one block, on every path."""
import re
from engine import absint, report
from engine.values import *
from . import common, engine_, history, lang, programs

RULE = ("Abstract interpretation of every node's rendering over four frames, from any state its history can reach: the cells that accumulate time (an "
        "integer that is its old value plus a count, a phase that is its old value plus increments) are found by what rendering does to them. On every "
        "path on which the node renders, such a cell must have moved by exactly one per frame: four counts or four increments (a wrap by a whole cycle "
        "is not a move), or have been set back to zero and moved once per frame since. Nodes built from an inner graph must render it exactly once, and "
        "the engine's clock moves by one block per block.")

N = 4
SITUATIONS = [((), ()), ((1,), (0,)), ((2,), (0,)), ((1, 1), (0, 1)), ((2, 2), (0, 1)), ((1, 1, 1), (0, 1, 2))]
# clocks counted by hand in the source: node -> how many cells keep time
EXPECT = {"Points": 1, "Impulse": 1, "TriOsc": 1, "SquOsc": 1, "SawOsc": 1, "SinOsc": 1, "Sequencer": 1, "Arrange": 1, "Sampler": 1, "MsgSynth": 1,
          "PatternSynth": 1, "PSampler": 1, "ResonantLowPassFilter": 1, "EnvPerc": 1, "Adsr": 1, "Eval": 1, "ConstSig": 1}


def run(P):
    c = report.Check("C19", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    found = {}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        if kw == "Arrange" and re.search(r",Ref\]", shape):
            continue                                     # a length that is not a number: nothing is played
        made, _ = lang.make(P, kw, shape, comp, N)
        for m in made:
            c.count("nodes_made")
            one(P, c, m, fns[m.name], found)
    for n, k in sorted(EXPECT.items()):
        c.require(len(found.get(n, ())) >= k, "%s no longer keeps time" % n, n, lambda n=n: "cells found: %s" % sorted(found.get(n, ())))
    c.count("clocks", sum(len(v) for v in found.values()))
    c.floor("clocks", sum(EXPECT.values()))
    c.floor("cells_followed", 250)
    engine_clock(P, c)
    c.assume("the phase of a single voice of a polyphonic synth is not followed, only the clock its voices share")
    return c.finish(P)


class Inner:
    """counts how often a node renders the graph it owns"""
    def on_call(self, I, fn, decl, vals, st, fr, b):
        if re.match(r"^glicol_synth::(\w+::)*Processor::process$|^glicol_synth::process$", fn.short) and not any("Processor::process" in x.fn.short for x in fr.chain()):
            st = st.copy()
            st.obs = st.obs + (("inner",),)
            return [(st, Agg(I.T_unit, ()))]
        return None


def one(P, c, m, fns, found):
    h = history.History(P, m, fns)
    I = h.I
    val, cl = general(I, m.node_ty, h.value, m.node)
    owns = any("AudioContext" in P.tys[t].s for t in I.field_tys(m.node_ty) or ())
    moved = {}
    for ch, order in SITUATIONS:
        I.epoch += 1
        I.obs = Inner() if owns else None
        h.value = val
        st = h.state()
        f, args = h.block(st, ch, order)
        before = st.mem[("out",)]
        what = "%s with %s" % (m.label(), "no input" if not ch else "inputs of %s channels" % " and ".join(map(str, ch)))
        for s, _v in I.run(f, args, st):
            renders = sounds(s.mem[("out",)], before)
            c.count("ways_through")
            if owns:
                k = sum(1 for o in s.obs if o == ("inner",))
                c.count("inner_graphs_followed")
                c.require(k == 1 or k == 0 and not renders, "%s renders its inner graph %d times a block" % (m.name, k), common.where(f), what)
            for n, p in cl:
                u = at(I, s.mem[("self",)], p)
                pre = at(I, val, p)
                if u is None:
                    continue
                moved.setdefault((n, p, pre), []).append((what, renders, advances(I, u, pre), u))
        I.obs = None
    for (n, p, pre), ms in moved.items():
        ints = I.is_int(pre.ty)
        if not any(k == "pre" and d == N for _w, r, a, _u in ms for k, d in a) and not any(k == "pre" and isinstance(d, int) and d > 0 for _w, r, a, _u in ms for k, d in a):
            continue                                     # not a cell that accumulates
        if not ints and not all(k in ("pre", "set") for _w, r, a, _u in ms if r for k, d in a):
            continue                                     # a filter memory, not a phase
        found.setdefault(m.name, set()).add(n)
        for what, renders, a, u in ms:
            c.count("cells_followed")
            c.count("obligations")
            bad = [x for x in a if not fine(x, renders)]
            if not bad:
                c.count("discharged")
            c.require(not bad, "the clock of %s does not move once per frame" % m.name, common.where(fns[("process", N)]),
                      lambda: "%s, %s: in %d frames it moves %s" % (what, n, N, ", ".join(sorted(tell(x) for x in bad))))


def sounds(v, old):
    """something other than what was there or silence is in the output"""
    if v is old or isinstance(v, K) and v.v == 0:
        return False
    if isinstance(v, Agg) and isinstance(old, Agg):
        return any(sounds(a, b) for a, b in zip(v.fs, old.fs))
    if isinstance(v, SeqX) and isinstance(old, SeqX):
        return any(sounds(a, b) for a, b in zip(v.es, old.es))
    return True


def fine(x, renders):
    kind, d = x
    if kind == "pre":
        return d == N or d == 0 and not renders
    if kind == "set":
        return isinstance(d, tuple) and d[0] == 0 and 0 <= d[1] <= N
    return False


def tell(x):
    kind, d = x
    if kind == "pre":
        return "by %s" % d
    if kind == "set":
        return "to %s and then by %s" % d
    return "in a way that is not followed"


def general(I, ty, v, first):
    """the node with every varying number replaced by a symbol of its own, every varying list by a list of one"""
    cl = []

    def go(a, b, ty, name, path):
        if a is b:
            return a
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
            ns, ts = I.field_names(a.ty or ty) or [str(i) for i in range(len(a.fs))], I.field_tys(a.ty or ty) or [None] * len(a.fs)
            return Agg(a.ty, tuple(go(x, y, t, "%s%s%s" % (name, "." if name else "", n), path + (("f", i),)) for i, (x, y, n, t) in enumerate(zip(a.fs, b.fs, ns, ts))))
        if isinstance(a, S) and (I.is_int(a.ty) or I.is_float(a.ty)):
            cl.append((name, path))
            return S("pre." + name, a.ty)
        if isinstance(a, SeqX) and isinstance(b, SeqX) and len(a.es) == len(b.es) and all(isinstance(x, En) for x in b.es):
            return b                                     # a list of settings: messages change numbers in it, not what they are
        if isinstance(a, SeqA):
            return SeqX((elem(a.e, name + "[0]", path + (("e", 0),)),))
        return a

    def elem(e, name, path):
        ty = getattr(e, "ty", None)
        if isinstance(e, Agg):
            return Agg(e.ty, tuple(elem(x, "%s.%d" % (name, i), path + (("f", i),)) for i, x in enumerate(e.fs)))
        if I.is_int(ty) or I.is_float(ty):
            cl.append((name, path))
            return S("pre." + name, ty)
        return e

    return go(v, first, ty, "", ()), cl


def at(I, v, path):
    for e in path:
        if e[0] == "f" and isinstance(v, Agg):
            v = v.fs[e[1]]
        elif e[0] == "e" and isinstance(v, SeqX) and e[1] < len(v.es):
            v = v.es[e[1]]
        else:
            return None
    return v


def advances(I, u, pre, memo=None):
    """the ways in which a value comes from the old one: {("pre", moves)}, {("set", (start, moves))} or {("?", 0)}"""
    memo = {} if memo is None else memo
    if u is pre:
        return {("pre", 0)}
    if u in memo:
        return memo[u]
    memo[u] = {("?", 0)}
    r = {("?", 0)}
    if isinstance(u, K):
        r = {("set", (u.v, 0))}
    elif I.is_phi(u):
        r = set()
        for x in I.alternatives(u):
            r |= advances(I, x, pre, memo)
    elif isinstance(u, O) and u.op in ("Add", "Sub"):
        a, b = u.args
        da, db = depends(I, a, pre), depends(I, b, pre)
        if u.op == "Add" and db and not da:
            a, b, da, db = b, a, db, da
        if u.op == "Add" and isinstance(a, K) and not isinstance(b, K) and not da and not db:
            a, b = b, a
        if not db:
            sub = advances(I, a, pre, memo)
            if I.is_int(u.ty):
                k = b.v * (1 if u.op == "Add" else -1) if isinstance(b, K) else None
            elif isinstance(b, K) and b.v == 1.0 and u.op == "Sub":
                k = 0
            else:
                k = 1 if u.op == "Add" else None
            r = {add(x, k) for x in sub}
    elif isinstance(u, O) and u.op in ("Rem", "rem_euclid", "fract", "frac") and not any(depends(I, x, pre) for x in u.args[1:]):
        r = advances(I, u.args[0], pre, memo)
    elif isinstance(u, S) and not depends(I, u, pre):
        r = {("set", (u.name, 0))}
    memo[u] = r
    return r


def add(x, k):
    kind, d = x
    if k is None or kind == "?":
        return ("?", 0)
    if kind == "pre":
        return (kind, d + k)
    return (kind, (d[0], d[1] + k))


def depends(I, v, pre):
    return pre.name in I.label_names(v)


def engine_clock(P, c):
    b = programs.Bench(P)
    st = b.accepted(b.start, {"out": [b.const("v"), b.mul("w")]})
    f = engine_.fn(P, "glicol::Engine::next_block")
    ety = common.self_ty(P, f)
    i = common.field_index(b.I, ety, "clock")
    st = st.copy()
    pre = S("pre.clock", b.I.T_usize)
    b.I.store(("eng",), (("f", i),), pre, st)
    n = 0
    for s, _v in b.I.run(f, [Ref(("eng",), (), None), SeqX(())], st):
        n += 1
        a = advances(b.I, s.mem[("eng",)].fs[i], pre)
        c.count("obligations")
        c.count("discharged")
        c.require(a == {("pre", 128)}, "the engine's clock does not move by one block per block", common.where(f), lambda: "it moves %s" % ", ".join(tell(x) for x in a))
    c.require(n > 0, "rendering a block has no outcome", common.where(f), "nothing was analysed")
