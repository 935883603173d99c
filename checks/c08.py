"""While rendering, a node hears exactly the nodes wired into it."""
import itertools, re
from engine import absint, report
from engine.values import *
from . import common, engine_, programs

RULE = ("Abstract interpretation of rendering one and two blocks, with the graph followed exactly and every node's own rendering replaced by 'writes "
        "something new to its outputs': whenever a node is entered, the inputs it is given are read through the program's own accessor and must be, under "
        "each connected node's identity, what that node's outputs hold at this moment, and nothing else; its outputs must be its own. Every node that "
        "reaches the output is entered exactly once, after the nodes feeding it that do not in turn depend on it; the block returned is the output node's. "
        "Graphs: every set of connections among two nodes and the output, self connections included, made through the public context; chosen graphs "
        "with three nodes; every program of the family, cyclic programs, and programs after an edit, a rejection and a reset.")

ENTER = re.compile(r"^<(.*) as glicol_synth::Node>::process$")
WRAP = re.compile(r"^(&|std::boxed::Box|glicol_synth::BoxedNode)")
N = 4


class Renders:
    """stands for every node: notes what it is given and writes something new"""
    def __init__(self):
        self.busy = False
        self.seen = None

    def on_call(self, I, fn, decl, vals, st, fr, b):
        m = ENTER.match(fn.short)
        if not m or WRAP.match(m.group(1)) or self.seen is None or self.busy:
            return None
        self.busy = True
        try:
            node, ins, outs = [resolve(I, v, st) for v in vals]
            m = I.load(ins.root, ins.path, st) if isinstance(ins, Ref) else None
            heard = {}
            if not isinstance(m, MapX):
                heard = None
            else:
                f = engine_.fn(I.P, "glicol_synth::Input::buffers", N)
                for i, (k, v) in enumerate(m.es):
                    s2 = st.copy()
                    s2.mem[("in",)] = v
                    r = I.run(f, [Ref(("in",), (), None)], s2)
                    heard[k.v if isinstance(k, K) else show(k)] = [content(I, x, s) for s, x in r]
            n = len([o for o in st.obs if o[0] == "render"])
            st = st.copy()
            ob = I.load(outs.root, outs.path, st) if isinstance(outs, Ref) else None
            if isinstance(ob, SeqX):
                for ch, bv in enumerate(ob.es):
                    st_write(I, outs, ch, bv, "b%d.%d" % (n, ch), st)
            rec = (node, heard, outs)
            self.seen.append(rec)
            st.obs = st.obs + (("render", len(self.seen) - 1),)
            return [(st, Agg(I.T_unit, ()))]
        finally:
            self.busy = False


def resolve(I, v, st):
    for _ in range(4):
        if isinstance(v, Ref):
            t = I.load(v.root, v.path, st)
            if isinstance(t, Ref):
                v = t
                continue
        return v
    return v


def st_write(I, outs, ch, old, name, st):
    t = I.T_f32
    new = Agg(old.ty, (SeqX(tuple(S("%s[%d]" % (name, i), t) for i in range(N))),))
    I.store(outs.root, outs.path + (("e", I.kint(ch)),), new, st)


def content(I, v, st):
    """what a slice of buffers holds"""
    if isinstance(v, Ref):
        v = I.load(v.root, v.path, st)
    return tuple(v.es) if isinstance(v, SeqX) else show(v, 4)


class Case:
    def __init__(self, c, b, what):
        self.c, self.b, self.what = c, b, what


def render(c, P, obs, I, graph, dest, run, st, what, where):
    """one block; graph(st) -> (nodes {key: data}, edges); run(st) -> [(state, returned value)]"""
    obs.seen = []
    nodes0, edges = graph(st)
    bi = I.field_names(next(iter(nodes0.values())).ty).index("buffers")
    byidx = {k.fs[0].v: k for k in nodes0}
    preds = {k: {a for a, x in edges if x is k and a is not k} for k in nodes0}
    reach = closure(preds, dest)
    out = []
    rs = run(st)
    c.require(len(rs) == 1, "rendering has one outcome", where, "%s: %d outcomes" % (what, len(rs)))
    for s, v in rs:
        c.count("blocks_rendered")
        visits = [obs.seen[o[1]] for o in s.obs if o[0] == "render"]
        # replay the writes to know what every buffer held when
        now = {k: tuple(d.fs[bi].es) for k, d in nodes0.items()}
        order = []
        for i, (node, heard, outs) in enumerate(visits):
            c.count("nodes_rendered")
            k = owner(outs, byidx)
            kn = owner(node, byidx)
            if not c.require(k is not None and k is kn, "a node writes to its own outputs", where, lambda: "%s: %s renders into %s" % (what, show(node, 4), show(outs, 4))):
                continue
            want = {x.fs[0].v: [now[x]] for x in preds[k]}
            c.require(heard == want, "a node hears exactly what is wired into it", where,
                      lambda: "%s: node %s hears %s, wired %s" % (what, k.fs[0].v, brief(heard), brief(want)))
            order.append(k)
            now[k] = tuple(Agg(x.ty, (SeqX(tuple(S("b%d.%d[%d]" % (i, ch, j), I.T_f32) for j in range(N))),)) for ch, x in enumerate(now[k]))
        c.require(sorted(map(show, order)) == sorted(map(show, reach)), "nodes reaching the output render once", where,
                  lambda: "%s: %s rendered, %s reach the output" % (what, [show(x) for x in order], [show(x) for x in reach]))
        back = {k: closure(preds, k) for k in reach}
        for i, k in enumerate(order):
            for p in preds[k]:
                if k in back.get(p, ()):
                    continue            # they depend on each other
                c.require(p in order[:i], "a node renders after what feeds it", where, lambda: "%s: %s before %s" % (what, show(k), show(p)))
        nodes1, _ = graph(s)
        for k in nodes0:
            c.require(k in nodes1 and tuple(nodes1[k].fs[bi].es) == now[k], "outputs only change by the node's own rendering", where, lambda: "%s: node %s" % (what, show(k)))
        if v is not None:
            c.require(content(I, v, s) == now[dest], "the block returned is the output node's", where, lambda: "%s: %s" % (what, show(v, 4)))
        s = s.copy()
        s.obs = ()
        out.append(s)
    obs.seen = None
    return out


def owner(ref, byidx):
    if not isinstance(ref, Ref):
        return None
    for e in ref.path:
        if e[0] == "mv":
            return e[1] if e[1] in byidx.values() else None
    return None


def brief(h):
    return {k: [str(x)[:60] for x in v] for k, v in h.items()} if isinstance(h, dict) else h


def closure(preds, k):
    seen, todo = {k}, [k]
    while todo:
        for p in preds.get(todo.pop(), ()):
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


def fill(I, st, root, gpath):
    """every buffer holds something of its own"""
    g = I.load(root, gpath, st)
    es = []
    for k, d in g.fs[0].es:
        i = I.field_names(d.ty).index("buffers")
        fs = list(d.fs)
        fs[i] = SeqX(tuple(Agg(x.ty, (SeqX(tuple(S("old%s.%d[%d]" % (k.fs[0].v, ch, j), I.T_f32) for j in range(N))),)) for ch, x in enumerate(d.fs[i].es)))
        es.append((k, Agg(d.ty, tuple(fs))))
    I.store(root, gpath, Agg(g.ty, (MapX(tuple(es)),) + g.fs[1:]), st)


def run(P):
    c = report.Check("C08", RULE)
    engines(c, P)
    contexts(c, P)
    c.floor("blocks_rendered", 200)
    c.floor("nodes_rendered", 500)
    c.floor("graphs", 100)
    return c.finish(P)


def engines(c, P):
    obs = Renders()
    b = programs.Bench(P, N=N, inner=obs)
    I, W = b.I, b.W
    f = engine_.fn(P, "glicol::Engine::next_block", N)
    k, m = b.const, b.mul
    cyc = [
        ("a chain that refers to itself", {"out": [k("v"), m("~a")], "~a": [k("w"), m("~a")]}),
        ("an output that refers to itself", {"out": [k("v"), m("out")]}),
        ("two chains that refer to each other", {"out": [k("v"), m("~a")], "~a": [k("w"), m("~b")], "~b": [k("x"), m("~a")]}),
        ("a chain heard twice", {"out": [b.mix("~a", "~a")], "~a": [k("w")]}),
        ("a chain heard directly and through another", {"out": [b.mix("~a", "~b")], "~a": [k("w")], "~b": [k("x"), m("~a")]}),
        ("a source inside a chain", {"out": [k("v"), k("w"), m("x")]}),
    ]
    fam = programs.family(b) + cyc
    cp = common.field_index(I, W.ety, "context")
    gp = None

    def graph(st):
        return b.nodes(st), W.edges(st)

    def go(s):
        I.epoch += 1
        return I.run(f, [Ref(("eng",), (), None), SeqX(())], s.copy())
    states = []
    for name, p in fam:
        rs = [s for s, ok, _ in b.update(b.start, p) if ok]
        if rs:
            states.append((name, rs[0]))
    base = dict(states)
    for n1, s1 in states[:14:3]:
        for n2, p2 in fam[1::4]:
            for s, ok, _ in b.update(s1, p2):
                states.append(("%s edited to %s" % (n1, n2), s))
        for s, ok, _ in b.update(s1, {"out": [k("new"), m("~gone")]}):
            states.append(("%s after a rejection" % n1, s))
    gi = I.field_names(W.get(b.start, "context").ty).index("graph")
    path = (("f", cp), ("f", gi))
    dest = W.get(b.start, "context", "destination")
    for what, st in states:
        c.count("graphs")
        st = st.copy()
        st.obs = ()
        fill(I, st, ("eng",), path)
        for s in render(c, P, obs, I, graph, dest, go, st, what, "glicol::Engine::next_block"):
            fill(I, s, ("eng",), path)
            render(c, P, obs, I, graph, dest, go, s, what + ", second block", "glicol::Engine::next_block")
    for s, _ in I.run(engine_.fn(P, "glicol::Engine::reset", N), [Ref(("eng",), (), None)], base["references in a row"].copy()):
        c.count("graphs")
        fill(I, s, ("eng",), path)
        render(c, P, obs, I, graph, W.get(s, "context", "destination"), go, s, "a reset engine", "glicol::Engine::next_block")


def contexts(c, P):
    """graphs built through the public context: all connections among two nodes and the output"""
    obs = Renders()
    W = engine_.World(P, N, obs)
    I = W.I
    f = engine_.fn(P, "glicol_synth::AudioContext::next_block", N)
    con = engine_.fn(P, "glicol_synth::AudioContext::connect", N)
    start = W.fresh()[0]
    st = start.copy()
    ctx = W.get(start, "context")
    st.mem = {("ctx",): ctx}
    names = I.field_names(ctx.ty)
    gi, di = names.index("graph"), names.index("destination")
    dest = ctx.fs[di]

    def graph(s):
        g = I.load(("ctx",), (("f", gi),), s)
        return {k: v for k, v in g.fs[0].es}, [e.fs for e in g.fs[1].es]

    def go(s):
        I.epoch += 1
        return I.run(f, [Ref(("ctx",), (), None)], s.copy())
    keys = list(graph(st)[0])
    others = [k for k in keys if k is not dest][:2]
    all_edges = [(a, b) for a in others for b in others + [dest]] + [(dest, dest), (dest, others[0])]
    for sub in itertools.product((0, 1), repeat=len(all_edges)):
        es = [e for e, on in zip(all_edges, sub) if on]
        c.count("graphs")
        s = st.copy()
        s.obs = ()
        for a, b in es:
            (s, _), = I.run(con, [Ref(("ctx",), (), None), a, b], s)
        fill(I, s, ("ctx",), (("f", gi),))
        s.obs = ()
        what = "connections %s" % [(a.fs[0].v, b.fs[0].v) for a, b in es]
        render(c, P, obs, I, graph, dest, go, s, what, "glicol_synth::AudioContext::next_block")
