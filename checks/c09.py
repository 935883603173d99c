"""Input order follows the announced connections."""
from engine import absint, report
from engine.values import *
from . import common

RULE = ("Abstract interpretation of every node's message entry from remembered orders of 0 to 3 inputs: an appended connection must "
        "leave order + [new], a connection at position p must leave the order with the new one inserted at p, a reset must leave the "
        "empty order, every other message and rendering a block must leave the order as it was. The connecting operations of the audio "
        "graph are interpreted with an observer for edges and messages: every edge made is announced to its target with its source.")


def keys(I, n):
    return tuple(S("idx:o%d" % i, I.T_usize) for i in range(n))


def uses_order(P, n, fields):
    """whether rendering looks at the remembered order at all"""
    g = n.fns[("process", 128)]
    for k in (0, 1, 2, 3):
        reads = set()

        def setup(I, st):
            I.reads = reads
        try:
            common.run_process(P, g, k, 1, 2, 128, setup=setup)
        except absint.Budget:
            return True
        if any((("self",), ("f", i)) in reads for i, _ in fields):
            return True
    return False


class Conn:
    """records edges and announcements, in order"""
    def on_call(self, I, fn, decl, vals, st, fr, b):
        n = fn.short.rsplit("::", 1)[-1]
        if n == "add_edge" and "StableGraph" in fn.short:
            st = st.copy()
            st.obs = st.obs + (("edge", vals[1], vals[2]),)
            t = I.ret_ty_at(fr, b)
            return [(st, S("edge%d" % len(st.obs), t))]
        if n == "send_msg" and (fn.kind.startswith("virtual") or "BoxedNodeSend as" in fn.short):
            st = st.copy()
            st.obs = st.obs + (("msg", vals[0], vals[1]),)
            return [(st, Agg(I.T_unit, ()))]
        return None


def run(P):
    c = report.Check("C09", RULE)
    nodes = common.nodes(P)
    ordered = 0
    for t, n in nodes.items():
        f = n.fns.get(("send_msg", 128))
        g = n.fns.get(("process", 128))
        if f is None or g is None:
            continue
        c.count("node_types")
        I = absint.Interp(P)
        fields = common.vec_usize_fields(I, common.self_ty(P, f))
        if not fields:
            continue
        if not uses_order(P, n, fields):
            c.count("nodes_ignoring_order")
            continue
        ordered += 1
        if len(fields) > 1:
            # several lists of identities: the order is the one an announcement changes
            I, r = common.run_msg(P, f, lambda I: common.message(I, "Index", S("idx:new", I.T_usize)))
            fields = [x for x in fields if any(I.load(("self",), (("f", x[0]),), s) is not I.proj(S("self", common.self_ty(P, f)), ("f", x[0]), s) for s, _ in r)]
            if not c.require(len(fields) == 1, "%s: no remembered order" % n.name, common.where(f), "announcements do not reach a single remembered order"):
                continue
        fi = fields[0][0]

        def after(msg, order):
            def setup(I, st):
                I.store(("self",), (("f", fi),), SeqX(keys(I, order)), st)
            I, r = common.run_msg(P, f, msg, setup=setup)
            return I, [(s, I.load(("self",), (("f", fi),), s)) for s, _ in r]

        def expect(what, msg, order, want):
            I, outs = after(msg, order)
            c.count("message_runs")
            for s, v in outs:
                c.require(isinstance(v, SeqX) and v.es == want(I), "%s: %s" % (n.name, what), common.where(f),
                          "order of %d inputs becomes %s" % (order, show(v, 4)))
            if not outs:
                c.require(False, "%s: %s" % (n.name, what), common.where(f), "the message never returns")
        new = lambda I: S("idx:new", I.T_usize)
        for k in range(4):
            expect("an appended connection does not come last", lambda I: common.message(I, "Index", new(I)), k, lambda I: keys(I, k) + (new(I),))
            expect("an order reset does not forget earlier connections", lambda I: common.message(I, "ResetOrder"), k, lambda I: ())
            for p in range(k + 1):
                expect("a positioned connection is not inserted at its position", lambda I: common.message(I, "IndexOrder", I.kint(p), new(I)), k,
                       lambda I: keys(I, k)[:p] + (new(I),) + keys(I, k)[p:])
        for m in common.message_names(P):
            if m in ("Index", "IndexOrder", "ResetOrder"):
                continue
            expect("message %s disturbs the input order" % m, lambda I: common.message(I, m), 2, lambda I: keys(I, 2))
        for k in (0, 1, 2):
            I, r = common.run_process(P, g, k, 1, 2, 128)
            c.count("render_runs")
            for s, _ in r:
                v = I.load(("self",), (("f", fi),), s)
                want = tuple(S("idx:in%d" % i, I.T_usize) for i in range(k))
                c.require(isinstance(v, SeqX) and v.es == want, "%s: rendering disturbs the input order" % n.name, common.where(g),
                          "order of %d inputs becomes %s after a block" % (k, show(v, 4)))
    c.count("nodes_with_order", ordered)
    c.floor("nodes_with_order", 20)
    connect(P, c)
    c.assume("positions sent with a positioned connection do not exceed the number of remembered inputs (the engine only sends 0)")
    return c.finish(P)


def connect(P, c):
    """every edge the audio graph makes is announced to its target"""
    for name, kind in (("connect", "Index"), ("connect_with_order", "IndexOrder")):
        fs = [f for f in P.by_short.get("glicol_synth::AudioContext::" + name, []) if "#128" in f.d["args"]]
        if not c.require(len(fs) == 1, "audio graph: no %s" % name, "synth/src/context.rs", "operation not found"):
            continue
        f = fs[0]
        I = absint.Interp(P, obs=Conn())
        st = absint.State()
        st.mem[("self",)] = S("ctx", common.self_ty(P, f))
        a, b, p = S("from", f.locals[2]), S("to", f.locals[3]), S("pos", I.T_usize)
        args = [Ref(("self",), (), None), a, b] + ([p] if f.argc > 3 else [])
        for s, _ in I.run(f, args, st):
            c.count("connect_paths")
            ev = list(s.obs)
            edges = [(e[1], e[2]) for e in ev if e[0] == "edge"]
            msgs = [e for e in ev if e[0] == "msg"]
            ok = edges == [(a, b)] and len(msgs) == 1
            if ok:
                m = msgs[0][2]
                ok = isinstance(m, En) and len(m.alts) == 1 and common.message_names(P)[m.alts[0][0]] == kind
                if ok:
                    fs_ = m.alts[0][1]
                    ok = "from" in I.label_names(fs_[-1]) and "to" not in I.label_names(fs_[-1]) and (kind == "Index" or fs_[0] is p)
                ok = ok and "to" in ref_labels(I, msgs[0][1], s) and "from" not in ref_labels(I, msgs[0][1], s)
            c.require(ok, "audio graph: %s does not announce the edge it makes" % name, common.where(f), "events: %s" % (ev,))


def ref_labels(I, v, st):
    out = set()
    if isinstance(v, Ref):
        for e in v.path:
            for x in e[1:]:
                if isinstance(x, V):
                    out |= I.label_names(x)
        if v.root[0] == "d":
            out |= I.label_names(v.root[1])
    return out
