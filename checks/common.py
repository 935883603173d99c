"""What several checks share: finding the nodes, setting up a node, its inputs and its messages."""
import os, re
from engine import absint
from engine.values import *

WRAPPERS = ("Box", "BoxedNode", "BoxedNodeSend", "&")
BLOCK = 4            # frames per block in runs that follow every frame exactly


class Node:
    def __init__(self, name):
        self.name = name
        self.fns = {}          # (method, N) -> Fn


def nodes(P):
    """every type implementing the node trait (by name of the type), wrappers and closures left out"""
    out = {}
    for f in P.fns.values():
        m = re.match(r"<(.*) as glicol_synth::Node>::(process|send_msg)$", f.short)
        if not m or f.crate not in ("glicol_synth", "glicol") or not f.has_body:
            continue
        t = m.group(1)
        if not re.match(r"^[\w:]+$", t) or t.split("::")[-1] in WRAPPERS:
            continue
        a = [x for x in f.d["args"] if isinstance(x, str) and x.startswith("#")]
        N = int(a[0][1:]) if a else 128
        n = out.setdefault(t, Node(t.split("::")[-1]))
        n.fns[(m.group(2), N)] = f
    return {k: v for k, v in sorted(out.items())}


def ty_id(P, s):
    t = P.ty_by_s.get(s)
    if t is None:
        raise KeyError("type %s not in the program" % s)
    return t.id


def self_ty(P, f):
    return P.tys[f.locals[1]].d["to"]


def variant_index(P, enum, name):
    for i, v in enumerate(P.ty_by_s[enum].d["variants"]):
        if v[0] == name:
            return i
    return None


def field_index(I, ty, name):
    n = I.field_names(ty) or []
    return n.index(name) if name in n else None


def vec_usize_fields(I, ty):
    """fields remembering input order: growable lists of node identities"""
    out = []
    ft, fn = I.field_tys(ty), I.field_names(ty)
    for i, t in enumerate(ft or []):
        s = I.P.tys[t].s
        if re.match(r"^(std|alloc)::(vec::Vec|collections::VecDeque)<usize", s):
            out.append((i, fn[i]))
    return out


def message(I, name, *vals):
    P = I.P
    t = ty_id(P, "glicol_synth::Message")
    v = variant_index(P, "glicol_synth::Message", name)
    if v is None:
        return None
    fs = I.variant_fields(t, v)
    args = list(vals) + [S("msg.%s.%d" % (name, i), fs[i][1]) for i in range(len(vals), len(fs))]
    return En(t, ((v, tuple(args)),))


def message_names(P):
    return [v[0] for v in P.ty_by_s["glicol_synth::Message"].d["variants"]]


def buf(I, name, N):
    t = ty_id(I.P, "glicol_synth::Buffer<%d>" % N)
    if N <= 8:
        return Agg(t, (SeqX(tuple(S("%s@%d" % (name, j), I.T_f32) for j in range(N))),))
    return Agg(t, (SeqA(S(name, I.T_f32), I.kint(N)),))


def inputs(I, st, k, inch, N, extra=()):
    """k inputs of inch[i] channels; returns their identities"""
    t = ty_id(I.P, "glicol_synth::Input<%d>" % N)
    if isinstance(inch, int):
        inch = [inch] * k
    ents, keys = [], []
    for i in range(k):
        st.mem[("in", i)] = SeqX(tuple(buf(I, "in%d.%d" % (i, c), N) for c in range(inch[i])))
        key = S("idx:in%d" % i, I.T_usize)
        keys.append(key)
        names = I.field_names(t)
        vals = {}
        for j, (n, ft) in enumerate(zip(names, I.field_tys(t))):
            tt = I.P.tys[ft]
            if tt.k in ("ptr", "ref"):
                vals[j] = Ref(("in", i), (), None)
            elif n == "node_id":
                vals[j] = key
            else:
                vals[j] = I.kint(inch[i])
        ents.append((key, Agg(t, tuple(vals[j] for j in range(len(names))))))
    st.mem[("inputs",)] = MapX(tuple(ents))
    return keys


def run_process(P, f, k, inch, outch, N, self_val=None, order=None, obs=None, budget=400000, setup=None):
    I = absint.Interp(P, obs=obs, budget=budget)
    st = absint.State()
    sty = self_ty(P, f)
    st.mem[("self",)] = self_val if self_val is not None else S("self", sty)
    keys = inputs(I, st, k, inch, N)
    st.mem[("out",)] = SeqX(tuple(buf(I, "old%d" % c, N) for c in range(outch)))
    for i, _n in vec_usize_fields(I, sty):
        I.store(("self",), (("f", i),), SeqX(tuple(order(I, keys) if order else keys)), st)
    if setup:
        setup(I, st)
    r = I.run(f, [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)], st)
    return I, r


def run_msg(P, f, msg, self_val=None, obs=None, setup=None):
    I = absint.Interp(P, obs=obs)
    st = absint.State()
    st.mem[("self",)] = self_val if self_val is not None else S("self", self_ty(P, f))
    m = msg(I) if callable(msg) else msg
    if setup:
        setup(I, st)
    r = I.run(f, [Ref(("self",), (), None), m], st)
    return I, r


def where(f):
    return "%s (%s)" % (f.short, rel(f.span))


def rel(span):
    if not isinstance(span, str):
        return str(span)
    return span.replace("/repo/", "")


def src(span):
    """file of a construct, without line"""
    return rel(span).rsplit(":", 1)[0] if isinstance(span, str) else str(span)
