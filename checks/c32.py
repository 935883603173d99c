"""Drums, synth voices and the plate are the patches they stand for."""
import re
from engine import absint, report
from engine.values import *
from . import c08, common, engine_, lang, rendered


RULE = ("Abstract interpretation of the engine making each drum, synth voice and plate, written numbers arbitrary, at several sample rates; the patch inside "
        "is read from the value made. Seen from its output it must unfold to the patch it stands for: the same kinds of node, each with the very settings the "
        "engine gives the node of the language with these numbers (settings that rendering with this wiring never reads aside), fed by the same nodes in the "
        "same order (for sums and products in any order). Rendering a block, every inner node's own rendering replaced by 'writes something new', the inner "
        "input must hold the left side of what the compound hears, and each side handed on must be that side of the inner output.")
N = 4
NOISE = "dasp_signal::noise"
RATES = (44100, 48000, 32000)
ANY_ORDER = ("Mul", "Add")


class Inside(c08.Renders):
    """inner nodes write something new; a node that has neither settings nor inputs keeps what it holds; noise is known by its seed"""
    def on_call(self, I, fn, decl, vals, st, fr, b):
        if fn.short == NOISE:
            return [(st, S("noise of seed %s" % show(vals[0], 6), I.ret_ty_at(fr, b)))]
        m = c08.ENTER.match(fn.short)
        if m and self.seen is not None and not self.busy and not c08.WRAP.match(m.group(1)):
            node, ins, _outs = [c08.resolve(I, v, st) for v in vals]
            x = I.load(ins.root, ins.path, st) if isinstance(ins, Ref) else None
            n = I.load(node.root, node.path, st) if isinstance(node, Ref) else None
            if isinstance(x, MapX) and not x.es and isinstance(n, Agg) and not n.fs:
                return [(st, Agg(I.T_unit, ()))]
        return super().on_call(I, fn, decl, vals, st, fr, b)


class Patch:
    """what a compound stands for, written with nodes of the language"""
    def __init__(self, P, rate, numbers):
        self.P, self.rate, self.numbers, self.cache = P, rate, numbers, {}
        self.nodes = []

    def node(self, kw, ins=(), **fields):
        self.nodes.append([(kw, tuple(sorted(fields.items(), key=repr))), list(ins), fields])
        return len(self.nodes) - 1

    def number(self, kw, ins, name, x, **more):
        return self.node(kw, ins, **{name: ("Number", x)}, **more)

    def mul(self, a, x): return self.number("Mul", [a], "param", x)
    def add(self, a, x): return self.number("Add", [a], "param", x)
    def times(self, a, b): return self.node("Mul", [a, b], param=("Ref", "~m"))
    def plus(self, a, b): return self.node("Add", [a, b], param=("Ref", "~m"))
    def osc(self, kw, a): return self.node(kw, [a], param=("Ref", "~m"))
    def env(self, a, attack, decay): return self.node("EnvPerc", [a], attack=attack, decay=decay)
    def noise(self, seed): return self.node("Noise", [], seed=seed)
    def onepole(self, a, x): return self.number("Onepole", [a], "param", x)
    def delayn(self, a, n): return self.node("Delayn", [a], param=("Usize", n))
    def delayms(self, a, x): return self.number("Delayms", [a], "param", x)
    def apf(self, a, ms, gain, mod=None): return self.number("ApfmsGain", [a] + ([mod] if mod is not None else []), "delay", ms, gain=gain)
    def sum(self, *ins): return self.node("sum", ins)
    def input(self): return self.node("input")


def bd(p, d):
    i = p.input()
    pitch = p.add(p.mul(p.env(i, 0.01, 0.1), 50.0), 60.0)
    return p.sum(p.times(p.osc("Sin", pitch), p.env(i, 0.003, d)))


def sn(p, d):
    i = p.input()
    pitch = p.add(p.mul(p.env(i, 0.001, 0.1), 55.0), 60.0)
    return p.sum(p.times(p.plus(p.osc("Sin", pitch), p.mul(p.noise(42), 0.3)), p.env(i, 0.001, d)))


def hh(p, d):
    i = p.input()
    return p.sum(p.times(p.number("Rhpf", [p.noise(42)], "cutoff", 15000.0, qvalue=1.0), p.env(i, 0.003, d)))


def voice(kw):
    def f(p, a, d):
        i = p.input()
        return p.sum(p.times(p.osc(kw, p.mul(i, 261.63)), p.env(i, a, d)))
    return f


def plate(p, mix):
    """Dattorro's plate: predelay, four diffusers, two decay branches in a ring, eight taps a side"""
    i = p.input()
    x = p.delayms(p.onepole(i, 0.7), 50.0)
    for ms, g in ((4.771, 0.75), (3.595, 0.75), (12.72, 0.625), (9.307, 0.625)):
        x = p.apf(x, ms, g)
    ring = p.plus(x, None)
    mod = p.add(p.mul(p.number("Sin", [], "param", 0.1), 5.5), 29.5)
    t1 = p.delayn(p.apf(ring, 100.0, 0.7, mod), 394)
    t2 = p.delayn(t1, 2800)
    t3 = p.apf(p.onepole(p.delayn(p.delayn(t2, 1204), 2000), 0.1), 7.596, 0.5)
    t4 = p.apf(t3, 35.78, 0.5)
    t5 = p.delayn(p.apf(t4, 100.0, 0.5, mod), 179)
    t6 = p.delayn(t5, 2679)
    half = p.mul(p.delayn(t6, 3500), 0.3)
    u1 = p.delayn(p.apf(half, 30.0, 0.7), 522)
    u2 = p.delayn(u1, 2400)
    u3 = p.apf(p.onepole(p.delayn(u2, 2400), 0.1), 6.2, 0.7)
    u4 = p.apf(u3, 34.92, 0.7)
    u5 = p.delayn(p.apf(u4, 20.4, 0.7), 1578)
    u6 = p.delayn(u5, 2378)
    p.nodes[ring][1][1] = p.mul(p.delayn(u6, 2500), 0.3)

    def side(plus, minus):
        wet = p.mul(p.sum(*plus, p.mul(p.sum(*minus), -1.0)), mix)
        return p.sum(p.mul(i, ("1-", mix)), wet)
    return p.sum(p.node("Balance", [side([t1, t2, t6], [t4, u2, u3, u5]), side([u1, u2, u6], [u4, t2, t3, t5])], left="left", right="right"))


PATCHES = {"Bd": bd, "Sn": sn, "Hh": hh, "SawSynth": voice("Saw"), "SquSynth": voice("Squ"), "TriSynth": voice("Tri"), "Plate": plate}


class Kinds:
    """nodes as the language makes them, and which of their settings matter for a given number of inputs"""
    def __init__(self, P, rate):
        self.P, self.rate = P, rate
        self.made, self.idle = {}, {}
        self.fns = {v.name: v.fns for v in common.nodes(P).values()}

    def of(self, kw, fields):
        k = (kw, repr(sorted(fields.items(), key=repr)))
        if k not in self.made:
            W = engine_.World(self.P, N)
            vals = {n: exact(W.I, x) for n, x in fields.items()}
            m, bad = lang.make(self.P, kw, "", W.component(kw, **vals), N, inner=Inside, rate=self.rate)
            if len(m) != 1:
                raise RuntimeError("%s is not made" % (k,))
            self.made[k] = m[0]
        return self.made[k]

    def label(self, I, ty, value, channels, k):
        """kind of node and the settings that matter when k inputs are connected"""
        name = re.sub(r"<\d+>$", "", self.P.tys[ty].s).split("::")[-1]
        if not isinstance(value, Agg):
            return name, (value,)
        order = {i for i, _n in common.vec_usize_fields(I, ty)}
        if (name, k) not in self.idle:
            self.idle[(name, k)] = {i for i, x in enumerate(value.fs) if i not in order and self.unread(I, ty, value, i, k, name)}
        return name, tuple(x for i, x in enumerate(value.fs) if i not in order and i not in self.idle[(name, k)])

    def unread(self, I0, ty, value, i, k, name):
        """rendering with k inputs does not look at field i, a number"""
        if not isinstance(value.fs[i], (K, S, O)) or not value.fs[i].ty or not I0.is_float(value.fs[i].ty):
            return False
        I = absint.Interp(self.P, obs=None)
        I.conds = set()
        st = absint.State()
        probe = S("probe", value.fs[i].ty)
        st.mem[("self",)] = Agg(value.ty, value.fs[:i] + (probe,) + value.fs[i + 1:])
        keys = common.inputs(I, st, k, (1,) * k, N)
        st.mem[("out",)] = SeqX((common.buf(I, "old", N),))
        for j, _n in common.vec_usize_fields(I, ty):
            I.store(("self",), (("f", j),), SeqX(tuple(keys)), st)
        rs = I.run(self.fns[name][("process", N)], [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)], st)
        if not rs or "probe" in I.conds or any(o["bad"] for o in I.obls.values()):
            return False
        for s, _v in rs:
            v = s.mem[("self",)]
            if "probe" in I.label_names(s.mem[("out",)]) or not isinstance(v, Agg):
                return False
            if v.fs[i] is not probe or any("probe" in I.label_names(x) for j, x in enumerate(v.fs) if j != i):
                return False
        return True


def exact(I, x):
    if isinstance(x, tuple) and x and x[0] == "1-":
        return I.binop("Sub", kfloat(1.0, I.T_f32), x[1], I.T_f32, absint.State())
    if isinstance(x, tuple):
        return (x[0], S("c.param#Ref.0", I.T_str) if x[0] == "Ref" else exact(I, x[1]))
    if isinstance(x, str):
        return S("c." + x, I.T_str)
    if isinstance(x, float):
        return kfloat(f32(x), I.T_f32)
    return x


def unfold(nodes, ins, label, any_order):
    """colour of each node: what it unfolds to, seen towards its inputs"""
    col = {k: ("", ()) for k in nodes}
    ids = {}
    for _ in range(len(nodes) + 1):
        new = {}
        for k in nodes:
            cs = [col[x] for x in ins[k]]
            key = (label[k], tuple(sorted(cs, key=repr) if any_order(k) else cs))
            new[k] = ids.setdefault(key, len(ids))
        col = new
    return col


def run(P):
    c = report.Check("C32", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    for rate in RATES:
        kinds = Kinds(P, rate)
        for kw, shape, comp in lang.components(absint.Interp(P)):
            if kw not in PATCHES or "Ref" in shape:
                continue
            c.count("patches")
            made, _other = lang.make(P, kw, shape, comp, N, inner=Inside, rate=rate)
            where = "%s (rs/synth/src/node)" % kw
            if not c.require(len(made) == 1, "%s is made in one way" % kw.lower(), where, "%d ways at %d Hz" % (len(made), rate)):
                continue
            compare(c, P, kinds, made[0], fns, rate, where)
    c.floor("patches", 21)
    c.floor("inner_nodes", 200)
    c.floor("blocks_rendered", 42)
    c.assume("the order in which the nodes of the plate's ring render is the graph walk's own choice")
    return c.finish(P)


def inner(I, v):
    """the context inside a compound: (path of field, value)"""
    for i, x in enumerate(v.fs):
        if isinstance(x, Agg) and x.ty in I.P.tys and re.match(r"^glicol_synth::AudioContext<", re.sub(r"context::", "", I.P.tys[x.ty].s)):
            return i, dict(zip(I.field_names(x.ty), x.fs))
    return None, None


def compare(c, P, kinds, m, fns, rate, where):
    I, what = m.I, "%s at %d Hz" % (m.kw.lower(), rate)
    fi, ctx = inner(I, m.node)
    if not c.require(ctx is not None, "%s has a patch inside" % m.kw.lower(), where, what):
        return
    leaves_ = rendering(c, P, m, fns, fi, what, where)
    if leaves_ is None:
        return
    # the patch made
    datas = dict(ctx["graph"].fs[0].es)
    edges = [e.fs for e in ctx["graph"].fs[1].es]
    byidx = {k.fs[0].v: k for k in datas}
    ins, label, name = {}, {}, {}
    for k, d in datas.items():
        f = dict(zip(I.field_names(d.ty), d.fs))
        box = f["node"]
        while isinstance(box, Agg):
            box = box.fs[0]
        preds = [a for a, x in edges if x is k]
        orders = [box.v.fs[i].es for i, _n in common.vec_usize_fields(I, box.dyn)] if isinstance(box.v, Agg) else []
        seq = [byidx.get(x.v) for x in orders[0]] if orders else preds
        ins[k] = list(dict.fromkeys(seq))
        if orders and not c.require(set(ins[k]) == set(preds), "%s: inputs are announced as connected" % m.kw.lower(), where,
                                    lambda: "%s: node %s is fed by %s, told %s" % (what, show(k), [show(x) for x in preds], [show(x) for x in ins[k]])):
            return
        if k in leaves_:
            ins[k], label[k] = [], ("input", ())
            continue
        n, l = kinds.label(I, box.dyn, box.v, len(f["buffers"].es), len(ins[k]))
        label[k] = ("sum", ()) if n in ("Sum", "Sum2") else (n, l)
    skip_idle(ins, label)
    # the patch it stands for
    p = Patch(P, rate, None)
    want = PATCHES[m.kw](p, *rendered.numbers(I, m.comp))
    wins, wlabel = {}, {}
    for j, (key, ws, fields) in enumerate(p.nodes):
        wins[j] = list(ws)
        if key[0] in ("input", "sum"):
            wlabel[j] = (key[0], ())
            continue
        w = kinds.of(key[0], fields)
        wlabel[j] = kinds.label(w.I, w.node_ty, w.node, w.channels, len(ws))
    nodes = list(datas) + [("w", j) for j in wlabel]
    alli = {**ins, **{("w", j): [("w", x) for x in v] for j, v in wins.items()}}
    alll = {**label, **{("w", j): v for j, v in wlabel.items()}}
    free = lambda k: alll[k][0] == "sum" or alll[k][0] in ANY_ORDER
    col = unfold(nodes, alli, alll, free)
    dest = ctx["destination"]
    reach, todo = set(), [dest]
    while todo:
        k = todo.pop()
        if k not in reach:
            reach.add(k)
            todo += alli[k]
    c.count("inner_nodes", len(reach))
    c.require(col[dest] == col[("w", want)], "%s is not the patch it stands for" % m.kw.lower(), where,
              lambda: "%s: %s" % (what, differ(dest, ("w", want), alli, alll, col)))


def skip_idle(ins, label):
    """adding nothing changes nothing"""
    def is_idle(k):
        n, l = label[k]
        return len(ins[k]) == 1 and (n == "Pass" or n == "Add" and len(l) == 1 and isinstance(l[0], K) and l[0].v == 0)
    for k in ins:
        out = []
        for x in ins[k]:
            seen = set()
            while is_idle(x) and x not in seen:
                seen.add(x)
                x = ins[x][0]
            out.append(x)
        ins[k] = out


def text(l):
    return " ".join([l[0].lower()] + [show(x, 3)[:40] for x in l[1]])


def differ(a, b, ins, label, col, seen=()):
    """the first place where two patches part"""
    if label[a] != label[b]:
        return "%s where %s belongs" % (text(label[a]), text(label[b]))
    if len(ins[a]) != len(ins[b]):
        return "%s has %d inputs (%s), not %d (%s)" % (text(label[a]), len(ins[a]), ", ".join(text(label[x]) for x in ins[a]), len(ins[b]),
                                                    ", ".join(text(label[x]) for x in ins[b]))
    xs = [x for x in ins[a] if col[x] not in {col[y] for y in ins[b]}]
    ys = [y for y in ins[b] if col[y] not in {col[x] for x in ins[a]}]
    for x in xs:
        for y in sorted(ys, key=lambda y: label[y] != label[x]):
            if (x, y) not in seen:
                return "%s < %s" % (differ(x, y, ins, label, col, seen + ((x, y),)), label[a][0].lower())
    return "%s is fed by %s, not %s" % (text(label[a]), ", ".join(text(label[x]) for x in ins[a]), ", ".join(text(label[x]) for x in ins[b]))


def rendering(c, P, m, fns, fi, what, where):
    """renders one block; the inner nodes that hold what the compound hears"""
    I = m.I
    obs = m.W.parsed.inner
    found = None
    for ch in (1, 2):
        st = m.st.copy()
        st.mem[("self",)] = m.node
        keys = common.inputs(I, st, 1, (ch,), N)
        t = common.ty_id(P, "glicol_synth::Buffer<%d>" % N)
        st.mem[("in", 0)] = SeqX(tuple(Agg(t, (SeqX(tuple(rendered.frame(I, 0, x, j) for j in range(N))),)) for x in range(ch)))
        st.mem[("out",)] = SeqX(tuple(common.buf(I, "old%d" % x, N) for x in range(m.channels)))
        for i, _n in common.vec_usize_fields(I, m.node_ty):
            I.store(("self",), (("f", i),), SeqX(tuple(keys)), st)
        obs.seen = []
        I.epoch += 1
        rs = I.run(fns[m.name][("process", N)], [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)], st)
        obs.seen = None
        if not c.require(len(rs) == 1, "%s renders in one way" % m.kw.lower(), where, "%s: %d ways" % (what, len(rs))):
            return None
        s = rs[0][0]
        c.count("blocks_rendered")
        ctx = s.mem[("self",)].fs[fi]
        d = dict(zip(I.field_names(ctx.ty), ctx.fs))
        heard = [rendered.frame(I, 0, 0, j) for j in range(N)]
        held = set()
        dest = None
        for k, x in d["graph"].fs[0].es:
            bufs = dict(zip(I.field_names(x.ty), x.fs))["buffers"]
            if rendered.frames(bufs, 0) == heard:
                held.add(k)
            if k is d["destination"]:
                dest = bufs
        c.require(bool(held), "%s hears its input" % m.kw.lower(), where, "%s: no inner node holds the left side of the input" % what)
        for x in range(m.channels):
            sides = (x,) if m.kw == "Plate" else range(len(dest.es))       # a drum or voice is centred: both sides are the same
            c.require(any(rendered.frames(s.mem[("out",)], x) == rendered.frames(dest, y) for y in sides), "%s hands on what its patch plays" % m.kw.lower(), where,
                      lambda: "%s, side %d: %s, the patch plays %s" % (what, x, [show(y, 3) for y in rendered.frames(s.mem[("out",)], x)],
                                                                      [show(y, 3) for y in rendered.frames(dest, min(x, len(dest.es) - 1))]))
        found = held if found is None else found & held
    return found or None
