"""The language side: every node description the parser can produce, and the node the engine makes of it."""
import re
from engine import absint
from engine.values import *
from . import common

COMP = "glicol_parser::nodes::Component"


def gen(I, ty, path, depth=0):
    """all shapes of a value of the given type; scalars and text stay symbolic, lists get two elements"""
    t = I.P.tys[ty]
    if t.s == "std::string::String":
        return [(S(path, ty), "")]
    if t.k == "enum":
        out = []
        for i, v in enumerate(I.variants(ty)):
            fs = I.variant_fields(ty, i)
            combos = [()]
            for nm, ft in fs:
                sub = gen(I, ft, "%s#%s.%s" % (path, v[0], nm), depth + 1)
                combos = [c + (x,) for c in combos for x in sub]
            for c in combos:
                out.append((En(ty, ((i, tuple(x[0] for x in c)),)), "%s%s" % (v[0], "(%s)" % ",".join(x[1] for x in c) if any(x[1] for x in c) else "")))
        return out
    if t.s.startswith("std::vec::Vec<"):
        et = I.elem_ty(ty)
        one = gen(I, et, path + "[0]", depth + 1)
        two = gen(I, et, path + "[1]", depth + 1)
        out = [(SeqX((a[0], b[0])), "[%s,%s]" % (a[1], b[1])) for a in one for b in two]
        return out[:16]
    if t.k == "adt" or t.k == "struct" or t.k == "tuple":
        ft = I.field_tys(ty)
        fn = I.field_names(ty) or [str(i) for i in range(len(ft or ()))]
        if ft is None:
            return [(S(path, ty), "")]
        combos = [()]
        for n, x in zip(fn, ft):
            sub = gen(I, x, "%s.%s" % (path, n), depth + 1)
            combos = [c + (y,) for c in combos for y in sub]
        return [(Agg(ty, tuple(x[0] for x in c)), ",".join(x[1] for x in c if x[1])) for c in combos]
    return [(S(path, ty), "")]


def components(I):
    """[(keyword variant, shape, value)] for every node description"""
    t = next(x.id for x in I.P.tys.values() if re.match(r"^glicol_parser::nodes::Component(<.*>)?$", x.s))
    out = []
    for i, v in enumerate(I.variants(t)):
        (nm, ft), = I.variant_fields(t, i)
        for val, shape in gen(I, ft, "c"):
            out.append((v[0], shape, En(t, ((i, (val,)),))))
    return out


def is_reference(path):
    return re.search(r"#Ref(erence)?\.0$|\.reference$|\.nodes\[\d\]$|\.(left|right)$", path) is not None


def is_sample(path):
    return re.search(r"\.sample_sym$|#Symbol\.0$", path) is not None


def subst(v, f):
    """the value with every symbol replaced by f(symbol)"""
    if isinstance(v, S):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.ty, tuple(subst(x, f) for x in v.fs))
    if isinstance(v, En):
        return En(v.ty, tuple((k, tuple(subst(x, f) for x in fs)) for k, fs in v.alts))
    if isinstance(v, SeqX):
        return SeqX(tuple(subst(x, f) for x in v.es))
    return v


def named(I, comp, same=False):
    """(description with chain and sample names filled in, references in written order, samples)"""
    refs, samples = [], []

    def f(s):
        if s.ty != I.T_str:
            return s
        if is_reference(s.name):
            n = "~r0" if same else "~r%d" % len(refs)
            refs.append(n)
            return K(n, s.ty)
        if is_sample(s.name):
            n = "\\s%d" % len(samples)
            samples.append(n)
            return K(n, s.ty)
        return s
    return subst(comp, f), refs, samples


class Made:
    """one node the engine can make: its description, initial state, declared channels, references"""
    def __init__(self, kw, shape, comp, W, st, refs):
        self.kw, self.shape, self.comp, self.W, self.I, self.st = kw, shape, comp, W, W.I, st
        self.refs = refs
        self.key = W.chain(st, "out")[0]
        data = W.node(st, self.key)
        names = W.I.field_names(data.ty)
        self.buffers = data.fs[names.index("buffers")]
        box = data.fs[names.index("node")]
        while isinstance(box, Agg):
            box = box.fs[0]
        self.node = box.v
        self.node_ty = box.dyn
        self.name = re.sub(r"<\d+>$", "", W.P.tys[box.dyn].s).split("::")[-1]

    @property
    def channels(self):
        return len(self.buffers.es)

    def fields(self):
        n = self.I.field_names(self.node_ty)
        return dict(zip(n, self.node.fs)) if isinstance(self.node, Agg) and n else {}

    def label(self):
        return "%s%s" % (self.kw.lower(), " %s" % self.shape if self.shape else "")


class Failed:
    def __init__(self, kw, shape, W, results, bad):
        self.kw, self.shape, self.W, self.results, self.bad = kw, shape, W, results, bad

    def label(self):
        return "%s%s" % (self.kw.lower(), " %s" % self.shape if self.shape else "")


def make(P, kw, shape, comp, N=128, inner=None, same=False, conf=True, builtin=None, rate=None, bpm=None, sample=None, ranges=None):
    """hands the engine the one-node program `out: <description>` (with the chains and samples it names present); rate, bpm: a given sample rate and tempo,
    sample: a given (data, channels, rate) for each sample named, ranges: bounds of symbols that stand for numbers"""
    from . import engine_
    W = engine_.World(P, N, inner() if inner else None)
    st = W.fresh()[0]
    W.I.builtin = builtin or {}
    W.I.numbers.update(ranges or {})
    comp, refs, samples = named(W.I, comp, same)
    if conf:
        st = W.configure(st)
    if rate is not None:
        st = W.call1(st, "glicol::Engine::set_sr", W.I.kint(rate))
    if bpm is not None:
        st = W.call1(st, "glicol::Engine::set_bpm", bpm if isinstance(bpm, S) else kfloat(bpm, W.I.T_f32))
    for n in samples:
        if sample is not None:
            data, chans, r = sample(W.I, n)
            st = st.copy()
            st.mem[("sample", n)] = SeqX(tuple(data))
            given = (Ref(("sample", n), (), None), W.I.kint(chans), W.I.kint(r))
        else:
            given = [S("%s:%s" % (a, n), None) for a in ("data", "channels", "rate")]
        st = W.call1(st, "glicol::Engine::add_sample", K(n, W.I.T_str), *given)
    chains = {"out": [comp]}
    for n in refs:
        chains[n] = [W.component("ConstSig", value="const " + n)]
    rs = W.update(st, chains)
    made = [Made(kw, shape, comp, W, s, refs) for s, ok, v in rs if ok]
    bad = [ob for ob in W.I.obls.values() if ob["status"] != "proved"]
    return made, [Failed(kw, shape, W, [(ok, v) for s, ok, v in rs if not ok], bad)] if bad or len(made) != len(rs) or not rs else []


def make_all(P, N=128, inner=None, only=None, same=False):
    """every description through the engine; returns (nodes made, descriptions for which something else can happen)"""
    made, other = [], []
    for kw, shape, comp in components(absint.Interp(P)):
        if only and kw not in only:
            continue
        m, o = make(P, kw, shape, comp, N, inner, same)
        made += m
        other += o
    return made, other
