"""What a node hands on, as terms: a node as the engine makes it, rendered for a few blocks with symbolic input samples."""
from engine import absint, terms
from engine.values import *
from . import common, lang

N = 4


class Rendered:
    """one path through a number of blocks: .out[channel][frame], .old[channel][frame] (what the buffers held before)"""
    def __init__(self, m, ch, out, old):
        self.m, self.I, self.ch, self.out, self.old = m, m.I, ch, out, old


def frame(I, i, c, n, held=()):
    """the sample of input i, channel c, at frame n counted from the first block; a held input keeps its value for a block"""
    return S("in%d.%s@%d" % (i, "LR"[c], n - n % N if i in held else n), I.T_f32)


def render(P, m, f, ch, blocks=2, held=(), node=None, given=None):
    """[Rendered] for inputs of ch channels each, remembered in that order; given: input -> the numbers it has, frame by frame"""
    I = m.I
    st = m.st.copy()
    st.mem[("self",)] = m.node if node is None else node
    paths = [(st, [[] for _ in range(m.channels)], [[] for _ in range(m.channels)])]
    for b in range(blocks):
        nxt = []
        for st, out, old in paths:
            st = st.copy()
            keys = common.inputs(I, st, len(ch), ch, N)
            t = common.ty_id(P, "glicol_synth::Buffer<%d>" % N)
            for i in range(len(ch)):
                st.mem[("in", i)] = SeqX(tuple(Agg(t, (SeqX(tuple(number(given[i][b * N + j], I.T_f32) if given and i in given else frame(I, i, c, b * N + j, held)
                                                                   for j in range(N))),)) for c in range(ch[i])))
            was = SeqX(tuple(common.buf(I, "old%d.%d" % (b, c), N) for c in range(m.channels)))
            st.mem[("out",)] = was
            for i, _n in common.vec_usize_fields(I, m.node_ty):
                I.store(("self",), (("f", i),), SeqX(tuple(keys)), st)
            I.epoch += 1
            for s, _v in I.run(f, [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)], st):
                nxt.append((s, [o + frames(s.mem[("out",)], c) for c, o in enumerate(out)], [o + frames(was, c) for c, o in enumerate(old)]))
        paths = nxt
    return [Rendered(m, ch, out, old) for _s, out, old in paths]


def number(x, ty):
    return x if isinstance(x, S) else kfloat(f32(x), ty)


def frames(v, c):
    """the frames of a channel, a value for each"""
    if isinstance(v, SeqX):
        v = v.es[c]
    elif isinstance(v, SeqA):
        v = v.e
    if isinstance(v, Agg) and len(v.fs) == 1:
        v = v.fs[0]
    if isinstance(v, SeqX):
        return list(v.es)
    if isinstance(v, SeqA):
        return [v.e] * N
    return [v] * N


class E:
    """a number in the image of the terms at a point: what a specification computes with"""
    def __init__(self, p, v):
        self.p, self.v = p, v % terms.PRIME

    def _c(self, o):
        return o.v if isinstance(o, E) else self.p.number(terms.Fraction(o))

    def __add__(self, o): return E(self.p, self.v + self._c(o))
    def __radd__(self, o): return E(self.p, self.v + self._c(o))
    def __sub__(self, o): return E(self.p, self.v - self._c(o))
    def __rsub__(self, o): return E(self.p, self._c(o) - self.v)
    def __mul__(self, o): return E(self.p, self.v * self._c(o))
    def __rmul__(self, o): return E(self.p, self.v * self._c(o))
    def __neg__(self): return E(self.p, -self.v)
    def __truediv__(self, o): return E(self.p, self.v * pow(self._c(o), terms.PRIME - 2, terms.PRIME))
    def __rtruediv__(self, o): return E(self.p, self._c(o) * pow(self.v, terms.PRIME - 2, terms.PRIME))

    def f(self, op, *args):
        return E(self.p, self.p.apply(op, [self.v] + [self._c(a) for a in args]))


class Env:
    """what a specification may speak of: inputs, written numbers, the sample rate and what has been handed on before"""
    def __init__(self, r, p, params):
        self.r, self.p, self.params = r, p, params

    def e(self, v):
        return E(self.p, self.p.of(v))

    def x(self, i, c, n, held=()):
        if n < 0:
            return E(self.p, 0)
        return self.e(frame(self.r.I, i, min(c, self.r.ch[i] - 1), n, held))

    def y(self, c, n):
        return self.e(self.r.out[c][n]) if n >= 0 else E(self.p, 0)

    def number(self, k):
        return self.e(self.params[k])

    def sr(self):
        return self.e(S("sr", self.r.I.T_usize))


def numbers(I, comp):
    """the numbers of a description in the order they are written"""
    out = []

    def f(s):
        if (I.is_float(s.ty) or I.is_int(s.ty)) and s not in out:
            out.append(s)
        return s
    lang.subst(comp, f)
    return out
