"""The engine as a whole: abstract engines, program shapes, updates."""
import re
from engine import absint
from engine.values import *
from . import common, lang

ATTACH = re.compile(r"^yoke::(yoke::)?Yoke::try_attach_to_cart$")
GET = re.compile(r"^yoke::(yoke::)?Yoke::get$")


def fn(P, short, N=128):
    fs = [f for f in P.by_short.get(short, []) if f.has_body and (not any(isinstance(a, str) and a.startswith("#") for a in f.d["args"]) or "#%d" % N in f.d["args"])]
    if len(fs) != 1:
        raise KeyError("%s: %d found" % (short, len(fs)))
    return fs[0]


class Parsed:
    """stands for the parser: hands the update the program under analysis"""
    def __init__(self, inner=None):
        self.next = None          # value of the parsed tree, or None for a syntax error
        self.inner = inner

    def on_call(self, I, fn_, decl, vals, st, fr, b):
        if ATTACH.match(fn_.short):
            t = I.ret_ty_at(fr, b)
            if self.next is None:
                return [(st, En(t, ((1, tuple(S("syntax error", ft) for _n, ft in I.variant_fields(t, 1))),)))]
            yt = I.variant_fields(t, 0)[0][1]
            n = len(I.field_tys(yt) or (0, 0))
            return [(st, En(t, ((0, (Agg(yt, (self.next,) + tuple(S("text", None) for _ in range(n - 1))),)),)))]
        if GET.match(fn_.short):
            rs = [Ref(r, p + (("f", 0),), None) for r, p in I.targets(vals[0], st)]
            return [(st, rs[0] if len(rs) == 1 else Refs(frozenset(rs)))]
        if self.inner is not None:
            return self.inner.on_call(I, fn_, decl, vals, st, fr, b)
        return None


class World:
    """an engine under abstract interpretation"""
    def __init__(self, P, N=128, inner=None, budget=4000000):
        self.P, self.N = P, N
        self.parsed = Parsed(inner)
        self.I = absint.Interp(P, obs=self.parsed, budget=budget)
        self.I.shapes = True
        self.I.params = lambda s: s.name.startswith(("c.", "c#"))      # parameters written in code: different names, different values
        self.update_fn = fn(P, "glicol::Engine::update_with_code", N)
        self.ety = common.self_ty(P, self.update_fn)
        self.ast_ty = next(t.id for t in P.tys.values() if re.match(r"^glicol_parser::nodes::Ast(<.*>)?$", t.s))
        self.comp_ty = next(x.id for x in P.tys.values() if re.match(r"^glicol_parser::nodes::Component(<.*>)?$", x.s))

    def fresh(self):
        out = []
        for s, v in self.I.run(fn(self.P, "glicol::Engine::new", self.N), [], absint.State()):
            s.mem[("eng",)] = v
            out.append(s)
        return out

    def field(self, name):
        return common.field_index(self.I, self.ety, name)

    def get(self, st, *path):
        v = st.mem[("eng",)]
        for n in path:
            v = v.fs[common.field_index(self.I, v.ty, n)] if isinstance(n, str) else v.fs[n]
        return v

    def component(self, kw, **fields):
        """a node description: scalars given by value, the rest symbolic under the name given"""
        I = self.I
        i = [v[0] for v in I.variants(self.comp_ty)].index(kw)
        (_n, ft), = I.variant_fields(self.comp_ty, i)
        names, tys = I.field_names(ft), I.field_tys(ft)
        vals = []
        for n, t in zip(names, tys):
            vals.append(self.value(t, fields[n]))
        return En(self.comp_ty, ((i, (Agg(ft, tuple(vals)),)),))

    def value(self, ty, x):
        I = self.I
        if isinstance(x, V):
            return x
        t = I.P.tys[ty]
        if t.k == "enum":
            vn, arg = x
            i = [v[0] for v in I.variants(ty)].index(vn)
            fs = I.variant_fields(ty, i)
            return En(ty, ((i, tuple(self.value(ft, a) for (_n, ft), a in zip(fs, arg if isinstance(arg, tuple) else (arg,)))),))
        if isinstance(x, list):
            et = I.elem_ty(ty)
            return SeqX(tuple(self.value(et, e) for e in x))
        if isinstance(x, tuple):
            return Agg(ty, tuple(self.value(ft, e) for ft, e in zip(I.field_tys(ty), x)))
        if isinstance(x, str) and t.s.endswith("str"):
            return K(x, ty)
        if isinstance(x, str):
            return S(x, ty)
        if t.k == "float":
            return kfloat(float(x), ty)
        return K(x, ty)

    def ast(self, chains):
        """chains: {name: [component values]}"""
        strt = self.I.T_str
        return Agg(self.ast_ty, (MapX(tuple((K(n, strt), SeqX(tuple(cs))) for n, cs in chains.items())),))

    def update(self, st, chains):
        """every way the update can end: [(state, ok?, result)]"""
        self.parsed.next = None if chains is None else self.ast(chains)
        self.I.epoch += 1
        st = st.copy()
        out = []
        for s, v in self.I.run(self.update_fn, [Ref(("eng",), (), None), S("code", self.I.T_str)], st):
            if isinstance(v, En) and len(v.alts) == 1:
                out.append((s, v.alts[0][0] == 0, v))
            else:
                out.append((s, None, v))
        return out

    def call1(self, st, short, *args):
        """calls a method of the engine that cannot branch; the one resulting state"""
        f = fn(self.P, short, self.N)
        a = []
        for i, x in enumerate(args):
            a.append(S(x.name, f.locals[i + 2]) if isinstance(x, S) and x.ty is None else x)
        r = self.I.run(f, [Ref(("eng",), (), None)] + a, st.copy())
        if len(r) != 1:
            raise RuntimeError("%s has %d outcomes" % (short, len(r)))
        return r[0][0]

    def configure(self, st):
        """an engine whose sample rate, tempo and seed are anything"""
        st = self.call1(st, "glicol::Engine::set_sr", S("sr", None))
        st = self.call1(st, "glicol::Engine::set_bpm", S("bpm", None))
        return self.call1(st, "glicol::Engine::set_seed", S("seed", None))

    def chain(self, st, name):
        """graph nodes of a chain"""
        for k, v in self.get(st, "index_info").es:
            if k.v == name:
                return v.es
        return None

    def graph(self, st):
        return self.get(st, "context", "graph")

    def node(self, st, key):
        for k, v in self.graph(st).fs[0].es:
            if k is key:
                return v
        return None

    def edges(self, st):
        return [e.fs for e in self.graph(st).fs[1].es]
