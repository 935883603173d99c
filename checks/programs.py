"""Programs handed to an abstract engine, and what the engine then looks like in terms of the program."""
import re
from engine import absint
from engine.values import *
from . import common, engine_, lang

SPEAKERS = "speakers"


class Bench:
    """an engine with programs built from a small vocabulary"""
    def __init__(self, P, N=128, rev=False, inner=None):
        self.P = P
        self.W = engine_.World(P, N, inner)
        self.I = self.W.I
        self.I.map_rev = rev
        self.start = self.W.configure(self.W.fresh()[0])
        self.builtin = [k for k, _ in self.W.graph(self.start).fs[0].es]

    def const(self, n):
        return self.W.component("ConstSig", value="c." + n)

    def mul(self, n):
        return self.W.component("Mul", param=("Ref", n) if n.startswith("~") else ("Number", "c." + n))

    def mix(self, *names):
        return self.W.component("Mix", nodes=[K(n, self.I.T_str) for n in names])

    def update(self, st, prog):
        return self.W.update(st, prog)

    def accepted(self, st, prog):
        """the state after a program that must be accepted"""
        rs = self.update(st, prog)
        if len(rs) != 1 or not rs[0][1]:
            raise Unexpected("%s: %s" % (text(prog), [(ok, show(v, 4)) for _s, ok, v in rs]))
        return rs[0][0]

    def sample(self, st, name):
        I = self.I
        return self.W.call1(st, "glicol::Engine::add_sample", K(name, I.T_str), *[S("%s:%s" % (a, name), None) for a in ("data", "channels", "rate")])

    # ---- the engine in terms of the program
    def chains(self, st):
        return {k.v: list(v.es) for k, v in self.W.get(st, "index_info").es}

    def name_of(self, st):
        d = {}
        for c, ns in sorted(self.chains(st).items()):
            for i, k in enumerate(ns):
                d.setdefault(k, (c, i))
        d[self.W.get(st, "context", "destination")] = SPEAKERS
        return lambda k: d.get(k, "node %s" % show(k, 2))

    def nodes(self, st):
        return {k: v for k, v in self.W.graph(st).fs[0].es}

    def edges(self, st):
        n = self.name_of(st)
        return sorted(((n(a), n(b)) for a, b in self.W.edges(st)), key=repr)

    def inner(self, st, key):
        """(state of the node, its type)"""
        data = self.W.node(st, key)
        box = data.fs[self.I.field_names(data.ty).index("node")]
        while isinstance(box, Agg):
            box = box.fs[0]
        return box.v, box.dyn

    def order(self, st, key):
        """remembered input order of a node, by name; None if it remembers none"""
        v, ty = self.inner(st, key)
        fs = common.vec_usize_fields(self.I, ty)
        if not fs or not isinstance(v, Agg) or not self.reads_order(ty, fs):
            return None
        byidx = {k.fs[0].v: k for k in self.nodes(st)}
        n = self.name_of(st)
        o = v.fs[fs[0][0]]
        if not isinstance(o, SeqX):
            return "undetermined"
        return [n(byidx[x.v]) if isinstance(x, K) and x.v in byidx else show(x, 3) for x in o.es]

    def reads_order(self, ty, fs):
        d = self.P.__dict__.setdefault("order_readers", {})
        t = re.sub(r"<\d+>$", "", self.P.tys[ty].s)
        if t not in d:
            from . import c09
            n = common.nodes(self.P).get(t)
            d[t] = n is None or c09.uses_order(self.P, n, fs)
        return d[t]

    def canon(self, st):
        """the engine up to the identities of its nodes"""
        n = self.name_of(st)
        byidx = {k.fs[0].v: n(k) for k in self.nodes(st)}
        out = {}
        for k, data in self.nodes(st).items():
            v, ty = self.inner(st, k)
            idx = common.vec_usize_fields(self.I, ty)
            if idx and isinstance(v, Agg) and isinstance(v.fs[idx[0][0]], SeqX):
                i = idx[0][0]
                fs = list(v.fs)
                fs[i] = tuple(byidx.get(x.v, "gone") if isinstance(x, K) else x for x in v.fs[i].es) if self.reads_order(ty, idx) else ()
                v = (v.ty,) + tuple(self.norm(x) for x in fs)
            if isinstance(v, V):
                v = self.norm(v)
            out[n(k)] = (ty, v, data.fs[self.I.field_names(data.ty).index("buffers")])
        return out, self.edges(st), {c: len(x) for c, x in self.chains(st).items()}


    def norm(self, v, d=0):
        """a value without the names of places of analysis: joined or unknown values become what they depend on"""
        I = self.I
        if not isinstance(v, V):
            return tuple(self.norm(x, d + 1) if isinstance(x, V) else x for x in v) if isinstance(v, tuple) else v
        if isinstance(v, S):
            return v if v.name[0] != "φ" and ":" not in v.name else ("any", tuple(sorted(place(n) for n in I.label_names(v))))
        if isinstance(v, K):
            return v
        if isinstance(v, O):
            return (v.op,) + tuple(self.norm(x, d + 1) for x in v.args)
        if isinstance(v, Agg):
            return ("agg", v.ty) + tuple(self.norm(x, d + 1) for x in v.fs)
        if isinstance(v, En):
            return ("en", v.ty) + tuple((k,) + tuple(self.norm(x, d + 1) for x in fs) for k, fs in v.alts)
        if isinstance(v, SeqX):
            return ("seq",) + tuple(self.norm(x, d + 1) for x in v.es)
        if isinstance(v, SeqA):
            return ("seqof", self.norm(v.e, d + 1), self.norm(v.n, d + 1))
        if isinstance(v, MapX):
            return ("map", frozenset((self.norm(k, d + 1), self.norm(x, d + 1)) for k, x in v.es))
        if isinstance(v, BoxV):
            return ("box", v.dyn, self.norm(v.v, d + 1))
        return (type(v).__name__, tuple(sorted(place(n) for n in I.label_names(v))))


def place(n):
    return re.sub(r":\d+(@[^:]*)?(?=:|$)|:\d+@[^#.\[]*", "", n)


class Unexpected(Exception):
    pass


def text(prog):
    return "; ".join("%s: %s" % (n, " >> ".join(ctext(c) for c in cs)) for n, cs in prog.items())


def ctext(c):
    return re.sub(r"[{}#]", "", show(c, 6))


def expected_edges(b, prog, refs):
    """edges a program stands for.  refs(component) -> names in written order"""
    out, order = [], {}
    for n, cs in prog.items():
        for i, c in enumerate(cs):
            o = []
            if i > 0:
                out.append(((n, i - 1), (n, i)))
                o.append((n, i - 1))
            for r in refs(c):
                last = (r, len(prog[r]) - 1 if r in prog else 0)
                out.append((last, (n, i)))
                o.append(last)
            order[(n, i)] = o
        if cs and "~" not in n:
            out.append(((n, len(cs) - 1), SPEAKERS))
    return sorted(out, key=repr), order


def written_refs(c):
    """chain names written in a description, in order"""
    out = []

    def f(v):
        if isinstance(v, K) and isinstance(v.v, str) and v.v.startswith("~"):
            out.append(v.v)
        elif isinstance(v, Agg):
            for x in v.fs:
                f(x)
        elif isinstance(v, En):
            for _k, fs in v.alts:
                for x in fs:
                    f(x)
        elif isinstance(v, SeqX):
            for x in v.es:
                f(x)
    f(c)
    return out


def family(b):
    """program shapes over one to three chains: [(name, program)]"""
    c, m = b.const, b.mul
    return [
        ("one node", {"out": [c("v")]}),
        ("one hidden node", {"~a": [c("v")]}),
        ("two nodes", {"out": [c("v"), m("w")]}),
        ("two other nodes", {"out": [c("v2"), m("w")]}),
        ("the same two, second changed", {"out": [c("v"), m("w2")]}),
        ("three nodes", {"out": [c("v"), m("w"), m("x")]}),
        ("three nodes, middle new", {"out": [c("v"), m("y"), m("w")]}),
        ("three nodes, front new", {"out": [c("u"), c("v"), m("w")]}),
        ("four nodes", {"out": [c("v"), m("w"), m("x"), m("y")]}),
        ("swapped", {"out": [m("w"), c("v")]}),
        ("repeated node", {"out": [c("v"), m("w"), m("w")]}),
        ("two outputs", {"out": [c("v"), m("w")], "b": [c("z")]}),
        ("two outputs, one longer", {"out": [c("v")], "b": [c("z"), m("w")]}),
        ("a reference", {"out": [c("v"), m("~a")], "~a": [c("w")]}),
        ("a reference to a longer chain", {"out": [c("v"), m("~a")], "~a": [c("w"), m("x")]}),
        ("a reference to another chain", {"out": [c("v"), m("~b")], "~b": [c("w")]}),
        ("a reference in an edited chain", {"out": [c("u"), m("w"), m("~a")], "~a": [c("w")]}),
        ("an output referring to a visible chain's hidden source", {"out": [c("v"), m("~a")], "b": [c("z"), m("~a")], "~a": [c("w")]}),
        ("two references", {"out": [c("v"), b.mix("~a", "~b")], "~a": [c("w")], "~b": [c("x")]}),
        ("two references the other way round", {"out": [c("v"), b.mix("~b", "~a")], "~a": [c("w")], "~b": [c("x")]}),
        ("references in a row", {"out": [c("v"), m("~a")], "~a": [c("w"), m("~b")], "~b": [c("x")]}),
        ("the input chain", {"out": [c("v"), m("~input")]}),
        ("a hidden output", {"~out": [c("v"), m("w")], "b": [c("z")]}),
        ("nothing", {}),
    ]
