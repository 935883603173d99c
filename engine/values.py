"""Abstract values.  Every value is hash-consed, so equality is identity."""
import struct

_tab = {}


class V:
    __slots__ = ("_lab", "_sz", "__weakref__")


def _mk(cls, *key):
    k = (cls, key)
    v = _tab.get(k)
    if v is None:
        v = object.__new__(cls)
        for n, x in zip(cls.F, key):
            setattr(v, n, x)
        v._lab = None
        v._sz = None
        _tab[k] = v
    return v


def _cls(name, fields):
    fields = tuple(fields.split())
    ns = {"__slots__": fields, "F": fields}

    def __new__(cls, *a):
        return _mk(cls, *a)

    def __init__(self, *a):
        pass

    def __repr__(self):
        return show(self)
    ns["__new__"] = __new__
    ns["__init__"] = __init__
    ns["__repr__"] = __repr__
    return type(name, (V,), ns)


class _KBase(V):
    __slots__ = ()


K = _cls("K", "v ty")            # constant: int (also bool, char), float, str
S = _cls("S", "name ty")         # symbol: an unknown fixed value of type ty
O = _cls("O", "op args ty")      # term
Top = _cls("Top", "ty labels")   # anything computed from labels
Agg = _cls("Agg", "ty fs")       # struct, tuple, closure
En = _cls("En", "ty alts")       # enum: ((variant, fields), ...)
Ref = _cls("Ref", "root path dyn")
Refs = _cls("Refs", "alts")
BoxV = _cls("BoxV", "v dyn")
SeqX = _cls("SeqX", "es")        # sequence with known elements
SeqA = _cls("SeqA", "e n")       # sequence of n elements, each described by e
MapX = _cls("MapX", "es")        # ((key, value), ...)
MapA = _cls("MapA", "k v n")
It = _cls("It", "kind a pos n x")
FnV = _cls("FnV", "inst")
DV = _cls("DV", "root path val")  # the discriminant of the enum stored at a place
Undef = _cls("Undef", "")
UNDEF = Undef()


def norm_const(v):
    if isinstance(v, float):
        return v
    return v


_kf = {}


def kfloat(x, ty):
    """floats are keyed by bit pattern so that NaN and -0.0 behave"""
    b = struct.pack("<d", x)
    v = _kf.get((b, ty))
    if v is None:
        v = object.__new__(K)
        v.v = x
        v.ty = ty
        v._lab = None
        v._sz = None
        _kf[(b, ty)] = v
    return v


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def size(v):
    if v._sz is None:
        if isinstance(v, O):
            v._sz = 1 + sum(size(a) if isinstance(a, V) else 1 for a in v.args)
        else:
            v._sz = 1
    return v._sz


EMPTY = frozenset()


def leaves(v):
    """the symbols a value depends on (phi symbols included, unexpanded)"""
    if v._lab is not None:
        return v._lab
    if isinstance(v, S):
        r = frozenset((v,))
    elif isinstance(v, O):
        r = _un(a for a in v.args)
    elif isinstance(v, Top):
        r = v.labels
    elif isinstance(v, Agg):
        r = _un(v.fs)
    elif isinstance(v, En):
        r = _un(x for _, fs in v.alts for x in fs)
    elif isinstance(v, BoxV):
        r = leaves(v.v)
    elif isinstance(v, SeqX):
        r = _un(v.es)
    elif isinstance(v, SeqA):
        r = leaves(v.e) | leaves(v.n)
    elif isinstance(v, MapX):
        r = _un(x for kv in v.es for x in kv)
    elif isinstance(v, MapA):
        r = leaves(v.k) | leaves(v.v) | leaves(v.n)
    elif isinstance(v, DV):
        r = leaves(v.val)
    elif isinstance(v, It):
        r = _un(x for x in (v.a, v.n, v.x) if isinstance(x, V))
    elif isinstance(v, Ref):
        r = EMPTY
        if v.root[0] == "d":
            r = leaves(v.root[1])
        for e in v.path:
            for x in e[1:]:
                if isinstance(x, V):
                    r = r | leaves(x)
    elif isinstance(v, Refs):
        r = _un(v.alts)
    else:
        r = EMPTY
    v._lab = r
    return r


def _un(xs):
    r = EMPTY
    for x in xs:
        if isinstance(x, V):
            l = leaves(x)
            if l and not l <= r:
                r = r | l
        elif isinstance(x, tuple):
            r = r | _un(x)
    return r


def show(v, d=6):
    if d == 0:
        return "…"
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, S):
        return v.name
    if isinstance(v, O):
        return "%s(%s)" % (v.op, ", ".join(show(a, d - 1) if isinstance(a, V) else str(a) for a in v.args))
    if isinstance(v, Top):
        return "⊤{%s}" % ",".join(sorted(x.name for x in v.labels)[:6])
    if isinstance(v, Agg):
        return "{%s}" % ", ".join(show(a, d - 1) for a in v.fs)
    if isinstance(v, En):
        return "|".join("#%d(%s)" % (k, ", ".join(show(a, d - 1) for a in fs)) for k, fs in v.alts)
    if isinstance(v, Ref):
        return "&%s%s%s" % (root_s(v.root), path_s(v.path), "" if v.dyn is None else ":dyn%s" % v.dyn)
    if isinstance(v, Refs):
        return "&{%s}" % ", ".join(sorted(show(a, d - 1) for a in v.alts))
    if isinstance(v, BoxV):
        return "box(%s)" % show(v.v, d - 1)
    if isinstance(v, SeqX):
        return "[%s]" % ", ".join(show(a, d - 1) for a in v.es)
    if isinstance(v, SeqA):
        return "[%s; %s]" % (show(v.e, d - 1), show(v.n, d - 1))
    if isinstance(v, MapX):
        return "map{%s}" % ", ".join("%s: %s" % (show(a, d - 1), show(b, d - 1)) for a, b in v.es)
    if isinstance(v, MapA):
        return "map{%s: %s; %s}" % (show(v.k, d - 1), show(v.v, d - 1), show(v.n, d - 1))
    if isinstance(v, It):
        return "it:%s(%s @%s/%s)" % (v.kind, show(v.a, d - 1) if isinstance(v.a, V) else v.a, v.pos, v.n)
    if isinstance(v, FnV):
        return "fn%s" % v.inst
    if isinstance(v, DV):
        return "discr(%s%s)" % (root_s(v.root), path_s(v.path))
    return "undef"


def root_s(r):
    if r[0] == "l":
        return "f%s._%s" % (r[1], r[2])
    if r[0] == "d":
        return "(*%s)" % show(r[1], 3)
    return ":".join(str(x) for x in r)


def path_s(p):
    out = ""
    for e in p:
        if e[0] == "f":
            out += ".%d" % e[1]
        elif e[0] == "vf":
            out += ".#%d.%d" % (e[1], e[2])
        elif e[0] == "e":
            out += "[%s]" % show(e[1], 3)
        elif e[0] == "b":
            out += ".*"
        else:
            out += str(e)
    return out
