"""What library calls do, for the abstract interpreter.

Each model takes (interp, callee, argument values, state, frame, block) and returns [(state, result)], or None
to fall through to the callee's body.  Anything without a model or an inlined body is treated as an unknown
function of its arguments that may overwrite whatever it was given mutable access to."""
import struct
import re
from .values import *
from .values import _un

MODELS = {}
UNROLL = 16          # known sequences up to this length are walked element by element
RES = []
OPAQUE = {"hashbrown::HashMap", "std::collections::HashMap", "petgraph::stable_graph::StableGraph",
          "petgraph::graph_impl::stable_graph::StableGraph", "std::string::String", "rhai::Engine", "rhai::engine::Engine"}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def rmodel(rx):
    def deco(f):
        RES.append((re.compile(rx), f))
        return f
    return deco


# library functions whose (small) bodies are followed instead of being modelled
_INL = re.compile(r"^(std::option::Option::(?!unwrap$|expect)|std::result::Result::(?!unwrap$|expect)|"
                  r"<std::result::Result as std::ops::(Try|FromResidual)>|<std::option::Option as std::ops::(Try|FromResidual)>|"
                  r"<std::ops::ControlFlow as|<std::option::Option as |<std::result::Result as |"
                  r"<I as std::iter::IntoIterator>|<T as std::convert::(Into|From)>|<U as |<&mut F as |std::ops::function::|"
                  r"<&f32 as std::ops|<f32 as std::ops|<usize as std::ops|<&usize as|<isize as|<u32 as|<u64 as|<i32 as|<f64 as|"
                  r"core::bool::|std::cmp::(min|max)$|std::cmp::impls::|std::mem::(replace|swap|take)|std::convert::|core::f32::clamp|core::f32::(min|max)imum|"
                  r"core::f32::(to_radians|to_degrees|recip|signum|is_nan|is_sign|is_finite|is_infinite)|core::num::(pow|min_value|max_value)|"
                  r"std::ops::Range(Inclusive|To|From)?::contains|std::ops::range::|std::ops::Bound|std::cmp::(Ord|PartialOrd)|"
                  r"std::mem::MaybeUninit::write)")


def inline_lib(short):
    return bool(_INL.search(short))


def unit(I):
    return Agg(I.T_unit, ())


# ------------------------------------------------------------------------------------------- helpers
def strip(I, v, st):
    """the value behind any number of references"""
    n = 0
    while n < 6:
        if isinstance(v, Ref):
            if v.root[0] == "d" and not v.path:
                v = v.root[1]
                return v
            v = I.load(v.root, v.path, st)
        elif isinstance(v, Refs):
            v = I.joins([I.load(r, p, st) for r, p in I.targets(v, st)], (0, "strip", ("x", id(v)), ()))
        else:
            return v
        n += 1
    return v


def pointed(I, v, st):
    """value a reference argument points at"""
    if isinstance(v, (Ref, Refs)):
        return I.joins([I.load(r, p, st) for r, p in I.targets(v, st)], (0, "pt", ("x", id(v)), ()))
    if isinstance(v, K):
        return v
    return I.get(("d", v), st)


def tgt(I, v, st):
    """(root, path) list of a reference argument"""
    return I.targets(v, st)


def setp(I, v, val, st):
    ts = tgt(I, v, st)
    for r, p in ts:
        I.store(r, p, val, st, len(ts) > 1)


def option(I, ty, v):
    return En(ty, ((1, (v,)),)) if v is not None else En(ty, ((0, ()),))


def ret_ty(I, fr, b):
    return I.ret_ty_at(fr, b) if isinstance(b, int) else None


def term(I, name, vals, ty):
    return I.mk(name, tuple(vals), ty)


def may_split(I, st, cond):
    """[(state, bool)] for a boolean term"""
    k = I.known(cond, st)
    if k is not None:
        return [(st, bool(k))]
    if I.conds is not None and isinstance(cond, V):
        I.conds |= I.label_names(cond)
    out = []
    for x in (1, 0):
        s = st.copy()
        if I.assume(cond, x, s):
            out.append((s, bool(x)))
    return out


def check(I, kind, cond, st, fr, b, detail):
    """obligation: cond must hold; afterwards it is assumed.  False when it cannot hold."""
    k = I.known(cond, st)
    if k == 1:
        I.obligation(kind, detail, "proved", st, fr, b)
        return True
    I.obligation(kind, detail, "failed" if k == 0 else "unknown", st, fr, b, cond)
    if k == 0:
        return False
    return I.assume(cond, 1, st)


# ---------------------------------------------------------------------------------------- iterators
def idx_sym(I, st, fr, tag, bound):
    s = S("φidx:%s:%s" % (fr.uid, tag), I.T_usize)
    I.phi.setdefault(s, set())
    for t in [t for t in st.facts if s in leaves(t)]:
        del st.facts[t]
    for t in [t for t in st.iv if s in leaves(t)]:
        del st.iv[t]
    if bound is not None:
        hi = I.interval(bound, st)[1]
        st.iv[s] = (0, max(0, hi - 1))
        if not isinstance(bound, (K, Top)):
            st.facts[O("Lt", (s, bound), I.T_bool)] = frozenset((1,))
    return s


def seq_iter(I, v, st):
    """iterator over the elements of the sequence place(s) a reference denotes"""
    n = None
    ts = tgt(I, v, st)
    if len(ts) == 1:
        ln = I.place_len(ts[0][0], ts[0][1], st)
        if isinstance(ln, K) and ln.v <= UNROLL:
            n = ln.v
    return It("slice", v, 0 if n is not None else None, n, None)


def to_iter(I, v, st, fr, b):
    """IntoIterator::into_iter on any value we understand"""
    if isinstance(v, It):
        return v
    if isinstance(v, (Ref, Refs)):
        pv = pointed(I, v, st)
        if isinstance(pv, It):
            return It("byref", v, None, None, None)
        if isinstance(pv, (SeqX, SeqA)) or I.elem_ty(getattr(pv, "ty", None)) is not None:
            return seq_iter(I, v, st)
        if isinstance(pv, (MapX, MapA)) or I.map_tys(getattr(pv, "ty", None)):
            return map_iter(I, v, st, "kv")
        if isinstance(pv, Agg) and I.adt_name(pv.ty) in RANGES:
            return It("byref", v, None, None, None)
        if isinstance(pv, En) or I.adt_name(getattr(pv, "ty", None)) == "std::option::Option":
            return It("optref", v, 0, 1, None)
    if isinstance(v, SeqX):
        return It("seq", v, 0 if len(v.es) <= UNROLL else None, len(v.es) if len(v.es) <= UNROLL else None, None)
    if isinstance(v, SeqA):
        return It("seq", v, None, None, None)
    if isinstance(v, (MapX, MapA)):
        return It("mapval", v, 0 if isinstance(v, MapX) else None, len(v.es) if isinstance(v, MapX) else None, None)
    if isinstance(v, En):
        return It("opt", v, 0, 1, None)
    if isinstance(v, Agg) and I.adt_name(v.ty) in RANGES:
        return v
    if isinstance(v, (S, O)):
        if I.elem_ty(v.ty) is not None:
            return It("seq", v, None, None, None)
        p = I.pointee(v.ty)
        if p is not None and I.elem_ty(p) is not None:
            return It("slice", v, None, None, None)
        if p is not None and I.map_tys(p):
            return map_iter(I, v, st, "kv")
        if I.adt_name(v.ty) == "std::option::Option":
            return It("opt", v, 0, 1, None)
        if I.map_tys(v.ty):
            return It("mapval", v, None, None, None)
    return v


RANGES = ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom")


def map_iter(I, v, st, mode):
    pv = pointed(I, v, st)
    if isinstance(pv, MapX):
        return It("map", v, 0, len(pv.es), mode)
    return It("map", v, None, None, mode)


def bound(I, it, st):
    """term for the number of items at most produced from the start, or None"""
    if isinstance(it, It):
        if it.kind == "slice":
            ts = tgt(I, it.a, st)
            return I.joins([I.place_len(r, p, st) for r, p in ts], (0, "bound", ("x", id(it)), ()))
        if it.kind == "seq":
            return I.seq_len(it.a, st)
        if it.kind in ("map1", "enumerate", "rev", "cloned", "inspect", "filter", "filter_map", "peekable", "take_while", "skip", "step_by", "skip_while"):
            return bound(I, it.a, st)
        if it.kind == "zip":
            a, c = bound(I, it.a, st), bound(I, it.x, st)
            for x in (a, c):
                if isinstance(x, K):
                    y = c if x is a else a
                    if isinstance(y, K) and y.v < x.v:
                        return y
                    return x
            return a if a is not None else c
        if it.kind == "take":
            a = bound(I, it.a, st)
            if isinstance(a, K) and isinstance(it.x, K):
                return a if a.v < it.x.v else it.x
            return it.x
        if it.kind == "windows":
            return bound(I, It("slice", it.a, None, None, None), st)
        if it.kind in ("opt", "optref"):
            return I.kint(1)
        if it.kind == "map" and it.n is not None:
            return I.kint(it.n)
    if isinstance(it, Agg) and I.adt_name(it.ty) == "std::ops::Range" and isinstance(it.fs[0], K) and it.fs[0].v == 0:
        return it.fs[1]
    return None


def exact_len(it):
    """kinds of iterator that yield exactly bound() items"""
    return isinstance(it, It) and (it.kind in ("slice", "seq") or it.kind in ("map1", "enumerate", "rev", "cloned", "inspect") and exact_len(it.a)) \
        or isinstance(it, Agg)


def call_closure(I, it_f, args, st, fr, b, tag):
    """calls a closure held by value inside an iterator; returns [(st, result, new closure value)]"""
    if isinstance(it_f, (Ref, Refs, FnV)):
        return [(s, v, it_f) for s, v in I.call_value(st, it_f, args, fr, b)]
    root = ("tmp", fr.fid, "cl:%s:%s" % (b, tag))
    st = st.copy()
    st.mem[root] = it_f
    out = []
    for s, v in I.call_value(st, Ref(root, (), None), args, fr, b):
        f2 = s.mem.pop(root, it_f)
        out.append((s, v, f2))
    return out


def nxt(I, it, st, fr, b, tag="", back=False):
    """one step: [(state, item or None, new iterator)]"""
    if isinstance(it, Agg) and I.adt_name(it.ty) in RANGES:
        return range_next(I, it, st, fr, b, back)
    if not isinstance(it, It):
        return opaque_next(I, it, st, fr, b, tag)
    k = it.kind
    if k in ("slice", "seq"):
        if it.pos is not None:
            lo, hi = (it.pos, it.n) if not isinstance(it.pos, tuple) else it.pos
            if lo >= hi:
                return [(st, None, it)]
            j = hi - 1 if back else lo
            np = (lo, hi - 1) if back else (lo + 1, hi)
            pos = np if np[1] != it.n else np[0]
            e = I.kint(j)
            n2 = It(k, it.a, pos, it.n, it.x)
            if k == "seq":
                return [(st, I.elem(it.a, e, st), n2)]
            return [(st, elem_ref(I, it.a, e, st), n2)]
        out = []
        bd = bound(I, it, st)
        lo, hi = I.interval(bd, st) if bd is not None else (0, 1)
        if hi > 0:
            s = st.copy()
            ix = idx_sym(I, s, fr, "%s%s" % (b, tag), bd)
            s.iv[bd] = (max(lo, 1), hi) if bd is not None and not isinstance(bd, K) else (lo, hi)
            item = I.elem(it.a, ix, s) if k == "seq" else elem_ref(I, it.a, ix, s)
            out.append((s, item, it))
        out.append((st, None, It(k, it.a, None, None, "end") if False else it))
        return out
    if k == "map":
        pv = pointed(I, it.a, st)
        if it.pos is not None and isinstance(pv, MapX):
            if it.pos >= len(pv.es):
                return [(st, None, it)]
            j = len(pv.es) - 1 - it.pos if I.map_rev else it.pos
            r, p = tgt(I, it.a, st)[0]
            kr, vr = Ref(r, p + (("mkey", j),), None), Ref(r, p + (("m", j),), None)
            return [(st, kvitem(I, kr, vr, it.x, fr, b), It(k, it.a, it.pos + 1, it.n, it.x))]
        s = st.copy()
        mt = I.map_tys(getattr(pv, "ty", None)) or (None, None)
        if isinstance(pv, MapA):
            key = pv.k
        else:
            key = S("φkey:%s:%s%s" % (fr.uid, b, tag), mt[0])
            I.phi.setdefault(key, set())
            I.sym_labels.pop(key, None)
            for t in [t for t in s.facts if key in leaves(t)]:
                del s.facts[t]
            s.facts[O("has", (pv, key), I.T_bool)] = frozenset((1,))
        r, p = tgt(I, it.a, s)[0]
        kroot = ("tmp", fr.fid, "key:%s%s" % (b, tag))
        s.mem[kroot] = key
        kr, vr = Ref(kroot, (), None), Ref(r, p + (("mv", key),), None)
        return [(s, kvitem(I, kr, vr, it.x, fr, b), it), (st, None, it)]
    if k == "mapval":
        if it.pos is not None:
            if it.pos >= len(it.a.es):
                return [(st, None, it)]
            kk, vv = it.a.es[it.pos]
            return [(st, Agg(None, (kk, vv)), It(k, it.a, it.pos + 1, it.n, it.x))]
        if isinstance(it.a, MapA):
            return [(st.copy(), Agg(None, (it.a.k, it.a.v)), it), (st, None, it)]
        return [(st.copy(), Agg(None, (Top(None, leaves(it.a)), Top(None, leaves(it.a)))), it), (st, None, it)]
    if k == "map1":
        out = []
        for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "m", back):
            if x is None:
                out.append((s, None, It(k, i2, None, None, it.x)))
            else:
                for s2, v, f2 in call_closure(I, it.x, [x], s, fr, b, tag + "m"):
                    out.append((s2, v, It(k, i2, None, None, f2)))
        return out
    if k == "enumerate":
        out = []
        for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "e", back):
            if x is None:
                out.append((s, None, It(k, i2, it.pos, None, None)))
                continue
            if it.pos is not None and I.iter_key(it.a, 0) is not None:
                idx, np = I.kint(it.pos), it.pos + 1
            else:
                idx, np = None, None
                if isinstance(x, Ref) and x.path and x.path[-1][0] == "e" and isinstance(x.path[-1][1], V) and is_chain(it.a):
                    idx = x.path[-1][1]
                    if x.path[-2:-1] and x.path[-2][0] == "s":
                        pass
                if idx is None:
                    idx = idx_sym(I, s, fr, "%s%se" % (b, tag), bound(I, it.a, s))
            out.append((s, Agg(None, (idx, x)), It(k, i2, np, None, None)))
        return out
    if k == "zip":
        out = []
        for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "a", back):
            if x is None:
                out.append((s, None, It(k, i2, None, None, it.x)))
                continue
            for s2, y, j2 in nxt(I, it.x, s, fr, b, tag + "b", back):
                if y is None:
                    out.append((s2, None, It(k, i2, None, None, j2)))
                else:
                    out.append((s2, Agg(None, (x, y)), It(k, i2, None, None, j2)))
        return out
    if k == "rev":
        return [(s, x, It(k, i2, None, None, None)) for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "r", not back)]
    if k == "cloned":
        return [(s, None if x is None else pointed(I, x, s), It(k, i2, None, None, None)) for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "c", back)]
    if k == "inspect":
        return [(s, x, It(k, i2, None, None, it.x)) for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "i", back)]
    if k in ("filter", "filter_map", "take_while", "skip_while"):
        out = []
        work = [(st, it, 0)]
        while work:
            s0, i0, n = work.pop()
            for s, x, i2 in nxt(I, i0.a, s0, fr, b, tag + "f", back):
                if x is None:
                    out.append((s, None, It(k, i2, None, None, i0.x)))
                    continue
                exact = I.iter_key(i0.a, 0) is not None
                if k == "filter_map":
                    for s2, v, f2 in call_closure(I, i0.x, [x], s, fr, b, tag + "f"):
                        for s3, some in split_variant(I, v, 1, s2):
                            if some is not None:
                                out.append((s3, some[0], It(k, i2, None, None, f2)))
                            elif exact and n < 12:
                                work.append((s3, It(k, i2, None, None, f2), n + 1))
                            else:
                                out.append((s3, None, It(k, i2, None, None, f2)))
                    continue
                root = ("tmp", fr.fid, "flt:%s%s" % (b, tag))
                s = s.copy()
                s.mem[root] = x
                for s2, v, f2 in call_closure(I, i0.x, [Ref(root, (), None)], s, fr, b, tag + "f"):
                    for s3, yes in may_split(I, s2, v):
                        if k == "skip_while":
                            yes = not yes
                        if yes:
                            s3.mem.pop(root, None)
                            out.append((s3, x, It(k, i2, None, None, f2)))
                        elif k == "take_while":
                            out.append((s3, None, It(k, i2, None, None, f2)))
                        elif exact and n < 12:
                            work.append((s3, It(k, i2, None, None, f2), n + 1))
                        else:
                            out.append((s3, None, It(k, i2, None, None, f2)))
        return out
    if k == "take":
        if isinstance(it.x, K) and it.x.v <= 0:
            return [(st, None, it)]
        rem = it.x
        small = isinstance(rem, K) and rem.v <= 8
        out = []
        if not small:
            c = I.mkcmp("Eq", rem, I.kint(0), I.T_usize)
            kn = I.known(c, st)
            if kn == 1:
                return [(st, None, it)]
            if kn is None:
                out.append((st.copy(), None, it))
        for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "t", back):
            out.append((s, x, It(k, i2, None, None, I.kint(rem.v - 1) if small and x is not None else rem)))
        return out
    if k in ("skip", "step_by"):
        x = it.x
        if isinstance(x, K) and I.iter_key(it.a, 0) is not None:
            cur = [(st, it.a)]
            n = x.v if k == "skip" else 0
            res = []
            for _ in range(min(n, 9)):
                nc = []
                for s, i0 in cur:
                    for s2, y, i2 in nxt(I, i0, s, fr, b, tag + "s"):
                        if y is None:
                            res.append((s2, None, It(k, i2, None, None, I.kint(0))))
                        else:
                            nc.append((s2, i2))
                cur = nc
            for s, i0 in cur:
                for s2, y, i2 in nxt(I, i0, s, fr, b, tag + "s"):
                    if k == "step_by" and y is not None:
                        for _ in range(min(x.v - 1, 8)):
                            r = nxt(I, i2, s2, fr, b, tag + "s")
                            if len(r) == 1:
                                s2, _y, i2 = r[0]
                        res.append((s2, y, It(k, i2, None, None, x)))
                    else:
                        res.append((s2, y, It(k, i2, None, None, I.kint(0) if k == "skip" else x)))
            return res
        out = [(s, y, It(k, i2, None, None, x)) for s, y, i2 in nxt(I, it.a, st, fr, b, tag + "s", back)]
        if not any(y is None for _, y, _ in out):
            out.append((st.copy(), None, it))
        return out
    if k == "chain":
        out = []
        if it.pos != 1:
            for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "h", back):
                if x is None:
                    for s2, y, j2 in nxt(I, it.x, s, fr, b, tag + "j", back):
                        out.append((s2, y, It(k, i2, 1, None, j2)))
                else:
                    out.append((s, x, It(k, i2, it.pos, None, it.x)))
            return out
        return [(s, y, It(k, it.a, 1, None, j2)) for s, y, j2 in nxt(I, it.x, st, fr, b, tag + "j", back)]
    if k == "peekable":
        if it.x is not None:
            return [(st, it.x if it.x is not UNDEF else None, It(k, it.a, None, None, None))]
        return [(s, x, It(k, i2, None, None, None)) for s, x, i2 in nxt(I, it.a, st, fr, b, tag + "p", back)]
    if k == "flat_map":      # a: outer, x: closure (or None for flatten), pos: current inner iterator
        out = []
        work = [(st, it, 0)]
        while work:
            s0, i0, n = work.pop()
            if i0.pos is not None:
                for s, x, c2 in nxt(I, i0.pos, s0, fr, b, tag + "l", back):
                    if x is not None:
                        out.append((s, x, It(k, i0.a, c2, None, i0.x)))
                    elif n < 10:
                        work.append((s, It(k, i0.a, None, None, i0.x), n + 1))
                    else:
                        out.append((s, None, It(k, i0.a, None, None, i0.x)))
                continue
            for s, x, i2 in nxt(I, i0.a, s0, fr, b, tag + "o", back):
                if x is None:
                    out.append((s, None, It(k, i2, None, None, i0.x)))
                    continue
                exact = I.iter_key(i0.a, 0) is not None
                res = [(s, x, None)] if i0.x is None else call_closure(I, i0.x, [x], s, fr, b, tag + "o")
                for s2, v, f2 in res:
                    cur = to_iter(I, v, s2, fr, b)
                    if n < (10 if exact else 2):
                        work.append((s2, It(k, i2, cur, None, f2), n + 1))
                    else:
                        out.append((s2, None, It(k, i2, None, None, f2)))
        return out
    if k in ("opt", "optref"):
        if it.pos == 1:
            return [(st, None, it)]
        out = []
        v = it.a if k == "opt" else pointed(I, it.a, st)
        end = It(k, it.a, 1, 1, it.x)
        for s, some in split_variant(I, v, 1, st):
            if some is None:
                out.append((s, None, end))
            elif k == "opt":
                out.append((s, some[0], end))
            else:
                r, p = tgt(I, it.a, s)[0]
                out.append((s, Ref(r, p + (("vf", 1, 0),), None), end))
        return out
    if k == "byref":
        out = []
        inner = pointed(I, it.a, st)
        for s, x, i2 in nxt(I, inner, st, fr, b, tag + "y", back):
            s = s.copy()
            setp(I, it.a, i2, s)
            out.append((s, x, it))
        return out
    if k == "windows":
        ts = tgt(I, it.a, st)
        r, p = ts[0]
        ln = I.place_len(r, p, st)
        n = it.x
        if isinstance(ln, K) and isinstance(n, K) and it.n is not None:
            j = it.pos or 0
            if j + n.v > ln.v:
                return [(st, None, it)]
            return [(st, I.mkref(r, I.subslice(p, I.kint(j), I.kint(j + n.v), st)), It(k, it.a, j + 1, it.n, n))]
        s = st.copy()
        ix = idx_sym(I, s, fr, "%s%sw" % (b, tag), ln)
        hi = I.binop("Add", ix, n, I.T_usize, s)
        s.facts[O("Le", (hi, ln), I.T_bool)] = frozenset((1,))
        return [(s, I.mkref(r, I.subslice(p, ix, hi, s)), It(k, it.a, None, None, n)), (st, None, it)]
    if k == "chunks":
        ts = tgt(I, it.a, st)
        r, p = ts[0]
        ln = I.place_len(r, p, st)
        if isinstance(ln, K) and isinstance(it.x, K) and it.x.v > 0 and it.n is not None and not back:
            j = it.pos or 0
            if j >= it.n:
                return [(st, None, it)]
            lo = j * it.x.v
            return [(st, I.mkref(r, I.subslice(p, I.kint(lo), I.kint(min(lo + it.x.v, ln.v)), st)), It(k, it.a, j + 1, it.n, it.x))]
        s = st.copy()
        ix = idx_sym(I, s, fr, "%s%sw" % (b, tag), ln)
        hi = I.binop("Add", ix, it.x, I.T_usize, s)
        return [(s, I.mkref(r, I.subslice(p, ix, hi, s)), it), (st, None, it)]
    if k == "from_fn":
        out = []
        for s, v, f2 in call_closure(I, it.x, [], st, fr, b, tag + "n"):
            for s2, some in split_variant(I, v, 1, s):
                out.append((s2, None if some is None else some[0], It(k, None, None, None, f2)))
        return out
    if k == "strparts":
        s = st.copy()
        v = S("φpart:%s:%s%s" % (fr.uid, b, tag), I.T_str)
        I.phi.setdefault(v, set())
        part = O("part", (it.a, v), I.T_str) if isinstance(it.a, V) else v
        # the first part of a split always exists
        if it.pos == 0 and it.x == "split":
            return [(s, part, It(k, it.a, None, None, it.x))]
        return [(s, part, It(k, it.a, None, None, it.x)), (st, None, it)]
    return opaque_next(I, it, st, fr, b, tag)


def is_chain(it):
    return isinstance(it, It) and (it.kind == "slice" or it.kind in ("map1",) and is_chain(it.a))


def kvitem(I, kr, vr, mode, fr, b):
    if mode == "v":
        return vr
    if mode == "k":
        return kr
    return Agg(None, (kr, vr))


def elem_ref(I, v, e, st):
    ts = tgt(I, v, st)
    rs = [I.mkref(r, p + (("e", e),)) for r, p in ts]
    return rs[0] if len(rs) == 1 else Refs(frozenset(rs))


def opaque_next(I, it, st, fr, b, tag):
    s = st.copy()
    labs = frozenset(I.deep_labels(it, st))
    v = S("φitem:%s:%s%s" % (fr.uid, b, tag), item_ty(I, fr, b))
    I.phi.setdefault(v, set()).add(Top(None, labs)) if labs else I.phi.setdefault(v, set())
    return [(s, v, it), (st, None, it)]


def item_ty(I, fr, b):
    t = ret_ty(I, fr, b)
    if t is not None and I.adt_name(t) == "std::option::Option":
        return I.P.tys[t].d["args"][0]
    return None


def range_next(I, it, st, fr, b, back):
    n = I.adt_name(it.ty)
    lo = it.fs[0]
    ety = getattr(lo, "ty", I.T_usize)
    if n == "std::ops::RangeFrom":
        return [(st, lo, Agg(it.ty, (I.binop("Add", lo, K(1, ety), ety, st),)))]
    hi = it.fs[1]
    if n == "std::ops::Range":
        cond = I.mkcmp("Lt", lo, hi, ety)
    else:
        cond = I.mkcmp("Le", lo, hi, ety)
        if len(it.fs) > 2 and isinstance(it.fs[2], K) and it.fs[2].v == 1:
            return [(st, None, it)]
    out = []
    for s, yes in may_split(I, st, cond):
        if not yes:
            out.append((s, None, it))
        elif back:
            h2 = I.binop("Sub", hi, K(1, ety), ety, s)
            if n == "std::ops::Range":
                out.append((s, h2, Agg(it.ty, (lo, h2))))
            else:
                out.append((s, hi, Agg(it.ty, (lo, h2) + it.fs[2:])))
        else:
            out.append((s, lo, Agg(it.ty, (I.binop("Add", lo, K(1, ety), ety, s), hi) + it.fs[2:])))
    return out


def split_variant(I, v, variant, st):
    """[(state, fields or None)]: the value is the variant (with its fields) or another one"""
    if isinstance(v, En):
        out = []
        other = False
        for a, fs in v.alts:
            if a == variant:
                out.append((st.copy(), fs))
            else:
                other = True
        if other:
            out.append((st.copy(), None))
        return out
    if isinstance(v, (S, O)) and v.ty is not None and I.P.tys[v.ty].k == "enum":
        d = I.mk("discr", (v,), I.T_isize)
        dv = I.variants(v.ty)[variant][1]
        dom = {x[1] for x in I.variants(v.ty)}
        f = st.facts.get(d)
        if isinstance(f, frozenset):
            dom &= f
        out = []
        if dv in dom:
            s = st.copy()
            s.facts[d] = frozenset((dv,))
            n = len(I.variant_fields(v.ty, variant))
            out.append((s, tuple(I.proj(v, ("vf", variant, i), s) for i in range(n))))
        if dom - {dv}:
            s = st.copy()
            s.facts[d] = frozenset(dom - {dv})
            out.append((s, None))
        return out
    t = Top(None, leaves(v))
    return [(st.copy(), (t, t, t)), (st.copy(), None)]


def drive_key(I, it, st):
    """how far an iterator is, looking through iterators held by reference"""
    if isinstance(it, It) and it.kind == "byref":
        v = pointed(I, it.a, st)
        return drive_key(I, v, st) if v is not it else None
    k = I.iter_key(it, 0)
    if k is None and isinstance(it, It) and isinstance(it.a, It):
        return drive_key(I, it.a, st)
    return k


def drive(I, it, st, fr, b, body, acc, tag="d"):
    """runs an iterator to the end.  body(state, item, acc) -> [(state, 'c', acc) | (state, 'b', value)].
    returns ([(state, acc)], [(state, value)])"""
    ri, ra = ("it", fr.fid, "drv:%s:%s" % (b, tag)), ("tmp", fr.fid, "acc:%s:%s" % (b, tag))
    st = st.copy()
    st.mem[ri], st.mem[ra] = it, acc
    pend, heads, count = [st], {}, {}
    done, brk = {}, {}
    outer = fr.ukey
    while pend:
        s = pend.pop()
        key = (s.obs, drive_key(I, s.mem[ri], s))
        fr.ukey = outer + ("%s%s=%s" % (b, tag, key[1]),) if key[1] is not None else outer
        old = heads.get(key)
        if old is not None:
            count[key] = count.get(key, 0) + 1
            v0 = I.snap(old)
            j, _ = I.join_states(old, s, fr.uid, "drv%s%s" % (b, tag), widen=count[key] > 3)
            heads[key] = j
            if I.snap(j) == v0:
                continue
            if count[key] > 40:
                from .absint import Budget
                raise Budget("iterator does not stabilise")
            s = j.copy()
        else:
            heads[key] = s.copy()
        I.steps += 1
        cur, a0 = s.mem[ri], s.mem[ra]
        for s2, item, it2 in nxt(I, cur, s, fr, b, tag):
            s2 = s2.copy()
            s2.mem[ri] = it2
            if item is None:
                k2 = s2.obs
                if k2 in done:
                    done[k2], _ = I.join_states(done[k2], s2, fr.uid, "dend%s%s" % (b, tag))
                else:
                    done[k2] = s2
                continue
            for s3, ctl, v in body(s2, item, s2.mem.get(ra, a0)):
                if ctl == "c":
                    s3 = s3.copy()
                    s3.mem[ra] = v
                    s3.mem[ri] = it2
                    pend.insert(0, s3)
                else:
                    k2 = (s3.obs, I.ret_key(v))
                    s3 = s3.copy()
                    s3.mem[ra] = v
                    if k2 in brk:
                        brk[k2], _ = I.join_states(brk[k2], s3, fr.uid, "dbrk%s%s" % (b, tag))
                    else:
                        brk[k2] = s3
    fr.ukey = outer
    fin = []
    for s in done.values():
        a = s.mem.pop(ra, acc)
        i2 = s.mem.pop(ri, None)
        fin.append((s, a))
    bro = []
    for s in brk.values():
        a = s.mem.pop(ra, acc)
        s.mem.pop(ri, None)
        bro.append((s, a))
    return fin, bro


ITER = re.compile(r"(std::iter::Iterator|std::iter::DoubleEndedIterator|std::iter::ExactSizeIterator)>?::(\w+)$")


def itval(I, v, st, fr, b):
    return to_iter(I, v, st, fr, b)


def iter_method(I, fn, a, st, fr, b):
    short = fn.short
    m = short.rsplit("::", 1)[1]
    # next through a mutable reference
    if m in ("next", "next_back"):
        pv = pointed(I, a[0], st)
        if isinstance(pv, It) or isinstance(pv, Agg) and I.adt_name(pv.ty) in RANGES:
            out = []
            ty = ret_ty(I, fr, b)
            for s, x, i2 in nxt(I, pv, st, fr, b, "", m == "next_back"):
                s = s.copy()
                setp(I, a[0], i2, s)
                out.append((s, option(I, ty, x)))
            return merge_outs(I, out, fr, b)
        return None
    v = a[0]
    if not isinstance(v, It) and not (isinstance(v, Agg) and I.adt_name(v.ty) in RANGES):
        if isinstance(v, (Ref, Refs)) and m not in ("size_hint", "len"):
            pv = pointed(I, v, st)
            if isinstance(pv, It) or isinstance(pv, Agg) and I.adt_name(pv.ty) in RANGES:
                v = It("byref", v, None, None, None)
            else:
                return None
        else:
            return None
    ty = ret_ty(I, fr, b)
    mk = lambda k, x=None, n=None, pos=None: [(st, It(k, v, pos, n, x))]
    if m == "map":
        return mk("map1", a[1])
    if m in ("filter", "filter_map", "take_while", "skip_while", "inspect"):
        return mk(m, a[1])
    if m == "enumerate":
        return mk("enumerate", pos=0)
    if m == "zip":
        return [(st, It("zip", v, None, None, to_iter(I, a[1], st, fr, b)))]
    if m == "chain":
        return [(st, It("chain", v, 0, None, to_iter(I, a[1], st, fr, b)))]
    if m == "rev":
        return mk("rev")
    if m in ("cloned", "copied"):
        return mk("cloned")
    if m in ("take", "skip", "step_by"):
        return mk(m, a[1])
    if m == "peekable":
        return mk("peekable")
    if m == "flat_map":
        return mk("flat_map", a[1])
    if m == "flatten":
        return mk("flat_map", None)
    if m in ("into_iter", "by_ref", "fuse"):
        return [(st, v)]
    if m == "size_hint":
        return None
    if m == "collect":
        return collect(I, v, ty, st, fr, b)
    if m == "for_each":
        fin, _ = drive(I, v, st, fr, b, lambda s, x, acc: [(s2, "c", acc) for s2, _v, _f in call_closure(I, a[1], [x], s, fr, b, "fe")], unit(I))
        return [(s, unit(I)) for s, _ in fin]
    if m == "fold":
        def body(s, x, acc):
            return [(s2, "c", r) for s2, r, _f in call_closure(I, a[2], [acc, x], s, fr, b, "fo")]
        fin, _ = drive(I, v, st, fr, b, body, a[1])
        return fin
    if m in ("any", "all"):
        want = m == "any"

        def body(s, x, acc):
            out = []
            for s2, r, _f in call_closure(I, a[1], [x], s, fr, b, "an"):
                for s3, yes in may_split(I, s2, r):
                    out.append((s3, "b", I.kbool(want)) if yes == want else (s3, "c", acc))
            return out
        src = v
        fin, brk = drive(I, v, st, fr, b, body, unit(I))
        return [(s, I.kbool(not want)) for s, _ in fin] + brk
    if m in ("find", "position", "find_map"):
        def body(s, x, acc):
            out = []
            root = ("tmp", fr.fid, "find:%s" % b)
            arg = x
            if m == "find":
                s = s.copy()
                s.mem[root] = x
                arg = Ref(root, (), None)
            for s2, r, _f in call_closure(I, a[1], [arg], s, fr, b, "fi"):
                s2.mem.pop(root, None)
                if m == "find_map":
                    for s3, some in split_variant(I, r, 1, s2):
                        out.append((s3, "b", option(I, ty, some[0])) if some is not None else (s3, "c", acc))
                    continue
                for s3, yes in may_split(I, s2, r):
                    if not yes:
                        nacc = I.kint(acc.v + 1) if isinstance(acc, K) else acc
                        out.append((s3, "c", nacc if m == "position" and drive_key(I, v, st) is not None else acc))
                    elif m == "find":
                        out.append((s3, "b", option(I, ty, x)))
                    else:
                        if drive_key(I, v, st) is not None and isinstance(acc, K):
                            ix = acc
                        elif isinstance(x, Ref) and x.path and x.path[-1][0] == "e":
                            ix = x.path[-1][1]
                        else:
                            ix = idx_sym(I, s3, fr, "%spos" % b, bound(I, v, s3))
                        out.append((s3, "b", option(I, ty, ix)))
            return out
        fin, brk = drive(I, v, st, fr, b, body, I.kint(0))
        return [(s, option(I, ty, None)) for s, _ in fin] + brk
    if m in ("sum", "product"):
        def body(s, x, acc):
            return [(s, "c", I.binop("Add" if m == "sum" else "Mul", acc, strip(I, x, s), ty, s))]
        z = kfloat(0.0 if m == "sum" else 1.0, ty) if I.is_float(ty) else K(0 if m == "sum" else 1, ty)
        fin, _ = drive(I, v, st, fr, b, body, z)
        return fin
    if m in ("count", "len"):
        bd = bound(I, v, st)
        if exact_len(v) and bd is not None:
            return [(st, bd)]
        fin, _ = drive(I, v, st, fr, b, lambda s, x, acc: [(s, "c", I.binop("Add", acc, I.kint(1), I.T_usize, s))], I.kint(0))
        return fin
    if m == "last":
        fin, _ = drive(I, v, st, fr, b, lambda s, x, acc: [(s, "c", option(I, ty, x))], option(I, ty, None))
        return fin
    if m == "nth":
        n = a[1]
        cur = [(st, v)]
        if isinstance(n, K) and n.v <= 8:
            res = []
            for i in range(n.v + 1):
                nc = []
                for s, i0 in cur:
                    for s2, x, i2 in nxt(I, i0, s, fr, b, "n%d" % i):
                        if x is None:
                            res.append((s2, option(I, ty, None)))
                        elif i == n.v:
                            res.append((s2, option(I, ty, x)))
                        else:
                            nc.append((s2, i2))
                cur = nc
            return merge_outs(I, res, fr, b)
        return None
    if m in ("max", "min", "max_by", "min_by", "max_by_key", "min_by_key"):
        def body(s, x, acc):
            return [(s, "c", I.join(acc, option(I, ty, x), (fr.uid, "mx%s" % b, ("tmp", fr.fid, "m"), ())))]
        fin, _ = drive(I, v, st, fr, b, body, option(I, ty, None))
        return fin
    if m == "unzip":
        return None
    if m == "eq":
        return [(st, Top(I.T_bool, leaves(v) | leaves(a[1])))]
    return None


def merge_outs(I, outs, fr, b):
    d = {}
    for s, v in outs:
        k = (s.obs, I.ret_key(v))
        if k in d:
            s0, v0 = d[k]
            r = ("tmp", fr.fid, "mo:%s" % (b,))
            s0.mem[r], s.mem[r] = v0, v
            j, _ = I.join_states(s0, s, fr.uid, "mo%s" % (b,))
            v = j.mem.pop(r)
            d[k] = (j, v)
        else:
            d[k] = (s.copy(), v)
    return list(d.values())


def collect(I, it, ty, st, fr, b):
    n = I.adt_name(ty)
    t = I.P.tys.get(ty)
    if n == "std::result::Result" or n == "std::option::Option":
        inner = t.d["args"][0]
        ok = 0 if n == "std::result::Result" else 1

        def body(s, x, acc):
            out = []
            for s2, fs in split_variant(I, x, ok, s):
                if fs is not None:
                    out.append((s2, "c", grow(I, acc, fs[0], s2)))
                elif ok == 0:
                    for s3, ef in split_variant(I, x, 1, s2):
                        if ef is not None:
                            out.append((s3, "b", En(ty, ((1, (ef[0],)),))))
                else:
                    out.append((s2, "b", En(ty, ((0, ()),))))
            return out
        fin, brk = drive(I, it, st, fr, b, body, start(I, inner))
        return [(s, En(ty, ((ok, (finish(I, acc, it, s, st),)),))) for s, acc in fin] + brk
    if n in ("std::string::String",):
        if isinstance(it, It) and exact_chars(it):
            fin, _ = drive(I, it, st, fr, b, lambda s, x, acc: [(s, "c", SeqX(acc.es + (strip(I, x, s),)) if isinstance(acc, SeqX) else acc)], SeqX(()))
            if all(isinstance(acc, SeqX) for _s, acc in fin) and all(isinstance(x, K) for _s, acc in fin for x in acc.es):
                return [(s, K("".join(x.v if isinstance(x.v, str) else chr(x.v) for x in acc.es), ty)) for s, acc in fin]
        return [(st, I.mk("collect", (it,), ty) if isinstance(it, V) else Top(ty, EMPTY))]
    fin, _ = drive(I, it, st, fr, b, lambda s, x, acc: [(s, "c", grow(I, acc, x, s))], start(I, ty))
    return [(s, finish(I, acc, it, s, st)) for s, acc in fin]


def exact_chars(it):
    """an iterator over known characters or texts"""
    while isinstance(it, It):
        if it.kind == "seq":
            return isinstance(it.a, SeqX) and all(isinstance(x, K) for x in it.a.es)
        it = it.a
    return False


def start(I, ty):
    if I.map_tys(ty) or I.adt_name(ty) in ("std::collections::HashSet", "hashbrown::HashSet", "std::collections::BTreeSet"):
        return MapX(())
    return SeqX(())


def grow(I, acc, x, st):
    if isinstance(acc, MapX):
        if isinstance(x, Agg) and len(x.fs) == 2:
            if len(acc.es) >= 8:
                return MapA(Top(None, leaves(acc)), Top(None, leaves(acc)), Top(I.T_usize, EMPTY))
            return map_insert(I, acc, strip(I, x.fs[0], st), x.fs[1], st)
        return MapA(x, unit(I), Top(I.T_usize, EMPTY))
    if isinstance(acc, MapA):
        if isinstance(x, Agg) and len(x.fs) == 2:
            return MapA(I.join(acc.k, x.fs[0], (0, "gk", ("x", 0), ())), I.join(acc.v, x.fs[1], (0, "gv", ("x", 0), ())), acc.n)
        return acc
    if isinstance(acc, SeqX):
        if len(acc.es) < 16:
            return SeqX(acc.es + (x,))
        return SeqA(I.joins(list(acc.es) + [x], (0, "grow", ("x", 0), ())), I.kint(len(acc.es) + 1))
    if isinstance(acc, SeqA):
        return SeqA(I.join(acc.e, x, (0, "grow", ("x", id(acc)), ())), I.binop("Add", acc.n, I.kint(1), I.T_usize, st))
    return acc


def finish(I, acc, it, st, st0):
    if isinstance(acc, SeqA) and exact_len(it):
        bd = bound(I, it, st0)
        if bd is not None:
            return SeqA(acc.e, bd)
    return acc


RES.append((ITER, iter_method))
MODELS["std::iter::range::next"] = iter_method
MODELS["std::iter::range::next_back"] = iter_method
MODELS["std::ops::RangeInclusive::new"] = lambda I, fn, a, st, fr, b: [(st, Agg(ret_ty(I, fr, b), (a[0], a[1], I.kbool(False))))]


@rmodel(r"^std::ops::(RangeBounds|Range|RangeInclusive|RangeFrom|RangeTo)::contains$|^<std::ops::Range\w* as std::ops::RangeBounds>::contains$")
def m_range_contains(I, fn, a, st, fr, b):
    v, x = pointed(I, a[0], st), strip(I, a[1], st)
    n = I.adt_name(v.ty) if isinstance(v, Agg) else None
    if n not in RANGES or not isinstance(x, (K, S, O)):
        return [(st, Top(I.T_bool, leaves(v) | leaves(x)))]
    ty = x.ty
    conds = [I.mkcmp("Le", v.fs[0], x, ty)]
    if n != "std::ops::RangeFrom":
        conds.append(I.mkcmp("Lt" if n == "std::ops::Range" else "Le", x, v.fs[1], ty))
    out = [(st, True)]
    for c in conds:
        out = [(s2, yes and y2) for s, yes in out for s2, y2 in (may_split(I, s, c) if yes else [(s, False)])]
    return [(s, I.kbool(yes)) for s, yes in out]



@rmodel(r"IntoIterator>?::into_iter$|^std::array::into_iter$|^core::slice::iter::into_iter$|std::array::iter::into_iter$")
def m_into_iter(I, fn, a, st, fr, b):
    v = to_iter(I, a[0], st, fr, b)
    if isinstance(v, It) or isinstance(v, Agg) and I.adt_name(v.ty) in RANGES:
        return [(st, v)]
    if isinstance(v, (S, O)) and fn.short == "<I as std::iter::IntoIterator>::into_iter":
        return [(st, v)]
    return None


@model("core::slice::iter", "core::slice::iter_mut", "std::collections::VecDeque::iter", "std::collections::VecDeque::iter_mut")
def m_iter(I, fn, a, st, fr, b):
    return [(st, seq_iter(I, a[0], st))]


@model("core::slice::windows")
def m_windows(I, fn, a, st, fr, b):
    ts = tgt(I, a[0], st)
    ln = I.place_len(ts[0][0], ts[0][1], st) if len(ts) == 1 else None
    n = ln.v if isinstance(ln, K) and ln.v <= UNROLL else None
    return [(st, It("windows", a[0], 0, n, a[1]))]


@model("core::slice::chunks", "core::slice::chunks_exact", "core::slice::chunks_mut", "core::slice::chunks_exact_mut")
def m_chunks(I, fn, a, st, fr, b):
    ts = tgt(I, a[0], st)
    ln = I.place_len(ts[0][0], ts[0][1], st) if len(ts) == 1 else None
    n = None
    if isinstance(ln, K) and isinstance(a[1], K) and a[1].v > 0:
        n = ln.v // a[1].v if "exact" in fn.short else -(-ln.v // a[1].v)
    return [(st, It("chunks", a[0], 0, n if n is not None and n <= UNROLL else None, a[1]))]


@model("std::iter::from_fn")
def m_from_fn(I, fn, a, st, fr, b):
    return [(st, It("from_fn", None, None, None, a[0]))]


@model("std::iter::repeat")
def m_repeat(I, fn, a, st, fr, b):
    return [(st, It("seq", SeqA(a[0], Top(I.T_usize, EMPTY)), None, None, None))]


@model("std::iter::zip")
def m_zip(I, fn, a, st, fr, b):
    return [(st, It("zip", to_iter(I, a[0], st, fr, b), None, None, to_iter(I, a[1], st, fr, b)))]


# ------------------------------------------------------------------------------------ sequences
@rmodel(r"^<std::vec::Vec as std::ops::Deref(Mut)?>::|^std::vec::Vec::(as_slice|as_mut_slice|as_ptr|as_mut_ptr)$|^core::slice::(as_ptr|as_mut_ptr)$|"
        r"^<std::vec::Vec as std::convert::As(Ref|Mut)>::|^<std::vec::Vec as std::borrow::Borrow>::borrow|^core::array::as_slice|^std::array::as_slice|^<\[T\] as std::convert::AsRef|"
        r"^std::ptr::(const_ptr|mut_ptr)::cast$|^<std::boxed::Box as std::(convert::As(Ref|Mut)|borrow::Borrow(Mut)?)>::|^std::vec::Vec::into_boxed_slice$|^core::slice::into_vec$|^std::hint::(must_use|black_box)$")
def m_ident(I, fn, a, st, fr, b):
    return [(st, a[0])]


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "<std::vec::Vec as std::default::Default>::default",
       "std::collections::VecDeque::new", "<std::collections::VecDeque as std::default::Default>::default",
       "std::collections::VecDeque::with_capacity")
def m_vec_new(I, fn, a, st, fr, b):
    return [(st, SeqX(()))]


ALLOC = 1 << 28                 # elements: no list the program makes may be asked to be longer


def room(I, n, st, fr, b):
    check(I, "alloc", I.mkcmp("Le", n, I.kint(ALLOC), I.T_usize), st, fr, b, "a list of %s elements" % show(n, 6))


@model("std::vec::from_elem")
def m_from_elem(I, fn, a, st, fr, b):
    room(I, a[1], st, fr, b)
    n = a[1]
    if isinstance(n, K) and n.v <= I.exact:
        return [(st, SeqX((a[0],) * n.v))]
    return [(st, SeqA(a[0], n))]


@model("std::boxed::Box::new_uninit")
def m_box_uninit(I, fn, a, st, fr, b):
    return [(st, BoxV(UNDEF, None))]


@model("std::boxed::Box::new", "std::boxed::Box::pin")
def m_box_new(I, fn, a, st, fr, b):
    return [(st, BoxV(a[0], None))]


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init")
def m_box_vec(I, fn, a, st, fr, b):
    v = a[0]
    if fn.short.endswith("assume_init"):
        return [(st, v)]
    return [(st, I.proj(v, ("b",), st) if not isinstance(v, (SeqX, SeqA)) else v)]


@model("std::slice::to_vec", "core::slice::to_vec", "std::slice::to_owned", "core::slice::to_owned")
def m_to_vec(I, fn, a, st, fr, b):
    return [(st, pointed(I, a[0], st))]


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::from_raw_parts")
def m_from_raw(I, fn, a, st, fr, b):
    v, n = a[0], a[1]
    ts = tgt(I, v, st)
    r, p = ts[0]
    ln = I.place_len(r, p, st)
    if ln is n or I.known(I.mkcmp("Eq", ln, n, I.T_usize), st) == 1 or isinstance(v, S):
        return [(st, v)]
    return [(st, I.mkref(r, I.subslice(p, I.kint(0), n, st)))]


@rmodel(r"^std::(vec::Vec|collections::VecDeque)::len$|^core::slice::len$|^std::string::String::len$|^core::str::len$|^std::array::len$")
def m_len(I, fn, a, st, fr, b):
    if "str" in fn.short.lower():
        v = strip(I, a[0], st)
        if isinstance(v, K):
            return [(st, I.kint(len(v.v.encode())))]
        return [(st, I.mk("len", (v,), I.T_usize))]
    ls = [I.place_len(r, p, st) for r, p in tgt(I, a[0], st)]
    return [(st, I.joins(ls, (fr.uid, b, ("tmp", fr.fid, "len"), ())))]


@rmodel(r"^std::(vec::Vec|collections::VecDeque)::is_empty$|^core::slice::is_empty$|^std::string::String::is_empty$|^core::str::is_empty$")
def m_is_empty(I, fn, a, st, fr, b):
    out = m_len(I, type("X", (), {"short": fn.short.replace("is_empty", "len")}), a, st, fr, b)
    return [(s, I.mkcmp("Eq", v, I.kint(0), I.T_usize)) for s, v in out]


def seq_norm(I, v, st):
    """vec terms grown too large become summaries"""
    if isinstance(v, O) and size(v) > 24:
        return SeqA(I.elem(v, None, st), I.seq_len(v, st))
    return v


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def m_push(I, fn, a, st, fr, b):
    st = st.copy()
    ts = tgt(I, a[0], st)
    for r, p in ts:
        v = I.load(r, p, st)
        I.store(r, p, push(I, v, a[1], st, fr, b), st, len(ts) > 1)
    return [(st, unit(I))]


def push(I, v, x, st, fr, b):
    if isinstance(v, SeqX):
        if len(v.es) < 12:
            return SeqX(v.es + (x,))
        return SeqA(I.joins(list(v.es) + [x], (fr.uid, "push%s" % b, ("x", 0), ())), I.kint(len(v.es) + 1))
    if isinstance(v, SeqA):
        return SeqA(I.join(v.e, x, (fr.uid, "push%s" % b, ("x", 0), ())), I.binop("Add", v.n, I.kint(1), I.T_usize, st))
    if isinstance(v, (S, O)):
        return seq_norm(I, O("vec.push", (v, x), v.ty), st)
    return Top(getattr(v, "ty", None), leaves(v) | leaves(x))


@model("std::collections::VecDeque::push_front")
def m_push_front(I, fn, a, st, fr, b):
    return m_insert(I, fn, [a[0], I.kint(0), a[1]], st, fr, b)


@model("std::vec::Vec::insert")
def m_insert(I, fn, a, st, fr, b):
    st = st.copy()
    out_ok = True
    for r, p in tgt(I, a[0], st):
        v = I.load(r, p, st)
        n = I.place_len(r, p, st)
        out_ok = check(I, "bounds", I.mkcmp("Le", a[1], n, I.T_usize), st, fr, b, "insert at %s, length %s" % (show(a[1], 5), show(n, 5))) and out_ok
        x = a[2]
        if isinstance(v, SeqX) and isinstance(a[1], K) and a[1].v <= len(v.es):
            nv = SeqX(v.es[:a[1].v] + (x,) + v.es[a[1].v:])
        elif isinstance(v, (SeqX, SeqA)):
            nv = SeqA(I.join(I.elem(v, None, st), x, (fr.uid, "ins%s" % b, ("x", 0), ())), I.binop("Add", n, I.kint(1), I.T_usize, st))
        elif isinstance(v, (S, O)):
            nv = seq_norm(I, O("vec.insert", (v, a[1], x), v.ty), st)
        else:
            nv = Top(getattr(v, "ty", None), leaves(v) | leaves(x))
        I.store(r, p, nv, st)
    return [(st, unit(I))] if out_ok else []


def takes(I, fr, r, p):
    """the function takes from this list: its loops are followed by how much is left"""
    if r[0] != "l":
        l = I.worklists.setdefault(fr.fid, [])
        if (r, p) not in l:
            l.append((r, p))


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def m_remove(I, fn, a, st, fr, b):
    st = st.copy()
    ts = tgt(I, a[0], st)
    r, p = ts[0]
    takes(I, fr, r, p)
    v = I.load(r, p, st)
    n = I.place_len(r, p, st)
    if not check(I, "bounds", I.mkcmp("Lt", a[1], n, I.T_usize), st, fr, b, "remove at %s, length %s" % (show(a[1], 5), show(n, 5))):
        return []
    x = I.elem(v, a[1], st)
    if isinstance(v, SeqX) and isinstance(a[1], K) and fn.short.endswith("swap_remove"):
        es = list(v.es)
        es[a[1].v] = es[-1]
        nv = SeqX(tuple(es[:-1]))
    elif isinstance(v, SeqX) and isinstance(a[1], K):
        nv = SeqX(v.es[:a[1].v] + v.es[a[1].v + 1:])
    elif isinstance(v, (SeqX, SeqA)):
        nv = SeqA(I.elem(v, None, st), I.binop("Sub", n, I.kint(1), I.T_usize, st))
    elif isinstance(v, (S, O)):
        nv = seq_norm(I, O("vec.remove", (v, a[1]), v.ty), st)
    else:
        nv = v
    I.store(r, p, nv, st)
    return [(st, x)]


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back", "std::collections::VecDeque::pop_front")
def m_pop(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    ts = tgt(I, a[0], st)
    r, p = ts[0]
    takes(I, fr, r, p)
    v = I.load(r, p, st)
    n = I.place_len(r, p, st)
    out = []
    front = fn.short.endswith("front")
    for s, empty in may_split(I, st, I.mkcmp("Eq", n, I.kint(0), I.T_usize)):
        s = s.copy()
        if empty:
            out.append((s, option(I, ty, None)))
            continue
        if isinstance(v, SeqX):
            x = v.es[0] if front else v.es[-1]
            nv = SeqX(v.es[1:] if front else v.es[:-1])
        elif isinstance(v, SeqA):
            x, nv = v.e, SeqA(v.e, I.binop("Sub", v.n, I.kint(1), I.T_usize, s))
        elif isinstance(v, (S, O)):
            x = I.elem(v, I.kint(0) if front else I.binop("Sub", n, I.kint(1), I.T_usize, s), s)
            nv = seq_norm(I, O("vec.pop", (v,), v.ty), s)
        else:
            x, nv = Top(None, leaves(v)), v
        I.store(r, p, nv, s)
        out.append((s, option(I, ty, x)))
    return out


@model("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def m_clear(I, fn, a, st, fr, b):
    st = st.copy()
    setp(I, a[0], SeqX(()), st)
    return [(st, unit(I))]


@model("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::mem::drop", "core::mem::drop", "std::mem::forget", "std::vec::Vec::reserve_exact")
def m_noop(I, fn, a, st, fr, b):
    return [(st, unit(I))]


@rmodel(r"^<std::vec::Vec as std::iter::Extend>::extend$|^std::vec::Vec::(extend_from_slice|append)$|^<std::collections::VecDeque as std::iter::Extend>::extend$")
def m_extend(I, fn, a, st, fr, b):
    src = a[1]
    if fn.short.endswith("append"):
        src = pointed(I, a[1], st)
    if fn.short.endswith("extend_from_slice"):
        ts = tgt(I, a[0], st)
        more = pointed(I, src, st) if isinstance(src, Ref) else None
        if isinstance(more, SeqX) and len(ts) == 1 and isinstance(I.load(ts[0][0], ts[0][1], st), SeqX):
            st = st.copy()
            I.store(ts[0][0], ts[0][1], SeqX(I.load(ts[0][0], ts[0][1], st).es + more.es), st)
            return [(st, unit(I))]
    it = to_iter(I, src, st, fr, b)
    clone = fn.short.endswith("extend_from_slice") or "&" in fn.name.split("Extend<")[1][:2] if "Extend<" in fn.name else fn.short.endswith("extend_from_slice")

    def body(s, x, acc):
        s = s.copy()
        if clone:
            x = pointed(I, x, s) if isinstance(x, (Ref, Refs)) else x
        for r, p in tgt(I, a[0], s):
            I.store(r, p, push(I, I.load(r, p, s), x, s, fr, b), s)
        return [(s, "c", acc)]
    fin, _ = drive(I, it, st, fr, b, body, unit(I), "ext")
    out = []
    for s, _ in fin:
        if fn.short.endswith("append"):
            setp(I, a[1], SeqX(()), s)
        out.append((s, unit(I)))
    return out


@model("std::vec::Vec::truncate", "std::vec::Vec::resize")
def m_trunc(I, fn, a, st, fr, b):
    st = st.copy()
    for r, p in tgt(I, a[0], st):
        v = I.load(r, p, st)
        e = I.elem(v, None, st) if not (isinstance(v, SeqX) and not v.es) else UNDEF
        if isinstance(v, SeqX) and isinstance(a[1], K) and a[1].v <= 64:
            nv = SeqX(v.es[:a[1].v] + ((a[2],) * (a[1].v - len(v.es)) if fn.short.endswith("resize") else ()))
        elif fn.short.endswith("resize"):
            nv = SeqA(I.join(e, a[2], (fr.uid, "rs%s" % b, ("x", 0), ())), a[1])
        else:
            nv = SeqA(e, I.mk("min", (I.seq_len(v, st), a[1]), I.T_usize))
        I.store(r, p, nv, st)
    return [(st, unit(I))]


def drained(I, rng, n):
    """constant bounds of a range handed to drain, or None"""
    nm = I.adt_name(rng.ty) if isinstance(rng, Agg) else None
    if nm == "std::ops::RangeFull":
        return 0, n
    if nm == "std::ops::RangeTo" and isinstance(rng.fs[0], K):
        return 0, rng.fs[0].v
    if nm == "std::ops::RangeFrom" and isinstance(rng.fs[0], K):
        return rng.fs[0].v, n
    if nm == "std::ops::Range" and isinstance(rng.fs[0], K) and isinstance(rng.fs[1], K):
        return rng.fs[0].v, rng.fs[1].v
    return None


@model("std::vec::Vec::drain", "std::collections::VecDeque::drain")
def m_drain(I, fn, a, st, fr, b):
    st = st.copy()
    ts = tgt(I, a[0], st)
    if len(ts) != 1:
        return None
    r, p = ts[0]
    v = I.load(r, p, st)
    if isinstance(v, SeqX):
        d = drained(I, a[1], len(v.es))
        if d is not None:
            lo, hi = d
            if not check(I, "bounds", I.kbool(lo <= hi <= len(v.es)), st, fr, b, "drain %d..%d, length %d" % (lo, hi, len(v.es))):
                return []
            I.store(r, p, SeqX(v.es[:lo] + v.es[hi:]), st)
            return [(st, to_iter(I, SeqX(v.es[lo:hi]), st, fr, b))]
    full = isinstance(a[1], Agg) and I.adt_name(a[1].ty) == "std::ops::RangeFull"
    if not full:
        check(I, "bounds", Top(I.T_bool, frozenset()), st, fr, b, "drain %s, length %s" % (show(a[1], 5), show(I.place_len(r, p, st), 5)))
    e = I.elem(v, None, st)
    n = I.place_len(r, p, st)
    if full:
        I.store(r, p, SeqX(()), st)
        return [(st, It("seq", v if isinstance(v, (S, O, SeqA)) else SeqA(e, n), None, None, None))]
    s = I.mkphi((fr.uid, "drain%s" % b, r, p + (("len",),)), I.T_usize, (n, I.kint(0)))
    I.phi_bounds(s, (0, 0), I.interval(n, st), False)
    I.store(r, p, SeqA(e, s), st)
    return [(st, It("seq", SeqA(e, s), None, None, None))]


@model("std::vec::Vec::retain", "std::vec::Vec::dedup", "std::vec::Vec::retain_mut")
def m_retain(I, fn, a, st, fr, b):
    st = st.copy()
    ts = tgt(I, a[0], st)
    if fn.short.endswith("retain") and len(ts) == 1:
        r, p = ts[0]
        v = I.load(r, p, st)
        if isinstance(v, SeqX) and len(v.es) <= 12:
            cur = [(st, a[1], ())]
            for j, e in enumerate(v.es):
                nxt_ = []
                for s, f, kept in cur:
                    for s2, x, f2 in call_closure(I, f, [Ref(r, p + (("e", I.kint(j)),), None)], s, fr, b, "rt%d" % j):
                        for s3, yes in may_split(I, s2, x):
                            nxt_.append((s3, f2, kept + ((e,) if yes else ())))
                cur = nxt_
                if len(cur) > 8:
                    break
            else:
                out = []
                for s, f, kept in cur:
                    s = s.copy()
                    I.store(r, p, SeqX(kept), s)
                    out.append((s, unit(I)))
                return out
    for r, p in tgt(I, a[0], st):
        v = I.load(r, p, st)
        if isinstance(v, SeqX) and not v.es:
            continue
        s = I.mkphi((fr.uid, "retain%s" % b, r, p + (("len",),)), I.T_usize, (I.seq_len(v, st), I.kint(0)))
        I.phi_bounds(s, (0, 0), I.interval(I.seq_len(v, st), st), False)
        I.store(r, p, SeqA(I.elem(v, None, st), s), st)
    return [(st, unit(I))]


@rmodel(r"^<std::vec::Vec as std::ops::Index(Mut)?>::index(_mut)?$|^core::slice::index::index(_mut)?$|^std::array::index(_mut)?$|^<std::collections::VecDeque as std::ops::Index(Mut)?>")
def m_index(I, fn, a, st, fr, b):
    v, ix = a[0], a[1]
    st = st.copy()
    if isinstance(ix, (K, S, O, Top)) and (I.is_int(ix.ty) or ix.ty is None):
        ts = tgt(I, v, st)
        for r, p in ts:
            n = I.place_len(r, p, st)
            if not check(I, "bounds", I.mkcmp("Lt", ix, n, I.T_usize), st, fr, b, "index %s, length %s" % (show(ix, 5), show(n, 5))):
                return []
        return [(st, elem_ref(I, v, ix, st))]
    n = I.adt_name(ix.ty) if isinstance(ix, Agg) else None
    if n is None:
        return None
    out = []
    for r, p in tgt(I, v, st):
        ln = I.place_len(r, p, st)
        lo, hi = I.kint(0), ln
        if n == "std::ops::RangeFull":
            return [(st, v)]
        if n in ("std::ops::Range", "std::ops::RangeFrom"):
            lo = ix.fs[0]
        if n == "std::ops::Range":
            hi = ix.fs[1]
        if n in ("std::ops::RangeTo", "std::ops::RangeToInclusive"):
            hi = ix.fs[0]
        if n == "std::ops::RangeInclusive":
            lo, hi = ix.fs[0], ix.fs[1]
        if n in ("std::ops::RangeInclusive", "std::ops::RangeToInclusive"):
            hi = I.binop("Add", hi, I.kint(1), I.T_usize, st)
        if not check(I, "bounds", I.mkcmp("Le", hi, ln, I.T_usize), st, fr, b, "slice end %s, length %s" % (show(hi, 5), show(ln, 5))):
            return []
        if not check(I, "bounds", I.mkcmp("Le", lo, hi, I.T_usize), st, fr, b, "slice start %s, end %s" % (show(lo, 5), show(hi, 5))):
            return []
        out.append(I.mkref(r, I.subslice(p, lo, hi, st)))
    return [(st, out[0] if len(out) == 1 else Refs(frozenset(out)))]


@rmodel(r"^core::slice::(get|get_mut)$|^std::collections::VecDeque::(get|get_mut)$")
def m_get(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    v, ix = a[0], a[1]
    if not (isinstance(ix, (K, S, O, Top)) and I.is_int(ix.ty)):
        return None
    ts = tgt(I, v, st)
    n = I.joins([I.place_len(r, p, st) for r, p in ts], (fr.uid, b, ("tmp", fr.fid, "glen"), ()))
    out = []
    for s, yes in may_split(I, st, I.mkcmp("Lt", ix, n, I.T_usize)):
        out.append((s, option(I, ty, elem_ref(I, v, ix, s) if yes else None)))
    return out


@model("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def m_getu(I, fn, a, st, fr, b):
    return [(st, elem_ref(I, a[0], a[1], st))]


@rmodel(r"^core::slice::(first|last|first_mut|last_mut)$|^std::collections::VecDeque::(front|back)(_mut)?$")
def m_first(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    v = a[0]
    ts = tgt(I, v, st)
    n = I.joins([I.place_len(r, p, st) for r, p in ts], (fr.uid, b, ("tmp", fr.fid, "flen"), ()))
    out = []
    ways = may_split(I, st, I.mkcmp("Eq", n, I.kint(0), I.T_usize))
    for s, empty in ways:
        if empty:
            if len(ways) == 2 and isinstance(b, int) and fr.fn.blocks[b][1][0] == "call":
                s.mem[("tmp", fr.fid, "none%s" % fr.fn.blocks[b][1][5][0])] = n
            out.append((s, option(I, ty, None)))
        else:
            first = "first" in fn.short or "front" in fn.short
            ix = I.kint(0) if first else I.binop("Sub", n, I.kint(1), I.T_usize, s)
            if not first and isinstance(ix, Top):
                ix = None
            out.append((s, option(I, ty, elem_ref(I, v, ix, s))))
    return out


@rmodel(r"^core::slice::split_at(_mut)?$")
def m_split_at(I, fn, a, st, fr, b):
    st = st.copy()
    r, p = tgt(I, a[0], st)[0]
    n = I.place_len(r, p, st)
    if not check(I, "bounds", I.mkcmp("Le", a[1], n, I.T_usize), st, fr, b, "split at %s, length %s" % (show(a[1], 5), show(n, 5))):
        return []
    return [(st, Agg(ret_ty(I, fr, b), (I.mkref(r, I.subslice(p, I.kint(0), a[1], st)), I.mkref(r, I.subslice(p, a[1], n, st)))))]


@rmodel(r"^core::slice::split_(first|last)(_mut)?$")
def m_split_first(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    r, p = tgt(I, a[0], st)[0]
    n = I.place_len(r, p, st)
    out = []
    for s, empty in may_split(I, st, I.mkcmp("Eq", n, I.kint(0), I.T_usize)):
        if empty:
            out.append((s, option(I, ty, None)))
        else:
            m = I.binop("Sub", n, I.kint(1), I.T_usize, s)
            if "first" in fn.short:
                v = (elem_ref(I, a[0], I.kint(0), s), I.mkref(r, I.subslice(p, I.kint(1), n, s)))
            else:
                v = (elem_ref(I, a[0], m, s), I.mkref(r, I.subslice(p, I.kint(0), m, s)))
            out.append((s, option(I, ty, Agg(None, v))))
    return out


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copy_from(I, fn, a, st, fr, b):
    st = st.copy()
    src = I.joins([I.load(r, p, st) for r, p in tgt(I, a[1], st)], (fr.uid, b, ("tmp", fr.fid, "cfs"), ()))
    ts = tgt(I, a[0], st)
    for r, p in ts:
        n = I.place_len(r, p, st)
        m = I.seq_len(src, st)
        if not check(I, "copylen", I.mkcmp("Eq", n, m, I.T_usize), st, fr, b, "copy of %s items into %s" % (show(m, 4), show(n, 4))):
            return []
        I.store(r, p, src, st, len(ts) > 1)
    return [(st, unit(I))]


@model("core::slice::fill")
def m_fill(I, fn, a, st, fr, b):
    st = st.copy()
    for r, p in tgt(I, a[0], st):
        v = I.load(r, p, st)
        I.store(r, p, SeqX((a[1],) * len(v.es)) if isinstance(v, SeqX) else SeqA(a[1], I.seq_len(v, st)), st)
    return [(st, unit(I))]


@model("core::slice::swap")
def m_swap(I, fn, a, st, fr, b):
    st = st.copy()
    r, p = tgt(I, a[0], st)[0]
    x, y = I.load(r, p + (("e", a[1]),), st), I.load(r, p + (("e", a[2]),), st)
    I.store(r, p + (("e", a[1]),), y, st)
    I.store(r, p + (("e", a[2]),), x, st)
    return [(st, unit(I))]


@model("core::slice::contains")
def m_contains(I, fn, a, st, fr, b):
    v = pointed(I, a[0], st)
    x = strip(I, a[1], st)
    if isinstance(v, SeqX):
        es = [strip(I, e, st) for e in v.es]
        if any(e is x and not isinstance(e, Top) for e in es):
            return [(st, I.kbool(True))]
        if all(isinstance(e, K) and isinstance(x, K) for e in es):
            return [(st, I.kbool(any(e.v == x.v for e in es)))]
        if all(not I.may_eq(e, x, st) for e in es):
            return [(st, I.kbool(False))]
        r = I.kbool(False)
        for e in es:
            r = I.binop("BitOr", r, eqv(I, e, x, st), I.T_bool, st)
        return [(st, r)]
    return [(st, I.mk("contains", (v if isinstance(v, (S, O)) else Top(None, leaves(v)), x), I.T_bool))]


@model("std::array::map")
def m_array_map(I, fn, a, st, fr, b):
    it = to_iter(I, a[0], st, fr, b)
    if not isinstance(it, It):
        return None
    fin, _ = drive(I, It("map1", it, None, None, a[1]), st, fr, b, lambda s, x, acc: [(s, "c", grow(I, acc, x, s))], SeqX(()))
    return [(s, finish(I, v, it, s, st)) for s, v in fin]


def exact_items(v, n, limit=16):
    """the items of a short sequence that is known item by item"""
    if isinstance(v, SeqX):
        return list(v.es)
    if isinstance(v, SeqA) and isinstance(v.e, K) and isinstance(n, K) and 0 <= n.v <= limit:
        return [v.e] * n.v
    return None


@rmodel(r"^dasp_slice::(\w+::)*add_in_place$")
def m_add_in_place(I, fn, a, st, fr, b):
    st = st.copy()
    src = I.joins([I.load(r, p, st) for r, p in tgt(I, a[1], st)], (fr.uid, b, ("tmp", fr.fid, "aip"), ()))
    for r, p in tgt(I, a[0], st):
        v = I.load(r, p, st)
        n, m = I.place_len(r, p, st), I.seq_len(src, st)
        if not check(I, "copylen", I.mkcmp("Eq", n, m, I.T_usize), st, fr, b, "adding %s items to %s" % (show(m, 4), show(n, 4))):
            return []
        xs, ys = exact_items(v, n), exact_items(src, m)
        if xs is not None and ys is not None:
            I.store(r, p, SeqX(tuple(I.binop("Add", x, y, I.T_f32, st) for x, y in zip(xs, ys))), st)
            continue
        x, y = I.elem(v, None, st), I.elem(src, None, st)
        z = I.binop("Add", x, y, I.T_f32, st)
        I.store(r, p, SeqA(z, n), st)
    return [(st, unit(I))]


@rmodel(r"^dasp_slice::(\w+::)*equilibrium$")
def m_equil(I, fn, a, st, fr, b):
    st = st.copy()
    for r, p in tgt(I, a[0], st):
        I.store(r, p, SeqA(kfloat(0.0, I.T_f32), I.place_len(r, p, st)), st)
    return [(st, unit(I))]


# ------------------------------------------------------------------------------------------ clone, eq
@rmodel(r"std::clone::Clone>?::clone$|^std::clone::impls::clone$|^std::array::clone$|^<T as std::borrow::ToOwned>::to_owned$|^std::str::to_owned$|"
        r"^std::string::String::(as_str|as_mut_str|into_boxed_str|as_bytes|into_bytes)$|^<std::string::String as std::(ops::Deref|convert::(From|AsRef)|borrow::Borrow)(Mut)?>::|"
        r"^core::str::(as_bytes|to_string|trim|as_ptr)$|^std::boxed::Box::leak$|^std::str::from_utf8_unchecked$|^core::str::converts::from_utf8_unchecked$")
def m_clone(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    v = a[0]
    t = I.P.tys.get(ty)
    if t is not None and t.k == "ref":
        p = I.P.tys[t.d["to"]]
        if p.k in ("str", "slice") and "str" in fn.short.lower():
            return [(st, strip(I, v, st))]
        return [(st, v)]
    pv = pointed(I, v, st) if isinstance(v, (Ref, Refs)) or I.pointee(getattr(v, "ty", None)) is not None and not isinstance(v, K) else v
    if "str" in fn.short.lower() and "Clone" not in fn.short or I.adt_name(ty) == "std::string::String":
        pv = strip(I, pv, st)
    return [(st, pv)]


@rmodel(r"Clone>::clone_from$")
def m_clone_from(I, fn, a, st, fr, b):
    st = st.copy()
    setp(I, a[0], pointed(I, a[1], st), st)
    return [(st, unit(I))]


def eqv(I, a, b, st, d=0):
    """equality term of two values (references stripped)"""
    a, b = strip(I, a, st), strip(I, b, st)
    if a is b and not isinstance(a, Top):
        ty = getattr(a, "ty", None)
        if not I.is_float(ty) if ty is not None else True:
            return I.kbool(True)
    if isinstance(a, En) and isinstance(b, En) and len(a.alts) == 1 and len(b.alts) == 1 and d < 5:
        if a.alts[0][0] != b.alts[0][0]:
            return I.kbool(False)
        r = I.kbool(True)
        for x, y in zip(a.alts[0][1], b.alts[0][1]):
            r = I.binop("BitAnd", r, eqv(I, x, y, st, d + 1), I.T_bool, st)
        return r
    if isinstance(a, En) and isinstance(b, En) and not {k for k, _ in a.alts} & {k for k, _ in b.alts}:
        return I.kbool(False)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs) and d < 5:
        r = I.kbool(True)
        for x, y in zip(a.fs, b.fs):
            r = I.binop("BitAnd", r, eqv(I, x, y, st, d + 1), I.T_bool, st)
        return r
    if isinstance(a, SeqX) and isinstance(b, SeqX):
        if len(a.es) != len(b.es):
            return I.kbool(False)
        r = I.kbool(True)
        for x, y in zip(a.es, b.es):
            r = I.binop("BitAnd", r, eqv(I, x, y, st, d + 1), I.T_bool, st)
        return r
    if isinstance(a, (K, S, O, Top)) and isinstance(b, (K, S, O, Top)):
        return I.mkcmp("Eq", a, b, getattr(a, "ty", None))
    return Top(I.T_bool, leaves(a) | leaves(b))


@rmodel(r"std::cmp::PartialEq>?::(eq|ne)$|^std::cmp::impls::(eq|ne)$|^std::vec::partial_eq::(eq|ne)$|^core::slice::cmp::(eq|ne)$|^std::string::(eq|ne)$|^core::str::traits::eq$|^std::array::equality::(eq|ne)$")
def m_eq(I, fn, a, st, fr, b):
    if fn.crate in I.inline_crates:
        return None
    return [(s, r if fn.short.endswith("eq") else I.mknot(r)) for s, r in eq_all(I, a[0], a[1], st, fr, b)]


def own_eq(I, ty):
    """the workspace's own equality of a type, if it has one"""
    d = I.P.__dict__.get("own_eqs")
    if d is None:
        d = I.P.own_eqs = {}
        for f in I.P.fns.values():
            if f.crate in I.inline_crates and f.has_body and re.search(r"std::cmp::PartialEq>?::eq$", f.short):
                d[I.P.tys[f.locals[1]].d["to"]] = f
    return d.get(ty)


def eq_all(I, x, y, st, fr, b, d=0):
    """equality of two values as the program defines it: [(state, truth)]"""
    x, y = strip(I, x, st), strip(I, y, st)
    ty = getattr(x, "ty", None)
    f = own_eq(I, ty) if ty is not None and d < 12 else None
    if f is not None:
        st = st.copy()
        rs = [("tmp", fr.fid, "eq%s:%s:%d" % (n, b, d)) for n in "ab"]
        st.mem[rs[0]], st.mem[rs[1]] = x, y
        out = []
        for s, v in I.call(f, None, [Ref(rs[0], (), None), Ref(rs[1], (), None)], st, fr, b):
            for r in rs:
                s.mem.pop(r, None)
            out.append((s, v))
        return out
    if isinstance(x, SeqX) and isinstance(y, SeqX) and len(x.es) == len(y.es) and d < 12:
        return eq_pairs(I, zip(x.es, y.es), st, fr, b, d)
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.fs) == len(y.fs) and d < 12:
        return eq_pairs(I, zip(x.fs, y.fs), st, fr, b, d)
    if isinstance(x, En) and isinstance(y, En) and len(x.alts) == 1 and len(y.alts) == 1 and d < 12:
        if x.alts[0][0] != y.alts[0][0]:
            return [(st, I.kbool(False))]
        return eq_pairs(I, zip(x.alts[0][1], y.alts[0][1]), st, fr, b, d)
    return [(st, eqv(I, x, y, st))]


def eq_pairs(I, pairs, st, fr, b, d):
    cur = [(st, I.kbool(True))]
    for x, y in pairs:
        out = []
        for s, v in cur:
            if isinstance(v, K) and not v.v:
                out.append((s, v))
                continue
            for s2, w in eq_all(I, x, y, s, fr, b, d + 1):
                out.append((s2, I.binop("BitAnd", v, w, I.T_bool, s2)))
        cur = out
    return cur


@rmodel(r"std::cmp::impls::(partial_cmp|cmp|lt|le|gt|ge)$")
def m_cmp(I, fn, a, st, fr, b):
    x, y = strip(I, a[0], st), strip(I, a[1], st)
    m = fn.short.rsplit("::", 1)[1]
    ty = getattr(x, "ty", None)
    if m in ("lt", "le", "gt", "ge"):
        return [(st, I.mkcmp({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], x, y, ty))]
    rt = ret_ty(I, fr, b)
    out = []
    oty = rt
    if m == "partial_cmp" and rt is not None:
        oty = I.P.tys[rt].d["args"][0]
    names = {v[0]: i for i, v in enumerate(I.variants(oty))} if oty is not None else {"Less": 0, "Equal": 1, "Greater": 2}

    def wrapv(n):
        e = En(oty, ((names[n], ()),))
        return e if m == "cmp" else option(I, rt, e)
    for s, lt in may_split(I, st, I.mkcmp("Lt", x, y, ty)):
        if lt:
            out.append((s, wrapv("Less")))
            continue
        for s2, eq in may_split(I, s, I.mkcmp("Eq", x, y, ty)):
            if eq:
                out.append((s2, wrapv("Equal")))
                continue
            if I.is_float(ty):
                for s3, gt in may_split(I, s2, I.mkcmp("Lt", y, x, ty)):
                    if gt:
                        out.append((s3, wrapv("Greater")))
                    elif m == "partial_cmp":
                        out.append((s3, option(I, rt, None)))
            else:
                out.append((s2, wrapv("Greater")))
    return out


@rmodel(r"^std::cmp::(Ord::|impls::)?(max|min)$|std::cmp::Ord>?::(max|min)$|^core::f(32|64)::(max|min)$|^std::f(32|64)::(max|min)$")
def m_max(I, fn, a, st, fr, b):
    x, y = a[0], a[1]
    m = fn.short.rsplit("::", 1)[1]
    ty = getattr(x, "ty", None) or getattr(y, "ty", None)
    if isinstance(x, K) and isinstance(y, K):
        return [(st, (x if (x.v >= y.v) == (m == "max") else y))]
    if not (I.is_int(ty) or I.is_float(ty)):
        return None
    return [(st, I.mk(m, (x, y), ty))]


@rmodel(r"std::cmp::Ord>?::clamp$|^core::f(32|64)::clamp$|^std::cmp::Ord::clamp$")
def m_clamp(I, fn, a, st, fr, b):
    ty = getattr(a[0], "ty", None)
    if not (I.is_int(ty) or I.is_float(ty)):
        return None
    return [(st, I.mk("min", (I.mk("max", (a[0], a[1]), ty), a[2]), ty))]


# ------------------------------------------------------------------------------------ options, panics
def empty_list(s, fr, b):
    """the length of the list that may have been empty, when the value unwrapped is its first or last element"""
    t = fr.fn.blocks[b][1] if isinstance(b, int) else None
    if t and t[0] == "call" and t[4] and t[4][0][0] in ("mv", "cp") and not t[4][0][1][1]:
        return s.mem.get(("tmp", fr.fid, "none%s" % t[4][0][1][0]))
    return None


def unwrap_like(variant):
    def f(I, fn, a, st, fr, b):
        st = st.copy()
        kind = "unwrap" if "unwrap" in fn.short else "expect"
        out = []
        bad = False
        v = a[0]
        for s, fs in split_variant(I, v, variant, st):
            if fs is not None:
                out.append((s, fs[0]))
            else:
                bad = True
                d = I.mk("discr", (v,), I.T_isize) if isinstance(v, (S, O)) else v
                n = empty_list(s, fr, b)
                I.obligation(kind, "%s on a value that may be %s" % (kind, "None" if variant == 1 else "Err") if n is None else
                             "%s of the first or last of a list of length %s" % (kind, show(n, 5)),
                             "unknown" if isinstance(v, (S, O, Top)) or n is not None else "failed", s, fr, b, d)
        if not bad:
            I.obligation(kind, kind, "proved", st, fr, b)
        return out
    return f


MODELS["std::option::Option::unwrap"] = MODELS["std::option::Option::expect"] = unwrap_like(1)
MODELS["std::result::Result::unwrap"] = MODELS["std::result::Result::expect"] = unwrap_like(0)


@rmodel(r"^core::panicking::|^std::rt::(panic_fmt|begin_panic|panic_display)|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|"
        r"^std::rt::begin_panic|^core::slice::index::slice_|^core::str::slice_error_fail|^std::process::(exit|abort)|^core::cell::panic_|^std::panicking::")
def m_panic(I, fn, a, st, fr, b):
    I.obligation("panic", fn.short, "failed", st, fr, b)
    return []


# ------------------------------------------------------------------------------------------------ maps
MAPN = r"^(hashbrown|std::collections)::(HashMap|BTreeMap)::"


def same_key(k, key):
    return k is key and not isinstance(k, Top) or isinstance(k, K) and isinstance(key, K) and isinstance(k.v, str) and k.v == key.v


def has(I, m, key, st):
    """does the map value contain the key: 1, 0 or a term"""
    if isinstance(m, MapX):
        r = 0
        for k, _ in m.es:
            if same_key(k, key):
                return I.kbool(True)
            if I.may_eq(k, key, st):
                r = None
        return I.kbool(False) if r == 0 else Top(I.T_bool, leaves(m) | leaves(key))
    if isinstance(m, O) and m.op in ("map.insert", "map.set"):
        if m.args[1] is key:
            return I.kbool(True)
        if not I.may_eq(m.args[1], key, st):
            return has(I, m.args[0], key, st)
        if m.op == "map.set":
            return has(I, m.args[0], key, st)
    if isinstance(m, O) and m.op == "map.remove":
        if m.args[1] is key:
            return I.kbool(False)
        if not I.may_eq(m.args[1], key, st):
            return has(I, m.args[0], key, st)
    if isinstance(m, (S, O)):
        return I.mk("has", (m, key), I.T_bool)
    return Top(I.T_bool, leaves(m) | leaves(key))


@rmodel(MAPN + r"(new|with_capacity|default|with_hasher)$|^<hashbrown::HashMap as std::default::Default>::default$|^std::collections::HashSet::new$|^<std::collections::\w+ as std::default::Default>::default$")
def m_map_new(I, fn, a, st, fr, b):
    return [(st, MapX(()))]


@rmodel(r"^<(hashbrown::HashMap|std::collections::(HashMap|BTreeMap)) as std::convert::From>::from$")
def m_map_from(I, fn, a, st, fr, b):
    if not isinstance(a[0], SeqX):
        return [(st, Top(ret_ty(I, fr, b), leaves(a[0])))]
    m = MapX(())
    for x in a[0].es:
        m = grow(I, m, x, st)
    return [(st, m)]


@rmodel(MAPN + r"(get|get_mut|get_key_value)$")
def m_map_get(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    key = strip(I, a[1], st)
    out = []
    for r, p in tgt(I, a[0], st):
        m = I.load(r, p, st)
        h = has(I, m, key, st)
        for s, yes in may_split(I, st, h):
            out.append((s.copy(), option(I, ty, entry_ref(I, r, p, m, key, s) if yes else None)))
    return merge_outs(I, out, fr, b)


def entry_ref(I, r, p, m, key, st):
    if isinstance(m, MapX):
        c = [i for i, (k, _) in enumerate(m.es) if same_key(k, key)]
        if not c:
            c = [i for i, (k, _) in enumerate(m.es) if I.may_eq(k, key, st)]
        rs = [Ref(r, p + (("m", i),), None) for i in c]
        if rs:
            return rs[0] if len(rs) == 1 else Refs(frozenset(rs))
    return Ref(r, p + (("mv", key),), None)


@rmodel(r"^<hashbrown::HashMap as std::ops::Index>::index$|^<std::collections::(HashMap|BTreeMap) as std::ops::Index>::index$")
def m_map_index(I, fn, a, st, fr, b):
    key = strip(I, a[1], st)
    st = st.copy()
    out = []
    for r, p in tgt(I, a[0], st):
        m = I.load(r, p, st)
        h = has(I, m, key, st)
        if not check(I, "mapindex", h, st, fr, b, "key %s in %s%s" % (show(key, 5), root_s(r), path_s(p))):
            continue
        out.append(entry_ref(I, r, p, m, key, st))
    if not out:
        return []
    return [(st, out[0] if len(out) == 1 else Refs(frozenset(out)))]


@rmodel(MAPN + r"contains_key$|^std::collections::HashSet::contains$")
def m_map_has(I, fn, a, st, fr, b):
    key = strip(I, a[1], st)
    m = pointed(I, a[0], st)
    return [(st, has(I, m, key, st))]


def map_insert(I, m, key, val, st):
    if isinstance(m, MapX):
        for i, (k, _) in enumerate(m.es):
            if same_key(k, key):
                return MapX(m.es[:i] + ((k, val),) + m.es[i + 1:])
        if len(m.es) < 12 and not any(I.may_eq(k, key, st) for k, _ in m.es):
            return MapX(m.es + ((key, val),))
        ks = I.joins([k for k, _ in m.es] + [key], (0, "mi", ("x", id(m)), (("mkey", 0),)))
        vs = I.joins([v for _, v in m.es] + [val], (0, "mi", ("x", id(m)), (("m", 0),)))
        return MapA(ks, vs, Top(I.T_usize, EMPTY))
    if isinstance(m, MapA):
        return MapA(I.join(m.k, key, (0, "mi", ("x", id(m)), (("mkey", 0),))), I.join(m.v, val, (0, "mi", ("x", id(m)), (("m", 0),))), Top(I.T_usize, leaves(m.n)))
    if isinstance(m, (S, O)):
        if size(m) > 20:
            s = S("φmap:%s" % m.ty, m.ty)
            I.phi.setdefault(s, set()).add(Top(m.ty, leaves(m) | leaves(key) | leaves(val)))
            m = s
        return O("map.insert", (m, key, val), m.ty)
    return Top(getattr(m, "ty", None), leaves(m) | leaves(key) | leaves(val))


@rmodel(MAPN + r"insert$|^std::collections::HashSet::insert$")
def m_map_insert(I, fn, a, st, fr, b):
    st = st.copy()
    key = strip(I, a[1], st)
    ty = ret_ty(I, fr, b)
    r, p = tgt(I, a[0], st)[0]
    m = I.load(r, p, st)
    val = a[2] if len(a) > 2 else unit(I)
    h = has(I, m, key, st)
    k = I.known(h, st)
    I.store(r, p, map_insert(I, m, key, val, st), st)
    if len(a) <= 2:
        return [(st, I.mknot(h))]
    if k == 0:
        return [(st, option(I, ty, None))]
    old = I.map_value(m, key, st)
    alts = ((1, (old,)),) if k == 1 else ((0, ()), (1, (old,)))
    return [(st, En(ty, alts))]


@rmodel(MAPN + r"(remove|remove_entry)$")
def m_map_remove(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    key = strip(I, a[1], st)
    r, p = tgt(I, a[0], st)[0]
    m = I.load(r, p, st)
    out = []
    for s, yes in may_split(I, st, has(I, m, key, st)):
        s = s.copy()
        if not yes:
            out.append((s, option(I, ty, None)))
            continue
        old = I.map_value(m, key, s)
        if isinstance(m, MapX):
            nm = MapX(tuple((k, v) for k, v in m.es if not same_key(k, key))) if any(same_key(k, key) for k, _ in m.es) else \
                MapA(Top(None, leaves(m)), Top(None, leaves(m)), Top(I.T_usize, EMPTY))
        elif isinstance(m, (S, O)):
            nm = O("map.remove", (m, key), m.ty) if size(m) < 20 else Top(m.ty, leaves(m))
        else:
            nm = m
        I.store(r, p, nm, s)
        out.append((s, option(I, ty, Agg(None, (key, old)) if fn.short.endswith("_entry") else old)))
    return out


ENTRY = r"^(hashbrown::hash_map|std::collections::(hash_map|btree_map)|hashbrown::map|std::collections::btree::map::entry)::"


@rmodel(MAPN + r"entry$")
def m_map_entry(I, fn, a, st, fr, b):
    """an entry is a reference to the map and the key"""
    ty = ret_ty(I, fr, b)
    key = strip(I, a[1], st)
    r, p = tgt(I, a[0], st)[0]
    out = []
    for s, yes in may_split(I, st, has(I, I.load(r, p, st), key, st)):
        i = next(i for i, v in enumerate(I.variants(ty)) if (v[0] == "Occupied") == bool(yes))
        out.append((s.copy(), En(ty, ((i, (Agg(I.variant_fields(ty, i)[0][1], (Ref(r, p, None), key)),)),))))
    return out


def entry_set(I, e, val, st):
    """the state and reference after the entry's key is given a value"""
    st = st.copy()
    r, key = e.fs
    m = map_insert(I, I.load(r.root, r.path, st), key, val, st)
    I.store(r.root, r.path, m, st)
    return st, entry_ref(I, r.root, r.path, m, key, st)


def default_value(I, ty):
    t = I.P.tys[ty]
    n = I.adt_name(ty)
    if I.map_tys(ty) or n in ("std::collections::HashSet", "hashbrown::HashSet", "std::collections::BTreeSet"):
        return MapX(())
    if n in ("std::vec::Vec", "std::collections::VecDeque"):
        return SeqX(())
    if n == "std::string::String":
        return K("", I.T_str)
    if t.k in ("int", "uint"):
        return K(0, ty)
    if t.k == "float":
        return K(0.0, ty)
    if t.s == "bool":
        return I.kbool(False)
    return None


@rmodel(ENTRY + r"Entry::(or_default|or_insert|or_insert_with|or_insert_with_key|and_modify|insert_entry|key)$")
def m_entry(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    if not isinstance(a[0], En) or not all(len(fs) == 1 and isinstance(fs[0], Agg) and len(fs[0].fs) == 2 for _, fs in a[0].alts):
        return None
    out = []
    for i, (e,) in a[0].alts:
        there = I.variants(a[0].ty)[i][0] == "Occupied"
        r, key = e.fs
        if m == "key":
            out.append((st, key))
        elif m == "and_modify":
            if not there:
                out.append((st, En(a[0].ty, ((i, (e,)),))))
                continue
            ref = entry_ref(I, r.root, r.path, I.load(r.root, r.path, st), key, st)
            out += [(s, En(a[0].ty, ((i, (e,)),))) for s, _, _ in call_closure(I, a[1], [ref], st, fr, b, "modify")]
        elif there:
            out.append((st, entry_ref(I, r.root, r.path, I.load(r.root, r.path, st), key, st)))
        elif m == "or_insert":
            out.append(entry_set(I, e, a[1], st))
        elif m in ("or_insert_with", "or_insert_with_key"):
            out += [entry_set(I, e, v, s) for s, v, _ in call_closure(I, a[1], [] if m == "or_insert_with" else [key], st, fr, b, "entry")]
        elif m == "or_default":
            mt = I.map_tys(getattr(I.load(r.root, r.path, st), "ty", None)) if isinstance(I.load(r.root, r.path, st), (S, O)) else None
            t = I.P.tys[ret_ty(I, fr, b)]
            v = default_value(I, t.d["to"]) if "to" in t.d else default_value(I, mt[1]) if mt else None
            if v is None:
                return None
            out.append(entry_set(I, e, v, st))
        else:
            return None
    return out


@rmodel(ENTRY + r"(Occupied|Vacant)Entry::(get|get_mut|into_mut|insert|remove|key|into_key)$")
def m_entry_kind(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    e = pointed(I, a[0], st)
    if not isinstance(e, Agg) or len(e.fs) != 2 or not isinstance(e.fs[0], Ref):
        return None
    r, key = e.fs
    mp = I.load(r.root, r.path, st)
    if m in ("key", "into_key"):
        return [(st, key)]
    if m in ("get", "get_mut", "into_mut"):
        return [(st, entry_ref(I, r.root, r.path, mp, key, st))]
    if m == "insert" and "Vacant" in fn.short:
        return [entry_set(I, e, a[1], st)]
    old = I.map_value(mp, key, st)
    if m == "insert":
        return [(entry_set(I, e, a[1], st)[0], old)]
    if isinstance(mp, MapX) and any(same_key(k, key) for k, _ in mp.es):
        st = st.copy()
        I.store(r.root, r.path, MapX(tuple((k, v) for k, v in mp.es if not same_key(k, key))), st)
        return [(st, old)]
    return None


@rmodel(MAPN + r"len$")
def m_map_len(I, fn, a, st, fr, b):
    m = pointed(I, a[0], st)
    if isinstance(m, MapX):
        return [(st, I.kint(len(m.es)))]
    if isinstance(m, MapA):
        return [(st, m.n)]
    return [(st, I.mk("len", (m,), I.T_usize) if isinstance(m, (S, O)) else Top(I.T_usize, leaves(m)))]


@rmodel(MAPN + r"is_empty$")
def m_map_empty(I, fn, a, st, fr, b):
    return [(s, I.mkcmp("Eq", v, I.kint(0), I.T_usize)) for s, v in m_map_len(I, fn, a, st, fr, b)]


@rmodel(MAPN + r"clear$")
def m_map_clear(I, fn, a, st, fr, b):
    st = st.copy()
    setp(I, a[0], MapX(()), st)
    return [(st, unit(I))]


@rmodel(MAPN + r"(iter|iter_mut|values|values_mut|keys)$")
def m_map_iter(I, fn, a, st, fr, b):
    mode = {"iter": "kv", "iter_mut": "kv", "values": "v", "values_mut": "v", "keys": "k"}[fn.short.rsplit("::", 1)[1]]
    return [(st, map_iter(I, a[0], st, mode))]


@rmodel(r"^hashbrown::hash_map::|^<hashbrown::hash_map::\w+ as std::iter::Iterator>::next$")
def m_map_next(I, fn, a, st, fr, b):
    if fn.short.endswith("Iterator>::next"):
        return iter_method(I, fn, a, st, fr, b)
    return None


# --------------------------------------------------------------------------------------------- strings
@rmodel(r"^core::str::(contains|starts_with|ends_with|len|is_empty|find|parse|replace|trim\w*|to_lowercase|to_uppercase)$|^std::str::(replace|to_lowercase)$")
def m_str(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    vs = [strip(I, x, st) for x in a]
    ty = ret_ty(I, fr, b)
    if m == "replace" and isinstance(vs[0], K) and isinstance(vs[1], SeqX) and isinstance(vs[2], K):
        cs = [x for x in vs[1].es if isinstance(x, K) and isinstance(x.v, int)]
        if len(cs) == len(vs[1].es) and not any(touches_hole((vs[0], x)) for x in cs):
            t = vs[0].v
            for x in cs:
                t = t.replace(chr(x.v), vs[2].v)
            return [(st, K(t, ty))]
    if all(isinstance(x, K) and isinstance(x.v, (str, int)) for x in vs) and not (m != "parse" and touches_hole(vs)):
        s = [x.v if isinstance(x.v, str) else chr(x.v) for x in vs]
        if m == "contains":
            return [(st, I.kbool(s[1] in s[0]))]
        if m == "starts_with":
            return [(st, I.kbool(s[0].startswith(s[1])))]
        if m == "ends_with":
            return [(st, I.kbool(s[0].endswith(s[1])))]
        if m == "replace":
            return [(st, K(s[0].replace(s[1], s[2]), ty))]
        if m in ("trim", "trim_start", "trim_end") and "«" not in s[0]:
            return [(st, K(s[0].strip() if m == "trim" else s[0].lstrip() if m == "trim_start" else s[0].rstrip(), ty))]
        if m == "find" and "«" not in s[0]:
            at = s[0].find(s[1])
            return [(st, option(I, ty, None if at < 0 else I.kint(len(s[0][:at].encode()))))]
        if m == "is_empty":
            return [(st, I.kbool(not s[0]))]
        if m == "parse":
            r = parsed(I, s[0], I.P.tys[ty].d["args"][0])
            if r is NOT_A_NUMBER:
                return [(st, En(ty, ((1, (S("parse-error", I.variant_fields(ty, 1)[0][1]),)),)))]
            if r is not None:
                return [(st, En(ty, ((0, (r,)),)))]
    vs = [x if isinstance(x, (K, S, O)) else Top(None, frozenset(I.deep_labels(x, st))) for x in vs]
    return [(st, I.mk("str." + m, tuple(vs), ty))]


@rmodel(r"^(core|std)::str::r?split_once$")
def m_split_once(I, fn, a, st, fr, b):
    v, x = strip(I, a[0], st), strip(I, a[1], st)
    ty = ret_ty(I, fr, b)
    if isinstance(v, K) and isinstance(x, K) and not touches_hole((v, x)):
        t = x.v if isinstance(x.v, str) else chr(x.v)
        if t not in v.v:
            return [(st, option(I, ty, None))]
        l, _, r = v.v.rpartition(t) if fn.short.endswith("rsplit_once") else v.v.partition(t)
        pt = I.variant_fields(ty, 1)[0][1]
        return [(st, option(I, ty, Agg(pt, (K(l, v.ty), K(r, v.ty)))))]
    return None


@rmodel(r"^core::str::strip_(prefix|suffix)$")
def m_strip(I, fn, a, st, fr, b):
    v, x = strip(I, a[0], st), strip(I, a[1], st)
    ty = ret_ty(I, fr, b)
    if isinstance(v, K) and isinstance(x, K) and not touches_hole((v, x)):
        t = x.v if isinstance(x.v, str) else chr(x.v)
        pre = fn.short.endswith("prefix")
        if v.v.startswith(t) if pre else v.v.endswith(t):
            return [(st, option(I, ty, K(v.v[len(t):] if pre else v.v[:len(v.v) - len(t)], v.ty)))]
        return [(st, option(I, ty, None))]
    return None


@model("core::str::traits::index")
def m_str_index(I, fn, a, st, fr, b):
    v, r = strip(I, a[0], st), strip(I, a[1], st)
    n = I.kint(len(v.v.encode())) if isinstance(v, K) else I.mk("len", (v,), I.T_usize)
    if isinstance(r, Agg):
        k = (I.adt_name(r.ty) or "").rsplit("::", 1)[-1]
        lo, hi = I.kint(0), n
        if k == "Range":
            lo, hi = r.fs[0], r.fs[1]
        elif k == "RangeFrom":
            lo = r.fs[0]
        elif k == "RangeTo":
            hi = r.fs[0]
        elif k == "RangeInclusive":
            lo, hi = r.fs[0], I.binop("Add", r.fs[1], I.kint(1), I.T_usize, st)
        elif k == "RangeToInclusive":
            hi = I.binop("Add", r.fs[0], I.kint(1), I.T_usize, st)
        st = st.copy()
        ok = check(I, "string slice", I.mkcmp("Le", lo, hi, I.T_usize), st, fr, b, "from %s to %s" % (show(lo, 5), show(hi, 5)))
        ok = check(I, "string slice", I.mkcmp("Le", hi, n, I.T_usize), st, fr, b, "up to %s of %s" % (show(hi, 5), show(n, 5))) and ok
        if not ok:
            return []
        if isinstance(v, K) and isinstance(lo, K) and isinstance(hi, K):
            return [(st, K(v.v.encode()[lo.v:hi.v].decode("utf-8", "replace"), v.ty))]
        return [(st, I.mk("str.part", (v, lo, hi), getattr(v, "ty", None)))]
    return None


@rmodel(r"^core::str::(split|chars|split_whitespace|lines|bytes|char_indices|rsplit|splitn|matches)$")
def m_split(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    v = strip(I, a[0], st)
    if isinstance(v, K) and isinstance(v.v, str):
        p = strip(I, a[1], st) if len(a) > 1 else None
        l = None
        if m == "chars":
            l = [K(ord(x), ctype(I)) for x in v.v]
        elif m == "split" and isinstance(p, K) and (isinstance(p.v, str) and p.v or isinstance(p.v, int)):
            l = [K(x, I.T_str) for x in v.v.split(p.v if isinstance(p.v, str) else chr(p.v))]
        elif m == "rsplit" and isinstance(p, K) and (isinstance(p.v, str) and p.v or isinstance(p.v, int)):
            l = [K(x, I.T_str) for x in reversed(v.v.split(p.v if isinstance(p.v, str) else chr(p.v)))]
        elif m == "splitn" and isinstance(p, K) and p.v and len(a) > 2 and isinstance(strip(I, a[2], st), K):
            t = strip(I, a[2], st).v
            l = [K(x, I.T_str) for x in v.v.split(t if isinstance(t, str) else chr(t), p.v - 1)]
        elif m == "lines":
            l = [K(x.removesuffix("\r"), I.T_str) for x in v.v.removesuffix("\n").split("\n")] if v.v else []
        elif m == "split_whitespace":
            l = [K(x, I.T_str) for x in v.v.split()]
        if l is not None:
            return [(st, It("seq", SeqX(tuple(l)), 0, len(l), None))]
    return [(st, It("strparts", I.mk("str." + m, tuple(strip(I, x, st) if isinstance(strip(I, x, st), (K, S, O)) else Top(None, EMPTY) for x in a), None), 0, None, m))]


def ctype(I):
    return next((t.id for t in I.P.tys.values() if t.s == "char"), None)


@rmodel(r"^(core|std)::char::(methods::)?is_whitespace$")
def m_is_whitespace(I, fn, a, st, fr, b):
    v = strip(I, a[0], st)
    if isinstance(v, K) and isinstance(v.v, int):
        return [(st, I.kbool(chr(v.v).isspace()))]
    return None


HOLE = re.compile("«([^»]*?)(~[.-])?»$")
NOT_A_NUMBER = object()


def touches_hole(vs):
    """whether what is looked for could lie inside the text of an unknown number"""
    t = [x.v if isinstance(x.v, str) else chr(x.v) for x in vs]
    return "«" in t[0] and len(t) > 1 and re.search(r"[0-9.+eE-]", t[1]) is not None


def parsed(I, s, ty):
    """the number a text stands for; «name» stands for the text of any number, named so (ending ~. if written with a
    point, ~- if written as a negative whole number)"""
    t = I.P.tys[ty]
    m = HOLE.match(s)
    if m:
        if t.k in ("int", "uint") and m.group(2) and (m.group(2) == "~." or t.k == "uint"):
            return NOT_A_NUMBER
        return S(m.group(1), ty)
    if t.k in ("int", "uint") and re.fullmatch(r"\d+", s):
        lim = {"u8": 255, "usize": 2**64 - 1, "u32": 2**32 - 1, "u64": 2**64 - 1, "i32": 2**31 - 1, "i64": 2**63 - 1, "isize": 2**63 - 1}.get(t.s)
        return K(int(s), ty) if lim is not None and int(s) <= lim else None
    if t.k == "float" and re.fullmatch(r"[+-]?\d+(\.\d*)?", s):
        return kfloat(struct.unpack("f", struct.pack("f", float(s)))[0] if t.s == "f32" else float(s), ty)
    if "«" not in s and (not s or re.search(r"[=>,;~\s\\`]", s)):
        return NOT_A_NUMBER                              # no spelling of a number has these
    return None


@rmodel(r"^<T as std::string::ToString>::to_string$|^<str as std::string::ToString>|std::string::SpecToString>")
def m_to_string(I, fn, a, st, fr, b):
    v = strip(I, a[0], st)
    ty = ret_ty(I, fr, b)
    t = I.P.tys.get(getattr(v, "ty", None))
    if isinstance(v, K) and isinstance(v.v, str):
        return [(st, v)]
    if t is not None and (t.k == "ref" or t.k == "str" or t.s == "std::string::String"):
        return [(st, v)]
    return [(st, I.mk("to_string", (v,), ty) if isinstance(v, (S, O, K)) else Top(ty, frozenset(I.deep_labels(v, st))))]


@rmodel(r"^<([ui](8|16|32|64|128|size)|f32|f64|bool) as std::default::Default>::default$")
def m_default_scalar(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    k = I.P.tys[ty].k
    return [(st, kfloat(0.0, ty) if k == "float" else K(False if k == "bool" else 0, ty))]


@model("std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_string_new(I, fn, a, st, fr, b):
    return [(st, K("", ret_ty(I, fr, b)))]


@model("std::string::String::push_str", "std::string::String::push")
def m_push_str(I, fn, a, st, fr, b):
    st = st.copy()
    v, x = pointed(I, a[0], st), strip(I, a[1], st)
    if isinstance(v, K) and isinstance(x, K) and isinstance(x.v, str):
        nv = K(v.v + x.v, v.ty)
    else:
        nv = I.mk("concat", (v, x), getattr(v, "ty", None)) if isinstance(v, (K, S, O)) and isinstance(x, (K, S, O)) else Top(None, leaves(v) | leaves(x))
    setp(I, a[0], nv, st)
    return [(st, unit(I))]


# --------------------------------------------------------------------------------------------- numbers
@rmodel(r"^(std|core)::f(32|64)::(sin|cos|sin_cos|tan|exp|exp2|ln|log|log2|log10|sqrt|powf|powi|floor|ceil|round|trunc|fract|abs|tanh|sinh|cosh|atan|atan2|asin|acos|mul_add|rem_euclid|signum|cbrt|hypot|copysign|to_bits|from_bits|is_nan)$")
def m_float(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    ty = ret_ty(I, fr, b) or getattr(a[0], "ty", None)
    if len(a) == 1 and isinstance(a[0], K) and isinstance(a[0].v, float) and m in ("floor", "ceil", "trunc", "abs", "fract"):
        import math
        x = a[0].v
        if x == x and abs(x) != float("inf"):
            return [(st, kfloat({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs, "fract": lambda y: y - math.trunc(y)}[m](x) * 1.0, ty))]
    if m in ("powf", "powi", "exp2") and all(isinstance(x, K) and type(x.v) in (int, float) for x in a):
        base, e = (a[0].v, a[1].v) if m != "exp2" else (2.0, a[0].v)
        if e == e and abs(e) <= 64 and e == int(e) and base in (0.5, 1.0, 2.0):
            return [(st, kfloat(base ** e, ty))]          # exact
    if m == "rem_euclid" and all(isinstance(x, K) and isinstance(x.v, float) and abs(x.v) < 1e30 for x in a) and a[1].v:
        import math
        r = math.fmod(a[0].v, a[1].v)
        return [(st, kfloat(f32(r + abs(a[1].v) if r < 0 else r), ty))]
    if m == "sin_cos" and ty is not None:
        et = I.field_tys(ty)
        return [(st, Agg(ty, (I.mk("sin", (a[0],), et[0]), I.mk("cos", (a[0],), et[1]))))]
    if m == "mul_add":
        return [(st, I.binop("Add", I.binop("Mul", a[0], a[1], ty, st), a[2], ty, st))]
    if m == "powi" and isinstance(a[1], K) and a[1].v in (1, 2, 3):
        v = a[0]
        for _ in range(a[1].v - 1):
            v = I.binop("Mul", v, a[0], ty, st)
        return [(st, v)]
    if m == "exp2":
        return [(st, I.mk("powf", (kfloat(2.0, ty), a[0]), ty))]
    return [(st, I.mk(m, tuple(a), ty))]


@rmodel(r"^core::num::(checked|saturating|wrapping|overflowing)_(add|sub|mul|div|rem)$")
def m_num(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    mode, op = m.split("_")
    op = op.capitalize()
    ty = getattr(a[0], "ty", I.T_usize)
    rt = ret_ty(I, fr, b)
    v = I.binop(op, a[0], a[1], ty, st)
    if mode == "wrapping":
        return [(st, v)]
    if mode == "saturating" and op == "Sub" and I.P.tys[ty].k == "uint":
        out = []
        for s, lt in may_split(I, st, I.mkcmp("Lt", a[0], a[1], ty)):
            out.append((s, K(0, ty) if lt else v))
        if len(out) == 1:
            return out
        return [(st, I.mk("ssub", (a[0], a[1]), ty))]
    if mode == "saturating":
        return [(st, v)]
    if mode == "checked":
        if op in ("Div", "Rem"):
            c = I.mkcmp("Eq", a[1], K(0, ty), ty)
        elif op == "Sub" and I.P.tys[ty].k == "uint":
            c = I.mkcmp("Lt", a[0], a[1], ty)
        else:
            c = I.mk("ovf:" + op, (a[0], a[1]), I.T_bool)
        return [(s, option(I, rt, None if bad else v)) for s, bad in may_split(I, st, c)]
    return None


@rmodel(r"^core::num::(rem_euclid|div_euclid|abs_diff|leading_zeros|trailing_zeros|count_ones|is_power_of_two|next_power_of_two|abs|signum|pow|isqrt|rotate_left|rotate_right)$")
def m_num2(I, fn, a, st, fr, b):
    m = fn.short.rsplit("::", 1)[1]
    ty = ret_ty(I, fr, b)
    if m in ("rem_euclid", "div_euclid"):
        if not check(I, "div0", I.mknot(I.mkcmp("Eq", a[1], K(0, getattr(a[0], "ty", I.T_usize)), I.T_usize)), st, fr, b, m):
            return []
        return [(st, I.binop("Rem" if m[0] == "r" else "Div", a[0], a[1], ty, st))]
    return [(st, I.mk(m, tuple(a), ty))]


# --------------------------------------------------------------------------------------- mem, intrinsics
@model("std::mem::MaybeUninit::uninit")
def m_uninit(I, fn, a, st, fr, b):
    t = I.P.tys.get(fn.args[0]) if fn.args and isinstance(fn.args[0], int) else None
    if t is not None and t.k == "array" and isinstance(t.d.get("len"), int) and t.d["len"] <= UNROLL:
        return [(st, SeqX((UNDEF,) * t.d["len"]))]
    return [(st, UNDEF)]


@model("std::mem::MaybeUninit::new", "std::mem::ManuallyDrop::new")
def m_munew(I, fn, a, st, fr, b):
    return [(st, a[0])]


@model("std::mem::MaybeUninit::assume_init")
def m_assume(I, fn, a, st, fr, b):
    v = a[0]
    t = I.P.tys.get(fn.args[0]) if fn.args and isinstance(fn.args[0], int) else None
    inner = t is not None and "MaybeUninit<" in t.s
    I.obligation("uninitialised", "a value read before it was written", "failed" if isinstance(v, Undef) and not inner else "proved", st, fr, b)
    return [(st, v)]


@model("std::mem::MaybeUninit::assume_init_drop", "std::mem::MaybeUninit::assume_init_ref", "std::mem::MaybeUninit::assume_init_mut")
def m_assume_ref(I, fn, a, st, fr, b):
    v = pointed(I, a[0], st)
    I.obligation("uninitialised", "a value used before it was written", "failed" if isinstance(v, Undef) else "proved", st, fr, b)
    return [(st, unit(I) if fn.short.endswith("drop") else a[0])]


@model("std::array::into_iter")
def m_array_iter(I, fn, a, st, fr, b):
    return [(st, to_iter(I, a[0], st, fr, b))]


@model("std::array::map")
def m_array_map(I, fn, a, st, fr, b):
    v = a[0]
    if not isinstance(v, SeqX):
        return None
    work = [(st, (), a[1])]
    for i, x in enumerate(v.es):
        nw = []
        for s, done, f in work:
            for s2, y, f2 in call_closure(I, f, [x], s, fr, b, "am%d" % i):
                nw.append((s2, done + (y,), f2))
        work = nw
    return [(s, SeqX(done)) for s, done, _ in work]


@model("std::mem::MaybeUninit::write")
def m_mu_write(I, fn, a, st, fr, b):
    st = st.copy()
    setp(I, a[0], a[1], st)
    return [(st, a[0])]


@model("std::mem::size_of")
def m_sizeof(I, fn, a, st, fr, b):
    return [(st, S("size_of", I.T_usize))]


@model("std::mem::replace")
def m_replace(I, fn, a, st, fr, b):
    st = st.copy()
    old = pointed(I, a[0], st)
    setp(I, a[0], a[1], st)
    return [(st, old)]


@model("std::mem::swap")
def m_mswap(I, fn, a, st, fr, b):
    st = st.copy()
    x, y = pointed(I, a[0], st), pointed(I, a[1], st)
    setp(I, a[0], y, st)
    setp(I, a[1], x, st)
    return [(st, unit(I))]


@model("std::mem::take")
def m_take(I, fn, a, st, fr, b):
    st = st.copy()
    old = pointed(I, a[0], st)
    ty = ret_ty(I, fr, b)
    if I.elem_ty(ty) is not None:
        new = SeqX(())
    elif I.map_tys(ty):
        new = MapX(())
    elif I.is_int(ty):
        new = K(0, ty)
    elif I.is_float(ty):
        new = kfloat(0.0, ty)
    elif I.adt_name(ty) == "std::option::Option":
        new = option(I, ty, None)
    else:
        return None
    setp(I, a[0], new, st)
    return [(st, old)]


@model("std::option::Option::take")
def m_opt_take(I, fn, a, st, fr, b):
    st = st.copy()
    old = pointed(I, a[0], st)
    setp(I, a[0], option(I, ret_ty(I, fr, b), None), st)
    return [(st, old)]


@rmodel(r"^std::ptr::(read|read_volatile)$|^std::ptr::(const_ptr|mut_ptr)::read$")
def m_ptr_read(I, fn, a, st, fr, b):
    return [(st, pointed(I, a[0], st))]


@rmodel(r"^std::ptr::write$|^std::ptr::mut_ptr::write$")
def m_ptr_write(I, fn, a, st, fr, b):
    st = st.copy()
    setp(I, a[0], a[1], st)
    return [(st, unit(I))]


def intrinsic(I, fn, vals, st, fr, b):
    n = fn.intrinsic if isinstance(fn.intrinsic, str) else fn.short.rsplit("::", 1)[1]
    ty = ret_ty(I, fr, b)
    if n in ("discriminant_value",):
        v = pointed(I, vals[0], st)
        if isinstance(v, En):
            if len(v.alts) == 1 and v.ty is not None:
                return [(st, K(I.variants(v.ty)[v.alts[0][0]][1], ty if ty is not None else I.T_isize))]
            ts = tgt(I, vals[0], st)
            if len(ts) == 1 and v.ty is not None:
                return [(st, DV(ts[0][0], ts[0][1], v))]
        if isinstance(v, (S, O)):
            return [(st, I.mk("discr", (v,), ty if ty is not None else I.T_isize))]
        return [(st, Top(ty, leaves(v)))]
    if n in ("transmute", "black_box", "likely", "unlikely"):
        return [(st, vals[0])]
    if n in ("abort", "unreachable"):
        return []
    if n == "assume":
        return [(st, unit(I))]
    m = {"sinf32": "sin", "cosf32": "cos", "expf32": "exp", "sqrtf32": "sqrt", "powf32": "powf", "floorf32": "floor", "ceilf32": "ceil", "fabsf32": "abs",
         "truncf32": "trunc", "fabs": "abs"}.get(n)
    if m:
        return [(st, I.mk(m, tuple(vals), ty))]
    if n in ("unchecked_sub", "unchecked_add", "unchecked_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "exact_div"):
        op = {"sub": "Sub", "add": "Add", "mul": "Mul", "div": "Div"}[n.split("_")[1]]
        return [(st, I.binop(op, vals[0], vals[1], ty, st))]
    if n == "three_way_compare":
        out = []
        return m_cmp(I, type("F", (), {"short": "std::cmp::impls::cmp"}), vals, st, fr, b)
    return I.unknown_call(fn, vals, st, fr, b)


# ----------------------------------------------------------------------------------- ring buffers (dasp)
def ring_data(I, ref, st):
    r, p = tgt(I, ref, st)[0]
    return r, p + (("f", 1),)


@rmodel(r"^<dasp_ring_buffer::Fixed as std::convert::From>::from$")
def m_ring_from(I, fn, a, st, fr, b):
    st = st.copy()
    n = I.seq_len(a[0], st)
    if not check(I, "ringempty", I.mkcmp("Lt", I.kint(0), n, I.T_usize), st, fr, b, "ring buffer of length %s" % show(n, 6)):
        return []
    return [(st, Agg(ret_ty(I, fr, b), (I.kint(0), a[0])))]


def exact_ring(I, r0, p0, v, n, st, limit=16):
    """(elements, position of the oldest) of a short ring buffer that is known exactly"""
    first = I.load(r0, p0 + (("f", 0),), st)
    if not isinstance(first, K) or not isinstance(n, K) or not 0 < n.v <= limit:
        return None
    es = exact_items(v, n)
    return None if es is None else (es, first.v)


@rmodel(r"^dasp_ring_buffer::Fixed::(len|push|get|get_mut|set_first)$|^<dasp_ring_buffer::Fixed as std::ops::Index(Mut)?>")
def m_ring(I, fn, a, st, fr, b):
    st = st.copy()
    m = fn.short.rsplit("::", 1)[1]
    ts = tgt(I, a[0], st)
    out = []
    for r0, p0 in ts:
        r, p = r0, p0 + (("f", 1),)
        n = I.place_len(r, p, st)
        if m == "len":
            out.append(n)
            continue
        # a ring buffer that exists is not empty unless it was built so (checked where it is built)
        v = I.load(r, p, st)
        if m == "set_first":
            I.store(r0, p0 + (("f", 0),), I.binop("Rem", a[1], n, I.T_usize, st), st)
            out.append(unit(I))
        elif exact_ring(I, r0, p0, v, n, st) is not None and (m == "push" or isinstance(a[1], K)):
            es, first = exact_ring(I, r0, p0, v, n, st)
            if m == "push":
                out.append(es[first])
                I.store(r, p, SeqX(tuple(es[:first] + [a[1]] + es[first + 1:])), st)
                I.store(r0, p0 + (("f", 0),), I.kint((first + 1) % len(es)), st)
            else:
                I.store(r, p, SeqX(tuple(es)), st)
                out.append(elem_ref(I, I.mkref(r, p), I.kint((first + a[1].v) % len(es)), st))
        elif m == "push":
            out.append(I.elem(v, None, st))
            I.store(r, p, SeqA(I.join(I.elem(v, None, st), a[1], (0, "ring", r, p)), n), st)
        else:
            out.append(elem_ref(I, I.mkref(r, p), I.mk("ring", (I.load(r0, p0 + (("f", 0),), st), a[1]), I.T_usize), st))
    res = out[0] if len(out) == 1 else I.joins(out, (fr.uid, b, ("tmp", fr.fid, "ring"), ()))
    return [(st, res)]


# ------------------------------------------------------------------------------------------- petgraph
# A graph whose nodes are all known is Agg(type, (node table, edge list oldest first, freed node slots)); node
# indices are the library's own struct around a constant.  Slots are reused last-freed first, edges are visited newest first.
def graph_parts(v):
    return v.fs if isinstance(v, Agg) and len(v.fs) == 3 and isinstance(v.fs[0], MapX) and isinstance(v.fs[1], SeqX) and isinstance(v.fs[2], SeqX) else None


def graph_node(I, ref, key, st):
    """places of the node with the given index, over all graphs the reference may denote"""
    out = []
    for r, p in tgt(I, ref, st):
        v = I.load(r, p, st)
        if graph_parts(v) is not None or isinstance(v, Agg) and len(v.fs) == 3:
            out.append((r, p + (("f", 0), ("mv", key)), v.fs[0]))
        else:
            out.append((r, p + (("mv", key),), v))
    return out


@rmodel(r"^petgraph::graph_impl::NodeIndex::(index|new)$|^petgraph::graph_impl::(node_index|EdgeIndex::index)$|^<petgraph::graph_impl::stable_graph::StableGraph as petgraph::visit::NodeIndexable>::to_index$")
def m_nodeindex(I, fn, a, st, fr, b):
    v = strip(I, a[-1], st)
    if fn.short.endswith("index") and isinstance(v, Agg) and len(v.fs) == 1:
        return [(st, K(v.fs[0].v, I.T_usize) if isinstance(v.fs[0], K) else v.fs[0])]
    nm = "new" if fn.short.endswith(("new", "node_index")) else "index"
    return [(st, I.mk("node." + nm, (v,), ret_ty(I, fr, b)))]


@rmodel(r"^<petgraph::(graph_impl::stable_graph|stable_graph)::StableGraph as std::ops::Index(Mut)?>::index(_mut)?$")
def m_graph_index(I, fn, a, st, fr, b):
    st = st.copy()
    key = strip(I, a[1], st)
    ks = choices(I, key)
    if ks is not None:
        # one of several known nodes: each its own case
        out = []
        for i, k in enumerate(ks):
            for s, v in m_graph_index(I, fn, [a[0], k], st.copy(), fr, b):
                out.append((s, v))
        return out
    out = []
    for r, p, m in graph_node(I, a[0], key, st):
        if isinstance(m, MapX) and not check(I, "graphindex", has(I, m, key, st), st, fr, b, "node %s" % show(key, 5)):
            continue
        out.append(Ref(r, p, None))
    if not out:
        return []
    return [(st, out[0] if len(out) == 1 else Refs(frozenset(out)))]


def choices(I, key, limit=16):
    """the constants a joined node index stands for, or None"""
    if not (isinstance(key, Agg) and len(key.fs) == 1 and key.fs[0] in I.phi):
        return None
    alts = I.alternatives(key.fs[0], limit + 1)
    if len(alts) > limit or not all(isinstance(x, K) for x in alts):
        return None
    return [Agg(key.ty, (x,)) for x in sorted(alts, key=lambda x: x.v)]


@rmodel(r"(petgraph::data::DataMap(Mut)?>|StableGraph)::node_weight(_mut)?$")
def m_graph_weight(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    key = strip(I, a[1], st)
    g = a[0]
    for _ in range(3):          # references to references
        v = pointed(I, g, st)
        if isinstance(v, (Ref, Refs)):
            g = v
    out = []
    for r, p, m in graph_node(I, g, key, st):
        for s, yes in may_split(I, st, has(I, m, key, st)):
            out.append((s.copy(), option(I, ty, Ref(r, p, None) if yes else None)))
    return merge_outs(I, out, fr, b)


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(new|with_capacity|default)$|^<petgraph::graph_impl::stable_graph::StableGraph as std::default::Default>::default$")
def m_graph_new(I, fn, a, st, fr, b):
    return [(st, Agg(ret_ty(I, fr, b), (MapX(()), SeqX(()), SeqX(()))))]


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::add_node$")
def m_graph_add(I, fn, a, st, fr, b):
    st = st.copy()
    r, p = tgt(I, a[0], st)[0]
    g = I.load(r, p, st)
    ty = ret_ty(I, fr, b)
    parts = graph_parts(g)
    if parts is None:
        s = S("idx:new:%s:%s" % (fr.uid, b), ty)
        I.store(r, p, map_insert(I, g, s, a[1], st), st)
        return [(st, s)]
    nodes, edges, free = parts
    if free.es:
        key, free = free.es[-1], SeqX(free.es[:-1])
    else:
        u = I.field_tys(ty)
        key = Agg(ty, (K(len(nodes.es), u[0] if u else None),))
    I.store(r, p, Agg(g.ty, (MapX(nodes.es + ((key, a[1]),)), edges, free)), st)
    return [(st, key)]


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(add_edge|update_edge)$")
def m_graph_edge(I, fn, a, st, fr, b):
    st = st.copy()
    r, p = tgt(I, a[0], st)[0]
    g = I.load(r, p, st)
    ty = ret_ty(I, fr, b)
    parts = graph_parts(g)
    if parts is None:
        I.store(r, p, I.mk("graph.add_edge", (g, a[1], a[2]), getattr(g, "ty", None)) if isinstance(g, (S, O)) and size(g) < 20 else Top(getattr(g, "ty", None), leaves(g)), st)
        return [(st, S("edge:new:%s:%s" % (fr.uid, b), ty))]
    nodes, edges, free = parts
    for x in (a[1], a[2]):
        if not check(I, "graphindex", has(I, nodes, x, st), st, fr, b, "edge end %s" % show(x, 5)):
            return []
    e = Agg(None, (a[1], a[2]))
    if fn.short.endswith("update_edge") and e in edges.es:
        return [(st, Agg(ty, (K(edges.es.index(e), None),)))]
    I.store(r, p, Agg(g.ty, (nodes, SeqX(edges.es + (e,)), free)), st)
    return [(st, Agg(ty, (K(len(edges.es), None),)))]


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::remove_node$")
def m_graph_remove(I, fn, a, st, fr, b):
    ty = ret_ty(I, fr, b)
    r, p = tgt(I, a[0], st)[0]
    g = I.load(r, p, st)
    parts = graph_parts(g)
    if parts is None:
        st = st.copy()
        I.store(r, p, I.mk("graph.remove", (g, a[1]), getattr(g, "ty", None)) if isinstance(g, (S, O)) and size(g) < 20 else Top(getattr(g, "ty", None), leaves(g)), st)
        return [(st, S("removed:%s:%s" % (fr.uid, b), ty))]
    nodes, edges, free = parts
    out = []
    for s, yes in may_split(I, st, has(I, nodes, a[1], st)):
        s = s.copy()
        if yes and any(k is a[1] for k, _ in nodes.es):
            old = [v for k, v in nodes.es if k is a[1]][0]
            I.store(r, p, Agg(g.ty, (MapX(tuple(kv for kv in nodes.es if kv[0] is not a[1])),
                                     SeqX(tuple(e for e in edges.es if a[1] not in e.fs)), SeqX(free.es + (a[1],)))), s)
            out.append((s, option(I, ty, old)))
        elif yes:
            I.store(r, p, Top(g.ty, leaves(g)), s)
            out.append((s, S("removed:%s:%s" % (fr.uid, b), ty)))
        else:
            out.append((s, option(I, ty, None)))
    return out


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(clear|clear_edges)$")
def m_graph_clear(I, fn, a, st, fr, b):
    st = st.copy()
    for r, p in tgt(I, a[0], st):
        g = I.load(r, p, st)
        parts = graph_parts(g)
        if fn.short.endswith("clear"):
            I.store(r, p, Agg(getattr(g, "ty", None), (MapX(()), SeqX(()), SeqX(()))), st)
        elif parts is not None:
            I.store(r, p, Agg(g.ty, (parts[0], SeqX(()), parts[2])), st)
        else:
            I.store(r, p, I.mk("graph.clear_edges", (g,), getattr(g, "ty", None)) if isinstance(g, (S, O)) and size(g) < 20 else Top(getattr(g, "ty", None), leaves(g)), st)
    return [(st, unit(I))]


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(node_count|edge_count)$")
def m_graph_count(I, fn, a, st, fr, b):
    g = pointed(I, a[0], st)
    parts = graph_parts(g)
    if parts is None:
        return [(st, I.mk("graph.count", (g,), I.T_usize) if isinstance(g, (S, O)) else Top(I.T_usize, leaves(g)))]
    return [(st, I.kint(len(parts[0].es if fn.short.endswith("node_count") else parts[1].es)))]


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(contains_node|contains_edge|find_edge|node_indices|edge_indices|neighbors|neighbors_directed|edges_directed)$|"
        r"petgraph::visit::IntoNeighbors(Directed)?>::neighbors(_directed)?$")
def m_graph_query(I, fn, a, st, fr, b):
    nm = fn.short.rsplit("::", 1)[1]
    g = strip(I, a[0], st)
    parts = graph_parts(g)
    key = strip(I, a[1], st) if len(a) > 1 else None
    if parts is None:
        if nm == "contains_node" and isinstance(g, (S, O)):
            return [(st, has(I, g, key, st))]
        return I.unknown_call(fn, a, st, fr, b)
    nodes, edges, free = parts
    if nm == "contains_node":
        return [(st, has(I, nodes, key, st))]
    if nm == "node_indices":
        return [(st, to_iter(I, SeqX(tuple(k for k, _ in nodes.es)), st, fr, b))]
    if nm.startswith("neighbors"):
        d = 0
        if nm.endswith("directed"):
            dv = a[2]
            if not (isinstance(dv, En) and len(dv.alts) == 1):
                return I.unknown_call(fn, a, st, fr, b)
            d = dv.alts[0][0]
        l = [e.fs[1 - d] for e in reversed(edges.es) if e.fs[d] is key]
        return [(st, It("seq", SeqX(tuple(l)), 0, len(l), None))]
    return I.unknown_call(fn, a, st, fr, b)


@rmodel(r"^petgraph::graph_impl::stable_graph::StableGraph::(node_weights_mut|node_weights)$")
def m_graph_weights(I, fn, a, st, fr, b):
    r, p = tgt(I, a[0], st)[0]
    g = I.load(r, p, st)
    parts = graph_parts(g)
    if parts is None:
        return [(st, map_iter(I, a[0], st, "v"))] if isinstance(g, (MapX, MapA)) else I.unknown_call(fn, a, st, fr, b)
    l = SeqX(tuple(Ref(r, p + (("f", 0), ("mv", k)), None) for k, _ in parts[0].es))
    return [(st, It("seq", l, 0, len(l.es), None))]


@rmodel(r"^<petgraph::visit::traversal::DfsPostOrder as std::default::Default>::default$|^petgraph::visit::traversal::DfsPostOrder::(reset|move_to|next|new|empty)$")
def m_dfs(I, fn, a, st, fr, b):
    nm = fn.short.rsplit("::", 1)[1]
    ty = ret_ty(I, fr, b)
    if nm in ("default", "empty"):
        n = len(I.field_tys(ty) or (0, 0, 0))
        return [(st, Agg(ty, (SeqX(()),) * n))]
    if nm == "new":
        return [(st, Agg(ty, (SeqX((strip(I, a[1], st),)), SeqX(()), SeqX(()))))]
    st = st.copy()
    r, p = tgt(I, a[0], st)[0]
    d = I.load(r, p, st)
    if not isinstance(d, Agg) and nm == "reset":
        d = Agg(getattr(d, "ty", None), (SeqX(()),) * 3)
    if nm == "reset":
        I.store(r, p, Agg(d.ty, (SeqX(()),) * len(d.fs)), st)
        return [(st, unit(I))]
    if nm == "move_to":
        I.store(r, p + (("f", 0),), SeqX((strip(I, a[1], st),)), st)
        return [(st, unit(I))]
    g = strip(I, a[1], st)
    back = 0
    while isinstance(g, Agg) and graph_parts(g) is None and len(g.fs) == 1:     # Reversed(graph)
        g = strip(I, g.fs[0], st)
        back ^= 1
    parts = graph_parts(g)
    if parts is None or not all(isinstance(x, SeqX) for x in d.fs):
        return I.unknown_call(fn, a, st, fr, b)
    stack, disc, fin = list(d.fs[0].es), list(d.fs[1].es), list(d.fs[2].es)
    res = None
    while stack:
        nx = stack[-1]
        if nx not in disc:
            disc.append(nx)
            for e in reversed(parts[1].es):
                if e.fs[back] is nx:
                    o = e.fs[1 - back]
                    if o not in disc:
                        stack.append(o)
        else:
            stack.pop()
            if nx not in fin:
                fin.append(nx)
                res = nx
                break
    I.store(r, p, Agg(d.ty, (SeqX(tuple(stack)), SeqX(tuple(disc)), SeqX(tuple(fin)))), st)
    st.obs = st.obs + (("visit", show(res)),)
    return [(st, option(I, ty, res))]


@rmodel(r"^<dasp_signal::Noise as dasp_signal::Signal>::next$")
def m_noise(I, fn, a, st, fr, b):
    out = I.unknown_call(fn, a, st, fr, b)
    for _s, v in out:
        I.phi_iv[v] = [-1, 1, 0]
    return out


# ---------------------------------------------------------------------------------------- scripts
@model("rhai::api::compile::compile")
def m_rhai_compile(I, fn, a, st, fr, b):
    """the script engine accepts the empty script; of any other nothing is known"""
    t = I.ret_ty_at(fr, b)
    v = a[1] if len(a) > 1 else None
    if not (isinstance(v, K) and v.v == "") or t is None:
        return I.unknown_call(fn, a, st, fr, b)
    ok = [i for i, x in enumerate(I.variants(t)) if x[0] == "Ok"][0]
    return [(st, En(t, ((ok, tuple(S("empty script", ft) for _n, ft in I.variant_fields(t, ok))),)))]
