"""Context-sensitive abstract interpretation of monomorphised MIR.

Values are terms over the symbols of the initial state (see values.py); calls into the workspace are followed
into the callee's body, calls into libraries are answered by models (models.py).  States that meet at a block are
joined unless their observer keys differ; loops run to a fixpoint.  Nothing of the program is executed: a
branch is taken in the analysis whenever the terms do not exclude it."""
import heapq, math, re, struct
from .values import *
from .values import _un

MAXSIZE = 60
UNROLL = 16
TEXT = 64             # parts of a known text
INF = float("inf")
CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne", "AddUnchecked", "MulUnchecked"}


class Budget(Exception):
    pass


ONE = frozenset((1,))


class State:
    __slots__ = ("mem", "facts", "iv", "obs", "tag")

    def __init__(self, mem=None, facts=None, iv=None, obs=(), tag=()):
        self.mem = mem or {}
        self.facts = facts or {}
        self.iv = iv or {}
        self.obs = obs
        self.tag = tag       # which outcome of the last call this is; dropped at the next branch

    def copy(self):
        return State(dict(self.mem), dict(self.facts), dict(self.iv), self.obs, self.tag)


class Frame:
    __slots__ = ("fn", "fid", "parent", "site", "depth", "ukey")

    def __init__(self, fn, fid, parent, site):
        self.fn, self.fid, self.parent, self.site = fn, fid, parent, site
        self.ukey = ()       # positions of the exactly unrolled iterators of this frame
        self.depth = 0 if parent is None else parent.depth + 1

    @property
    def uid(self):
        return "%d%s" % (self.fid, "@" + ".".join(map(str, self.ukey)) if self.ukey else "")

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.parent
        return out


class Interp:
    def __init__(self, prog, obs=None, budget=400000, inline=None):
        from . import models
        self.P = prog
        self.obs = obs
        self.budget = budget
        self.maxsize = MAXSIZE   # larger terms are forgotten
        self.steps = 0
        self.fids = {}
        self.uids = {}
        self.worklists = {}  # frame -> places it takes from
        self.epoch = 0           # tells the joined values of separate runs apart
        self.params = None       # predicate: symbols taken to be equal only to themselves
        self.phi = {}            # phi symbol -> set of alternatives
        self.phi_iv = {}         # phi symbol -> [lo, hi, updates]
        self.numbers = {}        # symbols that stand for a number between two bounds (neither NaN nor infinite) -> (lo, hi)
        self.sym_labels = {}     # symbol -> frozenset of symbols it was computed from (havoc, unknown calls)
        self.obls = {}           # obligation key -> dict
        self.exact = 8           # lists made of so many equal elements are kept element by element
        self.unmodelled = {}
        self.analysed = set()
        self.models = models.MODELS
        self.model_res = models.RES
        self.inline_crates = inline or {"glicol", "glicol_parser", "glicol_synth", "wasmhost", "vharness"}
        self.M = models
        self._closures = None
        self.exit_events = []
        self.loop_hook = None
        self.conds = None  # when a set: what branches depended on
        self.builtin = {}  # constants of the program followed by name
        self.reads = None  # when a set: (root, first path element) of every load
        self.map_rev = False
        self.shapes = False          # follow loops over known worklists one step at a time
        self.touched = set()
        self.mcache = {}
        self.ctors = {}
        self.lin_cache = {}
        self.tyc = {}
        t = {x.s: x.id for x in prog.tys.values()}
        self.T_usize = t["usize"]
        self.T_bool = t["bool"]
        self.T_f32 = t["f32"]
        self.T_unit = t["()"]
        self.T_isize = t.get("isize", self.T_usize)
        self.T_str = t.get("&str")

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.P.tys[i]

    def rng(self, ty):
        t = self.P.tys.get(ty)
        if t is None:
            return (-INF, INF)
        if t.k == "uint":
            return (0, (1 << t.d["bits"]) - 1)
        if t.k == "int":
            b = t.d["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        if t.k == "bool":
            return (0, 1)
        if t.k == "char":
            return (0, 0x10FFFF)
        return (-INF, INF)

    def is_float(self, ty):
        t = self.P.tys.get(ty)
        return t is not None and t.k == "float"

    def is_int(self, ty):
        t = self.P.tys.get(ty)
        return t is not None and t.k in ("uint", "int", "bool", "char")

    def adt_name(self, ty):
        t = self.P.tys.get(ty)
        return t.d.get("name") if t is not None and t.k in ("struct", "enum", "union") else None

    def is_box(self, ty):
        t = self.P.tys.get(ty)
        return t is not None and t.k == "struct" and t.d.get("box")

    SEQ_ADTS = {"std::vec::Vec": 0, "std::collections::VecDeque": 0}
    MAP_ADTS = {"hashbrown::HashMap": (0, 1), "std::collections::HashMap": (0, 1), "std::collections::BTreeMap": (0, 1)}

    def elem_ty(self, ty):
        t = self.P.tys.get(ty)
        if t is None:
            return None
        if t.k in ("array", "slice"):
            return t.d["elem"]
        n = self.adt_name(ty)
        if n in self.SEQ_ADTS:
            return t.d["args"][0]
        return None

    def map_tys(self, ty):
        n = self.adt_name(ty)
        if n in self.MAP_ADTS:
            a = self.P.tys[ty].d["args"]
            return a[0], a[1]
        if n is not None and n.endswith("stable_graph::StableGraph"):
            return None, self.P.tys[ty].d["args"][0]
        return None

    def variant_fields(self, ty, v):
        return self.P.tys[ty].d["variants"][v][2]

    def variants(self, ty):
        return self.P.tys[ty].d["variants"]

    def field_tys(self, ty):
        t = self.P.tys[ty]
        if t.k == "tuple":
            return t.d["elems"]
        if t.k in ("struct", "union"):
            return [x[1] for x in t.d["variants"][0][2]]
        if t.k == "closure":
            return self.P.tys[t.d["up"]].d["elems"]
        return None

    def field_names(self, ty):
        t = self.P.tys[ty]
        if t.k in ("struct", "union"):
            return [x[0] for x in t.d["variants"][0][2]]
        ft = self.field_tys(ty)
        return None if ft is None else [str(i) for i in range(len(ft))]

    def pointee(self, ty):
        t = self.P.tys.get(ty)
        if t is None:
            return None
        if t.k in ("ref", "ptr"):
            return t.d["to"]
        if self.is_box(ty):
            return t.d["args"][0]
        n = self.adt_name(ty)
        if n in ("std::ptr::NonNull", "std::ptr::Unique", "core::ptr::Unique"):
            return t.d["args"][0]
        return None

    # --------------------------------------------------------------- phi info
    def is_phi(self, v):
        return isinstance(v, S) and v.name[0] == "φ"

    def labels(self, v):
        """non-phi symbols a value may depend on"""
        out, seen, work = set(), set(), list(leaves(v))
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            if s in self.phi:
                for a in self.phi[s]:
                    work.extend(leaves(a))
            elif s in self.sym_labels:
                work.extend(self.sym_labels[s])
                out.add(s)
            else:
                out.add(s)
        return out

    def label_names(self, v):
        return {s.name for s in self.labels(v)}

    def alternatives(self, v, limit=64):
        """the terms a phi may stand for (phis expanded at top level only)"""
        out, seen, work = [], set(), [v]
        while work and len(out) < limit:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.phi:
                work.extend(self.phi[x])
            else:
                out.append(x)
        return out

    def mkphi(self, loc, ty, vals):
        name = "φ%s:%s:%s%s" % (loc[0], loc[1], root_s(loc[2]), path_s(loc[3]))
        s = S(name, ty)
        self.touched.add(s)
        st = self.phi.setdefault(s, set())
        for v in vals:
            if v is s:
                continue
            if v not in st:
                if len(st) >= 16:
                    lab = leaves(v)
                    if any(isinstance(x, Top) and lab <= x.labels for x in st):
                        continue
                    tops = [x for x in st if isinstance(x, Top)]
                    for x in tops:
                        st.discard(x)
                        lab = lab | x.labels
                    st.add(Top(ty, frozenset(lab)))
                else:
                    st.add(v)
        return s

    def phi_bounds(self, s, a, b, widen):
        cur = self.phi_iv.get(s)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if cur is None:
            self.phi_iv[s] = [lo, hi, 0]
            return
        r = self.rng(s.ty)
        if lo < cur[0] or hi > cur[1]:
            cur[2] += 1
            late = cur[2] > 3 or widen
            if lo < cur[0]:
                cur[0] = lo if not late else (0 if lo >= 0 else r[0])
            if hi > cur[1]:
                # a block has 128 frames: indices into it stop growing there
                cur[1] = hi if not late else 127 if hi <= 127 else 128 if hi <= 128 else r[1]

    # -------------------------------------------------------------- intervals
    def interval(self, v, st, d=0):
        if isinstance(v, K):
            if isinstance(v.v, (int, float)) and v.v == v.v:
                return (v.v, v.v)
            return (-INF, INF)
        lo, hi = (-INF, INF)
        if isinstance(v, (S, O, Top)):
            lo, hi = self.rng(v.ty)
        elif isinstance(v, DV):
            ds = [self.variants(v.val.ty)[k][1] for k, _ in v.val.alts]
            return (min(ds), max(ds))
        if st is not None:
            f = st.iv.get(v)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
        if d > (40 if self.numbers else 12):
            return lo, hi
        a = b = None
        if isinstance(v, S):
            p = self.numbers.get(v) or self.phi_iv.get(v)
            if p:
                a, b = p[0], p[1]
        elif isinstance(v, O):
            op = v.op
            if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
                x, y = self.interval(v.args[0], st, d + 1), self.interval(v.args[1], st, d + 1)
                try:
                    if op.startswith("Add"):
                        a, b = x[0] + y[0], x[1] + y[1]
                    elif op.startswith("Sub"):
                        a, b = x[0] - y[1], x[1] - y[0]
                        if self.P.tys[v.ty].k == "uint" and st is not None and \
                                self.known(self.mkcmp("Le", v.args[1], v.args[0], v.args[0].ty), st) == 1:
                            a = max(a, 0)
                    elif x[0] >= 0 and y[0] >= 0:
                        a, b = x[0] * y[0], x[1] * y[1]
                    else:
                        c = [p * q for p in x for q in y if not (abs(p) == INF or abs(q) == INF)]
                        if len(c) == 4:
                            a, b = min(c), max(c)
                except (OverflowError, ValueError):
                    a = b = None
                if a is not None and not self.is_float(v.ty):
                    r = self.rng(v.ty)
                    if a != a or b != b or a < r[0] or b > r[1]:
                        a = b = None
                if a is not None and (a != a or b != b):
                    a = b = None
            elif op == "Rem":
                y = self.interval(v.args[1], st, d + 1)
                x = self.interval(v.args[0], st, d + 1)
                if x[0] >= 0 and not self.is_float(v.ty):
                    a, b = 0, min(x[1], max(0, y[1] - 1))
                    if y[0] == y[1] > 0 and x[1] != INF and x[0] // y[0] == x[1] // y[0]:
                        a, b = x[0] % y[0], x[1] % y[0]
                elif x[0] >= 0 and y[0] == y[1] > 0 and x[1] != INF and math.floor(x[0] / y[0]) == math.floor(x[1] / y[0]):
                    k = math.floor(x[0] / y[0]) * y[0]
                    a, b = x[0] - k, x[1] - k
                elif x[0] >= 0:
                    a, b = 0, min(x[1], max(abs(y[0]), abs(y[1])))
            elif op == "Div":
                x, y = self.interval(v.args[0], st, d + 1), self.interval(v.args[1], st, d + 1)
                if x[0] >= 0 and y[0] > 0 and not self.is_float(v.ty):
                    a, b = (x[0] // y[1] if y[1] != INF and x[0] != INF else 0), (x[1] // y[0] if x[1] != INF else INF)
                elif x[0] >= 0 and y[0] > 0:
                    a, b = (x[0] / y[1] if INF not in (x[0], y[1]) else 0), (x[1] / y[0] if x[1] != INF else INF)
            elif op == "BitAnd":
                y = self.interval(v.args[1], st, d + 1)
                x = self.interval(v.args[0], st, d + 1)
                if x[0] >= 0 and y[0] >= 0:
                    a, b = 0, min(x[1], y[1])
            elif op == "cast":
                x = self.interval(v.args[0], st, d + 1)
                r = self.rng(v.ty)
                fs, ft = self.is_float(v.args[0].ty) if hasattr(v.args[0], "ty") else False, self.is_float(v.ty)
                if fs and not ft:
                    a = max(r[0], min(r[1], int(x[0]) if abs(x[0]) != INF else x[0]))
                    b = max(r[0], min(r[1], int(x[1]) if abs(x[1]) != INF else x[1]))
                elif x[0] >= r[0] and x[1] <= r[1]:
                    a, b = x
            elif op == "max":
                x, y = self.interval(v.args[0], st, d + 1), self.interval(v.args[1], st, d + 1)
                a, b = max(x[0], y[0]), max(x[1], y[1])
            elif op == "min":
                x, y = self.interval(v.args[0], st, d + 1), self.interval(v.args[1], st, d + 1)
                a, b = min(x[0], y[0]), min(x[1], y[1])
            elif op == "len":
                a, b = 0, (1 << 62)
            elif op == "Neg" and self.is_float(v.ty):
                x = self.interval(v.args[0], st, d + 1)
                a, b = -x[1], -x[0]
            elif op == "abs" and self.is_float(v.ty):
                x = self.interval(v.args[0], st, d + 1)
                a, b = 0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1]))
            elif op in ("abs", "sqrt", "exp"):
                a, b = 0, INF
            elif op in ("sin", "cos"):
                a, b = -1, 1
            elif op == "fract":
                x = self.interval(v.args[0], st, d + 1)
                a, b = (0 if x[0] >= 0 else -1), 1
                if 0 <= x[0] and x[1] != INF and int(x[0]) == int(x[1]):
                    a, b = x[0] - int(x[0]), x[1] - int(x[1])
            elif op in ("floor", "ceil", "round", "trunc"):
                x = self.interval(v.args[0], st, d + 1)
                a, b = x[0] - (1 if op == "floor" and x[0] != int_or(x[0]) else 0), x[1] + (1 if op == "ceil" and x[1] != int_or(x[1]) else 0)
                if op == "floor" and x[0] >= 0:
                    a = max(a, 0)
                if abs(x[0]) != INF and abs(x[1]) != INF:
                    f = {"floor": math.floor, "ceil": math.ceil, "trunc": int}.get(op, lambda q: math.floor(q + 0.5))
                    a, b = f(x[0]), f(x[1])
            elif op in CMP or op == "Not" or op.startswith("ovf"):
                a, b = 0, 1
        if a is not None:
            lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    # ------------------------------------------------------------------ terms
    def top(self, ty, *vals):
        return Top(ty, frozenset(_un(vals)))

    def kint(self, x, ty=None):
        return K(int(x), self.T_usize if ty is None else ty)

    def kbool(self, b):
        return K(1 if b else 0, self.T_bool)

    def wrap(self, x, ty):
        t = self.P.tys[ty]
        if t.k == "uint":
            return x & ((1 << t.d["bits"]) - 1)
        if t.k == "int":
            b = t.d["bits"]
            x &= (1 << b) - 1
            return x - (1 << b) if x >> (b - 1) else x
        return x

    def mk(self, op, args, ty):
        o = O(op, tuple(args), ty)
        if size(o) > self.maxsize:
            return Top(ty, frozenset(leaves(o)))
        return o

    def mkcmp(self, op, a, b, ety):
        """comparison in normal form (Lt, Le, Eq, Not)"""
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        if op == "Ne":
            return self.mknot(self.mkcmp("Eq", a, b, ety))
        if isinstance(a, K) and isinstance(b, K) and type(a.v) in (int, float) and type(b.v) in (int, float):
            r = {"Lt": a.v < b.v, "Le": a.v <= b.v, "Eq": a.v == b.v}[op]
            return self.kbool(r)
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str) and op == "Eq":
            return self.kbool(a.v == b.v)
        if a is b and not self.is_float(ety) and not isinstance(a, Top):
            return self.kbool(op != "Lt")
        if op == "Eq" and self.params is not None and isinstance(a, S) and isinstance(b, S) and self.params(a) and self.params(b):
            return self.kbool(a is b)
        if op == "Eq" and isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        elif op == "Eq" and not isinstance(b, K) and show(b, 3) < show(a, 3):
            a, b = b, a
        return self.mk(op, (a, b), self.T_bool)

    def mknot(self, a):
        if isinstance(a, K):
            return self.kbool(not a.v)
        if isinstance(a, O):
            if a.op == "Not":
                return a.args[0]
            ety = getattr(a.args[0], "ty", None) if a.args else None
            if a.op == "Lt" and self.is_int(ety):
                return self.mk("Le", (a.args[1], a.args[0]), self.T_bool)
            if a.op == "Le" and self.is_int(ety):
                return self.mk("Lt", (a.args[1], a.args[0]), self.T_bool)
        return self.mk("Not", (a,), self.T_bool)

    def lin(self, v, d=0):
        """integer linear form {leaf: coef}, const"""
        if isinstance(v, K) and isinstance(v.v, int):
            return {}, v.v
        if isinstance(v, O) and d < 8 and self.is_int(v.ty):
            if v.op in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
                a, ca = self.lin(v.args[0], d + 1)
                b, cb = self.lin(v.args[1], d + 1)
                s = 1 if v.op.startswith("Add") else -1
                r = dict(a)
                for k, c in b.items():
                    r[k] = r.get(k, 0) + s * c
                    if r[k] == 0:
                        del r[k]
                return r, ca + s * cb
            if v.op in ("Mul", "MulUnchecked") and isinstance(v.args[1], K) and isinstance(v.args[1].v, int):
                a, ca = self.lin(v.args[0], d + 1)
                c = v.args[1].v
                return {k: x * c for k, x in a.items()}, ca * c
            if v.op == "cast" and self.is_int(getattr(v.args[0], "ty", None)):
                r0, r1 = self.rng(v.args[0].ty), self.rng(v.ty)
                if r0[0] >= r1[0] and r0[1] <= r1[1]:
                    return self.lin(v.args[0], d + 1)
        return {v: 1}, 0

    def binop(self, op, a, b, ty, st):
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in CMP:
            return self.mkcmp(base, a, b, getattr(a, "ty", None))
        if base == "Offset":
            return a
        if isinstance(a, K) and isinstance(b, K) and type(a.v) in (int, float) and type(b.v) in (int, float):
            r = self.fold(base, a.v, b.v, ty)
            if r is not None:
                return r
        if self.is_int(ty):
            if base == "Add":
                if isinstance(a, K) and a.v == 0:
                    return b
                if isinstance(b, K) and b.v == 0:
                    return a
                # (x + c1) + c2 and (x - c1) + c2
                if isinstance(b, K) and isinstance(a, O) and a.op == "Add" and isinstance(a.args[1], K):
                    return self.binop("Add", a.args[0], K(self.wrap(a.args[1].v + b.v, ty), ty), ty, st)
                if isinstance(a, O) and a.op == "Sub" and a.args[1] is b:
                    return a.args[0]
            if base == "Sub":
                if isinstance(b, K) and b.v == 0:
                    return a
                if a is b and not isinstance(a, Top):
                    return K(0, ty)
                if isinstance(a, O) and a.op == "Add":
                    if a.args[1] is b:
                        return a.args[0]
                    if a.args[0] is b:
                        return a.args[1]
                    if isinstance(b, K) and isinstance(a.args[1], K) and a.args[1].v >= b.v:
                        return self.binop("Add", a.args[0], K(a.args[1].v - b.v, ty), ty, st)
            if base in ("Mul", "Div") and isinstance(b, K) and b.v == 1:
                return a
            if base == "Mul" and isinstance(a, K) and a.v == 1:
                return b
            if base == "Mul" and (isinstance(a, K) and a.v == 0 or isinstance(b, K) and b.v == 0):
                return K(0, ty)
            if base == "BitAnd" and self.P.tys[ty].k == "bool":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, K):
                        return y if x.v else x
            if base == "BitOr" and self.P.tys[ty].k == "bool":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, K):
                        return x if x.v else y
        if base in COMM and (isinstance(a, K) and not isinstance(b, K)):
            a, b = b, a
        elif base in COMM and not isinstance(b, K) and a is not b and show(b, 4) < show(a, 4):
            a, b = b, a
        return self.mk(base, (a, b), ty)

    def fold(self, op, x, y, ty):
        try:
            if self.is_float(ty):
                if op == "Div":
                    if y == 0:
                        r = float("nan") if x == 0 or x != x else (INF if (x > 0) == (struct.pack("<d", y)[7] < 128) else -INF)
                    else:
                        r = x / y
                elif op == "Rem":
                    import math
                    r = math.fmod(x, y) if y != 0 and abs(x) != INF else float("nan")
                else:
                    r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}[op]()
                return kfloat(f32(r) if self.P.tys[ty].d["bits"] == 32 else r, ty)
            if op in ("Div", "Rem"):
                if y == 0:
                    return None
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = q if op == "Div" else x - q * y
            else:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                     "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << (y & 127),
                     "Shr": lambda: x >> (y & 127)}[op]()
            return K(self.wrap(r, ty), ty)
        except KeyError:
            return None

    def unop(self, op, a, ty, st):
        if op == "Not":
            if self.P.tys[ty].k == "bool":
                return self.mknot(a)
            if isinstance(a, K):
                return K(self.wrap(~a.v, ty), ty)
        if op == "Neg" and isinstance(a, K):
            return kfloat(-a.v, ty) if self.is_float(ty) else K(self.wrap(-a.v, ty), ty)
        if op == "Neg" and isinstance(a, O) and a.op == "Neg":
            return a.args[0]
        return self.mk(op, (a,), ty)

    def cast(self, kind, a, frm, to, st):
        if isinstance(a, (Ref, Refs, BoxV, FnV, Agg, SeqX, SeqA, En)):
            return a
        ft, tt = self.P.tys[frm], self.P.tys[to]
        if isinstance(a, K) and isinstance(a.v, (int, float)):
            if tt.k == "float":
                x = float(a.v)
                return kfloat(f32(x) if tt.d["bits"] == 32 else x, to)
            if tt.k in ("int", "uint", "char", "bool"):
                if isinstance(a.v, float):
                    r = self.rng(to)
                    x = 0 if a.v != a.v else max(r[0], min(r[1], a.v))
                    return K(int(x), to)
                return K(self.wrap(a.v, to), to)
        if frm == to:
            return a
        if tt.k in ("int", "uint", "float", "char", "bool") and ft.k in ("int", "uint", "float", "char", "bool"):
            if self.is_int(frm) and self.is_int(to) and isinstance(a, O) and a.op == "cast" and a.args[0].ty == to:
                r0, r1 = self.rng(to), self.rng(frm)
                if r0[0] >= r1[0] and r0[1] <= r1[1]:
                    return a.args[0]
            return self.mk("cast", (a,), to)
        return a

    def known(self, t, st, d=0):
        """value of a boolean/discriminant term if the state decides it"""
        if isinstance(t, K):
            return t.v
        f = st.facts.get(t)
        if f is not None and len(f) == 1 and not isinstance(f, tuple):
            return next(iter(f))
        if isinstance(t, O):
            if t.op in ("Lt", "Le", "Eq"):
                a, b = t.args
                if self.is_int(getattr(a, "ty", None)) or isinstance(a, DV):
                    x, y = self.interval(a, st), self.interval(b, st)
                    if t.op == "Lt":
                        if x[1] < y[0]:
                            return 1
                        if x[0] >= y[1]:
                            return 0
                    elif t.op == "Le":
                        if x[1] <= y[0]:
                            return 1
                        if x[0] > y[1]:
                            return 0
                    elif x[1] < y[0] or x[0] > y[1]:
                        return 0
                    elif x == y and x[0] == x[1]:
                        return 1
                    g = st.facts.get(t.args[0])
                    if t.op == "Eq" and isinstance(b, K) and g is not None:
                        if isinstance(g, tuple):
                            if b.v in g[1]:
                                return 0
                        elif b.v not in g:
                            return 0
                        elif len(g) == 1:
                            return 1
                    # the smaller of two is at most either, the larger at least either
                    if isinstance(a, O) and a.op == "min" and any(x is b for x in a.args) or isinstance(b, O) and b.op == "max" and any(x is a for x in b.args):
                        if t.op == "Le":
                            return 1
                    if isinstance(b, O) and b.op == "min" and any(x is a for x in b.args) or isinstance(a, O) and a.op == "max" and any(x is b for x in a.args):
                        if t.op == "Lt":
                            return 0
                    # inverse facts
                    if t.op == "Lt":
                        f = st.facts.get(O("Le", (b, a), t.ty))
                        if f is not None and f == frozenset((1,)):
                            return 0
                        f = st.facts.get(O("Le", (a, b), t.ty))
                        g = st.facts.get(O("Eq", (a, b), t.ty)) or st.facts.get(O("Eq", (b, a), t.ty))
                        if f == frozenset((1,)) and g == frozenset((0,)):
                            return 1
                    if t.op == "Le":
                        f = st.facts.get(O("Lt", (b, a), t.ty))
                        if f is not None and f == frozenset((1,)):
                            return 0
                        f = st.facts.get(O("Lt", (a, b), t.ty))
                        if f is not None and f == frozenset((1,)):
                            return 1
                    r = self.lin_cmp(t, st)
                    if r is not None:
                        return r
                elif self.is_float(getattr(a, "ty", None)):
                    x, y = self.interval(a, st), self.interval(b, st)
                    # only the cases that hold for NaN as well
                    if t.op == "Lt" and x[0] >= y[1]:
                        return 0
                    if t.op == "Le" and x[0] > y[1]:
                        return 0
                    if t.op == "Eq" and (x[1] < y[0] or x[0] > y[1]):
                        return 0
                    if self.numbers and (x[1] < y[0] or t.op != "Lt" and x[1] == y[0] and (t.op == "Le" or x[0] == y[1])) and \
                            self.finite(a, st) and self.finite(b, st):
                        return 1
            elif t.op == "Not":
                k = self.known(t.args[0], st, d)
                return None if k is None else 1 - k
            elif t.op == "BitAnd" and d < 4:
                x, y = self.known(t.args[0], st, d + 1), self.known(t.args[1], st, d + 1)
                if x == 0 or y == 0:
                    return 0
                if x == 1 and y == 1:
                    return 1
            elif t.op == "BitOr" and d < 4:
                x, y = self.known(t.args[0], st, d + 1), self.known(t.args[1], st, d + 1)
                if x == 1 or y == 1:
                    return 1
                if x == 0 and y == 0:
                    return 0
            elif t.op == "ovf:Sub":
                k = self.known(self.mkcmp("Lt", t.args[0], t.args[1], t.args[0].ty), st)
                return k
            elif t.op.startswith("ovf:"):
                o = t.op[4:]
                x, y = self.interval(t.args[0], st), self.interval(t.args[1], st)
                r = self.rng(getattr(t.args[0], "ty", self.T_usize))
                if o == "Add" and x[0] + y[0] >= r[0] and x[1] + y[1] <= r[1]:
                    return 0
                if o == "Mul" and x[0] >= 0 and y[0] >= 0 and (x[1] == 0 or y[1] == 0 or x[1] * y[1] <= r[1]):
                    return 0
            elif t.op == "discr":
                pass
        x = self.interval(t, st) if not isinstance(t, DV) else (0, 1)
        if x[0] == x[1]:
            return x[0]
        return None

    def finite(self, v, st, d=0):
        """whether a term is computed from numbers between known bounds, and so is a number itself"""
        if isinstance(v, K):
            return isinstance(v.v, (int, float)) and abs(v.v) < INF
        if isinstance(v, S):
            return v in self.numbers or self.is_int(v.ty)
        if not isinstance(v, O) or d > 40:
            return False
        if self.is_int(v.ty):
            return True
        if v.op not in ("Add", "Sub", "Mul", "Neg", "Div", "Rem", "cast", "abs", "min", "max", "floor", "ceil", "round", "trunc", "fract", "sin", "cos"):
            return False
        x = self.interval(v, st)
        if abs(x[0]) == INF or abs(x[1]) == INF:
            return False
        if v.op in ("Div", "Rem"):
            y = self.interval(v.args[1], st)
            if y[0] <= 0 <= y[1]:
                return False
        return all(self.finite(x, st, d + 1) for x in v.args)

    def lin_cmp(self, t, st):
        a, b = t.args
        if not (self.is_int(getattr(a, "ty", None)) and self.is_int(getattr(b, "ty", None))):
            return None
        la, ca = self.lin(a)
        lb, cb = self.lin(b)
        d = dict(la)
        for k, c in lb.items():
            d[k] = d.get(k, 0) - c
            if d[k] == 0:
                del d[k]
        lo = hi = ca - cb
        if any(isinstance(k, Top) for k in d):
            return None
        for k, c in d.items():
            x = self.interval(k, st)
            p, q = (c * x[0], c * x[1]) if c > 0 else (c * x[1], c * x[0])
            lo, hi = lo + p, hi + q
        # a - b in [lo, hi]
        best = (lo, hi)
        # facts of the form x < y / x <= y that bound the difference
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            pos = [k for k, c in d.items() if c == 1][0]
            neg = [k for k, c in d.items() if c == -1][0]
            off = ca - cb
            for x, y, sgn in ((pos, neg, 1), (neg, pos, -1)):
                f = st.facts.get(O("Lt", (x, y), self.T_bool))
                g = st.facts.get(O("Le", (x, y), self.T_bool))
                m = None
                if f == frozenset((1,)):
                    m = -1
                elif g == frozenset((1,)):
                    m = 0
                if isinstance(y, O) and False:
                    pass
                if isinstance(x, O) and x.op == "Rem" and x.args[1] is y and self.interval(x.args[0], st)[0] >= 0 \
                        and self.interval(y, st)[0] >= 1:
                    m = -1 if m is None else min(m, -1)
                if m is not None:
                    if sgn == 1:     # pos - neg <= m
                        best = (best[0], min(best[1], off + m))
                    else:            # neg - pos <= m  =>  pos - neg >= -m
                        best = (max(best[0], off - m), best[1])
            if best == (lo, hi):
                for f, g in st.facts.items():
                    if g != ONE or not isinstance(f, O) or f.op not in ("Lt", "Le") or not self.is_int(getattr(f.args[0], "ty", None)):
                        continue
                    fd, fo = self.lin_diff(f)
                    m = -fo - (1 if f.op == "Lt" else 0)
                    if fd.get(pos) == 1 and fd.get(neg) == -1 and len(fd) == 2:
                        best = (best[0], min(best[1], off + m))
                    elif fd.get(pos) == -1 and fd.get(neg) == 1 and len(fd) == 2:
                        best = (max(best[0], off - m), best[1])
        lo, hi = best
        if t.op == "Lt":
            return 1 if hi < 0 else 0 if lo >= 0 else None
        if t.op == "Le":
            return 1 if hi <= 0 else 0 if lo > 0 else None
        return 0 if hi < 0 or lo > 0 else 1 if lo == hi == 0 else None

    def lin_diff(self, f):
        """left minus right side of a comparison as (coefficients, constant)"""
        r = self.lin_cache.get(f)
        if r is None:
            la, ca = self.lin(f.args[0])
            lb, cb = self.lin(f.args[1])
            d = dict(la)
            for k, c in lb.items():
                d[k] = d.get(k, 0) - c
                if d[k] == 0:
                    del d[k]
            r = self.lin_cache[f] = (d, ca - cb)
        return r

    def assume(self, t, val, st):
        """adds the fact t == val; returns False when contradictory"""
        if isinstance(t, K):
            return t.v == val
        k = self.known(t, st)
        if k is not None and k != val:
            return False
        if isinstance(t, (Top, DV)):
            return True
        st.facts[t] = frozenset((val,))
        if isinstance(t, O):
            if t.op == "Not":
                return self.assume(t.args[0], 1 - val, st)
            if t.op == "BitAnd" and val == 1 and self.P.tys[t.ty].k == "bool":
                return self.assume(t.args[0], 1, st) and self.assume(t.args[1], 1, st)
            if t.op == "BitOr" and val == 0 and self.P.tys[t.ty].k == "bool":
                return self.assume(t.args[0], 0, st) and self.assume(t.args[1], 0, st)
            if t.op == "ovf:Sub":
                c = self.mkcmp("Lt", t.args[0], t.args[1], t.args[0].ty)
                return self.assume(c, val, st)
            if t.op in ("Lt", "Le", "Eq"):
                a, b = t.args
                isint = self.is_int(getattr(a, "ty", None))
                fl = self.is_float(getattr(a, "ty", None))
                if not (isint or fl):
                    return True
                x, y = self.interval(a, st), self.interval(b, st)
                one = 1 if isint else 0
                if t.op == "Eq" and val == 1:
                    lo, hi = max(x[0], y[0]), min(x[1], y[1])
                    if lo > hi:
                        return False
                    self.setiv(a, lo, hi, st)
                    self.setiv(b, lo, hi, st)
                    if isinstance(b, K) and isinstance(b.v, int):
                        st.facts[a] = frozenset((b.v,))
                elif t.op == "Eq":
                    if isinstance(b, K) and isint:
                        g = st.facts.get(a)
                        if isinstance(g, tuple):
                            st.facts[a] = ("ne", g[1] | {b.v})
                        elif g is None:
                            st.facts[a] = ("ne", frozenset((b.v,)))
                        if x[0] == b.v:
                            self.setiv(a, x[0] + 1, x[1], st)
                        elif x[1] == b.v:
                            self.setiv(a, x[0], x[1] - 1, st)
                elif val == 1 or isint:
                    if val == 1:
                        p, q, s = a, b, (one if t.op == "Lt" else 0)
                        xp, yq = x, y
                    else:
                        p, q, s = b, a, (0 if t.op == "Lt" else one)
                        xp, yq = y, x
                        if isint:
                            st.facts[O("Le" if t.op == "Lt" else "Lt", (b, a), t.ty)] = frozenset((1,))
                    # p + s <= q
                    if xp[0] + s > yq[1]:
                        return False
                    self.setiv(p, xp[0], min(xp[1], yq[1] - s), st)
                    self.setiv(q, max(yq[0], xp[0] + s), yq[1], st)
                elif fl and val == 0 and t.op == "Lt":
                    # not (a < b): a >= b or NaN; keep as a fact only
                    pass
        return True

    def setiv(self, v, lo, hi, st):
        if isinstance(v, (S, O)):
            st.iv[v] = (lo, hi)
            # push through simple wrappers
            if isinstance(v, O) and v.op == "cast" and self.is_int(getattr(v.args[0], "ty", None)):
                r0, r1 = self.rng(v.args[0].ty), self.rng(v.ty)
                if r0[0] >= r1[0] and r0[1] <= r1[1]:
                    a = v.args[0]
                    x = self.interval(a, st)
                    self.setiv(a, max(lo, x[0]), min(hi, x[1]), st)
            elif isinstance(v, O) and v.op == "Add" and isinstance(v.args[1], K) and self.is_int(v.ty):
                a, c = v.args[0], v.args[1].v
                x = self.interval(a, st)
                if x[1] + c <= self.rng(v.ty)[1]:
                    self.setiv(a, max(lo - c, x[0]), min(hi - c, x[1]), st)
            elif isinstance(v, O) and v.op == "Sub" and isinstance(v.args[1], K) and self.is_int(v.ty):
                a, c = v.args[0], v.args[1].v
                x = self.interval(a, st)
                self.setiv(a, max(lo + c, x[0]), min(hi + c, x[1]), st)

    # ----------------------------------------------------------------- memory
    def sym(self, name, ty):
        return S(name, ty)

    def init_root(self, root, st):
        if root[0] == "d":
            return self.deref_sym(root[1])
        if root[0] == "c":
            return root[1]
        raise KeyError(root)

    def deref_sym(self, v):
        to = self.pointee(getattr(v, "ty", None)) if hasattr(v, "ty") else None
        if isinstance(v, S):
            return S(v.name + ".*", to)
        if isinstance(v, BoxV):
            return v.v
        if isinstance(v, K) and isinstance(v.v, str):
            return v
        return O("deref", (v,), to)

    def get(self, root, st):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "l":
                return UNDEF
            v = self.init_root(root, st)
        return v

    def load(self, root, path, st):
        v = self.get(root, st)
        if self.reads is not None and path:
            self.reads.add((root, path[0]))
        i, n = 0, len(path)
        while i < n:
            e = path[i]
            if e[0] == "s" and i + 1 < n and path[i + 1][0] == "e":
                idx = self.binop("Add", e[1], path[i + 1][1], self.T_usize, st) if path[i + 1][1] is not None else None
                e = ("e", idx)
                i += 1
            v = self.proj(v, e, st)
            i += 1
        return v

    def seq_len(self, v, st):
        if isinstance(v, SeqX):
            return self.kint(len(v.es))
        if isinstance(v, SeqA):
            return v.n
        if isinstance(v, (S, O)):
            t = self.P.tys.get(v.ty)
            if t is not None and t.k == "array" and isinstance(t.d["len"], int):
                return self.kint(t.d["len"])
            if isinstance(v, O):
                if v.op == "vec.push":
                    return self.binop("Add", self.seq_len(v.args[0], st), self.kint(1), self.T_usize, st)
                if v.op == "vec.insert":
                    return self.binop("Add", self.seq_len(v.args[0], st), self.kint(1), self.T_usize, st)
                if v.op in ("vec.remove", "vec.pop"):
                    return self.binop("Sub", self.seq_len(v.args[0], st), self.kint(1), self.T_usize, st)
                if v.op == "slice":
                    return self.binop("Sub", v.args[2], v.args[1], self.T_usize, st)
                if v.op == "vec.set":
                    return self.seq_len(v.args[0], st)
            return self.mk("len", (v,), self.T_usize)
        if isinstance(v, K) and isinstance(v.v, str):
            return self.kint(len(v.v.encode()))
        if isinstance(v, Agg):
            return self.mk("len", (v,), self.T_usize)
        return Top(self.T_usize, frozenset(leaves(v)))

    def proj(self, v, e, st):
        k = e[0]
        if isinstance(v, (Undef, Top, K, FnV)):
            if isinstance(v, Undef):
                return UNDEF
            if k in ("b",):
                return v
            if isinstance(v, K) and isinstance(v.v, str):
                return self.mk("strproj", (v,), None) if k != "s" else v
            return Top(None, leaves(v))
        if k == "f":
            i = e[1]
            if isinstance(v, Agg):
                return v.fs[i] if i < len(v.fs) else UNDEF
            if isinstance(v, S):
                ft, fnames = self.field_tys(v.ty) if v.ty is not None else None, None
                if ft is None:
                    return S("%s.%d" % (v.name, i), None)
                return S("%s.%s" % (v.name, self.field_names(v.ty)[i]), ft[i])
            if isinstance(v, O):
                ft = self.field_tys(v.ty) if v.ty is not None else None
                return self.mk("fld%d" % i, (v,), ft[i] if ft else None)
            if isinstance(v, En):
                # a struct seen through several variants: cannot happen for well-typed code
                return Top(None, leaves(v))
            return Top(None, leaves(v))
        if k == "vf":
            if isinstance(v, En):
                for vv, fs in v.alts:
                    if vv == e[1]:
                        return fs[e[2]]
                return UNDEF
            if isinstance(v, (S, O)):
                vf = self.variant_fields(v.ty, e[1]) if v.ty is not None and self.P.tys[v.ty].k == "enum" else None
                if vf is None:
                    return Top(None, leaves(v))
                nm, fty = vf[e[2]]
                if isinstance(v, S):
                    return S("%s#%s.%s" % (v.name, self.variants(v.ty)[e[1]][0], nm), fty)
                return self.mk("fld%s.%d" % (self.variants(v.ty)[e[1]][0], e[2]), (v,), fty)
            return Top(None, leaves(v))
        if k == "b":
            if isinstance(v, BoxV):
                return v.v
            if isinstance(v, S):
                return S(v.name + ".*", self.pointee(v.ty))
            if isinstance(v, O):
                return self.mk("deref", (v,), self.pointee(v.ty))
            return v
        if k == "e":
            return self.elem(v, e[1], st)
        if k == "s":
            return self.slice_val(v, e[1], e[2], st)
        if k == "m":      # value of the i-th entry of an exact map
            if isinstance(v, MapX) and e[1] < len(v.es):
                return v.es[e[1]][1]
            return Top(None, leaves(v))
        if k == "mkey":
            if isinstance(v, MapX) and e[1] < len(v.es):
                return v.es[e[1]][0]
            return Top(None, leaves(v))
        if k == "mv":     # value under a key term
            return self.map_value(v, e[1], st)
        if k == "mk":     # a key equal to the term
            return e[1]
        return Top(None, leaves(v))

    def elem(self, v, idx, st):
        if isinstance(v, SeqX):
            if isinstance(idx, K) and isinstance(idx.v, int):
                return v.es[idx.v] if 0 <= idx.v < len(v.es) else UNDEF
            lo, hi = self.interval(idx, st) if idx is not None else (0, INF)
            c = [x for i, x in enumerate(v.es) if lo <= i <= hi]
            return self.joins(c, (0, "elem", ("x", self.uid(v), 0 if idx is None else self.uid(idx)), ()))
        if isinstance(v, SeqA):
            return v.e
        if isinstance(v, S):
            et = self.elem_ty(v.ty)
            return S("%s[%s]" % (v.name, "*" if idx is None else show(idx, 3)), et)
        if isinstance(v, O):
            et = self.elem_ty(v.ty)
            if v.op in ("vec.push", "vec.insert", "vec.remove", "vec.set") and et is not None:
                if v.op == "vec.push":
                    n = self.seq_len(v.args[0], st)
                    if idx is n:
                        return v.args[1]
                    if idx is not None and self.known(self.mkcmp("Lt", idx, n, self.T_usize), st) == 1:
                        return self.elem(v.args[0], idx, st)
                    return self.joins([v.args[1], self.elem(v.args[0], idx, st)], (0, "elem", ("x", self.uid(v), 0 if idx is None else self.uid(idx)), ()))
                if v.op in ("vec.insert", "vec.set"):
                    if idx is v.args[1]:
                        return v.args[2]
                    return self.joins([v.args[2], self.elem(v.args[0], None, st)], (0, "elem", ("x", self.uid(v), 0 if idx is None else self.uid(idx)), ()))
                return self.elem(v.args[0], None, st)
            return self.mk("elem", (v, idx) if idx is not None else (v,), et)
        return Top(None, leaves(v))

    def slice_val(self, v, lo, hi, st):
        if isinstance(v, SeqX) and isinstance(lo, K) and isinstance(hi, K):
            return SeqX(v.es[lo.v:hi.v])
        if isinstance(v, SeqX):
            return SeqA(self.elem(v, None, st), self.binop("Sub", hi, lo, self.T_usize, st)) if v.es else v
        if isinstance(v, SeqA):
            return SeqA(v.e, self.binop("Sub", hi, lo, self.T_usize, st))
        return self.mk("slice", (v, lo, hi), getattr(v, "ty", None))

    def map_value(self, v, key, st):
        if isinstance(v, MapX):
            for a, b in v.es:
                if a is key:
                    return b
            c = [b for a, b in v.es if self.may_eq(a, key, st)]
            return self.joins(c, (0, "mapv", ("x", self.uid(v), self.uid(key)), ())) if c else UNDEF
        if isinstance(v, MapA):
            return v.v
        if isinstance(v, O) and v.op == "map.insert":
            if v.args[1] is key:
                return v.args[2]
            if not self.may_eq(v.args[1], key, st):
                return self.map_value(v.args[0], key, st)
            return self.joins([v.args[2], self.map_value(v.args[0], key, st)], (0, "mapv", ("x", self.uid(v), self.uid(key)), ()))
        if isinstance(v, O) and v.op == "map.remove":
            return self.map_value(v.args[0], key, st)
        if isinstance(v, O) and v.op == "map.set":
            if v.args[1] is key:
                return v.args[2]
            if not self.may_eq(v.args[1], key, st):
                return self.map_value(v.args[0], key, st)
            return self.joins([v.args[2], self.map_value(v.args[0], key, st)], (0, "mapv", ("x", self.uid(v), self.uid(key)), ()))
        mt = self.map_tys(getattr(v, "ty", None))
        vt = mt[1] if mt else None
        if isinstance(v, S):
            return S("%s{%s}" % (v.name, show(key, 4)), vt)
        if isinstance(v, O):
            return self.mk("mapv", (v, key), vt)
        return Top(vt, leaves(v) | leaves(key))

    def may_eq(self, a, b, st):
        if a is b:
            return True
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(a, S) and isinstance(b, S) and a.name.startswith("idx:") and b.name.startswith("idx:"):
            return False
        if isinstance(a, S) and a.name.startswith("idx:") and isinstance(b, S) and b.name.startswith("idx:"):
            return False
        f = st.facts.get(self.mkcmp("Eq", a, b, getattr(a, "ty", None)))
        if f == frozenset((0,)):
            return False
        return True

    def expand(self, v, e):
        """one level of a symbolic aggregate, so that a part can be replaced"""
        if isinstance(v, (S, O)) and v.ty is not None:
            if e[0] == "f":
                ft = self.field_tys(v.ty)
                if ft is not None:
                    return Agg(v.ty, tuple(self.proj(v, ("f", i), None) for i in range(len(ft))))
            elif e[0] == "vf":
                if self.P.tys[v.ty].k == "enum":
                    n = len(self.variant_fields(v.ty, e[1]))
                    return En(v.ty, ((e[1], tuple(self.proj(v, ("vf", e[1], i), None) for i in range(n))),))
            elif e[0] == "b":
                return BoxV(self.proj(v, e, None), None)
        return None

    def expand_enum(self, v):
        if isinstance(v, (S, O)) and v.ty is not None and self.P.tys[v.ty].k == "enum":
            return En(v.ty, tuple((i, tuple(self.proj(v, ("vf", i, j), None) for j in range(len(x[2]))))
                                  for i, x in enumerate(self.variants(v.ty))))
        return None

    def store(self, root, path, val, st, weak=False):
        self.touched = set()
        if not path:
            st.mem[root] = val if not weak else self.join(self.get(root, st), val, (0, "weak", root, ()))
        else:
            st.mem[root] = self.upd(self.get(root, st), path, 0, val, st, weak, root)
        if self.touched:
            self.forget(self.touched, st)
            self.touched = set()

    def forget(self, syms, st):
        for d in (st.facts, st.iv):
            for t in [t for t in d if not syms.isdisjoint(leaves(t))]:
                del d[t]

    def upd(self, v, path, i, val, st, weak, root):
        if i == len(path):
            return self.join(v, val, (0, "weak", root, path)) if weak else val
        e = path[i]
        k = e[0]
        if k == "s" and i + 1 < len(path) and path[i + 1][0] == "e":
            idx = self.binop("Add", e[1], path[i + 1][1], self.T_usize, st) if path[i + 1][1] is not None else None
            path = path[:i] + (("e", idx),) + path[i + 2:]
            return self.upd(v, path, i, val, st, weak, root)
        if isinstance(v, (Undef, Top)):
            # build a partial aggregate when possible
            if isinstance(v, Undef) and k == "f":
                fs = [UNDEF] * (e[1] + 1)
                fs[e[1]] = self.upd(UNDEF, path, i + 1, val, st, weak, root)
                return Agg(None, tuple(fs))
            if isinstance(v, Undef) and k == "vf":
                fs = [UNDEF] * (e[2] + 1)
                fs[e[2]] = self.upd(UNDEF, path, i + 1, val, st, weak, root)
                return En(None, ((e[1], tuple(fs)),))
            if isinstance(v, Undef) and k == "b":
                return BoxV(self.upd(UNDEF, path, i + 1, val, st, weak, root), None)
            return Top(getattr(v, "ty", None), leaves(v) | leaves(val))
        if k in ("f", "vf", "b"):
            x = v
            if isinstance(v, (S, O)):
                x = self.expand(v, e)
                if x is None:
                    return Top(v.ty, leaves(v) | leaves(val))
            if k == "f" and isinstance(x, Agg):
                fs = list(x.fs)
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.upd(fs[e[1]], path, i + 1, val, st, weak, root)
                return Agg(x.ty, tuple(fs))
            if k == "vf" and isinstance(x, En):
                out = []
                hit = False
                for vv, fs in x.alts:
                    if vv == e[1]:
                        hit = True
                        fs = list(fs)
                        while len(fs) <= e[2]:
                            fs.append(UNDEF)
                        fs[e[2]] = self.upd(fs[e[2]], path, i + 1, val, st, weak, root)
                        out.append((vv, tuple(fs)))
                    # writing through a variant proves it is that variant
                if not hit:
                    return x
                return En(x.ty, tuple(out))
            if k == "b" and isinstance(x, BoxV):
                return BoxV(self.upd(x.v, path, i + 1, val, st, weak, root), x.dyn)
            return Top(getattr(v, "ty", None), leaves(v) | leaves(val))
        if k == "e":
            idx = e[1]
            if isinstance(v, SeqX):
                if isinstance(idx, K) and isinstance(idx.v, int):
                    if not 0 <= idx.v < len(v.es):
                        return v
                    es = list(v.es)
                    es[idx.v] = self.upd(es[idx.v], path, i + 1, val, st, weak, root)
                    return SeqX(tuple(es))
                lo, hi = self.interval(idx, st) if idx is not None else (0, INF)
                return SeqX(tuple(self.upd(x, path, i + 1, val, st, True, root) if lo <= j <= hi else x
                                  for j, x in enumerate(v.es)))
            if isinstance(v, SeqA):
                return SeqA(self.upd(v.e, path, i + 1, val, st, True, root), v.n)
            if isinstance(v, (S, O)):
                if i + 1 == len(path) and idx is not None and not weak:
                    o = O("vec.set", (v, idx, val), v.ty)
                    if size(o) <= 30 and isinstance(v, S):
                        return o
                return SeqA(self.upd(self.elem(v, None, st), path, i + 1, val, st, True, root), self.seq_len(v, st))
            return Top(getattr(v, "ty", None), leaves(v) | leaves(val))
        if k == "m":
            if isinstance(v, MapX):
                es = list(v.es)
                es[e[1]] = (es[e[1]][0], self.upd(es[e[1]][1], path, i + 1, val, st, weak, root))
                return MapX(tuple(es))
        if k == "mv":
            if isinstance(v, MapX):
                es = []
                exact = any(a is e[1] for a, _ in v.es)
                for a, b in v.es:
                    if a is e[1]:
                        b = self.upd(b, path, i + 1, val, st, weak, root)
                    elif not exact and self.may_eq(a, e[1], st):
                        b = self.upd(b, path, i + 1, val, st, True, root)
                    es.append((a, b))
                return MapX(tuple(es))
            if isinstance(v, MapA):
                return MapA(v.k, self.upd(v.v, path, i + 1, val, st, True, root), v.n)
            if isinstance(v, (S, O)):
                new = self.upd(self.map_value(v, e[1], st), path, i + 1, val, st, weak, root)
                if isinstance(v, O) and v.op in ("map.set", "map.insert") and v.args[1] is e[1]:
                    return O(v.op, (v.args[0], e[1], new), v.ty)
                if size(v) > 20:
                    return MapA(Top(None, leaves(v) | leaves(e[1])), Top(None, leaves(v) | leaves(new)), Top(self.T_usize, leaves(v)))
                return O("map.set", (v, e[1], new), v.ty)
        if k == "s":
            # a whole subslice is replaced
            if isinstance(v, SeqX) and isinstance(e[1], K) and isinstance(e[2], K) and isinstance(val, SeqX) and i + 1 == len(path):
                es = list(v.es)
                es[e[1].v:e[2].v] = val.es
                return SeqX(tuple(es))
            nv = val if i + 1 < len(path) else self.elem(val, None, st)
            if isinstance(v, SeqX):
                lo, hi = self.interval(e[1], st)[0], self.interval(e[2], st)[1]
                return SeqX(tuple(self.join(x, nv, (0, "weak", root, path[:i] + (("e", j),))) if lo <= j < hi else x for j, x in enumerate(v.es)))
            if isinstance(v, SeqA):
                return SeqA(self.join(v.e, nv, (0, "weak", root, path[:i])), v.n)
            if isinstance(v, (S, O)):
                return SeqA(self.join(self.elem(v, None, st), nv, (0, "weak", root, path[:i])), self.seq_len(v, st))
        return Top(getattr(v, "ty", None), leaves(v) | leaves(val))

    # ------------------------------------------------------------------ joins
    def joins(self, vs, loc):
        if not vs:
            return UNDEF
        r = vs[0]
        for i, v in enumerate(vs[1:]):
            r = self.join(r, v, loc)
        return r

    def join(self, a, b, loc, widen=False, sa=None, sb=None):
        if a is b:
            return a
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        L = lambda e: (loc[0], loc[1], loc[2], loc[3] + (e,))
        J = lambda x, y, e: self.join(x, y, L(e), widen, sa, sb)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs) and (a.ty == b.ty or a.ty is None or b.ty is None):
            return Agg(a.ty if a.ty is not None else b.ty, tuple(J(x, y, ("f", i)) for i, (x, y) in enumerate(zip(a.fs, b.fs))))
        if isinstance(a, Agg) and isinstance(b, (S, O)) and b.ty == a.ty and not self.is_phi(b):
            e = self.expand(b, ("f", 0)) if a.fs else a
            if e is not None:
                return self.join(a, e, loc, widen, sa, sb)
        if isinstance(b, Agg) and isinstance(a, (S, O)):
            return self.join(b, a, loc, widen, sb, sa) if b.ty == a.ty and not self.is_phi(a) and (self.expand(a, ("f", 0)) is not None) else self.jtop(a, b, loc)
        if isinstance(a, En) or isinstance(b, En):
            x = a if isinstance(a, En) else self.expand_enum(a)
            y = b if isinstance(b, En) else self.expand_enum(b)
            if x is not None and y is not None:
                d = dict(x.alts)
                for v, fs in y.alts:
                    if v in d and len(d[v]) == len(fs):
                        d[v] = tuple(J(p, q, ("vf", v, i)) for i, (p, q) in enumerate(zip(d[v], fs)))
                    elif v not in d:
                        d[v] = fs
                return En(x.ty if x.ty is not None else y.ty, tuple(sorted(d.items())))
        if isinstance(a, BoxV) and isinstance(b, (S, O)) and self.is_box(b.ty):
            b = self.expand(b, ("b",))
        elif isinstance(b, BoxV) and isinstance(a, (S, O)) and self.is_box(a.ty):
            a = self.expand(a, ("b",))
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return BoxV(J(a.v, b.v, ("b",)), a.dyn if a.dyn == b.dyn else None)
        if isinstance(a, (Ref, Refs)) and isinstance(b, (Ref, Refs)):
            s = (a.alts if isinstance(a, Refs) else frozenset((a,))) | (b.alts if isinstance(b, Refs) else frozenset((b,)))
            if len(s) > 8:
                return Top(None, _un(s))
            return Refs(s)
        seq = (SeqX, SeqA)
        if isinstance(a, seq) or isinstance(b, seq):
            if isinstance(a, SeqX) and isinstance(b, SeqX) and len(a.es) == len(b.es):
                return SeqX(tuple(J(x, y, ("e", i)) for i, (x, y) in enumerate(zip(a.es, b.es))))
            st0 = State()
            ea = self.elem(a, None, st0)
            eb = self.elem(b, None, st0)
            na, nb = self.seq_len(a, st0), self.seq_len(b, st0)
            return SeqA(J(ea, eb, ("e", None)), J(na, nb, ("len",)))
        mp = (MapX, MapA)
        if isinstance(a, mp) or isinstance(b, mp):
            if isinstance(a, MapX) and isinstance(b, MapX) and len(a.es) == len(b.es) and all(x[0] is y[0] for x, y in zip(a.es, b.es)):
                return MapX(tuple((x[0], J(x[1], y[1], ("m", i))) for i, (x, y) in enumerate(zip(a.es, b.es))))

            def parts(m):
                if isinstance(m, MapX):
                    if not m.es:
                        return UNDEF, UNDEF, self.kint(0)
                    return (self.joins([x for x, _ in m.es], L(("mkey", -1))), self.joins([y for _, y in m.es], L(("m", -1))), self.kint(len(m.es)))
                if isinstance(m, MapA):
                    return m.k, m.v, m.n
                mt = self.map_tys(m.ty) or (None, None)
                if isinstance(m, S):
                    return S(m.name + "{k}", mt[0]), S(m.name + "{v}", mt[1]), self.mk("len", (m,), self.T_usize)
                return self.top(mt[0], m), self.top(mt[1], m), self.mk("len", (m,), self.T_usize)
            pa, pb = parts(a), parts(b)
            return MapA(J(pa[0], pb[0], ("mkey", -1)), J(pa[1], pb[1], ("m", -1)), J(pa[2], pb[2], ("len",)))
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind:
            J2 = lambda p, q, e: p if p is q or p == q and not isinstance(p, V) else \
                self.join(p, q, L(e), widen, sa, sb) if isinstance(p, V) and isinstance(q, V) else None
            if a.kind in ("slice", "seq") and (a.pos != b.pos or a.n != b.n or a.a is not b.a and a.n is not None):
                return It(a.kind, J2(a.a, b.a, ("it",)), None, None, J2(a.x, b.x, ("itx",)))
            return It(a.kind, J2(a.a, b.a, ("it",)), J2(a.pos, b.pos, ("itp",)) if a.pos == b.pos or isinstance(a.pos, V) else None,
                      a.n if a.n == b.n else None, J2(a.x, b.x, ("itx",)))
        if isinstance(a, (S, O)) and isinstance(b, (S, O)) and a.ty == b.ty and a.ty is not None:
            t = self.P.tys[a.ty]
            if self.elem_ty(a.ty) is not None:
                st0 = State()
                return SeqA(J(self.elem(a, None, st0), self.elem(b, None, st0), ("e", None)),
                            J(self.seq_len(a, st0), self.seq_len(b, st0), ("len",)))
            if t.k == "enum" and not self.is_phi(a) and not self.is_phi(b) and len(loc[3]) < 8:
                return self.join(self.expand_enum(a), self.expand_enum(b), loc, widen, sa, sb)
            if t.k in ("struct", "tuple") and not self.is_phi(a) and not self.is_phi(b) and len(loc[3]) < 8:
                n = self.field_tys(a.ty)
                if n and not self.map_tys(a.ty) and self.adt_name(a.ty) not in self.M.OPAQUE:
                    return self.join(self.expand(a, ("f", 0)), self.expand(b, ("f", 0)), loc, widen, sa, sb)
        if isinstance(a, (K, S, O, Top, DV)) and isinstance(b, (K, S, O, Top, DV)):
            if isinstance(a, DV) or isinstance(b, DV):
                return Top(self.T_isize, leaves(a) | leaves(b))
            ty = a.ty if a.ty is not None else b.ty
            s = self.mkphi(loc, ty, (a, b))
            if ty is not None and self.P.tys[ty].k in ("int", "uint", "float", "bool", "char"):
                ia = self.interval(a, sa) if a is not s else self.interval(b, sb)
                ib = self.interval(b, sb) if b is not s else self.interval(a, sa)
                self.phi_bounds(s, ia, ib, widen)
            return s
        return self.jtop(a, b, loc)

    def jtop(self, a, b, loc):
        ta, tb = getattr(a, "ty", None), getattr(b, "ty", None)
        ty = ta if ta == tb else None
        return self.mkphi(loc, ty, [x if isinstance(x, (S, O, Top, K)) else Top(ty, leaves(x)) for x in (a, b)])

    def join_states(self, a, b, fid, blk, widen=False):
        """a: the retained state, b: the arriving one; returns (state, changed)"""
        mem = {}
        changed = False
        self.touched = set()
        for r, x in a.mem.items():
            y = b.mem.get(r)
            if y is None:
                if r[0] == "l" or r[0] in ("tmp", "it"):
                    mem[r] = x
                    continue
                y = self.init_root(r, b)
            if x is y:
                mem[r] = x
                continue
            z = self.join(x, y, (fid, blk, r, ()), widen, a, b)
            if z is not x:
                changed = True
            mem[r] = z
        for r, y in b.mem.items():
            if r not in a.mem:
                if r[0] == "d":
                    x = self.init_root(r, a)
                    z = self.join(x, y, (fid, blk, r, ()), widen, a, b)
                    mem[r] = z
                    if z is not x:
                        changed = True
                else:
                    mem[r] = y
                    changed = True
        facts, iv = {}, {}
        for t, f in a.facts.items():
            g = b.facts.get(t)
            if g is None:
                # b may know it otherwise
                k = self.known(t, b) if isinstance(t, O) and isinstance(f, frozenset) and len(f) == 1 else None
                if k is not None and k in f:
                    facts[t] = f
                continue
            if f == g:
                facts[t] = f
            elif isinstance(f, frozenset) and isinstance(g, frozenset):
                facts[t] = f | g
        # facts only b has: kept if a implies them
        if not widen:
            for t, g in b.facts.items():
                if t not in facts and t not in a.facts and isinstance(t, O) and isinstance(g, frozenset) and len(g) == 1:
                    k = self.known(t, a)
                    if k is not None and k in g:
                        facts[t] = g
        for t, f in a.iv.items():
            if t in b.iv:
                g = b.iv[t]
                iv[t] = f if f == g else ((min(f[0], g[0]), max(f[1], g[1])) if not widen else
                                         (f[0] if f[0] <= g[0] else -INF, f[1] if f[1] >= g[1] else INF))
        if self.touched:
            # what was known about an earlier value of the same name says nothing about the new one
            for d in (facts, iv):
                for t in [t for t in d if not self.touched.isdisjoint(leaves(t))]:
                    del d[t]
            self.touched = set()
        if facts != a.facts or iv != a.iv:
            changed = True
        return State(mem, facts, iv, a.obs, a.tag), changed

    # ------------------------------------------------------------------ places
    def resolve(self, place, st, fr):
        """-> list of (root, path) the place may denote, type"""
        l, projs = place
        root, path = ("l", fr.fid, l), ()
        ty = fr.fn.locals[l]
        cands = [(root, path)]
        boxptr = False
        pend = None
        for e in projs:
            if e == "*":
                if boxptr:
                    nc = []
                    for r, p in cands:
                        v = self.load(r, p, st)
                        nc.extend(self.targets(v, st) if isinstance(v, (Ref, Refs)) else [(r, p + (("b",),))])
                    cands = nc
                    boxptr = False
                    ty = self.pointee(ty)
                    continue
                nc = []
                for r, p in cands:
                    v = self.load(r, p, st)
                    if self.is_box(ty) and not isinstance(v, (Ref, Refs)):
                        nc.append((r, p + (("b",),)))
                        continue
                    nc.extend(self.targets(v, st))
                cands = list(dict.fromkeys(nc))[:8]
                ty = self.pointee(ty)
            elif e[0] == "f":
                if boxptr:
                    ty = e[2]
                    continue
                if self.is_box(ty):
                    boxptr = True
                    ty = e[2]
                    continue
                n = self.adt_name(ty)
                if n in ("std::ptr::NonNull", "std::ptr::Unique", "core::ptr::Unique", "std::mem::ManuallyDrop",
                         "std::mem::MaybeUninit", "std::mem::MaybeDangling", "core::mem::MaybeDangling"):
                    ty = e[2]
                    pend = None
                    continue
                if pend is not None:
                    cands = [(r, p + (("vf", pend, e[1]),)) for r, p in cands]
                    pend = None
                else:
                    cands = [(r, p + (("f", e[1]),)) for r, p in cands]
                ty = e[2]
            elif e[0] == "d":
                pend = e[1]
            elif e[0] == "i":
                idx = self.load(("l", fr.fid, e[1]), (), st)
                cands = [(r, p + (("e", idx),)) for r, p in cands]
                ty = self.elem_ty(ty)
            elif e[0] == "c":
                off, _mn, fe = e[1], e[2], e[3]
                nc = []
                for r, p in cands:
                    if fe:
                        n = self.place_len(r, p, st)
                        nc.append((r, p + (("e", self.binop("Sub", n, self.kint(off), self.T_usize, st)),)))
                    else:
                        nc.append((r, p + (("e", self.kint(off)),)))
                cands = nc
                ty = self.elem_ty(ty)
            elif e[0] == "s":
                nc = []
                for r, p in cands:
                    n = self.place_len(r, p, st)
                    hi = self.binop("Sub", n, self.kint(e[2]), self.T_usize, st) if e[3] else self.kint(e[2])
                    nc.append((r, self.subslice(p, self.kint(e[1]), hi, st)))
                cands = nc
            # "o" opaque casts: ignore
        if boxptr:
            return [(r, p, "boxptr") for r, p in cands], ty
        return [(r, p, None) for r, p in cands], ty

    def subslice(self, p, lo, hi, st):
        if p and p[-1][0] == "s":
            b = p[-1]
            return p[:-1] + (("s", self.binop("Add", b[1], lo, self.T_usize, st), self.binop("Add", b[1], hi, self.T_usize, st)),)
        return p + (("s", lo, hi),)

    def place_len(self, r, p, st):
        if p and p[-1][0] == "s":
            return self.binop("Sub", p[-1][2], p[-1][1], self.T_usize, st)
        v = self.load(r, p, st)
        return self.seq_len(v, st)

    def targets(self, v, st):
        if isinstance(v, Ref):
            return [(v.root, v.path)]
        if isinstance(v, Refs):
            return [(x.root, x.path) for x in sorted(v.alts, key=lambda r: (str(r.root), str(r.path)))]
        if isinstance(v, Undef):
            return [(("d", UNDEF), ())]
        return [(("d", v), ())]

    def mkref(self, r, p, dyn=None):
        if r[0] == "d" and not p and dyn is None:
            return r[1]
        return Ref(r, p, dyn)

    def read_place(self, place, st, fr):
        cands, ty = self.resolve(place, st, fr)
        vs = []
        for r, p, m in cands:
            if m == "boxptr":
                v = self.load(r, p, st)
                if isinstance(v, (Ref, Refs)):     # the local holds a bitwise copy of the box (see operand)
                    vs.append(v)
                    continue
                vs.append(Ref(r, p + (("b",),), v.dyn if isinstance(v, BoxV) else None))
            else:
                vs.append(self.load(r, p, st))
        v = self.joins(vs, (fr.fid, "read", ("x", self.uid(place)), ()))
        return v, ty

    def write_place(self, place, val, st, fr):
        l, projs = place
        if not projs:
            st.mem[("l", fr.fid, l)] = val
            return
        cands, ty = self.resolve(place, st, fr)
        weak = len(cands) > 1
        for r, p, m in cands:
            if m is None:
                self.store(r, p, val, st, weak)

    # --------------------------------------------------------------- operands
    def const(self, c, ty):
        k = c["k"]
        if k == "int":
            v = int(c["v"])
            return S(self.builtin[v], ty) if v in self.builtin else K(v, ty)
        if k == "float":
            b = int(c["bits"])
            t = self.P.tys[ty]
            x = struct.unpack("<f", struct.pack("<I", b))[0] if t.d["bits"] == 32 else struct.unpack("<d", struct.pack("<Q", b))[0]
            return S(self.builtin[x], ty) if self.builtin and x in self.builtin else kfloat(x, ty)
        if k == "str":
            return K(c["v"], ty)
        if k == "fn":
            return FnV(c["inst"])
        if k == "adt":
            t = self.P.tys[c.get("ty", ty)]
            if self.adt_name(t.id) in ("std::ptr::NonNull",):
                pass
            if t.k == "enum":
                v = c["variant"]
                fs = tuple(self.const(f, f.get("ty")) for f in c["fields"])
                return En(t.id, ((v, fs),))
            if self.elem_ty(t.id) is not None and t.k == "struct":
                return SeqX(())
            ft = self.field_tys(t.id)
            return Agg(t.id, tuple(self.const(f, f.get("ty", ft[i] if ft else None)) for i, f in enumerate(c["fields"])))
        if k == "tuple":
            ft = self.field_tys(ty)
            return Agg(ty, tuple(self.const(f, f.get("ty", ft[i] if ft else None)) for i, f in enumerate(c["fields"])))
        if k == "array":
            et = self.elem_ty(ty)
            es = tuple(self.const(f, f.get("ty", et)) for f in c["elems"])
            n = self.P.tys[ty].d.get("len") if ty is not None and self.P.tys[ty].k == "array" else None
            if isinstance(n, int) and n > len(es) or len(es) > 16 and all(e is es[0] for e in es):
                return SeqA(es[0] if es else UNDEF, self.kint(n if isinstance(n, int) else len(es)))
            return SeqX(es)
        if k == "ref":
            to = c["to"]
            v = self.const(to, to.get("ty") or c.get("ty") and self.pointee(c.get("ty")) or self.pointee(ty))
            if isinstance(v, K) and isinstance(v.v, str):
                return v
            return Ref(("c", v), (), None)
        if k == "zst":
            return Agg(ty, ())
        if k == "static":
            return S("static:%s" % c.get("name", c.get("def", "?")), ty)
        return S("const:%s" % self.P.tys[ty].s if ty is not None else "const", ty)

    def operand(self, o, st, fr):
        if o[0] == "k":
            v = self.const(o[2], o[1])
            if isinstance(v, Agg) and not v.fs:
                t = self.P.tys[o[1]]
                if t.k == "fndef":
                    f = o[2].get("inst")
                    if f is not None:
                        return FnV(f)
            if isinstance(v, Ref) and v.root[0] == "c":
                st.mem.setdefault(v.root, v.root[1])
            return v
        if o[0] == "rt":
            return self.kbool(True)
        if o[0] == "cp" and self.is_box(self.place_ty(o[1], fr)):
            # only box derefs are lowered to a bitwise copy of the box: it denotes the same heap cell
            cands, _ = self.resolve(o[1], st, fr)
            rs = []
            for r, p, m in cands:
                v = self.load(r, p, st)
                if isinstance(v, (Ref, Refs)):
                    rs.append(v)
                else:
                    rs.append(Ref(r, p + (("b",),), v.dyn if isinstance(v, BoxV) else None))
            return rs[0] if len(rs) == 1 else self.joins(rs, (fr.fid, "read", ("x", self.uid(o)), ()))
        return self.read_place(o[1], st, fr)[0]

    def opty(self, o, fr):
        if o[0] == "k":
            return o[1]
        if o[0] == "rt":
            return self.T_bool
        return self.place_ty(o[1], fr)

    def place_ty(self, place, fr):
        ty = fr.fn.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = self.pointee(ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "c"):
                ty = self.elem_ty(ty)
        return ty

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, rv, dest, st, fr, blk):
        k = rv[0]
        if k == "use":
            return self.operand(rv[1], st, fr)
        if k in ("ref", "addr"):
            pl = rv[2]
            cands, ty = self.resolve(pl, st, fr)
            rs = []
            # reborrow of a value we cannot see through keeps the value
            dyn = None
            if pl[1] and pl[1][-1] == "*":
                inner = (pl[0], pl[1][:-1])
                pv, pty = self.read_place(inner, st, fr)
                if isinstance(pv, (Ref, Refs)):
                    return pv
            for r, p, m in cands:
                rs.append(self.mkref(r, p) if m is None else self.load(r, p, st))
            return self.joins(rs, (fr.fid, blk, ("l", fr.fid, dest[0]), ()))
        if k in ("bin", "cbin"):
            a, b = self.operand(rv[2], st, fr), self.operand(rv[3], st, fr)
            ta = self.opty(rv[2], fr)
            op = rv[1]
            if k == "cbin" or op.endswith("WithOverflow"):
                base = op.replace("WithOverflow", "").replace("Unchecked", "")
                r = self.binop(base, a, b, ta, st)
                ov = self.mk("ovf:" + base, (a, b), self.T_bool)
                if isinstance(a, K) and isinstance(b, K):
                    ov = self.kbool(self.true_fold(base, a.v, b.v) not in (r.v if isinstance(r, K) else None, None) if isinstance(r, K) else False)
                return Agg(self.place_ty(dest, fr), (r, ov))
            rt = self.T_bool if op in CMP else ta
            if op in CMP and (isinstance(a, (Ref, Refs)) or isinstance(b, (Ref, Refs))):
                return self.mk("ptr" + op, (a, b), self.T_bool)
            if op in CMP and (isinstance(a, DV) or isinstance(b, DV)):
                return self.dv_cmp(op, a, b, st)
            return self.binop(op, a, b, rt if op not in CMP else ta, st)
        if k == "un":
            a = self.operand(rv[2], st, fr)
            if rv[1] == "PtrMetadata":
                ls = []
                ty = self.opty(rv[2], fr)
                for r, p in self.targets(a, st):
                    ls.append(self.place_len(r, p, st))
                return self.joins(ls, (fr.fid, blk, ("l", fr.fid, dest[0]), ()))
            return self.unop(rv[1], a, self.opty(rv[2], fr), st)
        if k == "cast":
            kind = rv[1]
            a = self.operand(rv[2], st, fr)
            frm, to = rv[3], rv[4]
            if "Unsize" in kind:
                pt = self.pointee(to)
                if pt is not None and self.P.tys[pt].k == "dyn":
                    src = self.pointee(frm)
                    if self.P.tys[src].k == "dyn":     # already a trait object
                        return a
                    if isinstance(a, Ref):
                        return Ref(a.root, a.path, src)
                    if isinstance(a, BoxV):
                        return BoxV(a.v, src)
                    if self.is_box(frm):
                        return BoxV(self.proj(a, ("b",), st), src)
                    if isinstance(a, S):
                        return Ref(("d", a), (), src)
                return a
            if rv[5] is not None and not isinstance(a, FnV):
                return FnV(rv[5])
            if kind.startswith("Transmute") or "Ptr" in kind or "ClosureFn" in kind or "Reify" in kind:
                return a
            return self.cast(kind, a, frm, to, st)
        if k == "agg":
            kind, ty, variant, field, ops = rv[1], rv[2], rv[3], rv[4], rv[5]
            vs = tuple(self.operand(o, st, fr) for o in ops)
            if kind == "array":
                return SeqX(vs) if len(vs) <= 64 else SeqA(self.joins(list(vs), (fr.fid, blk, ("l", fr.fid, dest[0]), ())), self.kint(len(vs)))
            if kind == "rawptr":
                return vs[0]
            if ty is not None:
                t = self.P.tys[ty]
                if t.k == "enum":
                    return En(ty, ((variant, vs),))
                n = self.adt_name(ty)
                if n in ("std::ptr::NonNull", "std::ptr::Unique", "core::ptr::Unique", "std::mem::ManuallyDrop"):
                    return vs[0]
                if t.k == "union":
                    return vs[0]
                return Agg(ty, vs)
            return Agg(self.place_ty(dest, fr), vs)
        if k == "discr":
            v, ty = self.read_place(rv[1], st, fr)
            cands, _ = self.resolve(rv[1], st, fr)
            if isinstance(v, En):
                if len(v.alts) == 1:
                    ty = v.ty if v.ty is not None else ty
                    return K(self.variants(ty)[v.alts[0][0]][1], self.T_isize)
                if len(cands) == 1 and v.ty is not None:
                    return DV(cands[0][0], cands[0][1], v)
                return Top(self.T_isize, leaves(v))
            if isinstance(v, (S, O)):
                return self.mk("discr", (v,), self.T_isize)
            return Top(self.T_isize, leaves(v))
        if k == "len":
            cands, ty = self.resolve(rv[1], st, fr)
            return self.joins([self.place_len(r, p, st) for r, p, m in cands], (fr.fid, blk, ("l", fr.fid, dest[0]), ()))
        if k == "repeat":
            v = self.operand(rv[1], st, fr)
            n = rv[2]
            if isinstance(n, int):
                return SeqX((v,) * n) if n <= 8 else SeqA(v, self.kint(n))
            return SeqA(v, Top(self.T_usize, EMPTY))
        if k == "tls":
            return S("tls", None)
        return Top(self.place_ty(dest, fr), EMPTY)

    def true_fold(self, op, x, y):
        return {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(op)

    def dv_cmp(self, op, a, b, st):
        def vals(x):
            if isinstance(x, DV):
                return {self.variants(x.val.ty)[k][1] for k, _ in x.val.alts}
            if isinstance(x, K):
                return {x.v}
            return None
        x, y = vals(a), vals(b)
        if x is not None and y is not None:
            if not (x & y):
                return self.kbool(op == "Ne")
        return Top(self.T_bool, leaves(a) | leaves(b))

    # ------------------------------------------------------------ obligations
    def blame(self, fr):
        """innermost workspace frame and the block position inside it"""
        site = None
        f = fr
        while f is not None:
            if f.fn.crate in self.inline_crates:
                return f, site
            site = f.site
            f = f.parent
        return fr, None

    def obligation(self, kind, detail, status, st, fr, blk, term=None):
        f, site = self.blame(fr)
        b = blk if site is None else site
        sp = f.fn.blocks[b][2] if isinstance(b, int) and b < len(f.fn.blocks) else ""
        key = (f.fn.short, kind, sp if isinstance(sp, str) else str(sp))
        o = self.obls.setdefault(key, {"fn": f.fn.short, "kind": kind, "where": sp, "status": "proved", "detail": detail,
                                       "terms": [], "chain": None, "n": 0, "bad": []})
        o["n"] += 1
        if status != "proved" and (status, detail) not in o["bad"]:
            o["bad"].append((status, detail))
        rank = {"proved": 0, "unknown": 1, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o["status"] = status
            o["detail"] = detail
        if status != "proved":
            if len(o["terms"]) < 6 and term is not None:
                o["terms"].append(show(term, 8))
            o["chain"] = [x.fn.short for x in fr.chain()]
            if self.obs is not None and hasattr(self.obs, "on_fail"):
                self.obs.on_fail(self, o, st, fr, term)

    # ------------------------------------------------------------------- exec
    def uid(self, x):
        return self.uids.setdefault(id(x), len(self.uids) + 1)

    def frame(self, fn, parent, site):
        key = (parent.fid if parent else None, parent.ukey if parent else None, site, fn.id)
        fid = self.fids.setdefault(key, len(self.fids) + 1)
        return Frame(fn, fid, parent, site)

    def run(self, fn, args, st):
        """analyse fn from the given state; returns [(state, return value)]"""
        return self.call_body(fn, args, st, None, "root%d" % self.epoch if self.epoch else "root")

    def unroll_key(self, st, fid, ind=()):
        out = []
        for r, v in st.mem.items():
            if (r[0] == "l" and r[1] == fid) or (r[0] == "it" and r[1] == fid):
                if isinstance(v, (It, Agg)):
                    k = self.iter_key(v, 0)
                    if k is not None:
                        out.append((str(r), k))
                elif isinstance(v, K) and r[2] in ind and r[0] == "l" and isinstance(v.v, int) and 0 <= v.v <= UNROLL:
                    out.append((str(r), v.v))
                elif isinstance(v, Ref) and r[0] == "l":      # an iterator advanced through a reference to it
                    k = self.lent_key(v, st, 0)
                    if k is not None:
                        out.append((str(r), k))
                if self.shapes and isinstance(v, (SeqX, Agg)):
                    k = self.shape_key(v, 0)
                    if k is not None:
                        out.append((str(r), k))
        out.sort()
        out = tuple("%s=%s" % (r.split(",")[-1].strip(" )'"), k) for r, k in out)
        for r, p in self.worklists.get(fid, ()):              # lists this function takes from, one by one
            v = self.load(r, p, st) if r in st.mem else None
            if isinstance(v, SeqX) and len(v.es) <= UNROLL:
                out += (("left", str(p), len(v.es)),)
        return out

    def lent_key(self, v, st, d):
        w = st.mem.get(v.root)
        for e in v.path:
            if not (isinstance(w, Agg) and e[0] == "f" and e[1] < len(w.fs)):
                return None
            w = w.fs[e[1]]
        if isinstance(w, Ref) and d < 2:
            return self.lent_key(w, st, d + 1)
        return self.iter_key(w, 0) if isinstance(w, It) else None

    def shape_key(self, v, d):
        """lengths of the known sequences in a local, so that loops consuming a worklist are followed step by step"""
        if isinstance(v, SeqX):
            return len(v.es) if len(v.es) <= UNROLL else None
        if isinstance(v, Agg) and d < 2 and len(v.fs) <= 12:
            ks = tuple(self.shape_key(f, d + 1) for f in v.fs if isinstance(f, (SeqX, Agg)))
            return ks if any(k is not None for k in ks) else None
        return None

    def iter_key(self, v, d):
        if isinstance(v, It):
            if v.pos is not None and v.n is not None and isinstance(v.n, int) and v.n <= (TEXT if v.kind == "seq" else UNROLL):
                return v.pos
            if d >= 4:
                return None
            if v.kind in ("flat_map", "chain", "zip"):
                ks = tuple(self.iter_key(x, d + 1) if isinstance(x, (It, Agg)) else None for x in (v.a, v.pos, v.x))
                return ks if any(k is not None for k in ks) else None
            if isinstance(v.a, (It, Agg)):
                return self.iter_key(v.a, d + 1)
            return None
        if isinstance(v, Agg) and v.ty is not None and d < 4:
            n = self.adt_name(v.ty)
            if n in ("std::ops::Range", "core::ops::Range") and len(v.fs) == 2 and isinstance(v.fs[0], K) and isinstance(v.fs[1], K) \
                    and v.fs[1].v <= UNROLL and v.fs[0].v >= 0:
                return v.fs[0].v
            if n is not None and n.startswith("std::iter::"):
                ks = [self.iter_key(f, d + 1) for f in v.fs if isinstance(f, (It, Agg))]
                ks = [k for k in ks if k is not None]
                return tuple(ks) if ks else None
        return None

    def call_body(self, fn, args, st, parent, site):
        fr = self.frame(fn, parent, site)
        if fr.depth > 48:
            raise Budget("call depth in " + fn.short)
        self.analysed.add(fn.id)
        st = st.copy()
        outer_tag = st.tag
        st.tag = ()
        for i, a in enumerate(args):
            st.mem[("l", fr.fid, i + 1)] = a
        if self.obs is not None and hasattr(self.obs, "on_enter"):
            self.obs.on_enter(self, st, fr, args)
        order = {b: i for i, b in enumerate(fn.rpo())}
        loops = fn.loops()
        unr = bool(loops)
        ind = fn.inductions() if unr else ()
        pend = {0: {(st.obs, (), ()): st}}
        heads = {}
        heap = [(0, 0)]
        outs = {}
        visits = {}
        while heap:
            _, b = heapq.heappop(heap)
            states = pend.pop(b, None)
            if not states:
                continue
            for key, s in list(states.items()):
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget("step budget in " + fn.short)
                fr.ukey = key[1]
                if b in loops:
                    hk = (b, key[:2])
                    old = heads.get(hk)
                    n = visits.get(hk, 0)
                    visits[hk] = n + 1
                    if old is None:
                        heads[hk] = s
                        s = s.copy()
                    else:
                        v0 = self.snap(old)
                        j, ch = self.join_states(old, s, fr.uid, b, widen=n > 3)
                        ch = self.snap(j) != v0
                        heads[hk] = j
                        if not ch:
                            continue
                        if n > 40:
                            raise Budget("loop does not stabilise in " + fn.short)
                        s = j.copy()
                term = fn.blocks[b][1]
                called = term[5][0] if unr and term[0] == "call" and not term[5][1] else None
                for nb, ns in self.block(fn, b, s, fr, outs):
                    if self.loop_hook is not None and nb in loops and b in loops[nb]:
                        self.loop_hook(self, fr, nb, b, ns)
                    d = pend.setdefault(nb, {})
                    uk = self.unroll_key(ns, fr.fid, ind) if unr else ()
                    rv = ns.mem.get(("l", fr.fid, 0)) if self.shapes else None
                    if isinstance(rv, En) and len(rv.alts) == 1:
                        uk = uk + (("ret", rv.alts[0][0]),)
                    if called is not None:         # what a call answered keeps the ways apart until it is looked at
                        dv = ns.mem.get(("l", fr.fid, called))
                        if isinstance(dv, En) and len(dv.alts) == 1:
                            uk = uk + (("alt", dv.alts[0][0]),)
                    k2 = (ns.obs, uk, ns.tag if nb not in loops else ())
                    if k2 in d:
                        d[k2], _ = self.join_states(d[k2], ns, "%d@%s" % (fr.fid, ".".join(map(str, uk))) if uk else fr.fid, nb)
                    else:
                        d[k2] = ns
                    heapq.heappush(heap, (order[nb], nb))
        res = []
        for (ob, kk), (s, v) in outs.items():
            for r in [r for r in s.mem if r[0] in ("l", "tmp", "it") and r[1] == fr.fid]:
                del s.mem[r]
            s.tag = outer_tag
            res.append((s, v))
        return res

    def snap(self, s):
        """identity of a state including the growing phi information it refers to"""
        ph = []
        for r, v in s.mem.items():
            for l in leaves(v):
                if l in self.phi:
                    iv = self.phi_iv.get(l)
                    ph.append((l.name, len(self.phi[l]), tuple(iv[:2]) if iv else None))
        return (tuple(sorted(((str(r), id(v)) for r, v in s.mem.items()))), frozenset(ph),
                frozenset((id(t), f) for t, f in s.facts.items()), frozenset((id(t), f) for t, f in s.iv.items()))

    def ret_key(self, v):
        if isinstance(v, En) and len(v.alts) == 1:
            a, fs = v.alts[0]
            return (a,) + tuple(self.ret_key(f) if isinstance(f, (En, O)) else None for f in fs)
        if isinstance(v, O) and v.op == "pair":
            return ("pair", v.args[0])
        if isinstance(v, It) and v.kind == "seq" and isinstance(v.a, SeqX) and v.a.es and isinstance(v.a.es[0], O) and v.a.es[0].op == "pair":
            return ("pairs",) + tuple(x.args[0] for x in v.a.es if isinstance(x, O) and x.op == "pair")
        if isinstance(v, K) and isinstance(v.v, (int, str)):
            return ("k", v.v) if v.v in (0, 1) else None
        if isinstance(v, Agg) and v.ty is not None and self.P.tys[v.ty].k == "tuple" and len(v.fs) <= 2:
            return tuple(self.ret_key(f) for f in v.fs)
        return None

    def block(self, fn, b, st, fr, outs):
        stmts, term, span = fn.blocks[b]
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(s[2], s[1], st, fr, b)
                self.write_place(s[1], v, st, fr)
            elif k == "dead":
                st.mem.pop(("l", fr.fid, s[1]), None)
            elif k == "sd":
                pass
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "ret":
            v = self.get(("l", fr.fid, 0), st)
            if isinstance(v, Undef):
                v = Agg(self.T_unit, ())
            if self.obs is not None and hasattr(self.obs, "on_return"):
                self.obs.on_return(self, st, fr, v)
            key = (st.obs, self.ret_key(v))
            if key in outs:
                s0, v0 = outs[key]
                r = ("l", fr.fid, 0)
                s0.mem[r], st.mem[r] = v0, v
                j, _ = self.join_states(s0, st, fr.fid, "ret")
                outs[key] = (j, j.mem.get(r, v))
            else:
                outs[key] = (st, v)
            return []
        if k == "switch":
            st.tag = ()
            return self.switch(term, st, fr)
        if k == "drop":
            return [(term[2], st)]
        if k == "assert":
            return self.do_assert(term, st, fr, b)
        if k == "call":
            return self.do_call(term, st, fr, b)
        if k in ("unreach", "resume", "abort"):
            return []
        if k == "asm":
            return [] if term[1] is None else [(term[1], st)]
        return []

    def switch(self, term, st, fr):
        v = self.operand(term[1], st, fr)
        targets, other = term[2], term[3]
        if isinstance(v, K):
            for x, bb in targets:
                if x == v.v or (isinstance(v.v, int) and self.wrap_eq(x, v.v, term[4])):
                    return [(bb, st)]
            return [(other, st)]
        if self.conds is not None and isinstance(v, V) and not isinstance(v, DV):
            self.conds |= self.label_names(v)
        if isinstance(v, DV):
            cur = self.load(v.root, v.path, st)
            out = []
            alts = {self.variants(v.val.ty)[a][1]: (a, fs) for a, fs in v.val.alts}
            rest = dict(alts)
            for x, bb in targets:
                if x in alts:
                    rest.pop(x)
                    s = st.copy()
                    if cur is v.val:
                        self.store(v.root, v.path, En(v.val.ty, (alts[x],)), s)
                    out.append((bb, s))
            if rest:
                s = st.copy()
                if cur is v.val:
                    self.store(v.root, v.path, En(v.val.ty, tuple(sorted(rest.values()))), s)
                out.append((other, s))
            return out
        isdiscr = isinstance(v, O) and v.op == "discr"
        dom = None
        if isdiscr:
            t = v.args[0].ty
            if t is not None and self.P.tys[t].k == "enum":
                dom = {x[1] for x in self.variants(t)}
            f = st.facts.get(v)
            if isinstance(f, frozenset):
                dom = set(f) if dom is None else dom & f
            elif isinstance(f, tuple) and dom is not None:
                dom = dom - f[1]
        elif self.P.tys.get(term[4]) is not None and self.P.tys[term[4]].k == "bool":
            dom = {0, 1}
            kv = self.known(v, st)
            if kv is not None:
                dom = {kv}
        else:
            f = st.facts.get(v)
            if isinstance(f, frozenset):
                dom = set(f)
        out = []
        seen = set()
        for x, bb in targets:
            seen.add(x)
            if dom is not None and x not in dom:
                continue
            s = st.copy()
            if isdiscr:
                s.facts[v] = frozenset((x,))
            elif not self.assume(v if dom == {0, 1} or dom is not None and self.P.tys[term[4]].k == "bool" else self.mkcmp("Eq", v, K(x, term[4]), term[4]),
                                 x if self.P.tys[term[4]].k == "bool" else 1, s):
                continue
            out.append((bb, s))
        rest = None if dom is None else dom - seen
        if rest is None or rest:
            s = st.copy()
            ok = True
            if isdiscr:
                s.facts[v] = frozenset(rest) if rest is not None else ("ne", frozenset(seen))
            elif self.P.tys[term[4]].k == "bool":
                ok = self.assume(v, next(iter(rest)), s) if len(rest) == 1 else True
            else:
                for x in seen:
                    ok = ok and self.assume(self.mkcmp("Eq", v, K(x, term[4]), term[4]), 0, s)
            if ok:
                out.append((other, s))
        return out

    def wrap_eq(self, x, v, ty):
        t = self.P.tys.get(ty)
        if t is not None and t.k == "int":
            b = t.d["bits"]
            return (x & ((1 << b) - 1)) == (v & ((1 << b) - 1))
        return False

    def do_assert(self, term, st, fr, b):
        cond, expected, msg, target = term[1], term[2], term[3], term[4]
        v = self.operand(cond, st, fr)
        exp = 1 if expected else 0
        kind = msg[0]
        if kind == "other":        # alignment and null checks the compiler adds around raw places of its own
            return [(target, st)]
        if kind == "overflow":
            kind = "overflow" + msg[1]
            if msg[1].startswith("Sub"):
                kind = "underflow"
        k = self.known(v, st)
        detail = kind
        if kind == "bounds":
            ln, ix = self.operand(msg[1], st, fr), self.operand(msg[2], st, fr)
            detail = "index %s, length %s" % (show(ix, 6), show(ln, 6))
        if k is not None and k == exp:
            self.obligation(kind, detail, "proved", st, fr, b)
            return [(target, st)]
        if k is not None:
            self.obligation(kind, detail, "failed", st, fr, b, v)
            return []
        self.obligation(kind, detail, "unknown", st, fr, b, v)
        if not self.assume(v, exp, st):
            return []
        return [(target, st)]

    def do_call(self, term, st, fr, b):
        inst, decl, fop, args, dest, target, argtys = term[1], term[2], term[3], term[4], term[5], term[6], term[7]
        vals = [self.operand(a, st, fr) for a in args]
        if inst is None:
            fv = self.operand(fop, st, fr)
            outs = self.call_value(st, fv, vals, fr, b)
        else:
            fn = self.P.fns[inst]
            outs = self.call(fn, decl, vals, st, fr, b)
        res = []
        for s, v in outs:
            if target is None:
                continue
            if len(outs) > 1:
                s.tag = self.ret_key(v) or ()
            self.write_place(dest, v, s, fr)
            res.append((target, s))
        return res

    def call(self, fn, decl, vals, st, fr, b):
        if self.obs is not None and hasattr(self.obs, "on_call"):
            r = self.obs.on_call(self, fn, decl, vals, st, fr, b)
            if r is not None:
                return r
        m = self.mcache.get(fn.short, 0)
        if m == 0:
            m = self.models.get(fn.short)
            if m is None:
                for rx, g in self.model_res:
                    if rx.search(fn.short):
                        m = g
                        break
            self.mcache[fn.short] = m
        if m is not None:
            r = m(self, fn, vals, st, fr, b)
            if r is not None:
                return r
        if fn.kind.startswith("virtual"):
            return self.call_virtual(fn, decl, vals, st, fr, b)
        if fn.intrinsic:
            return self.M.intrinsic(self, fn, vals, st, fr, b)
        if self.can_inline(fn, fr):
            a = vals
            if decl and decl[0] in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") \
                    and fn.d.get("spread") is None and len(vals) == 2:
                a = self.spread(fn, vals)
            return self.call_body(fn, a, st, fr, b)
        if not fn.has_body and fn.kind == "item":
            c = self.ctor(fn)
            if c is not None:
                ty, v = c
                return [(st, En(ty, ((v, tuple(vals)),)) if v is not None else Agg(ty, tuple(vals)))]
        return self.unknown_call(fn, vals, st, fr, b)

    def ctor(self, fn):
        """(type, variant) when the function is a tuple constructor used as a function value"""
        if fn.id not in self.ctors:
            r = None
            par, last = fn.name.rsplit("::", 1) if "::" in fn.name else ("", fn.name)
            if last[:1].isupper():
                norm = lambda x: re.sub(r"'\w+(, )?", "", x).replace("::<", "<").replace("<>", "")
                for t in self.P.tys.values():
                    if t.k == "enum" and norm(t.s) == norm(par):
                        vs = [i for i, v in enumerate(self.variants(t.id)) if v[0] == last]
                        if vs:
                            r = (t.id, vs[0])
                    elif t.k in ("adt", "struct") and norm(t.s) == norm(fn.name):
                        r = (t.id, None)
            self.ctors[fn.id] = r
        return self.ctors[fn.id]

    def spread(self, fn, vals):
        tup = vals[1]
        n = fn.argc - 1
        if isinstance(tup, Agg):
            return [vals[0]] + list(tup.fs)
        return [vals[0]] + [self.proj(tup, ("f", i), None) for i in range(n)]

    INLINE_LIB = None

    def can_inline(self, fn, fr):
        if not fn.has_body:
            return False
        if fn.crate in self.inline_crates or fn.kind == "shim":
            n = 0
            f = fr
            while f is not None:
                if f.fn.id == fn.id:
                    n += 1
                f = f.parent
            return n < 3
        if fn.crate in ("core", "alloc", "std"):
            return self.M.inline_lib(fn.short)
        return False

    def call_virtual(self, fn, decl, vals, st, fr, b):
        recv = vals[0]
        idx = int(fn.kind.split(":")[1])
        dyn = None
        if isinstance(recv, Refs) and len(recv.alts) <= 16 and all(isinstance(r, Ref) for r in recv.alts):
            # one of several known receivers: each its own case
            out = []
            for r in sorted(recv.alts, key=lambda r: show(r, 6)):
                out += self.call_virtual(fn, decl, [r] + list(vals[1:]), st.copy(), fr, b)
            return out
        if isinstance(recv, Ref):
            dyn = recv.dyn
            if dyn is None:
                v = self.load(recv.root, recv.path[:-1], st) if recv.path and recv.path[-1] == ("b",) else None
                if isinstance(v, BoxV):
                    dyn = v.dyn
        elif isinstance(recv, BoxV):
            dyn = recv.dyn
        if dyn is not None:
            for to, ms, dr in self.P.vt_by_from.get(dyn, []):
                tt = self.P.tys[to]
                if idx < len(ms) and ms[idx] is not None and self.trait_of(fn) == tt.d.get("trait", "").split("<")[0] or \
                        (idx < len(ms) and ms[idx] is not None and self.method_name(self.P.fns[ms[idx]]) == self.method_name(fn)):
                    g = self.P.fns[ms[idx]]
                    if self.sizes(fn) and self.sizes(g) and not self.sizes(fn) & self.sizes(g):
                        continue            # the same type implements the trait for several block sizes
                    return self.call(g, decl, vals, st, fr, b)
        return self.unknown_call(fn, vals, st, fr, b)

    def sizes(self, fn):
        return {a for a in fn.d["args"] if isinstance(a, str) and a.startswith("#")}

    def trait_of(self, fn):
        return fn.short.rsplit("::", 1)[0]

    def method_name(self, fn):
        return fn.short.rsplit("::", 1)[1]

    def fn_ret_ty(self, fn):
        if fn.has_body and "locals" in fn.d:
            return fn.locals[0]
        return None

    def ret_ty_at(self, fr, b):
        t = fr.fn.blocks[b][1]
        if t[0] == "call":
            return self.place_ty(t[5], fr)
        return None

    def unknown_call(self, fn, vals, st, fr, b, ret_ty=None):
        self.unmodelled[fn.short] = self.unmodelled.get(fn.short, 0) + 1
        return self.havoc_call(fn.short, vals, st, fr, b, ret_ty, fn)

    def deep_labels(self, v, st, d=0, seen=None):
        """labels of a value including what its references point at"""
        out = set(leaves(v))
        if d > 3:
            return out
        seen = seen if seen is not None else set()

        def refs(x, dd=0):
            if isinstance(x, Ref):
                yield x
            elif isinstance(x, Refs):
                yield from x.alts
            elif isinstance(x, Agg):
                for f in x.fs:
                    yield from refs(f, dd + 1)
            elif isinstance(x, En):
                for _, fs in x.alts:
                    for f in fs:
                        yield from refs(f, dd + 1)
            elif isinstance(x, (SeqX,)):
                for f in x.es:
                    yield from refs(f, dd + 1)
            elif isinstance(x, It) and isinstance(x.a, V):
                yield from refs(x.a, dd + 1)
            elif isinstance(x, BoxV):
                yield from refs(x.v, dd + 1)
        for r in refs(v):
            if r in seen:
                continue
            seen.add(r)
            try:
                out |= self.deep_labels(self.load(r.root, r.path, st), st, d + 1, seen)
            except KeyError:
                pass
        return out

    def havoc_call(self, name, vals, st, fr, b, ret_ty=None, fn=None):
        labs = frozenset(x for v in vals for x in self.deep_labels(v, st))
        st = st.copy()
        argtys = None
        t = fr.fn.blocks[b][1] if isinstance(b, int) else None
        if t is not None and t[0] == "call":
            argtys = t[7]
        for i, v in enumerate(vals):
            mut = True
            if argtys and i < len(argtys) and len(argtys) == len(vals):
                at = self.P.tys.get(argtys[i])
                if at is not None and at.k in ("ref", "ptr") and not at.d.get("mut"):
                    mut = False
            if mut:
                for r, p in (self.targets(v, st) if isinstance(v, (Ref, Refs)) else []):
                    old = self.load(r, p, st)
                    if isinstance(old, Undef):
                        continue
                    s = S("havoc:%s:%s:%s:%d" % (name, fr.uid, b, i), getattr(old, "ty", None))
                    self.sym_labels[s] = labs
                    self.store(r, p, s, st)
        if ret_ty is None:
            ret_ty = self.ret_ty_at(fr, b) if isinstance(b, int) else None
        tt = self.P.tys.get(ret_ty)
        if tt is not None and tt.k == "never":
            return []
        if ret_ty == self.T_unit:
            return [(st, Agg(self.T_unit, ()))]
        s = S("ret:%s:%s:%s" % (name, fr.uid, b), ret_ty)
        self.sym_labels[s] = labs
        return [(st, s)]

    # ------------------------------------------------------- calling a value
    def closure_fn(self, ty):
        if self._closures is None:
            self._closures = {}
            for f in self.P.fns.values():
                if "{closure#" in f.def_ and f.kind == "item" and f.has_body and f.crate in (self.inline_crates | {"core", "alloc"}):
                    t = f.locals[1] if f.argc >= 1 else None
                    if t is None:
                        continue
                    tt = self.P.tys[t]
                    if tt.k == "ref":
                        t = tt.d["to"]
                    if self.P.tys[t].k == "closure":
                        self._closures[t] = f
        return self._closures.get(ty)

    def call_value(self, st, fv, args, fr, b, site=None):
        site = b if site is None else site
        v = fv
        if isinstance(v, Ref):
            inner = self.load(v.root, v.path, st)
            if isinstance(inner, (FnV, Ref)):
                return self.call_value(st, inner, args, fr, b, site)
            if isinstance(inner, BoxV):
                return self.call_value(st, inner.v if isinstance(inner.v, FnV) else Ref(v.root, v.path + (("b",),), inner.dyn), args, fr, b, site)
            v = inner
        if isinstance(v, FnV):
            return self.call(self.P.fns[v.inst], None, args, st, fr, b)
        if isinstance(v, BoxV):
            v = v.v
        if isinstance(v, Agg) and v.ty is not None and self.P.tys[v.ty].k == "closure":
            f = self.closure_fn(v.ty)
            if f is not None:
                st = st.copy()
                selfty = self.P.tys[f.locals[1]]
                if selfty.k == "ref":
                    if isinstance(fv, Ref):
                        me = fv
                    else:
                        root = ("tmp", fr.fid, "clo:%s" % (site,))
                        st.mem[root] = v
                        me = Ref(root, (), None)
                else:
                    me = v
                return self.call(f, None, [me] + list(args), st, fr, site)
        if isinstance(v, Agg) and v.ty is not None and self.P.tys[v.ty].k == "fndef":
            nm = self.P.tys[v.ty].d["name"]
            c = [f for f in self.P.fns.values() if f.name == nm or f.def_ == nm]
            if len(c) == 1:
                return self.call(c[0], None, args, st, fr, b)
        labs = frozenset(x for y in [v] + list(args) for x in self.deep_labels(y, st))
        self.unmodelled["<indirect>"] = self.unmodelled.get("<indirect>", 0) + 1
        s = S("ret:<indirect>:%s:%s" % (fr.uid, site), None)
        self.sym_labels[s] = labs
        return [(st, s)]


def int_or(x):
    return x if abs(x) == INF else float(int(x))
