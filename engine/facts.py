"""Loads the program facts written by the compiler driver (types, functions, MIR bodies, vtables)."""
import json, re, os


class Ty:
    __slots__ = ("id", "s", "k", "d")

    def __init__(self, d):
        self.id = d["id"]
        self.s = d["s"]
        self.k = d["k"]
        self.d = d

    def __repr__(self):
        return self.s


def strip_generics(s):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push ; <A<T> as B<U>>::f -> <A as B>::f"""
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            # a leading '<' (qualified self) is kept
            if depth == 0 and (i == 0 or s[i - 1] in " (&,"):
                out.append(c)
                i += 1
                continue
            if depth == 0 and out[-2:] == [':', ':']:
                out = out[:-2]
            depth += 1
        elif c == '>' and i > 0 and s[i - 1] != '-':
            if depth == 0:
                out.append(c)
            else:
                depth -= 1
        elif c == '>' and depth == 0:
            out.append(c)
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Fn:
    __slots__ = ("id", "name", "def_", "crate", "kind", "args", "fty", "intrinsic", "foreign", "span",
                 "_line", "_d", "prog", "short", "_rpo", "_loops", "_ind")

    def __init__(self, prog, d, line):
        self.prog = prog
        self.id = d["id"]
        self.name = d["name"]
        self.def_ = d["def"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.args = d["args"]
        self.fty = d["fty"]
        self.intrinsic = d["intrinsic"]
        self.foreign = d["foreign"]
        self.span = d["span"]
        self._line = line
        self._d = None
        self.short = strip_generics(self.def_)
        self._rpo = None
        self._loops = None
        self._ind = None

    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self._line)
        return self._d

    @property
    def has_body(self):
        return '"blocks":[' in self._line if self._d is None else "blocks" in self._d

    @property
    def blocks(self):
        return self.d.get("blocks")

    @property
    def locals(self):
        return self.d["locals"]

    @property
    def argc(self):
        return self.d["argc"]

    def edges(self):
        """ids of functions called (resolved), plus list of unresolved markers"""
        d = self.d
        out, unk = [], []
        if "edges" in d:
            for e in d["edges"]:
                if isinstance(e, int):
                    out.append(e)
                else:
                    unk.append(e)
        elif "blocks" in d:
            for stmts, term, _sp in d["blocks"]:
                for s in stmts:
                    if s[0] == "=":
                        self._rv_edges(s[2], out)
                if term[0] == "call":
                    if term[1] is not None:
                        out.append(term[1])
                    else:
                        unk.append({"ind": term[2]})
                    for a in term[4]:
                        self._op_edges(a, out)
                elif term[0] == "drop":
                    if term[3] is not None:
                        out.append(term[3])
                elif term[0] == "asm":
                    unk.append({"asm": 1})
        return out, unk

    def _op_edges(self, o, out):
        if o[0] == "k":
            self._const_edges(o[2], out)

    def _const_edges(self, c, out):
        k = c.get("k")
        if k == "fn":
            out.append(c["inst"])
        elif k == "ref":
            self._const_edges(c["to"], out)
        elif "fields" in c:
            for f in c["fields"]:
                self._const_edges(f, out)
        elif "elems" in c:
            for f in c["elems"]:
                self._const_edges(f, out)

    def _rv_edges(self, rv, out):
        k = rv[0]
        if k in ("use", "repeat"):
            self._op_edges(rv[1], out)
        elif k == "cast":
            self._op_edges(rv[2], out)
            if rv[5] is not None:
                out.append(rv[5])
        elif k == "agg":
            for o in rv[5]:
                self._op_edges(o, out)

    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[6] is None else [t[6]]
        if k == "assert":
            return [t[4]]
        if k == "asm":
            return [] if t[1] is None else [t[1]]
        return []

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = order
        return self._rpo

    def inductions(self):
        """locals counted up or down by a constant inside a loop"""
        if self._ind is None:
            inl = set()
            for bs in self.loops().values():
                inl |= set(bs)
            tmp, out = {}, set()
            for b in inl:
                for s in self.blocks[b][0]:
                    if s[0] != "=":
                        continue
                    (l, pr), rv = s[1], s[2]
                    if rv[0] in ("bin", "cbin") and rv[1].startswith(("Add", "Sub")) and not pr and rv[2][0] in ("cp", "mv") and not rv[2][1][1] and rv[3][0] == "k":
                        if rv[2][1][0] == l:
                            out.add(l)
                        tmp[l] = rv[2][1][0]
            for b in inl:
                for s in self.blocks[b][0]:
                    if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("cp", "mv"):
                        src = s[2][1][1][0]
                        v = tmp.get(src)
                        if v is None:
                            continue
                        if v == s[1][0]:
                            out.add(v)
            self._ind = out
        return self._ind

    def loops(self):
        """loop head -> set of blocks (natural loops, merged per head)"""
        if self._loops is None:
            order = self.rpo()
            idx = {b: i for i, b in enumerate(order)}
            preds = {b: [] for b in order}
            for b in order:
                for s in self.succs(b):
                    preds[s].append(b)
            # dominators
            idom = {order[0]: order[0]}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while idx[a] > idx[c]:
                                        a = idom[a]
                                    while idx[c] > idx[a]:
                                        c = idom[c]
                                new = a
                    if idom.get(b) != new:
                        idom[b] = new
                        changed = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if idom[b] == b:
                        return False
                    b = idom[b]
            loops = {}
            for b in order:
                for s in self.succs(b):
                    if idx[s] <= idx[b]:
                        body = loops.setdefault(s, {s})
                        if dom(s, b):
                            st = [b]
                            while st:
                                x = st.pop()
                                if x not in body:
                                    body.add(x)
                                    st.extend(preds[x])
            self._loops = loops
        return self._loops

    def __repr__(self):
        return self.name


META = re.compile(r'^\{"T":"fn","id":(\d+),(.*?"span":"(?:[^"\\]|\\.)*")')


class Program:
    def __init__(self, path):
        self.fns = {}
        self.tys = {}
        self.vtables = {}       # (from, to) -> (methods, drop)
        self.by_short = {}
        self.by_name = {}
        end = None
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith('{"T":"fn"'):
                    m = META.match(line)
                    d = json.loads('{"id":%s,%s}' % (m.group(1), m.group(2)))
                    fn = Fn(self, d, line)
                    self.fns[fn.id] = fn
                    self.by_short.setdefault(fn.short, []).append(fn)
                    self.by_name[fn.name] = fn
                else:
                    d = json.loads(line)
                    if d["T"] == "ty":
                        self.tys[d["id"]] = Ty(d)
                    elif d["T"] == "vt":
                        self.vtables[(d["from"], d["to"])] = (d["methods"], d["drop"])
                    elif d["T"] == "end":
                        end = d
        if end is None or end["fns"] != len(self.fns) or end["tys"] != len(self.tys):
            raise RuntimeError("program facts are incomplete")
        self.vt_by_from = {}
        for (a, b), (ms, dr) in self.vtables.items():
            self.vt_by_from.setdefault(a, []).append((b, ms, dr))
        self.ty_by_s = {t.s: t for t in self.tys.values()}

    def ty(self, i):
        return self.tys[i]

    def find(self, short, **kw):
        r = self.by_short.get(short, [])
        return r

    def one(self, short):
        r = self.by_short.get(short, [])
        if len(r) != 1:
            raise KeyError("%s: %d candidates" % (short, len(r)))
        return r[0]


def load(path=None):
    if path is None:
        from . import extract
        path = extract.facts()
    return Program(path)
