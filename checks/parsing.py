"""The parser side: what the code makes of the pair trees the grammar allows.

A pair is known by the rule it belongs to.  Its children are looked up in the grammar the moment the code asks for
them (`Lazy`: all child sequences the rule allows) or in the parse of one family of texts (`Given`)."""
import os, re
from engine import absint, peg, extract
from engine.values import *

GRAMMAR = "rs/parser/src/glicol.pest"
PARSER_STRUCT = re.compile(r"^<glicol_parser::GlicolParser as pest::(parser::)?Parser>::parse$")


def grammar():
    with open(os.path.join(extract.REPO, GRAMMAR), encoding="utf-8") as f:
        return peg.Grammar(f.read())


class Pest:
    """stands for the pest library while the parser is interpreted"""

    def __init__(self, P):
        self.P = P
        self.seen = {}                 # what was asked of pest: counts
        self.rules = {}                # rule name -> variant index
        self.asked = set()             # rules whose children were asked for
        t = next((x for x in P.tys.values() if x.s == "glicol_parser::Rule"), None)
        if t is None:
            raise peg.Unsupported("no Rule type")
        self.rule_ty = t.id
        for i, v in enumerate(t.d["variants"]):
            self.rules[v[0]] = i

    # overridden -------------------------------------------------------------
    def kids(self, I, pair):
        """[(sequence value of pairs)] the children of a pair can be"""
        raise NotImplementedError

    def text(self, I, pair, ty):
        raise NotImplementedError

    def rule_of(self, pair):
        return pair.args[0]

    # ------------------------------------------------------------------------
    def on_call(self, I, fn, decl, vals, st, fr, b):
        if fn is None:
            return None
        s = fn.short
        if PARSER_STRUCT.match(s):
            ty = I.ret_ty_at(fr, b)
            self.hit("parse")
            ok = self.roots(I, I.variant_fields(ty, 0)[0][1])
            out = [(st.copy(), En(ty, ((0, (It("seq", SeqX((p,)), 0, 1, None),)),))) for p in ok]
            if self.fails:
                out.append((st, En(ty, ((1, (S("syntax-error", I.variant_fields(ty, 1)[0][1]),)),))))
            return out
        m = re.match(r"^<?pest::(?:iterators::(?:pairs?::)?|span::|position::)?(Pairs|Pair|Span)(?: as [\w:]+>)?::(\w+)$", s)
        if not m:
            return None
        kind, meth = m.groups()
        self.hit("%s::%s" % (kind, meth))
        ty = I.ret_ty_at(fr, b)
        from engine import models
        v = models.strip(I, vals[0], st)
        if kind == "Pair":
            alts = [v] if not I.is_phi(v) else sorted(I.alternatives(v), key=repr)
            if not alts or not all(isinstance(x, O) and x.op == "pair" for x in alts):
                return None
            if len(alts) > 1 and meth in ("as_rule", "as_str", "into_inner"):
                out = []
                for x in alts:
                    out.extend(self.on_call(I, fn, decl, [x] + list(vals[1:]), st.copy(), fr, b))
                return out
            if meth == "as_rule":
                return [(st, En(self.rule_ty, ((self.rules[self.rule_of(v)], ()),)))]
            if meth == "as_str":
                t = self.text(I, v, ty)
                if isinstance(t, S):
                    st.iv[I.mk("len", (t,), I.T_usize)] = (self.least(self.rule_of(v)), (1 << 63) - 1)
                return [(st, t)]
            if meth == "as_span":
                return [(st, O("span", (v,), ty))]
            if meth == "into_inner":
                self.asked.add(self.rule_of(v))
                return [(st.copy(), self.iter(I, x)) for x in self.kids(I, v)]
            if meth == "clone":
                return [(st, v)]
            return None
        if kind == "Span":
            if meth in ("start", "end") and isinstance(v, (O, S)):
                r = O(meth, (v,), ty)
                st.iv.setdefault(r, (0, (1 << 63) - 1))
                st.facts[O("Le", (O("start", (v,), ty), O("end", (v,), ty)), I.T_bool)] = frozenset((1,))
                return [(st, r)]
            if meth in ("get", "new"):
                some = En(ty, ((1, (O("span", (O("part", tuple(x if isinstance(x, V) else x for x in vals), None),), I.variant_fields(ty, 1)[0][1]),)),))
                if self.inside(I, meth, v, vals, st):
                    return [(st, some)]
                return [(st.copy(), some), (st, En(ty, ((0, ()),)))]
            return None
        if meth == "len":
            it = v
            if isinstance(it, It) and it.pos is not None:
                lo, hi = (it.pos, it.n) if not isinstance(it.pos, tuple) else it.pos
                return [(st, I.kint(hi - lo))]
            if isinstance(it, It) and it.kind == "seq":
                return [(st, I.seq_len(it.a, st))]
        return None

    def least(self, rule):
        return 0

    def hit(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def iter(self, I, seq):
        if isinstance(seq, SeqX):
            return It("seq", seq, 0, len(seq.es), None)
        return It("seq", seq, None, None, None)

    def inside(self, I, meth, v, vals, st):
        """whether the part of a span asked for certainly lies inside it"""
        from engine import models
        if meth == "get":
            r = models.strip(I, vals[1], st)
            if isinstance(r, Agg) and I.adt_name(r.ty) == "std::ops::RangeFrom":
                a = r.fs[0]
                e = O("end", (v,), a.ty) if hasattr(a, "ty") else None
                s = O("start", (v,), a.ty) if hasattr(a, "ty") else None
                if isinstance(a, K) and a.v == 0:
                    return True
                return a is I.binop("Sub", e, s, a.ty, st)
            if isinstance(r, Agg) and I.adt_name(r.ty) == "std::ops::RangeFull":
                return True
            return False
        a, c = vals[1], vals[2]
        if isinstance(a, K) and isinstance(c, K):
            return a.v == c.v == 0
        if isinstance(a, O) and isinstance(c, O) and a.op in ("start", "end") and c.op in ("start", "end") and a.args == c.args:
            return not (a.op == "end" and c.op == "start")
        return False


class Lazy(Pest):
    """every pair tree the grammar allows; children are chosen when the code looks at them"""
    fails = True

    def __init__(self, P, G, most=2, fixed=None):
        Pest.__init__(self, P)
        self.G = G
        self.fixed = fixed or {}       # rule -> the one shape followed in this run
        self.most = most
        self.n = 0

    def pair(self, rule, ty, who):
        return O("pair", (rule, who), ty)

    def roots(self, I, ty):
        self.pair_ty = None
        return [self.pair("block", None, "b")]

    def kids(self, I, p):
        out = []
        for sh in [self.fixed[p.args[0]]] if p.args[0] in self.fixed else self.G.shapes(p.args[0], False, self.most) if p.args[0] in self.G.rules else [("list", ())]:
            if sh[0] == "many":
                n = S("len:%s/%s" % (p.args[0], p.args[1]), I.T_usize)
                out.append((SeqA(self.pair(sh[1], None, p.args[1] + "/*"), n), sh[2]))
            else:
                out.append((SeqX(tuple(self.pair(r, None, "%s/%d" % (p.args[1], i)) for i, r in enumerate(sh[1]))), None))
        return out

    def on_call(self, I, fn, decl, vals, st, fr, b):
        return Pest.on_call(self, I, fn, decl, vals, st, fr, b)

    def iter(self, I, x):
        return Pest.iter(self, I, x[0])

    def least(self, rule):
        return self.G.shortest(("ref", rule))

    def text(self, I, p, ty):
        return S("text:%s:%s" % p.args[:2], ty)


class Given(Pest):
    """the parse of one family of texts"""
    fails = False

    def __init__(self, P, tree, name):
        Pest.__init__(self, P)
        self.nodes = []
        self.name = name               # (start, end) -> K / S text value
        self.tree = tree
        self.root = self.add(tree)

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def roots(self, I, ty):
        return [O("pair", (self.tree.rule, 0), None)]

    def kids(self, I, p):
        n = self.nodes[p.args[1]]
        return [SeqX(tuple(O("pair", (k.rule, self.index(k)), None) for k in n.kids))]

    def index(self, k):
        for i, x in enumerate(self.nodes):
            if x is k:
                return i
        return self.add(k)

    def text(self, I, p, ty):
        n = self.nodes[p.args[1]]
        return self.name(n.a, n.b, ty)

    def on_call(self, I, fn, decl, vals, st, fr, b):
        if fn is not None and fn.short == "fasteval::ez::ez_eval":
            from engine import models
            v = models.strip(I, vals[0], st)
            ty = I.ret_ty_at(fr, b)
            r = arithmetic(I, v.v, I.variant_fields(ty, 0)[0][1]) if isinstance(v, K) and isinstance(v.v, str) else None
            if r is not None:
                return [(st, En(ty, ((0, (r,)),)))]
        return Pest.on_call(self, I, fn, decl, vals, st, fr, b)


def arithmetic(I, text, ty):
    """the value of an arithmetic text over numbers and placeholders, as a term; None if it is no such text"""
    toks = re.findall(r"\s*(«[^»]*»|\d+(?:\.\d*)?|[-+*/()])", text)
    if "".join(toks) != re.sub(r"\s", "", text):
        return None
    at = [0]

    def peek():
        return toks[at[0]] if at[0] < len(toks) else None

    def take():
        at[0] += 1
        return toks[at[0] - 1]

    def atom():
        t = peek()
        if t is None or t in "*/)":
            raise ValueError
        take()
        if t == "(":
            v = sum_()
            if peek() != ")":
                raise ValueError
            take()
            return v
        if t in "+-":
            v = atom()
            return O("Neg", (v,), ty) if t == "-" else v
        if t[0] == "«":
            return S(re.sub(r"~.$", "", t[1:-1]), ty)
        return kfloat(float(t), ty)

    def chain(sub, ops):
        v = sub()
        while peek() in ops:
            op = {"*": "Mul", "/": "Div", "+": "Add", "-": "Sub"}[take()]
            v = O(op, (v, sub()), ty)
        return v

    def prod():
        return chain(atom, ("*", "/"))

    def sum_():
        return chain(prod, ("+", "-"))
    try:
        v = sum_()
    except ValueError:
        return None
    return v if at[0] == len(toks) else None


def generated(f):
    """the parser proper, generated from the grammar"""
    return "::rules::" in f.short or "GlicolParser as pest" in f.short or "glicol_parser::Rule as" in f.short
