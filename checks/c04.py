"""A live message sets what the same parameter written in code sets."""
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, programs
from .c21 import replace

RULE = ("Abstract interpretation of the engine's message entry with the text of a message (chain, position in the chain, parameter position, any number) on "
        "engines playing every node the language can make, between two other nodes: the node addressed afterwards is the node that code with this number "
        "in this parameter makes, every other node, the wiring and the chains are as they were, and a position the node does not have changes nothing.")
ENTRY = "glicol::Engine::send_msg"
# parameter positions a message can set, by node (the list by hand: the parameters that are written as a number)
SETTABLE = {
    "Delayn": 1, "Delayms": 1, "Imp": 1, "Tri": 1, "Squ": 1, "Saw": 1, "Onepole": 1, "Sin": 1, "Mul": 1, "Add": 1, "Pan": 1, "Arrange": 2, "Speed": 1,
    "ConstSig": 1, "Bd": 1, "Sn": 1, "Hh": 1, "SawSynth": 2, "SquSynth": 2, "TriSynth": 2, "Lpf": 2, "Rhpf": 2, "ApfmsGain": 2, "Plate": 1, "EnvPerc": 2,
    "Adsr": 4, "Noise": 1,
}
ALSO = {"MsgSynth": (1, 2), "Points": (1,)}
NONE = ("Seq", "Choose", "Mix", "Sp", "PatternSynth", "PSampler", "Balance", "Get", "Meta", "Eval")
# made as an error, or not by this build
UNMADE = ("Adc", "Reverb", "Expr")


def run(P):
    c = report.Check("C04", RULE)
    f = engine_.fn(P, ENTRY)
    comps = list(lang.components(absint.Interp(P)))
    seen = set()
    for kw, shape, comp in comps:
        b = programs.Bench(P)
        comp, refs, samples = lang.named(b.I, comp)
        st = b.start
        for s in samples:
            st = b.sample(st, s)
        s0 = make(b, st, comp, refs)
        if s0 is None:
            c.count("descriptions_not_made")
            continue
        c.count("descriptions")
        pos = positions(b.I, comp)
        must = range(SETTABLE[kw]) if kw in SETTABLE else ALSO.get(kw, ())
        for p in range(max(len(pos), max(must, default=0) + 1) + 2):
            want, kind = None, "none"
            if p < len(pos):
                kind, alt = numbered(b.I, comp, pos[p])
                if alt is not None and (p in must or kind == "number"):
                    s1 = make(b, st, alt, refs)
                    if s1 is not None:
                        want = s1
            elif p in must:
                kind = "missing"
            if p >= len(pos):
                kind = "beyond"
            seen.add((kw, p))
            one(c, b, f, kw, shape, s0, p, kind, want, p in must)
    for kw in list(SETTABLE) + list(ALSO):
        c.require(any(k == kw for k, _p in seen), "no message could be sent to %s" % kw, ENTRY, "the node is not made")
    for kw in sorted({k for k, _s, _c in comps}):
        if kw not in SETTABLE and kw not in ALSO and kw not in NONE and kw not in UNMADE:
            c.sample("node_kinds_not_in_the_table", kw)
    c.floor("descriptions", 75)
    c.floor("messages", 250)
    c.floor("positions_that_agree", 45)
    return c.finish(P)


def make(b, st, comp, refs):
    prog = {"out": [b.const("first"), comp, b.mul("last")]}
    for i, r in enumerate(dict.fromkeys(refs)):
        prog[r] = [b.const("r%d" % i)]
    for s, ok, _v in b.update(st, prog):
        if ok:
            return s
    return None


def positions(I, comp):
    """the parameters as written: the parts of the description, the elements of its list if that is all it has"""
    d = comp.alts[0][1][0]
    if not isinstance(d, Agg):
        return [((), d)]
    if len(d.fs) == 1 and isinstance(d.fs[0], SeqX):
        return [((0, i), x) for i, x in enumerate(d.fs[0].es)]
    return [((i,), x) for i, x in enumerate(d.fs)]


def numbered(I, comp, pos):
    """(what the parameter is now, the description with the new number in that place)"""
    path, v = pos
    new = None
    kind = "other"
    if isinstance(v, S) and I.P.tys[v.ty].k in ("float", "uint"):
        kind, new = "number", value(I, v.ty)
    elif isinstance(v, En) and len(v.alts) == 1:
        names = [n for n, *_ in I.variants(v.ty)]
        for i, n in enumerate(names):
            fs = I.variant_fields(v.ty, i)
            if n in ("Number", "Usize") and len(fs) == 1 and I.P.tys[fs[0][1]].k in ("float", "uint"):
                new = En(v.ty, ((i, (value(I, fs[0][1]),)),))
                now = names[v.alts[0][0]]
                kind = "number" if now == n else "reference" if now in ("Ref", "Reference") else "other"
    if new is None:
        return kind, None
    (vi, (d,)), = comp.alts
    if not path:
        return kind, En(comp.ty, ((vi, (new,)),))
    fs = list(d.fs)
    if len(path) == 1:
        fs[path[0]] = new
    else:
        es = list(fs[path[0]].es)
        es[path[1]] = new
        fs[path[0]] = SeqX(tuple(es))
    return kind, En(comp.ty, ((vi, (Agg(d.ty, tuple(fs)),)),))


def value(I, ty):
    v = S("c.new", I.T_f32)
    return v if I.P.tys[ty].k == "float" else I.mk("cast", (v,), ty)


def one(c, b, f, kw, shape, s0, p, kind, want, must):
    I = b.I
    text = "out,1,%d,«c.new»" % p
    I.epoch += 1
    rs = I.run(f, [Ref(("eng",), (), None), K(text, I.T_str)], s0.copy())
    what = "%s %s, parameter %d" % (kw.lower(), shape, p)
    c.require(bool(rs), "no message handling returns", common.where(f), what)
    key = b.chains(s0)["out"][1]
    v0, ty = b.inner(s0, key)
    where = "message handling of " + common.short(I, ty) if hasattr(common, "short") else "message handling of " + I.P.tys[ty].s
    for s, _ in rs:
        c.count("messages")
        old, new = b.canon(s0), b.canon(s)
        n = b.name_of(s0)(key)
        c.count("nodes_compared", len(old[0]))
        rest = {k for k in old[0] if k != n and old[0][k] != new[0].get(k)}
        c.require(not rest and old[1:] == new[1:] and len(old[0]) == len(new[0]), "a message to %s changes something else" % kw.lower(), where,
                  lambda: "%s: %s" % (what, sorted(map(str, rest)) or "wiring"))
        v1, _ = b.inner(s, key)
        same = alike(b, v0, v1)
        if kind == "beyond":
            c.count("positions_beyond")
            c.require(same, "a message for a position %s does not have" % kw.lower(), where, lambda: "%s: %s becomes %s" % (what, show(v0, 4)[:300], show(v1, 4)[:300]))
            continue
        if want is None:
            # a parameter that is not a number in this description
            c.count("positions_without_a_number")
            if kind != "other" or not must:
                c.require(same or kind != "other", "a message changes %s although parameter %d is not a number" % (kw.lower(), p), where,
                          lambda: "%s: %s becomes %s" % (what, show(v0, 4)[:300], show(v1, 4)[:300]))
            continue
        v2, _ = b.inner(want, key)
        if kind == "reference":
            v1, v2 = unordered(b, v1, ty), unordered(b, v2, ty)
        if kind == "other":
            c.count("positions_without_a_number")
            continue
        agrees = alike(b, v1, v2)
        c.count("positions_that_agree" if agrees else "positions_that_differ")
        if not must or kind == "reference":
            agrees = agrees or same
        c.require(agrees, "parameter %d of %s set by a message" % (p, kw.lower()), where,
                  lambda: "%s: the message makes %s, code makes %s" % (what, show(v1, 6)[:400], show(v2, 6)[:400]))


def unordered(b, v, ty):
    fs = common.vec_usize_fields(b.I, ty)
    if not fs or not isinstance(v, Agg):
        return v
    l = list(v.fs)
    for x in fs:
        l[x[0]] = SeqX(())
    return Agg(v.ty, tuple(l))


def alike(b, x, y, d=0):
    """the same value, or (where paths were joined) one of the same values"""
    I = b.I
    if x is y:
        return True
    if joined(I, x) or joined(I, y):
        return may(b, x) == may(b, y)
    if type(x) is not type(y):
        return False
    if isinstance(x, Agg):
        return x.ty == y.ty and len(x.fs) == len(y.fs) and all(alike(b, p, q, d + 1) for p, q in zip(x.fs, y.fs))
    if isinstance(x, En):
        return len(x.alts) == len(y.alts) and all(i == j and all(alike(b, p, q, d + 1) for p, q in zip(k, l)) for (i, k), (j, l) in zip(x.alts, y.alts))
    if isinstance(x, SeqX):
        return len(x.es) == len(y.es) and all(alike(b, p, q, d + 1) for p, q in zip(x.es, y.es))
    if isinstance(x, SeqA):
        return alike(b, x.e, y.e, d + 1) and alike(b, x.n, y.n, d + 1)
    if isinstance(x, BoxV):
        return x.dyn == y.dyn and alike(b, x.v, y.v, d + 1)
    if isinstance(x, MapX):
        return len(x.es) == len(y.es) and all(alike(b, k, l, d + 1) and alike(b, p, q, d + 1) for (k, p), (l, q) in zip(x.es, y.es))
    if isinstance(x, O):
        return x.op == y.op and len(x.args) == len(y.args) and all(alike(b, p, q, d + 1) for p, q in zip(x.args, y.args))
    return b.norm(x) == b.norm(y)


def joined(I, x):
    return x in I.phi or isinstance(x, O) and x.op in ("max", "min")


def may(b, x, seen=frozenset()):
    """the values a joined value may have"""
    I = b.I
    if x in seen:
        return frozenset()
    if x in I.phi and I.phi[x]:
        out = frozenset()
        for a in I.phi[x]:
            out |= may(b, a, seen | {x})
        return out
    if isinstance(x, O) and x.op in ("max", "min"):
        out = frozenset()
        for a in x.args:
            out |= may(b, a, seen)
        return out
    if isinstance(x, O):
        import itertools
        ps = [may(b, a, seen) for a in x.args]
        n = 1
        for p in ps:
            n *= len(p)
        if n <= 256:
            return frozenset((x.op,) + t for t in itertools.product(*[sorted(p, key=repr) for p in ps]))
    return frozenset([b.norm(x)])
