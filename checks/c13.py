"""Evaluating any program that parses never crashes the engine."""
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, programs

RULE = ("Abstract interpretation of the engine update: every construct on the way that can panic (indexing, lookups, unwraps, divisions, copies of "
        "unequal length, empty delay lines, unbounded allocations) is an obligation. Updates analysed: every node description of the language with all its "
        "numbers and texts arbitrary, with lists of no, one and two entries, with the names it mentions present and missing, on an empty and a playing engine "
        "and as an edit of itself; every ordered pair of programs of the family, in both iteration orders of the chain tables; rejected programs and what "
        "follows them; updates after a reset. Every update must also have an outcome.")


def run(P):
    c = report.Check("C13", RULE)
    lists = lists_of(P)
    c.count("descriptions_with_short_lists", len(lists))
    for kw, shape, comp in lang.components(absint.Interp(P)) + lists:
        b = programs.Bench(P)
        comp, refs, samples = lang.named(b.I, comp)
        c.count("descriptions")
        prog = {"out": [b.const("first"), comp, b.mul("last")]}
        full = dict(prog)
        for r in dict.fromkeys(refs):
            full[r] = [b.const("r" + r[1:])]
        st = b.start
        for s in samples:
            st = b.sample(st, s)
        playing = b.accepted(st, {"out": [b.const("first"), b.mul("~a")], "~a": [b.const("w")]})
        what = "%s %s" % (kw.lower(), shape)
        for start in (st, playing):
            for p in (full, prog, {"out": [comp]}):
                for s, ok, v in outcome(c, b, start, p, what):
                    if not ok:
                        continue
                    for q in (full, {"out": [b.const("first"), b.mul("last"), comp]}, {"~b": [comp, b.const("u")]}, {}):
                        q = dict(q)
                        if q:
                            for r in dict.fromkeys(refs):
                                q[r] = [b.const("r" + r[1:]), b.mul("x")]
                        outcome(c, b, s, q, what)
        if refs or samples:
            outcome(c, b, b.start, prog, what)
        settle(c, b, what)
    for rev in (False, True):
        b = programs.Bench(P, rev=rev)
        fam = programs.family(b) + [
            ("an input chain of one's own", {"out": [b.const("v"), b.mul("~input")], "~input": [b.const("w")]}),
            ("a chain that refers to itself", {"out": [b.const("v"), b.mul("~a")], "~a": [b.const("w"), b.mul("~a")]}),
            ("chains that refer to each other", {"out": [b.const("v"), b.mul("~a")], "~a": [b.const("w"), b.mul("~b")], "~b": [b.mul("~a")]}),
            ("all chains of a prefix", {"out": [b.mix("~a..")], "~a": [b.const("w")], "~ab": [b.const("x")]}),
        ]
        from .c01 import faulty
        bad = faulty(b)
        for n, p in fam:
            for s, ok, v in outcome(c, b, b.start, p, n):
                for m, q in fam:
                    c.count("program_pairs")
                    outcome(c, b, s, q, "%s, then %s" % (n, m))
                for m, q in bad:
                    for s2, _ok, _v in outcome(c, b, s, q, "%s, then %s" % (n, m)):
                        outcome(c, b, s2, p, "%s, then %s, then the first again" % (n, m))
                for s2, _ in b.I.run(engine_.fn(P, "glicol::Engine::reset"), [Ref(("eng",), (), None)], s.copy()):
                    outcome(c, b, s2, p, "%s, then a reset, then the same" % n)
        settle(c, b, "programs of the family")
    c.floor("descriptions", 95)
    c.floor("updates", 2000)
    c.floor("program_pairs", 1000)
    c.floor("sites", 20)
    c.assume("the script libraries (rhai, fasteval) return from compiling any text, and rhai accepts the empty script")
    return c.finish(P)


def outcome(c, b, st, prog, what):
    c.count("updates")
    rs = b.update(st, prog)
    c.require(bool(rs), "an update without an outcome", "glicol::Engine::update_with_code (rs/main/src/lib.rs)", lambda: "%s: %s" % (what, programs.text(prog)))
    return rs


def settle(c, b, what):
    sites = c.extra.setdefault("site_list", [])
    for (fn, kind, where), o in b.I.obls.items():
        if kind.startswith("overflow"):
            continue
        c.count("panic_obligations", o["n"])
        site = "%s in %s" % (kind, fn)
        if site not in sites:
            sites.append(site)
            c.count("sites")
        c.require(not o["bad"], "%s: %s in %s" % (what.split(" ")[0], kind, fn), "%s (%s)" % (fn, common.rel(where)),
                  lambda: "%s: %s (%s), called from %s" % (what, o["bad"][0][1], o["bad"][0][0], " < ".join(o["chain"][1:4])))


def lists_of(P):
    """descriptions whose lists have no entry, and one"""
    out, seen = [], set()

    def cut(v, n):
        if isinstance(v, SeqX):
            return SeqX(tuple(cut(x, n) for x in v.es[:n]))
        if isinstance(v, Agg):
            return Agg(v.ty, tuple(cut(x, n) for x in v.fs))
        if isinstance(v, En):
            return En(v.ty, tuple((k, tuple(cut(x, n) for x in fs)) for k, fs in v.alts))
        return v
    for kw, shape, comp in lang.components(absint.Interp(P)):
        for n in (0, 1):
            v = cut(comp, n)
            if v is not comp and v not in seen:
                seen.add(v)
                out.append((kw, "%s of %d" % (shape.split(",")[0], n), v))
    return out
