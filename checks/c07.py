"""A tempo change reaches every tempo-dependent node."""
from engine import absint, report
from engine.values import *
from . import common, engine_, fields, lang, tainted

RULE = ("Value-origin analysis by abstract interpretation: an engine with any tempo plays every node the language has, then the tempo is set to any other: "
        "no setting of any node that rendering or message handling can read, nested nodes included, is computed from the old tempo or from a built-in one, and "
        "every setting that was computed from the old tempo is the same computation on the new one. A node made after the change is the node made "
        "by an engine that always had that tempo.")
TIMED = ("Seq", "Arrange", "Points", "PatternSynth", "PSampler", "Lpf")
BUILTIN = "builtin.tempo"


def run(P):
    c = report.Check("C07", RULE)
    ns = common.nodes(P)
    f = engine_.fn(P, "glicol::Engine::set_bpm")
    has = set()
    for kw, shape, comp in lang.components(absint.Interp(P)):
        pl = tainted.Played(P, kw, shape, comp, tainted.builtin(False))
        if pl.st is None:
            c.count("descriptions_not_made")
            continue
        c.count("descriptions")
        b, I = pl.b, pl.b.I
        v0, ty = b.inner(pl.st, pl.key)
        top = fields.base(P.tys[ty].s)
        inert = None
        before = tainted.cells(P, I, v0, ty, ns)
        I.epoch += 1
        rs = I.run(f, [Ref(("eng",), (), None), S("bpm2", I.T_f32)], pl.st.copy())
        c.require(bool(rs), "setting the tempo returns", common.where(f), pl.label())
        for s, _ in rs:
            c.count("tempo_changes")
            v1, _t = b.inner(s, pl.key)
            after = tainted.cells(P, I, v1, ty, ns)
            c.require(len(before) == len(after), "a tempo change alters the make-up of %s" % kw.lower(), common.where(f), lambda: "%s: %s" % (pl.label(), show(v1, 4)[:300]))
            for (owner, path, x), (_o, _p, y) in zip(before, after):
                c.count("settings_examined")
                lx, ly = I.label_names(x), I.label_names(y)
                if "bpm" in lx:
                    has.add(kw)
                    c.count("settings_computed_from_the_tempo")
                if BUILTIN in lx | ly and owner == top and path:
                    if inert is None:
                        inert = tainted.inert(pl, BUILTIN)
                    if path[0] in inert:
                        c.count("settings_without_effect")
                        continue
                where = "message handling of %s" % owner
                name = "%s of %s" % (".".join(map(str, path)) or "a setting", owner.split("::")[-1])
                c.require(BUILTIN not in lx, "%s: %s computed from a built-in tempo" % (kw.lower(), name), "makenode (rs/main/src/util.rs)", lambda: "%s: %s" % (pl.label(), show(x, 6)[:300]))
                c.require("bpm" not in ly and BUILTIN not in ly, "%s: %s keeps the old tempo" % (kw.lower(), name), where,
                          lambda: "%s: %s after the tempo was set" % (pl.label(), show(y, 6)[:300]))
                if "bpm" in lx:
                    same = rename(I, b, x) == rename(I, b, y)
                    c.require(same, "%s: %s is computed from a new tempo in another way" % (kw.lower(), name), where,
                              lambda: "%s: %s, then %s" % (pl.label(), show(x, 6)[:300], show(y, 6)[:300]))
        # the same node made by an engine told of the tempo afterwards
        I.epoch += 1
        for s, _ in I.run(f, [Ref(("eng",), (), None), S("bpm2", I.T_f32)], b.start.copy()):
            for r in pl.samples:
                s = b.sample(s, r)
            for s2, ok, _v in b.update(s, pl.prog):
                if not ok:
                    continue
                c.count("nodes_made_after_a_change")
                v2, _t = b.inner(s2, b.chains(s2)["out"][1])
                for owner, path, y in tainted.cells(P, I, v2, ty, ns):
                    c.require("bpm" not in I.label_names(y), "%s made after a tempo change keeps the old tempo" % kw.lower(), "makenode (rs/main/src/util.rs)",
                              lambda: "%s: %s" % (pl.label(), show(y, 6)[:300]))
    for kw in TIMED:
        c.require(kw in has, "%s does not depend on the tempo" % kw.lower(), "makenode (rs/main/src/util.rs)", "no setting its rendering reads is computed from the engine's tempo")
    c.floor("descriptions", 75)
    c.floor("tempo_changes", 75)
    c.floor("nodes_made_after_a_change", 75)
    c.floor("settings_computed_from_the_tempo", 40)
    return c.finish(P)


def rename(I, b, x):
    """the values x may have, written with one name for either tempo"""
    from . import c04
    return frozenset(swap(v) for v in c04.may(b, x))


def swap(v):
    if isinstance(v, S):
        return "tempo" if v.name in ("bpm", "bpm2") else v
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "any":
            return ("any", tuple(sorted("tempo" if n in ("bpm", "bpm2") else n for n in v[1])))
        return tuple(swap(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(swap(x) for x in v)
    if isinstance(v, str):
        return v
    return v
