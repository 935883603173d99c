"""Every node computes with the engine's sample rate."""
from engine import absint, report
from engine.values import *
from . import common, fields, lang, tainted

RULE = ("Value-origin analysis by abstract interpretation: an engine set to any sample rate makes every node the language has, with each literal that is a "
        "customary sample rate followed as a value of its own. No setting that rendering or message handling can read, down to the nodes inside drums, synths "
        "and reverbs, may be computed from such a literal; nodes whose sound depends on time must have settings computed from the configured rate. "
        "Code reached from rendering and message handling contains no such literal.")
# nodes that measure time or frequency (the list by hand)
TIMED = ("Delayms", "Imp", "Tri", "Squ", "Saw", "Sin", "Seq", "Arrange", "Sp", "Bd", "Sn", "Hh", "SawSynth", "SquSynth", "TriSynth", "MsgSynth", "PatternSynth",
         "Lpf", "PSampler", "Rhpf", "ApfmsGain", "Plate", "EnvPerc", "Adsr", "Meta", "Eval", "Points")
RATE = "builtin.rate"


def run(P):
    c = report.Check("C06", RULE)
    ns = common.nodes(P)
    sr = set()
    for kw, shape, comp in lang.components(absint.Interp(P)):
        pl = tainted.Played(P, kw, shape, comp, tainted.builtin())
        if pl.st is None:
            c.count("descriptions_not_made")
            continue
        c.count("descriptions")
        v, ty = pl.b.inner(pl.st, pl.key)
        cs = tainted.cells(P, pl.b.I, v, ty, ns)
        for owner, path, x in cs:
            c.count("settings_examined")
            l = pl.b.I.label_names(x)
            if "sr" in l:
                c.count("settings_computed_from_the_configured_rate")
                sr.add(kw)
            if RATE in l and path and owner == fields.base(P.tys[ty].s):
                if path[0] in tainted.inert(pl, RATE):
                    c.count("settings_without_effect")
                    continue
            c.require(RATE not in l, "%s: %s of %s computed from a built-in sample rate" % (kw.lower(), ".".join(map(str, path)) or "a setting", short(owner)),
                      "makenode (rs/main/src/util.rs), %s" % owner, lambda: "%s: %s" % (pl.label(), show(x, 6)[:300]))
    for kw in TIMED:
        c.require(kw in sr, "%s does not depend on the configured sample rate" % kw.lower(), "makenode (rs/main/src/util.rs)",
                  "no setting its rendering reads is computed from the engine's sample rate")
    literals(P, c, ns)
    c.floor("descriptions", 75)
    c.floor("settings_examined", 600)
    c.floor("settings_computed_from_the_configured_rate", 120)
    c.floor("functions_scanned", 100)
    c.assume("a delay written in samples (delayn, and the taps of plate given in samples) is not a time")
    return c.finish(P)


def short(t):
    return t.split("::")[-1]


def literals(P, c, ns):
    seen = {}
    for t, n in ns.items():
        for f in fields.node_reads(P, n)[1]:
            if f.crate in ("glicol_synth", "glicol") and not f.short.rsplit("::", 1)[-1].startswith(("new", "default")):
                seen[f.id] = (f, t)
    I = absint.Interp(P)
    for f, t in seen.values():
        c.count("functions_scanned")
        c.count("obligations")
        bad = [x for x in consts(f.d["blocks"]) if value(I, x) in tainted.RATES]
        if bad:
            c.require(False, "a sample rate written into %s" % f.short, common.where(f), "literal %s in code reached from rendering or messages of %s" % (value(I, bad[0]), t))
        else:
            c.count("discharged")


def consts(x):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "k" and isinstance(x[2], dict):
            yield x
        else:
            for y in x:
                yield from consts(y)


def value(I, k):
    d = k[2]
    if d.get("k") not in ("int", "float"):
        return None
    try:
        v = I.const(d, k[1])
    except Exception:
        return None
    return v.v if isinstance(v, K) else None
