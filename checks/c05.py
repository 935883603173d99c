"""Every parameter written in code reaches its own setting of the node."""
import re, struct
from engine import peg, report
from engine.values import *
from . import parsing, spelled

RULE = ("For every way of writing a node (keyword, parameter alternatives) the text, with every digit of its numbers left open, is parsed with the "
        "grammar read as data, the parser is interpreted abstractly on the resulting pairs and the engine on the resulting description; each "
        "written number, name, script and reference must be found in the setting the language assigns it to, unchanged or as the only "
        "written number the setting is computed from. All spellings of numbers and layouts of the text must lead to the same description.")
WHERE = "rs/parser/src/nodes.rs"
MAKE = "rs/main/src/util.rs"

LAYOUTS = (("in a chain", lambda r: "out: sig 1.5 >> %s >> mul 2.5" % r, 1),
           ("over several lines", lambda r: "// first\n~zz: sig 1.5;\nout : sig 1.5\n >>  %s\n// between\n >> mul 2.5 ;\n\n~zy: mul 3.5" % r, 1),
           ("separated otherwise", lambda r: "out:\t" + r.replace(" ", " ,\t|"), 0))


def run(P):
    c = report.Check("C05", RULE)
    G = parsing.grammar()
    for row, kind, settings in spelled.ROWS:
        if kind is None:
            continue
        c.count("ways_of_writing")
        comp = description(c, P, G, row)
        if comp is None:
            continue
        spellings(c, P, G, row, comp)
        played(c, P, row, kind, settings, comp)
    c.floor("ways_of_writing", 60)
    c.floor("settings_compared", 120)
    c.floor("spellings_compared", 450)
    c.floor("computations_followed", 20)
    c.assume("the script compilers accept the scripts of the analysed programs")
    c.assume("a negative whole number may be refused where a count is expected")
    return c.finish(P)


def read(P, G, w):
    """(chains or None, why not)"""
    try:
        t, far = spelled.tree(G, w)
    except peg.Undecided as e:
        return None, "whether it is accepted depends on the digits (%s)" % e
    if t is None:
        return None, "not accepted by the grammar from character %d on" % far
    res, I = spelled.ast(P, w, t[0])
    bad = [k for k, o in I.obls.items() if o["status"] != "proved" and not k[1].startswith("overflow")]
    if bad:
        return None, "the parser may panic: %s" % (bad[0],)
    if len(res) != 1 or res[0][0] != "ok":
        return None, "the parser answers %s" % ", ".join("%s %s" % (k, show(v, 4) if isinstance(v, V) else "") for k, v in res)[:200]
    return res[0][1], None


def description(c, P, G, row):
    chains, why = read(P, G, spelled.Written("out: " + row))
    c.require(chains is not None, "%s: read" % row, WHERE, lambda: "`%s`: %s" % (row, why))
    if chains is None:
        return None
    ok = list(chains) == ["out"] and len(chains["out"]) == 1
    c.require(ok, "%s: one node" % row, WHERE, lambda: "`%s` is read as %s" % (row, {k: len(v) for k, v in chains.items()}))
    return chains["out"][0] if ok else None


def spellings(c, P, G, row, comp):
    todo = []
    if "{n}" in row:
        todo += [("out: " + row, n, spelled.INTEGERS[0], n[0], 0) for n in spelled.NUMBERS[1:]]
    if "{i}" in row:
        todo += [("out: " + row, spelled.NUMBERS[0], i, i[0], 0) for i in spelled.INTEGERS[1:]]
    todo += [(f(row), spelled.NUMBERS[0], spelled.INTEGERS[0], what, at) for what, f, at in LAYOUTS if not (what == "separated otherwise" and not row[0].isalpha() or "`" in row and "separated" in what)]
    for text, n, i, what, at in todo:
        w = spelled.Written(text, n, i)
        chains, why = read(P, G, w)
        c.count("spellings_compared")
        if chains is None and "-" in i[0]:
            c.count("negative_whole_numbers_refused")
            continue
        got = chains["out"][at] if chains is not None and len(chains.get("out", ())) > at else None
        c.require(got is not None and same(got) is same(comp), "%s: %s" % (row, what), WHERE, lambda: "`%s`: %s" % (w.shown, why or "read as %s, on its own as %s" % (show(got, 8) if got is not None else None, show(comp, 8))))


def same(v):
    """a description up to how its numbers are spelled inside a script"""
    if isinstance(v, K) and isinstance(v.v, str):
        return K(re.sub("~[.-]»", "»", v.v), v.ty)
    if isinstance(v, Agg):
        return Agg(v.ty, tuple(same(x) for x in v.fs))
    if isinstance(v, En):
        return En(v.ty, tuple((k, tuple(same(x) for x in fs)) for k, fs in v.alts))
    if isinstance(v, SeqX):
        return SeqX(tuple(same(x) for x in v.es))
    return v


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def played(c, P, row, kind, settings, comp):
    names = [n for n in ("~ra", "~rb", "~a") if n in row]
    pl = spelled.Played(P, {}, ())
    chains = {"out": [comp]}
    for n in names:
        chains[n] = [pl.bench.const("v" + n)]
    pl = spelled.Played(P, chains, [s for s in ("\\sa", "\\sb") if s in row])
    st = pl.accepted()
    c.require(st is not None, "%s: accepted" % row, MAKE, lambda: "`%s`: the engine answers %s" % (row, [show(v, 5) for _s, ok, v in pl.results if not ok]))
    if st is None:
        return
    nodes = pl.nodes(st, "out")
    if [n for n, _ in nodes] != [kind]:
        c.count("other_kind_of_node")                   # judged by C18
        return
    node = nodes[0][1]
    all_ = [(spelled.path_text(p), v) for p, v in spelled.places(pl.I, node)]
    for setting, want in settings.items():
        c.count("settings_compared")
        formula = None
        if isinstance(want, tuple):
            want, formula = want
        key = "%s: %s" % (row, setting)
        if setting == "chain":
            wanted = [(n, 0) for n in want.split()]
            heard = sorted(a for a, b in pl.bench.edges(st) if b == ("out", 0))
            order = pl.bench.order(st, pl.bench.chains(st)["out"][0])
            c.require(heard == sorted(wanted) and order in (None, wanted), key, MAKE, lambda: "`%s` hears %s in the order %s, written %s" % (row, heard, order, want))
            continue
        if setting == "script":
            got = [t.strip() if t is not None else None for t in pl.scripts.texts if t != ""]
            c.require(got == want, key, MAKE, lambda: "`%s` compiles %s, written %s" % (row, got, want))
            continue
        found = [(p, v) for p, v in all_ if p == setting or p.endswith("/" + setting) or (want[:1] == "<" if isinstance(want, str) else False) and setting in p and p.split(setting)[0][-1:] in ("", "/") and p.split(setting)[1][:1] in ("", "/")]
        if not found:
            # the setting has another name now: it must still be somewhere
            c.count("settings_found_by_value")
            c.require(any(meets(pl.I, v, want) for _p, v in all_), key, MAKE, lambda: "`%s`: nothing in the node is %s" % (row, describe(want)))
            continue
        rel = [(p, v) for p, v in found if not (isinstance(want, str) and want[0] in "=<" and not spelled.numbers(pl.I, v) and len(found) > 1)]
        if formula is not None:
            for v in (v for _p, v in rel):
                follows(c, pl.I, row, key, setting, v, formula)
        c.require(bool(rel) and all(meets(pl.I, v, want) for _p, v in rel), key, MAKE, lambda: "`%s`: %s must be %s and is %s" % (row, setting, describe(want), ", ".join(show(v, 6) for _p, v in found)))


SAMPLES = tuple({k: x * k for k in range(1, 10)} for x in (0.0625, 0.3125, 2.0))


def follows(c, I, row, key, setting, v, formula):
    """a setting computed from written numbers, at a few values of them"""
    for n in SAMPLES:
        env = dict({"#%d" % k: x for k, x in n.items()}, sr=48000.0)
        got = spelled.value(I, v, env)
        if got is None:
            c.count("computations_not_followed")
            return
        want = formula(n)
        c.count("computations_followed")
        c.require(abs(got - want) <= 1e-5 * max(1.0, abs(want)), key, MAKE, lambda: "`%s`: %s is computed as %s; with %s it is %s and should be %s" % (row, setting, show(v, 8), n, got, want))


def describe(want):
    if not isinstance(want, str):
        return repr(want)
    if want[0] == "=":
        return "the written number %s" % want[1:]
    if want[0] == "<":
        return "computed from written number %s and no other" % want[1:]
    return want


def meets(I, v, want):
    if isinstance(want, bool):
        return isinstance(v, K) and bool(v.v) is want
    if isinstance(want, float):
        return isinstance(v, K) and isinstance(v.v, (int, float)) and abs(v.v - f32(want)) < 1e-7
    if want[0] == "=":
        return isinstance(v, S) and v.name == "#" + want[1:]
    if want[0] == "<":
        return spelled.numbers(I, v) == frozenset(int(x) for x in want[1:].split(","))
    if want[0] == "'":
        return isinstance(v, K) and v.v == want[1:]
    if want.startswith("sample "):
        return "data:" + want[7:] in {x.rstrip(".*") for x in I.label_names(v)}
    return False
