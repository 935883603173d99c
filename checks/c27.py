"""Nothing stale is heard: every block is written whole, on both sides, and nodes without input fall silent."""
from engine import absint, report, terms
from engine.values import *
from . import common, engine_, lang, programs, rendered, c22

RULE = ("Abstract interpretation of every node the engine can make, over two blocks of four frames with the inputs its code gives it (mono and stereo): on "
        "every path either every frame of every channel is written or none is, no written frame depends on what the buffers held before, and with mono "
        "inputs both channels carry the same function of the inputs (nodes that place sound in the stereo field excepted). Then, for every description "
        "without references: a program in which the node is fed, one block, an accepted update that takes its input away, another block - what it hands "
        "on then must not come from the block before.")
N = rendered.N
STEREO = ("Pan", "Balance", "Plate", "Reverb")        # these tell left from right by definition
SILENT = (("Arrange", "Ref]"),)                        # a length that is not a number: nothing is played
SCRIPTED = ("Eval",)                                   # hands on nothing until its code has compiled once, and everything from then on
SAMPLES = ("Sp", "PSampler")                           # a sample may have two channels of its own


def run(P):
    c = report.Check("C27", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    comps = lang.components(absint.Interp(P))
    for kw, shape, comp in comps:
        made, _ = lang.make(P, kw, shape, comp, N)
        for m in made:
            c.count("nodes_made")
            whole(P, c, m, fns[m.name][("process", N)])
    idle(P, c, comps)
    c.floor("nodes_made", 70)
    c.floor("blocks_rendered", 250)
    c.floor("sides_compared", 30)
    c.floor("updates_followed", 30)
    return c.finish(P)


def whole(P, c, m, f):
    writes = {}
    r = len(m.refs)
    for main in ((), (1,), (2,)):
        for rc in (1, 2) if r else (1,):
            ch = main + (rc,) * r
            what = "%s with %s" % (m.label(), "inputs of %s channels" % " and ".join(map(str, ch)) if ch else "no input")
            for p in rendered.render(P, m, f, ch, 2):
                c.count("blocks_rendered", 2)
                for b in range(2):
                    w = [[state(m.I, p, i, n) for n in range(b * N, b * N + N)] for i in range(m.channels)]
                    flat = {x for ws in w for x in ws}
                    writes.setdefault(bool(main), set()).update(flat)
                    if m.kw in SCRIPTED and flat == {"mixed"}:
                        writes[bool(main)].add("new")
                        continue
                    c.require(flat in ({"new"}, {"old"}), "%s leaves part of a block as it was" % m.label(), common.where(f),
                              lambda: "%s, block %d: %s" % (what, b + 1, "; ".join("channel %d: %s" % (i, " ".join(ws)) for i, ws in enumerate(w))))
                if max(ch, default=1) == 1 and m.channels == 2 and m.kw not in STEREO + SAMPLES:
                    sides(c, m, p, f, what)
    silent = any(m.kw == k and s in m.shape for k, s in SILENT)
    c.require(silent or any("new" in w for w in writes.values()), "%s never hands anything on" % m.label(), common.where(f), lambda: str(writes))


def state(I, p, i, n):
    """new, old or mixed: where a frame comes from"""
    v, was = p.out[i][n], p.old[i][n]
    if v is was:
        return "old"
    return "mixed" if any(x.startswith("old") for x in I.label_names(v)) else "new"


def sides(c, m, p, f, what):
    pts = terms.points(m.I)
    for n in range(2 * N):
        try:
            ok = terms.same(m.I, p.out[0][n], p.out[1][n], pts)
        except terms.Undecided:
            c.count("sides_undecided")
            continue
        c.count("sides_compared")
        old = state(m.I, p, 0, n) == "old" == state(m.I, p, 1, n)
        c.require(ok or old, "%s moves a mono signal to one side" % m.label(), common.where(f),
                  lambda: "%s, frame %d: left %s, right %s" % (what, n, show(p.out[0][n], 5)[:200], show(p.out[1][n], 5)[:200]))


def idle(P, c, comps):
    where = "glicol::Engine::update_with_code (rs/main/src/lib.rs)"
    for kw, shape, comp in comps:
        b = programs.Bench(P, N=N)
        I = b.I
        comp, refs, samples = lang.named(I, comp)
        if refs:
            continue
        st = b.start
        for n in samples:
            st = b.sample(st, n)
        label = "%s%s" % (kw.lower(), " " + shape if shape else "")
        first = [s for s, ok, _ in b.update(st, {"out": [b.const("fed"), comp]}) if ok]
        f = engine_.fn(P, "glicol::Engine::next_block", N)
        for s in first:
            for s, _ in c22.block(I, f, s, 0, "before"):
                for s, ok, _ in b.update(s, {"out": [comp]}):
                    if not ok:
                        continue
                    c.count("updates_followed")
                    key = b.chains(s)["out"][0]
                    s, left = tagged(b, s, key)
                    for s, _ in c22.block(I, f, s, 0, "after"):
                        d = b.nodes(s)[key]
                        buf = d.fs[I.field_names(d.ty).index("buffers")]
                        ls = {x for i in range(len(buf.es)) for v in rendered.frames(buf, i) for x in I.label_names(v)}
                        c.require(not any(x.startswith("stale") for x in ls), "%s goes on repeating its last block when its input is gone" % label, where,
                                  lambda: "program `out: sig fed >> %s`, a block, program `out: %s`, a block: it still holds %s" % (
                                      label, label, show(left, 5)[:200]))


def tagged(b, st, key):
    """the state with everything the node has in its buffers replaced by a mark, silence excepted; (state, what was there)"""
    I = b.I
    st = st.copy()
    d = b.nodes(st)[key]
    k = I.field_names(d.ty).index("buffers")
    buf = d.fs[k]
    if not isinstance(buf, SeqX):
        raise absint.Budget("buffers of %s are not known one by one" % show(key, 3))
    new, left = [], None
    for i, x in enumerate(buf.es):
        fs = rendered.frames(buf, i)
        left = left or next((v for v in fs if not silence(v)), None)
        new.append(Agg(x.ty, (SeqX(tuple(v if silence(v) else S("stale.%d@%d" % (i, n), I.T_f32) for n, v in enumerate(fs))),)))
    data = Agg(d.ty, d.fs[:k] + (SeqX(tuple(new)),) + d.fs[k + 1:])
    g = b.W.graph(st)
    g2 = Agg(g.ty, (MapX(tuple((i, data if i is key else v) for i, v in g.fs[0].es)),) + g.fs[1:])
    eng = st.mem[("eng",)]
    i = common.field_index(I, eng.ty, "context")
    j = common.field_index(I, eng.fs[i].ty, "graph")
    ctx = Agg(eng.fs[i].ty, eng.fs[i].fs[:j] + (g2,) + eng.fs[i].fs[j + 1:])
    st.mem[("eng",)] = Agg(eng.ty, eng.fs[:i] + (ctx,) + eng.fs[i + 1:])
    return st, left


def silence(v):
    return isinstance(v, K) and v.v == 0
