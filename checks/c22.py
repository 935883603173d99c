"""Live audio input is delivered to the input chain unchanged."""
from engine import absint, report
from engine.values import *
from . import common, engine_, programs

RULE = ("Abstract interpretation of rendering one block (four frames, every node rendered for real, all samples symbolic) with no, one and two channels of "
        "input audio: afterwards the reserved input chain holds, frame for frame, the left channel on its left and the right channel on its right, a chain "
        "that takes it up has played the very same samples in this block, and channels not handed in are as they were. Engines: new, edited, after a "
        "rejected update, after a reset, after earlier blocks.")
N = 4
WHERE = "glicol::Engine::next_block (rs/main/src/lib.rs)"


def run(P):
    c = report.Check("C22", RULE)
    b = programs.Bench(P, N=N)
    I, W = b.I, b.W
    f = engine_.fn(P, "glicol::Engine::next_block", N)
    get = W.component("Get", reference=K("~input", I.T_str))
    k, m = b.const, b.mul
    play = {"out": [get]}
    edited = {"out": [get, m("w")], "~n": [k("n")]}
    s0 = b.accepted(b.start, play)
    states = [("a new engine", s0)]
    for s, ok, _ in b.update(b.accepted(b.start, {"out": [k("v")]}), play):
        states.append(("an engine that played something else", s))
    for s, ok, _ in b.update(b.accepted(b.start, edited), play):
        states.append(("an edited engine", s))
    for s, ok, _ in b.update(s0, {"out": [get, m("~gone")]}):
        states.append(("an engine after a rejected update", s))
    for s, _ in I.run(engine_.fn(P, "glicol::Engine::reset", N), [Ref(("eng",), (), None)], b.accepted(b.start, edited).copy()):
        states.append(("a reset engine", b.accepted(s, play)))
    for s, _ in block(I, f, s0, 2, "before"):
        states.append(("an engine that has had input before", s))
    for s, _ in block(I, f, s0, 0, "before"):
        states.append(("an engine that has played a block", s))
    for what, st in states:
        inp, out = b.chains(st)["~input"][0], b.chains(st)["out"][0]
        for n in (0, 1, 2):
            rs = block(I, f, st, n, "now")
            c.require(bool(rs), "a block with input audio renders", WHERE, "%s, %d channels" % (what, n))
            for s, v in rs:
                c.count("blocks_rendered")
                old, new, heard = buffers(b, st, inp), buffers(b, s, inp), buffers(b, s, out)
                for ch in range(2):
                    want = [sample(I, "now", ch, i) for i in range(N)] if ch < n else old[ch]
                    c.count("channels_compared")
                    c.require(new[ch] == list(want), "the input chain's channel %d with %d given" % (ch, n), WHERE,
                              lambda: "%s: %s instead of %s" % (what, list(map(show, new[ch])), list(map(show, want))))
                    c.require(heard[ch] == list(want), "what is heard of the input chain's channel %d with %d given" % (ch, n), WHERE,
                              lambda: "%s: %s instead of %s" % (what, list(map(show, heard[ch])), list(map(show, want))))
    c.floor("blocks_rendered", 20)
    c.floor("channels_compared", 40)
    return c.finish(P)


def sample(I, when, ch, i):
    return S("%s.%s[%d]" % (when, "LR"[ch], i), I.T_f32)


def block(I, f, st, n, when):
    st = st.copy()
    refs = []
    for ch in range(n):
        r = ("audio", when, ch)
        st.mem[r] = SeqX(tuple(sample(I, when, ch, i) for i in range(N)))
        refs.append(Ref(r, (), None))
    I.epoch += 1
    return I.run(f, [Ref(("eng",), (), None), SeqX(tuple(refs))], st)


def buffers(b, st, key):
    d = b.nodes(st)[key]
    out = []
    for x in d.fs[b.I.field_names(d.ty).index("buffers")].es:
        a = x.fs[0]
        out.append(list(a.es) if isinstance(a, SeqX) else [a])
    return out
