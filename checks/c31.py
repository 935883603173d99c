"""Oscillators, envelopes and the voices of the synths follow the course that defines them."""
import math
from fractions import Fraction
from engine import absint, report
from engine.values import *
from . import common, lang, timeline

RULE = ("Abstract interpretation of the oscillators, envelopes and polyphonic synths, as the engine makes them, for every frequency and length within given bounds and given frames of triggers: at every frame an "
        "oscillator must hand on its waveform at the phase its frequency has brought it to (whole cycles left out), whether the frequency is written or "
        "comes from a chain; an envelope must be silent until triggered, rise, fall and be released on straight lines of the written lengths starting where "
        "it stands, scaled by the trigger or holding the written sustain. A voice of the pattern and message synths must be a saw of the pitch of its note under "
        "such an envelope, from the frame of its event, and voices add.")
RATE = 8
WAVES = {
    "Sin": lambda p: math.sin(2 * math.pi * p),
    "Saw": lambda p: 2 * p - 1,
    "Squ": lambda p: 1.0 if p < 0.5 else -1.0,
    "Tri": lambda p: 2 * abs(2 * p - 1) - 1,
}
# frequencies that do not bring the phase near one half or one
MODULATED = (0.5625, 1.25, 3.1875, 0.6875, 5.3125, 2.0625, 1.4375, 4.5625, 0.3125, 6.0625, 7.1875, 0.9375)


def run(P):
    c = report.Check("C31", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        f = envelopes if kw in ("EnvPerc", "Adsr") else oscillator if kw in WAVES else voices if kw in ("MsgSynth", "PatternSynth") else None
        if f:
            f(lambda label, numbers, ch, spec, **k: timeline.follow(P, c, fns, "%s%s" % (kw.lower(), label), kw, shape, comp, numbers, ch, spec, **k), kw, shape)
    c.floor("timelines", 350)
    c.floor("frames_compared", 4000)
    c.assume("frequencies below the sample rate, over twelve frames, except within a ten-thousandth of the ones at which a frame falls on the edge of a half cycle; lengths of envelopes of one to six frames; rounding of single precision is not part of the comparison")
    return c.finish(P)


def between(frames, near=1e-4):
    """the ranges of cycles a frame within which every frame falls into the same half of the same cycle, without their ends"""
    ends = sorted({Fraction(j, 2 * k) for k in range(1, frames) for j in range(2 * k + 1)})
    return [(float(a) + near, float(b) - near) for a, b in zip(ends, ends[1:])]


def oscillator(follow, kw, shape):
    wave = WAVES[kw]
    if shape == "Number":
        for lo, hi in between(12):
            follow(" of %.4f to %.4f cycles a frame" % (lo, hi), {"param": timeline.Between(lo * RATE, hi * RATE)}, (), lambda e, c, n: wave(n * e.n("param") / RATE % 1.0))
    else:
        for ch in (1, 2):
            follow(" modulated", {}, (ch,), lambda e, c, n: wave(sum(e.x(0, 0, k) for k in range(n)) / RATE % 1.0),
                   given={0: [timeline.Between(f - 0.02, f + 0.02) for f in MODULATED]})


PERC = (
    (2, 4, {0: 1.0}), (1, 3, {3: 0.5}), (4, 2, {1: 1.0, 8: 2.0}), (3, 6, {0: 1.0, 2: 0.5, 7: 1.0}), (6, 1, {2: 4.0}),
)
# attack, decay, release; frames at which the gate is open
GATES = (
    (2, 2, 2, (0, 1, 2, 3, 4, 5, 6, 7)),
    (3, 2, 4, (1, 2, 3, 4, 5, 6, 7)),
    (4, 2, 4, (0, 1, 2)),
    (1, 4, 1, (2, 3, 4, 5, 9, 10, 11)),
    (4, 1, 4, (0, 1, 2, 3, 4, 5, 6, 9, 10, 11)),
    (4, 4, 2, (0, 1, 2, 3, 5, 6, 7, 8, 9, 10)),
    (4, 2, 4, (0, 1, 2, 4, 5, 6, 7, 8, 9)),
)


def frames(n):
    """a length in seconds that reaches into the frame after the n-th, but not beyond it"""
    return timeline.Between((n + 0.01) / RATE, (n + 0.99) / RATE)


def envelopes(follow, kw, shape):
    if kw == "EnvPerc":
        for a, d, hits in PERC:
            def spec(e, c, n):
                begun = max((t for t in hits if t <= n), default=None)
                if begun is None:
                    return 0.0
                pos = n - begun
                return e.x(0, 0, begun) * (pos / a if pos <= a else max(0.0, (a + d - pos) / d))
            follow(" of %d and %d frames triggered at %s" % (a, d, sorted(hits)), {"attack": frames(a), "decay": frames(d)}, (1,), spec,
                   given={0: [timeline.Between(0.5 * hits[n], 1.5 * hits[n]) if n in hits else 0.0 for n in range(16)]}, blocks=4)
    else:
        for a, d, r, gate in GATES:
            def spec(e, c, n):
                s = e.sym("c.sustain")
                y, open_, pos, start = 0.0, False, None, 0.0
                for k in range(n + 1):
                    if (k in gate) != open_:
                        open_, pos, start = k in gate, 0, y
                    if pos is None:
                        y = 0.0
                    elif open_:
                        y = start + (1 - start) * pos / a if pos <= a else s + (1 - s) * max(0.0, (a + d - pos) / d)
                    else:
                        y = start * max(0.0, (r - pos) / r)
                    pos = None if pos is None else pos + 1
                return y
            for ch in (1, 2):
                follow(" of %d, %d and %d frames, open at %s" % (a, d, r, ",".join(map(str, gate))), {"attack": frames(a), "decay": frames(d), "release": frames(r)}, (ch,), spec,
                       given={0: [timeline.Between(0.01, 10.0) if n in gate else 0.0 for n in range(16)]}, blocks=4)


MS = 1000                                               # a sample rate at which a millisecond is a frame
EXACT = 1024                                            # a sample rate at which lengths in frames are exact
# (frame, octaves below 440 Hz) of each note; span in bars of eight frames
PATTERNS = (
    (((0, 3),), 1.0), (((2, 2),), 2.0), (((0, 3), (5, 2)), 1.0), (((1, 2), (1, 4), (9, 3)), 1.5),
)
# attack and decay in frames, then the notes
MESSAGES = (
    (2, 4, ((0, 3),)), (3, 5, ((2, 2), (4, 3))), (1, 3, ((1, 3), (7, 2))), (4, 2, ((3, 4), (3, 2))),
)
LOUD = 0.1


def voice(n, begin, octaves, attack, decay, rate=MS):
    t = n - begin
    if t < 0 or t > attack + decay:
        return 0.0
    amp = t / attack if t <= attack else (attack + decay - t) / decay
    return LOUD * amp * (2 * (t * 440 / 2 ** octaves / rate % 1.0) - 1)


def voices(follow, kw, shape):
    if kw == "PatternSynth":
        for notes, span in PATTERNS:
            bar = int(8 * span)
            text = "`%s`" % ",".join("%r %d" % ((at + 0.5) / 8, 69 - 12 * o) for at, o in notes)
            hits = [(b + at, o) for b in range(0, 16, bar) for at, o in notes if at < bar]
            follow(" %s over %g" % (text, span), {"symbol": text, "span": span}, (), lambda e, c, n: sum(voice(n, at, o, 1, 100) for at, o in hits),
                   rate=MS, bpm=30000.0, blocks=4)
    else:
        for a, d, notes in MESSAGES:
            follow(" of %d and %d frames with %d notes" % (a, d, len(notes)), {"attack": a / EXACT, "decay": d / EXACT}, (),
                   lambda e, c, n: sum(voice(n, at, o, a, d, EXACT) for at, o in notes),
                   rate=EXACT, blocks=4, messages=["out,0,3,%r=>%d" % ((at + 0.5) / EXACT, 69 - 12 * o) for at, o in notes])
