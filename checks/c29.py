"""Samples play from their first frame to their last, in tune, each channel on its own side."""
from fractions import Fraction
from engine import absint, report
from engine.values import *
from . import common, lang, timeline

RULE = ("Abstract interpretation of the sampler and the pattern sampler, as the engine makes them, with every sample value a symbol, for samples of one and "
        "two channels and several lengths and rates, for speeds anywhere within given bounds, triggered at several frames, overlapping included: at every frame each side must be the sum, over "
        "the playings begun and not yet over, of the straight line between the two sample values around the playing's position on that side; before the "
        "first trigger and after the last frame there is silence.")
RATE = 8
# frames of the sample, its rate; then (frame of a trigger, speed)
SP = (
    (4, 8, ((0, 1),)),
    (8, 8, ((1, 1),)),
    (1, 8, ((2, 1),)),
    (2, 8, ((0, 0.5), (3, 0.5))),
    (4, 16, ((0, 1), (5, 0.25))),
    (4, 4, ((0, 2), (1, 1), (8, 2))),
    (8, 8, ((0, 2), (2, 2), (3, 4), (9, 1))),
)
# pattern sampler: frames of the sample, its rate, span in bars, (event in bars); a bar of eight frames
PS = (
    (4, 8, 1.0, (0.0, 0.5)),
    (8, 8, 1.0, (0.125, 0.25)),
    (2, 4, 0.5, (0.0, 0.375)),
    (4, 16, 1.5, (1.25, 0.25)),
    (1, 8, 1.0, (0.75, 0.5)),
)


def value(e, name, frames, chans, c, begin, speed, rate, n):
    """what a playing begun at a frame adds at frame n"""
    dur = frames / speed / (rate / RATE)
    t = n - begin
    if t < 0 or t > dur:
        return 0.0
    pos = t / dur * (frames - 1)
    k = min(int(pos), frames - 1)
    at = lambda j: e.sym("%s.%d" % (name, j + (frames if c == 1 and chans == 2 else 0)))
    return at(k) * (1 - (pos - k)) + (at(k + 1) * (pos - k) if pos > k else 0.0)


def speeds(frames, upto, near=1e-3):
    """the ranges of speeds within which every frame of the first ones falls between the same two sample values, without their ends"""
    ends = sorted({q for t in range(1, upto) for j in range(5 * upto * frames) for q in (Fraction(j * frames, t * max(frames - 1, 1)), Fraction(frames, t))
                   if Fraction(1, 2) <= q <= 4})
    return [(float(a) + near, float(b) - near) for a, b in zip(ends, ends[1:])]


def run(P):
    c = report.Check("C29", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        if kw == "Sp":
            for chans in (1, 2):
                for frames, rate, hits in SP:
                    label = "sp of %d frames, %s, at rate %g" % (frames, ("mono", "stereo")[chans - 1], rate / RATE)
                    trig = [0.0] * 12
                    for at, speed in hits:
                        trig[at] = timeline.Between(speed * 1.01, speed * 1.02)
                    timeline.follow(P, c, fns, label, kw, shape, comp, {}, (1,),
                                    lambda e, i, n: sum(value(e, "\\s0", frames, chans, i, at, e.x(0, 0, at), rate, n) for at, speed in hits),
                                    given={0: trig}, rate=RATE, sample=lambda I, name: (data(I, name, frames * chans), chans, rate))
            for frames, chans in ((2, 1), (3, 2)):
                for lo, hi in speeds(frames, 8):
                    timeline.follow(P, c, fns, "sp of %d frames at a speed of %.3f to %.3f" % (frames, lo, hi), kw, shape, comp, {}, (1,),
                                    lambda e, i, n: value(e, "\\s0", frames, chans, i, 0, e.x(0, 0, 0), RATE, n), blocks=2,
                                    given={0: [timeline.Between(lo, hi)] + [0.0] * 7}, rate=RATE, sample=lambda I, name: (data(I, name, frames * chans), chans, RATE))
        if kw == "PSampler" and shape == "Pattern([Symbol,Symbol])":
            for chans in (1, 2):
                for frames, rate, span, events in PS:
                    label = "psampler of %d frames, %s, at rate %g, over %g" % (frames, ("mono", "stereo")[chans - 1], rate / RATE, span)
                    bar = int(span * 8)
                    hits = [(b + int(t * 8), "\\s%d" % k) for b in range(0, 12, bar) for k, t in enumerate(events) if int(t * 8) < bar]
                    timeline.follow(P, c, fns, label, kw, shape, comp,
                                    {r"val_times\[%d\]\.1" % k: timeline.Between(t + 0.01, t + 0.11) for k, t in enumerate(events)} | {r"span": span}, (),
                                    lambda e, i, n: sum(value(e, name, frames, chans, i, at, 1, rate, n) for at, name in hits),
                                    rate=RATE, sample=lambda I, name: (data(I, name, frames * chans), chans, rate))
    c.floor("timelines", 90)
    c.floor("frames_compared", 1500)
    c.assume("samples of one or two channels, of 1, 2, 4 or 8 frames, over twelve frames; rounding of single precision is not part of the comparison")
    return c.finish(P)


def data(I, name, n):
    return [S("%s.%d" % (name, j), I.T_f32) for j in range(n)]
