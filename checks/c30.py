"""Sequences, patterns and lists of points happen on the frame they are written for."""
from engine import absint, report
from engine.values import *
from . import common, lang, rendered, timeline

RULE = ("Abstract interpretation of every node that plays events in time (seq, arrange, speed, points, choose, patterns of lpf), as the engine makes it, for times and "
        "tempi within given frames and arbitrary values: at every frame the node must hand on what is written for that frame - the pitch of a note on the frame of "
        "its event and nothing in between, the chain an arrangement has reached, the straight line between two points, a cutoff from its event on - again and "
        "again in every bar or span.")
RATE = 8


def run(P):
    c = report.Check("C30", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        f = {"Seq": seq, "Arrange": arrange, "Points": points, "Speed": speed, "Lpf": lpf}.get(kw)
        if kw == "Choose":
            choose(P, c, fns, kw, shape, comp)
        if f:
            f(lambda label, numbers, ch, spec, **k: timeline.follow(P, c, fns, "%s%s" % (kw.lower(), label), kw, shape, k.pop("comp", comp), numbers, ch, spec, **k),
              shape, comp)
    c.floor("timelines", 60)
    c.floor("frames_compared", 1000)
    c.assume("bars of four, eight and sixteen frames, over twelve or more frames; rounding of single precision is not part of the comparison")
    return c.finish(P)


def choose(P, c, fns, kw, shape, comp):
    """which of the values is random, but it is one of those written"""
    for k in (1, 2, 3):
        for m in lang.make(P, kw, shape, timeline.longer(comp, k), timeline.N)[0]:
            c.count("timelines")
            f = fns[m.name][("process", timeline.N)]
            listed = {"c.choices[%d]" % i for i in range(k)}
            for r in rendered.render(P, m, f, ()):
                for n, v in enumerate(r.out[0]):
                    c.count("frames_compared")
                    alts = m.I.alternatives(v, 8) if isinstance(v, S) else [v]
                    c.require(all(isinstance(x, S) and x.name in listed for x in alts), "choose hands on a value that is not among its choices",
                              common.where(f), lambda: "frame %d: %s" % (n, "; ".join(show(x, 5) for x in alts)))


def within(x, eighth=0.125):
    """a time a little later than x, but within the same frame of a bar that has about eight of them"""
    return timeline.Between(x + 0.1 * eighth, x + 0.9 * eighth)


def tempo(bpm, frames):
    """a tempo a little slower than one, with bars of the same whole number of frames"""
    return timeline.Between(bpm / (1 + 0.07 / frames), bpm / (1 + 0.03 / frames))


def pitch(midi):
    return 2.0 ** ((midi - 60.0) / 12.0) if midi else 0.0


# times of the events in bars, notes; tempo; speed
SEQ = (
    ((0.0, 0.5), (60, 67), 240.0, None),
    ((0.25, 0.75), (48, 72), 240.0, None),
    ((0.0, 0.25), (69, 61), 480.0, None),
    ((0.125, 0.5), (0, 64), 120.0, None),
    ((0.0, 0.5), (60, 65), 240.0, 2.0),
    ((0.0, 0.75), (60, 65), 240.0, 0.5),
    ((0.5, 0.0), (59, 62), 480.0, 2.0),
)


def seq(follow, shape, comp):
    kinds = shape.strip("[]").split(",")
    refs = kinds.count("Ref")
    for times, notes, bpm, faster in SEQ:
        bar = int(240 / bpm * RATE / (faster or 1))
        numbers = {r"events\[%d\]\.0" % k: within(t, 1 / bar) for k, t in enumerate(times)}
        numbers.update({r"events\[%d\]\.1#Usize" % k: m for k, m in enumerate(notes) if kinds[k] == "Usize"})
        given = {}
        ch = ()
        if faster:
            ch += (1,)
            given[0] = [faster, 0, 0, 0] * 4
        where = {}
        for k in range(2):
            if kinds[k] == "Ref":
                where[k] = len(ch)
                # a note of its own on every frame, a rest among them
                given[len(ch)] = [notes[k] + (n % 5) if n % 7 != 3 else 0 for n in range(16)]
                ch += (1,)

        def spec(e, c, n):
            out = 0.0
            for k in range(2):
                if n % bar == int(times[k] * bar):
                    out = pitch(given[where[k]][n] if k in where else notes[k])
            return out
        follow(" %s %s at %g%s" % (shape, times, bpm, " and speed %g" % faster if faster else ""), numbers, ch, spec, given=given, bpm=tempo(bpm, bar), blocks=4)


def speed(follow, shape, comp):
    follow("", {}, (), lambda e, c, n: e.sym("c.speed") if n % timeline.N == 0 else 0.0)


ARRANGE = (
    ((1.0, 0.5), 480.0),
    ((0.5, 1.0), 240.0),
    ((0.25, 0.25), 240.0),
    ((1.0, 1.0, 1.0), 480.0),
    ((0.25, 0.5, 0.75), 240.0),
)


def arrange(follow, shape, comp):
    if shape != "[Ref,Number]":
        return
    for bars, bpm in ARRANGE:
        bar = 240 / bpm * RATE
        k = len(bars)

        def spec(e, c, n):
            pos = n % int(sum(bars) * bar)
            for j in range(k):
                if pos < int(sum(bars[:j + 1]) * bar):
                    return e.x(j, c, n)
        for chans in (1, 2):
            follow(" %s at %g" % (bars, bpm), {r"events\[%d\]#Number" % (2 * j + 1): timeline.Between(b - 0.02, b - 0.01) for j, b in enumerate(bars)}, (chans,) * k, spec,
                   count=2 * k, bpm=bpm, blocks=5)


# times in bars, span, looping, tempo
POINTS = (
    ((0.0, 0.5), 1.0, False, 240.0),
    ((0.25, 0.75), 1.0, False, 240.0),
    ((0.0, 0.25, 0.75), 1.0, False, 240.0),
    ((0.125, 0.5, 1.0), 0.5, False, 120.0),
    ((0.0, 0.5), 1.0, True, 240.0),
    ((0.0, 1.0), 1.0, True, 480.0),
    ((0.25, 0.75), 1.0, True, 240.0),
    ((0.0, 0.25, 0.5), 1.0, True, 240.0),
    ((0.0, 0.125, 0.75), 0.5, True, 120.0),
    ((0.0, 0.25, 0.5, 0.75), 1.0, True, 480.0),
)


def points(follow, shape, comp):
    if shape == "[None,None]":
        for times, span, looping, bpm in POINTS:
            cycle = 240 / bpm * RATE
            bar = cycle * span
            at = [int(t * bar) for t in times]
            curve(follow, " %s over %g%s at %g" % (times, span, " looping" if looping else "", bpm),
                  {r"points\[%d\]\.0\.bar" % k: within(t, 1 / cycle) if t or k else t for k, t in enumerate(times)} | {"span": span, "is_looping": looping}, at, int(bar), looping, bpm, len(times))
    else:
        # a time may have a second part: in bars, seconds or milliseconds
        kinds = shape.strip("[]").split(",")
        numbers, at = {"span": 1.0, "is_looping": False}, []
        for k, kind in enumerate(kinds):
            numbers[r"points\[%d\]\.0\.bar" % k] = 0.5 * k
            more = {"None": 0, "Some(Bar)": 0.125, "Some(Seconds)": 0.25, "Some(Milliseconds)": 375}[kind]
            if more:
                numbers[r"points\[%d\]\.0\.time" % k] = more
            at.append(int(4 * k + {"None": 0, "Some(Bar)": 1, "Some(Seconds)": 2, "Some(Milliseconds)": 3}[kind]))
        curve(follow, " " + shape, numbers, at, 8, False, 240.0, None)


def curve(follow, label, numbers, at, period, looping, bpm, count):
    def spec(e, c, n):
        pts = [(t, e.sym("c.points[%d].1" % k)) for k, t in enumerate(at)]
        if pts[0][0] != 0:
            pts.insert(0, (0, 0.0))
        if looping:
            n %= period
            pts.append((period + pts[0][0], pts[0][1]))
        for (a, v), (b, w) in zip(pts, pts[1:]):
            if a <= n < b:
                return v + (w - v) * (n - a) / (b - a)
        return pts[-1][1]
    follow(label, numbers, (), spec, bpm=tempo(bpm, period), count=count, blocks=5)


def lpf(follow, shape, comp):
    if shape != "Pattern([Number,Number])":
        return
    import math
    for times, span, bpm in (((0.0, 0.5), 1.0, 240.0), ((0.0, 0.25), 0.5, 240.0), ((0.0, 0.75), 1.0, 480.0), ((0.25, 0.0), 1.0, 480.0)):
        cycle = 240 / bpm * RATE
        bar = int(cycle * span)
        at = [int(t * cycle) for t in times]

        def spec(e, c, n):
            cut = None
            for m in range(n + 1):
                for k, t in enumerate(at):
                    if m % bar == t:
                        cut = e.sym("c.signal#Pattern.0.event.val_times[%d].0#Number.0" % k)
            t = 2 * math.pi * cut / RATE
            d = 1 / e.sym("c.qvalue")
            beta = 0.5 * (1 - d * math.sin(t) / 2) / (1 + d * math.sin(t) / 2)
            gamma = (0.5 + beta) * math.cos(t)
            a0 = (0.5 + beta - gamma) / 2
            return a0 * (e.x(0, 0, n) + 2 * e.x(0, 0, n - 1) + e.x(0, 0, n - 2)) + 2 * gamma * e.y(0, n - 1) - 2 * beta * e.y(0, n - 2)
        follow(" pattern %s over %g at %g" % (times, span, bpm), {r"val_times\[%d\]\.1" % k: within(t, 1 / cycle) for k, t in enumerate(times)} | {"span": span}, (1,), spec, bpm=tempo(bpm, cycle), blocks=4)
