"""Nodes that calculate hand on what they are described to calculate, on every frame and channel."""
import math
from engine import absint, report, terms
from engine.values import *
from . import common, lang, rendered

RULE = ("Abstract interpretation of each node, as the engine makes it from its description, over two blocks of four frames with every input sample a symbol "
        "of its own: the term it hands on at every frame of every channel must be the same function of the input samples, the written numbers and the "
        "sample rate as the node's definition (sum, product, copy, constant-power pan, first- and second-order filter, all-pass, delay). Sameness is "
        "decided by polynomial identity testing, so it does not depend on how the calculation is written.")
N = rendered.N
BLOCKS = 2
PI = terms.Fraction(f32(math.pi))
FILTERS = ("rs/synth/src/node/filter", "rs/synth/src/node/effect", "rs/synth/src/node/operator")
# how a chain is wired to a node with k references: channels of the main input, channels of each reference
MAIN = ((1,), (2,))


def pole(e, c, n, rate):
    b = (-2 * PI * rate).f("exp")
    return e.x(0, 0, n) * (1 - b) + b * e.y(c, n - 1)


def second_order(e, n, cutoff, q, sign):
    t = 2 * PI * cutoff / e.sr()
    d = 1 / q
    beta = terms.Fraction(1, 2) * (1 - d * t.f("sin") / 2) / (1 + d * t.f("sin") / 2)
    gamma = (terms.Fraction(1, 2) + beta) * t.f("cos")
    a0 = (terms.Fraction(1, 2) + beta - sign * gamma) / 2
    a1 = sign * 2 * a0
    return a0 * e.x(0, 0, n) + a1 * e.x(0, 0, n - 1) + a0 * e.x(0, 0, n - 2) + 2 * gamma * e.y(0, n - 1) - 2 * beta * e.y(0, n - 2)


def pan(e, c, n, where):
    p = where.f("clamp", -1, 1)
    g = ((1 - p) / 2, (1 + p) / 2)[c].f("sqrt")
    return g * e.x(0, 0, n)


def both(mains, refs):
    return [m + (r,) * k for m in mains for k in (refs,) for r in ((1, 2) if refs else (1,))]


# description -> (inputs it is wired to, which of them are held for a block, what it hands on)
SPECS = {
    ("ConstSig", ""): ([()], (), lambda e, c, n: e.number(0)),
    ("Mul", "Number"): (both(MAIN, 0), (), lambda e, c, n: e.x(0, c, n) * e.number(0)),
    ("Mul", "Ref"): (both(MAIN, 1), (), lambda e, c, n: e.x(0, c, n) * e.x(1, c, n)),
    ("Add", "Number"): (both(MAIN, 0), (), lambda e, c, n: e.x(0, c, n) + e.number(0)),
    ("Add", "Ref"): (both(MAIN, 1), (), lambda e, c, n: e.x(0, c, n) + e.x(1, c, n)),
    ("Mix", "[,]"): (both(((),), 2) + [(1, 2), (2, 1)], (), lambda e, c, n: e.x(0, c, n) + e.x(1, c, n)),
    ("Get", ""): ([(1,), (2,)], (), lambda e, c, n: e.x(0, c, n)),
    ("Balance", ""): (both(((),), 2), (), lambda e, c, n: e.x(c, 0, n)),
    ("Pan", "Number"): (both(MAIN, 0), (), lambda e, c, n: pan(e, c, n, e.number(0))),
    ("Pan", "Ref"): (both(MAIN, 1), (), lambda e, c, n: pan(e, c, n, e.x(1, 0, n))),
    ("Onepole", "Number"): (both(MAIN, 0), (), lambda e, c, n: pole(e, c, n, e.number(0))),
    ("Onepole", "Ref"): (both(MAIN, 1), (1,), lambda e, c, n: pole(e, c, n, e.x(1, 0, n, (1,)))),
    ("Lpf", "Number"): (both(MAIN, 0), (), lambda e, c, n: second_order(e, n, e.number(0), e.number(1), 1)),
    ("Lpf", "Reference"): (both(MAIN, 1), (1,), lambda e, c, n: second_order(e, n, e.x(1, 0, n, (1,)), e.number(0), 1)),
    ("Rhpf", "Number"): (both(MAIN, 0), (), lambda e, c, n: second_order(e, n, e.number(0), e.number(1), -1)),
    ("Rhpf", "Ref"): (both(MAIN, 1), (1,), lambda e, c, n: second_order(e, n, e.x(1, 0, n, (1,)), e.number(0), -1)),
}
RATE = 44100                                            # a new engine's sample rate, for lines of a length written in milliseconds


def lengths():
    """nodes with a line of samples, for the given lengths of it: description, the number written, frames of delay, what is handed on"""
    for k in (0, 1, 3, 6):
        yield "Delayn", "Usize", k, both(MAIN, 0), (lambda e, c, n, k=k: e.x(0, c, n - k))
    for k in (1, 3, 6):
        ms = (k + 0.5) * 1000 / RATE
        yield "Delayms", "Number", ms, both(MAIN, 0), (lambda e, c, n, k=k: e.x(0, c, n - k))
        yield "ApfmsGain", "Number", ms, both(MAIN, 0), (lambda e, c, n, k=k: e.x(0, 0, n - k) + e.number(1) * (e.y(0, n - k) - e.x(0, 0, n)))
    for k in (1, 2, 3, 6):
        yield "Imp", "Number", RATE / (k + 0.5), [()], (lambda e, c, n, k=k: e.p_const(1 if n % k == 0 else 0))


# a reference for the length of a delay: sample rate small enough for the line to be followed exactly, and for each frame the frames of delay asked for
FRAMES = (1, 1.25, 2.5, 3, 1.75, 2, 3.5, 1)
MODULATED = {
    "Delayms": (4, lambda e, c, n, x: x(lambda k: e.x(0, c, k), n)),
    "ApfmsGain": (2, lambda e, c, n, x: x(lambda k: e.x(0, 0, k), n) + e.number(0) * (x(lambda k: e.y(0, k), n) - e.x(0, 0, n))),
}


def between(f, n):
    """a signal as it was FRAMES[n] before frame n, on the straight line between its samples"""
    d = FRAMES[n]
    k = int(d)
    part = terms.Fraction(d) - k
    return f(n - k) * (1 - part) + (f(n - k - 1) * part if part else 0)


def run(P):
    c = report.Check("C28", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    seen = set()
    with_lines = {}
    for kw, shape, value, wirings, spec in lengths():
        with_lines.setdefault((kw, shape), []).append((value, wirings, spec))
    for kw, shape, comp in lang.components(absint.Interp(P)):
        if (kw, shape) in SPECS:
            seen.add((kw, shape))
            wirings, held, spec = SPECS[kw, shape]
            decide(P, c, fns, kw, shape, comp, wirings, held, spec, comp, True, "")
        for value, wirings, spec in with_lines.get((kw, shape), ()):
            seen.add((kw, shape))
            I = absint.Interp(P)
            first = rendered.numbers(I, comp)[0]
            k = K(value, first.ty) if I.is_int(first.ty) else kfloat(f32(value), first.ty)
            decide(P, c, fns, kw, shape, lang.subst(comp, lambda s: k if s is first else s), wirings, (), spec, comp, False, " of %.3g" % value)
        if kw in MODULATED and shape == "Ref":
            seen.add((kw, shape))
            rate, spec = MODULATED[kw]
            decide(P, c, fns, kw, shape, comp, both(MAIN, 1), (), lambda e, i, n: spec(e, i, n, between), comp, False, "", rate,
                   {1: [d * 1000 / rate for d in FRAMES]})
    for k in set(SPECS) | set(with_lines) | {(k, "Ref") for k in MODULATED}:
        c.require(k in seen, "%s %s is not a description any more" % k, "rs/parser/src/nodes.rs", "nothing to compare its node with")
    c.floor("descriptions", 30)
    c.floor("frames_compared", 872)
    c.assume("rounding of single precision is not part of the comparison; the numbers of frames a line of samples delays by are %s" % "0, 1, 3 and 6")
    return c.finish(P)


def decide(P, c, fns, kw, shape, comp, wirings, held, spec, written, conf, more, rate=None, given=None):
    made, other = lang.make(P, kw, shape, comp, N, conf=conf, rate=rate)
    label = "%s%s%s" % (kw.lower(), " " + shape if shape else "", more)
    if not c.require(bool(made) and not other, "%s cannot be made" % label, kw, lambda: "%d made" % len(made)):
        return
    c.count("descriptions")
    for m in made:
        f = fns[m.name][("process", N)]
        m.I.maxsize = 10 ** 9
        params = rendered.numbers(m.I, lang.named(m.I, written)[0])
        for ch in wirings:
            rs = rendered.render(P, m, f, ch, BLOCKS, held, given=given)
            c.require(bool(rs), "%s does not render" % label, common.where(f), "inputs of %s channels" % (ch,))
            for r in rs:
                c.count("ways_through")
                pts = terms.points(m.I)
                for i in range(m.channels):
                    for n in range(BLOCKS * N):
                        c.count("frames_compared")
                        bad = wrong(r, pts, params, spec, i, n)
                        c.require(not bad, "%s does not hand on what it should" % label, common.where(f),
                                  lambda: "with %s, channel %d, frame %d: %s; found %s" % (
                                      "inputs of %s channels" % " and ".join(map(str, ch)) if ch else "no input", i, n, bad, show(r.out[i][n], 6)[:300]))


class Env(rendered.Env):
    def p_const(self, v):
        return rendered.E(self.p, v)


def wrong(r, pts, params, spec, i, n):
    for p in pts:
        e = Env(r, p, params)
        try:
            got = e.e(r.out[i][n]).v
        except terms.Undecided as x:
            return "not determined (%s)" % x
        if got != spec(e, i, n).v:
            return "another function of the inputs than defined"
    return None
