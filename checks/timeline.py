"""What a node plays over the first frames, for given times and arbitrary values: nodes whose clock, triggers and lengths decide what is heard when."""
from engine import absint, terms
from engine.values import *
from . import common, lang, rendered

N = rendered.N
POINTS = 3
CLOSE = 1e-4


class Bad(Exception):
    pass


class Between:
    """a number that may be any between two bounds"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return "%g..%g" % (self.lo, self.hi)


def longer(comp, n):
    """the description with its list of events repeated to n entries, each with numbers and names of its own"""
    def f(v, depth=0):
        if isinstance(v, SeqX) and v.es:
            return SeqX(tuple(lang.subst(v.es[i % len(v.es)], lambda s, i=i: S(s.name.replace("[%d]" % (i % len(v.es)), "[%d]" % i, 1), s.ty))
                              for i in range(n)))
        if isinstance(v, Agg):
            return Agg(v.ty, tuple(f(x) for x in v.fs))
        if isinstance(v, En):
            return En(v.ty, tuple((k, tuple(f(x) for x in fs)) for k, fs in v.alts))
        return v
    return f(comp)


def written(I, comp, numbers, ranges):
    """the description with numbers given by name: a pattern of the symbol's name -> a number, text or range"""
    import re
    used = {}

    def f(s):
        for pat, n in numbers.items():
            if re.search(pat, s.name):
                used[pat] = s.name
                if isinstance(n, Between):
                    ranges[s] = (n.lo, n.hi)
                    return s
                if isinstance(n, str):
                    return K(n, s.ty)
                if isinstance(n, bool):
                    return K(n, s.ty)
                return K(int(n), s.ty) if I.is_int(s.ty) else kfloat(f32(n), s.ty)
        return s
    out = lang.subst(comp, f)
    if set(numbers) - set(used):
        raise Bad("no %s in %s" % (sorted(set(numbers) - set(used)), show(comp, 8)[:200]))
    return out, used


class Env:
    """what a specification may speak of: values of symbols, input samples, what has been handed on"""
    def __init__(self, r, num, given, used):
        self.r, self.num, self.given, self.used = r, num, given or {}, used

    def n(self, pat):
        """the number given for a pattern of names"""
        return self.num.symbol(self.used[pat])

    def sym(self, name):
        return self.num.symbol(name)

    def x(self, i, c, n):
        if n < 0:
            return 0.0
        if i in self.given:
            v = self.given[i][n]
            return self.num.symbol(v.name) if isinstance(v, S) else f32(v)
        return self.num.of(rendered.frame(self.r.I, i, min(c, self.r.ch[i] - 1), n))

    def y(self, c, n):
        return float(self.num.of(self.r.out[c][n])) if n >= 0 else 0.0


def follow(P, c, fns, label, kw, shape, comp, numbers, ch, spec, blocks=3, given=None, rate=8, bpm=240.0, sample=None, count=None, messages=()):
    """renders the node for the given times and compares every frame of every channel with spec(env, channel, frame)"""
    key = "%s is not heard as defined" % label
    ranges = {}
    J = absint.Interp(P)
    given = {i: [bounded(J, "in%d@%d" % (i, n), v, ranges) for n, v in enumerate(vs)] for i, vs in (given or {}).items()}
    bpm = bounded(J, "bpm", bpm, ranges)
    try:
        comp, used = written(J, longer(comp, count) if count else comp, numbers, ranges)
    except Bad as x:
        c.require(False, key, kw, str(x))
        return
    made, other = lang.make(P, kw, shape, comp, N, conf=False, rate=rate, bpm=bpm, sample=sample, ranges=ranges)
    if not c.require(len(made) == 1 and not other, "%s cannot be made" % label, kw, lambda: "%d made" % len(made)):
        return
    c.count("timelines")
    m = made[0]
    if messages:
        st = m.st
        for text in messages:
            st = m.W.call1(st, "glicol::Engine::send_msg", K(text, m.I.T_str))
        m = lang.Made(kw, shape, comp, m.W, st, m.refs)
    f = fns[m.name][("process", N)]
    m.I.maxsize = 10 ** 9
    rs = rendered.render(P, m, f, ch, blocks, given=given)
    if not c.require(bool(rs), "%s does not render" % label, common.where(f), "inputs of %s channels" % (ch,)):
        return
    for r in rs:
        c.count("ways_through")
        nums = [terms.Numeric(m.I, "numbers %d" % i) for i in range(POINTS)]
        for i in range(m.channels):
            for n in range(blocks * N):
                c.count("frames_compared")
                bad = wrong(r, nums, given, spec, i, n, used)
                if not c.require(not bad, key, common.where(f), lambda: "with %s, channel %d, frame %d: %s; it is %s" % (
                        "inputs of %s channels" % " and ".join(map(str, ch)) if ch else "no input", i, n, bad, show(r.out[i][n], 6)[:300])):
                    break


def bounded(I, name, v, ranges):
    if not isinstance(v, Between):
        return v
    s = S(name, I.T_f32)
    ranges[s] = (v.lo, v.hi)
    return s


def wrong(r, nums, given, spec, i, n, used):
    for num in nums:
        e = Env(r, num, given, used)
        want = spec(e, i, n)
        try:
            got = num.of(r.out[i][n])
        except terms.Undecided as x:
            return "not determined (%s)" % x
        if not abs(got - want) <= CLOSE * (1 + abs(want)):
            return "%.6g where it should be %.6g" % (got, want)
    return None
