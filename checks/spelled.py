"""Programs as they are written: families of texts taken through grammar, parser and engine."""
import math, re
from engine import absint, peg
from engine.values import *
from . import common, engine_, lang, parsing

D = tuple("0123456789")
# the ways a number can be written
NUMBERS = (("D.DD", (D, ".", D, D)), ("DD.", (D, D, ".")), ("D", (D,)), ("DDD", (D, D, D)), ("-D.D", ("-", D, ".", D)), ("+D.D", ("+", D, ".", D)), ("-D", ("-", D)),
           ("D.De-D", (D, ".", D, "e-", D)), ("D.DED", (D, ".", D, "E", D)))
INTEGERS = (("DD", (D, D)), ("D", (D,)), ("-DD", ("-", D, D)), ("+D", ("+", D)))


class Written:
    """a program text in which `{n}` stands for any number of a spelling, `{i}` for any whole number"""

    def __init__(self, template, number=NUMBERS[0], integer=INTEGERS[0]):
        parts, at = [], 0
        self.places = {}               # position -> text standing for the character there
        n = 0
        for piece in re.split(r"(\{[ni]\})", template):
            if piece in ("{n}", "{i}"):
                shape, ps = number if piece == "{n}" else integer
                n += 1
                size = sum(1 if isinstance(p, tuple) else len(p) for p in ps)
                self.places[at] = "«#%d%s»" % (n, "~." if "." in shape else "~-" if "-" in shape else "")
                for i in range(1, size):
                    self.places[at + i] = ""
                parts.extend(ps)
                at += size
            else:
                parts.append(piece)
                at += len(piece)
        self.count = n
        self.text = peg.family(parts)
        self.shown = template.replace("{n}", number[0]).replace("{i}", integer[0])

    def name(self, a, b, ty):
        """the text between two positions; numbers are kept as placeholders"""
        s = "".join(self.places[i] if i in self.places else next(iter(self.text[i])) for i in range(a, b))
        inside = lambda i: i < len(self.text) and self.places.get(i) == ""
        if inside(a) or inside(b):
            return S("text[%d:%d]" % (a, b), ty)
        return K(s, ty)


def tree(G, w):
    m = peg.Match(G, w.text)
    return m.parse("block"), m.far


def ast(P, w, t):
    """what the parser makes of the text: [("ok", {chain: [component]}) | ("error", value)]; obligations not met"""
    ob = parsing.Given(P, t, w.name)
    I = absint.Interp(P, obs=ob)
    f = P.by_short["glicol_parser::get_ast"][0]
    out = []
    for s, v in I.run(f, [S("code", f.locals[1])], absint.State()):
        if not isinstance(v, En) or len(v.alts) != 1:
            out.append(("undetermined", v))
        elif v.alts[0][0] != 0:
            out.append(("error", v.alts[0][1][0]))
        else:
            a = v.alts[0][1][0]
            m = next((x for x in a.fs if isinstance(x, MapX)), None) if isinstance(a, Agg) else None
            if m is None or not all(isinstance(k, K) and isinstance(x, SeqX) for k, x in m.es):
                out.append(("undetermined", v))
            else:
                out.append(("ok", {k.v: list(x.es) for k, x in m.es}))
    return out, I


class Compilers:
    """the script compilers: every text is accepted, and remembered"""

    def __init__(self):
        self.texts = []

    def on_call(self, I, fn, decl, vals, st, fr, b):
        if fn is None or not re.match(r"^(fasteval::parser::Parser::parse|rhai::api::compile::compile)$", fn.short):
            return None
        from engine import models
        v = models.strip(I, vals[1], st)
        self.texts.append(v.v if isinstance(v, K) else None)
        ty = I.ret_ty_at(fr, b)
        x = I.variant_fields(ty, 0)[0][1]
        n = "script %d" % len(self.texts)
        return [(st, En(ty, ((0, (Ref((n,), (), x) if I.P.tys[x].k == "ref" else S(n, x),)),)))]


class Played:
    """an engine given what the parser made of a text"""

    def __init__(self, P, chains, samples=(), N=128):
        from . import programs
        self.scripts = Compilers()
        b = self.bench = programs.Bench(P, N, inner=self.scripts)
        I = self.I = b.I
        I.params = lambda s: False
        st = b.start
        for n in samples:
            st = b.sample(st, n)
        self.scripts.texts = []
        self.results = b.update(st, chains)
        self.bad = [o for o in I.obls.values() if o["status"] != "proved"]

    def accepted(self):
        """the one state after the update; None if it can end otherwise"""
        return self.results[0][0] if len(self.results) == 1 and self.results[0][1] else None

    def nodes(self, st, chain):
        """[(type name, node value)] of a chain"""
        out = []
        for k in self.bench.chains(st).get(chain, ()):
            v, ty = self.bench.inner(st, k)
            out.append((re.sub(r"<\d+>$", "", self.bench.P.tys[ty].s).split("::")[-1], v))
        return out

    def refused(self):
        return bool(self.results) and all(ok is False for _s, ok, _v in self.results)


def path_text(path):
    """a place by the names of its fields, positions in lists and tuples; alternatives of enums left out"""
    out = []
    for t, f in path:
        if t == "[]":
            out.append("[%s]" % f)
        elif t == "{}":
            out.append("{%s}" % f)
        elif t == "len":
            out.append("len")
        elif t.startswith("#"):
            continue
        elif "," in t or t.startswith("("):
            out.append("." + f)
        else:
            out.append("%s.%s" % (t, f))
    return "/".join(out)


def places(I, v, path=(), out=None, d=0):
    """[(path of (type, field) and positions, leaf value)] of everything stored in a node"""
    out = [] if out is None else out
    if d > 24:
        return out
    if isinstance(v, Agg):
        n = I.field_names(v.ty) if v.ty is not None else None
        tn = "(,)" if v.ty is None or I.P.tys[v.ty].k == "tuple" else I.P.tys[v.ty].s.split("<")[0].split("::")[-1]
        for i, f in enumerate(v.fs):
            places(I, f, path + ((tn, n[i] if n and i < len(n) else str(i)),), out, d + 1)
    elif isinstance(v, En):
        for k, fs in v.alts:
            for i, f in enumerate(fs):
                places(I, f, path + (("#%d" % k, str(i)),), out, d + 1)
    elif isinstance(v, SeqX):
        out.append((path + (("len", ""),), I.kint(len(v.es))))
        for i, f in enumerate(v.es):
            places(I, f, path + (("[]", str(i)),), out, d + 1)
    elif isinstance(v, MapX):
        for a, b in v.es:
            places(I, b, path + (("{}", show(a, 3)),), out, d + 1)
    elif isinstance(v, BoxV):
        places(I, v.v, path, out, d + 1)
    elif isinstance(v, SeqA):
        places(I, v.e, path + (("[]", "*"),), out, d + 1)
        places(I, v.n, path + (("len", ""),), out, d + 1)
    else:
        out.append((path, v))
    return out


def numbers(I, v):
    """which written numbers a value depends on"""
    return frozenset(int(x[1:]) for x in I.label_names(v) if re.match(r"#\d+$", x))


def value(I, v, env):
    """the number a term stands for when its symbols have the given values; None if it is not decided by them"""
    if isinstance(v, K):
        return float(v.v) if isinstance(v.v, (int, float)) else None
    if isinstance(v, S):
        return env.get(v.name)
    if not isinstance(v, O):
        return None
    a = [value(I, x, env) for x in v.args]
    if any(x is None for x in a):
        return None
    try:
        if v.op in ("Add", "Sub", "Mul", "Div") and len(a) == 2:
            return {"Add": lambda: a[0] + a[1], "Sub": lambda: a[0] - a[1], "Mul": lambda: a[0] * a[1], "Div": lambda: a[0] / a[1]}[v.op]()
        if v.op == "Neg":
            return -a[0]
        if v.op == "max":
            return max(a)
        if v.op == "min":
            return min(a)
        if v.op == "exp":
            return math.exp(a[0])
        if v.op == "cast" and v.ty is not None:
            k = I.P.tys[v.ty].k
            return a[0] if k == "float" else max(0.0, float(math.floor(a[0]))) if k == "uint" else float(math.trunc(a[0])) if k == "int" else None
    except (ZeroDivisionError, OverflowError):
        return None
    return None


# What each way of writing a node must lead to: the text, the kind of node, and for every written parameter the setting
# it must reach.  "=k": the k-th written number itself; "<k,l": computed from exactly these numbers (with a function: in this way); "'text": this text;
# "chain a b": the chains heard, in this order.  `None` for the kind: reported as an error.
ROWS = [
    ("sin {n}", "SinOsc", {"SinOsc.freq": "=1"}),
    ("sin ~ra", "SinOsc", {"chain": "~ra"}),
    ("saw {n}", "SawOsc", {"SawOsc.freq": "=1"}),
    ("saw ~ra", "SawOsc", {"chain": "~ra"}),
    ("squ {n}", "SquOsc", {"SquOsc.freq": "=1"}),
    ("squ ~ra", "SquOsc", {"chain": "~ra"}),
    ("tri {n}", "TriOsc", {"TriOsc.freq": "=1"}),
    ("tri ~ra", "TriOsc", {"chain": "~ra"}),
    ("mul {n}", "Mul", {"Mul.val": "=1"}),
    ("mul ~ra", "Mul", {"chain": "~ra"}),
    ("add {n}", "Add", {"Add.val": "=1"}),
    ("add ~ra", "Add", {"chain": "~ra"}),
    ("imp {n}", "Impulse", {"Impulse.period": ("<1", lambda n: float(max(int(48000 / n[1]), 1)))}),
    ("sig {n}", "ConstSig", {"ConstSig.val": "=1"}),
    ("constsig {n}", "ConstSig", {"ConstSig.val": "=1"}),
    ("noiz {i}", "Noise", {"Noise.sig": "<1"}),
    ("noise {i}", "Noise", {"Noise.sig": "<1"}),
    ("speed {n}", "Speed", {"Speed.val": "=1"}),
    ("pan {n}", "Pan", {"Pan.pan_pos": ("<1", lambda n: max(-1.0, min(1.0, n[1])))}),
    ("pan ~ra", "Pan", {"chain": "~ra"}),
    ("onepole {n}", "OnePole", {"OnePole.b": ("<1", lambda n: math.exp(-2 * math.pi * n[1])), "OnePole.a": ("<1", lambda n: 1 - math.exp(-2 * math.pi * n[1]))}),
    ("onepole ~ra", "OnePole", {"chain": "~ra"}),
    ("lpf {n} {n}", "ResonantLowPassFilter", {"ResonantLowPassFilter.cutoff": "=1", "ResonantLowPassFilter.q": "=2"}),
    ("lpf ~ra {n}", "ResonantLowPassFilter", {"ResonantLowPassFilter.q": "=1", "chain": "~ra"}),
    ('lpf "{n}@{n} {n}@{n}"({n}) {n}', "ResonantLowPassFilter", {
        "ResonantLowPassFilter.pattern/[0]/.0": "=1", "ResonantLowPassFilter.pattern/[0]/.1": "=2",
        "ResonantLowPassFilter.pattern/[1]/.0": "=3", "ResonantLowPassFilter.pattern/[1]/.1": "=4",
        "ResonantLowPassFilter.span": "=5", "ResonantLowPassFilter.q": "=6"}),
    ('lpf "{n}@{n}"() {n}', "ResonantLowPassFilter", {
        "ResonantLowPassFilter.pattern/[0]/.0": "=1", "ResonantLowPassFilter.pattern/[0]/.1": "=2", "ResonantLowPassFilter.span": 1.0, "ResonantLowPassFilter.q": "=3"}),
    ("rhpf {n} {n}", "ResonantHighPassFilter", {"ResonantHighPassFilter.cutoff": "=1", "ResonantHighPassFilter.q": "=2"}),
    ("hpf {n} {n}", "ResonantHighPassFilter", {"ResonantHighPassFilter.cutoff": "=1", "ResonantHighPassFilter.q": "=2"}),
    ("rhpf ~ra {n}", "ResonantHighPassFilter", {"ResonantHighPassFilter.q": "=1", "chain": "~ra"}),
    ("delayn {i}", "DelayN", {"DelayN.delay_n": ("<1", lambda n: n[1]), "DelayN.buf/Fixed.data/len": "<1"}),
    ("delayn ~ra", "DelayN", {"chain": "~ra"}),
    ("delayms {n}", "DelayMs", {"DelayMs.delay_n": "<1", "DelayMs.buf2/[0]/Fixed.data/len": "<1"}),
    ("delayms ~ra", "DelayMs", {"chain": "~ra"}),
    ("apfgain {n} {n}", "AllPassFilterGain", {"AllPassFilterGain.gain": "=2", "AllPassFilterGain.bufx/Fixed.data/len": "<1", "AllPassFilterGain.bufy/Fixed.data/len": "<1"}),
    ("apfmsgain {n} {n}", "AllPassFilterGain", {"AllPassFilterGain.gain": "=2", "AllPassFilterGain.bufx/Fixed.data/len": "<1", "AllPassFilterGain.bufy/Fixed.data/len": "<1"}),
    ("apfmsgain ~ra {n}", "AllPassFilterGain", {"AllPassFilterGain.gain": "=1", "chain": "~ra"}),
    ("plate {n}", "Plate", {"Mul.val": "<1"}),
    ("envperc {n} {n}", "EnvPerc", {"EnvPerc.attack": "=1", "EnvPerc.decay": "=2"}),
    ("adsr {n} {n} {n} {n}", "Adsr", {"Adsr.attack": "=1", "Adsr.decay": "=2", "Adsr.sustain": "=3", "Adsr.release": "=4"}),
    ("bd {n}", "Bd", {"EnvPerc.decay": "=1"}),
    ("sn {n}", "Sn", {"EnvPerc.decay": "=1"}),
    ("hh {n}", "Hh", {"EnvPerc.decay": "=1"}),
    ("sawsynth {n} {n}", "SawSynth", {"EnvPerc.attack": "=1", "EnvPerc.decay": "=2"}),
    ("squsynth {n} {n}", "SquSynth", {"EnvPerc.attack": "=1", "EnvPerc.decay": "=2"}),
    ("trisynth {n} {n}", "TriSynth", {"EnvPerc.attack": "=1", "EnvPerc.decay": "=2"}),
    ("msgsynth \\sa {n} {n}", "MsgSynth", {"MsgSynth.att": "=1", "MsgSynth.dec": "=2"}),
    ("msg_synth \\sa {n} {n}", "MsgSynth", {"MsgSynth.att": "=1", "MsgSynth.dec": "=2"}),
    ("psynth `{n} {i},{n} {i}` {n}", "PatternSynth", {
        "PatternSynth.events/[0]/.0": "=1", "PatternSynth.events/[0]/.1": "=2", "PatternSynth.events/[1]/.0": "=3", "PatternSynth.events/[1]/.1": "=4",
        "PatternSynth.period_in_cycle": "=5"}),
    ("p_synth `{n} {i}` {n}", "PatternSynth", {"PatternSynth.events/[0]/.0": "=1", "PatternSynth.events/[0]/.1": "=2", "PatternSynth.period_in_cycle": "=3"}),
    ("pattern_synth `{n} {i}`", "PatternSynth", {"PatternSynth.events/[0]/.0": "=1", "PatternSynth.events/[0]/.1": "=2", "PatternSynth.period_in_cycle": 1.0}),
    ("seq {i} _{i} ~a", "Sequencer", {"Sequencer.events/[0]/.1": "=1", "Sequencer.events/[1]/.1": "=2", "Sequencer.events/[2]/.1": "'~a", "chain": "~a"}),
    ("seq {i}_{i} {i}", "Sequencer", {"Sequencer.events/[0]/.1": "=1", "Sequencer.events/[1]/.1": "=2", "Sequencer.events/[2]/.1": "=3",
                                     "Sequencer.events/[0]/.0": 0.0, "Sequencer.events/[1]/.0": 1 / 3, "Sequencer.events/[2]/.0": 0.5}),
    ("choose {i} {i}", "Choose", {"Choose.note_list/[0]": "=1", "Choose.note_list/[1]": "=2"}),
    ("arrange ~ra {n} ~rb {n}", "Arrange", {"Arrange.events/[0]": "'~ra", "Arrange.events/[1]": "=1", "Arrange.events/[2]": "'~rb", "Arrange.events/[3]": "=2", "chain": "~ra ~rb"}),
    ("mix ~ra ~rb", "Sum2", {"chain": "~ra ~rb"}),
    ("mix ~rb ~ra", "Sum2", {"chain": "~rb ~ra"}),
    ("balance ~ra ~rb", "Balance", {"chain": "~ra ~rb"}),
    ("get ~ra", "Pass", {"chain": "~ra"}),
    ("~ra", "Pass", {"chain": "~ra"}),
    ("sp \\sa", "Sampler", {"Sampler.sample/.0": "sample \\sa"}),
    ("sampler \\sa", "Sampler", {"Sampler.sample/.0": "sample \\sa"}),
    ('psampler "\\sa@{n} \\sb@{n}"({n})', "PSampler", {
        "PSampler.pattern/[0]/.0": "'\\sa", "PSampler.pattern/[0]/.1": "=1", "PSampler.pattern/[1]/.0": "'\\sb", "PSampler.pattern/[1]/.1": "=2",
        "PSampler.period_in_cycle": "=3"}),
    ('psampler "\\sa@{n}"()', "PSampler", {"PSampler.pattern/[0]/.0": "'\\sa", "PSampler.pattern/[0]/.1": "=1", "PSampler.period_in_cycle": 1.0}),
    ("meta `output = input`", "Meta", {"script": ["output = input"]}),
    ("script `output = input`", "Meta", {"script": ["output = input"]}),
    ("eval `a := in * 2; b := a + 1; a * b`", "Eval", {"script": ["in * 2", "a + 1", "a * b"], "Eval.var/[0]": "'a", "Eval.var/[1]": "'b"}),
    ("eval `in`", "Eval", {"script": ["in"]}),
    ("[{n}=>{n} {i}/{i}=>{n}]*{n}", "Points", {
        "Points.points/[0]/.0/TimeList.bar": "=1", "Points.points/[0]/.1": "=2", "Points.points/[1]/.0/TimeList.bar": ("<3,4", lambda n: n[3] / n[4]), "Points.points/[1]/.1": "=5",
        "Points.span": ("<6", lambda n: n[6]), "Points.is_looping": False}),
    ("[{n}=>{n}, {n}+{n}_s=>{n}, {n}-{n}_ms=>{n}]/(1/{i})!", "Points", {
        "Points.points/[0]/.0/TimeList.bar": "=1", "Points.points/[0]/.1": "=2",
        "Points.points/[1]/.0/TimeList.bar": "=3", "Points.points/[1]/.0/TimeList.time": ("<4", lambda n: n[4]), "Points.points/[1]/.1": "=5",
        "Points.points/[2]/.0/TimeList.bar": "=6", "Points.points/[2]/.0/TimeList.time": ("<7", lambda n: -n[7]), "Points.points/[2]/.1": "=8",
        "Points.span": ("<9", lambda n: n[9]), "Points.is_looping": True}),
    ("[{n}=>{n}]!", "Points", {"Points.points/[0]/.0/TimeList.bar": "=1", "Points.points/[0]/.1": "=2", "Points.span": 1.0, "Points.is_looping": True}),
    ("[{n}=>{n}]", "Points", {"Points.points/[0]/.0/TimeList.bar": "=1", "Points.points/[0]/.1": "=2", "Points.span": 1.0, "Points.is_looping": False}),
    ("adc {n}", None, {}),
    ("reverb {n} {n} {n} {n} {n}", None, {}),
    ("expr `x`", None, {}),
    ("sendpass ~ra", None, {}),
    ('lpf "{n}@{n}" {n}', None, {}),
    ('psampler "\\sa@{n}"', None, {}),
]
