"""Which settings of which nodes hold values computed from a built-in default, the sample rate or the tempo."""
from engine import absint
from engine.values import *
from . import common, engine_, fields, history, lang, programs

RATES = (44100, 48000, 22050, 88200, 96000, 11025, 32000)
TEMPO = (120,)


class Played:
    """an engine playing one description between two other nodes"""
    def __init__(self, P, kw, shape, comp, builtin, N=128):
        self.P, self.kw, self.shape, self.comp = P, kw, shape, comp
        self.b = b = programs.Bench(P, N)
        b.I.builtin = builtin
        comp, self.refs, samples = lang.named(b.I, comp)
        st = b.start
        for s in samples:
            st = b.sample(st, s)
        prog = {"out": [b.const("first"), comp]}
        for i, r in enumerate(dict.fromkeys(self.refs)):
            prog[r] = [b.const("r%d" % i)]
        self.samples = samples
        self.prog = prog
        self.st = next((s for s, ok, _ in b.update(st, prog) if ok), None)
        self.key = None if self.st is None else b.chains(self.st)["out"][1]

    def label(self):
        return "%s %s" % (self.kw.lower(), self.shape)


def builtin(rates=True):
    d = {}
    for r in RATES if rates else ():
        d[r] = "builtin.rate"
    for t in () if rates else TEMPO:
        d[float(t)] = "builtin.tempo"
    return d


def cells(P, I, v, ty, ns):
    """(node type, names of the fields on the way, value) of each setting rendering or message handling may read"""
    out = []
    t = fields.base(P.tys[ty].s)
    n = ns.get(t)
    rd = fields.node_reads(P, n)[0] if n is not None else None

    def go(x, xt, path, rd, owner):
        if isinstance(x, BoxV):
            nt = fields.base(P.tys[x.dyn].s) if x.dyn in P.tys else None
            if nt in ns:
                go(x.v, x.dyn, (), fields.node_reads(P, ns[nt])[0], nt)
            else:
                go(x.v, x.dyn, path, rd, owner)
        elif isinstance(x, Agg):
            name = fields.base(P.tys[x.ty].s) if x.ty in P.tys else ""
            names = (I.field_names(x.ty) if x.ty is not None else None) or list(range(len(x.fs)))
            ours = name.split("::")[0] in ("glicol_synth", "glicol")
            for i, y in enumerate(x.fs):
                if ours and rd is not None and (name, i) not in rd:
                    continue
                go(y, None, path + ((names[i] if i < len(names) else i),) if ours else path, rd, owner)
        elif isinstance(x, SeqX):
            for y in x.es:
                go(y, None, path, rd, owner)
        elif isinstance(x, MapX):
            for k, y in x.es:
                go(k, None, path, rd, owner)
                go(y, None, path, rd, owner)
        elif isinstance(x, En):
            for _k, fs in x.alts:
                for y in fs:
                    go(y, None, path, rd, owner)
        else:
            out.append((owner, path, x))
    go(v, ty, (), rd, t)
    return out


def inert(pl, name):
    """the fields of a made node whose content, being `name`, makes no difference to any history of blocks and messages"""
    m = next(m for m in lang.make(pl.P, pl.kw, pl.shape, pl.comp, builtin=pl.b.I.builtin)[0])
    fns = {v.name: v.fns for v in common.nodes(pl.P).values()}
    conds = set()
    h = history.History(pl.P, m, fns[m.name], conds=conds)
    names = h.I.field_names(m.node_ty)
    if name in conds:
        return set()
    first = {n for n, x in zip(names, m.node.fs) if name in m.I.label_names(x)}
    last = {n for n, x in zip(names, h.value.fs) if name in h.I.label_names(x)}
    return first if last <= first else set()
