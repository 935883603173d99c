"""Everything that can happen to a node between its creation and any later block: blocks with any wiring, live messages, tempo changes."""
from engine import absint
from engine.values import *
from . import common

LOC = ("hist", "hist")
ROOT = ("self",)
LIVE = ("SetToNumber", "SetToSymbol", "SetBPM")       # what the engine sends after creation, the order protocol aside
# inputs as a tuple of their channel counts, order as positions into them
WIRINGS = [((), ())] + [(c, tuple(range(len(c)))) for c in ((1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 1), (2, 2, 2))]
TWICE = [((c,), (0, 0)) for c in (1, 2)]      # the same chain referred to twice: one input, remembered twice


def histories(P, N=128, only=None):
    """(made node, its history) for every description the engine makes a node of"""
    from . import lang
    made, other = lang.make_all(P, N, only=only)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    out = []
    for m in made:
        w = WIRINGS + (TWICE if len(m.refs) > 1 and m.kw != "Seq" else [])
        out.append((m, History(P, m, fns[m.name], w)))
    return out, other


class History:
    """fixpoint over all sequences of blocks and messages, starting from a made node; obligations met on the way are in .obls"""
    def __init__(self, P, made, fns, wirings=WIRINGS, messages=LIVE, limit=12, budget=3000000, conds=None):
        self.P, self.made = P, made
        self.N = made.W.N
        self.I = I = absint.Interp(P, budget=budget)
        I.conds = conds
        I.phi.update(made.I.phi)
        I.phi_iv.update({k: list(v) for k, v in made.I.phi_iv.items()})
        I.sym_labels.update(made.I.sym_labels)
        self.proc = fns.get(("process", self.N))
        self.msg = fns.get(("send_msg", self.N))
        self.ty = made.node_ty
        self.order_fields = common.vec_usize_fields(I, self.ty)
        self.facts = made.st
        self.value = made.node
        self.rounds = 0
        self.runs = 0
        self.met = {}            # obligation -> the situations it was met in
        while True:
            self.rounds += 1
            if self.rounds > limit:
                raise absint.Budget("history of %s does not settle" % made.label())
            self.met = {}
            old = self.value
            for ch, order in wirings:
                what = "a block with no input" if not ch else "a block with %s input%s" % (" and ".join(("mono", "stereo")[c - 1] for c in ch), "s" * (len(ch) > 1))
                self.step(what, lambda st: self.block(st, ch, order))
            for m in messages:
                self.step("message %s" % m, lambda st: self.message(st, m))
            if self.value is old:
                break

    def state(self):
        f = self.facts
        st = absint.State({r: v for r, v in f.mem.items() if r[0] not in ("l", "tmp", "it", "eng")}, dict(f.facts), dict(f.iv))
        sr = S("sr", self.I.T_usize)
        st.iv[sr] = (1, (1 << 32))
        st.mem[ROOT] = self.value
        return st

    def block(self, st, ch, order):
        I = self.I
        keys = common.inputs(I, st, len(ch), ch, self.N)
        keys = [keys[i] for i in order]
        st.mem[("out",)] = SeqX(tuple(common.buf(I, "old%d" % c, self.N) for c in range(self.made.channels)))
        for i, _n in self.order_fields:
            I.store(ROOT, (("f", i),), SeqX(tuple(keys)), st)
        return self.proc, [Ref(ROOT, (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)]

    def message(self, st, m):
        return self.msg, [Ref(ROOT, (), None), common.message(self.I, m)]

    def step(self, what, setup):
        I = self.I
        st = self.state()
        f, args = setup(st)
        before = I.obls
        I.obls = {}
        self.runs += 1
        for s, _ in I.run(f, args, st):
            if I.conds is not None and ("out",) in s.mem:
                I.conds |= I.label_names(s.mem[("out",)])
            for i, _n in self.order_fields:
                I.store(ROOT, (("f", i),), I.load(ROOT, (("f", i),), self.state()), s)
            I.touched = set()
            self.value = I.join(self.value, s.mem[ROOT], LOC + (ROOT, ()), self.rounds > 3, self.facts, s)
        for k, o in I.obls.items():
            self.met.setdefault(k, []).append((what, o))
        I.obls = before
