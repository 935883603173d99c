"""A script is run on what it hears, and heard with what it answers."""
import re
from engine import absint, report
from engine.values import *
from . import common, engine_, lang, rendered

RULE = ("Abstract interpretation of script nodes from their text to the samples they hand on, over two blocks with any input samples and by live messages that "
        "replace the script, the script languages themselves replaced by 'compiles, or not' and 'answers something new, or fails': each run must be given "
        "the script last accepted and, under the documented names, the input, the frames passed, the sample rate and the results of the lines before it; what is "
        "handed on, frame by frame, must be what the last line or the script answered, and silence where there is no answer.")
N = 4
BAD = "wrong"
KEPT = [v + str(i) for v in "xyz" for i in range(4)] + list("abcdefghijklmnopqrstuvwxyz") + ["phase", "freq", "freq2"]      # what a block script keeps from one block to the next


class Scripts:
    """stands for the script languages"""
    def __init__(self):
        self.runs, self.answers, self.text, self.place, self.given = [], lambda n: None, False, {}, {}

    def on_call(self, I, fn, decl, vals, st, fr, b):
        h = HOOKS.get(fn.short)
        return h(self, I, vals, st, I.ret_ty_at(fr, b)) if h else None

    def run(self, I, script, known, st):
        """notes a run; its number"""
        n = sum(1 for o in st.obs if o[0] == "run")
        st = st.copy()
        st.obs = st.obs + (("run", n),)
        self.runs.append((n, script, known))
        return n, st


def pointed(I, v, st):
    for _ in range(6):
        if not isinstance(v, Ref):
            break
        v = I.load(v.root, v.path, st)
    return v


def result(ty, ok, x):
    return En(ty, ((0, (x,)),)) if ok else En(ty, ((1, (x,)),))


def compiled(o, I, vals, st, ty):
    t = pointed(I, vals[1], st)
    if isinstance(t, K) and BAD in t.v:
        return [(st, result(ty, False, S("error in " + t.v, None)))]
    v = S("script " + (t.v if isinstance(t, K) else show(t, 6)), None)
    if len(vals) > 2:
        o.place[v] = show(pointed(I, vals[2], st), 6)      # where its parts are kept
    return [(st, result(ty, True, v))]


def same(o, I, vals, st, ty):
    return [(st, pointed(I, vals[0], st))]


def reach(v, I, st):
    """the innermost place a reference leads to"""
    while isinstance(v, Ref):
        x = I.load(v.root, v.path, st)
        if not isinstance(x, Ref):
            return v
        v = x
    return v


def push(o, I, vals, st, ty):
    r = reach(vals[0], I, st)
    m = I.load(r.root, r.path, st)
    st = st.copy()
    k = pointed(I, vals[1], st)
    I.store(r.root, r.path, MapX(tuple(e for e in m.es if e[0] is not k) + ((k, pointed(I, vals[2], st)),)), st)
    return [(st, vals[0])]


def names(m):
    return {k.v: v for k, v in m.es} if isinstance(m, MapX) and all(isinstance(k, K) for k, _ in m.es) else None


def line(o, I, vals, st, ty):
    v = pointed(I, vals[0], st)
    kept = show(pointed(I, vals[1], st), 6)
    if v in o.place and not o.place[v].startswith(kept):
        v = S("%s among the parts of another line" % show(v), None)
    n, st = o.run(I, v, names(pointed(I, vals[2], st)), st)
    ok = o.answers(n)
    a = S("answer %d" % n if ok else "failure %d" % n, I.variant_fields(ty, 0)[0][1])
    o.given[n] = a
    return [(st, result(ty, ok, a))]


def script(o, I, vals, st, ty):
    n, st = o.run(I, pointed(I, vals[2], st), names(pointed(I, vals[1], st)), st)
    # the script leaves something new under each of its names but those it is given
    r = reach(vals[1], I, st)
    m = I.load(r.root, r.path, st)
    if isinstance(m, MapX):
        st = st.copy()
        I.store(r.root, r.path, MapX(tuple((k, v if k.v in ("sr", "input") else S("%s after run %d" % (k.v, n), None)) for k, v in m.es)), st)
    k = o.answers(n)
    if k is None:
        return [(st, result(ty, False, S("failure %d" % n, None)))]
    return [(st, result(ty, True, SeqX(tuple(S("answer %d[%d]" % (n, i), I.T_f32) for i in range(k)))))]


def as_float(o, I, vals, st, ty):
    v = pointed(I, vals[0], st)
    if isinstance(v, S) and v.name.endswith("[1]") and o.text:
        return [(st, result(ty, False, S("not a number", None)))]
    return [(st, result(ty, True, v))]


HOOKS = {
    "rhai::types::scope::Scope::new": lambda o, I, vals, st, ty: [(st, MapX(()))],
    "rhai::types::scope::Scope::push": push,
    "rhai::types::scope::Scope::set_or_push": push,
    "rhai::types::dynamic::Dynamic::from_float": same,
    "rhai::types::dynamic::Dynamic::as_float": as_float,
    "rhai::api::compile::compile": compiled,
    "rhai::api::eval::eval_ast_with_scope": script,
    "fasteval::parser::Parser::parse": compiled,
    "fasteval::slab::from": same,
    "<fasteval::parser::Expression as fasteval::compiler::Compiler>::compile": same,
    "<fasteval::compiler::Instruction as fasteval::evaler::Evaler>::eval": line,
}


def texts(I, comp, text):
    return lang.subst(comp, lambda s: K(text, s.ty) if s.ty == I.T_str else s)


def blocks(P, I, m, f, st, node, ch, n):
    """n blocks from a node state: (state, node, frames handed on)"""
    out = []
    for b in range(n):
        st = st.copy()
        st.mem[("self",)] = node
        keys = common.inputs(I, st, len(ch), ch, N)
        t = common.ty_id(P, "glicol_synth::Buffer<%d>" % N)
        start = I.frames
        for i in range(len(ch)):
            st.mem[("in", i)] = SeqX(tuple(Agg(t, (SeqX(tuple(rendered.frame(I, i, c, start + j) for j in range(N))),)) for c in range(ch[i])))
        st.mem[("out",)] = SeqX(tuple(common.buf(I, "old%d.%d" % (start, c), N) for c in range(m.channels)))
        for i, _n in common.vec_usize_fields(I, m.node_ty):
            I.store(("self",), (("f", i),), SeqX(tuple(keys)), st)
        I.epoch += 1
        rs = I.run(f, [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)], st)
        if len(rs) != 1:
            return None
        st = rs[0][0]
        node = st.mem[("self",)]
        out += rendered.frames(st.mem[("out",)], 0)
        I.frames = start + N
    return st, node, out


class Case:
    def __init__(self, P, kw, shape, comp, text, fns):
        self.P = P
        made, _other = lang.make(P, kw, shape, texts(absint.Interp(P), comp, text), N, inner=Scripts)
        self.ok = len(made) == 1
        if self.ok:
            self.m = made[0]
            self.I, self.fns = self.m.I, fns[self.m.name]
            self.I.frames = 0
            self.o = self.m.W.parsed.inner
            self.st, self.node = self.m.st, self.m.node
            self.st.obs = ()

    def play(self, ch, n=1):
        """(runs, frames) of n more blocks, or None"""
        self.o.runs = []
        r = blocks(self.P, self.I, self.m, self.fns[("process", N)], self.st, self.node, ch, n)
        if r is None:
            return None
        self.st, self.node, out = r
        return sorted(self.o.runs, key=lambda x: x[0]), out

    def tell(self, text):
        st = self.st.copy()
        st.mem[("self",)] = self.node
        u8 = self.I.variant_fields(common.ty_id(self.P, "glicol_synth::Message"), common.variant_index(self.P, "glicol_synth::Message", "SetToSymbol"))
        rs = self.I.run(self.fns[("send_msg", N)], [Ref(("self",), (), None), common.message(self.I, "SetToSymbol", K(0, u8[0][1]), K(text, u8[1][1]))], st)
        if len(rs) == 1:
            self.st, self.node = rs[0][0], rs[0][0].mem[("self",)]
        return len(rs) == 1


def plain(v):
    """a number in whatever width it is held"""
    while isinstance(v, O) and v.op == "cast":
        v = v.args[0]
    return v


def silent(v):
    return isinstance(v, K) and v.v == 0


def eval_case(c, P, kw, shape, comp, fns, text, ch, fails, where):
    what = "%s `%s`, %s" % (kw.lower(), text, "no input" if not ch else "input of %d channels" % ch[0])
    x = Case(P, kw, shape, comp, text, fns)
    if not c.require(x.ok, "a script node is made", where, what):
        return
    x.o.answers = lambda n: n not in fails
    frame, n, held = 0, 0, {"x": None, "y": None, "z": None}
    current = text
    for step in (None, None, "p := in*2;p", None, BAD, None):
        if step is not None:
            c.require(x.tell(step), "a message is handled in one way", where, what)
            if BAD not in step:
                current = step
            continue
        c.count("blocks_rendered")
        r = x.play(ch)
        if not c.require(r is not None, "a script node renders in one way", where, what):
            return
        runs, out = r
        lines = [([p.strip() for p in l.split(":=")] if ":=" in l else ["", l.strip()]) for l in current.split(";")]
        if not c.require(len(runs) == N * len(lines), "each line is run once a frame", where, lambda: "%s: %d runs of %d lines in %d frames" % (what, len(runs), len(lines), N)):
            return
        for f in range(N):
            for j, (name, expr) in enumerate(lines):
                num, script_, known = runs[f * len(lines) + j]
                c.require(re.sub(r"\s", "", show(script_, 9)) == re.sub(r"\s", "", "script " + expr), "the lines of the script are run in order", where,
                          lambda: "%s, frame %d: line %d is %s" % (what, frame, j, show(script_, 9)))
                if not c.require(known is not None, "a line is given its names", where, what):
                    return
                want = dict(held, phase=float(frame), sr=S("sr", x.I.T_usize))
                if ch:
                    want["in"] = rendered.frame(x.I, 0, 0, frame)
                for k, v in want.items():
                    got = plain(known.get(k)) if k in known else None
                    c.require(silent(got) if v is None else got is plain(v) if isinstance(v, V) else isinstance(got, K) and got.v == v,
                              "a line knows %s" % (k if k in ("in", "phase", "sr") else "the lines before"), where,
                              lambda: "%s, frame %d, line %d: %s is %s, not %s" % (what, frame, j, k, "unknown" if got is None else show(got, 4), "0" if v is None else show(v, 4) if isinstance(v, V) else v))
                answer = None if num in fails else x.o.given[num]
                if name and j < len(lines) - 1:
                    held[name] = answer
                if j == len(lines) - 1:
                    got = plain(out[f])
                    c.require(silent(got) if answer is None else got is answer, "the last line is heard", where,
                              lambda: "%s, frame %d: %s" % (what, frame, show(out[f], 4)))
            frame += 1


def meta_case(c, P, kw, shape, comp, fns, ch, counts, where):
    what = "%s, %s, answers of %s samples" % (kw.lower(), "no input" if not ch else "input of %d channels" % ch[0], counts)
    x = Case(P, kw, shape, comp, "first", fns)
    if not c.require(x.ok, "a script node is made", where, what):
        return
    x.o.answers = lambda n: counts[n % len(counts)]
    x.o.text = len(counts) > 2
    current, frame, num = "first", 0, 0
    for step in (None, None, "second", None, BAD, None):
        if step is not None:
            c.require(x.tell(step), "a message is handled in one way", where, what)
            if BAD not in step:
                current = step
            continue
        c.count("blocks_rendered")
        r = x.play(ch)
        if not c.require(r is not None, "a script node renders in one way", where, what):
            return
        runs, out = r
        if not c.require(len(runs) == 1, "a block script is run once a block", where, lambda: "%s: %d runs" % (what, len(runs))):
            return
        _n, script_, known = runs[0]
        c.require(show(script_, 9) == "script " + current, "the script last accepted is run", where, lambda: "%s: %s instead of %s" % (what, show(script_, 9), current))
        if not c.require(known is not None, "a script is given its names", where, what):
            return
        c.require("sr" in known and plain(known["sr"]) is S("sr", x.I.T_usize), "a script knows sr", where, lambda: "%s: %s" % (what, show(known.get("sr"), 4)))
        if ch:
            got = known.get("input")
            c.require(isinstance(got, SeqX) and [plain(y) for y in got.es] == [rendered.frame(x.I, 0, 0, frame + j) for j in range(N)], "a script knows its input", where,
                      lambda: "%s, from frame %d: %s" % (what, frame, show(got, 5) if got is not None else "nothing"))
        for k in KEPT:
            got = known.get(k)
            c.require(silent(got) if num == 0 else isinstance(got, S) and got.name == "%s after run %d" % (k, num - 1), "a script finds what it left", where,
                      lambda: "%s, run %d: %s is %s" % (what, num, k, "unknown" if got is None else show(got, 4)))
        k = counts[num % len(counts)] or 0
        for j in range(N):
            want = None if j >= k or x.o.text and j == 1 else "answer %d[%d]" % (num, j)
            got = plain(out[j])
            c.require(silent(got) if want is None else isinstance(got, S) and got.name == want, "the answer of a script is heard", where,
                      lambda: "%s, frame %d: %s, not %s" % (what, frame + j, show(out[j], 4), want or "silence"))
        num += 1
        frame += N


def run(P):
    c = report.Check("C33", RULE)
    fns = {v.name: v.fns for v in common.nodes(P).values()}
    for kw, shape, comp in lang.components(absint.Interp(P)):
        if kw == "Eval":
            for text in ("in", "a:=in; b := a+1 ;a+b", "x := x+in;x"):
                for ch in ((1,), (2,), ()):
                    for fails in ((), (1, 4, 5, 12)):
                        c.count("scripts")
                        eval_case(c, P, kw, shape, comp, fns, text, ch, fails, "Eval (rs/synth/src/node/dynamic/eval.rs)")
        if kw == "Meta":
            for ch in ((1,), (2,), ()):
                for counts in ((N,), (N, 2), (N, N + 2, None), (None, 0)):
                    c.count("scripts")
                    meta_case(c, P, kw, shape, comp, fns, ch, counts, "Meta (rs/synth/src/node/dynamic/meta.rs)")
    c.floor("scripts", 30)
    c.floor("blocks_rendered", 120)
    c.assume("the script languages (rhai, fasteval) compute what their documentation says")
    return c.finish(P)
