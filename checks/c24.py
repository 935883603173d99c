"""The web boundary: every export interpreted with the engine behind it replaced by what it may answer."""
import re
from engine import absint, report
from engine.values import *
from . import common, engine_, lang

RULE = ("Abstract interpretation of every function exported to the page, with the engine's lock fresh and poisoned: an update the engine rejects must "
        "return the fixed-size result with a first byte that is not zero and differs between kinds of error, an accepted one a first byte of zero, every "
        "copy into the result must be shown to fit for a message of any length, no export may panic, each must call the engine operation of its name with "
        "the caller's values in their places, and a block must come back as the first channel followed by the second, sample by sample.")

ENGINE = "glicol::Engine::"
SIZE = 256
# export -> (engine operation, its arguments as positions of the export's own)
CALLS = {"update": ("update_with_code", (0,)), "process": ("next_block", ()), "add_sample": ("add_sample", (0, 1, 2, 3)), "send_msg": ("send_msg", (0,)),
         "set_bpm": ("set_bpm", (0,)), "set_track_amp": ("set_track_amp", (0,)), "set_sr": ("set_sr", (0,)), "set_seed": ("set_seed", (0,)), "reset": ("reset", ())}


class Host:
    def __init__(self):
        self.calls, self.told = [], set()
        self.answer = None
        self.poisoned = False

    def on_call(self, I, fn, decl, vals, st, fr, b):
        n = fn.short
        if n == "lazy_static::lazy::Lazy::get":
            return [(st, Ref(("mutex",), (), None))]
        if re.match(r"^std::sync::(\w+::)*Mutex::lock$", n):
            t = I.ret_ty_at(fr, b)
            v = 1 if self.poisoned else 0
            return [(st, En(t, ((v, (S("poison" if v else "guard", I.variant_fields(t, v)[0][1]),)),)))]
        if re.match(r"^std::sync::(\w+::)*Mutex::(is_poisoned|clear_poison)$", n):
            return [(st, I.kbool(self.poisoned) if n.endswith("is_poisoned") else Agg(I.T_unit, ()))]
        if re.match(r"^std::sync::(\w+::)*PoisonError::into_inner$", n):
            return [(st, S("guard", I.ret_ty_at(fr, b)))]
        if re.match(r"^std::sync::(\w+::)*PoisonError::get_(mut|ref)$", n):
            return [(st, Ref(("guard",), (), None))]
        if re.match(r"^<std::sync::(\w+::)*MutexGuard as std::ops::Deref(Mut)?>::deref(_mut)?$", n):
            return [(st, Ref(("eng",), (), None))]
        if re.match(r"^core::fmt::rt::Argument::new_", n):
            self.told |= self.content(I, vals[0], st)
            return None
        if n.startswith(ENGINE) and fr.fn.crate == "wasmhost":
            self.calls.append((n[len(ENGINE):], [self.content(I, v, st) for v in vals[1:]], st))
            if n == ENGINE + "update_with_code":
                return [(st, self.answer)]
            if n == ENGINE + "next_block":
                return [(st, Ref(("block",), (), None))]
            t = I.ret_ty_at(fr, b)
            return [(st, Agg(I.T_unit, ()) if t == I.T_unit else S("answer", t))]
        return None

    def content(self, I, v, st, d=0):
        ls = set(I.label_names(v))
        if isinstance(v, (Ref, Refs)) and d < 4:
            for r, p in I.targets(v, st):
                ls |= self.content(I, I.load(r, p, st), st, d + 1)
                ls.add(str(r[0]) if r else "")
        return ls


def run(P):
    c = report.Check("C24", RULE)
    exports = sorted({m.group(1) for f in P.fns.values() for m in [re.match(r"^wasmhost::_::__wasm_bindgen_generated_(\w+)$", f.short)] if m})
    c.count("exports", len(exports))
    c.floor("exports", 10)
    kinds = made_variants(P, c)
    bytes_ = {}
    for e in exports:
        for poisoned in (False, True):
            if e == "update":
                updates(P, c, poisoned, kinds, bytes_)
            else:
                other(P, c, e, poisoned)
    for k in sorted(bytes_):
        c.sample("codes", {k: sorted(bytes_[k])})
    c.floor("updates", 10)
    c.assume("the page asks for blocks of %d values, as js/src/glicol-engine.js does, and hands over text that is valid UTF-8" % SIZE)
    return c.finish(P)


def interp(P):
    h = Host()
    I = absint.Interp(P, obs=h, budget=2000000)
    I.exact = SIZE
    return h, I


def made_variants(P, c):
    """the kinds of syntax error the workspace can construct"""
    out = set()
    for f in P.fns.values():
        if f.crate not in ("glicol", "glicol_parser") or not f.has_body:
            continue
        for stmts, _t, _s in f.blocks:
            for s in stmts:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and P.tys[s[2][2]].d.get("name") == "pest::error::ErrorVariant":
                    out.add(s[2][3])
                    c.count("syntax_error_constructions")
    c.floor("syntax_error_constructions", 2)
    return out | {0}            # pest's own errors


def updates(P, c, poisoned, kinds, bytes_):
    h, I = interp(P)
    h.poisoned = poisoned
    f = engine_.fn(P, "wasmhost::update")
    up = engine_.fn(P, ENGINE + "update_with_code")
    rt = up.d["locals"][0]
    et = I.variant_fields(rt, 1)[0][1]
    ev = next(t.id for t in P.tys.values() if re.match(r"^pest::error::ErrorVariant<", t.s))
    cases = [(None, "accepted", "accepted")]
    for i, v in enumerate(I.variants(et)):
        (nm, ft), = I.variant_fields(et, i)
        inner = I.pointee(ft)
        if inner is not None and (P.tys[inner].d.get("name") == "pest::error::Error"):
            names, tys = I.field_names(inner), I.field_tys(inner)
            shapes = [()]
            for n, t in zip(names, tys):
                if n in ("location", "line_col"):
                    sub = [x for x, _ in lang.gen(I, t, "e." + n)]
                elif n == "variant":
                    sub = [x for x, _ in lang.gen(I, t, "e.v") if x.alts[0][0] in kinds]
                    sub = list({x.alts[0][0]: En(ev, ((x.alts[0][0], tuple(S("e.v%d.%d" % (x.alts[0][0], j), q) for j, (_n, q) in
                                                                                enumerate(I.variant_fields(ev, x.alts[0][0])))),)) for x in sub}.values())
                else:
                    sub = [S("e." + n, t)]
                shapes = [s + (x,) for s in shapes for x in sub]
            for k, s in enumerate(shapes):
                cases.append((En(et, ((i, (BoxV(Agg(inner, s), None),)),)), v[0], "%s, shape %d" % (v[0], k)))
        else:
            cases.append((En(et, ((i, (S("e.text", ft),)),)), v[0], v[0]))
    for val, kind, what in cases:
        st = absint.State()
        h.calls, h.told = [], set()
        h.answer = En(rt, ((0, (Agg(I.T_unit, ()),)),)) if val is None else En(rt, ((1, (val,)),))
        I.epoch += 1
        out = I.run(f, [arg(I, f, 0, st)], st)
        what = "%s%s" % (what, ", after a failed call" if poisoned else "")
        c.count("updates")
        c.require(bool(out), "an update answered with %s has no outcome" % what, "update", "every way through ends in a panic")
        called(c, "update", h, 1)
        for s, v in out:
            n = I.interval(I.seq_len(v, s), s)
            c.require(n == (SIZE, SIZE), "the result of an update is not of fixed size (%s)" % what, "update", lambda: "length %s" % (n,))
            b0 = I.elem(v, I.kint(0), s)
            codes = {x.v for x in I.alternatives(b0) if isinstance(x, K)} if all(isinstance(x, K) for x in I.alternatives(b0)) else None
            c.require(codes is not None, "the code of an update is not decided (%s)" % what, "update", lambda: show(b0, 5))
            if codes is None:
                continue
            c.require((codes == {0}) if val is None else 0 not in codes, "an update %s is reported with %s" % (what, sorted(codes)), "update",
                      "the page takes a first byte of zero as success and anything else as failure")
            for o, cs in bytes_.items():
                c.require(o == kind or not (cs & codes), "%s and %s are reported alike" % tuple(sorted((o, kind))), "update", lambda: "code %s" % sorted(codes))
            bytes_.setdefault(kind, set()).update(codes)
            if val is not None:
                need = {"e.location", "e.line_col", "e.v0"} if kind == "ParsingError" else {"e.text"}
                told = {re.match(r"^e\.[a-z_0-9]+", l).group(0) for l in h.told if l.startswith("e.")}
                c.require(need <= told, "the message of %s does not say what it is about" % kind, "update", lambda: "it mentions %s, not %s" % (sorted(told), sorted(need - told)))
                c.require(any("fmt::format" in l for l in I.label_names(I.elem(v, I.kint(2), s))), "the message of %s is not in the result" % kind, "update",
                          lambda: show(I.elem(v, I.kint(2), s), 5))
    settle(c, I, "update")


def arg(I, f, i, st):
    t = f.locals[i + 1]
    ty = I.P.tys[t]
    if ty.k == "ref":
        st.mem[("arg", i)] = S("arg%d" % i, I.pointee(t))
        return Ref(("arg", i), (), None)
    if I.is_box(t):
        return BoxV(S("arg%d" % i, I.pointee(t)), None)
    return S("arg%d" % i, t)


def called(c, e, h, arity):
    op, places = CALLS[e]
    got = [x for x in h.calls]
    ok = len(got) >= 1 and all(n == op for n, _a, _s in got)
    c.require(ok, "%s does not reach the engine's %s" % (e, op), e, lambda: "it calls %s" % [n for n, _a, _s in got])
    if not ok:
        return
    for n, a, _s in got:
        want = [{"arg%d" % p} for p in places]
        have = [{l for l in x for m in [re.match(r"^arg\d+", l)] if m} for x in a]
        have = [{re.match(r"^arg\d+", l).group(0) for l in x} for x in have]
        c.require(have[:len(want)] == want, "%s hands the engine its values in the wrong places" % e, e, lambda: "%s for %s" % (have, want))


def other(P, c, e, poisoned):
    h, I = interp(P)
    h.poisoned = poisoned
    f = engine_.fn(P, "wasmhost::" + e)
    st = absint.State()
    args = [arg(I, f, i, st) for i in range(f.argc)]
    st.mem[("eng",)] = S("engine", common.self_ty(P, engine_.fn(P, ENGINE + "update_with_code")))
    bt = None
    if e == "process":
        args = [I.kint(SIZE)]
        r = engine_.fn(P, ENGINE + "next_block").d["locals"][0]
        bt = I.elem_ty(I.pointee(r))
        st.mem[("block",)] = SeqX(tuple(Agg(bt, (SeqX(tuple(S("ch%d@%d" % (k, j), I.T_f32) for j in range(SIZE // 2))),)) for k in range(2)))
    what = "%s%s" % (e, " after a failed call" if poisoned else "")
    c.count("calls_analysed")
    out = I.run(f, args, st)
    c.require(bool(out), "%s has no outcome" % what, e, "every way through ends in a panic")
    if e in CALLS:
        called(c, e, h, f.argc)
    elif e == "live_coding_mode":
        for s, _v in out:
            ety = common.self_ty(P, engine_.fn(P, ENGINE + "update_with_code"))
            v = I.proj(s.mem[("eng",)], ("f", common.field_index(I, ety, "livecoding")), s)
            c.require(set(I.label_names(v)) == {"arg0"}, "live_coding_mode does not set the engine's mode", e, lambda: show(v, 4))
    else:
        c.require(False, "an export without a rule: %s" % e, e, "say what it must do")
    if e == "process":
        for s, v in out:
            want = [x for k in range(2) for x in elems(st.mem[("block",)].es[k])]
            c.require(isinstance(v, SeqX) and list(v.es) == want, "a block does not come back as left then right", e, lambda: show(v, 3)[:200])
            c.count("samples_compared", len(want))
    settle(c, I, what)


def elems(b):
    while not isinstance(b, SeqX):
        b = b.fs[0] if isinstance(b, Agg) else b.v
    return b.es


def settle(c, I, what):
    for (fn, kind, sp), o in sorted(I.obls.items(), key=str):
        c.count("obligations")
        if o["status"] == "proved":
            c.count("discharged")
        c.require(o["status"] == "proved", "%s in %s (%s)" % (kind, fn, what), common.rel(o["where"]), lambda o=o: "%s; %s" % (o["status"], o["detail"]))
