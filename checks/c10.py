"""Wrappers pass every render request and message on, once and unchanged."""
import re
from engine import absint, report
from engine.values import *
from . import common

RULE = ("Abstract interpretation of the render and message entry of every wrapper type around a node about which nothing is "
        "known: on every path the inner node is entered exactly once, with the very same inputs, outputs and message.")


class Obs:
    """counts entries of the inner node, keeping paths with different counts apart"""
    def __init__(self):
        self.bad = []

    def on_call(self, I, fn, decl, vals, st, fr, b):
        name = fn.short.rsplit("::", 1)[-1]
        inner = fn.short.startswith("<vharness::Probe as") or (fn.kind.startswith("virtual") and fn.short.startswith("glicol_synth::Node"))
        if inner and name in ("process", "send_msg"):
            st = st.copy()
            st.obs = st.obs + ((name,) + tuple(self.desc(I, v, st) for v in vals),)
            return [(st, Agg(I.T_unit, ()))]
        return None

    def desc(self, I, v, st):
        # a reference is described by what it ends at, so that reborrows do not matter
        for _ in range(4):
            if isinstance(v, Ref):
                t = I.load(v.root, v.path, st)
                if isinstance(t, Ref):
                    v = t
                    continue
                if isinstance(t, BoxV):
                    v = Ref(v.root, v.path + (("b",),), None)
                    continue
                return "&%s%s" % (root_s(v.root), path_s(v.path))
            break
        if isinstance(v, Ref):
            return "&%s%s" % (root_s(v.root), path_s(v.path))
        return show(v, 8)


def run(P):
    c = report.Check("C10", RULE)
    pat = re.compile(r"^<(&'a mut T|&mut T|&'_ mut T|std::boxed::Box|glicol_synth::BoxedNode|glicol_synth::BoxedNodeSend) as glicol_synth::Node>::(process|send_msg)$")
    seen = set()
    for f in P.fns.values():
        m = pat.match(f.short)
        if not m or not f.has_body:
            continue
        if not any(a == "#128" for a in f.d["args"]):
            continue
        w, meth = m.group(1), m.group(2)
        wn = "reference" if w.startswith("&") else w.split("::")[-1]
        seen.add((wn, meth))
        obs = Obs()
        I = absint.Interp(P, obs=obs)
        st = absint.State()
        ty = common.self_ty(P, f)
        probe = S("probe", None)
        if w.startswith("&"):
            st.mem[("probe",)] = probe
            st.mem[("self",)] = Ref(("probe",), (), None)
            want_self = "&probe"
        elif w == "std::boxed::Box":
            st.mem[("self",)] = BoxV(probe, None)
            want_self = "&self.*"
        else:
            st.mem[("self",)] = Agg(ty, (BoxV(probe, None),))
            want_self = "&self.0.*"
        if meth == "process":
            common.inputs(I, st, 2, 1, 128)
            st.mem[("out",)] = SeqX((common.buf(I, "old0", 128),))
            args = [Ref(("self",), (), None), Ref(("inputs",), (), None), Ref(("out",), (), None)]
            before = dict(st.mem)
            want = ("process", want_self, "&inputs", "&out")
            res = I.run(f, args, st)
        else:
            mt = common.ty_id(P, "glicol_synth::Message")
            msg = S("message", mt)
            res = I.run(f, [Ref(("self",), (), None), msg], st)
            want = ("send_msg", want_self, "message")
        c.count("wrapper_methods")
        key = "%s wrapper: %s" % (wn, "render request" if meth == "process" else "message")
        if not res:
            c.require(False, key + " never completes", common.where(f), "no path returns")
        for s, _ in res:
            c.count("paths")
            ev = list(s.obs)
            ok = ev == [want]
            if len(ev) == 1 and not ok:
                msgt = "passed on with other arguments: %s instead of %s" % (ev[0], want)
            else:
                msgt = "passed on %d times instead of once" % len(ev)
            if ok and meth == "process" and any(s.mem.get(r) is not before[r] for r in (("inputs",), ("out",))):
                ok, msgt = False, "the inputs or outputs are changed by the wrapper itself"
            c.require(ok, key + " not passed on unchanged", common.where(f), msgt)
        c.sample("wrappers", key)
    for w in ("reference", "Box", "BoxedNode", "BoxedNodeSend"):
        for m in ("process", "send_msg"):
            c.require((w, m) in seen, "%s wrapper: no %s" % (w, m), "synth/src/node", "the wrapper implementation was not found")
    return c.finish(P)
