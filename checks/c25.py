"""Raw-pointer code is confined; the input view cannot be forged; the engine can be sent."""
import json, re
from engine import absint, extract, report
from engine.callgraph import CallGraph
from engine.values import *
from . import common

RULE = ("Lint over the type-checked program: every hand-written unsafe operation (call of an unsafe function, raw dereference, mutable "
        "static, unsafe impl) must be one of the confined kinds in its crate. Compile-fail witnesses (each with a compiling twin) for forging, copying or "
        "outliving an input view and for sending thread-bound nodes. Abstract interpretation of making and reading an input view: what is read "
        "is exactly the slice it was made from. Call graph: input views are made only below the render loop.")


def allowed(crate, kind, owner):
    """the confined kinds of unsafe code, by what the code does"""
    if kind in ("block", "fn"):
        return None                     # the permission itself; judged by the operations inside
    if crate == "glicol_parser":
        return kind.startswith("call std::mem::MaybeUninit::")
    if crate == "glicol_synth":
        if kind.startswith("impl"):
            return re.match(r"^<(\w+::)*Input<N> as std::marker::Send>$", owner) is not None
        return kind == "call std::slice::from_raw_parts" and "Input" in owner
    if crate == "wasmhost":
        return kind in ("call std::str::from_utf8_unchecked",) or (kind == "call update" and "wasm_bindgen" in owner)
    return False


def run(P):
    c = report.Check("C25", RULE)
    path = extract.facts()
    for crate in ("glicol", "glicol_parser", "glicol_synth", "wasmhost"):
        ended = False
        seen = set()
        for line in open(path + "." + crate, encoding="utf-8"):
            d = json.loads(line)
            if d["kind"] == "end":
                ended = True
                continue
            k = (d["kind"], d["owner"], d["at"])
            if k in seen:
                continue
            seen.add(k)
            if d["expansion"]:
                c.count("macro_generated_uses")
                continue
            c.count("handwritten_unsafe_constructs")
            a = allowed(crate, d["kind"], d["owner"])
            if a is None:
                continue
            c.count("unsafe_operations")
            c.sample("operations", "%s: %s in %s" % (crate, d["kind"], d["owner"]), 12)
            c.require(a, "%s: unsafe operation outside the confined places: %s" % (crate, d["kind"]), "%s (%s)" % (d["owner"], common.rel(d["at"])),
                      "this operation is not one of the confined kinds of unsafe code")
        c.require(ended, "%s: unsafe inventory incomplete" % crate, crate, "the lint did not finish")
    c.floor("unsafe_operations", 5)
    w = json.load(open(path + ".witness"))
    for name, r in sorted(w.items()):
        c.count("witnesses")
        if r["expect"] == "ok":
            c.require(r["ok"], "witness %s no longer compiles" % name, "harness/witness/%s.rs" % name, "; ".join(r["messages"][:2]))
        else:
            want = r["expect"].split()[1].split("|")
            ok = not r["ok"] and (set(r["codes"]) & set(want) or ("lifetime" in want and any("lifetime" in m for m in r["messages"])))
            c.require(bool(ok), "witness %s: forbidden code compiles" % name if r["ok"] else "witness %s fails for another reason" % name,
                      "harness/witness/%s.rs" % name, "expected %s, got %s %s" % (r["expect"], r["codes"], r["messages"][:1]))
    c.floor("witnesses", 9)
    view(P, c)
    makers(P, c)
    return c.finish(P)


def view(P, c):
    """reading an input view gives exactly the slice it was made from"""
    T = common.ty_id(P, "glicol_synth::Input<128>")
    made = [f for f in P.fns.values() if f.has_body and f.crate == "glicol_synth" and f.argc == 2 and f.locals[0] == T and "#128" in f.d["args"]]
    read = [f for f in P.fns.values() if f.has_body and f.short == "glicol_synth::Input::buffers" and "#128" in f.d["args"]]
    if not c.require(len(made) >= 1 and len(read) == 1, "input view: constructor or reader not found", "synth/src/node/mod.rs", "%d, %d" % (len(made), len(read))):
        return
    for f in made:
        I = absint.Interp(P)
        st = absint.State()
        for n in (1, 2):
            st.mem[("bufs",)] = SeqX(tuple(common.buf(I, "b%d" % i, 128) for i in range(n)))
            arg = Ref(("bufs",), (), None)
            idt = [i for i in (1, 2) if P.tys[f.locals[i]].s == "usize"]
            args = [arg, S("id", I.T_usize)] if idt == [2] else [S("id", I.T_usize), arg]
            for s, v in I.run(f, args, st):
                s.mem[("view",)] = v
                ref = Ref(("view",), (), None)
                c.require("id" in {show(x) for x in v.fs}, "input view: identity not kept", common.where(f), show(v))
                for s2, r in I.run(read[0], [ref], s):
                    ok = isinstance(r, Ref) and I.load(r.root, r.path, s2) is st.mem[("bufs",)]
                    c.count("view_paths")
                    c.require(ok, "input view: reads other memory than it was made from", common.where(read[0]), "made from %d buffers, reads %s" % (n, show(r)))


def makers(P, c):
    """every function that builds an input view is only reachable through the render loop"""
    G = CallGraph(P)
    T = {t.id for t in P.tys.values() if re.match(r"^glicol_synth::Input<\d+>$", t.s)}
    builders = set()
    for f in P.fns.values():
        if f.crate in ("glicol_synth", "glicol", "glicol_parser", "wasmhost") and f.has_body:
            for stmts, _t, _s in f.blocks:
                for s in stmts:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] in T:
                        builders.add(f.id)
    c.count("functions_building_views", len(builders))
    if not c.require(builders, "input view: nothing builds one", "synth/src", "no construction found"):
        return
    callers = {}
    for f in P.fns.values():
        if f.crate in ("glicol_synth", "glicol", "glicol_parser", "wasmhost") and f.has_body:
            for o in G.targets(f)[0]:
                callers.setdefault(o, set()).add(f.id)
    # walk up from the builders; the walk must end at the render loop (the function that also renders nodes)
    def renders(f):
        return any(P.fns[o].short.endswith("Node>::process") or P.fns[o].short == "glicol_synth::Node::process" for o in G.targets(f)[0] if o in P.fns)
    seen, work, ends = set(), list(builders), set()
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        f = P.fns[i]
        if renders(f):
            ends.add(f.short)
            continue
        up = callers.get(i, set())
        if not up:
            # an entry point nobody calls inside the workspace: must not be reachable from outside either (witnesses), so it has to be the maker itself
            c.require(i in builders and not re.search(r"Node>::(process|send_msg)$", f.short), "input view: made outside the render loop", common.where(f), "builds an input view without being called by the render loop")
        for u in up:
            g = P.fns[u]
            c.require(not re.search(r"Node>::(process|send_msg)$", g.short), "input view: made by a node", common.where(g), "a node builds an input view itself")
        work.extend(up)
    c.count("render_loops", len(ends))
    for e in sorted(ends):
        c.sample("render_loops", e)
        c.require(not re.search(r"Node>::(process|send_msg)$", e), "input view: made by a node", e, "a node builds an input view itself")
    c.floor("render_loops", 1)
