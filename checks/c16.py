"""The audio callback never blocks: effect analysis over the call graph of rendering."""
import re
from engine import report
from engine.callgraph import CallGraph, is_panic
from . import common, effects

RULE = ("Effect analysis: every function reachable in the monomorphised call graph from rendering a block (engine, audio context and every "
        "node's render entry, dynamic calls resolved through the vtables that exist) must not be console, file, network, thread, lock or "
        "process code. Paths that have already begun to panic and the interior of the two script interpreters are not followed.")


def run(P):
    c = report.Check("C16", RULE)
    G = CallGraph(P)
    ctl = {f.short.rsplit("::", 1)[1]: f for f in P.fns.values() if f.short.startswith("vharness::control::block_") and f.kind == "item" and "{" not in f.short}
    for n, f in sorted(ctl.items()):
        c.count("positive_controls")
        c.require(bool(offenders(P, G, [f])[0]), "control %s not recognised" % n, f.short, "the rule does not see a blocking call planted for it")
    c.floor("positive_controls", 8)
    roots = [f for f in P.fns.values() if f.has_body and "#128" in f.d["args"]
             and (re.match(r"^(glicol::Engine|glicol_synth::AudioContext)::next_block$", f.short) or re.search(r" as glicol_synth::Node>::process$", f.short))]
    c.count("render_entries", len(roots))
    c.floor("render_entries", 48)
    bad, par, unk = offenders(P, G, roots)
    c.count("functions_reachable", len(par))
    ours = sum(1 for i in par if i in P.fns and P.fns[i].crate in effects.WORKSPACE)
    c.count("workspace_functions_reachable", ours)
    c.floor("workspace_functions_reachable", 60)
    for i in bad:
        f = P.fns[i]
        chain = G.path(par, i)
        inner = [x for x in chain if "glicol" in x]
        c.require(False, "rendering reaches %s" % kind(f.short), " -> ".join(chain[-6:]), "reached from rendering through %s" % (inner[-1] if inner else chain[0]))
    c.count("obligations", len(par) - len(bad))
    c.count("discharged", len(par) - len(bad))
    for x, f in sorted(unk.items()):
        c.require(f.crate not in effects.WORKSPACE, "rendering makes a call that cannot be resolved: %s" % x, f.short, "unresolved call")
    c.count("unresolved_calls_in_libraries", sum(1 for f in unk.values() if f.crate not in effects.WORKSPACE))
    c.assume("code reached only after a panic has begun, and what a user's script asks the rhai and fasteval interpreters to do, is outside the property")
    return c.finish(P)


def kind(s):
    m = re.search(r"std::(io|fs|net|process|thread|sync|env|os|backtrace)\b", s)
    n = {"io": "console or stream input/output", "fs": "the file system", "net": "the network", "process": "process control", "thread": "thread control",
         "sync": "a lock or channel", "env": "the environment", "os": "operating system calls", "backtrace": "backtraces"}
    return n[m.group(1)] if m else s


def offenders(P, G, roots):
    par, unk = G.reach(roots, lambda f: is_panic(f) or f.crate in effects.SCRIPT or effects.blocking(f))
    return [i for i in par if i in P.fns and effects.blocking(P.fns[i]) and not is_panic(P.fns[i])], par, unk
