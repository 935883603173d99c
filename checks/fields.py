"""Which fields of a type the code reachable from some functions reads."""
import re
from engine.callgraph import CallGraph, is_panic


def base(s):
    return re.sub(r"<.*", "", s)


def place_reads(P, f, place, out, whole):
    """fields a place passes through (all but a written-to last one)"""
    ty = f.locals[place[0]]
    steps = place[1]
    for k, e in enumerate(steps):
        t = P.tys.get(ty)
        if e == "*":
            if t is not None and t.k in ("ref", "ptr", "rawptr"):
                ty = t.d["to"]
            elif t is not None and t.d.get("args"):
                ty = t.d["args"][0] if isinstance(t.d["args"][0], int) else None
            else:
                ty = None
        elif e[0] == "f":
            if t is not None and (whole or k < len(steps) - 1):
                out.add((base(t.s), e[1]))
            ty = e[2]
        elif e[0] in ("i", "c"):
            ty = None if t is None else t.d.get("elem", t.d.get("to"))
    return ty


def walk(P, f, x, out):
    """operands and borrowed places inside a statement's right side or a terminator"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(e == "*" or isinstance(e, list) and e and e[0] in "ficdsv" for e in x[1]) and x[0] < len(f.locals):
            place_reads(P, f, x, out, True)
            return
        for y in x:
            walk(P, f, y, out)


def reads(P, fns):
    out = set()
    for f in fns:
        for stmts, term, *_ in f.d["blocks"]:
            for s in stmts:
                if s[0] == "=":
                    place_reads(P, f, s[1], out, False)
                    walk(P, f, s[2], out)
            if term[0] == "call":
                walk(P, f, term[4], out)
                place_reads(P, f, term[5], out, False)
            elif term[0] != "drop":
                walk(P, f, term[1:], out)
    return out


def node_reads(P, n):
    """(type, field) read by the rendering and message handling of a node"""
    d = P.__dict__.setdefault("node_reads", {})
    if n.name not in d:
        G = P.__dict__.setdefault("callgraph", None) or P.__dict__.__setitem__("callgraph", CallGraph(P)) or P.__dict__["callgraph"]
        par, _ = G.reach(list(n.fns.values()), is_panic)
        fs = [P.fns[i] for i in par if i in P.fns and P.fns[i].has_body]
        d[n.name] = reads(P, fs), fs
    return d[n.name]
