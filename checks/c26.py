"""Rendering always finishes: termination argument for every loop and every recursion of the render code."""
import re
from engine import report
from engine.callgraph import CallGraph, is_panic
from . import common, effects

RULE = ("Termination analysis of the compiler's intermediate code: every natural loop of every workspace function reachable from rendering a block "
        "must, on each pass, either advance an iterator whose type is finite (and leave when it is exhausted), take an element from a collection the "
        "loop does not add to, or move an integer by a constant step towards a bound the loop does not change; every call that consumes an iterator "
        "must be given a finite one; and a call cycle must go through a node's own render entry, that is down the ownership tree.")

FINITE = re.compile(r"^(std|core|alloc)::(slice|vec|option|result|array|str|string|collections|char)::|^(std|core)::ops::(Range|RangeInclusive)$"
                    r"|^(std|core)::iter::(Once|Empty|OnceWith)$|^hashbrown::|^std::(range|ops::range)::|^petgraph::|^pest::|^core::str::")
ONE = re.compile(r"::(Map|Filter|FilterMap|Enumerate|Rev|Cloned|Copied|Peekable|Skip|SkipWhile|StepBy|TakeWhile|MapWhile|Inspect|Fuse|Scan|ArrayChunks|ByRefSized)$")
BOTH = re.compile(r"::Chain$")
EITHER = re.compile(r"::Zip$")
OUTER = re.compile(r"::(FlatMap|Flatten)$")
ENDS = re.compile(r"::(Take)$")
LIMITLESS = re.compile(r"::(Cycle|Repeat|RepeatN|RepeatWith|RangeFrom|Successors|FromFn)$")
CONSUME = re.compile(r"^std::iter::Iterator::(collect|for_each|fold|reduce|sum|product|count|last|min\w*|max\w*|partition\w*|unzip|all|any|find\w*|position|rposition|"
                     r"try_\w+|eq\w*|ne|lt|le|gt|ge|cmp\w*|partial_cmp\w*|is_sorted\w*|advance_by|collect_into)$"
                     r"|^std::iter::DoubleEndedIterator::r(fold|find|try_fold)$")
GROW = re.compile(r"::(push\w*|insert\w*|extend\w*|append|resize\w*|entry|or_insert\w*|splice|reserve\w*|join|push_str)$")
TAKE = re.compile(r"(Vec|VecDeque|BinaryHeap|BTreeMap|BTreeSet|String)::(pop|pop_front|pop_back|pop_first|pop_last)$")


def run(P):
    c = report.Check("C26", RULE)
    G = CallGraph(P)
    spin = [f for f in P.fns.values() if re.match(r"^vharness::control::spin_\w+$", f.short) and f.kind == "item"]
    ends = [f for f in P.fns.values() if re.match(r"^vharness::control::ends_\w+$", f.short) and f.kind == "item"]
    for f in spin:
        c.count("positive_controls")
        c.require(bool(faults(P, f)[0]) or bool(recursion(P, G, [f])), "control %s not recognised" % f.short, f.short, "the rule does not see an endless loop planted for it")
    for f in ends:
        c.count("negative_controls")
        bad = faults(P, f)[0]
        c.require(not bad, "control %s rejected" % f.short, f.short, lambda bad=bad: "a loop that ends is not recognised: %s" % bad)
    c.floor("positive_controls", 10)
    c.floor("negative_controls", 10)
    roots = [f for f in P.fns.values() if f.has_body and "#128" in f.d["args"]
             and (re.match(r"^(glicol::Engine|glicol_synth::AudioContext)::next_block$", f.short) or re.search(r" as glicol_synth::Node>::process$", f.short))]
    c.count("render_entries", len(roots))
    c.floor("render_entries", 48)
    par, _unk = G.reach(roots, lambda f: is_panic(f) or f.crate in effects.SCRIPT)
    lib = 0
    for i in sorted(par):
        f = P.fns.get(i)
        if f is None or not f.has_body:
            continue
        if f.crate not in effects.WORKSPACE:
            lib += bool(f.loops())
            continue
        c.count("workspace_functions")
        bad, ok = faults(P, f)
        for kind, where, why in bad:
            c.require(False, "%s in %s" % (kind, f.short), where, lambda f=f, why=why, i=i: "%s; reached by %s" % (why, " -> ".join(G.path(par, i)[-4:])))
        for how in ok:
            c.count("loops" if how != "consumed" else "iterators_consumed")
            c.count("obligations")
            c.count("discharged")
            c.count("ended_by_" + how)
            if how not in ("iterator", "consumed"):
                c.sample("loops_not_driven_by_an_iterator", {"function": f.short, "ended_by": how})
    c.floor("loops", 60)
    for cyc in recursion(P, G, roots):
        c.require(False, "recursion through %s" % cyc[0], " -> ".join(cyc[:6]), "rendering calls itself without going down to an owned node")
    c.count("obligations")
    c.count("discharged")
    c.count("library_functions_with_loops", lib)
    c.assume("loops inside the standard library, petgraph and dasp end for finite arguments, and a node does not own itself")
    return c.finish(P)


# ---------------------------------------------------------------- finite iterators

def finite(P, tid, seen=()):
    """None if iterating a value of the type ends, otherwise the part that does not"""
    if not isinstance(tid, int) or tid in seen:
        return "unknown iterator"
    t = P.tys[tid]
    d = t.d
    if t.k in ("ref", "ptr"):
        return finite(P, d.get("to", d.get("ty")), seen + (tid,))
    n = d.get("name", "")
    args = [a for a in d.get("args", []) if isinstance(a, int)]
    if LIMITLESS.search(n):
        return t.s
    if ENDS.search(n):
        return None
    if EITHER.search(n):
        r = [finite(P, a, seen + (tid,)) for a in args[:2]]
        return None if None in r else r[0]
    if ONE.search(n) or OUTER.search(n):
        return finite(P, args[0], seen + (tid,))
    if BOTH.search(n):
        r = [finite(P, a, seen + (tid,)) for a in args[:2]]
        return next((x for x in r if x), None)
    if FINITE.search(n) or t.k in ("array", "slice"):
        return None
    return t.s


# ---------------------------------------------------------------- loops

def short_of(t):
    return re.sub(r"::<[^<>]*(<[^<>]*>[^<>]*)*>", "", t[2][0]) if t[0] == "call" and t[2] else ""


def line(f, b):
    return "%s (%s)" % (f.short, common.rel(f.blocks[b][2]) if hasattr(common, "rel") else f.blocks[b][2])


def faults(P, f):
    """([(kind, where, why)], [how each loop ends])"""
    bad, ok = [], []
    for b, (_s, t, _sp) in enumerate(f.blocks):
        if t[0] == "call" and t[2] and CONSUME.match(t[2][0]):
            w = finite(P, t[2][1][0] if t[2][1] else None)
            if w is None:
                ok.append("consumed")
            else:
                bad.append(("endless iteration", line(f, b), "%s is given %s" % (t[2][0], w)))
    loops = f.loops()
    for h, body in sorted(loops.items()):
        how, why = ranking(P, f, h, set(body) | {h})
        if how:
            ok.append(how)
        else:
            bad.append(("loop without end", line(f, h), why))
    return bad, ok


def every_pass(f, h, body, bs):
    """every way round the loop passes the block, or one of the blocks"""
    bs = bs if isinstance(bs, set) else {bs}
    if h in bs:
        return True
    seen, todo = set(), [h]
    while todo:
        x = todo.pop()
        if x in seen or x in bs:
            continue
        seen.add(x)
        for y in f.succs(x):
            if y == h:
                return False
            if y in body:
                todo.append(y)
    return True


def writes(f, blocks):
    """place -> [(block, rvalue or call)] for every direct assignment in the blocks"""
    w = {}
    for b in blocks:
        stmts, t, _ = f.blocks[b]
        for s in stmts:
            if s[0] == "=":
                w.setdefault(s[1][0], []).append((b, s[1][1], s[2]))
        if t[0] == "call" and t[5]:
            w.setdefault(t[5][0], []).append((b, t[5][1], t))
    return w


def borrowed(f, blocks, local):
    """blocks in which a mutable reference (or raw pointer) to the local is taken"""
    out = []
    for b in blocks:
        for s in f.blocks[b][0]:
            if s[0] == "=" and s[2][0] in ("ref", "addr", "rawptr") and s[2][2][0] == local and s[2][1]:
                out.append(b)
    return out


def ranking(P, f, h, body):
    W = writes(f, body)
    allw = writes(f, range(len(f.blocks)))
    exits = [b for b in body if f.blocks[b][1][0] == "switch" and any(s not in body and not dead(f, s) for s in f.succs(b))]
    why = "no test leaves the loop" if not exits else "nothing the loop tests is known to run out"
    for b in exits:
        if not every_pass(f, h, body, b):
            continue
        t = f.blocks[b][1]
        on = t[1]
        if on[0] not in ("cp", "mv") or on[1][1]:
            continue
        inside = set(s for s in f.succs(b) if s in body)
        d = origin(W, allw, on[1][0])
        for how, msg in (by_iterator(P, f, h, body, W, allw, b, t, d), by_counter(P, f, h, body, W, allw, b, t, d, inside)):
            if how:
                return how, ""
            why = msg or why
    return None, why


def dead(f, b):
    return f.blocks[b][1][0] == "unreach"


def origin(W, allw, l, depth=0):
    """the single definition of a temporary, following copies"""
    ws = W.get(l) or allw.get(l) or []
    if len(ws) != 1 or ws[0][1]:
        return None
    rv = ws[0][2]
    if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1] and depth < 8:
        return origin(W, allw, rv[1][1][0], depth + 1) or ws[0]
    return ws[0]


def target(f, allw, l, depth=0):
    """the place a temporary reference points to: (base local, projection as text)"""
    ws = allw.get(l) or []
    if len(ws) != 1 or ws[0][1] or depth > 8:
        return (l, "*")
    rv = ws[0][2]
    if rv[0] == "ref":
        base, pr = rv[2]
        if pr and pr[0] == "*":
            b, q = target(f, allw, base, depth + 1)
            return (b, q + str(pr[1:]) if len(pr) > 1 else q)
        return (base, str(pr))
    if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
        return target(f, allw, rv[1][1][0], depth + 1)
    return (l, "*")


def by_iterator(P, f, h, body, W, allw, b, t, d):
    """switch on the discriminant of what `next` (or `pop`) returned"""
    if d is None or d[2][0] not in ("discr", "call"):
        return None, None
    rv = d[2]
    if rv[0] == "discr":
        src = origin(W, allw, rv[1][0])
        if src is None or src[2][0] != "call":
            return None, None
        call, cb = src[2], src[0]
    else:
        call, cb = rv, d[0]         # is_some()/is_none()/is_empty() of something
        return emptiness(P, f, h, body, W, allw, call, cb)
    if cb not in body or not every_pass(f, h, body, cb):
        return None, "the loop does not take an element on every pass"
    n = short_of(call)
    m = re.search(r"::(next|next_back|nth)$", n)
    if not (m or TAKE.search(n)) or not call[4] or call[4][0][0] not in ("cp", "mv"):
        return None, None
    it = target(f, allw, call[4][0][1][0])
    if any(not pr for _b, pr, _rv in W.get(it[0], [])) and it[1] != "*":
        return None, "the loop starts its iterator again"
    if m and n.startswith("std::iter::"):
        w = finite(P, call[2][1][0])
        if w:
            return None, "the loop is driven by %s, which does not run out" % w
        o = others(P, f, body, allw, it, cb)
        if o:
            return None, "the loop also hands its iterator to %s" % o
        return "iterator", None
    if m and re.search(r"^petgraph::visit::(?:traversal::)?(Dfs|DfsPostOrder|Bfs|Topo)::next$", n):
        o = others(P, f, body, allw, it, cb)
        return ("traversal", None) if not o else (None, "the loop also hands its traversal to %s" % o)
    if TAKE.search(n):
        o = others(P, f, body, allw, it, cb, GROW)
        return ("emptying", None) if not o else (None, "the loop adds to what it empties with %s" % o)
    return None, None


def emptiness(P, f, h, body, W, allw, call, cb):
    """while !v.is_empty() { v.pop()/remove(..) }"""
    n = short_of(call)
    if not re.search(r"(Vec|VecDeque|String|slice::<impl \[T\]>)::is_empty$", n) or call[4][0][0] not in ("cp", "mv"):
        return None, None
    it = target(f, allw, call[4][0][1][0])
    o = others(P, f, body, allw, it, cb, GROW)
    if o:
        return None, "the loop adds to what it empties with %s" % o
    for b in body:
        t = f.blocks[b][1]
        if t[0] == "call" and re.search(r"::(pop|pop_front|pop_back|remove|swap_remove)$", short_of(t)) and t[4] and t[4][0][0] in ("cp", "mv") \
                and target(f, allw, t[4][0][1][0]) == it and every_pass(f, h, body, b):
            return "emptying", None
    return None, "the loop does not take an element on every pass"


def others(P, f, body, allw, it, cb, only=None):
    """a call in the loop, other than the one in cb, that is given a mutable way to the place"""
    for b in body:
        t = f.blocks[b][1]
        if t[0] != "call" or b == cb:
            continue
        if only is not None and not only.search(short_of(t)):
            continue
        for a in t[4]:
            if a[0] in ("cp", "mv") and not a[1][1]:
                ty = P.tys.get(f.locals[a[1][0]] if isinstance(f.locals[a[1][0]], int) else f.locals[a[1][0]][0])
                if ty is not None and ty.k in ("ref", "ptr") and not (ty.k == "ref" and not ty.d.get("mut")) and overlap(target(f, allw, a[1][0]), it):
                    return short_of(t)
    return None


def overlap(a, b):
    if a[0] != b[0]:
        return False
    x, y = a[1].rstrip("]"), b[1].rstrip("]")
    return x.startswith(y) or y.startswith(x)


def by_counter(P, f, h, body, W, allw, b, t, d, inside):
    """switch on `x < bound` and the like"""
    if d is None or d[2][0] != "bin" or d[2][1] not in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
        return None, None
    _, op, x, y = d[2][:4]
    for var, bound, o in ((x, y, op), (y, x, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op))):
        v = root(f, W, allw, var)
        if v is None or v[1]:
            continue
        l = v[0]
        ty = P.tys.get(f.locals[l] if isinstance(f.locals[l], int) else f.locals[l][0])
        if ty is None or ty.k not in ("uint", "int") and not re.match(r"^[iu](8|16|32|64|128|size)$", ty.s):
            continue
        if borrowed(f, body, l):
            continue
        steps = [step(f, W, allw, l, w) for w in W.get(l, [])]
        if not steps or None in steps:
            continue
        if not (all(s > 0 for s in steps) or all(s < 0 for s in steps)):
            continue
        moved = {w[0] for w in W[l]} | (taken(f, W, allw, body, bound) if steps[0] > 0 else set())
        if not every_pass(f, h, body, moved):
            continue
        up = steps[0] > 0
        stay = stays(f, t, inside)
        if o == "Ne" and stay is True or o == "Eq" and stay is False:
            if any(abs(s) != 1 for s in steps):
                continue
        elif not ((o in ("Lt", "Le") and stay is True or o in ("Gt", "Ge") and stay is False) and up
                  or (o in ("Gt", "Ge") and stay is True or o in ("Lt", "Le") and stay is False) and not up):
            continue
        if not invariant(P, f, body, W, allw, bound):
            continue
        return "counter", None
    return None, None


def taken(f, W, allw, body, bound):
    """the blocks that take an element from the list whose length is the bound"""
    d = origin(W, allw, bound[1][0]) if bound[0] in ("cp", "mv") and not bound[1][1] else None
    if d is None or d[2][0] != "call" or not re.search(r"::len$", short_of(d[2])) or d[2][4][0][0] not in ("cp", "mv"):
        return set()
    it = target(f, allw, d[2][4][0][1][0])
    return {b for b in body for t in [f.blocks[b][1]]
            if t[0] == "call" and re.search(r"Vec(Deque)?::(remove|swap_remove)$", short_of(t)) and t[4] and t[4][0][0] in ("cp", "mv") and target(f, allw, t[4][0][1][0]) == it}


def stays(f, t, inside):
    """True if the loop goes on when the tested boolean is true, False if when it is false"""
    for val, bb in t[2]:
        if val == 0:
            return (False if bb in inside else True) if (bb in inside) != (t[3] in inside) else None
    return None


def root(f, W, allw, o, depth=0):
    """the variable an operand copies, read in the same pass"""
    if o[0] not in ("cp", "mv"):
        return None
    l, pr = o[1]
    if pr:
        return (l, pr)
    ws = allw.get(l) or []
    if len(ws) == 1 and not ws[0][1] and ws[0][2][0] == "use" and ws[0][2][1][0] in ("cp", "mv") and depth < 8:
        return root(f, W, allw, ws[0][2][1], depth + 1)
    return (l, [])


def step(f, W, allw, l, w):
    """the constant by which one assignment moves the local"""
    _b, pr, rv = w
    if pr or rv[0] not in ("use", "bin", "cbin"):
        return None
    if rv[0] == "use":
        o = rv[1]
        if o[0] not in ("cp", "mv"):
            return None
        src, p2 = o[1]
        ws = allw.get(src) or []
        if len(ws) != 1 or ws[0][1]:
            return None
        if p2 and (len(p2) != 1 or p2[0][0] != "f" or p2[0][1] != 0):
            return None
        rv = ws[0][2]
    if rv[0] not in ("bin", "cbin"):
        return None
    m = re.match(r"^(Add|Sub)(WithOverflow|Unchecked)?$", rv[1])
    if not m:
        return None
    a, k = rv[2], rv[3]
    if a[0] == "k" and m.group(1) == "Add":
        a, k = k, a
    r = root(f, W, allw, a)
    if r != (l, []) or k[0] != "k" or k[2].get("k") != "int" or k[2]["v"] <= 0:
        return None
    return k[2]["v"] if m.group(1) == "Add" else -k[2]["v"]


def invariant(P, f, body, W, allw, o):
    if o[0] == "k":
        return True
    l, pr = o[1]
    if pr and pr[0] == "*":
        return False
    ws = W.get(l, [])
    if not ws:
        return not borrowed(f, body, l)
    if len(ws) != 1 or ws[0][1] or pr:
        return False
    rv = ws[0][2]
    if rv[0] == "use":
        return rv[1][0] == "k" or invariant(P, f, body, W, allw, rv[1])
    if rv[0] == "bin":
        return all(invariant(P, f, body, W, allw, x) for x in rv[2:4])
    if rv[0] == "cast":
        return invariant(P, f, body, W, allw, rv[2])
    if rv[0] == "un" and rv[1] == "PtrMetadata" or rv[0] == "len":
        return True
    if rv[0] == "call" and re.search(r"::len$", short_of(rv)):
        if rv[4][0][0] not in ("cp", "mv"):
            return False
        return others(P, f, body, allw, target(f, allw, rv[4][0][1][0]), ws[0][0], GROW) is None
    return False


# ---------------------------------------------------------------- recursion

def recursion(P, G, roots):
    """call cycles among workspace functions that do not pass through a dynamic call"""
    par, _ = G.reach(roots, lambda f: is_panic(f) or f.crate in effects.SCRIPT)
    ours = {i for i in par if i in P.fns and P.fns[i].has_body and (P.fns[i].crate in effects.WORKSPACE or P.fns[i].crate == "vharness")}
    nxt = {i: sorted({e for e in P.fns[i].edges()[0] if e in ours}) for i in ours}
    out, state = [], {}

    for s in sorted(ours):
        if s in state:
            continue
        stack = [(s, iter(nxt[s]))]
        state[s] = 1
        while stack:
            x, it = stack[-1]
            y = next(it, None)
            if y is None:
                state[x] = 2
                stack.pop()
            elif y not in state:
                state[y] = 1
                stack.append((y, iter(nxt[y])))
            elif state[y] == 1:
                i = [q for q, _ in stack].index(y)
                out.append([P.fns[q].short for q, _ in stack[i:]])
    return out
