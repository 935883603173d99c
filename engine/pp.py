"""Pretty-prints a MIR body (debugging aid):  python3 -m engine.pp <regex over short names>"""
import sys, re
from . import facts


def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s += "@%d" % e[1]
        else:
            s += str(e)
    return s


def const(P, c):
    k = c["k"]
    if k == "int":
        return str(c["v"])
    if k == "fn":
        return "fn:" + P.fns[c["inst"]].name
    if k == "str":
        return repr(c["v"])
    if k == "ref":
        return "&" + const(P, c["to"])
    if "fields" in c:
        return "%s{%s}" % (c.get("variant", ""), ",".join(const(P, f) for f in c["fields"]))
    if "elems" in c:
        return "[%s]" % ",".join(const(P, f) for f in c["elems"][:4])
    return str(c)


def operand(P, o):
    if o[0] == "k":
        return const(P, o[2])
    if o[0] == "rt":
        return "rt"
    return ("move " if o[0] == "mv" else "") + place(o[1])


def rvalue(P, r):
    k = r[0]
    if k == "use":
        return operand(P, r[1])
    if k in ("ref", "addr"):
        return ("&mut " if r[1] else "&") + place(r[2])
    if k == "agg":
        t = P.tys[r[2]].s if r[2] is not None else ""
        return "%s#%d(%s)" % (t, r[3], ", ".join(operand(P, o) for o in r[5]))
    if k in ("bin", "cbin"):
        return "%s%s(%s, %s)" % ("chk" if k == "cbin" else "", r[1], operand(P, r[2]), operand(P, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], operand(P, r[2]))
    if k == "cast":
        return "%s as %s [%s]" % (operand(P, r[2]), P.tys[r[4]].s, r[1])
    if k in ("discr", "len"):
        return "%s(%s)" % (k, place(r[1]))
    if k == "repeat":
        return "[%s; %s]" % (operand(P, r[1]), r[2])
    return str(r)


def show(P, f, tys=True):
    print("fn", f.name, "#%d" % f.id, f.span)
    if f.blocks is None:
        print("  (no body)", f.kind)
        return
    names = {}
    for n, p in f.d["names"]:
        names.setdefault(place(p), n)
    if tys:
        for i, t in enumerate(f.locals):
            print("  let _%d: %s %s" % (i, P.tys[t].s, names.get("_%d" % i, "")))
    for b in f.rpo():
        st, t, sp = f.blocks[b]
        print(" bb%d:" % b)
        for s in st:
            if s[0] == "=":
                print("    %s = %s" % (place(s[1]), rvalue(P, s[2])))
            elif s[0] != "dead":
                print("   ", s)
        k = t[0]
        if k == "call":
            nm = P.fns[t[1]].name if t[1] is not None else (t[2] and t[2][0]) or operand(P, t[3])
            print("    %s = %s(%s) -> %s   // %s" % (place(t[5]), nm, ", ".join(operand(P, a) for a in t[4]), t[6], sp))
        elif k == "switch":
            print("    switch %s %s else %s" % (operand(P, t[1]), t[2], t[3]))
        elif k == "assert":
            print("    assert %s == %s %s -> %s" % (operand(P, t[1]), t[2], t[3][0], t[4]))
        elif k == "drop":
            print("    drop %s -> %s" % (place(t[1]), t[2]))
        else:
            print("   ", t)


if __name__ == "__main__":
    P = facts.load()
    for f in P.fns.values():
        if re.search(sys.argv[1], f.short) and (len(sys.argv) < 3 or sys.argv[2] in f.name):
            if "-l" in sys.argv:
                print(f.id, f.short, "|", f.name, f.kind, f.has_body)
            else:
                show(P, f)
