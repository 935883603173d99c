"""Reads the pest grammar of the language and answers two questions about it without running any parser:

* which sequences of child pairs a pair of each rule can have (`shapes`), and
* how a family of texts - a string in which every position is a set of characters - is parsed (`Match`).
"""
import re

TOK = re.compile(r"""\s*(?:
    (?P<c>//[^\n]*) |
    (?P<s>\^?"(?:[^"\\]|\\.)*") |
    (?P<ch>'(?:[^'\\]|\\.)'\s*\.\.\s*'(?:[^'\\]|\\.)') |
    (?P<id>[A-Za-z_][A-Za-z0-9_]*) |
    (?P<n>\d+) |
    (?P<p>[=~|?*+!&(){}@$_,])
)""", re.X)

ESC = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "0": "\0"}


class Unsupported(Exception):
    pass


def unq(s):
    return re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), m.group(1)), s)


def tokens(text):
    i, out = 0, []
    while i < len(text):
        if text[i:].strip() == "":
            break
        m = TOK.match(text, i)
        if not m:
            raise Unsupported("grammar: cannot read %r" % text[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if k != "c":
            out.append((k, m.group(k)))
    return out


class Rule:
    def __init__(self, name, kind, expr):
        self.name, self.kind, self.expr = name, kind, expr


class Grammar:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.rules = {}
        self.order = []
        while self.i < len(self.t):
            name = self.take("id")
            self.want("=")
            kind = ""
            if self.peek() in (("p", "@"), ("p", "$"), ("p", "!")):
                kind = self.t[self.i][1]
                self.i += 1
            elif self.peek() in (("p", "_"), ("id", "_")):
                kind = "_"
                self.i += 1
            self.want("{")
            e = self.alt()
            self.want("}")
            if name in self.rules:
                raise Unsupported("grammar: rule %s defined twice" % name)
            self.rules[name] = Rule(name, kind, e)
            self.order.append(name)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, k):
        t = self.peek()
        if t[0] != k:
            raise Unsupported("grammar: expected %s, found %s" % (k, t[1]))
        self.i += 1
        return t[1]

    def want(self, p):
        t = self.peek()
        if t != ("p", p):
            raise Unsupported("grammar: expected %s, found %s" % (p, t[1]))
        self.i += 1

    def alt(self):
        if self.peek() == ("p", "|"):
            self.i += 1
        es = [self.seq()]
        while self.peek() == ("p", "|"):
            self.i += 1
            es.append(self.seq())
        return es[0] if len(es) == 1 else ("alt", es)

    def seq(self):
        es = [self.unary()]
        while self.peek() == ("p", "~"):
            self.i += 1
            es.append(self.unary())
        return es[0] if len(es) == 1 else ("seq", es)

    def unary(self):
        if self.peek() == ("p", "!"):
            self.i += 1
            return ("not", self.unary())
        if self.peek() == ("p", "&"):
            self.i += 1
            return ("and", self.unary())
        e = self.atom()
        while True:
            t = self.peek()
            if t == ("p", "*"):
                e = ("rep", e, 0, None)
            elif t == ("p", "+"):
                e = ("rep", e, 1, None)
            elif t == ("p", "?"):
                e = ("rep", e, 0, 1)
            elif t == ("p", "{"):
                self.i += 1
                lo = hi = None
                if self.peek()[0] == "n":
                    lo = int(self.take("n"))
                    hi = lo
                if self.peek() == ("p", ","):
                    self.i += 1
                    hi = int(self.take("n")) if self.peek()[0] == "n" else None
                if self.peek() != ("p", "}"):
                    raise Unsupported("grammar: repetition")
                e = ("rep", e, lo or 0, hi)
            else:
                return e
            self.i += 1

    def atom(self):
        k, v = self.peek()
        self.i += 1
        if k == "s":
            if v[0] == "^":
                return ("lit", unq(v[2:-1]), True)
            return ("lit", unq(v[1:-1]), False)
        if k == "ch":
            a, b = re.findall(r"'((?:[^'\\]|\\.))'", v)
            return ("set", frozenset(chr(c) for c in range(ord(unq(a)), ord(unq(b)) + 1)))
        if k == "id":
            return ("ref", v)
        if (k, v) == ("p", "("):
            e = self.alt()
            self.want(")")
            return e
        raise Unsupported("grammar: unexpected %s" % v)

    # ------------------------------------------------------------------ well-formedness
    def refs(self, e):
        if e[0] == "ref":
            yield e[1]
        elif e[0] in ("alt", "seq"):
            for x in e[1]:
                yield from self.refs(x)
        elif e[0] in ("rep", "not", "and"):
            yield from self.refs(e[1])

    def nullable(self, e, seen=()):
        k = e[0]
        if k == "lit":
            return e[1] == ""
        if k == "set":
            return False
        if k == "ref":
            if e[1] in BUILTIN:
                return e[1] in ("SOI", "EOI")
            if e[1] in seen:
                return True
            return self.nullable(self.rules[e[1]].expr, seen + (e[1],))
        if k == "alt":
            return any(self.nullable(x, seen) for x in e[1])
        if k == "seq":
            return all(self.nullable(x, seen) for x in e[1])
        if k == "rep":
            return e[2] == 0 or self.nullable(e[1], seen)
        return True

    def shortest(self, e):
        """length of the shortest text an expression matches (lookaheads ignored)"""
        k = e[0]
        if k == "lit":
            return len(e[1].encode())
        if k == "set":
            return 1
        if k == "ref":
            return 0 if e[1] in ("SOI", "EOI") else 1 if e[1] in BUILTIN else self.shortest(self.rules[e[1]].expr)
        if k == "alt":
            return min(self.shortest(x) for x in e[1])
        if k == "seq":
            return sum(self.shortest(x) for x in e[1])
        if k == "rep":
            return e[2] * self.shortest(e[1]) if e[2] else 0
        return 0

    def reps(self, e):
        if e[0] == "rep":
            yield e
        if e[0] in ("alt", "seq"):
            for x in e[1]:
                yield from self.reps(x)
        elif e[0] in ("rep", "not", "and"):
            yield from self.reps(e[1])

    def recursive(self):
        """rules that can reach themselves"""
        out = []
        for r in self.order:
            seen, todo = set(), list(self.refs(self.rules[r].expr))
            while todo:
                x = todo.pop()
                if x in seen or x not in self.rules:
                    continue
                seen.add(x)
                todo.extend(self.refs(self.rules[x].expr))
            if r in seen:
                out.append(r)
        return out

    # ------------------------------------------------------------------ shapes
    def emits(self, name, atomic):
        """whether calling the rule leaves a pair (inside an atomic rule only compound-atomic ones do)"""
        if name == "EOI":
            return not atomic
        if name in BUILTIN:
            return False
        k = self.rules[name].kind
        if k == "_":
            return False
        return k == "$" or not atomic

    def inner_atomic(self, name, atomic):
        k = self.rules[name].kind
        return True if k == "@" else False if k == "$" else atomic

    def shapes(self, name, atomic=False, most=2):
        """[(kind, payload)]: ("list", [rule,...]) exact sequences, or ("many", rule, least) a uniform list"""
        r = self.rules[name]
        at = self.inner_atomic(name, atomic)
        uni = self.uniform(r.expr, at)
        if uni is not None and uni[1]:
            return [("many", next(iter(uni[0])), uni[2])]
        return [("list", s) for s in sorted(self.seqs(r.expr, at, most))]

    def uniform(self, e, at):
        """(rules, unbounded?, least) when every pair produced is of one rule"""
        seqs0 = self.seqs(e, at, 0)
        kinds = {x for s in self.seqs(e, at, 2) for x in s}
        if len(kinds) != 1:
            return None
        lens2 = max(len(s) for s in self.seqs(e, at, 2))
        lens3 = max(len(s) for s in self.seqs(e, at, 3))
        return kinds, lens3 > lens2, min(len(s) for s in (seqs0 or self.seqs(e, at, 1)))

    def seqs(self, e, at, most):
        k = e[0]
        if k in ("lit", "set", "not", "and"):
            return {()}
        if k == "ref":
            if e[1] in BUILTIN and e[1] != "EOI":
                return {()}
            if self.emits(e[1], at):
                return {(e[1],)}
            return self.seqs(self.rules[e[1]].expr, self.inner_atomic(e[1], at), most)
        if k == "alt":
            return set().union(*(self.seqs(x, at, most) for x in e[1]))
        if k == "seq":
            out = {()}
            for x in e[1]:
                sub = self.seqs(x, at, most)
                out = {a + b for a in out for b in sub}
            return out
        if k == "rep":
            sub = self.seqs(e[1], at, most)
            hi = max(e[2], most) if e[3] is None else min(e[3], max(most, e[2])) if most else e[2]
            out, cur = set(), {()}
            for n in range(hi + 1):
                if n >= e[2]:
                    out |= cur
                cur = {a + b for a in cur for b in sub}
            return out
        raise Unsupported(k)


LOWER = frozenset("abcdefghijklmnopqrstuvwxyz")
UPPER = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
BUILTIN = {"ASCII_DIGIT": DIGIT, "ASCII_NONZERO_DIGIT": DIGIT - {"0"}, "ASCII_ALPHA_LOWER": LOWER, "ASCII_ALPHA_UPPER": UPPER,
           "ASCII_ALPHA": LOWER | UPPER, "ASCII_ALPHANUMERIC": LOWER | UPPER | DIGIT,
           "ASCII_HEX_DIGIT": DIGIT | frozenset("abcdefABCDEF"), "ASCII_BIN_DIGIT": frozenset("01"), "ASCII_OCT_DIGIT": frozenset("01234567"),
           "ANY": None, "SOI": None, "EOI": None, "NEWLINE": None}


class Node:
    __slots__ = ("rule", "a", "b", "kids")

    def __init__(self, rule, a, b, kids):
        self.rule, self.a, self.b, self.kids = rule, a, b, kids

    def __repr__(self):
        return "%s[%d:%d]%s" % (self.rule, self.a, self.b, "(%s)" % ", ".join(map(repr, self.kids)) if self.kids else "")


class Undecided(Exception):
    pass


class Match:
    """parses a family of texts: each position of `text` is a set of characters; a test that holds for some members of
    a set and not for others cannot be decided for the whole family and raises Undecided"""

    def __init__(self, G, text):
        self.G, self.t = G, text
        self.memo = {}
        self.far = 0

    def parse(self, rule):
        """the pair tree, or None when the family does not parse"""
        r = self.rule(rule, 0, False, False)
        return None if r is None else r[1]

    def test(self, i, s):
        if i >= len(self.t):
            return False
        self.far = max(self.far, i)
        x = self.t[i]
        if s is None or x <= s:
            return True
        if not (x & s):
            return False
        raise Undecided("position %d" % i)

    def rule(self, name, i, atomic, look):
        if name in BUILTIN:
            s = BUILTIN[name]
            if name == "SOI":
                return (i, []) if i == 0 else None
            if name == "EOI":
                if i != len(self.t):
                    return None
                return (i, [] if look or atomic else [Node("EOI", i, i, [])])
            if name == "NEWLINE":
                if self.test(i, frozenset("\n")):
                    return (i + 1, [])
                if self.test(i, frozenset("\r")):
                    return (i + 2 if self.test(i + 1, frozenset("\n")) else i + 1, [])
                return None
            return (i + 1, []) if self.test(i, s) else None
        key = (name, i, atomic, look)
        if key in self.memo:
            return self.memo[key]
        r = self.G.rules[name]
        at = self.G.inner_atomic(name, atomic)
        if r.kind in ("", "!") and not atomic and not self.compound:
            raise Unsupported("rule %s skips whitespace implicitly" % name)
        was = self.compound
        self.compound = self.compound or r.kind in ("$", "@")
        m = self.expr(r.expr, i, at, look)
        self.compound = was
        if m is not None and self.G.emits(name, atomic) and not look:
            m = (m[0], [Node(name, i, m[0], m[1])])
        self.memo[key] = m
        return m

    compound = False

    def expr(self, e, i, at, look):
        k = e[0]
        if k == "lit":
            for c in e[1]:
                s = frozenset((c.lower(), c.upper())) if e[2] else frozenset((c,))
                if not self.test(i, s):
                    return None
                i += 1
            return (i, [])
        if k == "set":
            return (i + 1, []) if self.test(i, e[1]) else None
        if k == "ref":
            return self.rule(e[1], i, at, look)
        if k == "alt":
            for x in e[1]:
                m = self.expr(x, i, at, look)
                if m is not None:
                    return m
            return None
        if k == "seq":
            out = []
            for x in e[1]:
                m = self.expr(x, i, at, look)
                if m is None:
                    return None
                i = m[0]
                out = out + m[1]
            return (i, out)
        if k == "rep":
            out, n = [], 0
            while e[3] is None or n < e[3]:
                m = self.expr(e[1], i, at, look)
                if m is None:
                    break
                if m[0] == i and e[3] is None:
                    raise Unsupported("repetition that consumes nothing")
                i = m[0]
                out = out + m[1]
                n += 1
            return (i, out) if n >= e[2] else None
        if k in ("not", "and"):
            m = self.expr(e[1], i, at, True)
            return (i, []) if (m is None) == (k == "not") else None
        raise Unsupported(k)


def family(parts):
    """a text from pieces: plain strings, or sets given as (characters, ...) tuples"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(frozenset((c,)) for c in p)
        else:
            out.append(frozenset(p))
    return out
