"""Whole-program call graph over the monomorphised instances, dynamic dispatch resolved through the vtables that exist."""
import re

# where a panic or an allocation failure begins: the program is already failing there, what follows is not rendering
PANIC = re.compile(r"^(core::panicking::|std::panicking::|std::rt::|alloc::alloc::handle_alloc_error|std::alloc::handle_alloc_error|std::process::abort|"
                   r"core::result::unwrap_failed|core::option::(unwrap|expect)_failed|core::slice::index::slice_|core::str::slice_error_fail|"
                   r"alloc::raw_vec::(handle_error|capacity_overflow)|std::raw_vec::(handle_error|capacity_overflow)|.*::panic_|core::panicking|std::panic::)|"
                   r"(::capacity_overflow|::handle_error|::rust_panic|begin_panic|::panic_display|::panic_fmt|::assert_failed)$")


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.by_trait = {}      # (trait, method index) -> set of target ids
        self.by_dyn = {}        # (dyn type, method index) -> set of target ids
        for (frm, to), (ms, dr) in P.vtables.items():
            tr = trait_name(P.tys[to])
            for i, m in enumerate(ms):
                if m is not None:
                    self.by_trait.setdefault((tr, i), set()).add(m)
                    self.by_dyn.setdefault((dyn_key(P.tys[to]), i), set()).add(m)
        self._e = {}

    def targets(self, f):
        """ids called from f, and descriptions of calls that could not be resolved"""
        r = self._e.get(f.id)
        if r is not None:
            return r
        unk = []
        if f.kind.startswith("virtual"):
            idx = int(f.kind.split(":")[1])
            tr = f.short.rsplit("::", 1)[0]
            a = f.d["args"]
            t = self.P.tys.get(a[0]) if a and isinstance(a[0], int) else None
            if t is not None and t.k == "dyn":
                out = set(self.by_dyn.get((dyn_key(t), idx), ()))
            else:
                out = set(self.by_trait.get((tr, idx), ()))
            if not out:
                unk.append("dyn " + f.short)
        else:
            e, u = f.edges()
            out = set(e)
            for x in u:
                unk.append(str(x)[:80])
        self._e[f.id] = (out, unk)
        return out, unk

    def reach(self, roots, cut=lambda f: False):
        """id -> parent id for everything reachable without passing through a cut function"""
        par = {r.id: None for r in roots}
        work = [r.id for r in roots]
        unk = {}
        while work:
            i = work.pop()
            f = self.P.fns.get(i)
            if f is None:
                continue
            if cut(f):
                continue
            out, u = self.targets(f)
            for x in u:
                unk.setdefault(x, f)
            for o in out:
                if o not in par:
                    par[o] = i
                    work.append(o)
        return par, unk

    def path(self, par, i):
        out = []
        while i is not None:
            out.append(self.P.fns[i].short if i in self.P.fns else str(i))
            i = par[i]
        out.reverse()
        return out


def is_panic(f):
    return PANIC.search(f.short) is not None


def trait_name(t):
    s = t.d.get("trait") or t.s
    s = s.replace("dyn ", "")
    m = re.sub(r"for<[^>]*> ", "", s)
    return re.split(r"[<( ]", m)[0]


def dyn_key(t):
    """a dyn type without its lifetimes and marker traits"""
    s = re.sub(r" \+ (std::marker::\w+|'\w+)", "", t.s)
    s = re.sub(r"for<[^>]*> ", "", s)
    return re.sub(r"'\w+ ?", "", s)
