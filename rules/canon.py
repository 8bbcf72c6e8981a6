"""Canonical terms for MIR places: which part of which input does a local hold?

A term is a tuple: ("arg", n), ("f", base, name) a field, ("e", base) an element of a sequence, ("len", base),
("tup", ...), ("call", function, args...), ("phi", alternatives), ("k", value). References, clones, boxes and iterator
constructions over a sequence are transparent: an iterator is its sequence and `zip` yields pairs of elements."""
from facts import *

IDENT = {"iter", "into_iter", "iter_mut", "as_ref", "deref", "deref_mut", "clone", "cloned", "copied", "as_slice", "borrow", "to_owned",
         "to_vec", "by_ref", "as_deref", "as_mut", "into", "from", "into_vec", "into_boxed_slice", "as_mut_slice", "collect",
         "unwrap", "expect", "peekable", "fuse", "borrow_mut", "new_box", "as_mut_ptr", "as_ptr", "must_use"}
OWNERS = ("alloc::boxed::Box", "core::ptr::", "alloc::rc::Rc", "alloc::sync::Arc", "core::pin::Pin")


class Canon:
    def __init__(self, F):
        self.F = F

    def frame(self, b, args=None, captures=None):
        return Frame(self.F, b, args, captures)


def last(f):
    f = f.split("::<")[0] if f.endswith(">") else f
    return f.rsplit("::", 1)[-1]


class Frame:
    """One body with terms for its arguments."""

    def __init__(self, F, b, args=None, captures=None):
        self.F = F
        self.b = b
        self.args = args or {}
        self.captures = captures
        self.memo = {}
        self.busy = set()

    def op(self, op):
        if op[0] == "k":
            return ("k", str(op[1].get("v", op[1].get("s", op[1].get("fn", "?")))))
        return self.place(op_place(op))

    def place(self, p):
        t = self.local(p[0])
        return self.project(t, p[1:], p[0])

    def project(self, t, projs, l=None):
        var = None
        for e in projs:
            if e == "*":
                continue
            if e.startswith("as "):
                var = e[3:]
                continue
            if e.startswith("."):
                name, owner = e[1:].split(":", 1)
                if owner.startswith(OWNERS):
                    continue
                t = self.field(t, (var + "." if var else "") + name)
                var = None
                continue
            if e.startswith("[_") and e[2:-1].isdigit() and whole(self.local(int(e[2:-1]))):
                t = ("e", t)
            else:
                t = ("part", e, t)
        return t

    def field(self, t, name):
        if t[0] == "tup" and name.isdigit() and int(name) < len(t) - 1:
            return t[1 + int(name)]
        if t[0] == "opt" and name == "Some.0":
            return t[1]
        if t[0] == "phi":
            return phi([self.field(x, name) for x in t[1]])
        if t[0] == "e" and t[1][0] in ("zip", "enum") :
            return self.field(elem(t[1]), name)
        if t[0] == "clo" and name.isdigit() and int(name) < len(t[2]):
            return t[2][int(name)]
        if t[0] == "cf" and name.endswith(".0"):
            return ("f", t[1], name)
        return ("f", t, name)

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        if 1 <= l <= self.b.args:
            if l == 1 and self.captures is not None:
                r = ("clo", self.b.name, self.captures)
            else:
                r = self.args.get(l, ("arg", l))
            self.memo[l] = r
            return r
        if l in self.busy:
            return ("loop", l)
        self.busy.add(l)
        alts = []
        for i, j, rv, p in self.b.defs().get(l, []):
            if len(p) > 1 or i not in self.b.live:
                continue
            alts.append(self.rvalue(rv, l))
        r = phi(alts) if alts else ("local", l)
        self.busy.discard(l)
        if not self.busy:
            self.memo[l] = r
        return r

    def rvalue(self, rv, l):
        if is_call(rv):
            return self.call(rv)
        k = rv[0]
        if k == "use":
            return self.op(rv[1])
        if k == "cast":
            return self.op(rv[2])
        if k in ("ref",):
            return self.place(rv[2])
        if k == "rawptr":
            return self.place(rv[1])
        if k == "agg":
            ops = [self.op(o) for o in rv[4]]
            if rv[1] == "tuple":
                return ("tup",) + tuple(ops)
            if rv[1] == "closure":
                return ("clo", rv[2], tuple(ops))
            if rv[3] == "Some":
                return ("opt", ops[0])
            if rv[2].endswith("ops::range::Range"):
                return ("range",) + tuple(ops)
            return ("agg", rv[2], rv[3]) + tuple(ops)
        if k == "len":
            return ("len", self.place(rv[1]))
        if k == "bin":
            return ("bin", rv[1], self.op(rv[2]), self.op(rv[3]))
        if k == "un":
            if rv[1] == "PtrMetadata":
                return ("len", self.op(rv[2]))
            return ("un", rv[1], self.op(rv[2]))
        return (k, l)

    def call(self, c):
        f = c.get("f", "?")
        n = last(f)
        a = [self.op(x) for x in c["a"]]
        local = f in self.F.fns
        if n in ("len", "count") and len(a) == 1:
            return ("len", a[0])
        if n == "zip" and len(a) == 2:
            return ("zip", a[0], a[1])
        if n == "chain" and len(a) == 2 and not local:
            return ("chain", a[0], a[1])
        if n == "enumerate" and a:
            return ("enum", a[0])
        if n in ("next", "next_back") and a:
            return ("opt", elem(a[0]))
        if n in ("first", "last") and a and not local:
            return ("opt", ("call", n, a[0]))
        if n == "branch" and a:
            return ("cf", a[0])
        if n in ("index", "index_mut", "get_unchecked") and len(a) == 2 and not local:
            return ("e", a[0]) if whole(a[1]) else ("call", f) + tuple(a)
        if n in IDENT and a and (not local or len(a) == 1):
            return a[0]
        if n == "new" and f.startswith(OWNERS) and a:
            return a[0]
        return ("call", f) + tuple(a)


def whole(t):
    """An index that runs over a whole list (not a constant, not a part of a range)."""
    if t[0] == "k":
        return False
    if t[0] == "e" and t[1][0] == "range":
        return t[1][1] == ("k", "0") and (t[1][2][0] in ("len", "local", "arg", "phi"))
    return True


def elem(t):
    if t[0] == "zip":
        return ("tup", elem(t[1]), elem(t[2]))
    if t[0] == "enum":
        return ("tup", ("k", "index"), elem(t[1]))
    if t[0] == "phi":
        return phi([elem(x) for x in t[1]])
    if t[0] == "chain":
        return phi([elem(t[1]), elem(t[2])])
    return ("e", t)


def phi(alts):
    out = []
    for a in alts:
        for x in (a[1] if a[0] == "phi" else [a]):
            if x not in out:
                out.append(x)
    return out[0] if len(out) == 1 else ("phi", tuple(out))


def alternatives(t):
    return t[1] if t[0] == "phi" else (t,)
