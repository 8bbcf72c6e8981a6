"""What a function does with the operands of an operation of a given kind.

`Kinds(F, kind, want, cfg)` fixes the kind of the operation under analysis (branches on other kinds cannot be taken) and one of
its operands, and decides two questions on MIR, across helpers, closures and loops:
  `done(fr)`: on every path to a return, the operand reached one of the sinks, or a test found that it names nothing tracked;
  `Imp`'s bool/some/ok: which answers are impossible for that kind.
Operand positions are numbers, "last", "all" (each operand), "args" (arguments lent mutably), "owned" (arguments passed by
ownership) and "result" (the place a call writes)."""
from facts import *
from canon import Frame, last, elem, alternatives, phi
from imply import Imp

OPK = "mir::operation::OperationKind"
CALLS = ("call_operands", "call_operands_for_cse")


class KFrame(Frame):
    """Keeps constant indices, and reads promoted constants."""

    def project(self, t, projs, l=None):
        var = None
        for e in projs:
            if e == "*":
                continue
            if e.startswith("as "):
                var = e[3:]
                continue
            if e.startswith("."):
                name, owner = e[1:].split(":", 1)
                if owner.startswith(("alloc::boxed::Box", "core::ptr::", "alloc::rc::Rc", "alloc::sync::Arc", "core::pin::Pin")):
                    continue
                t = self.field(t, (var + "." if var else "") + name)
                var = None
                continue
            if e.startswith("[_") and e[2:-1].isdigit():
                ix = self.local(int(e[2:-1]))
                t = ("at", t, int(ix[1])) if ix[0] == "k" and str(ix[1]).isdigit() else ("e", t)
            elif e.startswith("[") and e.strip("[]-").isdigit():
                n = e.strip("[]")
                t = ("last", t) if n == "-1" else ("at", t, int(n))
            else:
                t = ("part", e, t)
        return t

    def field(self, t, name):
        if t[0] == "call" and last(t[1]) == "split_last":
            return ("splitlast", t[2]) if name == "Some.0" else t
        if t[0] == "splitlast":
            return ("last", t[1]) if name == "0" else ("init", t[1])
        if t[0] == "call" and last(t[1]) == "get" and len(t) == 4 and name == "Some.0":
            return ("at", t[2], int(t[3][1])) if t[3][0] == "k" and str(t[3][1]).isdigit() else ("e", t[2], t[3])
        return super().field(t, name)

    def op(self, op):
        if op[0] == "k" and "prom" in op[1]:
            pb = self.F.body(f"{op[1]['def']}::{{promoted#{op[1]['prom']}}}")
            if pb is not None:
                return Frame(self.F, pb).local(0)
        return super().op(op)

    def call(self, c):
        f = c.get("f", "?")
        n = last(f)
        if f not in self.F.fns:
            a = [self.op(x) for x in c["a"]]
            if n in ("first", "last") and a:
                return ("opt", ("at", a[0], 0) if n == "first" else ("last", a[0]))
            if n == "get" and len(a) == 2:
                ix = a[1]
                return ("opt", ("at", a[0], int(ix[1])) if ix[0] == "k" and str(ix[1]).isdigit() else ("e", a[0], ix))
            if n == "split_last" and a:
                return ("opt", ("splitlast", a[0]))
            if n == "for_each" and a:
                return ("call", f) + tuple(a)
            if n in ("index", "index_mut") and len(a) == 2 and a[1][0] == "k":
                return ("at", a[0], int(a[1][1])) if str(a[1][1]).isdigit() else ("e", a[0])
            if n in ("unwrap", "expect") and a and a[0][0] == "opt":
                return a[0][1]
        elif "{closure" in n:
            cb = self.F.body(f)
            a = {k + 1: t for k, t in enumerate(spread(c, [self.op(x) for x in c["a"]]))}
            caps = a.pop(1)[2] if a[1][0] == "clo" else None
            if len(cb.blocks) <= 30 and f not in KFrame.nest:
                KFrame.nest.append(f)
                t = KFrame(self.F, cb, a, caps).local(0)
                KFrame.nest.pop()
                if not any(x[0] in ("local", "loop", "phi") for x in subs(t)):
                    return t
        return super().call(c)


KFrame.nest = []


def spread(c, a):
    """The arguments of a direct call of a closure are given as a tuple."""
    if "{closure" in last(c.get("f", "?")) and len(a) == 2 and a[1][0] == "tup":
        return [a[0]] + list(a[1][1:])
    return a


def subs(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t[1:] if t and isinstance(t[0], str) else t:
            yield from subs(x)


def filters(t):
    return t[0] == "call" and last(t[1]) == "filter" and len(t) == 4


def strip(t):
    while filters(t):
        t = t[2]
    return t


def is_operands(t):
    return all(x[0] == "f" and x[2] == "operands" for x in alternatives(t))


def call_part(t, name):
    """`t` is a part of the operands of a call."""
    return all(x[0] == "f" and x[2] == name and any(y[0] == "call" and last(y[1]) in CALLS for y in subs(x[1]) if y and y[0] == "call")
               for x in alternatives(t))


class Kinds(Imp):
    def __init__(self, F, kind, want=None, sinks=(), none=(), true=(), false=(), values=("Register",), variants=(), atoms=None, result=(), depth=5, size=400):
        super().__init__(F, self.test, depth, size)
        self.kind = kind
        self.want = want
        self.sinks = set(sinks)
        self.none_of = set(none)      # None of these, called on the operand, means that it names nothing tracked
        self.true_of = set(true)      # the same for these being true
        self.false_of = set(false)
        self.values = set(values)     # the kinds of values that can name storage
        self.skip = set(variants)     # variants on which nothing needs to be done
        self.extra = atoms
        self.results = set(result)    # functions that return the result slot
        self.names = set(F.variant_by_disc(OPK).values())
        self.dones = {}
        self.open = set()
        self.last_of = {"Store": 1, "Memcpy": 1, "Clone": 2, "Drop": 1, "Clear": 0}

    def frame(self, b, args=None, caps=None):
        return KFrame(self.F, b, args, caps)

    # -- the operand -----------------------------------------------------------------------------
    def covers(self, t):
        """`t` is the operand of interest, or stands for each operand of a list that contains it."""
        w = self.want
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] == "phi":
            return all(self.covers(x) for x in t[1])
        if t[0] == "at" and is_operands(t[1]):
            return t[2] == w
        if t[0] == "last" and is_operands(t[1]):
            return w in ("last", "result")
        if t[0] == "e" and len(t) == 2:
            return self.ranges(strip(t[1]))
        if t[0] == "e" and len(t) == 3 and is_operands(t[1]):
            return w in ("last", "result") and t[2][0] == "bin"
        if t[0] == "opt":
            return self.covers(t[1])
        if t[0] == "call" and last(t[1]) in self.results:
            return w == "result"
        if t[0] == "f" and t[2] == "result" and call_part(t, "result"):
            return w == "result"
        if t[0] == "f" and t[2] == "0" and t[1][0] == "e" and call_part(strip(t[1][1]), "arguments"):
            return w in ("args", "owned") if len(t[1]) == 2 else \
                w == "owned" and any(y[0] == "f" and y[2] == "owned_arguments" for y in subs(t[1][2]))
        return False

    def ranges(self, t):
        """Iterating over t visits the operand."""
        w = self.want
        if is_operands(t):
            return w is not None
        if t[0] == "init":
            return isinstance(w, int) and is_operands(t[1])
        if t[0] == "call" and last(t[1]) == "skip" and is_operands(t[2]) and t[3][0] == "k":
            return w in ("last", "result") or isinstance(w, int) and int(t[3][1]) <= w
        if t[0] == "call" and last(t[1]) == "take" and is_operands(t[2]) and t[3][0] == "k":
            return isinstance(w, int) and int(t[3][1]) > w
        return False

    def about(self, t):
        return any(self.covers(x) for x in subs(t))

    def lists(self, t):
        """The iterator term runs over a list that holds the operand."""
        while filters(t):
            # what is filtered out needs nothing
            if t[3][0] != "clo" or not self.sub(None, self.F.body(t[3][1]), {2: elem(t[2])}, t[3][2], "bool", False):
                return False
            t = t[2]
        return self.ranges(t) or self.want in ("args", "owned") and call_part(t, "arguments") or \
            self.want == "owned" and any(y[0] == "f" and y[2] == "owned_arguments" for y in subs(t))

    # -- what implies the goal -------------------------------------------------------------------
    def test(self, fr, kind, x):
        if self.extra is not None:
            r = self.extra(self, fr, kind, x)
            if r is not None:
                return r
        if kind == "variant":
            t, name = x
            if name in self.names and all(y[0] == "f" and y[2] == "kind" or y[0] == "arg" or y[0] == "local" for y in alternatives(t)):
                return name != self.kind
            if name in self.skip:
                return True
            if name == "None":
                for y in alternatives(t):
                    if y[0] == "call" and last(y[1]) in self.none_of and (self.about(y) or last(y[1]) in CALLS):
                        continue
                    if y[0] == "opt" and (y[1][0] == "e" and len(y[1]) == 3 and self.covers(("f", y[1], "0")) or
                                        y[1][0] != "e" and self.covers(y[1]) or y[1][0] == "splitlast"):
                        continue
                    if self.want == "owned" and y[0] == "f" and y[2].endswith("metadata"):
                        continue
                    return None
                return True
            if name == "Let" and self.want == "args":
                return True
            if self.want is not None and self.covers(t) and name in ("Register", "Parameter", "Function", "Constant", "Dictionary", "Subscript", "Pattern"):
                return name not in self.values
            return None
        if kind == "call":
            n = last(x.get("f", "?"))
            if n in self.true_of or n in self.false_of:
                if any(self.about(fr.op(a)) for a in x["a"]) or not x["a"]:
                    return n in self.true_of
            if n in ("eq", "ne") and self.want == "args":
                ts = [fr.op(a) for a in x["a"]]
                if any(t[0] == "agg" and t[2] in ("MutableRef", "Let") for t in ts) and any(t[0] == "f" and t[2] == "1" for t in ts):
                    v = next(t[2] for t in ts if t[0] == "agg")
                    return (n == "eq") == (v == "Let")
            return None
        return None

    # -- calls -----------------------------------------------------------------------------------
    def inline(self, fr, c, kind, want=True):
        f = c.get("f", "?")
        if f in self.F.fns and "{closure" in last(f):
            got = self.args_of(fr, c)
            cb = self.F.body(f)
            return self.sub(fr, cb, got, None, kind, want)
        return super().inline(fr, c, kind, want)

    def args_of(self, fr, c):
        return {n + 1: t for n, t in enumerate(spread(c, [fr.op(o) for o in c["a"]]))}

    def sub(self, fr, cb, args, caps, kind, want):
        if self.depth <= 0 or len(cb.blocks) > self.size:
            return False
        key = (cb.name, tuple(sorted(args.items())) if args else (), caps, kind, want)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return False
        self.busy.add(key)
        self.depth -= 1
        r = self.answer(self.frame(cb, args, caps), kind, want)
        self.depth += 1
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def rv_bool(self, fr, rv, want):
        if is_call(rv) and rv.get("f") not in self.F.fns and len(rv["a"]) == 2:
            n = last(rv.get("f", "?"))
            # a list without such an element needs nothing
            if (n == "any" and not want or n == "all" and want) and self.lists(fr.op(rv["a"][0])):
                return self.inner(fr, rv, 1, [elem(fr.op(rv["a"][0]))], "bool", want)
        if is_call(rv) and last(rv.get("f", "?")) in ("is_none", "is_some") and rv.get("f") not in self.F.fns:
            if (last(rv["f"]) == "is_none") == want and self.test(fr, "variant", (fr.op(rv["a"][0]), "None")):
                return True
        return super().rv_bool(fr, rv, want)

    def edges_once(self, fr):
        """The end of a loop over a list, when no round of it comes back without the goal."""
        out = super().edges_once(fr)
        for i, c in fr.b.calls():
            if i not in fr.b.live or last(c.get("f", "?")) not in ("next", "next_back") or not c["a"] or not self.lists(fr.op(c["a"][0])):
                continue
            some, none = self.some_none(fr.b, i)
            dead = out | self.partial.get((id(fr), "edges"), set())
            starts = [y for x, y in some if (x, y) not in dead]
            if some and i not in set(starts) | fr.b.reachable(starts, edge_filter=lambda x, y: (x, y) not in dead):
                out |= none
        return out

    def defs(self, fr, l, test, key):
        if super().defs(fr, l, test, key):
            return True
        mk = (id(fr), l, "flow") + key
        if mk in self.memo or mk in self.busy or key[0] != "bool":
            return self.memo.get(mk, False)
        self.busy.add(mk)
        r = self.flow(fr, l, test, key[1])
        self.busy.discard(mk)
        self.memo[mk] = r
        return r

    def flow(self, fr, l, test, want):
        """A boolean that is accumulated, or set on some paths."""
        b = fr.b
        ds = [(i, rv) for i, j, rv, p in b.defs().get(l, []) if len(p) == 1 and i in b.live]
        if len(ds) < 2:
            return False
        edges = self.edges(fr)
        acc = {i: [o for o in rv[2:4] if op_local(o) != l] for i, rv in ds
               if not is_call(rv) and rv[0] == "bin" and rv[1] == ("BitAnd" if want else "BitOr") and any(op_local(o) == l for o in rv[2:4])}
        if acc and len(acc) == len(ds) - 1:
            good = {i for i, rv in ds if (any(self.bool(fr, o, want) for o in acc[i]) if i in acc else test(rv))}
            return all(self.leak(fr, good, set(edges), i) is None for i, _ in ds if i not in acc)
        for i, rv in ds:
            if test(rv):
                continue
            others = tuple(j for j, _ in ds if j != i)
            if any(r in b.reachable([i], avoid=others, edge_filter=lambda x, y: (x, y) not in edges) for r in b.return_blocks()):
                return False
        return True

    # -- doing -----------------------------------------------------------------------------------
    def does(self, fr, i, c):
        """The call at i deals with the operand."""
        f = c.get("f", "?")
        n = last(f)
        if f not in self.F.fns or n in self.sinks:
            if n in self.sinks and (self.about(("x",) + tuple(fr.op(o) for o in c["a"])) or n == "clear"):
                return True
            if n == "for_each" and len(c["a"]) == 2 and self.lists(fr.op(c["a"][0])):
                return all(self.done_in(t, [elem(fr.op(c["a"][0]))]) for t in alternatives(fr.op(c["a"][1])))
        if f in self.F.fns:
            args = self.args_of(fr, c)
            if not any(self.about(t) or any(y[0] == "f" and y[2] in ("kind", "operands") or y[0] == "arg" for y in subs(t)) for t in args.values()):
                return False
            return self.done_at(self.F.body(f), args, None)
        if n in ("call", "call_mut", "call_once") and len(c["a"]) == 2:
            tup = fr.op(c["a"][1])
            args = list(tup[1:]) if tup[0] == "tup" else []
            return any(self.done_in(t, args) for t in alternatives(fr.op(c["a"][0])))
        return False

    def done_in(self, t, args):
        if t[0] == "clo" and t[1] in self.F.fns:
            return self.done_at(self.F.body(t[1]), {k + 2: a for k, a in enumerate(args)}, t[2])
        if t[0] == "k" and t[1] in self.F.fns:
            return self.done_at(self.F.body(t[1]), {k + 1: a for k, a in enumerate(args)}, None)
        return False

    def done_at(self, cb, args, caps):
        key = (cb.name, tuple(sorted(args.items())), caps)
        if key in self.dones:
            return self.dones[key]
        if key in self.open or self.depth <= 0 or len(cb.blocks) > self.size:
            return False
        self.open.add(key)
        self.depth -= 1
        r = self.done(self.frame(cb, args, caps)) is None
        self.depth += 1
        self.open.discard(key)
        self.dones[key] = r
        return r

    def done(self, fr, start=0, stop=()):
        """None if every path from start to a return (or to a block of `stop`) deals with the operand; else the block reached."""
        b = fr.b
        self.hold.append(fr)
        edges = set(self.edges(fr))
        good = {i for i, c in b.calls() if i in b.live and self.does(fr, i, c)}
        return self.leak(fr, good, edges, start, stop)

    def leak(self, fr, good, edges, start=0, stop=()):
        """A return that a path reaches without passing a good block; loops over the list count for their rounds."""
        b = fr.b
        heads = []
        for i, c in b.calls():
            if i in b.live and last(c.get("f", "?")) in ("next", "next_back") and c["a"] and \
                    (c.get("f") not in self.F.fns or "Iterator>::next" in c["f"]):
                if self.lists(fr.op(c["a"][0])):
                    heads.append(i)
        progress = True
        while progress:
            progress = False
            for h in list(heads):
                some, none = self.some_none(b, h)
                starts = [y for x, y in some if y not in good and (x, y) not in edges]
                seen = set(starts) | b.reachable(starts, avoid=tuple(good), edge_filter=lambda x, y: (x, y) not in edges) if starts else set()
                if some and h not in seen and not any(r in seen for r in b.return_blocks()):
                    edges |= none
                    heads.remove(h)
                    progress = True
        if start in good:
            return None
        seen = {start} | b.reachable([start], avoid=tuple(good), edge_filter=lambda x, y: (x, y) not in edges)
        for r in list(b.return_blocks()) + list(stop):
            if r in seen and r != start:
                return r
        if start in b.return_blocks():
            return start
        return None

    @staticmethod
    def some_none(b, head):
        d = b.blocks[head]["t"][1]["d"][0]
        some, none = set(), set()
        for i in b.live:
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            l = op_local(t[1])
            for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
                if not is_call(rv) and rv[0] == "disc" and rv[1] == [d]:
                    tg = dict(t[2])
                    some.add((i, tg.get("1", t[3])))
                    none.add((i, tg.get("0", t[3])))
        return some, none
