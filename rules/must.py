"""Calls that must have succeeded whenever a body succeeds.

A goal names calls (with the canonical terms of their arguments). `Must(F, goal).holds(fr, start)` is true when every
path from `start` to a successful return passes a goal call whose result, if it is a Result, was found to be Ok or is
itself returned. Local helpers, closures given to iterator consumers and loops are followed: a goal about the elements
of a list is met where the list is exhausted, if every iteration meets it."""
from facts import *
from canon import Frame, last, elem, alternatives
from p_p06 import ok_edges_of
import arms

EACH = {"for_each", "try_for_each", "all", "any", "fold", "try_fold"}


_index = {}


def call_index(F):
    if id(F) not in _index:
        back = {}
        for b in F.all_bodies():
            owner = F.root_fn(b.name)
            for i, c in b.calls():
                back.setdefault(c.get("f", "?"), set()).add(owner)
        _index[id(F)] = (F, back)
    return _index[id(F)][1]


class Must:
    def __init__(self, F, goal, decided=None, depth=3, targets=None):
        self.F = F
        self.near = self.callers_of(targets, depth) if targets is not None else None
        self.helped = {}
        self.goal = goal
        self.decided = decided      # the answer of a predicate that ends the search
        self.depth = depth
        self.active = set()
        self.memo = {}

    def failing(self, b):
        out = set()
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[3] == "Err" and rv[2].endswith("Result"):
                out.add(i)
            if self.decided is not None and p == [0] and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == self.decided:
                out.add(i)
        for i, c in b.calls():
            if last(c.get("f", "?")) == "from_residual":
                out.add(i)
        return out

    def returned(self, b, i):
        """The result of the call at i is the result of the body (errors mapped or not)."""
        flows = {b.blocks[i]["t"][1]["d"][0]}
        ch = True
        while ch and 0 not in flows:
            ch = False
            for j, k, p, rv, l in b.assigns():
                if rv[0] == "use" and op_local(rv[1]) in flows and op_place(rv[1]) and len(op_place(rv[1])) == 1 and len(p) == 1 \
                        and p[0] not in flows:
                    flows.add(p[0])
                    ch = True
            for j, c in b.calls():
                if last(c.get("f", "?")) in ("map_err", "map") and op_local(c["a"][0]) in flows and c["d"][0] not in flows:
                    flows.add(c["d"][0])
                    ch = True
        return 0 in flows

    def true_edges(self, b, i, want):
        """Edges on which the boolean result of the call at i is `want`."""
        from common import bool_edges, negations
        d = b.blocks[i]["t"][1]["d"]

        def cond(op, blk):
            return negations(b, op, lambda p, rv: rv is not None and is_call(rv) and rv.get("d") == d and rv is b.blocks[i]["t"][1])
        return bool_edges(b, cond, want)

    def cover(self, fr):
        b = fr.b
        key = id(fr)
        if key in self.memo:
            return self.memo[key][1:]
        sites = []
        edges = set()
        blocks = set()
        lists = []
        for i, c in b.calls():
            if i not in b.live:
                continue
            f = c.get("f", "?")
            if self.goal(fr, i, c) or self.helper(fr, c):
                sites.append(i)
                continue
            n = last(f)
            if n in ("next", "next_back") and c["a"] and f not in self.F.fns:
                lists.append(i)
            elif n in EACH and f not in self.F.fns:
                cl = self.closure(fr, c)
                if cl and self.consumer(fr, i, c, cl, n, blocks, edges):
                    sites.append(i)
        for i in sites:
            s = b.tys(b.blocks[i]["t"][1]["d"][0])
            if self.decided is not None and s == "bool":
                if self.returned(b, i):
                    blocks.add(i)
                else:
                    edges |= self.answered(b, i)
            elif not s.startswith("core::result::Result<"):
                blocks.add(i)
            elif self.returned(b, i):
                blocks.add(i)
            else:
                edges |= ok_edges_of(self.F, b, [i])
        fail = self.failing(b)
        # innermost loops first
        todo = list(lists)
        progress = True
        while progress:
            progress = False
            for i in list(todo):
                e = self.loop(fr, i, blocks, edges, fail)
                if e:
                    edges |= e
                    todo.remove(i)
                    progress = True
        self.memo[key] = (fr, blocks, edges)
        return blocks, edges

    def answered(self, b, i):
        """The other answer of the predicate call at i, if the decided one ends this predicate too."""
        yes = self.true_edges(b, i, self.decided == "1")
        no = self.true_edges(b, i, self.decided != "1")
        fail = self.failing(b)
        for x, y in yes:
            seen = {y} | b.reachable([y], avoid=tuple(fail)) if y not in fail else set()
            if any(r in seen for r in b.return_blocks()):
                return set()
        return no

    def closure(self, fr, c):
        for o in c["a"][1:]:
            for y in alternatives(fr.op(o)):
                if y[0] == "clo" and y[1] in self.F.fns:
                    return y
        return None

    def consumer(self, fr, i, c, y, n, blocks, edges):
        cb = self.F.body(y[1])
        item = elem(fr.op(c["a"][0]))
        args = {k: item for k in range(2, cb.args + 1)}
        if n in ("fold", "try_fold"):
            args = {3: item}
        sub = Frame(self.F, cb, args, y[2])
        dec = self.decided
        if n in ("any", "all") and dec is None:
            return False
        if n == "any" and dec == "0" or n == "all" and dec == "1":
            return False
        return self.holds(sub)

    def helper(self, fr, c):
        f = c.get("f", "?")
        if f not in self.F.fns or self.depth <= 0:
            return False
        args = tuple(fr.op(o) for o in c["a"])
        if (f, args) in self.active or f == fr.b.name or self.near is not None and f not in self.near:
            return False
        if (f, args) in self.helped:
            return self.helped[f, args]
        cb = self.F.body(f)
        if len(cb.blocks) > 150:
            return False
        self.active.add((f, args))
        self.depth -= 1
        r = self.holds(Frame(self.F, cb, {n + 1: a for n, a in enumerate(args)}))
        self.depth += 1
        self.active.discard((f, args))
        self.helped[f, args] = r
        return r

    def callers_of(self, targets, depth):
        """Functions from which a target is called within the given number of helpers."""
        back = call_index(self.F)
        near = set(targets)
        front = set(targets)
        for _ in range(depth + 1):
            front = {g for f in front for g in back.get(f, ())} - near
            near |= front
        return near

    def some_none(self, b, head):
        """The edges taken when `next` at head gave an element, and when it gave none."""
        d = b.blocks[head]["t"][1]["d"][0]
        some, none = set(), set()
        for i in b.live:
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            l = op_local(t[1])
            for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
                if not is_call(rv) and rv[0] == "disc" and rv[1] == [d]:
                    tg = dict(t[2])
                    if "1" in tg or t[3] is not None:
                        some.add((i, tg.get("1", t[3])))
                        none.add((i, tg.get("0", t[3])))
        return some, none

    def loop(self, fr, head, blocks, edges, fail):
        b = fr.b
        if head not in b.reachable([b.blocks[head]["t"][2]]):
            return set()
        some, none = self.some_none(b, head)
        starts = [y for x, y in some]
        if not starts:
            return set()
        block = blocks | fail
        for s in starts:
            if s in block:
                continue
            seen = {s} | b.reachable([s], avoid=tuple(block), edge_filter=lambda x, y: (x, y) not in edges)
            if head in seen or any(r in seen for r in b.return_blocks()):
                return set()
        # leaving the loop early without an error skips elements
        inner = {s for s in starts}
        seen = inner | b.reachable(list(inner), avoid=tuple(fail | {head}))
        if any(r in seen for r in b.return_blocks()):
            return set()
        return none

    def holds(self, fr, start=0, stop=(), dead=frozenset()):
        b = fr.b
        blocks, edges = self.cover(fr)
        fail = self.failing(b)
        avoid = blocks | fail | set(stop)
        if start in blocks or start in fail:
            return True
        if not blocks and not edges:
            return False
        out = edges | set(dead)
        seen = {start} | b.reachable([start], avoid=tuple(avoid), edge_filter=lambda x, y: (x, y) not in out)
        return not any(r in seen for r in b.return_blocks())
