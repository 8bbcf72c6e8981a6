"""Access to the facts the rustc driver extracted: items, types, MIR bodies with resolved callees.

Encoding (see analyzer/src/dump.rs): a place is [local, proj...], an operand is ["c"|"m", place] or
["k", const], a block is {"s": [stmt...], "t": terminator, "l": line, "c": is_cleanup}.
"""
import json
import os
import re
from functools import lru_cache


class Body:
    __slots__ = ("name", "args", "locals", "vars", "blocks", "facts", "_succ", "_live", "_pred", "_succu",
                 "_defs", "meta")

    def __init__(self, facts, meta, raw):
        self.facts = facts
        self.meta = meta
        self.name = meta["path"]
        self.args = raw["args"]
        self.locals = raw["locals"]
        self.vars = raw["vars"]
        self.blocks = raw["blocks"]
        self._succ = None
        self._live = None
        self._succu = None
        self._pred = None
        self._defs = None

    # ---- control flow -------------------------------------------------------------------
    @staticmethod
    def term_targets(t, unwind=False):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            r = [t[3]]
            if unwind and t[4] is not None:
                r.append(t[4])
            return r
        if k == "call":
            r = [] if t[2] is None else [t[2]]
            if unwind and t[3] is not None:
                r.append(t[3])
            return r
        if k == "assert":
            r = [t[5]]
            if unwind and t[6] is not None:
                r.append(t[6])
            return r
        return []

    @property
    def succ(self):
        """Normal (non-unwinding) successors."""
        if self._succ is None:
            self._succ = [self.term_targets(b["t"]) for b in self.blocks]
        return self._succ

    @property
    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ):
                for s in ss:
                    p[s].append(i)
            self._pred = p
        return self._pred

    def reachable(self, starts, avoid=(), edge_filter=None):
        """Blocks reachable over normal edges from the blocks `starts` without entering `avoid`."""
        seen = set()
        work = [s for s in starts if s not in avoid]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in self.succ[b]:
                if s not in seen and s not in avoid and (edge_filter is None or edge_filter(b, s)):
                    work.append(s)
        return seen

    def back_reachable(self, starts, avoid=()):
        seen = set()
        work = list(starts)
        while work:
            b = work.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            work.extend(self.pred[b])
        return seen

    @property
    def live(self):
        if self._live is None:
            self._live = frozenset(self.reachable([0]))
        return self._live

    def return_blocks(self):
        return [i for i in self.live if self.blocks[i]["t"][0] == "ret"]

    def sccs(self):
        """Strongly connected components (lists of blocks) of the normal CFG that contain a cycle."""
        return [c for c in tarjan(len(self.blocks), self.succ, self.live)
                if len(c) > 1 or c[0] in self.succ[c[0]]]

    # ---- statements ---------------------------------------------------------------------
    def calls(self):
        """(block, call dict) of every call terminator on normal paths."""
        for i, b in enumerate(self.blocks):
            if b["t"][0] == "call" and not b["c"]:
                yield i, b["t"][1]

    def assigns(self):
        """(block, index, place, rvalue, line)."""
        for i, b in enumerate(self.blocks):
            if b["c"]:
                continue
            for j, s in enumerate(b["s"]):
                if s[0] == "=":
                    yield i, j, s[1], s[2], s[3]

    def defs(self):
        """local -> list of (block, idx or None for a call, rvalue or call dict, place)."""
        if self._defs is None:
            d = {}
            for i, b in enumerate(self.blocks):
                for j, s in enumerate(b["s"]):
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append((i, j, s[2], s[1]))
                if b["t"][0] == "call":
                    c = b["t"][1]
                    d.setdefault(c["d"][0], []).append((i, None, c, c["d"]))
            self._defs = d
        return self._defs

    def ty(self, local):
        return self.facts.types[self.locals[local]]

    def tys(self, local):
        return self.ty(local)["s"]

    def var_name(self, local):
        for n, p in self.vars:
            if p == [local]:
                return n
        return None

    def line(self, block):
        return self.blocks[block]["l"]

    def where(self, block=None):
        l = self.meta["line"] if block is None else self.line(block)
        return f"{self.meta['file']}:{l}"


def tarjan(n, succ, nodes):
    index = {}
    low = {}
    onstack = set()
    stack = []
    out = []
    counter = 0
    for root in sorted(nodes):
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = counter
        counter += 1
        stack.append(root)
        onstack.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in nodes:
                    continue
                if w not in index:
                    index[w] = low[w] = counter
                    counter += 1
                    stack.append(w)
                    onstack.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in onstack:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    onstack.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


# ---- operands, places, rvalues --------------------------------------------------------------
def op_place(o):
    return o[1] if o[0] in ("c", "m") else None


def op_local(o):
    return o[1][0] if o[0] in ("c", "m") else None


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[4]
    return []


def rv_places(r):
    """Places the rvalue reads or borrows."""
    k = r[0]
    ps = [p for p in map(op_place, rv_operands(r)) if p is not None]
    if k == "ref":
        ps.append(r[2])
    elif k in ("rawptr", "disc"):
        ps.append(r[1])
    return ps


def is_call(rv):
    return isinstance(rv, dict)


def term_operands(t):
    if t[0] == "switch":
        return [t[1]]
    if t[0] == "call":
        c = t[1]
        return list(c["a"]) + ([c["fp"]] if "fp" in c else [])
    if t[0] == "assert":
        return [t[2]] + t[4]
    return []


class Facts:
    def __init__(self, prefix):
        self.prefix = prefix
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.statics = {}
        self.fns = {}
        self.types = []
        ended = False
        with open(prefix + ".index") as f:
            for line in f:
                r = json.loads(line)
                k = r["K"]
                if k == "fn":
                    self.fns[r["path"]] = r
                elif k == "adt":
                    self.adts[r["path"]] = r
                elif k == "trait":
                    self.traits[r["path"]] = r
                elif k == "impl":
                    self.impls.append(r)
                elif k == "static":
                    self.statics[r["path"]] = r
                elif k == "types":
                    self.types = r["rows"]
                elif k == "end":
                    ended = True
                    self.body_count = r["bodies"]
        if not ended:
            raise RuntimeError("truncated facts")
        self._f = open(prefix + ".bodies", "rb")
        self._cache = {}
        self._closures = None
        self._cg = None
        self._impl_of = None

    def body(self, path):
        b = self._cache.get(path)
        if b is None:
            m = self.fns[path]
            self._f.seek(m["off"])
            b = Body(self, m, json.loads(self._f.read(m["len"])))
            self._cache[path] = b
        return b

    def all_bodies(self, file_filter=None, kinds=("fn", "closure")):
        for p, m in self.fns.items():
            if m["kind"] in kinds and (file_filter is None or file_filter(m["file"])):
                yield self.body(p)

    def find(self, suffix, kind=None):
        """Functions whose path equals or ends with ::suffix."""
        return [p for p, m in self.fns.items()
                if (p == suffix or p.endswith("::" + suffix)) and (kind is None or m["kind"] == kind)]

    def closures_of(self, path):
        if self._closures is None:
            self._closures = {}
            for p, m in self.fns.items():
                if m["kind"] == "closure":
                    self._closures.setdefault(m["parent"], []).append(p)
        return self._closures.get(path, [])

    def root_fn(self, path):
        m = self.fns.get(path)
        while m and m["kind"] in ("closure", "promoted"):
            path = m["parent"]
            m = self.fns.get(path)
        return path

    def impl_methods_of(self, trait_method):
        """Local impl methods implementing the given trait method."""
        if self._impl_of is None:
            d = {}
            for i in self.impls:
                for m, t in i["methods"]:
                    if t:
                        d.setdefault(t, []).append(m)
            self._impl_of = d
        return self._impl_of.get(trait_method, [])

    def variant_by_disc(self, adt_path):
        a = self.adts.get(adt_path)
        if a is None:
            return {}
        return {v["disc"]: v["name"] for v in a["variants"]}

    # ---- call graph -------------------------------------------------------------------
    @property
    def callgraph(self):
        """path -> set of callee paths (local or external), over-approximating dynamic dispatch by
        every local impl of the trait method, and function/closure values by the place they are
        mentioned."""
        if self._cg is None:
            self._cg = {}
            drops = self._drop_impls()
            for p, m in self.fns.items():
                self._cg[p] = self._callees(self.body(p), drops)
        return self._cg

    def _drop_impls(self):
        d = {}
        for i in self.impls:
            if i["trait"] == "std::ops::Drop":
                d[self.types[i["self"]]["d"]] = [m for m, _ in i["methods"]]
        return d

    @lru_cache(maxsize=None)
    def type_adts(self, tid):
        """All ADT paths (local, transitively through fields) in a type."""
        seen = set()
        out = set()
        work = [tid]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            row = self.types[t]
            work.extend(row["a"])
            if row["k"] == "adt":
                out.add(row["d"])
                a = self.adts.get(row["d"])
                if a:
                    for v in a["variants"]:
                        for f in v["fields"]:
                            work.append(f[1])
        return frozenset(out)

    def _callees(self, body, drops):
        out = set()

        def mention(op):
            if op[0] == "k":
                c = op[1]
                if "fn" in c:
                    self._target(out, c["fn"], c.get("res"), c.get("decl"))
                elif "def" in c:
                    if "prom" in c:
                        out.add(f"{c['def']}::{{promoted#{c['prom']}}}")
                    else:
                        out.add(c["def"])
                elif "static" in c:
                    out.add(c["static"])

        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        mention(o)
                    if s[2][0] == "agg" and s[2][1] == "closure":
                        out.add(s[2][2])
                    if s[2][0] == "tls":
                        out.add(s[2][1])
            t = b["t"]
            for o in term_operands(t):
                mention(o)
            if t[0] == "call":
                c = t[1]
                if "f" in c:
                    self._target(out, c["f"], c["res"], c.get("decl"))
            elif t[0] == "drop":
                for a in self.type_adts(t[2]):
                    out.update(drops.get(a, ()))
        return out

    def _target(self, out, f, res, decl):
        out.add(f)
        if res in ("virtual", "unresolved"):
            for m in self.impl_methods_of(f):
                out.add(m)
            if decl and decl != f:
                for m in self.impl_methods_of(decl):
                    out.add(m)

    def reach(self, roots, stop=()):
        """Functions reachable in the call graph, with the predecessor of each."""
        cg = self.callgraph
        pred = {r: None for r in roots}
        work = list(roots)
        while work:
            f = work.pop()
            if f in stop:
                continue
            for g in cg.get(f, ()):
                if g not in pred:
                    pred[g] = f
                    work.append(g)
        return pred

    @staticmethod
    def chain(pred, f):
        out = [f]
        while pred.get(f) is not None:
            f = pred[f]
            out.append(f)
        return list(reversed(out))
