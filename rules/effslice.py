"""Which evaluated expressions a HIR node contains and which ones its effect set was computed from.

Everything is a backward slice inside one body, over locals that carry nodes (arena indices, node kinds and
structures holding them) or effect sets. A slice ends in evaluations (a call that produces a node or an effect set
from something that is neither), in parameters, and in the effect fields of callable types."""
import re
from facts import *
from common import bool_edges, negations

NODE = ("la_arena::Idx<hir::Node>", "hir::NodeKind", "la_arena::Idx<hir::Node<", "hir::NodeKind<")
EFF = ("types::effects::EffType",)
GENERIC_NODE = ("impl IntoIterator<Item = NodeId>", "impl IntoIterator<Item = UNodeId>", "impl Into<Vec<NodeId>>",
                "impl IntoSVec2<NodeId>", "impl IntoSVec2<NodeId<P>>", "IntoIterator<Item = (NodeId, Type)>")
OPAQUE = ("types::r#type::FnType", "types::r#type::Type", "types::r#type::SubscriptType",
          "types::r#type::SubscriptMemberType")


class Carry:
    """Classifies types: does a value of the type hold node indices, effect sets, callable types?"""

    def __init__(self, F, stop):
        self.F = F
        self.stop = stop
        self.memo = {}

    def of(self, t, depth=0):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        row = self.F.types[t]
        s = row["s"]
        out = set()
        d = row.get("d")
        if row["k"] == "adt" and d in self.stop:
            pass
        elif row["k"] == "adt" and d == "la_arena::Idx" and ("hir::Node" in s):
            out.add("node")
        elif row["k"] == "adt" and d == "la_arena::Idx" and "ast::" in s:
            out.add("ast")
        elif row["k"] == "adt" and d == "types::effects::EffType":
            out.add("eff")
        elif row["k"] == "adt" and d in ("types::r#type::FnType", "types::r#type::SubscriptMemberType"):
            out.add("fnty")
        elif row["k"] == "adt" and d in self.F.adts:
            for v in self.F.adts[d]["variants"]:
                for f in v["fields"]:
                    out |= self.of(f[1], depth + 1)
            for a in row.get("a") or []:
                if isinstance(a, int):
                    out |= self.of(a, depth + 1)
        else:
            for a in row.get("a") or []:
                if isinstance(a, int):
                    out |= self.of(a, depth + 1)
            if row["k"] in ("param", "alias", "opaque", "dyn") and any(g in s for g in GENERIC_NODE):
                out.add("node")
        if row["k"] == "closure" or s.startswith("{closure"):
            out = set()
        self.memo[t] = frozenset(out)
        return self.memo[t]


FIELD = re.compile(r"^\.([^:]+):(.+)$")


class EffSlice:
    def __init__(self, F, stop):
        self.F = F
        self.C = Carry(F, stop)
        self._mut = {}
        self._dag = {}
        self._reach = {}
        self._mutat = {}
        self._empty = {}

    def carries(self, b, l):
        return self.C.of(b.locals[l])

    def mutated(self, b):
        """local -> operands stored into it through mutable borrows (push, extend, insert...)."""
        r = self._mut.get(b.name)
        if r is None:
            r = self._mut[b.name] = {l: [o for _, o in os] for l, os in self.mutated_at(b).items()}
        return r

    def mutated_at(self, b):
        r = self._mutat.get(b.name)
        if r is not None:
            return r
        r = {}
        owner = {}
        for i, j, p, rv, ln in b.assigns():
            if rv[0] == "ref" and rv[1] == "mut" and len(p) == 1:
                owner.setdefault(p[0], set()).add(rv[2][0])
        changed = True
        while changed:
            changed = False
            for i, j, p, rv, ln in b.assigns():
                if len(p) != 1:
                    continue
                q = None
                if rv[0] in ("use", "cast"):
                    q = op_place(rv[1] if rv[0] == "use" else rv[2])
                elif rv[0] == "ref" and rv[1] == "mut" and "*" in rv[2]:
                    q = rv[2]
                if q and q[0] in owner and not owner[q[0]] <= owner.get(p[0], set()):
                    owner.setdefault(p[0], set()).update(owner[q[0]])
                    changed = True
        for i, c in b.calls():
            for k, a in enumerate(c["a"]):
                l = op_local(a)
                if l in owner:
                    for base in owner[l]:
                        for m, o in enumerate(c["a"]):
                            if m != k:
                                r.setdefault(base, []).append((i, o))
        for i, j, p, rv, ln in b.assigns():
            if len(p) > 1 and p[0] in owner and "*" in p:
                for base in owner[p[0]]:
                    r.setdefault(base, []).extend((i, o) for o in rv_operands(rv))
        self._mutat[b.name] = r
        return r

    def sources(self, b, op):
        if op[0] == "k":
            return frozenset()
        out = set()
        self._walk(b, op[1], out, set())
        return frozenset(out)

    def certain(self, b, op, at, use):
        """The sources of an effect operand, read in block `use`, that are in it whichever branch computed it after
        block `at` ran."""
        if op[0] == "k":
            return frozenset()
        return frozenset(self._must(b, op[1], (), {}, at, use)[0])

    def dag(self, b):
        """Successors within one iteration of every loop: a back edge leads to the exits of its loop instead."""
        r = self._dag.get(b.name)
        if r is not None:
            return r
        back, color = set(), {0: 1}
        stack = [(0, iter(b.succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if color.get(y) == 1:
                    back.add((x, y))
                elif y not in color:
                    color[y] = 1
                    stack.append((y, iter(b.succ[y])))
                    break
            else:
                color[x] = 2
                stack.pop()
        r = [[y for y in ss if (x, y) not in back] for x, ss in enumerate(b.succ)]
        for t, h in back:
            body, work = {h}, [t]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(y for y in b.pred[x] if y in b.live)
            r[t] = r[t] + [y for x in body for y in b.succ[x] if y not in body]
        self._dag[b.name] = r
        return r

    def reach(self, b, at, avoid=frozenset(), edges=frozenset()):
        key = (b.name, at, avoid, edges)
        r = self._reach.get(key)
        if r is None:
            g = self.dag(b)
            r, work = set(), [at]
            while work:
                x = work.pop()
                if x not in r:
                    r.add(x)
                    work.extend(y for y in g[x] if y not in avoid and (x, y) not in edges)
            self._reach[key] = r
        return r

    def empties(self, b):
        """(edges, operand): on these edges the effect operand was found empty."""
        r = self._empty.get(b.name)
        if r is None:
            r = []
            for i, c in b.calls():
                if i in b.live and c.get("f", "").endswith(("EffType::is_empty", "EffType::any")):
                    yes = c["f"].endswith("is_empty")
                    e = bool_edges(b, lambda op, k: negations(b, op, lambda p, rv: rv is c), yes)
                    if e and op_place(c["a"][0]):
                        r.append((frozenset(e), op_place(c["a"][0]), i))
            self._empty[b.name] = r
        return r

    def _must(self, b, p, path, memo, at, use):
        """(sources, locals on the path it depends on)"""
        l = p[0]
        if l in path:
            return set(), {l}
        k = self.effects_field(p)
        if k is not None or l == 1 and "::{closure#" in b.name or 1 <= l <= b.args:
            one = set()
            self._walk(b, p, one, set())
            return collapse(one), set()
        key = (l, use)
        if key in memo:
            return memo[key], set()
        defs = [d for d in b.defs().get(l, []) if d[0] in b.live and not (not is_call(d[2]) and d[2][0] == "agg" and d[2][1] == "closure")]
        whole = [d for d in defs if len(d[3]) == 1]
        after = self.reach(b, at)
        whole = [d for d in whole if use in self.reach(b, d[0])] or whole
        late = [d for d in whole if d[0] in after]
        if late and (len(late) == len(whole) or use not in self.reach(b, at, frozenset(d[0] for d in late))):
            whole = late
        dep = set()
        alts = []
        for d in whole + [d for d in defs if len(d[3]) > 1]:
            i, j, rv, q = d
            s = set()
            if is_call(rv):
                work = []
                self._call(b, i, rv, s, work)
                s = collapse(s)
            else:
                work = [x for x in rv_places(rv) if self.carries(b, x[0]) or x[0] == 1 and "::{closure#" in b.name]
            mine = set()
            for x in work:
                r, dd = self._must(b, x, path + (l,), memo, at, i)
                mine |= dd
                s |= r
            for edges, x, at2 in self.empties(b):
                if i not in self.reach(b, 0, frozenset(), edges):
                    r, dd = self._must(b, x, path + (l,), memo, at, at2)
                    s |= r
            dep |= mine
            alts.append((s, bool(mine), len(q) > 1))
        plain = [s for s, cyc, part in alts if not cyc and not part]
        if plain:
            out = set.intersection(*plain)
        else:
            out = set().union(*[s for s, cyc, part in alts if not part])
        if late and len(late) == len(whole):
            # updates of an accumulator on the way from `at` to `use`
            for s, cyc, part in alts:
                if cyc:
                    out = out | s if not plain else out
        out = out.union(*[s for s, cyc, part in alts if part])
        for m, o in self.mutated_at(b).get(l, []):
            q = op_place(o)
            if q and self.carries(b, q[0]) & {"node", "eff"}:
                if m in after and m != at and use in after:
                    known = frozenset().union(*[e for e, x, _ in self.empties(b) if self.same(b, x, q)])
                    if use in self.reach(b, at, frozenset([m]), known):
                        continue
                r, dd = self._must(b, q, path + (l,), memo, at, m)
                dep |= dd
                out |= r
        dep.discard(l)
        if not dep:
            memo[key] = out
        return out, dep

    def same(self, b, x, y):
        """Two effect operands are the same value: the same origins."""
        u, v = set(), set()
        self._walk(b, x, u, set())
        self._walk(b, y, v, set())
        return bool(u) and u == v

    def _walk(self, b, place, out, seen):
        work = [place]
        while work:
            p = work.pop()
            l = p[0]
            k = self.effects_field(p)
            if k is not None:
                out.update(("callee",) + x for x in self.births(b, p[:k]))
                if not self.carries(b, l) & {"node", "eff"}:
                    continue
            if l == 1 and "::{closure#" in b.name:
                self._capture(b, p, out, seen)
                continue
            if (b.name, l) in seen:
                continue
            seen.add((b.name, l))
            c = self.carries(b, l)
            if 1 <= l <= b.args:
                if c & {"node", "eff"}:
                    out.add(("param", b.name, l))
                continue
            for i, j, rv, q in b.defs().get(l, []):
                if is_call(rv):
                    self._call(b, i, rv, out, work)
                elif not (rv[0] == "agg" and rv[1] == "closure"):
                    for x in rv_places(rv):
                        if self.carries(b, x[0]) or x[0] == 1 and "::{closure#" in b.name:
                            work.append(x)
            for o in self.mutated(b).get(l, []):
                q = op_place(o)
                if q and self.carries(b, q[0]) & {"node", "eff"}:
                    work.append(q)

    def _capture(self, b, p, out, seen):
        idx = next((e[1:].split(":")[0] for e in p[1:] if isinstance(e, str) and e.startswith(".")), None)
        parent = b.name.rsplit("::{closure#", 1)[0]
        if idx is None or not idx.isdigit() or parent not in self.F.fns:
            return
        pb = self.F.body(parent)
        for i, j, q, rv, ln in pb.assigns():
            if rv[0] == "agg" and rv[1] == "closure" and rv[2] == b.name and int(idx) < len(rv[4]):
                x = op_place(rv[4][int(idx)])
                if x:
                    # through the reference the closure holds
                    tgt = [x]
                    for _, _, r, _q in pb.defs().get(x[0], []):
                        if not is_call(r) and r[0] == "ref":
                            tgt.append(r[2])
                    for t in tgt:
                        if self.carries(pb, t[0]) or t[0] == 1:
                            self._walk(pb, t, out, seen)

    def _call(self, b, i, c, out, work):
        f = c.get("f", "")
        if f.endswith(FRESH):
            out.add(("callee", "fresh", b.name, i))
            return
        args = [op_place(a) for a in c["a"] if op_place(a)]
        car = [(p, self.carries(b, p[0])) for p in args]
        dst = self.carries(b, c["d"][0])
        fwd = [p for p, k in car if k & {"node", "eff"}]
        work.extend(fwd)
        fn = [p for p, k in car if "fnty" in k and p not in fwd]
        if fn and "fnty" in dst:
            work.extend(fn)
        elif fn and "eff" in dst:
            for p in fn:
                out.update(("callee",) + x for x in self.births(b, p))
        if dst & {"node", "eff"} and (any("ast" in k for p, k in car) or not f):
            out.add(("eval", b.name, i))


    @staticmethod
    def effects_field(p):
        for k, e in enumerate(p):
            m = FIELD.match(e) if isinstance(e, str) else None
            if m and m.group(1) == "effects" and re.sub("<.*", "", m.group(2)) in CALLABLE:
                return k
        return None

    def births(self, b, place, seen=None):
        """Where the callable type held in a place was made: a call result, a parameter's field, a fresh variable."""
        seen = set() if seen is None else seen
        out = set()
        work = [list(place)]
        while work:
            p = work.pop()
            k = self.effects_field(p)
            if k is not None:
                p = p[:k]
            l = p[0]
            flds = [m.group(1) for m in (FIELD.match(e) for e in p[1:] if isinstance(e, str)) if m]
            if 1 <= l <= b.args:
                if "fnty" in self.carries(b, l) or flds:
                    out.add(("param", b.name, l, flds[0] if flds else ""))
                continue
            if (b.name, l) in seen:
                continue
            seen.add((b.name, l))
            for i, j, rv, q in b.defs().get(l, []):
                if is_call(rv):
                    f = rv.get("f", "")
                    if f.endswith(FRESH):
                        out.add(("fresh", b.name, i))
                        continue
                    args = [op_place(a) for a in rv["a"] if op_place(a)]
                    fn = [x for x in args if self.carries(b, x[0]) & {"fnty", "eff"} and "node" not in self.carries(b, x[0])]
                    if fn:
                        work.extend(fn)
                    else:
                        out.add(("made", b.name, i))
                else:
                    for x in rv_places(rv):
                        if self.carries(b, x[0]) & {"fnty", "eff"}:
                            work.append(x)
        return out


FRESH = ("::fresh_effect_var_ty", "::fresh_var_ty")
CALLABLE = ("types::r#type::FnType", "types::r#type::SubscriptMemberType")


def collapse(s):
    """Adds the token that says that the effects of some callable are among the sources."""
    return s | {("callee",)} if any(x[0] == "callee" for x in s) else s
