"""Coverage of tree walks: which components of a matched enum does each arm pass on?"""
from facts import *
import arms
import canon
from canon import Frame, alternatives, last

TRIVIAL = {"len", "is_empty", "fmt", "eq", "ne", "hash", "cmp", "partial_cmp", "is_some", "is_none", "discriminant", "capacity",
           "with_capacity", "new_debug", "new_display"}


def family(row):
    """The component family a type belongs to, or None."""
    if row["k"] != "adt":
        return None
    s = row["s"]
    if row["d"] == "la_arena::Idx":
        if s.startswith("la_arena::Idx<hir::Node<"):
            return "node"
        if s.startswith("la_arena::Idx<ast::expr::Expr<"):
            return "expr"
    if row["d"] == "types::r#type::Type":
        return "type"
    if row["d"] == "types::mutability::MutType":
        return "mut"
    if row["d"] == "types::effects::EffType":
        return "effect"
    if row["d"] == "ast::types::PType":
        return "ptype"
    if row["d"] == "mir::value::Value":
        return "value"
    if row["d"] == "mir::function::BlockId":
        return "block"
    return None


class Leaves:
    def __init__(self, F, late=False):
        self.F = F
        self.memo = {}
        self.late = late    # after desugaring or elaboration: phase-dependent payloads are empty

    def of_type(self, tid, stack=()):
        """Paths to components inside a type: tuples of steps ("field", name) or "e", with the family."""
        if tid in self.memo:
            return self.memo[tid]
        row = self.F.types[tid]
        fam = family(row)
        if fam:
            return [((), fam)]
        out = []
        k = row["k"]
        if k == "adt" and row["d"] in self.F.adts:
            a = self.F.adts[row["d"]]
            if row["d"] in stack:
                return []
            if a["kind"] == "struct":
                for name, fid, _ in a["variants"][0]["fields"]:
                    for path, fam in self.of_type(fid, stack + (row["d"],)):
                        out.append(((name,) + path, fam))
            elif a["kind"] == "enum":
                inner = set()
                for v in a["variants"]:
                    for name, fid, _ in v["fields"]:
                        inner |= {fam for _, fam in self.of_type(fid, stack + (row["d"],))}
                out += [(("?",), fam) for fam in sorted(inner)]
        elif k == "adt":
            args = row["a"]
            if row["d"].startswith(canon.OWNERS):
                out += self.of_type(args[0], stack)
            else:
                for a in args:
                    if row["d"].endswith("SmallVec") and self.F.types[a]["k"] == "array":
                        a = self.F.types[a]["a"][0]
                    for path, fam in self.of_type(a, stack):
                        out.append((("Some.0",) + path if row["d"].endswith("::Option") else ("e",) + path, fam))
        elif k in ("slice", "array"):
            for path, fam in self.of_type(row["a"][0], stack):
                out.append((("e",) + path, fam))
        elif k == "tuple":
            for n, a in enumerate(row["a"]):
                for path, fam in self.of_type(a, stack):
                    out.append(((str(n),) + path, fam))
        elif k == "ref":
            out += self.of_type(row["a"][0], stack)
        elif k == "alias" and row["s"].endswith("as ast::core::Phase>::Type"):
            out.append(((), "ptype"))
        elif k == "alias" and self.late:
            pass
        elif k == "alias" and row["s"].endswith("as ast::core::Phase>::SetLiteralElement"):
            out.append(((), "expr"))
        elif k == "alias" and row["s"].endswith("as ast::core::Phase>::MapLiteralEntry"):
            out.append(((), "expr"))
        elif k == "alias":
            d = "hir::" + last(row["s"])
            if d in self.F.adts and d not in stack:
                for name, fid, _ in self.F.adts[d]["variants"][0]["fields"]:
                    for path, fam in self.of_type(fid, stack + (d,)):
                        out.append(((name,) + path, fam))
        if not stack:
            self.memo[tid] = out
        return out

    def of_variant(self, adt, variant):
        out = []
        for v in self.F.adts[adt]["variants"]:
            if v["name"] == variant:
                for name, fid, _ in v["fields"]:
                    for path, fam in self.of_type(fid):
                        out.append(((variant + "." + name,) + path, fam))
        return out



# Adaptors that pass on only a part of a list.
RESTRICT = {"skip", "take", "step_by", "skip_while", "take_while", "nth", "first", "last", "truncate",
            "find", "position", "filter", "split_at", "drain", "pop", "remove", "get", "min", "max", "map_while", "next_chunk"}


def extend(t, step):
    return ("e", t) if step == "e" else ("f", t, step)


def contains(t, want, whole=False):
    """The term is `want`, a part of it (unless the whole is asked for), or built from it without leaving elements out."""
    if t == want:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if whole and t[0] in ("f", "e") and t[1] == want:
        return False
    if t[0] == "call":
        if last(t[1]) in RESTRICT or last(t[1]) in TRIVIAL:
            return False
        if last(t[1]) in ("index", "index_mut") and t[2:] and t[2] == want:
            return False
    if t[0] == "len":
        return False
    return any(contains(x, want, whole) for x in t if isinstance(x, tuple))


class Walk:
    """Coverage of one value's components by a body."""

    def __init__(self, F, strict=False, decided=None):
        self.F = F
        self.memo = {}
        self.strict = strict    # storing the part as it is, or a copy of it, does not count
        self.loose = Walk(F, False, decided) if strict else self
        self.decided = decided    # the answer of a predicate that needs no further look
        self.getters = {}
        self.done = {}
        self.active = set()

    def uses(self, fr):
        """block -> [(term, kind, callee, args)] passed on there."""
        b = fr.b
        key = id(fr)
        if key in self.memo:
            return self.memo[key][1]
        out = {}
        for i in b.live:
            bl = b.blocks[i]
            us = []
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                p, rv = s[1], s[2]
                if rv[0] == "agg" and rv[1] != "closure":
                    us += [(fr.op(o), "agg", rv[2], ()) for o in rv[4] if op_place(o)]
                elif rv[0] == "agg":
                    us += [(fr.op(o), "capture", rv[2], ()) for o in rv[4] if op_place(o)]
                elif rv[0] in ("use", "cast", "ref"):
                    q = rv[2] if rv[0] == "ref" else op_place(rv[1] if rv[0] == "use" else rv[2])
                    if q and (len(p) > 1 or p[0] == 0):
                        us.append((fr.place(q), "store", None, ()))
                elif rv[0] == "bin":
                    us += [(fr.op(o), "compare", None, ()) for o in rv[2:4] if op_place(o)]
            if bl["t"][0] == "call":
                c = bl["t"][1]
                args = tuple(fr.op(o) for o in c["a"])
                f = c.get("f", "?")
                if last(f) not in canon.IDENT or f in self.F.fns and len(args) > 1:
                    us += [(t, "call", f, args) for t in args]
                if len(c["d"]) > 1 or c["d"][0] == 0:
                    us.append((fr.call(c), "store", None, ()))
            flat = []
            if self.strict:
                us = [u for u in us if u[1] in ("call", "capture")]
            for t, k, f, a in us:
                if k == "call" and self.getter(f):
                    continue
                for x in alternatives(t):
                    if x[0] != "call" or not self.getter(x[1]):
                        flat.append((x, k, f, a))
            out[i] = flat
        self.memo[key] = (fr, out)
        return out

    def getter(self, f):
        """A local function that only looks at a flag of its argument."""
        if f not in self.getters:
            self.getters[f] = False
            if f in self.F.fns:
                b = self.F.body(f)
                self.getters[f] = b is not None and b.tys(0) == "bool" and b.args == 1 and \
                    all(self.getter(c.get("f", "?")) or last(c.get("f", "?")) in ("deref", "result_convention", "return_convention")
                        for i, c in b.calls())
        return self.getters[f]

    def hit(self, us, term, whole=False):
        """Some use passes on the term, a part of it or something built from it."""
        for x, k, f, a in us:
            if k == "call" and last(f) in TRIVIAL | RESTRICT and (not a or contains(a[0], term, whole)):
                continue
            if k == "call" and last(f) in ("index", "index_mut") and a[0] == x and x == term:
                continue
            if contains(x, term, whole) or k == "call" and last(f) in ("next", "next_back") and over(x, term):
                return True
        return False

    def none_edges(self, fr, path_terms):
        """Edges on which an optional container of the component is empty."""
        out = set()
        b = fr.b
        for m in arms.matches(self.F, b):
            if m.adt in self.F.adts:
                continue
        for i in b.live:
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            l = op_local(t[1])
            if l is None:
                continue
            for bi, j, rv, p in b.defs().get(l, []):
                if is_call(rv) and last(rv.get("f", "?")) in ("is_empty", "is_none") and fr.op(rv["a"][0]) in path_terms:
                    out |= {(i, tgt) for v, tgt in t[2] if v == "1"} or {(i, t[3])}
                if is_call(rv) or rv[0] != "disc":
                    continue
                row = self.F.types[rv[2]]
                if row.get("d", "").endswith("option::Option") and fr.place(rv[1]) in path_terms:
                    for v, tgt in t[2]:
                        if v == "0":
                            out.add((i, tgt))
                    if not any(v == "0" for v, _ in t[2]):
                        out.add((i, t[3]))
        return out

    def failing(self, b):
        """Blocks after which only an error is returned: they build Err or propagate one."""
        out = set()
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[3] == "Err":
                out.add(i)
        for i, c in b.calls():
            if last(c.get("f", "?")) in ("from_residual",):
                out.add(i)
        if self.decided is not None and b.tys(0) == "bool":
            for i, j, p, rv, l in b.assigns():
                if len(p) == 1 and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == self.decided and b.tys(p[0]) == "bool":
                    out.add(i)
        return out

    def missing(self, fr, start, stop, root, path, edges=frozenset(), whole=False):
        """None when every path from start passes the component at `path` below `root` on; otherwise
        what is left out: "never" or "sometimes"."""
        b = fr.b
        terms = []
        t = root
        cut = len(path)
        for n, st in enumerate(path):
            if st == "?":
                cut = n
                break
            t = extend(t, st)
            terms.append(t)
        path = path[:cut]
        if "e" in path:
            cut = path.index("e")
        container = terms[:cut] if cut else [root]
        us = self.uses(fr)
        cover = {i for i in us if any(self.hit(us[i], q, q != container[-1]) for q in container)
                 or whole and any(x == root and k in ("call", "agg", "store") for x, k, f, a in us[i])}
        none = self.none_edges(fr, [root] + terms) | edges
        fail = self.failing(b)
        avoid = cover | fail | stop
        if start not in cover and start not in fail:
            seen = b.reachable([start], avoid=tuple(avoid), edge_filter=lambda x, y: (x, y) not in none)
            helpers = self.helpers(fr, seen, root, path) if any(r in seen for r in b.return_blocks()) else set()
            if helpers:
                cover |= helpers
                seen = b.reachable([start], avoid=tuple(avoid | helpers), edge_filter=lambda x, y: (x, y) not in none)
            if start not in helpers and any(r in seen for r in b.return_blocks()):
                reach = b.reachable([start], avoid=tuple(stop))
                return "sometimes" if cover & reach else "never"
        # uses of the whole value are enough
        rest = path[cut:]
        if not cut or len(rest) <= 1 and not self.strict:
            return None
        reach = b.reachable([start], avoid=tuple(stop)) | {start}
        return self.element(fr, reach, terms[cut - 1], rest, fail)

    def helpers(self, fr, reach, root, path):
        """Blocks that hand the whole value to a local function which passes the component on."""
        out = set()
        for i in reach:
            t = fr.b.blocks[i]["t"]
            if t[0] != "call" or t[1].get("f") not in self.F.fns or last(t[1]["f"]) in TRIVIAL:
                continue
            f = t[1]["f"]
            for n, o in enumerate(t[1]["a"]):
                x = fr.op(o)
                via = None
                if root[0] == "f" and x == root[1] and x[0] != "e":
                    via = root[2]
                elif x != root:
                    continue
                key = (f, n, via, path)
                if key in self.active:
                    continue
                if key not in self.done:
                    self.active.add(key)
                    self.done[key] = self.passes(f, n + 1, via, path)
                    self.active.discard(key)
                if self.done[key]:
                    out.add(i)
        return out

    def passes(self, f, n, via, path):
        cb = self.F.body(f)
        sub = Frame(self.F, cb)
        root = extend(sub.local(n), via) if via else sub.local(n)
        variant = path[0].split(".")[0] if path and "." in path[0] else None
        wrong = set()
        if variant:
            ms = [m for m in arms.matches(self.F, cb) if sub.place(m.place) == root]
            for m in ms:
                right = arms.target_of(m, variant)
                wrong |= {(m.block, t) for t in list(m.targets.values()) + [m.otherwise] if t is not None and t != right}
        return self.missing(sub, 0, set(), root, path, frozenset(wrong)) is None

    def element(self, fr, reach, cont, rest, fail):
        """Every iteration over the container passes on the part at rest[1:] of its element."""
        b = fr.b
        el = ("e", cont)
        contexts = []
        us = self.uses(fr)
        inner = []
        t = el
        for st in rest[1:]:
            if st == "?":
                break
            t = extend(t, st)
            inner.append(t)
        for i in reach:
            tm = b.blocks[i]["t"]
            if tm[0] != "call":
                continue
            c = tm[1]
            f = last(c.get("f", "?"))
            a = [fr.op(o) for o in c["a"]]
            if not a:
                continue
            ranged = any(over(x, cont) for x in alternatives(a[0]))
            if not ranged and not any(contains(x, cont) and not contains_elem(x, el) for x in alternatives(a[0])):
                continue
            item = canon.elem(a[0])
            plain = ranged or contains_elem(item, el)
            one, parts = (el, rest[1:]) if plain else (item, ())
            if f in ("next", "next_back"):
                contexts.append(self.loop(fr, i, tm[2], one, parts, fail))
                continue
            for x in a[1:]:
                for y in alternatives(x):
                    if y[0] == "clo" and y[1] in self.F.fns:
                        cb = self.F.body(y[1])
                        args = {n: item for n in range(2, cb.args + 1)}
                        if f in ("fold", "try_fold", "rfold"):
                            args = {3: item}
                        sub = Frame(self.F, cb, args, y[2])
                        by = self.loose if f in ("map", "filter_map", "flat_map") and self.consumed(fr, c, y) else self
                        contexts.append(by.missing(sub, 0, set(), one, parts, whole=True))
        if not contexts or None in contexts:
            return None
        return contexts[0]

    def consumed(self, fr, c, clo):
        """The mapped list is handed to a function, not only collected."""
        for us in self.uses(fr).values():
            for x, k, f, a in us:
                if k == "call" and last(f) not in canon.IDENT and holds(x, clo) and x[0] == "call":
                    return True
        return False

    def loop(self, fr, head, after, el, rest, fail):
        b = fr.b
        # the element is bound on the Some edge after `next`
        starts = []
        seen = {head}
        cur = after
        hops = 0
        while cur is not None and hops < 4:
            hops += 1
            t = b.blocks[cur]["t"]
            if t[0] == "switch":
                starts = [tgt for v, tgt in t[2] if v == "1"] or [t[3]]
                break
            cur = t[1] if t[0] == "goto" else None
        res = None
        for s in starts:
            r = self.part(fr, s, head, el, rest, fail)
            if r:
                res = r
        return res

    def part(self, fr, start, head, el, rest, fail):
        b = fr.b
        terms = []
        t = el
        for st in rest:
            if st in ("?", "e"):
                break
            t = extend(t, st)
            terms.append(t)
        us = self.uses(fr)
        cover = {i for i in us if any(self.hit(us[i], q, q != terms[-1]) for q in terms) or not terms and self.hit(us[i], el)
                 or any(x == el and k in ("call", "agg", "store") for x, k, f, a in us[i])}
        if start in cover or start in fail:
            return None
        none = self.none_edges(fr, [el] + terms)
        seen = b.reachable([start], avoid=tuple(cover | fail), edge_filter=lambda x, y: (x, y) not in none)
        if head in seen:
            return "sometimes" if cover else "never"
        return None


def over(t, cont):
    """All indices of the list."""
    return t[0] == "range" and t[1] == ("k", "0") and t[2] == ("len", cont)


def holds(t, x):
    return isinstance(t, tuple) and (t == x or any(holds(y, x) for y in t if isinstance(y, tuple)))


def contains_elem(t, el):
    if t == el:
        return True
    return isinstance(t, tuple) and any(contains_elem(x, el) for x in t if isinstance(x, tuple))
