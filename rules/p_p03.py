"""Pairwise comparisons of types look at every component of both types."""
import re
from facts import *
from common import *
from canon import Frame, alternatives, last

EXPLANATION = (
    "Every function that takes apart two types together (switches on the kinds of two different type expressions and has "
    "branches for equal kinds) is found. For each such pair of equal kinds, a path-sensitive must-analysis over the MIR "
    "follows the comparisons made on the way to accepting: equalities on their equal edge, calls that receive the same "
    "component of both types on their success edge, comparisons made for every pair of elements in a loop or in a closure "
    "passed to all/any, and comparisons inside local helpers. Every component of the kind (from the type's own "
    "definition: fields of records and variants with names and lengths, arguments with types and mutability, results, "
    "effects, definitions, parameters) must have been compared on every accepting path. Which categories of components a "
    "function is responsible for is the union of what it compares in any branch; the unifier, the interner and the alias "
    "matcher are responsible for all. In the unifier the direction of each comparison is checked too.")

KIND = "types::r#type::TypeKind"
LEAVES = {"types::r#type::Type": "type", "types::effects::EffType": "effect", "types::mutability::MutType": "mutability",
          "ustr::Ustr": "name", "module::TypeDefId": "definition", "types::r#type::TypeVar": "variable",
          "types::r#type::SubscriptResultConvention": "convention"}
ALL = set(LEAVES.values()) | {"length", "bare"}
# how much each known decider is responsible for, beyond what it is seen to compare
FULL = {"UnifiedTypeInference::unify_sub_or_same_type": ALL - {"convention", "variable"},
        "type_kinds_match_with_mapping": ALL - {"convention"},
        "match_alias_type_inner": ALL - {"convention", "variable"}}
# callables of any type have the same representation; the effects pass after unification does not descend into natives
EXEMPT = {("lowered_representations_compatible", "Function"), ("lowered_representations_compatible", "Subscript"),
          ("unify_equal_callable_effects_inner", "Native")}
# candidate filter before an exact comparison; type descriptions and evidence construction do not decide sameness
EXCLUDED = ("types::r#type::types_could_match",)
LIMIT = 60000


def run(F, R, tier):
    found = 0
    direction(F, R)
    for b in F.all_bodies():
        if b.name.startswith("<") or "{closure#" in b.name or b.name in EXCLUDED:
            continue
        if b.tys(0) != "bool" and not b.tys(0).startswith("core::result::Result<"):
            continue
        pr = scrutinees(F, b)
        if not pr:
            continue
        res = Decider(F, b, pr).run()
        pairs = {k: v for k, v in res.items() if v is not None}
        if len(pairs) < 3:
            continue
        found += 1
        R.fn(b)
        short = b.name.rsplit("::", 1)[-1]
        cats = set()
        for k, v in pairs.items():
            for path, cat in components(F, k):
                if covered(path, cat, v[1]):
                    cats.add(cat)
        for name, full in FULL.items():
            if b.name.endswith(name):
                cats |= full
        for k, v in sorted(pairs.items()):
            for path, cat in components(F, k):
                if (short, k) in EXEMPT:
                    continue
                if cat not in cats or (cat == "length" and (path.endswith("arguments") or not inner(F, k, path) & cats)):
                    continue
                R.ob("component", f"{short}|{k}|{path}|{cat}", covered(path, cat, v[0]), b.where(0),
                     f"two {k} types are accepted on a path that has not compared their {cat} ({path})")
    R.floor("functions that compare two types", found, 4)


# ---- components ------------------------------------------------------------------------------------------------
def components(F, kind):
    out = []
    for v in F.adts[KIND]["variants"]:
        if v["name"] == kind:
            for f in v["fields"]:
                walk(F, f[1], f"{kind}.{f[0]}", out, 0)
    return out


def inner(F, kind, path):
    """What the elements of a list are made of."""
    return {c for p, c in components(F, kind) if p.startswith(path + "[]")}


def walk(F, t, path, out, depth):
    row = F.types[t]
    s = row["s"]
    if s in LEAVES:
        out.append((path, LEAVES[s]))
        return
    if "dyn " in s and "BareNativeType" in s:
        out.append((path, "bare"))
        return
    d = row.get("d")
    args = [a for a in row.get("a") or [] if isinstance(a, int)]
    if row["k"] == "tuple":
        for n, a in enumerate(args):
            walk(F, a, f"{path}.{n}", out, depth + 1)
    elif d in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc"):
        walk(F, args[0], path, out, depth + 1)
    elif d == "alloc::vec::Vec" or (d and d.rsplit("::", 1)[-1] in ("SmallVec", "ThinVec")):
        out.append((path, "length"))
        walk(F, args[0], path + "[]", out, depth + 1)
    elif d == "core::option::Option":
        walk(F, args[0], path + ".Some.0", out, depth + 1)
    elif d in F.adts and F.adts[d]["kind"] == "struct" and depth < 6:
        for f in F.adts[d]["variants"][0]["fields"]:
            walk(F, f[1], f"{path}.{f[0]}", out, depth + 1)


def covered(path, cat, events):
    if cat == "length":
        if ("len", path) in events:
            return True
    for k, p in events:
        if k == "c" and (path == p or path.startswith(p + ".") or path.startswith(p + "[")):
            return True
    return False


# ---- deciders --------------------------------------------------------------------------------------------------
def disc_terms(F, b, fr):
    out = {}
    for i, j, p, rv, l in b.assigns():
        if i in b.live and rv[0] == "disc":
            t = fr.place(rv[1])
            if ty_of_place(F, b, rv[1], rv) == KIND:
                out.setdefault(t, []).append((i, p[0]))
    return out


def ty_of_place(F, b, place, rv):
    """The enum type whose discriminant is read (only TypeKind matters; by variant names of the switch's owner)."""
    t = place_type(F, b, place)
    return t


def place_type(F, b, place):
    row = b.ty(place[0])
    s = row["s"]
    cur = row
    for e in place[1:]:
        if e == "*":
            args = [a for a in cur.get("a") or [] if isinstance(a, int)]
            if cur["k"] in ("ref", "ptr", "rawptr") and args:
                cur = F.types[args[0]]
            elif cur.get("d") == "alloc::boxed::Box":
                cur = F.types[args[0]]
            else:
                return None
        elif e.startswith("."):
            name, owner = e[1:].split(":", 1)
            if cur["k"] == "tuple":
                args = [a for a in cur.get("a") or [] if isinstance(a, int)]
                if not name.isdigit() or int(name) >= len(args):
                    return None
                cur = F.types[args[int(name)]]
            else:
                return None
        else:
            return None
    return cur["s"]


def scrutinees(F, b):
    if not any(rv[0] == "disc" for i, j, p, rv, l in b.assigns()):
        return None
    fr = Frame(F, b)
    terms = {}
    for i, j, p, rv, l in b.assigns():
        if i in b.live and rv[0] == "disc" and place_type(F, b, rv[1]) == KIND:
            terms.setdefault(fr.place(rv[1]), set()).add(i)
    terms = [t for t in terms if t[0] not in ("phi", "loop")]
    if len(terms) != 2:
        return None
    a, c = terms
    if roots(a) & roots(c) or not roots(a) or not roots(c):
        return None
    return (a, c) if min(roots(a)) < min(roots(c)) else (c, a)


def roots(t):
    if not isinstance(t, tuple):
        return set()
    if t[0] == "arg":
        return {t[1]}
    if t[0] == "call":
        # the first arguments are usually the receiver and tables: the type comes last
        out = set()
        for x in t[2:]:
            out |= roots(x)
        return out - ({1} if len(out) > 1 else set())
    out = set()
    for x in t[1:]:
        out |= roots(x)
    return out


EMPTY = frozenset()


class Decider:
    """Accepting paths of a function (or of a helper or closure it calls) and what they have compared."""

    def __init__(self, F, b, sides):
        self.F = F
        self.b = b
        self.A, self.B = sides
        self.states = 0
        self.orders = []
        self.memo = {}
        self.loopmemo = {}
        self.sometimes = {}

    def run(self):
        """kind -> (events on every accepting path, events on some path) or None if never accepted for equal kinds."""
        fr = Frame(self.F, self.b)
        outs = self.flow(fr, {}, top=True)
        res = {}
        for v in self.F.adts[KIND]["variants"]:
            k = v["name"]
            acc = [ev for (ka, kb, out), ev in outs.items() if ka == k and kb == k and out is True]
            if not acc:
                continue
            must = acc[0]
            for e in acc[1:]:
                must &= e
            some = set()
            res[k] = (set(must), some | self.sometimes.get((k, k), set()))
        return res

    # -- paths
    def path(self, t, kinds):
        """(side, component path) of a term."""
        for x in alternatives(t):
            r = self._path(x, kinds)
            if r is not None:
                return r
        return None

    def _path(self, t, kinds):
        if t == self.A:
            return (0, "")
        if t == self.B:
            return (1, "")
        if t[0] == "phi":
            return self.path(t, kinds)
        if t[0] == "f":
            r = self.path(t[1], kinds)
            if r is None:
                return None
            if r[1] == "":
                k = kinds[r[0]]
                if "." not in t[2] or (k and t[2].split(".")[0] != k):
                    return None
                return (r[0], t[2])
            return (r[0], r[1] + "." + t[2])
        if t[0] == "e":
            r = self.path(t[1], kinds)
            return None if r is None or r[1] == "" else (r[0], r[1] + "[]")
        return None

    def pair(self, x, y, kinds):
        """The events of comparing two terms for equality."""
        if x[0] == "tup" and y[0] == "tup" and len(x) == len(y):
            out = set()
            for p, q in zip(x[1:], y[1:]):
                out |= self.pair(p, q, kinds)
            return out
        if x[0] == "len" and y[0] == "len":
            p, q = self.path(x[1], kinds), self.path(y[1], kinds)
            if p and q and p[1] == q[1] and p[0] != q[0]:
                return self.seen(kinds, ("len", p[1]))
            return set()
        p, q = self.path(x, kinds), self.path(y, kinds)
        if p and q and p[1] == q[1] and p[0] != q[0] and p[1]:
            return self.seen(kinds, ("c", p[1]))
        return set()

    def seen(self, kinds, event):
        if kinds[0] == kinds[1]:
            self.sometimes.setdefault(kinds, set()).add(event)
        return {event}

    # -- value of a call: ("ev", events if true, events if false) / ("res", events if ok)
    def call_value(self, fr, c, kinds, depth):
        f = c.get("f", "?")
        n = last(f)
        a = [fr.op(x) for x in c["a"]]
        ty = fr.b.tys(c["d"][0]) if len(c["d"]) == 1 else ""
        if n in ("eq", "ne") and len(a) == 2:
            e = frozenset(self.pair(a[0], a[1], kinds))
            return ("ev", e, EMPTY) if n == "eq" else ("ev", EMPTY, e)
        if n in ("all", "any", "try_for_each", "try_fold", "find", "position") and len(a) >= 2 and a[-1][0] == "clo" and f not in self.F.fns:
            clo = a[-1]
            body = self.F.body(clo[1]) if clo[1] in self.F.fns else None
            if body is not None and depth < 5:
                from canon import elem
                args = {2: elem(a[0])}
                if n == "try_fold":
                    args = {3: elem(a[0])}
                t, fl = self.outcome(body, args, clo[2], kinds, depth + 1)
                keep = lambda s: frozenset(x for x in s if "[]" in x[1])
                if n == "all":
                    return ("ev", keep(t), EMPTY)
                if n == "any":
                    return ("ev", EMPTY, keep(fl))
                if n in ("find", "position"):
                    return ("opt", keep(fl))
                return ("res", keep(t))
            return None
        if n in ("map_err", "ok_or", "inspect_err", "context") and c["a"]:
            return self.value_of(fr, c["a"][0], kinds, depth)
        if n == "branch" and c["a"]:
            return self.value_of(fr, c["a"][0], kinds, depth)
        if n in ("is_ok", "is_err", "is_none", "is_some") and c["a"]:
            v = self.value_of(fr, c["a"][0], kinds, depth)
            if v and v[0] == "res":
                return ("ev", v[1], EMPTY) if n == "is_ok" else ("ev", EMPTY, v[1])
            if v and v[0] == "opt":
                return ("ev", v[1], EMPTY) if n == "is_none" else ("ev", EMPTY, v[1])
            return None
        if n == "not" and c["a"]:
            v = self.value_of(fr, c["a"][0], kinds, depth)
            return ("ev", v[2], v[1]) if v and v[0] == "ev" else v
        body = self.F.body(f) if f in self.F.fns and self.F.fns[f]["kind"] == "fn" else None
        if f not in self.F.fns and not self.virtual(c):
            return None
        # the same component of both types handed over together
        ev = set()
        paths = [(self.path(x, kinds), k) for k, x in enumerate(a)]
        paths = [(p, k) for p, k in paths if p and p[1]]
        for p, k in paths:
            for q, m in paths:
                if m > k and p[1] == q[1] and p[0] != q[0]:
                    if self.atomic(fr, c, k) or body is None or depth >= 5 or body.name == self.b.name:
                        ev |= self.seen(kinds, ("c", p[1]))
                        self.orders.append((kinds, p[1], p[0], f, fr.b, c))
                    else:
                        t, fl = self.outcome(body, {i + 1: x for i, x in enumerate(a)}, None, kinds, depth + 1)
                        if ty == "bool":
                            return ("ev", frozenset(t), frozenset(fl))
                        return ("res", frozenset(t))
        if ev:
            return ("ev", frozenset(ev), EMPTY) if ty == "bool" else ("res", frozenset(ev))
        # whole types handed over (self.A, self.B): a helper that compares inside
        if body is not None and depth < 5 and body.name != self.b.name:
            full = [x for x in a if self.path(x, kinds) is not None]
            sides = {self.path(x, kinds)[0] for x in full}
            if sides == {0, 1}:
                t, fl = self.outcome(body, {i + 1: x for i, x in enumerate(a)}, None, kinds, depth + 1)
                if ty == "bool":
                    return ("ev", frozenset(t), frozenset(fl))
                return ("res", frozenset(t))
        return None

    def virtual(self, c):
        return c.get("res") == "virtual" or c.get("decl")

    def atomic(self, fr, c, k):
        l = op_local(c["a"][k])
        s = fr.b.tys(l) if l is not None else ""
        s = re.sub(r"^(&(mut )?)+", "", s)
        return s in LEAVES or "BareNativeType" in s

    def value_of(self, fr, op, kinds, depth):
        l = op_local(op)
        if l is None:
            return None
        v = self.env.get((fr.b.name, l)) if hasattr(self, "env") else None
        return v

    def outcome(self, body, args, captures, kinds, depth):
        key = (body.name, tuple(sorted(args.items())), captures, kinds)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (EMPTY, EMPTY)
        saved = getattr(self, "env", None)
        fr = Frame(self.F, body, args, captures)
        outs = self.flow(fr, {}, kinds=kinds, depth=depth)
        self.env = saved

        def meet(want):
            r = None
            for (ka, kb, out), ev in outs.items():
                if out is want or out is None:
                    r = ev if r is None else r & ev
            return frozenset(r or ())
        self.memo[key] = (meet(True), meet(False))
        return self.memo[key]

    # -- the dataflow
    def flow(self, fr, init, kinds=(None, None), depth=0, top=False, start=0, stop=None, start_env=None):
        """{(kindA, kindB, outcome): events on every path}; outcome True (accept/true/ok), False, None (unknown).
        With `stop` set, the events on every path from `start` to block `stop` are returned instead."""
        b, F = fr.b, self.F
        state = {}
        work = [(start, kinds, start_env or ())]
        state[work[0]] = EMPTY
        outs = {}
        at_stop = None
        n = 0
        loops = self.loops(fr)
        while work:
            key = work.pop()
            n += 1
            self.states += 1
            if self.states > LIMIT:
                raise RuntimeError(f"state limit in {b.name}")
            blk, ks, envt = key
            ev = state[key]
            env = dict(envt)
            B = b.blocks[blk]
            for s in B["s"]:
                if s[0] == "=":
                    self.assign(fr, s[1], s[2], env, ks)
                elif s[0] == "dead":
                    env.pop(s[1], None)
            t = B["t"]
            nxt = []
            if t[0] == "ret":
                v = env.get(0)
                if v is None:
                    o = [(None, EMPTY)] if not self.const_accept(b) else [(True, EMPTY)]
                elif v[0] == "b":
                    o = [(v[1], EMPTY)]
                elif v[0] == "ev":
                    o = [(True, v[1]), (False, v[2])]
                elif v[0] in ("res",):
                    o = [(True, v[1]), (False, EMPTY)]
                else:
                    o = [(None, EMPTY)]
                for out, more in o:
                    k = (ks[0], ks[1], out)
                    e = ev | more
                    outs[k] = outs[k] & e if k in outs else e
                continue
            if t[0] == "switch":
                nxt = self.switch(fr, blk, t, ks, env, ev, loops, depth)
            elif t[0] == "call":
                c = t[1]
                self.env = {(b.name, l): v for l, v in env.items()}
                v = self.call_value(fr, c, ks, depth)
                if len(c["d"]) == 1:
                    d = c["d"][0]
                    if v is None and last(c.get("f", "")) == "from_residual":
                        v = ("b", False)
                    if v is not None:
                        env[d] = v
                    elif d == 0 and fr.b.tys(0) == "bool":
                        env[d] = ("ev", EMPTY, EMPTY)
                    elif d == 0 and "Result<" in fr.b.tys(0):
                        env[d] = ("res", EMPTY)
                    else:
                        env.pop(d, None)
                if t[2] is not None:
                    nxt = [(t[2], ks, env, ev)]
            else:
                nxt = [(x, ks, env, ev) for x in b.succ[blk]]
            for x, k2, e2, ev2 in nxt:
                if stop is not None and x == stop:
                    at_stop = ev2 if at_stop is None else at_stop & ev2
                    continue
                if (blk, x) in loops["back"]:
                    continue
                key2 = (x, k2, tuple(sorted(e2.items())))
                old = state.get(key2)
                new = ev2 if old is None else old & ev2
                if old is None or new != old:
                    state[key2] = new
                    work.append(key2)
        return at_stop if stop is not None else outs

    def const_accept(self, b):
        return False

    def assign(self, fr, p, rv, env, ks):
        if len(p) != 1:
            return
        d = p[0]
        env.pop(d, None)
        k = rv[0]
        if k == "use":
            o = rv[1]
            if o[0] == "k":
                if fr.b.tys(d) == "bool":
                    env[d] = ("b", str(o[1].get("v")) in ("1", "true"))
            else:
                q = op_place(o)
                if len(q) == 1 and q[0] in env:
                    env[d] = env[q[0]]
        elif k == "un" and rv[1] == "Not":
            v = env.get(op_local(rv[2]))
            if v and v[0] == "b":
                env[d] = ("b", not v[1])
            elif v and v[0] == "ev":
                env[d] = ("ev", v[2], v[1])
        elif k == "bin" and rv[1] in ("Eq", "Ne"):
            e = frozenset(self.pair(fr.op(rv[2]), fr.op(rv[3]), ks))
            env[d] = ("ev", e, EMPTY) if rv[1] == "Eq" else ("ev", EMPTY, e)
        elif k == "bin" and rv[1] in ("BitAnd", "BitOr"):
            x, y = env.get(op_local(rv[2])), env.get(op_local(rv[3]))
            if x and y and x[0] == y[0] == "ev":
                if rv[1] == "BitAnd":
                    env[d] = ("ev", x[1] | y[1], x[2] & y[2])
                else:
                    env[d] = ("ev", x[1] & y[1], x[2] | y[2])
        elif k == "agg" and rv[3] in ("Ok", "Err"):
            env[d] = ("b", rv[3] == "Ok")
        elif k == "disc" and len(rv[1]) == 1 and rv[1][0] in env and env[rv[1][0]][0] in ("res", "opt"):
            env[d] = ("disc", env[rv[1][0]][1], env[rv[1][0]][0], fr.b.tys(rv[1][0]))

    def switch(self, fr, blk, t, ks, env, ev, loops, depth):
        b = fr.b
        l = op_local(t[1])
        out = []
        edges = [(v, x) for v, x in t[2]] + [(None, t[3])]
        v = env.get(l)
        disc = self.discriminant(b, blk, l)
        term = fr.place(disc[1]) if disc is not None else None
        listed = {str(x) for x, _ in t[2]}
        for val, x in edges:
            if x is None or x not in b.live:
                continue
            if b.blocks[x]["t"][0] == "unreach" and not b.blocks[x]["s"]:
                continue
            e, k2 = ev, ks
            if v is not None and v[0] == "b":
                truth = (val is None) if "0" in listed else None
                truth = (str(val) != "0") if val is not None else (True if "0" in listed else None)
                if truth is not None and truth != v[1]:
                    continue
            elif v is not None and v[0] == "ev":
                truth = (str(val) != "0") if val is not None else True
                e = ev | (v[1] if truth else v[2])
            elif v is not None and v[0] == "disc":
                # Ok and Continue are 0; for an option of a failing element, None is 0
                if str(val) == "0":
                    e = ev | v[1]
            if term is not None:
                ty = place_type(self.F, b, disc[1])
                side = 0 if term == self.A else 1 if term == self.B else None
                if side is not None and ty in (KIND, None):
                    names = self.variants(val, listed)
                    for name in names:
                        if ks[side] is not None and ks[side] != name:
                            continue
                        k3 = (name, ks[1]) if side == 0 else (ks[0], name)
                        out.append((x, k3, env, e))
                    continue
                if term[0] == "opt" and blk in loops["exit"] and str(val) == "0":
                    e = e | self.iterations(fr, loops["exit"][blk], ks, depth)
                else:
                    p = self.path(term, ks)
                    none = str(val) == "0" or (val is None and listed == {"1"})
                    if p and p[1] and none and self.is_option(p[1]):
                        e = e | {("c", q) for q, _ in components(self.F, p[1].split(".")[0]) if q.startswith(p[1] + ".Some.0")}
            out.append((x, k2, env, e))
        return out

    def is_option(self, path):
        return any(q.startswith(path + ".Some.0") for q, c in components(self.F, path.split(".")[0]))

    def variants(self, val, listed):
        vs = self.F.adts[KIND]["variants"]
        if val is not None:
            return [v["name"] for v in vs if str(v["disc"]) == str(val)]
        return [v["name"] for v in vs if str(v["disc"]) not in listed]

    def discriminant(self, b, blk, l):
        if l is None:
            return None
        for s in reversed(b.blocks[blk]["s"]):
            if s[0] == "=" and s[1] == [l]:
                return s[2] if s[2][0] == "disc" else None
        ds = [d for d in b.defs().get(l, [])]
        if len(ds) == 1 and not is_call(ds[0][2]) and ds[0][2][0] == "disc":
            return ds[0][2]
        return None

    # -- loops over both lists
    def loops(self, fr):
        b = fr.b
        r = self.loopmemo.get(b.name)
        if r is not None:
            return r
        back, ex = set(), {}
        for scc in b.sccs():
            scc = set(scc)
            nexts = [i for i, c in b.calls() if i in scc and last(c.get("f", "")) == "next"]
            heads = {x for x in scc for p in b.pred[x] if p not in scc} or {min(scc)}
            for x in scc:
                for s in b.succ[x]:
                    if s in heads:
                        back.add((x, s))
            for i in nexts:
                d = b.blocks[i]["t"][1]["d"][0]
                for x in scc:
                    t = b.blocks[x]["t"]
                    if t[0] == "switch":
                        q = self.discriminant(b, x, op_local(t[1]))
                        if q is not None and q[1] == [d]:
                            some = [y for v, y in t[2] if str(v) == "1"] or [t[3]]
                            ex[x] = (i, sorted(heads), some[0], d)
        r = self.loopmemo[b.name] = {"back": back, "exit": ex}
        return r

    def iterations(self, fr, loop, ks, depth):
        i, heads, some, d = loop
        it = fr.local(d)
        key = ("loop", fr.b.name, i, ks, tuple(sorted(fr.args.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = EMPTY
        saved = getattr(self, "env", None)
        r = self.flow(fr, {}, kinds=ks, depth=depth, start=some, stop=heads[0])
        self.env = saved
        r = frozenset(x for x in (r or ()) if "[]" in x[1])
        self.memo[key] = r
        return r


# ---- direction of the unifier's comparisons --------------------------------------------------------------------
def direction(F, R):
    """In callables, arguments are compared the other way round; results and effects are not."""
    for f in F.find("UnifiedTypeInference::unify_sub_or_same_type"):
        b = F.body(f)
        pr = scrutinees(F, b)
        if not pr:
            continue
        d = Decider(F, b, pr)
        d.run()
        seen = set()
        for kinds, path, first, callee, fb, c in d.orders:
            if kinds[0] != kinds[1] or kinds[0] not in ("Function", "Subscript"):
                continue
            want = 1 if ".args" in path else 0
            k = (path, callee)
            if (k, first) in seen:
                continue
            seen.add((k, first))
            R.ob("direction", f"{kinds[0]}|{path}|{last(callee)}", first == want, fb.where(0),
                 f"{path} is compared in the wrong direction: " + ("arguments are contravariant" if want else "results and effects are covariant"))
        R.floor("directed comparisons of callables", len(seen), 6)
