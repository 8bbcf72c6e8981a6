"""Execution-context frame state is restored on every exit."""
from facts import *
from flow import PathFlow, TooBig

EXPLANATION = (
    "For every function of the crate that writes a frame field of the evaluation context "
    "(module id, frame base, evidence-frame base, place-return flag, call depth) or grows its "
    "environment or evidence stack at a frame boundary, a path-sensitive abstract interpretation of "
    "its MIR tracks each field as 'entry value + constant' and each stack as 'entry length + "
    "constant', through saved locals, mem::swap/replace, Option-wrapped saves and private helpers "
    "(inlined). Every non-unwinding return must leave each field at its entry value, except for the "
    "listed suspension protocol (a suspended accessor keeps exactly one depth unit and its stack "
    "cells until resumed or abandoned). Decides the state restoration, not what runs in between.")

CTX = "eval::EvalCtx"
SCALARS = ("module_id", "frame_base", "extra_frame_base", "returns_place", "call_depth")
VECS = ("environment", "extra_parameters")

# Functions that by protocol change the state: {function suffix: {exit kind: {field: expected}}}.
# "any" allows any value for that field on that exit.
SUSPEND = {
    # Leaves the accessor frame live on its success exit only: one depth unit and its cells stay.
    "call_accessor_until_yield": {"Ok": {"call_depth": 1, "environment": "any", "extra_parameters": "any"}},
    # Give back exactly the depth unit and truncate to the suspension's own marks.
    "abandon_suspended_accessor": {"*": {"call_depth": -1, "environment": "cut", "extra_parameters": "cut"}},
    "resume_suspended_accessor_epilogue_inner": {"*": {"call_depth": -1, "environment": "cut", "extra_parameters": "cut"}},
    # MIR projections: a path that stores a suspended frame keeps one depth unit, others none.
    "exec_project": {"Ok": {"call_depth": "+mark", "environment": "any"},
                     "Err": {"environment": "cut-entered"}},
    # A path that resumed the suspended frame gives its unit back, however the slide ended.
    "exec_end_project": {"*": {"call_depth": "-mark", "environment": "cut-mark"}},
    "discard_bindings_after_poisoning": {"*": {"call_depth": "any", "environment": "any"}},
}
# What sets the mark of the two functions above.
MARK_AGG = {"exec_project": "SuspendedFrame"}
MARK_CALL = {"exec_end_project": "run_loop"}
CUT = ("truncate_environment_storage", "restore_stack", "reclaim_frame_storage")


def ctx_field(place):
    """Field of the evaluation context the place denotes exactly, if any."""
    if place and isinstance(place[-1], str) and place[-1].endswith(":" + CTX):
        return place[-1].split(":")[0][1:]
    return None


def add(v, k):
    if v is None:
        return None
    if abs(v[2] + k) > 3:
        return ("?", v[1], 0)
    return (v[0], v[1], v[2] + k)


class Frame(PathFlow):
    """User state: (fields tuple, locals frozenset, ret kind)."""

    def __init__(self, body, rule, entry=None, depth=0):
        super().__init__(body)
        self.rule = rule
        self.entry = entry
        self.name = body.name.rsplit("::", 1)[-1]
        self.depth = depth
        self.exits = set()
        self.refs = self.static_refs()
        self.pairs = {p[0] for _, _, p, rv, _ in body.assigns()
                      if rv[0] == "bin" and rv[1].endswith("WithOverflow")}

    def static_refs(self):
        """local -> place, for locals that only ever hold one borrow."""
        out = {}
        for l, ds in self.body.defs().items():
            if len(ds) == 1 and not is_call(ds[0][2]) and ds[0][2][0] == "ref" and ds[0][3] == [l]:
                out[l] = ds[0][2][2]
        return out

    def resolve(self, place, n=0):
        """Rewrites (*_r).rest through borrows."""
        if n < 8 and len(place) > 1 and place[1] == "*" and place[0] in self.refs:
            return self.resolve(self.refs[place[0]] + place[2:], n + 1)
        return place

    def init(self):
        if self.entry is not None:
            return self.entry
        return (tuple(("F", f, 0) for f in SCALARS) + tuple(("V", f, 0) for f in VECS) +
                (("M", "mark", 0),), frozenset(), None)

    # state access
    def idx(self, f):
        return (SCALARS + VECS + ("mark",)).index(f)

    def get(self, u, place):
        place = self.resolve(place)
        f = ctx_field(place)
        if f in SCALARS:
            return u[0][self.idx(f)]
        k = self.key(place)
        for l, v in u[1]:
            if l == k:
                return v
        return None

    def key(self, place):
        """Place without the projections of Option payloads and checked-arithmetic pairs."""
        if place[0] in self.pairs:
            return (place[0],)
        return (place[0],) + tuple(e for e in place[1:] if not (
            isinstance(e, str) and (e.startswith("as Some") or
                                    e.startswith(".0:core::option::Option"))))

    def sub(self, u, place):
        """[(suffix, value)] of everything known inside a local place."""
        k = self.key(self.resolve(place))
        return [(l[len(k):], v) for l, v in u[1] if l[:len(k)] == k]

    def set_local(self, u, k, v):
        if isinstance(k, int):
            k = (k,)
        loc = frozenset((l, x) for l, x in u[1] if l[:len(k)] != k)
        if v is not None:
            loc = loc | {(k, v)}
        return (u[0], loc, u[2])

    def set_sub(self, u, place, subs):
        k = self.key(self.resolve(place))
        u = self.set_local(u, k, None)
        return (u[0], u[1] | frozenset((k + x, v) for x, v in subs), u[2])

    def set_field(self, u, f, v):
        i = self.idx(f)
        return (u[0][:i] + (v if v is not None else ("?", f, 0),) + u[0][i + 1:], u[1], u[2])

    def set_mark(self, u, bit):
        m = u[0][self.idx("mark")][2] | bit
        return self.set_field(u, "mark", ("M", "mark", m))

    def put(self, u, place, v):
        place = self.resolve(place)
        f = ctx_field(place)
        if f == "call_depth" and v is not None and v[2] > 0:
            u = self.set_mark(u, 2)
        if f in SCALARS or f in VECS:
            return self.set_field(u, f, v if v is None or v[0] != "?" else None)
        if "*" not in place:
            return self.set_local(u, self.key(place), v)
        return u

    def value(self, u, op):
        p = op_place(op)
        return self.get(u, p) if p is not None else None

    def stmt(self, block, idx, s, u):
        if s[0] == "dead":
            return self.set_local(u, s[1], None)
        if s[0] != "=":
            return u
        place, rv = s[1], s[2]
        v = None
        if rv[0] == "use":
            v = self.value(u, rv[1])
        elif rv[0] == "bin" and rv[1] in ("AddWithOverflow", "SubWithOverflow", "Add", "Sub",
                                          "AddUnchecked", "SubUnchecked"):
            a = self.value(u, rv[2])
            k = rv[3]
            if a is not None and k[0] == "k" and "v" in k[1]:
                n = int(k[1]["v"])
                v = add(a, n if rv[1].startswith("Add") else -n)
        elif rv[0] == "agg" and rv[2] == "core::option::Option" and rv[3] == "Some":
            v = self.value(u, rv[4][0])
            p0 = op_place(rv[4][0])
            if v is None and p0 is not None and "*" not in place and "*" not in p0:
                return self.set_sub(u, place, self.sub(u, p0))
        elif rv[0] == "agg" and rv[1] in ("tuple", "adt") and "*" not in place:
            m = MARK_AGG.get(self.name)
            if m and rv[2] and rv[2].endswith("::" + m):
                u = self.set_mark(u, 1)
            subs = []
            for i, o in enumerate(rv[4]):
                p0 = op_place(o)
                if p0 is not None:
                    f0 = self.value(u, o)
                    el = self.field_elem(rv, i)
                    if f0 is not None:
                        subs.append(((el,), f0))
                    elif "*" not in p0:
                        subs += [((el,) + x, y) for x, y in self.sub(u, p0)]
            if place == [0] and rv[2] == "core::result::Result":
                u = (u[0], u[1], rv[3])
            return self.set_sub(u, place, subs)
        if rv[0] == "use" and v is None and "*" not in place:
            p0 = op_place(rv[1])
            if p0 is not None and "*" not in self.resolve(p0):
                return self.set_sub(u, place, self.sub(u, p0))
        return self.put(u, place, v)

    def field_elem(self, rv, i):
        """The projection element reading operand i of an aggregate, as rustc's places spell it."""
        if rv[1] == "tuple":
            return f".{i}:()"
        a = self.rule.facts.adts.get(rv[2])
        tail = f"::{rv[3]}" if a and a.get("kind") == "enum" else ""
        if i < len(rv[5]):
            return f".{rv[5][i]}:{rv[2]}{tail}"
        return f".{i}:{rv[2]}"

    def arg_place(self, op):
        """The place behind a reference argument."""
        p = op_place(op)
        if p is None:
            return None
        return self.resolve([p[0], "*"] + p[1:]) if len(p) == 1 else None

    def vec_of(self, op):
        p = self.arg_place(op)
        f = ctx_field(p) if p else None
        return f if f in VECS else None

    def call(self, block, c, u):
        f = c.get("f", "")
        short = f.rsplit("::", 1)[-1]
        args = c["a"]
        dest = None
        if f.startswith("core::mem::") and short in ("swap", "replace", "take"):
            a = self.arg_place(args[0])
            if short == "swap":
                b = self.arg_place(args[1])
                va = self.get(u, a) if a else None
                vb = self.get(u, b) if b else None
                u = self.put(u, a, vb) if a else u
                u = self.put(u, b, va) if b else u
            elif a:
                dest = self.get(u, a)
                u = self.put(u, a, self.value(u, args[1]) if short == "replace" else None)
        elif f in ("core::bool::<impl bool>::then_some",):
            dest = self.value(u, args[1])
        elif short in ("expect", "unwrap", "clone", "checked_sub", "checked_add",
                       "wrapping_sub", "wrapping_add", "saturating_sub") and args:
            dest = self.value(u, args[0])
            if short.endswith(("_sub", "_add")):
                k = args[1]
                n = int(k[1]["v"]) if k[0] == "k" and "v" in k[1] else None
                dest = add(dest, -n if short.endswith("_sub") else n) if n is not None else None
            if short == "clone" and dest is None:
                p = self.arg_place(args[0])
                dest = self.get(u, p) if p else None
        elif f in self.rule.facts.fns:
            r = self.local_call(block, c, u, f, short)
            if isinstance(r, list):
                out = []
                for x in r:
                    if x and x[0] == "inl":
                        y = self.finish(x[1], c, None, f)
                        if "*" not in self.resolve(c["d"]) and x[2]:
                            y = self.set_sub(y, c["d"], x[2])
                        out.append(y)
                    else:
                        out.append(self.finish(x, c, None, f))
                return out
            u = r
        else:
            for i, a in enumerate(args):
                v = self.vec_of(a)
                if v is None:
                    continue
                cur = u[0][self.idx(v)]
                if short == "len":
                    dest = ("L", v, cur[2]) if cur[0] == "V" else None
                elif short == "push" and i == 0:
                    u = self.set_field(u, v, add(cur, 1) if cur[0] == "V" else ("?", v, 0))
                elif short == "pop" and i == 0:
                    u = self.set_field(u, v, add(cur, -1) if cur[0] == "V" else ("?", v, 0))
                elif short == "truncate" and i == 0:
                    u = self.cut(u, v, self.value(u, args[1]))
                elif short in ("clear", "append", "extend", "extend_from_slice", "insert", "resize",
                               "drain", "split_off", "resize_with", "reserve", "set_len"):
                    if short != "reserve":
                        u = self.set_field(u, v, ("?", v, 0))
        return self.finish(u, c, dest, f)

    def finish(self, u, c, dest, f):
        if c["d"] == [0]:
            if "from_residual" in f:
                u = (u[0], u[1], "Err")
            else:
                u = (u[0], u[1], None)
        return self.put(u, c["d"], dest)

    def cut(self, u, v, mark):
        if mark is not None and mark[0] == "L" and mark[1] == v:
            return self.set_field(u, v, ("V", v, mark[2]))
        return self.set_field(u, v, ("C", v, 0))

    def local_call(self, block, c, u, f, short):
        args = c["a"]
        m = MARK_CALL.get(self.name)
        if m and (short == m or self.rule.reaches(f, m)):
            u = self.set_mark(u, 1)
        if short in CUT and len(args) >= 2:
            return self.cut(u, "environment", self.value(u, args[1]))
        if short in ("pop_environment_entry_discard", "pop_environment_entry"):
            cur = u[0][self.idx("environment")]
            return self.set_field(u, "environment",
                                  add(cur, -1) if cur[0] == "V" else ("?", "environment", 0))
        eff = self.rule.protocol(f)
        if eff is not None:
            # a protocol function: apply its fixed depth effect where it is unconditional
            for field, want in eff.get("*", {}).items():
                if field == "call_depth" and isinstance(want, int):
                    i = self.idx(field)
                    u = self.set_field(u, field, add(u[0][i], want))
                if want == "cut":
                    u = self.set_field(u, field, ("C", field, 0))
            return u
        if self.rule.is_transformer(f) and self.depth < 3:
            return self.inline(f, c, u)
        if self.rule.may_grow_env(f):
            cur = u[0][self.idx("environment")]
            # Balanced callee: may leave cells of the current frame behind only if it is not a
            # frame function itself.
            if not self.rule.is_frame_fn(f):
                u = self.set_field(u, "environment", ("?", "environment", 0))
        return u

    def inline(self, f, c, u):
        body = self.rule.facts.body(f)
        loc = set()
        for i, a in enumerate(c["a"]):
            v = self.value(u, a)
            p = op_place(a)
            if v is not None:
                loc.add(((i + 1,), v))
            elif p is not None:
                for x, y in self.sub(u, p):
                    loc.add(((i + 1,) + x, y))
        loc = frozenset(loc)
        sub = Frame(body, self.rule, entry=(u[0], loc, None), depth=self.depth + 1)
        sub.run()
        out = []
        for fields, kind, rets in sub.exits:
            out.append(("inl", (fields, u[1], u[2]), rets))
        return out or [u]

    def ret(self, block, u, node):
        rets = frozenset((k[1:], v) for k, v in u[1] if k[0] == 0)
        self.exits.add((u[0], u[2], rets))
        self.rule.exit_trace[(self.body.name, u[0], u[2])] = (block, self.trace(node))


class Rule:
    def __init__(self, F):
        self.facts = F
        self.exit_trace = {}
        self.writers = {}
        self.vec_writers = {}
        for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
            for i, j, p, rv, l in b.assigns():
                f = ctx_field(p)
                if f in SCALARS:
                    self.writers.setdefault(b.name, set()).add(f)
                if rv[0] == "ref" and rv[1] == "mut":
                    f = ctx_field(rv[2])
                    if f in SCALARS:
                        self.writers.setdefault(b.name, set()).add(f)
                    elif f in VECS:
                        self.vec_writers.setdefault(b.name, set()).add(f)
            for i, c in b.calls():
                f = ctx_field(c["d"])
                if f in SCALARS:
                    self.writers.setdefault(b.name, set()).add(f)
        self._grow = None
        self.summary = {}
        self._busy = set()
        self._reach = {}

    def protocol(self, f):
        return SUSPEND.get(f.rsplit("::", 1)[-1]) if f in self.writers else None

    def is_frame_fn(self, f):
        return f in self.writers and not self.is_transformer(f)

    def may_grow_env(self, f):
        if self._grow is None:
            # backwards closure of direct environment writers
            roots = {n for n, v in self.vec_writers.items() if "environment" in v}
            rev = {}
            for a, bs in self.facts.callgraph.items():
                for b in bs:
                    rev.setdefault(b, set()).add(a)
            seen = set(roots)
            work = list(roots)
            while work:
                x = work.pop()
                for y in rev.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            self._grow = seen
        return f in self._grow

    def reaches(self, f, name):
        if name not in self._reach:
            goal = [g for g in self.facts.fns if g.endswith("::" + name)]
            rev = {}
            for a, bs in self.facts.callgraph.items():
                for b in bs:
                    rev.setdefault(b, set()).add(a)
            seen, work = set(goal), list(goal)
            while work:
                for y in rev.get(work.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            self._reach[name] = seen
        return f in self._reach[name]

    def exits(self, f):
        if f not in self.summary:
            if f in self._busy:
                return set()
            self._busy.add(f)
            fl = Frame(self.facts.body(f), self)
            fl.run()
            self._busy.discard(f)
            self.summary[f] = fl.exits
        return self.summary[f]

    def relevant_vecs(self, f):
        """Stacks this function must bring back: those it grows while opening a frame."""
        r = set()
        if self.writers.get(f):
            r |= self.vec_writers.get(f, set())
        if "call_depth" in self.writers.get(f, ()):
            r.add("environment")
        r |= {v for v in self.vec_writers.get(f, set()) if v == "extra_parameters"}
        return r

    def mismatches(self, f):
        out = []
        proto = SUSPEND.get(f.rsplit("::", 1)[-1], {})
        vecs = self.relevant_vecs(f)
        for fields, kind, _ in self.exits(f):
            exp = dict(proto.get("*", {}))
            if kind:
                exp.update(proto.get(kind, {}))
            for i, name in enumerate(SCALARS + VECS):
                v = fields[i]
                want = exp.get(name, 0)
                if want == "any":
                    continue
                if name in VECS:
                    if name not in vecs:
                        continue
                    if want in ("cut-entered", "cut-mark"):
                        if not fields[-1][2] & (2 if want == "cut-entered" else 1):
                            continue
                        want = "cut"
                    if want == "cut":
                        if v[0] not in ("C",) and v != ("V", name, 0):
                            out.append((name, kind, v, fields))
                        continue
                    if v != ("V", name, 0) and not (v[0] == "C" and name == "environment"
                                                    and name not in self.strict(f)):
                        out.append((name, kind, v, fields))
                    continue
                if want in ("+mark", "-mark"):
                    mk = fields[-1][2] & 1
                    want = mk if want == "+mark" else -mk
                wants = [int(w) for w in want] if isinstance(want, tuple) else [want]
                if v[0] != "F" or v[1] != name or v[2] not in wants:
                    out.append((name, kind, v, fields))
        return out

    def strict(self, f):
        return ("environment", "extra_parameters")

    def is_transformer(self, f):
        """A private helper that leaves the state changed for its caller to balance."""
        if f not in self.writers or SUSPEND.get(f.rsplit("::", 1)[-1]) is not None:
            return False
        if f in self._busy:
            return False
        if self.facts.fns[f].get("impl_of"):
            return False
        if any(f.endswith("::" + n) for n in NAMED):
            return False
        return bool(self.mismatches(f)) and self.has_callers(f)

    def has_callers(self, f):
        return any(f in cs for g, cs in self.facts.callgraph.items() if g != f)


# Frame functions confirmed by hand; each must balance on its own.
NAMED = ("call_function", "call_accessor_until_yield", "resume_suspended_accessor_epilogue_inner",
         "call_function_value", "run_function", "exec_project", "exec_end_project")


def describe(v):
    if v[0] == "?":
        return "an untracked value"
    if v[0] == "C":
        return "truncated to an unrelated mark"
    if v[0] == "V":
        return f"length at entry {v[2]:+d}"
    if v[0] == "F":
        return f"entry value of {v[1]} {v[2]:+d}"
    if v[0] == "L":
        return f"entry length of {v[1]} {v[2]:+d}"
    return str(v)


def run(F, R, tier):
    rule = Rule(F)
    fns = sorted(set(rule.writers) | {n for n, v in rule.vec_writers.items()
                                      if "extra_parameters" in v or n.endswith("call_function_value")})
    n = 0
    for f in fns:
        R.fn(f)
        meta = F.fns[f]
        try:
            bad = rule.mismatches(f)
        except TooBig:
            R.bad("restore", f"{f}|too-big", meta["file"], "state space bound exceeded")
            continue
        if bad and rule.is_transformer(f):
            R.note(f"{f} is inlined into its callers")
            continue
        badf = {}
        for name, kind, v, fields in bad:
            badf.setdefault(name, (kind, v, fields))
        names = sorted(rule.writers.get(f, set())) + sorted(rule.relevant_vecs(f) |
                 (rule.vec_writers.get(f, set()) if f.endswith("call_function_value") else set()))
        for name in dict.fromkeys(names):
            n += 1
            if name in badf:
                kind, v, fields = badf[name]
                blk, tr = rule.exit_trace.get((f, fields, kind), (None, []))
                R.bad("restore", f"{f}|{name}", f"{meta['file']}:{meta['line']}",
                      f"a path returning {kind or 'normally'} leaves `{name}` as {describe(v)}; "
                      f"path through lines {tr}")
            else:
                R.ob("restore", f"{f}|{name}", True, f"{meta['file']}:{meta['line']}")
        for name in badf:
            if name not in names:
                kind, v, fields = badf[name]
                R.bad("restore", f"{f}|{name}", f"{meta['file']}:{meta['line']}",
                      f"leaves `{name}` as {describe(v)}")
    R.floor("functions that write frame state", len([f for f in fns if f in rule.writers]), 8)
    R.floor("frame-field obligations", n, 20)
