"""A small path-sensitive abstract interpreter for one MIR body.

Memory maps canonical places (tuples: local, then projections with references resolved) to abstract
leaves. An aggregate is stored leaf by leaf under its place, with ("enum", variant) at the place itself.

Leaves: ("k", int) constant; ("sym", name, delta) a symbolic quantity plus a constant;
("ref", place); ("enum", variant); ("app", function, args...) an uninterpreted call result; TOP = None.
The rule supplies `compare(op, a, b)` (True/False/None) to decide branches on symbols, `on_call`
for calls, and `on_ret` at returns. Branches that cannot be decided are taken both ways.
"""
from facts import *

CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}


class Stop(Exception):
    pass


def pname(e):
    if e == "*":
        return "*"
    if e.startswith("."):
        return e.split(":")[0]
    return e


class AbsInt:
    limit = 4000
    visits = 3

    def __init__(self, F, body):
        self.F = F
        self.body = body
        self.steps = 0

    # hooks ---------------------------------------------------------------------------------
    def compare(self, op, a, b):
        return None

    def on_call(self, c, args, mem, trace):
        """Returns a leaf, a dict {suffix: leaf}, or a list of either (one continuation each)."""
        return None

    def on_ret(self, mem, trace):
        pass

    def on_write(self, key, leafs, mem, trace):
        pass

    # memory --------------------------------------------------------------------------------
    def resolve(self, place, mem):
        key = (place[0],)
        for e in place[1:]:
            if e == "*":
                v = mem.get(key)
                if v and v[0] == "ref":
                    key = v[1]
                else:
                    key = key + ("*",)
            else:
                key = key + (pname(e),)
        return key

    @staticmethod
    def read(key, mem):
        n = len(key)
        return {k[n:]: v for k, v in mem.items() if k[:n] == key}

    @staticmethod
    def write(key, leafs, mem):
        n = len(key)
        for k in [k for k in mem if k[:n] == key]:
            del mem[k]
        # writing part of an aggregate leaves the rest; writing over a leaf's parent was handled
        for s, v in leafs.items():
            if v is not None:
                mem[key + s] = v

    def const(self, c):
        if "v" in c:
            try:
                return {(): ("k", int(c["v"]))}
            except (TypeError, ValueError):
                return {}
        return {}

    def operand(self, o, mem):
        if o[0] == "k":
            return self.const(o[1])
        return self.read(self.resolve(o[1], mem), mem)

    # expressions ---------------------------------------------------------------------------
    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in CMP:
            r = None
            if a and b and a[0] == "k" and b[0] == "k":
                x, y = a[1], b[1]
                r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[base]
            elif a and b:
                r = self.compare(base, a, b)
            return None if r is None else ("k", int(r))
        if base in ("Add", "Sub") and a and b:
            if b[0] == "k":
                d = b[1] if base == "Add" else -b[1]
                if a[0] == "k":
                    return ("k", a[1] + d)
                if a[0] == "sym":
                    return ("sym", a[1], a[2] + d)
            if a[0] == "k" and b[0] == "sym" and base == "Add":
                return ("sym", b[1], b[2] + a[1])
        if base in ("BitAnd", "BitOr") and a and b and a[0] == "k" and b[0] == "k":
            return ("k", a[1] & b[1] if base == "BitAnd" else a[1] | b[1])
        return None

    def rvalue(self, rv, mem):
        k = rv[0]
        if k == "use":
            return self.operand(rv[1], mem)
        if k == "ref":
            return {(): ("ref", self.resolve(rv[2], mem))}
        if k == "rawptr":
            return {(): ("ref", self.resolve(rv[1], mem))}
        if k == "cast":
            return self.operand(rv[2], mem) if rv[1] != "transmute" else {}
        if k == "bin":
            a = self.operand(rv[2], mem).get(())
            b = self.operand(rv[3], mem).get(())
            r = self.binop(rv[1], a, b)
            if rv[1].endswith("WithOverflow"):
                return {(".0",): r} if r else {}
            return {(): r} if r else {}
        if k == "un" and rv[1] == "Not":
            v = self.operand(rv[2], mem).get(())
            if v and v[0] == "k" and v[1] in (0, 1):
                return {(): ("k", 1 - v[1])}
            return {}
        if k == "disc":
            key = self.resolve(rv[1], mem)
            v = mem.get(key)
            row = self.F.types[rv[2]]
            if v and v[0] == "enum":
                return {(): ("disc", row["d"], v[1])}
            return {(): ("discof", key, rv[2])}
        if k == "agg":
            out = {}
            if rv[1] == "adt":
                isenum = rv[3] and rv[3] != rv[2].rsplit("::", 1)[-1] or self.is_enum(rv[2])
                pre = ()
                if isenum:
                    out[()] = ("enum", rv[3])
                    pre = (f"as {rv[3]}",)
                names = rv[5] or [str(i) for i in range(len(rv[4]))]
                for n, o in zip(names, rv[4]):
                    for s, v in self.operand(o, mem).items():
                        out[pre + ("." + n,) + s] = v
            else:
                for n, o in enumerate(rv[4]):
                    for s, v in self.operand(o, mem).items():
                        out[("." + str(n),) + s] = v
            return out
        return {}

    def is_enum(self, path):
        a = self.F.adts.get(path)
        if a:
            return a.get("kind") == "enum" or len(a["variants"]) > 1
        return path in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow")

    STD = {("core::option::Option", "None"): "0", ("core::option::Option", "Some"): "1",
           ("core::result::Result", "Ok"): "0", ("core::result::Result", "Err"): "1",
           ("core::ops::control_flow::ControlFlow", "Continue"): "0",
           ("core::ops::control_flow::ControlFlow", "Break"): "1"}

    def disc_value(self, adt, variant):
        if (adt, variant) in self.STD:
            return self.STD[(adt, variant)]
        for d, n in self.F.variant_by_disc(adt).items():
            if n == variant:
                return d
        return None

    def variant_of(self, adt, disc):
        for (a, n), d in self.STD.items():
            if a == adt and d == disc:
                return n
        return self.F.variant_by_disc(adt).get(disc)

    # standard calls ------------------------------------------------------------------------
    def std_call(self, c, args, mem):
        """Interpretation of a few library calls; returns NotImplemented otherwise."""
        f = c.get("f", "")
        if f == "<core::result::Result<T, E> as core::ops::try_trait::Try>::branch":
            v = args[0].get(())
            out = {}
            if v and v[0] == "enum":
                nv = "Continue" if v[1] == "Ok" else "Break"
                out[()] = ("enum", nv)
                for s, x in args[0].items():
                    if s and s[0] == f"as {v[1]}":
                        out[(f"as {nv}",) + ((s[1:]) if nv == "Continue" else (".0", "as Err") + s[1:])] = x
                if nv == "Break":
                    out[("as Break", ".0")] = ("enum", "Err")
                return out
            ok = {(): ("enum", "Continue")}
            bad = {(): ("enum", "Break"), ("as Break", ".0"): ("enum", "Err")}
            if v and v[0] == "app":
                bad[("as Break", ".0", "as Err", ".0")] = ("apperr",) + v
            return [ok, bad]
        if f.startswith("<core::result::Result<") and f.endswith("FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual"):
            return dict(args[0])
        if f.startswith("core::num::<impl ") and f.endswith("::checked_sub"):
            a, b = args[0].get(()), args[1].get(())
            r = self.compare("Lt", a, b) if a and b else None
            s = {(): ("enum", "Some"), ("as Some", ".0"): self.binop("Sub", a, b)}
            if r is True:
                return {(): ("enum", "None")}
            if r is False:
                return s
            return [s, {(): ("enum", "None")}]
        if f.startswith("core::num::<impl ") and f.endswith("::saturating_sub"):
            a, b = args[0].get(()), args[1].get(())
            if a and b and self.compare("Lt", a, b) is False:
                return {(): self.binop("Sub", a, b)}
            return {}
        if f in ("core::option::Option::<T>::is_none", "core::option::Option::<T>::is_some"):
            v = args[0].get(())
            if v and v[0] == "ref":
                e = mem.get(v[1])
                if e and e[0] == "enum":
                    return {(): ("k", int((e[1] == "Some") == f.endswith("is_some")))}
            return {}
        if f == "core::option::Option::<T>::as_mut" or f == "core::option::Option::<T>::as_ref":
            v = args[0].get(())
            if v and v[0] == "ref":
                e = mem.get(v[1])
                if e and e[0] == "enum":
                    out = {(): e}
                    if e[1] == "Some":
                        out[("as Some", ".0")] = ("ref", v[1] + ("as Some", ".0"))
                    return out
            return {}
        return NotImplemented

    # engine --------------------------------------------------------------------------------
    def run(self, mem):
        work = [(0, dict(mem), ())]
        while work:
            b, mem, trace = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise Stop("too many states in " + self.body.name)
            if trace.count(b) >= self.visits:
                continue
            trace = trace + (b,)
            bl = self.body.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    leafs = self.rvalue(s[2], mem)
                    key = self.resolve(s[1], mem)
                    self.on_write(key, leafs, mem, trace)
                    self.write(key, leafs, mem)
            t = bl["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], mem, trace))
            elif k == "drop":
                work.append((t[3], mem, trace))
            elif k == "assert":
                work.append((t[5], mem, trace))
            elif k == "switch":
                v = self.operand(t[1], mem).get(())
                if v and v[0] == "k":
                    tgt = next((x for d, x in t[2] if int(d) == v[1]), t[3])
                    work.append((tgt, mem, trace))
                    continue
                if v and v[0] == "disc":
                    d0 = self.disc_value(v[1], v[2])
                    tgt = next((x for d, x in t[2] if d == d0), t[3])
                    work.append((tgt, mem, trace))
                    continue
                ts = [x for x in list(t[2]) + [(None, t[3])]
                      if not (self.body.blocks[x[1]]["t"][0] == "unreach" and not self.body.blocks[x[1]]["s"])]
                for d, x in ts:
                    m2 = dict(mem)
                    if v and v[0] == "discof" and d is not None:
                        n = self.variant_of(self.F.types[v[2]]["d"], d)
                        if n:
                            m2[v[1]] = ("enum", n)
                    elif v and v[0] == "sym" and d is not None:
                        r = self.compare("Eq", v, ("k", int(d)))
                        if r is False:
                            continue
                    elif v and v[0] == "sym" and d is None:
                        if any(self.compare("Eq", v, ("k", int(e))) is True for e, _ in t[2]):
                            continue
                    work.append((x, m2, trace))
            elif k == "call":
                c = t[1]
                args = [self.operand(a, mem) for a in c["a"]]
                r = self.std_call(c, args, mem)
                if r is NotImplemented:
                    r = self.on_call(c, args, mem, trace)
                if t[2] is None:
                    continue
                for x in (r if isinstance(r, list) else [r]):
                    m2 = dict(mem)
                    leafs = x if isinstance(x, dict) else ({(): x} if x is not None else {})
                    key = self.resolve(c["d"], m2)
                    self.on_write(key, leafs, m2, trace)
                    self.write(key, leafs, m2)
                    work.append((t[2], m2, trace))
            elif k == "ret":
                self.on_ret(mem, trace)
        return self
