"""Whole-value provenance across bodies: which call or constant a value comes from, following copies, references,
Ok/Some payloads, arguments to local functions (all callers) and closure captures."""
from facts import *

PASS = ("::deref", "::deref_mut", "::as_ref", "::as_mut", "::clone", "::borrow", "::borrow_mut", "::to_path_buf",
        "::to_owned", "::as_path", "::as_slice", "::into", "::from", "::as_bytes", "::branch", "::ok", "::map_err",
        "::must_use", "::to_vec", "::by_ref", "::into_boxed_slice", "::as_mut_slice", "::ok_or", "::ok_or_else",
        "::leak", "::into_owned", "::unwrap", "::expect", "::cloned", "::copied", "::as_str", "::as_mut_str")
PEEL = {"as Ok", "as Some", "as Continue"}


class Terms:
    def __init__(self, F, expand_args=True):
        self.F = F
        self.expand = expand_args
        self.memo = {}
        self._callers = None

    def callers(self, f):
        if self._callers is None:
            self._callers = {}
            for b in self.F.all_bodies():
                for i, c in b.calls():
                    if c.get("f") in self.F.fns:
                        self._callers.setdefault(c["f"], []).append((b, i, c))
        return self._callers.get(f, [])

    def of(self, b, op, seen=frozenset()):
        if op[0] == "k":
            c = op[1]
            return {("const", str(c.get("str", c.get("v", c.get("fn", c.get("def", "?"))))))}
        return self.place(b, op[1], seen)

    def place(self, b, place, seen=frozenset()):
        key = (b.name, tuple(place))
        if key in seen:
            return set()
        seen = seen | {key}
        l = place[0]
        proj = [e for e in place[1:] if e != "*"]
        # peel success payloads, keep other fields
        k = 0
        rest = []
        while k < len(proj):
            if proj[k] in PEEL:
                k += 2
                continue
            rest.append(proj[k])
            k += 1
        if rest and l == 1 and "::{closure#" in b.name and rest[0].startswith("."):
            got = self.capture(b, rest[0].split(":")[0][1:], seen)
            if got is not None:
                return self.fields(got, rest[1:])
        if rest:
            # a field of a local tuple or struct literal
            ag = [rv for _, _, rv, p in b.defs().get(l, []) if len(p) == 1 and not is_call(rv) and rv[0] == "agg"]
            allw = [1 for _, _, rv, p in b.defs().get(l, []) if len(p) == 1]
            if ag and len(ag) == len(allw) and rest[0].startswith("."):
                n = rest[0].split(":")[0][1:]
                out = set()
                for rv in ag:
                    names = rv[5] or [str(i) for i in range(len(rv[4]))]
                    if n in names:
                        out |= self.of(b, rv[4][names.index(n)], seen)
                    else:
                        out.add(("unknown", b.name, l))
                return self.fields(out, rest[1:])
        return self.fields(self.local(b, l, seen), rest)

    @staticmethod
    def fields(terms, rest):
        for e in rest:
            terms = {("fld", t, e.split(":")[0]) for t in terms}
        return terms

    def local(self, b, l, seen):
        if 1 <= l <= b.args:
            if not self.expand:
                return {("arg", b.name, l)}
            cs = self.callers(b.name)
            if not cs:
                return {("arg", b.name, l)}
            out = set()
            for cb, i, c in cs:
                if "::{closure#" in b.name:
                    # closure call: (env, args...) either spread or tupled
                    out |= self.of(cb, c["a"][l - 1], seen) if l - 1 < len(c["a"]) else {("arg", b.name, l)}
                else:
                    out |= self.of(cb, c["a"][l - 1], seen)
            return out
        out = set()
        for blk, j, rv, p in b.defs().get(l, []):
            if len(p) > 1:
                continue
            if is_call(rv):
                f = rv.get("f", "?")
                if f.endswith(PASS) and rv["a"] and f not in self.F.fns:
                    out |= self.of(b, rv["a"][0], seen)
                elif f.endswith("::with_extension") and len(rv["a"]) == 2:
                    for t in self.of(b, rv["a"][0], seen):
                        es = self.of(b, rv["a"][1], seen)
                        e = next(iter(es))[1] if len(es) == 1 and next(iter(es))[0] == "const" else f"dynamic@{b.name}:{blk}"
                        out.add(("ext", t, e))
                else:
                    out.add(("call", f, b.name, blk))
            elif rv[0] == "use":
                out |= self.of(b, rv[1], seen)
            elif rv[0] == "cast":
                out |= self.of(b, rv[2], seen)
            elif rv[0] == "ref":
                out |= self.place(b, rv[2], seen)
            elif rv[0] == "agg" and rv[3] in ("Ok", "Some") and len(rv[4]) == 1:
                out |= self.of(b, rv[4][0], seen)
            elif rv[0] == "agg" and rv[3] in ("Err", "None"):
                pass
            else:
                out.add((rv[0], b.name, blk))
        return out

    def capture(self, b, idx, seen):
        parent = b.name.rsplit("::{closure#", 1)[0]
        if parent not in self.F.fns or not idx.isdigit():
            return None
        pb = self.F.body(parent)
        out = set()
        n = 0
        for i, j, p, rv, line in pb.assigns():
            if rv[0] == "agg" and rv[1] == "closure" and rv[2] == b.name and int(idx) < len(rv[4]):
                n += 1
                out |= self.of(pb, rv[4][int(idx)], seen)
        return out if n else None

    def call_of(self, term):
        return self.F.body(term[2]).blocks[term[3]]["t"][1]


def leaves(t):
    """Call terms inside a term."""
    if t[0] == "call":
        return {t}
    if t[0] == "fld":
        return leaves(t[1])
    if t[0] == "ext":
        return leaves(t[1])
    return set()
