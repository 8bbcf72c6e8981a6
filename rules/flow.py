"""Path-sensitive abstract interpretation of one MIR body.

`PathFlow` explores (block, state) pairs over normal edges. The state is made of
  * facts: what the branches taken so far say about conditions that cannot have changed since
    (so two `if let Some(x) = saved` tests of one local, or of two locals built by
    `cond.then_some(..)`, are correlated), and
  * a rule-specific immutable user state.
"""
from facts import op_place, op_local, is_call

SOME_TESTS = {
    "core::option::Option::<T>::is_some": ("Some", True),
    "core::option::Option::<T>::is_none": ("Some", False),
    "core::result::Result::<T, E>::is_ok": ("Ok", True),
    "core::result::Result::<T, E>::is_err": ("Ok", False),
}
THEN_SOME = ("core::bool::<impl bool>::then_some", "core::bool::<impl bool>::then")


class TooBig(Exception):
    pass


class Conditions:
    """Canonical keys of branch conditions."""

    def __init__(self, body):
        self.body = body
        self.defs = body.defs()
        self.mutref = set()
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "ref" and s[2][1] == "mut" and "*" not in s[2][2]:
                    self.mutref.add(s[2][2][0])
                if s[0] == "=" and s[2][0] == "rawptr" and "*" not in s[2][1]:
                    self.mutref.add(s[2][1][0])

    def single(self, local):
        d = [x for x in self.defs.get(local, []) if x[3] == [local]]
        if len(self.defs.get(local, [])) == 1 and len(d) == 1:
            return d[0]
        return None

    def canon_local(self, local, depth=0):
        """Follow whole-value copies of single-definition locals."""
        d = self.single(local)
        if d and depth < 12 and not is_call(d[2]) and d[2][0] == "use":
            p = op_place(d[2][1])
            if p is not None and len(p) == 1 and p[0] not in self.mutref:
                return self.canon_local(p[0], depth + 1)
        return local

    def of_operand(self, op, depth=0):
        """(key, mapping from switch value to canonical value) or None."""
        p = op_place(op)
        if p is None or len(p) != 1 or depth > 12:
            return None
        d = self.single(p[0])
        if d is None:
            return None if p[0] in self.mutref else (("b", p[0]), None)
        rv = d[2]
        if is_call(rv):
            t = SOME_TESTS.get(rv.get("f"))
            if t and rv["a"]:
                r = self.ref_target(rv["a"][0])
                if r is not None:
                    k = self.disc_key(r)
                    if k:
                        key, flip = k
                        pos = (t[1] if t[0] == "Some" else not t[1])
                        # canonical value: discriminant as a string
                        m = {"1": "1" if pos else "0", "0": "0" if pos else "1"}
                        if key[0] == "b":
                            return key, m
                        return key, m
            return ("b", p[0]), None
        if rv[0] == "use":
            q = op_place(rv[1])
            if q is not None and len(q) == 1 and q[0] not in self.mutref:
                return self.of_operand(rv[1], depth + 1)
            return ("b", p[0]), None
        if rv[0] == "un" and rv[1] == "Not":
            r = self.of_operand(rv[2], depth + 1)
            if r:
                key, m = r
                base = m or {"0": "0", "1": "1"}
                return key, {"0": base["1"], "1": base["0"]} if "0" in base and "1" in base else None
            return None
        if rv[0] == "disc":
            k = self.disc_key(rv[1])
            if k:
                return k[0], None
            return None
        if rv[0] in ("bin", "cast"):
            return ("b", p[0]), None
        return ("b", p[0]), None

    def ref_target(self, op):
        p = op_place(op)
        if p is None or len(p) != 1:
            return None
        d = self.single(p[0])
        if d and not is_call(d[2]) and d[2][0] == "ref":
            return d[2][2]
        if d and not is_call(d[2]) and d[2][0] == "use":
            return self.ref_target(d[2][1])
        return None

    def disc_key(self, place):
        r = place[0]
        if r in self.mutref:
            return None
        if "*" in place:
            # through an immutable reference only
            i = place.index("*")
            if i != 1 or self.body.ty(r)["k"] != "ref" or "*" in place[2:]:
                return None
        if len(place) == 1:
            r = self.canon_local(r)
            d = self.single(r)
            if d and is_call(d[2]) and d[2].get("f") in THEN_SOME:
                k = self.of_operand(d[2]["a"][0])
                if k and (k[1] is None or all(a == b for a, b in k[1].items())):
                    return k[0], False
            return ("d", r), False
        return ("d",) + tuple(place), False


def consistent(fact, values, is_otherwise):
    """fact: ("=", v) or ("!", set)."""
    if fact is None:
        return True
    if fact[0] == "=":
        return fact[1] not in values if is_otherwise else fact[1] in values
    return True if is_otherwise else not any(v in fact[1] for v in values)


class PathFlow:
    """Subclass and override init/stmt/call/branch/ret."""
    cap = 60000

    def __init__(self, body):
        self.body = body
        self.cond = Conditions(body)

    # hooks -----------------------------------------------------------------------------
    def init(self):
        return ()

    def stmt(self, block, idx, s, user):
        return user

    def call(self, block, c, user):
        """Returns user, or a list of user states."""
        return user

    def drop(self, block, place, ty, user):
        return user

    def edge(self, block, target, value, key, user):
        """Called on a switch edge; return user or None when the edge cannot be taken."""
        return user

    def ret(self, block, user, trace):
        pass

    # engine ----------------------------------------------------------------------------
    def tracked_keys(self):
        """Keys worth remembering: tested at least twice, or a flag assigned constants."""
        n = {}
        flags = set()
        for b in self.body.blocks:
            if not b["c"] and b["t"][0] == "switch":
                k = self.cond.of_operand(b["t"][1])
                if k:
                    n[k[0]] = n.get(k[0], 0) + 1
        for k in n:
            if k[0] == "b":
                ds = self.cond.defs.get(k[1], [])
                if len(ds) > 1 and any(not is_call(d[2]) and d[2][0] == "use" and
                                       d[2][1][0] == "k" and "v" in d[2][1][1] for d in ds):
                    flags.add(k)
        return {k for k, c in n.items() if c > 1} | flags

    def run(self):
        self.keep = self.tracked_keys()
        start = (0, frozenset(), self.init())
        self.pred = {start: None}
        work = [start]
        self.states = 0
        while work:
            node = work.pop()
            self.states += 1
            if self.states > self.cap:
                raise TooBig(self.body.name)
            for nxt in self.step(node):
                if nxt not in self.pred:
                    self.pred[nxt] = node
                    work.append(nxt)
        return self

    def trace(self, node):
        out = []
        while node is not None:
            out.append(self.body.line(node[0]))
            node = self.pred[node]
        out.reverse()
        r = []
        for l in out:
            if not r or r[-1] != l:
                r.append(l)
        return r

    def kill(self, facts, local):
        if not facts:
            return facts
        if any(k[1] == local for k, _ in facts):
            return frozenset((k, v) for k, v in facts if k[1] != local)
        return facts

    def step(self, node):
        b, facts, user = node
        bl = self.body.blocks[b]
        for i, s in enumerate(bl["s"]):
            user = self.stmt(b, i, s, user)
            if user is None:
                return
            if s[0] == "=":
                facts = self.kill(facts, s[1][0])
                kk = ("b", s[1][0])
                if kk in self.keep and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] == "k" \
                        and "v" in s[2][1][1]:
                    facts = facts | {(kk, ("=", s[2][1][1]["v"]))}
        t = bl["t"]
        k = t[0]
        if k == "goto":
            yield (t[1], facts, user)
        elif k == "switch":
            key = self.cond.of_operand(t[1])
            fd = dict(facts)
            vals = [v for v, _ in t[2]]
            for v, tgt in t[2]:
                cv = v
                if key and key[1]:
                    cv = key[1].get(v, v)
                if key and not consistent(fd.get(key[0]), [cv], False):
                    continue
                u = self.edge(b, tgt, v, key, user)
                if u is None:
                    continue
                f2 = facts
                if key and key[0] in self.keep:
                    f2 = frozenset([(kk, vv) for kk, vv in facts if kk != key[0]] +
                                   [(key[0], ("=", cv))])
                yield (tgt, f2, u)
            o = t[3]
            if self.body.blocks[o]["t"][0] == "unreach" and not self.body.blocks[o]["s"]:
                return
            cvals = [(key[1].get(v, v) if key and key[1] else v) for v in vals]
            if key and not consistent(fd.get(key[0]), cvals, True):
                return
            u = self.edge(b, o, None, key, user)
            if u is None:
                return
            f2 = facts
            if key and key[0] in self.keep:
                old = fd.get(key[0])
                if old is None or old[0] == "!":
                    ns = frozenset(cvals) | (old[1] if old else frozenset())
                    isbool = self.body.facts.types[t[4]]["s"] == "bool"
                    nv = ("!", ns)
                    if isbool and len(ns) == 1:
                        nv = ("=", "1" if "0" in ns else "0")
                    elif len(ns) == 1 and self._two(key[0]):
                        nv = ("=", "1" if "0" in ns else "0")
                    f2 = frozenset([(kk, vv) for kk, vv in facts if kk != key[0]] + [(key[0], nv)])
            yield (o, f2, u)
        elif k == "call":
            c = t[1]
            r = self.call(b, c, user)
            if r is None:
                return
            if t[2] is not None:
                facts = self.kill(facts, c["d"][0])
                for u in (r if isinstance(r, list) else [r]):
                    yield (t[2], facts, u)
        elif k == "drop":
            u = self.drop(b, t[1], t[2], user)
            yield (t[3], facts, u)
        elif k == "assert":
            yield (t[5], facts, user)
        elif k == "ret":
            self.ret(b, user, node)

    def _two(self, key):
        """A two-variant discriminant (Option, Result, bool)."""
        if key[0] == "b":
            return self.body.tys(key[1]) == "bool"
        t = self.body.ty(key[1])["s"]
        return t.startswith(("core::option::Option<", "core::result::Result<"))
