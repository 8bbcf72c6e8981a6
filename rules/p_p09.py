"""The compiled-std cache file: what is read is verified, what is written is complete, and no failure escapes."""
import re
from facts import *
from common import *
from absint import AbsInt, Stop
from terms import Terms, leaves, PASS
import p_p06

EXPLANATION = (
    "Every decoding of cache bytes is traced to its origin: bytes this process just encoded, or file bytes behind the "
    "true edge of a comparison of the digest of exactly those bytes with the stored checksum. A restored std is "
    "returned only behind a header comparison that covers every field of the header. Slicing of file bytes is "
    "evaluated for every file length up to 96, and no Result of I/O, decoding or restoring is unwrapped. Every write "
    "to the file system is enumerated with the path it names, traced through arguments and captures: the published "
    "path is only ever the target of a rename of a file opened create_new, written and synced on the way, by a holder "
    "of the cache lock, with bytes whose decoding and restoration succeeded.")

READS = ("std::fs::read", "std::fs::read_to_string")
WHOLE = PASS + ("::iter", "::into_iter", "::as_slice", "::finalize", "::index_full")
EQ = ("::eq", "::ne")


class Whole(Terms):
    """Terms that also look through iteration over every element."""


def run(F, R, tier):
    T = Terms(F)
    L = Terms(F, expand_args=False)
    decoders = {b.name for b in F.all_bodies() if any(c.get("f", "").startswith("postcard::de::from") for _, c in b.calls())
                and "snapshot" in b.name}
    encoders = {b.name for b in F.all_bodies() if any(c.get("f", "").startswith("postcard::ser::to_") for _, c in b.calls())
                and "snapshot" in b.name}
    R.floor("decoders", len(decoders), 1)
    R.floor("encoders", len(encoders), 1)
    trust(F, R, L, decoders, encoders)
    header(F, R, L)
    lengths(F, R, T)
    fallback(F, R, decoders, encoders)
    publication(F, R, T, L, decoders, encoders)


# ---- S1 -------------------------------------------------------------------------------------------
def trust(F, R, L, decoders, encoders):
    n = 0
    work = []
    for b in F.all_bodies():
        for i, c in b.calls():
            if c.get("f") in decoders:
                work.append((b, i, c["a"][0]))
    seen = set()
    while work:
        b, i, op = work.pop()
        R.fn(b)
        for t in L.of(b, op):
            if t[0] == "arg":
                if (t[1], t[2]) in seen:
                    continue
                seen.add((t[1], t[2]))
                cs = L.callers(t[1])
                if not cs:
                    R.bad("verified", f"{F.root_fn(b.name)}|from outside", b.where(i),
                          "a snapshot is decoded from bytes nobody verified")
                work += [(cb, k, c["a"][t[2] - 1]) for cb, k, c in cs]
                continue
            n += 1
            why = verified(F, L, t, b, i, encoders)
            R.ob("verified", f"{F.root_fn(b.name)}|{t[1].rsplit('::', 1)[-1] if t[0] == 'call' else t[0]}", why is None, b.where(i),
                 f"cache bytes are decoded without a verified checksum: {why}")
    R.floor("decoded byte sources", n, 2)


def verified(F, L, t, b, at, encoders, depth=0):
    if depth > 6:
        return "provenance too deep"
    base = t
    while base[0] == "fld":
        base = base[1]
    if base[0] != "call":
        return f"bytes come from {t[0]}"
    f, bn, blk = base[1], base[2], base[3]
    if t is not base and (f in encoders or f in F.fns):
        return f"a part of the result of {short(f)}"
    if f in encoders:
        return None
    if f in F.fns:
        g = F.body(f)
        return ok_verified(F, L, g, encoders, depth)
    if bn != b.name:
        return f"unverified bytes of {short(f)}"
    edges = digest_edges(F, L, b, t)
    if not edges:
        return f"no comparison of the whole digest of these bytes (from {short(f)}) with the stored checksum"
    if at in reach_avoiding(b, [0], (), edges):
        return "the checksum comparison can be bypassed"
    return None


def ok_verified(F, L, g, encoders, depth):
    n = 0
    for blk, j, rv, p in returned(g):
        if is_call(rv):
            if rv.get("f", "").endswith("::from_residual"):
                continue
            if rv.get("f", "").endswith(PASS) and rv["a"] and rv.get("f") not in F.fns:
                for t in L.of(g, rv["a"][0]):
                    n += 1
                    why = verified(F, L, t, g, blk, encoders, depth + 1)
                    if why:
                        return why
                continue
            n += 1
            why = verified(F, L, ("call", rv.get("f", "?"), g.name, blk), g, blk, encoders, depth + 1)
            if why:
                return why
        elif rv[0] == "agg" and rv[3] in ("Err", "None"):
            continue
        elif rv[0] == "agg" and rv[3] in ("Ok", "Some"):
            for t in L.of(g, rv[4][0]):
                n += 1
                why = verified(F, L, t, g, blk, encoders, depth + 1)
                if why:
                    return why
        else:
            return f"{g.name} returns a value of unknown origin"
    return None if n else f"{g.name} never returns verified bytes"


def returned(b):
    """Definitions that reach the return place through whole moves."""
    out = []
    seen = set()
    work = [0]
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for blk, j, rv, p in b.defs().get(l, []):
            if len(p) > 1:
                continue
            if not is_call(rv) and rv[0] == "use" and op_place(rv[1]) and len(op_place(rv[1])) == 1:
                work.append(op_local(rv[1]))
            else:
                out.append((blk, j, rv, p))
    return out


def whole(L, b, op, depth=0):
    """Terms through adapters that keep every element."""
    out = set()
    for t in L.of(b, op):
        out |= unwrap_iter(L, b, t, depth)
    return out


def unwrap_iter(L, b, t, depth):
    if depth < 6 and t[0] == "call" and t[2] == b.name and t[1].endswith(("::iter", "::into_iter", "::as_slice", "::finalize_fixed")):
        c = b.blocks[t[3]]["t"][1]
        return whole(L, b, c["a"][0], depth + 1)
    return {t}


def is_digest_of(F, L, b, t, payload):
    if t[0] != "call" or t[2] != b.name:
        return False
    c = b.blocks[t[3]]["t"][1]
    f = t[1]
    if f.endswith("::digest") and c["a"]:
        return L.of(b, c["a"][0]) == {payload}
    if f.endswith("::finalize") and c["a"]:
        h = op_local(c["a"][0])
        roots = {h}
        for _, _, rv, p in b.defs().get(h, []):
            if not is_call(rv) and rv[0] == "use":
                roots.add(op_local(rv[1]))
        ups = []
        for i, k in b.calls():
            if k.get("f", "").endswith(("::update", "::chain_update")):
                for _, _, rv, p in b.defs().get(op_local(k["a"][0]), []):
                    if not is_call(rv) and rv[0] == "ref" and rv[2][0] in roots:
                        ups.append(k)
        return len(ups) == 1 and L.of(b, ups[0]["a"][1]) == {payload}
    return False


def compare_kind(F, L, b, c, payload):
    """A call comparing the whole digest of payload with something else: True for equality."""
    f = c.get("f", "")
    if not f.endswith(EQ) or len(c["a"]) != 2 or f in F.fns:
        return None
    x, y = whole(L, b, c["a"][0]), whole(L, b, c["a"][1])
    dx = bool(x) and all(is_digest_of(F, L, b, t, payload) for t in x)
    dy = bool(y) and all(is_digest_of(F, L, b, t, payload) for t in y)
    if dx == dy:
        return None
    other = y if dx else x
    if any(t == payload for t in other):
        return None
    return f.endswith("::eq")


def digest_edges(F, L, b, payload):
    good = {}
    for i, c in b.calls():
        k = compare_kind(F, L, b, c, payload)
        if k is not None:
            good[i] = k
        elif c.get("f") in F.fns and F.fns[c["f"]]["kind"] == "fn":
            for n, a in enumerate(c["a"]):
                if L.of(b, a) == {payload} and bool_verifier(F, L, c["f"], n + 1):
                    good[i] = True
    dests = {b.blocks[i]["t"][1]["d"][0]: k for i, k in good.items()}

    def cond(op, blk):
        pol = negations(b, op, lambda p, rv: p is not None and len(p) == 1 and p[0] in dests)
        if pol is None:
            return None
        l = op_local(op)
        src = chase(b, op, dests)
        return pol if dests[src] else not pol
    return bool_edges(b, cond, True)


def chase(b, op, dests):
    l = op_local(op)
    for _ in range(12):
        if l in dests:
            return l
        ds = b.defs().get(l, [])
        rv = ds[0][2]
        l = op_local(rv[1] if rv[0] == "use" else rv[2])
    return l


def bool_verifier(F, L, f, argn):
    g = F.body(f)
    if g.tys(0) != "bool":
        return False
    payload = ("arg", f, argn)
    edges = digest_edges(F, L, g, payload) if not getattr(g, "_busy", False) else set()
    for blk, j, rv, p in returned(g):
        if is_call(rv):
            if compare_kind(F, L, g, rv, payload) is True:
                continue
            return False
        if rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == "0":
            continue
        if rv[0] == "un" and rv[1] == "Not":
            ts = L.of(g, rv[2])
            if ts and all(t[0] == "call" and compare_kind(F, L, g, g.blocks[t[3]]["t"][1], payload) is False for t in ts):
                continue
            return False
        if edges and blk not in reach_avoiding(g, [0], (), edges):
            continue
        return False
    return True


def short(f):
    return re.sub(r"<[^<>]*>", "", f).rsplit("::", 1)[-1]


# ---- S2 -------------------------------------------------------------------------------------------
def header(F, R, L):
    hdr = next((a for a in F.adts if a.endswith("::StdSnapshotHeader")), None)
    env = next((a for a in F.adts if a.endswith("envelope::StdSnapshot")), None)
    if not hdr or not env:
        R.bad("header", "types", "src/compiler/snapshot/envelope.rs", "snapshot header types not found")
        return
    fields = [f[0] for f in F.adts[hdr]["variants"][0]["fields"]]
    R.floor("header fields", len(fields), 4)
    memo = {}
    n = 0
    for b in F.all_bodies():
        if "Serialize" in b.name or "Deserialize" in b.name or "core::fmt::Debug" in b.name or "core::clone::Clone" in b.name or \
                "core::cmp::" in b.name:
            continue
        reads = [i for i, j, p, rv, l in b.assigns() if any(field_of(q, "payload", env.rsplit("::", 1)[0]) for q in rv_places(rv))]
        reads += [i for i, c in b.calls() for a in c["a"] if op_place(a) and field_of(op_place(a), "payload", env.rsplit("::", 1)[0])]
        if not reads:
            continue
        R.fn(b)
        root = F.root_fn(b.name)
        if not result_ok(F, b):
            # not a restoration: every caller must hold a snapshot it captured itself
            bad = None
            for cb, i, c in L.callers(b.name):
                for t in Terms(F).of(cb, c["a"][0]):
                    base = t
                    while base[0] == "fld":
                        base = base[1]
                    if not (base[0] == "call" and base[1].endswith("::capture")):
                        bad = f"called from {F.root_fn(cb.name)} on a snapshot that was not captured here"
            R.ob("header", f"{root}|reads payload", bad is None, b.where(reads[0]), bad or "")
            n += 1
            continue
        oks = [(blk, rv) for blk, j, rv, p in returned(b) if not is_call(rv) and rv[0] == "agg" and rv[3] == "Ok"]
        others = [(blk, rv) for blk, j, rv, p in returned(b)
                  if (is_call(rv) and not rv.get("f", "").endswith("::from_residual")) or (not is_call(rv) and rv[0] != "agg")]
        for blk, rv in others:
            R.bad("header", f"{root}|indirect result", b.where(blk), "the restored std is returned through a result this rule cannot follow")
        for fld in fields:
            edges = implied_edges(F, L, b, fld, hdr, memo)
            for blk, rv in oks:
                n += 1
                ok = bool(edges) and blk not in reach_avoiding(b, [0], (), edges)
                R.ob("header", f"{root}|{fld}", ok, b.where(blk),
                     f"a std is restored without comparing header field `{fld}` for equality with this build's")
    R.floor("header obligations", n, 5)


def result_ok(F, b):
    return b.tys(0).startswith("core::result::Result")


def hdr_place(place, fld, hdr):
    return field_of(place, fld, hdr)


def direct(b, op, depth=0):
    """Places an operand is a copy of or reference to."""
    p = op_place(op)
    if p is None or depth > 8:
        return []
    out = [p]
    if len([e for e in p[1:] if e != "*"]) == 0:
        for _, _, rv, q in b.defs().get(p[0], []):
            if is_call(rv):
                if rv.get("f", "").endswith(PASS) and rv["a"]:
                    out += direct(b, rv["a"][0], depth + 1)
            elif rv[0] == "use":
                out += direct(b, rv[1], depth + 1)
            elif rv[0] == "ref":
                out += direct(b, ["c", rv[2]], depth + 1)
            elif rv[0] == "cast":
                out += direct(b, rv[2], depth + 1)
    return out


def mentions_header(b, op, fld, hdr, own):
    for p in direct(b, op):
        if fld is not None and field_of(p, fld, hdr) and (own is None or p[0] in own):
            return True
    return False


def from_same_header(F, L, b, op, hdr, fld):
    """The other side of a comparison is itself a stored header field (and not one of a header built here)."""
    for p in direct(b, op):
        if any(e.startswith(".header:") for e in p[1:]):
            return True
        if any(e.startswith(".") and hdr in e for e in p[1:]):
            ts = L.place(b, [p[0]])
            if not ts or not all(builds_header(F, t, hdr) for t in ts):
                return True
    return False


def builds_header(F, t, hdr):
    if t[0] != "call" or t[1] not in F.fns:
        return False
    g = F.body(t[1])
    return any(not is_call(rv) and rv[0] == "agg" and rv[2] == hdr for _, _, rv, p in returned(g))


def equality(F, L, b, rv, fld, hdr, memo, depth):
    """rv being true (or false when negative) implies header field fld equals something independent."""
    if is_call(rv):
        f = rv.get("f", "")
        if f.endswith(EQ) and f not in F.fns and len(rv["a"]) == 2:
            x, y = rv["a"]
            for u, v in ((x, y), (y, x)):
                if mentions_header(b, u, fld, hdr, None) and not from_same_header(F, L, b, v, hdr, fld):
                    return f.endswith("::eq")
        if f in F.fns and F.fns[f]["kind"] == "fn" and depth < 4:
            g = F.body(f)
            if g.tys(0) == "bool" and any(hdr in g.tys(k) for k in range(1, g.args + 1)):
                if fld in implied_fields(F, L, g, hdr, memo, depth + 1):
                    # none of the other arguments may be a field of a stored header
                    hs = [a for k, a in enumerate(rv["a"]) if hdr not in g.tys(k + 1)]
                    if not any(from_same_header(F, L, b, a, hdr, fld) for a in hs):
                        return not f.endswith("::ne")
        return None
    if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
        for u, v in ((rv[2], rv[3]), (rv[3], rv[2])):
            if mentions_header(b, u, fld, hdr, None) and not from_same_header(F, L, b, v, hdr, fld):
                return rv[1] == "Eq"
    return None


def implied_fields(F, L, g, hdr, memo, depth=0):
    if g.name in memo:
        return memo[g.name]
    memo[g.name] = set()
    out = set()
    for f in F.adts[hdr]["variants"][0]["fields"]:
        fld = f[0]
        if "core::cmp::PartialEq" in g.name and hdr in g.name:
            out.add(fld) if derived_eq(F, g, fld, hdr) else None
            continue
        edges = implied_edges(F, L, g, fld, hdr, memo, depth)
        ok = True
        for blk, j, rv, p in returned(g):
            if true_implies(F, L, g, rv, blk, fld, hdr, memo, depth, edges):
                continue
            ok = False
        if ok:
            out.add(fld)
    memo[g.name] = out
    return out


def derived_eq(F, g, fld, hdr):
    """Derived equality: the field of both sides is compared."""
    both = set()
    for i, j, p, rv, l in g.assigns():
        for q in rv_places(rv):
            if field_of(q, fld, hdr):
                both |= {x[0] for x in [q]}
    return {1, 2} <= both


def true_implies(F, L, g, rv, blk, fld, hdr, memo, depth, edges):
    if not is_call(rv) and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == "0":
        return True
    if equality(F, L, g, rv, fld, hdr, memo, depth) is True:
        return True
    if not is_call(rv) and rv[0] == "bin" and rv[1] == "BitAnd":
        for o in (rv[2], rv[3]):
            for _, _, r2, q in g.defs().get(op_local(o), []) if op_local(o) is not None else []:
                if true_implies(F, L, g, r2, blk, fld, hdr, memo, depth, edges):
                    return True
    if not is_call(rv) and rv[0] == "un" and rv[1] == "Not":
        for _, _, r2, q in g.defs().get(op_local(rv[2]), []) if op_local(rv[2]) is not None else []:
            if equality(F, L, g, r2, fld, hdr, memo, depth) is False:
                return True
    return bool(edges) and blk not in reach_avoiding(g, [0], (), edges)


def implied_edges(F, L, b, fld, hdr, memo, depth=0):
    def cond(op, blk):
        found = []

        def want(p, rv):
            if rv is not None:
                k = equality(F, L, b, rv, fld, hdr, memo, depth)
                if k is not None:
                    found.append(k)
                    return True
            return False
        pol = negations(b, op, want)
        if pol is None or not found:
            return None
        return pol if found[0] else not pol
    return bool_edges(b, cond, True)


# ---- S3 -------------------------------------------------------------------------------------------
class Slices(AbsInt):
    limit = 3000

    def __init__(self, F, b, n, R):
        super().__init__(F, b)
        self.n = n
        self.R = R
        self.bad = []
        self.seen = 0

    def resolve(self, place, mem):
        # a byte slice is its own referent
        key = (place[0],)
        for e in place[1:]:
            if e == "*":
                v = mem.get(key)
                if v and v[0] == "ref":
                    key = v[1]
                elif not v or v[0] != "bytes":
                    key = key + ("*",)
            else:
                key = key + (e if not e.startswith(".") else e.split(":")[0],)
        return key

    def is_bytes(self, v):
        return v.get(()) and v[()][0] == "bytes"

    def array_len(self, op):
        l = op_local(op)
        for _ in range(6):
            if l is None:
                return None
            m = re.search(r"\[u8; (\d+)\]", self.body.tys(l))
            if m:
                return int(m.group(1))
            ds = self.body.defs().get(l, [])
            if len(ds) != 1 or is_call(ds[0][2]):
                return None
            rv = ds[0][2]
            if rv[0] == "use":
                l = op_local(rv[1])
            elif rv[0] == "cast":
                l = op_local(rv[2])
            elif rv[0] == "ref":
                l = rv[2][0]
            else:
                return None
        return None

    def deref(self, v, mem):
        for _ in range(6):
            x = v.get(())
            if x and x[0] == "ref":
                v = self.read(x[1], mem)
                continue
            return v
        return v

    def on_call(self, c, args, mem, trace):
        f = c.get("f", "")
        if f in READS:
            return [{(): ("enum", "Ok"), ("as Ok", ".0"): ("bytes", 0, self.n)}, {(): ("enum", "Err")}]
        if not args:
            return None
        a0 = self.deref(args[0], mem)
        if self.is_bytes(a0):
            lo, hi = a0[()][1], a0[()][2]
            if f.endswith("::len"):
                return {(): ("k", hi - lo)}
            if f.endswith("::is_empty"):
                return {(): ("k", int(hi == lo))}
            if f.endswith(("::deref", "::as_slice", "::as_ref", "::borrow")):
                return dict(a0)
            if f.endswith("::index") and len(args) > 1:
                self.seen += 1
                s = args[1].get((".start",))
                e = args[1].get((".end",))
                ty = self.body.tys(op_local(c["a"][1])) if op_local(c["a"][1]) is not None else ""
                if "RangeFull" in ty:
                    return dict(a0)
                if ("Range<" in ty or "RangeFrom<" in ty) and (not s or s[0] != "k") or ("Range<" in ty or "RangeTo<" in ty) and (not e or e[0] != "k"):
                    self.bad.append((trace[-1], "with bounds this rule cannot evaluate"))
                    return None
                x = s[1] if s and "RangeTo<" not in ty else 0
                y = e[1] if e and "RangeFrom<" not in ty else hi - lo
                if not (0 <= x <= y <= hi - lo):
                    self.bad.append((trace[-1], f"[{x}..{y}] of a cache file of {self.n} bytes"))
                    return []
                return {(): ("bytes", lo + x, lo + y)}
            if f.endswith("::split_at") and len(args) > 1:
                self.seen += 1
                k = args[1].get(())
                if not k or k[0] != "k" or k[1] > hi - lo:
                    self.bad.append((trace[-1], f"split of a cache file of {self.n} bytes"))
                    return []
                return {(".0",): ("bytes", lo, lo + k[1]), (".1",): ("bytes", lo + k[1], hi)}
            if f.endswith("::split_at_checked") and len(args) > 1:
                k = args[1].get(())
                if k and k[0] == "k":
                    if k[1] > hi - lo:
                        return {(): ("enum", "None")}
                    return {(): ("enum", "Some"), ("as Some", ".0", ".0"): ("bytes", lo, lo + k[1]),
                            ("as Some", ".0", ".1"): ("bytes", lo + k[1], hi)}
            if f.endswith("::get") and len(args) > 1:
                s = args[1].get((".start",))
                e = args[1].get((".end",))
                x = s[1] if s and s[0] == "k" else 0
                y = e[1] if e and e[0] == "k" else hi - lo
                if not (0 <= x <= y <= hi - lo):
                    return {(): ("enum", "None")}
                return {(): ("enum", "Some"), ("as Some", ".0"): ("bytes", lo + x, lo + y)}
            if f.endswith("::strip_prefix") and len(c["a"]) > 1:
                k = self.array_len(c["a"][1])
                if k is not None:
                    if k > hi - lo:
                        return {(): ("enum", "None")}
                    return [{(): ("enum", "None")}, {(): ("enum", "Some"), ("as Some", ".0"): ("bytes", lo + k, hi)}]
        elif f.endswith("::len"):
            k = self.array_len(c["a"][0])
            if k is not None:
                return {(): ("k", k)}
        return None


def lengths(F, R, T):
    seeds = {}
    for b in F.all_bodies():
        for i, c in b.calls():
            if c.get("f") in READS and "snapshot" in b.name:
                seeds.setdefault(b.name, set())
            if c.get("f") in F.fns and F.fns[c["f"]]["kind"] == "fn":
                for k, a in enumerate(c["a"]):
                    ts = T.of(b, a) if "snapshot" in b.name and op_place(a) and "u8" in b.tys(op_local(a)) else ()
                    if any(l[1] in READS for t in ts for l in leaves(t)):
                        seeds.setdefault(c["f"], set()).add(k + 1)
    n = total = 0
    for name in sorted(seeds):
        b = F.body(name)
        R.fn(b)
        bad = None
        seen = 0
        for size in range(0, 97):
            a = Slices(F, b, size, R)
            try:
                a.run({(k,): ("bytes", 0, size) for k in seeds[name]})
            except Stop as e:
                bad = (0, str(e))
                break
            seen += a.seen
            n += 1
            if a.bad:
                bad = a.bad[0]
                break
        total += seen
        R.ob("lengths", F.root_fn(name), bad is None, b.where(bad[0] if bad else None), f"slices {bad[1]}" if bad else "")
    R.floor("bodies slicing file bytes x lengths", n, 97)
    R.note(f"{total} slicing steps evaluated")


def fallback(F, R, decoders, encoders):
    """No body on the way from the session to the file turns a failure into a panic."""
    io = set()
    for b in F.all_bodies():
        if "snapshot" not in b.name:
            continue
        for i, c in b.calls():
            f = c.get("f", "")
            if f.startswith(("std::fs::", "std::io::", "core::io::")) or f in decoders or f in encoders:
                io.add(F.root_fn(b.name))
    ch = True
    while ch:
        ch = False
        for b in F.all_bodies():
            r = F.root_fn(b.name)
            if r not in io and "snapshot::cache" in r and any(c.get("f") in io for _, c in b.calls()):
                io.add(r)
                ch = True
    io = {r for r in io if "snapshot::cache" in r or r in decoders or r in encoders}
    n = 0
    for b in F.all_bodies():
        if F.root_fn(b.name) not in io:
            continue
        R.fn(b)
        live = b.live
        for i, c in b.calls():
            if i not in live:
                continue
            f = c.get("f", "")
            n += 1
            if f.startswith("core::result::Result::") and short(f) in ("unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked", "into_ok"):
                R.bad("fallback", f"{F.root_fn(b.name)}|{short(f)}", b.where(i), f"a failure of the cache becomes a panic ({short(f)})")
            elif f.startswith("core::panicking::") or f.startswith("std::panicking::") or f.startswith("std::process::"):
                if short(f) == "id":
                    continue
                R.bad("fallback", f"{F.root_fn(b.name)}|panic", b.where(i), "a failure of the cache becomes a panic")
    R.ob("fallback", "calls", True, "")
    R.floor("calls in cache functions", n, 60)


# ---- S4-S6 ----------------------------------------------------------------------------------------
WRITES = {"std::fs::write": 0, "std::fs::File::create": 0, "std::fs::File::create_new": 0, "std::fs::copy": 1,
          "std::fs::hard_link": 1, "std::fs::rename": 1, "std::fs::remove_file": 0, "std::fs::OpenOptions::open": 1,
          "std::fs::set_permissions": 0, "std::fs::remove_dir_all": 0, "std::fs::remove_dir": 0, "std::fs::create_dir": 0,
          "std::fs::create_dir_all": 0, "std::os::unix::fs::symlink": 1, "std::fs::soft_link": 1}


def open_mode(b, c):
    """Options set on the way to an open call."""
    mode = {}
    op = c["a"][0]
    for _ in range(24):
        l = op_local(op)
        if l is None:
            break
        ds = [d for d in b.defs().get(l, []) if len(d[3]) == 1]
        if len(ds) != 1:
            break
        rv = ds[0][2]
        if is_call(rv):
            f = rv.get("f", "")
            if f.startswith("std::fs::OpenOptions::") and rv["a"]:
                v = rv["a"][1][1].get("v") if len(rv["a"]) > 1 and rv["a"][1][0] == "k" else "?"
                mode.setdefault(short(f), v)
                op = rv["a"][0]
                continue
            break
        if rv[0] == "use":
            op = rv[1]
        elif rv[0] == "ref":
            base = rv[2][0]
            # statement style: options set through other borrows of the same builder
            for i, k in b.calls():
                if k.get("f", "").startswith("std::fs::OpenOptions::") and k["a"] and short(k["f"]) not in ("open", "new"):
                    for _, _, r2, q in b.defs().get(op_local(k["a"][0]), []) if op_local(k["a"][0]) is not None else []:
                        if not is_call(r2) and r2[0] == "ref" and r2[2][0] == base:
                            mode.setdefault(short(k["f"]), k["a"][1][1].get("v") if k["a"][1][0] == "k" else "?")
            op = ["c", rv[2]]
        else:
            break
    return mode


def publication(F, R, T, L, decoders, encoders):
    ops = []
    for b in F.all_bodies():
        if "snapshot" not in b.name:
            continue
        for i, c in b.calls():
            f = c.get("f", "")
            if f in WRITES and len(c["a"]) > WRITES[f]:
                ops.append((b, i, c, f, frozenset(T.of(b, c["a"][WRITES[f]]))))
            elif f.startswith("std::fs::") and f not in READS and f not in ("std::fs::metadata",) and \
                    not f.startswith(("std::fs::OpenOptions::", "std::fs::File::", "std::fs::Metadata")):
                R.bad("publication", f"{F.root_fn(b.name)}|{short(f)}", b.where(i), f"unexpected file operation {short(f)}")
    published = set()
    for b, i, c, f, ts in ops:
        if f == "std::fs::rename":
            published |= ts
    R.floor("published paths", len(published), 1)
    R.floor("file operations", len(ops), 7)
    # whatever is read back as the cache is the published path too
    reads = set()
    for b in F.all_bodies():
        if "snapshot" in b.name:
            for i, c in b.calls():
                if c.get("f") in READS:
                    reads |= T.of(b, c["a"][0])
    R.ob("publication", "published path", reads <= published and bool(reads), "src/compiler/snapshot/cache.rs",
         f"the file read as the cache is not the one published by rename: {sorted(map(str, reads - published))}")
    opens = {}
    for b, i, c, f, ts in ops:
        R.fn(b)
        root = F.root_fn(b.name)
        mode = open_mode(b, c) if f == "std::fs::OpenOptions::open" else {}
        if f == "std::fs::OpenOptions::open":
            for t in ts:
                opens.setdefault(t, []).append((b, i, mode))
        onto = bool(ts & published)
        key = f"{root}|{short(f)}|{'published' if onto else 'other'}"
        if f == "std::fs::rename":
            src = T.of(b, c["a"][0])
            why = complete(F, T, L, b, i, src, published, ops, open_mode)
            R.ob("publication", key, why is None, b.where(i), why or "")
            why = locked(F, T, L, b, i)
            R.ob("lock", key, why is None, b.where(i), f"the cache is published {why}")
            why = checked_bytes(F, T, L, b, i, src, decoders, encoders)
            R.ob("validated", key, why is None, b.where(i), why or "")
        elif f == "std::fs::remove_file" and onto:
            why = locked(F, T, L, b, i)
            R.ob("lock", key, why is None, b.where(i), f"the published cache is removed {why}")
        elif onto and f == "std::fs::OpenOptions::open" and all(mode.get(k, "0") == "0" for k in ("write", "append", "create", "create_new", "truncate")):
            R.ob("publication", key, True, b.where(i))
        elif onto:
            R.bad("publication", key, b.where(i), f"the published path is written in place by {short(f)}")
        else:
            R.ob("publication", key, True, b.where(i))


def complete(F, T, L, b, at, src, published, ops, mode_of):
    """The renamed file was created exclusively here, then written and synced, on every path to the rename."""
    if src & published:
        return "renames the published path onto itself"
    openers = []
    for i, c in b.calls():
        f = c.get("f", "")
        how = opens_path(F, L, b, c, mode_of)
        if how is None or T.of(b, c["a"][how[0]]) != src:
            continue
        if not how[1]:
            return "the temporary file is not created exclusively (create_new), another process may be writing it"
        openers.append(i)
    if not openers:
        return "no exclusive creation of the renamed file on the way"
    files = {("call", b.blocks[i]["t"][1]["f"], b.name, i) for i in openers}
    writes = [i for i, c in b.calls() if "write" in io_done(F, L, b, c, files)]
    partial = [i for i, c in b.calls() if c.get("f", "").endswith("::write") and "io" in c.get("f", "") and L.of(b, c["a"][0]) & files]
    syncs = [i for i, c in b.calls() if "sync" in io_done(F, L, b, c, files)]
    if partial and not writes:
        return "the file may be written partially (write instead of write_all)"
    we, se = p_p06.ok_edges_of(F, b, writes), p_p06.ok_edges_of(F, b, syncs)
    if not writes or at in reach_avoiding(b, [0], (), we):
        return "a file can be published although writing it failed or did not happen"
    if not syncs or at in reach_avoiding(b, [0], (), se):
        return "a file can be published before it is synced to disk"
    # order: after the sync nothing is written any more
    for a, s in se:
        r = b.reachable([s])
        for w in writes + partial:
            if w in r and at in b.reachable([w]):
                w_ok = reach_avoiding(b, [w], (), se)
                if at in w_ok:
                    return "the file is written again after the sync"
    trunc = [i for i, c in b.calls() if c.get("f") == "std::fs::File::set_len" and L.of(b, c["a"][0]) & files]
    if trunc:
        return "the length of the file is changed"
    return None


def opens_path(F, L, b, c, mode_of, depth=0):
    """(index of the path argument, created exclusively) when the call opens a file for writing."""
    f = c.get("f", "")
    if f == "std::fs::OpenOptions::open":
        m = mode_of(b, c)
        if m.get("create_new") == "1":
            return (1, m.get("write", m.get("append", "0")) == "1")
        return (1, False)
    if f == "std::fs::File::create_new":
        return (0, True)
    if f in ("std::fs::File::create", "std::fs::write"):
        return (0, False)
    if f in F.fns and F.fns[f]["kind"] == "fn" and depth < 2:
        g = F.body(f)
        if "std::fs::File" not in g.tys(0):
            return None
        got = set()
        for t in L.place(g, [0]):
            k = opens_path(F, L, g, g.blocks[t[3]]["t"][1], mode_of, depth + 1) if t[0] == "call" and t[2] == g.name else None
            if k is None:
                if t[0] == "call" and t[1].endswith("::from_residual"):
                    continue
                return None
            for u in L.of(g, g.blocks[t[3]]["t"][1]["a"][k[0]]):
                got.add((u[2] - 1, k[1]) if u[0] == "arg" else None)
        if len(got) == 1 and None not in got:
            return next(iter(got))
    return None


def io_done(F, L, b, c, files, depth=0):
    """What an Ok result of the call guarantees about one of the files: {"write", "sync"}."""
    f = c.get("f", "")
    if f.endswith("::write_all") and L.of(b, c["a"][0]) and L.of(b, c["a"][0]) <= files:
        return {"write"}
    if f in ("std::fs::File::sync_all", "std::fs::File::sync_data") and L.of(b, c["a"][0]) and L.of(b, c["a"][0]) <= files:
        return {"sync"}
    if f in F.fns and F.fns[f]["kind"] == "fn" and depth < 2:
        out = set()
        for k, a in enumerate(c["a"]):
            ts = L.of(b, a) if op_place(a) else set()
            if ts and ts <= files:
                g = F.body(f)
                inner = {("arg", f, k + 1)}
                w = [i for i, cc in g.calls() if "write" in io_done(F, L, g, cc, inner, depth + 1)]
                s = [i for i, cc in g.calls() if "sync" in io_done(F, L, g, cc, inner, depth + 1)]
                if w and ok_implies(F, L, g, w):
                    out.add("write")
                if s and ok_implies(F, L, g, s):
                    # and nothing is written after the sync
                    if not any(x in g.reachable([t]) for i in s for t in g.succ[i] for x in w):
                        out.add("sync")
        return out
    return set()


def ok_implies(F, L, g, sites):
    """An Ok result of g implies that one of the call sites returned Ok."""
    if not result_ok(F, g):
        return False
    edges = p_p06.ok_edges_of(F, g, sites) | mapped_ok(F, g, sites)
    for blk, j, rv, p in returned(g):
        if is_call(rv):
            f2 = rv.get("f", "")
            if f2.endswith("::from_residual") or blk in sites:
                continue
            if f2.endswith(("::map_err", "::map")):
                ts = L.of(g, rv["a"][0])
                if ts and all(t[0] == "call" and t[2] == g.name and t[3] in sites for t in ts):
                    continue
        elif rv[0] == "agg" and rv[3] == "Err":
            continue
        if edges and blk not in reach_avoiding(g, [0], (), edges):
            continue
        return False
    return True


LOCKS = ("std::fs::File::try_lock", "std::fs::File::lock")


def locked(F, T, L, b, at, depth=0):
    """Every path to the site passes the success edge of a lock on a file still held."""
    if depth > 5:
        return "without the lock"
    sites = [i for i, c in b.calls() if c.get("f") in LOCKS]
    helpers = [i for i, c in b.calls() if c.get("f") in F.fns and takes_lock(F, c["f"])]
    edges = p_p06.ok_edges_of(F, b, sites + helpers) if sites or helpers else set()
    if sites and at not in reach_avoiding(b, [0], (), edges):
        # still held: no unlock or drop of the locked file between
        owners = set()
        for i in sites:
            for p in direct(b, b.blocks[i]["t"][1]["a"][0]):
                owners.add(p[0])
        starts = [t for _, t in edges]
        for i, bl in enumerate(b.blocks):
            t = bl["t"]
            if bl["c"]:
                continue
            rel = t[0] == "drop" and t[1][0] in owners and len(t[1]) == 1
            if t[0] == "call":
                c = t[1]
                if c.get("f") == "std::fs::File::unlock" and any(p[0] in owners for p in direct(b, c["a"][0])):
                    rel = True
                if c.get("f", "").endswith("mem::drop") and c["a"] and op_local(c["a"][0]) in owners:
                    rel = True
            if rel and i in b.reachable(starts) and at in reach_avoiding(b, [i], (), edges):
                return "after the lock was released"
        return None
    cs = L.callers(b.name)
    if not cs:
        return "without holding the cache lock"
    for cb, i, c in cs:
        why = locked(F, T, L, cb, i, depth + 1)
        if why:
            return why
    return None


def takes_lock(F, f):
    return False


def checked_bytes(F, T, L, b, at, src, decoders, encoders):
    """The bytes written derive from one encoding whose decoding and restoration succeeded first."""
    data = []
    for wb in F.all_bodies():
        if "snapshot" not in wb.name:
            continue
        for i, c in wb.calls():
            if c.get("f", "").endswith("::write_all"):
                ts = T.of(wb, c["a"][0])
                if any(opened_at(F, T, t) == src for t in ts):
                    data.append((wb, c["a"][1]))
    enc = set()
    for wb, op in data:
        for t in T.of(wb, op):
            enc |= encodings(F, T, t, encoders, 0) or {None}
    if not data or None in enc or not enc:
        return "published bytes cannot be traced to an encoded snapshot"
    return guarded_by_validation(F, T, L, b, at, enc, decoders, 0)


def opened_at(F, T, t):
    if t[0] != "call":
        return None
    ob = F.body(t[2])
    how = opens_path(F, Terms(F, expand_args=False), ob, ob.blocks[t[3]]["t"][1], open_mode)
    return T.of(ob, ob.blocks[t[3]]["t"][1]["a"][how[0]]) if how else None


def encodings(F, T, t, encoders, depth):
    """Encode calls a byte value is built from, looking at the arguments of local builders."""
    if t[0] != "call" or depth > 4:
        return set()
    if t[1] in encoders:
        return {t}
    out = set()
    b = F.body(t[2])
    for a in b.blocks[t[3]]["t"][1]["a"]:
        for u in T.of(b, a):
            out |= encodings(F, T, u, encoders, depth + 1)
    if not out and t[1] not in F.fns:
        # a buffer filled by calls: look at what is appended to it
        d = b.blocks[t[3]]["t"][1]["d"][0]
        for i, c in b.calls():
            if c.get("f", "").endswith(("::extend_from_slice", "::extend", "::append", "::write_all")) and c["a"]:
                if any(p[0] == d for p in direct(b, c["a"][0])):
                    for u in T.of(b, c["a"][1]):
                        out |= encodings(F, T, u, encoders, depth + 1)
    return out


def guarded_by_validation(F, T, L, b, at, enc, decoders, depth):
    if depth > 5:
        return "published bytes were not validated"
    sites = []
    for i, c in b.calls():
        f = c.get("f")
        if f in F.fns and F.fns[f]["kind"] == "fn":
            hit = any(T.of(b, a) == enc for a in c["a"] if op_place(a))
            if hit and validates(F, L, f, decoders):
                sites.append(i)
            # inline: restore of a snapshot decoded from the same bytes
            if f.endswith("::restore") and c["a"]:
                for t in L.of(b, c["a"][0]):
                    if t[0] == "call" and t[1] in decoders and t[2] == b.name and \
                            T.of(b, b.blocks[t[3]]["t"][1]["a"][0]) == enc:
                        sites.append(i)
    if sites:
        edges = p_p06.ok_edges_of(F, b, sites) | mapped_ok(F, b, sites)
        if at not in reach_avoiding(b, [0], (), edges):
            return None
    cs = L.callers(b.name)
    if not cs:
        return "bytes are published although decoding and restoring them was not seen to succeed"
    for cb, i, c in cs:
        why = guarded_by_validation(F, T, L, cb, i, enc, decoders, depth + 1)
        if why:
            return why
    return None


def mapped_ok(F, b, sites):
    """Ok edges of results derived by map_err and the like."""
    dests = {b.blocks[i]["t"][1]["d"][0] for i in sites}
    more = []
    for i, c in b.calls():
        if c.get("f", "").endswith(("Result::<T, E>::map_err", "Result::<T, E>::map")) and op_local(c["a"][0]) in dests:
            more.append(i)
    return p_p06.ok_edges_of(F, b, more) if more else set()


def validates(F, L, f, decoders, depth=0):
    """Ok of f implies that decoding its argument and restoring the result succeeded."""
    g = F.body(f)
    if not result_ok(F, g) or depth > 3:
        return False
    restores = []
    for i, c in g.calls():
        if c.get("f", "").endswith("::restore") and c["a"]:
            ts = L.of(g, c["a"][0])
            if ts and all(t[0] == "call" and t[1] in decoders and
                          all(u[0] == "arg" for u in L.of(g, F.body(t[2]).blocks[t[3]]["t"][1]["a"][0])) for t in ts):
                restores.append(i)
    if not restores:
        return False
    return ok_implies(F, L, g, restores)
