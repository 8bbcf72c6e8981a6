"""What the std snapshot captures is what it restores."""
import re
from facts import *
from common import *
import arms

EXPLANATION = (
    "The portable forms of compiler data are the serializable types of compiler::snapshot. From the MIR of that "
    "module the analysis derives, field by field, which compiler field each portable field is filled from, and "
    "which portable field each compiler field is rebuilt from, following local helpers, constructors, closures "
    "and setters. The composition must be the identity: every compiler field comes back from a portable field "
    "that was captured from it, every portable field is used, every enum variant returns to itself, nothing is "
    "defaulted, filtered or negated on the way, and the derived encodings carry every field.")

SNAP = "compiler::snapshot::"
LABEL = re.compile(r"^\.([^:]+):(.+)$")
LOSSY = {"filter", "filter_map", "take_while", "skip_while", "map_while", "rev", "dedup", "step_by", "nth", "truncate", "pop",
         "remove", "swap_remove", "retain", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else",
         "and_then", "xor", "take", "skip", "last", "first", "min", "max", "saturating_sub", "saturating_add",
         "wrapping_add", "wrapping_sub", "find", "find_map", "ok", "flatten", "split_off", "drain"}
# reviewed: (function, operation) -> reason
LOSSY_OK = {
    ("SnapshotModuleCheckpoint::capture", "skip"): "a checkpoint is the part after the state before it",
    ("SnapshotHirArena::capture_from", "skip"): "a checkpoint is the part after the state before it",
    ("SnapshotSourceTable::materialize", "skip"): "source zero is supplied by SourceTable::default",
}
# reviewed: compiler fields that hold no captured data
CONSTANT = {
    "StructuralFieldAddressor.runtime_argument_passing": "the same for every addressor",
    "Type.world": "local references are resolved when the graph is stored",
    "Trait.derivers": "capture refuses a trait that has native derivers",
}
# Module fields that compiling the embedded sources does not change; native registration rebuilds them
UNTOUCHED = {"path": "given to Module::new", "uses": "std sources have no use directive",
             "unsafe_items": "marked by native registration"}


LOCAL = None


def labels(place, b=None):
    """(owner, field) of every projection of a local ADT, or of a tuple, of a place."""
    out = []
    row = b.ty(place[0]) if b is not None else None
    for e in place[1:]:
        if e == "*":
            row = b.facts.types[row["a"][0]] if row is not None and row["k"] in ("ref", "refmut", "ptr") else None
            continue
        m = LABEL.match(e) if isinstance(e, str) else None
        if not m:
            row = None
            continue
        if m.group(2) == "()":
            if row is not None and row["k"] == "tuple" and m.group(1).isdigit():
                out.append((row["s"], m.group(1)))
                row = b.facts.types[row["a"][int(m.group(1))]]
                continue
        else:
            o = strip(m.group(2))
            if o in LOCAL or o.rsplit("::", 1)[0] in LOCAL:
                out.append((o, m.group(1)))
                a = LOCAL.get(o) or LOCAL.get(o.rsplit("::", 1)[0])
                row = None
                for v in a["variants"]:
                    if a["kind"] != "enum" or v["name"] == o.rsplit("::", 1)[1]:
                        for fld in v["fields"]:
                            if fld[0] == m.group(1) and b is not None:
                                row = b.facts.types[fld[1]]
                continue
        row = None
    return out


def strip(owner):
    return re.sub(r"<.*>", "", owner.replace("::<", "<"))


def run(F, R, tier):
    global LOCAL
    LOCAL = F.adts
    dtos = {}
    for n in F.fns:
        m = re.search(r"impl serde_core::ser::Serialize for ([^>]+?)(<.*)?>::serialize$", n)
        if m and m.group(1).startswith(SNAP) and m.group(1) in F.adts:
            dtos[m.group(1)] = F.adts[m.group(1)]
    R.floor("portable types", len(dtos), 40)
    tuples = dto_tuples(F, dtos)
    dtos = dict(dtos)
    TUPLES.clear()
    TUPLES.update(tuples)
    bodies = [b for b in F.all_bodies() if b.name.startswith(SNAP) and "::_::" not in b.name]
    S = Slicer(F, dtos)
    cap = {}        # (D, g) -> set of (T, f)
    lossy = []
    aggsites = []
    for b in bodies:
        for a in S.aggregates(b):
            aggsites.append(a)
    # portable values built
    built = {}
    for b, i, x, variant, field_srcs, line in aggsites:
        if not is_dto(x, dtos):
            continue
        key = owner_name(F, x, variant)
        for g, (src, ops) in field_srcs.items():
            cap.setdefault((key, g), set()).update(s for s in src if not is_dto(s[0], dtos))
            built.setdefault((key, g), []).append((b, line, src, ops))
    captured = {}
    for dg, src in cap.items():
        for s in src:
            captured.setdefault(s, set()).add(dg)
    # restored compiler values
    used = set()
    n = 0
    seen_t = set()
    sites = []
    for b, i, x, variant, field_srcs, line in aggsites:
        if is_dto(x, dtos) or skip_type(x):
            continue
        key = owner_name(F, x, variant)
        if x not in F.adts and not any((key, f) in captured for f in field_srcs):
            continue
        mine = {f: v for f, v in field_srcs.items()}
        if not any((key, f) in captured or any(is_dto(s[0], dtos) for s in v[0]) for f, v in mine.items()):
            continue
        sites.append((b, key, mine, line))
    for b, key, mine, line in sites + S.stores(bodies, dtos):
        for f, (src, ops) in mine.items():
            gs = {s for s in src if is_dto(s[0], dtos)}
            if "unit value" in ops:
                continue
            used |= gs
            n += 1
            seen_t.add(key)
            where = f"{b.meta['file']}:{line}"
            R.fn(b)
            name = f"{short(key)}.{f}"
            if not gs and key.startswith("("):
                continue
            if not gs:
                if (key, f) in captured:
                    R.bad("restore", name, where, f"{name} is captured but rebuilt without the snapshot's data")
                elif constant_type(F, key, f):
                    pass
                elif name in CONSTANT:
                    R.note(f"{name}: {CONSTANT[name]}")
                else:
                    R.bad("restore", name, where, f"{name} is rebuilt without the snapshot's data")
                continue
            if (key, f) in captured:
                good = any((key, f) in cap.get(g, ()) for g in gs) or key.startswith("(") and \
                    any(not s[0].startswith("(") for g in gs for s in cap.get(g, ()) | {g})
                R.ob("restore", name, good, where,
                     f"{name} is rebuilt from {show(gs)}, which {'is' if len(gs) == 1 else 'are'} captured from "
                     f"{show({t for g in gs for t in cap.get(g, ())})}")
            else:
                R.ob("restore", name + "|derived", True, where)
                R.note(f"{name} is derived from {show(gs)}")
            for op in ops:
                if (op in LOSSY or op.startswith('operator')) and (tail2(F.root_fn(b.name)), op) not in LOSSY_OK:
                    R.bad("exact", f"{name}|{op}", where, f"{name} is rebuilt through {op}, which can lose or change data")
    for (key, g), uses in built.items():
        for b, line, src, ops in uses:
            for op in ops:
                if (op in LOSSY or op.startswith('operator')) and (tail2(F.root_fn(b.name)), op) not in LOSSY_OK:
                    R.bad("exact", f"{short(key)}.{g}|{op}", f"{b.meta['file']}:{line}",
                          f"{short(key)}.{g} is captured through {op}, which can lose or change data")
            if not src and not S.whole.get((b.name, line, g)):
                pass
    R.floor("restored fields", n, 150)
    R.floor("restored types", len(seen_t), 60)
    # every portable field is used
    reads = set()
    for b in bodies:
        for q in read_places(b):
            reads.update(labels(q, b))
    for d, a in dtos.items():
        for v in a["variants"]:
            key = owner_name(F, d, v["name"])
            for fld in v["fields"]:
                g = fld[0]
                R.ob("used", f"{short(key)}.{g}", (key, g) in reads, f"{a['file']}:{a['line']}",
                     f"{short(key)}.{g} is captured and then ignored")
    variants(F, R, bodies, dtos)
    building = {id(b): b for b, *_ in sites} | {id(a[0]): a[0] for a in aggsites if is_dto(a[2], dtos)}
    conditional(F, R, [b for b in bodies if id(b) in building or "{closure" in b.name and any(b.name.startswith(x.name + "::") for x in building.values())])
    module_fields(F, R, S, bodies, dtos)
    wire(F, R, dtos)


TUPLES = set()


def dto_tuples(F, dtos):
    out = set()

    def walk(t, depth):
        row = F.types[t]
        if row["k"] == "tuple" and row["a"]:
            out.add(row["s"])
        if depth < 6:
            for a in row.get("a") or []:
                if isinstance(a, int):
                    walk(a, depth + 1)
    for d in dtos:
        for v in F.adts[d]["variants"]:
            for f in v["fields"]:
                walk(f[1], 0)
    return out


def is_dto(owner, dtos):
    return owner in TUPLES or owner in dtos or owner.rsplit("::", 1)[0] in dtos


def skip_type(x):
    return x.startswith(SNAP) or x.startswith(("core::", "alloc::", "std::"))


def constant_type(F, key, f):
    a = F.adts.get(key) or F.adts.get(key.rsplit("::", 1)[0])
    if a is None:
        return False
    for v in a["variants"]:
        for fld in v["fields"]:
            if fld[0] == f and "PhantomData" in F.types[fld[1]]["s"]:
                return True
    return False


def owner_name(F, x, variant):
    a = F.adts.get(x)
    if a is not None and a["kind"] != "enum":
        return x
    return f"{x}::{variant}" if a is not None else x      # a tuple type


def short(k):
    if k.startswith("("):
        return re.sub(r"[a-z_#:]+::", "", k)
    p = k.split("::")
    return "::".join(p[-2:]) if len(p) > 1 and p[-2][0].isupper() else p[-1]


def show(ls):
    return ", ".join(sorted(f"{short(o)}.{f}" for o, f in ls)) or "nothing"


def tail2(f):
    return "::".join(f.split("::")[-2:])


def read_places(b):
    for i, j, p, rv, l in b.assigns():
        yield from rv_places(rv)
        if rv[0] == "disc":
            yield rv[1]
    for i, c in b.calls():
        for a in c["a"]:
            if op_place(a):
                yield op_place(a)


CARRIERS = ("SnapshotTypeGraphBuilder", "NativeCallableCatalog", "NativeTypeCatalog")


class Slicer:
    def __init__(self, F, dtos):
        self.F = F
        self.dtos = dtos
        self.whole = {}
        self._fields = {}
        self._ctor = {}
        self._up = set()

    def carrier(self, b, l):
        t = b.tys(l)
        return any(x in t for x in CARRIERS) and "SnapshotModule" not in t.split("<")[0]

    def sources(self, b, op):
        """ADT fields and operations the operand's value is computed from."""
        src = set()
        ops = set()
        seen = set()
        work = []

        def add_place(p):
            ls = labels(p, b)
            if ls:
                src.update(ls)
            work.append(p[0])
        if op[0] in ("c", "m"):
            add_place(op[1])
        elif op[0] == "k":
            self.const(op[1], ops)
        while work:
            l = work.pop()
            if l in seen or self.carrier(b, l):
                continue
            seen.add(l)
            if b.tys(l) == "()":
                ops.add("unit value")
            for i, j, rv, p in b.defs().get(l, []):
                if is_call(rv):
                    f = rv.get("f", "")
                    ops.add(f.rsplit("::", 1)[-1])
                    for a in rv["a"]:
                        if op_place(a):
                            add_place(op_place(a))
                            q = op_place(a)
                            if f in self.F.fns and f.startswith(SNAP):
                                src.update(self.reads_of(f, b, q))
                        elif a[0] == "k":
                            self.const(a[1], ops)
                elif rv[0] == "agg" and rv[1] == "closure":
                    for o in rv[4]:
                        if op_place(o):
                            add_place(op_place(o))
                else:
                    if rv[0] == "un" and rv[1] != "PtrMetadata":
                        ops.add("operator " + rv[1])
                    elif rv[0] == "bin":
                        ops.add("operator " + rv[1])
                    for q in rv_places(rv):
                        add_place(q)
            # a place filled through a mutable borrow (push, extend, ...)
            for i, j, p, rv, ln in b.assigns():
                if rv[0] == "ref" and rv[1] == "mut" and rv[2][0] == l:
                    for k, c in b.calls():
                        if any(op_local(a) == p[0] for a in c["a"]):
                            ops.add(c.get("f", "").rsplit("::", 1)[-1])
                            for a in c["a"]:
                                if op_place(a) and op_local(a) != p[0]:
                                    add_place(op_place(a))
        if not src:
            args = {l for l in seen if 1 <= l <= b.args}
            if args:
                src = self.from_callers(b, args)
        return src, {o for o in ops if o}

    def const(self, c, ops):
        if self.F.types[c["t"]]["s"] == "()" if "t" in c else False:
            ops.add("unit value")

    def from_callers(self, b, args):
        """What the callers inside the snapshot module pass for the arguments."""
        if self._callers is None:
            self._callers = {}
            for x in self.F.all_bodies():
                if x.name.startswith(SNAP) and "::_::" not in x.name:
                    for i, c in x.calls():
                        self._callers.setdefault(c.get("f"), []).append((x, c))
        out = set()
        if b.name in self._up:
            return out
        self._up.add(b.name)
        for x, c in self._callers.get(b.name, ()):
            for a in args:
                if a - 1 < len(c["a"]):
                    out |= self.sources(x, c["a"][a - 1])[0]
        self._up.discard(b.name)
        return out
    _callers = None

    def reads_of(self, f, b, q):
        """Fields the local function reads from the whole value it is handed."""
        row = b.ty(q[0]) if len(q) == 1 else None
        if row is None:
            return set()
        while row["k"] in ("ref", "refmut"):
            row = self.F.types[row["a"][0]]
        if row["k"] != "adt":
            return set()
        d = row["d"]
        if is_dto(d, self.dtos) and False:
            return set()
        return {x for x in self.fields_of(f) if x[0] == d or x[0].rsplit("::", 1)[0] == d}

    def fields_of(self, f, depth=0):
        r = self._fields.get(f)
        if r is not None:
            return r
        self._fields[f] = set()
        out = set()
        names = [f] + [c for c in self.F.fns if c.startswith(f + "::{closure")]
        for nme in names:
            body = self.F.body(nme)
            for q in read_places(body):
                out.update(labels(q, body))
            for i, c in body.calls():
                g = c.get("f", "")
                if g in self.F.fns and g.startswith(SNAP) and depth < 4:
                    out |= self.fields_of(g, depth + 1)
        self._fields[f] = out
        return out

    def ctor(self, f):
        """A local constructor: field -> argument numbers its value is computed from."""
        if f in self._ctor:
            return self._ctor[f]
        self._ctor[f] = None
        m = self.F.fns.get(f)
        if m is None or m["kind"] != "fn":
            return None
        b = self.F.body(f)
        row = b.ty(0)
        if row["k"] != "adt" or row["d"] not in self.F.adts or skip_type(row["d"]):
            return None
        found = [rv for i, j, p, rv, l in b.assigns() if rv[0] == "agg" and rv[2] == row["d"] and p == [0]]
        if len(found) != 1 or len(b.blocks) > 12:
            return None
        rv = found[0]
        out = {}
        for fld, o in zip(rv[5] or [str(k) for k in range(len(rv[4]))], rv[4]):
            out[fld] = {a for a in arg_slice(b, o)}
        self._ctor[f] = (rv[2], rv[3], out)
        return self._ctor[f]

    def aggregates(self, b):
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] in self.F.adts:
                names = rv[5] if len(rv) > 5 and rv[5] else [str(k) for k in range(len(rv[4]))]
                fs = {g: self.sources(b, o) for g, o in zip(names, rv[4])}
                if fs:
                    self.fills(b, p, fs)
                    yield (b, i, rv[2], rv[3], fs, l)
            elif rv[0] == "agg" and rv[1] == "tuple" and len(p) == 1 and len(rv[4]) > 1:
                yield (b, i, b.tys(p[0]), None, {str(k): self.sources(b, o) for k, o in enumerate(rv[4])}, l)
        for i, c in b.calls():
            k = self.ctor(c.get("f", ""))
            if k:
                d, v, m = k
                fs = {}
                for fld, argsn in m.items():
                    src, ops = set(), set()
                    for a in argsn:
                        if a - 1 < len(c["a"]):
                            s, o = self.sources(b, c["a"][a - 1])
                            src |= s
                            ops |= o
                    fs[fld] = (src, ops)
                self.fills(b, c["d"], fs)
                yield (b, i, d, v, fs, b.line(i))

    def fills(self, b, place, fs):
        """What is later assigned to, or put into, the fields of the value built at place."""
        if len(place) != 1:
            return
        al = {place[0]}
        for _ in range(3):
            for i, j, p, rv, l in b.assigns():
                if rv[0] == "use" and len(p) == 1 and op_place(rv[1]) and len(op_place(rv[1])) == 1 and op_local(rv[1]) in al:
                    al.add(p[0])

        def add(f, src, ops):
            s0, o0 = fs.get(f, (set(), set()))
            fs[f] = (s0 | src, o0 | ops)
        for i, j, p, rv, l in b.assigns():
            if p[0] in al and len(p) > 1:
                ls = labels(p, b)
                if ls and ls[0][1] in fs:
                    src, ops = self.rvsources(b, rv)
                    add(ls[0][1], src, ops)
        for i, c in b.calls():
            if c["d"][0] in al and len(c["d"]) > 1:
                ls = labels(c["d"], b)
                if ls and ls[0][1] in fs:
                    for o in c["a"]:
                        add(ls[0][1], *self.sources(b, o))
            for a in c["a"]:
                f = into_field(b, a, al)
                if f in fs:
                    for o in c["a"]:
                        if o is not a:
                            add(f, *self.sources(b, o))

    def stores(self, bodies, dtos):
        """Compiler fields filled by assignment or through a mutating call."""
        out = []
        for b in bodies:
            if not any("module::Module" == peel(self.F, b.ty(k)).get("d") and
                       b.ty(k)["k"] == "refmut" for k in range(1, b.args + 1)):
                continue
            for i, j, p, rv, l in b.assigns():
                ls = labels(p, b)
                if ls and ls[0][0] == "module::Module":
                    src, ops = self.rvsources(b, rv)
                    out.append((b, ls[0][0], {ls[0][1]: (src, ops)}, l))
            for i, c in b.calls():
                for a in c["a"]:
                    f = mut_field(b, a)
                    if f:
                        src, ops = set(), set()
                        for o in c["a"]:
                            if o is not a:
                                s, w = self.sources(b, o)
                                src |= s
                                ops |= w
                        if f[0] == "module::Module" and any(is_dto(s[0], dtos) for s in src):
                            out.append((b, f[0], {f[1]: (src, ops)}, b.line(i)))
        return out

    def rvsources(self, b, rv):
        if is_call(rv):
            return set(), set()
        src, ops = set(), set()
        for o in rv_operands(rv):
            s, w = self.sources(b, o)
            src |= s
            ops |= w
        return src, ops


def peel(F, row):
    while row["k"] in ("ref", "refmut"):
        row = F.types[row["a"][0]]
    return row


def mut_field(b, op):
    l = op_local(op)
    if l is None:
        return None
    for _, _, rv, p in b.defs().get(l, []):
        if not is_call(rv) and rv[0] == "ref" and rv[1] == "mut":
            ls = labels(rv[2], b)
            if ls:
                return ls[0]
            if all(x == "*" for x in rv[2][1:]):
                return mut_field(b, ["c", [rv[2][0]]]) if rv[2][0] != l else None
        if not is_call(rv) and rv[0] == "use" and op_local(rv[1]) not in (None, l):
            return mut_field(b, rv[1])
    return None


def into_field(b, op, al, depth=0):
    """The operand reaches, through mutable borrows and calls on them, into a field of one of al."""
    l = op_local(op)
    if l is None or depth > 6 or "&mut" not in b.tys(l) and depth == 0:
        return None
    for _, _, rv, p in b.defs().get(l, []):
        if is_call(rv):
            for a in rv["a"][:1]:
                f = into_field(b, a, al, depth + 1)
                if f:
                    return f
        elif rv[0] == "ref" and rv[1] == "mut":
            if rv[2][0] in al:
                ls = labels(rv[2], b)
                if ls:
                    return ls[0][1]
            f = into_field(b, ["c", [rv[2][0]]], al, depth + 1)
            if f:
                return f
        elif rv[0] == "use":
            f = into_field(b, rv[1], al, depth + 1)
            if f:
                return f
    return None


def arg_slice(b, op):
    seen = set()
    work = [op_local(op)]
    while work:
        l = work.pop()
        if l is None or l in seen:
            continue
        seen.add(l)
        for _, _, rv, p in b.defs().get(l, []):
            work += list(deps(b, rv))
    return {l for l in seen if 1 <= l <= b.args}


# -- enum variants ---------------------------------------------------------------------------
def variants(F, R, bodies, dtos):
    """Each variant captured comes back as itself."""
    to = {}
    back = {}
    for b in bodies:
        for m in arms.matches(F, b):
            names = [v["name"] for v in F.adts[m.adt]["variants"]]
            for v in names:
                t = arms.target_of(m, v)
                if t is None:
                    continue
                reg = arms.region(b, m, v)
                shared = sum(1 for w in names if arms.target_of(m, w) == t) > 1
                for i, j, p, rv, l in arms.aggs(b, reg):
                    if rv[1] != "adt" or rv[2] not in F.adts or F.adts[rv[2]]["kind"] != "enum" or rv[2] == m.adt:
                        continue
                    if rv[2] in dtos and m.adt not in dtos:
                        to.setdefault((m.adt, rv[2]), {}).setdefault(v, set()).add((rv[3], shared, b.name, l, b.meta["file"]))
                    elif m.adt in dtos and rv[2] not in dtos:
                        back.setdefault((rv[2], m.adt), {}).setdefault(v, set()).add((rv[3], shared, b.name, l, b.meta["file"]))
    n = 0
    for (t, d), fwd in to.items():
        bw = back.get((t, d))
        if not bw:
            continue
        for v, ws in fwd.items():
            for w, shared, fn, line, file in ws:
                # variants built while matching another enum inside the arm do not belong to it
                cand = {x for x, _, _, _, _ in ws}
                ret = {x for x, _, _, _, _ in bw.get(w, ())}
                n += 1
                ok = v in ret
                R.ob("variant", f"{short(t + '::' + v)}", ok, f"{file}:{line}",
                     f"{short(t + '::' + v)} is captured as {w} but restored as {sorted(ret) or 'nothing'}")
                if shared:
                    R.bad("variant", f"{short(t + '::' + v)}|shared", f"{file}:{line}",
                          f"{short(t + '::' + v)} shares its portable form {w} with another variant")
                if len(ret) > 1:
                    pass
    R.floor("enum variants", n, 50)
    # a portable variant whose restoration builds several variants of one enum
    for (t, d), bw in back.items():
        for w, vs in bw.items():
            got = {x for x, _, _, _, _ in vs}
            if (t, d) in to and len(got) > 1:
                x = sorted(vs)[0]
                R.bad("variant", f"{short(d + '::' + w)}|ambiguous", f"{x[4]}:{x[3]}", f"{w} is restored as {sorted(got)}")


REVIEWED = {"capture_native": "selects the portable variant by the literal's type"}


def conditional(F, R, bodies):
    """No data is left out on a run-time condition: a condition either refuses the whole snapshot or
    does not decide what is captured or restored."""
    for b in bodies:
        if tail2(b.name).split("::")[-1] in REVIEWED:
            continue
        for i, bl in enumerate(b.blocks):
            t = bl["t"]
            if bl["c"] or t[0] != "switch":
                continue
            l = op_local(t[1])
            if l is None or b.tys(l) != "bool" or drop_flag(b, l):
                continue
            succ = [x for _, x in t[2]] + [t[3]]
            ok = any(refuses(b, x) for x in succ)
            R.ob("unconditional", F.root_fn(b.name) + "|" + str(t[1]), ok, b.where(i),
                 "whether data is captured or restored depends on a run-time condition")


def drop_flag(b, l):
    return all(not is_call(rv) and rv[0] == "use" and rv[1][0] == "k" for _, _, rv, p in b.defs().get(l, []))


def refuses(b, start):
    """Every path from here ends in an error return or a panic."""
    errs = set()
    for i, j, p, rv, l in b.assigns():
        if rv[0] == "agg" and rv[2] == "core::result::Result" and rv[3] == "Err":
            errs.add(i)
    for i, c in b.calls():
        if c.get("f", "").endswith("from_residual"):
            errs.add(i)
    r = b.reachable([start], avoid=errs) if start not in errs else set()
    return not any(b.blocks[x]["t"][0] == "ret" for x in r)


# -- module ----------------------------------------------------------------------------------
def module_fields(F, R, S, bodies, dtos):
    a = F.adts.get("module::Module")
    if a is None:
        R.bad("module", "module::Module", "", "module::Module not found")
        return
    stored = set()
    for b in bodies:
        for bb, key, m, line in S.stores([b], dtos):
            stored |= set(m)
        for i, c in b.calls():
            # restoring helpers handed a mutable part of the module
            for op in c["a"]:
                f = mut_field(b, op)
                if f and f[0] == "module::Module" and c.get("f", "").startswith(SNAP):
                    stored.add(f[1])
    for fld in a["variants"][0]["fields"]:
        f = fld[0]
        if f in UNTOUCHED:
            R.note(f"Module.{f}: {UNTOUCHED[f]}")
            continue
        R.ob("module", f, f in stored, f"{a['file']}:{a['line']}", f"Module.{f} is not restored from the snapshot")


# -- encodings -------------------------------------------------------------------------------
def wire(F, R, dtos):
    """The derived encodings of every type with one carry all fields both ways."""
    n = 0
    sers = {}
    for nme in F.fns:
        m = re.search(r"impl serde_core::ser::Serialize for ([^>]+?)(<.*)?>::serialize$", nme)
        if m and m.group(1) in F.adts:
            sers[m.group(1)] = nme
    reach = embedded(F, dtos)
    for x, nme in sorted(sers.items()):
        if x not in reach:
            continue
        b = F.body(nme)
        a = F.adts[x]
        got = set()
        for q in read_places(b):
            got.update(labels(q, b))
        transparent = not any("serialize_struct" in c.get("f", "") or "serialize_" in c.get("f", "") for i, c in b.calls())
        for v in a["variants"]:
            key = owner_name(F, x, v["name"])
            for fld in v["fields"]:
                n += 1
                R.ob("wire", f"{short(key)}.{fld[0]}", (key, fld[0]) in got, b.where(), f"{short(key)}.{fld[0]} is not encoded")
    de = 0
    for b in F.all_bodies():
        m = re.search(r"Deserialize<'de> for ([^>]+?)(<.*)?>::deserialize::", b.name)
        if not m or m.group(1) not in reach:
            continue
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == m.group(1) and rv[4]:
                names = rv[5] if len(rv) > 5 and rv[5] else [str(k) for k in range(len(rv[4]))]
                for g, o in zip(names, rv[4]):
                    de += 1
                    ok = decoded(b, o)
                    R.ob("wire", f"{short(owner_name(F, rv[2], rv[3]))}.{g}|decoded|{b.name.rsplit('::', 1)[-1]}", ok,
                         f"{b.meta['file']}:{l}", f"{short(rv[2])}.{g} is not read back from the encoding")
    R.floor("encoded fields", n, 150)
    R.floor("decoded fields", de, 150)


def decoded(b, op):
    seen = set()
    work = [op_local(op)]
    calls = set()
    if op[0] == "k":
        return False
    while work:
        l = work.pop()
        if l is None or l in seen:
            continue
        seen.add(l)
        for _, _, rv, p in b.defs().get(l, []):
            if is_call(rv):
                calls.add(rv.get("f", "").rsplit("::", 1)[-1])
            work += list(deps(b, rv))
    if "default" in calls:
        return False
    return any(c in ("next_element", "next_element_seed", "next_value", "next_value_seed", "newtype_variant", "deserialize", "deserialize_newtype_struct") for c in calls) \
        or any(1 <= l <= b.args for l in seen)


def embedded(F, dtos):
    """Local ADTs a portable value can contain."""
    out = set()
    work = list(dtos)
    while work:
        d = work.pop()
        if d in out or d not in F.adts:
            continue
        out.add(d)
        for v in F.adts[d]["variants"]:
            for fld in v["fields"]:
                for x in F.type_adts(fld[1]):
                    work.append(x)
                work += inner(F, fld[1])
    return out


def inner(F, t, depth=0):
    row = F.types[t]
    out = []
    if row["k"] == "adt" and row.get("d") in F.adts:
        out.append(row["d"])
    if depth < 6:
        for a in row.get("a") or []:
            if isinstance(a, int):
                out += inner(F, a, depth + 1)
    return out
