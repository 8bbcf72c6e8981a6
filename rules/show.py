"""Development aid: print the facts of functions matching a substring."""
import glob
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import *


def pp(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        s = f"(*{s})" if e == "*" else (s + e.split(":")[0] if e.startswith(".") else f"{s}{e}" if e.startswith("[") else f"({s} {e})")
    return s


def po(o):
    if o[0] == "k":
        c = o[1]
        for k in ("fn", "str", "v", "def", "static"):
            if k in c:
                return f"const {c[k]!r}" + (f"[prom {c['prom']}]" if "prom" in c else "")
        return "const ?"
    return ("move " if o[0] == "m" else "") + pp(o[1])


def prv(r, F):
    k = r[0]
    if k in ("use", "repeat"):
        return po(r[1])
    if k == "ref":
        return f"&{'mut ' if r[1] == 'mut' else ''}{pp(r[2])}"
    if k == "rawptr":
        return f"&raw {pp(r[1])}"
    if k == "cast":
        return f"{po(r[2])} as[{r[1]}] {F.types[r[3]]['s']}"
    if k == "bin":
        return f"{r[1]}({po(r[2])}, {po(r[3])})"
    if k == "un":
        return f"{r[1]}({po(r[2])})"
    if k == "disc":
        return f"disc({pp(r[1])})"
    if k == "agg":
        names = r[5] or [str(i) for i in range(len(r[4]))]
        return f"{r[1]}:{r[2]}::{r[3]}{{{', '.join(n + ': ' + po(o) for n, o in zip(names, r[4]))}}}"
    return str(r)


def show(b):
    F = b.facts
    print(f"fn {b.name}  {b.where()}")
    vn = {}
    for n, p in b.vars:
        if len(p) == 1:
            vn[p[0]] = n
    for i, l in enumerate(b.locals):
        print(f"  let _{i}{'(' + vn[i] + ')' if i in vn else ''}: {F.types[l]['s']}")
    for i, bl in enumerate(b.blocks):
        if bl["c"]:
            continue
        print(f" bb{i}: ({bl['l']})")
        for s in bl["s"]:
            if s[0] == "=":
                print(f"    {pp(s[1])} = {prv(s[2], F)}")
        t = bl["t"]
        if t[0] == "call":
            c = t[1]
            print(f"    {pp(c['d'])} = {c.get('f', '(fnptr)')} [{c['res']}] ({', '.join(map(po, c['a']))}) -> {t[2]}")
        elif t[0] == "switch":
            print(f"    switch {po(t[1])} {t[2]} else {t[3]}")
        elif t[0] == "drop":
            print(f"    drop {pp(t[1])}: {F.types[t[2]]['s']} -> {t[3]}")
        elif t[0] == "assert":
            print(f"    assert[{t[1]}] {po(t[2])} -> {t[5]}")
        else:
            print("    ", *t)


if __name__ == "__main__":
    F = Facts(glob.glob(os.environ.get('FB','/verif/build')+'/facts-*.index')[0][:-6])
    pat = sys.argv[1]
    hits = [p for p in F.fns if p == pat] or [p for p in F.fns if pat in p]
    if len(hits) > 3 and "-a" not in sys.argv:
        print(*hits[:60], sep="\n")
    else:
        for h in hits:
            show(F.body(h))
