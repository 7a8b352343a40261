"""Flags that collect a decision over all elements of a list, but are left to the last element."""
LOOPS = ("for", "while", "do")


def near(n):
    for a in n.up():
        if a.k in LOOPS:
            return a
    return None


def inside(n, anc):
    return n is anc or any(a is anc for a in n.up())


def leaves(n, L):
    """The store is followed by leaving the loop (break, return, goto in the same block)."""
    a, child = n.p, n
    while a is not None and a is not L:
        if a.k == "block":
            i = next((i for i, c in enumerate(a.c) if c is child), None)
            if i is not None:
                for c in a.c[i + 1:]:
                    if c is not None and c.k in ("break", "return", "goto"):
                        return True
        child, a = a, a.p
    return False


def flags(f):
    """(loop, declaration, name, stores, why) for the flags set in a loop and read behind it; why is None when the
    decision of an element is kept."""
    if f.body is None:
        return
    for L in f.body.find(*LOOPS):
        init = L.c[0] if L.k == "for" else None
        asg = {}
        for n in L.find("bin"):
            l = n.c[0].strip()
            if n.op == "=" and l.k == "ref" and "d" in l.a and l.t.kind in ("int", "bool", "enum") and near(n) is L:
                if init is not None and inside(n, init):
                    continue
                asg.setdefault(l.a["d"], []).append(n)
        if not asg:
            continue
        cond = {r.a.get("d") for c in (L.c[1:2] if L.k == "for" else L.c[:1] if L.k == "while" else L.c[1:2])
                if c is not None for r in c.find("ref")}
        for d, ns in asg.items():
            vals = [n.c[1].strip().v for n in ns]
            boolean = "bool" in ns[0].c[0].strip().t.sp.lower()
            if not boolean and (None in vals or not set(vals) <= {0, 1, -1}):
                continue
            others = [n for n in L.find("ref") if n.a.get("d") == d and not any(n is s.c[0].strip() for s in ns)]
            outside = [r for r in f.body.find("ref") if r.a.get("d") == d and not inside(r, L)
                       and not (r.p is not None and r.p.k == "bin" and r.p.op == "=" and r.p.c[0].strip() is r)]
            outside = [r for r in outside if r.line >= L.line]
            if not outside:
                continue
            dec = next((v for v in L.find("var") if v.a.get("d") == d), None)
            if dec is not None:
                continue
            name = ns[0].c[0].strip().name
            open_ = [n for n in ns if not leaves(n, L)]
            why = None
            if d in cond or others:
                why = None
            elif len(set(vals)) > 1 and None not in vals and len({n.c[1].strip().v for n in open_}) > 1:
                why = "set to %s by one element and back to %s by the next" % tuple(sorted({str(v) for v in vals})[:2])
            elif None in vals and any(n.c[1].strip().v is None for n in open_):
                why = "overwritten by each element"
            yield L, d, name, ns, why
