"""Symbolic linear forms of integer expressions: {monomial (sorted tuple of atoms): coefficient}."""


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            mm = tuple(sorted(m + k))
            r[mm] = r.get(mm, 0) + c * d
            if r[mm] == 0:
                del r[mm]
    return r


def form(e, expand=lambda n: None):
    """expand(ref node) may return a linear form for a variable, or None to keep it as an atom.
    Anything that is not +,-,* over variables becomes an opaque atom '?key'."""
    if e.k == "cast":
        return form(e.c[0], expand)
    if e.v is not None and isinstance(e.v, int):
        return {(): e.v} if e.v else {}
    if e.k == "bin" and e.op in ("+", "-"):
        return add(form(e.c[0], expand), form(e.c[1], expand), 1 if e.op == "+" else -1)
    if e.k == "bin" and e.op == "*":
        return mul(form(e.c[0], expand), form(e.c[1], expand))
    if e.k == "un" and e.op == "-":
        return add({}, form(e.c[0], expand), -1)
    if e.k == "un" and e.op == "+":
        return form(e.c[0], expand)
    if e.k == "ref":
        x = expand(e)
        if x is not None:
            return x
        return {(e.key,): 1}
    if e.k == "mem":
        return {(e.key,): 1}
    return {("?" + e.key,): 1}
