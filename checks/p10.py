"""P10: columns go with eastings and rows with northings, in the right direction."""
import re

import axis
from axis import Axes, COMPARE, EXT_ARG, OTHER, named

ASSUMPTIONS = [
    "Axis of a quantity: inferred from the fields, array slots and GDAL calls that define it; what cannot be "
    "inferred is not judged.",
    "Images are north-up (negative row resolution), as every writer of a geotransformation in the program makes them.",
]


def target(ax, n):
    """(axis, text) a place commits to: an x/y slot or field, or a variable with a telling name."""
    n = n.strip()
    if n.k in ("mem", "idx"):
        a = ax.of(n)
        return (a, n.key) if a in ("X", "Y") else None
    c = ax.cell(n)
    if c:
        if isinstance(c[0], str):
            return None
        a = ax.demand.get(c) or named(c[1])
        return (a, c[1]) if a else None
    return None


def bare(n):
    n = n.strip()
    return n.k in ("ref", "mem") or n.k == "call" and not n.args[1:]


def counted(f):
    """Variables that are stepped in a function."""
    try:
        return f._counted
    except AttributeError:
        s = set()
        for n in f.walk():
            if n.k == "un" and n.op in ("p++", "p--", "++", "--") or n.k == "bin" and n.op in ("+=", "-="):
                s.add(n.c[0].strip().key)
        f._counted = s
        return s


def factors(n):
    """Keys of the factors of a product."""
    n = n.strip()
    if n.k == "paren":
        return factors(n.c[0])
    if n.k == "bin" and n.op in ("*", "/"):
        return factors(n.c[0]) | factors(n.c[1])
    return {n.key}


def terms(n):
    n = n.strip()
    if n.k == "paren":
        return terms(n.c[0])
    if n.k == "bin" and n.op in ("+", "-") and n.v is None:
        return terms(n.c[0]) + terms(n.c[1])
    return [n]


def mixed_sum(ax, n):
    """A sum of an x and a y quantity; weighted sums (a*x+b*y) and extents (nx+ny) are legitimate."""
    a, b = ax.ty(n.c[0]), ax.ty(n.c[1])
    if not a or not b or {a[0], b[0]} != {"X", "Y"}:
        return False
    for c in n.c[:2]:
        for t in terms(c):
            t = t.strip()
            if t.k == "bin" and t.op == "*" and t.t is not None and t.t.kind in ("int", "uint"):
                u, v = ax.ty(t.c[0]), ax.ty(t.c[1])
                if u and v and u[0] == v[0] and u[0] in "XY":
                    return True     # a row number times the number of rows, plus a column
    free = [{k for t in terms(c) for x in [factors(t)] if len(x) > 1 for k in x} for c in n.c[:2]]
    if (free[0] or free[1]) and not (free[0] & free[1]):
        # weights of both terms differ
        if all(any(not ax_typed(ax, t, k) for t in terms(c) for k in factors(t)) for c in n.c[:2]):
            return False
    if a[1] in axis.LEVEL or b[1] in axis.LEVEL:
        return True
    for p in n.up():
        if p.k == "idx" and p.c[1] is not None and any(x is n for x in p.c[1].walk()):
            return True
        if p.k == "bin" and p.op in ("=", "+=", "-="):
            return target(ax, p.c[0]) is not None
        if p.k == "var":
            return named(p.name) is not None
        if p.k == "call":
            return p.callee not in axis.KEEP
        if p.k not in ("cast", "paren", "bin", "un"):
            return False
    return False


def linear(ctx, ax, f, n, a, b):
    """Row numbers are multiplied by the number of columns; a column is no position in the image."""
    key = "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key)[:60])
    for x, o in ((n.c[0], b), (n.c[1], a)):
        x = x.strip()
        while x.k == "paren":
            x = x.c[0].strip()
        if n.op == "+" and o in ("X", "Y") and x.k == "bin" and x.op == "*" and x.v is None:
            u, v = ax.of(x.c[0]), ax.of(x.c[1])
            if u == v == OTHER[o]:
                ctx.violate("sum", key, n.where(), "multiplies a quantity of the %s axis by another of the same axis, "
                            "to address a place of the %s axis" % (u, o))
                return True
    if n.op == "-" and a in ("X", "Y") and b == "P":
        ctx.violate("sum", key, n.where(), "subtracts a product of x and y quantities from a quantity of the %s axis" % a)
        return True
    return False


def ax_typed(ax, t, key):
    for x in t.walk():
        if x.key == key:
            return ax.ty(x) is not None or x.v is not None
    return True


def swap(n):
    for a, b in (("ncol", "nrow"), ("col", "row"), ("width", "height"), ("XSize", "YSize"), ("lon", "lat")):
        if a in n:
            return n.replace(a, b)
    m = re.sub(r"x(?=\d?$|_|off)|(?<=_)x|^x", "y", n)
    return m if m != n else None


def pure(n):
    return not any(x.k in ("call", "cond") or x.k == "bin" and x.op in ("=", "&&", "||") for x in n.walk())


def defs(f):
    d = {}
    for n in f.walk():
        if n.k == "bin" and n.op in ("=", "+=", "-="):
            l = n.c[0].strip()
            if l.k == "ref":
                t = [l] if n.op != "=" else []
                d.setdefault(l.name, []).append((n, t + terms(n.c[1]), n.c[1]))
        elif n.k == "var" and n.c and n.c[0] is not None:
            d.setdefault(n.name, []).append((n, terms(n.c[0]), n.c[0]))
    return d


def nonconst(ts):
    return len([t for t in ts if t.v is None])


def steps(block, ax):
    """(variable key, sign, axis, is index, node) of the updates that are direct statements of a block."""
    for s in block.c:
        if s is None:
            continue
        s = s.strip()
        v = sg = st = None
        if s.k == "un" and s.op in ("p++", "++", "p--", "--"):
            v, sg = s.c[0].strip(), 1 if "+" in s.op else -1
        elif s.k == "bin" and s.op in ("+=", "-="):
            v, sg, st = s.c[0].strip(), 1 if s.op == "+=" else -1, s.c[1]
        elif s.k == "bin" and s.op == "=" and s.c[1].strip().k == "bin" and s.c[1].strip().op in ("+", "-"):
            r = s.c[1].strip()
            if r.c[0].strip().key == s.c[0].strip().key:
                v, sg, st = s.c[0].strip(), 1 if r.op == "+" else -1, r.c[1]
            elif r.op == "+" and r.c[1].strip().key == s.c[0].strip().key:
                v, sg, st = s.c[0].strip(), 1, r.c[0]
        if v is None:
            continue
        if st is not None and isinstance(st.v, int):
            sg, st = sg * (1 if st.v > 0 else -1), None
        yield v, sg, st, s


def check(ctx):
    ctx.rule("sum", "x and y quantities are never added, subtracted or divided by one another")
    ctx.rule("compare", "a position on one axis is only compared with bounds of the same axis")
    ctx.rule("assign", "a place for an x quantity receives x quantities, one for y receives y")
    ctx.rule("argument", "arguments belong to the axis the function uses the parameter for")
    ctx.rule("direction", "from the upper-left corner, columns count eastwards and rows southwards")
    ctx.rule("index", "row and column numbers count from the upper-left corner of image or grid")
    ctx.rule("lockstep", "walking over tiles moves the tile number and its corner in step, and cells are half-open")
    ctx.rule("mirror", "an offset along one axis is built from the same terms as its sibling along the other axis")
    ctx.rule("tag", "a text that names an axis (ORIGIN_MAP_X) goes with quantities of this axis, and is read to where it is written from")
    ctx.rule("text", "the numbers of a tile name (X0000_Y0000) are taken from where the name keeps them")
    P = ctx.prog
    ax = Axes(P)
    tags(ctx, ax, P)
    texts(ctx, ax, P)
    for f in P.functions:
        for n in f.walk():
            if n.k == "bin" and n.op in ("+", "-", "/", "%"):
                a, b = ax.of(n.c[0]), ax.of(n.c[1])
                if a in ("X", "Y") and b in ("X", "Y"):
                    bad = a != b if n.op in "/%" else mixed_sum(ax, n)
                    ctx.judge(not bad, "sum", "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key)[:60]), n.where(),
                              "mixes a quantity of the %s axis with one of the %s axis" % (a, b))
                elif n.op in "+-" and n.t is not None and n.t.kind not in ("int", "uint") and \
                        "P" in (a, b) and {a, b} & {"X", "Y"}:
                    t = ax.ty(n.c[0]) if a != "P" else ax.ty(n.c[1])
                    if t[1] in axis.LEVEL:
                        ctx.violate("sum", "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key)[:60]), n.where(),
                                    "adds a product of x and y quantities to a coordinate")
                if n.op in "+-" and n.t is not None and n.t.kind in ("int", "uint") and linear(ctx, ax, f, n, a, b):
                    continue
                if n.op in "+-":
                    j, why = ax.clash(n)
                    if j:
                        ctx.judge(why is None, "direction", "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key)[:60]),
                                  n.where(), re.sub(r"#\d+", "", why or ""))
            elif n.k == "bin" and n.op in COMPARE:
                a, b = ax.of(n.c[0]), ax.of(n.c[1])
                if a in ("X", "Y") and b in ("X", "Y"):
                    ok = a == b or ax.selects(n)
                    if not ok and bare(n.c[0]) and bare(n.c[1]):
                        ok = not ({n.c[0].strip().key, n.c[1].strip().key} & counted(f))
                    ctx.judge(ok, "compare", "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key)[:60]), n.where(),
                              "compares a quantity of the %s axis with one of the %s axis" % (a, b))
            src = dst = None
            if n.k == "bin" and n.op in ("=", "+=", "-="):
                dst, src = target(ax, n.c[0]), n.c[1]
            elif n.k == "var" and n.c and n.c[0] is not None and named(n.name):
                dst, src = (named(n.name), n.name), n.c[0]
            if dst:
                t = ax.ty(src)
                if t and t[0] == "P" and src.strip().k == "bin" and src.strip().op == "*" and n.k == "bin" and n.op == "=" and \
                        {ax.of(c) for c in src.strip().c} == {"X", "Y"} and n.c[0].t is not None and n.c[0].t.kind in ("int", "uint"):
                    nm = re.sub(r"#\d+", "", dst[1])
                    ctx.violate("assign", "%s:%s" % (f.name, nm), n.where(),
                                "%s (%s axis) receives the product of a quantity of the X axis and one of the Y axis" % (nm, dst[0]))
                if t and t[0] in ("X", "Y"):
                    nm = re.sub(r"#\d+", "", dst[1])
                    ctx.judge(t[0] == dst[0], "assign", "%s:%s" % (f.name, nm), n.where(),
                              "%s (%s axis) receives a quantity of the %s axis" % (nm, dst[0], t[0]))
                    if n.k == "bin" and n.op == "=" and n.c[0].t is not None and n.c[0].t.kind == "int" and t[1] in ("off", "neg"):
                        ctx.judge(t[1] != "neg", "index", "%s:%s" % (f.name, nm), n.where(),
                                  "%s counts against the image direction" % nm)
            elif src is not None:
                t = ax.ty(src)
                l = n.c[0] if n.k == "bin" else n
                if t and t[0] in ("X", "Y") and t[1] in ("off", "neg") and l.t is not None and l.t.kind == "int" and \
                        (n.k == "var" or n.op == "="):
                    nm = re.sub(r"#\d+", "", l.key)
                    ctx.judge(t[1] != "neg", "index", "%s:%s" % (f.name, nm), n.where(),
                              "%s counts against the image direction" % nm)
            if n.k == "call":
                arguments(ctx, ax, f, n)
        lockstep(ctx, ax, f)
        mirror(ctx, ax, f)
        differences(ctx, ax, f)
    ctx.floor("sum", 60)
    ctx.floor("compare", 150)
    ctx.floor("assign", 180)
    ctx.floor("argument", 150)
    ctx.floor("direction", 8)
    ctx.floor("index", 10)


def tag_of(c):
    """(text, True if equal) of a comparison with a constant text."""
    c = c.strip()
    if c.k == "bin" and c.op in ("==", "!=") and c.c[1].strip().v == 0 and c.c[0].strip().k == "call" and c.c[0].strip().callee in ("strcmp", "strcasecmp"):
        s = [a.strip().a.get("s") for a in c.c[0].strip().args if a.strip().k == "str"]
        return (s[0], c.op == "==") if s else None
    if c.k == "un" and c.op == "!" and c.c[0].strip().k == "call" and c.c[0].strip().callee in ("strcmp", "strcasecmp"):
        s = [a.strip().a.get("s") for a in c.c[0].strip().args if a.strip().k == "str"]
        return (s[0], True) if s else None
    return None


def fields(n):
    """Members and slots of an expression, from the outside in."""
    n, out = n.strip(), []
    while n.k in ("mem", "idx"):
        out.append(n.name if n.k == "mem" else n.c[1].strip().v)
        n = n.c[0].strip()
    return tuple(out)


def tags(ctx, ax, P):
    read, written = {}, {}
    for f in P.functions:
        for u in f.find("if"):
            t = tag_of(u.c[0])
            b = u.c[1] if t and t[1] else u.c[2] if t and len(u.c) > 2 else None
            if not t or b is None:
                continue
            for n in b.find("bin"):
                l = n.c[0].strip()
                if n.op != "=" or l.k not in ("mem", "idx"):
                    continue
                m = re.search(r"[_ ]([XY])$", t[0])
                a = ax.of(l)
                if m and a in ("X", "Y"):
                    ctx.judge(a == m[1], "tag", "%s:%s" % (f.name, t[0]), n.where(),
                              "what is read for %s is kept as a quantity of the %s axis" % (t[0], a))
                if m:
                    read.setdefault(t[0], []).append((fields(l), n))
        for c in f.calls("fprintf"):
            fmt = c.args[1].strip().a.get("s") if len(c.args) > 2 and c.args[1].strip().k == "str" else None
            m = re.match(r"([A-Z_]+_[XY]) *= *%", fmt or "")
            if m:
                written.setdefault(m[1], []).append((fields(c.args[2]), c))
    for tag, ws in sorted(written.items()):
        for w, c in ws:
            if w and tag in read:
                ctx.judge(any(r == w for r, _ in read[tag]), "tag", "written:%s" % tag, c.where(),
                          "%s is written from another place than the one it is read to (%s)" % (tag, read[tag][0][1].where()))


POSITION = {1: "X", 7: "Y"}


def texts(ctx, ax, P):
    """Arrays that are filled from the text of tile names, followed through functions."""
    up, say = {}, {}

    def root(k):
        while up.get(k, k) != k:
            k = up[k]
        return k

    def join(a, b):
        if a and b:
            up[root(a)] = root(b)

    def ident(n):
        n = n.strip()
        star = 0
        while n.k in ("idx", "un", "bin", "mem"):
            if n.k == "un" and n.op == "&":
                star -= 1
            elif n.k == "idx" or n.k == "un" and n.op == "*":
                star += 1
            else:
                return None
            n = n.c[0].strip()
        if n.k != "ref" or n.a.get("dk") not in ("var", "parm", "static"):
            return None
        return n.a["d"], star

    def base(n):
        i = ident(n)
        return (n.fn,) + i if i else None

    def place(n):
        """(pointer expression, constant offset)"""
        n = n.strip()
        if n.k == "bin" and n.op == "+":
            for a, b in ((0, 1), (1, 0)):
                if isinstance(n.c[b].strip().v, int):
                    return n.c[a].strip(), n.c[b].strip().v
        if n.k == "un" and n.op == "&" and n.c[0].strip().k == "idx" and isinstance(n.c[0].strip().c[1].strip().v, int):
            return n.c[0].strip().c[0].strip(), n.c[0].strip().c[1].strip().v
        return n, 0

    todo = []
    for f in P.functions:
        lists = {}
        for c in f.calls("strncpy", "memcpy", "atoi", "strtol", "atol"):
            arg = c.args[1] if c.callee in ("strncpy", "memcpy") else c.args[0]
            b, o = place(arg)
            if o in POSITION and b.k == "ref":
                lists.setdefault(b.a["d"], []).append((o, c))
        for d, cs in lists.items():
            if {o for o, _ in cs} != set(POSITION):
                continue
            for o, c in cs:
                if c.callee in ("strncpy", "memcpy"):
                    k = base(c.args[0])
                    k = k and (k[0], k[1], k[2] + 1)
                else:
                    k = None
                    for u in c.up():
                        if u.k == "bin" and u.op == "=":
                            k = base(u.c[0])
                            break
                        if u.k == "var":
                            k = (f, u.a["d"], 0)
                            break
                if k:
                    todo.append((k, POSITION[o], c, f))
    if not todo:
        return
    for f in P.functions:
        for n in f.find("bin", "var", "call"):
            if n.k == "call":
                for g in P.resolve(n):
                    for (pn, pd, pt), a in zip(g.params, n.args):
                        i = base(a)
                        if i and pt is not None and pt.is_ptr and re.match(r"(const )?int\b", pt.canon):
                            for lv in range(0, 3):
                                join((i[0], i[1], i[2] + lv), (g, pd, lv))
                continue
            if n.k == "var":
                l, r = (f, n.a.get("d"), 0), n.c[0] if n.c and n.c[0] is not None else None
                if r is None:
                    continue
            elif n.op in ("=", "=="):
                l, r = base(n.c[0]), n.c[1]
            else:
                continue
            r = r.strip()
            if r.k == "call" and r.callee in ("atoi", "strtol", "atol"):
                i = base(r.args[0])
                join(l, i and (i[0], i[1], i[2] + 1))
                continue
            i = base(r)
            if n.k == "bin" and n.op == "==":
                for a, b in ((l, r), (i, n.c[0])):
                    t = ax.ty(b)
                    if a and t and t[0] in ("X", "Y"):
                        say.setdefault(a, []).append((t[0], n))
                continue
            if l and i and r.t is not None and r.t.is_ptr:
                for lv in range(0, 3):
                    join((l[0], l[1], l[2] + lv), (i[0], i[1], i[2] + lv))
    told = {}
    for k, vs in say.items():
        told.setdefault(root(k), []).extend(vs)
    for k, a, c, f in todo:
        for t, n in told.get(root(k), []):
            ctx.judge(t == a, "text", "%s:%s" % (f.name, a), c.where(),
                      "the %s number of a tile name ends up where %s numbers are expected (%s)" % (a, t, n.where()))


def arguments(ctx, ax, f, n):
    for i, want in EXT_ARG.get(n.callee, {}).items():
        if i < len(n.args):
            s = n.args[i].strip()
            if s.k == "un" and s.op == "&":
                s = s.c[0]
            a = ax.of(s)
            if a in ("X", "Y"):
                ctx.judge(a == want, "argument", "%s:%s:%d" % (f.name, n.callee, i), n.where(),
                          "argument %d of %s is a size or offset along %s, but %s is along %s" %
                          (i + 1, n.callee, want, re.sub(r"#\d+", "", s.key), a))
    for k, s in enumerate(n.args):
        s = s.strip()
        if s.k == "str" and "%" in s.a.get("s", "") and re.search("printf", n.callee or ""):
            for want, arg in printed(s.a["s"], n.args[k + 1:]):
                a = ax.of(arg)
                if a in ("X", "Y"):
                    ctx.judge(a == want, "argument", "%s:%s:%s" % (f.name, n.callee, want), n.where(),
                              "%s is written as %s, but belongs to the %s axis" % (re.sub(r"#\d+", "", arg.key), want, a))
            break
    for g in ctx.prog.resolve(n):
        odd = []
        for i, ((pn, pd, pt), arg) in enumerate(zip(g.params, n.args)):
            s = arg.strip()
            star = ""
            if s.k == "un" and s.op == "&":
                s, star = s.c[0], "*"
            a = ax.of(s) if not star or s.strip().k in ("mem", "idx") else named(s.strip().name or "") or ax.of(s)
            if a not in ("X", "Y"):
                continue
            cell = (g, pn, pd, star)
            d = ax.demand.get(cell) or (named(pn) if star or not starless(ax, cell, n) else None)
            if d:
                if not ctx.judge(a == d, "argument", "%s:%s:%s" % (f.name, g.name, pn), n.where(),
                                 "%s of %s belongs to the %s axis, the argument %s to the %s axis" %
                                 (pn, g.name, d, re.sub(r"#\d+", "", s.key), a)):
                    pass
                continue
            e = ax.ev.get(cell, {})
            here, there = len(e.get(a, ())), len(e.get(OTHER[a], ()))
            if "P" in e:
                continue
            if here == 1 and there >= 1:
                odd.append((pn, a, there))
            else:
                ctx.ok("argument", "%s %s:%s:%s" % (n.where(), f.name, g.name, pn))
        if len(odd) > 1 and {x[1] for x in odd} == {"X", "Y"} and min(x[2] for x in odd) > 1:
            ctx.violate("argument", "%s:%s:%s" % (f.name, g.name, "+".join(x[0] for x in odd)), n.where(),
                        "x and y arguments are exchanged compared with every other call of %s" % g.name)


def printed(fmt, args):
    """Conversions of a format that are marked as X or Y (X%04d_Y%04d)."""
    i = last = 0
    for m in re.finditer(r"%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|L|z|j|t)?[a-zA-Z])", fmt):
        if m[0] == "%%":
            continue
        i += (m[2] == "*") + (m[3] == "*")
        if i >= len(args):
            return
        w = re.search(r"(?:^|[^A-Za-z])([XY])(?: *= *)?$", fmt[last:m.start()])
        if w:
            yield w[1], args[i]
        last = m.end()
        i += 1


def starless(ax, cell, call):
    """Named parameters of generic helpers (called with both axes at several places) commit to nothing."""
    e = ax.ev.get(cell, {})
    return min(len(e.get("X", ())), len(e.get("Y", ()))) > 1


def lockstep(ctx, ax, f):
    loops = {}
    for b in f.find("block", "compound"):
        ss = list(steps(b, ax))
        for v, sg, st, s in ss:
            if st is None or st.strip().k not in ("idx", "mem", "ref"):
                continue
            t = ax.ty(st)
            if not t or t[0] not in "XY" or t[1] != "off" or v.t is None or v.t.kind in ("int", "uint"):
                continue
            # the corner moves by a tile: a number must move with it
            mates = [(w, wg) for w, wg, wt, _ in ss if wt is None and w.t is not None and w.t.kind in ("int", "uint")]
            loops.setdefault(v.key, []).append((b, sg, s, t[0], mates))
    for k, l in loops.items():
        if not any(m for *_, m in l):
            continue
        nm = re.sub(r"#\d+", "", k)
        for b, sg, s, a, mates in l:
            good = [w for w, wg in mates if (wg == sg) == (a == "X")]
            ctx.judge(bool(good), "lockstep", "%s:%s:%s" % (f.name, nm, "+" if sg > 0 else "-"), s.where(),
                      "%s moves by one tile, but the tile number does not move %s" %
                      (nm, "with it" if not mates else "in the same direction" if a == "X" else "in the opposite direction"))
        ends = []
        for b, sg, s, a, mates in l:
            w = b.p
            while w is not None and w.k in ("paren", "cast"):
                w = w.p
            if w is None or w.k != "while":
                continue
            c = next((x for x in w.c[0].walk() if x.k == "bin" and x.op in ("<", ">", "<=", ">=")), None)
            if c is not None and k in (c.c[0].strip().key, c.c[1].strip().key):
                ends.append((sg, c.op in ("<=", ">="), c))
        if len({e[0] for e in ends}) == 2:
            a = l[0][3]
            for sg, eq, c in ends:
                fwd = (sg > 0) == (a == "X")
                ctx.judge(eq == fwd, "lockstep", "%s:%s:border:%s" % (f.name, nm, "+" if sg > 0 else "-"), c.where(),
                          "a point on the border between two tiles is not given to the tile that starts there")


def like(a, b):
    """a and b are the same place of the two axes."""
    a, b = a.strip(), b.strip()
    if a.k != b.k:
        return False
    if a.k == "ref":
        return a.name == b.name or swap(a.name) == b.name
    if a.k == "mem":
        return (a.name == b.name or swap(a.name) == b.name) and like(a.c[0], b.c[0])
    if a.k == "idx":
        return like(a.c[0], b.c[0]) and (a.c[1].strip().v, b.c[1].strip().v) in ((0, 1), (0, 3)) or a.key == b.key
    if a.k == "call":
        return swap(a.callee or "") == b.callee and len(a.args) == len(b.args) and \
            all(x.key == y.key or like(x, y) for x, y in zip(a.args, b.args))
    return a.key == b.key


def to_index(n):
    """The difference becomes a row or column number."""
    for p in n.up():
        if p.k == "cast" and p.t is not None and p.t.kind == "int":
            return True
        if p.k == "bin" and p.op in ("/", "*") or p.k in ("paren", "cast"):
            continue
        if p.k == "call" and p.callee in ("floor", "ceil", "round", "rint", "lround"):
            continue
        if p.k == "bin" and p.op == "=":
            return p.c[0].t is not None and p.c[0].t.kind == "int"
        return p.k == "var" and p.t is not None and p.t.kind == "int"
    return False


def differences(ctx, ax, f):
    xs, ys = [], []
    for n in f.walk():
        if n.k == "bin" and n.op == "-" and to_index(n):
            a, b = ax.ty(n.c[0]), ax.ty(n.c[1])
            if a and b and a[0] == b[0] and a[0] in "XY" and a[1] in axis.LEVEL and b[1] in axis.LEVEL:
                (xs if a[0] == "X" else ys).append(n)
    for x in xs:
        for y in ys:
            rev = like(x.c[0], y.c[1]) and like(x.c[1], y.c[0])
            if rev or like(x.c[0], y.c[0]) and like(x.c[1], y.c[1]):
                ctx.judge(rev, "index", "%s:%s" % (f.name, re.sub(r"#\d+", "", y.key)), y.where(),
                          "rows grow towards smaller northings: this difference has to be taken the other way round than "
                          "the one of the eastings at line %d" % x.line)


def mirror(ctx, ax, f):
    d = defs(f)
    for nm, l in d.items():
        tw = swap(nm)
        if not tw or tw not in d or len(d[tw]) != len(l):
            continue
        for (n, ts, r), (n2, ts2, r2) in zip(l, d[tw]):
            if not pure(r) or not pure(r2) or n.k != n2.k:
                continue
            a, b = ax.of(r), ax.of(r2)
            if a != "X" or b != "Y" or nonconst(ts) < 1 or nonconst(ts2) < 1 or max(nonconst(ts), nonconst(ts2)) < 2:
                continue
            ctx.judge(nonconst(ts) == nonconst(ts2), "mirror", "%s:%s" % (f.name, nm), n.where(),
                      "%s is made of %d terms, but its sibling %s (line %d) of %d" %
                      (nm, nonconst(ts), tw, n2.line, nonconst(ts2)))
