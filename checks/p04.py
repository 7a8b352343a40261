"""P04: an observation that was screened out never contributes to a product."""
import re

import facts
from effects import writes_in
from facts import Facts, path
from omp import loop_var

ASSUMPTIONS = [
    "whole-band pointers to observations that are handed to image filters (texture) are not tracked into the filter",
]
# element-wise copy of the coarse image where nothing can be predicted: the copied value is not an input of a computation
COPY_OVER = {"confield_improphe", "level2_improphe"}


def spine(n):
    """Subscripts applied to a member expression, innermost first, and the outermost node."""
    ix, u = [], n
    while u.p is not None and (u.p.k == "cast" or u.p.k == "idx" and u.p.c[0].strip() is u.strip()):
        u = u.p
        if u.k == "idx":
            ix.append(u.c[1])
    return ix, u


def stored_masks(f):
    """Array roots whose msk is written in f, and not tested (the function decides about validity itself)."""
    out, tested = set(), set()
    for n in f.find("bin"):
        if n.op == "=":
            l = n.c[0].strip()
            if l.k == "idx":
                m = l.c[0].strip()
                if m.k == "mem" and m.name == "msk":
                    out.add(re.sub(r"\[.*", "", path(m)))
    for n in f.find("if"):
        for m in n.c[0].find("mem"):
            if m.name == "msk":
                tested.add(re.sub(r"\[.*", "", path(m)))
    return out - tested


def nodata_like(n):
    n = n.strip()
    while n.k == "idx":
        n = n.c[0].strip()
    if n.k == "call":
        return "nodata" in (n.callee or "")
    return n.k in ("ref", "mem") and "nodata" in (n.name or "")


def use_of(u):
    """Expression that consumes an element: (kind, node)."""
    p = u.p
    while p is not None and p.k == "cast":
        u, p = p, p.p
    if p is None:
        return "other", p
    if p.k == "bin" and p.op in ("==", "!=") and any(nodata_like(c) or c.v is not None for c in p.c if c.strip() is not u.strip()):
        return "test", p
    if p.k == "bin" and p.op == "=" and p.c[1].strip() is u.strip():
        return ("copy" if p.c[0].strip().k == "idx" else "scalar"), p
    return "other", p


def scratch(f, l):
    """The place belongs to a table of reals the function allocates for itself, to compute with."""
    l = l.strip()
    if l.t is None or l.t.kind != "float":
        return False
    while l.k in ("idx", "mem"):
        if l.k == "mem":
            return False
        l = l.c[0].strip()
    return l.k == "ref" and l.a.get("dk") == "var" and any(
        x.k == "ref" and x.a.get("d") == l.a.get("d") for c in f.calls() if (c.callee or "").startswith("alloc") and c.args
        for x in c.args[0].walk())


def exclude_key(x):
    return len(x) == 2 and x[0].endswith(".exclude") and not x[1]


def guarded(S, want):
    """msk known true, or 'msk or not excluding' known."""
    if (want, True) in S:
        return True
    for x in S:
        if len(x) == 4 and (want, True) in x[1] and all(l == (want, True) or exclude_key(l) for l in x[1]):
            return True
        if exclude_key(x):
            return True
    return False


def tested_later(f, F, u, want, d):
    """From the read on, every path tests the element's validity before its index changes."""
    w = F.locate(u)
    if w is None:
        return False
    ids = {int(i) for i in re.findall(r"#(\d+)", want)}

    def stops(e):
        l = None
        if e.k == "bin" and e.op == "=" or e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            l = e.c[0].strip()
        return l is not None and l.k == "ref" and l.a.get("d") in ids

    def tests(e):
        return any(m.k == "idx" and path(m) == want for m in e.walk())

    seen, st = set(), [(w[0], w[1])]
    while st:
        b, i = st.pop()
        B = F.cfg.b[b]
        hit = False
        for e in B.els[i:]:
            if tests(e):
                hit = True
                break
            if stops(e):
                return False
        if hit:
            continue
        if b == F.cfg.exit:
            return False
        for s in B.succ:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append((s, 0))
    return True


def tested_before(f, u, want):
    """Earlier in the same round, a verdict was noted for the element (and is looked at after the loop)."""
    L = next((x for x in u.up() if x.k in ("for", "while")), None)
    body = (L.c[3] if L.k == "for" else L.c[1]) if L is not None else None
    if body is None or body.k != "block":
        return False
    at = next((s for s in body.c if s is not None and any(x is u for x in s.walk())), None)
    for s in body.c:
        if s is at:
            return False
        if s is None or s.k != "if" or s.c[1] is None or not any(m.k == "idx" and path(m) == want for m in s.c[0].walk()):
            continue
        for x in s.c[1].find("bin"):
            v = x.c[0].strip()
            if x.op == "=" and v.k == "ref" and x.c[1].strip().v is not None and any(
                    g.k == "if" and any(y.k == "ref" and y.a.get("d") == v.a.get("d") for y in g.c[0].walk())
                    and not any(z is L for z in g.up()) for g in f.find("if")):
                return True
    return False


def buffered(f, F, u, want):
    """The value is kept in a local buffer element whose every use is guarded by the element's validity."""
    a = next((x for x in u.up() if x.k == "bin" and x.op == "="), None)
    if a is None or not any(x is u for x in a.c[1].walk()):
        return False
    l = a.c[0].strip()
    if l.k != "idx" or l.c[0].strip().k != "ref":
        return False
    d, i = l.c[0].strip().a.get("d"), path(l.c[1])
    uses = 0
    for n in f.find("idx"):
        b = n.c[0].strip()
        if n is l or b.k != "ref" or b.a.get("d") != d:
            continue
        q = n.p
        if q.k == "bin" and q.op == "=" and q.c[0].strip() is n:
            continue
        if not guarded(F.at(n), want.replace("[%s]" % i, "[%s]" % path(n.c[1]))):
            return False
        uses += 1
    return uses > 0


def verdicts(ctx, P):
    """A verdict over several observations counts all of them, not only the last one."""
    for f in P.functions:
        for L in f.find("for", "while", "do"):
            body = L.c[3] if L.k == "for" else L.c[1] if L.k == "while" else L.c[0]
            if body is None:
                continue
            inside = {n.id for n in L.walk()}
            top = body.c if body.k == "block" else [body]
            for n in body.find("bin"):
                v = n.c[0].strip()
                if n.op != "=" or v.k != "ref" or v.a.get("dk") != "var" or not isinstance(n.c[1].strip().v, (int, bool)):
                    continue
                g = next((u for u in n.up() if u.k in ("if", "for", "while", "do")), None)
                if g is None or g.k != "if" or g.id not in inside or not any(
                        x.k in ("mem", "ref") and re.match(r"msk|mask_?$|nodata", x.name or "") for x in g.c[0].walk()):
                    continue
                if next((u for u in g.up() if u.k in ("for", "while", "do")), None) is not L:
                    continue
                d = v.a["d"]
                uses = [x for x in f.find("ref") if x.a.get("d") == d]
                sets = {x.c[0].strip().id for x in f.find("bin") if x.op == "=" and x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == d}
                reads = [x for x in uses if x.id not in sets]
                if not reads or any(x.id in inside for x in reads):
                    continue
                again = [s for s in top if s is not None and s.k == "bin" and s.op == "=" and s.c[0].strip().k == "ref" and
                         s.c[0].strip().a.get("d") == d and s.c[1].strip().v != n.c[1].strip().v]
                ctx.judge(not again, "verdict", "%s:%s" % (f.name, v.name), n.where(),
                          "the verdict '%s' is set again for every element, so that only the last one counts" % v.name)


def passed_on(ctx, P, fx):
    """What is handed on with a mark is marked only after the verdict on it."""
    def base(n):
        n = n.strip()
        while n.k == "idx":
            n = n.c[0].strip()
        return n.a.get("d") if n.k == "ref" else None
    for f in P.functions:
        stores = [n for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "idx"]
        filled = {base(n.c[0]): n for n in stores if any(m.k == "mem" and m.name == "dat" and m.a.get("rec") == "ard_t" for m in n.c[1].walk())} if stores else {}
        filled.pop(None, None)
        if not filled:
            continue
        marks = {base(n.c[0]) for n in stores if n.c[0].strip().t is not None and n.c[0].strip().t.kind == "bool"} - {None}
        for c in f.calls():
            ds = {base(a) for a in c.args if a is not None}
            for k in marks & ds:
                for b in set(filled) & ds:
                    L = [u for u in filled[b].up() if u.k == "for"]
                    seen = {x.c[0].strip().a.get("d"): x.c[0].strip().name for u in L for g in u.c[3].find("if")
                            if any(m.k == "mem" and m.name == "msk" for m in g.c[0].walk()) and g.c[1] is not None
                            for x in g.c[1].find("bin") if x.op == "=" and x.c[0].strip().k == "ref" and x.c[1].strip().v == 0}
                    for n in stores:
                        if base(n.c[0]) != k or n.c[1].strip().v in (0, None) or not seen:
                            continue
                        S = fx(f).at(n)
                        ok = any(len(x) == 2 and x[1] and re.match(r"\w+#(\d+)$", x[0]) and int(x[0].split("#")[1]) in seen for x in S) \
                            or any(len(x) == 2 and ".msk[" in x[0] for x in S)
                        ctx.judge(ok, "verdict", "%s:%s" % (f.name, n.c[0].strip().c[0].strip().name), n.where(),
                                  "%s is marked to be handed on before it is known to be valid" % re.sub(r"#\d+", "", n.c[0].strip().key))


def counted(ctx, P, fx):
    """Observations of a pixel that are counted or summed were found to be valid."""
    for f in P.functions:
        if f.name.endswith("_udf"):
            continue        # k is a position in the data handed over
        for L in f.find("for"):
            d = loop_var(L)
            if d is None or L.c[3] is None:
                continue
            if not any(m.k == "mem" and m.a.get("rec") == "ard_t" and m.c[0].strip().k == "idx"
                       and m.c[0].strip().c[1].strip().a.get("d") == d for m in L.c[3].walk()):
                continue
            px = {loop_var(u) for u in L.up() if u.k == "for"} | {x for _, x, _ in f.params}
            px = {n.c[1].strip().a.get("d") for n in f.find("idx") if n.t and n.t.is_num and n.t.size in IMAGE} & px
            px -= {None}
            if not px:
                continue
            own = {n.a.get("d") for n in L.c[3].find("var")} | {loop_var(u) for u in L.c[3].find("for")} | {d}
            fresh = own | {n.c[0].strip().a.get("d") for n in L.c[3].find("bin") if n.op == "=" and n.c[0].strip().k == "ref"}
            steps = {id(x) for u in L.c[3].find("for") if u.c[2] is not None for x in u.c[2].walk()}
            for n in L.c[3].walk():
                if id(n) in steps:
                    continue
                t = n.c[0].strip() if n.k == "un" and n.op in ("++", "p++") or n.k == "bin" and n.op == "+=" else None
                if t is None or t.k != "ref" or t.a.get("d") in own or re.search(r"err|fail|byte", t.name):
                    continue
                S = fx(f).at(n)
                ok = any(len(x) == 2 and ("msk" in x[0] or "nodata" in x[0] and "==" in x[0]
                                          or re.search(r"#%d\b" % d, x[0]) and any(re.search(r"#%d\b" % q, x[0]) for q in px)
                                          or any(int(a) in fresh and int(b) in px for a, b in re.findall(r"#(\d+)\[\w+#(\d+)\]", x[0]))) for x in S)
                ctx.judge(ok, "counted", "%s:%s" % (f.name, t.name), n.where(),
                          "%s counts or sums observations of a pixel in %s without looking at their validity" % (f.name, t.name))


IMAGE = (1, 2)      # bytes of a pixel of an image or of a validity mask


def check(ctx):
    P = ctx.prog
    ctx.rule("observation-read", "a value of an observation is used only where its validity mask is known to be set (or feature exclusion is off), "
                                 "where it differs from nodata, or through an index chosen among valid observations")
    ctx.rule("verdict", "whether all of several values are valid is decided over all of them")
    verdicts(ctx, P)
    FX = {}

    def fx(f):
        if f not in FX:
            FX[f] = Facts(P, f)
        return FX[f]

    ctx.rule("counted", "observations that are counted or summed for a pixel are valid ones")
    counted(ctx, P, fx)
    passed_on(ctx, P, fx)
    callers = {}
    for f in P.functions:
        for c in f.calls():
            for g in P.resolve(c):
                callers.setdefault(g, []).append((f, c))

    def holds(f, at, want, elem, depth=0):
        """Is the element valid at node 'at' of f? Falls back to the callers when it is named by parameters."""
        F = fx(f)
        S = F.at(at)
        if guarded(S, want):
            return True
        if elem and any(len(x) == 2 and not x[1] and elem in x[0] and "==" in x[0] and "nodata" in x[0] for x in S):
            return True
        if selected(f, want, S):
            return True
        ids = {int(i) for i in re.findall(r"#(\d+)", want)}
        ps = {d: i for i, (_, d, _) in enumerate(f.params)}
        if depth < 3 and ids and ids <= set(ps) and callers.get(f):
            for g, c in callers[f]:
                w, el = want, elem
                for d in ids:
                    a = path(c.args[ps[d]]) if ps[d] < len(c.args) else None
                    if a is None:
                        return False
                    w = re.sub(r"\b\w+#%d\b" % d, lambda m: a, w)
                w = re.sub(r"&\(((?:[^()]|\([^()]*\))*)\)\[0\]", r"\1", w)
                if not holds(g, c, w, None, depth + 1):
                    return False
            return True
        return False

    def selected(f, want, S=None, seen=()):
        """An index variable that only ever receives indices of valid observations (or constants, and then what is set
        together with a valid index is known to be set)."""
        F = fx(f)
        m = re.match(r"(.*)\[(\w+)#(\d+)\](\.msk\[.*)$", want)
        if not m:
            return False
        d, ok, const, mates = int(m[3]), False, False, {int(m[3])}
        if d in {x for _, x, _ in f.params}:
            return False
        for n in f.walk():
            rhs = None
            if n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d:
                rhs = n.c[1].strip()
            elif n.k == "var" and n.a.get("d") == d and n.c and n.c[0] is not None:
                rhs = n.c[0].strip()
            elif n.k == "un" and n.op in ("++", "--", "p++", "p--") and n.c[0].strip().a.get("d") == d:
                return False
            elif n.k == "bin" and n.op in ("+=", "-=") and n.c[0].strip().a.get("d") == d:
                return False
            if rhs is not None and rhs.v is not None:
                const = True
            if rhs is None or rhs.v is not None:
                continue
            if rhs.k != "ref":
                return False
            w = "%s[%s]%s" % (m[1], path(rhs), m[4])
            if rhs.a.get("d") != d and not guarded(F.at(n), w):
                if not (rhs.k == "ref" and w not in seen and selected(f, w, None, seen + (want,))):
                    return False
            ok = True
            up = next((u.c[3] if u.k == "for" else u.c[1] for u in n.up() if u.k in ("for", "while")), None)
            for lv, st in writes_in(up) if up is not None else ():
                if lv.strip().k == "ref":
                    mates.add(lv.strip().a.get("d"))
        if ok and const and S is not None:
            known = {int(i) for x in S if len(x) == 2 for i in re.findall(r"^\w+#(\d+)$" if x[1] else r"^$()", x[0])
                     + re.findall(r"^\(\w+#(\d+)[<=]+-?\d+\)$", x[0]) + re.findall(r"^\(-?\d+[<=]+\w+#(\d+)\)$", x[0])}
            return bool(known & mates)
        return ok

    for f in P.functions:
        reads = [n for n in f.walk() if n.k == "mem" and n.name == "dat" and n.a.get("rec") == "ard_t"]
        if not reads:
            continue
        decides = stored_masks(f)
        for n in reads:
            ix, u = spine(n)
            if len(ix) < 2:
                continue
            p = u.p
            while p is not None and p.k == "cast":
                p = p.p
            if p is not None and p.k == "bin" and p.op == "=" and p.c[0].strip() is u.strip():
                continue        # store
            base = path(n)[:-4]
            if re.sub(r"\[.*", "", base) in decides:
                continue
            kind, _ = use_of(u)
            if kind == "test":
                continue
            want = "%s.msk[%s]" % (base, path(ix[-1]))
            ok = holds(f, n, want, path(u))
            if not ok and kind == "copy":
                roots = {f.name} | {g.name for g, _ in callers.get(f, [])}
                ok = bool(roots & COPY_OVER) and not scratch(f, p.c[0])
            if not ok and (tested_later(f, fx(f), u, want, None) or tested_before(f, u, want) or buffered(f, fx(f), u, want)):
                ok = True
            ctx.judge(ok, "observation-read", "%s:%s" % (f.name, re.sub(r"#\d+", "", want)), n.where(),
                      "%s reads an observation whose validity (%s) is not established on every path" % (f.name, re.sub(r"#\d+", "", want)))
    ctx.floor("observation-read", 60)
