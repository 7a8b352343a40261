"""P11: memory blocks and handles are released exactly once, after their last use."""
import re

import lin
import own
from facts import path
from omp import loop_var
from own import Own, Unit, candidates
from typestate import assigned

ASSUMPTIONS = [
    "An access path that is reassigned, or whose object is handed to a function that may replace or keep it, is not "
    "followed any further.",
    "Leaks are judged for local variables and on exits that do not report a failure; the process ends with main.",
    "External libraries release what the tables RELEASE and acquire what the tables ACQUIRE of lib/own.py say.",
]

DIMS = {"alloc_2D": (1, 2), "alloc_2DC": (1, 2), "alloc_3D": (1, 2, 3), "re_alloc_2D": (3, 4), "re_alloc_2DC": (3, 4),
        "re_alloc_3D": (4, 5, 6)}
FREES = {"free_2D": 1, "free_3D": 2}


def target(a):
    s = a.strip()
    return s.c[0].strip() if s.k == "un" and s.op == "&" else s


def once(f):
    """Variables of f with exactly one definition: declaration id -> defining expression."""
    try:
        return f._once
    except AttributeError:
        d, many = {}, {p[1] for p in f.params}
        for n in f.walk():
            if n.k == "var" and n.c and n.c[0] is not None:
                (many.add(n.a["d"]) if n.a["d"] in d else d.setdefault(n.a["d"], n.c[0]))
            elif n.k == "bin" and n.op in ("=", "+=", "-=", "*=", "/=") and n.c[0].strip().k == "ref":
                x = n.c[0].strip().a.get("d")
                (many.add(x) if x in d and d[x].v != 0 or n.op != "=" else d.__setitem__(x, n.c[1]))
            elif n.k == "un" and n.op in ("++", "--", "p++", "p--", "&") and n.c[0].strip().k == "ref":
                many.add(n.c[0].strip().a.get("d"))
        f._once = {k: v for k, v in d.items() if k not in many}
        return f._once


def form(f, e, depth=3):
    """Linear form over what cannot be resolved any further."""
    o = once(f)

    def expand(n):
        v = o.get(n.a.get("d"))
        if v is not None and depth and v.strip().k != "call":
            return form(f, v, depth - 1)
        return None
    return lin.form(e, expand)


def rename(fm, sub):
    out = {}
    for m, c in fm.items():
        mm = tuple(sorted(sub(a) for a in m))
        out[mm] = out.get(mm, 0) + c
    return out


def owner(n):
    """(record, member, text of the object) of a member access."""
    n = n.strip()
    while n.k == "idx":
        n = n.c[0].strip()
    if n.k != "mem":
        return None
    b = n.c[0].strip()
    t = b.t
    while t is not None and t.is_ptr and t.el is not None:
        t = t.el
    return (t.rec or t.sp if t is not None else None, n.name, b.key)


def handed(P, O, c):
    """(variable of the caller, callee, expressions of the callee) for blocks a call hands to its caller."""
    if c.callee in own.OUT | own.REOUT:
        return
    for g in P.resolve(c):
        for i, a in enumerate(c.args):
            if a is not None and a.strip().k == "un" and a.strip().op == "&" and a.strip().c[0].strip().k == "ref" and O._gives(g, i):
                d = g.params[i][1]
                yield path(a.strip().c[0]), g, [n.c[1] for n in g.find("bin") if n.op == "=" and n.c[0].strip().k in ("un", "idx") and
                                                n.c[0].strip().c[0].strip().k == "ref" and n.c[0].strip().c[0].strip().a.get("d") == d]
        v = assigned(c)
        if v is not None and v.k in ("ref", "var") and O.fresh(g):
            yield own.lkey(v), g, [n.c[0] for n in g.find("return") if n.c and n.c[0] is not None and n.c[0].strip().k == "ref"]


def instance(g, e, f, c):
    """A count of callee g in terms of the caller f at call c."""
    out = {}
    for m, co in form(g, e).items():
        t = {(): co}
        for at in m:
            for j, q in enumerate(g.params):
                if at == "%s#%d" % (q[0], q[1]) and j < len(c.args):
                    t = lin.mul(t, form(f, c.args[j]))
                    break
            else:
                t = lin.mul(t, {("%s:%s" % (g.name, at),): 1})
        out = lin.add(out, t)
    return out


def dims(ctx, O):
    P = ctx.prog
    local, member, same = {}, {}, {}
    for f in P.functions:
        for c in f.body.calls():
            if c.callee in DIMS and len(c.args) > DIMS[c.callee][-1]:
                m = target(c.args[0])
                fs = [form(f, c.args[i]) for i in DIMS[c.callee]]
                if m.k == "ref":
                    local.setdefault((id(f), path(m)), []).append((fs, c))
                else:
                    o = owner(m)
                    if o and o[0]:
                        sub = lambda a, b=o[2]: a.replace(b, "@").replace("@->", "@.") if b in a else a
                        member.setdefault(o[:2], []).append(([rename(x, sub) for x in fs], c))
            # a helper that leaves a new block in a variable of its caller, or returns it
            for lv, g, srcs in handed(P, O, c):
                for e in srcs:
                    for c2 in g.body.calls():
                        if c2.callee in DIMS and len(c2.args) > DIMS[c2.callee][-1] and path(target(c2.args[0])) == path(e):
                            fs = [instance(g, c2.args[k], f, c) for k in DIMS[c2.callee]]
                            local.setdefault((id(f), lv), []).append((fs, c))
    for f in P.functions:
        for c in f.body.calls():
            if c.callee not in FREES or len(c.args) <= FREES[c.callee]:
                continue
            m = target(c.args[0])
            fs = [form(f, c.args[i]) for i in range(1, FREES[c.callee] + 1)]
            if m.k == "ref":
                sites = local.get((id(f), path(m)), [])
            else:
                o = owner(m)
                if not o or not o[0]:
                    continue
                sub = lambda a, b=o[2]: a.replace(b, "@").replace("@->", "@.") if b in a else a
                fs = [rename(x, sub) for x in fs]
                if all(a.startswith("@.") for x in fs for mm in x for a in mm):
                    same.setdefault((o[:2], c.callee), []).append((fs, c, f))
                sites = member.get(o[:2], [])
            if not sites:
                continue
            key = "%s:%s" % (f.name, m.key.split("#")[0])
            good, bad = False, []
            for ds, site in sites:
                for k, x in enumerate(fs):
                    if k < len(ds):
                        r = agrees(x, ds, k)
                        if r is True:
                            good = True
                        elif r is False:
                            bad.append((k, x, ds, site))
                        else:
                            good = good or None
            if bad and not good and good is not None:
                k, x, ds, site = bad[0]
                ctx.violate("shape", key, c.where(),
                            "%s releases %s rows, but the block was allocated at %s with %s" % (
                                c.callee, show(x), site.where(), show(ds[k])))
            elif good and not bad:
                ctx.ok("shape", "%s %s" % (c.where(), key))
            elif bad and len(fs) > 1 and any(len([b for b in bad if b[3] is s2]) for _, s2 in sites) and len(sites) == 1:
                k, x, ds, site = bad[0]
                ctx.violate("shape", key, c.where(),
                            "%s releases %s rows in dimension %d, but the block was allocated at %s with %s" % (
                                c.callee, show(x), k + 1, site.where(), show(ds[k])))
            else:
                ctx.undecided("shape", key, "the counts are not comparable")
    for (o, fn), l in sorted(same.items(), key=lambda x: str(x[0])):
        vals = [show(x) for fs, _, _ in l for x in [dict((k, v) for k, v in fs[0].items())]]
        if len(l) < 2:
            continue
        common = max(set(vals), key=vals.count)
        for v, (fs, c, f) in zip(vals, l):
            ctx.judge(v == common, "shape", "%s:%s.%s" % (f.name, o[0], o[1]), c.where(),
                      "member '%s' of %s is released with %s rows here and with %s rows elsewhere" % (o[1], o[0], v, common))
    ctx.floor("shape", 30)


def show(fm):
    return " + ".join("%s%s" % ("" if c == 1 and m else c, "*".join(re.sub(r"#\d+", "", a) for a in m)) for m, c in fm.items()) or "0"


def agrees(x, ds, k):
    """True: the same count; False: surely another one; None: not comparable."""
    if x == ds[k]:
        return True
    d = lin.add(x, ds[k], -1)
    if set(d) <= {()}:
        return False
    if x in [y for j, y in enumerate(ds) if j != k]:
        return False
    a = {t for m in x for t in m}
    b = {t for m in ds[k] for t in m}
    if a and b and (a < b or b < a or a == b):
        return False
    return None


def members(ctx, O):
    """Every member that receives memory is released somewhere."""
    got, gone = {}, set()
    for f in ctx.prog.functions:
        for c in f.body.calls():
            for i, a in enumerate(c.args):
                if a is None:
                    continue
                if c.callee in own.OUT | own.REOUT and i == 0:
                    o = owner(target(a))
                    if o:
                        got.setdefault(o[:2], c)
                elif O.releases(c, i):
                    o = owner(a)
                    if o:
                        gone.add(o[:2])
                        gone.add((None, o[1]) if o[0] is None else o[:2])
    # members whose address or value is handed on are followed no further
    for (rec, name), c in sorted(got.items(), key=lambda x: (str(x[0]))):
        if (rec, name) in gone or (None, name) in gone:
            ctx.ok("member", "%s.%s %s" % (rec, name, c.where()))
            continue
        moved = False
        for f in ctx.prog.functions:
            for n in f.find("mem"):
                o = owner(n)
                if o and o[:2] == (rec, name) and n.t is not None and n.t.is_ptr:
                    p = n.p
                    while p is not None and p.k in ("cast", "paren"):
                        p = p.p
                    if p is not None and (p.k == "bin" and p.op == "=" and p.c[1].strip() is n or p.k in ("var", "return", "init")):
                        moved = True
                    if p is not None and p.k == "un" and p.op == "&" and any(u.k == "call" and u.callee not in own.OUT | own.REOUT
                                                                           for u in list(p.up())[:3]):
                        moved = True    # e.g. registered as a parameter, released through the registration
        if moved:
            ctx.undecided("member", "%s.%s" % (rec, name), "the block is moved to another variable, or its address is handed on")
        else:
            ctx.violate("member", "%s.%s" % (rec, name), c.where(),
                        "the block stored in member '%s' of %s is never released" % (name, rec))
    ctx.floor("member", 60)


GROW = {"re_alloc": ((1,), (2,)), "re_alloc_2D": ((1, 2), (3, 4)), "re_alloc_2DC": ((1, 2), (3, 4)),
        "re_alloc_3D": ((1, 2, 3), (4, 5, 6))}


def update(s, v):
    """Linear form of v after a statement that sets it, None if it does not, False if it is not linear."""
    s = s.strip()
    if s.k == "un" and s.op in ("++", "p++", "--", "p--") and s.c[0].strip().key == v:
        return lin.add({(v,): 1}, {(): 1}, 1 if "+" in s.op else -1)
    if s.k == "bin" and s.op in ("=", "+=", "-=", "*=", "/=") and s.c[0].strip().key == v:
        e = lin.form(s.c[1])
        if s.op == "=":
            return e
        if s.op == "*=":
            return lin.mul({(v,): 1}, e)
        if s.op in ("+=", "-="):
            return lin.add({(v,): 1}, e, 1 if s.op == "+=" else -1)
        return False
    return None


def direct(s):
    """Call that is a statement, or the only statement under a condition."""
    s = s.strip()
    if s.k == "if":
        b = s.c[1]
        if b is not None and b.k == "block" and len(b.c) == 1:
            b = b.c[0]
        return direct(b) if b is not None and (len(s.c) < 3 or s.c[2] is None) else None
    return s if s.k == "call" else None


def grown(ctx):
    """Tables that change their size, and the variables that keep the size."""
    for f in ctx.prog.functions:
        for b in f.find("block"):
            last = {}
            for i, s in enumerate(b.c):
                c = direct(s) if s is not None else None
                if c is None or c.callee not in GROW or len(c.args) <= GROW[c.callee][1][-1]:
                    if s is not None:
                        for n in s.walk():
                            if n.k == "bin" and n.op in ("=", "+=", "-=", "*=") or n.k == "un" and n.op in ("++", "p++", "--", "p--"):
                                x = n.c[0].strip().key
                                last = {t: fs for t, fs in last.items() if not any(x in m for y in fs for m in y)}
                    continue
                old, new = ([lin.form(c.args[j]) for j in GROW[c.callee][k]] for k in (0, 1))
                t = path(target(c.args[0]))
                key = "%s:%s" % (f.name, re.sub(r"#\d+", "", target(c.args[0]).key))
                if t is not None and t in last:
                    ctx.judge(last[t] == old, "grown", key + ":again", c.where(),
                              "the table was resized to (%s) before, but is resized from (%s)" % (
                                  ", ".join(map(show, last[t])), ", ".join(map(show, old))))
                if t is not None and s.k == "call":
                    last[t] = new
                for o, w in zip(old, new):
                    if o == w or len(o) != 1 or list(o.values()) != [1] or len(next(iter(o))) != 1:
                        continue
                    v = next(iter(o))[0]
                    now = next((u for u in (update(x, v) for x in b.c[i + 1:] if x is not None) if u is not None), None)
                    if now is None:
                        loop = next((u for u in c.up() if u.k in ("for", "while", "do")), None)
                        if loop is not None and not any(n.k == "idx" for n in c.args[0].walk()):
                            ctx.judge(any(update(n, v) is not None for n in loop.walk() if n.k in ("un", "bin")), "grown", key, c.where(),
                                      "the table is resized, but %s still holds its old size" % re.sub(r"#\d+", "", v))
                    elif now:
                        ctx.judge(now == w, "grown", key, c.where(), "the table is resized to %s, but %s becomes %s" % (
                            show(w), re.sub(r"#\d+", "", v), show(now)))
                    intime(ctx, f, c, v, key)
    ctx.floor("grown", 8)


def intime(ctx, f, c, v, key):
    """A table grows before the element behind its end is written."""
    u, x = c.p, c
    while u is not None and u.k in ("block", "cast", "paren"):
        u, x = u.p, u
    if u is not None and u.k == "if" and x is u.c[1] and not any(n.key == v for n in u.c[0].walk()):
        u, x = u.p, u
        while u is not None and u.k in ("block", "cast", "paren"):
            u, x = u.p, u
    if u is None or u.k != "if" or len(u.c) < 2 or x is not u.c[1]:
        return
    q = u.c[0].strip()
    while q.k == "paren":
        q = q.c[0].strip()
    if q.k != "bin" or q.op not in (">", ">=", "==", "<", "<="):
        return
    d = lin.add(lin.form(q.c[0]), lin.form(q.c[1]), -1)
    at = [m for m in d if m and m != (v,)]
    if (v,) not in d or len(at) != 1 or len(at[0]) != 1 or d[at[0]] != -d[(v,)]:
        return
    i, r = at[0][0], d.get((), 0)
    if not any(n.k == "idx" and n.c[1].strip().key == i for n in f.walk()):
        return
    if any(n.k in ("bin", "un") and n.key.startswith(("(%s-" % i, "(-1+%s" % i)) for n in f.walk()):
        return
    hit = {">": r > 0, ">=": r >= 0, "==": r == 0, "<": r < 0, "<=": r <= 0}[q.op]
    ctx.judge(hit, "grown", key + ":intime", q.where(), "the table is full when %s reaches %s, but it is not enlarged then" % (
        re.sub(r"#\d+", "", i), re.sub(r"#\d+", "", v)))


def rowwise(ctx, O):
    """Tables whose rows are acquired or released one by one."""
    for f in ctx.prog.functions:
        got = {}
        for n in f.find("bin"):
            l, r = n.c[0].strip(), n.c[1].strip() if n.op == "=" else None
            if n.op == "=" and l.k == "idx" and l.c[0].strip().k == "ref" and l.c[0].strip().a.get("dk") == "var" and r.k == "call" and \
                    any(g.ret is not None and g.ret.is_ptr and fresh(g) for g in ctx.prog.resolve(r)):
                got.setdefault(l.c[0].strip().a["d"], n)
        for d, n in got.items():
            name = n.c[0].strip().c[0].strip().name
            ends, moved = [], False
            for x in f.find("ref"):
                if x.a.get("d") != d:
                    continue
                q = x.p
                while q is not None and q.k in ("cast", "paren"):
                    q = q.p
                if q is not None and q.k == "idx" and q.c[0].strip() is x:
                    u = q.p
                    while u is not None and u.k in ("cast", "paren"):
                        u = u.p
                    if u is not None and (u.k == "call" or u.k == "bin" and u.op == "=" and u.c[1].strip() is q or u.k in ("return", "var")):
                        if u.k == "call" and O.releases(u, next((i for i, a in enumerate(u.args) if a is not None and a.strip() is q), 0)):
                            ends.append("row")
                        elif u.k != "call":
                            moved = True
                elif q is not None and q.k == "call":
                    if q.callee in FREES:
                        ends.append("row")
                    elif q.callee == "free":
                        ends.append("table")
                elif q is not None and q.k in ("return", "bin", "var", "init"):
                    moved = True
            if moved or not ends:
                continue
            ctx.judge("row" in ends, "rows", "%s:%s" % (f.name, name), n.where(),
                      "the rows of %s are acquired here, but only the table is released" % name)
        for L in f.find("for"):
            d = loop_var(L)
            if d is None or L.c[3] is None or L.c[1] is None:
                continue
            for c in L.c[3].calls():
                for i, a in enumerate(c.args):
                    if a is None or not (O.releases(c, i) or i == 0 and (c.callee or "").startswith("free_")):
                        continue
                    e = target(a)
                    if e.k != "idx" or e.c[1].strip().k != "ref" or e.c[1].strip().a.get("d") != d:
                        continue
                    start = [w for w in L.c[0].walk() if w.k == "bin" and w.op == "=" and w.c[0].strip().k == "ref" and
                             w.c[0].strip().a.get("d") == d] if L.c[0] is not None else []
                    start = start[0].c[1].strip().v if start else next(
                        (w.c[0].strip().v for w in L.c[0].walk() if w.k == "var" and w.a.get("d") == d and w.c and w.c[0] is not None), None) \
                        if L.c[0] is not None else None
                    up = any(w.k == "un" and w.op in ("++", "p++") for w in L.c[2].walk()) if L.c[2] is not None else False
                    if up and isinstance(start, int):
                        ctx.judge(start == 0, "rows", "%s:%s" % (f.name, re.sub(r"#\d+", "", e.c[0].strip().key)), c.where(),
                                  "the elements are released from number %d on" % start)


def fresh(g):
    """The function returns memory it has allocated."""
    rs = {r.c[0].strip().a.get("d") for r in g.find("return") if r.c and r.c[0] is not None and r.c[0].strip().k == "ref"}
    return any(x.k == "ref" and x.a.get("d") in rs for c in g.calls() if (c.callee or "").startswith("alloc") and c.args
               for x in c.args[0].walk())


def check(ctx):
    ctx.assume += ASSUMPTIONS
    ctx.rule("use", "No path accesses a block or handle (or passes it on) after releasing it.")
    ctx.rule("twice", "No path releases a block or handle a second time.")
    ctx.rule("lost", "No path overwrites the only reference to a block or handle that is still owned.")
    ctx.rule("leak", "A block or handle owned by a local variable is released, stored or returned on every path to an exit "
             "that does not report a failure.")
    ctx.rule("shape", "A table of rows is released with the number of rows it was allocated with.")
    ctx.rule("grown", "A table that changes its size is resized from the size it has, in time, and the variable that keeps the size follows.")
    ctx.rule("rows", "A table whose rows are acquired one by one is released with its rows, all of them.")
    ctx.rule("member", "A structure member that receives memory is released somewhere in the program.")
    grown(ctx)
    O = Own(ctx.prog, ctx.eff)
    rowwise(ctx, O)
    units = 0
    for f in ctx.prog.functions:
        loc = {n.a["d"] for n in f.walk() if n.k == "var"}
        for K, site in candidates(O, f).items():
            U = Unit(O, f, K, O.facts(f)).run()
            units += 1
            name = re.sub(r"#\d+", "", K)
            if U.gave_up:
                ctx.undecided("use", "%s:%s" % (f.name, name), "too many states")
                continue
            said = set()
            for kind, node, s, extra in U.msgs.values():
                if kind == "leak" and (U.local is None or U.local not in loc):
                    continue
                said.add(kind)
                at = f.byid[s].where() if s in f.byid else "?"
                ctx.violate(kind, "%s:%s" % (f.name, name), node.where(), {
                    "use": "%s is %s here after its release at %s" % (name, extra, at),
                    "twice": "%s is released here, but was already released at %s" % (name, at),
                    "lost": "%s is overwritten here while it still owns what it got at %s" % (name, at),
                    "leak": "%s still owns what it got at %s when %s is left here" % (name, at, f.name)}[kind])
            for kind in ("use", "twice", "lost", "leak"):
                if kind not in said and (kind != "leak" or U.local in loc):
                    ctx.ok(kind, "%s %s" % (site.where(), "%s:%s" % (f.name, name)))
    ctx.floor("use", 600)
    ctx.floor("leak", 300)
    dims(ctx, O)
    members(ctx, O)
