"""P05: gaps (nodata) in time series and images never enter a computation as if they were values."""
import re

from facts import Facts, path
from p04 import nodata_like

ASSUMPTIONS = ["a loop that copies a series element by element hands the nodata value on unchanged"]

# arrays whose nodata handling is not element-wise: (function, array) -> reason
OTHER = {
    ("bap_overview", "bap"): "the quicklook keys its display colour on the composite's first band",
    ("compile_target_adaptive", "lsp_"): "extrapolated phenology replaces nodata after the regression",
    ("cloud_parallax", "cdi_"): "the index is computed from bands that were tested before",
    ("improphe", "hr_"): "neighbours are skipped through the accumulated skip flag",
    ("improphe", "mr_"): "neighbours are skipped through the accumulated skip flag",
    ("landscape_metrics", "dat"): "patch statistics on nodata follow the feature-exclusion switch",
    ("parse_metadata_sentinel2", "s_va"): "text tokens, parsed before the comparison",
    ("parse_metadata_sentinel2", "s_vz"): "text tokens, parsed before the comparison",
    ("pca", "INP"): "complete cases are selected through an index built in a first pass",
    ("screen_noise", "dat"): "the noise filter decides about validity itself",
    ("smooth_topography", "dem_"): "the first test rejects the whole window",
    ("write_brick", "nodata"): "the nodata value itself",
}


def root(n):
    n = n.strip()
    while n.k == "idx":
        n = n.c[0].strip()
    return n


def only_stored(f, d):
    """Every use of the variable is to be stored unchanged into an array."""
    for n in f.find("ref"):
        if n.a.get("d") != d:
            continue
        u, p = n, n.p
        while p.k == "cast":
            u, p = p, p.p
        if p.k == "bin" and p.op == "=" and (p.c[0].strip() is n or p.c[0].strip().k == "idx" and p.c[1].strip() is n):
            continue
        return False
    return True


def tested_copy(f, F, d):
    """A scalar copy of an element: each use is a test, an unchanged store, or known not to be nodata."""
    for n in f.find("ref"):
        if n.a.get("d") != d:
            continue
        u, p = n, n.p
        while p.k == "cast":
            u, p = p, p.p
        if p.k == "bin" and (p.op in ("==", "!=") or p.op == "=" and (
                p.c[0].strip() is n or p.c[0].strip().k == "idx" and p.c[1].strip() is n)):
            continue
        if not any(len(x) == 2 and not x[1] and "==" in x[0] and path(n) in x[0] for x in F.at(n)):
            return False
    return True


def assigned(n):
    """(variable reference or declaration, value) pairs of an assignment, chains included."""
    if n.k == "var" and n.c and n.c[0] is not None:
        yield n.a.get("d"), n.c[0].strip()
    elif n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref":
        r = n.c[1].strip()
        while r.k == "bin" and r.op == "=":
            r = r.c[1].strip()
        yield n.c[0].strip().a.get("d"), r


def excluded(fact, d, v):
    """The fact cannot hold while variable d is v."""
    t, pol = fact
    if re.match(r"^\w+#%d$" % d, t):
        return bool(v) != pol
    m = re.match(r"^\((.*?)(<|==)(.*)\)$", t)
    if not m:
        return False
    l, o, r = m[1], m[2], m[3]
    var, num = re.compile(r"^\w+#%d$" % d), re.compile(r"^\(?-?\d+(\.\d+)?\)?$")
    if var.match(l) and num.match(r):
        got = v < float(r.strip("()")) if o == "<" else v == float(r.strip("()"))
    elif var.match(r) and num.match(l):
        got = float(l.strip("()")) < v if o == "<" else v == float(l.strip("()"))
    else:
        return False
    return got != pol


def marked(ctx, P, f):
    """Locals that stand for a missing value while they hold nodata."""
    defs, loc = {}, {n.a["d"] for n in f.find("var") if n.t is not None and n.t.is_num}
    for n in f.walk():
        for d, r in assigned(n):
            if d in loc:
                defs.setdefault(d, []).append((n, r))
    ds = {d for d in defs if any(nodata_like(r) for _, r in defs[d]) and any(r.k in ("idx", "mem", "bin", "cond", "call") for _, r in defs[d])}
    F = None
    for d in sorted(ds):
        uses = []
        for n in f.find("ref"):
            if n.a.get("d") != d:
                continue
            p = n.p
            while p.k == "cast":
                p = p.p
            if p.k == "bin" and p.op in ("+", "-", "*", "/", "+=", "-=", "*=", "/="):
                uses.append(n)
        if not uses:
            continue
        F = F or Facts(P, f)
        for n in uses:
            S = F.at(n)
            if any(len(x) == 2 and not x[1] and "==" in x[0] and path(n) in x[0] for x in S) or not reached(F, [x for x, r in defs[d] if nodata_like(r)], n, d):
                ctx.ok("marked-local", n.where())
                continue
            good = {blk(x) for x, r in defs[d] if not nodata_like(r)}
            mates = {}
            for c, cd in defs.items():
                if c != d:
                    ks = {r.v for x, r in cd if r.v is not None and blk(x) not in good}
                    if ks and any(blk(x) in good for x, r in cd) and all(blk(x) in good for x, r in cd if r.v is None or r.v not in ks):
                        mates[c] = ks
            ok = any(len(x) == 2 and all(excluded(x, c, v) for v in ks) for x in S for c, ks in mates.items())
            ctx.judge(ok, "marked-local", "%s:%s" % (f.name, n.name), n.where(),
                      "%s uses %s where it may still be nodata" % (f.name, n.name))


def blk(n):
    return next((u.id for u in n.up() if u.k in ("block", "for", "while", "if")), 0)


def reached(F, starts, use, d):
    """A value given at one of the starts may be what is used."""
    w = F.locate(use)
    if w is None:
        return False

    def kills(e):
        return any(x == d for x, _ in assigned(e))
    for st in starts:
        at = F.locate(st)
        if at is None:
            continue
        seen, todo = set(), [(at[0], at[1] + 1)]
        while todo:
            b, i = todo.pop()
            els = F.cfg.b[b].els
            stop = False
            for k in range(i, len(els)):
                if b == w[0] and k >= w[1] and i <= w[1]:
                    return True
                if kills(els[k]):
                    stop = True
                    break
            if stop:
                continue
            if b == w[0] and i <= w[1]:
                return True
            for s in F.cfg.b[b].succ:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    todo.append((s, 0))
    return False


def told(ctx, P):
    """What a function is told to be nodata is nodata."""
    def nod(f, e, depth=2):
        e = e.strip()
        if e.v is not None:
            return e.v == -9999
        if any(x.k in ("ref", "mem", "call") and "nodata" in (x.name or x.callee or "").lower() for x in e.walk()):
            return True
        if e.k == "ref" and depth:
            ds = [n.c[1] for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == e.a.get("d")] + \
                 [n.c[0] for n in f.find("var") if n.a.get("d") == e.a.get("d") and n.c and n.c[0] is not None]
            return not ds or any(nod(f, d, depth - 1) for d in ds)
        return e.k not in ("ref", "mem")
    def images(f, e):
        """Images a nodata value was asked for, if it is known to come from there."""
        e = e.strip()
        if e.k == "call" and e.callee == "get_brick_nodata":
            return {top(e.args[0])}
        if e.k == "ref":
            ds = [n.c[1].strip() for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == e.a.get("d")]
            ds += [n.c[0].strip() for n in f.find("var") if n.a.get("d") == e.a.get("d") and n.c and n.c[0] is not None and n.c[0].strip().v is None]
            if ds and all(d.k == "call" and d.callee == "get_brick_nodata" for d in ds):
                return {top(d.args[0]) for d in ds}
        return set()

    def top(e):
        e = e.strip()
        while e.k in ("idx", "mem", "un") and e.c:
            e = e.c[0].strip()
        return e.a.get("d") if e.k == "ref" else None

    for f in P.functions:
        for c in f.calls():
            for g in P.resolve(c):
                if g.name.startswith("set_") or g.name in ("read_chunk", "add_chunks"):
                    # masks and quality words have nodata values of their own
                    continue
                for (pn, pd, pt), a in zip(g.params, c.args):
                    if re.search("nodata$", pn) and pt.kind in ("int", "float") and a is not None:
                        ctx.judge(nod(f, a), "told", "%s:%s:%s" % (f.name, g.name, pn), c.where(),
                                  "%s is told that nodata is %s" % (g.name, re.sub(r"#\d+", "", a.strip().key)))
                        src = images(f, a)
                        img = {top(x) for x in c.args if x is not None and x.strip().t and re.match(r"(const )?(struct )?(ard_t|brick_t) ?\*", x.strip().t.sp)}
                        raw = any(x is not None and x.strip().t and re.search(r"(short|small|char|int|float|double) ?\*", x.strip().t.canon or "") for x in c.args)
                        mine = {n.a.get("d") for n in f.find("var") if n.t is not None and n.t.is_ptr}
                        if src and img and not raw and None not in src | img and not mine & (src | img):
                            ctx.judge(bool(src & img), "told", "%s:%s:image" % (f.name, g.name), c.where(),
                                      "%s is told the nodata value of another image" % g.name)


def check(ctx):
    P = ctx.prog
    ctx.rule("told", "the nodata value a function is called with is the nodata value of its data")
    told(ctx, ctx.prog)
    ctx.rule("marked-local", "a local that is nodata while there is no value is used in arithmetic only where it has one")
    for f in P.functions:
        if "modules/" in f.rel:
            marked(ctx, P, f)
    ctx.rule("series-read", "an element of a time series is used in a computation only where it is known to differ from nodata")
    ctx.rule("tested-array", "in a function that tests an array against nodata, its elements are used only where they are known to differ from nodata")
    tsa = P.records.get("tsa_t")
    series = {n for n, t, l in tsa["f"] if t.is_ptr} if tsa else set()

    # parameters that receive a series (closed over calls)
    carrier = {}

    def is_series(f, n):
        r = root(n)
        if r.k == "mem" and r.a.get("rec") == "tsa_t" and r.name in series:
            return True
        return r.k == "ref" and r.a.get("d") in carrier.get(f, ())
    change = True
    while change:
        change = False
        for f in P.functions:
            for c in f.calls():
                for g in P.resolve(c):
                    for (nm, d, t), a in zip(g.params, c.args):
                        if t is not None and t.kind == "ptr" and t.sp.replace("const ", "").strip() in ("short **", "short *") \
                                and d not in carrier.get(g, ()) and is_series(f, a):
                            carrier.setdefault(g, set()).add(d)
                            change = True

    for f in P.functions:
        reads, written = [], set()
        for n in f.find("idx"):
            if n.t is None or not n.t.is_num:
                continue
            u, p = n, n.p
            while p.k == "cast":
                u, p = p, p.p
            if p.k == "bin" and p.op == "=" and p.c[0].strip() is n:
                written.add(path(root(n)))
                continue
            if p.k == "un" and p.op == "&":
                continue
            reads.append((n, u, p))
        tested = set()
        for n, u, p in reads:
            if p.k == "bin" and p.op in ("==", "!=") and any(nodata_like(c) for c in p.c if c.strip() is not n):
                tested.add(path(root(n)))
        todo = [(n, u, p, is_series(f, n)) for n, u, p in reads
                if (path(root(n)) in tested or is_series(f, n) and path(root(n)) not in written) and n.t.kind in ("int", "float")]
        if not todo:
            continue
        F = Facts(P, f)
        for n, u, p, ser in todo:
            if p.k == "bin" and p.op in ("==", "!="):
                continue
            if p.k == "bin" and p.op == "=" and p.c[0].strip().k == "idx":
                lt = p.c[0].strip().t
                if ser and lt is not None and lt.kind == "int" and lt.size >= n.t.size:
                    continue        # handed on unchanged
            if not ser and (f.name, root(n).name) in OTHER:
                continue
            if p.k == "cast" or p.k == "call" and (p.callee or "").startswith("PyArray"):
                continue
            if ser and p.k == "bin" and p.op == "=" and p.c[0].strip().k == "ref" and p.c[1].strip() is n \
                    and only_stored(f, p.c[0].strip().a.get("d")):
                continue
            k = path(n)
            S = F.at(n)
            if p.k == "var" or p.k == "bin" and p.op == "=" and p.c[0].strip().k == "ref" and p.c[1].strip() is n:
                d = p.a["d"] if p.k == "var" else p.c[0].strip().a.get("d")
                if tested_copy(f, F, d):
                    ctx.ok("series-read" if ser else "tested-array", n.where())
                    continue
            ok = any(len(x) == 2 and not x[1] and "==" in x[0] and k in x[0] for x in S)
            kind = "series-read" if ser else "tested-array"
            ctx.judge(ok, kind, "%s:%s" % (f.name, re.sub(r"#\d+", "", k)), n.where(),
                      "%s uses %s without knowing that it is not nodata" % (f.name, re.sub(r"#\d+", "", k)))
    ctx.floor("series-read", 20)
    ctx.floor("tested-array", 20)
