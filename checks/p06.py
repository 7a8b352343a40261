"""P06: pixels outside the processing mask are nodata in every product."""
import os
import re

from effects import writes_in
from facts import Facts, path
from omp import loop_var
from p04 import nodata_like
from p05 import root

ASSUMPTIONS = ["a helper called on the masked path with a product's arrays writes nodata to the pixel"]

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "products.txt")
# user-defined code: masked pixels are handed over as nodata, the user's function decides what it returns
USER_CODE = {"python_udf", "rstats_udf"}


def clean(s):
    return re.sub(r"#\d+", "", s)


def mask_arrays(f):
    """Parameters and locals of f that are pixel masks: small* named mask or assigned from one."""
    out = {}
    for nm, d, t in f.params:
        if t is not None and t.kind == "ptr" and t.el is not None and t.el.kind == "uchar" and "mask" in nm:
            out[d] = nm
    for n in f.find("var"):
        t = n.t
        if t is not None and t.kind == "ptr" and t.el is not None and t.el.kind == "uchar" and "mask" in n.name:
            out[n.a["d"]] = n.name
    return out


def handed_out(f):
    """Local arrays that are the result of f."""
    out = set()
    for n in f.find("return"):
        if n.c and n.c[0] is not None and n.c[0].strip().k == "ref":
            out.add(n.c[0].strip().a.get("d"))
    for n in f.find("bin"):
        l = n.c[0].strip()
        if n.op == "=" and l.k == "un" and l.op == "*" and n.c[1].strip().k == "ref" and l.c[0].strip().k == "ref" and f.param(l.c[0].strip().a.get("d")) is not None:
            out.add(n.c[1].strip().a.get("d"))
    return out


def rows(f, d):
    """Number of rows a local table is allocated with."""
    got = []
    for c in f.calls("alloc_2D", "alloc_2DC"):
        if len(c.args) > 1 and any(x.k == "ref" and x.a.get("d") == d for x in c.args[0].walk()):
            got.append(c.args[1].strip())
    return got[0] if len(got) == 1 else None


def flag(n, r):
    """A constant that says `invalid` in a flag image, or the fill value written as a number."""
    l = n.c[0].strip()
    return r.v is not None and (l.t is not None and l.t.kind in ("uchar", "bool") or r.v == -9999)


def layers():
    """{array of a product: number of layers} of the product table."""
    pr, out = {}, {}
    for l in open(TABLE, encoding="utf-8"):
        t = l.rstrip("\n").split("\t")
        if l[0] != "#" and len(t) > 3:
            pr.setdefault((t[0], t[1]), {})[t[2]] = t[3]
    for v in pr.values():
        if v.get("kept in") and v.get("bands"):
            out.setdefault(v["kept in"].split("[")[0].split(".")[-1], set()).add(v["bands"])
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1}


def last(t):
    """(last identifier or number, added constant) of a term."""
    m = re.match(r"^(.*?)(?: \+ (\d+))?$", t)
    return re.sub(r"\(.*\)$", "", m[1]).split(".")[-1], int(m[2] or 0)


class Names:
    """What a count or an array is called where it comes from: through locals with one value and the callers' arguments."""
    def __init__(self, P):
        self.callers = {}
        for f in P.functions:
            for c in f.calls():
                for g in P.resolve(c):
                    self.callers.setdefault(g, []).append((f, c))

    def of(self, f, e, depth=0):
        e = e.strip()
        if e.v is not None:
            return {(str(e.v), 0)}
        if e.k == "bin" and e.op in ("+", "-") and e.c[1].strip().v is not None:
            k = e.c[1].strip().v
            return {(n, o + (k if e.op == "+" else -k)) for n, o in self.of(f, e.c[0], depth)}
        if e.k == "mem":
            return {(e.name, 0)}
        if e.k == "idx":
            return self.of(f, e.c[0], depth)
        if e.k == "un" and e.op in ("&", "*"):
            return self.of(f, e.c[0], depth)
        if e.k == "call":
            return {(re.sub(r"^get_brick_", "", e.callee or "?"), 0)}
        if e.k != "ref" or depth > 6:
            return {("?", 0)}
        d = e.a.get("d")
        k = next((i for i, (_, x, _) in enumerate(f.params) if x == d), None)
        if k is not None:
            out = set()
            for g, c in self.callers.get(f, []):
                if k < len(c.args) and c.args[k] is not None:
                    out |= self.of(g, c.args[k], depth + 1)
            return out or {(e.name, 0)}
        vals = [n.c[1] for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d]
        vals += [n.c[0] for n in f.find("var") if n.a.get("d") == d and n.c and n.c[0] is not None]
        vals = [v for v in vals if v.strip().v is None]
        if len(vals) == 1 and vals[0].strip().k in ("mem", "ref", "call"):
            return self.of(f, vals[0], depth + 1)
        return {(e.name, 0)}


def bands(ctx, P):
    """Loops that fill a pixel's layers with nodata reach all layers."""
    table, N = layers(), Names(P)
    bare = {last(t)[0] for t in table.values()}
    members = {last(t)[0] for t in table.values() if "." in t}
    for f in P.functions:
        if "higher-level" not in f.rel or f.name in USER_CODE:
            continue
        for n in f.find("bin"):
            if n.op != "=":
                continue
            l, r = n.c[0].strip(), n.c[1].strip()
            while r.k == "bin" and r.op == "=":
                r = r.c[1].strip()
            if l.k != "idx" or not nodata_like(r) or l.c[0].strip().k != "idx":
                continue
            ix = l.c[0].strip().c[1].strip()
            arr = {a for a, _ in N.of(f, root(l))}
            want = {table.get(a) for a in arr}
            if ix.k == "ref" and root(l).k == "ref":
                short(ctx, f, n, l, ix)
            if ix.k != "ref" or len(want) != 1 or None in want:
                continue
            want = last(want.pop())
            loops = [u for u in n.up() if u.k == "for"]
            u = next((u for u in loops if loop_var(u) == ix.a["d"]), None)
            key = "%s:%s" % (f.name, clean(path(root(l))))
            if u is None:
                if loops:
                    steps = [s for lv, s in writes_in(loops[0]) if lv.strip().k == "ref" and lv.strip().a.get("d") == ix.a["d"]]
                    ctx.judge(bool(steps), "masked-bands", key, n.where(),
                              "the loop that fills %s with nodata does not step through its layers" % clean(path(root(l))))
                continue
            c = u.c[1].strip() if u.c[1] is not None else None
            if c is None or c.k != "bin" or c.op not in ("<", "<=", "!=") or c.c[0].strip().k != "ref" or c.c[0].strip().a.get("d") != ix.a["d"]:
                ctx.undecided("masked-bands", key, "bound of the loop not recognised")
                continue
            got = {(x, o + (c.op == "<=")) for x, o in N.of(f, c.c[1])}
            lo = [x.c[1].strip() for x in (u.c[0].walk() if u.c[0] is not None else ()) if x.k == "bin" and x.op == "=" and x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == ix.a["d"]]
            low = any(x.v is not None and any(k not in alone(f, l, u) for k in range(int(x.v))) for x in lo)
            # other counts, or fewer than all
            bad = {(x, o) for x, o in got if (x == want[0] and o < want[1]) or
                   (x != want[0] and (x in bare or self_named(c.c[1]) and want[0] in members or x.lstrip("-").isdigit() and want[0].isdigit() and int(x) + o < int(want[0])))}
            if got - bad and bad:
                ctx.undecided("masked-bands", key, "several counts")
                continue
            ctx.judge(not bad and not low, "masked-bands", key, n.where(),
                      "%s has %s layers, but %s are filled with nodata" % (clean(path(root(l))), want[0], clean(path(c.c[1])) if not low else "not the first"))


def short(ctx, f, n, l, ix):
    """A loop over the rows of a table made here does not stop at a part of them."""
    all_ = rows(f, root(l).a.get("d"))
    u = next((u for u in n.up() if u.k == "for" and loop_var(u) == ix.a["d"]), None)
    c = u.c[1].strip() if u is not None and u.c[1] is not None else None
    if all_ is None or c is None or c.k != "bin" or c.op != "<" or c.c[0].strip().k != "ref" or c.c[0].strip().a.get("d") != ix.a["d"]:
        return
    b = path(c.c[1])
    parts = {path(x) for x in all_.c} if all_.k == "bin" and all_.op in ("*", "+") else set()
    # the index may go on over several such loops
    if u.c[0] is None or not any(x.k == "bin" and x.op == "=" and x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == ix.a["d"] for x in u.c[0].walk()):
        if not any(v.a.get("d") == ix.a["d"] for v in (u.c[0].find("var") if u.c[0] is not None else ())):
            return
    ctx.judge(b == path(all_) or b not in parts, "masked-bands", "%s:%s" % (f.name, clean(path(root(l)))), n.where(),
              "%s has %s layers, but %s are filled with nodata" % (clean(path(root(l))), clean(path(all_)), clean(b)))


def alone(f, l, u):
    """Layers of the array of a store that are stored on their own next to a loop."""
    out, around = set(), {id(b) for b in u.up() if b.k == "block"}
    for n in f.find("bin"):
        m = n.c[0].strip()
        if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and m.k == "idx" and m.c[0].strip().k == "idx" and path(root(m)) == path(root(l)):
            if id(next((b for b in n.up() if b.k == "block"), None)) in around:
                out.add(m.c[0].strip().c[1].strip().v)
    return out


def self_named(e):
    return e.strip().k == "mem"


def check(ctx):
    P = ctx.prog
    ctx.rule("masked-bands", "loops that fill the layers of a pixel with nodata fill all layers of the product")
    bands(ctx, P)
    ctx.rule("masked-nodata", "an array that receives results where the mask is set also receives nodata at the same pixel where it is not "
                              "(or was filled with nodata before)")
    ctx.rule("masked-value", "what is stored under a cleared mask is nodata (or 'invalid')")
    ctx.rule("masked-store", "where the mask is not known to be set, nothing but nodata is stored")
    ctx.rule("mask-handed", "a function that is given a processing mask hands it on to the computations that take one")
    ctx.rule("mask-consulted", "a function that is given a processing mask tests it or hands it on")
    for f in P.functions:
        masks = mask_arrays(f)
        if not masks:
            continue
        # every mask parameter is consulted, and every mask image that is opened
        opened = [(n.c[0].strip().name, n.c[0].strip().a["d"], None) for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "ref" and
                  n.c[0].strip().a.get("d") in masks and n.c[1].strip().k == "call" and "get_band" in (n.c[1].strip().callee or "")]
        for nm, d, t in list(f.params) + opened:
            if d not in masks or f.name in USER_CODE:
                continue
            used = False
            for n in f.find("ref"):
                if n.a.get("d") != d:
                    continue
                p = n.p
                while p.k == "cast":
                    p = p.p
                if p.k == "idx" or p.k == "call" or p.k == "bin" and p.op in ("=", "+") and p.c[0].strip() is not n or p.k == "var" or p.k == "un":
                    used = True
            ctx.judge(used, "mask-consulted", f.name, "%s:%d" % (f.rel, f.line), "%s ignores its processing mask" % f.name)
        tests = {}
        for n in f.find("idx"):
            b = n.c[0].strip()
            if b.k == "ref" and b.a.get("d") in masks:
                p = n.p
                while p.k == "cast":
                    p = p.p
                if p.k == "bin" and p.op == "=" and p.c[0].strip() is n:
                    continue
                if re.match(r"\w+#\d+$", path(n.c[1])):
                    tests.setdefault((b.a["d"], path(n.c[1])), path(n))
        if not tests:
            continue
        F = Facts(P, f)
        handed = handed_out(f)
        for (d, pk), key in sorted(tests.items()):
            valid, other, masked, scratch = {}, {}, {}, {}
            for n in f.find("bin"):
                if n.op != "=":
                    continue
                l = n.c[0].strip()
                if l.k != "idx" or path(l.c[1]) != pk:
                    continue
                r = root(l)
                rp = path(r)
                if r.k == "mem":
                    if r.name in ("msk", "dat"):
                        continue
                elif r.k == "ref" and f.param(r.a.get("d")) is None and r.a.get("d") not in handed or r.a.get("d") == d:
                    if (key, False) in F.at(n) and r.a.get("d") != d:
                        scratch.setdefault(rp, []).append(n)
                    continue
                S = F.at(n)
                if (key, False) in S:
                    masked.setdefault(rp, []).append(n)
                elif (key, True) in S or any(len(x) == 4 and (key, True) in x[1] for x in S):
                    valid.setdefault(rp, []).append(n)
                else:
                    other.setdefault(rp, []).append(n)

            def rhs(n):
                r = n.c[1].strip()
                while r.k == "bin" and r.op == "=":
                    r = r.c[1].strip()
                return r

            def is_nodata(n):
                r = rhs(n)
                return nodata_like(r) or flag(n, r) or r.k == "un" and nodata_like(r.c[0])

            def carries(n):
                """The stored value is nodata wherever the mask is cleared, or cannot be judged."""
                r = rhs(n)
                if r.k == "cond":
                    return any(nodata_like(x) or flag(n, x.strip()) for x in r.c[1:])
                if r.k == "idx":
                    rr = path(root(r))
                    return path(r.c[1]) == pk and any(is_nodata(m) for m in scratch.get(rr, []))
                if r.k == "ref" and r.a.get("dk") == "var":
                    return any(is_nodata(m) for m in f.find("bin") if m.op == "=" and m.c[0].strip().k == "ref" and
                               m.c[0].strip().a.get("d") == r.a["d"]) or \
                        any(v.a.get("d") == r.a["d"] and v.c and v.c[0] is not None and
                            (nodata_like(v.c[0].strip()) or v.c[0].v is not None or v.c[0].strip().k == "cond" and
                             any(nodata_like(x) or x.v is not None for x in v.c[0].strip().c[1:])) for v in f.find("var"))
                return False

            def skipped(n):
                """The store is left out where a scratch image is nodata or flagged, and it is so under a cleared mask."""
                for x in F.at(n):
                    k = x[0].split("[")[0] if len(x) == 2 else None
                    if k in scratch and x[0] == "%s[%s]" % (k, pk) and any(rhs(m).v is not None and bool(rhs(m).v) != x[1] for m in scratch[k]):
                        return True
                return any(len(x) == 2 and not x[1] and "==" in x[0] and "[%s]" % pk in x[0] and
                           any(x[0].strip("(").startswith(k) or "==" + k in x[0] for k in scratch) for x in F.at(n))
            # helpers called on the masked path, or before the mask is tested
            helped = set()
            for c in f.calls():
                S = F.at(c)
                if (key, False) in S or not ((key, True) in S or any(len(x) == 4 and (key, True) in x[1] for x in S)):
                    if P.resolve(c) and any(path(a) == pk for a in c.args):
                        for a in c.args:
                            helped.add(path(a).split("[")[0].split(".")[0].lstrip("&("))
            for rp, ns in sorted(other.items()):
                if f.name in USER_CODE:
                    continue
                filled = any(is_nodata(n) for n in masked.get(rp, []) + ns) or any(carries(n) and not skipped(n) for n in ns)
                for n in ns:
                    if is_nodata(n) or carries(n) and not skipped(n) or \
                            any(path(m) == path(n.c[0]) for m in rhs(n).walk() if m.k == "idx"):
                        ctx.ok("masked-store", "%s %s" % (n.where(), clean(rp)))
                    elif skipped(n):
                        ctx.judge(filled or rp.split("[")[0].split(".")[0] in helped, "masked-nodata", "%s:%s" % (f.name, clean(rp)), n.where(),
                                  "%s is written where the mask is set, but never set to nodata at masked pixels" % clean(rp))
                    else:
                        ctx.judge(False, "masked-store", "%s:%s" % (f.name, clean(rp)), n.where(),
                                  "%s receives %s whether or not the pixel is masked" % (clean(rp), clean(path(rhs(n)))[:100]))
            for rp, ns in sorted(valid.items()):
                if all(any(path(m) == path(n.c[0]) for m in rhs(n).walk() if m.k == "idx") for n in ns):
                    continue    # updated in place
                if all(is_nodata(n) for n in ns) and rp not in masked and rp not in other:
                    pass
                got = masked.get(rp, []) + [n for n in other.get(rp, []) if is_nodata(n)] + \
                    [n for n in other.get(rp, []) if not is_nodata(n) and (key, False) not in F.at(n)]
                # read-modify arrays (standardisation in place)
                if not got and any(m.k == "idx" and path(root(m)) == rp and m.p is not None and
                                   not (m.p.k == "bin" and m.p.op == "=" and m.p.c[0].strip() is m) and m.t is not None and m.t.is_num
                                   for m in f.find("idx")):
                    continue
                ok = bool(got) or rp.split("[")[0].split(".")[0] in helped
                ctx.judge(ok, "masked-nodata", "%s:%s" % (f.name, clean(rp)), ns[0].where(),
                          "%s is written where the mask is set, but never set to nodata at masked pixels" % clean(rp))
            for rp, ns in sorted(masked.items()):
                for n in ns:
                    ctx.judge(is_nodata(n), "masked-value", "%s:%s" % (f.name, clean(rp)), n.where(),
                              "%s receives %s at masked pixels" % (clean(rp), clean(path(rhs(n)))))
    for f in P.functions:
        for c in f.calls():
            for g in P.resolve(c):
                for (pn, pd, pt), a in zip(g.params, c.args):
                    if re.match(r"mask_?$", pn) and pt.is_ptr and a is not None:
                        own = any(re.match(r"mask_?$", n) for n, _, t in f.params)
                        ctx.judge(a.strip().v != 0 or not own, "mask-handed", "%s:%s" % (f.name, g.name), c.where(),
                                  "%s has a processing mask, but calls %s without" % (f.name, g.name))
    ctx.floor("masked-nodata", 20)
    ctx.floor("mask-consulted", 15)
