"""P02: quality flags keep their documented bit positions and never disturb each other."""
import os
import re

import bits
from prog import Broken, REPO

ALSO = ", the bit table of docs/source/howto/qai.rst"
ASSUMPTIONS = ["a flag is only set to values that fit its width (checked at every call site that passes a constant)"]

# documented parameter name -> accessor stem
FIELDS = {
    "Valid data": "off", "Cloud state": "cloud", "Cloud shadow flag": "shadow", "Snow flag": "snow",
    "Water flag": "water", "Aerosol state": "aerosol", "Subzero flag": "subzero",
    "Saturation flag": "saturation", "High sun zenith flag": "lowsun", "Illumination state": "illumination",
    "Slope flag": "slope", "Water vapor flag": "vaporfill",
}
# merging two acquisitions of one day: and / or / max; illumination takes one of the two states
MERGE = {"off": "and", "cloud": "max", "aerosol": "max", "illumination": "either"}
CELL = 5


def doc_layout():
    """accessor stem -> (first bit, width) from the documentation table."""
    out = {}
    p = os.path.join(REPO, "docs/source/howto/qai.rst")
    for line in open(p, encoding="utf-8", errors="replace"):
        m = re.match(r"\+\s*(\d+)(?:\D+(\d+))?\s*\+\s*([A-Z][A-Za-z ]+?)\s*\+", line)
        if m and m[3] in FIELDS:
            lo = int(m[1])
            hi = int(m[2]) if m[2] else lo
            out[FIELDS[m[3]]] = (lo, hi - lo + 1)
    return out


def states(ctx, P, lay):
    """Level 2 processing sets every documented flag, and every state of a flag with several states."""
    ctx.rule("states", "every documented flag and state is set by Level 2 processing")
    got, open_ = {}, set()
    for f in P.functions:
        if "/lower-level/" not in f.file or "/modules/" not in f.file:
            continue
        for c in f.calls():
            m = re.match(r"set_(\w+?)(_to_value)?$", c.callee or "")
            if m and m[1] in lay and len(c.args) > 1:
                v = c.args[-1].strip()
                for x in ([v] if v.k != "cond" else v.c[1:]):
                    if x.v is None:
                        open_.add(m[1])
                    else:
                        got.setdefault(m[1], set()).add(int(x.v))
        for n in f.find("ref"):
            m = re.match(r"set_(\w+)$", n.name or "")
            if m and m[1] in lay and not (n.p is not None and n.p.k == "call" and n.p.c[0].strip() is n):
                open_.add(m[1])     # handed over as a function
    for x, (lo, w) in sorted(lay.items()):
        for v in range(1, 1 << w):
            if x in open_ and v not in got.get(x, ()):
                ctx.undecided("states", x, "value not constant")
            else:
                ctx.judge(v in got.get(x, ()), "states", "%s:%d" % (x, v), "src/modules/lower-level",
                          "no step of Level 2 processing sets %s%s" % (x, "" if w == 1 else " to state %d" % v))


def check(ctx):
    P = ctx.prog
    ctx.rule("get", "the getter returns exactly the documented bits of the pixel's word, right-aligned")
    ctx.rule("set", "the setter replaces exactly the documented bits of the pixel's word by the value and keeps every other bit")
    ctx.rule("disjoint", "documented bit ranges are pairwise disjoint and within 15 bits")
    ctx.rule("merge", "merging combines each flag from the same flag of both words (nodata: both; warnings: either; states: the higher)")
    ctx.rule("flag-value", "a constant passed to a setter fits the flag's width")
    ctx.rule("inflate", "the inflated band of a flag holds that flag")
    ctx.rule("raw-word", "code outside the accessors that or-s bits into a quality word sets a single documented flag")
    lay = doc_layout()
    if len(lay) != len(FIELDS):
        raise Broken("documented bit table incomplete: %s" % sorted(lay))
    used = {}
    for x, (lo, w) in sorted(lay.items()):
        bad = [used[b] for b in range(lo, lo + w) if b in used]
        ctx.judge(not bad and lo + w <= 15, "disjoint", x, "docs/source/howto/qai.rst", "bits of %s overlap %s" % (x, bad))
        for b in range(lo, lo + w):
            used[b] = x

    def word(I, path):
        """The brick's cell as 16 symbolic bits."""
        v = I.sym("w", 16, True)
        I.mem[path] = v
        return v

    def cell(I, brick="Q"):
        return "%s.vshort^[0]^[%d]" % (brick, CELL)

    def attempt(kind, key, f, fn):
        if f is None:
            return
        try:
            ok, msg = fn(f)
        except bits.Unsupported as e:
            ctx.undecided(kind, f.name, e)
            return
        ctx.judge(ok, kind, key, "%s:%d" % (f.rel, f.line), msg)

    for x, (lo, w) in sorted(lay.items()):
        def expect_get(I, wd, r):
            want = wd.b[lo:lo + w] + [0] * (bits.W - w)
            return r.b == want, "%s does not return bits %d..%d of the quality word" % (x, lo, lo + w - 1)

        def g1(f):
            I = bits.Interp(P)
            wd = word(I, cell(I))
            return expect_get(I, wd, I.run(f, [bits.Ptr("Q"), I.const(CELL)]))

        def g2(f):
            I = bits.Interp(P)
            wd = word(I, "V")
            return expect_get(I, wd, I.run(f, [wd]))

        def expect_set(I, wd, v, now):
            want = wd.b[:lo] + v.b[:w] + wd.b[lo + w:16]
            bad = [b for b in range(16) if now.b[b] != want[b]]
            return not bad, "set_%s changes bit(s) %s of the quality word wrongly" % (x, bad)

        def s1(f):
            I = bits.Interp(P)
            wd = word(I, cell(I))
            v = I.sym("v", w)
            I.run(f, [bits.Ptr("Q"), I.const(CELL), v])
            return expect_set(I, wd, v, I.mem[cell(I)])

        def s2(f):
            I = bits.Interp(P)
            wd = word(I, "V[0]")
            v = I.sym("v", w)
            I.run(f, [bits.Ptr("V"), v])
            return expect_set(I, wd, v, I.mem["V[0]"])

        attempt("get", "get_" + x, P.func("get_" + x), g1)
        attempt("get", "get_%s_from_value" % x, P.func("get_%s_from_value" % x), g2)
        attempt("set", "set_" + x, P.func("set_" + x), s1)
        attempt("set", "set_%s_to_value" % x, P.func("set_%s_to_value" % x), s2)

    def merge(f, x, lo, w):
        I = bits.Interp(P)
        m = I.m
        wd = word(I, cell(I))
        a, b = I.sym("a", 16, True), I.sym("b", 16, True)
        I.run(f, [bits.Ptr("Q"), I.const(CELL), a, b])
        now = I.mem[cell(I)].b[lo:lo + w]
        A, B = a.b[lo:lo + w], b.b[lo:lo + w]
        how = MERGE.get(x, "or")
        if how in ("and", "or"):
            want = [m.AND(p, q) if how == "and" else m.OR(p, q) for p, q in zip(A, B)]
            return now == want, "merged %s is not (%s) of both words" % (x, how)
        VA, VB, N = (bits.Val(z + [0] * (bits.W - w)) for z in (A, B, now))
        if how == "max":
            lt = I.lt(VA, VB)
            want = [m.ite(lt, q, p) for p, q in zip(A, B)]
            return now == want, "merged %s is not the higher state of both words" % x
        ok = m.OR(I.eq(N, VA), I.eq(N, VB)) == 1
        return ok, "merged %s is neither of the two states" % x

    fm = P.func("merge_qai_from_values")
    for x, (lo, w) in sorted(lay.items()):
        attempt("merge", x, fm, lambda f: merge(f, x, lo, w))

    for f in P.functions:
        for c in f.calls():
            m = re.match(r"set_(\w+?)(_to_value)?$", c.callee or "")
            if not m or m[1] not in lay or len(c.args) < 2:
                continue
            v = c.args[-1]
            if v.v is None:
                continue
            w = lay[m[1]][1]
            ctx.judge(0 <= int(v.v) < (1 << w), "flag-value", "%s:%s" % (f.name, c.callee), c.where(),
                      "%s(..., %s) does not fit %d bit(s)" % (c.callee, v.v, w))

    states(ctx, P, lay)
    inflate(ctx, lay)

    # direct bit manipulation of quality words elsewhere
    for f in P.functions:
        for n in f.find("bin"):
            if n.op == "|=" and n.c[1].v is not None and any(
                    m.k == "ref" and (m.name or "").startswith("_QAI_BIT_") for m in n.c[1].walk()):
                v = int(n.c[1].v)
                ok = any(v == (1 << lo) or v < (1 << (lo + w)) and v & ((1 << lo) - 1) == 0 and v >> lo < (1 << w)
                         for lo, w in lay.values())
                ctx.judge(ok, "raw-word", f.name, n.where(), "or-s %d into a quality word, which is not one flag" % v)
            elif n.op == "=" and n.c[0].strip().k in ("idx", "mem") and n.c[1].strip().v not in (None, 1) and any(
                    m.k == "ref" and (m.name or "").startswith("_QAI_BIT_") for m in n.c[1].walk()):
                ctx.violate("raw-word", f.name, n.where(), "replaces a whole quality word in order to set one flag")
    ctx.rule("observations", "what is merged are two different observations of the pixel the result is stored for")
    for f in P.functions:
        for c in f.calls("merge_qai_from_values"):
            if len(c.args) < 4:
                continue
            v = [meaning(f, c, a) for a in c.args[2:4]]
            ctx.judge(v[0].key != v[1].key, "observations", f.name, c.where(), "a quality word is merged with itself")
            px = c.args[1].strip()
            if px.k == "ref":
                for x in v:
                    at = [m.c[1].strip() for m in x.find("idx")] + [a.strip() for m in x.find("call") for a in m.args if a.t is not None and a.t.kind == "int"]
                    if at and all(m.k in ("ref", "int") for m in at):
                        ctx.judge(any(m.key == px.key for m in at), "observations", f.name, c.where(),
                                  "the merged value is taken from another pixel than the one it is stored for")
    ctx.floor("get", 18)
    ctx.floor("set", 18)
    ctx.floor("merge", 8)


def meaning(f, c, e):
    """A value, or what the last assignment before the call gave it."""
    e = e.strip()
    if e.k == "ref" and e.a.get("dk") == "var":
        ds = [n.c[1].strip() for n in f.find("bin") if n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == e.a["d"] and n.line <= c.line]
        ds += [n.c[0].strip() for n in f.find("var") if n.a.get("d") == e.a["d"] and n.c and n.c[0] is not None and n.c[0].strip().v is None]
        if len(ds) == 1:
            return ds[0]
    return e


def inflate(ctx, lay):
    """force-qai-inflate: band names and band contents agree."""
    P = ctx.prog
    names, content = {}, {}
    for f in P.functions:
        if not f.rel.endswith("force-qai-inflate.c"):
            continue
        for c in f.calls("set_brick_bandname"):
            s = c.args[2].strip()
            if c.args[1].v is not None and s.k == "str":
                names[int(c.args[1].v)] = (s.a["s"], c)
        for n in f.find("bin"):
            if n.op != "=":
                continue
            l, r = n.c[0].strip(), n.c[1].strip()
            if r.k == "call" and re.match(r"get_(%s)$" % "|".join(lay), r.callee or "") and l.k == "idx":
                b = l.c[0].strip()
                if b.k == "idx" and b.c[1].v is not None:
                    content.setdefault(int(b.c[1].v), []).append((r.callee[4:], n))
    doc = {k.lower(): v for k, v in FIELDS.items()}
    for b, got in sorted(content.items()):
        for x, n in got:
            if b not in names:
                continue
            nm = names[b][0].lower()
            ctx.judge(doc.get(nm) == x, "inflate", x, n.where(),
                      "band %d is named '%s' but holds the flag '%s'" % (b, names[b][0], x))
