"""P03: each screening keyword removes exactly the observations with its documented quality state."""
import re

import bits
import constprop
from prog import Broken
from p02 import doc_layout

ALSO = ", the bit table of docs/source/howto/qai.rst"
ASSUMPTIONS = []

# keyword of SCREEN_QAI -> (flag, state)
KEYWORDS = {
    "NODATA": ("off", 1), "CLOUD_OPAQUE": ("cloud", 2), "CLOUD_BUFFER": ("cloud", 1), "CLOUD_CIRRUS": ("cloud", 3),
    "CLOUD_SHADOW": ("shadow", 1), "SNOW": ("snow", 1), "WATER": ("water", 1), "AOD_FILL": ("aerosol", 3),
    "AOD_HIGH": ("aerosol", 2), "AOD_INT": ("aerosol", 1), "SUBZERO": ("subzero", 1),
    "SATURATION": ("saturation", 1), "SUN_LOW": ("lowsun", 1), "ILLUMIN_NONE": ("illumination", 3),
    "ILLUMIN_POOR": ("illumination", 2), "ILLUMIN_LOW": ("illumination", 1), "SLOPED": ("slope", 1),
    "WVP_NONE": ("vaporfill", 1),
}
CELL = 5


def keyword_table(P):
    """keyword -> enum value from the tagged table."""
    g = P.globals.get("_TAGGED_ENUM_QAI_")
    out = {}
    if g is None:
        return out
    for row in g["node"].find("init"):
        if len(row.c) == 2 and row.c[0] is not None and row.c[0].v is not None:
            s = row.c[1].strip() if row.c[1] is not None else None
            if s is not None and s.k == "str":
                out[s.a["s"]] = int(row.c[0].v)
    return out


def check(ctx):
    P = ctx.prog
    ctx.rule("keyword", "the keyword exists")
    ctx.rule("screen-one", "with this keyword alone, an observation is rejected iff its quality word has the keyword's state")
    ctx.rule("screen-all", "with any set of keywords, an observation is rejected iff at least one keyword's state matches")
    ctx.rule("screen-none", "without keywords, no observation of ARD is rejected; other input is rejected iff nodata")
    level_rule(ctx)
    ctx.rule("screen-apply", "each observation is screened with its own quality word and the verdict is stored for its own date and pixel")
    lay = doc_layout()
    kw = keyword_table(P)
    fp, fu = P.func("parse_quality"), P.func("use_this_pixel")
    if fp is None or fu is None or not kw:
        raise Broken("screening functions not found")
    rec = P.records.get("par_qai_t")
    if rec is None:
        raise Broken("par_qai_t not found")
    flds = [(n, t) for n, t, l in rec["f"] if t.kind in ("int", "bool", "uint", "char", "uchar")]

    def match(I, wd, k):
        x, v = KEYWORDS[k]
        lo, w = lay[x]
        got = bits.Val(wd.b[lo:lo + w] + [0] * (bits.W - w))
        return I.eq(got, I.const(v))

    owner = {}
    where = "%s:%d" % (fu.rel, fu.line)
    try:
        for k in sorted(KEYWORDS):
            if not ctx.judge(k in kw, "keyword", k, "src/modules/cross-level/enum-cl.c", "keyword %s is not accepted" % k):
                continue
            I = bits.Interp(P)
            for n, t in flds:
                I.mem["R." + n] = I.const(0)
            I.mem["R.nflags"] = I.const(1)
            I.mem["R.flags"] = bits.Ptr("F")
            I.mem["F[0]"] = I.const(kw[k])
            I.run(fp, [bits.Ptr("R")])
            owner[k] = [n for n, t in flds if n not in ("nflags", "flags") and I.isconst(I.mem["R." + n]) not in (0, None)]
            wd = I.sym("w", 16, True)
            I.mem["Q.vshort^[0]^[%d]" % CELL] = wd
            r = I.truth(I.run(fu, [bits.Ptr("Q"), I.const(CELL), bits.Ptr("R"), I.const(1)]))
            want = I.m.NOT(match(I, wd, k))
            diff = I.m.XOR(r, want)
            ctx.judge(diff == 0, "screen-one", k, where,
                      "with SCREEN_QAI = %s the decision is wrong for the quality word %s" % (k, I.m.one(diff) if diff else ""))
        # all rules at once, every rule switch symbolic
        for ard in (1, 0):
            I = bits.Interp(P)
            sw = {}
            # variable order: a flag's bits next to the switches of its keywords
            for x, (lo, w) in sorted(lay.items()):
                for b in range(lo, lo + w):
                    I.m.var("w.%d" % b)
                for k, ns in sorted(owner.items()):
                    if KEYWORDS[k][0] == x:
                        for n in ns:
                            I.m.var("rule_%s.0" % n)
            for n, t in flds:
                if n in ("nflags", "flags"):
                    continue
                sw[n] = I.sym("rule_" + n, 1)
                I.mem["R." + n] = sw[n]
            wd = I.sym("w", 16, True)
            I.mem["Q.vshort^[0]^[%d]" % CELL] = wd
            r = I.truth(I.run(fu, [bits.Ptr("Q"), I.const(CELL), bits.Ptr("R"), I.const(ard)]))
            rej = 0
            for k, ns in owner.items():
                on = 1 if not ns else 0
                for n in ns:
                    on = I.m.OR(on, sw[n].b[0])
                rej = I.m.OR(rej, I.m.AND(on, match(I, wd, k)))
            if not ard:
                lo, w = lay["off"]
                rej = I.m.OR(rej, wd.b[lo])
            diff = I.m.XOR(r, I.m.NOT(rej))
            ctx.judge(diff == 0, "screen-all", "ard=%d" % ard, where,
                      "combined screening is wrong for %s" % (I.m.one(diff) if diff else ""))
            off = {I.m.names[I.m.node[s.b[0]][0]]: 0 for s in sw.values()}
            none = I.m.restrict(r, off)
            want = 1 if ard else I.m.NOT(wd.b[lay["off"][0]])
            ctx.judge(none == want, "screen-none", "ard=%d" % ard, where, "without keywords the decision is not 'keep'")
    except bits.Unsupported as e:
        ctx.undecided("screen-one", "use_this_pixel", e)
    apply_rule(ctx)
    ctx.floor("keyword", 18)


def apply_rule(ctx):
    """X[t].msk[p] = verdict(X[t].QAI, p, ...): same observation, same pixel."""
    P = ctx.prog
    for f in P.functions:
        for n in f.find("bin"):
            if n.op != "=":
                continue
            l, r = n.c[0].strip(), n.c[1].strip()
            if r.k != "call" or r.callee != "use_this_pixel" or l.k != "idx" or len(r.args) < 2:
                continue
            m = l.c[0].strip()
            q = r.args[0].strip()
            if m.k == "mem" and q.k == "mem":
                ctx.judge(m.c[0].key == q.c[0].key and l.c[1].key == r.args[1].key, "screen-apply", f.name, n.where(),
                          "the verdict on %s pixel %s is stored in %s" % (q.key, r.args[1].key, l.key))


ARD = ("_INP_ARD_", "_INP_QAI_")


def level_rule(ctx):
    """Which input is ARD: for every input level, what the screening is told."""
    P = ctx.prog
    ctx.rule("screen-level", "input is screened as ARD if and only if it is ARD (with or without reflectance), each input with its own level")
    f = P.func("screen_qai")
    fu = P.func("use_this_pixel")
    if f is None or fu is None or len(fu.params) < 4:
        ctx.undecided("screen-level", "screen_qai", "not found")
        return
    lev = next(((n, d) for n, d, t in f.params if "level" in n), None)
    k = next((i for i, (n, d, t) in enumerate(fu.params) if t.kind == "bool"), None)
    if lev is None or k is None:
        ctx.undecided("screen-level", "screen_qai", "no input level")
    else:
        for name, v in sorted(P.enum_const.items()):
            if not name.startswith("_INP_") or name in ("_INP_LENGTH_", "_INP_NONE_"):
                continue
            C = constprop.Const(P, {"use_this_pixel"}, lambda g: g.rel == f.rel and g.name != "use_this_pixel")
            C.run(f, {("%s#%d" % lev, 0): v})
            got = {a[k] if k < len(a) else None for _, a, _ in C.log}
            if not got or None in got:
                ctx.undecided("screen-level", name, "what the screening is told is not known")
                continue
            ctx.judge(got == {int(name in ARD)}, "screen-level", name, "%s:%d" % (f.rel, f.line),
                      "input of level %s is%s screened as ARD" % (name.strip("_"), "" if 1 in got else " not"))
    for g in P.functions:
        for c in g.calls("screen_qai", "screen_noise"):
            no = {m.name[-1] for a in c.args if a is not None for m in a.walk() if m.k in ("ref", "mem") and re.match(r"\w*[A-Za-z][12]$", m.name or "")}
            ctx.judge(len(no) < 2, "screen-level", "%s:%s:%s" % (g.name, c.callee, "".join(sorted(no))), c.where(),
                      "%s is given the observations of one input and the settings of the other" % c.callee)
