"""P13: what the parameter skeletons document is what the programs read, keep and reject."""
import os
import re

import constprop
import flags
from constprop import text
from effects import writes_in

ASSUMPTIONS = [
    "Limits documented as open (]0,...) are compared as if closed; limits that depend on other parameters are not compared.",
    "The SYNTHMIX module is read by an R script and not analysed.",
    "Settings used by the scheduler scripts only (queue, logs, number of processes, delays) are not followed into them.",
]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSER = {"LEVEL2": "parse_param_lower", "TRAIN": "parse_param_train"}
MODULES = ("LEVEL2 TRAIN LEVEL3 TSA CSO UDF CFIMP L2IMP ML SMP TXT LSM LIB").split()
# documented limits that intentionally differ from the ones tested: granularity of a percentage or threshold
LIMIT = {"PERCENT_TRAIN", "POL_START_THRESHOLD", "POL_MID_THRESHOLD", "POL_END_THRESHOLD", "MAX_CLOUD_COVER_FRAME",
         "MAX_CLOUD_COVER_TILE"}
# accepted beyond the documented keywords (undocumented extras)
EXTRA = {"OUTPUT_FORMAT": {"JPEG"}, "LSM_THRESHOLD_TYPE": {"GE", "LE"}, "FOLD_TYPE": None}
# placeholders of the skeleton the user has to replace
PLACEHOLDER = {"WATER_VAPOR"}
# settings adjusted after reading, with a message or by a documented rule
ADJUSTED = {
    "txt.radius": "from units to pixels", "lsm.radius": "from units to pixels", "tx": "order of the bounds",
    "ty": "order of the bounds", "tsa.sma.orms": "needs SMA", "tsa.tsi.onrt": "needs the harmonic model",
    "tsa.tsi.harm_fit_range": "empty range means everything",
    "tsa.pyp.out": "needs code", "tsa.rsp.out": "needs code", "udf.pyp.out": "needs code", "udf.rsp.out": "needs code",
    "tsa.pyp.f_code": "needs output", "tsa.rsp.f_code": "needs output", "udf.pyp.f_code": "needs output",
    "udf.rsp.f_code": "needs output",
    "stream": "R code cannot be streamed", "mcl.orfp": "needs a classifier", "mcl.orfm": "needs a classifier",
    "doaod": "needs DO_ATMO", "dobrdf": "needs DO_ATMO", "dotopo": "needs DO_ATMO", "doenv": "needs DO_ATMO",
    "sen.sensor": "names are taken from the definition", "sen.target": "names are taken from the definition",
    "sen2.sensor": "names are taken from the definition",
}
# used by the shell scripts around the programs only
SCRIPT = {"delay", "d_log", "f_queue", "nproc", "timeout"}
DIRECT = {"int", "float", "double", "date", "intvec", "floatvec", "doublevec", "datevec"}


def table():
    out = []
    for l in open(os.path.join(HERE, "tables", "parameters.txt"), encoding="utf-8"):
        if l.strip() and not l.startswith("#"):
            out.append(l.split())
    return out


# -- what is registered -------------------------------------------------------------------------------
def reaching(P, names):
    R, todo = set(names), list(names)
    callers = {}
    for f in P.functions:
        for c in f.calls():
            callers.setdefault(c.callee, set()).add(f.name)
    while todo:
        for n in callers.get(todo.pop(), ()):
            if n not in R:
                R.add(n)
                todo.append(n)
    return R


class Reg:
    """One registration: tag, kind, setting, count, expected length, limits, keywords, test, call."""
    def __init__(self, P, c, a):
        self.call, self.a = c, a
        self.kind = c.callee[len("register_"):-len("_par")]
        self.tag = text(a[1])
        vec = self.kind.endswith("vec")
        base = self.kind[:-3] if vec else self.kind
        self.base = base
        self.dest = pathof(a[-2] if vec else a[-1])
        self.count = pathof(a[-1]) if vec else None
        self.length = a[-3] if vec else None
        self.lo = self.hi = self.words = self.test = None
        if base in ("int", "float", "double", "date"):
            self.lo, self.hi = a[2], a[3]
        if base == "char":
            self.test = a[2]
        if base == "bool":
            self.words = ["FALSE", "TRUE"]
        if base == "enum":
            self.words = keywords(P, c.args[2], a[3])


def pathof(v):
    if isinstance(v, tuple) and v[0] == "a" and v[1][0] == "CFG":
        return ".".join(v[1][1:])
    return None


def keywords(P, e, n):
    e = e.strip()
    while e.k == "un" or e.k == "idx":
        e = e.c[0].strip()
    g = P.globals.get(e.name) if e.k == "ref" else None
    if g is None or not isinstance(n, int):
        return None
    v = g["node"]
    i = v.c[-1].strip() if v.c else None
    if i is None or i.k != "init":
        return None
    out = []
    for row in i.c[:n]:
        s = [x for x in row.walk() if x.k == "str"]
        if len(s) != 1:
            return None
        out.append(s[0].a.get("s"))
    return out


def registrations(ctx, P):
    regs = {n for n in P.by_name if re.match(r"register_\w+_par$", n)}
    inl = reaching(P, regs) - regs
    out = {}
    for m in MODULES:
        f = P.func(PARSER.get(m, "parse_param_higher"))
        if f is None:
            continue
        C = constprop.Const(P, regs, lambda g: g.name in inl, source="++PARAM_%s_START++" % m)
        C.run(f, {("%s#%d" % f.params[0][:2], 0): ("a", ("CFG",))})
        seen, rs = set(), []
        for c, a, _ in C.log:
            k = (c.id, repr(a))
            if k not in seen and len(a) >= 3:
                seen.add(k)
                rs.append(Reg(P, c, a))
        out[m] = rs
    return out


# -- what is documented ------------------------------------------------------------------------------------
def skeletons(P):
    """{(module, with comments): text or None}"""
    f = P.func("main", "force-parameter.c")
    out = {}
    if f is None:
        return out
    w = reaching(P, {"fprintf", "fputs"})
    for m in MODULES:
        for opts in ((-1,), (ord("c"), -1)):
            C = constprop.Const(P, {"fprintf"}, lambda g: g.name in w and "aux-level" in g.rel, source=m,
                                results={"getopt": lambda i, a: opts[min(i, len(opts) - 1)]})
            C.run(f, {("%s#%d" % f.params[1][:2], 0): ("a", ("argv",))})
            parts = [(x if x is not None else "\0") for c, a, x in C.log
                     if not (c.args[0].strip().k == "ref" and c.args[0].strip().name == "stderr")]
            segs = re.split(r"(?=\+\+PARAM_[^\n]*_START\+\+)", "".join(parts))
            segs = {s for s in segs if s.startswith("++PARAM_%s_START++" % m)}
            out[m, len(opts) == 1] = segs.pop() if len(segs) == 1 else None
    return out


def entries(s):
    """[(tag, [values], documentation or None)] of a skeleton."""
    out, types, cur, fresh = [], [], None, True
    for l in s.split("\n"):
        l = l.rstrip()
        m = re.match(r"#\s*Type:\s*(.*)", l)
        if l.startswith("#"):
            if fresh:
                types, fresh, cur = [], False, None
            if m:
                types.append(m[1])
                cur = True
            elif cur and types and types[-1].count("{") > types[-1].count("}"):
                types[-1] += l[1:].strip()
            continue
        m = re.match(r"([A-Z][A-Z0-9_]*)\s*=\s*(.*)$", l)
        if m:
            fresh = True
            d = types.pop(0) if len(types) > 1 else (types[0] if types else None)
            out.append((m[1], m[2].split(), d))
    return out


def num(s):
    try:
        return float(eval(s, {"__builtins__": {}})) if re.match(r"^[-+0-9.*e]+$", s) else None
    except (SyntaxError, NameError, TypeError):
        return None


def docrange(d):
    """((lower, open), (upper, open)); None: not a number."""
    m = re.search(r"Valid (?:range|values):? *([\[\]])\s*([^,\]]*),\s*([^\]\[]*)([\]\[]?)", d or "")
    if not m:
        return None
    hi = m[3].strip()
    return (num(m[2].strip()), m[1] == "]"), (None if hi.startswith("...") else num(hi), m[4] == "[", hi.startswith("..."))


def docwords(d):
    m = re.search(r"\{([^}]*)\}", d or "")
    if not m:
        return None
    out = set()
    for w in re.split(r"[,\s]+", m[1]):
        if not w:
            continue
        r = re.match(r"([A-Z])(\d\d)-\1(\d\d)$", w)
        if r:
            out |= {"%s%02d" % (r[1], i) for i in range(int(r[2]), int(r[3]) + 1)}
        else:
            out.add(w)
    return out


def compare(ctx, P, regs, sk):
    ctx.rule("both", "the parameters a module's skeleton lists (with and without comments) are the ones its parser registers")
    ctx.rule("limits", "the documented range of a numeric parameter is the one the parser tests")
    ctx.rule("words", "the documented keywords are the ones the parser accepts")
    ctx.rule("default", "the value the skeleton suggests is accepted by the parser")
    for m in MODULES:
        rs = regs.get(m)
        if rs is None:
            continue
        tags = {r.tag for r in rs}
        full = None not in tags
        by = {r.tag: r for r in rs}
        for com in (True, False):
            s = sk.get((m, com))
            if s is None or "\0" in s:
                ctx.undecided("both", m, "the skeleton is not a constant text")
                continue
            es = entries(s)
            listed = [t for t, _, _ in es]
            for t in sorted(set(listed) | tags - {None}):
                where = by[t].call.where() if t in by else "src/modules/aux-level/param-aux.c"
                if t not in by and not full:
                    ctx.undecided("both", "%s:%s" % (m, t), "some parameter names are not constants")
                    continue
                ctx.judge(t in by and t in listed, "both", "%s:%s" % (m, t), where,
                          "%s of module %s is %s" % (t, m, "documented but never read" if t not in by else
                                                     "demanded by the parser but missing in the skeleton"))
            ctx.judge(s.rstrip().endswith("++PARAM_%s_END++" % m), "both", "%s:end" % m,
                      "src/main/aux-level/force-parameter.c", "the skeleton of %s has no end marker" % m)
            if not com:
                continue
            for t, vals, d in es:
                r = by.get(t)
                if r is None:
                    continue
                judge_doc(ctx, m, r, d)
                judge_default(ctx, m, r, vals)


def judge_doc(ctx, m, r, d):
    where = r.call.where()
    key = "%s:%s" % (m, r.tag)
    if r.words is not None:
        w = docwords(d)
        if w is None:
            return
        acc = set(r.words)
        miss = w - acc
        ctx.judge(not miss, "words", key, where, "%s documents %s, which the parser rejects" % (r.tag, ", ".join(sorted(miss))))
        extra = acc - w
        if r.tag in EXTRA:
            extra = set() if EXTRA[r.tag] is None else extra - EXTRA[r.tag]
        if extra:
            ctx.violate("words", key + ":extra", where, "%s accepts %s, which is not documented" % (r.tag, ", ".join(sorted(extra))))
        return
    if r.lo is None or r.base == "date":
        return
    w = docwords(d)
    if w and all(re.match(r"-?\d+$", x) for x in w):
        lo, hi = (min(map(float, w)), False), (max(map(float, w)), False, False)
    else:
        g = docrange(d)
        if g is None:
            return
        lo, hi = g
    if not isinstance(r.lo, (int, float)) or not isinstance(r.hi, (int, float)):
        ctx.undecided("limits", key, "limits are not constants")
        return
    if r.tag in LIMIT:
        ctx.judge(lo[0] is None or lo[0] <= r.lo + 1e-6, "limits", key, where, "%s accepts values below %s" % (r.tag, lo[0]))
        ctx.judge(hi[0] is None or hi[0] >= r.hi - 1e-6, "limits", key, where, "%s accepts values above %s" % (r.tag, hi[0]))
        return
    if lo[0] is not None:
        ok = abs(r.lo - lo[0]) <= 1e-6 * max(1, abs(lo[0])) or \
            r.base == "int" and lo[1] and r.lo == lo[0] + 1
        ctx.judge(ok, "limits", key, where, "%s: the smallest value is documented as %g, the parser tests %g" % (r.tag, lo[0], r.lo))
    if hi[0] is not None:
        ctx.judge(abs(r.hi - hi[0]) <= 1e-6 * max(1, abs(hi[0])), "limits", key, where,
                  "%s: the largest value is documented as %g, the parser tests %g" % (r.tag, hi[0], r.hi))
    elif len(hi) > 2 and hi[2]:
        ctx.judge(r.hi >= 1e5, "limits", key, where, "%s: documented as unlimited, the parser rejects values above %g" % (r.tag, r.hi))


def judge_default(ctx, m, r, vals):
    where, key = r.call.where(), "%s:%s" % (m, r.tag)
    if r.tag in PLACEHOLDER:
        return
    if r.length is not None:
        if not isinstance(r.length, int):
            return
        if "NULL" not in vals:
            ctx.judge(len(vals) >= 1 and (r.length <= 0 or len(vals) == r.length), "default", key, where,
                      "%s is suggested with %d values, the parser demands %s" % (r.tag, len(vals), r.length))
    else:
        ctx.judge(len(vals) == 1, "default", key, where, "%s is suggested with %d values" % (r.tag, len(vals)))
    for v in vals:
        if r.words is not None:
            ctx.judge(v in r.words, "default", key + "=" + v, where, "the suggested keyword %s of %s is rejected" % (v, r.tag))
        elif r.base == "date":
            lo, hi = text(r.lo), text(r.hi)
            if lo and hi:
                ctx.judge(re.match(r"\d{4}-\d\d-\d\d$", v) and lo <= v <= hi, "default", key + "=" + v, where,
                          "the suggested date %s of %s is rejected" % (v, r.tag))
        elif r.lo is not None and isinstance(r.lo, (int, float)) and isinstance(r.hi, (int, float)):
            x = num(v)
            ctx.judge(x is not None and r.lo - 1e-6 <= x <= r.hi + 1e-6, "default", key + "=" + v, where,
                      "the suggested value %s of %s is rejected" % (v, r.tag))


# -- where values go ------------------------------------------------------------------------------------------
def fieldtype(P, rec, path):
    """Type of a setting, None if it does not exist."""
    t = None
    for s in path.split("."):
        if s.startswith("["):
            continue
        if t is not None:
            while t is not None and t.kind in ("ptr", "arr", "vla"):
                t = t.el
            rec = t.rec if t is not None else None
        r = P.records.get(rec)
        if r is None:
            return None
        d = {x[0]: x[1] for x in r["f"]}
        if s not in d:
            return None
        t = d[s]
    return t


def owner(P, rec, path):
    """(record, member) a setting is stored in."""
    p = [s for s in path.split(".") if not s.startswith("[")]
    if len(p) == 1:
        return rec, p[0]
    t = fieldtype(P, rec, ".".join(p[:-1]))
    while t is not None and t.kind in ("ptr", "arr", "vla"):
        t = t.el
    return (t.rec, p[-1]) if t is not None else (None, p[-1])


def roots(P):
    out = {}
    for m in MODULES:
        f = P.func(PARSER.get(m, "parse_param_higher"))
        if f is not None:
            t = f.params[0][2]
            while t.kind == "ptr":
                t = t.el
            out[m] = t.rec
    return out


def places(ctx, P, regs, rec):
    ctx.rule("place", "every parameter is stored in the setting it is documented for, with its own count and the demanded number of values")
    ctx.rule("distinct", "no two parameters of a module share a name or a setting")
    rows = {}
    for tag, kind, dest, cnt, ln, test, mods in table():
        for m in mods.split(","):
            rows[m, tag] = (kind, dest, cnt, ln, test)
    val = {}
    for n, v in P.enum_const.items():
        if n.startswith("_CHAR_TEST_"):
            val[n] = v
    for m, rs in regs.items():
        seen = {}
        for r in rs:
            key, where = "%s:%s" % (m, r.tag), r.call.where()
            if r.tag is None or r.dest is None:
                ctx.undecided("place", key, "name or setting not constant")
                continue
            loop = "[*]" in r.dest
            if not loop:
                ctx.judge(("tag", r.tag) not in seen or seen["tag", r.tag] == r.dest, "distinct", key, where,
                          "%s is registered twice in module %s" % (r.tag, m))
                for p in {r.dest, r.count} - {None}:
                    ctx.judge(seen.get(("dest", p), r.tag) == r.tag, "distinct", "%s:%s" % (key, p), where,
                              "%s and %s are stored in the same setting" % (r.tag, seen.get(("dest", p))))
                    seen["dest", p] = r.tag
                seen["tag", r.tag] = r.dest
            want = rows.get((m, r.tag))
            if want is None:
                continue
            for what, have, exp in (("setting", r.dest, want[1]), ("count", r.count, want[2])):
                if exp == "-" or have is None:
                    continue
                if have != exp and fieldtype(P, rec[m], exp) is None:
                    ctx.undecided("place", key, "%s is no longer a setting" % exp)
                    continue
                ctx.judge(have == exp, "place", "%s:%s" % (key, what), where,
                          "the %s of %s is stored in %s instead of %s" % ("value" if what == "setting" else "number of values",
                                                                         r.tag, have, exp))
            if want[3] != "-" and isinstance(r.length, int):
                ctx.judge(str(r.length) == want[3] or int(want[3]) < 0 and r.length <= 0, "place", key + ":number", where,
                          "%s is read with %d values, %s are used" % (r.tag, r.length, want[3]))
            if want[4] != "-" and isinstance(r.test, int) and want[4] in val:
                ctx.judge(r.test == val[want[4]], "place", key + ":test", where,
                          "%s is not tested with %s" % (r.tag, want[4].strip("_")))


def kept(ctx, P, regs, rec):
    ctx.rule("kept", "a setting keeps the value read from the parameter file, apart from the documented adjustments")
    ctx.rule("used", "every parameter that is read has a use")
    own, heads = {}, {}
    for m, rs in regs.items():
        for r in rs:
            if r.dest is not None and r.tag is not None:
                o = owner(P, rec[m], r.dest)
                own.setdefault(o, set()).add(r.dest)
    top = set(rec.values())
    reads, writes, tests = {}, [], {}
    for f in P.functions:
        w = set()
        for lv, st in writes_in(f.body):
            l = lv.strip()
            while l.k == "idx" or l.k == "un" and l.op == "*":
                l = l.c[0].strip()
            if l.k == "mem":
                w.add(id(l))
                o = recof(l)
                if (o, l.name) in own:
                    writes.append((f, l, st))
        for n in f.find("mem"):
            if id(n) in w:
                continue
            p = n.p
            while p is not None and p.k == "cast":
                p = p.p
            if p is not None and p.k == "un" and p.op == "&" and any(x.callee and x.callee.startswith("register_") for x in p.up() if x.k == "call"):
                continue
            reads.setdefault((recof(n), n.name), []).append(f.name)
            if n.t is not None and n.t.kind in ("bool", "int") and not f.name.startswith("register_"):
                tests.setdefault((recof(n), n.name), {})[n.where()] = p is not None and p.k == "un" and p.op == "!" and works(p)
    for o, ps in sorted(own.items(), key=str):
        if o[1] in SCRIPT:
            continue
        us = [f for f in reads.get(o, ()) if not f.startswith("register_")]
        ctx.judge(bool(us), "used", "%s" % "/".join(sorted(ps)), "src/modules", "the setting %s is read from the parameter file but never used" % "/".join(sorted(ps)))
    for o, ps in sorted(own.items(), key=str):
        us = tests.get(o, ())
        if us:
            ctx.judge(not all(us.values()), "used", "%s:sense" % "/".join(sorted(ps)), min(us), "the setting %s takes effect only where it is "
                      "switched off" % "/".join(sorted(ps)))
    for f, l, st in writes:
        p = chain(l, top)
        if p is None:
            continue                   # not inside the parameter structure
        where = st.where()
        if f.name == "main":
            continue                   # a program without parameter file fills the structure itself
        if st.k == "bin" and st.op == "=" and (st.c[1].strip().k == "null" or st.c[1].strip().v == 0 and st.c[1].t is not None and st.c[1].t.is_ptr):
            continue                   # released
        if p.split(".")[-1] not in {d.split(".")[-1] for d in own.get((recof(l), l.name), ())}:
            continue
        hit = [d for d in own[(recof(l), l.name)] if d == p or d.endswith("." + p)]
        if not hit:
            continue
        ctx.judge(all(h in ADJUSTED for h in hit), "kept", "%s:%s" % (f.name, hit[0]), where,
                  "%s changes the setting %s read from the parameter file" % (f.name, hit[0]))


def works(p):
    """The negation is the whole condition of a branch without alternative, which does not leave."""
    u = p.p
    while u is not None and u.k in ("cast", "paren"):
        u = u.p
    if u is None or u.k != "if" or not any(x is p for x in u.c[0].walk()) or len(u.c) > 2 and u.c[2] is not None:
        return False
    b = u.c[1]
    l = b.c[-1] if b is not None and b.k == "block" and b.c else b
    return l is not None and l.k not in ("return", "continue", "break", "goto") and not (l.k == "call" and l.callee == "exit")


def recof(n):
    t = n.c[0].strip().t
    while t is not None and t.kind == "ptr":
        t = t.el
    return t.rec if t is not None else None


def chain(n, top):
    """Path of a member from the parameter structure (or from a structure inside it), None if rooted in a local."""
    p = []
    while True:
        n = n.strip()
        if n.k == "mem":
            p.append(n.name)
            if recof(n) in top:
                return ".".join(reversed(p))
            if n.a.get("arrow") and n.c[0].strip().k == "ref":
                return ".".join(reversed(p)) if n.c[0].strip().a.get("dk") == "parm" else None
            n = n.c[0]
        elif n.k == "idx" or n.k == "un" and n.op == "*":
            n = n.c[0]
        else:
            return None


def demanded(ctx, P):
    ctx.rule("demanded", "no program accepts a parameter file whose test failed")
    fail, succ = P.enum_const.get("FAILURE"), P.enum_const.get("SUCCESS")
    for n in sorted({PARSER.get(m, "parse_param_higher") for m in MODULES}):
        f = P.func(n)
        if f is None:
            continue
        h = reaching(P, {"check_parameter"})
        C = constprop.Const(P, set(), lambda g: g.name in h, results={"check_parameter": lambda i, a: fail})
        out = [(v, s.get(("R", "check_parameter"), 0)) for s, v in C.run(f, {})]
        bad = [v for v, k in out if v == succ and v is not None]
        if not out or None in {v for v, _ in out}:
            ctx.undecided("demanded", n, "result not constant")
            continue
        ctx.judge(not bad, "demanded", n, f.body.where(), "%s succeeds although the test of the parameters failed or was not made" % n)


# -- keyword tables ----------------------------------------------------------------------------------------
def tables(ctx, P):
    ctx.rule("keyword", "every keyword stands for the option of its name, once, and tables indexed by option list them in order")
    want = {}
    for l in open(os.path.join(HERE, "tables", "keywords.txt"), encoding="utf-8"):
        if l.strip() and not l.startswith("#"):
            t, w, e = l.split()
            want.setdefault(t, {})[w] = e
    indexed = set()
    for f in P.functions:
        for n in f.find("idx"):
            b = n.c[0].strip()
            if b.k == "ref" and b.name in P.globals:
                indexed.add(b.name)
    for name, g in sorted(P.globals.items()):
        v = g["node"]
        t = v.t
        while t is not None and t.kind in ("arr", "vla"):
            t = t.el
        if t is None or t.rec != "tagged_enum_t" or not v.c:
            continue
        i = v.c[-1].strip()
        if i.k != "init":
            continue
        words, vals = {}, {}
        for k, row in enumerate(i.c):
            s = [x for x in row.walk() if x.k == "str"]
            e = [x for x in row.walk() if x.k == "ref" and x.a.get("dk") == "enum"]
            if len(s) != 1 or len(e) != 1:
                ctx.undecided("keyword", "%s[%d]" % (name, k), "not a keyword and an option")
                continue
            w, en = s[0].a["s"], e[0]
            where = "%s:%d" % (g["file"], row.line)
            ctx.judge(w not in words, "keyword", "%s:%s:once" % (name, w), where, "keyword %s is listed twice in %s" % (w, name))
            ctx.judge(en.name not in vals, "keyword", "%s:%s:once" % (name, en.name), where, "option %s is listed twice in %s" % (en.name, name))
            words[w], vals[en.name] = en.name, w
            x = want.get(name, {}).get(w)
            if x is not None:
                if x not in P.enum_const:
                    ctx.undecided("keyword", "%s:%s" % (name, w), "%s no longer exists" % x)
                else:
                    ctx.judge(P.enum_const[x] == P.enum_const.get(en.name), "keyword", "%s:%s" % (name, w), where,
                              "keyword %s stands for %s instead of %s" % (w, en.name, x))
            if name in indexed:
                ctx.judge(P.enum_const.get(en.name) == k, "keyword", "%s:%s:order" % (name, w), where,
                          "%s is row %d of %s, which is indexed by option, but has the value %s" % (w, k, name, P.enum_const.get(en.name)))
        for w, x in want.get(name, {}).items():
            if w not in words and x in P.enum_const:
                ctx.violate("keyword", "%s:%s:missing" % (name, w), v.where(), "keyword %s is missing in %s" % (w, name))


# -- options that are turned into settings ----------------------------------------------------------------
QAI = {"NODATA": "off", "CLOUD_BUFFER": "cld_unc", "CLOUD_OPAQUE": "cld_opq", "CLOUD_CIRRUS": "cld_cir", "CLOUD_SHADOW": "shd",
       "SNOW": "snw", "WATER": "wtr", "AOD_INT": "aod_int", "AOD_HIGH": "aod_high", "AOD_FILL": "aod_fill", "SUBZERO": "sub",
       "SATURATION": "sat", "SUN_LOW": "sun", "ILLUMIN_LOW": "ill_low", "ILLUMIN_POOR": "ill_poor", "ILLUMIN_NONE": "ill_shd",
       "SLOPED": "slp", "WVP_NONE": "wvp"}
# function, keyword table, member with the list, member with its length, setting of a keyword
OPTIONS = (
    ("parse_sta", "_TAGGED_ENUM_STA_", "metrics", "nmetrics", lambda w, e: (w.lower(),) if not re.match(r"Q\d", w) else ("qxx", "[0]")),
    ("parse_txt", "_TAGGED_ENUM_TXT_", "metrics", "nmetrics", lambda w, e: ("o" + w.lower(),)),
    ("parse_lsm", "_TAGGED_ENUM_LSM_", "metrics", "nmetrics", lambda w, e: ("o" + w.lower(),)),
    ("parse_pol", "_TAGGED_ENUM_POL_", "metrics", "nmetrics", lambda w, e: ("use", "[%d]" % e)),
    ("parse_quality", "_TAGGED_ENUM_QAI_", "flags", "nflags", lambda w, e: (QAI.get(w),)),
)


def options(ctx, P):
    ctx.rule("option", "every keyword of a list switches on the setting of its name and no other")
    words = {}
    for l in open(os.path.join(HERE, "tables", "keywords.txt"), encoding="utf-8"):
        if l.strip() and not l.startswith("#"):
            t, w, e = l.split()
            if e in P.enum_const:
                words.setdefault(t, []).append((w, P.enum_const[e]))
    for fn, tab, lst, cnt, place in OPTIONS:
        f = P.func(fn)
        if f is None or not words.get(tab):
            continue
        t = f.params[0][2].el if f.params[0][2].kind == "ptr" else None
        known = {x[0] for x in P.records[t.rec]["f"]} if t is not None and t.rec in P.records else set()
        mine = {w: place(w, e) for w, e in words[tab]}
        arg = "%s#%d" % f.params[0][:2]
        for (w, e), (w0, e0) in zip(words[tab], words[tab][1:] + words[tab][:1]):
            if mine[w][0] not in known or lst not in known or cnt not in known:
                ctx.undecided("option", "%s:%s" % (fn, w), "no setting of this name")
                continue
            if re.match(r"Q\d", w) and re.match(r"Q\d", w0):
                w0, e0 = words[tab][0]
            C = constprop.Const(P, set(), lambda g: g.rel == f.rel)
            C.limit = 400
            env = {(arg, 0): ("a", ("S",)), ("S", lst): ("a", ("LIST",)), ("S", cnt): 2, ("LIST",): e0, ("LIST", "[1]"): e}
            out = [s for s, _ in C.run(f, env)]
            if len(out) != 1:
                ctx.undecided("option", "%s:%s" % (fn, w), "more than one outcome")
                continue
            s = out[0]
            got = {x for x, p in mine.items() if s.get(("S",) + p) == 1 and x not in (w0,)}
            if re.match(r"Q\d", w):
                got = {x for x in got if not re.match(r"Q\d", x)}
                q = s.get(("S", "q", "[0]"))
                if s.get(("S", "qxx", "[0]")) == 1 and isinstance(q, float) and abs(q - int(w[1:]) / 100) < 1e-6:
                    got.add(w)
            elif fn == "parse_sta" and re.match(r"Q\d", w0):
                got = {x for x in got if not re.match(r"Q\d", x)}
            if s.get(("S",) + mine[w]) is None:
                ctx.undecided("option", "%s:%s" % (fn, w), "setting not constant")
                continue
            ctx.judge(got == {w}, "option", "%s:%s" % (fn, w), f.body.where(),
                      "keyword %s switches on %s" % (w, ", ".join(sorted(got)) or "nothing"))


# -- structures handed to functions ---------------------------------------------------------------------
def handed(ctx, P, regs, rec):
    ctx.rule("handed", "every pointer a function reads from a group of settings was given a value for this group")
    top = {r: set() for r in rec.values() if r}
    given = set()
    for m, rs in regs.items():
        for r in rs:
            for p in (r.dest, r.count):
                if p:
                    given.add((rec[m], p.replace(".[*]", "")))
    # which group a parameter of a function stands for
    bind, todo = {}, []

    def path(n, f, b):
        """(root record, path) of an expression in f, where parameters may stand for groups b."""
        q = []
        while True:
            n = n.strip()
            if n.k == "mem":
                q.append(n.name)
                if recof(n) in top and n.a.get("arrow"):
                    return recof(n), ".".join(reversed(q))
                if n.a.get("arrow") and n.c[0].strip().k != "ref":
                    return None
                n = n.c[0]
            elif n.k == "idx" or n.k == "un" and n.op in ("*", "&"):
                n = n.c[0]
            elif n.k == "ref" and n.a.get("d") in b:
                r, p = b[n.a["d"]]
                return r, ".".join([p] + list(reversed(q)))
            else:
                return None

    work = [(f, {}) for f in P.functions]
    seen = set()
    reads, whole = {}, set()
    while work:
        f, b = work.pop()
        k = (f.name, f.rel, tuple(sorted(b.items())))
        if k in seen or len(seen) > 60000:
            continue
        seen.add(k)
        wr = set()
        for lv, st in writes_in(f.body):
            l = lv.strip()
            while l.k == "idx" or l.k == "un" and l.op == "*":
                l = l.c[0].strip()
            p = path(l, f, b)
            if p is not None:
                given.add(p)
                wr.add(id(l))
        for c in f.calls():
            gs = P.resolve(c)
            for i, a in enumerate(c.args):
                x = a.strip()
                if x.k == "un" and x.op == "&":
                    p = path(x.c[0], f, b)
                elif x.k == "ref" and x.a.get("d") in b:
                    p = b[x.a["d"]]
                else:
                    continue
                if p is None:
                    continue
                t = fieldtype(P, p[0], p[1])
                while t is not None and t.kind == "arr":
                    t = t.el
                if t is not None and t.kind == "rec" and gs:
                    for g in gs:
                        if i < len(g.params):
                            work.append((g, {g.params[i][1]: p}))
                elif t is not None and t.kind == "rec":
                    whole.add(p)
                else:
                    given.add(p)
        for n in f.find("mem"):
            if id(n) in wr or n.t is None or n.t.kind != "ptr":
                continue
            q = n.p
            while q is not None and q.k == "cast":
                q = q.p
            if q is not None and q.k == "un" and q.op == "&":
                continue
            p = path(n, f, b)
            if p is not None:
                reads.setdefault(p, (n, f))
    for (r, p), (n, f) in sorted(reads.items(), key=lambda x: str(x[0])):
        parts = p.split(".")
        if any((r, ".".join(parts[:i])) in whole for i in range(1, len(parts))):
            continue
        if fieldtype(P, r, p) is None:
            continue
        ctx.judge((r, p) in given, "handed", "%s" % p, n.where(), "%s uses %s, which never gets a value" % (f.name, p))


# -- the reading machinery ------------------------------------------------------------------------------------
def machinery(ctx, P):
    """Value flow register -> parse -> check with uninterpreted terms for names, limits and values."""
    ctx.rule("flow", "a registered parameter receives the converted value of the line with its name, and nothing else does")
    ctx.rule("reject", "a parameter that is missing, has the wrong number of values, or a value outside of its limits or keywords is rejected, any other value is accepted")
    al, parse, check = P.func("allocate_params"), P.func("parse_parameter"), P.func("check_parameter")
    if None in (al, parse, check):
        ctx.undecided("reject", "machinery", "functions not found")
        return
    fail, succ = P.enum_const.get("FAILURE"), P.enum_const.get("SUCCESS")
    rel = {parse.rel}
    CONV = {"int": "@atoi(@v%d)", "float": "@atof(@v%d)", "double": "@atof(@v%d)", "date": "@parse_date(@v%d)",
            "enum": "@parse_enum(@v%d)", "bool": "@parse_enum(@v%d)", "char": "@v%d"}

    def engine(toks, order, exists=None, words=None):
        def tok(i, a):
            v = toks[i] if i < len(toks) else 0
            return ("s", v) if isinstance(v, str) else v

        def conv(n):
            def g(i, a):
                return ("s", "@%s(%s)" % (n, a[0])) if isinstance(a[0], str) else None
            return g
        R = {"strtok_r": tok, "strtok": tok, "atoi": conv("atoi"), "atof": conv("atof"), "parse_date": conv("parse_date"),
             "parse_enum": conv("parse_enum"), "length_par": lambda i, a: words, "fileexist": lambda i, a: exists(a[0]) if callable(exists) else exists,
             "strtol": conv("atoi"), "strtod": conv("atof"), "strtof": conv("atof"), "reallocate_params": lambda i, a: None}
        C = constprop.Const(P, set(), lambda g: g.rel in rel or g.rel.endswith("/string-cl.c"), results=R)
        C.heap = True
        C.order = order
        return C

    def states(C, f, args, env):
        e = dict(env)
        for (n, d, t), v in zip(f.params, args):
            if v is not None:
                e[("%s#%d" % (n, d), 0)] = v
        return C.run(f, e)

    C = engine((), {})
    r = states(C, al, (), {})
    if len(r) != 1 or not isinstance(r[0][1], tuple):
        ctx.undecided("reject", "allocate_params", "more than one outcome")
        return
    env0, prm = r[0]
    env0 = {k: v for k, v in env0.items() if k[0] in ("heap", "rows")}

    # keywords
    pe = P.func("parse_enum")
    if pe is not None:
        base = {("E", "tag"): ("s", "AB"), ("E", "en"): 5, ("E", "[1]", "tag"): ("s", "ABC"), ("E", "[1]", "en"): 7}
        for w, want in (("AB", 5), ("ABC", 7), ("A", None), ("ABCD", None), ("ab", None), ("X", None)):
            C = constprop.Const(P, set(), lambda g: g.rel in rel or g.rel.endswith("/string-cl.c"))
            out = {v for _, v in states(C, pe, [("s", w), ("a", ("E",)), 2], base)}
            if len(out) != 1 or None in out:
                ctx.undecided("reject", "keyword:" + w, "result not constant")
                continue
            v = out.pop()
            ctx.judge(v == want if want is not None else v not in (5, 7), "reject", "keyword:" + w, pe.body.where(),
                      "keyword %s of the keywords AB and ABC is taken for %s" % (w, v))
    rb = P.func("register_bool_par")
    if rb is not None and pe is not None:
        for w, want in (("TRUE", 1), ("FALSE", 0)):
            C = engine((), {})
            rs = states(C, rb, [prm, ("s", "TILE_SIZE"), ("a", ("VALUE",))], env0)
            C = engine(("TILE_SIZE", w, 0), {})
            C.results.pop("parse_enum")
            out = {e.get(("VALUE",)) for s, _ in rs for e, _ in states(C, parse, [prm, ("s", "@line")],
                   {k: v for k, v in s.items() if "#" not in str(k[0]) and k[0] not in ("T", "R")})}
            if len(out) != 1 or None in out:
                ctx.undecided("reject", "bool:" + w, "result not constant")
                continue
            ctx.judge(out == {want}, "reject", "bool:" + w, rb.body.where(), "%s is stored as %s" % (w, out))

    for base in ("int", "float", "double", "date", "enum", "bool", "char"):
        for vec in (False, True):
            f = P.func("register_%s%s_par" % (base, "vec" if vec else ""))
            if f is None:
                continue
            n = len(f.params)
            for test in (["_CHAR_TEST_NULL_OR_EXIST_", "_CHAR_TEST_EXIST_", "_CHAR_TEST_NOT_EXIST_", "_CHAR_TEST_NULL_OR_BASE_",
                          "_CHAR_TEST_BASE_", "_CHAR_TEST_NONE_"] if base == "char" else [None]):
                key = base + ("vec" if vec else "") + (":" + test.strip("_") if test else "")
                args = [prm, ("s", "TILE_SIZE")] + [None] * (n - 2)
                if base in ("int", "float", "double", "date"):
                    args[2], args[3] = ("s", "@min"), ("s", "@max")
                elif base == "enum":
                    args[2], args[3] = ("a", ("ENUMS",)), 2
                elif base == "char":
                    args[2] = P.enum_const.get(test)
                if vec:
                    args[n - 3] = 2
                    args[n - 2], args[n - 1] = ("a", ("VALUE",)), ("a", ("LEN",))
                else:
                    args[n - 1] = ("a", ("VALUE",))
                one(ctx, P, engine, states, env0, prm, f, args, base, vec, test, key, CONV, parse, check, fail, succ)


def element(env, vec, i, base):
    """Value stored for element i of the parameter."""
    v = env.get(("VALUE",))
    if not vec:
        if base == "char":
            return text(env.get(v[1])) if isinstance(v, tuple) and v[0] == "a" else text(v)
        return text(v)
    if not (isinstance(v, tuple) and v[0] == "a"):
        return None
    p = v[1]
    if p[0] == "rows":
        for q in ((p if i == 0 else p + ("[%d]" % i,)) + ("row",),):
            if q in env:
                return text(env[q])
        return None
    return text(env.get(p if i == 0 else p + ("[%d]" % i,)))


def one(ctx, P, engine, states, env0, prm, f, args, base, vec, test, key, CONV, parse, check, fail, succ):
    C = engine((), {})
    rs = states(C, f, args, env0)
    if len(rs) != 1:
        ctx.undecided("flow", key, "registration has %d outcomes" % len(rs))
        return
    env1 = {k: v for k, v in rs[0][0].items() if "#" not in str(k[0]) and k[0] not in ("T", "R")}

    def judge_check(env, want, name, order=None, exists=None, always=False):
        C = engine((), order or {}, exists=exists)
        out = {v for _, v in states(C, check, [prm], env)}
        if always and None not in out and len(out) > 1 and want in out:
            ctx.violate("reject", "%s:%s" % (key, name), check.body.where(), "a %s parameter (%s) can be %s" % (key, name, "accepted" if want == fail else "rejected"))
            return
        if len(out) != 1 or None in out:
            ctx.undecided("reject", "%s:%s" % (key, name), "outcome not constant")
            return False
        got = out.pop()
        ctx.judge(got == want, "reject", "%s:%s" % (key, name), check.body.where(),
                  "a %s parameter (%s) is %s" % (key, name, "accepted" if want == fail else "rejected"))
        return True

    # never given
    followed = judge_check(env1, fail, "not given")
    # a line without its name
    for other in ("TIL", "TILE_SIZE_X", "tile_size", "SIZE", "X"):
        toks = [other, "@v0", other, "@v0", "@v1", 0]
        C = engine(toks, {}, words=2)
        got = {element(e, vec, 0, base) is not None for e, _ in states(C, parse, [prm, ("s", "@line")], env1)}
        if len(got) != 1:
            ctx.undecided("flow", "%s:%s" % (key, other), "comparison of names not followed")
            continue
        ctx.judge(not got.pop(), "flow", "%s:%s" % (key, other), parse.body.where(),
                  "a line for %s sets the %s parameter TILE_SIZE" % (other, key))
    # a line with its name, but without a value
    C = engine(["TILE_SIZE", 0], {}, words=0)
    for e, _ in states(C, parse, [prm, ("s", "@line")], env1):
        judge_check({k: v for k, v in e.items() if "#" not in str(k[0]) and k[0] not in ("T", "R")}, fail, "given without a value", always=followed)
    # a line with its name
    for nval in ((2, 1, 3) if vec else (1,)):
        toks = ["TILE_SIZE", "@v0"] + (["TILE_SIZE"] + ["@v%d" % i for i in range(nval)] + [0] if vec else [0])
        C = engine(toks, {}, words=nval)
        out = states(C, parse, [prm, ("s", "@line")], env1)
        out = [e for e, _ in out]
        good = []
        for e in out:
            got = [element(e, vec, i, base) for i in range(nval if vec else 1)]
            exp = [CONV[base] % i for i in range(len(got))]
            if None in got:
                good.append(None)
            else:
                good.append(got == exp)
        if not out or None in good:
            ctx.undecided("flow", "%s:%d" % (key, nval), "stored value not followed")
            continue
        ctx.judge(all(good), "flow", "%s:%d" % (key, nval), parse.body.where(),
                  "a %s parameter receives %s" % (key, got))
        if not all(good):
            continue
        for e in out[:1]:
            env2 = {k: v for k, v in e.items() if "#" not in str(k[0]) and k[0] not in ("T", "R")}
            if vec and nval != 2:
                judge_check(env2, fail, "%d instead of 2 values" % nval, order_for(base, [0] * nval), exists=1 if test != "_CHAR_TEST_NOT_EXIST_" else 0)
                continue
            limits(ctx, P, judge_check, env2, base, vec, test, fail, succ, nval if vec else 1)


def order_for(base, pos):
    """Order of values relative to their limits: -2 below, -1 equal to the lower, 0 inside, 1 equal to the upper, 2 above."""
    if base not in ("int", "float", "double", "date"):
        return {}
    c = {"int": "@atoi(@v%d)", "float": "@atof(@v%d)", "double": "@atof(@v%d)", "date": "@parse_date(@v%d).ce"}[base]
    lo, hi = ("@min", "@max") if base != "date" else ("@parse_date(@min).ce", "@parse_date(@max).ce")
    o = {}
    for i, p in enumerate(pos):
        o[("s", c % i), ("s", lo)] = p + 1 if p < 0 else 1
        o[("s", c % i), ("s", hi)] = p - 1 if p > 0 else -1
        if base == "date":
            # days before and after the limits lie in the same year
            for k, x in ((lo, p + 1 if p < 0 else 1), (hi, p - 1 if p > 0 else -1)):
                for part in ("year", "month", "doy", "day"):
                    o[("s", c.replace(".ce", "." + part) % i), ("s", k.replace(".ce", "." + part))] = 0 if part in ("year", "month") else x
    return o


def limits(ctx, P, judge_check, env, base, vec, test, fail, succ, n):
    names = {-2: "below the lower limit", -1: "equal to the lower limit", 0: "inside of the limits",
             1: "equal to the upper limit", 2: "above the upper limit"}
    if base in ("int", "float", "double", "date"):
        for i in range(n):
            for p in (-2, -1, 0, 1, 2):
                pos = [0] * n
                pos[i] = p
                judge_check(env, fail if abs(p) == 2 else succ, "value %d %s" % (i + 1, names[p]), order_for(base, pos))
    elif base in ("enum", "bool"):
        for i in range(n):
            for k in (0, 1, None):
                o = {}
                for j in range(n):
                    for r in (0, 1):
                        kk = k if j == i else 0
                        en = ("s", "@en%d" % r) if base == "enum" else r
                        o[("s", "@parse_enum(@v%d)" % j), en] = 0 if kk == r else 1
                e = dict(env)
                if base == "enum":
                    for p in [p for p in e if p[0] == "heap" and isinstance(e[p], tuple) and e[p][0] == "a"]:
                        q = e[p][1]
                        if isinstance(p[-1], str) and "enum" in p[-1]:
                            e[q + ("en",)] = ("s", "@en0")
                            e[q + ("[1]", "en")] = ("s", "@en1")
                judge_check(e, fail if k is None else succ, "value %d %s" % (i + 1, "without keyword" if k is None else "keyword %d" % k), o)
    elif base == "char":
        cases = {"_CHAR_TEST_NONE_": [("@v", None, succ)],
                 "_CHAR_TEST_EXIST_": [("a.b", 1, succ), ("a.b", 0, fail)],
                 "_CHAR_TEST_NOT_EXIST_": [("a.b", 1, fail), ("a.b", 0, succ)],
                 "_CHAR_TEST_NULL_OR_EXIST_": [("a.b", 1, succ), ("a.b", 0, fail), ("NULL", 0, succ)],
                 "_CHAR_TEST_BASE_": [("a.b", 0, succ), ("c/a.b", 1, fail), ("ab", 1, fail)],
                 "_CHAR_TEST_NULL_OR_BASE_": [("a.b", 0, succ), ("c/a.b", 1, fail), ("ab", 1, fail), ("NULL", 0, succ)]}
        if n > 1 and "EXIST" in test:
            for i in range(n):
                for bad in (False, True):
                    e = dict(env)
                    for q, v in env.items():
                        t = text(v)
                        if t is not None and re.match(r"@v\d$", t):
                            e[q] = ("s", "bad.x" if bad and int(t[2]) == i else "good.x")
                    judge_check(e, fail if bad else succ, "value %d %s" % (i + 1, "against" if bad else "as") + " the requested existence",
                                exists=lambda t: (text(t) if not isinstance(t, str) else t) == ("bad.x" if "NOT" in test else "good.x"))
        for s, ex, want in cases[test]:
            for i in range(n):
                if n > 1 and "EXIST" in test and s != "NULL" and want == succ and i:
                    continue
                e = dict(env)
                for q, v in env.items():
                    t = text(v)
                    if t is not None and re.match(r"@v\d$", t):
                        k = int(t[2])
                        good = next(c for c in cases[test] if c[2] == succ and c[0] != "NULL")
                        e[q] = ("s", s if k == i or n == 1 else ("NULL" if "NULL_OR" in test else good[0]))
                judge_check(e, want, "value %d = %s%s" % (i + 1, s, "" if ex is None else (" existing" if ex else " not existing")), exists=ex)


def check(ctx):
    P = ctx.prog
    regs = registrations(ctx, P)
    rec = roots(P)
    sk = skeletons(P)
    compare(ctx, P, regs, sk)
    places(ctx, P, regs, rec)
    kept(ctx, P, regs, rec)
    demanded(ctx, P)
    tables(ctx, P)
    options(ctx, P)
    handed(ctx, P, regs, rec)
    machinery(ctx, P)
    for f in P.functions:
        if os.path.basename(f.file).startswith("param-"):
            for L, d, name, ns, why in flags.flags(f):
                ctx.judge(why is None, "reject", "%s:%s" % (f.name, name), ns[0].where(),
                          "%s stands for all values of a list, but is %s: only the last one counts" % (name, why))
    ctx.floor("both", 350)
