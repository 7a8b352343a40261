"""P18: dates keep their meaning, and exactly the requested period is processed.

The conversions between the parts of a date are value numbered to pieces (conditions, result); the pieces are compared
with the calendar of 365 days over their whole domain. What sets the parts of a date is value numbered with the
conversions as terms, and the parts must be conversions of the same day. The list of images, the table of days of
year, the number of time steps and windows are value numbered and compared with the definition of the period."""
import itertools
import time
from fractions import Fraction

from algebra import Alg, Rat, guard, PURE, FLOAT
from effects import ASSIGN
from p17 import Loop, Stats, subst

ASSUMPTIONS = [
    "The calendar of the program has 365 days: February 29 and March 1 are the same day.",
    "Dates in file names are found as P12 and P13 say; the tiles to process are judged by P10.",
    "mktime and localtime normalise dates as documented.",
]

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
DAYS = range(1, 366)


def month(doy):
    return next(m for m in range(1, 13) if doy <= CUM[m])


def mday(doy):
    return doy - CUM[month(doy) - 1]


def doy(m, d):
    if not 1 <= m <= 12:
        raise IndexError(m)
    return CUM[m - 1] + d


def week(n):
    return min((n + 6) // 7, 52)


MD = [(month(n), mday(n)) for n in DAYS]
YEARS = list(range(1900, 2101))
CE = [(y, n) for y in YEARS for n in DAYS]

# function -> domain of its inputs (tuples), expected result, expected outputs (by parameter position)
CONV = {
    "doy2md": ([(n,) for n in DAYS], None, {1: lambda n: month(n), 2: lambda n: mday(n)}),
    "doy2m": ([(n,) for n in DAYS], lambda n: month(n), {}),
    "doy2d": ([(n,) for n in DAYS], lambda n: mday(n), {}),
    "md2doy": (MD, lambda m, d: doy(m, d), {}),
    "doy2week": ([(n,) for n in DAYS], lambda n: week(n), {}),
    "week2doy": ([(w,) for w in range(1, 53)], lambda w: 7 * w - 6, {}),
    "doy2quarter": ([(n,) for n in DAYS], lambda n: (month(n) + 2) // 3, {}),
    "m2quarter": ([(m,) for m in range(1, 13)], lambda m: (m + 2) // 3, {}),
    "quarter2doy": ([(q,) for q in range(1, 5)], lambda q: CUM[3 * q - 3] + 1, {}),
    "date2ce": ([(y, m, d) for y in (1900, 1999, 2000, 2024, 2100) for m, d in MD], lambda y, m, d: 365 * y + doy(m, d), {}),
    "doy2ce": ([(n, y) for y in (1900, 1999, 2000, 2024, 2100) for n in DAYS], lambda n, y: 365 * y + n, {}),
    "ce2date": ([(365 * y + n,) for y, n in CE], None, {1: lambda c: (c - 1) // 365, 2: lambda c: month((c - 1) % 365 + 1), 3: lambda c: mday((c - 1) % 365 + 1)}),
    "ce2doy": ([(365 * y + n,) for y, n in CE], None, {1: lambda c: (c - 1) % 365 + 1, 2: lambda c: (c - 1) // 365}),
    "ce2year": ([(365 * y + n,) for y, n in CE], lambda c: (c - 1) // 365, {}),
}
PARTS = ("year", "month", "day", "doy", "week", "quarter", "ce")


# -- terms as Python ------------------------------------------------------------------------------------
class Unclear(Exception):
    pass


def code(r, names):
    def term(a):
        if isinstance(a, str):
            if a not in names:
                raise Unclear(a)
            return names[a]
        n, x = a[0], [code(y, names) for y in a[1:]]
        if n == "trunc":
            return "int(%s)" % x[0]
        if n == "idiv":
            return "int((%s)/(%s))" % tuple(x)
        if n in ("ceil", "floor", "sqrt"):
            return "math.%s(%s)" % (n, x[0])
        if n in ("min", "max", "abs"):
            return "%s(%s)" % (n, ", ".join(x))
        if n == "round":
            return "math.floor(%s+0.5)" % x[0]
        if n.startswith("D:"):
            return "D[%r](%s)" % (n, ", ".join(x))
        raise Unclear(n)

    def poly(p):
        out = []
        for m, c in p.items():
            f = [term(a) + ("**%d" % e if e != 1 else "") for a, e in m]
            k = str(int(c)) if c.denominator == 1 else "(%d/%d)" % (c.numerator, c.denominator)
            out.append("*".join((["(%s)" % k] if k != "1" or not f else []) + f))
        return "(%s)" % ("+".join(out) or "0")

    n, d = poly(r.n), poly(r.d)
    return n if d in ("(1)", "((1))") else "(%s/%s)" % (n, d)


def logic(gs, names):
    out = []
    for g in gs:
        if not isinstance(g, tuple):
            raise Unclear(str(g))
        out.append("%s %s 0" % (code(g[0], names), g[1]))
    return " and ".join(out) or "True"


def function(text, args):
    import math
    return eval("lambda %s: %s" % (", ".join(args), text), {"math": math, "D": ORACLE})


ORACLE = {}
for _n, (_d, _r, _o) in CONV.items():
    if _r is not None:
        ORACLE["D:" + _n] = _r
    for _i, _f in _o.items():
        ORACLE["D:%s.%d" % (_n, _i)] = _f


# -- the engine ------------------------------------------------------------------------------------------
class Cal(Alg):
    """known: conversions that stay terms."""
    def __init__(self, P, inline, known=()):
        super().__init__(P, inline)
        self.known_conv = set(known)
        self.limit = 4000
        self.deadline = time.process_time() + 60

    def call(self, c, env):
        n = c.callee
        if n in self.known_conv:
            dom, ret, outs = CONV[n]
            a = [self.val(x, env) for x in c.args]
            k = [self.rat(x) for i, x in enumerate(a) if i not in outs]
            v = None
            if None not in k:
                if ret is not None:
                    v = self.plain(self.conv("D:" + n, k))
                for i in outs:
                    if i < len(a) and isinstance(a[i], tuple) and a[i][0] == "a":
                        self.store(a[i][1], self.plain(self.conv("D:%s.%d" % (n, i), k)), env)
            else:
                for i in outs:
                    if i < len(a) and isinstance(a[i], tuple) and a[i][0] == "a":
                        self.store(a[i][1], None, env)
            return [(env, v)]
        if n in ("localtime", "gmtime", "localtime_r", "gmtime_r"):
            return [(env, ("a", ("@tm", "^")))]
        if n in PURE:
            a = [self.rat(self.val(x, env)) for x in c.args]
            if n in ("ceil", "floor") and a[0] is not None and a[0].value() is not None:
                import math
                return [(env, int(getattr(math, n)(a[0].value())))]
        return super().call(c, env)

    @staticmethod
    def conv(n, k):
        v = [x.value() for x in k]
        if None not in v and all(x.denominator == 1 for x in v):
            try:
                return Rat.const(ORACLE[n](*[int(x) for x in v]))
            except (IndexError, StopIteration):
                pass
        if n == "D:doy2ce":
            return k[0] + k[1] * Rat.const(365)
        if n == "D:date2ce":
            return Cal.conv("D:md2doy", k[1:]) + k[0] * Rat.const(365)
        return Rat.atom((n,) + tuple(k))

    def switch(self, cfg, blk, s):
        v = self.val(blk.cond, s)
        if not isinstance(v, Rat):
            return super().switch(cfg, blk, s)
        out, default, rest = [], None, dict(s)
        for x in blk.succ:
            if x < 0:
                continue
            lab = cfg.b[x].label
            if lab is not None and lab.k == "case" and lab.c[0] is not None:
                cv = self.rat(self.val(lab.c[0], s))
                if cv is None:
                    out.append((x, dict(s)))
                    continue
                e = dict(s)
                e[("G",)] = e.get(("G",), frozenset()) | {guard(v, "==", cv)}
                rest[("G",)] = rest.get(("G",), frozenset()) | {guard(v, "!=", cv)}
                out.append((x, e))
            else:
                default = x
        if default is not None:
            out.append((default, rest))
        return out

    def known(self, g, env):
        """Also by bounds on one and the same term."""
        v = super().known(g, env)
        if v is not None or g[1] not in ("<", "<="):
            return v
        for h in env.get(("G",), ()):
            if isinstance(h, tuple) and isinstance(h[0], Rat) and h[1] in ("<", "<=", "=="):
                for s in ((1, -1) if h[1] == "==" else (1,)):
                    d = (g[0] - h[0] * Rat.const(s)).value()
                    if d is not None and (d < 0 or d == 0 and (g[1] == "<=" or h[1] == "<")):
                        return 1                    # g = h + d, h <= 0
                    d = (g[0] + h[0] * Rat.const(s)).value()
                    if d is not None and (d > 0 or d == 0 and (g[1] == "<" or h[1] == "<")):
                        return 0                    # g = d - h
        return None


def start(A, f):
    env = {}
    A.stack.append(f)
    for nm, d, t in f.params:
        k = ("%s#%d" % (nm, d), len(A.stack))
        env[k] = ("a", ("@" + nm, "^")) if t.kind == "ptr" else Rat.atom("@" + nm)
    return env


def summary(P, f, known=()):
    files = {f.file}
    A = Cal(P, lambda g: g.file in files and g.name not in known, known)
    env = start(A, f)
    out = A.run(f, env)
    A.stack.pop()
    return A, out


def conversions(ctx):
    P = ctx.prog
    for n, (dom, ret, outs) in sorted(CONV.items()):
        fs = P.by_name.get(n, [])
        if len(fs) != 1 or len(fs[0].params) != len(dom[0]) + len(outs):
            ctx.undecided("conversion", n, "not defined once with the expected parameters")
            continue
        f = fs[0]
        try:
            A, pieces = summary(P, f, known=[k for k in CONV if k != n and k in P.by_name])
        except OverflowError:
            ctx.undecided("conversion", n, "too many paths")
            continue
        ins = [p[0] for i, p in enumerate(f.params) if i not in outs]
        args = ["x%d" % i for i in range(len(ins))]
        names = {"@" + k: a for k, a in zip(ins, args)}
        targets = ([("result", None, ret)] if ret is not None else []) + [(f.params[i][0], i, g) for i, g in outs.items()]
        try:
            conds = [function(logic(e.get(("G",), ()), names), args) for e, _ in pieces]
            values = []
            for e, v in pieces:
                row = []
                for what, i, g in targets:
                    x = v if i is None else next((e[k] for k in (("@" + what, "^", "[0]"), ("@" + what, "^")) if k in e), None)
                    x = A.rat(x)
                    row.append(function(code(x, names), args) if x is not None else None)
                values.append(row)
        except Unclear as u:
            ctx.undecided("conversion", n, "depends on %s" % u)
            continue
        isint = f.t.canon not in FLOAT if getattr(f, "t", None) is not None else True
        bad = {}
        for x in dom:
            hit = [i for i, c in enumerate(conds) if c(*x)]
            for k, (what, _, g) in enumerate(targets):
                for i in hit:
                    v = values[i][k]
                    if v is None:
                        bad.setdefault(what, (x, "unknown", None))
                    elif v(*x) != g(*x):
                        bad.setdefault(what, (x, v(*x), g(*x)))
                if not hit:
                    bad.setdefault(what, (x, "unknown", None))
        for what, _, _ in targets:
            x, v, w = bad.get(what, (None, None, None))
            if x is not None and w is None:
                ctx.undecided("conversion", "%s:%s" % (n, what), "not followed for %s" % (x,))
            else:
                ctx.judge(x is None, "conversion", "%s:%s" % (n, what), f.body.where(),
                          "%s(%s) gives %s %s, the calendar says %s" % (n, ", ".join(map(str, x or ())), what, v, w))


# -- parts of a date --------------------------------------------------------------------------------------
def simple(r):
    """Conversions of conversions back."""
    def term(a):
        if isinstance(a, tuple) and a[0].startswith("D:"):
            x = [simple(y) for y in a[1:]]
            n = a[0]

            def inner(y, m):
                if len(y.n) == 1 and y.value() is None and len(y.d) == 1 and () in y.d:
                    (mo, c), = y.n.items()
                    if c == 1 and len(mo) == 1 and mo[0][1] == 1 and isinstance(mo[0][0], tuple) and mo[0][0][0] in m:
                        return mo[0][0]
                return None
            if n == "D:md2doy":
                i, j = inner(x[0], ("D:doy2md.1", "D:doy2m")), inner(x[1], ("D:doy2md.2", "D:doy2d"))
                if i and j and i[1].same(j[1]):
                    return i[1]
                i, j = inner(x[0], ("D:ce2date.2",)), inner(x[1], ("D:ce2date.3",))
                if i and j and i[1].same(j[1]):
                    return Rat.atom(("D:ce2doy.1", i[1]))
            n = {"D:doy2md.1": "D:doy2m", "D:doy2md.2": "D:doy2d", "D:ce2date.1": "D:ce2year", "D:ce2doy.2": "D:ce2year"}.get(n, n)
            if n == "D:doy2quarter":
                i = inner(x[0], ("D:md2doy",))
                return Cal.conv("D:m2quarter", [i[1] if i else Rat.atom(("D:doy2m", x[0]))])
            if n == "D:doy2m":
                i = inner(x[0], ("D:md2doy",))
                if i:
                    return i[1]
            if n == "D:doy2d":
                i = inner(x[0], ("D:md2doy",))
                if i:
                    return i[2]
            if n == "D:ce2date.2":
                return simple(Rat.atom(("D:doy2m", Rat.atom(("D:ce2doy.1", x[0])))))
            if n == "D:ce2date.3":
                return simple(Rat.atom(("D:doy2d", Rat.atom(("D:ce2doy.1", x[0])))))
            return Cal.conv(n, x) if n in ORACLE else Rat.atom((n,) + tuple(x))
        return Rat.atom(a)

    def poly(p):
        out = Rat({})
        for m, c in p.items():
            t = Rat({(): c})
            for a, e in m:
                for _ in range(e):
                    t = t * term(a)
            out = out + t
        return out

    r = poly(r.n) / poly(r.d)
    # 365 * year(x) + day of year(x) is x
    for m, c in list(r.n.items()):
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "D:ce2year" and c == 365:
            x = m[0][0][1]
            k = ((("D:ce2doy.1", x), 1),)
            if r.n.get(k) == 1:
                r = r - Rat({m: c}) - Rat({k: Fraction(1)}) + x
    return r


def agree(parts):
    """Parts that do not belong to the day given by year, month and day: [(part, is, should be)]."""
    D = lambda n, *a: simple(Rat.atom(("D:" + n,) + a))
    p = {k: simple(v) for k, v in parts.items() if v is not None}
    out = []
    n = None
    if "month" in p and "day" in p:
        n = simple(Cal.conv("D:md2doy", [p["month"], p["day"]]))
    if n is None:
        return out
    want = {"doy": n, "week": simple(Cal.conv("D:doy2week", [n])), "quarter": simple(Cal.conv("D:m2quarter", [p["month"]]))}
    if "year" in p:
        want["ce"] = simple(n + p["year"] * Rat.const(365))
    for k, w in want.items():
        if k in p:
            v = p[k]
            if not v.same(w):
                out.append((k, v, w))
    return out


def isdate(t):
    return t is not None and "date_t" in ("%s %s" % (t.sp, t.canon)).replace("*", " ").split()


def setters(ctx):
    """The functions of the calendar that set a date through a pointer."""
    P = ctx.prog
    known = [k for k in CONV if k in P.by_name]
    for f in P.functions:
        if not f.rel.startswith("src/modules") or not f.params:
            continue
        for i, (nm, d, t) in enumerate(f.params):
            if t.kind != "ptr" or not isdate(t.el):
                continue
            if not f.file.endswith(("date-cl.c", "datesys-cl.c")) or f.name in ("print_date", "init_date"):
                continue
            files = {f.file}
            A = Cal(P, lambda g: g.file.endswith(("date-cl.c", "datesys-cl.c")) and g.name not in CONV, known)
            env = start(A, f)
            try:
                out = A.run(f, env)
            except OverflowError:
                ctx.undecided("parts", f.name, "too many paths")
                continue
            A.stack.pop()
            bases = {k[:-1] for e, _ in out for k in e if isinstance(k[0], str) and k[0] == "@" + nm and k[-1] in PARTS}
            for base in bases:
                for e, _ in out:
                    new = {k: e.get(base + (k,)) for k in PARTS}
                    old = {k: Rat.atom(A.name(base + (k,))) for k in PARTS}
                    if not any(v is not None for v in new.values()):
                        continue
                    if all(v is not None and (A.rat(v) is not None and A.rat(v).value() == 0) for v in new.values()):
                        continue              # emptied
                    whole(ctx, f, nm, new, old, A)


def whole(ctx, f, nm, new, old, A):
    """Parts that were set now; the others are still those of the previous day."""
    rat = {k: A.rat(v) if v is not None else None for k, v in new.items()}
    if all(v is None or v.value() is None and set(map(str, v.atoms())) and all("@" in str(a) and str(a).endswith("." + k) for a in v.atoms())
           for k, v in rat.items()) and all(v is not None for v in rat.values()):
        # a copy of another date: every part from the part of its own name
        ctx.ok("parts", "%s:%s" % (f.name, nm))
        return
    # the previous date was a day: its parts are conversions of one another
    y, m, d = old["year"], old["month"], old["day"]
    n = Cal.conv("D:md2doy", [m, d])
    before = {"year": y, "month": m, "day": d, "doy": n, "week": Cal.conv("D:doy2week", [n]),
              "quarter": Cal.conv("D:m2quarter", [m]), "ce": n + y * Rat.const(365)}
    back = {str(old["doy"]): n, str(old["ce"]): before["ce"], str(old["week"]): before["week"], str(old["quarter"]): before["quarter"]}
    now = {}
    for k in PARTS:
        if new[k] is None:
            now[k] = before[k]
        elif rat[k] is None:
            ctx.undecided("parts", "%s:%s.%s" % (f.name, nm, k), "value not followed")
            now[k] = None
        else:
            v = subst(rat[k], back)
            now[k] = v if v is not None else rat[k]
    bad = {k: (v, w) for k, v, w in agree(now)}
    for k in ("doy", "week", "quarter", "ce"):
        if now[k] is None or now["month"] is None or now["day"] is None:
            continue
        v, w = bad.get(k, (None, None))
        ctx.judge(k not in bad, "parts", "%s:%s.%s" % (f.name, nm, k), f.body.where(),
                  "%s leaves %s of the date as %s, which is not of the day it sets (%s)" % (f.name, k, v, w))


def direct(ctx):
    """Dates whose parts are set one by one, anywhere else."""
    P = ctx.prog
    known = [k for k in CONV if k in P.by_name]
    for f in P.functions:
        if not f.rel.startswith("src/") or f._rawcfg is None or f.file.endswith(("date-cl.c", "datesys-cl.c")):
            continue
        if not any(n.k == "mem" and n.name in ("month", "day") for n in f.walk()):
            continue
        for b, blk in f.cfg.b.items() if isinstance(f.cfg.b, dict) else enumerate(f.cfg.b):
            hits = {}
            for e in blk.els:
                if e.k == "bin" and e.op == "=":
                    t = e.c[0].strip()
                    if t.k == "mem" and t.name in PARTS and t.c[0].strip().t is not None:
                        r = t.c[0].strip().t
                        r = r.el if r.kind == "ptr" else r
                        if isdate(r):
                            hits.setdefault(t.c[0].strip().key, {})[t.name] = (e, t)
            for key, w in hits.items():
                if not {"month", "day"} <= set(w) or not {"doy", "week", "ce", "quarter"} & set(w):
                    continue
                block(ctx, P, f, blk, key, w, known)


def block(ctx, P, f, blk, key, w, known):
    A = Cal(P, lambda g: False, known)
    env = {}
    A.stack.append(f)
    d = len(A.stack)
    for nm, i, t in f.params:
        env[("%s#%d" % (nm, i), d)] = ("a", ("@" + nm, "^")) if t.kind == "ptr" else Rat.atom("@" + nm)
    base = next(iter(w.values()))[1].c[0].strip()
    for e in blk.els:
        for n in e.find("ref"):
            if n.t is not None and n.t.is_num and n.a.get("dk") in ("var", "local", None):
                p = A.loc(n, env)
                if p is not None and p not in env and not str(p[0]).startswith("g:"):
                    env[p] = Rat.atom("@@" + n.name)
    n = 0
    for e in blk.els:
        if e.k == "call" and e.callee in ("atoi", "strtol"):
            n += 1
            env[("T", e.id, d)] = Rat.atom("@text%d" % n)
            continue
        if e.k == "call" and e.callee not in CONV:
            continue
        out = A.element(e, env)
        if out:
            env = out[0]
    now, miss = {}, []
    for k in PARTS:
        if k in w:
            p = A.loc(w[k][1], env)
            v = A.rat(env.get(p)) if p is not None else None
            now[k] = v
            if v is None:
                ctx.undecided("parts", "%s:%s" % (f.name, k), "value not followed")
        else:
            miss.append(k)
    if now.get("month") is None or now.get("day") is None:
        return
    bad = {k: (v, x) for k, v, x in agree(now)}
    for k in ("doy", "week", "quarter", "ce"):
        where = next(iter(w.values()))[0].where()
        if k in miss or k == "ce" and "year" in miss:
            ctx.judge(k not in miss, "parts", "%s:%s" % (f.name, k), where, "%s of the date is not set together with month and day" % k)
        elif now[k] is not None:
            v, x = bad.get(k, (None, None))
            ctx.judge(k not in bad, "parts", "%s:%s" % (f.name, k), w[k][0].where(), "%s of the date is set to %s, which is not of its day (%s)" % (k, v, x))


# -- the list of images -------------------------------------------------------------------------------------
class Listing(Cal):
    """Follows a loop over file names; what is found in a name is a term."""
    def __init__(self, P, inline):
        super().__init__(P, inline)
        self.taken = []
        self.left = []
        self.invariant = {}
        self.opened = {}
        self.heap = True

    def txt(self, e, env):
        v = self.val(e, env)
        s = self.string(v, env) if isinstance(v, tuple) else None
        if s is not None:
            return '"%s"' % s
        if isinstance(v, tuple) and v[0] == "a":
            return self.name(tuple(x for x in v[1] if isinstance(x, str)))
        return None

    def call(self, c, env):
        n = c.callee
        if n in ("strstr", "strcmp", "strncmp", "strcasecmp") and len(c.args) >= 2:
            a, b = self.txt(c.args[0], env), self.txt(c.args[1], env)
            if a is None or b is None:
                a, b = a or c.args[0].where(), b or c.args[1].where()
            return [(env, Rat.atom("@%s(%s, %s)" % (n, a, b)))]
        if n == "date_from_string":
            v = self.val(c.args[0], env)
            if isinstance(v, tuple) and v[0] == "a":
                p = v[1]
                for k in PARTS:
                    self.store(p + (k,), Rat.atom("@date." + k), env)
            return [(env, Rat.atom("@dated"))]
        if n in ("copy_string", "strcpy", "strncpy"):
            self.taken.append((c, env.get(("G",), frozenset())))
            env[("taken",)] = 1
            return [(env, None)]
        if n in ("extension",):
            return [(env, None)]
        return super().call(c, env)

    def havoc(self, f, h, env):
        keep = {p: env.get(p) for p in self.invariant.get((f.name, h), ()) if p in env}
        old = dict(env)
        env = super().havoc(f, h, env)
        for p, v in keep.items():
            env[p] = v
        g = env.get(("G",), frozenset())
        env[("G",)] = frozenset(x for x in g if not (isinstance(x, tuple) and any("~%d" % h in str(a) for a in x[0].atoms())))
        return env

    def enter(self, f, h, before, env):
        env.pop(("taken",), None)
        env[("H", (f.name, h))] = env.get(("G",), frozenset())
        self.opened.setdefault((f.name, h), {}).update({p: v for p, v in env.items() if isinstance(p[0], str) and isinstance(v, Rat) and str(v) != str(before.get(p))})

    def again(self, f, h, env):
        self.left.append(((f.name, h), env))


def listing(ctx):
    P = ctx.prog
    for f in P.functions:
        if not f.rel.startswith("src/modules/higher-level") or f._rawcfg is None:
            continue
        if not any(True for _ in f.calls("date_from_string")):
            continue
        near = [f] + [g for c in f.walk() if c.k == "call" for g in P.resolve(c) if g.file == f.file and g is not f]
        if not any(n.k == "mem" and n.name in ("date_doys", "date_range", "date_ignore_lnd07") for g in near for n in g.walk()):
            continue
        images(ctx, P, f)


def images(ctx, P, f):
    keep = {}
    for _ in range(2):
        A = Listing(P, lambda g: g.file == f.file and g.name != "date_from_string")
        A.invariant = keep
        env = start(A, f)
        try:
            A.run(f, env)
        except OverflowError:
            ctx.undecided("images", f.name, "too many paths")
            return
        A.stack.pop()
        new = {}
        for lk, opened in A.opened.items():
            backs = [e for k, e in A.left if k == lk]
            new[lk] = [p for p, v in opened.items() if backs and all(e.get(p) == v for e in backs)]
        keep = {k: set(v) | set(keep.get(k, ())) for k, v in new.items()}
    # every requested sensor is searched for
    for n in f.find("idx"):
        b, i = n.c[0].strip(), n.c[1].strip()
        if b.k != "mem" or b.name != "sensor" or i.k != "ref":
            continue
        F = next((a for a in n.up() if a.k == "for" and a.c[0] is not None and any(x.k in ("var", "ref") and x.a.get("d") == i.a.get("d") for x in a.c[0].walk())), None)
        if F is None or F.c[1] is None:
            continue
        lo = [x.c[-1].strip().v for x in F.c[0].walk() if (x.k == "var" and x.c or x.k == "bin" and x.op == "=") and (x.a.get("d") if x.k == "var" else x.c[0].strip().a.get("d")) == i.a.get("d")]
        up = [x.c[1].strip() for x in F.c[1].walk() if x.k == "bin" and x.op in ("<", "!=") and x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == i.a.get("d")]
        if len(lo) == 1 and len(up) == 1:
            ctx.judge(lo[0] == 0 and not (up[0].k == "bin" and up[0].op == "-"), "images", f.name + ":sensors", F.where(), "not all requested sensors are searched for")
    call = next(iter(f.calls("date_from_string")))
    inner = [(len(bl), h) for h, bl in A.loops(f).items() if any(e is call for b in bl for e in f.cfg.b[b].els)]
    if not inner or not A.taken:
        ctx.undecided("images", f.name, "no loop over file names, or nothing taken from it")
        return
    lk = (f.name, min(inner)[1])
    phl = next((p[0] for p in f.params if "par_hl_t" in str(p[2].sp)), "phl")
    ce, zero = Rat.atom("@date.ce"), Rat({})
    rng = lambda i: Rat.atom("@%s.date_range[%d].ce" % (phl, i))
    dates = {
        "a day of the requested period or later": guard(rng(0), "<=", ce),
        "a day of the requested period or earlier": guard(ce, "<=", rng(1)),
        "a requested day of the year": guard(Rat.atom("@%s.date_doys[@date.doy]" % phl), "!=", zero),
    }
    late = guard(rng(2) if False else Rat.atom("@%s.date_ignore_lnd07.ce" % phl), "<", ce)

    def texts(g, what, op):
        return any(isinstance(x, tuple) and x[1] == op and any(isinstance(a, str) and what(a) for a in x[0].atoms()) for x in g)
    product = lambda a: a.startswith("@strstr(") and ".main_product)" in a
    sensor = lambda a: a.startswith("@strstr(") and ".sensor[" in a
    seven = lambda a: a.startswith("@strstr(") and '"LND07")' in a
    ext = lambda a: a.startswith("@strcmp(") and '".' in a

    def judge(good, g, key, where, msg):
        old = next((e.get(("H", lk)) for k, e in A.left if k == lk and ("H", lk) in e), frozenset())
        if not good and any(not isinstance(x, tuple) for x in g - (old or frozenset())):
            ctx.undecided("images", key, "a condition is not followed")
        else:
            ctx.judge(good, "images", key, where, msg)

    for c, g in A.taken:
        env = {("G",): g}
        for what, w in dates.items():
            judge(A.known(w, env) == 1, g, "%s:%s" % (f.name, what), c.where(), "an image is taken although its date need not be %s" % what)
        judge(texts(g, product, "!="), g, f.name + ":product", c.where(), "an image is taken although it need not be the requested product")
        judge(texts(g, sensor, "!="), g, f.name + ":sensor", c.where(), "an image is taken although it need not be of a requested sensor")
        judge(texts(g, ext, "=="), g, f.name + ":extension", c.where(), "a file is taken whatever its extension")
        judge(texts(g, seven, "==") or A.known(late, env) == 0, g, f.name + ":LND07", c.where(), "images of Landsat 7 are taken after the date from which on they are to be ignored")
    for k, e in A.left:
        if k != lk or e.get(("taken",)):
            continue
        g = e.get(("G",), frozenset())
        env = {("G",): g}
        why = any(A.known(w, env) == 0 for w in dates.values()) or texts(g, product, "==") \
            or texts(g, ext, "!=") and not texts(g, ext, "==") or texts(g, seven, "!=") and A.known(late, env) == 1 or not texts(g, sensor, "!=")
        judge(why, g, f.name + ":lost", f.body.where(), "an image of the requested product and sensor and of the requested period is left out (where %s)"
              % ", ".join(sorted("%s %s 0" % x for x in g if isinstance(x, tuple) and "date" in str(x[0])))[:300])


# -- days of the year, time steps, windows --------------------------------------------------------------------
TABLES = {"date_doys": 365, "date_weeks": 52, "date_months": 12, "date_quarters": 4}
COUNTS = {"nd": "date_doys", "nw": "date_weeks", "nm": "date_months", "nq": "date_quarters"}
OF = {"date_weeks": week, "date_months": month, "date_quarters": lambda n: (month(n) + 2) // 3}
PAIRS = [(a, b) for a in (1, 2, 58, 59, 60, 61, 200, 364, 365) for b in (1, 2, 58, 59, 60, 61, 200, 364, 365)]


class Days(Stats):
    def __init__(self, P, f):
        super().__init__(P, f)
        self.known_conv = {k for k in CONV if k in P.by_name}
        self.f = f
        mark = {b for b in self.blocks(f) for e in f.cfg.b[b].els
                if e.k in ("bin", "un") and any(n.k == "mem" and (n.name in TABLES or n.name in COUNTS or n.name == "ny") for n in (e.c[0].walk() if e.c else ()))
                and (e.k == "un" or e.op in ASSIGN)}
        self.reach = {}
        self.inside = {b for bl in self.loops(f).values() if bl & mark for b in bl}
        for b in self.blocks(f):
            seen, work = set(), [b]
            while work:
                x = work.pop()
                if x in seen or x < 0:
                    continue
                seen.add(x)
                work += f.cfg.b[x].succ
            self.reach[b] = frozenset(seen & mark)

    @staticmethod
    def blocks(f):
        return list(f.cfg.b) if isinstance(f.cfg.b, dict) else range(len(f.cfg.b))

    def call(self, c, env):
        if c.callee in self.known_conv:
            return Cal.call(self, c, env)
        return Alg.call(self, c, env)

    conv = staticmethod(Cal.conv)

    def choose(self, c, env):
        if self.stack[-1] is not self.f:
            return None
        b = self.at
        s = self.f.cfg.b[b].succ
        x, y = (self.reach.get(s[0], frozenset()), self.reach.get(s[1], frozenset()))
        if x and not y:
            return True
        if y and not x or x == y and b not in self.inside:
            return False
        return None

    def ahead(self, cfg, b, env):
        return None if self.stack[-1] is self.f else super().ahead(cfg, b, env)

    def state(self, cfg, b, env, counted):
        self.at = b
        if b in self.reach and not self.reach[b] and self.stack[-1] is self.f:
            return 0
        return super().state(cfg, b, env, counted)


def text_index(t, names):
    import re

    for n in sorted(names, key=len, reverse=True):
        t = t.replace(n, names[n])
    if re.search(r"[@~#]", t):
        raise Unclear(t)
    return t


def period(ctx):
    P = ctx.prog
    for f in P.functions:
        if not f.rel.startswith("src/modules/higher-level") or f._rawcfg is None:
            continue
        if not any(e.k == "bin" and e.op == "=" and any(n.k == "mem" and n.name == "date_doys" for n in e.c[0].walk()) for e in f.walk() if e.k == "bin"):
            continue
        days(ctx, P, f)


def days(ctx, P, f):
    A = Days(P, f)
    A.deadline = time.process_time() + 120
    A.limit = 6000
    env = start(A, f)
    try:
        A.run(f, env)
    except OverflowError:
        ctx.undecided("days", f.name, "too many paths")
        return
    A.stack.pop()
    rngs = {}
    loops = {lk for lk, _ in A.atom.values()}
    for lk in loops:
        if lk in A.entered:
            L = Loop(A, lk)
            if L.counter is not None:
                rngs[L.counter] = (L, L.ranges())
    events = {}
    root = None
    for e, p, v, g in A.stores:
        n = A.name(p[2:3]) if len(p) > 2 else ""
        if n in TABLES or n in COUNTS or n == "ny":
            root = p[0]
            events.setdefault(n, []).append((e, p, v, g))
    if root is None:
        return
    base = {"%s.doy_range[0]" % root: "a", "%s.doy_range[1]" % root: "b"}

    def counters(*texts):
        return sorted({c for c in rngs for t in texts if c in t})

    def compiled(e, p, g):
        """[(range of the counter, condition, index)] of a store, as functions of the first and last day, tables and counter."""
        idx = p[3] if len(p) > 3 else "[0]"
        mine = [x for x in g if isinstance(x, tuple) and any(k in str(x[0]) for k in list(base) + list(rngs))]
        cs = counters(idx, *[str(x[0]) for x in mine])
        if len(cs) != 1:
            raise Unclear("loop of " + idx)
        names = dict(base)
        names[cs[0]] = "d"
        tabs = {"%s.%s[%s]" % (root, t, cs[0]): "T[%r][d]" % t for t in TABLES}
        names.update(tabs)
        conds = " and ".join("%s %s 0" % (code(x[0], names), x[1]) for x in mine) or "True"
        i = idx[1:-1]
        if i == cs[0]:
            i = "d"
        else:
            import re

            i = re.sub(r"\bD:(\w+)", r"D['D:\1']", text_index(i.replace("D:", "D%"), {cs[0]: "d", **base}).replace("D%", "D:"))
        out = []
        for lo, hi in rngs[cs[0]][1]:
            t = lambda x: text_index(x, dict(base))
            out.append((function("range(int(%s), int(%s))" % (t(lo), t(hi)), ["a", "b"]), function(conds, ["a", "b", "T", "d"]), function(i, ["a", "b", "d"])))
        return out

    try:
        todo = [(t, k) for t in ("date_doys", "date_weeks", "date_months", "date_quarters") for x in events.get(t, []) if A.rat(x[2]) is not None and A.rat(x[2]).value() for k in compiled(x[0], x[1], x[3])]
        wrong = {}
        for a, b in PAIRS:
            T = {t: [0] * 1000 for t in TABLES}
            for t in TABLES:
                for t2, (r, c, i) in todo:
                    if t2 == t:
                        for d in r(a, b):
                            if 0 <= d < 1000 and c(a, b, T, d):
                                T[t][i(a, b, d)] = 1
            want = {n for n in DAYS if (a <= n <= b if a <= b else n <= b or n >= a)}
            for t in TABLES:
                w = want if t == "date_doys" else {OF[t](n) for n in want}
                got = {i for i, v in enumerate(T[t]) if v}
                if got != w:
                    wrong.setdefault(t, (a, b, sorted(got - w)[:3], sorted(w - got)[:3]))
        for t in TABLES:
            if not events.get(t):
                ctx.undecided("days", t, "never set here")
                continue
            a, b, more, less = wrong.get(t, (None,) * 4)
            ctx.judge(t not in wrong, "days", "%s:%s" % (f.name, t), events[t][0][0].where(),
                      "for the days of year %s to %s, %s wrongly has %s and lacks %s" % (a, b, t, more, less))
    except (Unclear, ZeroDivisionError, IndexError, ValueError, TypeError, SyntaxError, KeyError) as u:
        ctx.undecided("days", f.name, "not followed: %s" % u)
    for n, t in COUNTS.items():
        for e, p, v, g in events.get(n, []):
            v = A.rat(v)
            cs = [c for c in rngs if v is not None and c in str(v) or any(isinstance(x, tuple) and "%s[%s]" % (t, c) in str(x[0]) for x in g)]
            if v is None or len(cs) != 1:
                if v is None or v.value() != 0:
                    ctx.undecided("days", "%s:%s" % (f.name, n), "not counted in one loop")
                continue
            old = Rat.atom("%s.%s" % (root, n))
            el = Rat.atom("%s.%s[%s]" % (root, t, cs[0]))
            ok = v.same(old + el) or v.same(old + Rat.const(1)) and A.known(guard(el, "!=", Rat({})), {("G",): g}) == 1
            ok = ok and rngs[cs[0]][1] == {("1", str(TABLES[t] + 1))}
            ctx.judge(ok, "days", "%s:%s" % (f.name, n), e.where(), "the number of requested %s is not counted over all of them" % t[5:])
    for e, p, v, g in events.get("ny", []):
        v = A.rat(v)
        y = lambda i: Rat.atom("%s.date_range[%d].year" % (root, i))
        if v is None:
            ctx.undecided("days", f.name + ":ny", "value not followed")
        else:
            ctx.judge(v.same(y(1) - y(0) + Rat.const(1)), "days", f.name + ":ny", e.where(), "the number of years is %s" % v)


def steps(ctx):
    """The number of interpolation steps."""
    P = ctx.prog
    for f in P.functions:
        if not f.rel.startswith("src/modules/higher-level") or f._rawcfg is None:
            continue
        for e in f.walk():
            if e.k != "bin" or e.op != "=":
                continue
            m = [n.name for n in e.c[1].find("mem")]
            if "step" not in m or m.count("ce") < 2 or "date_range" not in m:
                continue
            A = Cal(P, lambda g: False)
            env = start(A, f)
            d = len(A.stack)
            for n in e.c[1].walk():
                if n.k == "call" and n.callee in PURE:
                    env = A.call(n, env)[0][0] if False else env
            v = A.rat(deep(A, e.c[1], env))
            names = {}
            for a in (v.atoms() if v is not None else ()):
                flat(a, names)
            ats = sorted(names)
            rng = {i: next((a for a in ats if a.endswith("date_range[%d].ce" % i)), None) for i in (0, 1)}
            st = next((a for a in ats if a.endswith(".step")), None)
            if v is None or None in rng.values() or st is None or len(ats) != 3:
                ctx.undecided("steps", f.name, "number of steps not followed")
                continue
            try:
                g = function(code(v, {rng[0]: "a", rng[1]: "b", st: "s"}), ["a", "b", "s"])
            except Unclear as u:
                ctx.undecided("steps", f.name, "depends on %s" % u)
                continue
            bad = None
            for s in (1, 2, 3, 7, 8, 16, 30, 365):
                for n in range(0, 800):
                    w = n // s + 1
                    if int(g(730000, 730000 + n, s)) != w and bad is None:
                        bad = (n, s, g(730000, 730000 + n, s), w)
            ctx.judge(bad is None, "steps", f.name, e.where(), "a period of %s days in steps of %s days has %s time steps instead of %s" % ((bad[0] + 1,) + bad[1:] if bad else (0,) * 4))


def flat(a, names):
    if isinstance(a, tuple):
        for x in a[1:]:
            for b in x.atoms():
                flat(b, names)
    else:
        names[a] = 1


def deep(A, e, env):
    """The value of an expression with calls of mathematical functions in it."""
    for n in reversed(list(e.walk())):
        if n.k == "call":
            out = A.call(n, env)
            env[("T", n.id, len(A.stack))] = out[0][1]
    return A.val(e, env)


def windows(ctx):
    """Windows that walk through the months of the period."""
    P = ctx.prog
    for f in P.functions:
        if not f.rel.startswith("src/modules/higher-level") or f._rawcfg is None:
            continue
        for w in f.walk():
            if w.k not in ("while", "for", "do"):
                continue
            c = next((x for x in w.c if x is not None and x.k != "block" and sum(n.name == "date_range" for n in x.find("mem")) >= 2
                      and {"year", "month"} <= {n.name for n in x.find("mem")}), None)
            if c is None:
                continue
            A = Cal(P, lambda g: False)
            env = start(A, f)
            loc = {}
            for n in c.find("ref"):
                p = A.loc(n, env)
                if p is not None and n.t is not None and n.t.is_num:
                    env[p] = Rat.atom("@" + n.name)
                    loc["@" + n.name] = n.name
            names = {}
            for n in c.walk():
                if n.k == "bin" and n.op in ("<", ">", "<=", ">=", "==", "!="):
                    for x in n.c:
                        v = A.rat(A.val(x, env))
                        for a in (v.atoms() if v is not None else ()):
                            flat(a, names)
            ry = next((a for a in names if a.endswith("date_range[1].year")), None)
            rm = next((a for a in names if a.endswith("date_range[1].month")), None)
            other = [a for a in names if a not in (ry, rm)]
            y = next((a for a in other if "y" in a.lower()), None)
            m = next((a for a in other if a != y), None)
            if len(names) != 4 or None in (ry, rm, y, m):
                ctx.undecided("windows", f.name, "condition not followed")
                continue
            if "month" in y or "year" in m:
                y, m = m, y
            nm = {ry: "Y", rm: "M", y: "y", m: "m"}

            def cond(n):
                n = n.strip()
                if n.k == "bin" and n.op in ("&&", "||"):
                    return "(%s %s %s)" % (cond(n.c[0]), {"&&": "and", "||": "or"}[n.op], cond(n.c[1]))
                if n.k == "un" and n.op == "!":
                    return "(not %s)" % cond(n.c[0])
                g = A.guards(n, True, env)
                return "(%s)" % logic(g, nm)
            try:
                h = function(cond(c), ["y", "m", "Y", "M"])
            except Unclear as u:
                ctx.undecided("windows", f.name, "depends on %s" % u)
                continue
            bad = next(((a, b, u, v) for a in (2000, 2001, 2002) for u in (2000, 2001, 2002) for b in range(1, 13) for v in range(1, 13)
                        if bool(h(a, b, u, v)) != ((a, b) <= (u, v))), None)
            ctx.judge(bad is None, "windows", f.name, c.where(),
                      "a window starting %s-%02d is %s although the period ends %s-%02d" % ((bad[0], bad[1], "counted" if h(*bad) else "not counted", bad[2], bad[3]) if bad else (0, 0, 0, 0, 0)))


def digits(ctx):
    """Dates read from text: the digits of year, month and day."""
    P = ctx.prog
    for f in P.functions:
        if not f.rel.startswith("src/") or f._rawcfg is None:
            continue
        if not any(True for _ in f.calls("set_date")) or not any(True for _ in f.calls("strncpy")):
            continue
        got, num = {}, {}

        def buf(e):
            e = e.strip()
            return e.a.get("d") if e.k == "ref" else None

        def offset(e):
            e = e.strip()
            if e.k == "bin" and e.op == "+":
                a, b = offset(e.c[0]), e.c[1].strip().v
                return (a[0], a[1] + b) if a is not None and isinstance(b, int) else None
            if e.k == "un" and e.op == "&" and e.c[0].strip().k == "idx":
                a, b = offset(e.c[0].strip().c[0]), e.c[0].strip().c[1].strip().v
                return (a[0], a[1] + b) if a is not None and isinstance(b, int) else None
            return (e.key, 0) if e.k in ("ref", "mem") else None

        def number(e):
            e = e.strip()
            if e.k == "call" and e.callee in ("atoi", "atol", "strtol") and e.args:
                return got.get(buf(e.args[0]))
            return num.get(e.a.get("d")) if e.k == "ref" else None

        for e in (x for b in linear(f) for x in b):
            if e.k == "call" and e.callee == "strncpy" and len(e.args) == 3:
                o, n = offset(e.args[1]), e.args[2].strip().v
                if buf(e.args[0]) is not None:
                    got[buf(e.args[0])] = (o[0], o[1], n) if o is not None and isinstance(n, int) else None
            elif e.k == "bin" and e.op == "=" and e.c[0].strip().k == "ref":
                num[e.c[0].strip().a.get("d")] = number(e.c[1])
            elif e.k == "call" and e.callee == "set_date" and len(e.args) == 4:
                y, m, d = (number(x) for x in e.args[1:])
                if y is None and m is None and d is None:
                    continue
                if None in (y, m, d) or len({y[0], m[0], d[0]}) != 1:
                    ctx.undecided("digits", f.name, "the text of the parts is not followed")
                    continue
                sep = m[1] - y[1] - 4
                ok = (y[2], m[2], d[2]) == (4, 2, 2) and sep in (0, 1) and d[1] - m[1] == 2 + sep
                ctx.judge(ok, "digits", f.name, e.where(), "the date is read from %s digits at %s (year), %s at %s (month) and %s at %s (day) of the text"
                          % (y[2], y[1], m[2], m[1], d[2], d[1]))


def linear(f):
    """The elements of a function, in the order of the text."""
    els = [e for b in (f.cfg.b.values() if isinstance(f.cfg.b, dict) else f.cfg.b) for e in b.els]
    pos = {}
    for i, n in enumerate(f.walk()):
        pos[n.id] = i
    yield sorted((e for e in els if e.id in pos), key=lambda e: (-0 if False else pos[last(e)] if last(e) in pos else pos[e.id]))


def last(e):
    """An element is done when its last operand is."""
    n = e
    for n in e.walk():
        pass
    return n.id


def order(ctx):
    P = ctx.prog
    for f in P.by_name.get("date_order", []):
        if len(f.params) != 2:
            continue
        A, out = summary(P, f)
        a, b = (Rat.atom("@%s.ce" % p[0]) for p in f.params)
        for e, v in out:
            try:
                where = function(logic(e.get(("G",), ()), {str(a): "x", str(b): "y"}), ["x", "y"])
                bad = [(x, y) for x, y in ((1, 3), (1, 2), (1, 1), (2, 1), (3, 1)) if where(x, y) and (v != 0) != (x > y)]
            except (Unclear, SyntaxError, NameError):
                bad = v = None
            if not isinstance(v, int):
                ctx.undecided("order", f.name, "not followed")
            else:
                ctx.judge(not bad, "order", f.name, f.body.where(), "two dates, the first %s the second, are said to be %s order" %
                          (("before", "at", "after")[0 if not bad else (bad[0][0] >= bad[0][1]) + (bad[0][0] > bad[0][1])], "in" if v == 0 else "out of"))


TURN = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


def comparisons(c):
    """Comparisons of a condition all of which must hold: (left, operator, right)."""
    c = c.strip()
    if c.k == "bin" and c.op == "&&":
        return comparisons(c.c[0]) + comparisons(c.c[1])
    if c.k == "bin" and c.op in TURN:
        l, r = c.c[0].strip(), c.c[1].strip()
        return [(l, c.op, r), (r, TURN[c.op], l)]
    return []


def between(ctx):
    """Day counts are put into the window that starts at or before and ends behind them."""
    def bound(n):
        """(list, number) of the start of a window."""
        if n.k == "mem" and n.name == "ce" and n.c[0].strip().k == "idx":
            i = n.c[0].strip()
            x, o = i.c[1].strip(), 0
            if x.k == "bin" and x.op in "+-" and x.c[1].strip().v is not None:
                x, o = x.c[0].strip(), x.c[1].strip().v * (1 if x.op == "+" else -1)
            return (i.c[0].strip().key, x.key, o) if x.k == "ref" else None
        return None
    for f in ctx.prog.functions:
        for n in f.find("bin"):
            if n.op != "&&" or n.p is not None and n.p.k == "bin" and n.p.op == "&&":
                continue
            cs = [(l, op, bound(r)) for l, op, r in comparisons(n) if bound(r) and l.v is None]
            for l, op, b in cs:
                for l2, op2, b2 in cs:
                    if l.key == l2.key and b[:2] == b2[:2] and b2[2] == b[2] + 1 and op in (">", ">=") and op2 in ("<", "<="):
                        ctx.judge((op, op2) == (">=", "<"), "windows", "%s:between" % f.name, n.where(),
                                  "a day at the border of two windows belongs to %s of them" % ("none" if (op, op2) == (">", "<") else "the wrong one or both"))


def carry(ctx):
    """Months beyond December are months of the next year."""
    for f in ctx.prog.functions:
        for n in f.find("if"):
            c = n.c[0].strip()
            if c.k != "bin" or c.op not in (">", ">=") or c.c[1].strip().v != (12 if c.op == ">" else 13) or n.c[1] is None:
                continue
            m = c.c[0].strip()
            while m.k in ("paren", "cast") or m.k == "bin" and m.op in ASSIGN:
                m = m.c[0].strip()
            years = [x for x in n.c[1].walk() if x.k == "un" and x.op in ("++", "p++") or x.k == "bin" and x.op == "+=" and x.c[1].strip().v == 1]
            if m.k != "ref" or not years:
                continue
            mine = lambda x: x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == m.a.get("d")
            for x in n.c[1].find("bin"):
                if x.op not in ASSIGN or not mine(x):
                    continue
                r = x.c[1].strip()
                ok = x.op == "-=" and r.v == 12 or x.op == "=" and (r.v is None)
                if x.op == "=" and r.v == 1:
                    ok = not any(y.op == "+=" and y.c[1].strip().v != 1 and mine(y) for y in f.find("bin"))
                ctx.judge(ok, "windows", "%s:carry" % f.name, x.where(), "the months beyond December are not carried to the next year")


ROLES = {"doy2md": {1: "month", 2: "day"}, "md2doy": {0: "month", 1: "day"}, "set_date": {1: "year", 2: "month", 3: "day"},
         "compact_date": {0: "year", 1: "month", 2: "day"}, "set_date_month_day": {1: "month", 2: "day"}, "ymd2ce": {0: "year", 1: "month", 2: "day"}}


def roles(ctx):
    """A variable that receives a month is not used as a day, and so on."""
    for f in ctx.prog.functions:
        seen = {}
        for c in f.calls(*ROLES):
            for i, r in ROLES[c.callee].items():
                a = c.args[i].strip() if i < len(c.args) else None
                if a is not None and a.k == "un" and a.op == "&":
                    a = a.c[0].strip()
                if a is not None and a.k == "ref":
                    seen.setdefault(a.a.get("d"), {}).setdefault(r, c)
                elif a is not None and a.k == "mem" and a.name in ("year", "month", "day", "doy", "week", "quarter", "ce"):
                    ctx.judge(a.name == r, "parts", "%s:%s:%s" % (f.name, c.callee, r), c.where(), "the %s of a date is used as %s" % (a.name, r))
        for n in f.find("bin"):
            l, r = n.c[0].strip(), n.c[1].strip() if n.op == "=" else None
            if r is not None and r.k == "ref" and l.k == "mem" and l.name in ("year", "month", "day") and "date" in (l.a.get("rec") or ""):
                seen.setdefault(r.a.get("d"), {}).setdefault(l.name, n)
        for d, rs in seen.items():
            ctx.judge(len(rs) == 1, "parts", "%s:%s" % (f.name, "/".join(sorted(rs))), list(rs.values())[-1].where(),
                      "one variable is used as %s" % " and ".join(sorted(rs)))


def check(ctx):
    ctx.rule("conversion", "converting between the parts of a date gives the day of the calendar, for every day")
    ctx.rule("parts", "what sets month and day of a date leaves all of its parts at the same day")
    ctx.rule("images", "an image is taken if and only if it is of the requested product and sensor, and its date in the requested period and days of the year")
    ctx.rule("days", "the days, weeks, months and quarters of the requested range of days are exactly marked and counted")
    ctx.rule("steps", "the time steps reach to the last day of the period and not beyond")
    ctx.rule("windows", "a window is counted if and only if it starts in the period")
    ctx.rule("digits", "year, month and day of a date in text are read from their digits")
    ctx.rule("order", "dates are in order unless the later one is before the earlier one")
    between(ctx)
    carry(ctx)
    roles(ctx)
    conversions(ctx)
    digits(ctx)
    order(ctx)
    setters(ctx)
    direct(ctx)
    listing(ctx)
    period(ctx)
    steps(ctx)
    windows(ctx)
    ctx.floor("conversion", 8)
    ctx.floor("parts", 15)
