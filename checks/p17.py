"""P17: temporal statistics are the ones their products are named after, over exactly the valid values of a pixel.

The entry points of the time series statistics (spectral temporal metrics, folds, trends, change and trend,
standardisation) are value numbered. Loops over a time series are visited once; the values that survive an
iteration are recognised by induction as count, mean, second to fourth moment, co-moment, minimum, maximum or
sum of a series, from what they start with and from what one iteration makes of them. What is stored into a
product is then a formula over these, which is compared with the definition of the statistic."""
import ast
import itertools
import os
import time

import prog
import tsaorder
from algebra import Alg, Rat, fn, guard, same_guard
from effects import ASSIGN

HL = "src/modules/higher-level/"
STATS = "stats-cl.c"

ASSUMPTIONS = [
    "Arithmetic is judged over the real numbers; rounding and conversion to the type of the image are not.",
    "The quantile of an array is the one of the GNU Scientific Library; the critical value of the t-test is not decided.",
    "What is stored for the standard deviation, skewness or kurtosis of a single value, which is undefined, is not judged.",
    "Series are judged per pixel; the values of other pixels are not touched (P01 judges this).",
]

N, ONE = Rat.atom, Rat.const(1)


def subst(r, m):
    """Replace terms."""
    if not isinstance(r, Rat):
        return r
    if not any(a in m for a in r.atoms()) and not any(isinstance(a, tuple) and a[0] in ("trunc", "quantile") for a in r.atoms()):
        return r

    def term(a):
        if a in m:
            return m[a]
        if isinstance(a, tuple):
            args = [subst(x, m) if isinstance(x, Rat) else x for x in a[1:]]
            if a[0] == "trunc":
                return args[0]
            if all(isinstance(x, Rat) for x in args):
                return fn(a[0], *args)
            return Rat.atom((a[0],) + tuple(args))
        return Rat.atom(a)

    def poly(p):
        out = Rat({})
        for mo, c in p.items():
            t = Rat({(): c})
            for a, e in mo:
                x = term(a)
                for _ in range(e):
                    t = t * x
            out = out + t
        return out
    d = poly(r.d)
    return poly(r.n) / d if d.n else None


def holds(g, gs):
    return any(isinstance(h, tuple) and same_guard(g, h) for h in gs)


class Stats(Alg):
    def __init__(self, P, f, fixed=None):
        files = {f.file}
        super().__init__(P, lambda g: g.file in files or g.file.endswith(STATS))
        self.heap = True
        self.watch = lambda p: p[0] == "heap"
        self.sites = []
        self.atom = {}          # term -> (loop, path)
        self.place = {}         # loop -> function and head
        self.entered = {}       # loop -> [(state before, condition)]
        self.backs = {}         # loop -> [(state, conditions of the iteration)]
        self.limit = 3000
        self.numbers = {}
        self.fixed = fixed or {}

    def val(self, e, env):
        if e.k in ("mem",) and self.fixed:
            p = self.loc(e, env)
            if p is not None and self.opaque(p):
                n = self.name(p)
                for k, v in self.fixed.items():
                    if n.endswith(k):
                        return v
        return super().val(e, env)

    def dirty(self, p, env):
        return False

    def call(self, c, env):
        if c.callee in ("quantile", "slope_significant") and len(c.args) >= 3:
            a = [self.val(x, env) for x in c.args]
            a = [Rat.atom("heap") if isinstance(x, tuple) else self.rat(x) for x in a]
            return [(env, None if None in a else Rat.atom((c.callee,) + tuple(a)))]
        if c.callee in ("cite_me", "printf", "free"):
            return [(env, None)]
        self.sites.append(c.id)
        out = super().call(c, env)
        self.sites.pop()
        return out

    def choose(self, c, env):
        """Everything is asked for."""
        for g in self.guards(c, True, env):
            if isinstance(g, tuple) and isinstance(g[0], Rat):
                a = g[0].atoms()
                if a and all(isinstance(x, str) and (".sta." in x or ".use[" in x or x.startswith("@phl") or x.startswith("@stm")) and "~" not in x for x in a):
                    return g[1] != "=="
        return None

    def loop(self, f, h):
        return tuple(self.sites), f.name, h

    def havoc(self, f, h, env):
        env = dict(env)
        lk = self.loop(f, h)
        tag = "~%d" % self.numbers.setdefault(lk, len(self.numbers))

        def fresh(p, name):
            self.drop(p, env)
            a = name + tag
            self.atom[a] = (lk, p)
            env[p] = Rat.atom(a)

        later = []
        for b in self.loops(f)[h]:
            for e in f.cfg.b[b].els:
                if e.k == "bin" and e.op in ASSIGN or e.k == "un" and e.op in ("++", "--", "p++", "p--"):
                    t = e.c[0].strip()
                    p = self.loc(t, env)
                    if p is None:
                        continue
                    if t.k == "ref" or t.k == "un" and t.op == "*" and not self.opaque(p) and p[0] != "heap":
                        if t.t is not None and t.t.is_num:
                            fresh(p, str(p[0]).split("#")[0])
                        else:
                            self.drop(p, env)
                    else:
                        later.append(p)
                elif e.k == "call":
                    for a in e.args:
                        v = self.val(a, env)
                        if isinstance(v, tuple) and v[0] == "a" and not self.opaque(v[1]):
                            t = a.t
                            if t is not None and t.kind == "ptr" and t.el is not None and t.el.is_num and v[1][0] != "heap" \
                                    and not any(str(s).startswith("[") for s in v[1]):
                                if e.callee in self.P.by_name:
                                    fresh(v[1], str(v[1][0]).split("#")[0])
                            elif v[1][0] != "heap":
                                self.drop(v[1], env)
        for p in later:
            self.spoil(p, env)
        old = env.get(("G",), frozenset())
        env[("G",)] = frozenset(g for g in old if not (isinstance(g, tuple) and any(tag in str(a) for a in g[0].atoms())))
        return env

    def ahead(self, cfg, b, env):
        """Long loops over a known number of products are followed for any one of them."""
        c = cfg.b[b].cond
        if c is not None and c.strip().k == "bin":
            v = self.val(c.strip().c[1], env)
            if isinstance(v, int) and v > 8:
                return None
        return super().ahead(cfg, b, env)

    def enter(self, f, h, before, env):
        lk = self.loop(f, h)
        c = f.cfg.b[h].cond
        now = dict(env)
        for e in f.cfg.b[h].els:           # what is done before the condition is looked at
            if e.k == "call":
                c = None
                break
            now = self.element(e, now)[0]
        g = self.guards(c, True, now) if c is not None and len(f.cfg.b[h].succ) == 2 else []
        step = {}
        for a, (k, p) in self.atom.items():
            if k == lk:
                v = self.rat(now.get(p))
                step[a] = (v - Rat.atom(a)).value() if v is not None else None
        self.entered.setdefault(lk, []).append((before, g[0] if len(g) == 1 else None, f.cfg.b[h].cond, step))
        self.place[lk] = f, h
        env[("H~", lk)] = env.get(("G",), frozenset())

    def early(self, lk):
        """Lines at which the loop is left before its counter has reached the end."""
        f, h = self.place[lk]
        body, b = self.loops(f)[h], f.cfg.b
        live, work = {f.cfg.exit}, [f.cfg.exit]
        pred = {}
        for x in b:
            if not b[x].noret:
                for s in b[x].succ:
                    pred.setdefault(s, []).append(x)
        while work:
            for x in pred.get(work.pop(), []):
                if x not in live:
                    live.add(x)
                    work.append(x)
        out = set()
        for x in body - {h}:
            if not b[x].noret and any(s >= 0 and s not in body and s in live for s in b[x].succ):
                out.add(b[x].cond.line if b[x].cond is not None else b[x].els[-1].line if b[x].els else f.line)
        return sorted(out)

    def again(self, f, h, env):
        lk = self.loop(f, h)
        old = env.get(("H~", lk), frozenset())
        self.backs.setdefault(lk, []).append((env, env.get(("G",), frozenset()) - old))


def entry(P, f, names, fixed=None):
    A = Stats(P, f, fixed)
    A.deadline = time.process_time() + 120
    env = {}
    A.stack.append(f)
    for i, (nm, d, t) in enumerate(f.params):
        k = ("%s#%d" % (nm, d), len(A.stack))
        nm = names[i] if len(names) == len(f.params) else nm
        env[k] = ("a", ("@" + nm, "^")) if t.kind == "ptr" else Rat.atom("@" + nm)
    A.out = A.run(f, env)
    A.stack.pop()
    return A


class Loop:
    """What one loop makes of the values that survive its iterations."""
    def __init__(self, A, lk):
        self.A, self.lk = A, lk
        self.atoms = [a for a, (k, _) in A.atom.items() if k == lk]
        path = {a: A.atom[a][1] for a in self.atoms}
        self.init = {a: {A.plain(v) if isinstance(v, Rat) else v for v in (b.get(path[a]) for b, _, _, _ in A.entered[lk])} for a in self.atoms}
        self.steps = []
        seen = set()
        for env, g in A.backs.get(lk, []):
            up = {a: A.rat(env.get(path[a])) for a in self.atoms}
            for a in self.atoms:              # the first value counted
                if up[a] is not None and up[a].value() == 1 and holds(guard(Rat.atom(a), "==", Rat({})), g):
                    up[a] = Rat.atom(a) + ONE
            k = (tuple(sorted((a, str(v)) for a, v in up.items())), frozenset(str(x) for x in g))
            if k not in seen:
                seen.add(k)
                self.steps.append((up, g))
        self.counter = self.bound = None
        conds = {str(c): (c, st) for _, c, _, st in A.entered[lk]}
        self.at = None
        for c, st in conds.values():
            if c is None or c[1] not in ("<", "<="):
                continue
            for a in self.atoms:
                m = ((a, 1),)
                if c[0].n.get(m) == 1 and len(c[0].d) == 1 and self.steps \
                        and all(u[a] is not None and u[a].same(Rat.atom(a) + ONE) for u, _ in self.steps):
                    if st.get(a) is None:
                        continue
                    self.counter = a
                    self.at = Rat.atom(a) + Rat.const(st[a])
        self.where = A.entered[lk][0][2]

    def ranges(self):
        """{(first, one past last)} of the counter."""
        out = set()
        p = self.A.atom[self.counter][1]
        for b, c, _, st in self.A.entered[self.lk]:
            lo = self.A.rat(b.get(p))
            lo = lo + self.at - Rat.atom(self.counter) if lo is not None else None
            hi = self.at - c[0] + (ONE if c[1] == "<=" else Rat({})) if c is not None else None
            out.add((str(lo), str(hi)))
        for line in self.A.early(self.lk):
            out.add((str(lo), "left early in line %d" % line))
        return out

    def same(self, a, up):
        return up[a] is not None and up[a].same(Rat.atom(a))

    def counts(self):
        out = []
        for a in self.atoms:
            if a == self.counter or self.init[a] != {0}:
                continue
            if all(self.same(a, u) or u[a] is not None and u[a].same(Rat.atom(a) + ONE) for u, _ in self.steps) and not all(self.same(a, u) for u, _ in self.steps):
                out.append(a)
        return out

    def follows(self, a, c, new, known):
        """Is a what `new` says after every counted value, and unchanged otherwise? new(a, K, guards) -> Rat or None;
        known: terms that may be replaced by what they start with where the count is one."""
        for up, g in self.steps:
            if up[a] is None:
                return False
            if self.same(c, up):
                if not self.same(a, up):
                    return False
                continue
            k = Rat.atom(c) + ONE
            want = new(Rat.atom(a), k, g)
            if want is None:
                return False
            if up[a].same(want):
                continue
            if holds(guard(Rat.atom(c), "==", Rat({})), g):
                m = {c: Rat({})}
                for x in known + [a]:
                    if len(self.init[x]) == 1 and self.A.rat(list(self.init[x])[0]) is not None:
                        m[x] = self.A.rat(list(self.init[x])[0])
                x, y = subst(up[a], m), subst(want, m)
                if x is not None and y is not None and x.same(y):
                    continue
            return False
        return True


def zero(v):
    return v == {0}


def moments(L, c, x, tag, m):
    """Recognise the moments of x; adds to m."""
    X = x
    rest = [a for a in L.atoms if a not in m and a != L.counter]
    mean = next((a for a in rest if zero(L.init[a]) and L.follows(a, c, lambda s, k, g: s + (X - s) / k, [])), None)
    if mean is None:
        return None
    m[mean] = Rat.atom("M" + tag)
    me = Rat.atom(mean)
    rest.remove(mean)
    var = next((a for a in rest if zero(L.init[a]) and L.follows(a, c, lambda s, k, g: s + (X - me) * (X - me) * (k - ONE) / k, [mean])), None)
    if var is None:
        return mean
    m[var] = Rat.atom("V" + tag)
    va = Rat.atom(var)
    rest.remove(var)

    def parts(k):
        d = X - me
        n = d / k
        return d, n, d * n * (k - ONE)

    def skew(s, k, g):
        d, n, t = parts(k)
        return s + t * n * (k - Rat.const(2)) - Rat.const(3) * n * va
    sk = next((a for a in rest if zero(L.init[a]) and L.follows(a, c, skew, [mean, var])), None)
    if sk is None:
        return mean
    m[sk] = Rat.atom("S" + tag)
    rest.remove(sk)
    s3 = Rat.atom(sk)

    def kurt(s, k, g):
        d, n, t = parts(k)
        return s + t * n * n * (k * k - Rat.const(3) * k + Rat.const(3)) + Rat.const(6) * n * n * va - Rat.const(4) * n * s3
    ku = next((a for a in rest if zero(L.init[a]) and L.follows(a, c, kurt, [mean, var, sk])), None)
    if ku is not None:
        m[ku] = Rat.atom("K" + tag)
    return mean


def extremes(L, c, x, m):
    def low(sign):
        def f(s, k, g):
            d = (x - s) if sign < 0 else (s - x)
            if holds((d, "<"), g) or holds((d, "<="), g):
                return x
            if holds((-d, "<="), g) or holds((-d, "<"), g):
                return s
            return fn("min" if sign < 0 else "max", x, s)
        return f
    for a in L.atoms:
        if a in m or a == L.counter:
            continue
        v = list(L.init[a])
        if len(v) != 1 or not isinstance(v[0], (int, float)):
            continue
        if v[0] >= 32767 and L.follows(a, c, low(-1), []):
            m[a] = Rat.atom("MIN")
        elif v[0] <= -32768 and L.follows(a, c, low(1), []):
            m[a] = Rat.atom("MAX")


def recognise(A, lk, series, nodata, same_as=()):
    """-> (Loop, {term: name of the statistic}, problems); series: {"X": function of the counter -> Rat, ...}; the
    last one decides on validity; same_as: pairs (function of counter -> Rat, what it must equal)."""
    L = Loop(A, lk)
    m, bad = {}, []
    if L.counter is None:
        return L, m, None
    i = L.at
    xs = {k: v(i) for k, v in series.items()}
    val = list(xs.values())[-1]
    miss = guard(val, "==", nodata)
    have = guard(val, "!=", nodata)
    cs = L.counts()
    if not cs:
        return L, m, None
    good = []
    for c in cs:
        ok = []
        for up, g in L.steps:
            used = not L.same(c, up)
            if used and not holds(have, g):
                ok.append("values without a check against nodata are counted")
            for a, b in same_as:
                d = a(i)
                if used and not holds(guard(d, "==", b), g):
                    ok.append("values of another period are counted")
            if not used and not holds(miss, g) and not any(holds(guard(a(i), "!=", b), g) for a, b in same_as):
                ok.append("valid values are left out")
        good.append((len(ok), c, ok))
    good.sort()
    c = good[0][1]
    bad += sorted(set(good[0][2]))
    m[c] = Rat.atom("N")
    for k, x in xs.items():
        moments(L, c, x, k, m)
        if len(xs) == 1:
            extremes(L, c, x, m)
    if len(xs) == 2:
        (kx, x), (ky, y) = xs.items()
        back = {str(v): a for a, v in m.items()}
        if "M" + kx in back and "M" + ky in back:
            mx, my = Rat.atom(back["M" + kx]), Rat.atom(back["M" + ky])
            for a in L.atoms:
                if a not in m and zero(L.init[a]) and a != L.counter and L.follows(
                        a, c, lambda s, k, g: s + (k - ONE) / k * (x - mx) * (y - my), [back["M" + kx], back["M" + ky]]):
                    m[a] = Rat.atom("C")
    L.count = c
    return L, m, bad


def indices(name):
    """base and indices of a[..][..]"""
    i = name.find("[")
    if i < 0:
        return name, []
    out, depth, cur = [], 0, ""
    for ch in name[i:]:
        if ch == "[":
            depth += 1
            if depth == 1:
                cur = ""
                continue
        if ch == "]":
            depth -= 1
            if depth == 0:
                out.append(cur)
                continue
        if depth == 0:
            return name, []
        cur += ch
    return name[:i], out


def formula(t, **more):
    env = {k: Rat.atom(k) for k in ("N", "MX", "VX", "SX", "KX", "MY", "VY", "C", "MIN", "MAX", "SSE", "SAE", "SXX", "MAXE", "heap")}
    env.update(more)

    def go(e):
        if isinstance(e, ast.Expression):
            return go(e.body)
        if isinstance(e, ast.Constant):
            return Rat.const(e.value)
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.UnaryOp):
            return -go(e.operand)
        if isinstance(e, ast.Call):
            a = [go(x) for x in e.args]
            return Rat.atom((e.func.id,) + tuple(a)) if e.func.id in ("quantile", "slope_significant", "idiv") else fn(e.func.id, *a)
        a, b = go(e.left), go(e.right)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b}[type(e.op)]()
    return go(ast.parse(t, mode="eval"))


METRIC = {
    "num": "N", "min": "MIN", "max": "MAX", "rng": "MAX-MIN", "avg": "MX", "std": "sqrt(VX/(N-1))",
    "skw": "1000*SX/(N*pow(sqrt(VX/N),3))", "krt": "1000*(KX/(N*(VX/N)*(VX/N))-3)",
    "iqr": "quantile(heap,N,0.75)-quantile(heap,N,0.25)",
}
CLAMP = {"skw": 30000, "krt": 30000}
SLOPE, OFF = "(C/VX)", "(MY-C/VX*MX)"
SEB = "(sqrt(1/(N-2)*SSE)/sqrt(SXX))"


REPS = []


def norm(r):
    """Functions of equal arguments become the same term."""
    if not isinstance(r, Rat) or not any(isinstance(a, tuple) for a in r.atoms()):
        return r
    m = {}
    for p in (r.n, r.d):
        for mo in p:
            for a, _ in mo:
                if not isinstance(a, tuple) or a in m:
                    continue
                args = [norm(x) for x in a[1:]]
                for name, old in REPS:
                    if name != a[0] or len(old) != len(args):
                        continue
                    if all(x.same(y) for x, y in zip(args, old)) or name == "abs" and args[0].same(-old[0]) \
                            or name in ("min", "max") and args[0].same(old[1]) and args[1].same(old[0]):
                        m[a] = Rat.atom((name,) + tuple(old))
                        break
                else:
                    REPS.append((a[0], args))
                    m[a] = Rat.atom((a[0],) + tuple(args))
    return subst(r, m)


class Judge:
    def __init__(self, ctx, A, entry):
        self.ctx, self.A, self.entry = ctx, A, entry
        self.cache = {}
        self.quant = self.fixed = self.strange = None
        self.hit = set()

    def loops(self, value, guards):
        """The loops whose values are used."""
        out = []
        at = set(value.atoms()) if isinstance(value, Rat) else set()
        for g in guards:
            if isinstance(g, tuple) and isinstance(g[0], Rat):
                at |= g[0].atoms()
        for a in at:
            if a in self.A.atom and self.A.atom[a][0] not in out:
                out.append(self.A.atom[a][0])
        return out

    def quantiles(self):
        """{term: quantile it holds} of values looked up among the quantiles."""
        if self.quant is None:
            self.quant = {}
            for lk in self.A.backs:
                L = Loop(self.A, lk)
                for a in L.atoms:
                    if L.init[a] != {-32768}:
                        continue
                    got = set()
                    for up, g in L.steps:
                        if L.same(a, up):
                            continue
                        v = subst(up[a], {}) if up[a] is not None else None
                        q = [t for t in v.atoms() if isinstance(t, tuple) and t[0] == "quantile"] if v is not None else []
                        if len(q) != 1 or not v.same(Rat.atom(q[0])):
                            got.add(None)
                            continue
                        c = None
                        for h in g:
                            if isinstance(h, tuple) and h[1] == "==":
                                for k in (0.25, 0.75):
                                    if same_guard(h, guard(q[0][3], "==", Rat.const(k))):
                                        c = Rat.atom(q[0][:3] + (Rat.const(k),))
                        got.add(c)
                    if len(got) == 1 and None not in got:
                        self.quant[a] = got.pop()
        return self.quant

    def unchanged(self):
        """{term: value} of what no iteration of a loop changes."""
        if self.fixed is None:
            self.fixed = {}
            for lk in self.A.backs:
                L = Loop(self.A, lk)
                for a in L.atoms:
                    if len(L.init[a]) == 1 and L.steps and all(L.same(a, u) for u, _ in L.steps):
                        v = self.A.rat(list(L.init[a])[0])
                        if v is not None:
                            self.fixed[a] = v
        return self.fixed

    def mapping(self, value, guards, series, nodata, same_as, rng, what):
        """{term: statistic} for the loops behind a value; reports loops over something else."""
        m = dict(self.quantiles())
        m.update(self.unchanged())
        some = False
        for lk in self.loops(value, guards) + [x for v in m.values() for x in self.loops(v, [])]:
            key = (lk, what)
            if key not in self.cache:
                L, mm, bad = recognise(self.A, lk, series, nodata, same_as)
                self.cache[key] = (L, mm, bad)
                if bad is not None and mm:
                    w = L.where.where() if L.where is not None else ""
                    self.ctx.judge(not bad, "series", "%s:%s" % (what, self.entry), w,
                                   "%s: %s" % (what, "; ".join(bad)) if bad else "")
                    r = L.ranges()
                    self.ctx.judge(r == {rng}, "range", "%s:%s" % (what, self.entry), w,
                                   "%s is computed over positions %s instead of %s to %s" % (what, sorted(r), rng[0], rng[1]))
            L, mm, bad = self.cache[key]
            if bad is None:
                continue
            some = True
            m.update(mm)
        return m, some

    def canon(self, v, m):
        v = subst(v, m)
        return subst(v, m) if v is not None else None

    def guards(self, gs, m):
        out = []
        for g in gs:
            if isinstance(g, tuple) and isinstance(g[0], Rat):
                d = self.canon(g[0], m)
                if d is not None:
                    out.append((d, g[1]))
        return out

    def least(self, gs):
        """The least count the conditions allow, and the largest (None: none)."""
        lo, hi = 0, None
        n = Rat.atom("N")
        for d, op in gs:
            c = (d - n).value()
            if c is not None:                     # n + c op 0
                if op in ("<", "<="):
                    x = -c - (1 if op == "<" else 0)
                    hi = x if hi is None else min(hi, x)
                elif op == "==":
                    lo, hi = max(lo, -c), -c
                elif op == "!=" and c == 0:
                    lo = max(lo, 1)
            c = (d + n).value()
            if c is not None:                     # c - n op 0
                if op in ("<", "<="):
                    lo = max(lo, c + (1 if op == "<" else 0))
                elif op == "==":
                    lo, hi = max(lo, c), c
                elif op == "!=" and c == 0:
                    lo = max(lo, 1)
        return lo, hi

    def stored(self, e, what, value, gs, options, nodata, masked, need):
        """Judge one store: options [(formula, [conditions])]; need: number of values without which nodata is stored."""
        ctx = self.ctx
        w = e.where()
        if value is None:
            ctx.undecided("statistic", what, "value not followed at %s" % w)
            return
        if self.strange is None:
            self.strange = {a for lk in self.A.backs for L in [Loop(self.A, lk)] if L.counter is None for a in L.atoms}
        if self.strange and any(x in self.strange for r in [value] + [h[0] for h in gs] for x in r.atoms()):
            ctx.undecided("statistic", what, "a loop behind the value at %s is not recognised" % w)
            return
        lo, hi = self.least(gs)
        if value.same(nodata):
            ok = holds(masked, gs) or hi is not None and hi < need
            ctx.judge(ok, "nodata", "%s:%s" % (what, self.entry), w,
                      "%s becomes nodata for a pixel that is not masked and has %d or more valid values" % (what, need))
            return
        if any("~" in str(x) for x in value.atoms() if isinstance(x, str) and not x.startswith("@")):
            known = False
        else:
            known = True
        for k, (f, cond) in enumerate(options):
            if norm(value).close(norm(f)) and all(holds((norm(c[0]), c[1]), [(norm(h[0]), h[1]) for h in gs]) for c in cond):
                self.hit.add((what, k))
                ctx.judge(lo >= need, "enough", "%s:%s" % (what, self.entry), w,
                          "%s is stored for pixels with less than %d valid values" % (what, need))
                ctx.ok("statistic", w)
                return
        ctx.violate("statistic", "%s:%s" % (what, self.entry), w, "%s is stored as %s, which is not %s%s" % (
            what, str(value)[:160], str(options[0][0])[:120], "" if known else " (a value of the loop is not a statistic of the series)"))


def clamped(f, c):
    c = Rat.const(c)
    return [(f, [(f - c, "<="), (-c - f, "<=")]), (c, [(c - f, "<")]), (-c, [(f + c, "<")])]


def options(metric):
    f = formula(METRIC[metric])
    return clamped(f, CLAMP[metric]) if metric in CLAMP else [(f, [])]


NODATA = Rat.atom("@nodata")


def nonempty(ctx, J, what, opts):
    for k in range(len(opts)):
        if (what, k) not in J.hit:
            ctx.undecided("statistic", what, "never stored in form %d" % k)


def gathered(J, series, what):
    """What the quantiles are taken from: the valid values, in a row."""
    A = J.A
    for e, p, v, g in A.stores:
        if p[0] != "heap" or len(p) != 3 or not isinstance(v, Rat):
            continue
        lk = None
        for a in [x for x in v.atoms() if isinstance(x, str)]:
            for idx in indices(a)[1]:
                if idx in A.atom:
                    lk2 = A.atom[idx][0]
                    if (lk2, what) in J.cache:
                        lk = lk2
        if lk is None:
            continue
        L, m, bad = J.cache[(lk, what)]
        if not m:
            continue
        x = series(L.at)
        J.ctx.judge(p[2] == "[%s]" % L.count and v.same(x), "gathered", "%s:%s" % (what, J.entry), e.where(),
                    "the values quantiles are taken from are not the valid values in a row: element %s becomes %s" % (p[2], v))


def stm(ctx):
    f = ctx.prog.func("tsa_stm")
    A = entry(ctx.prog, f, "ts mask nc ni nodata stm".split())
    J = Judge(ctx, A, f.name)
    for e, p, v, g in A.stores:
        base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
        if base != "@ts.stm_" or len(ix) != 2:
            continue
        met, pix = ix
        x = lambda i: Rat.atom("@ts.tsi_[%s][%s]" % (i, pix))
        v = A.rat(v)
        m, some = J.mapping(v, g, {"X": x}, NODATA, (), ("0", "@ni"), "spectral temporal metrics")
        gs = J.guards(g, m)
        masked = guard(Rat.atom("@mask[%s]" % pix), "==", Rat({}))
        v = J.canon(v, m) if v is not None else None
        b, sub = indices(met)
        name = b.rsplit(".", 1)[-1]
        if name == "qxx" and len(sub) == 1:
            o = [(Rat.atom(("quantile", Rat.atom("heap"), Rat.atom("N"), Rat.atom("@stm.sta.q[%s]" % sub[0]))), [])]
        elif name in METRIC and b.startswith("@stm.sta."):
            o = options(name)
        else:
            o = [(NODATA, [])]
        J.stored(e, "temporal metric %s" % name.upper() if o[0][0] != NODATA else "temporal metrics", v, gs, o, NODATA, masked, 1)
        if not some:
            continue
    x0 = {ix[1] for e, p, v, g in A.stores if p[0] != "heap" for ix in [indices(A.name(p))[1]] if len(ix) == 2}
    for pix in x0:
        gathered(J, lambda i: Rat.atom("@ts.tsi_[%s][%s]" % (i, pix)), "spectral temporal metrics")
    for name in METRIC:
        nonempty(ctx, J, "temporal metric %s" % name.upper(), options(name))


PERIODS = [("y", "year"), ("q", "quarter"), ("m", "month"), ("w", "week"), ("d", "doy")]


def folds(ctx):
    P = ctx.prog
    f = P.func("tsa_fold")
    q01 = P.enum_const["_STA_Q01_"]
    kinds = [(k, P.enum_const["_STA_%s_" % k.upper()]) for k in METRIC] + [("q%02d" % q, q01 + q - 1) for q in (1, 25, 50, 99)]
    for kind, const in kinds:
        A = entry(P, f, "ts mask nc ni nodata phl".split(), {".fld.type": const})
        J = Judge(ctx, A, f.name)
        for s, field in PERIODS:
            what = "fold by %s of type %s" % (field, kind.upper())
            o = options(kind) if kind in METRIC else [(formula("quantile(heap,N,%s)" % (int(kind[1:]) / 100)), [])]
            pixes = set()
            for e, p, v, g in A.stores:
                base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
                if base != "@ts.fb%s_" % s or len(ix) != 2:
                    continue
                fo, pix = ix
                pixes.add(pix)
                x = lambda i: Rat.atom("@ts.tsi_[%s][%s]" % (i, pix))
                per = (lambda i: Rat.atom("@ts.d_tsi[%s].%s" % (i, field)), Rat.atom("@ts.d_fb%s[%s].%s" % (s, fo, field)))
                v = A.rat(v)
                m, some = J.mapping(v, g, {"X": x}, NODATA, (per,), ("0", "@ni"), what)
                J.stored(e, what, J.canon(v, m) if v is not None else None, J.guards(g, m), o, NODATA,
                         guard(Rat.atom("@mask[%s]" % pix), "==", Rat({})), 1)
                for lk in J.loops(Rat.atom(fo), ()):
                    L = Loop(A, lk)
                    if L.counter == fo:
                        ctx.judge(L.ranges() == {("0", "@phl.n" + s)}, "range", "folds:%s" % what, e.where(),
                                  "folds by %s are made at positions %s" % (field, sorted(L.ranges())))
            for pix in pixes:
                gathered(J, lambda i: Rat.atom("@ts.tsi_[%s][%s]" % (i, pix)), what)
            nonempty(ctx, J, what, o)


def trend_options(ce, length):
    if ce:
        my = "(MY-idiv(365*(LEN-1),2))"
        test, slope = "(%s-365)" % SLOPE, "(1000*(%s-365))" % SLOPE
    else:
        my, test, slope = "MY", SLOPE, SLOPE
    F = lambda t: formula(t, LEN=length, CONF=Rat.atom("@phl.tsa.trd.conf"), TAIL=Rat.atom("@phl.tsa.trd.tail"))
    off = F(OFF)
    return {
        "MEAN": [(F(my), [])], "OFFSET": [(off, [])], "SLOPE": [(F(slope), [])],
        "PRC_GAIN": [(F("%s*LEN/%s*100" % (slope, OFF)), [(-off, "<")]), (Rat({}), [(off, "<=")])],
        "ABS_GAIN": [(F("%s*LEN" % slope), [])], "RSQ": [(F("10000*C*C/(VX*VY)"), [])],
        "SIG": [(F("slope_significant(1-CONF,TAIL,N,%s,0,%s)" % (test, SEB)), [])],
        "RMSE": [(F("sqrt(SSE/N)"), [])], "MAE": [(F("SAE/N"), [])], "MAXE": [(F("MAXE"), [])],
        "NUM": [(F("N"), [])], "LEN": [(length, [])],
    }


def residuals(J, lk, m, xs, what, rng):
    """Sums over the residuals."""
    A = J.A
    L = Loop(A, lk)
    if L.counter is None or not L.steps:
        return {}
    i = L.at
    x, y = [v(i) for v in xs]
    err = y - (formula(OFF) + formula(SLOPE) * x)
    size = norm(fn("abs", err))
    miss, have = guard(y, "==", NODATA), guard(y, "!=", NODATA)
    out = {}
    for a in L.atoms:
        if a == L.counter:
            continue
        kinds = []
        for up, g in L.steps:
            if up[a] is None:
                kinds.append(None)
                continue
            d = norm(subst(subst(up[a] - Rat.atom(a), {}), m))
            gg = [(norm(h[0]), h[1]) for h in J.guards(g, m)]
            if holds(miss, g):
                kinds.append("skip" if not d.n else None)
            elif not holds(have, g):
                kinds.append(None)
            elif d.same(err * err):
                kinds.append("SSE")
            elif d.same(size):
                kinds.append("SAE")
            elif d.same((x - Rat.atom("MX")) * (x - Rat.atom("MX"))):
                kinds.append("SXX")
            else:
                k = None
                top = norm(subst(up[a], m))
                for b in (size,):
                    if not d.n and (holds((b - Rat.atom(a), "<="), gg) or holds((b - Rat.atom(a), "<"), gg)):
                        k = "MAXE"
                    if top.same(b) and (holds((Rat.atom(a) - b, "<"), gg) or holds((Rat.atom(a) - b, "<="), gg)):
                        k = "MAXE"
                    if top.same(fn("max", Rat.atom(a), b)):
                        k = "MAXE"
                kinds.append(k)
        ks = set(kinds) - {"skip"}
        if len(ks) == 1 and None not in ks:
            k = ks.pop()
            if k == "MAXE" and all(isinstance(v, (int, float)) and v <= 0 for v in L.init[a]) or k != "MAXE" and zero(L.init[a]):
                out[a] = Rat.atom(k)
    if out and what is not None and ("R", lk, what) not in J.cache:
        J.cache[("R", lk, what)] = True
        J.ctx.judge(L.ranges() == {rng} if rng else not A.early(lk), "range", "%s residuals:%s" % (what, J.entry), L.where.where() if L.where is not None else "",
                    "the residuals of %s are taken over positions %s" % (what, sorted(L.ranges())))
    return out


def unclear(ctx, l, g, what, e):
    """Polar metrics of which it is not known whether they are dates."""
    for d, op in [h for h in g if isinstance(h, tuple)]:
        if op in ("<", "<=") and ((d - l).value() is not None or (d + l).value() is not None):
            ctx.violate("statistic", "dates:%s" % what, e.where(),
                        "%s: the parameters treated as dates are not the nine dates of the polar metrics" % what)
            return
    ctx.undecided("statistic", what, "not known whether the values are dates at %s" % e.where())


def trends(ctx):
    P = ctx.prog
    f = P.func("tsa_trend")
    A = entry(P, f, "ts mask nc nodata phl".split())
    names = {v: k for k, v in ((x[5:-1], c) for x, c in P.enum_const.items() if x.startswith("_TRD_")) if k != "LENGTH"}
    J = Judge(ctx, A, f.name)
    jobs = [("@ts.tr%s_" % s, "@ts.fb%s_" % s, "@ts.d_fb%s" % s, "@phl.n%s" % s, field, None) for s, field in PERIODS]
    jobs.append(("@ts.tro_", "@ts.pol_", "@ts.d_pol", "@phl.tsa.pol.ny", "year", "l"))
    for target, arr, dates, n, field, lead in jobs:
        what0 = "trend of %s" % arr[4:]
        length = Rat.atom(n)
        wanted = set()
        for e, p, v, g in A.stores:
            base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
            if base != target or len(ix) != (3 if lead else 2):
                continue
            pre = "[%s]" % ix[0] if lead else ""
            k, pix = ix[-2:]
            ce = False
            what = what0
            if lead:
                # the first parameters of the polar metrics are dates
                l = Rat.atom(ix[0])
                if holds((l - Rat.const(9), "<"), g):
                    ce = True
                elif not holds((Rat.const(9) - l, "<="), g):
                    unclear(ctx, l, g, what0, e)
                    continue
                what = what0 + (" (dates)" if ce else " (values)")
            x = lambda i: Rat.atom("%s[%s].%s" % (dates, i, field)) - Rat.atom("%s[0].%s" % (dates, field))
            y = lambda i: Rat.atom("%s%s[%s][%s]" % (arr, pre, i, pix))
            v = A.rat(v)
            m, some = J.mapping(v, g, {"X": x, "Y": y}, NODATA, (), ("0", n), what)
            for lk in J.loops(v, ()):
                if not any(a in m for a in A.atom if A.atom[a][0] == lk):
                    m.update(residuals(J, lk, m, (x, y), what, ("0", n)))
            o = trend_options(ce, length)
            key = names.get(int(k)) if k.lstrip("-").isdigit() else None
            J.stored(e, "%s %s" % (what, key) if key else what, J.canon(v, m) if v is not None else None, J.guards(g, m), o[key] if key else [(NODATA, [])], NODATA,
                     guard(Rat.atom("@mask[%s]" % pix), "==", Rat({})), 3)
            if key:
                wanted.add((what, key, tuple(range(len(o[key])))))
        for what, key, ks in sorted(wanted):
            for k in ks:
                if ("%s %s" % (what, key), k) not in J.hit:
                    ctx.undecided("statistic", "%s %s" % (what, key), "never stored in form %d" % k)


def standards(ctx):
    """Standardised time series."""
    P = ctx.prog
    f = P.func("tsa_standardize")
    jobs = [("@ts.tss_", "@nt", 0), ("@ts.tsi_", "@ni", 0), ("@ts.pol_", "@phl.tsa.pol.ny", 1)] \
        + [("@ts.fb%s_" % s, "@phl.n" + s, 0) for s, _ in PERIODS]
    for method, t in (("_STD_NORMAL_", "(V-MX)/(sqrt(VX/(N-1))/10000)"), ("_STD_CENTER_", "V-MX")):
        A = entry(P, f, "ts mask nc nt ni nodata phl".split(), {".standard": P.enum_const[method]})
        J = Judge(ctx, A, f.name)
        for arr, n, lead in jobs:
            what = "%s series %s" % ("standardised" if "NORMAL" in method else "centred", arr[4:])
            for e, p, v, g in A.stores:
                base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
                if base != arr or len(ix) != 2 + lead:
                    continue
                pre = "[%s]" % ix[0] if lead else ""
                i2, pix = ix[-2:]
                x = lambda i: Rat.atom("%s%s[%s][%s]" % (arr, pre, i, pix))
                v = A.rat(v)
                m, some = J.mapping(v, g, {"X": x}, NODATA, (), ("0", n), what)
                F = formula(t, V=x(i2))
                hi, lo = Rat.const(32767), Rat.const(-32768)
                o = [(F, [(F - hi, "<="), (lo - F, "<=")]), (hi, [(hi - F, "<")]), (lo, [(F - lo, "<")])]
                J.stored(e, what, J.canon(v, m) if v is not None else None, J.guards(g, m), o, NODATA,
                         guard(Rat.atom("@mask[%s]" % pix), "==", Rat({})), 2)
                ctx.judge(holds(guard(x(i2), "!=", NODATA), g), "nodata", "%s:%s" % (what, f.name), e.where(),
                          "missing values of the %s are replaced" % what)
                for lk in J.loops(Rat.atom(i2), ()):
                    L = Loop(A, lk)
                    if L.counter == i2:
                        ctx.judge(L.ranges() == {("0", n)}, "range", "%s:%s" % (what, f.name), e.where(),
                                  "the %s is made at positions %s" % (what, sorted(L.ranges())))


def cats(ctx):
    """Trends of the parts before and after the largest change."""
    P = ctx.prog
    f = P.func("tsa_cat")
    A = entry(P, f, "ts mask nc nodata phl".split())
    C = P.enum_const
    names = {c: x[5:-1] for x, c in C.items() if x.startswith("_TRD_") and x != "_TRD_LENGTH_"}
    parts = {C["_PART_TOTAL_"]: "complete series", C["_PART_BEFORE_"]: "series before the change", C["_PART_AFTER_"]: "series after the change"}
    J = Judge(ctx, A, f.name)
    jobs = [("@ts.ca%s_" % s, "@ts.fb%s_" % s, "@ts.d_fb%s" % s, "@phl.n%s" % s, field, None) for s, field in PERIODS]
    jobs.append(("@ts.cao_", "@ts.pol_", "@ts.d_pol", "@phl.tsa.pol.ny", "year", "l"))
    for target, arr, dates, n, field, lead in jobs:
        length = Rat.atom(n)
        for e, p, v, g in A.stores:
            base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
            if base != target or len(ix) != (3 if lead else 2):
                continue
            pre = "[%s]" % ix[0] if lead else ""
            k, pix = ix[-2:]
            if not k.lstrip("-").isdigit():
                continue
            k = int(k)
            v = A.rat(v)
            if v is not None and v.same(NODATA):
                continue
            if k == C["_CAT_YEAR_"]:
                b = str(v)
                ctx.judge(b.startswith(dates + "[") and b.endswith("]." + field), "statistic", "time of change of %s:%s" % (arr[4:], f.name), e.where(),
                          "the time of change of %s is stored as %s" % (arr[4:], b))
                continue
            if k <= C["_CAT_YEAR_"]:
                continue
            part, key = divmod(k - C["_CAT_YEAR_"] - 1, C["_TRD_LENGTH_"])
            ce = False
            if lead:
                l = Rat.atom(ix[0])
                ce = holds((l - Rat.const(9), "<"), g)
                if not ce and not holds((Rat.const(9) - l, "<="), g):
                    unclear(ctx, l, g, "change and trend of %s" % arr[4:], e)
                    continue
            key = names[key]
            if ce and key in ("MEAN", "OFFSET", "PRC_GAIN"):
                continue
            what = "change and trend of %s, %s" % (arr[4:] + (" (dates)" if ce else ""), parts[part])
            x = lambda i: Rat.atom("%s[%s].%s" % (dates, i, field)) - Rat.atom("%s[0].%s" % (dates, field))
            y = lambda i: Rat.atom("%s%s[%s][%s]" % (arr, pre, i, pix))
            m = {}
            change = None
            for lk in J.loops(v, g):
                if (lk, arr, ce) not in J.cache:
                    J.cache[(lk, arr, ce)] = recognise(A, lk, {"X": x, "Y": y}, NODATA)
                    L, mm, bad = J.cache[(lk, arr, ce)]
                    if bad is not None and len(mm) > 1:
                        ctx.judge(not bad, "series", "%s:%s" % (what, f.name), L.where.where(), "%s: %s" % (what, "; ".join(bad)))
                L, mm, bad = J.cache[(lk, arr, ce)]
                if bad is not None and len(mm) > 1:
                    m.update(mm)
                    r = L.ranges()
                    mid = {h for lo, h in r if lo == "0" and h != n} | {lo for lo, h in r if h == n and lo != "0"}
                    cs = {lo for lo, h in r if h == n and lo != "0"}
                    if len(cs) == 1:
                        change = Rat.atom(cs.pop())
                        ctx.judge(r == {("0", n), (str(change), n), ("0", str(change - ONE))}, "range", "parts of %s:%s" % (arr[4:], f.name), L.where.where(),
                                  "the parts before and after the change are %s" % sorted(r))
                        if str(change) in A.atom and (str(change), arr) not in J.cache:
                            J.cache[(str(change), arr)] = True
                            S = Loop(A, A.atom[str(change)][0])
                            if S.counter is not None:
                                r = S.ranges()
                                ctx.judge(all(lo in ("0", "1") and h == n for lo, h in r), "range", "change of %s:%s" % (arr[4:], f.name), S.where.where(),
                                          "the largest change is looked for at positions %s" % sorted(r))
            if change is None:
                ctx.undecided("statistic", what, "the parts are not recognised at %s" % e.where())
                continue
            lo, ln = {C["_PART_TOTAL_"]: (Rat({}), length), C["_PART_BEFORE_"]: (Rat({}), change - ONE), C["_PART_AFTER_"]: (change, length - change)}[part]
            for lk in J.loops(v, ()):
                if not any(a in m for a in A.atom if A.atom[a][0] == lk):
                    m.update(residuals(J, lk, m, (x, y), "change and trend of %s" % arr[4:], None))
            o = trend_options(ce, ln)
            start = formula(OFF) + formula(SLOPE) * lo
            o["OFFSET"] = [(start, [])]
            o["PRC_GAIN"] = [(formula("%s*LEN/START*100" % SLOPE, LEN=ln, START=start), [(-start, "<")]), (Rat({}), [(start, "<=")])]
            J.stored(e, "%s %s" % (what, key), J.canon(v, m) if v is not None else None, J.guards(g, m), o[key], NODATA,
                     guard(Rat.atom("@mask[%s]" % pix), "==", Rat({})), 1 if key in ("MEAN", "NUM", "LEN") else 3)


def searches(ctx):
    """The change is the largest drop between a valid value and the valid value before."""
    P = ctx.prog
    f = P.func("tsa_cat")
    A = entry(P, f, "ts mask nc nodata phl".split(), {".penalty": 0})
    C = P.enum_const
    jobs = [("@ts.ca%s_" % s, "@ts.fb%s_" % s, "@ts.d_fb%s" % s, None) for s, _ in PERIODS] + [("@ts.cao_", "@ts.pol_", "@ts.d_pol", "l")]
    for target, arr, dates, lead in jobs:
        found = {}
        for e, p, v, g in A.stores:
            base, ix = indices(A.name(p)) if p[0] != "heap" else (None, [])
            v = A.rat(v)
            if base != target or len(ix) != (3 if lead else 2) or v is None or v.same(NODATA):
                continue
            if ix[-2] in (str(C["_CAT_CHANGE_"]), str(C["_CAT_YEAR_"])):
                found.setdefault(int(ix[-2]), []).append((e, v, ix))
        what = "largest change of %s" % arr[4:]
        got = {}
        for e, v, ix in found.get(C["_CAT_CHANGE_"], []):
            a = list(untruncated(v).atoms()) if untruncated(v) is not None else []
            if len(a) == 1 and untruncated(v).same(Rat.atom(a[0])) and a[0] in A.atom:
                got[A.atom[a[0]][0]] = (e, a[0], ix)
        if not got:
            ctx.undecided("change", what, "how the largest change is found is not recognised")
            continue
        for lk, (e, c, ix) in got.items():
            S = Loop(A, lk)
            pre, pix = "[%s]" % ix[0] if lead else "", ix[-1]
            y = lambda i: Rat.atom("%s%s[%s][%s]" % (arr, pre, i, pix))
            at = {str(v)[len(dates) + 1:str(v).rindex("]")] for _, v, _ in found.get(C["_CAT_YEAR_"], []) if len(v.atoms()) == 1 and str(v).startswith(dates + "[")}
            at = [a for a in at if a in A.atom and A.atom[a][0] == lk]
            if S.counter is None or len(at) != 1 or not S.steps:
                ctx.undecided("change", what, "how the largest change is found is not recognised")
                continue
            at, bad, open_ = at[0], [], []
            here = y(S.at)
            before = set()
            for up, g in S.steps:
                if S.same(c, up):
                    if not S.same(at, up):
                        bad.append("its time changes without it")
                    elif not skipped(g, here, arr, c):
                        bad.append("a larger one may be passed over")
                    continue
                d = up[c]
                other = [a for a in d.atoms() if not Rat.atom(a).same(here)] if d is not None else []
                if d is None or len(other) != 1 or not str(other[0]).startswith(arr + pre + "["):
                    open_.append("its value is %s" % d)
                    continue
                o = Rat.atom(other[0])
                before.add(indices(str(other[0]))[1][len(ix) - 2])
                if not d.same(o - here):
                    bad.append("it is %s" % d)
                elif not holds((Rat.atom(c) - d, "<"), g) and not holds((Rat.atom(c) - d, "<="), g):
                    bad.append("it is not the larger one that is kept")
                elif not holds(guard(o, "!=", NODATA), g) or not holds(guard(here, "!=", NODATA), g):
                    bad.append("missing values are taken for a change")
                if up[at] is None or not up[at].same(S.at):
                    bad.append("its time is that of position %s" % up[at])
            for q in before:
                if q not in A.atom or A.atom[q][0] == lk:
                    continue
                Q = Loop(A, A.atom[q][0])
                if any(u[q] is None for u, _ in Q.steps):
                    continue
                if any(not isinstance(i, (int, Rat)) or not A.rat(i).same(S.at - ONE) for i in Q.init[q]) or any(not u[q].same(Rat.atom(q) - ONE) for u, _ in Q.steps):
                    bad.append("it is not compared with the nearest valid value before")
            if open_ and not bad:
                ctx.undecided("change", what, "; ".join(sorted(set(open_))))
                continue
            ctx.judge(not bad, "change", "%s:%s" % (what, f.name), S.where.where(), "%s: %s" % (what, "; ".join(sorted(set(bad)))))


def untruncated(v):
    """The value without the conversion to a whole number."""
    a = list(v.atoms())
    if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "trunc" and v.same(Rat.atom(a[0])):
        return a[0][1]
    return v


def skipped(gs, here, arr, c):
    """Does nothing but missing values and a change that is no larger keep a position from having an effect?"""
    values, none = [], str(next(iter(NODATA.atoms())))
    for g in gs:
        if not isinstance(g, tuple) or not isinstance(g[0], Rat):
            return True
        a = [str(x) for x in g[0].atoms()]
        if g[1] == "==" and none in a:
            return True
        if c in a or any(x.startswith(arr) for x in a) and none not in a:
            values.append(g)
    for g in values:
        o = [x for x in g[0].atoms() if x != c and not Rat.atom(x).same(here)]
        if g[1] in ("<=", "<") and len(o) == 1 and g[0].same(Rat.atom(o[0]) - here - Rat.atom(c)):
            return True
    return not values


FINAL = ("variance", "standdev", "covariance", "skewness", "kurtosis")


def place(e):
    """What is counted or accumulated in: declaration and constant indices."""
    e = e.strip()
    while True:
        if e.k == "un" and e.op in ("&", "++", "--", "p++", "p--"):
            e = e.c[0].strip()
        elif e.k == "bin" and e.op in ("+", "-") and e.c[1].strip().v is not None:
            e = e.c[0].strip()
        else:
            break
    path = []
    while e.k in ("idx", "mem"):
        if e.k == "idx":
            i = e.c[1].strip()
            path.append(i.v if i.v is not None else "*")
        else:
            path.append(e.name)
        e = e.c[0].strip()
    if e.k != "ref":
        return None
    return (e.a.get("d"), e.name) + tuple(reversed(path))


def counts(ctx):
    """The number of values a moment is divided by is the number of values that went into it."""
    for f in ctx.prog.functions:
        into = {}
        for c in f.body.calls():
            n = c.callee or ""
            if n.endswith("_recurrence") and len(c.args) >= 4:
                cnt = place(c.args[-1])
                for a in c.args[:-1]:
                    if a.strip().k == "un" and a.strip().op == "&":
                        into.setdefault(place(a), set()).add(cnt)
        if not into:
            continue
        for k in into:                    # counters that run up to the number of values
            for n in list(into[k]):
                for l in f.body.find("for"):
                    c = l.c[1].strip() if len(l.c) > 1 and l.c[1] is not None else None
                    if c is not None and c.k == "bin" and c.op in ("<", "<=") and place(c.c[0]) == n:
                        into[k].add(place(c.c[1]))
        for c in f.body.calls(*FINAL):
            v, n = place(c.args[0]), place(c.args[-1])
            if v not in into or n is None or None in into[v]:
                continue
            ctx.judge(n in into[v], "count", "%s:%s:%s" % (c.callee, v[1], f.name), c.where(),
                      "%s of %s is taken with %s, but its values are counted in %s" % (c.callee, v[1], n[1], " or ".join(sorted(x[1] for x in into[v]))))
        for c in f.body.calls("quantile"):
            arr, n = place(c.args[0]), place(c.args[1])
            idx = set()
            for e in f.body.find("bin"):
                if e.op == "=" and e.c[0].strip().k == "idx" and place(e.c[0].strip().c[0]) == arr:
                    idx.add(place(e.c[0].strip().c[1]))
            if n is None or None in idx or not idx:
                continue
            ctx.judge(n in idx, "count", "quantile:%s:%s" % (arr[1], f.name), c.where(),
                      "a quantile of %s is taken from %s values, but they are counted in %s" % (arr[1], n[1], " or ".join(sorted(x[1] for x in idx))))


def together(ctx):
    """A value that goes into the moments also goes into the extremes and quantiles that are kept beside them."""
    for f in ctx.prog.functions:
        sites = {}
        for c in f.calls("var_recurrence", "covar_recurrence", "skew_recurrence", "kurt_recurrence"):
            m = next((a.strip().key for a in c.args if a.strip().k == "un" and a.strip().op == "&"), None)
            blk = next((u for u in c.up() if u.k in ("block", "compound", "for", "while", "if")), None)
            x = c.args[0].strip()
            if m is None or blk is None or x.k != "ref":
                continue
            d, kept = x.a.get("d"), set()
            uses = lambda e: e is not None and any(y.k == "ref" and y.a.get("d") == d for y in e.walk())
            for n in blk.find("bin"):
                if n.op == "=" and uses(n.c[1]) and not uses(n.c[0]):
                    l = n.c[0].strip()
                    while l.k == "idx":
                        l = l.c[0].strip()
                    if l.k == "ref":
                        kept.add(l.name)
            sites.setdefault((m, c.callee), []).append((c, kept))
        for (m, _), l in sites.items():
            if len(l) < 2:
                continue
            every = set().union(*(k for _, k in l))
            for c, k in l:
                ctx.judge(k == every, "count", "%s:together" % f.name, c.where(),
                          "a value goes into the moments, but not into %s" % ", ".join(sorted(every - k)))


def fallback(ctx):
    """A quantile that is taken over from the requested quantiles or computed otherwise is the same quantile."""
    for f in ctx.prog.functions:
        qs = {}
        for n in f.find("bin"):
            l = n.c[0].strip()
            if n.op != "=" or l.k != "ref":
                continue
            for c in n.c[1].calls("quantile"):
                v = c.args[-1].strip().v
                if v is not None:
                    qs.setdefault(l.a.get("d"), []).append((v, n))
            u = n
            for a in n.up():
                if a.k == "if" and a.c[1] is u:
                    c = a.c[0].strip()
                    if c.k == "bin" and c.op == "==" and c.c[0].strip().v is None and isinstance(c.c[1].strip().v, float) and 0 < c.c[1].strip().v < 1:
                        qs.setdefault(l.a.get("d"), []).append((c.c[1].strip().v, n))
                    break
                if a.k not in ("block", "compound", "expr", "cast"):
                    break
                u = a
        for d, l in qs.items():
            if len(l) > 1:
                ctx.judge(len({v for v, _ in l}) == 1, "count", "%s:%s" % (f.name, l[0][1].c[0].strip().name), l[0][1].where(),
                          "one quantile is taken as %s" % " or ".join(sorted({str(v) for v, _ in l})))


def check(ctx):
    ctx.rule("statistic", "what is stored into a product of statistics is the formula of the statistic the product is named after")
    ctx.rule("series", "the values a statistic is made of are exactly those that are not nodata and, for folds, of the period")
    ctx.rule("range", "a statistic is computed over the complete time series")
    ctx.rule("nodata", "nodata is stored for masked pixels and pixels without enough valid values only")
    ctx.rule("enough", "statistics are stored for pixels with enough valid values only")
    ctx.rule("gathered", "quantiles are taken from the valid values in a row")
    ctx.rule("change", "the largest change is the largest drop from a valid value to the next valid value, and its time is that of the latter")
    ctx.rule("count", "moments and quantiles are taken with the number of values that went into them")
    counts(ctx)
    together(ctx)
    fallback(ctx)
    tsaorder.judge(ctx, "steps")
    for part in (stm, standards, cats, searches, folds, trends):
        try:
            part(ctx)
        except OverflowError as x:
            ctx.undecided("statistic", part.__name__, "too many alternatives in %s" % x)
            for _ in range(60):
                ctx.undecided("statistic", "%s not followed" % part.__name__, "too many alternatives")
    ctx.floor("statistic", 300)
    ctx.floor("count", 12)
