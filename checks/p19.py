"""P19: composites show the best observation.

The compositing functions are value numbered like the temporal statistics (see p17): what one iteration over the
observations makes of scores, counts, sums and the position of the best one, under which conditions. Formulas are
compared with the documented ones; the conditions under which an observation takes part are compared with the request
over all combinations of settings and scores."""
import itertools
import re
import time

from algebra import Rat, fn, guard
from p17 import Loop, Stats, holds, norm, subst
from p18 import Unclear, code, function

ASSUMPTIONS = [
    "arithmetic is over the real numbers",
    "the fit of the logistic scoring function (a numerical minimisation) and the phenology regression are not decided",
]

N = Rat.atom
ZERO, ONE = Rat({}), Rat.const(1)
WEIGHTS = dict(zip("dychrv", (2, 3, 5, 7, 11, 13)))
PARAMS = {
    "parametric_score": "ard nt p target cor score tdist bap",
    "bap_compositing": "ard l3 nt nb nodata p score tdist hmean hsd water bap",
    "bap_weighting": "ard l3 nt nb nodata p score tdist hmean hsd water bap",
    "haze_stats": "ard nt p score bap mean sd",
    "corr_matrix": "ard nt nb p cor",
    "pixel_is_water": "ard nt p",
    "water_score": "ard nt p score",
    "compile_target_static": "bap",
    "target_function": "bap target",
    "compile_target_adaptive": "bap lsp p nodata",
    "bap_overview": "l3 nx ny nb res nodata",
}


class Comp(Stats):
    def __init__(self, P, f, fixed=None):
        super().__init__(P, f, fixed)
        self.compound = []

    def call(self, c, env):
        n = c.callee
        if n and n.startswith("get_") and c.args:
            a = self.val(c.args[0], env)
            if isinstance(a, tuple) and a[0] == "a":
                name = self.name(tuple(x for x in a[1] if isinstance(x, str)))
                at = self.rat(self.val(c.args[1], env)) if n == "get_water" and len(c.args) > 1 else None
                return [(env, N("@%s(%s%s)" % (n[4:], name, "" if at is None else ", %s" % at)))]
        if n == "find_domain" and len(c.args) == 2:
            v = self.val(c.args[1], env)
            s = self.string(v, env) if isinstance(v, tuple) else None
            return [(env, N('@band("%s")' % s) if s else None)]
        if n in ("dequal", "fequal") and len(c.args) == 2:
            x = [self.rat(self.val(a, env)) for a in c.args]
            if None not in x:
                d = (x[0] - x[1]).value()
                if d is not None:
                    return [(env, int(abs(d) < 1e-6))]
                g = guard(x[0], "==", x[1])
                out = []
                for op, v in (("==", 1), ("!=", 0)):
                    s = dict(env)
                    k = self.known((g[0], op), s)
                    if k == 0:
                        continue
                    s[("G",)] = s.get(("G",), frozenset()) | {(g[0], op)}
                    out.append((s, v))
                return out
        if n == "memset" and len(c.args) == 3 and self.val(c.args[1], env) == 0:
            a = self.val(c.args[0], env)
            if isinstance(a, tuple) and a[0] == "a" and re.match(r"@score\[[^\[\]]*\]$", called(self, a[1])):
                for k in "tdychrv":
                    self.store(a[1] + (k,), 0, env)
                return [(env, None)]
        if n == "doy2ce" and len(c.args) == 2:
            x = [self.rat(self.val(a, env)) for a in c.args]
            return [(env, None if None in x else x[0] + Rat.const(365) * x[1])]
        return super().call(c, env)

    def choose(self, c, env):
        return None

    def product(self, e, env):
        """Name of the product layer a pointer expression stands for."""
        v = self.val(e, env)
        if isinstance(v, tuple) and v[0] == "a":
            n = called(self, v[1])
            if n.startswith("@l3."):
                return n
        return None

    def guards(self, c, truth, env):
        x = c.strip()
        if x.k == "bin" and x.op in ("==", "!="):
            for a, b in ((x.c[0], x.c[1]), (x.c[1], x.c[0])):
                n = self.product(a, env)
                if n and self.val(b, env) == 0:
                    return [(N("&" + n), "!=" if (x.op == "!=") == truth else "==")]
        elif x.k in ("mem", "ref"):
            n = self.product(x, env)
            if n:
                return [(N("&" + n), "!=" if truth else "==")]
        return super().guards(c, truth, env)

    def refine(self, c, truth, env):
        g = self.guards(c, truth, env)
        if len(g) == 1 and isinstance(g[0], tuple) and str(g[0][0]).startswith("&"):
            env[("G",)] = env.get(("G",), frozenset()) | {g[0]}
            return env
        return super().refine(c, truth, env)

    def val(self, e, env):
        x = e.strip()
        if x.k == "bin" and x.op in ("==", "!=") and any(y.t is not None and y.t.is_ptr for y in (z.strip() for z in x.c)):
            g = self.guards(x, True, env)
            if len(g) == 1 and isinstance(g[0], tuple) and str(g[0][0]).startswith("&"):
                return self.known(g[0], env)
        v = super().val(e, env)
        if v is None and e.strip().k == "idx":
            p = self.loc(e, env)
            if p is not None and p[0] == "heap" and len(p) == 3:
                return N("heap#%s" % p[2])
        return v

    def effect(self, e, env):
        if e.k == "bin" and e.op in ("+=", "-=", "*=", "/="):
            p = self.loc(e.c[0], env)
            if p is not None and p[0] == "heap":
                self.compound.append((e, p, e.op, self.rat(self.val(e.c[1], env)), env.get(("G",), frozenset())))
        return super().effect(e, env)


def follow(ctx, name, fixed=None, kind="scores"):
    P = ctx.prog
    f = P.func(name)
    if f is None or f._rawcfg is None:
        ctx.undecided(kind, name, "not found")
        return None, None
    A = Comp(P, f, fixed)
    A.deadline = time.process_time() + 60
    env = {}
    A.stack.append(f)
    names = PARAMS[name].split()
    if len(names) != len(f.params):
        ctx.undecided(kind, name, "other parameters")
        return None, None
    for nm, (n, d, t) in zip(names, f.params):
        env[("%s#%d" % (n, d), len(A.stack))] = ("a", ("@" + nm, "^")) if t.kind == "ptr" else N("@" + nm)
    try:
        A.out = A.run(f, env)
    except OverflowError:
        ctx.undecided(kind, name, "too many paths")
        return None, None
    A.stack.pop()
    return A, f


def called(A, p):
    return A.name(tuple(x for x in p if isinstance(x, str)))


def outer(A, what):
    """The loop whose counter indexes `what`."""
    pat = re.compile(re.escape(what) + r"\[([^\[\]]*)\]")
    got = {}
    for lk in A.backs:
        L = Loop(A, lk)
        if L.counter is None:
            continue
        t = str(L.at)
        n = 0
        for env, g in A.backs[lk]:
            for x in g:
                if isinstance(x, tuple):
                    n += sum(1 for a in x[0].atoms() for m in pat.findall(str(a)) if m == t)
        n += sum(1 for e, p, v, g in A.stores for m in pat.findall(called(A, p)) if m == t)
        if n:
            got[lk] = (n, L)
    return max(got.values(), key=lambda x: x[0])[1] if got else None


def same(a, b):
    return a is not None and b is not None and norm(a).close(norm(b))


def plainer(r):
    """Without the integer parts."""
    return subst(r, {}) if isinstance(r, Rat) else r


def last_values(A, env, prefix):
    out = {}
    for p, v in env.items():
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0].startswith("@"):
            n = called(A, p)
            if n.startswith(prefix):
                out[n[len(prefix):]] = plainer(A.rat(v))
    return out


def exp(x):
    return fn("exp", x)


# -- scores of one observation ------------------------------------------------------------------------------
def scores(ctx):
    E = ctx.prog.enum_const
    for typ in ("GAUSS", "SIG_DES", "SIG_ASC"):
        for comb in ("ADD", "MUL"):
            for off in ([""] + list(WEIGHTS) if typ == "GAUSS" else [""]):
                if "_SCR_TYPE_%s_" % typ not in E or "_SCR_COMB_%s_" % comb not in E:
                    ctx.undecided("scores", typ, "no such setting")
                    continue
                w = {k: (0 if k == off else v) for k, v in WEIGHTS.items()}
                fixed = {".w." + k: v for k, v in w.items()}
                fixed.update({".w.t": 41, ".score_type": E["_SCR_TYPE_%s_" % typ], ".combine": E["_SCR_COMB_%s_" % comb]})
                score(ctx, typ, comb, w, off, fixed)


def nearest(ctx, A, y, ce):
    """Is y the target year closest to the observation?"""
    lk, _ = A.atom[y]
    L = Loop(A, lk)
    if L.counter is None:
        return None
    d = fn("abs", ce - N("@target[%s].ce[1]" % L.at))
    dist = [a for a in L.atoms if a not in (y, L.counter)]
    if L.ranges() != {("0", "@bap.Yn")}:
        return False
    for a in dist:
        if not all(isinstance(v, int) and v >= 10 ** 7 for v in L.init[a]):
            continue
        ok = True
        for up, g in L.steps:
            v = plainer(up[a])
            if same(v, d) and up[y] is not None and up[y].same(L.at):
                ok &= any(holds((norm(d - N(a)), o), [(norm(plainer(x[0])), x[1]) for x in g if isinstance(x, tuple)]) for o in ("<", "<="))
            elif L.same(a, up) and L.same(y, up):
                ok &= any(holds((norm(N(a) - d), o), [(norm(plainer(x[0])), x[1]) for x in g if isinstance(x, tuple)]) for o in ("<", "<="))
            else:
                ok = False
        if ok:
            return True
    return False


def score(ctx, typ, comb, w, off, fixed):
    A, f = follow(ctx, "parametric_score", fixed)
    if A is None:
        return
    L = outer(A, "@score")
    if L is None:
        ctx.undecided("scores", f.name, "no loop over the observations")
        return
    tag = "%s:%s" % (typ, comb) + (":" + off if off else "")
    T = str(L.at)
    ctx.judge(L.ranges() == {("0", "@nt")}, "scores", "range:" + tag, f.body.where(), "scores are computed for the observations %s only" % sorted(L.ranges()))
    ce = N("@brick_ce(@ard[%s].DAT)" % T)
    msk = N("@ard[%s].msk[@p]" % T)
    dy2 = N("@brick_year(@ard[%s].DAT)" % T) - N("@bap.Yt")
    aux = lambda b: N("@ard[%s].aux[@bap.band_%s][@p]" % (T, b))
    sig = lambda x: ONE / (ONE + exp(x))
    k = Rat.const
    Ds = [N("@bap.Ds[%d]" % i) for i in range(3)]
    done = 0
    for env, g in A.backs[L.lk]:
        gs = [(plainer(x[0]), x[1]) for x in g if isinstance(x, tuple)]
        v = last_values(A, env, "@score[%s]." % T)
        td = last_values(A, env, "@tdist[%s]" % T).get("")
        if holds(guard(msk, "==", ZERO), gs):
            ctx.judge(v.get("t") is not None and v["t"].value() == 0, "scores", "masked:" + tag, f.body.where(), "the total score of an observation that is not valid is %s" % v.get("t"))
            continue
        ys = {a for x in [z for z in list(v.values()) + [td] if z is not None] for t in deep_atoms(x) for a in re.findall(r"@target\[([^\[\]]*)\]", t)}
        early = any(re.search(r"@target\[[^\[\]]*\]\.ce", str(x[0])) and x[1] == "<" and x[0].n and any(c for m, c in x[0].n.items() if not m and abs(c) > 600000) for x in gs)
        if early:
            for n in "dychrv":
                ctx.judge(v.get(n) is not None and v[n].value() == 0, "scores", "corrupt:" + n, f.body.where(),
                          "without a usable target date, the score %s of an observation is left as it was for another pixel" % n)
            continue
        if len(ys) != 1 or not list(ys)[0] in A.atom:
            ctx.undecided("scores", tag, "target year not followed")
            continue
        y = ys.pop()
        c = [N("@target[%s].ce[%d]" % (y, i)) for i in range(3)]
        a, b = N("@target[%s].a" % y), N("@target[%s].b" % y)
        near = nearest(ctx, A, y, ce)
        if near is None:
            ctx.undecided("nearest", tag, "loop over the years not followed")
        else:
            ctx.judge(near, "nearest", "parametric_score:" + tag, f.body.where(), "an observation is not scored against the target year closest to it")
        step = lambda lo, hi: (c[hi] - c[lo]) / ((N("@bap.Yr") + ONE) * N("@bap.Yf"))
        before = holds(guard(ce, "<", c[1]), gs)
        after = holds(guard(c[1], "<=", ce), gs)
        want = {}
        if typ == "GAUSS":
            if before == after:
                ctx.violate("scores", "side:" + tag, f.body.where(), "scores do not depend on whether an observation is before or after the target date")
                continue
            s, sl = (a, step(0, 1)) if before else (b, step(1, 2))
            want["d"] = Ds[1] * exp((ce - c[1]) * (ce - c[1]) / (k(-2) * s * s))
            want["y"] = Ds[1] * exp(dy2 * dy2 * sl * sl / (k(-2) * s * s))
            dist = ce - c[1]
        elif typ == "SIG_DES":
            dist = ce - c[0]
            if holds(guard(ce, "<", c[0]), gs):
                want["d"] = want["y"] = ZERO
            else:
                want["d"] = Ds[0] * sig(a * (ce - c[1]) + b)
                want["y"] = Ds[0] * sig(a * (c[0] + fn("abs", dy2) * step(0, 1) - c[1]) + b)
        else:
            dist = ce - c[2]
            if holds(guard(c[2], "<", ce), gs):
                want["d"] = want["y"] = ZERO
            else:
                want["d"] = Ds[2] * sig(a * (ce - c[1]) + b)
                want["y"] = Ds[2] * sig(a * (c[2] - fn("abs", dy2) * step(1, 2) - c[1]) + b)
        want["c"] = sig(k(-10) / N("@bap.dreq") * (aux("dst") - N("@bap.dreq") / k(2)))
        want["h"] = sig(k(1) / k(20) * (aux("hot") - N("@bap.hreq")))
        want["r"] = sig(k(-30) * N("@cor[%s][0]" % T) + k(20))
        vz = aux("vzn") / k(100)
        want["v"] = sig(k(10) / N("@bap.vreq") * (vz - N("@bap.vreq") / k(2)))
        if not w["v"] == 0 and (outside(gs, vz, 0, 180)):
            want["v"] = ZERO
        if off:
            want[off] = ZERO
        for n, x in want.items():
            if v.get(n) is None:
                ctx.undecided("scores", "%s:%s" % (n, tag), "value not followed")
                continue
            ctx.judge(same(v[n], x), "scores", "%s:%s" % (n, tag), f.body.where(), "the score %s is %s instead of %s" % (n, str(v[n])[:120], str(x)[:120]))
        if any(v.get(n) is None for n in "dychrvt"):
            ctx.undecided("scores", "t:" + tag, "value not followed")
        else:
            tot = ZERO if comb == "ADD" else ONE
            for n in WEIGHTS:
                if w[n]:
                    tot = tot + k(w[n]) * v[n] if comb == "ADD" else tot * (k(w[n]) * v[n])
            if comb == "ADD":
                tot = tot / k(41)
            ctx.judge(same(v["t"], tot), "scores", "t:" + tag, f.body.where(), "the total score is not the %s of the weighted scores" % ("sum" if comb == "ADD" else "product"))
        if td is None:
            ctx.undecided("scores", "tdist:" + tag, "value not followed")
        else:
            ctx.judge(same(td, dist), "scores", "tdist:" + tag, f.body.where(), "the distance to the target is %s instead of %s" % (td, dist))
        done += 1
    if not done:
        ctx.undecided("scores", tag, "no observation is scored")


def deep_atoms(r):
    for a in r.atoms():
        if isinstance(a, str):
            yield a
        else:
            for x in a[1:]:
                if isinstance(x, Rat):
                    yield from deep_atoms(x)


def outside(gs, x, lo, hi):
    for d, op in gs:
        if op in ("<", "<="):
            if (d - x).value() == -lo and (d - x).value() is not None and abs(float((d - x).value()) + lo) < 1e-9:
                return True
            v = (d + x).value()
            if v is not None and abs(float(v) - hi) < 1e-9:
                return True
            q = (d / x).value() if x.n else None
            if q is not None and q > 0 and lo == 0:
                return True
            for s in (1, 100):
                v = (d * Rat.const(s) + x * Rat.const(s)).value()
                if v is not None and abs(float(v) - hi * s) < 1e-6:
                    return True
    return False


# -- which observations take part ------------------------------------------------------------------------------
def admitted(ctx, A, f, L, used, settings):
    """used: function (values after, conditions) -> bool; settings: {name: values}; the request is REQUEST."""
    T = str(L.at)
    names = {"@ard[%s].msk[@p]" % T: "msk", "@bap.offsea": "off", "@bap.use_hazy": "hazy", "@bap.use_cloudy": "cloudy", "@bap.w.h": "wh", "@bap.w.c": "wc",
             "@hmean": "hm", "@hsd": "hs", "@score[%s].d" % T: "d", "@score[%s].h" % T: "h", "@score[%s].c" % T: "c"}
    free = ["@score[%s].t" % T] + [a for a in L.atoms]
    args = list(settings)
    paths = []
    for up, g in L.steps:
        mine = []
        for x in g:
            if not isinstance(x, tuple):
                raise Unclear("a condition is not followed")
            at = set(deep_atoms(x[0]))
            if any(a in free for a in at):
                continue
            if at <= {names_k for names_k in names}:
                mine.append("%s %s 0" % (code(x[0], names), x[1]))
            elif not any(T in a or a in names for a in at):
                continue
            else:
                raise Unclear(str(x[0]))
        paths.append((function(" and ".join(mine) or "True", args), used(up, g)))
    return args, paths


def request(msk, off, d, hazy, wh, h, hm, hs, cloudy, wc, c):
    if not msk or not off and d < 0.01:
        return False
    if not hazy and wh > 0 and h < 0.01 and hm > 0.01 and hs > 0.01:
        return False
    return bool(cloudy or wc <= 0 or c >= 0.01)


SET = {"msk": (0, 1), "off": (0, 1), "d": (0, .5), "hazy": (0, 1), "wh": (0, .5), "h": (0, .5), "hm": (-1, .5), "hs": (-1, .5), "cloudy": (0, 1), "wc": (0, .5), "c": (0, .5)}
SAY = {"msk": "valid", "off": "OFF_SEASON", "d": "seasonal score", "hazy": "USE_HAZY", "wh": "haze weight", "h": "haze score", "hm": "mean haze score", "hs": "standard deviation of the haze score",
       "cloudy": "USE_CLOUDY", "wc": "cloud weight", "c": "cloud score"}


def takes_part(ctx, A, f, L, used, key, settings=SET, want=request):
    try:
        args, paths = admitted(ctx, A, f, L, used, settings)
    except (Unclear, SyntaxError) as u:
        ctx.undecided("admitted", key, "not followed: %s" % u)
        return
    bad = None
    for vals in itertools.product(*settings.values()):
        got = {u for p, u in paths if p(*vals)}
        if got != {want(*vals)}:
            bad = bad or (vals, got)
    if bad:
        how = "ends the search" if not bad[1] else "sometimes takes part" if len(bad[1]) > 1 else "takes part" if True in bad[1] else "is left out"
        ctx.violate("admitted", key, f.body.where(), "an observation %s where %s" % (how, ", ".join("%s %s" % (SAY[a], v) for a, v in zip(args, bad[0]))))
    else:
        ctx.ok("admitted", f.body.where())
    r = L.ranges()
    ctx.judge(r == {("0", "@nt")}, "admitted", key + ":range", f.body.where(), "only the observations %s are considered" % sorted(r))


# -- selection -------------------------------------------------------------------------------------------------
SCR = {"_SCR_TOTAL_": "t", "_SCR_DOY_": "d", "_SCR_YEAR_": "y", "_SCR_DST_": "c", "_SCR_HAZE_": "h", "_SCR_CORREL_": "r", "_SCR_VZEN_": "v"}
INF = {"_INF_QAI_": "@ard[{0}].qai[@p]", "_INF_NUM_": None, "_INF_DOY_": "@brick_doy(@ard[{0}].DAT)", "_INF_YEAR_": "@brick_year(@ard[{0}].DAT)", "_INF_DIFF_": "@tdist[{0}]", "_INF_SEN_": "@brick_sensorid(@ard[{0}].DAT)"}


def selection(ctx):
    A, f = follow(ctx, "bap_compositing", kind="best")
    if A is None:
        return
    E = ctx.prog.enum_const
    L = outer(A, "@score")
    num = E.get("_INF_NUM_")
    count = {str(v) for e, p, v, g in A.stores if called(A, p) == "@l3.inf[%s][@p]" % num and A.rat(v) is not None and A.rat(v).value() is None}
    if L is None or len(count) != 1 or not list(count)[0] in A.atom:
        ctx.undecided("best", f.name, "loop over the observations or its count not followed")
        return
    n = count.pop()
    T = str(L.at)
    takes_part(ctx, A, f, L, lambda up, g: up[n] is not None and up[n].same(N(n) + ONE), "bap_compositing")
    ok = L.init[n] == {0} and all(L.same(n, up) or up[n] is not None and up[n].same(N(n) + ONE) for up, _ in L.steps)
    ctx.judge(ok, "best", "count:bap_compositing", f.body.where(), "the number of observations is not counted from 0 in steps of 1")
    best = {a for e, p, v, g in A.stores if isinstance(v, Rat) for t in deep_atoms(v) for a in re.findall(r"@(?:ard|score|tdist)\[([^\[\]]*)\]", t) if a in L.atoms}
    if len(best) != 1:
        ctx.judge(len(best) < 2, "best", "which:bap_compositing", f.body.where(), "parts of a composite are taken from different observations (%s)" % ", ".join(sorted(best)))
        if not best:
            ctx.undecided("best", f.name, "the selected observation is not followed")
        return
    m = best.pop()
    st = N("@score[%s].t" % T)
    good = False
    for a in L.atoms:
        if a in (m, n, L.counter) or not all(isinstance(v, (int, float)) and v <= 0 for v in L.init[a]):
            continue
        ok, moved, lost = True, 0, False
        before = L.init[m] and all(isinstance(v, (int, float)) and v < 0 for v in L.init[m])
        # nothing is selected yet, or something is
        unset = [guard(N(n), "==", ZERO), guard(N(n), "<=", ZERO), guard(N(n), "<", ONE)] + ([guard(N(m), "<", ZERO)] + [guard(N(m), "==", Rat.const(v)) for v in L.init[m]] if before else [])
        isset = [guard(N(n), "!=", ZERO), guard(ZERO, "<", N(n)), guard(ONE, "<=", N(n))] + ([guard(ZERO, "<=", N(m))] + [guard(N(m), "!=", Rat.const(v)) for v in L.init[m]] if before else [])
        for up, g in L.steps:
            if L.same(n, up):
                ok &= L.same(a, up) and L.same(m, up)
            elif up[a] is not None and up[a].same(st):
                moved += 1
                ok &= up[m] is not None and up[m].same(L.at) and (holds((N(a) - st, "<"), g) or holds((N(a) - st, "<="), g) or any(holds(x, g) for x in unset))
            else:
                lost |= not any(holds(x, g) for x in isset)
                ok &= L.same(a, up) and L.same(m, up) and (holds((st - N(a), "<="), g) or holds((st - N(a), "<"), g))
        if ok and moved:
            good = True
            ctx.judge(not lost or all(v <= -32768 for v in L.init[a]), "best", "start:bap_compositing", f.body.where(),
                      "observations take part, but none of them is selected where their scores are not above %s" % ", ".join(str(v) for v in L.init[a]))
    ctx.judge(good, "best", "bap_compositing", f.body.where(), "the selected observation is not the one with the highest total score of those that take part")
    some = (guard(ZERO, "<", N(n)), guard(N(n), "!=", ZERO), guard(ONE, "<=", N(n)))
    none = (guard(N(n), "<=", ZERO), guard(N(n), "==", ZERO), guard(N(n), "<", ONE))
    outputs(ctx, A, f, E, some, none, lambda layer, i: described(layer, i, m, n, E), "bap_compositing")


def described(layer, i, m, n, E):
    """What a layer of a composite holds, or None if it is not decided."""
    k = Rat.const
    if layer == "scr":
        for name, s in SCR.items():
            if E.get(name) == i:
                return k(10000) * N("@score[%s].%s" % (m, s))
    if layer == "inf":
        for name, t in INF.items():
            if E.get(name) == i:
                if t is None:
                    return N(n)
                x = N(t.format(m))
                return x + ONE if name == "_INF_SEN_" else x
    return None


def outputs(ctx, A, f, E, some, none, want, key):
    seen = set()
    pat = re.compile(r"@l3\.(\w+)\[(.*)\]\[@p\]$")
    nodata = N("@nodata")
    for e, p, v, g in A.stores:
        mt = pat.match(called(A, p))
        if not mt:
            continue
        layer, i = mt.groups()
        gs = [x for x in g if isinstance(x, tuple)]
        v = plainer(A.rat(v))
        what = "%s %s" % (layer, i if i.isdigit() else "band")
        if layer not in ("scr", "inf", "bap"):
            continue
        ctx.judge(holds((N("&@l3." + layer), "!="), gs), "requested", "%s:%s" % (key, layer), e.where(), "the %s layers are written without regard to whether they are requested (and allocated)" % layer)
        yes, no = any(holds(x, gs) for x in some), any(holds(x, gs) for x in none)
        if not yes and not no:
            if layer == "bap" and v is not None and "heap#" in str(v):
                continue
            ctx.judge(False, "layers", "%s:%s" % (key, what), e.where(), "%s is written whether or not there is an observation" % what)
            continue
        if layer == "bap" and v is not None and "heap#" in str(v):
            continue
        if no:
            ok = v is not None and (v.same(nodata) or layer == "inf" and v.value() is not None and i.isdigit() and int(i) in (E.get("_INF_QAI_"), E.get("_INF_NUM_")) and v.value() == (1 if int(i) == E.get("_INF_QAI_") else 0))
            if v is None:
                ctx.undecided("layers", "%s:%s" % (key, what), "value not followed")
            else:
                ctx.judge(ok, "layers", "%s:%s:nodata" % (key, what), e.where(), "%s is %s although no observation takes part" % (what, v))
            if ok:
                seen.add((layer, i if i.isdigit() else "*", False))
            continue
        if layer == "bap":
            x = N("@ard[%s].dat[%s][@p]" % (best_of(A, v), i)) if v is not None else None
            if v is None:
                ctx.undecided("layers", "%s:%s" % (key, what), "value not followed")
            elif want("bap", i) is None:
                ctx.judge(v.same(x), "layers", "%s:%s" % (key, what), e.where(), "the band %s of the composite is %s" % (i, v))
        else:
            if not i.isdigit():
                ctx.undecided("layers", "%s:%s" % (key, what), "layer not followed")
                continue
            x = want(layer, int(i))
            if x is None:
                continue
            if v is None:
                ctx.undecided("layers", "%s:%s" % (key, what), "value not followed")
            else:
                ctx.judge(same(v, x), "layers", "%s:%s" % (key, what), e.where(), "%s is %s instead of %s" % (what, str(v)[:120], str(x)[:120]))
        seen.add((layer, i if i.isdigit() else "*", True))
    for layer, names in (("scr", SCR), ("inf", INF)):
        for name in names:
            i = E.get(name)
            for w in (True, False):
                if w and want(layer, i) is None:
                    continue
                ctx.judge((layer, str(i), w) in seen or (layer, "*", w) in seen, "layers", "%s:%s %s:%s" % (key, layer, i, "missing" if w else "missing nodata"), f.body.where(),
                          "%s is never set %s" % (name.strip("_"), "for pixels with observations" if w else "to nodata for pixels without observations"))


def best_of(A, v):
    for t in deep_atoms(v):
        m = re.match(r"@ard\[([^\[\]]*)\]\.dat", t)
        if m:
            return m.group(1)
    return "?"


# -- weighting -------------------------------------------------------------------------------------------------
def weighting(ctx):
    A, f = follow(ctx, "bap_weighting", kind="mean")
    if A is None:
        return
    E = ctx.prog.enum_const
    L = outer(A, "@score")
    num = E.get("_INF_NUM_")
    count = {str(v) for e, p, v, g in A.stores if called(A, p) == "@l3.inf[%s][@p]" % num and A.rat(v) is not None and A.rat(v).value() is None}
    if L is None or len(count) != 1 or not list(count)[0] in A.atom:
        ctx.undecided("mean", f.name, "loop over the observations or its count not followed")
        return
    n = count.pop()
    T = str(L.at)
    takes_part(ctx, A, f, L, lambda up, g: up[n] is not None and up[n].same(N(n) + ONE), "bap_weighting")
    sums = {}
    for s in SCR.values():
        x = N("@score[%s].%s" % (T, s))
        for a in L.atoms:
            if a not in (n, L.counter) and L.init[a] == {0} and L.follows(a, n, lambda c, k, g: c + x, []):
                sums[s] = N(a)
    for s in SCR.values():
        if s not in sums:
            ctx.judge(False, "mean", "sum %s:bap_weighting" % s, f.body.where(), "the score %s is not summed up over the observations that take part" % s)
    if "t" not in sums:
        return
    tot = sums["t"]
    some = (guard(ZERO, "<", tot), guard(ZERO, "<", N(n)))
    none = (guard(tot, "<=", ZERO), guard(N(n), "<=", ZERO), guard(tot, "==", ZERO))

    def want(layer, i):
        if layer == "bap":
            return ZERO
        if layer == "inf":
            return N(n) if i == num else None
        for name, s in SCR.items():
            if E.get(name) == i and s in sums:
                return Rat.const(10000) * sums[s] / N(n)
    outputs(ctx, A, f, E, some, none, want, "bap_weighting")
    w = f.body.where()
    # the bands
    adds = [x for x in A.compound if x[2] in ("+=", "-=")]
    divs = [x for x in A.compound if x[2] in ("/=", "*=")]
    back = [(e, p, v) for e, p, v, g in A.stores if isinstance(v, Rat) and re.match(r"@l3\.bap\[.*\]\[@p\]$", called(A, p))]
    if not adds or not any("heap#" in str(v) for _, _, v in back):
        ctx.undecided("mean", "bands", "the sum of the bands is not followed")
        return
    for e, p, op, v, g in adds:
        b = p[2][1:-1]
        x = N("@ard[%s].dat[%s][@p]" % (T, b)) * N("@score[%s].t" % T)
        ctx.judge(op == "+=" and v is not None and v.same(x), "mean", "band sum:bap_weighting", e.where(), "the weighted mean sums up %s instead of band times total score" % v)
    ctx.judge(any(op == "/=" and v is not None and v.same(tot) for _, _, op, v, _ in divs), "mean", "division:bap_weighting", w, "the weighted sum of the bands is not divided by the sum of the weights")
    for e, p, v in back:
        b = called(A, p)[len("@l3.bap["):-len("][@p]")]
        if "heap#" in str(v):
            ctx.judge(plainer(v).same(N("heap#[%s]" % b)), "mean", "band:bap_weighting", e.where(), "band %s of the composite is %s" % (b, v))


# -- auxiliaries -----------------------------------------------------------------------------------------------
def haze(ctx):
    A, f = follow(ctx, "haze_stats", kind="haze")
    if A is None:
        return
    L = outer(A, "@score")
    if L is None:
        ctx.undecided("haze", f.name, "loop not followed")
        return
    cs = L.counts()
    if len(cs) != 1:
        ctx.undecided("haze", f.name, "count not followed")
        return
    n = cs[0]
    takes_part(ctx, A, f, L, lambda up, g: not L.same(n, up), "haze_stats", {k: SET[k] for k in ("msk", "off", "d")}, lambda m, o, d: bool(m and (o or d >= 0.01)))
    x = N("@score[%s].h" % L.at)
    m = {n: N("N")}
    from p17 import moments
    moments(L, n, x, "X", m)
    back = {str(v): a for a, v in m.items()}
    for e, p, v, g in A.stores:
        name = called(A, p)
        v = subst(A.rat(v), m) if A.rat(v) is not None else None
        if not name.startswith(("@mean", "@sd")) or v is None:
            continue
        gs = [(subst(y[0], m), y[1]) for y in g if isinstance(y, tuple)]
        if v.value() == -1:
            ctx.judge(holds(guard(N("N"), "<=", ZERO), gs) or holds(guard(N("N"), "==", ZERO), gs), "haze", name + ":none", e.where(), "%s of the haze score is unknown although there are observations" % name[1:])
        elif name.startswith("@mean"):
            ctx.judge(v.same(N("MX")), "haze", "mean", e.where(), "the mean haze score is %s" % str(v)[:100])
        else:
            ctx.judge(same(v, fn("sqrt", N("VX") / (N("N") - ONE))), "haze", "sd", e.where(), "the standard deviation of the haze score is %s" % str(v)[:100])


def cleared(P, f, d, seen=()):
    """Is the array set to something, whatever the data are, by the function, what it calls or what calls it?"""
    if f.name in seen or f._rawcfg is None:
        return False
    has = lambda n, x: any(y.k == "ref" and y.a.get("d") == x for y in n.walk())

    def inside(g, x, seen):
        for c in g.calls():
            for i, a in enumerate(c.args):
                if has(a, x):
                    if c.callee in ("memset", "bzero") and i == 0 or c.callee in ("alloc_2D", "calloc"):
                        return True
                    h = P.func(c.callee) if c.callee else None
                    if h is not None and h is not f and h.name not in seen and i < len(h.params) and h._rawcfg is not None and inside(h, h.params[i][1], seen + (g.name,)):
                        return True
        for b in g.find("bin"):
            if b.op == "=" and b.c[0].strip().k == "idx" and has(b.c[0].strip().c[0], x) and not any(u.k in ("if", "cond") for u in b.up()):
                v = b.c[1].strip()
                if v.v is not None or v.k in ("flt", "int", "un", "ref"):
                    return True
        return False
    if inside(f, d, seen):
        return True
    k = next((i for i, p in enumerate(f.params) if p[1] == d), None)
    for g in P.functions:
        for c in g.calls(f.name):
            if k is not None and k < len(c.args):
                v = c.args[k].strip()
                L = next((u for u in c.up() if u.k == "for"), None)
                if v.k == "ref" and L is not None:
                    for m in L.calls("memset", "bzero"):
                        if has(m.args[0], v.a.get("d")):
                            return True
    return False


def correlation(ctx):
    A, f = follow(ctx, "corr_matrix", kind="correlation")
    if A is None:
        return
    nodata = Rat.const(-9999)
    ctx.judge(cleared(ctx.prog, f, f.params[4][1]), "correlation", "fresh", f.body.where(),
              "correlations of another pixel are left where an observation has no valid pair")
    for e, p, v, g in A.stores:
        name = called(A, p)
        mt = re.match(r"@cor\[(.*)\]\[(.*)\]$", name)
        if not mt:
            continue
        t, u = mt.groups()
        v = A.rat(v)
        gs = [x for x in g if isinstance(x, tuple)]
        if v is None:
            ctx.undecided("correlation", name, "value not followed")
            continue
        atoms = [a for a in v.atoms()]
        if v.value() is not None:
            msk = [N("@ard[%s].msk[@p]" % i) for i in (t, u)]
            if not any("@ard" in str(d) or "sqrt" in str(d) for d, _ in gs) and all(
                    e.line < e2.line for e2, p2, v2, _ in A.stores if called(A, p2).startswith("@cor[") and A.rat(v2) is not None and A.rat(v2).value() is None):
                continue                      # cleared
            why = any(holds(guard(x, "==", ZERO), gs) for x in msk) or any(o == "==" and "sqrt" in str(d) for d, o in gs)
            ctx.judge(v.same(nodata) and why, "correlation", "nodata", e.where(), "the correlation of two valid observations is %s" % v)
            continue
        lks = {A.atom[a][0] for a in deep_atoms(v) if a in A.atom and a not in (t, u)}
        if len(lks) != 1:
            ctx.undecided("correlation", name, "sums not followed")
            continue
        L = Loop(A, lks.pop())
        if L.counter is None:
            ctx.undecided("correlation", name, "loop not followed")
            continue
        i = str(L.at)
        if u == "0" and "@cor" in str(v):
            # the mean of the absolute correlations
            k = N("@cor[%s][%s]" % (t, i))
            s = [a for a in L.atoms if a != L.counter]
            good = False
            for a in s:
                for b in s:
                    if a != b and same(v, (N(a) + fn("abs", k)) / (N(b) + ONE)):
                        good = L.init[a] == {0} and L.init[b] == {0}
                        for up, g2 in L.steps:
                            idle = L.same(a, up) and L.same(b, up)
                            if idle:
                                good &= holds(guard(k, "==", nodata), g2) or holds(guard(N(t), "==", L.at), g2)
                            else:
                                good &= same(up[a], N(a) + fn("abs", k)) and same(up[b], N(b) + ONE) and holds(guard(k, "!=", nodata), g2) and holds(guard(N(t), "!=", L.at), g2)
            good = good and L.ranges() == {("0", "@nt")}
            ctx.judge(good, "correlation", "mean", e.where(), "the correlation score of an observation is not the mean absolute correlation with the others")
            continue
        msk = [N("@ard[%s].msk[@p]" % x) for x in (t, u)]
        ctx.judge(all(holds(guard(x, "!=", ZERO), gs) for x in msk), "correlation", "valid", e.where(), "observations are correlated that need not be valid")
        ctx.judge(L.ranges() == {("0", "@nb")}, "correlation", "bands", e.where(), "correlation over the bands %s" % sorted(L.ranges()))
        # sums of products of deviations
        dev = {}
        m = {}
        for x in (t, u):
            val = N("@ard[%s].dat[%s][@p]" % (x, i))
            for up, g2 in L.steps:
                for a in L.atoms:
                    if up[a] is not None:
                        for y in deep_atoms(up[a]):
                            if y in A.atom and A.atom[y][0] != L.lk and y not in (t, u):
                                M = Loop(A, A.atom[y][0])
                                if M.counter and M.init.get(y) == {0} and M.ranges() == {("0", "@nb")} and all(
                                        z[y] is not None and z[y].same(N(y) + N("@ard[%s].dat[%s][@p]" % (x, M.at))) for z, _ in M.steps):
                                    dev[x] = val - N(y) / N("@nb")
        if len(dev) == 2:
            a, b = dev[t], dev[u]
            for nm, q in (("C", a * b), ("X", a * a), ("Y", b * b)):
                for z in L.atoms:
                    if z != L.counter and L.init[z] == {0} and all(up[z] is not None and up[z].same(N(z) + q) for up, _ in L.steps):
                        m[z] = N(nm)
        got = subst(v, m)
        ctx.judge(same(got, N("C") / fn("sqrt", N("X") * N("Y"))), "correlation", "pearson", e.where(), "the correlation of two observations is %s" % str(got)[:120])


def water(ctx):
    A, f = follow(ctx, "pixel_is_water", kind="water")
    if A is not None:
        L = outer(A, "@ard")
        good = None
        if L is not None:
            msk = N("@ard[%s].msk[@p]" % L.at)
            wat = N("@water(@ard[%s].QAI, @p)" % L.at)
            tot = [a for a in L.counts() if all((not L.same(a, up)) == holds(guard(msk, "!=", ZERO), g) for up, g in L.steps)]
            wet = [a for a in L.counts() if all((not L.same(a, up)) == (holds(guard(msk, "!=", ZERO), g) and holds(guard(wat, "!=", ZERO), g)) for up, g in L.steps)]
            good = len(tot) == 1 and len(wet) == 1 and L.ranges() == {("0", "@nt")}
            if good:
                n, k = N(tot[0]), N(wet[0])
                for env, r in A.out:
                    gs = [x for x in env.get(("G",), ()) if isinstance(x, tuple)]
                    if not isinstance(r, int):
                        good = None
                        break
                    if r:
                        good &= any(o in ("<", "<=") and same(d, Rat.const(9) / Rat.const(10) - k / n) for d, o in gs)
            if good is None:
                ctx.undecided("water", f.name, "result not followed")
            else:
                ctx.judge(good, "water", f.name, f.body.where(), "a pixel is not taken for water if and only if more than 90% of the valid observations are water")
        else:
            ctx.undecided("water", f.name, "loop not followed")
    A, f = follow(ctx, "water_score", kind="water")
    if A is None:
        return
    L = outer(A, "@score")
    if L is None:
        ctx.undecided("water", f.name, "loop not followed")
        return
    T = str(L.at)
    sw = N('@ard[%s].dat[@band("SWIR2")][@p]' % T)
    ni = N('@ard[%s].dat[@band("NIR")][@p]' % T)
    msk = N("@ard[%s].msk[@p]" % T)
    for env, g in A.backs[L.lk]:
        v = last_values(A, env, "@score[%s]." % T).get("t")
        gs = [x for x in g if isinstance(x, tuple)]
        if holds(guard(msk, "==", ZERO), gs):
            continue
        if v is None:
            ctx.undecided("water", f.name, "value not followed")
            continue
        sc = [N(a) for a in deep_atoms(v) if a.startswith("@brick_scale")]
        if not sc:
            ctx.undecided("water", f.name, "scale not followed")
            continue
        x = (sc[0] - sw) / sc[0]
        if holds(guard(ni, "<", sw), gs):
            x = x / Rat.const(2)
        elif not holds(guard(sw, "<=", ni), gs):
            x = None
        ctx.judge(x is not None and same(v, x), "water", "score", f.body.where(), "over water the total score is %s" % v)
    ctx.judge(L.ranges() == {("0", "@nt")}, "water", "range", f.body.where(), "only the observations %s are scored over water" % sorted(L.ranges()))


# -- target dates ----------------------------------------------------------------------------------------------
def targets(ctx):
    A, f = follow(ctx, "compile_target_static", kind="target")
    if A is not None:
        got = 0
        for e, p, v, g in A.stores:
            name = called(A, p)
            mt = re.search(r"\[([^\[\]]*)\]\.ce\[(\d)\]$", name)
            v = plainer(A.rat(v))
            if not mt:
                continue
            if v is None:
                ctx.undecided("target", name, "value not followed")
                continue
            y, i = mt.group(1), int(mt.group(2))
            D = [N("@bap.Dt[%d]" % k) for k in range(3)]
            gs = [x for x in g if isinstance(x, tuple)]
            shift = 0
            if i == 0 and holds(guard(D[1], "<", D[0]), gs):
                shift = -1
            if i == 2 and holds(guard(D[2], "<", D[1]), gs):
                shift = 1
            known = i == 1 or shift or i == 0 and holds(guard(D[0], "<=", D[1]), gs) or i == 2 and holds(guard(D[1], "<=", D[2]), gs)
            x = D[i] + Rat.const(365) * (N("@bap.Yt") - N("@bap.Yr") + N(y) + Rat.const(shift))
            got += 1
            ctx.judge(known and same(v, x), "target", "date %d" % i, e.where(), "the target date %d of a year is %s" % (i, v))
        if not got:
            ctx.undecided("target", f.name, "no target date")
    adaptive(ctx)
    E = ctx.prog.enum_const
    if "_SCR_TYPE_GAUSS_" not in E:
        return
    A, f = follow(ctx, "target_function", {".score_type": E["_SCR_TYPE_GAUSS_"]}, "target")
    if A is None:
        return
    for e, p, v, g in A.stores:
        mt = re.match(r"@target\[(.*)\]\.([ab])$", called(A, p))
        if not mt:
            continue
        y, s = mt.groups()
        v = plainer(A.rat(v))
        if v is None:
            ctx.undecided("target", s, "value not followed")
            continue
        i = 0 if s == "a" else 2
        c = [N("@target[%s].ce[%d]" % (y, k)) for k in range(3)]
        d = (c[i] - c[1]) / fn("sqrt", Rat.const(-2) * fn("log", N("@bap.Ds[%d]" % i) / N("@bap.Ds[1]")))
        ctx.judge(same(v, fn("abs", d)) or same(v, d) or same(v, -d), "target", "sigma " + s, e.where(), "the width of the seasonal score is %s" % str(v)[:120])


def adaptive(ctx):
    """Target dates from phenology: the one of the same year, or predicted for this year."""
    A, f = follow(ctx, "compile_target_adaptive", kind="target")
    if A is None:
        return
    got = 0
    for e, p, v, g in A.stores:
        mt = re.search(r"\[([^\[\]]*)\]\.ce\[(\d)\]$", called(A, p))
        v = plainer(A.rat(v))
        if not mt or v is None or v.value() is not None:
            continue
        y = mt.group(1)
        if y not in A.atom:
            ctx.undecided("target", "adaptive", "year not followed")
            continue
        L = Loop(A, A.atom[y][0])
        m = {}
        for a in L.atoms:
            if a != y and len(L.init[a]) == 1 and all(u[a] is not None and u[a].same(N(a) + ONE) for u, _ in L.steps):
                i = A.rat(next(iter(L.init[a])))
                if i is not None and L.init[y] == {0}:
                    m[a] = N(y) + i
        year = N("@bap.Yt") - N("@bap.Yr") + N(y)
        at = next((a for a in v.atoms() if isinstance(a, str) and re.match(r"heap#?\[.*\]$", a)), None)
        if at is not None:
            if not same(v, N(at)):
                ctx.undecided("target", "adaptive", "value not followed")
                continue
            i = linear(at[at.index("[") + 1:-1])
            if i is None:
                ctx.undecided("target", "adaptive", "index not followed")
                continue
            got += 1
            ctx.judge(same(subst(i, m), year - N("@bap.pac.y0")), "target", "adaptive year", e.where(),
                      "the target date of the year %s is the one of the year %s" % (year, subst(i, m) + N("@bap.pac.y0")))
        else:
            # a prediction
            x = subst(subst(v, m), {"@bap.Yt": N("year") + N("@bap.Yr") - N(y)})
            ctx.judge(not any(a in ("@bap.Yr", y) for a in deep_atoms(x)) and "year" in deep_atoms(x), "target", "adaptive prediction", e.where(),
                      "the target date is not predicted for the year it is the target of (%s)" % str(x)[:120])
            got += 1
    if not got:
        ctx.undecided("target", "adaptive", "no target date")


def linear(t):
    """A sum of terms as written by Rat."""
    r = ZERO
    for s, w in re.findall(r"([+-]?)\s*([^\s+-][^\s]*)", t):
        k = 1
        if re.match(r"\d+\*", w):
            k, w = int(w.split("*")[0]), w.split("*", 1)[1]
        if re.search(r"[*/()\[\]]", w):
            return None
        x = Rat.const(int(w)) if w.isdigit() else N(w)
        r = r + Rat.const(-k if s == "-" else k) * x
    return r


def overview(ctx):
    A, f = follow(ctx, "bap_overview", kind="overview")
    if A is None:
        return
    E = ctx.prog.enum_const
    colour = {E.get("_RGB_%s_" % c): c for c in "RGB"}
    for e, p, v, g in A.stores:
        mt = re.match(r"@l3\.ovv\[(\d+)\]\[(.*)\]$", called(A, p))
        if not mt:
            continue
        v = plainer(A.rat(v))
        gs = [(plainer(x[0]), x[1]) for x in g if isinstance(x, tuple)]
        if v is None:
            ctx.undecided("overview", mt.group(1), "value not followed")
            continue
        c = colour.get(int(mt.group(1)), "?")
        if v.value() is not None:
            ctx.judge(v.value() in (0, 255), "overview", c, e.where(), "a colour of the overview is %s" % v)
            continue
        lim = lambda hi: any(o in ("<", "<=") and bounded(d, v, hi) for d, o in gs)
        ctx.judge(lim(False) and lim(True), "overview", c + ":range", e.where(), "a colour of the overview, %s, is not kept between 0 and 255" % str(v)[:120])


def bounded(d, v, hi):
    """Does d <= 0 say that v is at most 255 (hi) or at least 0?"""
    x = v - Rat.const(255) if hi else -v
    if d.n and x.n:
        q = (x / d).value()
        if q is not None:
            return q > 0
        q = approx(x, d)
        return q is not None and q > 0
    return False


def approx(x, d):
    """The constant factor between two polynomials, up to rounding."""
    a, b = x, d
    n1, n2 = (a.n, b.n)
    if len(a.d) != 1 or len(b.d) != 1:
        q = (Rat(a.d) / Rat(b.d)).value()
        if q is None or q <= 0:
            return None
    if set(n1) != set(n2):
        return None
    r = [float(n1[k]) / float(n2[k]) for k in n1]
    return r[0] if all(abs(x - r[0]) < 1e-4 * abs(r[0]) for x in r) else None


# -- order of the steps ----------------------------------------------------------------------------------------
def steps(ctx):
    P = ctx.prog
    w = next((g for g in P.functions if g.name == "water_score"), None)
    if w is not None:
        ctx.judge(any(True for g in P.functions for _ in g.calls("water_score")), "steps", "water_score:called", "%s:%d" % (w.rel, w.line),
                  "the scores over water are never used")
    for f in P.functions:
        c = {n: list(f.calls(n)) for n in ("parametric_score", "haze_stats", "bap_compositing", "bap_weighting", "water_score", "corr_matrix")}
        if not c["parametric_score"] or not (c["bap_compositing"] or c["bap_weighting"]) or f._rawcfg is None:
            continue
        pos = {}
        blocks = list(f.cfg.b) if isinstance(f.cfg.b, dict) else range(len(f.cfg.b))
        for b in blocks:
            for i, e in enumerate(f.cfg.b[b].els):
                if e.k == "call" and e.callee in c:
                    pos.setdefault(e.callee, []).append((b, i))

        def reaches(x, y, stop):
            """Is there a way from after x to y that does not pass a call of `stop`?"""
            halt = {(b, i) for s in stop for b, i in pos.get(s, [])}
            seen, work = set(), [(x[0], x[1] + 1)]
            while work:
                b, i = work.pop()
                els = f.cfg.b[b].els
                hit = False
                while i < len(els):
                    if (b, i) == y:
                        return True
                    if (b, i) in halt:
                        hit = True
                        break
                    i += 1
                if hit:
                    continue
                for s in f.cfg.b[b].succ:
                    if s >= 0 and (s, 0) not in seen:
                        seen.add((s, 0))
                        work.append((s, 0))
            return False
        for later, first, name in (("haze_stats", "parametric_score", "haze statistics"), ("bap_compositing", "haze_stats", "selection"), ("bap_weighting", "haze_stats", "weighting"), ("water_score", "parametric_score", "score over water")):
            for y in pos.get(later, []):
                starts = [y] + [(f.cfg.entry, -1)] + pos.get("bap_compositing", []) + pos.get("bap_weighting", [])
                bad = any(reaches(x, y, (first,)) for x in starts)
                ctx.judge(not bad, "steps", "%s:%s" % (f.name, later), f.cfg.b[y[0]].els[y[1]].where(), "the %s of a pixel is done without the scores it needs" % name)
        for x in pos.get("water_score", []):
            for y in pos.get("parametric_score", []):
                bad = reaches(x, y, ("bap_compositing", "bap_weighting"))
                ctx.judge(not bad, "steps", f.name + ":overridden", f.cfg.b[y[0]].els[y[1]].where(), "the score over water is overwritten before it is used")


def check(ctx):
    ctx.rule("scores", "each score of an observation is the documented function of its date, distances and settings; the total is their weighted sum or product")
    ctx.rule("nearest", "an observation is scored against the closest target year")
    ctx.rule("admitted", "an observation takes part if and only if it is valid and the settings allow for it, whatever the scores")
    ctx.rule("best", "the selected observation is the one with the highest total score of those that take part")
    ctx.rule("layers", "all layers of a composite describe the selected observation; they are nodata if and only if there is none")
    ctx.rule("requested", "a layer is only written where it is requested")
    ctx.rule("mean", "the weighted mean is the sum of values times total scores over the sum of total scores")
    ctx.rule("haze", "haze statistics are taken over the observations that take part")
    ctx.rule("correlation", "the correlation score is the mean absolute correlation with the other valid observations")
    ctx.rule("water", "over water the scores favour a low shortwave infrared")
    ctx.rule("target", "target dates are the requested days of the years around the target year")
    ctx.rule("overview", "the colours of the overview are kept between 0 and 255")
    ctx.rule("steps", "the steps of a pixel follow each other such that each has what it needs")
    scores(ctx)
    selection(ctx)
    weighting(ctx)
    haze(ctx)
    correlation(ctx)
    water(ctx)
    targets(ctx)
    overview(ctx)
    steps(ctx)
    ctx.floor("scores", 40)
