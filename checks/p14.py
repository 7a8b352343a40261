"""P14: spectral indices follow their documented formula, computed from the bands they name."""
import ast
import json
import os

import prog
from algebra import Alg, Rat, fn, guard, same_guard

ASSUMPTIONS = ["reflectances are stored times 10000",
               "decimal constants stand for their decimal value; rounding of the floating point arithmetic is not judged",
               "the spectral mixture analysis (constrained least squares) is not decided"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENTRY = "tsa_spectral_index"


def table():
    out = {}
    for line in open(os.path.join(HERE, "tables", "indices.txt"), encoding="utf-8"):
        if line.startswith("#") or not line.strip():
            continue
        n, b, s, f, c = [x.strip() for x in line.split("|")]
        out[n] = (b.split(), int(s), f, [x.strip() for x in c.split(";") if x.strip()])
    return out


def evaluate(t, env):
    """The quotient of polynomials a formula of the table stands for."""
    def go(e):
        if isinstance(e, ast.Expression):
            return go(e.body)
        if isinstance(e, ast.Constant):
            return Rat.const(e.value)
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.UnaryOp):
            return -go(e.operand)
        if isinstance(e, ast.Call):
            return fn(e.func.id, *[go(x) for x in e.args])
        if isinstance(e, ast.Compare):
            op = {ast.NotEq: "!=", ast.Eq: "==", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(e.ops[0])]
            return guard(go(e.left), op, go(e.comparators[0]))
        a, b = go(e.left), go(e.right)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b}[type(e.op)]()
    return go(ast.parse(t, mode="eval"))


def analyse(P, f, name, bands, kind):
    """Run the value numbering for one index. -> Alg or None"""
    files = {f.file}
    A = Alg(P, lambda g: g.file in files or g.name in ("strings_equal",) or g.file.endswith("string-cl.c") and len(g.params) == 2,
            {"find_domain": lambda i, a: Rat.atom("band:%s" % a[1]) if isinstance(a[1], str) else None, "cite_me": lambda i, a: None})
    env = {}
    I = None
    for n, d, t in f.params:
        k = ("%s#%d" % (n, d), 0)
        if t.kind == "ptr":
            env[k] = ("a", ("@" + n, "^"))
            if t.el is not None and t.el.rec and any(x[0] == "band_names" for x in P.records[t.el.rec]["f"]) \
                    and any(x[0] == "type" for x in P.records[t.el.rec]["f"]):
                I = ("@" + n, "^")
        elif n == "idx":
            env[k] = 0
        else:
            env[k] = Rat.atom(n)
    if I is None:
        raise prog.Broken("the parameter with the index definition is not recognised")
    env[I + ("names", "^", "[0]")] = ("s", name)
    env[I + ("type", "^", "[0]")] = kind
    env[I + ("n_bands", "^", "[0]")] = len(bands)
    for i, b in enumerate(bands):
        env[I + ("band_names", "^", "[0]", "^", "[%d]" % i)] = ("s", b)
    A.finished = bool(A.run(f, env))
    return A


def split(a):
    """(base, field, indices) of the name of a term such as @ard[t].dat[b][p]."""
    out, depth, cur = [], 0, ""
    head = None
    for ch in a:
        if ch == "[":
            if depth == 0:
                if head is None:
                    head = cur
                elif cur:
                    out.append(cur)
                cur = ""
            else:
                cur += ch
            depth += 1
        elif ch == "]":
            depth -= 1
            if depth == 0:
                out.append("[" + cur)
                cur = ""
            else:
                cur += ch
        else:
            cur += ch
    if cur:
        if head is None:
            head = cur
        else:
            out.append(cur)
    return head or cur, out


def norm(g):
    """Bounds of absolute values are two bounds."""
    if isinstance(g, tuple) and g[1] == "<":
        for a in g[0].atoms():
            if isinstance(a, tuple) and a[0] == "sqrt" and g[0].same(-Rat.atom(a)):
                return [(-a[1], "<")]
    if isinstance(g, tuple) and g[1] in ("<", "<="):
        for a in g[0].atoms():
            if isinstance(a, tuple) and a[0] == "abs":
                x = Rat.atom(a)
                d = g[0] - x
                if a not in d.atoms():
                    return [(a[1] + d, g[1]), (-a[1] + d, g[1])]
    return [g]


def roots(gs):
    """A root that is not 0 of a number that is not negative: the number is above 0."""
    for g in list(gs):
        if isinstance(g, tuple) and g[1] == "<=":
            x = -g[0]
            zero = [h for h in gs if isinstance(h, tuple) and h[1] == "!=" and any(h[0].same(y) or h[0].same(-y) for y in (x, fn("sqrt", x)))]
            if zero:
                gs = [h for h in gs if h is not g and not any(h is z for z in zero)] + [(-x, "<")]
    return gs


def neg(g):
    if g[1] in ("<", "<="):
        return (-g[0], "<=" if g[1] == "<" else "<")
    return (g[0], "==" if g[1] == "!=" else "!=")


def near(g, h):
    return same_guard(g, h) or g[1] == h[1] and g[0].close(h[0])


def has(gs, g):
    return any(isinstance(x, tuple) and near(x, g) for x in gs)


def merge(sets):
    """Conditions of the same store on paths that only differ in a condition and its negation."""
    sets = [list(s) for s in sets]
    changed = True
    while changed and len(sets) > 1:
        changed = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                da = [x for x in a if not (isinstance(x, tuple) and has(b, x)) and x not in b]
                db = [x for x in b if not (isinstance(x, tuple) and has(a, x)) and x not in a]
                if not da or not db:
                    keep = b if not db else a          # the weaker one covers the other
                    sets[i:i + 1], sets[j:j + 1] = [keep], []
                    changed = True
                elif len(da) == 1 and len(db) == 1 and isinstance(da[0], tuple) and isinstance(db[0], tuple) and same_guard(neg(da[0]), db[0]):
                    sets[i] = [x for x in a if x is not da[0]]
                    del sets[j]
                    changed = True
                if changed:
                    break
            if changed:
                break
    return sets


def judge(ctx, A, name, bands, scale, formula, conds, where):
    good, other, nod = [], [], 0
    unclear = 0
    for e, p, v, gs in A.stores:
        head, rest = split(A.name(p))
        if head != "@ts.tss_":
            continue
        here = e.where()
        if v is None:
            unclear += 1
            continue
        r = A.rat(v)
        if r is not None and r.same(Rat.atom("nodata")):
            nod += 1
            continue
        idx = [x[1:] for x in rest if x.startswith("[")]
        if len(idx) != 2 or r is None:
            unclear += 1
            continue
        t, px = idx

        def dat(b):
            return Rat.atom("@ard[%s].dat[%s][%s]" % (t, b, px)) / Rat.const(10000)
        env = {b: dat("band:" + b) for b in bands}
        want = evaluate(formula, env)
        S = want * Rat.const(scale)
        if not r.close(S):
            # terms of other observations, pixels or unknown places
            atoms = {a for a in r.atoms() if isinstance(a, str)}
            if any("~" in a and not a.startswith("@") for a in atoms) or any("[*]" in a for a in atoms):
                unclear += 1
                continue
            other.append((here, r, S))
            continue
        good.append((here, roots([x for g in gs for x in norm(g)]), env, want, S, t, px))
    key = name
    if other:
        here, r, S = other[0]
        ctx.violate("formula", key, here, "the index %s is stored as %s, not as %s" % (name, str(r)[:400], str(S)[:400]))
        return
    if not good:
        if not A.stores and not A.finished:
            ctx.violate("available", key, where, "the documented index %s is not computed: the program ends instead" % name)
        else:
            ctx.undecided("formula", key, "no store of the index is recognised")
        return
    ctx.ok("formula", "%s %s" % (good[0][0], key))
    ctx.ok("available", "%s %s" % (where, key))
    ctx.judge(nod > 0 or unclear > 0, "nodata", key, where, "%s: nothing is set to nodata" % name)
    here, _, env, want, S, t, px = good[0]
    need = [evaluate(c, dict(env, V=want, S=S)) for c in conds]
    mask = guard(Rat.atom("@ard[%s].msk[%s]" % (t, px)), "!=", Rat.const(0))
    proc = guard(Rat.atom("@mask_[%s]" % px), "!=", Rat.const(0))
    for gs in merge([g[1] for g in good]):
        rest = []
        for g in gs:
            if isinstance(g, str):
                rest.append(g)
                continue
            a = {x for x in g[0].atoms() if isinstance(x, str)}
            if a and all(x.startswith("band:") for x in a) or same_guard(g, proc) or same_guard(g, mask):
                continue
            if any(near(g, x) for x in need):
                continue
            rest.append(g)
        blind = any(isinstance(g, str) or not all(isinstance(x, str) and x.startswith("@") or isinstance(x, tuple) for x in g[0].atoms()) for g in rest)
        if not has(gs, mask):
            if blind:
                ctx.undecided("valid", key, "conditions that are not understood")
            else:
                ctx.violate("valid", key, here, "%s is computed for observations that are not valid" % name)
        else:
            ctx.ok("valid", "%s %s" % (here, key))
        for x, c in zip(need, conds):
            if has(gs, x):
                ctx.ok("defined", "%s %s: %s" % (here, key, c))
            elif blind:
                ctx.undecided("defined", key, "conditions that are not understood")
            else:
                ctx.violate("defined", "%s:%s" % (key, c), here, "%s is stored without the condition %s" % (name, c))
        for g in rest:
            if not isinstance(g, str) and not blind:
                ctx.violate("lost", key, here, "valid observations are lost: %s is only stored where %s %s 0" % (name, g[0], g[1]))
                break
        else:
            ctx.ok("lost", "%s %s" % (here, key))


def check(ctx):
    P = ctx.prog
    ctx.rule("available", "every index of the index definitions is computed")
    ctx.rule("formula", "what is stored for an index is its documented formula of the documented bands, of the same observation and pixel, times the scale")
    ctx.rule("nodata", "an index is nodata where it is not computed")
    ctx.rule("valid", "an index is only computed for valid observations")
    ctx.rule("defined", "an index is only stored where the formula is defined and fits the image")
    ctx.rule("lost", "an index is stored for every valid observation for which the formula is defined")
    ctx.rule("definition", "the index definitions name the documented bands in the order in which the formula takes them")
    T = table()
    f = P.func(ENTRY)
    if f is None:
        raise prog.Broken("the entry point of the index computation is gone")
    where = f.body.where()
    path = os.path.join(prog.REPO, "misc", "runtime-data", "indices.json")
    try:
        D = json.load(open(path, encoding="utf-8"))
    except (OSError, ValueError) as e:
        ctx.violate("definition", "file", "misc/runtime-data/indices.json", "the index definitions cannot be read: %s" % e)
        D = {}
    for name, (bands, scale, formula, conds) in T.items():
        if name not in D:
            ctx.violate("definition", name, "misc/runtime-data/indices.json", "the documented index %s has no definition" % name)
            continue
        ctx.judge(sorted(D[name]) == sorted(bands), "definition", name, "misc/runtime-data/indices.json",
                  "%s is defined with the bands %s, documented are %s" % (name, D[name], bands))
        A = None
        try:
            A = analyse(P, f, name, D[name], P.enum_const["_INDEX_TYPE_EQUATION_"])
        except OverflowError:
            pass
        if A is None:
            ctx.undecided("formula", name, "too many paths")
            continue
        judge(ctx, A, name, bands, scale, formula, conds, where)
    for name in ("RED", "NIR", "VV"):
        try:
            A = analyse(P, f, name, [name], P.enum_const["_INDEX_TYPE_BAND_"])
        except OverflowError:
            ctx.undecided("formula", name, "too many paths")
            continue
        judge(ctx, A, name, [name], 10000, name, [], where)
    ctx.floor("formula", 20)
    ctx.floor("definition", 20)
