"""P15: spectral bands keep their identity from Level 1 to the higher-level products."""
import re
import json
import os
import constprop

import flags
import prog
from omp import loop_var
from algebra import Alg, Rat, guard, same_guard

ASSUMPTIONS = ["the documented tables of Level 1, Level 2 and higher-level bands say what a band is",
               "a variable that is named after a band stands for this band",
               "lists of bands built in other ways than by stores in one straight piece of code are not judged"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = ["ULTRABLUE", "BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR0", "SWIR1", "SWIR2"]
# names of variables that hold the number of a band
NAMES = {"ultrablue": "ULTRABLUE", "blue": "BLUE", "green": "GREEN", "red": "RED", "nir": "NIR", "bnir": "BROADNIR", "sw0": "SWIR0",
         "sw1": "SWIR1", "sw2": "SWIR2", "temp": "TEMP", "cirrus": "CIRRUS", "vapor": "VAPOR", "hot": "HOT", "dst": "DST", "vzn": "VZN",
         "swir1": "SWIR1", "swir2": "SWIR2", "thermal": "TEMP", "tir": "TEMP", "broadnir": "BROADNIR"}


def rows(name):
    for line in open(os.path.join(HERE, "tables", name), encoding="utf-8"):
        if line.strip() and not line.startswith("#"):
            yield [x.strip() for x in line.split("|")]


def offset(e, base, off):
    """(variable, offset) of an index expression; off: current offsets of the variables."""
    e = e.strip()
    if e.v is not None and e.k != "ref":
        return (None, e.v)
    if e.k == "ref" and "d" in e.a:
        return (e.a["d"], off.get(e.a["d"], 0))
    if e.k == "un" and e.op in ("p++", "p--") and e.c[0].strip().k == "ref":
        # the increment was counted as an element of its own, before the expression that uses it
        d = e.c[0].strip().a.get("d")
        return (d, off.get(d, 0) - (1 if e.op == "p++" else -1))
    if e.k == "un" and e.op in ("++", "--") and e.c[0].strip().k == "ref":
        d = e.c[0].strip().a.get("d")
        return (d, off.get(d, 0))
    if e.k == "bin" and e.op in ("+", "-"):
        a, b = offset(e.c[0], base, off), offset(e.c[1], base, off)
        if a and b and b[0] is None:
            return (a[0], a[1] + (b[1] if e.op == "+" else -b[1]))
    return None


def imports(f):
    """Lists of bands: [{position: {orig, domain, rsr}}] of the straight pieces of f."""
    out = []
    for x in f.cfg.b:
        blk = f.cfg.b[x]
        off, got, first = {}, {}, None
        for e in blk.els:
            if e.k == "un" and e.op in ("++", "--", "p++", "p--") and e.c[0].strip().k == "ref":
                d = e.c[0].strip().a.get("d")
                off[d] = off.get(d, 0) + (1 if e.op[-1] == "+" else -1)
            elif e.k == "bin" and e.op == "+=" and e.c[1].v is not None and e.c[0].strip().k == "ref":
                d = e.c[0].strip().a.get("d")
                off[d] = off.get(d, 0) + e.c[1].v
            elif e.k == "call" and e.callee in ("copy_string", "strncpy", "strcpy") and e.args:
                t = e.args[0].strip()
                if t.k == "mem" and t.name == "orig_band" and t.c[0].strip().k == "idx":
                    i = offset(t.c[0].strip().c[1], None, off)
                    s = e.args[-1].strip()
                    if i is not None and s.k == "str":
                        got.setdefault(i, {})["orig"] = s.a["s"]
                        first = first or e
            elif e.k == "call" and e.callee == "set_brick_domain" and len(e.args) == 3:
                i = offset(e.args[1], None, off)
                s = e.args[2].strip()
                if i is not None and s.k == "str":
                    got.setdefault(i, {})["domain"] = s.a["s"]
                    first = first or e
            elif e.k == "bin" and e.op == "=" and e.c[0].strip().k == "mem" and e.c[0].strip().name == "rsr_band":
                t = e.c[0].strip().c[0].strip()
                if t.k == "idx":
                    i, r = offset(t.c[1], None, off), offset(e.c[1], None, off)
                    if i is not None and r is not None:
                        got.setdefault(i, {})["rsr"] = r
        if first is not None and sum(1 for v in got.values() if "orig" in v and "domain" in v) >= 3:
            out.append((first, got))
    return out


def selects(node, P):
    """Condition on the number of the satellite under which a piece of code is reached: predicate or None."""
    tests = []
    child = node
    for a in node.up():
        if a.k == "if":
            kids = [c for c in a.c if c is not None]
            if any(x is child for x in kids[1:]):
                c = kids[0]
                refs = {r.name for r in c.find("ref") if "d" in r.a}
                if refs == {"lid"}:
                    tests.append((c, child is kids[1]))
        child = a

    def go(e, v):
        e = e.strip()
        if e.v is not None:
            return e.v
        if e.k == "ref":
            return v
        if e.k == "un" and e.op == "!":
            return not go(e.c[0], v)
        if e.k == "bin":
            a, b = go(e.c[0], v), go(e.c[1], v)
            if a is None or b is None:
                return None
            ops = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b,
                   "!=": lambda: a != b, "&&": lambda: bool(a) and bool(b), "||": lambda: bool(a) or bool(b)}
            return ops[e.op]() if e.op in ops else None
        return None
    return (lambda v: all(go(c, v) is None or bool(go(c, v)) == t for c, t in tests)) if tests else None


def floats(n):
    out = []
    for x in n.c:
        s = x.strip()
        if s.k == "un" and s.op == "-":
            v = s.c[0].strip().v
            out.append(-float(v) if v is not None else None)
        elif s.k in ("int", "flt") and s.v is not None:
            out.append(float(s.v))
        elif s.k == "zero":
            out.append(0.0)
        else:
            v = s.v
            out.append(float(v) if v is not None else None)
    return out


def centroid(P, i, cache={}):
    if "r" not in cache:
        g, w = P.globals.get("_RSR_"), P.globals.get("_WVL_")
        if g is None or w is None or g["node"] is None or w["node"] is None or not g["node"].c:
            return None
        cache["r"] = g["node"].c[0].c
        cache["w"] = floats(w["node"].c[0])
    if not 0 <= i < len(cache["r"]):
        return None
    r = floats(cache["r"][i])
    if None in r:
        return None
    s = sum(r)
    return sum(a * b for a, b in zip(r, cache["w"])) / s if s > 0 else 0.0


def sensor_of(n):
    """The sensor for which a statement is executed: of the case it belongs to, or of the comparison with its name."""
    child = n
    for a in n.up():
        if a.k == "case":
            return "LND%02d" % a.c[0].v if a.c[0].v is not None else None
        if a.k == "block" and a.p is not None and a.p.k == "switch":
            cur = None
            for c in a.c:
                if c is not None and c.k == "case":
                    cur = c.c[0].v
                if c is child:
                    return "LND%02d" % cur if cur is not None else None
        if a.k == "if" and len(a.c) > 1 and a.c[1] is child:
            for c in a.c[0].calls("strcmp", "strings_equal", "strstr"):
                for x in c.args:
                    if x.strip().k == "str":
                        return x.strip().a["s"]
        child = a
    return None


def starts(P, f):
    """[(sensor, first entry of the spectral responses, assignment)]"""
    out = []
    for n in f.find("bin"):
        if n.op == "=" and n.c[1].strip().k == "ref" and n.c[1].strip().name.startswith("_RSR_START_"):
            nm = n.c[1].strip().name
            g = P.globals.get(nm)
            v = None
            if g is not None and g["node"] is not None and g["node"].c:
                v = g["node"].c[0].strip().v
            out.append((sensor_of(n) or nm[len("_RSR_START_"):].strip("_"), v, n))
    return out


def level1(ctx, P):
    groups = {g: (s.split(), [tuple(x.split()) for x in b.split(";")]) for g, s, b in rows("bands.txt")}
    lists = [(f, a, b) for f in P.functions for a, b in imports(f)]
    orders = []
    for f, node, got in lists:
        byname = {v["orig"]: v for v in got.values() if "orig" in v and "domain" in v}
        score = {g: sum(1 for o, d, _, _ in bs if o in byname and byname[o]["domain"] == d) - abs(len(bs) - len(byname)) for g, (_, bs) in groups.items()}
        g = max(score, key=lambda x: score[x])
        sens, bs = groups[g]
        sel = selects(node, P)
        # sensors for which the list is used
        for g2, (s2, b2) in groups.items():
            if sel is None or not all(x.isdigit() for x in s2):
                continue
            for s in s2:
                if sel(int(s)):
                    same = [x[:2] for x in b2] == [x[:2] for x in bs]
                    ctx.judge(same, "sensor-list", "%s:%s" % (f.name, s), node.where(),
                              "the bands of Landsat %s are not imported with the list of this sensor" % s)
        for o, d, _, _ in bs:
            if o not in byname:
                ctx.violate("level1", "%s:%s:%s" % (f.name, g, o), node.where(), "Level 1 band %s (%s) is not imported" % (o, d))
            else:
                ctx.judge(byname[o]["domain"] == d, "level1", "%s:%s:%s" % (f.name, g, o), node.where(),
                          "Level 1 band %s is imported as %s, it is %s" % (o, byname[o]["domain"], d))
        pos = sorted((i[1], v) for i, v in got.items() if "domain" in v)
        orders.append((node, [v["domain"] for _, v in pos]))
        # spectral responses
        st = starts(P, f)
        for s, v, n in st:
            num = s[3:].lstrip("0")
            mine = s in sens or num in sens or (s.startswith("LND") and sel is not None and num.isdigit() and sel(int(num)))
            if not mine or v is None:
                continue
            own = P.globals.get("_RSR_START_%s_" % s)
            own = own["node"].c[0].strip().v if own is not None and own["node"] is not None and own["node"].c else None
            if own is not None:
                ctx.judge(own == v, "response", s, n.where(), "%s is processed with the spectral responses of another sensor" % s)
            spec = next((b for ss, b in groups.values() if s in ss or num in ss and s.startswith("LND")), bs)
            rng = {d: w for _, d, _, w in spec}
            for i, x in got.items():
                if "rsr" not in x or "domain" not in x or rng.get(x["domain"], "-") == "-":
                    continue
                lo, hi = [float(y) for y in rng[x["domain"]].split("-")]
                c = centroid(P, v + x["rsr"][1])
                if c is None:
                    ctx.undecided("response", "%s:%s" % (s, x["domain"]), "the table of spectral responses is not read")
                    continue
                ctx.judge(lo - 0.01 <= c <= hi + 0.01, "response", "%s:%s" % (s, x["domain"]), node.where(),
                          "the %s band of %s uses a spectral response around %.3f um, the band lies at %.3f-%.3f um" % (x["domain"], s, c, lo, hi))
    return orders


def tables(ctx, P, orders):
    """Tables of band names are in spectral order, and the output order follows the order of the import."""
    found = []
    for f in P.functions:
        for v in f.find("var"):
            if v.c and v.c[0] is not None and v.c[0].k == "init":
                found.append((f, v.name, v, v.c[0]))
    for nm, g in P.globals.items():
        if g["node"] is not None and g["node"].c and g["node"].c[0] is not None and g["node"].c[0].k == "init":
            found.append((None, nm, g["node"], g["node"].c[0]))
    n = 0
    for f, nm, node, init in found:
        if any(x.strip().k != "str" for x in init.c):
            continue
        s = [x.strip().a["s"] for x in init.c]
        if len(s) < 5 or not all(x in ORDER for x in s):
            continue
        key = "%s.%s" % (f.name, nm) if f else nm
        i = [ORDER.index(x) for x in s]
        ctx.judge(i == sorted(i) and len(set(i)) == len(i), "order", key, node.where(), "the bands of the table %s are not in spectral order: %s" % (nm, s))
        if f is not None and any(c.callee == "find_domain" and any(r.a.get("d") == node.a["d"] for r in c.find("ref")) for c in f.calls()) \
                and any(c.callee == "set_brick_domain" for c in f.calls()):
            for w, o in orders:
                mine = [x for x in s if x in o]
                pos = [o.index(x) for x in mine]
                ctx.judge(pos == sorted(pos), "in-place", "%s:%d" % (key, n), node.where(),
                          "the bands are moved in place in the order %s, but the image holds them as %s: a band is overwritten before it is used" % (mine, o))
                n += 1


def sensors(ctx, P):
    base = os.path.join(prog.REPO, "misc", "runtime-data", "sensors")
    for d, name, bands in rows("sensors.txt"):
        p = os.path.join(base, d + ".json")
        rel = "misc/runtime-data/sensors/%s.json" % d
        try:
            J = json.load(open(p, encoding="utf-8"))
        except (OSError, ValueError) as e:
            ctx.violate("sensor", d, rel, "the definition of the documented sensor %s cannot be read: %s" % (d, e))
            continue
        want = [tuple(x.split()) for x in bands.split(";")]
        ctx.judge(J.get("name") == name, "sensor", d + ":name", rel, "sensor %s is looked for as %s, its products are named %s" % (d, J.get("name"), name))
        have = J.get("band_names", [])
        ctx.judge(J.get("bands") == len(have) == len(want), "sensor", d + ":number", rel,
                  "sensor %s has %s bands and %d names, documented are %d" % (d, J.get("bands"), len(have), len(want)))
        num = J.get("band_numbers") or list(range(1, len(have) + 1))
        pos = dict(zip(have, num))
        for n, b in want:
            if b not in pos:
                ctx.violate("sensor", "%s:%s" % (d, b), rel, "sensor %s has no band %s" % (d, b))
            else:
                ctx.judge(pos[b] == int(n), "sensor", "%s:%s" % (d, b), rel,
                          "%s of sensor %s is read from band %d of the product, it is band %s" % (b, d, pos[b], n))


def lookups(ctx, P):
    """Variables named after a band receive this band."""
    for f in P.functions:
        for c in f.calls():
            if c.callee != "find_domain" or len(c.args) != 2:
                continue
            s = c.args[1].strip()
            if s.k != "str":
                continue
            p = c.p
            while p is not None and p.k == "cast":
                p = p.p
            t = None
            if p is not None and p.k == "bin" and p.op == "=" and any(x is c for x in p.c[1].walk()):
                t = p.c[0].strip()
            elif p is not None and p.k == "var":
                t = p
            if t is None:
                continue
            nm = t.name if t.k in ("ref", "var", "mem") else None
            if nm is None:
                continue
            n = nm.lower()
            for pre in ("band_", "b_", "i_"):
                if n.startswith(pre):
                    n = n[len(pre):]
            if n.endswith("_"):
                n = n[:-1]
            if n in NAMES:
                ctx.judge(NAMES[n] == s.a["s"], "lookup", "%s:%s" % (f.name, nm), c.where(),
                          "the variable %s receives the band %s" % (nm, s.a["s"]))


def search(ctx, P):
    """find_domain: the number of the band whose whole name is the one that is looked for."""
    f = P.func("find_domain")
    if f is not None:
        A = Alg(P, lambda g: g.name in ("strings_equal",), {"strcmp": lambda i, a: Rat.atom("strcmp"), "get_brick_nbands": lambda i, a: Rat.atom("nb"),
                                                            "get_brick_domain": lambda i, a: None})
        env = {}
        for n, d, t in f.params:
            env[("%s#%d" % (n, d), 0)] = ("a", ("@" + n, "^"))
        try:
            outs = A.run(f, env)
        except OverflowError:
            outs = []
        calls = {c.callee for c in f.calls()}
        got = None
        walked = {c.args[1].strip().name for c in f.calls("get_brick_domain") if len(c.args) > 1 and c.args[1].strip().k == "ref"}
        if "strcmp" in calls:
            for e, v in outs:
                gs = e.get(("G",), ())
                if isinstance(v, Rat):
                    if not any(isinstance(a, str) and a.split("~")[0] in walked for a in v.atoms()):
                        continue
                    eq = any(isinstance(g, tuple) and same_guard(g, guard(Rat.atom("strcmp"), "==", Rat.const(0))) for g in gs)
                    lim = any(isinstance(g, tuple) and not {a for a in g[0].atoms() if isinstance(a, str)} <= {"strcmp", "nb"} for g in gs)
                    got = (got is not False) and eq and not lim
        part = calls & {"strstr", "strncmp", "strcasecmp", "strncasecmp", "strcasestr"}
        if part:
            ctx.violate("search", "find_domain", f.body.where(), "a band is found by a part of its name (%s): NIR is also part of BROADNIR" % ", ".join(sorted(part)))
        elif got is None:
            ctx.undecided("search", "find_domain", "the comparison is not recognised")
        else:
            ctx.judge(got, "search", "find_domain", f.body.where(), "the number that is returned is not the one of the band with the requested name")
        # the comparison takes the name of the band that is returned
        for c in f.calls():
            if c.callee == "get_brick_domain" and len(c.args) >= 2:
                i = c.args[1].strip()
                rets = [r.c[0].strip() for r in f.find("return") if r.c and r.c[0] is not None]
                copies = {x.c[0].strip().a.get("d") for x in f.find("bin") if x.op == "=" and x.c[0].strip().k == "ref"
                          and x.c[1].strip().k == "ref" and x.c[1].strip().a.get("d") == i.a.get("d")}
                names = [r for r in rets if r.k == "ref" and r.a.get("d") not in copies]
                if i.k == "ref" and names:
                    ctx.judge(all(r.a.get("d") == i.a.get("d") for r in names), "search", "find_domain:number", c.where(),
                              "the name of band %s is compared, but %s is returned" % (i.name, names[0].name))
    f = P.func("get_band_numbers_to_read")
    if f is not None:
        A = Alg(P, lambda g: False, {"vector_contains_pos": lambda i, a: None, "alloc_2D": lambda i, a: None})
        tr = lambda v: A.name(v[1]) if isinstance(v, tuple) and v[0] == "a" else str(v)
        old = A.call

        def call(c, env):
            if c.callee == "vector_contains_pos":
                a = [A.val(x, env) for x in c.args]
                if None in a:
                    return [(env, None)]
                return [(env, Rat.atom("pos(%s|%s|%s)" % tuple(tr(x) for x in a)))]
            return old(c, env)
        A.call = call
        env = {}
        for n, d, t in f.params:
            env[("%s#%d" % (n, d), 0)] = ("a", ("@" + n, "^"))
        try:
            A.run(f, env)
        except OverflowError:
            pass
        last = {}
        for e, p, v, g in A.stores:
            nm = A.name(p)
            if ".band_number[" in nm:
                last[nm] = (e, v)
        if not last:
            ctx.undecided("numbers", "get_band_numbers_to_read", "no store is recognised")
        for nm, (e, v) in last.items():
            i = nm[nm.index(".band_number[") + len(".band_number["):-1].split("][")
            if len(i) != 2 or not isinstance(v, Rat):
                ctx.undecided("numbers", nm, "the value is not recognised")
                continue
            want = "pos(@band_names[%s]|@nbands[%s]|@sen.band_names[%s])" % (i[0], i[0], i[1])
            ctx.judge(v.same(Rat.atom(want) + Rat.const(1)), "numbers", "get_band_numbers_to_read", e.where(),
                      "the number of the band to read is %s, it should be the position of the band in the sensor's definition plus 1" % v)
    # the band that is read is the one whose name the image gets
    for f in P.functions:
        numbers, names = [], []
        for n in f.find("idx"):
            b = n.c[0].strip()
            if b.k == "idx" and b.c[0].strip().k == "mem" and b.c[0].strip().name == "band_number":
                numbers.append((n.c[1].strip(), n))
        for c in f.calls():
            if c.callee in ("set_brick_domain", "set_brick_bandname") and len(c.args) == 3:
                s = c.args[2].strip()
                if s.k == "idx" and s.c[0].strip().k == "mem" and s.c[0].strip().name == "band_names":
                    names.append((s.c[1].strip(), c))
        if numbers and names:
            ids = {x.a.get("d") for x, _ in numbers if x.k == "ref"}
            for x, c in names:
                if x.k == "ref":
                    ctx.judge(x.a.get("d") in ids, "named", "%s:%s" % (f.name, c.callee), c.where(),
                              "the image gets the name of band %s, but another band was read" % x.name)
                tgt = c.args[1].strip()
            slots = set()
            for x, c in names:
                t = c.args[1].strip()
                if t.k == "ref":
                    slots.add(t.a.get("d"))
            for c in f.calls():
                if c.callee in ("get_band_short", "get_band_small") and len(c.args) == 2 and slots:
                    t = c.args[1].strip()
                    if t.k == "ref" and any(a.k in ("for", "while") and any(x[1] in list(a.walk()) for x in names) for a in c.up()):
                        ctx.judge(t.a.get("d") in slots, "named", "%s:%s" % (f.name, c.callee), c.where(),
                                  "the data are read into band %s, but another band gets the name" % t.name)


def common(ctx, P):
    """The bands of several sensors are put together from all sensors."""
    lst = ("NIR", "BROADNIR", "RED")
    for name in ("vector_contains", "vector_contains_pos"):
        f = P.func(name)
        if f is None or len(f.params) != 3:
            continue
        for w in lst + ("BROAD", "RE", "red", "REDEDGE1"):
            C = constprop.Const(P, set(), lambda g: g.rel.endswith("/string-cl.c"))
            env = {("V",) + (("[%d]" % i,) if i else ()): ("s", x) for i, x in enumerate(lst)}
            for (n, d, t), v in zip(f.params, (("a", ("V",)), 3, ("s", w))):
                env[("%s#%d" % (n, d), 0)] = v
            out = {v for _, v in C.run(f, env)}
            pos = lst.index(w) if w in lst else -1
            if len(out) != 1 or None in out:
                ctx.undecided("search", "%s:%s" % (name, w), "result not constant")
                continue
            v = out.pop()
            ctx.judge(v == pos if name.endswith("pos") else bool(v) == (pos >= 0), "search", "%s:%s" % (name, w), f.body.where(),
                      "the band %s is looked for among %s: the result is %s" % (w, ", ".join(lst), v))
    for f in P.functions:
        if os.path.basename(f.file) not in ("sensor-hl.c", "string-cl.c", "index-parse-hl.c"):
            continue
        for L, d, name, ns, why in flags.flags(f):
            ctx.judge(why is None, "common", "%s:%s" % (f.name, name), ns[0].where(),
                      "%s stands for all elements of the list, but is %s: only the last one counts" % (name, why))
        if os.path.basename(f.file) == "string-cl.c":
            continue
        tested = []
        for c in f.calls("vector_contains", "vector_contains_pos"):
            if len(c.args) != 3:
                continue
            v, n, w = [x.strip() for x in c.args]
            if v.k == "idx" and n.k == "idx":
                ctx.judge(v.c[1].strip().key == n.c[1].strip().key, "common", "%s:%s:length" % (f.name, w.key), c.where(),
                          "the names of one sensor are searched with the number of names of another")
                i = v.c[1].strip()
                L = next((a for a in c.up() if a.k == "for" and i.k == "ref" and a.c[0] is not None
                          and any(x.a.get("d") == i.a.get("d") for x in a.c[0].walk() if x.k in ("var", "ref"))), None)
                if L is not None:
                    lo, n_ = first(L, i), bound(L, i)
                    if lo is None or n_ is None:
                        ctx.undecided("common", "%s:%s:range" % (f.name, w.key), "the loop over the sensors is not a counting loop")
                    else:
                        ctx.judge(lo in (0, 1) and n_.k in ("ref", "mem"), "common", "%s:%s:range" % (f.name, w.key), L.where(),
                                  "not all sensors are searched for a band")
            if w.k == "idx" and w.c[0].strip().key == v.key:
                ctx.violate("common", "%s:%s:itself" % (f.name, w.key), c.where(), "a name is searched in the list it is taken from: it is always found")
            fill = {x.args[0].strip().c[1].strip().key for x in f.calls("copy_string", "strcpy", "strncpy")
                    if x.args[0].strip().k == "idx" and x.args[0].strip().c[0].strip().key == v.key}
            if v.k == "ref" and len(fill) == 1 and all("(" not in k for k in fill):
                ctx.judge(n.key in fill, "common", "%s:%s:entries" % (f.name, v.key), c.where(),
                          "%s holds other entries than the first %s that are searched" % (v.name, n.key))
            tested.append(w)
        for c in f.calls("copy_string", "strcpy", "strncpy"):
            if not tested:
                break
            x = c.args[1 if c.a.get("fn") == "strncpy" else -1].strip()
            if x.k == "idx" and tested and all(t.k == "idx" for t in tested):
                ctx.judge(any(t.key == x.key for t in tested), "common", "%s:%s:name" % (f.name, x.key), c.where(),
                          "the band that is kept is not the one that was searched")


def first(L, i):
    for x in L.c[0].walk():
        if x.k == "var" and x.a.get("d") == i.a.get("d") and x.c:
            return x.c[0].strip().v
        if x.k == "bin" and x.op == "=" and x.c[0].strip().k == "ref" and x.c[0].strip().a.get("d") == i.a.get("d"):
            return x.c[1].strip().v
    return None


def bound(L, i):
    c = L.c[1].strip() if L.c[1] is not None else None
    if c is not None and c.k == "bin" and c.op == "<" and c.c[0].strip().k == "ref" and c.c[0].strip().a.get("d") == i.a.get("d"):
        return c.c[1].strip()
    return None


def first_dim(n):
    m = re.search(r"\[(\d+)\]", n.t.canon) if n.t is not None and n.t.canon else None
    return int(m[1]) if m else None


def looked(ctx, P):
    """Positions of bands that were looked up by name, and numbers that were found by comparing names."""
    for f in P.functions:
        tab, here = {}, {}
        for n in f.find("bin"):
            l, r = n.c[0].strip(), n.c[1].strip() if n.op == "=" else None
            if r is not None and r.k == "call" and r.callee == "find_domain" and l.k == "idx" and l.c[0].strip().k == "ref" and l.c[1].strip().k == "ref":
                L = next((u for u in n.up() if u.k == "for" and loop_var(u) == l.c[1].strip().a.get("d")), None)
                b = bound(L, l.c[1].strip()) if L is not None else None
                if b is not None:
                    tab[l.c[0].strip().a["d"]] = b
        for n in f.find("idx") if tab else ():
            m, e = n.c[0].strip(), n.c[1].strip()
            if m.k != "mem" or m.name != "dat":
                continue
            i = e.c[1].strip() if e.k == "idx" and e.c[0].strip().k == "ref" and e.c[0].strip().a.get("d") in tab else e
            if i.k != "ref":
                continue
            L = next((u for u in n.up() if u.k == "for" and loop_var(u) == i.a.get("d")), None)
            b = bound(L, i) if L is not None else None
            if b is None:
                continue
            same = lambda x: x.key == b.key or x.v is not None and x.v == b.v
            key = "%s:%s" % (f.name, re.sub(r"#\d+", "", n.key))
            if i is e:
                ctx.judge(not any(same(x) for x in tab.values()), "looked-up", key, n.where(),
                          "the bands are counted, although their positions were looked up by name")
            else:
                x = tab[e.c[0].strip().a["d"]]
                ctx.judge(same(x) or x.v is None or b.v is None, "looked-up", key, n.where(),
                          "%s positions were looked up, but %s are used" % (x.v, b.v))
        # tables that go with a table of names, and the band found for a name
        for n in f.find("bin"):
            l, r = n.c[0].strip(), n.c[1].strip() if n.op == "=" else None
            if r is None or r.k != "call" or r.callee != "find_domain" or l.k != "ref" or len(r.args) < 2:
                continue
            t = r.args[1].strip()
            if t.k != "idx" or t.c[0].strip().k != "ref" or t.c[1].strip().k != "ref":
                continue
            i, b, img = t.c[1].strip().a.get("d"), l.a.get("d"), r.args[0].strip().key
            L = next((u for u in n.up() if u.k == "for" and loop_var(u) == i), None)
            size = first_dim(t.c[0].strip())
            if L is None or not size or i == b:
                continue
            for x in L.c[3].find("idx"):
                a, e = x.c[0].strip(), x.c[1].strip()
                if a.k == "ref" and e.k == "ref" and first_dim(a) == size and e.a.get("d") in (i, b):
                    ctx.judge(e.a.get("d") == i, "looked-up", "%s:%s" % (f.name, re.sub(r"#\d+", "", x.key)), x.where(),
                              "%s belongs to the names that are looked up, but is used with the position of the band" % a.name)
            for c in L.c[3].calls():
                if re.match(r"[gs]et_brick(_|$)", c.callee or "") and len(c.args) > 1 and c.args[0].strip().key == img and c.args[1].strip().k == "ref" \
                        and c.args[1].strip().a.get("d") in (i, b):
                    ctx.judge(c.args[1].strip().a.get("d") == b, "looked-up", "%s:%s" % (f.name, c.callee), c.where(),
                              "the band of a name is looked up, but the number of the name is used")
        # numbers found by name
        found = []
        order = {n.id: k for k, n in enumerate(f.walk())}
        for L in f.find("for"):
            d = loop_var(L)
            if d is None or L.c[3] is None:
                continue
            for n in L.c[3].find("if"):
                hits = [c for c in n.c[0].calls("strcmp", "strings_equal") if any(
                    x.k == "idx" and x.c[1].strip().k == "ref" and x.c[1].strip().a.get("d") == d for a in c.args for x in a.walk())]
                if not hits or next((u for u in n.up() if u.k in ("for", "while", "do")), None) is not L:
                    continue
                eq = re.sub(r"#\d+", "", n.c[0].key)
                if "&&" in eq or "||" in eq or "!=" in eq:
                    continue
                for a in hits[0].args:
                    a = a.strip()
                    if a.k == "idx" and a.c[0].strip().k == "ref" and a.c[1].strip().k == "ref" and a.c[1].strip().a.get("d") == d and first_dim(a.c[0].strip()):
                        found.append((first_dim(a.c[0].strip()), d))
                end = max(order[x.id] for x in L.walk())
                after = sorted((x for x in f.find("ref") if x.a.get("d") == d and order[x.id] > end), key=lambda x: order[x.id])
                if not after:
                    continue
                u = after[0]
                if u.p is not None and u.p.k == "bin" and u.p.op == "=" and u.p.c[0].strip() is u:
                    continue
                stop = any(x.k in ("break", "return", "goto") or x.k == "call" and x.callee == "exit" for x in n.c[1].walk())
                ctx.judge(stop, "looked-up", "%s:%s" % (f.name, re.sub(r"#\d+", "", u.key)), n.where(),
                          "the search goes on after the name was found, so that %s is not its number afterwards" % u.name)
        for c in f.calls() if found else ():
            for g in P.resolve(c):
                for (pn, pd, pt), a in zip(g.params, c.args):
                    if pt.kind not in ("int", "uint") or a is None or a.strip().k != "ref":
                        continue
                    dims = {first_dim(x.c[0].strip()) for x in g.find("idx") if x.c[1].strip().k == "ref" and x.c[1].strip().a.get("d") == pd and
                            x.c[0].strip().k == "ref" and x.c[0].strip().a.get("dk") not in ("var", "parm")}
                    ok = [d for N, d in found if N in dims]
                    if ok:
                        s = a.strip().a.get("d")
                        good = s in ok or any(n.op == "=" and n.c[0].strip().a.get("d") == s and n.c[1].strip().k == "ref" and
                                              n.c[1].strip().a.get("d") in ok for n in f.find("bin"))
                        ctx.judge(good, "looked-up", "%s:%s:%s" % (f.name, g.name, pn), c.where(),
                                  "%s selects the row of a table, but is not the number that was found by name" % a.strip().name)


def check(ctx):
    P = ctx.prog
    ctx.rule("looked-up", "a band or sensor that is looked up by name is used with the number that was found")
    looked(ctx, P)
    ctx.rule("level1", "every Level 1 band is imported under its documented name")
    ctx.rule("sensor-list", "each Landsat sensor is imported with its own list of bands")
    ctx.rule("response", "the spectral response that is used for a band lies in the documented wavelengths of the band")
    ctx.rule("order", "tables of band names, which go with tables of values, are in spectral order")
    ctx.rule("in-place", "bands that are reordered in place are not overwritten before they are used")
    ctx.rule("sensor", "the definition of a sensor points every band to the documented band of its products")
    ctx.rule("lookup", "a variable that is named after a band receives this band")
    ctx.rule("search", "a band is found by its whole name")
    ctx.rule("numbers", "the band to read is the one that carries the requested name in the definition of the sensor")
    ctx.rule("named", "the image gets the name of the band that was read into it")
    ctx.rule("common", "a band counts as common to several sensors only when every one of them has it, and is searched in the sensor's own list")
    orders = level1(ctx, P)
    common(ctx, P)
    if not orders:
        for k in ("level1", "response", "sensor-list"):
            for i in range(40):
                ctx.undecided(k, str(i), "the lists of Level 1 bands are not recognised")
    tables(ctx, P, orders)
    sensors(ctx, P)
    lookups(ctx, P)
    search(ctx, P)
    ctx.floor("level1", 15)
    ctx.floor("sensor", 80)
    ctx.floor("lookup", 25)
