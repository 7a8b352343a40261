"""P16: the products that are written are the requested ones, under their names, with the bands they name."""
import os
import re
import time

import prog
import tsaorder
from omp import loop_var
from algebra import Alg, Rat
from constprop import text

ASSUMPTIONS = ["the text of band names, and the settings that switch products, are compared as terms over the settings",
               "products of which the tables are not built by stores and initialisers are not judged"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the functions that build the products of the modules, and the names of their arguments in the table
ENTRY = {"compile_tsa": "ard ts phl cube nt nr ni idx nproduct", "compile_level3": "ard l3 phl cube nproduct",
         "compile_lsm": "features lsm phl cube nproduct", "compile_ml": "features ml phl cube nproduct",
         "compile_txt": "features txt phl cube nproduct", "compile_lib": "features lib phl n_libraries cube nproduct",
         "compile_udf": "ard udf phl cube nt nproduct", "compile_cfi": "cf cfi ncf phl cube nproduct",
         "compile_l2i": "ard l2i nt phl cube nproduct"}
ENTRY_DATES = "ard ts phl nt nr ni"


# set before the decision whether the product is written
PLAIN = ("set_brick_name", "set_brick_product", "set_brick_dirname", "set_brick_provdir", "set_brick_filename", "set_brick_res",
         "set_brick_ncols", "set_brick_nrows", "set_brick_chunkncols", "set_brick_chunknrows")


def dnf(v):
    """A sum of products of settings as a set of sets; None if it is something else."""
    if v is None or v.d != Rat.const(1).n:
        return None
    return frozenset(frozenset(re.sub("@", "", str(a)) for a, n in m) for m in v.n)


def both(ws):
    """The conjunction of sums of products."""
    out = {frozenset()}
    for w in ws:
        if w is None:
            return None
        out = {x | y for x in out for y in w}
    return frozenset(x for x in out if not any(y < x for y in out))


class Products(Alg):
    """Follows the construction of the products with all (or no) products requested."""

    def __init__(self, P, f, want):
        self.made = []
        self.want = want
        names = {"set_date_year", "set_date_quarter", "set_date_month", "set_date_week", "set_date_doy", "set_date_ce"}
        super().__init__(P, lambda g: "higher-level" in g.file and g.name not in names)
        self.heap = True
        self.dates = []
        self.events_ = []        # (callee, [args], guards, call)
        self.limit = 3000
        self.root = f

    def state(self, cfg, b, env, counted):
        # products are independent of each other: one state per value of the counter is followed
        if counted and cfg.b[b].cond is not None:
            return tuple(str(self.val(x, env)) for x in cfg.b[b].cond.find("ref"))
        return super().state(cfg, b, env, counted)

    def setting(self, c, env):
        """Does the condition ask for something switched by settings (1), or for its absence (-1)?"""
        g = self.guards(c, True, env)
        if len(g) == 1 and isinstance(g[0], tuple) and isinstance(g[0][0], Rat):
            r, op = g[0]
            at = r.atoms()
            if not at or () in r.n or not all(isinstance(a, str) and a.startswith("@phl") for a in at):
                return 0
            neg = all(x < 0 for x in r.n.values())
            pos = all(x > 0 for x in r.n.values())
            if any(x.k == "ref" and x.name in self.P.enum_const for x in c.walk()):
                return 0                     # one of several methods
            if op in ("!=", "=="):
                return (1 if op == "!=" else -1) if pos or neg else 0
            return 1 if op == "<" and neg else -1 if op == "<=" and pos else 0
        return 0

    def choose(self, c, env):
        s = self.setting(c, env)
        if s:
            return self.want == (s > 0)
        g = self.guards(c, True, env)
        if len(g) == 1 and isinstance(g[0], tuple) and isinstance(g[0][0], Rat) and g[0][1] == "<":
            r = -g[0][0]
            if () not in r.n and len(r.n) == 1 and all(x > 0 for x in r.n.values()) and all(str(a)[:1] == "@" for a in r.atoms()):
                return True                    # numbers of images
        for n in c.up():
            if n.k == "if":
                t = n.c[1] if len(n.c) > 1 else None
                last = t.c[-1] if t is not None and t.k == "block" and t.c else t
                if last is not None and last.k == "return" and last.c and last.c[0] is not None:
                    v = last.c[0].strip()
                    if v.k in ("null", "int") and not any(x is c for x in t.walk()):
                        return False          # failures
                break
        return None

    def val(self, e, env):
        e = e.strip()
        if e.k == "bin" and e.op in ("&&", "||"):
            a, b = (self.rat(self.val(x, env)) for x in e.c)
            if a is not None and b is not None and all(isinstance(y, str) and y.startswith("@phl") for x in (a, b) for y in x.atoms()):
                r = a * b if e.op == "&&" else a + b
                return self.plain(r)
        if e.k == "cond" and len(e.c) == 3:
            v = [self.val(x, env) for x in e.c[1:]]
            if sorted(map(str, v)) == ["0", "1"] and v[0] in (1, True):
                c = self.rat(self.val(e.c[0], env))
                if c is not None:
                    return self.plain(c)
        return super().val(e, env)

    def refine(self, c, truth, env):
        if self.setting(c, env):
            if truth != (self.setting(c, env) > 0):
                return env
            whole, n, last = None, c, c
            for n in c.up():
                if n.k == "bin" and n.op in ("&&", "||") or n.k in ("cast", "paren"):
                    whole = n if n.k == "bin" and n.op == "||" else whole
                    last = n
                else:
                    break
            if not (n.k == "cond" and n.c[0] is last or n.k in ("if", "while", "for", "do")):
                return env           # part of a value
            if whole is not None:
                v = self.rat(self.val(whole, env))
                w = dnf(v)
            else:
                g = self.guards(c, True, env)[0]
                w = dnf(g[0])
            if w not in env.get(("W",), ()):
                env[("W",)] = env.get(("W",), ()) + (w,)
            return env
        return super().refine(c, truth, env)

    def ahead(self, cfg, b, env):
        t = super().ahead(cfg, b, env)
        c = cfg.b[b].cond
        if t and c is not None and c.strip().k == "bin" and any(isinstance(self.val(x, env), Rat) for x in c.strip().c):
            return None
        if t:
            loops = [x for x in cfg.b[b].cond.up() if x.k in ("for", "while", "do")]
            bounds = [self.val(y, env) for x in loops for c in x.c if c is not None and c.strip().k == "bin" and c.strip().op in ("<", "<=", "!=") for y in c.strip().c]
            size = 1
            for v in bounds:
                size *= v if isinstance(v, int) and v > 0 else 1
            if len(loops) > 1 and size > 1000:
                return None              # many bands: all of them are treated alike
        return t

    def term(self, v, env):
        if isinstance(v, tuple) and v[0] == "a":
            s = self.string(v, env)
            if s is not None:
                return s
            return "&" + self.name(v[1]) if all(isinstance(x, str) for x in v[1]) else None
        if isinstance(v, tuple):
            return v[1]
        return v

    def format(self, fmt, args, env):
        if fmt is None:
            return None
        it = iter(args)
        out = []
        for m in re.finditer(r"%%|%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|L|z|t|j)?([diouxXeEfgGcs])|[^%]+|%", fmt):
            if m[1]:
                v = self.term(next(it, None), env)
                if isinstance(v, str) and not v.startswith("@") and "%s" in m[0]:
                    out.append(v)
                elif isinstance(v, int) and m[1] in "di":
                    out.append(m[0] % v)
                else:
                    if v is None:
                        v = "?"
                    out.append("{%s:%s}" % (str(v).lstrip("@"), m[0]))
            else:
                out.append(m[0])
        return "".join(out)

    def put(self, v, s, env):
        if isinstance(v, tuple) and v[0] == "a":
            p = v[1]
            p = p[:-1] if p[-1] == "[0]" else p
            self.store(p, ("s", s) if s is not None else None, env)

    def call(self, c, env):
        n = c.callee
        a = [self.val(x, env) for x in c.args]
        gs = env.get(("W",), ())
        if n in ("snprintf", "sprintf"):
            k = 2 if n == "snprintf" else 1
            s = self.format(self.string(a[k], env), a[k + 1:], env)
            p = a[0][1] if isinstance(a[0], tuple) and a[0][0] == "a" else None
            self.put(a[0], s, env)
            return [(env, 1)]
        if n == "copy_brick":
            k = env.get(("brick",), 0)
            env[("brick",)] = k + 1
            self.events_.append((n, [k, self.term(a[1], env)], gs, c))
            env[("W",)] = ()
            return [(env, ("a", ("brick%d" % k, "^")))]
        if n and n.startswith("get_bands_") and a and isinstance(a[0], tuple):
            return [(env, ("a", ("bands", self.name(a[0][1]), "^")))]
        if n in ("set_date_year", "set_date_quarter", "set_date_month", "set_date_week", "set_date_doy", "set_date_ce"):
            v = self.term(a[1], env)
            self.put(a[0], "@%s(%s)" % (n[9:], v) if v is not None else None, env)
            return [(env, None)]
        if n == "get_brick_date":
            v = self.term(a[0], env)
            return [(env, ("s", "@date(%s)" % v) if v is not None else None)]
        if n in ("get_brick_sensor", "get_brick_compactdate"):
            v = self.term(a[0], env)
            self.put(a[2], "@%s(%s)" % (n[10:], v) if v is not None else None, env)
            return [(env, None)]
        if n == "compact_date":
            vs = [self.term(x, env) for x in a[:3]]
            self.put(a[3], "@ymd(%s)" % ",".join(str(v).lstrip("@") for v in vs) if None not in vs else None, env)
            return [(env, None)]
        if n == "copy_date":
            s = text(self.read(a[0][1], env)) if isinstance(a[0], tuple) and a[0][0] == "a" else None
            self.put(a[1], s, env)
            if s is not None and isinstance(a[1], tuple) and a[1][0] == "a":
                self.dates.append((a[1][1], s, c))
            return [(env, None)]
        if n == "basename_without_ext":
            v = self.term(a[0], env)
            self.put(a[1], "@base(%s)" % v if v is not None else None, env)
            return [(env, None)]
        if n == "strlen":
            s = self.string(a[0], env)
            if s is not None and s.startswith("@base"):
                return [(env, 1)]        # names that do not fit are replaced by numbers
        if n and n.startswith("set_brick_") and a and isinstance(a[0], tuple) and a[0][0] == "a" and str(a[0][1][0]).startswith("brick"):
            if n == "set_brick_date":
                d = c.args[2].strip()
                p = self.loc(d, env)
                v = text(self.read(p, env)) if p is not None else None
                args = [int(a[0][1][0][5:]), self.term(a[1], env), v]
            else:
                args = [int(a[0][1][0][5:])] + [self.term(x, env) for x in a[1:]]
            self.events_.append((n, args, gs, c))
            env[("W",)] = () if n not in PLAIN else gs
            return [(env, None)]
        if n and n.startswith("get_brick_") and len(a) == 1 and isinstance(a[0], tuple) and c.t is not None and c.t.is_num:
            v = self.term(a[0], env)
            if v is not None:
                return [(env, Rat.atom("@%s(%s)" % (n[10:], str(v).lstrip("&@"))))]
        if n in ("free_brick", "free", "printf", "free_ts_metadata"):
            return [(env, None)]
        return super().call(c, env)


def follow(P, f, want, limit=3000, heap=True):
    A = Products(P, f, want)
    A.limit = limit
    A.heap = heap
    A.deadline = time.process_time() + 150
    env = {}
    A.stack.append(f)
    names = (ENTRY_DATES if f.name == "compile_ts_metadata" else ENTRY.get(f.name, "")).split()
    for i, (nm, d, t) in enumerate(f.params):
        key = ("%s#%d" % (nm, d), len(A.stack))
        nm = names[i] if len(names) == len(f.params) else nm
        env[key] = ("a", ("@" + nm, "^")) if t.kind == "ptr" else Rat.atom("@" + nm)
    A.out = A.run(f, env)
    A.stack.pop()
    return A


def clean(s, index=None):
    """A term without the names of loop counters; the number of the band is #."""
    s = str(s).replace("@", "").replace("g:", "")
    s = re.sub(r"brick\d+", "product", s)
    if index is not None:
        s = re.sub(re.escape(str(index).replace("@", "")) + r"(?!\w)", "#", s)
    return re.sub(r"(\w+)~\d+", "~", s)


def conj(ws):
    """The settings that switch a product, as text."""
    w = both([x for x in ws if x != frozenset({frozenset({"phl.subfolders"})})])
    return None if w is None else " | ".join(sorted("&".join(sorted(x)) for x in w))


def describe(A):
    """{number of the product: {fact: set of values}}"""
    out, where = {}, {}

    def note(k, fact, v):
        out.setdefault(k, {}).setdefault(fact, set()).add(v)

    for n, args, w, c in A.events_:
        k = args[0]
        where.setdefault((k, n), c)
        if n == "copy_brick":
            note(k, "enabled by", conj(w))
            note(k, "bands", clean(args[1]) if args[1] is not None else None)
        elif n == "set_brick_open":
            if args[1] == A.P.enum_const.get("OPEN_FALSE"):
                continue
            note(k, "written if", conj(w) if isinstance(args[1], int) else None)
        elif n in ("set_brick_product", "set_brick_filename", "set_brick_dirname"):
            note(k, n[10:], clean(args[1]) if args[1] is not None else None)
        elif n in ("set_brick_bandname", "set_brick_domain", "set_brick_date", "set_brick_sensor", "set_brick_unit", "set_brick_wavelength"):
            if args[2] is None and n == "set_brick_date":
                continue
            out.setdefault(k, {}).setdefault((n[10:],), {}).setdefault(args[1], set()).add(
                clean(args[2], args[1]) if args[2] is not None and args[1] is not None else None)
    for e, p, v, g in A.stores:
        if isinstance(v, tuple) and v[0] == "a" and v[1][0] == "bands":
            note(int(v[1][1][5:]), "kept in", clean(A.name(p)))
    for k, d in out.items():
        for f in [x for x in d if isinstance(x, tuple)]:
            m = d.pop(f)
            fixed = {i: v for i, v in m.items() if isinstance(i, int)}
            loose = {i: v for i, v in m.items() if not isinstance(i, int)}
            if loose:
                d[f[0] + " of band #"] = {x for v in loose.values() for x in v}
            elif len({frozenset(v) for v in fixed.values()}) == 1 and len(fixed) > 1:
                d[f[0] + " of band #"] = next(iter(fixed.values()))
            else:
                for i, v in fixed.items():
                    d["%s of band %d" % (f[0], i)] = v
    return out, where


def products(P, name):
    """[(product, {fact: set}, {event: call})] of one module; raises OverflowError."""
    A = follow(P, P.func(name), True)
    d, where = describe(A)
    out = []
    for k in sorted(d):
        out.append((d[k].pop("product", {None}), d[k], {n: c for (q, n), c in where.items() if q == k}))
    return out


TABLE = os.path.join(HERE, "tables", "products.txt")


def table():
    out = {}
    with open(TABLE) as h:
        for l in h:
            l = l.rstrip("\n")
            if l and not l.startswith("#"):
                m, p, f, v = l.split("\t")
                out.setdefault(m, {}).setdefault(p, {})[f] = set(v.split(" ;; "))
    return out


EVENT = {"enabled by": "copy_brick", "bands": "copy_brick", "written if": "set_brick_open", "filename": "set_brick_filename",
         "dirname": "set_brick_dirname", "kept in": "copy_brick"}
WHAT = {"enabled by": "is prepared if", "bands": "has as many bands as", "written if": "is written if", "filename": "is written to file",
        "dirname": "is written to folder", "kept in": "is filled through"}


def agree(want, have):
    """True, False, or None if undecided."""
    if None in have or any("?" in x for x in have):
        if len(want) != len(have) or None in have:
            return None
    left = set(have)
    for w in want:
        if "{?" in w:
            r = re.escape(w).replace(r"\{\?", r"\{[^}]*?")
            hit = [x for x in left if re.fullmatch(re.sub(r"\\\{\[\^\}\]\*\?.*?\\\}", r"\\{[^}]*\\}", r), x)]
        else:
            hit = [x for x in left if x == w]
        if not hit:
            return None if any("?" in x for x in left) else False
        left.discard(hit[0])
    return not left


def modules(ctx, P):
    n = 0
    T = table()
    for name in ENTRY:
        rows = T[name]
        size = sum(map(len, rows.values()))
        f = P.func(name)
        try:
            have = products(P, name) if f is not None else None
        except OverflowError:
            have = None
        if have is None:
            for i in range(size):
                ctx.undecided("product", name, "the products cannot be followed")
            n += size
            continue
        known = {}
        open_ = False
        for prd, facts, where in have:
            if len(prd) == 1 and None not in prd:
                known[next(iter(prd))] = (facts, where)
            else:
                open_ = True
        for prd, facts in rows.items():
            n += len(facts)
            if prd not in known:
                if open_ or not known:
                    for i in facts:
                        ctx.undecided("product", "%s: %s" % (name, prd), "names of products unknown")
                else:
                    ctx.violate("product", "%s:%s" % (name, prd), f.body.where(), "no product is prepared under the name %s" % prd)
                continue
            have, where = known[prd]
            for fact, want in facts.items():
                got = have.get(fact)
                key = "%s:%s:%s" % (name, prd, fact)
                at = where.get(EVENT.get(fact, "set_brick_" + fact.split()[0]))
                at = at.where() if at is not None else f.body.where()
                r = agree(want, got) if got is not None else None
                if r is None:
                    ctx.undecided("product", key, "unknown value")
                elif r:
                    ctx.ok("product", key)
                else:
                    what = WHAT.get(fact, "has as " + fact)
                    ctx.violate("product", key, at, "the product %s %s %s, not %s" % (
                        prd, what, " / ".join(sorted(map(show, got))), " / ".join(sorted(map(show, want)))))
    return n


def show(s):
    return "'%s'" % (s if s else "(always)")


def tags(ctx, P):
    """Bands named by tables of tagged numbers: the table is in the order of the numbers."""
    n = 0
    for name, g in sorted(P.globals.items()):
        if not name.startswith("_TAGGED_ENUM_"):
            continue
        v = g["node"]
        init = v.c[-1] if v.k == "var" and v.c else None
        if init is None or init.strip().k != "init":
            continue
        rows = init.strip().c
        seen = {}
        for i, r in enumerate(rows):
            r = r.strip() if r is not None else None
            if r is None or r.k != "init" or len(r.c) < 2:
                continue
            e = r.c[0].strip()
            val = e.v if e.v is not None else P.enum_const.get(e.name)
            tag = next((x.a["s"] for x in r.c[1].walk() if x.k == "str"), None)
            if val is None or tag is None:
                ctx.undecided("tags", "%s[%d]" % (name, i), "unknown value")
                continue
            n += 1
            ctx.judge(val == i, "tags", "%s:%s" % (name, tag), r.where(),
                      "row %d of the names of %s names number %d: '%s' would be the name of something else" % (i, name, val, tag))
            if tag in seen:
                ctx.violate("tags", "%s:twice:%s" % (name, tag), r.where(), "'%s' names two things" % tag)
            seen[tag] = i
    return n


def metric(n):
    """The metric of which an expression is the position: the last member of a path over the statistics."""
    n = n.strip()
    if n.k == "mem" and n.c and n.c[0].strip().t is not None and "sta" in str(n.c[0].strip().t.canon):
        return n.name
    return None


def statistics(ctx, P):
    """Positions of metrics: found by the number of the metric, named by the metric."""
    n = 0
    for f in P.functions:
        if "higher-level" not in f.file:
            continue
        for c in f.body.find("if"):
            cond = c.c[0].strip()
            if cond.k != "bin" or cond.op != "==":
                continue
            e = [x.strip() for x in cond.c]
            name = next((x.name for x in e if x.k == "ref" and str(x.name).startswith("_STA_")), None)
            if name is None or not any(x.k == "idx" for x in e):
                continue
            body = c.c[1]
            for w in body.find("bin"):
                if w.op == "=" and metric(w.c[0]) and not any(x.k == "if" for x in w.up() if x is not c and any(y is x for y in body.walk())):
                    n += 1
                    m = metric(w.c[0])
                    ctx.judge("_STA_%s_" % m.upper() == name, "metric", "%s:%s" % (f.name, m), w.where(),
                              "the position of the metric %s is that of %s" % (m.upper(), name.strip("_")[4:]))
        for c in f.body.calls("copy_string"):
            d = c.args[0].strip()
            lit = next((x.a["s"] for x in c.args[2].walk() if x.k == "str"), None)
            if d.k == "idx" and metric(d.c[1]) and lit is not None:
                n += 1
                ctx.judge(metric(d.c[1]).upper() == lit, "metric", "%s:%s" % (f.name, metric(d.c[1])), c.where(),
                          "the product of the metric %s is named %s" % (metric(d.c[1]).upper(), lit))
    return n


def scans(ctx, P):
    """A search for the next selected entry covers the whole list of selected entries."""
    n = 0
    for f in P.functions:
        if "higher-level" not in f.file:
            continue
        for w in f.body.find("while", "for"):
            cond = next((x.strip() for x in w.c if x is not None and x.strip().k == "bin" and x.strip().op == "&&"), None)
            if cond is None:
                continue
            a, b = cond.c[0].strip(), cond.c[1].strip()
            if a.k != "bin" or a.op not in ("<", "<=") or b.k != "un" or b.op != "!":
                continue
            i = b.c[0].strip()
            if i.k != "idx" or i.c[0].strip().t is None or i.c[0].strip().t.kind != "arr":
                continue
            k, lim = a.c[0].strip(), a.c[1].strip()
            ext = i.c[0].strip().t.n
            if lim.v is None or i.c[1].strip().key != k.key or not ext:
                continue
            n += 1
            hi = lim.v + (1 if a.op == "<=" else 0)
            ctx.judge(ext - 1 <= hi <= ext, "scan", "%s:%s" % (f.name, i.c[0].strip().name), w.where(),
                      "the search of the next selected entry ends at %d of %d" % (hi, ext))
            if k.k == "ref":
                advance(ctx, f, w, k, i)
    return n


def advance(ctx, f, w, k, i):
    """The next search starts behind what was found."""
    own = {id(x) for x in w.walk()}
    B = f.cfg.b
    ends = [b for b in B if B[b].term is w and len(B[b].succ) == 2]
    if not ends:
        return
    moved = lambda e: id(e) not in own and (e.k == "un" and e.op in ("++", "p++", "&") or e.k == "bin" and e.op in ("=", "+=")) \
        and e.c[0].strip().k == "ref" and e.c[0].strip().a.get("d") == k.a.get("d")
    seen, work = set(), [B[b].succ[1] for b in ends]
    bad = False
    while work:
        b = work.pop()
        if b < 0 or b in seen:
            continue
        seen.add(b)
        if any(id(e) in own for e in B[b].els) or B[b].term is w:
            bad = True
            break
        if not any(moved(e) for e in B[b].els):
            work += B[b].succ
    ctx.judge(not bad, "scan", "%s:%s:next" % (f.name, i.c[0].strip().name), w.where(), "the next search finds the same entry again")


def saved(ctx, P):
    """All bands of a product are written."""
    for f in P.functions:
        if "higher-level" not in f.file:
            continue
        for c in f.calls("set_brick_save"):
            if len(c.args) != 3 or not any(x.name == "copy_brick" or x.callee == "copy_brick" for x in f.calls()):
                continue
            v, b = c.args[2].strip(), c.args[1].strip()
            if v.v is not None:
                ctx.judge(bool(v.v), "saved", f.name, c.where(), "a band of the product is not written")
            else:
                own = any(x.k == "ref" and b.k == "ref" and x.a.get("d") == b.a.get("d") for x in v.walk())
                ctx.judge(not own, "saved", f.name, c.where(), "whether a band is written depends on its number")


def monitored(ctx, P):
    """The layers of near real time monitoring are counted, dated and computed for the same observations."""
    got = {}
    for f in P.functions:
        if os.path.basename(f.file) not in ("tsa-hl.c", "interpolate-hl.c"):
            continue
        for n in f.find("bin"):
            if n.op not in ("<", "<=", ">", ">="):
                continue
            x, y, op = n.c[0].strip(), n.c[1].strip(), n.op
            if limit(x):
                x, y, op = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
            if limit(y) and not limit(x):
                # both `later` and its negation split at the same place
                got.setdefault(">" if op in (">", "<=") else ">=", []).append((f, n))
    if len(got) > 1:
        few = min(got.values(), key=len)
        f, n = few[0]
        ctx.violate("monitored", f.name, n.where(), "the last day of the fit belongs to the monitored days here, and not elsewhere")
    for v in got.values():
        for f, n in v:
            if len(got) == 1:
                ctx.ok("monitored", "%s %s" % (n.where(), f.name))


def limit(n):
    """The last day of the harmonic fit."""
    if n.k != "mem" or n.name != "ce":
        return False
    i = n.c[0].strip()
    return i.k == "idx" and i.c[0].strip().k == "mem" and i.c[0].strip().name == "harm_fit_range" and i.c[1].strip().v == 1


def dates(ctx, P):
    """The dates that go with the images in memory are those of the bands."""
    f = P.func("compile_ts_metadata")
    if f is None:
        return
    try:
        A = follow(P, f, True, 60, False)
    except OverflowError:
        return
    T = table()["compile_tsa"]
    have, at = {}, {}
    for p, s, c in A.dates:
        q = [x for x in p if x != "^"]
        m = re.fullmatch(r"d_(\w+)", str(q[-2])) if len(q) > 2 else None
        if m and str(p[-1]).startswith("["):
            have.setdefault(m[1].upper(), set()).add(clean(s, p[-1][1:-1]))
            at.setdefault(m[1].upper(), c)
    for k, v in sorted(have.items()):
        want = T.get(k, {}).get("date of band #")
        if want is None or k == "NRT":
            continue
        r = agree(want, v)
        if r is None:
            ctx.undecided("dates", k, "unknown value")
        else:
            ctx.judge(r, "dates", k, at[k].where(), "the dates of the product %s are %s, those of its bands %s" % (
                k, " / ".join(sorted(v)), " / ".join(sorted(want))))


def subscripts(n):
    """Root of a chain of subscripts, and the subscripts from the outermost table inwards."""
    n, ix = n.strip(), []
    while n.k == "idx":
        ix.append(n.c[1].strip())
        n = n.c[0].strip()
    return n, ix[::-1]


def layers(ctx, P):
    """In a loop over layers, what goes with a layer has the number of the layer."""
    for f in P.functions:
        for c in f.calls():
            if re.match(r"set_brick_(bandname|domain|date|sensor|unit|wavelength|nodata|scale)$", c.callee or "") and len(c.args) > 2:
                b, a = c.args[1].strip(), c.args[2].strip()
                while a.k == "mem":
                    a = a.c[0].strip()
                if b.k == "ref" and a.k == "idx":
                    ctx.judge(a.c[1].strip().v is None, "layer", "%s:%s" % (f.name, c.callee), c.where(),
                              "every band gets what belongs to one of them: %s" % re.sub(r"#\d+", "", a.key))
        for L in f.find("for"):
            d, tabs = loop_var(L), {}
            if d is None or L.c[3] is None:
                continue
            for n in L.c[3].find("idx"):
                if n.p is None or n.p.k == "idx" and n.p.c[0].strip() is n:
                    continue
                r, ix = subscripts(n)
                if r.k == "mem":
                    tabs.setdefault(re.sub(r"#\d+", "", r.key), []).append((ix, n))
            for k, l in tabs.items():
                if not any(ix[0].k == "ref" and ix[0].a.get("d") == d and n.p.k == "bin" and n.p.op == "=" and n.p.c[0].strip() is n
                           for ix, n in l):
                    continue
                bad = next((n for ix, n in l if ix[0].v is not None), None)
                ctx.judge(bad is None, "layer", "%s:%s" % (f.name, k), (bad or l[0][1]).where(),
                          "in a loop over the layers of %s, one layer is always the same" % k)


def switched(ctx, P):
    """Where the switch of a product is looked at, what is stored or worked on is this product."""
    pool, own = set(), {}
    for m, prods in table().items():
        for p, facts in prods.items():
            sw = {".".join(a.strip().split(".")[-2:]) for k in ("enabled by", "written if") for v in facts.get(k, ())
                  for a in re.split(r"[|&]", v) if re.match(r"\s*phl\.[\w.]+\.o\w+\s*$", a)}
            pool |= sw
            free = not any(a.strip() for a in facts.get("enabled by", ()))
            for v in facts.get("kept in", ()):
                r = re.match(r"\w+\.(\w+)", v)
                if r:
                    own.setdefault(r[1], set()).update(sw if not free else {"*"})
    own = {k: v for k, v in own.items() if v and "*" not in v}

    def atoms(c):
        c = c.strip()
        if c.k == "bin" and c.op == "&&":
            return atoms(c.c[0]) | atoms(c.c[1])
        if c.k == "bin" and c.op == "||":
            return atoms(c.c[0]) | atoms(c.c[1])
        if c.k == "mem":
            k = ".".join(re.sub(r"#\d+|\[\d+\]", "", c.key).replace("->", ".").split(".")[-2:])
            return {k} if k in pool else set()
        return set()

    for f in P.functions:
        if f.name.startswith("compile_"):
            continue
        for n in f.find("mem"):
            if n.name not in own:
                continue
            u, G = n, set()
            for a in n.up():
                if a.k == "if" and a.c[1] is not None and u is a.c[1]:
                    G |= atoms(a.c[0])
                elif a.k == "if" and u is a.c[0]:
                    G = set()
                    break
                u = a
            if G:
                ctx.judge(bool(G & own[n.name]), "switched", "%s:%s" % (f.name, n.name), n.where(),
                          "%s is worked on if %s is asked for" % (n.name, " or ".join(sorted(G))))


def check(ctx):
    P = ctx.prog
    ctx.rule("product", "every product of a module, followed from the table of products to the product it builds, is prepared and written "
             "for the settings, has the number of bands, the destination, the names and the bands listed in tables/products.txt")
    ctx.rule("tags", "the names of numbered things are listed in the order of the numbers, each name once")
    ctx.rule("metric", "the position of a statistical metric is found by, and its product named after, this metric")
    ctx.rule("layer", "in a loop over layers, what is stored for and told about a layer has the number of the layer")
    layers(ctx, ctx.prog)
    ctx.rule("switched", "where the switch of a product is looked at, what is stored or worked on is this product")
    switched(ctx, ctx.prog)
    ctx.rule("dates", "the dates used in the computation of a product are the dates of its bands")
    ctx.rule("scan", "searching the next selected day, week, month or quarter covers the whole list, and goes on behind what was found")
    ctx.rule("saved", "all bands of a product are written")
    ctx.rule("monitored", "the layers of near real time monitoring are counted, dated and computed for the same observations")
    modules(ctx, P)
    tags(ctx, P)
    statistics(ctx, P)
    scans(ctx, P)
    saved(ctx, P)
    monitored(ctx, P)
    tsaorder.judge(ctx, "steps")
    dates(ctx, P)
    ctx.floor("product", 1000)
    ctx.floor("tags", 150)


if __name__ == "__main__":
    import sys
    P = prog.load()
    for n in ENTRY if len(sys.argv) < 2 else sys.argv[1:]:
        for prd, facts, where in products(P, n):
            for f, v in facts.items():
                if None not in v:
                    print("%s\t%s\t%s\t%s" % (n, " ".join(map(str, prd)), f, " ;; ".join(sorted(v))))
