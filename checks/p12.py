"""P12: text never overruns its buffer, is never cut silently, and is terminated before it is used."""
import re

from effects import ASSIGN
from facts import Facts, path, iszero
from lin import add
from own import failing
from text import Text, const, iform
from typestate import Typestate, assigned

ASSUMPTIONS = [
    "Buffers whose size cannot be traced to a declaration or an allocation are not judged (listed as undecided).",
    "Messages printed on a failure path may show text that was cut.",
]

PRINT = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1}
SHOW = {"printf", "fprintf", "perror", "fflush", "puts"}
CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L|q)?([diouxXcsfFeEgGaApn%])")
SIZE = {"hh": 4, "h": 4, None: 4, "l": 8, "ll": 8, "z": 8, "j": 8, "t": 8, "q": 8}


_facts = {}


def facts(P, f):
    F = _facts.get(id(f))
    if F is None:
        F = _facts[id(f)] = Facts(P, f)
    return F


def name(k):
    return re.sub(r"#\d+", "", k)


def arglist(a):
    """Operands of a format: (conversion, modifier, width, precision, 'value'|'star')."""
    out = []
    for m in CONV.finditer(a):
        fl, w, pr, mod, cv = m.groups()
        if cv == "%":
            continue
        if w == "*":
            out.append(("*", None, None, None))
        if pr == "*":
            out.append(("*", None, None, None))
        out.append((cv, mod, w, pr))
    return out


def maxlen(T, f, e):
    """Longest text e can hold (without the terminator), or None."""
    e = e.strip()
    if e.k == "str":
        return len(e.a.get("s", ""))
    if e.k == "cond":
        a, b = maxlen(T, f, e.c[1]), maxlen(T, f, e.c[2])
        return None if a is None or b is None else max(a, b)
    if e.t is None or not e.t.is_ptr:
        return None
    x = T.extent(f, e)
    if x is None:
        return None
    vs = [const(d) for d in x]
    if any(v is None for v in vs):
        return None
    return max(vs) - 1


def printed(T, f, c, fi):
    """Longest text a formatted print can produce, or None."""
    s = c.args[fi].strip()
    if s.k != "str":
        return None
    n = len(CONV.sub("", s.a["s"])) + s.a["s"].count("%%")
    i = fi + 1
    for cv, mod, w, pr in arglist(s.a["s"]):
        if i >= len(c.args):
            return None
        a = c.args[i]
        i += 1
        if cv == "*":
            return None
        k = None
        if cv in "diouxX":
            k = 22 if SIZE.get(mod) == 8 else 11
            t = a.strip().t
            if t is not None and t.kind in ("uchar", "bool") and t.size == 1:
                k = 4
        elif cv == "c":
            k = 1
        elif cv == "s":
            k = maxlen(T, f, a)
            if pr is not None:
                k = int(pr) if k is None else min(k, int(pr))
        elif cv in "fFeEgG":
            k = 330 if cv in "fF" else 32
        elif cv == "p":
            k = 20
        if k is None:
            return None
        if w is not None and w.isdigit():
            k = max(k, int(w))
        n += k
    return n


class Pending(Typestate):
    """Tokens: writes whose result has not been looked at (cut text), or that may lack the terminator."""

    def __init__(self, P, f, facts, cut, raw, hit):
        super().__init__(P, f, facts)
        self.cut, self.raw, self.hit = cut, raw, hit

    def elem(self, T, e, S):
        if e.k == "call":
            for t in T:
                kind, i = t
                dst = (self.cut if kind == "cut" else self.raw)[i][0]
                if e.id == i or e.callee in SHOW:
                    continue
                for a in e.args:
                    if a is not None and self.within(path(a), dst):
                        p = path(a)
                        if (e.id in self.cut and e.args[0] is a or e.id in self.raw and e.args[0] is a) and p == dst:
                            continue
                        if self.report:
                            self.hit(kind, self.f.byid[i], e)
            for t in list(T):
                dst = (self.cut if t[0] == "cut" else self.raw)[t[1]][0]
                if e.id != t[1] and (e.id in self.cut or e.id in self.raw or e.callee in ("copy_string", "memset", "fgets")) \
                        and e.args and path(e.args[0]) == dst:
                    T = T - {t}
                # the result goes to a function that may judge it
                v = self.cut[t[1]][1] if t[0] == "cut" else None
                if v is not None and e.id != t[1] and self.prog.resolve(e) and any(v in path(a) for a in e.args if a is not None):
                    T = T - {t}
            if e.id in self.cut:
                T = T | {("cut", e.id)}
            if e.id in self.raw:
                T = T | {("raw", e.id)}
        elif e.k == "un" and e.op in ("++", "p++") or e.k == "bin" and e.op == "+=":
            # the error is counted where the text is known to have been cut
            for t in list(T):
                v = self.cut[t[1]][1] if t[0] == "cut" else None
                if v is not None and any(len(x) == 2 and (x[0] == "(%s<0)" % v and x[1] or x[0].startswith("(%s<" % v) and not x[1] and
                                                          x[0] != "(%s<0)" % v) or
                                         len(x) == 4 and all(k.startswith("(%s<" % v) for k, _ in x[1]) for x in S):
                    T = T - {t}
        elif e.k == "bin" and e.op == "=" and e.c[0].strip().k in ("idx", "un") and zero(e.c[1]):
            b = e.c[0].strip()
            b = b.c[0].strip()
            p = path(b)
            for t in list(T):
                if t[0] == "raw" and (p == self.raw[t[1]][0] or b.k == "bin" and path(b.c[0]) == self.raw[t[1]][0]):
                    n = self.raw[t[1]][1]
                    i = e.c[0].strip().c[1] if e.c[0].strip().k == "idx" else None
                    v = const(add(iform(i), n, -1)) if i is not None else None
                    if v is None or v <= 0:
                        T = T - {t}
        return T

    @staticmethod
    def within(p, dst):
        return p == dst or p.startswith(dst + "[") or p.startswith("(" + dst + "+") or p.startswith("&(" + dst + "[")

    def edge(self, T, lits):
        for t in T:
            if t[0] == "cut":
                v, size = self.cut[t[1]][1:3]
                if v is None:
                    continue
                for k, pol in lits:
                    m = re.match(r"\((.*)<(.*)\)$", re.sub(r"\(%s=snprintf\(.*\)\)(?=<)" % re.escape(v), v, k))
                    if m and pol and m[1] == v and self.upto(m[2], size):
                        T = T - {t}
                    elif m and not pol and m[2] == v and self.below(m[1], size):
                        T = T - {t}         # !(size-1 < v)
            else:
                dst = self.raw[t[1]][0]
                if any(not pol and k.startswith(dst + "[") for k, pol in lits):
                    T = T - {t}
        return T

    def upto(self, k, size):
        c = const(size)
        if re.fullmatch(r"\d+", k):
            return c is None or int(k) <= c
        return size == {(k,): 1} or c is None

    def below(self, k, size):
        c = const(size)
        if re.fullmatch(r"\d+", k):
            return c is None or int(k) < c
        return c is None and k not in {a for m in size for a in m}

    def leave(self, T, node, S):
        for kind, i in sorted(T):
            dst = (self.cut if kind == "cut" else self.raw)[i][2 if kind == "raw" else 3]
            if dst.k == "ref" and dst.a.get("dk") == "var" or self.f.cfg.b and failing(self.f, node, S):
                continue
            if self.f.name == "main" or node.k == "call":
                continue
            self.hit(kind, self.f.byid[i], node)


def strlens(F, n):
    """text of an expression -> least length known at n."""
    S = F.at(n)
    defs = {}
    for x in S:
        if len(x) == 3 and x[0] == "def":
            r = F.f.byid[x[2]]
            if r.strip().k == "call" and r.strip().callee == "strlen":
                defs[F._name(x[1])] = path(r)
    out = {}
    for x in S:
        if len(x) != 2:
            continue
        k, pol = x
        for nm, p in defs.items():
            k = re.sub(r"(?<![\w.])" + re.escape(nm) + r"(?!\d)", lambda m: p, k)
        for pat, f in ((r"\((\d+)==strlen\((.*)\)\)$", lambda v: v if pol else None),
                       (r"\((\d+)<strlen\((.*)\)\)$", lambda v: v + 1 if pol else None)):
            m = re.match(pat, k)
            if m and f(int(m[1])) is not None:
                out[m[2]] = max(out.get(m[2], 0), f(int(m[1])))
        m = re.match(r"\(strlen\((.*)\)<(\d+)\)$", k)
        if m and not pol:
            out[m[1]] = max(out.get(m[1], 0), int(m[2]))
        m = re.match(r"strn?cmp\((.*),(\".*\")(?:,(\d+))?\)$", k)
        if m and not pol:
            n_ = len(m[2]) - 2 if not m[3] else min(int(m[3]), len(m[2]) - 2)
            out[m[1]] = max(out.get(m[1], 0), n_)
    return out


def check(ctx):
    P = ctx.prog
    T = Text(P)
    ctx.rule("room", "a bounded write names at most as many bytes as its destination holds, and a copy reads at most what its source holds")
    ctx.rule("unbounded", "a write without a bound happens only where the longest possible text fits")
    ctx.rule("left", "a remaining size computed as a difference is known not to be negative")
    ctx.rule("cut", "text that did not fit is detected before the text is used or handed to the caller")
    ctx.rule("ended", "text that was copied piecewise is terminated before it is used")
    ctx.rule("position", "a fixed position is read only from text known to be long enough")
    ctx.rule("fixed", "a constant index lies inside its array")
    ctx.rule("list", "a list of texts handed to a library ends with a null pointer")
    ctx.rule("format", "every conversion of a format gets an argument of its type")

    for f in P.functions:
        cuts, raws, und = {}, {}, 0
        todo_pos = []
        for n in f.walk():
            if n.k == "call":
                for i, size in T.writes(n):
                    if i >= len(n.args) or n.args[i] is None:
                        continue
                    a = n.args[i].strip()
                    if a.k in ("null", "zero") or a.v == 0 or a.k == "ref" and a.a.get("dk") == "parm" and T.W.get(id(f), {}).get(f.param(a.a["d"])):
                        continue
                    ext = T.extent(f, a)
                    room(ctx, f, n, a, size, ext, "room", "writes up to %s bytes into %s, which holds %s")
                if n.callee in ("memcpy", "memmove") and not P.resolve(n) and len(n.args) == 3:
                    a = n.args[1].strip()
                    if a.k == "str":
                        ext = [{(): len(a.a.get("s", "")) + 1}]
                    else:
                        ext = T.extent(f, a)
                    if ext is not None:
                        room(ctx, f, n, a, iform(n.args[2]), ext, "room", "reads %s bytes from %s, which holds %s", quiet=True)
                if n.callee in PRINT and not P.resolve(n):
                    formats(ctx, f, n, PRINT[n.callee])
                if n.callee in ("sprintf", "strcpy", "strcat", "stpcpy", "gets", "scanf", "fscanf", "sscanf") and not P.resolve(n):
                    unbounded(ctx, T, f, n)
                if n.callee in ("snprintf", "vsnprintf") and not P.resolve(n) and len(n.args) > 2:
                    d, size = n.args[0].strip(), iform(n.args[1])
                    remaining(ctx, P, f, n, n.args[1])
                    b = printed(T, f, n, 2)
                    if b is not None and const(size) is not None and b < const(size):
                        ctx.ok("cut", n.where())
                    elif d.k in ("null", "zero") or d.v == 0:
                        pass
                    else:
                        v = assigned(n)
                        if v is not None:
                            cuts[n.id] = (path(d), path(v) if v.k != "var" else v.key, size, base(d))
                        elif n.p is not None and n.p.k == "return" or n.p is not None and n.p.k == "cast" and n.p.p.k == "return":
                            ctx.undecided("cut", n.where(), "the length goes to the caller")
                        elif compared(n):
                            ctx.ok("cut", n.where())
                        elif n.p.k == "bin" and n.p.op == "+=":
                            ctx.undecided("cut", n.where(), "the length moves a write position")
                        else:
                            cuts[n.id] = (path(d), None, size, base(d))
                if n.callee == "strncpy" and not P.resolve(n):
                    d, size = n.args[0].strip(), iform(n.args[2])
                    m = maxlen(T, f, n.args[1]) if n.args[1].strip().k == "str" else None
                    e = T.extent(f, d)
                    if m is not None and const(size) is not None and m < const(size):
                        ctx.ok("ended", n.where())
                    elif d.k == "ref" and zeroed(f, d) and e and const(size) is not None and all(const(x) is not None and const(x) > const(size) for x in e):
                        ctx.ok("ended", n.where())
                    elif pointer_into(f, d):
                        ctx.undecided("ended", n.where(), "replaces a part of a text")
                    else:
                        raws[n.id] = (path(d), size, base(d))
                lists(ctx, P, T, f, n)
            elif n.k == "bin" and n.op == "+" and n.t is not None and n.t.kind == "ptr" and n.t.el is not None and n.t.el.kind == "char":
                todo_pos.append(n)
            elif n.k == "idx" and n.c[1].v is not None and not isinstance(n.c[1].v, str):
                t = n.c[0].strip().t
                if t is not None and t.kind == "arr" and t.n and t.n > 0:
                    k = n.c[1].v
                    addr = n.p is not None and n.p.k == "un" and n.p.op == "&"
                    ctx.judge(0 <= k < t.n or addr and k == t.n, "fixed", "%s:%s" % (f.name, name(path(n))), n.where(),
                              "%s uses element %d of an array of %d" % (f.name, k, t.n))
                elif t is not None and t.kind == "ptr" and n.t is not None and n.t.kind == "char" and n.c[1].v > 0:
                    todo_pos.append(n)
            elif n.k == "idx" and n.t is not None and n.t.kind == "char" and n.c[1].strip().k == "bin" and n.c[1].strip().op == "-":
                before(ctx, P, f, n)
        letters(ctx, f)
        F = None
        for n in todo_pos:
            a, b = n.c[0].strip(), n.c[1].strip()
            if n.k == "bin" and a.v is not None:
                a, b = b, a
            if b.v is None or isinstance(b.v, str):
                continue
            k = b.v
            ext = T.extent(f, a)
            if ext is not None and all(const(x) is not None for x in ext):
                past = n.k == "bin" and (assigned(n) is not None or n.p.k == "var")
                ctx.judge(all(0 <= k < const(x) + past for x in ext), "position", "%s:%s" % (f.name, name(path(n))), n.where(),
                          "%s uses position %d of %s, which holds %s bytes" % (f.name, k, name(path(a)), [const(x) for x in ext]))
                continue
            if a.k == "str":
                ctx.judge(0 <= k <= len(a.a["s"]), "position", "%s:%s" % (f.name, name(path(n))), n.where(), "beyond the literal")
                continue
            if k <= 0 or a.t is None or ext is not None or written_only(n):
                continue
            if a.k not in ("ref", "mem"):
                ctx.undecided("position", n.where(), "size of %s unknown" % name(path(a)))
                continue
            if F is None:
                F = facts(P, f)
            known = strlens(F, n)
            p = path(a)
            if a.k == "ref" and a.a.get("dk") == "parm" and p not in known and callers_know(P, T, f, a, k):
                ctx.ok("position", n.where())
                continue
            if a.k == "ref" and found(F, n, a, k):
                ctx.ok("position", n.where())
                continue
            ctx.judge(known.get(p, -1) >= k, "position", "%s:%s" % (f.name, name(path(n))), n.where(),
                      "%s reads %s from position %d on without knowing that it is that long" % (f.name, name(p), k))
        if cuts or raws:
            F = F or facts(P, f)
            bad = {}

            def hit(kind, w, use):
                bad.setdefault((kind, w.id), use)
            st = Pending(P, f, F, cuts, raws, hit).run()
            for kind, tab in (("cut", cuts), ("raw", raws)):
                for i in tab:
                    w = f.byid[i]
                    rule = "cut" if kind == "cut" else "ended"
                    if (kind, i) in bad:
                        use = bad[(kind, i)]
                        ctx.violate(rule, "%s:%s" % (f.name, name(tab[i][0])), w.where(),
                                    "%s uses %s at line %d %s" % (f.name, name(tab[i][0]), use.line,
                                                                  "although it may have been cut" if kind == "cut" else
                                                                  "although it may lack its terminator"))
                    elif st.gave_up:
                        ctx.undecided(rule, w.where(), "too many states")
                    else:
                        ctx.ok(rule, w.where())
    ctx.floor("room", 300)
    ctx.floor("cut", 60)
    ctx.floor("ended", 8)
    ctx.floor("format", 1200)
    ctx.floor("fixed", 500)
    ctx.floor("position", 8)


def before(ctx, P, f, n):
    """text[length - k]: the length is known to be at least k."""
    e = n.c[1].strip()
    v, k = e.c[0].strip(), e.c[1].strip().v
    if k is None or isinstance(k, str) or k <= 0:
        return
    if v.k == "ref" and v.a.get("dk") == "var":
        src = [m.c[1] for m in f.find("bin") if m.op == "=" and m.c[0].strip().k == "ref" and m.c[0].strip().a.get("d") == v.a["d"]] + \
              [m.c[-1] for m in f.find("var") if m.a["d"] == v.a["d"] and m.c and m.c[-1] is not None]
        if not any(x.strip().k == "call" and x.strip().callee == "strlen" for x in src):
            return
    elif not (v.k == "call" and v.callee == "strlen"):
        return
    p = path(v)
    ok = False
    for x in facts(P, f).at(n):
        if len(x) != 2:
            continue
        m = re.match(r"\((-?\d+)<(.*)\)$", x[0])
        ok = ok or m and m[2] == p and x[1] and int(m[1]) >= k - 1
        m = re.match(r"\((.*)<(-?\d+)\)$", x[0])
        ok = ok or m and m[1] == p and not x[1] and int(m[2]) >= k
        m = re.match(r"\((-?\d+)==(.*)\)$", x[0])
        ok = ok or m and m[2] == p and x[1] and int(m[1]) >= k
        ok = ok or x == (p, True) and k == 1
        ok = ok or k == 1 and x[1] and v.k == "call" and x[0] == path(v.args[0]) + "[0]"
    ctx.judge(bool(ok), "position", "%s:%s" % (f.name, name(path(n))), n.where(),
              "%s uses %s although the text may be empty" % (f.name, name(path(n))))


def zero(n):
    """0, also at the end of a chain of assignments."""
    n = n.strip()
    while n.k == "bin" and n.op == "=":
        n = n.c[1].strip()
    return iszero(n)


def base(n):
    n = n.strip()
    while n.k in ("idx",) or n.k == "mem" and not n.a.get("arrow") or n.k == "bin" and n.op == "+":
        n = n.c[0].strip()
    return n


def compared(n):
    p = n.p
    while p is not None and p.k == "cast":
        p = p.p
    return p is not None and p.k == "bin" and p.op in ("<", ">", "<=", ">=")


def room(ctx, f, c, a, size, ext, kind, msg, quiet=False):
    if ext is None or any(const(add(x, size, -1)) is None for x in ext):
        if member_pair(ctx, f, c, a, size, kind) or spliced(ctx, f, c, a, size, kind):
            return
    if ext is None:
        if not quiet:
            ctx.undecided(kind, c.where(), "size of %s unknown" % name(path(a)))
        return
    bad = False
    for x in ext:
        v = const(add(x, size, -1))
        if v is None:
            if not quiet:
                ctx.undecided(kind, c.where(), "sizes of %s are not comparable" % name(path(a)))
            return
        bad = bad or v < 0
    ctx.judge(not bad, kind, "%s:%s:%s" % (f.name, c.callee, name(path(a))), c.where(),
              ("%s: %s " % (f.name, c.callee)) + msg % (show(size), name(path(a)), "/".join(show(x) for x in ext)))


def member_pair(ctx, f, c, a, size, kind):
    """x->buf is written with x->len bytes: wherever buf is allocated, len is set to just that size."""
    level = 0
    b = a
    while b.k == "idx":
        b = b.c[0].strip()
        level += 1
    if b.k != "mem" or len(size) != 1:
        return False
    (m, co), = size.items()
    if co != 1 or len(m) != 1:
        return False
    root_, sep, fld = m[0].rpartition("->" if "->" in m[0] else ".")
    if root_ != b.c[0].key or not fld:
        return False
    sites = ctx.prog.__dict__.setdefault("_t12", None) or Text(ctx.prog)
    ctx.prog._t12 = sites
    allocs = sites.member.get((b.a.get("rec"), b.name), [])
    if not allocs:
        return False
    bad = None
    for g, call, d in allocs:
        want = sites._of_alloc(call, d, level, True)
        if want is None:
            continue
        own = call.args[0].strip().c[0].strip()
        while own.k == "idx":
            own = own.c[0].strip()
        sets = [iform(n.c[1]) for n in g.find("bin") if n.op == "=" and n.c[0].strip().k == "mem" and n.c[0].strip().name == fld
                and n.c[0].strip().c[0].key == own.c[0].key]
        if not sets:
            continue
        diff = [v for v in (const(add(want, s, -1)) for s in sets) if v is not None]
        if diff and all(v < 0 for v in diff):
            bad = call
    ctx.judge(bad is None, kind, "%s:%s" % (b.a.get("rec"), fld), (bad or c).where(),
              "%s is allocated with another size than %s says" % (b.name, fld))
    return True


def spliced(ctx, f, c, a, size, kind):
    """A part of a text held by a parameter is overwritten: the end of the part lies inside the text."""
    off = None
    b = a
    if a.k == "bin" and a.op == "+":
        b, off = (a.c[0].strip(), a.c[1]) if a.c[0].strip().t is not None and a.c[0].strip().t.is_ptr else (a.c[1].strip(), a.c[0])
    if off is None or c.callee not in ("memcpy", "memmove") or c.args[0].strip() is not a:
        return False
    if b.k != "ref" or b.a.get("dk") != "parm" or b.t is None or b.t.el is None or b.t.el.kind != "char" or const(size) is not None:
        return False
    need = add(iform(off), size)
    ok = False
    for x in facts(ctx.prog, f).at(c):
        if len(x) != 2 or x[1]:
            continue
        m = re.match(r"\(strlen\(%s\)<(.*)\)$" % re.escape(path(b)), x[0])
        if m and m[1] in texts(need):
            ok = True
    ctx.judge(ok, kind, "%s:%s:%s" % (f.name, c.callee, name(path(a))), c.where(),
              "%s: %s overwrites %s without knowing that this part lies inside the text" % (f.name, c.callee, name(path(a))))
    return True


def texts(d):
    """Spellings of a sum of two terms."""
    ts = [m[0] for m, co in d.items() if len(m) == 1 and co == 1]
    if len(ts) != len(d):
        return ()
    if len(ts) == 1:
        return ts
    a, b = sorted(ts)
    return ("(%s+%s)" % (a, b),)


def show(d):
    v = const(d)
    if v is not None:
        return str(v)
    return " + ".join("%s%s" % ("%d*" % c if c != 1 and m else "" if m else c, "*".join(name(x) for x in m)) for m, c in sorted(d.items()))


def formats(ctx, f, c, fi):
    if fi >= len(c.args):
        return
    s = c.args[fi].strip()
    if s.k != "str":
        t = s.t
        ctx.judge(s.k == "cond" or False, "format", "%s:%s" % (f.name, name(path(s))), c.where(),
                  "%s prints through a format that is not a constant" % f.name)
        return
    ops = arglist(s.a["s"])
    args = c.args[fi + 1:]
    ok, why = True, ""
    if len(args) < len(ops):
        ok, why = False, "%d conversions but %d arguments" % (len(ops), len(args))
    else:
        for (cv, mod, w, pr), a in zip(ops, args):
            t = a.t
            if t is None:
                continue
            num = t.kind in ("int", "uint", "char", "uchar", "bool", "enum")
            if cv in "*c":
                good = num and t.size <= 4
            elif cv in "diouxX":
                good = num and (t.size == SIZE[mod] or t.size < 4 and SIZE[mod] == 4)
            elif cv in "fFeEgGaA":
                good = t.kind == "float" and t.size == (16 if mod == "L" else 8)
            elif cv == "s":
                good = t.is_ptr and (t.el is None or t.el.kind in ("char", "uchar") or t.el.size == 1)
            else:
                good = t.is_ptr
            if not good:
                ok, why = False, "%%%s%s gets %s of type %s" % (mod or "", cv, name(path(a)), t.sp)
                break
    ctx.judge(ok, "format", "%s:%s" % (f.name, s.a["s"][:30]), c.where(), "%s: %s" % (f.name, why))


def unbounded(ctx, T, f, c):
    n = c.callee
    key = "%s:%s" % (f.name, n)
    if n in ("scanf", "fscanf", "sscanf"):
        fi = 0 if n == "scanf" else 1
        s = c.args[fi].strip()
        if s.k != "str":
            return
        i = fi + 1
        for m in re.finditer(r"%(\*)?(\d+)?(?:hh|h|ll|l|z|L)?(\[[^\]]*\]|[a-zA-Z])", s.a["s"]):
            if m[1]:
                continue
            if (m[3] == "s" or m[3][0] == "[") and i < len(c.args):
                ext = T.extent(f, c.args[i])
                if m[2] is None:
                    ctx.violate("unbounded", key, c.where(), "%s reads text of any length into %s" % (f.name, name(path(c.args[i]))))
                elif ext is not None and all(const(x) is not None for x in ext):
                    ctx.judge(all(int(m[2]) < const(x) for x in ext), "unbounded", key, c.where(),
                              "%s reads up to %s characters into a buffer of %s bytes" % (f.name, m[2], [const(x) for x in ext]))
            i += 1
        return
    d = c.args[0].strip()
    ext = T.extent(f, d)
    if n == "sprintf":
        b = printed(T, f, c, 1)
    elif n in ("strcpy", "stpcpy"):
        b = maxlen(T, f, c.args[1])
    else:
        b = None
    if b is None and n == "sprintf":
        b = fitted(ctx.prog, f, c)
    if b is not None and ext is not None and all(const(x) is not None and b < const(x) for x in ext):
        ctx.ok("unbounded", c.where())
        return
    if d.k == "ref" and d.a.get("dk") == "parm":
        # the caller names the size of its buffer, and the function has compared against it
        S = facts(ctx.prog, f).at(c)
        for i, (nm, pd, t) in enumerate(f.params):
            if t is not None and t.kind in ("int", "uint") and any(
                    len(x) == 2 and x[1] and re.match(r"\(.*<%s#%d\)$" % (nm, pd), x[0]) for x in S):
                ctx.ok("unbounded", c.where())
                return
    ctx.violate("unbounded", key + ":" + name(path(d)), c.where(),
                "%s: %s writes text of any length into %s" % (f.name, n, name(path(d))))


def fitted(P, f, c):
    """The same texts, with at least as much around them, are known to have fit into a buffer: its size - 1."""
    fm = c.args[1].strip()
    if fm.k != "str" or any(cv != "s" for cv, *_ in arglist(fm.a["s"])):
        return None
    want = [path(a) for a in c.args[2:]]
    S = facts(P, f).at(c)
    F = facts(P, f)
    for x in S:
        if len(x) == 3 and x[0] == "def":
            r = f.byid[x[2]].strip()
            if r.k == "call" and r.callee == "snprintf" and r.args[2].strip().k == "str":
                have = [path(a) for a in r.args[3:]]
                if all(have.count(w) >= want.count(w) for w in want) and \
                        len(CONV.sub("", r.args[2].strip().a["s"])) >= len(CONV.sub("", fm.a["s"])):
                    for k, pol in (y for y in S if len(y) == 2):
                        m = re.match(r"\(%s<(\d+)\)$" % re.escape(F._name(x[1])), k)
                        if m and pol and int(m[1]) > 0:
                            return int(m[1]) - 1
    return None


def remaining(ctx, P, f, c, e):
    e = e.strip()
    if e.k != "bin" or e.op != "-" or e.v is not None:
        return
    a, b = path(e.c[0]), path(e.c[1])
    S = facts(P, f).at(c)
    ok = ("(%s<%s)" % (b, a), True) in S or ("(%s<%s)" % (a, b), False) in S
    if e.c[0].t is not None and e.c[0].t.is_ptr or not ok and e.c[1].strip().v is None:
        ctx.judge(ok, "left", "%s:%s" % (f.name, name(path(e))), c.where(),
                  "%s: the remaining size %s may be negative" % (f.name, name(path(e))))


def zeroed(f, d):
    for v in f.find("var"):
        if v.a["d"] == d.a.get("d"):
            return bool(v.c) and v.c[-1] is not None
    return False


def pointer_into(f, d):
    """A local pointer that was assigned a position inside another text."""
    if d.k == "bin":
        return True
    if d.k != "ref" or d.t is None or d.t.kind != "ptr" or d.a.get("dk") != "var":
        return False
    for n in f.walk():
        if n.k == "bin" and n.op in ASSIGN and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d.a.get("d"):
            if not iszero(n.c[1]):
                return True
        if n.k == "var" and n.a["d"] == d.a.get("d") and n.c and n.c[-1] is not None and not iszero(n.c[-1]):
            return True
    return False


def written_only(n):
    p = n.p
    u = n
    while p is not None and p.k == "cast":
        u, p = p, p.p
    return p is not None and p.k == "bin" and p.op == "=" and p.c[0] is u


def callers_know(P, T, f, a, k):
    """Every caller passes text that is long enough: a literal, or a text in storage of that size is not enough."""
    i = f.param(a.a["d"])
    seen = False
    for g in P.functions:
        for c in g.calls(f.name):
            if f not in P.resolve(c) or i is None or i >= len(c.args):
                continue
            seen = True
            x = c.args[i].strip()
            if x.k == "str" and len(x.a["s"]) >= k:
                continue
            if strlens(facts(P, g), c).get(path(x), -1) >= k:
                continue
            return False
    return seen


def found(F, n, a, k):
    """a is what a search for a literal of at least k characters returned, and is not null."""
    for x in F.at(n):
        if len(x) == 3 and x[0] == "def" and x[1] == a.a.get("d"):
            r = F.f.byid[x[2]].strip()
            if r.k == "call" and r.callee == "strstr" and r.args[1].strip().k == "str" and len(r.args[1].strip().a["s"]) >= k:
                return True
            if r.k == "call" and r.callee in ("strchr", "strrchr") and k <= 1:
                return True
    # assigned in several places, all of them searches
    ds = [m.c[1].strip() for m in F.f.find("bin") if m.op == "=" and m.c[0].strip().k == "ref" and m.c[0].strip().a.get("d") == a.a.get("d") and not iszero(m.c[1])]
    return bool(ds) and all(r.k == "call" and (r.callee in ("strchr", "strrchr") and k <= 1 or r.callee == "strstr" and
                            r.args[1].strip().k == "str" and len(r.args[1].strip().a["s"]) >= k) for r in ds)


def lists(ctx, P, T, f, c):
    """Option lists for GDAL and friends."""
    if P.resolve(c) or not c.callee or not re.match(r"(GDAL|OGR|OSR|CPL|CSL|OCT|exec)", c.callee):
        return
    for a in c.args:
        if a is None:
            continue
        s = a.strip()
        t = s.t
        if t is None or not t.is_ptr or t.el is None or not t.el.is_ptr or t.el.el is None or t.el.el.kind != "char":
            continue
        if s.k != "ref" or s.a.get("dk") != "var":
            continue
        src = T.locs(f).get(s.a["d"])
        if t.kind == "arr":
            v = next((v for v in f.find("var") if v.a["d"] == s.a["d"]), None)
            if v is not None and v.c and v.c[-1] is not None and v.c[-1].c:
                last = v.c[-1].c[-1]
                ctx.judge(iszero(last) or ends(f, s) or len(v.c[-1].c) < (t.n or 0), "list", "%s:%s" % (f.name, s.name), c.where(),
                          "%s: the list %s given to %s has no terminating null pointer" % (f.name, s.name, c.callee))
        elif src and any(x.callee == "alloc_2D" for x, d in src):
            ctx.judge(ends(f, s), "list", "%s:%s" % (f.name, s.name), c.where(),
                      "%s: the list %s given to %s has no terminating null pointer" % (f.name, s.name, c.callee))
        elif any(n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == s.a["d"]
                 and n.c[1].strip().k == "call" and (n.c[1].strip().callee or "").startswith("CSL") for n in f.find("bin")):
            ctx.ok("list", c.where())


def ends(f, s):
    return any(n.op == "=" and n.c[0].strip().k == "idx" and n.c[0].strip().c[0].strip().k == "ref" and
               n.c[0].strip().c[0].strip().a.get("d") == s.a["d"] and iszero(n.c[1]) for n in f.find("bin"))


def letters(ctx, f):
    """Character arrays that are only filled letter by letter must get a terminator before they are printed."""
    cand = {v.a["d"]: v for v in f.find("var") if v.t is not None and v.t.kind == "arr" and v.t.el is not None and v.t.el.kind == "char"
            and not (v.c and v.c[-1] is not None)}
    if not cand:
        return
    sets, uses, other = {}, {}, set()
    for n in f.find("ref"):
        d = n.a.get("d")
        if d not in cand:
            continue
        u, p = n, n.p
        while p.k == "cast":
            u, p = p, p.p
        if p.k == "idx" and p.c[0].strip() is n:
            q = p.p
            if q.k == "bin" and q.op == "=" and q.c[0].strip() is p:
                sets.setdefault(d, []).append((p.c[1].strip().v, q.c[1]))
                continue
            other.add(d) if q.k == "un" and q.op == "&" else None
            continue
        if p.k == "call" and p.callee in PRINT and (p.callee not in ("snprintf", "sprintf") or p.args[0].strip() is not n):
            uses.setdefault(d, p)
        else:
            other.add(d)
    for d, p in uses.items():
        if d in other or d not in sets:
            continue
        last = (cand[d].t.n or 0) - 1
        full = any(k == last and x.v is not None and not iszero(x) for k, x in sets[d])
        ctx.judge(not full and any(iszero(x) or x.v is None for k, x in sets[d]), "ended", "%s:%s" % (f.name, cand[d].name), p.where(),
                  "%s prints %s, which may lack its terminator" % (f.name, cand[d].name))
