"""Conditional constant propagation over the CFGs, with calls inlined and a bounded number of
alternatives per block.

A state maps storage (paths from a variable or object through members and elements) to constants: numbers,
("s", text) or ("a", path). What is not in the state is unknown; a branch on something unknown goes both
ways. Calls named as events are recorded with the constants of their arguments."""
import re

from effects import ASSIGN

LIMIT = 48


def text(v):
    return v[1] if isinstance(v, tuple) and v[0] == "s" else None


class Const:
    def __init__(self, P, events, inline, source=None, results=None):
        """events: names of calls to record; inline: predicate on functions; source: text that scanning
        functions deliver; results: {function: function of (number of earlier calls, arguments) -> result};
        texts of the form @x are uninterpreted terms, `order` gives the sign of x-y for pairs (x, y) of them."""
        self.P, self.events, self.inline, self.source = P, events, inline, source
        self.results = results or {}
        self.order = {}
        self.limit = LIMIT       # alternatives per block
        self.heap = False        # blocks of the allocators are objects of their own
        self.log = []            # (call node, [values], formatted text or None)
        self.stack = []

    # -- storage ---------------------------------------------------------------------------------
    def loc(self, e, env):
        e = e.strip()
        if e.k in ("ref", "var"):
            if e.k == "var" or e.a.get("dk") in ("var", "parm", "static"):
                if e.k == "ref" and e.a.get("dk") == "static" and e.name in self.P.globals:
                    return ("g:" + e.name,)
                return ("%s#%d" % (e.name, e.a["d"]), len(self.stack))
            if e.a.get("dk") == "enum":
                return None
            return ("g:" + e.name,)
        if e.k == "mem":
            if e.a.get("arrow"):
                b = self.val(e.c[0], env)
                if isinstance(b, tuple) and b[0] == "a":
                    return b[1] + (e.name,)
                b = self.loc(e.c[0], env)          # what an unknown pointer points to
                return b + ("*", e.name) if b is not None else None
            b = self.loc(e.c[0], env)
            return b + (e.name,) if b is not None else None
        if e.k == "idx":
            i = self.val(e.c[1], env)
            t = e.c[0].strip().t
            if t is not None and t.kind in ("arr", "vla"):
                b = self.loc(e.c[0], env)
                return b + ("[%s]" % (i if isinstance(i, int) else "*"),) if b is not None else None
            b = self.val(e.c[0], env)
            if not (isinstance(b, tuple) and b[0] == "a"):
                b = self.loc(e.c[0], env)
                return b + ("[*]",) if b is not None else None
            p = b[1]
            m = re.match(r"\[(-?\d+|\*)\]$", p[-1]) if isinstance(p[-1], str) else None
            if m:
                if m[1] == "*" or not isinstance(i, int):
                    return p[:-1] + ("[*]",)
                return p[:-1] + ("[%d]" % (int(m[1]) + i),)
            if i == 0:
                return p
            return p + ("[%s]" % (i if isinstance(i, int) else "*"),)
        if e.k == "un" and e.op == "*":
            b = self.val(e.c[0], env)
            return b[1] if isinstance(b, tuple) and b[0] == "a" else None
        return None

    def read(self, p, env):
        if p is None:
            return None
        v = env.get(p)
        if v is None and isinstance(p[-1], str) and p[-1].isidentifier():
            t = text(env.get(p[:-1]))
            if t is not None and t.startswith("@"):
                return ("s", "%s.%s" % (t, p[-1]))
        if v is None and isinstance(p[0], str) and p[0].startswith("g:"):
            v = self.glob(p)
        if v is None and self.source is not None and p[0] == "argv":
            v = ("s", self.source)
        return v

    def glob(self, p):
        g = self.P.globals.get(p[0][2:])
        if g is None:
            return None
        n = g["node"]
        t = n.t
        n = n.c[-1] if n.k == "var" and n.c else None
        for s in p[1:]:
            if n is None:
                return None
            n = n.strip()
            if s.startswith("["):
                if n.k != "init" or not s[1:-1].isdigit() or int(s[1:-1]) >= len(n.c):
                    return None
                n = n.c[int(s[1:-1])]
                t = t.el if t is not None else None
            else:
                r = self.P.records.get(t.rec) if t is not None else None
                names = [x[0] for x in r["f"]] if r else []
                if n.k != "init" or s not in names or names.index(s) >= len(n.c):
                    return None
                t = r["f"][names.index(s)][1]
                n = n.c[names.index(s)]
        if n is None:
            return None
        n = n.strip()
        if n.k == "str":
            return ("s", n.a.get("s", ""))
        return n.v

    def string(self, v, env):
        if isinstance(v, tuple):
            if v[0] == "s":
                return v[1]
            p = v[1]
            for q in (p, p[:-1] if p[-1] == "[0]" else None):
                if q:
                    s = text(self.read(q, env))
                    if s is not None:
                        return s
        return None

    def drop(self, p, env):
        for k in [k for k in env if k[:len(p)] == p]:
            del env[k]

    def store(self, p, v, env):
        if p is None:
            return
        if "[*]" in p:
            self.drop(p[:p.index("[*]")], env)
            return
        self.drop(p, env)
        if v is not None:
            env[p] = v

    # -- values ----------------------------------------------------------------------------------
    def val(self, e, env):
        e0, e = e, e.strip()
        if e.v is not None and e.k != "str":
            v = e.v
            return int(v) if isinstance(v, bool) else v
        if e.k in ("null", "zero"):
            return 0
        if e.k == "str":
            return ("s", e.a.get("s", ""))
        if e.k == "call":
            return env.get(("T", e.id, len(self.stack)))
        if e.k in ("ref", "mem", "idx"):
            p = self.loc(e, env)
            if e.t is not None and e.t.kind in ("arr", "vla"):
                return ("a", p + ("[0]",)) if p is not None else None
            if p is not None and p[0] == "rows" and e.t is not None and e.t.is_ptr:
                return ("a", p + ("row",))
            return self.read(p, env)
        if e.k == "un":
            if e.op == "&":
                p = self.loc(e.c[0], env)
                return ("a", p) if p is not None else None
            if e.op == "*":
                return self.read(self.loc(e, env), env)
            v = self.val(e.c[0], env)
            if e.op in ("++", "--"):
                return v                       # the element was already executed
            if e.op in ("p++", "p--"):
                return env.get(("T", e.id, len(self.stack)))
            if isinstance(v, (int, float)):
                return {"-": lambda: -v, "+": lambda: v, "!": lambda: int(not v),
                        "~": lambda: ~v if isinstance(v, int) else None}.get(e.op, lambda: None)()
            if e.op == "!" and isinstance(v, tuple):
                return 0
            return None
        if e.k == "bin":
            if e.op in ASSIGN:
                return self.val(e.c[0], env)
            if e.op == ",":
                return self.val(e.c[1], env)
            a, b = self.val(e.c[0], env), self.val(e.c[1], env)
            if e.op in ("&&", "||"):
                ta, tb = self.truth(a), self.truth(b)
                if e.op == "&&":
                    return 0 if ta is False or tb is False else (1 if ta and tb else None)
                return 1 if ta or tb else (0 if ta is False and tb is False else None)
            if isinstance(a, tuple) or isinstance(b, tuple):
                d = self.order.get((a, b))
                if d is None and (b, a) in self.order:
                    d = -self.order[(b, a)]
                if d is not None and e.op in ("<", ">", "<=", ">=", "==", "!="):
                    return int({"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[e.op])
                if e.op in ("==", "!=") and (a == 0 or b == 0):
                    return int(e.op == "!=")
                return None
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "/": lambda: (int(a / b) if e.t is None or e.t.canon not in ("float", "double", "long double") else a / b),
                        "%": lambda: a % b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                        "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b),
                        "!=": lambda: int(a != b), "&": lambda: a & b, "|": lambda: a | b,
                        "<<": lambda: a << b, ">>": lambda: a >> b}[e.op]()
            except (KeyError, ZeroDivisionError, TypeError):
                return None
        if e.k == "cond":
            t = self.truth(self.val(e.c[0], env))
            return None if t is None else self.val(e.c[1 if t else 2], env)
        return None

    @staticmethod
    def truth(v):
        if v is None:
            return None
        return True if isinstance(v, tuple) else bool(v)

    # -- text --------------------------------------------------------------------------------------
    def format(self, fmt, args, env):
        """The text a formatted print produces; unknown parts become \\0."""
        if fmt is None:
            return None
        out, i = [], 0
        for m in re.finditer(r"%(%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|L|z|t|j)?([diouxXeEfgGaAcspn]))|([^%]+)|%", fmt):
            if m[3] is not None:
                out.append(m[3])
            elif m[1] == "%":
                out.append("%")
            elif m[2]:
                i += m[1].count("*")
                v = args[i] if i < len(args) else None
                i += 1
                if m[2] == "s":
                    s = self.string(v, env)
                    out.append(s if s is not None else "\0")
                elif isinstance(v, (int, float)) and "*" not in m[1]:
                    try:
                        out.append(("%" + re.sub(r"hh|h|ll|l|L|z|t|j", "", m[1])) % v)
                    except (TypeError, ValueError):
                        out.append("\0")
                else:
                    out.append("\0")
        return "".join(out)

    # -- execution -----------------------------------------------------------------------------------
    def call(self, c, env):
        """[(state, result)] after the call."""
        n = c.callee
        a = [self.val(x, env) for x in c.args]
        if n in self.events:
            self.log.append((c, a, None))
        if n in ("fprintf", "printf") and n in self.events:
            k = 1 if n == "fprintf" else 0
            self.log[-1] = (c, a, self.format(self.string(a[k], env), a[k + 1:], env))
            return [(env, None)]
        if n in ("fputs", "puts") and n in self.events:
            self.log[-1] = (c, a, self.string(a[0], env))
            return [(env, None)]
        if n in self.results:
            k = ("R", n)
            env[k] = env.get(k, 0) + 1
            return [(env, self.results[n](env[k] - 1, [self.string(x, env) if isinstance(x, tuple) else x for x in a]))]
        if n in ("alloc", "alloc_2D", "malloc", "calloc") and self.heap:
            h = ("a", ("heap" if n != "alloc_2D" else "rows", c.id))
            if n in ("malloc", "calloc"):
                return [(env, h)]
            if isinstance(a[0], tuple) and a[0][0] == "a":
                self.store(a[0][1], h, env)
            return [(env, None)]
        if n in ("strcmp", "strncmp", "strcasecmp"):
            s, t = self.string(a[0], env), self.string(a[1], env)
            if s is not None and t is not None and s != t and "@" in (s[:1], t[:1]):
                return [(env, None)]
            if s is not None and t is not None:
                if n == "strncmp":
                    if not isinstance(a[2], int):
                        return [(env, None)]
                    s, t = s[:a[2]], t[:a[2]]
                if n == "strcasecmp":
                    s, t = s.lower(), t.lower()
                return [(env, 0 if s == t else (1 if s > t else -1))]
            return [(env, None)]
        if n in ("strlen",):
            s = self.string(a[0], env)
            return [(env, len(s) if s is not None and s[:1] != "@" else None)]
        if n == "strstr":
            s, t = self.string(a[0], env), self.string(a[1], env)
            if s is None or t is None or "@" in (s[:1], t[:1]):
                return [(env, None)]
            return [(env, ("s", s[s.index(t):]) if t in s else 0)]
        if n in ("copy_string", "strncpy", "strcpy"):
            src = a[2] if n == "copy_string" else a[1]
            s = self.string(src, env)
            if isinstance(a[0], tuple) and a[0][0] == "a":
                p = a[0][1]
                p = p[:-1] if p[-1] == "[0]" else p
                self.store(p, ("s", s) if s is not None else None, env)
            return [(env, None)]
        if n in ("snprintf", "sprintf"):
            k = 2 if n == "snprintf" else 1
            s = self.format(self.string(a[k], env), a[k + 1:], env)
            if isinstance(a[0], tuple) and a[0][0] == "a":
                p = a[0][1]
                p = p[:-1] if p[-1] == "[0]" else p
                self.store(p, ("s", s) if s is not None and "\0" not in s else None, env)
            return [(env, None)]
        if n in ("fscanf", "fgets_marker") and self.source is not None:
            for v in a[2:]:
                if isinstance(v, tuple) and v[0] == "a":
                    p = v[1]
                    self.store(p[:-1] if p[-1] == "[0]" else p, ("s", self.source), env)
            return [(env, 1)]
        fs = self.P.resolve(c)
        if fs and len(self.stack) < 12 and all(self.inline(g) and g._rawcfg is not None for g in fs):
            out = []
            for g in fs:
                if g in self.stack:
                    continue
                e2 = dict(env)
                self.stack.append(g)
                for (nm, d, t), v in zip(g.params, a):
                    self.store(("%s#%d" % (nm, d), len(self.stack)), v, e2)
                out += self.run(g, e2)
                self.stack.pop()
            return out
        # an unknown function may change what it is given by address
        pt = None
        if fs:
            pt = [t for _, _, t in fs[0].params]
        elif n in self.P.protos:
            pt = [t for _, t in self.P.protos[n][1]]
        for i, v in enumerate(a):
            if isinstance(v, tuple) and v[0] == "a":
                t = pt[i] if pt and i < len(pt) else None
                if t is not None and t.kind == "ptr" and t.el is not None and t.el.const:
                    continue
                p = v[1]
                self.drop(p[:-1] if p[-1] == "[0]" else p, env)
        return [(env, None)]

    def element(self, e, env):
        """[state] after one CFG element."""
        q = e.p
        while q is not None and q.k == "cast":
            q = q.p
        if q is not None and q.k == "var" and q.p is not None and q.p.k == "decl" and len(q.p.c) > 1:
            out = self.effect(e, env)      # declarations of several variables are not CFG elements
            for s in out:
                p = self.loc(q, s)
                self.drop(p, s)
                self.init(p, q.c[-1], q.t, s)
            return out
        return self.effect(e, env)

    def effect(self, e, env):
        if e.k == "call":
            out = []
            for s, r in self.call(e, env):
                if r is not None:
                    s[("T", e.id, len(self.stack))] = r
                else:
                    s.pop(("T", e.id, len(self.stack)), None)
                out.append(s)
            return out
        if e.k == "bin" and e.op in ASSIGN:
            p = self.loc(e.c[0], env)
            v = self.val(e.c[1], env)
            if e.op != "=":
                o = self.read(p, env)
                v = None
                r = self.val(e.c[1], env)
                if isinstance(o, (int, float)) and isinstance(r, (int, float)) and e.op in ("+=", "-=", "*="):
                    v = {"+=": o + r, "-=": o - r, "*=": o * r}[e.op]
            if e.c[0].t is not None and e.c[0].t.kind == "rec" and text(v) is None:
                v = None
            self.store(p, v, env)
        elif e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            p = self.loc(e.c[0], env)
            o = self.read(p, env)
            if e.op[0] == "p":
                if o is not None:
                    env[("T", e.id, len(self.stack))] = o
                else:
                    env.pop(("T", e.id, len(self.stack)), None)
            self.store(p, o + (1 if e.op[-1] == "+" else -1) if isinstance(o, (int, float)) else None, env)
        elif e.k == "decl":
            for v in e.c:
                if v is not None and v.k == "var":
                    p = self.loc(v, env)
                    self.drop(p, env)
                    if v.c and v.c[-1] is not None and v.c[-1].k != "sizeof":
                        self.init(p, v.c[-1], v.t, env)
        return [env]

    def init(self, p, n, t, env):
        n = n.strip()
        if n.k == "init":
            r = self.P.records.get(t.rec) if t is not None and t.kind == "rec" else None
            for i, x in enumerate(n.c):
                if x is None:
                    continue
                if t is not None and t.kind in ("arr", "vla"):
                    self.init(p + ("[%d]" % i,), x, t.el, env)
                elif r and i < len(r["f"]):
                    self.init(p + (r["f"][i][0],), x, r["f"][i][1], env)
                elif len(n.c) == 1:
                    self.init(p, x, t, env)
            return
        v = self.val(n, env)
        if v is not None:
            env[p] = v

    def refine(self, c, truth, env):
        """What a branch on something unknown tells."""
        c = c.strip()
        if c.k == "un" and c.op == "!":
            return self.refine(c.c[0], not truth, env)
        if c.k == "bin" and c.op in ("==", "!="):
            if (c.op == "==") == truth:
                for a, b in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                    v = self.val(b, env)
                    a = a.strip()
                    if isinstance(v, (int, float)) and a.k in ("ref", "mem", "idx"):
                        p = self.loc(a, env)
                        if p is not None and "[*]" not in p:
                            env[p] = v
        return env

    def run(self, f, env):
        """[(state, returned value)] at the return of f; locals of f are removed."""
        cfg = f.cfg
        depth = len(self.stack)
        work = [(cfg.entry, env)]
        seen, count, out, done = {}, {}, [], set()
        while work:
            b, env = work.pop()
            if b < 0:
                continue
            for k in [k for k in env if k[0] == "T" and k[2] == depth]:
                del env[k]
            n = count.get(b, 0)
            if n >= self.limit:                 # too many alternatives: keep what all of them agree on
                old = seen[b]["join"] if "join" in seen[b] else None
                j = env if old is None else {k: v for k, v in env.items() if old.get(k) == v}
                if old is not None and j == old:
                    continue
                if old is None:
                    for fs in seen[b]["all"]:
                        d = dict(fs)
                        j = {k: v for k, v in j.items() if d.get(k) == v}
                seen[b]["join"] = j
                env = dict(j)
            else:
                fs = frozenset(env.items())
                s = seen.setdefault(b, {"all": set()})
                if fs in s["all"]:
                    continue
                s["all"].add(fs)
                count[b] = n + 1
            if b == cfg.exit:
                self.leave(out, done, env, depth, None)
                continue
            blk = cfg.b[b]
            states = [dict(env)]
            ret = None
            for e in blk.els:
                if e.k == "return":
                    ret = e
                    break
                nxt = []
                for s in states:
                    nxt += self.element(e, s)
                states = nxt
                if not states:
                    break
            if ret is not None:
                for s in states:
                    v = self.val(ret.c[0], s) if ret.c and ret.c[0] is not None else None
                    self.leave(out, done, s, depth, v)
                continue
            if blk.noret:
                continue
            for s in states:
                if blk.term is not None and blk.term.k == "switch" and blk.cond is not None:
                    work += self.switch(cfg, blk, s)
                elif blk.cond is not None and len(blk.succ) == 2:
                    c = blk.cond.strip()
                    while c.k == "bin" and c.op in ("&&", "||"):
                        c = c.c[1].strip()     # the left operand was decided on the way here
                    t = self.truth(self.val(c, s))
                    if t is not False:
                        work.append((blk.succ[0], self.refine(c, True, dict(s)) if t is None else s))
                    if t is not True:
                        work.append((blk.succ[1], self.refine(c, False, dict(s)) if t is None else s))
                else:
                    for x in blk.succ:
                        work.append((x, dict(s)))
        return out

    def switch(self, cfg, blk, s):
        v = self.val(blk.cond, s)
        out, default, hit = [], None, False
        for x in blk.succ:
            if x < 0:
                continue
            lab = cfg.b[x].label
            if lab is not None and lab.k == "case" and lab.c[0] is not None:
                cv = self.val(lab.c[0], s)
                if v is None:
                    e2 = dict(s)
                    p = self.loc(blk.cond, e2)
                    if p is not None and cv is not None and "[*]" not in p:
                        e2[p] = cv
                    out.append((x, e2))
                elif v == cv:
                    hit = True
                    out.append((x, dict(s)))
            else:
                default = x
        if default is not None and (v is None or not hit):
            out.append((default, dict(s)))
        return out

    def leave(self, out, done, env, depth, v):
        if depth:
            for k in [k for k in env if (k[2] if k[0] == "T" else k[1] if len(k) > 1 else None) == depth]:
                del env[k]
        key = (frozenset(env.items()), v)
        if key not in done:
            done.add(key)
            out.append((env, v))
