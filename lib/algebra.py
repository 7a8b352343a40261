"""Algebraic value numbering.

Rat is a quotient of polynomials over uninterpreted terms (array elements, parameters, results of functions),
with exact coefficients. Alg is the constant propagation of constprop with such values: what is not a
constant is a term, arithmetic builds quotients of polynomials, and loops whose number of iterations is not
known are visited once, with everything they change replaced by terms. It records what is stored into the
memory the analysed function was given, together with the conditions under which this happens."""
import time
from fractions import Fraction

from constprop import Const, text
from effects import ASSIGN, writes_in

BIG = 300


def frac(v):
    return Fraction(v) if isinstance(v, int) else Fraction(repr(float(v)))


def _mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))


class Rat:
    __slots__ = ("n", "d", "h")

    def __init__(self, n, d=None):
        d = {(): Fraction(1)} if d is None else d
        n = {m: c for m, c in n.items() if c != 0}
        if not n:
            d = {(): Fraction(1)}
        else:
            common = None               # cancel common monomials
            for m in list(n) + list(d):
                x = dict(m)
                common = x if common is None else {a: min(e, x[a]) for a, e in common.items() if a in x}
                if not common:
                    break
            if common:
                def cut(p):
                    out = {}
                    for m, c in p.items():
                        x = dict(m)
                        for a, e in common.items():
                            x[a] -= e
                        out[tuple(sorted(((a, e) for a, e in x.items() if e), key=lambda y: str(y[0])))] = c
                    return out
                n, d = cut(n), cut(d)
            lead = d[max(d, key=lambda m: str(m))]
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
            if len(d) > 1 and len(d) == len(n):      # proportional
                k = {n[m] / d[m] if m in n else None for m in d}
                if len(k) == 1 and None not in k:
                    n, d = {(): k.pop()}, {(): Fraction(1)}
        self.n, self.d = n, d
        self.h = None

    @staticmethod
    def const(v):
        return Rat({(): frac(v)})

    @staticmethod
    def atom(a):
        return Rat({((a, 1),): Fraction(1)})

    @property
    def size(self):
        return len(self.n) + len(self.d)

    def value(self):
        """The constant, or None."""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def key(self):
        if self.h is None:
            self.h = (tuple(sorted(((str(m), c) for m, c in self.n.items()))),
                      tuple(sorted(((str(m), c) for m, c in self.d.items()))))
        return self.h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Rat) and self.key() == o.key()

    def same(self, o):
        """Equal as functions."""
        return self == o or not (self - o).n

    def close(self, o, eps=Fraction(1, 100000)):
        """Equal as functions, up to the rounding of constants."""
        if self.same(o):
            return True
        a, b = self._pmul(self.n, o.d), self._pmul(o.n, self.d)
        top = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()])
        return all(abs(c) <= max(eps * (abs(a.get(m, 0)) + abs(b.get(m, 0))) if m in a and m in b else 0, top * eps ** 2)
                   for m, c in self._padd(a, b, -1).items())

    @staticmethod
    def _padd(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
        return r

    @staticmethod
    def _pmul(p, q):
        r = {}
        for m, c in p.items():
            for k, e in q.items():
                x = _mul(m, k)
                r[x] = r.get(x, 0) + c * e
        return r

    def __add__(self, o, s=1):
        if self.d == o.d:
            return Rat(self._padd(self.n, o.n, s), self.d).tidy()
        return Rat(self._padd(self._pmul(self.n, o.d), self._pmul(o.n, self.d), s), self._pmul(self.d, o.d)).tidy()

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __mul__(self, o):
        return Rat(self._pmul(self.n, o.n), self._pmul(self.d, o.d)).tidy()

    def __truediv__(self, o):
        if not o.n:
            return None
        return Rat(self._pmul(self.n, o.d), self._pmul(self.d, o.n)).tidy()

    def tidy(self):
        """Squares of square roots are what is under the root, squares of amounts those of the number."""
        for part in (self.n, self.d):
            for m in part:
                for a, e in m:
                    if isinstance(a, tuple) and a[0] in ("sqrt", "abs") and e >= 2:
                        return self._square(a)
        return self

    def _square(self, a):
        def poly(p):
            r = Rat({})
            for m, c in p.items():
                x = dict(m)
                e = x.pop(a, 0)
                t = Rat({tuple(sorted(((y, k) for y, k in list(x.items()) + ([(a, e % 2)] if e % 2 else [])),
                                      key=lambda y: str(y[0]))): c})
                for _ in range(e // 2):
                    t = t * a[1] if a[0] == "sqrt" else t * a[1] * a[1]
                r = r + t
            return r
        return poly(self.n) / poly(self.d)

    def atoms(self):
        out = set()
        for p in (self.n, self.d):
            for m in p:
                for a, _ in m:
                    out.add(a)
                    if isinstance(a, tuple):
                        for x in a[1:]:
                            if isinstance(x, Rat):
                                out |= x.atoms()
        return out

    def __str__(self):
        def poly(p):
            out = []
            for m, c in sorted(p.items(), key=lambda x: str(x[0])):
                t = "*".join(str(show(a)) + ("^%d" % e if e > 1 else "") for a, e in m)
                f = "%g" % float(c)
                out.append(t if f == "1" and t else (("-" + t) if f == "-1" and t else f + ("*" + t if t else "")))
            return " + ".join(out).replace("+ -", "- ") if out else "0"
        n = poly(self.n)
        if len(self.d) == 1 and () in self.d and self.d[()] == 1:
            return n
        return "(%s)/(%s)" % (n, poly(self.d))

    __repr__ = __str__


def show(a):
    if isinstance(a, tuple):
        return "%s(%s)" % (a[0], ", ".join(str(x) for x in a[1:]))
    return a


def fn(name, *args):
    """The term for a function of Rats."""
    vals = [a.value() for a in args]
    if name in ("fabs", "fabsf", "abs"):
        name = "abs"
        if vals[0] is not None:
            return Rat.const(abs(vals[0]))
        n = -args[0]
        if str(n.key()) < str(args[0].key()):
            args = (n,)
    if name in ("powf",):
        name = "pow"
    if name == "pow" and vals[1] is not None:
        e = vals[1]
        if e.denominator == 1 and abs(e) <= 8:
            r = Rat.const(1)
            for _ in range(abs(int(e))):
                r = r * args[0]
            return r if e >= 0 else Rat.const(1) / r
        if e == Fraction(1, 2):
            return fn("sqrt", args[0])
    if name in ("sqrt", "sqrtf"):
        name = "sqrt"
        if vals[0] in (0, 1):
            return Rat.const(vals[0])
    if name == "expf":
        name = "exp"
    if name in ("max", "min"):
        args = tuple(sorted(args, key=lambda x: str(x.key())))
    return Rat.atom((name,) + tuple(args))


PURE = {"sqrt", "sqrtf", "exp", "expf", "log", "logf", "log10", "pow", "powf", "sin", "cos", "tan", "asin", "acos", "atan",
        "atan2", "fabs", "fabsf", "abs", "floor", "ceil", "round", "sinf", "cosf", "tanh"}
FLOAT = ("float", "double", "long double")
FLIP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def guard(a, op, b):
    """Canonical condition a op b: (difference, one of < <= == !=)."""
    if op in (">", ">="):
        a, op, b = b, {">": "<", ">=": "<="}[op], a
    d = a - b
    if op in ("==", "!="):
        n = -d
        if str(n.key()) < str(d.key()):
            d = n
    return (d, op)


def same_guard(g, h):
    if g[1] != h[1] or not isinstance(g[0], Rat) or not isinstance(h[0], Rat):
        return False
    if not g[0].n or not h[0].n:
        return not g[0].n and not h[0].n
    q = g[0] / h[0]
    v = q.value() if q is not None else None
    if v is None:
        # the same function, written differently
        for s in ((1, -1) if g[1] in ("==", "!=") else (1,)):
            if g[0].same(h[0] * Rat.const(s)):
                return True
        return False
    return v > 0 or (v != 0 and g[1] in ("==", "!="))


class Alg(Const):
    deadline = None          # processor time at which following is given up

    def __init__(self, P, inline, results=None):
        super().__init__(P, set(), inline, results=results)
        self.stores = []        # (assignment node, path of the target, value, frozenset of guards)
        self.heads = {}
        self.opaque = lambda p: isinstance(p[0], str) and p[0].startswith("@")
        self.limit = 400
        self.watch = None       # predicate on paths whose stores are recorded

    # -- numbers -----------------------------------------------------------------------------------
    @staticmethod
    def rat(v):
        if isinstance(v, Rat):
            return v
        if isinstance(v, bool):
            return Rat.const(int(v))
        if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
            return Rat.const(v)
        s = text(v)
        if s is not None and s.startswith("@"):
            return Rat.atom(s)
        return None

    @staticmethod
    def plain(r):
        """Constants as Python numbers."""
        if isinstance(r, Rat):
            v = r.value()
            if v is not None:
                return int(v) if v.denominator == 1 else float(v)
            if r.size > BIG:
                return None
        return r

    @staticmethod
    def truth(v):
        return None if isinstance(v, Rat) else Const.truth(v)

    def val(self, e, env):
        if e.k == "cast" and e.c:
            v = self.val(e.c[0], env)
            t, o = e.t, e.c[0].t
            if isinstance(v, Rat) and t is not None and o is not None and o.canon in FLOAT and t.is_num and t.canon not in FLOAT \
                    and t.canon not in ("bool", "_Bool"):
                return Rat.atom(("trunc", v))
            if isinstance(v, float) and t is not None and t.is_num and t.canon not in FLOAT:
                return int(v)
            return v
        s = e.strip()
        if s is not e:
            return self.val(e.c[0], env) if e.c else None
        if e.v is not None and e.k != "str":
            return super().val(e, env)
        if e.k == "un" and e.op in ("-", "+"):
            v = self.val(e.c[0], env)
            if isinstance(v, Rat):
                return -v if e.op == "-" else v
            return super().val(e, env)
        if e.k == "bin" and e.op in ("+", "-", "*", "/"):
            a, b = self.val(e.c[0], env), self.val(e.c[1], env)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return super().val(e, env)
            if isinstance(a, tuple) and a[0] == "a" and e.op in ("+", "-"):
                return None
            x, y = self.rat(a), self.rat(b)
            if x is None or y is None:
                return None
            if e.op == "/" and e.t is not None and e.t.canon not in FLOAT:
                return Rat.atom(("idiv", x, y))
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[e.op]()
            return self.plain(r) if r is not None else None
        if e.k == "bin" and e.op in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.val(e.c[0], env), self.val(e.c[1], env)
            if isinstance(a, Rat) or isinstance(b, Rat):
                x, y = self.rat(a), self.rat(b)
                if x is None or y is None:
                    return None
                v = (x - y).value()
                if v is not None:
                    return int({"<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[e.op])
                return self.known(guard(x, e.op, y), env)
            return super().val(e, env)
        if e.k == "cond":
            t = self.truth(self.val(e.c[0], env))
            if t is not None:
                return self.val(e.c[1 if t else 2], env)
            a, b = self.rat(self.val(e.c[1], env)), self.rat(self.val(e.c[2], env))
            if a is None or b is None:
                return None
            g = self.guards(e.c[0], True, env)
            if len(g) == 1 and isinstance(g[0], tuple) and g[0][1] in ("<", "<="):
                d = g[0][0]                    # d < 0 ? a : b
                if d.same(a - b):
                    return fn("min", a, b)
                if d.same(b - a):
                    return fn("max", a, b)
            return None
        if e.k in ("ref", "mem", "idx") or e.k == "un" and e.op == "*":
            v = super().val(e, env)
            if v is None and not (e.t is not None and e.t.kind in ("arr", "vla")):
                p = self.loc(e, env)
                if p is not None and self.opaque(p) and "[*]" not in p and not self.dirty(p, env):
                    if e.t is not None and e.t.is_num:
                        return Rat.atom(self.name(p))
                    if e.t is not None and e.t.kind == "ptr":
                        return ("a", p + ("^",))
            return v
        if e.k == "call":
            return env.get(("T", e.id, len(self.stack)))
        return super().val(e, env)

    @staticmethod
    def name(p):
        out = ""
        for s in p:
            if s == "^":
                continue
            out += s if s.startswith("[") else ("." + s if out else s)
        return out

    def known(self, g, env):
        for h in env.get(("G",), ()):
            if isinstance(h, tuple) and isinstance(h[0], Rat):
                if same_guard(g, h):
                    return 1
                n = ((-h[0], "<=") if h[1] == "<" else (-h[0], "<")) if h[1] in ("<", "<=") else (h[0], FLIP[h[1]])
                if same_guard(g, n):
                    return 0
        return None

    def dirty(self, p, env):
        return any(len(k[1]) == len(p) and all(x == y or x == "[*]" for x, y in zip(k[1], p)) for k in env if k[0] == "D")

    @staticmethod
    def pattern(p):
        """All elements of the arrays on the path."""
        return tuple("[*]" if isinstance(s, str) and s.startswith("[") else s for s in p)

    # -- storage -----------------------------------------------------------------------------------
    def loc(self, e, env):
        e = e.strip()
        if e.k == "idx":
            i = self.val(e.c[1], env)
            if isinstance(i, Rat) or text(i) is not None:
                t = e.c[0].strip().t
                b = None
                if t is not None and t.kind in ("arr", "vla"):
                    b = self.loc(e.c[0], env)
                else:
                    v = self.val(e.c[0], env)
                    if isinstance(v, tuple) and v[0] == "a":
                        b = v[1]
                if b is None:
                    return None
                return b + ("[%s]" % self.rat(i),)
            if not (e.c[0].strip().t is not None and e.c[0].strip().t.kind in ("arr", "vla")) and isinstance(i, int):
                v = self.val(e.c[0], env)
                if isinstance(v, tuple) and v[0] == "a" and v[1][-1] == "^":
                    return v[1] + ("[%d]" % i,)
        if e.k == "mem" and e.a.get("arrow"):
            b = self.val(e.c[0], env)
            if isinstance(b, tuple) and b[0] == "a" and b[1][-1] == "^":
                return b[1] + (e.name,)
        if e.k == "un" and e.op == "*":
            b = self.val(e.c[0], env)
            if isinstance(b, tuple) and b[0] == "a" and b[1][-1] == "^":
                return b[1] + ("[0]",)
        return super().loc(e, env)

    def store(self, p, v, env):
        if p is None:
            return
        sym = next((i for i, s in enumerate(p) if isinstance(s, str) and s.startswith("[") and s != "[*]" and not s[1:-1].lstrip("-").isdigit()), None)
        if sym is not None:
            self.spoil(p, env)
            if v is not None:
                env[p] = v
            return
        super().store(p, v, env)

    def spoil(self, p, env):
        q = self.pattern(p)
        for k in [k for k in env if isinstance(k[0], str) and len(k) >= len(q) and self.pattern(k[:len(q)]) == q]:
            del env[k]
        env[("D", q)] = 1

    # -- conditions --------------------------------------------------------------------------------
    def guards(self, c, truth, env):
        c = c.strip()
        if c.k == "un" and c.op == "!":
            return self.guards(c.c[0], not truth, env)
        if c.k == "bin" and c.op in FLIP:
            x, y = self.rat(self.val(c.c[0], env)), self.rat(self.val(c.c[1], env))
            if x is not None and y is not None:
                return [guard(x, c.op if truth else FLIP[c.op], y)]
            for a, b in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                if self.val(b, env) == 0:
                    p = self.val(a, env)
                    if isinstance(p, tuple) and p[0] == "a":
                        return []
            return ["?" + c.where()]
        if c.k == "bin" and c.op in ASSIGN:
            return self.guards(c.c[0], truth, env)
        v = self.rat(self.val(c, env))
        if v is not None:
            return [guard(v, "!=" if truth else "==", Rat.const(0))]
        if isinstance(self.val(c, env), tuple):
            return []
        return ["?" + c.where()]

    def refine(self, c, truth, env):
        for g in self.guards(c, truth, env):
            env[("G",)] = env.get(("G",), frozenset()) | {g}
        return super().refine(c, truth, env)

    def fork(self, e, env):
        """The states in which a condition that is used as a value holds and does not hold."""
        if e is None or self.val(e, env) is not None:
            return [env]
        c, logic = e.strip(), False
        while c.k == "un" and c.op == "!" or c.k == "bin" and c.op in ("&&", "||"):
            c, logic = c.c[-1].strip(), True
        if not (c.k == "bin" and c.op in FLIP or logic and c.k in ("ref", "mem", "idx", "call")):
            return [env]
        out = []
        for truth in (True, False):
            if any(isinstance(g, str) for g in self.guards(c, truth, env)):
                return [env]
            s = self.refine(c, truth, dict(env))
            if self.val(e, s) is None:
                return [env]
            out.append(s)
        return out

    # -- execution ---------------------------------------------------------------------------------
    def call(self, c, env):
        if c.callee in PURE:
            a = [self.rat(self.val(x, env)) for x in c.args]
            if None in a:
                return [(env, None)]
            r = fn(c.callee, *a)
            return [(env, self.plain(r))]
        if c.callee in self.results:
            k = ("R", c.callee)
            env[k] = env.get(k, 0) + 1
            a = [self.val(x, env) for x in c.args]
            return [(env, self.results[c.callee](env[k] - 1, [self.string(x, env) if isinstance(x, tuple) else x for x in a]))]
        return super().call(c, env)

    def effect(self, e, env):
        r = None
        if e.k == "bin" and e.op == "=":
            r = e.c[1]
        elif e.k == "decl" and len(e.c) == 1 and e.c[0] is not None and e.c[0].k == "var" and e.c[0].c:
            r = e.c[0].c[-1]
        if r is not None and r.t is not None and r.t.is_num:
            ways = self.fork(r, env)
            if len(ways) > 1:
                return [x for s in ways for x in self.effect(e, s)]
        if e.k == "bin" and e.op in ASSIGN:
            p = self.loc(e.c[0], env)
            r = e.c[1]
            v = self.val(r, env)
            if e.op != "=":
                o = self.val(e.c[0], env)
                x, y = self.rat(o), self.rat(v)
                v = None
                if x is not None and y is not None and e.op in ("+=", "-=", "*=", "/="):
                    if e.op == "/=" and e.c[0].t is not None and e.c[0].t.canon not in FLOAT:
                        v = Rat.atom(("idiv", x, y))
                    else:
                        v = {"+=": lambda: x + y, "-=": lambda: x - y, "*=": lambda: x * y, "/=": lambda: x / y}[e.op]()
                        v = self.plain(v) if v is not None else None
            if p is not None and (self.opaque(p) or self.watch is not None and self.watch(p)):
                w = v
                while isinstance(w, Rat) and len(w.n) == 1 and len(w.d) == 1 and () in w.d:
                    (m, co), = w.n.items()
                    if co == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "trunc":
                        w = m[0][0][1]       # the conversion to the type of the image
                    else:
                        break
                self.stores.append((e, p, w, env.get(("G",), frozenset())))
            if e.c[0].t is not None and e.c[0].t.kind == "rec" and text(v) is None:
                v = None
            self.store(p, v, env)
            return [env]
        if e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            o = self.val(e.c[0], env)
            if isinstance(o, Rat):
                p = self.loc(e.c[0], env)
                if e.op[0] == "p":
                    env[("T", e.id, len(self.stack))] = o
                v = self.plain(o + Rat.const(1 if e.op[-1] == "+" else -1))
                if p is not None and (self.opaque(p) or self.watch is not None and self.watch(p)):
                    self.stores.append((e, p, v, env.get(("G",), frozenset())))
                self.store(p, v, env)
                return [env]
        return super().effect(e, env)

    # -- loops -------------------------------------------------------------------------------------
    def loops(self, f):
        """{head: blocks} of the natural loops."""
        if f not in self.heads:
            cfg = f.cfg
            pred = {}
            for b in cfg.b:
                for s in cfg.b[b].succ:
                    if s >= 0:
                        pred.setdefault(s, []).append(b)
            order, seen, back = [], set(), []
            stack = [(cfg.entry, iter(cfg.b[cfg.entry].succ))]
            on = {cfg.entry}
            seen.add(cfg.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s < 0:
                        continue
                    if s in on:
                        back.append((b, s))
                    elif s not in seen:
                        seen.add(s)
                        on.add(s)
                        stack.append((s, iter(cfg.b[s].succ)))
                        break
                else:
                    on.discard(b)
                    stack.pop()
            heads = {}
            for t, h in back:
                body = heads.setdefault(h, {h})
                work = [t]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred.get(x, [])
            self.heads[f] = heads
        return self.heads[f]

    def havoc(self, f, h, env):
        """Forget what the loop changes."""
        env = dict(env)
        for b in self.loops(f)[h]:
            for e in f.cfg.b[b].els:
                if e.k == "bin" and e.op in ASSIGN or e.k == "un" and e.op in ("++", "--", "p++", "p--"):
                    t = e.c[0].strip()
                    if t.k == "ref":
                        p = self.loc(t, env)
                        if p is not None:
                            self.drop(p, env)
                            if t.t is not None and t.t.is_num:
                                env[p] = Rat.atom("%s~%d" % (t.name, h))
                elif e.k == "call":
                    for a in e.args:
                        v = self.val(a, env)
                        if isinstance(v, tuple) and v[0] == "a" and not self.opaque(v[1]):
                            self.drop(v[1], env)
        for b in self.loops(f)[h]:
            for e in f.cfg.b[b].els:
                if e.k == "bin" and e.op in ASSIGN or e.k == "un" and e.op in ("++", "--", "p++", "p--"):
                    t = e.c[0].strip()
                    if t.k != "ref":
                        p = self.loc(t, env)
                        if p is not None:
                            self.spoil(p, env)
        return env

    def run(self, f, env):
        cfg = f.cfg
        heads = self.loops(f)
        depth = len(self.stack)
        work = [(cfg.entry, env, -1)]
        seen, count, out, done = {}, {}, [], set()
        unknown = {}                  # loop head -> visited as loop of unknown length
        while work:
            b, env, src = work.pop()
            if b < 0:
                continue
            for k in [k for k in env if k[0] == "T" and k[2] == depth]:
                del env[k]
            if b in heads:
                if src in heads[b] and unknown.get(b):
                    self.again(f, b, env)
                    continue           # the next iteration of a loop visited once
                if src not in heads[b]:
                    t = self.ahead(cfg, b, dict(env))
                    unknown[b] = t is None
                    if t is None:
                        before, env = env, self.havoc(f, b, env)
                        self.enter(f, b, before, env)
            fs = self.state(cfg, b, env, b in heads and not unknown.get(b))
            if fs in seen.setdefault(b, set()):
                continue
            seen[b].add(fs)
            count[b] = count.get(b, 0) + 1
            if count[b] > self.limit or self.deadline is not None and time.process_time() > self.deadline:
                raise OverflowError(f.name)
            if b == cfg.exit:
                self.leave(out, done, env, depth, None)
                continue
            blk = cfg.b[b]
            states, ret = [dict(env)], None
            for e in blk.els:
                if e.k == "return":
                    ret = e
                    break
                states = [x for s in states for x in self.element(e, s)]
            if ret is not None:
                if ret.c and ret.c[0] is not None:
                    states = [x for s in states for x in self.fork(ret.c[0], s)]
                for s in states:
                    self.leave(out, done, s, depth, self.val(ret.c[0], s) if ret.c and ret.c[0] is not None else None)
                continue
            if blk.noret:
                continue
            for s in states:
                if blk.term is not None and blk.term.k == "switch" and blk.cond is not None:
                    work += [(x, y, b) for x, y in self.switch(cfg, blk, s)]
                elif blk.cond is not None and len(blk.succ) == 2:
                    c = blk.cond.strip()
                    while c.k == "bin" and c.op in ("&&", "||"):
                        c = c.c[1].strip()
                    t = self.truth(self.val(c, s))
                    loop = b in heads and unknown.get(b)
                    way = self.choose(c, s) if t is None and not loop else None
                    if t is not False and way is not False:
                        work.append((blk.succ[0], self.refine(c, True, dict(s)) if t is None and not loop else dict(s), b))
                    if t is not True and way is not True:
                        work.append((blk.succ[1], self.refine(c, False, dict(s)) if t is None and not loop else dict(s), b))
                else:
                    for x in blk.succ:
                        work.append((x, dict(s), b))
        return out

    def enter(self, f, h, before, env):
        """A loop of unknown length is reached: the state before it, and at the beginning of any iteration."""

    def again(self, f, h, env):
        """The state after an iteration of a loop of unknown length."""

    def state(self, cfg, b, env, counted):
        """What tells states at one place apart; counted: at the head of a loop of known length."""
        return frozenset(env.items())

    def choose(self, c, env):
        """Which way to follow where a condition is not known; None: both."""
        return None

    def ahead(self, cfg, b, env):
        """The truth of the condition of a loop when it is reached, None if unknown."""
        blk = cfg.b[b]
        if blk.cond is None or len(blk.succ) != 2:
            return None
        for e in blk.els:
            if e.k == "call" or e.k == "bin" and e.op in ASSIGN or e.k == "un" and e.op in ("++", "--", "p++", "p--"):
                return None
        return self.truth(self.val(blk.cond, env))
