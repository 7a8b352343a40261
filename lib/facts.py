"""Branch facts: which conditions are known to hold at a program point.

A forward must-analysis over a function's CFG. A fact is (key, truth) where key is the canonical text of an
atomic condition. Facts are generated on branch edges (through !, &&, ||, comparisons with 0, boolean
variables assigned from a condition, and single-expression helper functions) and killed by stores."""
import re

from effects import ASSIGN


def deref(p):
    if p.startswith("&(") and p.endswith(")"):
        return p[2:-1]
    return p + "[0]"


def path(n, env=None):
    """Canonical text of an expression, modulo casts, *p/p[0]/-> and parameter substitution."""
    if env is None:
        c = n.a.get("_path")
        if c is None:
            c = n.a["_path"] = _path(n, None)
        return c
    return _path(n, env)


def _path(n, env=None):
    n = n.strip()
    k = n.k
    if n.v is not None and k not in ("ref",):
        return str(int(n.v)) if isinstance(n.v, (bool, int)) else str(n.v)
    if k == "ref":
        if n.a["dk"] == "enum":
            return str(n.a.get("v", n.name))
        if n.a["dk"] in ("var", "parm", "static"):
            if env and n.a["d"] in env:
                return env[n.a["d"]]
            return "%s#%d" % (n.name, n.a["d"])
        return n.name
    if k == "mem":
        b = path(n.c[0], env)
        return (deref(b) if n.a.get("arrow") else b) + "." + n.name
    if k == "idx":
        return "%s[%s]" % (path(n.c[0], env), path(n.c[1], env))
    if k == "un":
        if n.op == "*":
            return deref(path(n.c[0], env))
        if n.op == "&":
            s = path(n.c[0], env)
            return s[:-3] if s.endswith("[0]") else "&(%s)" % s
        return "%s(%s)" % (n.op, path(n.c[0], env))
    if k == "bin":
        l, r, op = path(n.c[0], env), path(n.c[1], env), n.op
        if op in ("+", "*", "==", "!=", "&", "|", "^") and l > r:
            l, r = r, l
        elif op in (">", ">="):
            op, l, r = {">": "<", ">=": "<="}[op], r, l
        return "(%s%s%s)" % (l, op, r)
    if k == "call":
        return "%s(%s)" % (n.callee or "?", ",".join(path(x, env) for x in n.args))
    if k == "cond":
        return "(%s?%s:%s)" % tuple(path(x, env) for x in n.c)
    if k in ("null", "zero"):
        return "0"
    if k == "str":
        return n.key
    return n.key


def iszero(n):
    s = n.strip()
    if s.k in ("null", "zero"):
        return True
    v = s.v
    return v is not None and not isinstance(v, str) and v == 0


class Facts:
    def __init__(self, prog, f, derive=None):
        self.prog, self.f = prog, f
        self.cfg = f.cfg
        self.derive = derive
        self.defs = {}
        self._singles()
        self._run()

    # -- atomic conditions ---------------------------------------------------------------------
    def literals(self, n, pol, env=None, depth=0, here=None):
        """Facts implied by condition n having truth value pol."""
        n = n.strip()
        if n.k == "un" and n.op == "!":
            return self.literals(n.c[0], not pol, env, depth, here)
        if n.k == "bin":
            if n.op == "&&":
                return (self.literals(n.c[0], True, env, depth, here) +
                        self.literals(n.c[1], True, env, depth, here)) if pol else []
            if n.op == "||":
                return [] if pol else (self.literals(n.c[0], False, env, depth, here) +
                                       self.literals(n.c[1], False, env, depth, here))
            if n.op in ("==", "!="):
                eq = (n.op == "==") == pol
                for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                    if iszero(b):
                        return self.literals(a, not eq, env, depth, here)
                    if b.strip().v == 1 and a.t is not None and self.boolish(a):
                        return self.literals(a, eq, env, depth, here)
                l, r = sorted((path(n.c[0], env), path(n.c[1], env)))
                return [("(%s==%s)" % (l, r), eq)]
            if n.op in ("<", "<=", ">", ">="):
                l, r, op = path(n.c[0], env), path(n.c[1], env), n.op
                if op in (">", ">="):
                    l, r, op = r, l, {">": "<", ">=": "<="}[op]
                if op == "<=":      # l <= r  ==  !(r < l)
                    return [("(%s<%s)" % (r, l), not pol)]
                return [("(%s<%s)" % (l, r), pol)]
        if n.k == "bin" and n.op == "=":
            return self.literals(n.c[0], pol, env, depth, here)
        out = [(path(n, env), pol)]
        if n.k == "call" and depth < 3:
            for g in self.prog.resolve(n)[:1]:
                rs = [r for r in g.find("return")]
                if len(rs) == 1 and rs[0].c and rs[0].c[0] is not None:
                    sub = {d: path(a, env) for (_, d, _), a in zip(g.params, n.args)}
                    out += self.literals(rs[0].c[0], pol, sub, depth + 1)
                elif g.ret is not None and g.ret.kind in ("bool", "int", "char", "uchar"):
                    sub = {d: path(a, env) for (_, d, _), a in zip(g.params, n.args)}
                    out += self._helper(g, pol, sub, depth + 1)
        if n.k == "ref" and here is not None and env is None:
            for x in here:
                if len(x) == 3 and x[1] == n.a.get("d") and depth < 3:
                    out += self.literals(self.f.byid[x[2]], pol, None, depth + 1)
        return out

    def _helper(self, g, pol, sub, depth):
        """Facts common to every return of pol in a helper made of 'if (c) return const;' statements."""
        memo = self.prog.__dict__.setdefault("_helper_facts", {})
        key = (g.rel, g.name, g.line, pol, depth)
        if key not in memo:
            memo[key] = ()          # recursion: nothing is known
            memo[key] = self._helper_facts(g, pol, depth)
        res = memo[key]
        if not res:
            return []
        out = []
        for key, t in res:
            k = key
            for d, a in sub.items():
                k = re.sub(r"\b\w+#%d\b" % d, lambda m: a, k)
            k = re.sub(r"&\(([^()]*)\)\[0\]", r"\1", k)
            if not re.search(r"#", key) or all(int(x) in sub for x in re.findall(r"#(\d+)", key)):
                out.append((k, t))
        return out

    def _helper_facts(self, g, pol, depth):
        if depth >= 3 or len(g.byid) >= 400:
            return ()
        try:
            F = self.prog.__dict__.setdefault("_helper_runs", {}).get(id(g))
            if F is None:
                F = self.prog._helper_runs[id(g)] = Facts(self.prog, g)
        except Exception:
            return ()
        res = None
        for r in g.find("return"):
            if not r.c or r.c[0] is None:
                return ()
            v = r.c[0].strip().v
            here = F.at(r)
            if v is not None and not isinstance(v, str):
                if bool(v) != pol:
                    continue
                fs = {x for x in here if len(x) == 2}
            else:
                fs = {x for x in here if len(x) == 2} | set(F.literals(r.c[0], pol, None, depth, here))
            res = fs if res is None else res & fs
        return tuple(sorted(res)) if res else ()

    def boolish(self, n):
        s = n.strip()
        t = s.t
        return t is not None and (t.kind == "bool" or t.sp in ("bool", "small")) or \
            s.k == "bin" and s.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or s.k == "un" and s.op == "!"

    # -- transfer ------------------------------------------------------------------------------
    def _singles(self):
        pass

    def _kill(self, S, pred):
        return frozenset(x for x in S if not pred(x))

    def deps(self, x):
        """Variable ids in a fact."""
        c = self.__dict__.setdefault("_deps", {})
        r = c.get(x)
        if r is None:
            r = c[x] = self._deps_of(x)
        return r

    def _deps_of(self, x):
        if len(x) == 2:
            return {int(i) for i in re.findall(r"#(\d+)", x[0])}
        if len(x) == 4:
            return {int(i) for k, _ in x[1] for i in re.findall(r"#(\d+)", k)}
        return {x[1]} | {m.a["d"] for m in self.f.byid[x[2]].walk() if m.k == "ref" and "d" in m.a}

    def assign_var(self, S, d, rhs, eid):
        S = self._kill(S, lambda x: d in self.deps(x))
        if rhs is not None and not any(m.k == "ref" and m.a.get("d") == d for m in rhs.walk()):
            S = S | {("def", d, rhs.id)}
            v = rhs.strip()
            if iszero(v) or v.v is not None and not isinstance(v.v, str):
                S = S | {(self._name(d), not iszero(v))}
                if v.t is not None and v.t.is_num and not isinstance(v.v, str):
                    S = S | {("(0<%s)" % self._name(d), v.v is not None and v.v > 0)}
            # a copied variable inherits the facts of its source
            if v.k == "ref" and v.a.get("dk") in ("var", "parm"):
                add = set()
                lhs = None
                for x in S:
                    if len(x) == 2 and v.a["d"] in self.deps(x):
                        if lhs is None:
                            lhs = self._name(d)
                        add.add((re.sub(r"\b\w+#%d\b" % v.a["d"], lhs, x[0]), x[1]))
                S = S | add
        return S

    def count_up(self, S, d, up, eid):
        """d is increased (up) or otherwise updated: a count that was not negative is positive afterwards."""
        n = self._name(d)
        pos = up and ((n, False) in S or ("(0<%s)" % n, True) in S)
        S = self.assign_var(S, d, None, eid)
        return S | {(n, True), ("(0<%s)" % n, True)} if pos else S

    def _name(self, d):
        names = self.__dict__.get("_names")
        if names is None:
            names = self._names = {n.a["d"]: "%s#%d" % (n.name, n.a["d"]) for n in self.f.walk()
                                   if n.k in ("ref", "var") and "d" in n.a}
        return names.get(d, "?#%s" % d)

    def step(self, S, e):
        if e.k not in ("decl", "var", "bin", "un", "call"):
            return S
        c = self.__dict__.setdefault("_steps", {})
        r = c.get((e.id, S))
        if r is None:
            r = c[(e.id, S)] = self._step(S, e)
        return r

    def _step(self, S, e):
        if e.k == "decl":
            for v in e.c:
                if v.k == "var":
                    S = self.assign_var(S, v.a["d"], v.c[0] if v.c else None, e.id)
            return S
        if e.k == "var":
            return self.assign_var(S, e.a["d"], e.c[0] if e.c else None, e.id)
        if e.k == "bin" and (e.op == "=" or e.op in ASSIGN):
            l = e.c[0].strip()
            if l.k == "ref":
                if e.op == "+=":
                    v = e.c[1].strip().v
                    return self.count_up(S, l.a.get("d"), v is not None and not isinstance(v, str) and v > 0, e.id)
                return self.assign_var(S, l.a.get("d"), e.c[1] if e.op == "=" else None, e.id)
            lp = path(l)
            m = l
            while m.k == "idx":
                m = m.c[0].strip()
            tag = "." + m.name if m.k == "mem" else path(m)
            v = e.c[1].strip().v if e.op == "=" else None
            S = self._kill(S, lambda x: len(x) == 2 and tag in x[0] or
                           len(x) == 4 and any(tag in k for k, _ in x[1]) or
                           len(x) == 3 and tag in path(self.f.byid[x[2]]))
            if v is not None and not isinstance(v, str):
                S = S | {(lp, bool(v))}
            return S
        if e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            l = e.c[0].strip()
            if l.k == "ref":
                return self.count_up(S, l.a.get("d"), e.op in ("++", "p++"), e.id)
        if e.k == "call":
            ds = set()
            for a in e.args:
                s = a.strip()
                if s.k == "un" and s.op == "&":
                    b = s.c[0].strip()
                    while b.k in ("idx", "mem") and not b.a.get("arrow"):
                        b = b.c[0].strip()
                    if b.k == "ref" and "d" in b.a and s.c[0].strip().k == "ref":
                        ds.add(b.a["d"])
            if ds:
                S = self._kill(S, lambda x: ds & self.deps(x))
        return S

    def edge(self, b, i, S):
        c = self.__dict__.setdefault("_edges", {})
        r = c.get((b.id, i, S))
        if r is None:
            r = c[(b.id, i, S)] = self._edge(b, i, S)
        return r

    def _edge(self, b, i, S):
        if b.cond is None or len(b.succ) != 2 or (b.term is not None and b.term.k == "switch"):
            return S
        lits = set(self.literals(b.cond, i == 0, None, 0, S))
        # a short-circuit operand decides the conditions it is part of: remember them as clauses
        n, pol = b.cond, i == 0
        while True:
            p = n.p
            if p is None:
                break
            if p.k == "cast":
                n = p
                continue
            if p.k == "un" and p.op == "!":
                n, pol = p, not pol
                continue
            if p.k == "bin" and p.op in ("&&", "||"):
                right = p.c[1] is n
                if (p.op == "&&") != pol or right:
                    n = p
                    c = self.clause(p, pol)
                    if c:
                        lits.add(("|", c, None, None))
                    continue
            break
        c = self.clause(b.cond, i == 0)
        if c:
            lits.add(("|", c, None, None))
        return S | frozenset(lits)

    def clause(self, n, pol):
        """Disjunction of literals equivalent to n == pol, if it is one with several members."""
        n = n.strip()
        if n.k == "un" and n.op == "!":
            return self.clause(n.c[0], not pol)
        if n.k == "bin" and (n.op == "||" and pol or n.op == "&&" and not pol):
            out = set()
            for c in n.c:
                s = self.clause(c, pol)
                if s:
                    out |= s
                else:
                    l = self.literals(c, pol)
                    if len(l) != 1:
                        return None
                    out.add(l[0])
            return frozenset(out)
        return None

    @staticmethod
    def implies(S, clause):
        """Do the facts imply the disjunction (a set of literals)?"""
        return any(len(x) == 2 and x in clause or len(x) == 4 and x[1] <= clause for x in S)

    def _run(self):
        cfg = self.cfg
        self.inn = {cfg.entry: frozenset()}
        work = [cfg.entry]
        n = 0
        while work:
            n += 1
            if n > 60 * len(cfg.b) + 500:
                break
            x = work.pop()
            b = cfg.b[x]
            S = self.inn[x]
            for e in b.els:
                S = self.step(S, e)
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                T = self.edge(b, i, S)
                if s not in self.inn:
                    self.inn[s] = T
                    work.append(s)
                else:
                    U = self.inn[s] & T
                    if U != self.inn[s]:
                        self.inn[s] = U
                        work.append(s)

    def locate(self, n):
        """CFG position of a node: its own or that of the closest ancestor that has one."""
        w = self.cfg.where.get(n.id)
        if w is not None:
            return w
        for c in n.walk():
            w = self.cfg.where.get(c.id)
            if w is not None:
                return w
        for u in n.up():
            w = self.cfg.where.get(u.id)
            if w is not None:
                return w
        return None

    def at(self, n):
        """Facts that hold just before node n is evaluated (None: unreachable)."""
        w = self.locate(n)
        if w is None or w[0] not in self.inn:
            return frozenset()
        c = self.__dict__.setdefault("_at", {})
        if w not in c:
            S = self.inn[w[0]]
            for i, e in enumerate(self.cfg.b[w[0]].els):
                c[(w[0], i)] = S
                S = self.step(S, e)
            c[(w[0], len(self.cfg.b[w[0]].els))] = S
        return c[w]
